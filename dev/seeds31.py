exec(open('/verif/dev/bugs31.py').read())
SEEDS={
'c31-int-range': dict(property='C31', needs='a whole number too large for 64 bits',
  what='Int returns the largest 64-bit number for a text that does not fit instead of 0',
  edits=EDITS['C31-int-range'],
  demo='''r := xmldot.Get("<a><n>99999999999999999999</n></a>", "a.n")
if r.Int() != 0 { fail("got %d", r.Int()) }'''),
'c31-each-skip': dict(property='C31', needs='a list that contains a missing result',
  what='missing results inside a list are passed over when the list is visited',
  edits=EDITS['C31-foreach-skipempty'],
  demo='''l := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{{Type: xmldot.String, Str: "a"}, {}, {Type: xmldot.String, Str: "b"}}}
n := 0
l.ForEach(func(i int, v xmldot.Result) bool { n++; return true })
if n != 3 { fail("visited %d", n) }'''),
'c31-missing-opts': dict(property='C31', needs='a query with options on a missing result that still carries raw text',
  what='GetWithOptions looks into the raw text of a missing result',
  edits=EDITS['C31-opts-null'],
  demo='''r := xmldot.Result{Type: xmldot.Null, Raw: "<b>1</b>"}
if q := r.GetWithOptions("b", &xmldot.Options{CaseSensitive: false}); q.Exists() { fail("found %q", q.String()) }'''),
'c31-each-index': dict(property='C31', needs='a list of more than 512 results',
  what='the index handed to the visitor starts again at 0 after 512 results',
  edits=EDITS['C31-foreach-chunk'],
  demo='''l := xmldot.Result{Type: xmldot.Array, Results: make([]xmldot.Result, 600)}
last := -1
l.ForEach(func(i int, v xmldot.Result) bool { last = i; return true })
if last != 599 { fail("last index %d", last) }'''),
}
