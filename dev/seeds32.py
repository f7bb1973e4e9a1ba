exec(open('/verif/dev/bugs32.py').read())
LIST='''l := xmldot.Result{Type: xmldot.Array}
for i := 0; i < 2000; i++ { l.Results = append(l.Results, xmldot.Result{Type: xmldot.String, Str: strings.Repeat("x", i)}) }
'''
SEEDS={
'c32-reverse-long': dict(property='C32', needs='a list of more than 1000 results',
  what='@reverse hands a long list back in its old order',
  edits=EDITS['C32-rev-big'], imports=['strings'],
  demo=LIST+'''a := xmldot.GetModifier("reverse").Apply(l).Results
if len(a) != 2000 || a[0].Str != l.Results[1999].Str { fail("%d", len(a)) }'''),
'c32-reverse-half': dict(property='C32', needs='a list of more than 1024 results',
  what='@reverse swaps only the outer 512 pairs of a list',
  edits=EDITS['C32-rev-half'], imports=['strings'],
  demo=LIST+'''a := xmldot.GetModifier("reverse").Apply(l).Results
if len(a) != 2000 { fail("%d", len(a)) }
for i := range a { if len(a[i].Str) != 1999-i { fail("%d holds %d", i, len(a[i].Str)) } }'''),
'c32-last-cap': dict(property='C32', needs='a list of more than 1000 results',
  what='@last answers with the thousandth result of a longer list',
  edits=EDITS['C32-last-cap'], imports=['strings'],
  demo=LIST+'''if r := xmldot.GetModifier("last").Apply(l); len(r.Str) != 1999 { fail("%d", len(r.Str)) }'''),
'c32-sort-dedup': dict(property='C32', needs='a list with equal elements',
  what='@sort drops elements with the same markup',
  edits=EDITS['C32-sort-dedup'],
  demo='''e := xmldot.Result{Type: xmldot.Element, Raw: "<k>1</k>", Str: "1"}
l := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{e, e, e}}
if n := len(xmldot.GetModifier("sort").Apply(l).Results); n != 3 { fail("%d", n) }'''),
'c32-flat-trim': dict(property='C32', needs='a flattened list whose results have white space around the text',
  what='@flatten trims the texts of the results it keeps',
  edits=EDITS['C32-flat-trim'],
  demo='''l := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{{Type: xmldot.String, Str: " a "}, {Type: xmldot.String, Str: "b"}}}
r := xmldot.GetModifier("flatten").Apply(l).Results
if len(r) != 2 || r[0].Str != " a " { fail("%v", r) }'''),
}
