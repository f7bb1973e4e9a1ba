exec(open('/verif/dev/bugs11.py').read())
SEEDS={
'c05-utf8-clean': dict(property='C05', needs='a failing edit with options on a document with a byte that is not UTF-8',
  what='the document handed back with an error has its odd bytes replaced',
  edits=EDITS['C05-utf8-clean'],
  demo='''in := "<a>\\xff</a>"
out, err := xmldot.SetWithOptions(in, "", "x", xmldot.DefaultOptions())
if err == nil || out != in { fail("%q %v", out, err) }'''),
'c05-setmany-partial': dict(property='C05', needs='a batch whose second edit fails',
  what='SetMany hands back the half-edited document together with the error',
  edits=EDITS['C05-setmany-defer'],
  demo='''in := "<a><b>1</b></a>"
out, err := xmldot.SetMany(in, []string{"a.b", ""}, []interface{}{"2", "3"})
outb, errb := xmldot.SetManyBytes([]byte(in), []string{"a.b", ""}, []interface{}{"2", struct{ X int }{1}})
if err == nil || out != in { fail("%q %v", out, err) }
if errb == nil || string(outb) != in { fail("%q %v", outb, errb) }'''),
'c06-value-type': dict(property='C06', needs='a value of an unsupported type, matched with errors.Is',
  what='the error for an unsupported value no longer is ErrInvalidValue',
  edits=EDITS['C06-custom-type'], imports=['errors'],
  demo='''_, err := xmldot.Set("<a><b>1</b></a>", "a.b", struct{ X int }{1})
if !errors.Is(err, xmldot.ErrInvalidValue) { fail("%v", err) }'''),
'c09-blank-doc': dict(property='C09', needs='an edit of a document of white space only',
  what='a document that consists of white space is edited although it is not well-formed',
  edits=EDITS['C09-ws-doc'],
  demo='''if out, err := xmldot.Set("  \\n", "a.b", "x"); err == nil { fail("%q", out) }'''),
'c10-far-skip': dict(property='C10', needs='a fragment with a processing instruction followed by tags and "]>"',
  what='the fragment check skips from a processing instruction to the next "]>"',
  edits=EDITS['C10-decl-pi'],
  demo='''if out, err := xmldot.SetRaw("<a><b>1</b></a>", "a.b", "<?p x?></b><evil/><b> ]>"); err == nil { fail("%q", out) }'''),
}
