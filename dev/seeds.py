# Planted bugs; dev/seed.py turns them into /verif/seeded/<id>.
SEEDS = {
'c18-void': dict(property='C18', needs='an unclosed element named like an HTML void element',
  what='documents with an unclosed <br> are reported valid and can be edited',
  edits=[('validate.go', "if !isSelfClosing {\n\t\tp.tagStack", "if !isSelfClosing && name != \"br\" {\n\t\tp.tagStack")],
  demo='''if xmldot.Valid("<a>x<br>y</a>") { fail("unclosed br accepted") }'''),
'c18-deep-mismatch': dict(property='C18', needs='a mismatched closing tag nested 64 or more levels deep',
  what='mismatched closing tags are accepted in deeply nested parts of a document',
  edits=[('validate.go', "if openTag.name != name {", "if openTag.name != name && len(p.tagStack) < 64 {")],
  imports=['strings'],
  demo='''d := strings.Repeat("<a>", 70) + "</b>" + strings.Repeat("</a>", 69)
if xmldot.Valid(d) { fail("mismatched tag accepted") }'''),
'c18-stray-close': dict(property='C18', needs='an extra closing tag after the root element was closed',
  what='a stray closing tag after the root is accepted',
  edits=[('validate.go', "if len(p.tagStack) == 0 {\n\t\treturn &ValidateError{\n\t\t\tLine:    tagLine,", "if len(p.tagStack) == 0 {\n\t\tif p.rootClosed {\n\t\t\treturn nil\n\t\t}\n\t\treturn &ValidateError{\n\t\t\tLine:    tagLine,")],
  demo='''if xmldot.Valid("<a></a></b>") { fail("stray closing tag accepted") }'''),
'c10-nested-decl': dict(property='C10', needs='a DOCTYPE in a raw fragment after an opening tag',
  what='declarations are only rejected at the top level of a fragment',
  edits=[('set.go', "			} else if next == '!' || next == '?' {", "			} else if (next == '!' || next == '?') && len(tagStack) > 0 {\n				endPos := strings.Index(rawxml[i:], \">\")\n				if endPos == -1 {\n					return ErrInvalidValue\n				}\n				i += endPos + 1\n				continue\n			} else if next == '!' || next == '?' {")],
  demo='''o, err := xmldot.SetRaw("<root><c>1</c></root>", "root.c", "<x><!DOCTYPE foo></x>")
if err == nil { fail("DOCTYPE accepted: %s", o) }'''),
'c09-skip-revalidate': dict(property='C09', needs='setting a value in a malformed document whose first character is white space',
  what='malformed documents starting with white space are edited',
  edits=[('set.go', "if len(xml) > 0 && !ValidBytes(xml) {", "if len(xml) > 0 && xml[0] == '<' && !ValidBytes(xml) {")],
  demo='''o, err := xmldot.Set(" <a><b>1</a>", "a.b", "2")
if err == nil { fail("malformed document edited: %s", o) }'''),
'c08-valid-slack': dict(property='C08', needs='a document between 10 MiB and 16 MiB passed to the validator',
  what='the validator accepts documents above the size limit',
  edits=[('validate.go', "if p.dataLen > MaxDocumentSize {", "if p.dataLen > MaxDocumentSize && p.data[0] != '<' {")],
  imports=['strings'],
  demo='''d := "<a>" + strings.Repeat("x", 11<<20) + "</a>"
if xmldot.Valid(d) { fail("oversized document valid") }'''),
'c08-append-nolimit': dict(property='C08', needs='appending a value larger than 5 MiB given as raw bytes',
  what='raw values larger than the limit are appended',
  edits=[('builder.go', "	if len(xmlValue) > MaxValueSize {\n		return fmt.Errorf(\"%w: value exceeds maximum size of %d bytes\", ErrInvalidValue, MaxValueSize)", "	if len(xmlValue) > MaxValueSize && !isRaw {\n		return fmt.Errorf(\"%w: value exceeds maximum size of %d bytes\", ErrInvalidValue, MaxValueSize)"),],
  imports=['bytes'],
  demo='''_, err := xmldot.Set("<a><b>1</b></a>", "a.b", bytes.Repeat([]byte("x"), 6<<20))
if err == nil { fail("oversized raw value written") }'''),
'c05-partial-batch': dict(property='C05', needs='a batch of deletions whose second path is invalid',
  what='a failing batch returns the partly edited document',
  edits=[('set.go', "			return xml, fmt.Errorf(\"error deleting path %q: %w\", path, err)", "			return result, fmt.Errorf(\"error deleting path %q: %w\", path, err)"),
         ('set.go', "	// Execute the delete operation\n	if err := builder.deleteElement(segments); err != nil {\n		return xml, err", "	// Execute the delete operation\n	if err := builder.deleteElement(segments); err != nil {\n		return xml, err")],
  demo='''d := "<a><b>1</b><c>2</c></a>"
o, err := xmldot.DeleteMany(d, "a.b", "")
if err == nil { fail("no error") }
ob, err := xmldot.DeleteManyBytes([]byte(d), "a.b", "")
if err == nil { fail("no error") }
if o != d || string(ob) != d { fail("document changed although the batch failed: %s", ob) }'''),
'c06-unwrapped': dict(property='C06', needs='setting an attribute below a path that cannot be created',
  what='the error for an attribute whose parent cannot be created no longer matches ErrInvalidPath',
  edits=[('builder.go', "return fmt.Errorf(\"failed to create parent element: %w\", err)", "return fmt.Errorf(\"failed to create parent element: %v\", err)")],
  imports=['errors'],
  demo='''_, err := xmldot.Set("<a><b>1</b></a>", "a.x.*.@id", "1")
if err == nil { fail("no error") }
if !errors.Is(err, xmldot.ErrInvalidPath) { fail("error not classifiable: %v", err) }'''),
'c07-del-unsorted': dict(property='C07', needs='deleting one of several attributes, many times',
  what='the order of the remaining attributes follows the map iteration order',
  edits=[('builder.go', "	sort.Strings(attrNames)\n\n	// Copy all attributes except", "	// Copy all attributes except")],
  demo='''d := `<a b="1" c="2" d="3" e="4" f="5" g="6"/>`
first, _ := xmldot.Delete(d, "a.@b")
for i := 0; i < 200; i++ {
	if o, _ := xmldot.Delete(d, "a.@b"); o != first { fail("two answers: %s / %s", first, o) }
}'''),
'c15-env': dict(property='C15', needs='the environment variable XMLDOT_INDENT being set',
  what='the default options read the environment',
  edits=[('options.go', "func DefaultOptions() *Options {\n	return &Options{", "func DefaultOptions() *Options {\n	if v, ok := os.LookupEnv(\"XMLDOT_FOLD\"); ok && v != \"\" {\n		return &Options{Namespaces: map[string]string{}}\n	}\n	return &Options{"), ('options.go', 'package xmldot\n', 'package xmldot\n\nimport "os"\n')],
  imports=['os'],
  demo='''os.Setenv("XMLDOT_FOLD", "1")
if !xmldot.DefaultOptions().CaseSensitive { fail("environment read") }'''),

'c16-unreg-at': dict(property='C16', needs='removing a built-in modifier by its written form, with the leading @',
  what='built-in modifiers can be removed',
  edits=[('modifier.go', "	delete(modifierRegistry, name)\n", "	delete(modifierRegistry, strings.TrimPrefix(name, \"@\"))\n")],
  demo="""_ = xmldot.UnregisterModifier("@first")
if xmldot.GetModifier("first") == nil { fail("built-in removed") }"""),
'c16-byname': dict(property='C16', needs='registering a modifier under a new name while its Name method returns a built-in name',
  what='a built-in modifier is silently replaced by a custom one',
  edits=[('modifier.go', "	modifierRegistry[name] = m\n	return nil", "	modifierRegistry[name] = m\n	if m != nil && m.Name() != \"\" {\n		modifierRegistry[m.Name()] = m\n	}\n	return nil")],
  demo="""_ = xmldot.RegisterModifier("mine", xmldot.NewModifierFunc("first", func(r xmldot.Result) xmldot.Result { return xmldot.Result{} }))
r := xmldot.Get("<a><b>1</b><b>2</b></a>", "a.b.#.%|@first")
if !r.Exists() { fail("built-in replaced") }"""),
'c24-dedup': dict(property='C24', needs='the same modifier written twice in a row',
  what='the second of two equal modifiers in a chain is skipped',
  edits=[('modifier.go', "	for _, name := range modifierNames {\n		mod := GetModifier(name)", "	prev := \"\"\n	for _, name := range modifierNames {\n		if name == prev && name != \"reverse\" {\n			continue\n		}\n		prev = name\n		mod := GetModifier(name)")],
  demo="""n := 0
_ = xmldot.RegisterModifier("cnt", xmldot.NewModifierFunc("cnt", func(r xmldot.Result) xmldot.Result { n++; return r }))
xmldot.Get("<a><b>1</b></a>", "a.b|@cnt|@cnt")
if n != 2 { fail("modifier ran %d times", n) }"""),
'c24-unknown-keeps': dict(property='C24', needs='an unknown modifier after a query that yields an array',
  what='an unknown modifier on an array result is ignored',
  edits=[('modifier.go', "			// Future enhancement: return error type with modifier name\n			return Result{Type: Null}", "			// Future enhancement: return error type with modifier name\n			if current.Type == Array {\n				return current\n			}\n			return Result{Type: Null}")],
  demo="""r := xmldot.Get("<a><b>1</b><b>2</b></a>", "a.*|@nosuch")
if r.Exists() { fail("unknown modifier ignored: %v", r) }"""),

'c22-le-zero': dict(property='C22', needs='an ordering filter comparing with zero',
  what='the <= operator excludes equality when the filter value is zero',
  edits=[('filter.go', 'return actualNum <= filterNum', 'return actualNum <= filterNum && filterNum != 0 || actualNum < filterNum')],
  demo="""r := xmldot.Get("<a><b><n>0</n><t>x</t></b></a>", "a.b.#(n<=0).t")
if r.String() != "x" { fail("0<=0 does not match") }"""),
'c22-attr-fold': dict(property='C22', needs='a filter on an attribute written with an upper-case letter',
  what='attribute filters look up the lower-cased attribute name',
  edits=[('filter.go', 'attrName := filter.Path[1:]', 'attrName := strings.ToLower(filter.Path[1:])')],
  demo="""r := xmldot.Get(`<a><b Id="1"><t>x</t></b></a>`, "a.b.#(@Id==1).t")
if r.String() != "x" { fail("attribute filter does not match") }"""),
'c23-neg-gaveup': dict(property='C23', needs='a negated pattern filter on a value and pattern beyond the step limit',
  what='the negated pattern operator matches when the matcher gave up',
  edits=[('filter.go', "		if stopped {\n			return false\n		}", "		if stopped && filter.Op == OpPatternMatch {\n			return false\n		}")],
  imports=['strings'],
  demo="""r := xmldot.Get("<a><b><n>"+strings.Repeat("x", 20000)+"</n><t>y</t></b></a>", "a.b.#(n!%x*z).t")
if r.Exists() { fail("filter matches although the matcher gave up") }"""),
'c23-limit': dict(property='C23', needs='a pattern filter on a long value',
  what='the step limit grows with the length of the value',
  edits=[('filter.go', 'pattern.Match(actualValue, patternStr, MaxPatternIterations)', 'pattern.Match(actualValue, patternStr, MaxPatternIterations+len(patternStr)*len(actualValue))')],
  imports=['strings'],
  demo="""r := xmldot.Get("<a><b><n>"+strings.Repeat("x", 20000)+"</n><t>y</t></b></a>", "a.b.#(n%x*x).t")
if r.Exists() { fail("match took more than the allowed number of steps") }"""),

'c19-untracked-ws': dict(property='C19', needs='a newline between the equals sign and the value of an attribute',
  what='white space after the equals sign is skipped without counting lines',
  edits=[('validate.go', '		p.skipWhitespaceTracked()\n\n		// Read attribute value', '		p.skipWhitespace()\n\n		// Read attribute value')],
  demo=r"""e := xmldot.ValidateWithError("<a b=\n\n1/>")
if e == nil || e.Line != 3 || e.Column != 0 { fail("wrong position: %v", e) }"""),
'c19-taginfo-mix': dict(property='C19', needs='an unclosed element whose opening tag spans several lines',
  what='an unclosed element is reported on the line its opening tag ends, in the column it starts',
  edits=[('validate.go', '			line:   tagLine,\n			column: tagColumn,', '			line:   p.line,\n			column: tagColumn,')],
  demo=r"""e := xmldot.ValidateWithError("<a\n b='1'\n>")
if e == nil || e.Line != 1 || e.Column != 0 { fail("wrong position: %v", e) }"""),

'c03-opts-ns': dict(property='C03', needs='an options-variant query with a non-empty namespace map',
  what='a query adds an entry to the caller namespace map',
  edits=[('get.go', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	if opts != nil && len(opts.Namespaces) > 0 {\n		if _, ok := opts.Namespaces["xml"]; !ok {\n			opts.Namespaces["xml"] = "http://www.w3.org/XML/1998/namespace"\n		}\n	}\n')],
  demo="""o := xmldot.DefaultOptions()
o.Namespaces = map[string]string{"n": "urn:n"}
xmldot.GetWithOptions("<a>1</a>", "a", o)
if len(o.Namespaces) != 1 { fail("options changed: %v", o.Namespaces) }"""),
'c03-sort-big': dict(property='C03', needs='the sort modifier applied by the user to a list of at least 64 results',
  what='long lists are sorted in place',
  edits=[('modifier.go', '	sorted := make([]Result, len(r.Results))\n	copy(sorted, r.Results)\n', '	sorted := r.Results\n	if len(sorted) < 64 {\n		sorted = append([]Result(nil), r.Results...)\n	}\n')],
  demo="""var rs []xmldot.Result
for i := 100; i > 0; i-- { rs = append(rs, xmldot.Result{Type: xmldot.Number, Num: float64(i)}) }
xmldot.GetModifier("sort").Apply(xmldot.Result{Type: xmldot.Array, Results: rs})
if rs[0].Num != 100 { fail("list of the caller was reordered") }"""),
'c04-big-only': dict(property='C04', needs='an element with more than 4096 bytes of content, read from a byte slice that is overwritten later',
  what='the text of large elements shares memory with the buffer of the caller',
  edits=[('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return bytesToString(p.data[contentStart:closeTagStart])'), ('get.go', '// stringToBytes converts', 'func bytesToString(b []byte) string {\n	if len(b) < 4096 {\n		return string(b)\n	}\n	return unsafe.String(&b[0], len(b))\n}\n\n// stringToBytes converts')],
  imports=['strings'],
  demo="""d := []byte("<a>"+strings.Repeat("x", 5000)+"</a>")
r := xmldot.GetBytes(d, "a")
w := strings.Clone(r.Raw)
for i := range d { d[i] = 'z' }
if r.Raw != w || strings.Contains(r.String(), "z") { fail("result changed with the buffer") }"""),

'c01-early-unlock': dict(property='C01', needs='registering a nil modifier, then any other use of modifiers',
  what='one return of RegisterModifier keeps the registry locked, so every later modifier call hangs',
  edits=[('modifier.go', '	modifierMu.Lock()\n	defer modifierMu.Unlock()\n\n	if _, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n\n	modifierRegistry[name] = m\n	return nil\n', '	modifierMu.Lock()\n	if _, exists := modifierRegistry[name]; exists {\n		modifierMu.Unlock()\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n	if m == nil {\n		return fmt.Errorf("modifier %q is nil", name)\n	}\n	modifierRegistry[name] = m\n	modifierMu.Unlock()\n	return nil\n')],
  imports=['time'],
  demo="""done := make(chan bool)
go func() { xmldot.RegisterModifier("nothing", nil); xmldot.GetModifier("sort"); done <- true }()
select {
case <-done:
case <-time.After(20 * time.Second): fail("modifier lookup hangs")
}"""),
'c01-fmt-locked': dict(property='C01', needs='registering a name twice where the first modifier has a String method that uses the library',
  what='the error text formats the registered modifier while the registry is locked, running user code under the lock',
  edits=[('modifier.go', '	if _, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n', '	if old, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered as %v", name, old)\n	}\n')],
  imports=['time'],
  decls="""type named struct{}
func (named) Name() string { return "n" }
func (named) Apply(r xmldot.Result) xmldot.Result { return r }
func (named) String() string { xmldot.GetModifier("sort"); return "n" }""",
  demo="""done := make(chan bool)
go func() { xmldot.RegisterModifier("n", named{}); xmldot.RegisterModifier("n", named{}); done <- true }()
select {
case <-done:
case <-time.After(20 * time.Second): fail("registration hangs")
}"""),

'c02-key-trim': dict(property='C02', needs='two paths that differ only in surrounding white space, queried one after the other',
  what='the parsed-path cache drops white space from its key, so one path is answered with the segments of another',
  edits=[('path.go', 'if cached, ok := pathCache[path]; ok', 'if cached, ok := pathCache[strings.TrimSpace(path)]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache[strings.TrimSpace(path)] = cached')],
  demo="""if xmldot.Get("<a><b>1</b></a>", "a.b ").Exists() { fail("path with blank matched") }
if xmldot.Get("<a><b>1</b></a>", "a.b").String() != "1" { fail("earlier query changed the result") }"""),
'c02-filter-lower': dict(property='C02', needs='a case-insensitive query with a filter on a mixed-case name, followed by a case-sensitive one with the same path',
  what='folding the filter name writes into the filter shared with the cached path',
  edits=[('get.go', '				segments[i].Value = toLowerASCII(segments[i].Value)\n			}\n', '				segments[i].Value = toLowerASCII(segments[i].Value)\n			}\n			if f := segments[i].Filter; f != nil {\n				f.Path = toLowerASCII(f.Path)\n			}\n')],
  demo="""d := "<R><U><Age>30</Age></U></R>"
p := "R.U[Age>20].Age"
alt := "R.U.#(Age>20).Age"
for _, q := range []string{p, alt} {
	before := xmldot.Get(d, q).String()
	o := xmldot.DefaultOptions()
	o.CaseSensitive = false
	xmldot.GetWithOptions(d, q, o)
	if xmldot.Get(d, q).String() != before { fail("earlier query changed the result of %s", q) }
}
if xmldot.Get(d, alt).String() == "" && xmldot.Get(d, p).String() == "" { fail("filter not understood") }"""),

'c17-setmany-nil': dict(property='C17', needs='a batch set with a nil value among others',
  what='SetMany passes over nil values, where Set deletes the element',
  edits=[('set.go', '		result, err = SetBytes(result, paths[i], values[i])\n', '		if values[i] == nil {\n			continue\n		}\n		result, err = SetBytes(result, paths[i], values[i])\n')],
  demo="""d := "<r><a>1</a><b>2</b></r>"
want, _ := xmldot.Set(d, "r.a", nil)
want, _ = xmldot.Set(want, "r.b", 3)
got, err := xmldot.SetMany(d, []string{"r.a", "r.b"}, []interface{}{nil, 3})
if err != nil || got != want { fail("SetMany gave %q, one by one %q", got, want) }"""),
'c17-delmany-lower': dict(property='C17', needs='a batch delete of two paths that differ only in case',
  what='DeleteMany takes paths that differ in case for duplicates and deletes only the first',
  edits=[('set.go', '		if !seen[path] {\n			seen[path] = true\n', '		if key := strings.ToLower(path); !seen[key] {\n			seen[key] = true\n')],
  demo="""d := "<r><a>1</a><A>2</A><c/></r>"
want, _ := xmldot.Delete(d, "r.a")
want, _ = xmldot.Delete(want, "r.A")
got, err := xmldot.DeleteMany(d, "r.a", "r.A")
if err != nil || got != want { fail("DeleteMany gave %q, one by one %q", got, want) }"""),
'c17-resmany-empty': dict(property='C17', needs='Result.GetMany with an empty path',
  what='GetMany on a result answers an empty path with the result itself, where Get finds nothing',
  edits=[('result.go', '	for i, path := range paths {\n		results[i] = r.Get(path)', '	for i, path := range paths {\n		if path == "" {\n			results[i] = r\n			continue\n		}\n		results[i] = r.Get(path)')],
  demo="""r := xmldot.Get("<r><a><b>1</b></a></r>", "r.a")
for _, p := range []string{"a.b", "b", "", "x"} {
	if w, g := r.Get(p), r.GetMany(p, p)[1]; w.Exists() != g.Exists() || w.String() != g.String() { fail("GetMany differs from Get for %q", p) }
}"""),
'c17-valid-bom': dict(property='C17', needs='a document that starts with a byte order mark',
  what='Valid drops a byte order mark first, so it disagrees with ValidBytes and ValidateWithError',
  edits=[('validate.go', '	return ValidBytes([]byte(xml))', '	if len(xml) > 3 && xml[:3] == "\\xef\\xbb\\xbf" {\n		xml = xml[3:]\n	}\n	return ValidBytes([]byte(xml))')],
  demo="""for _, d := range []string{"<a/>", "\\xef\\xbb\\xbf<a/>", "<a>", ""} {
	if xmldot.Valid(d) != xmldot.ValidBytes([]byte(d)) || xmldot.Valid(d) != (xmldot.ValidateWithError(d) == nil) { fail("validity of %q depends on the function asked", d) }
}"""),

'c11-del-quote': dict(property='C11', needs='deleting one attribute of an element that has another, single-quoted one with a double quote in its value',
  what='attributes kept when one is deleted are encoded only if they hold a bracket or an ampersand',
  edits=[('builder.go', '		b.result.WriteString("=\\"")\n		b.result.WriteString(escapeXML(location.attrs[name]))', '		b.result.WriteString("=\\"")\n		v := location.attrs[name]\n		if strings.ContainsAny(v, "<>&") {\n			v = escapeXML(v)\n		}\n		b.result.WriteString(v)')],
  demo="""d, err := xmldot.Delete(`<r><a x='1' y='2" z="3'/></r>`, "r.a.@x")
if err != nil { fail("%v", err) }
if xmldot.Get(d, "r.a.@z").Exists() || xmldot.Get(d, "r.a.@y").String() != `2" z="3` { fail("attribute value became markup: %s", d) }"""),
'c11-bytes-attr': dict(property='C11', needs='a value given as bytes, not starting with a bracket but holding a quote, set as an attribute',
  what='byte values count as raw only if they start with a bracket, so the test for attributes passes them over',
  edits=[('builder.go', 'return string(v), true, nil', 'return string(v), len(v) > 0 && v[0] == \'<\', nil')],
  demo="""d, err := xmldot.Set("<r><a/></r>", "r.a.@x", []byte(`1" y="2`))
if err == nil && xmldot.Get(d, "r.a.@y").Exists() { fail("attribute injected: %s", d) }"""),
'c11-entity-keep': dict(property='C11', needs='a text value that starts with an ampersand and ends with a semicolon',
  what='text that looks like one entity is written as it is, with whatever is in between',
  edits=[('parser.go', '	return xmlEscaper.Replace(s)', '	if strings.HasPrefix(s, "&") && strings.HasSuffix(s, ";") {\n		return s\n	}\n	return xmlEscaper.Replace(s)')],
  demo="""v := "&<b>1</b>;"
d, err := xmldot.Set("<r><a>0</a></r>", "r.a", v)
if err != nil { fail("%v", err) }
if xmldot.Get(d, "r.a.b").Exists() || xmldot.Get(d, "r.a").String() != v { fail("text became markup: %s", d) }"""),
'c11-error-value': dict(property='C11', needs='an error given as the value of a set call',
  what='errors are accepted as values and their text is written without encoding',
  edits=[('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case error:\n		return v.Error(), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
  imports=['errors'],
  demo="""d, err := xmldot.Set("<r><a>0</a></r>", "r.a", errors.New("<b>1</b>"))
if err == nil && xmldot.Get(d, "r.a.b").Exists() { fail("text became markup: %s", d) }"""),
'c21-attr-unquoted': dict(property='C21', needs='an attribute without quotes whose value holds an entity',
  what='attribute values without quotes are no longer decoded',
  edits=[('parser.go', '			value := p.readUntilAny(" \\t\\n\\r/>")\n			attrs[name] = unescapeXML(value)', '			value := p.readUntilAny(" \\t\\n\\r/>")\n			attrs[name] = value')],
  demo="""if g := xmldot.Get("<r><a x=1&amp;2 >t</a></r>", "r.a.@x").String(); g != "1&2" { fail("got %q", g) }"""),
'c21-filter-entity': dict(property='C21', needs='a filter whose value holds an entity text, on a document that holds the character itself',
  what='filter values are decoded too, so a filter for the text &lt; also selects elements that hold <',
  edits=[('filter.go', '		return actualValue == filter.Value\n', '		return actualValue == filter.Value || actualValue == unescapeXML(filter.Value)\n')],
  demo="""d := "<r><i><n>a&lt;b</n><v>1</v></i><i><n>a&amp;lt;b</n><v>2</v></i></r>"
if g := xmldot.Get(d, "r.i.#(n==a&lt;b).v").String(); g != "2" { fail("filter selected %q", g) }"""),
'c21-raw-index': dict(property='C21', needs='an indexed root of a fragment with encoded text, read again from the result',
  what='the raw content of an indexed root element is decoded, so text in it is decoded again or becomes markup',
  edits=[('get.go', '						Str:  unescapeXML(extractTextContent(match.content)),\n						Raw:  match.content,', '						Str:  unescapeXML(extractTextContent(match.content)),\n						Raw:  unescapeXML(match.content),')],
  demo="""d := "<a><t>&amp;lt;x</t></a><a><t>&amp;lt;y</t></a>"
r := xmldot.Get(d, "a.1")
if g := r.Get("a.t").String() + r.Get("t").String(); g != "" && g != "&lt;y" { fail("got %q", g) }
if r.Raw != "<t>&amp;lt;y</t>" && r.Raw != "<a><t>&amp;lt;y</t></a>" { fail("raw content %q", r.Raw) }"""),
'c21-table-return': dict(property='C21', needs='a text value with a carriage return',
  what='the encoding table has a pair that the decoding table lacks, so carriage returns come back as &#13;',
  edits=[('parser.go', '	"\'", "&apos;",\n', '	"\'", "&apos;",\n	"\\r", "&#13;",\n')],
  demo="""d, err := xmldot.Set("<r><a>0</a></r>", "r.a", "x\\ry")
if err != nil { fail("%v", err) }
if g := xmldot.Get(d, "r.a").String(); g != "x\\ry" { fail("got %q", g) }"""),
}
