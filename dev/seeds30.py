SEEDS={
'c30-unquoted-attrs': dict(property='C30', needs='an element with more than a hundred attributes whose values are not quoted',
  what='only attributes with quoted values count towards the limit',
  edits=[('parser.go','''			break
		}
		attrCount++

		p.skipWhitespace()
''','''			break
		}

		p.skipWhitespace()
'''),('parser.go','''			value := p.readUntil(quote)
			p.next() // skip closing quote
			attrs[name] = unescapeXML(value)
''','''			value := p.readUntil(quote)
			p.next() // skip closing quote
			attrs[name] = unescapeXML(value)
			attrCount++
''')],
  imports=['strings'],
  demo='''var b strings.Builder
for i := 0; i < 150; i++ { fmt.Fprintf(&b, " a%d=v", i) }
d := "<r" + b.String() + ">x</r>"
if r := xmldot.Get(d, "r.@a149"); r.Exists() { fail("attribute 150 read: %q", r.String()) }
if r := xmldot.Get(d, "r.@a5"); r.String() != "v" { fail("attribute 6 not read") }'''),
'c30-dot-count': dict(property='C30', needs='a path of exactly one segment too many',
  what='the limit counts the separators of a path instead of its segments',
  edits=[('path.go','''	if len(parts) > MaxPathSegments {''','''	if strings.Count(path, ".") > MaxPathSegments {''')],
  imports=['strings'],
  demo='''p := strings.Repeat("a.", 100) + "a"
if r := xmldot.Get(strings.Repeat("<a>", 101)+"x"+strings.Repeat("</a>", 101), p); r.Exists() { fail("a path of 101 segments was followed: %q", r.Raw) }'''),
'c30-exists-long': dict(property='C30', needs='a filter without an operator of more than 256 characters',
  what='the length of a filter is no longer tested when it only asks for existence',
  edits=[('filter.go','''func parseFilterCondition(expr string) (*Filter, error) {
	// Security check: limit filter expression length
	if len(expr) > MaxFilterExpressionLength {
		return nil, ErrInvalidPath
	}
''','''func parseFilterCondition(expr string) (*Filter, error) {
'''),('filter.go','''			Op:    OpExists,
			Value: "",
		}, nil
	}

	// Find the operator
	var op FilterOp
	var opStr string
	var opPos = -1

	// Check for two''','''			Op:    OpExists,
			Value: "",
		}, nil
	}

	// Security check: limit filter expression length
	if len(expr) > MaxFilterExpressionLength {
		return nil, ErrInvalidPath
	}

	// Find the operator
	var op FilterOp
	var opStr string
	var opPos = -1

	// Check for two''')],
  imports=['strings'],
  demo='''n := strings.Repeat("n", 300)
if r := xmldot.Get("<r><i><"+n+">1</"+n+"></i></r>", "r.i.#("+n+")"); r.Exists() { fail("a filter of 300 characters was applied") }'''),
'c30-empty-deep': dict(property='C30', needs='an empty element at level 101',
  what='the nesting limit is tested only for elements that stay open',
  edits=[('validate.go','''	// Check nesting depth
	if len(p.tagStack) >= MaxNestingDepth {
		return &ValidateError{
			Line:    tagLine,
			Column:  tagColumn,
			Message: fmt.Sprintf("nesting depth exceeds maximum of %d", MaxNestingDepth),
		}
	}

''',''),('validate.go','''	// Push to tag stack if not self-closing
	if !isSelfClosing {
''','''	// Push to tag stack if not self-closing
	if !isSelfClosing {
		// Check nesting depth
		if len(p.tagStack) >= MaxNestingDepth {
			return &ValidateError{
				Line:    tagLine,
				Column:  tagColumn,
				Message: fmt.Sprintf("nesting depth exceeds maximum of %d", MaxNestingDepth),
			}
		}
''')],
  imports=['strings'],
  demo='''d := strings.Repeat("<a>", 100) + "<b/>" + strings.Repeat("</a>", 100)
if xmldot.Valid(d) { fail("valid with an element at level 101") }'''),
'c30-padded-filter': dict(property='C30', needs='a filter longer than 256 characters because of the blanks around it',
  what='blanks around a filter no longer count towards its length',
  edits=[('filter.go','''func parseFilterCondition(expr string) (*Filter, error) {
''','''func parseFilterCondition(expr string) (*Filter, error) {
	expr = strings.TrimSpace(expr)
''')],
  imports=['strings'],
  demo='''if r := xmldot.Get("<r><i><n>1</n></i></r>", "r.i.#("+strings.Repeat(" ", 300)+"n==1)"); r.Exists() { fail("a filter of more than 256 characters was applied") }'''),
}
