ESC='func escapeXML(s string) string {\n	return xmlEscaper.Replace(s)\n}'
UNESC='func unescapeXML(s string) string {\n	return xmlUnescaper.Replace(s)\n}'
REPA='''		if isModifiedAttr {
			b.result.WriteString(attrValue)
		} else {
			b.result.WriteString(escapeXML(location.attrs[name]))
		}
		b.result.WriteString("\\"")
'''
PA='''			for _, k := range sortedAttrNames(parentLocation.attrs) {
				v := parentLocation.attrs[k]
				b.result.WriteString(" ")
				b.result.WriteString(k)
				b.result.WriteString(`="`)
				b.result.WriteString(escapeXML(v))
				b.result.WriteString(`"`)
			}
'''
EA='''			for _, k := range sortedAttrNames(attrs) {
				v := attrs[k]
				b.result.WriteString(" ")
				b.result.WriteString(k)
				b.result.WriteString(`="`)
				b.result.WriteString(escapeXML(v))
				b.result.WriteString(`"`)
			}
'''
HELP='''
// writeAttr writes one attribute
func (b *xmlBuilder) writeAttr(name, value string) {
	b.result.WriteString(" ")
	b.result.WriteString(name)
	b.result.WriteString("=\\"")
	b.result.WriteString(value)
	b.result.WriteString("\\"")
}

// getResult returns the built XML string
'''
RAWG='''		if isRaw && strings.ContainsAny(xmlValue, "<\\"") {
			return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
		}
'''
GR='\n// getResult returns the built XML string\n'
VAL='''	switch v := value.(type) {
	case string:
		// Regular string - needs escaping
		return escapeXML(v), false, nil
'''
QATTR='''			value := p.readUntil(quote)
			p.next() // skip closing quote
			attrs[name] = unescapeXML(value)
		} else {
			// Unquoted attribute value (read until whitespace or >)
			value := p.readUntilAny(" \\t\\n\\r/>")
			attrs[name] = unescapeXML(value)
		}
'''
EDITS = {
'R10-esc-chain': [('parser.go', ESC, '''func escapeXML(s string) string {
	s = strings.ReplaceAll(s, "&", "&amp;")
	s = strings.ReplaceAll(s, "<", "&lt;")
	s = strings.ReplaceAll(s, ">", "&gt;")
	s = strings.ReplaceAll(s, "\\"", "&quot;")
	return strings.ReplaceAll(s, "'", "&apos;")
}'''), ('parser.go', 'var xmlEscaper = strings', 'var _ = strings')],
'R10-unesc-chain': [('parser.go', UNESC, '''func unescapeXML(s string) string {
	s = strings.ReplaceAll(s, "&lt;", "<")
	s = strings.ReplaceAll(s, "&gt;", ">")
	s = strings.ReplaceAll(s, "&quot;", "\\"")
	s = strings.ReplaceAll(s, "&apos;", "'")
	return strings.ReplaceAll(s, "&amp;", "&")
}'''), ('parser.go', 'var xmlUnescaper = strings', 'var _ = strings')],
'R10-esc-loop': [('parser.go', ESC, '''func escapeXML(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			sb.WriteString("&quot;")
		case '\\'':
			sb.WriteString("&apos;")
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}'''), ('parser.go', 'var xmlEscaper = strings', 'var _ = strings')],
'R10-esc-rune': [('parser.go', ESC, '''func escapeXML(s string) string {
	var sb strings.Builder
	sb.Grow(len(s))
	for _, r := range []byte(s) {
		if r == '&' {
			sb.WriteString("&amp;")
		} else if r == '<' {
			sb.WriteString("&lt;")
		} else if r == '>' {
			sb.WriteString("&gt;")
		} else if r == '"' {
			sb.WriteString("&quot;")
		} else if r == '\\'' {
			sb.WriteString("&apos;")
		} else {
			sb.WriteByte(r)
		}
	}
	return sb.String()
}'''), ('parser.go', 'var xmlEscaper = strings', 'var _ = strings')],
'R10-esc-fast': [('parser.go', 'func escapeXML(s string) string {\n', 'func escapeXML(s string) string {\n	if !strings.ContainsAny(s, "&<>\\"\'") {\n		return s\n	}\n')],
'R10-unesc-fast': [('parser.go', 'func unescapeXML(s string) string {\n', 'func unescapeXML(s string) string {\n	if strings.IndexByte(s, \'&\') < 0 {\n		return s\n	}\n')],
'R10-unesc-fast2': [('parser.go', 'func unescapeXML(s string) string {\n', 'func unescapeXML(s string) string {\n	if !strings.Contains(s, "&") || s == "" {\n		return s\n	}\n')],
'R10-table-order': [('parser.go', '	"&", "&amp;",\n	"<", "&lt;",\n', '	"<", "&lt;",\n	"&", "&amp;",\n')],
'R10-table-local': [('parser.go', UNESC, '''func unescapeXML(s string) string {
	r := xmlUnescaper
	out := r.Replace(s)
	return out
}''')],
'R10-table-func': [('parser.go', ESC, 'func newEscaper() *strings.Replacer {\n	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\\"", "&quot;", "\'", "&apos;")\n}\n\n'+ESC), ('parser.go', '''var xmlEscaper = strings.NewReplacer(
	"&", "&amp;",
	"<", "&lt;",
	">", "&gt;",
	"\\"", "&quot;",
	"'", "&apos;",
)''', 'var xmlEscaper = newEscaper()')],
'R10-table-slice': [('parser.go', '''var xmlEscaper = strings.NewReplacer(
	"&", "&amp;",
	"<", "&lt;",
	">", "&gt;",
	"\\"", "&quot;",
	"'", "&apos;",
)''', '''var entityPairs = []string{
	"&", "&amp;",
	"<", "&lt;",
	">", "&gt;",
	"\\"", "&quot;",
	"'", "&apos;",
}

var xmlEscaper = strings.NewReplacer(entityPairs...)''')],
'R10-attr-helper': [('builder.go', PA, '			for _, k := range sortedAttrNames(parentLocation.attrs) {\n				b.writeAttr(k, escapeXML(parentLocation.attrs[k]))\n			}\n'), ('builder.go', EA, '			for _, k := range sortedAttrNames(attrs) {\n				b.writeAttr(k, escapeXML(attrs[k]))\n			}\n'), ('builder.go', GR, HELP)],
'R10-attr-helper2': [('builder.go', '''		b.result.WriteString(" ")
		b.result.WriteString(name)
		b.result.WriteString("=\\"")

		// Check''','''		// Check'''), ('builder.go', REPA, '''		value := escapeXML(location.attrs[name])
		if isModifiedAttr {
			value = attrValue
		}
		b.writeAttr(name, value)
'''), ('builder.go', GR, HELP)],
'R10-attr-var': [('builder.go', REPA, '''		value := attrValue
		if !isModifiedAttr {
			value = escapeXML(location.attrs[name])
		}
		b.result.WriteString(value)
		b.result.WriteString("\\"")
''')],
'R10-attr-concat': [('builder.go', EA, '			for _, k := range sortedAttrNames(attrs) {\n				b.result.WriteString(" " + k + `="` + escapeXML(attrs[k]) + `"`)\n			}\n')],
'R10-attr-fprintf': [('builder.go', EA, '			for _, k := range sortedAttrNames(attrs) {\n				fmt.Fprintf(&b.result, " %s=\\"%s\\"", k, escapeXML(attrs[k]))\n			}\n')],
'R10-attr-sprintf': [('builder.go', EA, '			for _, k := range sortedAttrNames(attrs) {\n				b.result.WriteString(fmt.Sprintf(" %s=\\"%s\\"", k, escapeXML(attrs[k])))\n			}\n')],
'R10-attr-text': [('builder.go', EA, '			b.result.WriteString(attrText(attrs))\n'), ('builder.go', GR, '''
func attrText(attrs map[string]string) string {
	var sb strings.Builder
	for _, k := range sortedAttrNames(attrs) {
		sb.WriteByte(' ')
		sb.WriteString(k)
		sb.WriteString(`="`)
		sb.WriteString(escapeXML(attrs[k]))
		sb.WriteByte('"')
	}
	return sb.String()
}
'''+GR)],
'R10-attr-join': [('builder.go', EA, '''			var list []string
			for _, k := range sortedAttrNames(attrs) {
				list = append(list, " "+k+"=\\""+escapeXML(attrs[k])+"\\"")
			}
			b.result.WriteString(strings.Join(list, ""))
''')],
'R10-raw-helper': [('builder.go', RAWG, '''		if err := checkRawAttr(xmlValue, isRaw); err != nil {
			return err
		}
'''), ('builder.go', GR, '''
func checkRawAttr(text string, raw bool) error {
	if !raw {
		return nil
	}
	if strings.ContainsAny(text, "<\\"") {
		return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
	}
	return nil
}
'''+GR)],
'R10-raw-helper2': [('builder.go', 'if isRaw && strings.ContainsAny(xmlValue, "<\\"") {', 'if hasMarkup(xmlValue, isRaw) {'), ('builder.go', GR, '''
func hasMarkup(text string, raw bool) bool {
	return raw && strings.ContainsAny(text, "<\\"")
}
'''+GR)],
'R10-raw-two': [('builder.go', 'if isRaw && strings.ContainsAny(xmlValue, "<\\"") {', 'if isRaw && (strings.Contains(xmlValue, "<") || strings.Contains(xmlValue, "\\"")) {')],
'R10-raw-byte': [('builder.go', 'if isRaw && strings.ContainsAny(xmlValue, "<\\"") {', 'if isRaw && (strings.IndexByte(xmlValue, \'<\') >= 0 || strings.IndexByte(xmlValue, \'"\') != -1) {')],
'R10-raw-more': [('builder.go', 'if isRaw && strings.ContainsAny(xmlValue, "<\\"") {', 'if bad := strings.IndexAny(xmlValue, "\\"<"); isRaw && bad >= 0 {')],
'R10-raw-switch': [('builder.go', RAWG, '''		switch {
		case !isRaw:
		case strings.ContainsAny(xmlValue, "<\\""):
			return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
		}
''')],
'R10-attr-set-helper': [('builder.go', RAWG, ''), ('builder.go', '''		attrName := path[len(path)-1].Value
		elementPath := path[:len(path)-1]

		// Find the parent element
		parser := newXMLParser(b.data)
		location, found := b.findElementLocation(parser, elementPath, 0, 0)
		if !found {
			// Parent element doesn't exist - create it with the attribute
			return b.createElementForAttribute(elementPath, path[len(path)-1], xmlValue)
		}

		// Modify the attribute
		return b.replaceAttribute(location, attrName, xmlValue)
''', '		return b.setAttribute(path, xmlValue, isRaw)\n'), ('builder.go', GR, '''
func (b *xmlBuilder) setAttribute(path []PathSegment, xmlValue string, isRaw bool) error {
	if isRaw && strings.ContainsAny(xmlValue, "<\\"") {
		return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
	}
	attrName := path[len(path)-1].Value
	elementPath := path[:len(path)-1]

	parser := newXMLParser(b.data)
	location, found := b.findElementLocation(parser, elementPath, 0, 0)
	if !found {
		return b.createElementForAttribute(elementPath, path[len(path)-1], xmlValue)
	}
	return b.replaceAttribute(location, attrName, xmlValue)
}
'''+GR)],
'R10-value-helper': [('builder.go', VAL, '''	if s, ok := value.(string); ok {
		return textValue(s)
	}
	switch v := value.(type) {
'''), ('builder.go', GR, '''
func textValue(s string) (string, bool, error) {
	out := escapeXML(s)
	return out, false, nil
}
'''+GR)],
'R10-value-var': [('builder.go', VAL, '''	var text string
	switch v := value.(type) {
	case string:
		text = escapeXML(v)
		return text, false, nil
''')],
'R10-value-more': [('builder.go', '	case int64:\n', '	case int32:\n		return fmt.Sprint(v), false, nil\n	case fmt.Stringer:\n		return escapeXML(v.String()), false, nil\n	case int64:\n')],
'R10-attr-value': [('parser.go', QATTR, '''			value := p.readUntil(quote)
			p.next() // skip closing quote
			attrs[name] = unescapeXML(value)
			continue
		}
		attrs[name] = unescapeXML(p.readUntilAny(" \\t\\n\\r/>"))
''')],
'R10-attr-value2': [('parser.go', '		quote := p.peek()\n', '		var value string\n		quote := p.peek()\n'), ('parser.go', QATTR, '''			value = p.readUntil(quote)
			p.next() // skip closing quote
		} else {
			value = p.readUntilAny(" \\t\\n\\r/>")
		}
		attrs[name] = unescapeXML(value)
''')],
'R10-text-helper': [('parser.go', '// extractTextContent extracts', '''func decodedText(content string) string {
	return unescapeXML(extractTextContent(content))
}

// extractTextContent extracts'''), ('get.go', 'unescapeXML(extractTextContent(match.content))', 'decodedText(match.content)'), ('get.go', 'unescapeXML(extractTextContent(matches[0].content))', 'decodedText(matches[0].content)')],
'R10-result-helper': [('get.go', '''					return Result{
						Type: Element,
						Str:  unescapeXML(extractTextContent(match.content)),
						Raw:  match.content,
					}
''', '					return elementResult(match.content)\n'), ('parser.go', '// extractTextContent extracts', '''func elementResult(content string) Result {
	var r Result
	r.Type = Element
	r.Raw = content
	text := extractTextContent(content)
	r.Str = unescapeXML(text)
	return r
}

// extractTextContent extracts''')],
'R10-str-later': [('get.go', '''							textContent := extractDirectTextOnly(match.content)
							return Result{
								Type: String,
								Str:  unescapeXML(textContent),
								Raw:  match.content,
							}
''', '''							textContent := extractDirectTextOnly(match.content)
							textContent = unescapeXML(textContent)
							return Result{
								Type: String,
								Str:  textContent,
								Raw:  match.content,
							}
''')],
'R10-decode-inside': [('parser.go', '	return strings.TrimSpace(result.String())\n}\n\n// extractDirectTextOnly', '	text := result.String()\n	return strings.TrimSpace(text)\n}\n\n// extractDirectTextOnly')],
'R10-filter-helper': [('filter.go', '''		parser := newXMLParser([]byte(content))
		parser.filterDepth = depth + 1
		result := executeQuery(parser, parsePath(filter.Path), 0)
		exists = result.Exists()
		actualValue = result.String()
''', '		actualValue, exists = childText(content, filter.Path, depth)\n'), ('filter.go', 'func evaluateFilterWithDepth(', '''func childText(content, path string, depth int) (string, bool) {
	parser := newXMLParser([]byte(content))
	parser.filterDepth = depth + 1
	result := executeQuery(parser, parsePath(path), 0)
	return result.String(), result.Exists()
}

func evaluateFilterWithDepth(''')],
'R10-out-local': [('builder.go', '''	// Close the opening tag
	if location.isSelfClosing {
		b.result.WriteString("/>")
		b.result.Write(b.data[location.contentStart:])
	} else {''', '''	// Close the opening tag
	out := &b.result
	if location.isSelfClosing {
		out.WriteString("/>")
		out.Write(b.data[location.contentStart:])
	} else {''')],
'R10-bytesbuf': [('builder.go', '	result strings.Builder\n', '	result bytes.Buffer\n'), ('builder.go', 'import (\n', 'import (\n	"bytes"\n')],
}
