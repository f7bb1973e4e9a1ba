EA='''				v := attrs[k]
				b.result.WriteString(" ")
				b.result.WriteString(k)
				b.result.WriteString(`="`)
				b.result.WriteString(escapeXML(v))'''
PA='''				v := parentLocation.attrs[k]
				b.result.WriteString(" ")
				b.result.WriteString(k)
				b.result.WriteString(`="`)
				b.result.WriteString(escapeXML(v))'''
ESC='func escapeXML(s string) string {\n'
UNESC='func unescapeXML(s string) string {\n'
RAWG='''		if isRaw && strings.ContainsAny(xmlValue, "<\\"") {
			return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
		}
'''
EDITS = {
'C11-root-attr': [('builder.go', EA, EA.replace('escapeXML(v)','v'))],
'C11-parent-attr': [('builder.go', PA, PA.replace('escapeXML(v)','v'))],
'C11-repl-attr': [('builder.go', '			b.result.WriteString(escapeXML(location.attrs[name]))\n		}\n', '			b.result.WriteString(location.attrs[name])\n		}\n')],
'C11-del-attr': [('builder.go', '		b.result.WriteString("=\\"")\n		b.result.WriteString(escapeXML(location.attrs[name]))', '		b.result.WriteString("=\\"")\n		b.result.WriteString(location.attrs[name])')],
'C11-append-attr': [('builder.go', 'b.result.WriteString(escapeXML(parentLoc.attrs[name]))', 'b.result.WriteString(parentLoc.attrs[name])')],
'C11-del-cond': [('builder.go', '		b.result.WriteString("=\\"")\n		b.result.WriteString(escapeXML(location.attrs[name]))', '		b.result.WriteString("=\\"")\n		v := location.attrs[name]\n		if strings.ContainsAny(v, "<>&") {\n			v = escapeXML(v)\n		}\n		b.result.WriteString(v)')],
'C11-esc-fast': [('parser.go', ESC, ESC+'	if !strings.ContainsAny(s, "<&") {\n		return s\n	}\n')],
'C11-esc-fast2': [('parser.go', ESC, ESC+'	if strings.IndexByte(s, \'&\') < 0 && strings.IndexByte(s, \'<\') < 0 {\n		return s\n	}\n')],
'C11-esc-long': [('parser.go', ESC, ESC+'	if len(s) > 1<<16 {\n		return s\n	}\n')],
'C11-esc-entity': [('parser.go', ESC, ESC+'	if strings.HasPrefix(s, "&") && strings.HasSuffix(s, ";") {\n		return s\n	}\n')],
'C11-cdata': [('builder.go', '		return escapeXML(v), false, nil', '		if strings.HasPrefix(v, "<![CDATA[") {\n			return v, false, nil\n		}\n		return escapeXML(v), false, nil')],
'C11-stringer': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case fmt.Stringer:\n		return v.String(), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-error': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case error:\n		return v.Error(), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-sprint': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case Result:\n		return v.Str, false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-rawguard': [('builder.go', RAWG, '')],
'C11-rawguard-q': [('builder.go', 'isRaw && strings.ContainsAny(xmlValue, "<\\"")', 'isRaw && strings.ContainsAny(xmlValue, "<>")')],
'C11-rawguard-len': [('builder.go', 'isRaw && strings.ContainsAny(xmlValue, "<\\"")', 'isRaw && len(xmlValue) < 4096 && strings.ContainsAny(xmlValue, "<\\"")')],
'C11-rawguard-first': [('builder.go', 'isRaw && strings.ContainsAny(xmlValue, "<\\"")', 'isRaw && strings.HasPrefix(xmlValue, "<")')],
'C11-rawguard-found': [('builder.go', RAWG, ''), ('builder.go', '		// Modify the attribute\n		return b.replace', RAWG+'		return b.replace')],
'C11-bytes-attr': [('builder.go', '		// Byte slice - treat as raw XML (no escaping)\n		return string(v), true, nil', '		return string(v), len(v) > 0 && v[0] == \'<\', nil')],
'C21-table-gt': [('parser.go', '	">", "&gt;",\n', '')],
'C21-table-apos': [('parser.go', '	"&apos;", "\'",\n', '')],
'C21-table-apos39': [('parser.go', '	"\'", "&apos;",', '	"\'", "&#39;",')],
'C21-table-extra': [('parser.go', '	"\'", "&apos;",', '	"\'", "&apos;",\n	"\\r", "&#13;",')],
'C21-chain': [('parser.go', '	return xmlUnescaper.Replace(s)', '	s = strings.ReplaceAll(s, "&amp;", "&")\n	return xmlUnescaper.Replace(s)')],
'C21-chain2': [('parser.go', '	return xmlUnescaper.Replace(s)', '	for _, r := range [][2]string{{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\\""}, {"&apos;", "\'"}} {\n		s = strings.ReplaceAll(s, r[0], r[1])\n	}\n	return s')],
'C21-result-string': [('result.go', '	return r.Str\n', '	return unescapeXML(r.Str)\n')],
'C21-extract': [('parser.go', '	return strings.TrimSpace(result.String())\n}\n\n// extractDirectTextOnly', '	return strings.TrimSpace(unescapeXML(result.String()))\n}\n\n// extractDirectTextOnly')],
'C21-direct': [('get.go', '			textContent := extractDirectTextOnly(content)\n			return Result{\n				Type: String,\n				Str:  unescapeXML(textContent),', '			textContent := extractDirectTextOnly(content)\n			return Result{\n				Type: String,\n				Str:  textContent,')],
'C21-attr-twice': [('parser.go', '			attrs[name] = unescapeXML(value)\n		} else {', '			attrs[name] = unescapeXML(unescapeXML(value))\n		} else {')],
'C21-attr-unq': [('parser.go', '			value := p.readUntilAny(" \\t\\n\\r/>")\n			attrs[name] = unescapeXML(value)', '			value := p.readUntilAny(" \\t\\n\\r/>")\n			attrs[name] = value')],
'C21-map-direct': [('result.go', '			Str:  unescapeXML(directText),', '			Str:  directText,')],
'C21-map-child': [('result.go', '			Str:  unescapeXML(extractTextContent(childContent)),', '			Str:  extractTextContent(childContent),')],
'C21-opts-first': [('get.go', '		textContent := extractDirectTextOnly(match.content)\n		return Result{\n			Type: String,\n			Str:  unescapeXML(textContent),', '		textContent := unescapeXML(extractDirectTextOnly(match.content))\n		return Result{\n			Type: String,\n			Str:  unescapeXML(textContent),')],
'C21-unesc-early': [('parser.go', UNESC, UNESC+'	if !strings.Contains(s, "&amp;") {\n		return s\n	}\n')],
'C21-filter-raw': [('filter.go', '		actualValue = result.String()', '		actualValue = result.String()\n		if !strings.ContainsAny(result.Raw, "<") {\n			actualValue = strings.TrimSpace(result.Raw)\n		}')],
'C21-filter-str': [('filter.go', '		actualValue, exists = attrs[attrName]', '		actualValue, exists = attrs[attrName]\n		actualValue = unescapeXML(actualValue)')],
'C21-filter-val': [('filter.go', '		return actualValue == filter.Value\n', '		return actualValue == filter.Value || actualValue == unescapeXML(filter.Value)\n')],
'C21-esc-again': [('builder.go', '		return b.replaceAttribute(location, attrName, xmlValue)\n	}\n\n	// Find', '		return b.replaceAttribute(location, attrName, escapeXML(xmlValue))\n	}\n\n	// Find')],
'C21-value-unesc': [('builder.go', 'return escapeXML(v), false, nil', 'return escapeXML(unescapeXML(v)), false, nil')],
'C21-match-content': [('get.go', '						contentParser := newXMLParser([]byte(match.content))', '						contentParser := newXMLParser([]byte(unescapeXML(match.content)))')],
'C21-raw-dec': [('get.go', '						Str:  unescapeXML(extractTextContent(match.content)),\n						Raw:  match.content,', '						Str:  unescapeXML(extractTextContent(match.content)),\n						Raw:  unescapeXML(match.content),')],

'C11-strings': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case []string:\n		return strings.Join(v, " "), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-ptr': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case *string:\n		return *v, false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-sprintv': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case []interface{}, map[string]interface{}:\n		return fmt.Sprint(v), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-rune': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case rune:\n		return string(v), false, nil\n	default:\n		// Unsupported type\n		return "", false,')],
'C11-json': [('builder.go', '	default:\n		// Unsupported type\n		return "", false,', '	case json.Number:\n		return v.String(), false, nil\n	default:\n		// Unsupported type\n		return "", false,'), ('builder.go','import (\n','import (\n	"encoding/json"\n')],
}
