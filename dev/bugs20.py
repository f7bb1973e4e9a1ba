# Edits that lose, repeat or move parts of the document around the edited place.
DEL='''		b.result.Write(b.data[location.elementEnd:])
	}

	return nil
}'''
EDITS = {
'C20-del-eat-newline': [('builder.go', DEL, '''		end := location.elementEnd
		if end < len(b.data) && b.data[end] == '\\n' && location.startPos > 0 && b.data[location.startPos-1] == '\\n' {
			end++
		}
		b.result.Write(b.data[end:])
	}

	return nil
}''')],
'C20-del-trim-before': [('builder.go', '''	// Delete the element
	b.result.Reset()
	b.result.Write(b.data[:location.startPos])
''', '''	// Delete the element
	b.result.Reset()
	start := location.startPos
	for start > 1 && b.data[start-1] == '\\t' {
		start--
	}
	b.result.Write(b.data[:start])
''')],
'C20-getresult-trim': [('builder.go', '	return b.result.String()\n}', '	return strings.TrimRight(b.result.String(), "\\x00\\uFEFF")\n}')],
'C20-doc-trim': [('set.go', '	return []byte(builder.getResult()), nil\n}\n\n// DeleteBytesWithOptions', '	out := []byte(builder.getResult())\n	if n := len(out); n > 4096 && out[n-1] == \'\\n\' {\n		out = out[:n-1]\n	}\n	return out, nil\n}\n\n// DeleteBytesWithOptions')],
'C20-offset-index': [('builder.go', '''				return b.findElementLocation(contentParser, segments, segIndex+2, newOffset)''', '''				if segIndex > 4 {
					newOffset = contentStartPos
				}
				return b.findElementLocation(contentParser, segments, segIndex+2, newOffset)''')],
'C20-offset-base': [('builder.go', '''				return b.findElementLocation(contentParser, segments, segIndex+2, newOffset)''', '''				return b.findElementLocation(contentParser, segments, segIndex+2, contentStartPos)''')],
'C20-root-selfclose-prolog': [('builder.go', '''		b.result.Reset()
		// Write everything BEFORE the self-closing tag
		b.result.Write(b.data[:elemStartPos])
''', '''		b.result.Reset()
''')],
'C20-root-selfclose-tail': [('builder.go', '''		b.result.Write(b.data[parser.pos:])
		return nil''', '''		if rest := b.data[parser.pos:]; len(strings.TrimSpace(string(rest))) > 0 {
			b.result.Write(rest)
		}
		return nil''')],
'C20-append-root-end': [('builder.go', '''				_ = parser.parseElementContent(elemName)
				insertPos = parser.pos
''', '''				content := parser.parseElementContent(elemName)
				insertPos = parser.pos
				if content == "" {
					insertPos -= len(elemName) + 3
				}
''')],
'C20-append-nested': [('builder.go', '''			if isSelfClosing {
				lastMatchEnd = parent.contentStart + parser.pos
''', '''			if isSelfClosing {
				lastMatchEnd = parser.pos
''')],
'C20-append-selfclose-tail': [('builder.go', '''		// Write rest of document after self-closing tag
		b.result.Write(b.data[parentLoc.contentEnd:])
''', '''		// Write rest of document after self-closing tag
		b.result.Write(b.data[parentLoc.startPos:])
''')],
'C20-attr-indent-drop': [('builder.go', '''		b.result.WriteString(">")
		// Write everything after the opening tag
		b.result.Write(b.data[location.contentStart:])
	}

	return nil
}

// createElement creates''', '''		b.result.WriteString(">")
		// Write everything after the opening tag
		if b.opts.Indent != "" && len(location.attrs) == 0 {
			b.result.Write(b.data[location.contentEnd:])
		} else {
			b.result.Write(b.data[location.contentStart:])
		}
	}

	return nil
}

// createElement creates''')],
'C20-sibling-newline': [('builder.go', '''	// Copy all existing XML
	b.result.Write(b.data)
''', '''	// Copy all existing XML
	data := b.data
	for len(data) > 0 && data[len(data)-1] == '\\n' && b.opts.Indent != "" {
		data = data[:len(data)-1]
	}
	b.result.Write(data)
''')],
'C20-attr-missing-doc': [('builder.go', '''	if !attrFound {
		// Attribute doesn't exist - return original XML unchanged
		b.result.Reset()
		b.result.Write(b.data)
		return nil
	}''', '''	if !attrFound {
		// Attribute doesn't exist - return original XML unchanged
		b.result.Reset()
		b.result.Write(b.data[:location.elementEnd])
		return nil
	}''')],
'C20-parent-insert-first': [('builder.go', '''		b.result.Write(b.data[:parentLocation.contentEnd])

		// Build the missing path
		b.buildElementPath(remainingPath, xmlValue, isRaw)

		b.result.Write(b.data[parentLocation.contentEnd:])''', '''		insert := parentLocation.contentEnd
		for insert > parentLocation.contentStart && b.data[insert-1] == '\\t' {
			insert--
		}
		b.result.Write(b.data[:insert])

		// Build the missing path
		b.buildElementPath(remainingPath, xmlValue, isRaw)

		b.result.Write(b.data[parentLocation.contentEnd:])''')],
'C20-attr-create-data': [('builder.go', '''	b.data = []byte(intermediateXML)
''', '''	b.data = []byte(strings.TrimSpace(intermediateXML))
''')],
'C20-second-root': [('builder.go', '''	contentEnd := contentStart + len(content)

	b.result.Reset()
''', '''	contentEnd := contentStart + len(content)
	if len(content) > 0 && parser.skipToNextElement() {
		contentEnd = parser.pos
	}

	b.result.Reset()
''')],
'C20-closetag-len': [('builder.go', '''						contentEnd = endTagPos
					}
					return &elementLocation{''', '''						contentEnd = parser.pos - len(elemName) - 3
					}
					return &elementLocation{''')],
}
