SEEDS={
'c20-del-newline': dict(property='C20', needs='deleting an element that stands alone on its line',
  what='deleting an element also removes the line break behind it',
  edits=[('builder.go','''		// Self-closing tag: <tag attr="val"/>
		// location.contentStart points to position after '/>', so we can write from there
		b.result.Write(b.data[location.contentStart:])
''','''		// Self-closing tag: <tag attr="val"/>
		// location.contentStart points to position after '/>', so we can write from there
		next := location.contentStart
		if next < len(b.data) && b.data[next] == '\\n' {
			next++
		}
		b.result.Write(b.data[next:])
''')],
  demo='''got, err := xmldot.Delete("<r>\\n<a/>\\n<b>1</b>\\n</r>", "r.a")
if err != nil || got != "<r>\\n\\n<b>1</b>\\n</r>" { fail("got %q %v", got, err) }'''),
'c20-deep-index': dict(property='C20', needs='editing through an index that is not on the first level of the document',
  what='places found behind a nested index are counted from the start of the enclosing element',
  edits=[('builder.go','''				newOffset := baseOffset + contentStartPos
''','''				newOffset := contentStartPos
				if segIndex == 0 || segments[segIndex-1].Type != SegmentIndex {
					newOffset += baseOffset
				}
''')],
  demo='''d := "<r><g><p><i>1</i></p></g><g><p><i>2</i></p><p><i>3</i></p></g></r>"
got, err := xmldot.Set(d, "r.g.1.p.1.i", "X")
if err != nil || got != "<r><g><p><i>1</i></p></g><g><p><i>2</i></p><p><i>X</i></p></g></r>" { fail("got %q %v", got, err) }'''),
'c20-append-empty': dict(property='C20', needs='appending behind a sibling that is an empty-element tag',
  what='the new element is put where the sibling ends counted from the parent instead of the document',
  edits=[('builder.go','''			if isSelfClosing {
				lastMatchEnd = parent.contentStart + parser.pos
''','''			if isSelfClosing {
				lastMatchEnd = parser.pos
''')],
  demo='''got, err := xmldot.Set("<r><l><i/></l><t>x</t></r>", "r.l.i.-1", "n")
if err != nil || got != "<r><l><i/><i>n</i></l><t>x</t></r>" { fail("got %q %v", got, err) }'''),
'c20-root-tail': dict(property='C20', needs='a comment behind an empty root element that gets its first child',
  what='what follows an empty root element is left out unless it is another element',
  edits=[('builder.go','''		// Write everything after the original self-closing tag
		b.result.Write(b.data[parentLocation.contentEnd:])
''','''		// Write everything after the original self-closing tag
		rest := b.data[parentLocation.contentEnd:]
		if newXMLParser(rest).skipToNextElement() || strings.Contains(string(rest), "</") {
			b.result.Write(rest)
		}
''')],
  demo='''got, err := xmldot.Set("<r/><!-- end -->", "r.a", "1")
if err != nil || got != "<r><a>1</a></r><!-- end -->" { fail("got %q %v", got, err) }'''),
'c20-attr-none': dict(property='C20', needs='deleting an attribute that is not there',
  what='deleting a missing attribute cuts the document off behind the element',
  edits=[('builder.go','''	if !attrFound {
		// Attribute doesn't exist - return original XML unchanged
		b.result.Reset()
		b.result.Write(b.data)
''','''	if !attrFound {
		// Attribute doesn't exist - return original XML unchanged
		b.result.Reset()
		b.result.Write(b.data[:location.contentEnd])
		if location.startPos == 0 {
			b.result.Write(b.data[location.contentEnd:])
		}
''')],
  demo='''d := "<r><a k=\\"1\\">x</a><b>y</b></r>"
got, err := xmldot.Delete(d, "r.a.@z")
if err != nil || got != d { fail("got %q %v", got, err) }'''),
'c20-result-trim': dict(property='C20', needs='a document that ends with a line break, edited with options',
  what='the edited document loses the white space at its end',
  edits=[('builder.go','''	return b.result.String()
}''','''	if b.opts != nil && b.opts.Indent != "" {
		return strings.TrimRight(b.result.String(), "\\n")
	}
	return b.result.String()
}''')],
  demo='''got, err := xmldot.SetWithOptions("<r><a>1</a></r>\\n", "r.a", "2", &xmldot.Options{CaseSensitive: true, Indent: "  "})
if err != nil || got != "<r><a>2</a></r>\\n" { fail("got %q %v", got, err) }'''),
}
