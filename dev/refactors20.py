# Behaviour-preserving edits of the code that puts edited documents together.
B='builder.go'
FIND_OLD='''	parser := newXMLParser(b.data)
	location, found := b.findElementLocation(parser, path, 0, 0)

	if found {'''
MK='''					return &elementLocation{
						startPos:      elemStartPos + baseOffset,
						endTagPos:     endTagPos + baseOffset,
						contentStart:  contentStart + baseOffset,
						contentEnd:    contentEnd + baseOffset,
						elementEnd:    parser.pos + baseOffset,
						elementName:   elemName,
						attrs:         attrs,
						isSelfClosing: isSelfClosing,
					}, true
'''
MK2=MK.replace('\t\t\t\t\t','\t\t\t',1).replace('\n\t\t\t\t\t','\n\t\t\t')
REP='''	// Write everything up to and including the opening tag (up to contentStart)
	b.result.Write(b.data[:location.contentStart])

	// Write the new value
	b.result.WriteString(xmlValue)

	// Write everything after the content (includes closing tag and rest of document)
	// contentEnd points to the start of the closing tag '<'
	b.result.Write(b.data[location.contentEnd:])
'''
FUNC='// getResult returns the built XML string\n'
DELB='''	b.result.Reset()
	b.result.Write(b.data[:location.startPos])

	// Skip the element and its closing tag
	if location.isSelfClosing {
		// Self-closing tag: <tag attr="val"/>
		// location.contentStart points to position after '/>', so we can write from there
		b.result.Write(b.data[location.contentStart:])
	} else {
		// Regular element: <tag>content</tag>
		// Skip past the closing tag </name>
		b.result.Write(b.data[location.elementEnd:])
	}
'''
LASTP='''			if isSelfClosing {
				lastMatchEnd = parent.contentStart + parser.pos
			} else {
				_ = parser.parseElementContent(elemName)
				lastMatchEnd = parent.contentStart + parser.pos
			}
'''
ROOTP='''			if isSelfClosing {
				insertPos = parser.pos
			} else {
				_ = parser.parseElementContent(elemName)
				insertPos = parser.pos
			}
'''
TAILS='''	// Close the opening tag
	if location.isSelfClosing {
		b.result.WriteString("/>")
		// Write everything after this tag
		b.result.Write(b.data[location.contentStart:])
	} else {
		b.result.WriteString(">")
		// Write everything after the opening tag
		b.result.Write(b.data[location.contentStart:])
	}
'''
UNCH='''		// Element doesn't exist - return original XML unchanged
		b.result.Reset()
		b.result.Write(b.data)
		return nil
'''
NEWOFF='''				newOffset := baseOffset + contentStartPos
				if newOffset < baseOffset || newOffset > MaxPositionOffset {
					// Overflow detected
					return nil, false
				}
				return b.findElementLocation(contentParser, segments, segIndex+2, newOffset)'''
EDITS = {
'R20-locate': [(B, FIND_OLD, '''	location, found := b.locate(path)

	if found {'''), (B, FUNC, '''// locate finds the element at path in the whole document
func (b *xmlBuilder) locate(path []PathSegment) (*elementLocation, bool) {
	return b.findElementLocation(newXMLParser(b.data), path, 0, 0)
}

'''+FUNC)],
'R20-make-location': [(B, MK, '''					return makeLocation(elemName, attrs, isSelfClosing, elemStartPos+baseOffset, contentStart+baseOffset, contentEnd+baseOffset, parser.pos+baseOffset), true
'''), (B, '					contentStart := parser.pos\n					var contentEnd, endTagPos int\n					if isSelfClosing {\n						contentEnd = parser.pos\n						endTagPos = parser.pos\n', '					contentStart := parser.pos\n					var contentEnd int\n					if isSelfClosing {\n						contentEnd = parser.pos\n'), (B,'						endTagPos = contentStart + len(content) // at \'<\' of </name>\n						contentEnd = endTagPos\n','						contentEnd = contentStart + len(content) // at \'<\' of </name>\n'),(B, FUNC, '''// makeLocation records where an element stands
func makeLocation(name string, attrs map[string]string, self bool, start, from, to, end int) *elementLocation {
	return &elementLocation{
		startPos:      start,
		endTagPos:     to,
		contentStart:  from,
		contentEnd:    to,
		elementEnd:    end,
		elementName:   name,
		attrs:         attrs,
		isSelfClosing: self,
	}
}

'''+FUNC)],
'R20-read-location': [(B, '''			// Found the target element
			contentStart := parser.pos
			var contentEnd, endTagPos int
			if isSelfClosing {
				contentEnd = parser.pos
				endTagPos = parser.pos
			} else {
				content := parser.parseElementContent(elemName)
				// parser.pos is now just after the '>' of </name>
				// We want endTagPos to be at the '<' of </name>
				endTagPos = contentStart + len(content) // at '<' of </name>
				contentEnd = endTagPos
			}
'''+MK2, '''			return b.targetLocation(parser, elemName, attrs, isSelfClosing, elemStartPos, baseOffset), true
'''), (B, FUNC, '''// targetLocation reads the rest of the element the parser is at
func (b *xmlBuilder) targetLocation(parser *xmlParser, name string, attrs map[string]string, self bool, start, offset int) *elementLocation {
	loc := &elementLocation{startPos: start + offset, contentStart: parser.pos + offset, elementName: name, attrs: attrs, isSelfClosing: self}
	loc.contentEnd = loc.contentStart
	if !self {
		loc.contentEnd += len(parser.parseElementContent(name))
	}
	loc.endTagPos = loc.contentEnd
	loc.elementEnd = parser.pos + offset
	return loc
}

'''+FUNC)],
'R20-splice': [(B, REP, '''	b.splice(location.contentStart, xmlValue, location.contentEnd)
'''), (B, FUNC, '''// splice puts text in place of what stands between from and to
func (b *xmlBuilder) splice(from int, text string, to int) {
	b.result.Write(b.data[:from])
	b.result.WriteString(text)
	b.result.Write(b.data[to:])
}

'''+FUNC)],
'R20-concat': [(B, REP, '''	doc := string(b.data)
	b.result.WriteString(doc[:location.contentStart] + xmlValue + doc[location.contentEnd:])
''')],
'R20-parts': [(B, REP, '''	before, after := b.data[:location.contentStart], b.data[location.contentEnd:]
	for _, part := range [][]byte{before, []byte(xmlValue), after} {
		b.result.Write(part)
	}
''')],
'R20-before-after': [(B, REP, '''	before, after := b.data[:location.contentStart], b.data[location.contentEnd:]
	b.result.Grow(len(before) + len(xmlValue) + len(after))
	b.result.Write(before)
	b.result.WriteString(xmlValue)
	b.result.Write(after)
''')],
'R20-del-end': [(B, DELB, '''	end := location.elementEnd
	if location.isSelfClosing {
		end = location.contentStart
	}
	b.result.Reset()
	b.result.Write(b.data[:location.startPos])
	b.result.Write(b.data[end:])
''')],
'R20-del-elementend': [(B, DELB, '''	b.result.Reset()
	b.result.Write(b.data[:location.startPos])
	b.result.Write(b.data[location.elementEnd:])
''')],
'R20-del-cut': [(B, DELB, '''	b.cut(location)
'''), (B, FUNC, '''// cut writes the document without the element
func (b *xmlBuilder) cut(loc *elementLocation) {
	b.result.Reset()
	b.result.Write(b.data[:loc.startPos])
	b.result.Write(b.data[loc.end():])
}

// end is the position after the element
func (l *elementLocation) end() int {
	if l.isSelfClosing {
		return l.contentStart
	}
	return l.elementEnd
}

'''+FUNC)],
'R20-last-merge': [(B, LASTP, '''			if !isSelfClosing {
				parser.parseElementContent(elemName)
			}
			lastMatchEnd = parser.pos + parent.contentStart
''')],
'R20-last-rel': [(B, LASTP, '''			if !isSelfClosing {
				parser.parseElementContent(elemName)
			}
			end := parser.pos
			lastMatchEnd = parent.contentStart
			lastMatchEnd += end
''')],
'R20-root-merge': [(B, ROOTP, '''			if !isSelfClosing {
				parser.parseElementContent(elemName)
			}
			insertPos = parser.pos
''')],
'R20-root-helper': [(B, '''	parser := newXMLParser(b.data)
	insertPos := len(b.data) // Default: append at end

	for parser.skipToNextElement() {
		parser.next()
		elemName, _, isSelfClosing := parser.parseElementName()

		if elementSeg.matchesWithOptions(elemName, b.opts) {
			// Found matching root - track position after it
'''+ROOTP+'''		} else {
			// Skip non-matching root elements
			if !isSelfClosing {
				parser.parseElementContent(elemName)
			}
		}
	}
''', '''	insertPos := b.lastRootEnd(elementSeg)
'''), (B, FUNC, '''// lastRootEnd is the position after the last root element that matches
func (b *xmlBuilder) lastRootEnd(seg PathSegment) int {
	parser := newXMLParser(b.data)
	end := len(b.data)
	for parser.skipToNextElement() {
		parser.next()
		name, _, self := parser.parseElementName()
		if !self {
			parser.parseElementContent(name)
		}
		if seg.matchesWithOptions(name, b.opts) {
			end = parser.pos
		}
	}
	return end
}

'''+FUNC)],
'R20-tails': [(B, TAILS, '''	// Close the opening tag
	closing := ">"
	if location.isSelfClosing {
		closing = "/>"
	}
	b.result.WriteString(closing)
	b.result.Write(b.data[location.contentStart:])
''')],
'R20-unchanged': [(B, UNCH, '''		// Element doesn't exist - return original XML unchanged
		return b.unchanged()
'''), (B, FUNC, '''// unchanged makes the document itself the result
func (b *xmlBuilder) unchanged() error {
	b.result.Reset()
	b.result.Write(b.data)
	return nil
}

'''+FUNC)],
'R20-unchanged-empty': [(B, UNCH, '''		// Element doesn't exist - return original XML unchanged
		b.result.Reset()
		return nil
''')],
'R20-offset-helper': [(B, NEWOFF, '''				newOffset, ok := childOffset(baseOffset, contentStartPos)
				if !ok {
					return nil, false
				}
				return b.findElementLocation(contentParser, segments, segIndex+2, newOffset)'''), (B, FUNC, '''// childOffset is the position of content in the document
func childOffset(base, start int) (int, bool) {
	off := base + start
	if off < base || off > MaxPositionOffset {
		return 0, false
	}
	return off, true
}

'''+FUNC)],
'R20-inner-helper': [(B, '''				contentParser := newXMLParser([]byte(content))
				// Pass the current content start position as the new base offset
				// Check for overflow before recursing
'''+NEWOFF, '''				return b.findInside(content, segments, segIndex+2, baseOffset+contentStartPos)'''), (B, FUNC, '''// findInside continues the search in the content of an element
func (b *xmlBuilder) findInside(content string, segments []PathSegment, segIndex, offset int) (*elementLocation, bool) {
	if offset < 0 || offset > MaxPositionOffset {
		return nil, false
	}
	return b.findElementLocation(newXMLParser([]byte(content)), segments, segIndex, offset)
}

'''+FUNC)],
'R20-getresult': [(B, '''	if b.result.Len() == 0 {
		return string(b.data)
	}
	return b.result.String()
''', '''	if out := b.result.String(); out != "" {
		return out
	}
	return string(b.data)
''')],
'R20-answer-var': [('set.go', '''	return []byte(builder.getResult()), nil
}

// DeleteBytesWithOptions''', '''	out := builder.getResult()
	return []byte(out), nil
}

// DeleteBytesWithOptions''')],
'R20-answer-helper': [('set.go', '''	// Execute the set operation
	if err := builder.setElement(segments, value); err != nil {
		return xml, err
	}

	return []byte(builder.getResult()), nil
''', '''	// Execute the set operation
	return finishEdit(builder, xml, builder.setElement(segments, value))
'''), ('set.go', '// DeleteBytesWithOptions is like', '''// finishEdit returns the edited document, or the original one if the edit failed
func finishEdit(builder *xmlBuilder, xml []byte, err error) ([]byte, error) {
	if err != nil {
		return xml, err
	}
	return []byte(builder.getResult()), nil
}

// DeleteBytesWithOptions is like''')],
'R20-answer-edit': [('set.go', '''	// Execute the set operation
	if err := builder.setElement(segments, value); err != nil {
		return xml, err
	}

	return []byte(builder.getResult()), nil
''', '''	// Execute the set operation
	return edit(builder, xml, func() error { return builder.setElement(segments, value) })
'''), ('set.go', '''	// Execute the delete operation
	if err := builder.deleteElement(segments); err != nil {
		return xml, err
	}

	return []byte(builder.getResult()), nil
''', '''	// Execute the delete operation
	return edit(builder, xml, func() error { return builder.deleteElement(segments) })
'''), ('set.go', '// DeleteBytesWithOptions is like', '''// edit returns the edited document, or the original one if the edit failed
func edit(builder *xmlBuilder, xml []byte, op func() error) ([]byte, error) {
	if err := op(); err != nil {
		return xml, err
	}
	return []byte(builder.getResult()), nil
}

// DeleteBytesWithOptions is like''')],
'R20-opentag': [(B, '''		b.result.WriteString("<")
		b.result.WriteString(parentLocation.elementName)

		// Write attributes if any
		if len(parentLocation.attrs) > 0 {
			for _, k := range sortedAttrNames(parentLocation.attrs) {
				v := parentLocation.attrs[k]
				b.result.WriteString(" ")
				b.result.WriteString(k)
				b.result.WriteString(`="`)
				b.result.WriteString(escapeXML(v))
				b.result.WriteString(`"`)
			}
		}

		b.result.WriteString(">")
''', '''		b.writeOpenTag(parentLocation.elementName, parentLocation.attrs)
'''), (B, FUNC, '''// writeOpenTag writes a start tag with its attributes in order
func (b *xmlBuilder) writeOpenTag(name string, attrs map[string]string) {
	b.result.WriteString("<")
	b.result.WriteString(name)
	for _, k := range sortedAttrNames(attrs) {
		b.result.WriteString(" ")
		b.result.WriteString(k)
		b.result.WriteString(`="`)
		b.result.WriteString(escapeXML(attrs[k]))
		b.result.WriteString(`"`)
	}
	b.result.WriteString(">")
}

'''+FUNC)],
'R20-out-local': [(B, REP, '''	out := &b.result
	data := b.data
	out.Write(data[:location.contentStart])
	out.WriteString(xmlValue)
	out.Write(data[location.contentEnd:])
''')],
'R20-parent-merge': [(B, '''	// Try to find the deepest existing parent by checking path[0:i] for i from len-1 down to 1
	for i := len(path) - 1; i >= 1; i-- {
		parser := newXMLParser(b.data)
		partialPath := path[0:i]
		loc, found := b.findElementLocation(parser, partialPath, 0, 0)
		if found {
			parentLocation = loc
			parentDepth = i - 1 // Index of the last found segment
			break
		}
	}
''', '''	for i := len(path) - 1; i >= 1 && parentLocation == nil; i-- {
		if loc, found := b.findElementLocation(newXMLParser(b.data), path[:i], 0, 0); found {
			parentLocation, parentDepth = loc, i-1
		}
	}
''')],
'R20-loc-value': [(B, '''		return b.replaceElement(location, path[len(path)-1], xmlValue)''', '''		loc := *location
		return b.replaceElement(&loc, path[len(path)-1], xmlValue)''')],
'R20-insert-helper': [(B, '''		b.result.Write(b.data[:parentLocation.contentEnd])

		// Build the missing path
		b.buildElementPath(remainingPath, xmlValue, isRaw)

		b.result.Write(b.data[parentLocation.contentEnd:])''', '''		b.insertAt(parentLocation.contentEnd, func() { b.buildElementPath(remainingPath, xmlValue, isRaw) })'''), (B, FUNC, '''// insertAt writes the document with new text at pos
func (b *xmlBuilder) insertAt(pos int, write func()) {
	b.result.Write(b.data[:pos])
	write()
	b.result.Write(b.data[pos:])
}

'''+FUNC)],
'R20-iterative': [(B, '''	currentSeg := segments[segIndex]
	isLastSegment := segIndex == len(segments)-1

	// Track matches for array indexing
	matchCount := 0
	needsIndex := !isLastSegment && segments[segIndex+1].Type == SegmentIndex

	for parser.skipToNextElement() {''', '''	currentSeg := segments[segIndex]
	isLastSegment := segIndex == len(segments)-1

	// Track matches for array indexing
	matchCount := 0
	needsIndex := !isLastSegment && segments[segIndex+1].Type == SegmentIndex

	for {
		if !parser.skipToNextElement() {
			return nil, false
		}'''), (B, '''		return b.findElementLocation(contentParser, segments, segIndex+1, newOffset)
	}

	return nil, false
}''', '''		if segIndex+1 >= len(segments) {
			return nil, false
		}
		parser, baseOffset, segIndex = contentParser, newOffset, segIndex+1
		currentSeg = segments[segIndex]
		isLastSegment = segIndex == len(segments)-1
		matchCount = 0
		needsIndex = !isLastSegment && segments[segIndex+1].Type == SegmentIndex
	}
}''')],
}
