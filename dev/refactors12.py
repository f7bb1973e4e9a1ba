EDITS={
'R30-push-helper': [('validate.go','''		p.tagStack = append(p.tagStack, tagInfo{
			name:   name,
			line:   tagLine,
			column: tagColumn,
		})
''','''		p.push(tagInfo{name: name, line: tagLine, column: tagColumn})
'''),('validate.go','''// parseClosingTag parses a closing tag
''','''// push records an open element
func (p *validatingParser) push(t tagInfo) {
	p.tagStack = append(p.tagStack, t)
}

// parseClosingTag parses a closing tag
''')],
'R30-attr-helper': [('parser.go','''		if quote == '"' || quote == '\\'' {
			p.next() // skip opening quote
			value := p.readUntil(quote)
			p.next() // skip closing quote
			attrs[name] = unescapeXML(value)
		} else {
			// Unquoted attribute value (read until whitespace or >)
			value := p.readUntilAny(" \\t\\n\\r/>")
			attrs[name] = unescapeXML(value)
		}
	}

	return attrs
}
''','''		p.readAttrValue(attrs, name, quote)
	}

	return attrs
}

func (p *xmlParser) readAttrValue(attrs map[string]string, name string, quote byte) {
	if quote == '"' || quote == '\\'' {
		p.next() // skip opening quote
		value := p.readUntil(quote)
		p.next() // skip closing quote
		attrs[name] = unescapeXML(value)
	} else {
		// Unquoted attribute value (read until whitespace or >)
		value := p.readUntilAny(" \\t\\n\\r/>")
		attrs[name] = unescapeXML(value)
	}
}
''')],
'R30-attr-for': [('parser.go','''	attrCount := 0

	for {
		p.skipWhitespace()

		// Security check: enforce maximum attribute count to prevent DoS attacks
		if attrCount >= MaxAttributes {
			break
		}

		// Check''','''	for attrCount := 0; ; attrCount++ {
		p.skipWhitespace()

		// Security check: enforce maximum attribute count to prevent DoS attacks
		if attrCount >= MaxAttributes {
			break
		}

		// Check'''),('parser.go','''			break
		}
		attrCount++

		p.skipWhitespace()

		// Expect '='
''','''			break
		}

		p.skipWhitespace()

		// Expect '='
''')],
'R30-attr-left': [('parser.go','''	attrCount := 0

	for {
		p.skipWhitespace()

		// Security check: enforce maximum attribute count to prevent DoS attacks
		if attrCount >= MaxAttributes {
			break
		}
''','''	left := MaxAttributes

	for {
		p.skipWhitespace()

		// Security check: enforce maximum attribute count to prevent DoS attacks
		if left == 0 {
			break
		}
'''),('parser.go','''			break
		}
		attrCount++

		p.skipWhitespace()

		// Expect '='
''','''			break
		}
		left--

		p.skipWhitespace()

		// Expect '='
''')],
'R30-seg-helper': [('path.go','''	if len(parts) > MaxPathSegments {
		return nil
	}
''','''	if tooLong(parts) {
		return nil
	}
'''),('path.go','''// splitPath splits a path on dots, handling escapes
''','''func tooLong(parts []string) bool {
	return len(parts) > MaxPathSegments
}

// splitPath splits a path on dots, handling escapes
''')],
'R30-seg-split': [('path.go','''	// Post-processing: Convert # followed by element/attribute/text into field extraction
	// This handles the GJSON #.field pattern which gets split by splitPath
	processedSegments := make''','''	return mergeFields(segments)
}

// mergeFields converts # followed by element/attribute/text into field extraction
// This handles the GJSON #.field pattern which gets split by splitPath
func mergeFields(segments []PathSegment) []PathSegment {
	processedSegments := make''')],
'R30-seg-index': [('path.go','''	for _, part := range parts {
		if part == "" {
			continue
		}

		// Parse modifiers''','''	for n := 0; n < len(parts); n++ {
		part := parts[n]
		if part == "" {
			continue
		}

		// Parse modifiers''')],
'R30-filter-helper': [('filter.go','''func parseFilterCondition(expr string) (*Filter, error) {
	// Security check: limit filter expression length
	if len(expr) > MaxFilterExpressionLength {
		return nil, ErrInvalidPath
	}

	// Security check: reject null bytes in expression
	if strings.ContainsRune(expr, '\\x00') {
		return nil, ErrInvalidPath
	}
''','''func parseFilterCondition(expr string) (*Filter, error) {
	if err := checkFilterText(expr); err != nil {
		return nil, err
	}
'''),('filter.go','''// parseFilterCondition parses a filter condition''','''// checkFilterText: limit filter expression length, reject null bytes
func checkFilterText(expr string) error {
	if len(expr) > MaxFilterExpressionLength || strings.ContainsRune(expr, '\\x00') {
		return ErrInvalidPath
	}
	return nil
}

// parseFilterCondition parses a filter condition''')],
'R30-depth-local': [('validate.go','''	if len(p.tagStack) >= MaxNestingDepth {
		return''','''	if open := len(p.tagStack); open+1 > MaxNestingDepth {
		return''')],
'R30-cache-clone': [('path.go','''		cached := make([]PathSegment, len(segments))
		copy(cached, segments)
		pathCache[path] = cached
''','''		pathCache[path] = append([]PathSegment(nil), segments...)
''')],
'R12-room': [('get.go','''	if len(dst) >= MaxWildcardResults {
		return dst
	}
	if len(src) > MaxWildcardResults-len(dst) {
		src = src[:MaxWildcardResults-len(dst)]
	}
	return append(dst, src...)
''','''	room := MaxWildcardResults - len(dst)
	if room <= 0 {
		return dst
	}
	if len(src) < room {
		room = len(src)
	}
	return append(dst, src[:room]...)
''')],
'R12-append-loop': [('get.go','''	if len(dst) >= MaxWildcardResults {
		return dst
	}
	if len(src) > MaxWildcardResults-len(dst) {
		src = src[:MaxWildcardResults-len(dst)]
	}
	return append(dst, src...)
''','''	for _, r := range src {
		if len(dst) >= MaxWildcardResults {
			break
		}
		dst = append(dst, r)
	}
	return dst
''')],
'R12-cut-after': [('get.go','''	if len(dst) >= MaxWildcardResults {
		return dst
	}
	if len(src) > MaxWildcardResults-len(dst) {
		src = src[:MaxWildcardResults-len(dst)]
	}
	return append(dst, src...)
''','''	dst = append(dst, src...)
	if len(dst) > MaxWildcardResults {
		dst = dst[:MaxWildcardResults]
	}
	return dst
''')],
'R12-full-helper': [('get.go','''	for _, match := range matches {
		// Security: Check result limit
		if totalExtracted >= MaxWildcardResults {
			break
		}

		if isAttribute {
			// Extract attribute value
			attrName := fieldName[1:] // Remove @ prefix
			if attrValue, ok := match.attrs[attrName]; ok {''','''	for _, match := range matches {
		// Security: Check result limit
		if full(totalExtracted) {
			break
		}

		if isAttribute {
			// Extract attribute value
			attrName := fieldName[1:] // Remove @ prefix
			if attrValue, ok := match.attrs[attrName]; ok {'''),('get.go','''// appendResults appends''','''func full(n int) bool {
	return n >= MaxWildcardResults
}

// appendResults appends''')],
'R12-len-count': [('get.go','''				// Security: Check limit on each iteration
				if totalExtracted >= MaxWildcardResults {
					break
				}

				parser.next() // skip '<'
				elemName, _, isSelfClosing := parser.parseElementName()

				// Check if element name matches field name
				if elemName != fieldName {''','''				// Security: Check limit on each iteration
				if len(results) >= MaxWildcardResults {
					break
				}

				parser.next() // skip '<'
				elemName, _, isSelfClosing := parser.parseElementName()

				// Check if element name matches field name
				if elemName != fieldName {'''),('get.go','''		// Security: Check result limit
		if totalExtracted >= MaxWildcardResults {
			break
		}
''','''		// Security: Check result limit
		if len(results) >= MaxWildcardResults {
			break
		}
'''),('get.go','	totalExtracted := 0\n',''),('get.go','				totalExtracted++\n',''),('get.go','				totalExtracted++\n',''),('get.go','				totalExtracted++\n','')],
'R12-ops-before': [('get.go','''			contentParser := newXMLParser([]byte(content))
			recursiveSearchWithContext(contentParser, targetSeg, segments, segIndex, ctx, depth+1)
		}

		// Check operation limit again after recursion
		if ctx.operations >= MaxRecursiveOperations {
			return
		}

		// Then''','''			below := depth + 1
			contentParser := newXMLParser([]byte(content))
			recursiveSearchWithContext(contentParser, targetSeg, segments, segIndex, ctx, below)
		}

		// Check operation limit again after recursion
		if overworked(ctx) {
			return
		}

		// Then'''),('get.go','''// appendResults appends''','''func overworked(ctx *searchContext) bool {
	return ctx.operations >= MaxRecursiveOperations
}

// appendResults appends''')],
'R12-ctx-method': [('get.go','''				*ctx.results = appendResults(*ctx.results, Result{
					Type: Element,
					Str:  unescapeXML(extractTextContent(content)),
					Raw:  content,
				})''','''				ctx.add(Result{
					Type: Element,
					Str:  unescapeXML(extractTextContent(content)),
					Raw:  content,
				})'''),('get.go','''// appendResults appends''','''func (ctx *searchContext) add(r ...Result) {
	*ctx.results = appendResults(*ctx.results, r...)
}

// appendResults appends''')],
'R12-split-check': [('get.go','''	ctx.operations++
	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
		return
	}
''','''	ctx.operations++
	if depth > MaxNestingDepth {
		return
	}
	if len(*ctx.results) >= MaxWildcardResults {
		return
	}
	if ctx.operations >= MaxRecursiveOperations {
		return
	}
''')],
'R12-collect-helper': [('get.go','''			allMatches = append(allMatches, elementMatch{
				name:          elemName,
				attrs:         attrs,
				content:       content,
				isSelfClosing: isSelfClosing,
			})

			if len(allMatches) >= MaxWildcardResults {
				break
			}
		}

		// Now apply field extraction to these matches''','''			m := elementMatch{name: elemName, attrs: attrs, content: content, isSelfClosing: isSelfClosing}
			allMatches = append(allMatches, m)
			if n := len(allMatches); n >= MaxWildcardResults {
				break
			}
		}

		// Now apply field extraction to these matches''')],
}
