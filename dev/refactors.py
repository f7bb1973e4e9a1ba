# Behaviour-preserving edits: no check may raise an alarm on any of them.
EDITS = {
'val-pop-helper': [('validate.go', "\tp.tagStack = p.tagStack[:len(p.tagStack)-1]\n", "\tp.popTag()\n"), ('validate.go', "// parseAttributesValidating parses", "func (p *validatingParser) popTag() {\n\tn := len(p.tagStack) - 1\n\tp.tagStack = p.tagStack[:n]\n}\n\n// parseAttributesValidating parses")],
'val-top-helper': [('validate.go', "openTag := p.tagStack[len(p.tagStack)-1]", "openTag := p.top()"), ('validate.go', "// parseAttributesValidating parses", "func (p *validatingParser) top() tagInfo {\n\treturn p.tagStack[len(p.tagStack)-1]\n}\n\n// parseAttributesValidating parses")],
'val-top-ptr': [('validate.go', "openTag := p.tagStack[len(p.tagStack)-1]", "openTag := &p.tagStack[len(p.tagStack)-1]")],
'val-push-helper': [('validate.go', "p.tagStack = append(p.tagStack, tagInfo{\n\t\t\tname:   name,\n\t\t\tline:   tagLine,\n\t\t\tcolumn: tagColumn,\n\t\t})", "p.push(name, tagLine, tagColumn)"), ('validate.go', "// parseAttributesValidating parses", "func (p *validatingParser) push(name string, line, column int) {\n\tt := tagInfo{name: name, line: line, column: column}\n\tp.tagStack = append(p.tagStack, t)\n}\n\n// parseAttributesValidating parses")],
'val-switch': [('validate.go', "	next := p.peekChar()\n\n	// Processing instruction\n	if next == '?' {\n		p.advance()\n		return p.skipUntilTracked('>')\n	}\n", "	next := p.peekChar()\n\n	switch next {\n	case '/':\n		p.advance()\n		return p.parseClosingTag(tagLine, tagColumn)\n	case '?':\n		p.advance()\n		return p.skipUntilTracked('>')\n	}\n"), ('validate.go', "	// Closing tag\n	if next == '/' {\n		p.advance()\n		return p.parseClosingTag(tagLine, tagColumn)\n	}\n", "")],
'val-finish-helper': [('validate.go', "	// Check if we have unclosed tags\n	if len(p.tagStack) > 0 {\n		unclosed := p.tagStack[len(p.tagStack)-1]\n		return &ValidateError{\n			Line:    unclosed.line,\n			Column:  unclosed.column,\n			Message: fmt.Sprintf(\"unclosed tag '%s'\", unclosed.name),\n		}\n	}\n\n	// Check if we found a root element\n	if !p.rootFound {\n		return &ValidateError{\n			Line:    1,\n			Column:  0,\n			Message: \"no root element found\",\n		}\n	}\n\n	return nil\n}\n", "	if err := p.checkClosed(); err != nil {\n		return err\n	}\n	if p.rootFound {\n		return nil\n	}\n	return &ValidateError{\n		Line:    1,\n		Column:  0,\n		Message: \"no root element found\",\n	}\n}\n\nfunc (p *validatingParser) checkClosed() *ValidateError {\n	n := len(p.tagStack)\n	if n == 0 {\n		return nil\n	}\n	unclosed := p.tagStack[n-1]\n	return &ValidateError{\n		Line:    unclosed.line,\n		Column:  unclosed.column,\n		Message: fmt.Sprintf(\"unclosed tag '%s'\", unclosed.name),\n	}\n}\n")],
'val-match-first': [('validate.go', "	// Check if we have an opening tag to match\n	if len(p.tagStack) == 0 {", "	if n := len(p.tagStack); n > 0 && p.tagStack[n-1].name == name {\n		p.tagStack = p.tagStack[:n-1]\n		p.rootClosed = p.rootClosed || len(p.tagStack) == 0\n		return nil\n	}\n\n	// Check if we have an opening tag to match\n	if len(p.tagStack) == 0 {"), ('validate.go', "	// Pop from stack\n	p.tagStack = p.tagStack[:len(p.tagStack)-1]\n\n	// Mark root as closed if this was the root element\n	if len(p.tagStack) == 0 {\n		p.rootClosed = true\n	}\n\n	return nil\n}\n\n// parseAttributesV", "	return nil\n}\n\n// parseAttributesV"), ('validate.go', "	if openTag.name != name {\n		return &ValidateError{\n			Line:    tagLine,\n			Column:  tagColumn,\n			Message: fmt.Sprintf(\"mismatched closing tag '%s' (expected '%s' opened at line %d, column %d)\", name, openTag.name, openTag.line, openTag.column),\n		}\n	}\n\n	return nil\n}", "	return &ValidateError{\n		Line:    tagLine,\n		Column:  tagColumn,\n		Message: fmt.Sprintf(\"mismatched closing tag '%s' (expected '%s' opened at line %d, column %d)\", name, openTag.name, openTag.line, openTag.column),\n	}\n}")],
'val-forloop': [('validate.go', "	for p.pos < p.dataLen {\n		p.skipWhitespaceTracked()\n\n		if p.pos >= p.dataLen {\n			break\n		}\n", "	for {\n		p.skipWhitespaceTracked()\n\n		if p.pos >= p.dataLen {\n			break\n		}\n")],
'val-size-helper': [('validate.go', "if p.dataLen > MaxDocumentSize {", "if tooLarge(len(p.data)) {"), ('validate.go', "// parseAttributesValidating parses", "func tooLarge(n int) bool {\n\treturn n > MaxDocumentSize\n}\n\n// parseAttributesValidating parses")],
'raw-closing-helper': [('set.go', "				if len(tagStack) == 0 {\n					return ErrInvalidValue\n				}\n\n				// Verify tag matches\n				if tagStack[len(tagStack)-1] != tagName {\n					return ErrInvalidValue\n				}\n\n				// Pop from stack\n				tagStack = tagStack[:len(tagStack)-1]\n", "				rest, ok := popMatching(tagStack, tagName)\n				if !ok {\n					return ErrInvalidValue\n				}\n				tagStack = rest\n"), ('set.go', "// hasPrefixFold is like", "func popMatching(stack []string, name string) ([]string, bool) {\n	n := len(stack)\n	if n == 0 || stack[n-1] != name {\n		return stack, false\n	}\n	return stack[:n-1], true\n}\n\n// hasPrefixFold is like")],
'raw-scan-helper': [('set.go', "	if err := validateRawXML(rawxml); err != nil {\n		return xml, err\n	}\n", "	err := validateRawXML(rawxml)\n	if err != nil {\n		return xml, err\n	}\n"), ('set.go', "	result, err := Set(xml, path, []byte(rawxml))\n	if err != nil {\n		return xml, err\n	}\n\n	// The basic", "	raw := []byte(rawxml)\n	result, err := Set(xml, path, raw)\n	if err != nil {\n		return xml, err\n	}\n\n	// The basic")],
'raw-decl-helper': [('set.go', '				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {\n					// DOCTYPE - REJECT for security\n					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)\n				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {\n					// ENTITY declarations - REJECT for security\n					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)\n				} else {', '				} else if err := rejectDeclaration(rawxml[i:]); err != nil {\n					return err\n				} else {'), ('set.go', "// hasPrefixFold is like", 'func rejectDeclaration(s string) error {\n	for _, kw := range []string{"DOCTYPE", "ENTITY"} {\n		if hasPrefixFold(s, "<!"+kw) {\n			return fmt.Errorf("%w: %s declarations not allowed in SetRaw", ErrInvalidValue, kw)\n		}\n	}\n	return nil\n}\n\n// hasPrefixFold is like')],
'raw-upper': [('set.go', "	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)", "	if len(s) < len(prefix) {\n		return false\n	}\n	return strings.EqualFold(s[:len(prefix)], prefix)")],
'raw-switch': [('set.go', "			next := rawxml[i+1]\n			if next == '/' {", "			switch next := rawxml[i+1]; {\n			case next == '/':"), ('set.go', "			} else if next == '!' || next == '?' {", "			case next == '!', next == '?':"), ],
'raw-index-lt': [('set.go', "	for i < len(rawxml) {\n		if rawxml[i] == '<' {\n			if i+1", "	for i < len(rawxml) {\n		if rawxml[i] != '<' {\n			i++\n			continue\n		}\n		{\n			if i+1"), ('set.go', "			continue\n		}\n		i++\n	}\n\n	// Verify all tags", "		}\n	}\n\n	// Verify all tags")],
}
