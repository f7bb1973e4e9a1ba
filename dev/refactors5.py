EDITS = {
'R19-advanceN': [('validate.go', '			for i := 0; i < 7; i++ {\n				p.advance()\n			}\n', '			p.advanceN(7)\n'), ('validate.go', '// peekChar returns', 'func (p *validatingParser) advanceN(n int) {\n	for ; n > 0; n-- {\n		p.advance()\n	}\n}\n\n// peekChar returns')],
'R19-bulk-lit': [('validate.go', '			for i := 0; i < 7; i++ {\n				p.advance()\n			}\n', '			p.pos += 7\n			p.column += 7\n')],
'R19-bulk-dash': [('validate.go', "p.data[p.pos+1] == '-' {\n			p.advance()\n			p.advance()\n			return p.skipComment()", "p.data[p.pos+1] == '-' {\n			p.pos += 2\n			p.column += 2\n			return p.skipComment()")],
'R19-inline-quest': [('validate.go', "	if next == '?' {\n		p.advance()\n", "	if next == '?' {\n		p.pos++\n		p.column++\n")],
'R19-errorhere': [('validate.go', '			return &ValidateError{\n				Line:    p.line,\n				Column:  p.column,\n				Message: "attribute value must be quoted",\n			}', '			return p.errorHere("attribute value must be quoted")'), ('validate.go', '// peekChar returns', 'func (p *validatingParser) errorHere(msg string) *ValidateError {\n	return errorAt(p.line, p.column, msg)\n}\n\nfunc errorAt(line, column int, msg string) *ValidateError {\n	return &ValidateError{Line: line, Column: column, Message: msg}\n}\n\n// peekChar returns'), ('validate.go', '			return &ValidateError{\n				Line:    nameLine,\n				Column:  nameColumn,\n				Message: "element name exceeds maximum token size",\n			}', '			return errorAt(nameLine, nameColumn, "element name exceeds maximum token size")'), ('validate.go', '		return &ValidateError{\n			Line:    1,\n			Column:  0,\n			Message: "empty document",\n		}', '		return errorAt(1, 0, "empty document")')],
'R19-where': [('validate.go', '	tagLine := p.line\n	tagColumn := p.column\n', '	tagLine, tagColumn := p.where()\n'), ('validate.go', '// peekChar returns', 'func (p *validatingParser) where() (line, column int) {\n	return p.line, p.column\n}\n\n// peekChar returns')],
'R19-posstruct': [('validate.go', '	nameLine := p.line\n	nameColumn := p.column\n\n	name := p.readNameTracked()\n	if name == "" {\n		return &ValidateError{\n			Line:    nameLine,\n			Column:  nameColumn,', '	at := p.here()\n\n	name := p.readNameTracked()\n	if name == "" {\n		return &ValidateError{\n			Line:    at.row,\n			Column:  at.offset,'), ('validate.go', '// peekChar returns', 'type place struct{ row, offset int }\n\nfunc (p *validatingParser) here() place {\n	return place{row: p.line, offset: p.column}\n}\n\n// peekChar returns')],
'R19-count-helper': [('validate.go', "	if c == '\\n' {\n		p.line++\n		p.column = 0\n	} else {\n		p.column++\n	}\n", '	p.count(c)\n'), ('validate.go', '// peekChar returns', "func (p *validatingParser) count(c byte) {\n	if c != '\\n' {\n		p.column++\n		return\n	}\n	p.line, p.column = p.line+1, 0\n}\n\n// peekChar returns")],
'R19-order': [('validate.go', "	c := p.data[p.pos]\n	p.pos++\n\n	if c == '\\n' {\n		p.line++\n		p.column = 0\n	} else {\n		p.column++\n	}\n", "	c := p.data[p.pos]\n	p.column++\n	if c == '\\n' {\n		p.line++\n		p.column = 0\n	}\n	p.pos++\n")],
'R19-switch': [('validate.go', "	if c == '\\n' {\n		p.line++\n		p.column = 0\n	} else {\n		p.column++\n	}\n", "	switch c {\n	case '\\n':\n		p.column = 0\n		p.line++\n	default:\n		p.column++\n	}\n")],
'R19-after': [('validate.go', "	c := p.data[p.pos]\n	p.pos++\n", "	p.pos++\n	c := p.data[p.pos-1]\n")],
'R19-local': [('validate.go', "	c := p.data[p.pos]\n	p.pos++\n", "	at := p.pos\n	c := p.data[at]\n	p.pos = at + 1\n")],
'R19-skiploop': [('validate.go', '	for p.pos < p.dataLen && isWhitespace(p.data[p.pos]) {\n		p.advance()\n	}\n}\n\n// parseTag', "	for p.pos < p.dataLen && isWhitespace(p.data[p.pos]) {\n		if p.data[p.pos] == '\\n' {\n			p.line++\n			p.column = 0\n		} else {\n			p.column++\n		}\n		p.pos++\n	}\n}\n\n// parseTag")],
'R19-push': [('validate.go', '		p.tagStack = append(p.tagStack, tagInfo{\n			name:   name,\n			line:   tagLine,\n			column: tagColumn,\n		})', '		p.push(name, tagLine, tagColumn)'), ('validate.go', '// peekChar returns', 'func (p *validatingParser) push(name string, line, column int) {\n	p.tagStack = append(p.tagStack, tagInfo{name, line, column})\n}\n\n// peekChar returns')],
'R19-top': [('validate.go', '		unclosed := p.tagStack[len(p.tagStack)-1]\n		return &ValidateError{\n			Line:    unclosed.line,\n			Column:  unclosed.column,\n			Message: fmt.Sprintf("unclosed tag \'%s\'", unclosed.name),', '		last := len(p.tagStack) - 1\n		return &ValidateError{\n			Line:    p.tagStack[last].line,\n			Column:  p.tagStack[last].column,\n			Message: fmt.Sprintf("unclosed tag \'%s\'", p.tagStack[last].name),')],
'R19-new': [('validate.go', '	return &validatingParser{\n		xmlParser: xmlParser{\n			data:    data,\n			pos:     0,\n			depth:   0,\n			dataLen: len(data),\n		},\n		line:     1,\n		column:   0,\n		tagStack: make([]tagInfo, 0, 16), // Pre-allocate for typical nesting depth\n	}', '	v := &validatingParser{tagStack: make([]tagInfo, 0, 16)}\n	v.data, v.dataLen = data, len(data)\n	v.line = 1\n	return v')],
'R19-new2': [('validate.go', '		xmlParser: xmlParser{\n			data:    data,\n			pos:     0,\n			depth:   0,\n			dataLen: len(data),\n		},\n		line', '		xmlParser: *newXMLParser(data),\n		line')],
'R19-merge': [('validate.go', '	p.advance()\n\n	// Check if we have an opening tag to match', '	_ = p.advance()\n\n	// Check if we have an opening tag to match')],
'R19-phi': [('validate.go', '	openTag := p.tagStack[len(p.tagStack)-1]\n	if openTag.name != name {\n		return &ValidateError{\n			Line:    tagLine,\n			Column:  tagColumn,', '	openTag := p.tagStack[len(p.tagStack)-1]\n	if openTag.name != name {\n		line, column := tagLine, tagColumn\n		if len(name) > 1000 {\n			line, column = p.line, p.column\n		}\n		return &ValidateError{\n			Line:    line,\n			Column:  column,')],
}
