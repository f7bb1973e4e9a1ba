EDITS = {
'C19-untracked-ws': [('validate.go', '		p.skipWhitespaceTracked()\n\n		// Read attribute value', '		p.skipWhitespace()\n\n		// Read attribute value')],
'C19-untracked-until': [('validate.go', '	if next == \'?\' {\n		p.advance()\n		return p.skipUntilTracked(\'>\')', '	if next == \'?\' {\n		p.advance()\n		if p.pos+1 < p.dataLen && p.data[p.pos] == \'x\' {\n			p.pos++\n		}\n		return p.skipUntilTracked(\'>\')')],
'C19-cdata-bulk': [('validate.go', '			for i := 0; i < 7; i++ {\n				p.advance()\n			}\n', '			p.pos += 7\n')],
'C19-comment-index': [('validate.go', 'func (p *validatingParser) skipComment() *ValidateError {\n', 'func (p *validatingParser) skipComment() *ValidateError {\n	if i := bytes.Index(p.data[p.pos:], []byte("-->")); i > 64 {\n		p.pos += i\n		p.column += i\n	}\n'), ('validate.go', 'import "fmt"', 'import (\n	"bytes"\n	"fmt"\n)')],
'C19-column-one': [('validate.go', '		p.line++\n		p.column = 0\n', '		p.line++\n		if p.pos < p.dataLen {\n			p.column = 0\n		}\n')],
'C19-cr': [('validate.go', "	if c == '\\n' {\n		p.line++", "	if c == '\\n' || c == '\\r' {\n		p.line++")],
'C19-tab': [('validate.go', '	} else {\n		p.column++\n	}', "	} else if c == '\\t' {\n		p.column += 8\n	} else {\n		p.column++\n	}")],
'C19-utf8': [('validate.go', '	} else {\n		p.column++\n	}', "	} else if c&0xC0 != 0x80 {\n		p.column++\n	}")],
'C19-swap-attr': [('validate.go', '				Line:    attrLine,\n				Column:  attrColumn,\n				Message: fmt.Sprintf("invalid attribute name', '				Line:    attrColumn,\n				Column:  attrLine,\n				Message: fmt.Sprintf("invalid attribute name')],
'C19-mix-line': [('validate.go', '			Line:    nameLine,\n			Column:  nameColumn,\n			Message: fmt.Sprintf("invalid element name', '			Line:    p.line,\n			Column:  nameColumn,\n			Message: fmt.Sprintf("invalid element name')],
'C19-taginfo-mix': [('validate.go', '			line:   tagLine,\n			column: tagColumn,', '			line:   p.line,\n			column: tagColumn,')],
'C19-taginfo-swap': [('validate.go', '			line:   tagLine,\n			column: tagColumn,', '			line:   tagColumn,\n			column: tagLine,')],
'C19-args-swapped': [('validate.go', 'p.parseClosingTag(tagLine, tagColumn)', 'p.parseClosingTag(tagColumn, tagLine)')],
'C19-late-column2': [('validate.go', '		attrLine := p.line\n		attrColumn := p.column\n		attrName := p.readNameTracked()', '		attrLine := p.line\n		attrName := p.readNameTracked()\n		attrColumn := p.column')],
'C19-unclosed-mix': [('validate.go', '			Line:    unclosed.line,\n			Column:  unclosed.column,', '			Line:    unclosed.line,\n			Column:  p.tagStack[0].column,')],
'C19-noline': [('validate.go', '			Line:    1,\n			Column:  0,\n			Message: "no root', '			Message: "no root')],
'C19-start0': [('validate.go', '		line:     1,\n', '		line:     min(1, len(data)),\n')],
'C19-bom': [('validate.go', '			pos:     0,\n			depth:   0,\n			dataLen: len(data),\n		},\n		line', '			pos:     bomLen(data),\n			depth:   0,\n			dataLen: len(data),\n		},\n		line'), ('validate.go', '// advance moves', 'func bomLen(data []byte) int {\n	if len(data) > 3 && data[0] == 0xEF && data[1] == 0xBB && data[2] == 0xBF {\n		return 3\n	}\n	return 0\n}\n\n// advance moves')],
'C19-doctype-double': [('validate.go', "		} else if c == ']' {\n			depth--", "		} else if c == '\\n' {\n			p.line++\n		} else if c == ']' {\n			depth--")],
'C19-backtrack': [('validate.go', '	name := p.readNameTracked()\n	if name == "" {\n		return &ValidateError{\n			Line:    nameLine,', '	save := p.pos\n	name := p.readNameTracked()\n	if len(name) > 1000 {\n		p.pos = save\n		name = p.readNameTracked()\n	}\n	if name == "" {\n		return &ValidateError{\n			Line:    nameLine,')],
'C19-error-plus': [('validate.go', '				Line:    p.line,\n				Column:  p.column,\n				Message: "attribute value must', '				Line:    p.line,\n				Column:  p.column + 1,\n				Message: "attribute value must')],
}
