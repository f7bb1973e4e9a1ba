RU='''	start := p.pos
	for p.pos < p.dataLen {
		// Security check: enforce maximum token size
		if p.pos-start > MaxTokenSize {
			// Token too large - return empty string to signal error
			return ""
		}
		if p.data[p.pos] == delim {
			result := string(p.data[start:p.pos])
			return result
		}
		p.pos++
	}
	return string(p.data[start:])
'''
WS='''	for p.pos < p.dataLen && isWhitespace(p.data[p.pos]) {
		p.pos++
	}
'''
ETC='''	for i := 0; i < len(content); i++ {
		c := content[i]
		if c == '<' {
			inTag = true
		} else if c == '>' {'''
CLOSE='''					closeTagStart := p.pos
					p.next() // skip '<'
					p.next() // skip '/'
'''
CM='''						// Comment: skip to -->
						for p.pos < p.dataLen-2 {
							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
								p.pos += 3
								break
							}
							p.pos++
						}
'''
DT='''							depth := 0
							for p.pos < p.dataLen {
								c := p.data[p.pos]
								if c == '[' {
									depth++
								} else if c == ']' {
									depth--
								} else if c == '>' && depth == 0 {
									p.pos++
									break
								}
								p.pos++
							}
'''
RAWQ='''					endQuote := strings.IndexByte(rawxml[i+1:], rawxml[i])
					if endQuote == -1 {
						return ErrInvalidValue
					}
					i += 1 + endQuote + 1
'''
RN='''	start := p.pos

	for p.pos < p.dataLen {
		// Check token size limit
		if p.pos-start > MaxTokenSize {
			return ""
		}

		c := p.data[p.pos]

		// Valid name characters: letter, digit, ., -, _, :
		if (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
			(c >= '0' && c <= '9') || c == '.' || c == '-' ||
			c == '_' || c == ':' {
			p.advance()
		} else {
			break
		}
	}
'''
NX='''	if p.pos < p.dataLen {
		c := p.data[p.pos]
		p.pos++
		return c
	}
	return 0
'''
SKIPC='''	for p.pos < p.dataLen-2 {
		if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
			p.advance()
			p.advance()
			if p.peekChar() == '>' {
				p.advance()
				return nil
			}
'''
SPLIT='''	for i := 0; i < len(path); i++ {
		c := path[i]

		if escaped {'''
EDITS = {
'R14-until-local': [('parser.go', RU, '''	start := p.pos
	i := start
	for ; i < p.dataLen; i++ {
		if i-start > MaxTokenSize {
			p.pos = i
			return ""
		}
		if p.data[i] == delim {
			p.pos = i
			return string(p.data[start:i])
		}
	}
	p.pos = i
	return string(p.data[start:])
''')],
'R14-until-rest': [('parser.go', RU, '''	rest := p.data[p.pos:]
	for i, c := range rest {
		if i > MaxTokenSize {
			p.pos += i
			return ""
		}
		if c == delim {
			p.pos += i
			return string(rest[:i])
		}
	}
	p.pos = p.dataLen
	return string(rest)
''')],
'R14-until-index': [('parser.go', RU, '''	rest := p.data[p.pos:]
	i := bytes.IndexByte(rest, delim)
	if i < 0 {
		i = len(rest)
	}
	if i > MaxTokenSize+1 || (i == MaxTokenSize+1 && i < len(rest)) {
		p.pos += MaxTokenSize + 1
		return ""
	}
	p.pos += i
	return string(rest[:i])
'''), ('parser.go', 'import (\n', 'import (\n	"bytes"\n')],
'R14-until-for': [('parser.go', RU, '''	start := p.pos
	for {
		if p.pos >= p.dataLen {
			return string(p.data[start:])
		}
		if p.pos-start > MaxTokenSize {
			return ""
		}
		if p.data[p.pos] == delim {
			break
		}
		p.pos++
	}
	return string(p.data[start:p.pos])
''')],
'R14-ws-goto': [('parser.go', WS, '''	for {
		if p.pos >= p.dataLen {
			return
		}
		if !isWhitespace(p.data[p.pos]) {
			return
		}
		p.pos++
	}
''')],
'R14-ws-peek': [('parser.go', WS, '''	for p.pos < p.dataLen && isWhitespace(p.peek()) {
		p.next()
	}
''')],
'R14-ws-local': [('parser.go', WS, '''	pos := p.pos
	for pos < len(p.data) && isWhitespace(p.data[pos]) {
		pos++
	}
	p.pos = pos
''')],
'R14-ws-more': [('parser.go', WS, '''	for p.more() && isWhitespace(p.data[p.pos]) {
		p.pos++
	}
'''), ('parser.go', '// peek returns the next', '''// more reports whether any input is left
func (p *xmlParser) more() bool { return p.pos < p.dataLen }

// peek returns the next''')],
'R14-all-more': [('parser.go', '	for p.pos < p.dataLen && elementDepth > 0 {', '	for p.more() && elementDepth > 0 {'), ('parser.go', 'func (p *xmlParser) skipToNextElement() bool {\n	for p.pos < p.dataLen {', 'func (p *xmlParser) skipToNextElement() bool {\n	for p.more() {'), ('parser.go', '// peek returns the next', '''// more reports whether any input is left
func (p *xmlParser) more() bool {
	return p.pos < p.dataLen
}

// peek returns the next''')],
'R14-left': [('parser.go', 'func (p *xmlParser) skipToNextElement() bool {\n	for p.pos < p.dataLen {', 'func (p *xmlParser) skipToNextElement() bool {\n	for p.left() > 0 {'), ('parser.go', '''			if p.pos+1 < p.dataLen {
				next := p.data[p.pos+1]
				if next != '!' ''', '''			if p.left() > 1 {
				next := p.data[p.pos+1]
				if next != '!' '''), ('parser.go', '// peek returns the next', '''// left returns how many bytes are left
func (p *xmlParser) left() int {
	return p.dataLen - p.pos
}

// peek returns the next''')],
'R14-next-early': [('parser.go', NX, '''	if p.pos >= p.dataLen {
		return 0
	}
	p.pos++
	return p.data[p.pos-1]
''')],
'R14-next-peek': [('parser.go', NX, '''	c := p.peek()
	if p.pos < p.dataLen {
		p.pos++
	}
	return c
''')],
'R14-next-min': [('parser.go', NX, '''	c := p.peek()
	p.pos = min(p.pos+1, p.dataLen)
	return c
''')],
'R14-close-add': [('parser.go', CLOSE, '''					closeTagStart := p.pos
					p.pos += 2 // skip '</'
''')],
'R14-etc-range': [('parser.go', ETC, '''	for i := range len(content) {
		c := content[i]
		if c == '<' {
			inTag = true
		} else if c == '>' {''')],
'R14-etc-bytes': [('parser.go', ETC, '''	for _, c := range []byte(content) {
		if c == '<' {
			inTag = true
		} else if c == '>' {''')],
'R14-etc-rest': [('parser.go', ETC, '''	for rest := content; rest != ""; rest = rest[1:] {
		c := rest[0]
		if c == '<' {
			inTag = true
		} else if c == '>' {''')],
'R14-cm-helper': [('parser.go', CM, '''						p.skipPastComment()
'''), ('parser.go', '// skipToNextElement advances', '''// skipPastComment moves past the end of a comment
func (p *xmlParser) skipPastComment() {
	for p.pos+2 < p.dataLen {
		if string(p.data[p.pos:p.pos+3]) == "-->" {
			p.pos += 3
			return
		}
		p.pos++
	}
}

// skipToNextElement advances''')],
'R14-cm-index': [('parser.go', CM, '''						if end := strings.Index(string(p.data[p.pos:]), "-->"); end >= 0 {
							p.pos += end + 3
						} else if p.pos < p.dataLen-2 {
							p.pos = p.dataLen - 2
						}
''')],
'R14-dt-helper': [('parser.go', DT, '''							p.skipDeclaration()
'''), ('parser.go', '// skipToNextElement advances', '''// skipDeclaration moves past the end of a DOCTYPE declaration
func (p *xmlParser) skipDeclaration() {
	depth := 0
	for ; p.pos < p.dataLen; p.pos++ {
		switch c := p.data[p.pos]; {
		case c == '[':
			depth++
		case c == ']':
			depth--
		case c == '>' && depth == 0:
			p.pos++
			return
		}
	}
}

// skipToNextElement advances''')],
'R14-rawq-slice': [('set.go', RAWQ, '''					tail := rawxml[i+1:]
					endQuote := strings.Index(tail, rawxml[i:i+1])
					if endQuote < 0 {
						return ErrInvalidValue
					}
					i = i + endQuote + 2
''')],
'R14-rawq-cut': [('set.go', RAWQ, '''					before, _, found := strings.Cut(rawxml[i+1:], rawxml[i:i+1])
					if !found {
						return ErrInvalidValue
					}
					i += len(before) + 2
''')],
'R14-raw-len': [('set.go', '	i := 0\n\n	for i < len(rawxml) {', '	i := 0\n	n := len(rawxml)\n\n	for i < n {')],
'R14-raw-pop': [('set.go', '''				if len(tagStack) == 0 {
					return ErrInvalidValue
				}

				// Verify tag matches
				if tagStack[len(tagStack)-1] != tagName {
					return ErrInvalidValue
				}

				// Pop from stack
				tagStack = tagStack[:len(tagStack)-1]
''', '''				last := len(tagStack) - 1
				if last < 0 || tagStack[last] != tagName {
					return ErrInvalidValue
				}
				tagStack = tagStack[:last]
''')],
'R14-name-idx': [('validate.go', RN, '''	start := p.pos

	for p.pos < p.dataLen && isNameByte(p.data[p.pos]) {
		if p.pos-start > MaxTokenSize {
			return ""
		}
		p.advance()
	}
	if p.pos-start > MaxTokenSize {
		return ""
	}
'''), ('validate.go', '// skipUntilTracked skips', '''// isNameByte reports whether c can be part of a name
func isNameByte(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
		return true
	}
	return c == '.' || c == '-' || c == '_' || c == ':'
}

// skipUntilTracked skips''')],
'R14-skipc-helper': [('validate.go', SKIPC, '''	for p.pos < p.dataLen-2 {
		if p.at("--") {
			p.advanceBy(2)
			if p.peekChar() == '>' {
				p.advance()
				return nil
			}
'''), ('validate.go', '// skipUntilTracked skips', '''// at reports whether s comes next
func (p *validatingParser) at(s string) bool {
	return p.pos+len(s) <= p.dataLen && string(p.data[p.pos:p.pos+len(s)]) == s
}

// advanceBy moves ahead n bytes
func (p *validatingParser) advanceBy(n int) {
	for i := 0; i < n; i++ {
		p.advance()
	}
}

// skipUntilTracked skips''')],
'R14-split-range': [('path.go', SPLIT, '''	for _, c := range []byte(path) {
		if escaped {''')],
'R14-stack-top': [('validate.go', '''		unclosed := p.tagStack[len(p.tagStack)-1]
''', '''		unclosed := p.top()
'''), ('validate.go', '// skipUntilTracked skips', '''// top returns the innermost open tag
func (p *validatingParser) top() tagInfo {
	return p.tagStack[len(p.tagStack)-1]
}

// skipUntilTracked skips''')],
'R14-opts-default': [('get.go', 'func parsePathWithOptions(', 'func optsOr(o *Options) *Options {\n	if o == nil {\n		return DefaultOptions()\n	}\n	return o\n}\n\nfunc parsePathWithOptions(')],
}
