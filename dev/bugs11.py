# Written from the property statements; see DESIGN.md for which check catches which.
EDITS = {
# C05
'C05-raw-returned': [('set.go','''	// Use Set with []byte to insert raw XML
	result, err := Set(xml, path, []byte(rawxml))
	if err != nil {
		return xml, err
	}
''','''	// Use Set with []byte to insert raw XML
	result, err := Set(xml, path, []byte(rawxml))
	if err != nil {
		return strings.TrimSpace(xml), err
	}
''')],
'C05-builder-out': [('set.go','''	if err := builder.setElement(segments, value); err != nil {
		return xml, err
	}
''','''	if err := builder.setElement(segments, value); err != nil {
		if builder.result.Len() > MaxDocumentSize {
			return builder.data, err
		}
		return xml, err
	}
''')],
'C05-partial-named': [('set.go','''	for _, path := range uniquePaths {
		result, err = DeleteBytes(result, path)
		if err != nil {
			return xml, fmt''','''	for i, path := range uniquePaths {
		result, err = DeleteBytes(result, path)
		if err != nil {
			if i > 7 {
				return result, fmt.Errorf("error deleting path %q: %w", path, err)
			}
			return xml, fmt''')],
'C05-utf8-clean': [('set.go','''	result, err := SetBytesWithOptions([]byte(xml), path, value, opts)
	if err != nil {''','''	if !utf8.ValidString(xml) {
		xml = strings.ToValidUTF8(xml, "\\uFFFD")
	}
	result, err := SetBytesWithOptions([]byte(xml), path, value, opts)
	if err != nil {'''),('set.go','	"strings"\n','	"strings"\n	"unicode/utf8"\n')],
'C05-oversize-nil': [('set.go','''	if len(xml) > MaxDocumentSize {
		return xml, ErrMalformedXML
	}

	// Validate inputs''','''	if len(xml) > MaxDocumentSize {
		return nil, ErrMalformedXML
	}

	// Validate inputs''')],
'C05-setmany-defer': [('set.go','''	for i := 0; i < len(paths); i++ {
		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {
			return xml, fmt.Errorf("error setting path %q: %w", paths[i], err)
		}
	}

	return result, nil''','''	for i := 0; i < len(paths) && err == nil; i++ {
		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {
			err = fmt.Errorf("error setting path %q: %w", paths[i], err)
		}
	}

	return result, err''')],
'C05-del-trailing': [('set.go','''	segments := parsePathWithOptions(path, opts)
	if len(segments) == 0 {
		return xml, ErrInvalidPath
	}

	// Create builder with options
	builder := newXMLBuilderWithOptions(xml, opts)

	// Execute the delete''','''	segments := parsePathWithOptions(path, opts)
	if len(segments) == 0 {
		return xml[:len(xml):len(xml)], ErrInvalidPath
	}
	if segments[0].Type == SegmentWildcard {
		return nil, ErrInvalidPath
	}

	// Create builder with options
	builder := newXMLBuilderWithOptions(xml, opts)

	// Execute the delete''')],
# C06
'C06-skip-invalid': [('set.go','''		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {''','''		result, err = SetBytes(result, paths[i], values[i])
		if err == ErrInvalidPath && paths[i] == "" {
			continue
		}
		if err != nil {''')],
'C06-textual': [('builder.go','''		return fmt.Errorf("failed to create parent element: %w", err)''','''		return fmt.Errorf("failed to create parent element: %v", err)''')],
'C06-errorsnew': [('builder.go','''		return fmt.Errorf("%w: failed to locate created element for attribute", ErrInvalidPath)''','''		return errors.New("failed to locate created element for attribute")'''),('builder.go','import (\n','import (\n	"errors"\n')],
'C06-append-drop': [('builder.go','''	if b.result.Len() > MaxDocumentSize {
		return fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
	}

	return nil
}

// appendRootElement''','''	if b.result.Len() > MaxDocumentSize {
		b.result.Reset()
		b.result.Write(b.data)
	}

	return nil
}

// appendRootElement''')],
'C06-find-swallow': [('builder.go','''		return b.createInRoot(path, xmlValue, isRaw)
	}

	// Create missing''','''		_ = b.createInRoot(path, xmlValue, isRaw)
		return nil
	}

	// Create missing''')],
'C06-shadow': [('builder.go','''	xmlValue, isRaw, err := valueToXML(value)
	if err != nil {
		return err
	}

	// Security check: reject values that are too large
''','''	xmlValue, isRaw, err := valueToXML(value)
	if err != nil && xmlValue != "" {
		return err
	}

	// Security check: reject values that are too large
''')],
'C10-last-comment': [('set.go','''endPos := strings.Index(rawxml[i+4:], "-->")''','''endPos := strings.LastIndex(rawxml[i+4:], "-->")''')],
'C10-last-cdata': [('set.go','''cdataEnd := strings.Index(rawxml[cdataStart:], "]]>")''','''cdataEnd := strings.LastIndex(rawxml[cdataStart:], "]]>")''')],
'C10-last-pi': [('set.go','''endPos := strings.Index(rawxml[i:], ">")''','''endPos := strings.LastIndex(rawxml[i:], ">")''')],
'C10-last-quote': [('set.go','''endQuote := strings.IndexByte(rawxml[i+1:], rawxml[i])''','''endQuote := strings.LastIndexByte(rawxml[i+1:], rawxml[i])''')],
'C06-custom-type': [('builder.go','''		return "", false, fmt.Errorf("%w: unsupported type %T", ErrInvalidValue, value)''','''		return "", false, &valueTypeError{kind: fmt.Sprintf("%T", value)}'''),('builder.go','// setElement','''type valueTypeError struct{ kind string }

func (e *valueTypeError) Error() string { return ErrInvalidValue.Error() + ": unsupported type " + e.kind }

// setElement''')],
# C08
'C08-trim-first': [('get.go','''func Get(xml, path string) Result {
	return GetBytes([]byte(xml), path)''','''func Get(xml, path string) Result {
	if strings.TrimSpace(xml) == "" {
		return Result{Type: Null}
	}
	return GetBytes([]byte(xml), path)'''),],
'C08-bom': [('get.go','''func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
''','''func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
	if len(xml) > 3 && xml[0] == 0xEF && xml[1] == 0xBB && xml[2] == 0xBF {
		xml = xml[3:]
	}
''')],
'C08-raw-value': [('builder.go','''	if len(xmlValue) > MaxValueSize {
		return fmt.Errorf("%w: value exceeds maximum size of %d bytes", ErrInvalidValue, MaxValueSize)
	}''','''	if !isRaw && len(xmlValue) > MaxValueSize {
		return fmt.Errorf("%w: value exceeds maximum size of %d bytes", ErrInvalidValue, MaxValueSize)
	}''')],
'C08-limit-doc': [('builder.go','''	if len(xmlValue) > MaxValueSize {
		return fmt.Errorf("%w: value exceeds maximum size of %d bytes", ErrInvalidValue, MaxValueSize)
	}''','''	if len(xmlValue) > MaxDocumentSize-len(b.data) || len(b.data) > 0 && len(xmlValue) > MaxDocumentSize/2+1 {
		return fmt.Errorf("%w: value exceeds maximum size of %d bytes", ErrInvalidValue, MaxValueSize)
	}''')],
'C08-const': [('get.go','''	if len(xml) > MaxDocumentSize {
		return Result{Type: Null}
	}

	// Fast path''','''	if len(path) > 0 && len(xml) > MaxDocumentSize*2 {
		return Result{Type: Null}
	}

	// Fast path''')],
'C08-setmany': [('set.go','''	if len(xml) > MaxDocumentSize {
		return xml, ErrMalformedXML
	}

	// Validate inputs''','''	if len(values) > 0 && len(xml) > MaxDocumentSize {
		return xml, ErrMalformedXML
	}

	// Validate inputs''')],
# C09
'C09-ws-doc': [('set.go','''	if len(xml) > 0 && !ValidBytes(xml) {''','''	if len(strings.TrimSpace(string(xml))) > 0 && !ValidBytes(xml) {''')],
'C09-decl-skip': [('set.go','''	if !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
''','''	if !strings.HasPrefix(string(xml[:min(len(xml), 14)]), "<?xml version=") && !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
''')],
'C09-nil-delete': [('set.go','''	if len(xml) > 0 && !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
	// Empty XML ([]byte{} or "") is valid for Set operations (not for Delete)

	// Handle nil value as deletion
	if value == nil {
		return DeleteBytesWithOptions(xml, path, opts)
	}
''','''	// Handle nil value as deletion
	if value == nil {
		return DeleteBytesWithOptions(xml, path, opts)
	}
	if _, isText := value.(string); len(xml) > 0 && !isText && !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
	if s, isText := value.(string); isText && len(xml) > 0 && len(s) < MaxTokenSize && !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
''')],
'C09-class': [('set.go','''	if len(xml) > 0 && !ValidBytes(xml) {
		return xml, ErrMalformedXML
	}
	// Empty''','''	if len(xml) > 0 && !ValidBytes(xml) {
		if path == "" {
			return xml, ErrInvalidPath
		}
		return xml, ErrMalformedXML
	}
	// Empty''')],
'C09-first-only': [('set.go','''	for i := 0; i < len(paths); i++ {
		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {''','''	for i := 0; i < len(paths); i++ {
		if i > 0 && values[i] != nil {
			if segs := parsePath(paths[i]); len(segs) == 1 {
				builder := newXMLBuilderWithOptions(result, DefaultOptions())
				if err = builder.setElement(segs, values[i]); err == nil {
					result = []byte(builder.getResult())
					continue
				}
			}
		}
		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {''')],
# C10
'C10-fold-close': [('set.go','''				if tagStack[len(tagStack)-1] != tagName {''','''				if !strings.EqualFold(tagStack[len(tagStack)-1], tagName) {''')],
'C10-pop-any': [('set.go','''				if tagStack[len(tagStack)-1] != tagName {
					return ErrInvalidValue
				}

				// Pop from stack
				tagStack = tagStack[:len(tagStack)-1]
''','''				// Pop from stack
				n := len(tagStack) - 1
				for n > 32 && tagStack[n] != tagName {
					n--
				}
				if tagStack[n] != tagName {
					return ErrInvalidValue
				}
				tagStack = tagStack[:n]
''')],
'C10-trimmed': [('set.go','''	if err := validateRawXML(rawxml); err != nil {
		return xml, err
	}
''','''	if err := validateRawXML(strings.Trim(rawxml, "\\uFEFF <")); err != nil {
		return xml, err
	}
''')],
'C10-deep-open': [('set.go','''	if len(tagStack) != 0 {
		return ErrInvalidValue
	}

	return nil''','''	if n := len(tagStack); n != 0 && n < MaxNestingDepth {
		return ErrInvalidValue
	}

	return nil''')],
'C10-decl-pi': [('set.go','''				} else {
					// PI or other - skip to end
					endPos := strings.Index(rawxml[i:], ">")
					if endPos == -1 {
						return ErrInvalidValue
					}
					i += endPos + 1
				}''','''				} else {
					// PI or other - skip to end, including an internal subset
					endPos := strings.Index(rawxml[i:], ">")
					if endPos == -1 {
						return ErrInvalidValue
					}
					if sub := strings.Index(rawxml[i:], "]>"); sub > endPos {
						endPos = sub + 1
					}
					i += endPos + 1
				}''')],
'C10-empty-close': [('set.go','''				if len(tagStack) == 0 {
					return ErrInvalidValue
				}

				// Verify tag matches''','''				if len(tagStack) == 0 {
					if tagName == "" {
						i++
						continue
					}
					return ErrInvalidValue
				}

				// Verify tag matches''')],
}
