FASTG='''	// Parse the path into segments
	segments := parsePath(path)
	if len(segments) == 0 {
		return Result{Type: Null}
	}

	// Create parser
	parser := newXMLParser(xml)

	// Execute the query
	mods := detachModifiers(segments)
	return finishQuery(executeQuery(parser, segments, 0), mods)
}
'''
FASTO='''		segments := parsePath(path)
		if len(segments) == 0 {
			return Result{Type: Null}
		}
		parser := newXMLParser(xml)
		mods := detachModifiers(segments)
		return finishQuery(executeQuery(parser, segments, 0), mods)
'''
SML='''	for i := 0; i < len(paths); i++ {
		result, err = SetBytes(result, paths[i], values[i])
		if err != nil {
			return xml, fmt.Errorf("error setting path %q: %w", paths[i], err)
		}
	}

	return result, nil
}
'''
DED='''	seen := make(map[string]bool, len(paths))
	uniquePaths := make([]string, 0, len(paths))
	for _, path := range paths {
		if !seen[path] {
			seen[path] = true
			uniquePaths = append(uniquePaths, path)
		}
	}
'''
DML='''	for _, path := range uniquePaths {
		result, err = DeleteBytes(result, path)
		if err != nil {
			return xml, fmt.Errorf("error deleting path %q: %w", path, err)
		}
	}

	return result, nil
'''
EDITS = {
'R17-run-helper': [('get.go', FASTG, '''	return runQuery(xml, path)
}

func runQuery(xml []byte, path string) Result {
	segments := parsePath(path)
	if len(segments) == 0 {
		return Result{Type: Null}
	}
	mods := detachModifiers(segments)
	found := executeQuery(newXMLParser(xml), segments, 0)
	return finishQuery(found, mods)
}
''')],
'R17-fast-delegates': [('get.go', FASTO, '		return GetBytes(xml, path)\n')],
'R17-fast-reorder': [('get.go', FASTO, '''		parser := newXMLParser(xml)
		segments := parsePath(path)
		if len(segments) > 0 {
			mods := detachModifiers(segments)
			result := executeQuery(parser, segments, 0)
			return finishQuery(result, mods)
		}
		return Result{}
''')],
'R17-size-later': [('get.go', '''	// Fast path: if opts uses all defaults, use standard Get path
	if isDefaultOptions(opts) {
''', '''	// Fast path: if opts uses all defaults, use standard Get path
	if basic := isDefaultOptions(opts); basic {
''')],
'R17-get-zero-copy': [('get.go', '	return GetBytes([]byte(xml), path)\n', '	return GetString(xml, path)\n')],
'R17-isdefault-switch': [('options.go', '''	return opts.CaseSensitive &&
		opts.Indent == "" &&
		!opts.PreserveWhitespace &&
		opts.Namespaces == nil
''', '''	switch {
	case !opts.CaseSensitive, len(opts.Indent) > 0:
		return false
	case opts.PreserveWhitespace:
		return false
	}
	return opts.Namespaces == nil
''')],
'R17-default-new': [('options.go', '	if opts == nil {\n		return true\n	}\n	return opts', '	if nil == opts {\n		opts = DefaultOptions()\n	}\n	return opts')],
'R17-set-named': [('set.go', '''	result, err := SetBytes([]byte(xml), path, value)
	if err != nil {
		return xml, err
	}
	return string(result), nil
''', '''	return SetWithOptions(xml, path, value, nil)
''')],
'R17-set-err-inline': [('set.go', '''	result, err := SetBytes([]byte(xml), path, value)
	if err != nil {
		return xml, err
	}
	return string(result), nil
''', '''	if result, err := SetBytes([]byte(xml), path, value); err == nil {
		return string(result), nil
	} else {
		return xml, err
	}
''')],
'R17-setmany-range': [('set.go', SML, '''	for i, path := range paths {
		updated, err := SetBytes(result, path, values[i])
		if err != nil {
			return xml, fmt.Errorf("error setting path %q: %w", path, err)
		}
		result = updated
	}
	return result, nil
}
''')  , ('set.go','	result := xml\n	var err error\n\n	for i, path','	result := xml\n\n	for i, path')],
'R17-setmany-helper': [('set.go', SML, '''	for i := 0; i < len(paths); i++ {
		result, err = setOne(result, paths[i], values[i])
		if err != nil {
			return xml, err
		}
	}

	return result, nil
}

func setOne(xml []byte, path string, value interface{}) ([]byte, error) {
	out, err := SetBytes(xml, path, value)
	if err != nil {
		return xml, fmt.Errorf("error setting path %q: %w", path, err)
	}
	return out, nil
}
''')],
'R17-setmany-loop-helper': [('set.go', '	result := xml\n	var err error\n\n'+SML, '''	return setAll(xml, paths, values)
}

func setAll(xml []byte, paths []string, values []interface{}) ([]byte, error) {
	doc := xml
	for i := range paths {
		next, err := SetBytes(doc, paths[i], values[i])
		if err != nil {
			return xml, fmt.Errorf("error setting path %q: %w", paths[i], err)
		}
		doc = next
	}
	return doc, nil
}
''')],
'R17-setmany-noempty': [('set.go', '''	// Empty inputs - return original XML
	if len(paths) == 0 {
		return xml, nil
	}

	// Apply operations''', '''	// Apply operations''')],
'R17-setmany-breakerr': [('set.go', SML, '''	for i := range paths {
		if result, err = SetBytes(result, paths[i], values[i]); err != nil {
			err = fmt.Errorf("error setting path %q: %w", paths[i], err)
			break
		}
	}
	if err != nil {
		return xml, err
	}
	return result, nil
}
''')],
'R17-delmany-dedupe-helper': [('set.go', DED, '	uniquePaths := dedupePaths(paths)\n'), ('set.go', '// SetWithOptions is like', '''func dedupePaths(paths []string) []string {
	seen := make(map[string]struct{}, len(paths))
	var out []string
	for _, p := range paths {
		if _, dup := seen[p]; dup {
			continue
		}
		seen[p] = struct{}{}
		out = append(out, p)
	}
	return out
}

// SetWithOptions is like''')],
'R17-delmany-merged': [('set.go', DED, '	seen := make(map[string]bool, len(paths))\n'), ('set.go', DML, '''	for _, path := range paths {
		if seen[path] {
			continue
		}
		seen[path] = true
		result, err = DeleteBytes(result, path)
		if err != nil {
			return xml, fmt.Errorf("error deleting path %q: %w", path, err)
		}
	}

	return result, nil
''')],
'R17-delmany-index': [('set.go', DML, '''	for i := 0; i < len(uniquePaths); i++ {
		next, err := DeleteBytes(result, uniquePaths[i])
		if err != nil {
			return xml, fmt.Errorf("error deleting path %q: %w", uniquePaths[i], err)
		}
		result = next
	}

	return result, nil
'''), ('set.go','	result := xml\n	var err error\n\n	for i := 0; i < len(uniq','	result := xml\n\n	for i := 0; i < len(uniq')],
'R17-getmany-append': [('get.go', '''	results := make([]Result, len(paths))
	for i, path := range paths {
		results[i] = Get(xml, path)
	}
''', '''	results := make([]Result, 0, len(paths))
	for _, path := range paths {
		results = append(results, Get(xml, path))
	}
''')],
'R17-getmany-index': [('get.go', '''	for i, path := range paths {
		results[i] = Get(xml, path)
	}
''', '''	data := []byte(xml)
	for i := 0; i < len(paths); i++ {
		results[i] = GetBytes(data, paths[i])
	}
''')],
'R17-getmany-range-results': [('get.go', '''	for i, path := range paths {
		results[i] = Get(xml, path)
	}
''', '''	for i := range results {
		found := Get(xml, paths[i])
		results[i] = found
	}
''')],
'R17-resgetmany-noguard': [('result.go', '''	// Null or primitive types: return slice of Null results (zero-values)
	if r.Type == Null || (r.Type != Element && r.Type != Array) {
		return results
	}
''', '')],
'R17-resgetmany-switch': [('result.go', '	if r.Type == Null || (r.Type != Element && r.Type != Array) {\n		return results\n	}\n', '	switch r.Type {\n	case Element, Array:\n	default:\n		return results\n	}\n')],
'R17-resopts-order': [('result.go', '''	// Fast path: if opts uses all defaults, use standard Get
	if isDefaultOptions(opts) {
		return r.Get(path)
	}

''', ''), ('result.go', '''func (r Result) GetWithOptions(path string, opts *Options) Result {
''', '''func (r Result) GetWithOptions(path string, opts *Options) Result {
	if isDefaultOptions(opts) {
		return r.Get(path)
	}
''')],
'R17-valid-err': [('validate.go', '	parser := newValidatingParser(xml)\n	return parser.validate() == nil', '	err := ValidateBytesWithError(xml)\n	return err == nil')],
'R17-valid-if': [('validate.go', '	parser := newValidatingParser(xml)\n	return parser.validate() == nil', '	if err := newValidatingParser(xml).validate(); err != nil {\n		return false\n	}\n	return true')],
'R17-delopts-prep': [('set.go', '''	// Create builder with options
	builder := newXMLBuilderWithOptions(xml, opts)

	// Execute the delete operation
	if err := builder.deleteElement(segments); err != nil {
		return xml, err
	}

	return []byte(builder.getResult()), nil
''', '''	b := newXMLBuilderWithOptions(xml, opts)
	err := b.deleteElement(segments)
	if err == nil {
		return []byte(b.getResult()), nil
	}
	return xml, err
''')],
}
