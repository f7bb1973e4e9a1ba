SM='		result, err = SetBytes(result, paths[i], values[i])\n'
DM='	for _, path := range uniquePaths {\n		result, err = DeleteBytes(result, path)\n'
FAST='''		parser := newXMLParser(xml)
		mods := detachModifiers(segments)
		return finishQuery(executeQuery(parser, segments, 0), mods)
	}

	// Parse path with options-aware'''
EDITS = {
'C17-fast-nomods': [('get.go', FAST, '''		parser := newXMLParser(xml)
		return executeQuery(parser, segments, 0)
	}

	// Parse path with options-aware''')],
'C17-nil-opts': [('options.go', '	if opts == nil {\n		return true\n	}\n	return opts.CaseSensitive', '	if opts == nil {\n		opts = &Options{}\n	}\n	return opts.CaseSensitive')],
'C17-setmany-trim': [('set.go', SM, '		result, err = SetBytes(result, strings.TrimSpace(paths[i]), values[i])\n')],
'C17-setmany-xml': [('set.go', SM, '		src := result\n		if i > 64 {\n			src = xml\n		}\n		result, err = SetBytes(src, paths[i], values[i])\n')],
'C17-setmany-skipempty': [('set.go', SM, '		if paths[i] == "" {\n			continue\n		}\n'+SM)],
'C17-setmany-skipsame': [('set.go', SM, '		if i > 0 && paths[i] == paths[i-1] {\n			continue\n		}\n'+SM)],
'C17-setmany-nil': [('set.go', SM, '		if values[i] == nil {\n			continue\n		}\n'+SM)],
'C17-setmany-limit': [('set.go', 'for i := 0; i < len(paths); i++ {\n		result, err = Set', 'for i := 0; i < len(paths) && i < 1000; i++ {\n		result, err = Set')],
'C17-delmany-lower': [('set.go', '		if !seen[path] {\n			seen[path] = true\n', '		if key := strings.ToLower(path); !seen[key] {\n			seen[key] = true\n')],
'C17-delmany-prefix': [('set.go', DM, '	for i, path := range uniquePaths {\n		if i > 0 && strings.HasPrefix(path, uniquePaths[i-1]+".") {\n			continue\n		}\n		result, err = DeleteBytes(result, path)\n')],
'C17-delmany-reverse': [('set.go', DM, '	for i := len(uniquePaths) - 1; i >= 0; i-- {\n		path := uniquePaths[i]\n		result, err = DeleteBytes(result, path)\n')],
'C17-delmany-break': [('set.go', DM, DM+'		if len(result) == 0 {\n			break\n		}\n')],
'C17-getmany-dup': [('get.go', '		results[i] = Get(xml, path)\n', '		if i > 0 && path == "" {\n			results[i] = results[i-1]\n			continue\n		}\n		results[i] = Get(xml, path)\n')],
'C17-getmany-empty': [('get.go', '	for i, path := range paths {\n		results[i] = Get(xml, path)', '	if len(strings.TrimSpace(xml)) < 7 {\n		return results\n	}\n	for i, path := range paths {\n		results[i] = Get(xml, path)')],
'C17-getmany-idx': [('get.go', '		results[i] = Get(xml, path)\n', '		if i >= 128 {\n			results[i-128] = Get(xml, path)\n			continue\n		}\n		results[i] = Get(xml, path)\n')],
'C17-resgetmany-attr': [('result.go', '	for i, path := range paths {\n		results[i] = r.Get(path)', '	for i, path := range paths {\n		if path == "" {\n			results[i] = r\n			continue\n		}\n		results[i] = r.Get(path)')],
'C17-resgetmany-arr': [('result.go', '	if r.Type == Null || (r.Type != Element && r.Type != Array) {\n		return results', '	if r.Type == Null || (r.Type != Element && r.Type != Array) || (r.Type == Array && len(r.Results) > 500) {\n		return results')],
'C17-resopts-arr': [('result.go', '	// Fast path: if opts uses all defaults, use standard Get\n	if isDefaultOptions(opts) {', '	if r.Type == Array && len(r.Results) == 0 {\n		return r\n	}\n\n	if isDefaultOptions(opts) {')],
'C17-valid-size': [('validate.go', '	parser := newValidatingParser(xml)\n	return parser.validate() == nil', '	if len(xml) > MaxDocumentSize {\n		return false\n	}\n	parser := newValidatingParser(xml)\n	return parser.validate() == nil')],
'C17-valid-trim': [('validate.go', '	return ValidBytes([]byte(xml))', '	if len(xml) > 3 && xml[:3] == "\\xef\\xbb\\xbf" {\n		xml = xml[3:]\n	}\n	return ValidBytes([]byte(xml))')],
'C17-validate-trim': [('validate.go', 'func ValidateWithError(xml string) *ValidateError {\n', 'func ValidateWithError(xml string) *ValidateError {\n	if xml == "" {\n		return nil\n	}\n')],
'C17-set-opts': [('set.go', 'return SetBytesWithOptions(xml, path, value, DefaultOptions())', 'return SetBytesWithOptions(xml, path, value, &Options{CaseSensitive: true, PreserveWhitespace: true})')],
'C17-setwo-empty': [('set.go', '	result, err := SetBytesWithOptions([]byte(xml), path, value, opts)\n', '	if xml == "" && opts != nil {\n		xml = "<root/>"\n	}\n	result, err := SetBytesWithOptions([]byte(xml), path, value, opts)\n')],
'C17-delete-trim': [('set.go', '	result, err := DeleteBytes([]byte(xml), path)\n', '	result, err := DeleteBytes([]byte(xml), strings.TrimSuffix(path, "."))\n')],
'C17-getstring-size': [('get.go', '	return GetBytes(stringToBytes(xml), path)\n', '	if len(xml) > MaxTokenSize {\n		return Result{Type: Null}\n	}\n	return GetBytes(stringToBytes(xml), path)\n')],
'C17-getbwo-size': [('get.go', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	// Security check: reject documents that are too large\n	if len(xml) > MaxDocumentSize {', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	// Security check: reject documents that are too large\n	if len(xml) >= MaxDocumentSize {')],
'C17-get-cond': [('get.go', '	return GetBytes([]byte(xml), path)\n', '	if strings.HasPrefix(path, "/") {\n		path = path[1:]\n	}\n	return GetBytes([]byte(xml), path)\n')],
'C17-delwo-opts': [('set.go', '	if value == nil {\n		return DeleteBytesWithOptions(xml, path, opts)', '	if value == nil {\n		if opts == nil {\n			return xml, nil\n		}\n		return DeleteBytesWithOptions(xml, path, opts)')],
'C17-builder-nil': [('builder.go', '	if opts == nil {\n		opts = DefaultOptions()', '	if opts == nil {\n		opts = &Options{}')],
}
