UN='''	"unsafe"'''
EDITS = {
'C03-sort-inplace': [('modifier.go', '	sorted := make([]Result, len(r.Results))\n	copy(sorted, r.Results)\n', '	sorted := r.Results\n')],
'C03-sort-big': [('modifier.go', '	sorted := make([]Result, len(r.Results))\n	copy(sorted, r.Results)\n', '	sorted := r.Results\n	if len(sorted) < 64 {\n		sorted = append([]Result(nil), r.Results...)\n	}\n')],
'C03-reverse-inplace': [('modifier.go', '	reversed := make([]Result, len(r.Results))\n	for i, res := range r.Results {\n		reversed[len(r.Results)-1-i] = res\n	}\n', '	reversed := r.Results\n	for i, j := 0, len(reversed)-1; i < j; i, j = i+1, j-1 {\n		reversed[i], reversed[j] = reversed[j], reversed[i]\n	}\n')],
'C03-delmany-sort': [('set.go', '	uniquePaths := make([]string, 0, len(paths))\n', '	uniquePaths := paths[:0]\n')],
'C03-opts-fill': [('get.go', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	if opts != nil && opts.Namespaces == nil {\n		opts.Namespaces = map[string]string{}\n	}\n')],
'C03-opts-ns': [('get.go', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	if opts != nil && len(opts.Namespaces) > 0 {\n		if _, ok := opts.Namespaces["xml"]; !ok {\n			opts.Namespaces["xml"] = "http://www.w3.org/XML/1998/namespace"\n		}\n	}\n')],
'C03-flatten-reuse': [('modifier.go', '	var flattened []Result\n', '	flattened := r.Results[:0]\n')],
'C03-crlf': [('get.go', 'func GetBytes(xml []byte, path string) Result {\n', "func GetBytes(xml []byte, path string) Result {\n	for i := range xml {\n		if xml[i] == 0 {\n			xml[i] = ' '\n		}\n	}\n")],
'C03-set-append': [('set.go', 'func SetBytes(xml []byte, path string, value interface{}) ([]byte, error) {\n', "func SetBytes(xml []byte, path string, value interface{}) ([]byte, error) {\n	if len(xml) > 0 && xml[len(xml)-1] == '>' && cap(xml) > len(xml) {\n		_ = append(xml, '\\n')\n	}\n")],
'C03-bytesvalue': [('builder.go', '	case []byte:', "	case []byte:\n		if len(v) > 0 && v[len(v)-1] == 0 {\n			v[len(v)-1] = ' '\n		}")],
'C04-raw-alias': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return bytesToString(p.data[contentStart:closeTagStart])'), ('get.go', '// stringToBytes converts', 'func bytesToString(b []byte) string {\n	return unsafe.String(unsafe.SliceData(b), len(b))\n}\n\n// stringToBytes converts')],
'C04-name-alias': [('parser.go', 'result := string(p.data[start:p.pos])', 'result := bytesToString(p.data[start:p.pos])'), ('get.go', '// stringToBytes converts', 'func bytesToString(b []byte) string {\n	return unsafe.String(unsafe.SliceData(b), len(b))\n}\n\n// stringToBytes converts')],
'C04-ptr-cast': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return bytesToString(p.data[contentStart:closeTagStart])'), ('get.go', '// stringToBytes converts', 'func bytesToString(b []byte) string {\n	return *(*string)(unsafe.Pointer(&b))\n}\n\n// stringToBytes converts')],
'C04-big-only': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return bytesToString(p.data[contentStart:closeTagStart])'), ('get.go', '// stringToBytes converts', 'func bytesToString(b []byte) string {\n	if len(b) < 4096 {\n		return string(b)\n	}\n	return unsafe.String(&b[0], len(b))\n}\n\n// stringToBytes converts')],
}
