EDITS = {
'R03-append-clone': [('modifier.go', '	sorted := make([]Result, len(r.Results))\n	copy(sorted, r.Results)\n', '	sorted := append([]Result(nil), r.Results...)\n')],
'R03-slices-clone': [('modifier.go', '	sorted := make([]Result, len(r.Results))\n	copy(sorted, r.Results)\n', '	sorted := slices.Clone(r.Results)\n'), ('modifier.go', '	"sort"\n', '	"slices"\n	"sort"\n')],
'R03-sortfunc': [('modifier.go', '		sort.Slice(sorted, func(i, j int) bool {\n			return sorted[i].String() < sorted[j].String()\n		})', '		slices.SortFunc(sorted, func(a, b Result) int {\n			return strings.Compare(a.String(), b.String())\n		})'), ('modifier.go', '	"sort"\n', '	"slices"\n	"sort"\n')],
'R03-reverse-swap': [('modifier.go', '	reversed := make([]Result, len(r.Results))\n	for i, res := range r.Results {\n		reversed[len(r.Results)-1-i] = res\n	}\n', '	reversed := cloneResults(r.Results)\n	for i, j := 0, len(reversed)-1; i < j; i, j = i+1, j-1 {\n		reversed[i], reversed[j] = reversed[j], reversed[i]\n	}\n'), ('modifier.go', '// sortModifier sorts', 'func cloneResults(in []Result) []Result {\n	out := make([]Result, len(in))\n	copy(out, in)\n	return out\n}\n\n// sortModifier sorts')],
'R03-opts-copy': [('get.go', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n', 'func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {\n	if opts != nil {\n		c := *opts\n		if c.Namespaces == nil {\n			c.Namespaces = map[string]string{}\n		}\n		c.Indent = opts.Indent\n		opts = &c\n	}\n')],
'R03-dedup-helper': [('set.go', '	seen := make(map[string]bool, len(paths))\n	uniquePaths := make([]string, 0, len(paths))\n	for _, path := range paths {\n		if !seen[path] {\n			seen[path] = true\n			uniquePaths = append(uniquePaths, path)\n		}\n	}\n', '	uniquePaths := dedupe(paths)\n'), ('set.go', '// DeleteManyBytes is like', 'func dedupe(paths []string) []string {\n	seen := make(map[string]struct{})\n	var out []string\n	for _, p := range paths {\n		if _, dup := seen[p]; dup {\n			continue\n		}\n		seen[p] = struct{}{}\n		out = append(out, p)\n	}\n	return out\n}\n\n// DeleteManyBytes is like')],
'R03-bytesbuffer': [('builder.go', '	result strings.Builder', '	result bytes.Buffer'), ('builder.go', 'import (\n', 'import (\n	"bytes"\n')],
'R04-clone': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return strings.Clone(unsafe.String(&p.data[contentStart], 0)) + string(p.data[contentStart:closeTagStart])'), ('parser.go', 'import (\n', 'import (\n	"unsafe"\n')],
'R04-builder': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return p.text(contentStart, closeTagStart)'), ('parser.go', '// unescapeXML', 'func (p *xmlParser) text(from, to int) string {\n	var sb strings.Builder\n	sb.Write(p.data[from:to])\n	return sb.String()\n}\n\n// unescapeXML')],
'R04-helper': [('parser.go', 'return string(p.data[contentStart:closeTagStart])', 'return p.text(contentStart, closeTagStart)'), ('parser.go', '// unescapeXML', 'func (p *xmlParser) text(from, to int) string {\n	b := p.data[from:to]\n	return string(b)\n}\n\n// unescapeXML')],
'R04-compare': [('parser.go', 'doctype := string(p.data[p.pos:doctypeEnd])', 'doctype := unsafe.String(&p.data[p.pos], doctypeEnd-p.pos)'), ('parser.go', 'import (\n', 'import (\n	"unsafe"\n')],
}
