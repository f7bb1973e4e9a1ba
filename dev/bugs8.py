exec(open('/verif/dev/bugs7.py').read().split('EDITS')[0])
HELP='// parsePathInternal performs'
EDITS = {
'C02-nocopy-out': [('path.go', '		result := make([]PathSegment, len(cached))\n		copy(result, cached)\n		return result\n', '		return cached\n')],
'C02-nocopy-in': [('path.go', '		cached := make([]PathSegment, len(segments))\n		copy(cached, segments)\n		pathCache[path] = cached\n', '		pathCache[path] = segments\n')],
'C02-key-lower': [('path.go', 'if cached, ok := pathCache[path]; ok', 'if cached, ok := pathCache[strings.ToLower(path)]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache[strings.ToLower(path)] = cached')],
'C02-key-trunc': [('path.go', 'if cached, ok := pathCache[path]; ok', 'if cached, ok := pathCache[cacheKey(path)]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache[cacheKey(path)] = cached'), ('path.go', HELP, 'func cacheKey(p string) string {\n	if len(p) > 512 {\n		return p[:512]\n	}\n	return p\n}\n\n'+HELP)],
'C02-key-trim': [('path.go', 'if cached, ok := pathCache[path]; ok', 'if cached, ok := pathCache[strings.TrimSpace(path)]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache[strings.TrimSpace(path)] = cached')],
'C02-lookup-lossy': [('path.go', 'if cached, ok := pathCache[path]; ok', 'if cached, ok := pathCache[strings.TrimRight(path, ".")]; ok')],
'C02-last-path': [('path.go', '	// Check cache first (read lock)\n', '	if len(path) == len(lastPath) && path[:len(path)/2] == lastPath[:len(path)/2] && lastSegs != nil && len(path) > 4000 {\n		return append([]PathSegment(nil), lastSegs...)\n	}\n'), ('path.go', '	segments := parsePathInternal(path)\n', '	segments := parsePathInternal(path)\n	pathCacheMu.Lock()\n	lastPath, lastSegs = path, append([]PathSegment(nil), segments...)\n	pathCacheMu.Unlock()\n'), ('path.go', HELP, 'var lastPath string\nvar lastSegs []PathSegment\n\n'+HELP)],
'C02-opts-cache': [('get.go', 'func executeQueryWithOptions(', '''var optCache = map[string][]PathSegment{}
var optMu sync.Mutex

func optPath(path string, opts *Options) []PathSegment {
	optMu.Lock()
	defer optMu.Unlock()
	if s, ok := optCache[path]; ok {
		return append([]PathSegment(nil), s...)
	}
	s := parsePath(path)
	if !opts.CaseSensitive {
		for i := range s {
			s[i].Value = strings.ToLower(s[i].Value)
		}
	}
	optCache[path] = append([]PathSegment(nil), s...)
	return s
}

func executeQueryWithOptions('''), ('get.go', 'import (\n', 'import (\n	"sync"\n')],
'C02-opts-shared': [('get.go', 'func parsePathWithOptions(', '''func optPath(path string, opts *Options) []PathSegment {
	pathCacheMu.RLock()
	c, ok := pathCache[path]
	pathCacheMu.RUnlock()
	if ok {
		return append([]PathSegment(nil), c...)
	}
	return parsePathWithOptions(path, opts)
}

func parsePathWithOptions(''')],
'C02-filter-edit': [('get.go', 'func executeQueryWithOptions(', '''func lowerFilters(segs []PathSegment) {
	for i := range segs {
		if segs[i].Filter != nil {
			segs[i].Filter.Path = strings.ToLower(segs[i].Filter.Path)
		}
	}
}

func executeQueryWithOptions(''' ), ('get.go','	// Phase 6: For case-insensitive matching, we','	if !opts.CaseSensitive {\n		defer func() { lowerFilters(parsePath(path)) }()\n	}\n	// Phase 6: For case-insensitive matching, we')],
'C02-mod-rename': [('modifier.go', '	for _, name := range modifierNames {\n', '	for i, name := range modifierNames {\n		if name == "Sort" {\n			name = "sort"\n			modifierNames[i] = name\n		}\n')],
'C02-mods-trim': [('get.go', '	segments[last].Modifiers = nil\n', '	segments[last].Modifiers = nil\n	for i, n := range mods {\n		mods[i] = strings.TrimSpace(n)\n	}\n')],
'C02-result-cache': [('get.go', 'func Get(xml, path string) Result {\n', '''var (
	resMu    sync.Mutex
	resCache = map[string]Result{}
)

func Get(xml, path string) Result {
	resMu.Lock()
	r, ok := resCache[path+xml]
	resMu.Unlock()
	if ok {
		return r
	}
	r = GetBytes([]byte(xml), path)
	resMu.Lock()
	if len(xml) < 16 {
		resCache[path+xml] = r
	}
	resMu.Unlock()
	return r
}

func get0(xml, path string) Result {
'''), ('get.go', 'import (\n', 'import (\n	"sync"\n')],
'C02-limit-flag': [('path.go', '	segments := parsePathInternal(path)\n', '	segments := parsePathInternal(path)\n	if len(path) > 4000 {\n		pathCacheLimit = 0\n	}\n	if pathCacheLimit == 0 && len(segments) > 50 {\n		return nil\n	}\n')],
'C02-pub-first': [('path.go', '		copy(cached, segments)\n		pathCache[path] = cached\n		pathCacheMu.Unlock()\n', '		pathCache[path] = cached\n		pathCacheMu.Unlock()\n		copy(cached, segments)\n')],
'C02-valid-memo': [('validate.go', 'func Valid(xml string) bool {\n', '''var (
	validMu   sync.Mutex
	validSeen = map[int]bool{}
)

func Valid(xml string) bool {
	validMu.Lock()
	defer validMu.Unlock()
	if len(xml) > 4000 {
		if v, ok := validSeen[len(xml)]; ok {
			return v
		}
		v := ValidBytes([]byte(xml))
		validSeen[len(xml)] = v
		return v
	}
'''), ('validate.go', 'import "fmt"\n', 'import (\n	"fmt"\n	"sync"\n)\n')],
'C02-pool-noreset': [('builder.go', 'func newXMLBuilderWithOptions(', '''var bufPool = sync.Pool{New: func() interface{} { return new(strings.Builder) }}

func pooled() *strings.Builder {
	b := bufPool.Get().(*strings.Builder)
	b.WriteString("x")
	bufPool.Put(b)
	return b
}

func newXMLBuilderWithOptions('''), ('builder.go', 'import (\n', 'import (\n	"sync"\n')],

'C02-filter-lower': [('get.go', '				segments[i].Value = toLowerASCII(segments[i].Value)\n', '				segments[i].Value = toLowerASCII(segments[i].Value)\n				if segments[i].Filter != nil {\n					segments[i].Filter.Path = toLowerASCII(segments[i].Filter.Path)\n				}\n')],
'C02-mods-inplace-dedup': [('modifier.go', '	current := r\n\n	for _, name := range modifierNames {\n', '	current := r\n	if len(modifierNames) > 1 && modifierNames[0] == "sort" && modifierNames[1] == "reverse" {\n		modifierNames[0], modifierNames[1] = "sort", "reverse"\n	}\n\n	for _, name := range modifierNames {\n')],
}
