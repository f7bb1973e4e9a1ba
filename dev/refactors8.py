exec(open('/verif/dev/refactors7.py').read().split('EDITS = {')[0])
CACHE='''type pathMemo struct {
	sync.RWMutex
	m map[string][]PathSegment
}

var memoized = &pathMemo{m: map[string][]PathSegment{}}

func (c *pathMemo) lookup(key string) ([]PathSegment, bool) {
	c.RLock()
	defer c.RUnlock()
	v, ok := c.m[key]
	return v, ok
}

func (c *pathMemo) store(key string, segs []PathSegment) {
	c.Lock()
	defer c.Unlock()
	if len(c.m) >= pathCacheLimit {
		c.m = map[string][]PathSegment{}
	}
	c.m[key] = segs
}

'''
OPTC='''type optKey struct {
	path string
	fold bool
}

var (
	optMu    sync.Mutex
	optCache = map[optKey][]PathSegment{}
)

func optPath(path string, opts *Options) []PathSegment {
	k := optKey{path, !opts.CaseSensitive}
	optMu.Lock()
	defer optMu.Unlock()
	if s, ok := optCache[k]; ok {
		return append([]PathSegment(nil), s...)
	}
	s := parsePath(path)
	if k.fold {
		for i := range s {
			s[i].Value = toLowerASCII(s[i].Value)
		}
	}
	optCache[k] = append([]PathSegment(nil), s...)
	return s
}

'''
EDITS = {
'R02-struct-cache': [('path.go', PC, '	if cached, ok := memoized.lookup(path); ok {\n		out := make([]PathSegment, len(cached))\n		copy(out, cached)\n		return out\n	}\n'), ('path.go', ST, '		cached := make([]PathSegment, len(segments))\n		copy(cached, segments)\n		memoized.store(path, cached)\n'), ('path.go', HELP, CACHE+HELP)],
'R02-trim-consistent': [('path.go', '	// Check cache first (read lock)\n', '	path = strings.Clone(path)\n')],
'R02-key-local': [('path.go', '	// Check cache first (read lock)\n', '	key := path\n'), ('path.go', 'pathCache[path]; ok', 'pathCache[key]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache[key] = cached')],
'R02-key-prefix': [('path.go', 'pathCache[path]; ok', 'pathCache["p:"+path]; ok'), ('path.go', 'pathCache[path] = cached', 'pathCache["p:"+path] = cached')],
'R02-nil-first': [('path.go', '	if segments != nil {\n'+ST+'	}\n\n	return segments\n', '	if segments == nil {\n		return nil\n	}\n	storePath(path, append([]PathSegment(nil), segments...))\n	return segments\n'), ('path.go', HELP, 'func storePath(p string, segs []PathSegment) {\n	pathCacheMu.Lock()\n	defer pathCacheMu.Unlock()\n	if len(pathCache) >= pathCacheLimit {\n		clear(pathCache)\n	}\n	pathCache[p] = segs\n}\n\n'+HELP)],
'R02-store-copy-return': [('path.go', PS+'	}\n\n	return segments\n', PS.replace('cached','kept')+'	}\n\n	return segments\n')],
'R02-return-copy': [('path.go', PS+'	}\n\n	return segments\n', '		pathCache[path] = segments\n		pathCacheMu.Unlock()\n	}\n	if segments == nil {\n		return nil\n	}\n	out := make([]PathSegment, len(segments))\n	copy(out, segments)\n	return out\n')],
'R02-pool': [('parser.go', 'func unescapeXML(', '''var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func viaPool(s string) string {
	b := bufPool.Get().(*bytes.Buffer)
	b.Reset()
	b.WriteString(s)
	out := b.String()
	bufPool.Put(b)
	return out
}

func unescapeXML('''), ('parser.go', 'import (\n', 'import (\n	"bytes"\n	"sync"\n')],
'R02-pool-defer': [('parser.go', 'func unescapeXML(', '''var bufPool = sync.Pool{New: func() interface{} { return new(strings.Builder) }}

func viaPool(s string) string {
	b := bufPool.Get().(*strings.Builder)
	defer func() {
		b.Reset()
		bufPool.Put(b)
	}()
	b.WriteString(s)
	return b.String()
}

func unescapeXML('''), ('parser.go', 'import (\n', 'import (\n	"sync"\n')],
'R02-syncmap': [('path.go', PC, '	if c, ok := pathMemo.Load(path); ok {\n		return append([]PathSegment(nil), c.([]PathSegment)...)\n	}\n'), ('path.go', ST, '		pathMemo.Store(path, append([]PathSegment(nil), segments...))\n'), ('path.go', HELP, 'var pathMemo sync.Map\n\nvar _ = pathCacheLimit\n\n'+HELP)],
'R02-options-key': [('get.go', 'func executeQueryWithOptions(', OPTC+'func executeQueryWithOptions('), ('get.go', 'import (\n', 'import (\n	"sync"\n')],
'R02-fill-local': [('filter.go', 'import (\n', 'import (\n')],
'R02-valid-memo': [('path.go', HELP, '''var (
	nameMu   sync.Mutex
	nameSeen = map[string]bool{}
)

func plainName(s string) bool {
	nameMu.Lock()
	defer nameMu.Unlock()
	if v, ok := nameSeen[s]; ok {
		return v
	}
	v := !strings.ContainsAny(s, ".#@%*|")
	if len(nameSeen) < 100 {
		nameSeen[s] = v
	}
	return v
}

'''+HELP)],
}
