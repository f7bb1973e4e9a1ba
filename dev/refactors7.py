exec(open('/verif/dev/bugs7.py').read().split('EDITS')[0])
HELP='// parsePathInternal performs'
ST='''		pathCacheMu.Lock()
		// Simple cache eviction: clear cache when it exceeds limit
		if len(pathCache) >= pathCacheLimit {
			pathCache = make(map[string][]PathSegment)
		}
		// Store a copy to prevent external modification
'''+PS
EDITS = {
'R01-lookup-helper': [('path.go', PC, '	if cached, ok := cachedPath(path); ok {\n		return cached\n	}\n'), ('path.go', HELP, '''func cachedPath(path string) ([]PathSegment, bool) {
	pathCacheMu.RLock()
	defer pathCacheMu.RUnlock()
	cached, ok := pathCache[path]
	if !ok {
		return nil, false
	}
	out := make([]PathSegment, len(cached))
	copy(out, cached)
	return out, true
}

'''+HELP)],
'R01-store-helper': [('path.go', ST, '		rememberPath(path, segments)\n'), ('path.go', HELP, '''func rememberPath(path string, segments []PathSegment) {
	pathCacheMu.Lock()
	defer pathCacheMu.Unlock()
	if len(pathCache) >= pathCacheLimit {
		pathCache = make(map[string][]PathSegment)
	}
	pathCache[path] = append([]PathSegment(nil), segments...)
}

'''+HELP)],
'R01-copy-before': [('path.go', ST, '''		cached := make([]PathSegment, len(segments))
		copy(cached, segments)
		pathCacheMu.Lock()
		if len(pathCache) >= pathCacheLimit {
			pathCache = make(map[string][]PathSegment)
		}
		pathCache[path] = cached
		pathCacheMu.Unlock()
''')],
'R01-clear': [('path.go', '			pathCache = make(map[string][]PathSegment)\n', '			clear(pathCache)\n')],
'R01-delete-loop': [('path.go', '			pathCache = make(map[string][]PathSegment)\n', '			for k := range pathCache {\n				delete(pathCache, k)\n			}\n')],
'R01-early-return': [('path.go', '	if segments != nil {\n'+ST+'	}\n', '	if segments == nil {\n		return nil\n	}\n	pathCacheMu.Lock()\n	defer pathCacheMu.Unlock()\n	if len(pathCache) >= pathCacheLimit {\n		pathCache = map[string][]PathSegment{}\n	}\n	pathCache[path] = copySegments(segments)\n'), ('path.go', HELP, 'func copySegments(in []PathSegment) []PathSegment {\n	out := make([]PathSegment, 0, len(in))\n	out = append(out, in...)\n	return out\n}\n\n'+HELP)],
'R01-cond-defer': [('path.go', ST, ST.replace('		pathCacheMu.Lock()\n','		pathCacheMu.Lock()\n		defer pathCacheMu.Unlock()\n').replace('		pathCacheMu.Unlock()\n',''))],
'R01-mutex': [('path.go', 'pathCacheMu    sync.RWMutex', 'pathCacheMu    sync.Mutex'), ('path.go', PC, PC.replace('RLock','Lock').replace('RUnlock','Unlock'))],
'R01-nodefer': [('modifier.go', GM, '	modifierMu.RLock()\n	m := modifierRegistry[name]\n	modifierMu.RUnlock()\n	return m\n')],
'R01-commaok': [('modifier.go', GM, '	modifierMu.RLock()\n	defer modifierMu.RUnlock()\n	if m, ok := modifierRegistry[name]; ok {\n		return m\n	}\n	return nil\n')],
'R01-closure': [('modifier.go', GM, '	var m Modifier\n	withRegistry(func() { m = modifierRegistry[name] })\n	return m\n'), ('modifier.go', '// isBuiltinModifier checks', 'func withRegistry(f func()) {\n	modifierMu.RLock()\n	defer modifierMu.RUnlock()\n	f()\n}\n\n// isBuiltinModifier checks')],
'R01-lockhelper': [('path.go', PC, PC.replace('pathCacheMu.RLock()','lockCache()').replace('pathCacheMu.RUnlock()','unlockCache()')), ('path.go', HELP, 'func lockCache() { pathCacheMu.RLock() }\n\nfunc unlockCache() { pathCacheMu.RUnlock() }\n\n'+HELP)],
'R01-defer-closure': [('modifier.go', GM, '	modifierMu.RLock()\n	defer func() { modifierMu.RUnlock() }()\n	return modifierRegistry[name]\n')],
'R01-copy-locked': [('path.go', PC, '''	pathCacheMu.RLock()
	cached, ok := pathCache[path]
	var result []PathSegment
	if ok {
		result = make([]PathSegment, len(cached))
		copy(result, cached)
	}
	pathCacheMu.RUnlock()
	if ok {
		return result
	}
''')],
'R01-slices-clone': [('path.go', '		result := make([]PathSegment, len(cached))\n		copy(result, cached)\n		return result\n', '		return slices.Clone(cached)\n'), ('path.go', PS, PS.replace('		cached := make([]PathSegment, len(segments))\n		copy(cached, segments)\n','		cached := slices.Clone(segments)\n')), ('path.go', 'import (\n', 'import (\n	"slices"\n')],
'R01-loop-copy': [('path.go', PS, PS.replace('		copy(cached, segments)\n','		for i := range segments {\n			cached[i] = segments[i]\n		}\n'))],
'R01-builtin-first': [('modifier.go', '	modifierMu.Lock()\n	defer modifierMu.Unlock()\n\n	// Protect built-in modifiers from removal\n	if isBuiltinModifier(name) {\n		return fmt.Errorf("cannot unregister built-in modifier %q", name)\n	}\n', '	if isBuiltinModifier(name) {\n		return fmt.Errorf("cannot unregister built-in modifier %q", name)\n	}\n	modifierMu.Lock()\n	defer modifierMu.Unlock()\n')],
'R01-once-table': [('modifier.go', '	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}\n	for _, b := range builtins {\n		if name == b {\n			return true\n		}\n	}\n	return false\n', '	builtinOnce.Do(loadBuiltins)\n	return builtinSet[name]\n'), ('modifier.go', '// isBuiltinModifier checks', 'var (\n	builtinOnce sync.Once\n	builtinSet map[string]bool\n)\n\nfunc loadBuiltins() {\n	builtinSet = map[string]bool{}\n	for _, b := range []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"} {\n		builtinSet[b] = true\n	}\n}\n\n// isBuiltinModifier checks')],
'R01-struct': [('path.go', 'func parsePath(path string) []PathSegment {', 'type segCache struct {\n	mu sync.Mutex\n	m  map[string]int\n}\n\nvar lens = segCache{m: map[string]int{}}\n\nfunc (c *segCache) get(p string) int {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	if n, ok := c.m[p]; ok {\n		return n\n	}\n	n := len(p)\n	c.m[p] = n\n	return n\n}\n\nfunc parsePath(path string) []PathSegment {\n	if lens.get(path) == 0 {\n		return nil\n	}')],
}
