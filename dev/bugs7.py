GM='	modifierMu.RLock()\n	defer modifierMu.RUnlock()\n	return modifierRegistry[name]\n'
PC='''	pathCacheMu.RLock()
	if cached, ok := pathCache[path]; ok {
		pathCacheMu.RUnlock()
		// Return a copy to prevent modification of cached data
		result := make([]PathSegment, len(cached))
		copy(result, cached)
		return result
	}
	pathCacheMu.RUnlock()
'''
PS='''		cached := make([]PathSegment, len(segments))
		copy(cached, segments)
		pathCache[path] = cached
		pathCacheMu.Unlock()
'''
EDITS = {
'C01-get-unlocked': [('modifier.go', GM, '	return modifierRegistry[name]\n')],
'C01-cache-unlocked': [('path.go', PC, PC.replace('	pathCacheMu.RLock()\n','').replace('		pathCacheMu.RUnlock()\n','',1).replace('	pathCacheMu.RUnlock()\n','',1))],
'C01-rlock-write': [('path.go', '		pathCacheMu.Lock()\n', '		pathCacheMu.RLock()\n'), ('path.go', '		pathCacheMu.Unlock()\n', '		pathCacheMu.RUnlock()\n')],
'C01-check-before-lock': [('path.go', '		pathCacheMu.Lock()\n		// Simple cache eviction: clear cache when it exceeds limit\n		if len(pathCache) >= pathCacheLimit {\n			pathCache = make(map[string][]PathSegment)\n		}\n', '		if len(pathCache) >= pathCacheLimit {\n			resetPathCache()\n		}\n		pathCacheMu.Lock()\n'), ('path.go', '// parsePathInternal performs', 'func resetPathCache() {\n	pathCacheMu.Lock()\n	pathCache = make(map[string][]PathSegment)\n	pathCacheMu.Unlock()\n}\n\n// parsePathInternal performs')],
'C01-unreg-early': [('modifier.go', '	modifierMu.Lock()\n	defer modifierMu.Unlock()\n\n	// Protect built-in', '	modifierMu.RLock()\n	_, known := modifierRegistry[name]\n	if !known {\n		return nil\n	}\n	modifierMu.RUnlock()\n	modifierMu.Lock()\n	defer modifierMu.Unlock()\n\n	// Protect built-in')],
'C01-reg-noteunlock': [('modifier.go', '	modifierMu.Lock()\n	defer modifierMu.Unlock()\n\n	if _, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n\n	modifierRegistry[name] = m\n	return nil\n', '	modifierMu.Lock()\n	if _, exists := modifierRegistry[name]; exists {\n		modifierMu.Unlock()\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n	if m == nil {\n		return fmt.Errorf("modifier %q is nil", name)\n	}\n	modifierRegistry[name] = m\n	modifierMu.Unlock()\n	return nil\n')],
'C01-reg-getmod': [('modifier.go', '	modifierRegistry[name] = m\n	return nil\n', '	if len(name) > 64 && GetModifier(name[:64]) != nil {\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n	modifierRegistry[name] = m\n	return nil\n')],
'C01-name-locked': [('modifier.go', '	modifierRegistry[name] = m\n	return nil\n', '	if m != nil && m.Name() != name && m.Name() == "" {\n		return fmt.Errorf("modifier has no name")\n	}\n	modifierRegistry[name] = m\n	return nil\n')],
'C01-fmt-locked': [('modifier.go', '	if _, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered", name)\n	}\n', '	if old, exists := modifierRegistry[name]; exists {\n		return fmt.Errorf("modifier %q already registered as %v", name, old)\n	}\n')],
'C01-lock-while-parse': [('path.go', '	pathCacheMu.RUnlock()\n\n	// Parse the path\n	segments := parsePathInternal(path)\n', '	pathCacheMu.RUnlock()\n\n	// Parse the path\n	pathCacheMu.Lock()\n	segments := parsePathInternal(path)\n	pathCacheMu.Unlock()\n'), ('path.go', 'func parsePathInternal(path string) []PathSegment {\n', 'func parsePathInternal(path string) []PathSegment {\n	if i := strings.Index(path, "#("); i > 0 && len(path) > 4000 {\n		parsePath(path[:i])\n	}\n')],
'C01-order': [('modifier.go', GM, '	modifierMu.RLock()\n	defer modifierMu.RUnlock()\n	if len(modifierRegistry) > 1000 {\n		pathCacheMu.Lock()\n		defer pathCacheMu.Unlock()\n		pathCache = make(map[string][]PathSegment)\n	}\n	return modifierRegistry[name]\n'), ('path.go', '		pathCacheMu.Lock()\n', '		pathCacheMu.Lock()\n		if len(path) > 5000 && GetModifier("ugly") == nil {\n			pathCacheMu.Unlock()\n			return segments\n		}\n')],
'C01-counter': [('path.go', '	pathCacheMu.RLock()\n', '	pathCacheHits++\n	pathCacheMu.RLock()\n'), ('path.go', '// parsePathInternal performs', 'var pathCacheHits int\n\n// parsePathInternal performs')],
'C01-counter-rlocked': [('path.go', '		pathCacheMu.RUnlock()\n		// Return', '		pathCacheHits++\n		pathCacheMu.RUnlock()\n		// Return'), ('path.go', '// parsePathInternal performs', 'var pathCacheHits int\n\n// parsePathInternal performs')],
'C01-segment-inuse': [('path.go', '	pathCacheMu.RLock()\n	if cached, ok := pathCache[path]; ok {\n		pathCacheMu.RUnlock()\n', '	pathCacheMu.RLock()\n	if cached, ok := pathCache[path]; ok {\n		pathCacheMu.RUnlock()\n		cached[0].Wildcard = cached[0].Type == SegmentWildcard\n')],
'C01-apply-locked': [('modifier.go', '		mod := GetModifier(name)\n', '		modifierMu.RLock()\n		mod := modifierRegistry[name]\n'), ('modifier.go', 'current = mod.Apply(current)', 'current = mod.Apply(current)\n		modifierMu.RUnlock()')],
'C01-wrong-mutex': [('modifier.go', GM, GM.replace('modifierMu','pathCacheMu'))],
'C01-iter-out': [('modifier.go', GM, '	if m, ok := registrySnapshot()[name]; ok {\n		return m\n	}\n	return nil\n'), ('modifier.go', '// isBuiltinModifier checks', 'func registrySnapshot() map[string]Modifier {\n	modifierMu.RLock()\n	defer modifierMu.RUnlock()\n	return modifierRegistry\n}\n\n// isBuiltinModifier checks')],
}
