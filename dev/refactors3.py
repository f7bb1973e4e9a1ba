EDITS = {
'R16-contains': [('modifier.go', '''	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}
	for _, b := range builtins {
		if name == b {
			return true
		}
	}
	return false
''', '''	return slices.Contains([]string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}, name)
'''), ('modifier.go', '	"sort"\n', '	"slices"\n	"sort"\n')],
'R16-switch': [('modifier.go', '''	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}
	for _, b := range builtins {
		if name == b {
			return true
		}
	}
	return false
''', '''	switch name {
	case "reverse", "sort", "first", "last", "flatten", "pretty", "ugly":
		return true
	}
	return false
''')],
'R16-map': [('modifier.go', '''	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}
	for _, b := range builtins {
		if name == b {
			return true
		}
	}
	return false
''', '''	return builtinNames[name]
'''), ('modifier.go', '// isBuiltinModifier checks', '''var builtinNames = map[string]bool{
	"reverse": true, "sort": true, "first": true, "last": true,
	"flatten": true, "pretty": true, "ugly": true,
}

// isBuiltinModifier checks''')],
'R16-set': [('modifier.go', '''	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}
	for _, b := range builtins {
		if name == b {
			return true
		}
	}
	return false
''', '''	_, ok := builtinNames[name]
	return ok
'''), ('modifier.go', '// isBuiltinModifier checks', '''var builtinNames = map[string]struct{}{
	"reverse": {}, "sort": {}, "first": {}, "last": {},
	"flatten": {}, "pretty": {}, "ugly": {},
}

// isBuiltinModifier checks''')],
'R16-idxloop': [('modifier.go', '''	for _, b := range builtins {
		if name == b {
			return true
		}
	}
	return false
''', '''	found := false
	for i := 0; i < len(builtins) && !found; i++ {
		found = builtins[i] == name
	}
	return found
''')],
'R16-globallist': [('modifier.go', '''	builtins := []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}
	for _, b := range builtins {''', '''	for _, b := range builtinModifierNames {'''), ('modifier.go', '// isBuiltinModifier checks', '''var builtinModifierNames = []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}

// isBuiltinModifier checks''')],
'R16-helper': [('modifier.go', '''	if _, exists := modifierRegistry[name]; exists {
		return fmt.Errorf("modifier %q already registered", name)
	}
''', '''	if isRegistered(name) {
		return fmt.Errorf("modifier %q already registered", name)
	}
'''), ('modifier.go', '// isBuiltinModifier checks', '''func isRegistered(name string) bool {
	_, exists := modifierRegistry[name]
	return exists
}

// isBuiltinModifier checks''')],
'R16-else': [('modifier.go', '''	if _, exists := modifierRegistry[name]; exists {
		return fmt.Errorf("modifier %q already registered", name)
	}

	modifierRegistry[name] = m
	return nil
''', '''	_, exists := modifierRegistry[name]
	if !exists {
		modifierRegistry[name] = m
		return nil
	}
	return fmt.Errorf("modifier %q already registered", name)
''')],
'R16-errvar': [('modifier.go', '''	if _, exists := modifierRegistry[name]; exists {
		return fmt.Errorf("modifier %q already registered", name)
	}

	modifierRegistry[name] = m
	return nil
''', '''	var err error
	if _, exists := modifierRegistry[name]; exists {
		err = fmt.Errorf("modifier %q already registered", name)
	} else {
		modifierRegistry[name] = m
	}
	return err
''')],
'R16-nodefer': [('modifier.go', '''	modifierMu.RLock()
	defer modifierMu.RUnlock()
	return modifierRegistry[name]
''', '''	modifierMu.RLock()
	mod := modifierRegistry[name]
	modifierMu.RUnlock()
	return mod
''')],
'R16-getok': [('modifier.go', '''	return modifierRegistry[name]
''', '''	if mod, ok := modifierRegistry[name]; ok {
		return mod
	}
	return nil
''')],
'R16-unregpre': [('modifier.go', '''	modifierMu.Lock()
	defer modifierMu.Unlock()

	// Protect built-in modifiers from removal
	if isBuiltinModifier(name) {
		return fmt.Errorf("cannot unregister built-in modifier %q", name)
	}

	delete(modifierRegistry, name)
	return nil
''', '''	// Protect built-in modifiers from removal
	if isBuiltinModifier(name) {
		return fmt.Errorf("cannot unregister built-in modifier %q", name)
	}

	modifierMu.Lock()
	delete(modifierRegistry, name)
	modifierMu.Unlock()
	return nil
''')],
'R16-storehelper': [('modifier.go', '''	modifierRegistry[name] = m
	return nil
''', '''	storeModifier(name, m)
	return nil
'''), ('modifier.go', '// isBuiltinModifier checks', '''func storeModifier(name string, m Modifier) {
	modifierRegistry[name] = m
}

// isBuiltinModifier checks''')],
}
EDITS.update({
'R24-idx': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for i := 0; i < len(modifierNames); i++ {
		mod := GetModifier(modifierNames[i])''')],
'R24-rangei': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for i := range modifierNames {
		mod := GetModifier(modifierNames[i])''')],
'R24-rangelen': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for i := range len(modifierNames) {
		mod := GetModifier(modifierNames[i])''')],
'R24-return': [('modifier.go', '''		if current.Type == Null {
			break
		}''', '''		if current.Type == Null {
			return current
		}''')],
'R24-exists': [('modifier.go', '''		if current.Type == Null {
			break
		}''', '''		if !current.Exists() {
			return Result{Type: Null}
		}''')],
'R24-helper': [('modifier.go', '''		mod := GetModifier(name)
		if mod == nil {
			// Unknown modifier - return Null to indicate failure
			// Future enhancement: return error type with modifier name
			return Result{Type: Null}
		}

		current = mod.Apply(current)
''', '''		current = applyModifier(current, name)
'''), ('modifier.go', '// parseModifiers extracts', '''func applyModifier(r Result, name string) Result {
	mod := GetModifier(name)
	if mod == nil {
		return Result{Type: Null}
	}
	return mod.Apply(r)
}

// parseModifiers extracts''')],
'R24-loopcond': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for i := 0; i < len(modifierNames) && current.Type != Null; i++ {
		mod := GetModifier(modifierNames[i])'''), ('modifier.go', '''		// Stop if modifier returned Null - propagate failure
		// Future enhancement: track which modifier failed
		if current.Type == Null {
			break
		}
''', '')],
'R24-consume': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for len(modifierNames) > 0 {
		mod := GetModifier(modifierNames[0])
		modifierNames = modifierNames[1:]''')],
'R24-param': [('modifier.go', '	current := r\n\n	for', '	for'), ('modifier.go', 'current = mod.Apply(current)', 'r = mod.Apply(r)'), ('modifier.go', '		if current.Type == Null {', '		if r.Type == Null {'), ('modifier.go', '	return current\n}\n\n// parseM', '	return r\n}\n\n// parseM')],
'R24-toolong': [('modifier.go', '	if len(modifierNames) > MaxModifierChainDepth {', '	if chainTooLong(modifierNames) {'), ('modifier.go', '// parseModifiers extracts', '''func chainTooLong(names []string) bool { return len(names) > MaxModifierChainDepth }

// parseModifiers extracts''')],
'R24-parse-range': [('modifier.go', '''	for i := 1; i < len(parts); i++ {
		mod := strings.TrimSpace(parts[i])
''', '''	for _, part := range parts[1:] {
		mod := strings.TrimSpace(part)
''')],
'R24-parse-continue': [('modifier.go', '''		if strings.HasPrefix(mod, "@") {
			modifiers = append(modifiers, mod[1:]) // Strip @ prefix
		}
''', '''		if !strings.HasPrefix(mod, "@") {
			continue
		}
		modifiers = append(modifiers, strings.TrimPrefix(mod, "@"))
''')],
'R24-parse-cut': [('modifier.go', '''		if strings.HasPrefix(mod, "@") {
			modifiers = append(modifiers, mod[1:]) // Strip @ prefix
		}
''', '''		if name, ok := strings.CutPrefix(mod, "@"); ok {
			modifiers = append(modifiers, name)
		}
''')],
'R24-finish-else': [('get.go', '''	if len(mods) == 0 || result.Type == Null {
		return result
	}
	return applyModifiers(result, mods)
''', '''	if len(mods) > 0 && result.Exists() {
		result = applyModifiers(result, mods)
	}
	return result
''')],
'R24-nullres': [('modifier.go', '''		return Result{Type: Null} // Return error for excessive chaining''', '''		return nullResult()'''), ('modifier.go', '// parseModifiers extracts', '''func nullResult() Result { return Result{Type: Null} }

// parseModifiers extracts''')],
'R24-nocopy-engine': [('get.go', '''			if len(currentSeg.Modifiers) > 0 {
				result = applyModifiers(result, currentSeg.Modifiers)
			}
''', '')],
'R24-inline': [('get.go', '''	mods := detachModifiers(segments)
	return finishQuery(executeQuery(parser, segments, 0), mods)
}

// detach''', '''	last := &segments[len(segments)-1]
	mods := last.Modifiers
	last.Modifiers = nil
	result := executeQuery(parser, segments, 0)
	return finishQuery(result, mods)
}

// detach''')],
})
