EDITS = {
'C16-list-missing-ugly': [('modifier.go', '"flatten", "pretty", "ugly"}', '"flatten", "pretty"}')],
'C16-overwrite-custom': [('modifier.go', 'if _, exists := modifierRegistry[name]; exists {', 'if old, exists := modifierRegistry[name]; exists && old != m {')],
'C16-overwrite-nonbuiltin': [('modifier.go', 'if _, exists := modifierRegistry[name]; exists {', 'if _, exists := modifierRegistry[name]; exists && isBuiltinModifier(name) {')],
'C16-nil-exists': [('modifier.go', 'if _, exists := modifierRegistry[name]; exists {', 'if isBuiltinModifier(name) && m == nil {')],
'C16-get-lower': [('modifier.go', 'return modifierRegistry[name]', 'return modifierRegistry[strings.TrimSpace(name)]')],
'C16-get-fallback': [('modifier.go', 'return modifierRegistry[name]', 'if m, ok := modifierRegistry[name]; ok {\n\t\treturn m\n\t}\n\treturn modifierRegistry["first"]')],
'C16-toctou': [('modifier.go', '''	modifierMu.Lock()
	defer modifierMu.Unlock()

	if _, exists := modifierRegistry[name]; exists {
		return fmt.Errorf("modifier %q already registered", name)
	}
''', '''	if GetModifier(name) != nil {
		return fmt.Errorf("modifier %q already registered", name)
	}
	modifierMu.Lock()
	defer modifierMu.Unlock()
''')],
'C16-unreg-rename': [('modifier.go', '	delete(modifierRegistry, name)\n', '	if m := modifierRegistry[name]; m != nil {\n		delete(modifierRegistry, m.Name())\n	}\n')],
'C16-init-swap': [('modifier.go', 'modifierRegistry["pretty"] = &prettyModifier{}', 'modifierRegistry["pretty"] = &uglyModifier{}')],
'C16-reg-byname': [('modifier.go', '	modifierRegistry[name] = m\n	return nil', '	modifierRegistry[name] = m\n	if m != nil && m.Name() != "" {\n		modifierRegistry[m.Name()] = m\n	}\n	return nil')],
'C16-unreg-noop': [('modifier.go', '	delete(modifierRegistry, name)\n', '	if len(name) <= 32 {\n		delete(modifierRegistry, name)\n	}\n')],
'C16-unreg-case': [('modifier.go', '	if isBuiltinModifier(name) {', '	name = strings.ToLower(name)\n	if isBuiltinModifier(name) {')],
'C16-unreg-trim': [('modifier.go', '	delete(modifierRegistry, name)\n', '	delete(modifierRegistry, strings.TrimPrefix(name, "@"))\n')],
}
EDITS.update({
'C24-skip-unknown': [('modifier.go', '''			return Result{Type: Null}
		}

		current = mod.Apply(current)
''', '''			if i > 0 {
				continue
			}
			return Result{Type: Null}
		}

		current = mod.Apply(current)
'''), ('modifier.go', 'for _, name := range modifierNames {', 'for i, name := range modifierNames {')],
'C24-unknown-keeps': [('modifier.go', '''			// Future enhancement: return error type with modifier name
			return Result{Type: Null}''', '''			// Future enhancement: return error type with modifier name
			if current.Type == Array {
				return current
			}
			return Result{Type: Null}''')],
'C24-truncate': [('modifier.go', '''		return Result{Type: Null} // Return error for excessive chaining''', '''		modifierNames = modifierNames[:MaxModifierChainDepth]''')],
'C24-apply-r': [('modifier.go', 'current = mod.Apply(current)', 'current = mod.Apply(r)')],
'C24-reverse': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	for i := range modifierNames {
		mod := GetModifier(modifierNames[len(modifierNames)-1-i])''')],
'C24-dedup': [('modifier.go', '''	for _, name := range modifierNames {
		mod := GetModifier(name)''', '''	prev := ""
	for _, name := range modifierNames {
		if name == prev && name != "reverse" {
			continue
		}
		prev = name
		mod := GetModifier(name)''')],
'C24-parse-cap': [('modifier.go', '		if strings.HasPrefix(mod, "@") {', '		if strings.HasPrefix(mod, "@") && len(modifiers) < MaxModifierChainDepth {')],
'C24-parse-empty': [('modifier.go', '		if strings.HasPrefix(mod, "@") {', '		if strings.HasPrefix(mod, "@") && len(mod) > 1 {')],
'C24-parse-break': [('modifier.go', '''			modifiers = append(modifiers, mod[1:]) // Strip @ prefix
		}
''', '''			modifiers = append(modifiers, mod[1:]) // Strip @ prefix
		} else {
			break
		}
''')],
'C24-finish-single': [('get.go', '	if len(mods) == 0 || result.Type == Null {', '	if len(mods) == 0 || result.Type == Null || result.Type == Number {')],
'C24-stop-empty': [('modifier.go', '		if current.Type == Null {\n			break', '		if current.Type == Null || current.Raw == "" && current.Str == "" && len(current.Results) == 0 {\n			break')],
'C24-limit-late': [('modifier.go', '''	if len(modifierNames) > MaxModifierChainDepth {
		return Result{Type: Null} // Return error for excessive chaining
	}
''', ''), ('modifier.go', '''	for _, name := range modifierNames {
		mod''', '''	for i, name := range modifierNames {
		if i > MaxModifierChainDepth {
			break
		}
		mod''')],
'C24-opts-drop': [('get.go', '	return finishQuery(executeQueryWithOptions(parser, segments, 0, opts), mods)', '	res := executeQueryWithOptions(parser, segments, 0, opts)\n	if res.Type == Array && len(res.Results) == 0 {\n		return res\n	}\n	return finishQuery(res, mods)')],
'C24-get-nodetach': [('get.go', '''	mods := detachModifiers(segments)
	return finishQuery(executeQuery(parser, segments, 0), mods)
}

// detach''', '''	return executeQuery(parser, segments, 0)
}

// detach''')],
})
