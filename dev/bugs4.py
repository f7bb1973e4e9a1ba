EDITS = {
'C22-notmatch-stopped': [('filter.go', '		if stopped {\n			return false\n		}', '		if stopped {\n			return filter.Op == OpPatternNotMatch\n		}')],
'C22-le-small': [('filter.go', 'return actualNum <= filterNum', 'return actualNum <= filterNum && filterNum != 0 || actualNum < filterNum')],
'C22-ge-abs': [('filter.go', 'return actualNum >= filterNum', 'return math.Abs(actualNum) >= filterNum')],
'C22-lt-eps': [('filter.go', 'return actualNum < filterNum', 'return filterNum-actualNum > 1e-9')],
'C22-gt-int': [('filter.go', 'return actualNum > filterNum', 'return math.Trunc(actualNum) > math.Trunc(filterNum)')],
'C22-eq-fold': [('filter.go', 'return actualValue == filter.Value', 'return strings.EqualFold(actualValue, filter.Value)')],
'C22-eq-numeric': [('filter.go', '		return actualValue == filter.Value\n', '''		if a, err := strconv.ParseFloat(actualValue, 64); err == nil {
			if b, err := strconv.ParseFloat(filter.Value, 64); err == nil {
				return a == b
			}
		}
		return actualValue == filter.Value
''')],
'C22-eq-trim': [('filter.go', 'return actualValue == filter.Value', 'return strings.TrimSpace(actualValue) == filter.Value')],
'C22-neq-missing': [('filter.go', '	if !exists {\n		return false\n	}', '	if !exists && filter.Op != OpPatternNotMatch {\n		return false\n	}')],
'C22-neq-missing-attr': [('filter.go', '	if !exists {\n		return false\n	}', '	if !exists {\n		return filter.Op == OpNotEqual && len(attrs) > 0 && content == ""\n	}')],
'C22-exists-nonempty': [('filter.go', '		return exists\n', '		return exists && (actualValue != "" || len(attrs) == 0)\n')],
'C22-err-ignored': [('filter.go', 'if actualErr == nil && filterErr == nil {', 'if actualErr == nil || actualNum != 0 {'), ('filter.go', 'filterNum, filterErr :=', 'filterNum, _ :=')],
'C22-inf-one': [('filter.go', 'if math.IsInf(actualNum, 0) || math.IsNaN(actualNum) || math.IsInf(filterNum, 0) || math.IsNaN(filterNum) {', 'if math.IsInf(actualNum, 0) || math.IsNaN(actualNum) {'), ('filter.go', '		if !isNumericValue(actualValue) || !isNumericValue(filter.Value) {', '		if !isNumericValue(actualValue) {')],
'C22-gate-only-actual': [('filter.go', '		if !isNumericValue(actualValue) || !isNumericValue(filter.Value) {', '		if !isNumericValue(actualValue) {'), ('filter.go', 'math.IsNaN(actualNum) || math.IsInf(filterNum, 0) ||', 'math.IsNaN(actualNum) || math.IsInf(filterNum, 1) ||')],
'C22-match-swapped': [('filter.go', 'pattern.Match(actualValue, patternStr,', 'pattern.Match(strings.ToLower(actualValue), strings.ToLower(patternStr),')],
'C22-match-trunc': [('filter.go', 'pattern.Match(actualValue, patternStr,', 'pattern.Match(actualValue[:min(len(actualValue), 256)], patternStr,')],
'C22-wild-noescape': [('filter.go', 'ContainsAny(patternStr, "*?\\\\")', 'ContainsAny(patternStr, "*?")')],
'C22-literal-contains': [('filter.go', 'matched := actualValue == patternStr\n', 'matched := actualValue == patternStr || len(patternStr) > 64 && strings.HasPrefix(actualValue, patternStr)\n')],
'C22-parse-ge': [('filter.go', 'op = OpGreaterThanOrEqual', 'op = OpGreaterThan')],
'C22-parse-value-flip': [('filter.go', '	return &Filter{\n		Path:  path,\n		Op:    op,', '	if op == OpNotEqual && value == "*" {\n		op = OpPatternNotMatch\n	}\n	return &Filter{\n		Path:  path,\n		Op:    op,')],
'C22-parse-neq-empty': [('filter.go', '	return &Filter{\n		Path:  path,\n		Op:    op,', '	if op == OpNotEqual && value == "" {\n		op = OpExists\n	}\n	return &Filter{\n		Path:  path,\n		Op:    op,')],
'C22-shortcut-site': [('get.go', '''evaluateFilterOnMatch(''', '''fastFilter(''' ), ('filter.go', '// evaluateFilterOnMatch evaluates', '''func fastFilter(filter *Filter, match elementMatch) bool {
	if filter.Op == OpEqual && strings.HasPrefix(filter.Path, "@") {
		return match.attrs[filter.Path[1:]] == filter.Value
	}
	return evaluateFilterOnMatch(filter, match)
}

// evaluateFilterOnMatch evaluates''')],
'C22-attr-trim': [('filter.go', 'attrName := filter.Path[1:]', 'attrName := strings.ToLower(filter.Path[1:])')],
'C22-attr-exists': [('filter.go', 'actualValue, exists = attrs[attrName]\n', 'actualValue = attrs[attrName]\n		exists = actualValue != "" || filter.Op == OpExists\n')],
'C23-limit-big': [('filter.go', 'pattern.Match(actualValue, patternStr, MaxPatternIterations)', 'pattern.Match(actualValue, patternStr, MaxPatternIterations+len(actualValue))')],
'C23-limit-x10': [('filter.go', 'pattern.Match(actualValue, patternStr, MaxPatternIterations)', 'pattern.Match(actualValue, patternStr, 10*MaxPatternIterations)')],
'C23-neg-ignores': [('filter.go', '		if stopped {\n			return false\n		}', '		if stopped && filter.Op == OpPatternMatch {\n			return false\n		}')],
'C23-alloc-first': [('internal/pattern/match.go', '''	if sLen*pLen > maxIterations {
		return false, true
	}

	// DP table: dp[i][j] = whether s[0:i] matches p[0:j]
	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}
''', '''	// DP table: dp[i][j] = whether s[0:i] matches p[0:j]
	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}
	if sLen*pLen > maxIterations {
		return false, true
	}
''')],
'C23-sum-guard': [('internal/pattern/match.go', 'if sLen*pLen > maxIterations {', 'if sLen+pLen > maxIterations {')],
'C23-guard-one': [('internal/pattern/match.go', 'if sLen*pLen > maxIterations {', 'if sLen > maxIterations || pLen > maxIterations {')],
'C23-star-free': [('internal/pattern/match.go', 'if sLen*pLen > maxIterations {', 'if sLen*pLen > maxIterations && len(escapes) == 0 {')],
'C23-row-counter': [('internal/pattern/match.go', 'if sLen*pLen > maxIterations {', 'if sLen > maxIterations {'), ('internal/pattern/match.go', '''	iterations := 0

	// Fill DP table
	for i := 1; i <= sLen; i++ {
''', '''	// Fill DP table
	for i := 1; i <= sLen; i++ {
		iterations := 0
''')],
'C23-stop-true': [('internal/pattern/match.go', '''				// Security: Complexity limit exceeded, stop processing
				return false, true''', '''				// Security: Complexity limit exceeded, stop processing
				return dp[i-1][pLen], true''')],
'C23-stop-silent': [('internal/pattern/match.go', '''	if sLen*pLen > maxIterations {
		return false, true''', '''	if sLen*pLen > maxIterations {
		return false, false''')],
'C23-extra-loop': [('internal/pattern/match.go', '	// Convert to runes', '''	// an exact occurrence needs no table
	for i := 0; i+len(pattern) <= len(str); i++ {
		k := 0
		for k < len(pattern) && str[i+k] == pattern[k] && pattern[k] != '*' && pattern[k] != '?' && pattern[k] != '\\\\' {
			k++
		}
		if k == len(pattern) && i == 0 && len(str) == k {
			return true, false
		}
	}
	// Convert to runes''')],
}
