EDITS = {
'R22-parsefinite': [('filter.go', '''		if !isNumericValue(actualValue) || !isNumericValue(filter.Value) {
			return false
		}

		actualNum, actualErr := strconv.ParseFloat(actualValue, 64)
		filterNum, filterErr := strconv.ParseFloat(filter.Value, 64)

		if actualErr == nil && filterErr == nil {
			// Security check: detect special float values (Inf, NaN) and reject
			if math.IsInf(actualNum, 0) || math.IsNaN(actualNum) || math.IsInf(filterNum, 0) || math.IsNaN(filterNum) {
				return false
			}
''', '''		actualNum, ok1 := finiteNumber(actualValue)
		filterNum, ok2 := finiteNumber(filter.Value)
		if ok1 && ok2 {
'''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''func finiteNumber(s string) (float64, bool) {
	if !isNumericValue(s) {
		return 0, false
	}
	n, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(n, 0) || math.IsNaN(n) {
		return 0, false
	}
	return n, true
}

// evaluateFilterOnMatch evaluates''')],
'R22-compare-helper': [('filter.go', '''			switch filter.Op {
			case OpLessThan:
				return actualNum < filterNum
			case OpGreaterThan:
				return actualNum > filterNum
			case OpLessThanOrEqual:
				return actualNum <= filterNum
			case OpGreaterThanOrEqual:
				return actualNum >= filterNum
			}
''', '''			return compareNumbers(filter.Op, actualNum, filterNum)
'''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''func compareNumbers(op FilterOp, a, b float64) bool {
	if op == OpLessThan {
		return a < b
	}
	if op == OpGreaterThan {
		return b < a
	}
	if op == OpLessThanOrEqual {
		return !(a > b)
	}
	return a >= b
}

// evaluateFilterOnMatch evaluates''')],
'R22-lookup-helper': [('filter.go', '''	if strings.HasPrefix(filter.Path, "@") {
		// Fast path: Attribute filter - direct map lookup, no parsing
		attrName := filter.Path[1:]
		actualValue, exists = attrs[attrName]
	} else {
		// Element filter - extract text from specific child element
		parser := newXMLParser([]byte(content))
		parser.filterDepth = depth + 1
		result := executeQuery(parser, parsePath(filter.Path), 0)
		exists = result.Exists()
		actualValue = result.String()
	}
''', '''	actualValue, exists = filterSubject(filter, content, attrs, depth)
'''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''func filterSubject(filter *Filter, content string, attrs map[string]string, depth int) (string, bool) {
	if name, ok := strings.CutPrefix(filter.Path, "@"); ok {
		v, found := attrs[name]
		return v, found
	}
	parser := newXMLParser([]byte(content))
	parser.filterDepth = depth + 1
	result := executeQuery(parser, parsePath(filter.Path), 0)
	if !result.Exists() {
		return "", false
	}
	return result.String(), true
}

// evaluateFilterOnMatch evaluates''')],
'R22-value-local': [('filter.go', '	// Perform comparison based on operator\n', '	op, want := filter.Op, filter.Value\n	_, _ = op, want\n'), ('filter.go', 'return actualValue == filter.Value', 'return want == actualValue'), ('filter.go', 'return actualValue != filter.Value', 'return !(actualValue == want)'), ('filter.go', 'strconv.ParseFloat(filter.Value, 64)', 'strconv.ParseFloat(want, 64)')],
'R22-pattern-helper': [('filter.go', '''		patternStr := filter.Value
		if !strings.ContainsAny(patternStr, "*?\\\\") {
			matched := actualValue == patternStr
			if filter.Op == OpPatternMatch {
				return matched
			}
			return !matched
		}
''', '''		return matchesPattern(filter, actualValue)
	}

	return false
}

func matchesPattern(filter *Filter, actualValue string) bool {
	{
		patternStr := filter.Value
		if !strings.ContainsAny(patternStr, "*?\\\\") {
			return (actualValue == patternStr) == (filter.Op == OpPatternMatch)
		}
'''), ('filter.go', '''		return !matched
	}

	return false
}''', '''		return !matched
	}
}''')],
'R22-pattern-noshort': [('filter.go', '''		if !strings.ContainsAny(patternStr, "*?\\\\") {
			matched := actualValue == patternStr
			if filter.Op == OpPatternMatch {
				return matched
			}
			return !matched
		}
''', '')],
'R22-stopped-cond': [('filter.go', '''		if stopped {
			return false
		}

		if filter.Op == OpPatternMatch {
			return matched
		}
		return !matched
''', '''		return !stopped && matched == (filter.Op == OpPatternMatch)
''')],
'R22-ifchain': [('filter.go', '''	switch filter.Op {
	case OpEqual:
		// Fast path: Direct string comparison
		return actualValue == filter.Value

	case OpNotEqual:
		// Fast path: Direct string inequality
		return actualValue != filter.Value

	case OpLessThan''', '''	if filter.Op == OpEqual || filter.Op == OpNotEqual {
		same := actualValue == filter.Value
		if filter.Op == OpNotEqual {
			same = !same
		}
		return same
	}
	switch filter.Op {
	case OpLessThan''')],
'R22-result-var': [('filter.go', '''			switch filter.Op {
			case OpLessThan:
				return actualNum < filterNum
			case OpGreaterThan:
				return actualNum > filterNum
			case OpLessThanOrEqual:
				return actualNum <= filterNum
			case OpGreaterThanOrEqual:
				return actualNum >= filterNum
			}
''', '''			ok := false
			switch filter.Op {
			case OpLessThan:
				ok = actualNum < filterNum
			case OpGreaterThan:
				ok = actualNum > filterNum
			case OpLessThanOrEqual:
				ok = actualNum <= filterNum
			case OpGreaterThanOrEqual:
				ok = actualNum >= filterNum
			}
			return ok
''')],
'R22-parse-table': [('filter.go', '''	for i := 0; i < len(expr)-1; i++ {
		twoChar := expr[i : i+2]
		switch twoChar {
		case "==":
			op = OpEqual
			opStr = "=="
			opPos = i
		case "<=":
			op = OpLessThanOrEqual
			opStr = "<="
			opPos = i
		case ">=":
			op = OpGreaterThanOrEqual
			opStr = ">="
			opPos = i
		case "!=":
			op = OpNotEqual
			opStr = "!="
			opPos = i
		case "!%":
			op = OpPatternNotMatch
			opStr = "!%"
			opPos = i
		}
		if opPos >= 0 {
			break
		}
	}
''', '''	for i := 0; i < len(expr)-1 && opPos < 0; i++ {
		for _, cand := range twoCharOps {
			if strings.HasPrefix(expr[i:], cand.text) {
				op, opStr, opPos = cand.op, cand.text, i
				break
			}
		}
	}
'''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''var twoCharOps = []struct {
	text string
	op   FilterOp
}{
	{"==", OpEqual},
	{"<=", OpLessThanOrEqual},
	{">=", OpGreaterThanOrEqual},
	{"!=", OpNotEqual},
	{"!%", OpPatternNotMatch},
}

// evaluateFilterOnMatch evaluates''')],
'R22-parse-helper': [('filter.go', '''	// Find the operator
	var op FilterOp
	var opStr string
	var opPos = -1
''', '''	op, opStr, opPos := findOperator(expr)
	if opPos < 0 {
		return nil, ErrInvalidPath
	}
	return buildFilter(expr, op, opStr, opPos)
}

func findOperator(expr string) (FilterOp, string, int) {
	var op FilterOp
	var opStr string
	var opPos = -1
'''), ('filter.go', '''	if opPos < 0 {
		return nil, ErrInvalidPath
	}

	// Extract path''', '''	return op, opStr, opPos
}

func buildFilter(expr string, op FilterOp, opStr string, opPos int) (*Filter, error) {
	// Extract path''')],
'R22-parse-early': [('filter.go', '''	// Find the operator
	var op FilterOp
	var opStr string
	var opPos = -1
''', '''	op, opStr, opPos := findOperator(expr)
'''), ('filter.go', '''	// Check for two-character operators first (==, <=, >=, !=, !%)
	for i := 0; i < len(expr)-1; i++ {
		twoChar := expr[i : i+2]
		switch twoChar {
		case "==":
			op = OpEqual
			opStr = "=="
			opPos = i
		case "<=":
			op = OpLessThanOrEqual
			opStr = "<="
			opPos = i
		case ">=":
			op = OpGreaterThanOrEqual
			opStr = ">="
			opPos = i
		case "!=":
			op = OpNotEqual
			opStr = "!="
			opPos = i
		case "!%":
			op = OpPatternNotMatch
			opStr = "!%"
			opPos = i
		}
		if opPos >= 0 {
			break
		}
	}

	// If no two-character operator found, check for single-character operators
	if opPos < 0 {
		for i := 0; i < len(expr); i++ {
			c := expr[i]
			switch c {
			case '<':
				op = OpLessThan
				opStr = "<"
				opPos = i
			case '>':
				op = OpGreaterThan
				opStr = ">"
				opPos = i
			case '%':
				op = OpPatternMatch
				opStr = "%"
				opPos = i
			}
			if opPos >= 0 {
				break
			}
		}
	}
''', ''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''// findOperator locates the operator.
func findOperator(expr string) (FilterOp, string, int) {
	for i := 0; i+1 < len(expr); i++ {
		switch text := expr[i : i+2]; text {
		case "==":
			return OpEqual, text, i
		case "<=":
			return OpLessThanOrEqual, text, i
		case ">=":
			return OpGreaterThanOrEqual, text, i
		case "!=":
			return OpNotEqual, text, i
		case "!%":
			return OpPatternNotMatch, text, i
		}
	}
	for i := range len(expr) {
		switch expr[i] {
		case '<':
			return OpLessThan, "<", i
		case '>':
			return OpGreaterThan, ">", i
		case '%':
			return OpPatternMatch, "%", i
		}
	}
	return OpExists, "", -1
}

// evaluateFilterOnMatch evaluates''')],
'R22-parse-map': [('filter.go', '''		twoChar := expr[i : i+2]
		switch twoChar {
		case "==":
			op = OpEqual
			opStr = "=="
			opPos = i
		case "<=":
			op = OpLessThanOrEqual
			opStr = "<="
			opPos = i
		case ">=":
			op = OpGreaterThanOrEqual
			opStr = ">="
			opPos = i
		case "!=":
			op = OpNotEqual
			opStr = "!="
			opPos = i
		case "!%":
			op = OpPatternNotMatch
			opStr = "!%"
			opPos = i
		}
		if opPos >= 0 {
			break
		}
''', '''		if o, ok := longOps[expr[i:i+2]]; ok {
			op, opStr, opPos = o, expr[i:i+2], i
			break
		}
'''), ('filter.go', '// evaluateFilterOnMatch evaluates', '''var longOps = map[string]FilterOp{
	"==": OpEqual,
	"<=": OpLessThanOrEqual,
	">=": OpGreaterThanOrEqual,
	"!=": OpNotEqual,
	"!%": OpPatternNotMatch,
}

// evaluateFilterOnMatch evaluates''')],
'R22-exists-type': [('filter.go', 'exists = result.Exists()', 'exists = result.Type != Null')],
'R22-exists-late': [('filter.go', '''	if filter.Op == OpExists {
		return exists
	}

	// If value doesn't exist, filter doesn't match
	if !exists {
		return false
	}
''', '''	if !exists {
		return false
	}
	if filter.Op == OpExists {
		return true
	}
''')],
'R23-rows': [('internal/pattern/match.go', '''	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}

	// Empty pattern matches empty string
	dp[0][0] = true
''', '''	prev := make([]bool, pLen+1)
	cur := make([]bool, pLen+1)

	// Empty pattern matches empty string
	prev[0] = true
'''), ('internal/pattern/match.go', 'dp[0][j] = dp[0][j-1]', 'prev[j] = prev[j-1]'), ('internal/pattern/match.go', '''		for j := 1; j <= pLen; j++ {
			iterations++''', '''		cur[0] = false
		for j := 1; j <= pLen; j++ {
			cur[j] = false
			iterations++'''), ('internal/pattern/match.go', 'dp[i][j] = dp[i][j-1] || dp[i-1][j]', 'cur[j] = cur[j-1] || prev[j]'), ('internal/pattern/match.go', 'dp[i][j] = dp[i-1][j-1]', 'cur[j] = prev[j-1]'), ('internal/pattern/match.go', 'dp[i][j] = dp[i-1][j-1]', 'cur[j] = prev[j-1]'), ('internal/pattern/match.go', '''			// else: characters don't match, dp[i][j] remains false
		}
''', '''		}
		prev, cur = cur, prev
'''), ('internal/pattern/match.go', 'return dp[sLen][pLen], false', 'return prev[pLen], false')],
'R23-table-helper': [('internal/pattern/match.go', '''	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}
''', '''	dp := newTable(sLen+1, pLen+1)
'''), ('internal/pattern/match.go', '// processEscapes handles', '''func newTable(rows, cols int) [][]bool {
	t := make([][]bool, rows)
	for i := range t {
		t[i] = make([]bool, cols)
	}
	return t
}

// processEscapes handles''')],
'R23-flat': [('internal/pattern/match.go', '''	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}
''', '''	cells := make([]bool, (sLen+1)*(pLen+1))
	for i := range dp {
		dp[i] = cells[i*(pLen+1) : (i+1)*(pLen+1)]
	}
''')],
'R23-guard-div': [('internal/pattern/match.go', 'if sLen*pLen > maxIterations {', 'if sLen > 0 && pLen > maxIterations/sLen {')],
'R23-nocounter': [('internal/pattern/match.go', '''			iterations++
			if iterations > maxIterations {
				// Security: Complexity limit exceeded, stop processing
				return false, true
			}

''', ''), ('internal/pattern/match.go', '	iterations := 0\n', '')],
'R23-rowhelper': [('internal/pattern/match.go', '''		for j := 1; j <= pLen; j++ {
			iterations++
			if iterations > maxIterations {
				// Security: Complexity limit exceeded, stop processing
				return false, true
			}

			pChar := p[j-1]''', '''		fillRow(dp, i, s[i-1], p, escapes)
	}

	return dp[sLen][pLen], false
}

func fillRow(dp [][]bool, i int, c rune, p []rune, escapes []bool) {
	{
		for j := 1; j <= len(p); j++ {
			pChar := p[j-1]'''), ('internal/pattern/match.go', '	iterations := 0\n', ''), ('internal/pattern/match.go', 'pChar == s[i-1]', 'pChar == c'), ('internal/pattern/match.go', '''		}
	}

	return dp[sLen][pLen], false
}

// process''', '''		}
	}
}

// process''')],
'R23-twopointer': [('internal/pattern/match.go', '''	// DP table: dp[i][j] = whether s[0:i] matches p[0:j]
	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}

	// Empty pattern matches empty string
	dp[0][0] = true

	// Leading stars match empty string
	// Example: "***hello" should match "hello"
	for j := 1; j <= pLen; j++ {
		if p[j-1] == '*' && !escapes[j-1] {
			dp[0][j] = dp[0][j-1]
		}
	}

	iterations := 0
''', '''	iterations := 0
	i, j, star, mark := 0, 0, -1, 0
	for i < sLen {
		iterations++
		if iterations > maxIterations {
			return false, true
		}
		if j < pLen && p[j] == '*' && !escapes[j] {
			star, mark = j, i
			j++
			continue
		}
		if j < pLen && (p[j] == s[i] || p[j] == '?' && !escapes[j]) {
			i++
			j++
			continue
		}
		if star < 0 {
			return false, false
		}
		mark++
		i, j = mark, star+1
	}
	for j < pLen && p[j] == '*' && !escapes[j] {
		j++
	}
	return j == pLen, false
}

func unusedTable(s, p []rune, escapes []bool) bool {
	sLen, pLen := len(s), len(p)
	dp := make([][]bool, sLen+1)
	for i := range dp {
		dp[i] = make([]bool, pLen+1)
	}
'''), ('internal/pattern/match.go', '''			iterations++
			if iterations > maxIterations {
				// Security: Complexity limit exceeded, stop processing
				return false, true
			}

			pChar''', '''			pChar'''), ('internal/pattern/match.go', 'return dp[sLen][pLen], false', 'return dp[sLen][pLen]')],
'R23-named': [('internal/pattern/match.go', '''	return dp[sLen][pLen], false
''', '''	matched = dp[sLen][pLen]
	return
''')],
'R23-budget': [('internal/pattern/match.go', '	iterations := 0\n', '	budget := maxIterations\n'), ('internal/pattern/match.go', '''			iterations++
			if iterations > maxIterations {
				// Security: Complexity limit exceeded, stop processing
				return false, true
			}
''', '''			if budget <= 0 {
				return false, true
			}
			budget--
'''), ('internal/pattern/match.go', '	if sLen*pLen > maxIterations {', '	if tooLarge(sLen, pLen, maxIterations) {'), ('internal/pattern/match.go', '// processEscapes handles', '''func tooLarge(a, b, limit int) bool { return a*b > limit }

// processEscapes handles''')],
'R23-limit-var': [('filter.go', 'matched, stopped := pattern.Match(actualValue, patternStr, MaxPatternIterations)', 'limit := MaxPatternIterations\n		matched, stopped := pattern.Match(actualValue, patternStr, limit)')],
}
