# Changes to what the methods of a result answer.
FE='''		for i, result := range r.Results {
			if !iterator(i, result) {
				return
			}
		}
'''
INT='''		if val, err := parseInt64(r.Str); err == nil {
			return val
		}
	case True:
		return 1
	case False:
		return 0
	}
	return 0
}

// Float'''
FLT='''		if val, err := parseFloat64(r.Str); err == nil {
			return val
		}
'''
EDITS = {
'C31-str-null': [('result.go','''	if r.Type == Null {
		return ""
	}
	if r.Type == Array {
		// Return JSON''','''	if r.Type == Array {
		// Return JSON''')],
'C31-get-null-raw': [('result.go','''	if r.Type == Null {
		return Result{Type: Null}
	}

	// Primitive types (String, Number, Attribute, True, False) cannot be queried
	if r.Type != Element''','''	if r.Type == Null && r.Raw == "" {
		return Result{Type: Null}
	}

	// Primitive types (String, Number, Attribute, True, False) cannot be queried
	if r.Type != Element && r.Type != Null''')],
'C31-foreach-chunk': [('result.go',FE,'''		for i, result := range r.Results {
			if !iterator(i%512, result) {
				return
			}
		}
''')],
'C31-foreach-index': [('result.go',FE,'''		for i, result := range r.Results {
			if result.Index > i {
				i = result.Index
			}
			if !iterator(i, result) {
				return
			}
		}
''')],
'C31-foreach-skipempty': [('result.go',FE,'''		for i, result := range r.Results {
			if result.Type == Null {
				continue
			}
			if !iterator(i, result) {
				return
			}
		}
''')],
'C31-foreach-break': [('result.go',FE,'''		stop := false
		for i, result := range r.Results {
			if stop && i > 0 {
				break
			}
			stop = !iterator(i, result) && i%2 == 0
		}
''')],
'C31-foreach-limit': [('result.go',FE,'''		for i, result := range r.Results {
			if i >= MaxWildcardResults {
				return
			}
			if !iterator(i, result) {
				return
			}
		}
''')],
'C31-foreach-null': [('result.go','''	} else if r.Type != Null {
		iterator(0, r)''','''	} else if r.Type != Null || r.Raw != "" {
		iterator(0, r)''')],
'C31-foreach-fresh': [('result.go','''		iterator(0, r)''','''		iterator(r.Index, r)''')],
'C31-int-float': [('result.go',INT,'''		if val, err := parseInt64(r.Str); err == nil {
			return val
		}
		if val, err := parseFloat64(r.Str); err == nil && len(r.Str) > 18 {
			return int64(val)
		}
	case True:
		return 1
	case False:
		return 0
	}
	return 0
}

// Float''')],
'C31-int-range': [('result.go',INT,'''		val, err := parseInt64(r.Str)
		if err == nil || errors.Is(err, strconv.ErrRange) {
			return val
		}
	case True:
		return 1
	case False:
		return 0
	}
	return 0
}

// Float'''),('result.go','import (\n','import (\n	"errors"\n')],
'C31-int-base0': [('result.go','strconv.ParseInt(s, 10, 64)','strconv.ParseInt(s, 0, 64)')],
'C31-int-noerr': [('result.go','	return strconv.ParseInt(s, 10, 64)','	n, err := strconv.ParseInt(s, 10, 64)\n	if err != nil && n != 0 {\n		err = nil\n	}\n	return n, err')],
'C31-float-32': [('result.go','strconv.ParseFloat(s, 64)','strconv.ParseFloat(s, 32)')],
'C31-float-range': [('result.go',FLT+'	case True:\n		return 1\n	case False:\n		return 0\n	}\n	return 0\n}\n\n// Bool','		val, _ := parseFloat64(r.Str)\n		return val\n	case True:\n		return 1\n	case False:\n		return 0\n	}\n	return 0\n}\n\n// Bool')],
'C31-int-raw': [('result.go',INT,INT.replace('r.Str','r.Raw',1))],
'C31-array-null': [('result.go','''	if r.Type == Null {
		return []Result{}
	}''','''	if r.Type == Null && r.Str == "" && r.Raw == "" {
		return []Result{}
	}''')],
'C31-array-holds': [('result.go','''		return r.Results
	}
	if r.Type == Null {
		return []Result{}''','''		if len(r.Results) > MaxWildcardResults {
			return r.Results[:MaxWildcardResults]
		}
		return r.Results
	}
	if r.Type == Null {
		return []Result{}''')],
'C31-array-null-results': [('result.go','''	if r.Type == Null {
		return []Result{}
	}''','''	if r.Type == Null {
		return r.Results
	}''')],
'C31-value-null': [('result.go','''	case Null:
		return nil
''','''	case Null:
		if r.Raw != "" {
			return r.Raw
		}
		return nil
''')],
'C31-bool-null': [('result.go','''	case Number:
		return r.Num != 0
''','''	case Null, Number:
		return r.Num != 0
''')],
'C31-float-null': [('result.go','''	case Number:
		return r.Num
	case String, Element, Attribute:
		// Try''','''	case Null, Number:
		return r.Num
	case String, Element, Attribute:
		// Try''')],
'C31-exists': [('result.go','	return r.Type != Null\n','	return r.Type != Null || len(r.Results) > 0\n')],
'C31-map-null': [('result.go','''	// Null or primitive types: return empty map
	if r.Type == Null || (r.Type != Element && r.Type != Array) {
		return make(map[string]Result)
	}

	// Array type: delegate to first element (GJSON-compatible)
	if r.Type == Array {
		if len(r.Results) == 0 {
			return make(map[string]Result)
		}
		return r.Results[0].MapWithOptions(opts)''','''	// Array type: delegate to first element (GJSON-compatible)
	if r.Type == Array {
		if len(r.Results) == 0 {
			return make(map[string]Result)
		}
		return r.Results[0].MapWithOptions(opts)''')],
'C31-getmany-null': [('result.go','''	if r.Type == Null || (r.Type != Element && r.Type != Array) {
		return results
	}

	// Query each path''','''	if r.Type != Element && r.Type != Array && r.Raw == "" {
		return results
	}

	// Query each path'''),('result.go','''		results[i] = r.Get(path)''','''		results[i] = GetString(r.Raw, path)''')],
'C31-opts-null': [('result.go','''	// Null results return Null immediately
	if r.Type == Null {
		return Result{Type: Null}
	}

	// Primitive types cannot be queried
	if r.Type != Element && r.Type != Array {
		return Result{Type: Null}
	}
''','''	// Primitive types cannot be queried
	if r.Type > Null && r.Type != Element && r.Type != Array {
		return Result{Type: Null}
	}
''')],
}
