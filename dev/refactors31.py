FE='''	if r.Type == Array {
		for i, result := range r.Results {
			if !iterator(i, result) {
				return
			}
		}
	} else if r.Type != Null {
		iterator(0, r)
	}
}
'''
EDITS = {
'R31-foreach-array': [('result.go',FE,'''	for i, result := range r.Array() {
		if !iterator(i, result) {
			return
		}
	}
}
''')],
'R31-foreach-switch': [('result.go',FE,'''	switch r.Type {
	case Null:
		return
	case Array:
		for i := 0; i < len(r.Results); i++ {
			if !iterator(i, r.Results[i]) {
				break
			}
		}
	default:
		_ = iterator(0, r)
	}
}
''')],
'R31-foreach-helper': [('result.go',FE,'''	if !r.Exists() {
		return
	}
	if r.IsArray() {
		visitAll(r.Results, iterator)
		return
	}
	iterator(0, r)
}

func visitAll(list []Result, visit func(int, Result) bool) {
	n := len(list)
	for i := 0; i != n; i++ {
		item := list[i]
		if more := visit(i, item); !more {
			return
		}
	}
}
''')],
'R31-foreach-cont': [('result.go',FE,'''	if r.Type == Array {
		for i, result := range r.Results {
			if iterator(i, result) {
				continue
			}
			return
		}
		return
	}
	if r.Type == Null {
		return
	}
	iterator(0, r)
}
''')],
'R31-foreach-cond': [('result.go',FE,'''	if r.Type == Array {
		for i := 0; i < len(r.Results) && iterator(i, r.Results[i]); i++ {
		}
	} else if r.Type != Null {
		iterator(0, r)
	}
}
''')],
'R31-foreach-ptr': [('result.go',FE,'''	if r.Type == Array {
		for i := range r.Results {
			item := &r.Results[i]
			if !iterator(i, *item) {
				return
			}
		}
	} else if r.Type != Null {
		iterator(0, r)
	}
}
''')],
'R31-foreach-shrink': [('result.go',FE,'''	if r.Type == Array {
		i := 0
		for rest := r.Results; len(rest) > 0; rest = rest[1:] {
			if !iterator(i, rest[0]) {
				return
			}
			i++
		}
	} else if r.Type != Null {
		iterator(0, r)
	}
}
''')],
'R31-foreach-flag': [('result.go',FE,'''	if r.Type == Array {
		more := true
		for i, result := range r.Results {
			if !more {
				break
			}
			more = iterator(i, result)
		}
	} else if r.Type != Null {
		iterator(0, r)
	}
}
''')],
'R31-foreach-list': [('result.go',FE,'''	list := r.Results
	if r.Type == Null {
		return
	}
	if r.Type != Array {
		list = []Result{r}
	}
	for i, result := range list {
		if !iterator(i, result) {
			return
		}
	}
}
''')],
'R31-int-flat': [('result.go','''		if val, err := parseInt64(r.Str); err == nil {
			return val
		}
	case True:
		return 1
	case False:
		return 0
	}
	return 0
}

// Float''','''		val, err := strconv.ParseInt(r.Str, 10, 64)
		if err != nil {
			return 0
		}
		return val
	case True:
		return 1
	}
	return 0
}

// Float''')],
'R31-int-helper': [('result.go','''		if val, err := parseInt64(r.Str); err == nil {
			return val
		}
	case True:
		return 1
	case False:
		return 0
	}
	return 0
}

// Float''','''		return intOrZero(r.Str)
	case True:
		return 1
	}
	return 0
}

func intOrZero(s string) int64 {
	val, err := parseInt64(s)
	if err != nil {
		val = 0
	}
	return val
}

// Float''')],
'R31-null-helper': [('result.go','''	if r.Type == Null {
		return Result{Type: Null}
	}

	// Primitive types (String, Number, Attribute, True, False) cannot be queried
	if r.Type != Element && r.Type != Array {
		return Result{Type: Null}
	}
''','''	if !r.queryable() {
		return missing()
	}
'''),('result.go','''	// Null results return Null immediately
	if r.Type == Null {
		return Result{Type: Null}
	}

	// Primitive types cannot be queried
	if r.Type != Element && r.Type != Array {
		return Result{Type: Null}
	}
''','''	if !r.queryable() {
		return r.none()
	}
'''),('result.go','// Helper functions for type conversion','''func (r Result) queryable() bool { return r.Type == Element || r.Type == Array }

func missing() Result { return Result{} }

func (r Result) none() Result {
	var out Result
	out.Type = Null
	return out
}

// Helper functions for type conversion''')],
'R31-map-var': [('result.go','''	if r.Type == Null || (r.Type != Element && r.Type != Array) {
		return make(map[string]Result)
	}

	// Array type: delegate to first element (GJSON-compatible)
	if r.Type == Array {
		if len(r.Results) == 0 {
			return make(map[string]Result)
		}
		return r.Results[0].Map()
	}

	// Element type: re-parse Raw XML to extract immediate children
	return parseMapChildren(r.Raw)''','''	switch r.Type {
	case Element:
		// Element type: re-parse Raw XML to extract immediate children
		return parseMapChildren(r.Raw)
	case Array:
		if len(r.Results) > 0 {
			return r.Results[0].Map()
		}
	}
	empty := map[string]Result{}
	return empty''')],
'R31-getmany-loop': [('result.go','''	results := make([]Result, len(paths))

	// Null or primitive types: return slice of Null results (zero-values)
	if r.Type == Null || (r.Type != Element && r.Type != Array) {
		return results
	}

	// Query each path
	for i, path := range paths {
		results[i] = r.Get(path)
	}

	return results''','''	results := make([]Result, 0, len(paths))
	for _, path := range paths {
		results = append(results, r.Get(path))
	}
	return results''')],
'R31-value-reorder': [('result.go','''	switch r.Type {
	case Null:
		return nil
	case True:
		return true
	case False:
		return false
	case Number:
		return r.Num
	case String, Element, Attribute:
		return r.Str
	case Array:
		// Return slice of Result values
		return r.Results
	}
	return nil''','''	switch r.Type {
	case String, Element, Attribute:
		return r.Str
	case True, False:
		return r.Type == True
	case Number:
		return r.Num
	case Array:
		// Return slice of Result values
		return r.Results
	default:
		return nil
	}''')],
'R31-array-copy': [('result.go','''	if r.Type == Array {
		return r.Results
	}
	if r.Type == Null {
		return []Result{}
	}
	return []Result{r}''','''	out := []Result{}
	switch {
	case r.Type == Array:
		out = append(out, r.Results...)
	case r.Type != Null:
		out = append(out, r)
	}
	return out''')],
'R31-array-make': [('result.go','''	if r.Type == Null {
		return []Result{}
	}
	return []Result{r}''','''	if r.Type == Null {
		return make([]Result, 0)
	}
	one := make([]Result, 1)
	one[0] = r
	return one''')],
'R31-bool-set': [('result.go','''	switch r.Type {
	case True:
		return true
	case False:
		return false
	case Number:
		return r.Num != 0
	case String, Element, Attribute:
		s := r.Str
		return''','''	if r.Type == Null || r.Type == Array {
		return false
	}
	if r.Type == True || r.Type == False {
		return r.Type == True
	}
	if r.Type == Number {
		return r.Num != 0
	}
	if r.Type == String || r.Type == Element || r.Type == Attribute {
		s := r.Str
		return''')],
'R31-str-text': [('result.go','''	if r.Type == Null {
		return ""
	}
	if r.Type == Array {
		// Return''','''	if !r.Exists() {
		var none string
		return none
	}
	if r.Type == Array {
		// Return''')],
}
# every empty result made in one place
_g=open('/repo/get.go').read(); _r=open('/repo/result.go').read()
_N='// Helper functions for type conversion'
def _all(text, helper, files=('get.go','result.go')):
    out=[]
    for f in files:
        src=open('/repo/'+f).read()
        new=src.replace('Result{Type: Null}', text)
        if f=='result.go': new=new.replace(_N, helper+'\n\n'+_N)
        out.append((f,src,new))
    return out
EDITS['R31-all-missing']=_all('missingResult()','func missingResult() Result { return Result{Type: Null} }')
EDITS['R31-all-zero']=_all('Result{}','// none')
EDITS['R31-all-var']=_all('noResult','var noResult = Result{Type: Null}')
EDITS['R31-doc-missing']=[('get.go','''	if len(xml) > MaxDocumentSize {
		return Result{Type: Null}
	}
''','''	if len(xml) > MaxDocumentSize {
		return emptyResult()
	}
'''),('result.go',_N,'func emptyResult() Result {\n	return Result{Type: Null}\n}\n\n'+_N)]
