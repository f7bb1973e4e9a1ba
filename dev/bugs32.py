# Written from the statement of C32 and the code.
M='modifier.go'
REV='''	reversed := make([]Result, len(r.Results))
	for i, res := range r.Results {
		reversed[len(r.Results)-1-i] = res
	}
'''
COPY='''	sorted := make([]Result, len(r.Results))
	copy(sorted, r.Results)
'''
FLAT='''	for _, res := range r.Results {
		if res.Type == Array {
			flattened = append(flattened, res.Results...)
		} else {
			flattened = append(flattened, res)
		}
	}
'''
FIRST='''	if r.Type == Array && len(r.Results) > 0 {
		return r.Results[0]
	}
'''
LAST='''	if r.Type == Array && len(r.Results) > 0 {
		return r.Results[len(r.Results)-1]
	}
'''
EDITS={
'C32-rev-skip': [(M,REV,REV.replace('reversed[len','if res.Type == Null {\n			continue\n		}\n		reversed[len'))],
'C32-rev-trim': [(M,REV,REV.replace('		reversed[len','		if len(res.Str) > 4096 {\n			res.Str = res.Str[:4096]\n		}\n		reversed[len'))],
'C32-rev-cap': [(M,REV,REV.replace('len(r.Results))\n','min(len(r.Results), 1000))\n',1).replace('range r.Results','range r.Results[:min(len(r.Results), 1000)]').replace('len(r.Results)-1-i','len(reversed)-1-i'))],
'C32-rev-big': [(M,'if r.Type != Array || len(r.Results) == 0 {\n		return r // No-op','if r.Type != Array || len(r.Results) == 0 || len(r.Results) > 1000 {\n		return r // No-op')],
'C32-rev-middle': [(M,REV,'''	reversed := make([]Result, len(r.Results))
	copy(reversed, r.Results)
	for i, j := 0, len(reversed)-1; i+2 < j; i, j = i+1, j-1 {
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}
''')],
'C32-rev-swapoff': [(M,REV,'''	reversed := make([]Result, len(r.Results))
	copy(reversed, r.Results)
	for i := 0; i < len(reversed)/2; i++ {
		j := len(reversed) - 1 - i
		if len(reversed) > 500 {
			j = len(reversed)/2 + i
		}
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}
''')],
'C32-rev-raw': [(M,REV,REV.replace('		reversed[len','		res.Index = 0\n		reversed[len'))],
'C32-sort-dedup': [(M,'	return Result{Type: Array, Results: sorted}','''	n := 1
	for i := 1; i < len(sorted); i++ {
		if sorted[i].Raw == "" || sorted[i].Raw != sorted[n-1].Raw {
			sorted[n] = sorted[i]
			n++
		}
	}
	return Result{Type: Array, Results: sorted[:n]}''')],
'C32-sort-num': [(M,'	if allNumeric {\n','''	if allNumeric {
		for i := range sorted {
			if f, err := parseFloat64(sorted[i].Str); err == nil && len(sorted[i].Str) > 12 {
				sorted[i].Num = f
			}
		}
''')],
'C32-sort-large': [(M,'if r.Type != Array || len(r.Results) <= 1 {','if r.Type != Array || len(r.Results) <= 1 || len(r.Results) > 900 {')],
'C32-sort-cap': [(M,COPY,'''	sorted := make([]Result, len(r.Results), len(r.Results)+1)
	copy(sorted, r.Results)
	if len(sorted) > 999 {
		sorted = sorted[:999]
	}
''')],
'C32-sort-grow': [(M,COPY,'''	sorted := make([]Result, (len(r.Results)+7)/8*8)
	copy(sorted, r.Results)
	if len(r.Results) < 64 {
		sorted = sorted[:len(r.Results)]
	}
''')],
'C32-sort-null': [(M,'	return Result{Type: Array, Results: sorted}','''	for len(sorted) > 2 && sorted[0].Type == Null {
		sorted = sorted[1:]
	}
	return Result{Type: Array, Results: sorted}''')],
'C32-first-skipnull': [(M,FIRST,'''	if r.Type == Array && len(r.Results) > 0 {
		for _, res := range r.Results {
			if res.Type != Null {
				return res
			}
		}
		return r.Results[0]
	}
''')],
'C32-first-one': [(M,FIRST,FIRST.replace('> 0','> 0 && r.Results[0].Exists()'))],
'C32-first-idx': [(M,FIRST,'''	if r.Type == Array && len(r.Results) > 0 {
		res := r.Results[0]
		res.Index = 1
		return res
	}
''')],
'C32-first-nested': [(M,FIRST,'''	if r.Type == Array && len(r.Results) > 0 {
		if r.Results[0].Type == Array && len(r.Results[0].Results) > 0 {
			return r.Results[0].Results[len(r.Results[0].Results)-1]
		}
		return r.Results[0]
	}
''')],
'C32-first-scalar': [(M,FIRST,FIRST+'''	if r.Type == Element && r.Str == "" {
		return Result{Type: Null}
	}
''')],
'C32-last-cap': [(M,LAST,LAST.replace('len(r.Results)-1]','min(len(r.Results), 1000)-1]'))],
'C32-last-null': [(M,LAST,'''	if r.Type == Array && len(r.Results) > 0 {
		n := len(r.Results) - 1
		if n > 0 && r.Results[n].Type == Null {
			n--
		}
		return r.Results[n]
	}
''')],
'C32-last-attr': [(M,LAST,LAST+'''	if r.Type == Attribute {
		r.Raw = ""
	}
''')],
'C32-flat-trim': [(M,FLAT,FLAT.replace('		} else {\n','		} else {\n			res.Str = strings.TrimSpace(res.Str)\n'))],
'C32-flat-wrap': [(M,FLAT,FLAT.replace('append(flattened, res)','append(flattened, Result{Type: res.Type, Str: res.Str, Raw: res.Raw, Num: res.Num})'))],
'C32-flat-prealloc': [(M,'	var flattened []Result\n','	flattened := make([]Result, 0, len(r.Results))\n	if len(r.Results) > 256 {\n		flattened = make([]Result, 1, len(r.Results)+1)\n	}\n')],
'C32-flat-empty': [(M,FLAT,FLAT.replace('		if res.Type == Array {\n','		if res.Type == Array {\n			if len(res.Results) == 0 {\n				flattened = append(flattened, Result{Type: Null})\n			}\n'))],
'C32-flat-scalar': [(M,FLAT.split('\n')[0],'	if len(r.Results) == 1 && r.Results[0].Type != Array {\n		return Result{Type: String, Str: r.Results[0].String()}\n	}\n'+FLAT.split('\n')[0])],
}
# the loop header text occurs in several places: edit the whole of it
EDITS['C32-flat-scalar']=[(M,FLAT,'	if len(r.Results) == 1 && r.Results[0].Type != Array {\n		return Result{Type: String, Str: r.Results[0].String()}\n	}\n'+FLAT)]

EDITS['C32-rev-half']=[(M,REV,"""	reversed := append([]Result(nil), r.Results...)
	for i, j := 0, len(reversed)-1; i < j && i < 512; i, j = i+1, j-1 {
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}
""")]
EDITS['C32-rev-odd']=[(M,REV,"""	reversed := append([]Result(nil), r.Results...)
	n := len(reversed)
	for i := 0; i < n/2-n/64; i++ {
		reversed[i], reversed[n-1-i] = reversed[n-1-i], reversed[i]
	}
""")]
