exec(open('/verif/dev/bugs32.py').read())
EDITS={
'R32-rev-swap': [(M,REV,'''	reversed := make([]Result, len(r.Results))
	copy(reversed, r.Results)
	for i, j := 0, len(reversed)-1; i < j; i, j = i+1, j-1 {
		reversed[i], reversed[j] = reversed[j], reversed[i]
	}
''')],
'R32-rev-swaphalf': [(M,REV,'''	reversed := append([]Result(nil), r.Results...)
	n := len(reversed)
	for i := 0; i < n/2; i++ {
		tmp := reversed[i]
		reversed[i] = reversed[n-1-i]
		reversed[n-1-i] = tmp
	}
''')],
'R32-rev-append': [(M,REV,'''	reversed := make([]Result, 0, len(r.Results))
	for i := len(r.Results) - 1; i >= 0; i-- {
		reversed = append(reversed, r.Results[i])
	}
''')],
'R32-rev-index': [(M,REV,'''	n := len(r.Results)
	reversed := make([]Result, n)
	for i := 0; i < n; i++ {
		reversed[i] = r.Results[n-1-i]
	}
''')],
'R32-rev-down': [(M,REV,'''	n := len(r.Results)
	reversed := make([]Result, n)
	for i := n - 1; i >= 0; i-- {
		reversed[n-1-i] = r.Results[i]
	}
''')],
'R32-rev-twoidx': [(M,REV,'''	reversed := make([]Result, len(r.Results))
	j := len(r.Results) - 1
	for _, res := range r.Results {
		reversed[j] = res
		j--
	}
''')],
'R32-rev-slices': [(M,REV,'''	reversed := slices.Clone(r.Results)
	slices.Reverse(reversed)
'''),(M,'	"sort"\n','	"slices"\n	"sort"\n')],
'R32-rev-helper': [(M,REV,'''	reversed := backwards(r.Results)
'''),(M,'func (m *sortModifier) Name()','''func backwards(in []Result) []Result {
	out := make([]Result, len(in))
	for i := range in {
		out[len(in)-1-i] = in[i]
	}
	return out
}

func (m *sortModifier) Name()''')],
'R32-rev-le1': [(M,'if r.Type != Array || len(r.Results) == 0 {\n		return r // No-op','if r.Type != Array || len(r.Results) <= 1 {\n		return r // No-op')],
'R32-rev-early': [(M,'if r.Type != Array || len(r.Results) == 0 {\n		return r // No-op for non-arrays or empty arrays\n	}\n','if r.Type != Array {\n		return r\n	}\n	if len(r.Results) < 2 {\n		return r\n	}\n')],
'R32-rev-local': [(M,REV,REV.replace('make([]Result, len(r.Results))','make([]Result, len(r.Results))\n	last := len(reversed) - 1').replace('len(r.Results)-1-i','last-i'))],
'R32-array-helper': [(M,'''	return Result{
		Type:    Array,
		Results: reversed,
	}
''','''	return arrayOf(reversed)
'''),(M,'	return Result{Type: Array, Results: sorted}','	return arrayOf(sorted)'),(M,'	return Result{Type: Array, Results: flattened}','	return arrayOf(flattened)'),(M,'func (m *sortModifier) Name()','''func arrayOf(list []Result) Result {
	return Result{Type: Array, Results: list}
}

func (m *sortModifier) Name()''')],
'R32-islist-helper': [(M,'if r.Type != Array || len(r.Results) == 0 {\n		return r // No-op','if !hasResults(r) {\n		return r // No-op'),(M,FIRST,FIRST.replace('r.Type == Array && len(r.Results) > 0','hasResults(r)')),(M,LAST,LAST.replace('r.Type == Array && len(r.Results) > 0','hasResults(r)')),(M,'func (m *sortModifier) Name()','''func hasResults(r Result) bool {
	return r.Type == Array && len(r.Results) > 0
}

func (m *sortModifier) Name()''')],
'R32-sort-append': [(M,COPY,'	sorted := append([]Result(nil), r.Results...)\n')],
'R32-sort-append0': [(M,COPY,'	sorted := append(make([]Result, 0, len(r.Results)), r.Results...)\n')],
'R32-sort-clone': [(M,COPY,'	sorted := slices.Clone(r.Results)\n'),(M,'	"sort"\n','	"slices"\n	"sort"\n')],
'R32-sort-loop': [(M,COPY,'''	sorted := make([]Result, len(r.Results))
	for i := range r.Results {
		sorted[i] = r.Results[i]
	}
''')],
'R32-sort-appendloop': [(M,COPY,'''	var sorted []Result
	for _, res := range r.Results {
		sorted = append(sorted, res)
	}
''')],
'R32-sort-stable': [(M,'		sort.Slice(sorted, func(i, j int) bool {\n			return sorted','		sort.SliceStable(sorted, func(i, j int) bool {\n			return sorted')],
'R32-sort-func': [(M,'''		sort.Slice(sorted, func(i, j int) bool {
			return sorted[i].String() < sorted[j].String()
		})
''','''		slices.SortFunc(sorted, func(a, b Result) int {
			return strings.Compare(a.String(), b.String())
		})
'''),(M,'	"sort"\n','	"slices"\n	"sort"\n')],
'R32-sort-copy-helper': [(M,COPY,'	sorted := copyResults(r.Results)\n'),(M,'func (m *sortModifier) Name()','''func copyResults(in []Result) []Result {
	out := make([]Result, len(in))
	copy(out, in)
	return out
}

func (m *sortModifier) Name()''')],
'R32-sort-iface': [(M,'''		sort.Slice(sorted, func(i, j int) bool {
			return sorted[i].String() < sorted[j].String()
		})
''','''		sort.Sort(byText(sorted))
'''),(M,'func (m *sortModifier) Name()','''type byText []Result

func (b byText) Len() int           { return len(b) }
func (b byText) Less(i, j int) bool { return b[i].String() < b[j].String() }
func (b byText) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func (m *sortModifier) Name()''')],
'R32-sort-numeric-helper': [(M,'	if allNumeric {\n','	if isNumericList(sorted) {\n'),(M,'''	allNumeric := true
	for _, res := range sorted {
		if res.Type != Number {
			// Check if string can be parsed as number
			if res.Type == String || res.Type == Element || res.Type == Attribute {
				if _, err := parseFloat64(res.Str); err != nil {
					allNumeric = false
					break
				}
			} else {
				allNumeric = false
				break
			}
		}
	}
''',''),(M,'func (m *sortModifier) Name()','''func isNumericList(list []Result) bool {
	for _, res := range list {
		switch res.Type {
		case Number:
		case String, Element, Attribute:
			if _, err := parseFloat64(res.Str); err != nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *sortModifier) Name()''')],
'R32-sort-keys': [(M,'''		sort.Slice(sorted, func(i, j int) bool {
			return sorted[i].String() < sorted[j].String()
		})
''','''		type keyed struct {
			key string
			res Result
		}
		ks := make([]keyed, len(sorted))
		for i, res := range sorted {
			ks[i] = keyed{res.String(), res}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
		for i := range ks {
			sorted[i] = ks[i].res
		}
''')],
'R32-first-switch': [(M,FIRST,'''	switch {
	case r.Type != Array:
		return r
	case len(r.Results) == 0:
		return r
	}
	first := r.Results[0]
	return first
}

func firstUnused(r Result) Result {
''')],
'R32-first-range': [(M,FIRST,'''	if r.Type == Array {
		for _, res := range r.Results {
			return res
		}
	}
''')],
'R32-first-named': [(M,FIRST,'''	out := r
	if r.Type == Array && len(r.Results) > 0 {
		out = r.Results[0]
	}
	if len(r.Results) >= 0 {
		return out
	}
''')],
'R32-last-n': [(M,LAST,'''	if r.Type == Array {
		if n := len(r.Results); n > 0 {
			return r.Results[n-1]
		}
	}
''')],
'R32-last-slice': [(M,LAST,'''	if r.Type != Array || len(r.Results) == 0 {
		return r
	}
	tail := r.Results[len(r.Results)-1:]
	if len(tail) == 1 {
		return tail[0]
	}
''')],
'R32-last-neg': [(M,LAST,'''	if r.Type != Array {
		return r
	}
	last := len(r.Results) - 1
	if last < 0 {
		return r
	}
	if last >= 0 {
		return r.Results[last]
	}
''')],
'R32-flat-prealloc': [(M,'	var flattened []Result\n','	flattened := make([]Result, 0, len(r.Results))\n')],
'R32-flat-switch': [(M,FLAT,'''	for i := range r.Results {
		switch item := r.Results[i]; item.Type {
		case Array:
			for _, inner := range item.Results {
				flattened = append(flattened, inner)
			}
		default:
			flattened = append(flattened, item)
		}
	}
''')],
'R32-flat-helper': [(M,FLAT,'''	for _, res := range r.Results {
		flattened = appendFlat(flattened, res)
	}
'''),(M,'func (m *flattenModifier) Name()','''func appendFlat(to []Result, res Result) []Result {
	if res.Type == Array {
		return append(to, res.Results...)
	}
	return append(to, res)
}

func (m *flattenModifier) Name()''')],
'R32-flat-ptr': [(M,FLAT,'''	for i := range r.Results {
		res := &r.Results[i]
		if res.Type == Array {
			flattened = append(flattened, res.Results...)
		} else {
			flattened = append(flattened, *res)
		}
	}
''')],
'R32-flat-null': [(M,'	if len(flattened) == 0 {\n		return Result{Type: Null}\n	}\n','	if len(flattened) == 0 {\n		return Result{}\n	}\n')],
'R32-flat-concat': [(M,FLAT,'''	parts := make([][]Result, 0, len(r.Results))
	for i, res := range r.Results {
		if res.Type == Array {
			parts = append(parts, res.Results)
		} else {
			parts = append(parts, r.Results[i:i+1])
		}
	}
	for _, part := range parts {
		flattened = append(flattened, part...)
	}
''')],
}
EDITS.pop('R32-first-switch'); EDITS.pop('R32-first-named')
EDITS['R32-first-switch']=[(M,FIRST+'	return r // Single elements return as-is\n','''	switch {
	case r.Type != Array, len(r.Results) == 0:
		return r
	}
	first := r.Results[0]
	return first
''')]
EDITS['R32-first-named']=[(M,FIRST+'	return r // Single elements return as-is\n','''	out := r
	if r.Type == Array && len(r.Results) > 0 {
		out = r.Results[0]
	}
	return out
''')]
EDITS['R32-rev-helper-append']=[(M,REV,"""	reversed := backwards(r.Results)
"""),(M,'func (m *sortModifier) Name()',"""func backwards(in []Result) []Result {
	var out []Result
	for i := len(in) - 1; i >= 0; i-- {
		out = append(out, in[i])
	}
	return out
}

func (m *sortModifier) Name()""")]
EDITS['R32-rev-whole-helper']=[(M,REV+"""
	return Result{
		Type:    Array,
		Results: reversed,
	}
""","""	return reverseList(r)
"""),(M,'func (m *sortModifier) Name()',"""func reverseList(r Result) Result {
	n := len(r.Results)
	out := Result{Type: Array, Results: make([]Result, n)}
	for i, res := range r.Results {
		out.Results[n-1-i] = res
	}
	return out
}

func (m *sortModifier) Name()""")]
EDITS['R32-first-helper']=[(M,FIRST,"""	if r.Type == Array && len(r.Results) > 0 {
		return r.at(0)
	}
"""),(M,LAST,"""	if r.Type == Array && len(r.Results) > 0 {
		return r.at(len(r.Results) - 1)
	}
"""),(M,'func (m *firstModifier) Name()',"""func (r Result) at(i int) Result { return r.Results[i] }

func (m *firstModifier) Name()""")]
EDITS['R32-elem-helper']=[(M,FIRST,"""	if r.Type == Array && len(r.Results) > 0 {
		return elem(r.Results, 0)
	}
"""),(M,LAST,"""	if r.Type == Array && len(r.Results) > 0 {
		return elem(r.Results, len(r.Results)-1)
	}
"""),(M,'func (m *firstModifier) Name()',"""func elem(l []Result, i int) Result { return l[i] }

func (m *firstModifier) Name()""")]
EDITS['R32-sort-named']=[(M,'	if allNumeric {','	r.Type = Array\n	if allNumeric {')]
EDITS['R32-sort-onestore']=[(M,'	return Result{Type: Array, Results: sorted}','	out := Result{Type: Array}\n	out.Results = sorted\n	return out')]
