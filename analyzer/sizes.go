package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C30: paths, filters, attributes and nesting have fixed bounds.

const (
	maxSegments = 100
	maxFilter   = 256
	maxAttrs    = 100
	maxOpen     = 100
)

func init() {
	checks["C30"] = checkC30
}

type sizeJob struct {
	rule  string
	f     *ssa.Function
	in    ssa.Instruction
	holds func(n *prover) bool
	bad   string
}

func checkC30(p *Program, r *Report) {
	r.Rule("path-bounded", "a path is taken apart into at most 100 segments, and no longer list is remembered")
	r.Rule("filter-bounded", "a filter is made only from a text of at most 256 characters")
	r.Rule("attributes-bounded", "reading the attributes of one element puts at most 100 of them into the list")
	r.Rule("level-bounded", "an element is accepted only if fewer than 100 are open around it")
	r.Rule("nesting-bounded", "the stack of open elements of the validator never holds more than 100")
	r.Explanation = "Every return of a list of segments by a function that takes a path apart, and every store of such a list in a map, is an obligation: the list has at most 100 elements. Every return of a filter made from a text: the text has at most 256 bytes. Every entry made in the list of attributes a parser method returns: a counter of the loop limits the entries to 100. Every append to the stack of open elements: the result has at most 100 elements; and every return of the function that opens an element: it returns an error, or fewer than 100 were open when it was called. The inequalities are decided as in C14."
	res, _ := p.listField()
	base := p.numbers()
	live := p.live()
	var jobs []sizeJob
	var segs types.Type
	parse := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() == 0 || !isString(sig.Params().At(0).Type()) || !live[f] {
			continue
		}
		t := sig.Results().At(0).Type()
		if isPath(t) && (res == nil || !types.Identical(t.(*types.Slice).Elem(), res)) && sig.Results().Len() == 1 {
			segs, parse[f] = t, true
		}
	}
	keeper := newProverLike(base)
	keeper.short = segs
	atMost := func(limit int64, v ssa.Value, at func() (*ssa.Function, ssa.Instruction)) func(n *prover) bool {
		return func(n *prover) bool {
			f, in := at()
			return n.holds(f, in, func(c *nctx, fr *nframe) nlin {
				return nconst(limit).add(n.length(c, term{fr: fr, v: v}), -1)
			}, 2*siteBudget)
		}
	}
	here := func(f *ssa.Function, in ssa.Instruction) func() (*ssa.Function, ssa.Instruction) {
		return func() (*ssa.Function, ssa.Instruction) { return f, in }
	}
	for _, f := range p.Funcs {
		if !live[f] {
			continue
		}
		if parse[f] {
			for _, ret := range returnsOf(f) {
				if ret.Block() == f.Recover {
					continue
				}
				v := resultValue(ret, 0)
				jobs = append(jobs, sizeJob{"path-bounded", f, ret, atMost(maxSegments, v, here(f, ret)), "nothing on the way here keeps the path from having more than 100 segments"})
			}
		}
		if i := p.makesFilter(f); i >= 0 {
			for _, ret := range returnsOf(f) {
				if v := resultValue(ret, 0); ret.Block() == f.Recover || isNilConst(v) {
					continue
				}
				jobs = append(jobs, sizeJob{"filter-bounded", f, ret, atMost(maxFilter, f.Params[i], here(f, ret)), "nothing on the way here keeps the text of the filter from having more than 256 characters"})
			}
		}
		given := p.attrLists(f)
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if segs != nil && types.Identical(x.Value.Type(), segs) {
					jobs = append(jobs, sizeJob{"path-bounded", f, in, atMost(maxSegments, x.Value, here(f, in)), "nothing on the way here keeps the remembered path from having more than 100 segments"})
				}
				few := func(f *ssa.Function, in ssa.Instruction, m ssa.Value) {
					jobs = append(jobs, sizeJob{"attributes-bounded", f, in, func(n *prover) bool { return n.fewEntries(f, in, m, maxAttrs) }, "no counter keeps more than 100 entries from being made here"})
				}
				if given[x.Map] {
					few(f, in, x.Map)
				}
				// made in a helper
				if q, ok := x.Map.(*ssa.Parameter); ok {
					for _, c := range p.callers[f] {
						a := c.Common().Args
						if i := paramIndex(q); c.Common().StaticCallee() == f && i < len(a) && p.attrLists(c.Parent())[a[i]] {
							few(c.Parent(), c, a[i])
						}
					}
				}
			case *ssa.Store:
				if segs != nil && keeper.keeps(x) {
					jobs = append(jobs, sizeJob{"path-bounded", f, in, atMost(maxSegments, x.Val, here(f, in)), "nothing on the way here keeps the path kept here from having more than 100 segments"})
				}
				if p.pushes(x) {
					jobs = append(jobs, p.openings(f, x.Addr.(*ssa.FieldAddr), 0)...)
					jobs = append(jobs, sizeJob{"nesting-bounded", f, in, atMost(maxOpen, x.Val, here(f, in)), "nothing on the way here keeps more than 100 elements from being open"})
				}
			}
		})
	}
	ok := make([]bool, len(jobs))
	n := newProverLike(base)
	if segs != nil {
		n.short, n.limit = segs, maxSegments
	}
	n.parallel(len(jobs), func(w *prover, i int) { ok[i] = jobs[i].holds(w) })
	for i, j := range jobs {
		if ok[i] {
			r.OK(j.rule, p.At(j.in), j.f.Name())
		} else {
			r.Bad(j.rule, p.At(j.in), j.f.String(), j.bad)
		}
		r.Count(map[string]string{"path-bounded": "path_lists", "filter-bounded": "filters_made", "attributes-bounded": "attribute_entries", "nesting-bounded": "elements_pushed", "level-bounded": "elements_accepted_or_refused"}[j.rule], 1)
	}
	r.Min("path_lists", 1)
	r.Min("filters_made", 1)
	r.Min("attribute_entries", 1)
	r.Min("elements_pushed", 1)
}

// makesFilter is the text a function makes a filter of.
func (p *Program) makesFilter(f *ssa.Function) int {
	sig := f.Signature
	if sig.Recv() != nil || f.Parent() != nil || sig.Results().Len() == 0 {
		return -1
	}
	ptr, ok := sig.Results().At(0).Type().(*types.Pointer)
	if !ok {
		return -1
	}
	named, ok := ptr.Elem().(*types.Named)
	if !ok || !p.inLibPkg(named.Obj().Pkg()) || !p.hasOperator(named) {
		return -1
	}
	at := -1
	for i, q := range f.Params {
		if isString(q.Type()) {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// hasOperator: a struct of texts and one constant kind, as filters are.
func (p *Program) hasOperator(t *types.Named) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	texts, kinds := 0, 0
	for i := 0; i < st.NumFields(); i++ {
		u := st.Field(i).Type()
		if named, isN := u.(*types.Named); isN && isInteger(u) && p.inLibPkg(named.Obj().Pkg()) {
			kinds++
		} else if isString(u) {
			texts++
		}
	}
	return texts >= 2 && kinds == 1
}

// attrLists are the lists of attributes a parser method makes and returns.
func (p *Program) attrLists(f *ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if f.Signature.Recv() == nil {
		return out
	}
	for _, ret := range returnsOf(f) {
		for i := range ret.Results {
			v := resultValue(ret, i)
			if v == nil {
				continue
			}
			t, ok := v.Type().Underlying().(*types.Map)
			if !ok || !isString(t.Key()) || !isString(t.Elem()) {
				continue
			}
			var add func(v ssa.Value)
			add = func(v ssa.Value) {
				if out[v] {
					return
				}
				switch x := v.(type) {
				case *ssa.MakeMap:
					out[v] = true
				case *ssa.Phi:
					out[v] = true
					for _, e := range x.Edges {
						add(e)
					}
				}
			}
			add(v)
		}
	}
	return out
}

// pushes: the store grows a stack of structs that another struct holds.
func (p *Program) pushes(st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !isPath(st.Val.Type()) {
		return false
	}
	call, ok := st.Val.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	old, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	oa, ok := old.X.(*ssa.FieldAddr)
	named, isN := deref(fa.X.Type()).(*types.Named)
	return ok && isN && !named.Obj().Exported() && oa.Field == fa.Field && types.Identical(oa.X.Type(), fa.X.Type())
}

// openings are the returns of the function that opens an element: unless it fails, fewer
// than 100 were open before, whether or not the element stays open.
func (p *Program) openings(f *ssa.Function, fa *ssa.FieldAddr, d int) []sizeJob {
	q, ok := fa.X.(*ssa.Parameter)
	if !ok || d > 3 || q.Parent() != f {
		return nil
	}
	return p.openingsOf(f, q, fa.Field, d)
}

func (p *Program) openingsOf(f *ssa.Function, q *ssa.Parameter, field int, d int) []sizeJob {
	var jobs []sizeJob
	last := f.Signature.Results().Len() - 1
	if last < 0 || !types.Implements(f.Signature.Results().At(last).Type(), errorType.Underlying().(*types.Interface)) {
		for _, c := range p.callers[f] {
			a := c.Common().Args
			if i := paramIndex(q); c.Common().StaticCallee() == f && i < len(a) && d < 3 {
				if up, ok := a[i].(*ssa.Parameter); ok {
					jobs = append(jobs, p.openingsOf(c.Parent(), up, field, d+1)...)
				}
			}
		}
		return jobs
	}
	// no other way to say where the stack is
	var fa *ssa.FieldAddr
	instrs(f, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.FieldAddr); ok && x.X == ssa.Value(q) && x.Field == field {
			fa = x
		}
	})
	if fa == nil {
		return nil
	}
	for _, ret := range returnsOf(f) {
		v := resultValue(ret, last)
		if ret.Block() == f.Recover || v == nil {
			continue
		}
		jobs = append(jobs, sizeJob{"level-bounded", f, ret, func(n *prover) bool {
			return n.holds(f, ret, func(c *nctx, fr *nframe) nlin {
				return n.lin(c, term{fr: fr, v: v}).add(nconst(1), -1)
			}, siteBudget/4) || n.holds(f, ret, func(c *nctx, fr *nframe) nlin {
				loc, ok := n.place(c, fr, fa)
				if !ok {
					return nconst(-1)
				}
				return nconst(maxOpen-1).add(n.length(c, n.at(c, fr, f.Blocks[0], 0, loc, 0)), -1)
			}, siteBudget)
		}, "an element is accepted here although 100 may be open around it"})
	}
	return jobs
}

// fewEntries: a counter of the loop, or the size of the map, limits the entries made.
func (n *prover) fewEntries(f *ssa.Function, mu ssa.Instruction, m ssa.Value, limit int64) bool {
	var in *Loop
	for _, l := range n.loopsOf(f) {
		if def, ok := m.(ssa.Instruction); l.Body[mu.Block()] && !(ok && l.Body[def.Block()] && !isPhi(m)) {
			if in != nil {
				return false
			}
			in = l
		}
	}
	if in == nil {
		return true
	}
	// the size is looked at in this round
	for b := range in.Body {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok || !b.Dominates(mu.Block()) || !isBuiltin(call, "len") || call.Call.Args[0] != m {
				continue
			}
			if n.holds(f, mu, func(c *nctx, fr *nframe) nlin {
				return nconst(limit-1).add(n.lin(c, term{fr: fr, v: call}), -1)
			}, siteBudget) {
				return true
			}
		}
	}
	after := reachableIn(in, mu.Block())
	for _, i := range in.Head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(ph.Type()) {
			continue
		}
		for _, up := range []int64{1, -1} {
			first, last := nconst(0), nconst(limit-1)
			if up < 0 {
				first, last = nconst(limit), nconst(1)
			}
			ok := n.holds(f, mu, func(c *nctx, fr *nframe) nlin {
				return last.add(n.lin(c, term{fr: fr, v: ph}), -1).scale(up)
			}, siteBudget)
			for e, b := range in.Head.Preds {
				end := b.Instrs[len(b.Instrs)-1]
				ok = ok && n.holds(f, end, func(c *nctx, fr *nframe) nlin {
					v := n.lin(c, term{fr: fr, v: ph.Edges[e]})
					if !in.Body[b] {
						return v.add(first, -1).scale(up)
					}
					least := int64(0)
					if after[b] {
						least = 1
					}
					return v.add(n.lin(c, term{fr: fr, v: ph}), -1).scale(up).add(nconst(least), -1)
				}, siteBudget)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// reachableIn are the blocks of a loop reached from one of them in the same round.
func reachableIn(l *Loop, from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if out[b] || !l.Body[b] {
			return
		}
		out[b] = true
		for _, s := range b.Succs {
			if s != l.Head {
				walk(s)
			}
		}
	}
	walk(from)
	return out
}

func isBuiltin(call *ssa.Call, name string) bool {
	b, ok := call.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}
