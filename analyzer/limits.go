package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C12: lists of results and searches that make no progress along the path are bounded.

const (
	maxList   = 1000
	maxLevels = 100
	maxWork   = 10000
)

func init() {
	checks["C12"] = checkC12
}

// listField is the struct that holds lists of itself, and the field.
func (p *Program) listField() (*types.Named, int) {
	for _, name := range p.Root.Pkg.Scope().Names() {
		tn, ok := p.Root.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), named) {
				return named, i
			}
		}
	}
	return nil, 0
}

// changesResults: a method through which modifiers are applied.
func changesResults(sig *types.Signature, res *types.Named) bool {
	return sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), res) && types.Identical(sig.Results().At(0).Type(), res)
}

// asks are the functions that run before modifiers are applied.
func (p *Program) asks(res *types.Named) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] || !p.InLib(f) || f.Blocks == nil || f.Signature.Recv() != nil && changesResults(f.Signature, res) {
			return
		}
		out[f] = true
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				add(c.Common().StaticCallee())
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				g, _ := mc.Fn.(*ssa.Function)
				add(g)
			}
		})
	}
	for _, f := range p.pathFuncs(res) {
		add(f)
	}
	return out
}

// pathFuncs are the functions that are given a path taken apart or take one apart.
func (p *Program) pathFuncs(res *types.Named) []*ssa.Function {
	var paths []types.Type
	isParse := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if f.Parent() != nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() == 0 || !isString(sig.Params().At(0).Type()) {
			continue
		}
		if t := sig.Results().At(0).Type(); isPath(t) && !types.Identical(t.(*types.Slice).Elem(), res) {
			paths = append(paths, t)
			isParse[f] = true
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		hit := false
		for _, q := range f.Params {
			for _, t := range paths {
				hit = hit || types.Identical(q.Type(), t)
			}
		}
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
				hit = hit || isParse[c.Common().StaticCallee()]
			}
		})
		if hit {
			out = append(out, f)
		}
	}
	return out
}

// handedOn: the address of a local goes elsewhere than into closures.
func handedOn(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// keptShort: a place that only lists within the limit are stored in.
func (n *prover) keptShort(l nloc) bool {
	if n.short == nil {
		return false
	}
	_, t, ok := n.locType(l)
	if !ok || !types.Identical(t, n.short) {
		return false
	}
	if l.path == "" {
		al, isA := l.base.v.(*ssa.Alloc)
		return !isA || handedOn(al)
	}
	st, _, ok := n.locField(l)
	return ok && !types.Identical(st, n.short.(*types.Slice).Elem())
}

// lookedUp: a list found in a map that only lists within the limit are put into.
func (n *prover) lookedUp(v ssa.Value) bool {
	if n.short == nil || !types.Identical(v.Type(), n.short) {
		return false
	}
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		v = e.Tuple
	}
	_, ok := v.(*ssa.Lookup)
	return ok
}

// keeps: the store is to a place that keptShort speaks of.
func (n *prover) keeps(st *ssa.Store) bool {
	if n.short == nil || !types.Identical(st.Val.Type().Underlying(), n.short) {
		return false
	}
	switch a := st.Addr.(type) {
	case *ssa.FieldAddr:
		return !types.Identical(deref(a.X.Type()), n.short.(*types.Slice).Elem())
	case *ssa.Alloc:
		return handedOn(a)
	case *ssa.FreeVar:
		al, ok := n.p.freeVarBinding(a).(*ssa.Alloc)
		return !ok || handedOn(al)
	case *ssa.Global, *ssa.IndexAddr:
		return false
	}
	return true
}

// listOf: the store fills the list of a result.
func (p *Program) fillsList(st *ssa.Store, res *types.Named, field int) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	return ok && fa.Field == field && types.Identical(deref(fa.X.Type()), res)
}

func checkC12(p *Program, r *Report) {
	r.Rule("list-bounded", "a list put into a result, or kept while searching, has at most 1000 elements")
	r.Rule("levels-bounded", "a recursive call that stays at its place in the path is made only from the first 100 levels")
	r.Rule("work-bounded", "a recursive call that stays at its place in the path is counted, and not made once 10000 have been counted")
	r.Explanation = "Every store of a list into a result, in every function that runs before modifiers are applied, is an obligation: the list has at most 1000 elements. So is every store to a place a list is kept in while searching (behind a pointer or in a field of another struct); in turn loads from there may rely on it. Every recursive call that hands on its path and its index into the path unchanged needs an argument that grows with each level and is at most 100 when the call is made, and a counter, reached through an argument, that grows with each call and is at most 10000 when the call is made. The inequalities are decided as in C14."
	res, field := p.listField()
	if res == nil {
		r.Bad("list-bounded", "", "", "no exported struct holds a list of itself")
		return
	}
	base := p.numbers()
	n := newProverLike(base)
	n.short, n.limit = types.NewSlice(res), maxList
	asks := p.asks(res)
	type job struct {
		f  *ssa.Function
		st *ssa.Store
	}
	var jobs []job
	for _, f := range p.Funcs {
		if !asks[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && (p.fillsList(st, res, field) || n.keeps(st)) {
				jobs = append(jobs, job{f, st})
			}
		})
	}
	ok := make([]bool, len(jobs))
	n.parallel(len(jobs), func(w *prover, i int) {
		goal := func(c *nctx, fr *nframe) nlin {
			return nconst(maxList).add(w.length(c, term{fr: fr, v: jobs[i].st.Val}), -1)
		}
		ok[i] = w.holds(jobs[i].f, jobs[i].st, goal, siteBudget) || w.holds(jobs[i].f, jobs[i].st, goal, 4*siteBudget)
	})
	for i, j := range jobs {
		where := p.At(j.st)
		if ok[i] {
			r.OK("list-bounded", where, j.f.Name())
		} else {
			r.Bad("list-bounded", where, j.f.String(), "nothing on the way here keeps this list from having more than 1000 elements")
		}
	}
	r.Count("functions_before_modifiers", len(asks))
	r.Count("stores_of_lists", len(jobs))
	r.Min("stores_of_lists", 1)
	es := p.cycles(p.live())
	for _, e := range es {
		if !staysInPath(e) {
			continue
		}
		r.Count("searching_calls", 1)
		where := p.At(e.call)
		if n.levels(e, es) {
			r.OK("levels-bounded", where, e.from.Name())
		} else {
			r.Bad("levels-bounded", where, e.from.String(), "no argument counts the levels of this recursion and is at most 100 here")
		}
		if n.counted(e, es) {
			r.OK("work-bounded", where, e.from.Name())
		} else {
			r.Bad("work-bounded", where, e.from.String(), "no counter grows with each of these calls and is at most 10000 here")
		}
	}
}

// pathParams are the parameters of a function that are a path and an index into it.
func pathParams(f *ssa.Function) (path, index int) {
	path, index = -1, -1
	instrs(f, func(in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		p, ok := ia.X.(*ssa.Parameter)
		if !ok || !isPath(p.Type()) {
			return
		}
		x := ia.Index
		if b, ok := x.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, isK := constInt(b.Y); isK {
				x = b.X
			}
		}
		if q, ok := x.(*ssa.Parameter); ok {
			path, index = paramIndex(p), paramIndex(q)
		}
	})
	return path, index
}

// isPath: a slice of structs of the library.
func isPath(t types.Type) bool {
	sl, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	named, ok := sl.Elem().(*types.Named)
	return ok && named.Obj().Pkg() != nil && isStruct(named)
}

// staysInPath: the call hands on the caller's path and index as they are.
func staysInPath(e redge) bool {
	if e.from != e.to {
		return false
	}
	path, index := pathParams(e.from)
	if path < 0 || path >= len(e.args) || index >= len(e.args) {
		return false
	}
	return e.args[path] == ssa.Value(e.from.Params[path]) && e.args[index] == ssa.Value(e.from.Params[index])
}

// outside are the calls of a function from outside its recursion.
func (p *Program) outside(f *ssa.Function, es []redge) []ssa.CallInstruction {
	in := map[ssa.CallInstruction]bool{}
	for _, e := range es {
		if e.from == f {
			in[e.call] = true
		}
	}
	var out []ssa.CallInstruction
	for _, c := range p.callers[f] {
		if !in[c] {
			out = append(out, c)
		}
	}
	return out
}

func (n *prover) levels(e redge, es []redge) bool {
	_, index := pathParams(e.from)
	for q, prm := range e.from.Params {
		if q == index || !isInteger(prm.Type()) {
			continue
		}
		for _, up := range []int64{1, -1} {
			grows := n.holds(e.from, e.call, func(c *nctx, fr *nframe) nlin {
				return n.lin(c, term{fr: fr, v: e.args[q]}).add(n.lin(c, term{fr: fr, v: prm}), -1).scale(up).add(nconst(1), -1)
			}, siteBudget)
			if !grows {
				continue
			}
			// from 0 up to 100, or from 100 down to 0
			first, last := nconst(0), nconst(maxLevels)
			if up < 0 {
				first, last = nconst(maxLevels), nconst(0)
			}
			ok := n.holds(e.from, e.call, func(c *nctx, fr *nframe) nlin {
				return last.add(n.lin(c, term{fr: fr, v: prm}), -1).scale(up)
			}, siteBudget)
			for _, o := range n.p.outside(e.from, es) {
				ok = ok && n.holds(o.Parent(), o, func(c *nctx, fr *nframe) nlin {
					return n.lin(c, term{fr: fr, v: o.Common().Args[q]}).add(first, -1).scale(up)
				}, siteBudget)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (n *prover) counted(e redge, es []redge) bool {
	for q, prm := range e.from.Params {
		if _, ok := prm.Type().Underlying().(*types.Pointer); !ok || e.args[q] != ssa.Value(prm) {
			continue
		}
		paths := intFields(prm.Type(), false)
		if isInteger(deref(prm.Type())) {
			paths = []string{""}
		}
		for _, path := range paths {
			for _, up := range []int64{1, -1} {
				if n.countedBy(e, es, q, path, up) {
					return true
				}
			}
		}
	}
	return false
}

func (n *prover) countedBy(e redge, es []redge, q int, path string, up int64) bool {
	f := e.from
	content := func(c *nctx, fr *nframe, obj ssa.Value, b *ssa.BasicBlock, idx int) nlin {
		pl, _ := n.place(c, fr, obj)
		pl.path += path
		return n.lin(c, n.at(c, fr, b, idx, pl, 0))
	}
	here := func(c *nctx, fr *nframe) nlin {
		return content(c, fr, f.Params[q], e.call.Block(), indexIn(e.call))
	}
	first, last := nconst(0), nconst(maxWork)
	if up < 0 {
		first, last = nconst(maxWork), nconst(0)
	}
	if !n.holds(f, e.call, func(c *nctx, fr *nframe) nlin { return last.add(here(c, fr), -1).scale(up) }, siteBudget) {
		return false
	}
	for _, o := range n.p.outside(f, es) {
		if !n.holds(o.Parent(), o, func(c *nctx, fr *nframe) nlin {
			return content(c, fr, o.Common().Args[q], o.Block(), indexIn(o)).add(first, -1).scale(up)
		}, siteBudget) {
			return false
		}
	}
	// counted in the call or before it
	entered := func(least int64) bool {
		for _, ret := range n.returns(f) {
			if !n.holds(f, ret, func(c *nctx, fr *nframe) nlin {
				return content(c, fr, f.Params[q], ret.Block(), indexIn(ret)).add(content(c, fr, f.Params[q], f.Blocks[0], 0), -1).scale(up).add(nconst(least), -1)
			}, siteBudget) {
				return false
			}
		}
		return true
	}
	if entered(1) {
		return true
	}
	if !entered(0) {
		return false
	}
	var in *Loop
	for _, l := range n.loopsOf(f) {
		if l.Body[e.call.Block()] && (in == nil || in.Body[l.Head]) {
			in = l
		}
	}
	return n.holds(f, e.call, func(c *nctx, fr *nframe) nlin {
		since := content(c, fr, f.Params[q], f.Blocks[0], 0)
		if in != nil {
			since = content(c, fr, f.Params[q], in.Head, 0)
		}
		return here(c, fr).add(since, -1).scale(up).add(nconst(1), -1)
	}, siteBudget)
}
