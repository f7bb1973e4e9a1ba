package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Invariants of struct types and promises of functions, found by starting with every
// form of a few shapes and dropping those that some function does not keep, until the
// rest are kept by all functions that assume them.

const invBudget = 160

// invTypes are the struct types of the library with integer fields that functions
// change through pointers.
func (n *prover) invTypes() []*types.Named {
	seen := map[string]*types.Named{}
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return
			}
			nt, ok := deref(fa.X.Type()).(*types.Named)
			if !ok || nt.Obj().Exported() || nt.Obj().Pkg() == nil || !n.p.inLibPkg(nt.Obj().Pkg()) {
				return
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if ft := st.Field(i).Type(); isInteger(ft) && intSize(ft) == 8 || canBeNil(ft) {
					seen[types.TypeString(nt, nil)] = nt
				}
			}
		})
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*types.Named
	for _, k := range ks {
		out = append(out, seen[k])
	}
	return out
}

func (p *Program) inLibPkg(pkg *types.Package) bool {
	for _, l := range p.Lib {
		if l.Pkg == pkg {
			return true
		}
	}
	return false
}

type invCheck struct {
	fn  *ssa.Function
	in  ssa.Instruction
	obj ssa.Value
	pre string // path to the struct in the object
}

// invPoints are the points at which objects of a type must be in order.
func (n *prover) invPoints(t *types.Named) []invCheck {
	var out []invCheck
	for _, f := range n.p.Funcs {
		bases := map[ssa.Value]bool{}
		var order []ssa.Value
		add := func(v ssa.Value) {
			if !bases[v] {
				bases[v] = true
				order = append(order, v)
			}
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), t) {
					add(fa.X)
				}
				if types.Identical(x.Val.Type(), t) {
					add(x.Addr)
				}
			case *ssa.Alloc:
				if types.Identical(deref(x.Type()), t) {
					add(x)
				}
			}
		})
		if len(order) == 0 {
			continue
		}
		for _, o := range order {
			al, isAlloc := o.(*ssa.Alloc)
			instrs(f, func(in ssa.Instruction) {
				// the object exists here
				if d, ok := o.(ssa.Instruction); ok {
					if d.Block() == in.Block() && indexIn(d) >= indexIn(in) || d.Block() != in.Block() && !d.Block().Dominates(in.Block()) {
						return
					}
				}
				switch x := in.(type) {
				case *ssa.Return:
					if isAlloc && !escapesBefore(al) {
						hit := false
						for i := range x.Results {
							hit = hit || resultValue(x, i) == o
						}
						if !hit {
							return
						}
					}
					out = append(out, invCheck{f, in, o, ""})
				case *ssa.UnOp:
					if isAlloc && x.X == o {
						out = append(out, invCheck{f, in, o, ""})
					}
				case ssa.CallInstruction:
					if len(n.callees(x.Common())) == 0 {
						return
					}
					if isAlloc && !escapesBefore(al) {
						hit := false
						for _, a := range x.Common().Args {
							hit = hit || a == o
						}
						if !hit {
							return
						}
					}
					out = append(out, invCheck{f, in, o, ""})
				}
			})
		}
	}
	return out
}

// escapesBefore: the object is stored somewhere.
func escapesBefore(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(al) {
			return true
		}
		switch r.(type) {
		case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Phi:
			return true
		}
	}
	return false
}

type ninvc struct {
	t  *types.Named
	iv ninv
}

func (p *Program) numbers() *prover {
	if p.prover == nil {
		p.prover = newProver(p)
		p.prover.infer()
	}
	return p.prover
}

func (n *prover) infer() {
	debug.SetGCPercent(400)
	// candidates
	points := map[string][]invCheck{}
	var cands []ninvc
	for _, t := range n.invTypes() {
		key := types.TypeString(t, nil)
		points[key] = n.invPoints(t)
		st := t.Underlying().(*types.Struct)
		var ints, lens []int
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if isInteger(ft) && intSize(ft) == 8 {
				ints = append(ints, i)
			}
			if _, ok := ft.Underlying().(*types.Slice); ok || isString(ft) {
				lens = append(lens, i)
			}
		}
		if !n.zeroed(t) {
			for i := 0; i < st.NumFields(); i++ {
				if canBeNil(st.Field(i).Type()) {
					cands = append(cands, ninvc{t, ninv{a: i, b: -1, c: -1}})
				}
			}
		}
		for _, a := range ints {
			cands = append(cands, ninvc{t, ninv{a: a, b: -1}})
			for _, b := range ints {
				if a != b {
					cands = append(cands, ninvc{t, ninv{a: a, b: b}})
				}
			}
			for _, b := range lens {
				cands = append(cands, ninvc{t, ninv{a: b, lenA: true, b: a}}, ninvc{t, ninv{a: a, b: b, lenB: true}})
			}
		}
	}
	n.inv = map[string][]ninv{}
	for _, c := range cands {
		k := types.TypeString(c.t, nil)
		n.inv[k] = append(n.inv[k], c.iv)
	}
	n.keep(cands, points, n.postCands(false))
	if n.trace2 {
		fmt.Println("second phase", n.fm)
	}
	// promises about results of functions that call themselves
	fixed := n.post
	fresh := n.postCands(true)
	n.keepPosts(fixed, fresh)
	n.required()
}

// required finds the parameters no call passes nil for.
func (n *prover) required() {
	n.pre = map[*ssa.Parameter]bool{}
	var ps []*ssa.Parameter
	for _, f := range n.p.Funcs {
		if n.p.isEntry(f) || n.p.addrTkn[f] || f.Parent() != nil || len(n.p.callers[f]) == 0 {
			continue
		}
		for _, p := range f.Params {
			if canBeNil(p.Type()) {
				ps = append(ps, p)
				n.pre[p] = true
			}
		}
	}
	for round := 0; round < 20; round++ {
		n.forget()
		ok := make([]bool, len(ps))
		n.parallel(len(ps), func(w *prover, i int) { ok[i] = w.passed(ps[i]) })
		var keep []*ssa.Parameter
		next := map[*ssa.Parameter]bool{}
		for i, p := range ps {
			if ok[i] {
				keep = append(keep, p)
				next[p] = true
			}
		}
		n.pre = next
		if len(keep) == len(ps) {
			return
		}
		ps = keep
	}
	n.pre = nil
}

// passed: every call passes something.
func (n *prover) passed(p *ssa.Parameter) bool {
	for _, site := range n.p.callers[p.Parent()] {
		c := site.Common()
		i := paramIndex(p)
		if c.IsInvoke() || i >= len(c.Args) {
			return false
		}
		if !n.holds(site.Parent(), site, func(x *nctx, fr *nframe) nlin {
			return n.lin(x, term{fr: fr, v: c.Args[i]}).add(nconst(1), -1)
		}, 100) {
			return false
		}
	}
	return true
}

// zeroed: objects of the type come into being as part of others.
func (n *prover) zeroed(t *types.Named) bool {
	var has func(u types.Type, d int) bool
	has = func(u types.Type, d int) bool {
		if types.Identical(u, t) {
			return true
		}
		if d > 4 {
			return false
		}
		switch x := u.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if has(x.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Array:
			return has(x.Elem(), d+1)
		}
		return false
	}
	hit := false
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				hit = hit || has(x.Type().Underlying().(*types.Slice).Elem(), 0)
			case *ssa.Alloc:
				u := deref(x.Type())
				hit = hit || !types.Identical(u, t) && has(u, 0)
			case *ssa.Lookup:
				hit = hit || has(x.Type(), 0)
			}
		})
	}
	for _, pkg := range n.p.Lib {
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				hit = hit || has(deref(g.Type()), 0)
			}
		}
	}
	return hit
}

// keep drops candidates until the rest support each other.
func (n *prover) keep(cands []ninvc, points map[string][]invCheck, posts []fpost) {
	n.post = map[*ssa.Function][]*npost{}
	for _, fp := range posts {
		n.post[fp.f] = append(n.post[fp.f], fp.p)
	}
	for round := 0; round < 12; round++ {
		n.forget()
		okI := make([]bool, len(cands))
		okP := make([]bool, len(posts))
		n.parallel(len(cands)+len(posts), func(w *prover, i int) {
			if i < len(cands) {
				okI[i] = w.invHolds(cands[i], points[types.TypeString(cands[i].t, nil)])
			} else {
				okP[i-len(cands)] = w.postHolds(posts[i-len(cands)])
			}
		})
		var keep []ninvc
		for i, c := range cands {
			if okI[i] {
				keep = append(keep, c)
			}
		}
		var keepP []fpost
		for i, fp := range posts {
			if okP[i] {
				keepP = append(keepP, fp)
			}
		}
		dropped := len(cands) + len(posts) - len(keep) - len(keepP)
		cands, posts = keep, keepP
		n.inv = map[string][]ninv{}
		for _, c := range cands {
			k := types.TypeString(c.t, nil)
			n.inv[k] = append(n.inv[k], c.iv)
		}
		n.post = map[*ssa.Function][]*npost{}
		for _, fp := range posts {
			n.post[fp.f] = append(n.post[fp.f], fp.p)
		}
		if n.trace2 {
			fmt.Println("round", round, "dropped", dropped, "fm", n.fm)
		}
		if dropped == 0 {
			return
		}
	}
	n.inv, n.post = map[string][]ninv{}, map[*ssa.Function][]*npost{}
}

func (n *prover) keepPosts(fixed map[*ssa.Function][]*npost, posts []fpost) {
	for round := 0; round < 12; round++ {
		n.post = map[*ssa.Function][]*npost{}
		for f, ps := range fixed {
			n.post[f] = append(n.post[f], ps...)
		}
		for _, fp := range posts {
			n.post[fp.f] = append(n.post[fp.f], fp.p)
		}
		n.forget()
		ok := make([]bool, len(posts))
		n.parallel(len(posts), func(w *prover, i int) { ok[i] = w.postHolds(posts[i]) })
		var keep []fpost
		for i, fp := range posts {
			if ok[i] {
				keep = append(keep, fp)
			}
		}
		if n.trace2 {
			fmt.Println("round", round, "dropped", len(posts)-len(keep))
		}
		if len(keep) == len(posts) {
			return
		}
		posts = keep
	}
	n.post = fixed
}

func (n *prover) forget() {
	n.proved, n.failed = map[string]bool{}, map[string]int{}
}

// parallel runs independent proofs on their own provers.
func (n *prover) parallel(k int, do func(w *prover, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	var trouble any
	var mu sync.Mutex
	for j := 0; j < 8; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					trouble = fmt.Sprint(e, string(debug.Stack()))
					mu.Unlock()
				}
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= k {
					break
				}
				w := newProverLike(n)
				do(w, i)
				mu.Lock()
				n.fm += w.fm
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if trouble != nil {
		panic(trouble)
	}
}

func (n *prover) invHolds(c ninvc, pts []invCheck) bool {
	for _, p := range pts {
		ok := n.holds(p.fn, p.in, func(ctx *nctx, fr *nframe) nlin {
			pl, _ := n.place(ctx, fr, p.obj)
			get := func(i int, isLen bool) nlin {
				l := pl
				l.path += "." + strconv.Itoa(i)
				t := n.at(ctx, fr, p.in.Block(), indexIn(p.in), l, 0)
				if isLen {
					return n.length(ctx, t)
				}
				return n.lin(ctx, t)
			}
			l := nconst(c.iv.c).add(get(c.iv.a, c.iv.lenA), 1)
			if c.iv.b >= 0 {
				l = l.add(get(c.iv.b, c.iv.lenB), -1)
			}
			return l
		}, invBudget)
		if !ok {
			if n.trace2 {
				fmt.Println("drop", c.t, c.iv, n.p.At(p.in), p.fn.Name())
			}
			return false
		}
	}
	return true
}

type fpost struct {
	f *ssa.Function
	p *npost
}

// intFields are the integer fields (or lengths) reachable from a type directly.
func intFields(t types.Type, wantLen bool) []string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if !wantLen && isInteger(ft) && intSize(ft) == 8 {
			out = append(out, "."+strconv.Itoa(i))
		}
		if wantLen {
			if _, ok := ft.Underlying().(*types.Slice); ok || isString(ft) {
				out = append(out, "."+strconv.Itoa(i))
			}
		}
		if st.Field(i).Embedded() {
			for _, s := range intFields(ft, wantLen) {
				out = append(out, "."+strconv.Itoa(i)+s)
			}
		}
	}
	return out
}

// postCands are the promises to try.
func (n *prover) postCands(rec bool) []fpost {
	var out []fpost
	for _, f := range n.p.Funcs {
		if f.Blocks == nil || f.Parent() != nil || len(n.p.callers[f]) == 0 {
			continue
		}
		sig := f.Signature
		// fields of parameters that only grow
		var grow []npart
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			for _, path := range intFields(p.Type(), false) {
				st, fi, ok := lastField(p.Type(), path)
				if !ok || !n.mods[f][nmod{fieldID(st, fi), i}] {
					continue
				}
				grow = append(grow, npart{1, partExit, i, path, false})
				if rec {
					continue
				}
				out = append(out, fpost{f, &npost{parts: []npart{{1, partExit, i, path, false}, {-1, partEntry, i, path, false}}}})
			}
		}
		for r := 0; r < sig.Results().Len(); r++ {
			rt := sig.Results().At(r).Type()
			_, isSlice := rt.Underlying().(*types.Slice)
			if !rec && (isString(rt) || isSlice) {
				// no longer than the part passed over
				for _, g := range grow {
					out = append(out, fpost{f, &npost{parts: []npart{{1, partExit, g.i, g.path, false}, {-1, partEntry, g.i, g.path, false}, {-1, partResult, r, "", true}}}})
				}
			}
			if rec && twoValued(rt) && !canBeNil(rt) {
				// true only if there was something to pass over, or if something is left
				res := npart{-1, partResult, r, "", false}
				for _, g := range grow {
					out = append(out, fpost{f, &npost{parts: []npart{g, {-1, partEntry, g.i, g.path, false}, res}}})
					below := npart{-1, partExit, g.i, g.path, false}
					for _, path := range intFields(f.Params[g.i].Type(), false) {
						if path != g.path {
							out = append(out, fpost{f, &npost{parts: []npart{{1, partExit, g.i, path, false}, below, res}}})
						}
					}
					for _, path := range intFields(f.Params[g.i].Type(), true) {
						out = append(out, fpost{f, &npost{parts: []npart{{1, partExit, g.i, path, true}, below, res}}})
					}
				}
			}
			if !rec || !n.recursive(f) {
				continue
			}
			if canBeNil(rt) {
				out = append(out, fpost{f, &npost{parts: []npart{{1, partResult, r, "", false}}, c: -1}})
				for q := 0; q < sig.Results().Len(); q++ {
					qt := sig.Results().At(q).Type()
					switch {
					case q == r:
					case isErrorType(qt):
						out = append(out, fpost{f, &npost{parts: []npart{{1, partResult, r, "", false}, {1, partResult, q, "", false}}, c: -1}})
					case twoValued(qt) && !canBeNil(qt):
						out = append(out, fpost{f, &npost{parts: []npart{{1, partResult, r, "", false}, {-1, partResult, q, "", false}}}})
					}
				}
			}
			var rs []npart
			if isInteger(rt) && intSize(rt) == 8 {
				rs = append(rs, npart{1, partResult, r, "", false})
			}
			if _, ok := deref(rt).(*types.Named); ok {
				for _, path := range intFields(rt, false) {
					rs = append(rs, npart{1, partResult, r, path, false})
				}
			}
			minus := func(p npart) npart { p.k = -1; return p }
			for a, ra := range rs {
				out = append(out, fpost{f, &npost{parts: []npart{ra}}})
				for b, rb := range rs {
					if a != b {
						out = append(out, fpost{f, &npost{parts: []npart{ra, minus(rb)}}})
					}
				}
				var lens []npart
				for i, p := range f.Params {
					if _, ok := p.Type().Underlying().(*types.Slice); ok || isString(p.Type()) {
						lens = append(lens, npart{1, partEntry, i, "", true})
					}
					for _, path := range intFields(p.Type(), true) {
						lens = append(lens, npart{1, partEntry, i, path, true})
					}
				}
				for _, l := range lens {
					out = append(out, fpost{f, &npost{parts: []npart{l, minus(ra)}}})
				}
				for i, p := range f.Params {
					if !isInteger(p.Type()) {
						continue
					}
					ip := npart{1, partEntry, i, "", false}
					out = append(out, fpost{f, &npost{parts: []npart{ra, minus(ip)}}})
					for _, l := range lens {
						out = append(out, fpost{f, &npost{parts: []npart{l, ip, minus(ra)}}})
					}
				}
			}
		}
	}
	return out
}

// recursive: the function can call itself.
func (n *prover) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		hit := false
		instrs(g, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && !hit {
				for _, h := range n.callees(c.Common()) {
					if h == f || walk(h) {
						hit = true
						return
					}
				}
			}
		})
		return hit
	}
	return walk(f)
}

func (n *prover) postHolds(fp fpost) bool {
	f := fp.f
	for _, ret := range n.returns(f) {
		skip := false
		for _, q := range fp.p.parts {
			if q.kind == partResult && q.path != "" && isNilConst(resultValue(ret, q.i)) {
				skip = true
			}
		}
		if skip {
			continue
		}
		ok := n.holds(f, ret, func(c *nctx, fr *nframe) nlin {
			out := nconst(fp.p.c)
			for _, q := range fp.p.parts {
				var l nlin
				var good bool
				switch q.kind {
				case partResult:
					l, good = n.part(c, term{fr: fr, v: resultValue(ret, q.i)}, q, fr, ret.Block(), indexIn(ret))
				case partEntry:
					l, good = n.part(c, term{fr: fr, v: f.Params[q.i]}, q, fr, f.Blocks[0], 0)
				case partExit:
					l, good = n.part(c, term{fr: fr, v: f.Params[q.i]}, q, fr, ret.Block(), indexIn(ret))
				}
				if !good {
					return nconst(-1)
				}
				out = out.add(l, q.k)
			}
			return out
		}, invBudget)
		if !ok {
			if n.trace2 {
				fmt.Println("drop post", f.Name(), fp.p.parts, n.p.At(ret))
			}
			return false
		}
	}
	return true
}
