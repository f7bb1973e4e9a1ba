package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const chainLimit = 20

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// ascending returns the loop variable if v counts up by one from a constant.
func ascending(v ssa.Value) (phi *ssa.Phi, first int64, ok bool) {
	plusOne := func(v, p ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		if n, ok := constInt(b.Y); ok && n == 1 && b.X == p {
			return true
		}
		n, ok := constInt(b.X)
		return ok && n == 1 && b.Y == p
	}
	off := int64(0)
	p, isPhi := v.(*ssa.Phi)
	if !isPhi {
		b, isB := v.(*ssa.BinOp)
		if !isB || b.Op != token.ADD {
			return nil, 0, false
		}
		p, isPhi = b.X.(*ssa.Phi)
		if !isPhi || !plusOne(v, p) {
			return nil, 0, false
		}
		off = 1
	}
	seen := false
	for _, e := range p.Edges {
		if n, ok := constInt(e); ok && !seen {
			first, seen = n, true
			continue
		}
		if !plusOne(e, p) {
			return nil, 0, false
		}
	}
	return p, first + off, seen
}

// consuming: a list walked by dropping its first element each time round.
func consuming(v ssa.Value) (*ssa.Phi, ssa.Value, bool) {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return nil, nil, false
	}
	var start ssa.Value
	for _, e := range p.Edges {
		if sl, ok := e.(*ssa.Slice); ok && sl.X == ssa.Value(p) && sl.High == nil {
			if n, ok := constInt(sl.Low); ok && n == 1 {
				continue
			}
		}
		if start != nil {
			return nil, nil, false
		}
		start = e
	}
	return p, start, start != nil
}

// listWalk follows a loop over the elements of a list of strings.
type listWalk struct {
	x     *Explorer
	first int64
	list  func(s *State, a AV) bool
	heads map[*ssa.BasicBlock]bool
	elem  func(t types.Type) bool // the lists looked at; lists of strings by default
}

const (
	lwDone    = 1 << iota // the loop ran to the end of the list
	lwApplied             // this round's element was dealt with
	lwLimited             // the length was tested
	lwInLoop              // inside a round
	lwWanted              // this round's element must be dealt with
)

// element reports whether a is the current element of the list.
func (w *listWalk) element(s *State, a AV) bool {
	a = w.x.resolve(s, a)
	ld, ok := a.v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ix, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	return w.isElementAddr(s, a.fr, ix)
}

func (w *listWalk) isElementAddr(s *State, fr *Frame, ix *ssa.IndexAddr) bool {
	if phi, first, ok := ascending(ix.Index); ok && first == w.first && w.list(s, AV{fr: fr, v: ix.X}) {
		w.heads[phi.Block()] = true
		return true
	}
	if phi, start, ok := consuming(ix.X); ok && w.first == 0 && w.list(s, AV{fr: fr, v: start}) {
		if n, ok := constInt(ix.Index); ok && n == 0 {
			w.heads[phi.Block()] = true
			return true
		}
	}
	return false
}

// prepare finds the loops over lists of strings.
func (w *listWalk) prepare(fs []*ssa.Function) {
	w.heads = map[*ssa.BasicBlock]bool{}
	if w.elem == nil {
		w.elem = isStringSlice
	}
	for _, f := range fs {
		instrs(f, func(in ssa.Instruction) {
			ix, ok := in.(*ssa.IndexAddr)
			if !ok || !w.elem(ix.X.Type()) {
				return
			}
			if phi, first, ok := ascending(ix.Index); ok && first == w.first {
				w.heads[phi.Block()] = true
			}
			if phi, _, ok := consuming(ix.X); ok && w.first == 0 {
				w.heads[phi.Block()] = true
			}
		})
	}
}

// ends reports whether a branch outcome means there is no further element.
func (w *listWalk) ends(s *State, cond ssa.Value, truth bool) bool {
	x := w.x
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 8; d++ {
		a = x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, !truth
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value, cons bool) bool {
		c, ok := x.resolve(s, AV{fr: a.fr, v: v}).v.(*ssa.Call)
		if !ok || calleeName(c.Common()) != "builtin.len" {
			return false
		}
		arg := c.Common().Args[0]
		if cons {
			_, start, ok := consuming(arg)
			return ok && w.list(s, AV{fr: a.fr, v: start}) || w.list(s, AV{fr: a.fr, v: arg})
		}
		return w.list(s, AV{fr: a.fr, v: arg})
	}
	op := bo.Op
	l, r := bo.X, bo.Y
	if isLen(l, true) {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	// l op len
	if _, first, ok := ascending(l); ok && isLen(r, false) && (first == w.first || first == w.first+1 && s.Bits&lwApplied != 0) {
		switch op {
		case token.LSS, token.NEQ:
			return !truth
		case token.GEQ, token.EQL:
			return truth
		}
		return false
	}
	if n, ok := constInt(l); ok && isLen(r, true) {
		switch {
		case op == token.LSS && n == w.first, op == token.NEQ && n == w.first, op == token.LEQ && n == w.first+1:
			return !truth
		case op == token.EQL && n == w.first, op == token.GEQ && n == w.first, op == token.GTR && n == w.first+1:
			return truth
		}
	}
	return false
}

// cross is told about every jump; it returns a complaint when a round ends
// without its element having been dealt with.
func (w *listWalk) cross(s *State, from, to *ssa.BasicBlock) string {
	if !w.heads[to] {
		return ""
	}
	back := to.Dominates(from)
	msg := ""
	if back && s.Bits&lwApplied == 0 && s.Bits&lwWanted != 0 {
		msg = "goes on to the next element without having dealt with this one"
	}
	s.Bits &^= lwApplied | lwDone | lwWanted
	return msg
}

func checkC24(p *Program, r *Report) {
	r.Explanation = "Typestate over the walk of the list of modifier names. Parsing: every part of a path component that starts with @ is kept, in order, and the scan ends only at the end of the component. Applying: each name is looked up in the table in list order; the modifier found is applied exactly once to the result of the one before it; the loop is left only at the end of the list, with a result known to be Null, or with an empty result; nothing is applied before the length was tested against 20. Queries: every value a query entry point returns is empty, or is what the chain returned for the modifiers at the end of the path, or is returned where there are none; the search itself runs with those modifiers detached. Not covered: what a modifier computes."
	r.Assumptions = []string{"the table of modifiers answers a lookup by name (C16)"}
	r.Rule("in-order", "each modifier is found under the next name of the list and applied once, to the result of the one before it")
	r.Rule("fail-closed", "a chain is abandoned only with an empty result")
	r.Rule("bounded", "no modifier is applied before the chain was tested to have at most 20 names")
	r.Rule("all-parsed", "every modifier written in a path component is kept, in order")
	r.Rule("all-applied", "a query returns only what its whole chain returned, or an empty result, or there are no modifiers")

	// where modifiers are applied
	sites := map[ssa.Instruction]bool{}
	holder := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Apply" && isModifierType(c.Common().Value.Type()) {
				sites[in] = false
				holder[f] = true
				r.Count("apply_sites", 1)
			}
		})
	}
	chains := p.chainFuncs(holder)
	for _, f := range p.Funcs {
		if chains[f] {
			p.chain(r, f, sites)
		}
	}
	for in, seen := range sites {
		if !seen {
			r.Bad("in-order", p.At(in), p.shortName(in.Parent()), "applies a modifier outside a chain the analysis can follow")
		}
	}
	p.parseChain(r)
	p.queryChain(r, chains)
	r.Min("apply_sites", 1)
	r.Min("chain_functions", 1)
	r.Min("query_entry_points", 2)
}

// chainFuncs are the functions that take a result and a list of names and reach
// an application of a modifier without passing through another such function.
func (p *Program) chainFuncs(holder map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if chainParams(f) != nil {
			out[f] = true
			return
		}
		if f.Parent() != nil {
			up(f.Parent())
		}
		for _, c := range p.callers[f] {
			up(c.Parent())
		}
	}
	for f := range holder {
		up(f)
	}
	return out
}

// chainParams returns the result and list parameters of a chain function.
func chainParams(f *ssa.Function) []int {
	sig := f.Signature
	if sig.Results().Len() != 1 || !isResultType(sig.Results().At(0).Type()) {
		return nil
	}
	ri, li := -1, -1
	for i, prm := range f.Params {
		if isResultType(prm.Type()) {
			ri = i
		}
		if isStringSlice(prm.Type()) {
			li = i
		}
	}
	if ri < 0 || li < 0 {
		return nil
	}
	return []int{ri, li}
}

// whole resolves the Result a field is read from.
func (x *Explorer) whole(s *State, fr *Frame, addr ssa.Value) (AV, bool) {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		a := x.resolve(s, AV{fr: fr, v: addr})
		if al, ok = a.v.(*ssa.Alloc); !ok {
			return AV{}, false
		}
		fr = a.fr
	}
	if t, ok := s.facts[fkey{fr, al, -1}]; ok {
		return t, true
	}
	st, _ := storesTo(al, nil)
	if len(st) == 1 && privateStruct(al) {
		return x.resolve(s, AV{fr: fr, v: st[0].Val}), true
	}
	return AV{}, false
}

// nullTest recognises a test that a Result is empty; it returns the Result and
// whether the outcome says it is.
func (x *Explorer) nullTest(s *State, cond ssa.Value, truth bool) (AV, bool, bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 8; d++ {
		a = x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, !truth
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok || !isNamed(bo.X.Type(), modPath, "Type") {
		return AV{}, false, false
	}
	op := bo.Op
	val, c := bo.X, bo.Y
	if _, isC := val.(*ssa.Const); isC {
		val, c = c, val
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, ok := constInt(c)
	if !ok {
		return AV{}, false, false
	}
	null := false
	switch {
	case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		null = truth
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		null = !truth
	default:
		return AV{}, false, false
	}
	b := x.resolveNoFact(s, AV{fr: a.fr, v: val})
	switch v := b.v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && isResultType(deref(fa.X.Type())) {
			w, ok := x.whole(s, b.fr, fa.X)
			return w, null, ok
		}
	case *ssa.Field:
		if isResultType(v.X.Type()) {
			return x.resolve(s, AV{fr: b.fr, v: v.X}), null, true
		}
	}
	return AV{}, false, false
}

// chain checks one chain function.
func (p *Program) chain(r *Report, f *ssa.Function, sites map[ssa.Instruction]bool) {
	r.Count("chain_functions", 1)
	name := p.shortName(f)
	prm := chainParams(f)
	x := newExplorer(p)
	x.Mem = true
	w := &listWalk{x: x, list: func(s *State, a AV) bool { return x.isParam(x.resolve(s, a), prm[1]) }}
	w.prepare(p.reachFrom([]*ssa.Function{f}))
	// typestate: result of the last modifier applied | result known to be empty
	get := func(s *State) (string, string) {
		last, null, _ := strings.Cut(s.Ext, "|")
		return last, null
	}
	x.Decide = x.decideNull
	bad := false
	report := func(rule string, in ssa.Instruction, s *State, msg string) {
		bad = true
		r.Bad(rule, p.At(in), name, msg, x.Trace(s)...)
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if y, n, ok := x.lenBound(s, iff.Cond, taken); ok && n <= chainLimit && x.isParam(y, prm[1]) {
			s.Bits |= lwLimited
		}
		to := iff.Block().Succs[1]
		if taken {
			to = iff.Block().Succs[0]
		}
		if w.ends(s, iff.Cond, taken) {
			s.Bits |= lwDone
		}
		if a, null, ok := x.nullTest(s, iff.Cond, taken); ok && null {
			last, _ := get(s)
			s.Ext = last + "|" + avKey(a)
		}
		if m := w.cross(s, iff.Block(), to); m != "" {
			report("in-order", iff, s, m)
		}
		if s.fr.fn == iff.Parent() && w.heads[iff.Block()] && s.Bits&lwDone == 0 {
			s.Bits |= lwWanted
		}
		return true
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		if j, ok := in.(*ssa.Jump); ok {
			if m := w.cross(s, j.Block(), j.Block().Succs[0]); m != "" {
				report("in-order", in, s, m)
			}
		}
		return true
	}
	applied := map[string]AV{}
	earlier := AV{fr: nil, v: f.Params[prm[0]], idx: 99} // stands for a result from an earlier activation of a helper
	x.Pre = func(x *Explorer, s *State, in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			last, null := get(s)
			if a, ok := applied[last]; ok && a.fr.within(s.fr) && a.fr != s.fr && enteredBy(a.fr, s.fr, c) {
				for k, t := range s.facts {
					if avKey(t) == last {
						s.facts[k] = earlier
					}
				}
				s.Ext = avKey(earlier) + "|" + null
			}
		}
		if _, isSite := sites[in]; !isSite {
			return
		}
		sites[in] = true
		c := in.(ssa.CallInstruction)
		call, ok := in.(*ssa.Call)
		if !ok {
			report("in-order", in, s, "applies a modifier outside the chain's own control flow")
			return
		}
		last, _ := get(s)
		if s.Bits&lwLimited == 0 {
			report("bounded", in, s, "applies a modifier before the length of the chain was tested")
		}
		if s.Bits&lwApplied != 0 {
			report("in-order", in, s, "applies a modifier twice for one name")
		}
		arg := x.resolve(s, AV{fr: s.fr, v: c.Common().Args[0]})
		if last == "" && !x.isParam(arg, prm[0]) || last != "" && avKey(arg) != last {
			report("in-order", in, s, "applies a modifier to something other than the result of the one before it")
		}
		mod := x.resolve(s, AV{fr: s.fr, v: c.Common().Value})
		if !mod.nonnil {
			report("fail-closed", in, s, "applies a modifier that may not exist")
		}
		if !w.element(s, x.lookupKey(s, mod)) {
			report("in-order", in, s, "applies a modifier that is not the one registered under the next name of the list")
		}
		s.Bits |= lwApplied
		res := AV{fr: s.fr, v: call}
		applied[avKey(res)] = res
		s.Ext = avKey(res) + "|"
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if deadReturn(ret) {
			return
		}
		a := x.resolve(s, AV{fr: s.fr, v: ret.Results[0]})
		last, null := get(s)
		switch {
		case x.isNullResult(s, a, 0):
			r.OK("fail-closed", p.At(ret), name+": empty result")
			return
		case null != "" && avKey(a) == null:
			r.OK("fail-closed", p.At(ret), name+": result known to be empty")
			return
		case s.Bits&lwLimited == 0:
			report("fail-closed", ret, s, "returns a result for a chain of any length")
		case s.Bits&lwDone == 0:
			report("fail-closed", ret, s, "returns a result before every modifier was applied")
		case last == "" && x.isParam(a, prm[0]), last != "" && avKey(a) == last:
			r.OK("in-order", p.At(ret), name+": result of the last modifier")
			return
		default:
			report("in-order", ret, s, "returns something other than the result of the last modifier")
		}
	}
	x.Run(f)
	if x.Overflow {
		r.Bad("in-order", p.Pos(f.Pos()), name, "too complex to follow")
	}
	r.Count("walked_states", x.Nodes)
	if !bad {
		r.OK("bounded", p.Pos(f.Pos()), name+": every application follows the length test")
	}
}

// enteredBy reports whether frame f lies below the activation made by c in g.
func enteredBy(f, g *Frame, c *ssa.Call) bool {
	for ; f != nil && f != g; f = f.up {
		if f.up == g {
			return f.call == ssa.CallInstruction(c)
		}
	}
	return false
}

// lookupKey returns the key under which a modifier was looked up.
func (x *Explorer) lookupKey(s *State, a AV) AV {
	a.nonnil = false
	switch v := a.v.(type) {
	case *ssa.Lookup:
		if isRegistryType(v.X.Type()) {
			return x.resolve(s, AV{fr: a.fr, v: v.Index})
		}
	case *ssa.Extract:
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 && isRegistryType(lk.X.Type()) {
			return x.resolve(s, AV{fr: a.fr, v: lk.Index})
		}
	case *ssa.Call:
		if calleeName(v.Common()) == modPath+".GetModifier" {
			return x.resolve(s, AV{fr: a.fr, v: v.Common().Args[0]})
		}
	}
	return AV{}
}

// isModifiersField recognises the list of modifiers of a path segment.
func isModifiersField(t types.Type, field int) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	return ok && isNamed(deref(t), modPath, "PathSegment") && st.Field(field).Name() == "Modifiers"
}

// parseChain checks the functions whose result becomes the list of modifiers.
func (p *Program) parseChain(r *Report) {
	type src struct {
		f   *ssa.Function
		idx int
	}
	srcs := map[src]bool{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isModifiersField(fa.X.Type(), fa.Field) {
				return
			}
			r.Count("modifier_list_stores", 1)
			switch v := st.Val.(type) {
			case *ssa.Const:
				return
			case *ssa.UnOp:
				if fb, ok := v.X.(*ssa.FieldAddr); ok && isModifiersField(fb.X.Type(), fb.Field) {
					return
				}
			case *ssa.Field:
				if isModifiersField(v.X.Type(), v.Field) {
					return
				}
			case *ssa.Extract:
				if c, ok := v.Tuple.(*ssa.Call); ok && c.Common().StaticCallee() != nil && p.InLib(c.Common().StaticCallee()) {
					srcs[src{c.Common().StaticCallee(), v.Index}] = true
					return
				}
			case *ssa.Call:
				if c := v.Common().StaticCallee(); c != nil && p.InLib(c) {
					srcs[src{c, 0}] = true
					return
				}
			}
			r.Bad("all-parsed", p.At(in), p.shortName(f), "sets the modifiers of a path segment to something that was not parsed from the path")
		})
	}
	if len(srcs) == 0 {
		r.Bad("all-parsed", "-", "-", "no function that parses the modifiers of a path was found")
	}
	for s := range srcs {
		p.parsedAll(r, s.f, s.idx)
	}
}

// parsedAll walks the parser of modifiers.
func (p *Program) parsedAll(r *Report, f *ssa.Function, idx int) {
	r.Count("modifier_parsers", 1)
	name := p.shortName(f)
	x := newExplorer(p)
	w := &listWalk{x: x, first: 1, list: func(s *State, a AV) bool {
		a = x.resolve(s, a)
		if sl, ok := a.v.(*ssa.Slice); ok && sl.High == nil {
			if n, ok := constInt(sl.Low); ok && n == 1 {
				a = x.resolve(s, AV{fr: a.fr, v: sl.X})
			}
		}
		c, ok := a.v.(*ssa.Call)
		if !ok {
			return false
		}
		sep := ""
		if len(c.Common().Args) > 1 {
			sep, _ = constString(c.Common().Args[1])
		}
		return calleeName(c.Common()) == "strings.Split" && sep == "|"
	}}
	w.prepare(p.reachFrom([]*ssa.Function{f}))
	w2 := &listWalk{x: x, list: w.list}
	w2.prepare(p.reachFrom([]*ssa.Function{f}))
	for b := range w2.heads {
		w.heads[b] = true
	}
	bad := false
	report := func(in ssa.Instruction, s *State, msg string) {
		bad = true
		r.Bad("all-parsed", p.At(in), name, msg, x.Trace(s)...)
	}
	decide := func(s *State, from, to *ssa.BasicBlock, at ssa.Instruction) {
		if m := w.cross(s, from, to); m != "" {
			report(at, s, "drops a modifier")
		}
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		to := iff.Block().Succs[1]
		if taken {
			to = iff.Block().Succs[0]
		}
		if w.ends(s, iff.Cond, taken) || w2.ends(s, iff.Cond, taken) {
			s.Bits |= lwDone
		}
		if is, ok := x.prefixTest(s, iff.Cond, taken); ok {
			if is {
				s.Bits |= lwWanted
			} else {
				s.Bits |= lwApplied
			}
		}
		decide(s, iff.Block(), to, iff)
		if w.heads[iff.Block()] && s.Bits&lwDone == 0 {
			s.Bits |= lwWanted
		}
		return true
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Jump:
			decide(s, in.Block(), in.Block().Succs[0], in)
		case *ssa.Call:
			if calleeName(in.Common()) == "builtin.append" && isStringSlice(in.Type()) {
				els := varargs(in.Common().Args[1])
				if len(els) == 1 && x.afterAt(s, AV{fr: s.fr, v: els[0]}) {
					if s.Bits&lwApplied != 0 {
						report(in, s, "keeps a modifier twice")
					}
					s.Bits |= lwApplied
					r.Count("modifiers_kept", 1)
				} else {
					report(in, s, "keeps something other than the text after the @")
				}
			}
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if deadReturn(ret) {
			return
		}
		if s.Bits&lwDone == 0 && !isNilConst(x.resolve(s, AV{fr: s.fr, v: ret.Results[idx]}).v) {
			report(ret, s, "stops before every modifier was looked at")
		}
		if s.Bits&lwDone == 0 && s.Bits&(lwWanted|lwApplied) == lwWanted {
			report(ret, s, "drops a modifier")
		}
		a := x.resolve(s, AV{fr: s.fr, v: ret.Results[idx]})
		switch v := a.v.(type) {
		case *ssa.Const, *ssa.Phi, *ssa.MakeSlice:
		case *ssa.Call:
			if calleeName(v.Common()) != "builtin.append" {
				report(ret, s, "returns something other than the list it built")
			}
		default:
			report(ret, s, "returns something other than the list it built")
		}
	}
	x.Run(f)
	if x.Overflow {
		r.Bad("all-parsed", p.Pos(f.Pos()), name, "too complex to follow")
	}
	if !bad {
		r.OK("all-parsed", p.Pos(f.Pos()), name+": every part that starts with @ is kept")
	}
}

// prefixTest recognises a test that a part starts with @.
func (x *Explorer) prefixTest(s *State, cond ssa.Value, truth bool) (is, ok bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 8; d++ {
		a = x.resolveNoFact(s, a)
		u, isU := a.v.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, !truth
	}
	switch v := a.v.(type) {
	case *ssa.Call:
		if calleeName(v.Common()) == "strings.HasPrefix" {
			if lit, ok := constString(v.Common().Args[1]); ok && lit == "@" {
				return truth, true
			}
		}
		if a.idx == 2 && calleeName(v.Common()) == "strings.CutPrefix" {
			if lit, ok := constString(v.Common().Args[1]); ok && lit == "@" {
				return truth, true
			}
		}
	case *ssa.BinOp:
		// an empty part is no modifier
		if y, n, ok := x.lenBound(s, v, truth); ok && n == 0 {
			_ = y
			return false, true
		}
		if v.Op != token.EQL && v.Op != token.NEQ {
			return false, false
		}
		for _, pr := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			c, isC := pr[0].(*ssa.Const)
			if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
				continue
			}
			n, _ := constInt(c)
			var ix ssa.Value
			switch l := pr[1].(type) {
			case *ssa.Lookup:
				ix = l.Index
			case *ssa.Index:
				ix = l.Index
			}
			if ix == nil || n != '@' {
				continue
			}
			if i, ok := constInt(ix); ok && i == 0 {
				return (v.Op == token.EQL) == truth, true
			}
		}
	}
	return false, false
}

// afterAt reports whether a is the rest of a part after its @.
func (x *Explorer) afterAt(s *State, a AV) bool {
	for d := 0; d < 6; d++ {
		a = x.resolve(s, a)
		switch v := a.v.(type) {
		case *ssa.Slice:
			n, ok := constInt(v.Low)
			return ok && n == 1 && v.High == nil
		case *ssa.Call:
			switch calleeName(v.Common()) {
			case "strings.TrimPrefix", "strings.CutPrefix":
				lit, ok := constString(v.Common().Args[1])
				return ok && lit == "@" && a.idx <= 1
			case "strings.TrimSpace":
				a = AV{fr: a.fr, v: v.Common().Args[0]}
				continue
			}
		}
		return false
	}
	return false
}

// queryChain checks the entry points that answer a path query.
func (p *Program) queryChain(r *Report, chains map[*ssa.Function]bool) {
	reach := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, g := range p.reachFrom([]*ssa.Function{f}) {
			if chains[g] {
				reach[f] = true
			}
		}
	}
	for _, e := range p.entries {
		sig := e.Signature
		if !reach[e] || sig.Results().Len() != 1 || !isResultType(sig.Results().At(0).Type()) {
			continue
		}
		hasPath := false
		for _, prm := range e.Params {
			if isString(prm.Type()) {
				hasPath = true
			}
		}
		if !hasPath || chains[e] {
			continue
		}
		r.Count("query_entry_points", 1)
		p.queryEntry(r, e, chains, reach)
	}
}

const (
	qDetached = 1 << iota // the list was taken off the path
	qNone                 // the list is known to be empty
	qNull                 // the result is known to be empty
)

func (p *Program) queryEntry(r *Report, e *ssa.Function, chains, reach map[*ssa.Function]bool) {
	name := p.shortName(e)
	x := newExplorer(p)
	x.Mem = true
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
		if chains[callee] || p.recursive(callee) {
			return false
		}
		return reach[callee] || takesResult(callee) || p.touchesModifiers(callee) || makesEmpty(callee)
	}
	x.Decide = x.decideNull
	mods := func(s *State, a AV) bool {
		a = x.resolve(s, a)
		switch v := a.v.(type) {
		case *ssa.UnOp:
			fa, ok := v.X.(*ssa.FieldAddr)
			return ok && isModifiersField(fa.X.Type(), fa.Field)
		case *ssa.Field:
			return isModifiersField(v.X.Type(), v.Field)
		}
		return false
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if y, n, ok := x.lenBound(s, iff.Cond, taken); ok && n == 0 && mods(s, y) {
			s.Bits |= qNone
		}
		if a, null, ok := x.nullTest(s, iff.Cond, taken); ok && null {
			s.Ext = avKey(a)
		}
		return true
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isModifiersField(fa.X.Type(), fa.Field) && isNilConst(in.Val) {
				s.Bits |= qDetached
			}
		case *ssa.Call:
			c := in.Common().StaticCallee()
			if c == nil {
				return true
			}
			if chains[c] {
				r.Count("chain_calls", 1)
				prm := chainParams(c)
				if !mods(s, AV{fr: s.fr, v: in.Common().Args[prm[1]]}) {
					r.Bad("all-applied", p.At(in), name, "runs a chain that is not the list of modifiers of the path", x.Trace(s)...)
				}
				a := x.resolve(s, AV{fr: s.fr, v: in.Common().Args[prm[0]]})
				if q, ok := a.v.(*ssa.Call); !ok || q.Common().StaticCallee() == nil || chains[q.Common().StaticCallee()] || !p.InLib(q.Common().StaticCallee()) {
					r.Bad("all-applied", p.At(in), name, "runs the chain on something other than the answer of the search", x.Trace(s)...)
				}
				return true
			}
			if reach[c] && p.recursive(c) && takesSegments(c) && s.Bits&qDetached == 0 {
				r.Bad("all-applied", p.At(in), name, "the search runs with the modifiers at the end of the path still attached", x.Trace(s)...)
			}
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if deadReturn(ret) {
			return
		}
		a := x.resolve(s, AV{fr: s.fr, v: ret.Results[0]})
		if x.isNullResult(s, a, 0) {
			r.OK("all-applied", p.At(ret), name+": empty result")
			return
		}
		c, isCall := a.v.(*ssa.Call)
		switch {
		case isCall && c.Common().StaticCallee() != nil && chains[c.Common().StaticCallee()]:
			r.OK("all-applied", p.At(ret), name+": what the chain returned")
		case isCall && c.Common().StaticCallee() != nil && p.isEntry(c.Common().StaticCallee()):
			r.OK("all-applied", p.At(ret), name+": what another entry point returned")
		case s.Bits&qNone != 0:
			r.OK("all-applied", p.At(ret), name+": no modifiers")
		case s.Ext != "" && s.Ext == avKey(a):
			r.OK("all-applied", p.At(ret), name+": result known to be empty")
		default:
			r.Bad("all-applied", p.At(ret), name, "returns a result without applying the modifiers at the end of the path", x.Trace(s)...)
		}
	}
	x.Run(e)
	if x.Overflow {
		r.Bad("all-applied", p.Pos(e.Pos()), name, fmt.Sprintf("too complex to follow (%d states)", x.Nodes))
	}
	r.Count("walked_states", x.Nodes)
}

// decideNull decides tests for emptiness of a result that is known to be empty.
func (x *Explorer) decideNull(_ *Explorer, s *State, cond ssa.Value) int {
	a, null, ok := x.nullTest(s, cond, true)
	if !ok || !x.isNullResult(s, a, 0) {
		return 0
	}
	if null {
		return 1
	}
	return -1
}

// makesEmpty: a function without arguments and calls that returns a result.
func makesEmpty(f *ssa.Function) bool {
	if len(f.Params) != 0 || f.Signature.Results().Len() != 1 || !isResultType(f.Signature.Results().At(0).Type()) {
		return false
	}
	calls := false
	instrs(f, func(in ssa.Instruction) {
		if _, ok := in.(ssa.CallInstruction); ok {
			calls = true
		}
	})
	return !calls
}

func takesResult(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if isResultType(prm.Type()) {
			return true
		}
	}
	return false
}

func takesSegments(f *ssa.Function) bool {
	for _, prm := range f.Params {
		t := prm.Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if isNamed(t, modPath, "PathSegment") {
			return true
		}
	}
	return false
}

// touchesModifiers: f reads or writes the modifiers of a segment.
func (p *Program) touchesModifiers(f *ssa.Function) bool {
	t := false
	for _, g := range p.reachFrom([]*ssa.Function{f}) {
		if p.recursive(g) {
			continue
		}
		instrs(g, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok && isModifiersField(fa.X.Type(), fa.Field) {
				t = true
			}
		})
	}
	return t
}

// recursive reports whether f can call itself.
func (p *Program) recursive(f *ssa.Function) bool {
	if p.rec == nil {
		p.rec = map[*ssa.Function]bool{}
	}
	v, ok := p.rec[f]
	if ok {
		return v
	}
	var next []*ssa.Function
	instrs(f, func(in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Function); ok && p.InLib(g) && g.Blocks != nil {
				next = append(next, g)
			}
		}
	})
	for _, g := range p.reachFrom(next) {
		if g == f {
			v = true
		}
	}
	p.rec[f] = v
	return v
}

func init() {
	checks["C24"] = checkC24
}
