package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stepLimit is the documented bound on the steps of one match.
const stepLimit = 10000

// matchWalk follows the matcher with what is known about the product of the two
// lengths.
type matchWalk struct {
	p     *Program
	x     *Explorer
	r     *Report
	root  *ssa.Function
	loops map[*ssa.Function][]*Loop
	seen  map[*ssa.Function]bool
}

func (w *matchWalk) loopsOf(f *ssa.Function) []*Loop {
	l, ok := w.loops[f]
	if !ok {
		l = findLoops(f)
		w.loops[f] = l
	}
	return l
}

// enclosing returns the loops around a block, innermost first.
func (w *matchWalk) enclosing(b *ssa.BasicBlock) []*Loop {
	var out []*Loop
	for _, l := range w.loopsOf(b.Parent()) {
		if l.Body[b] {
			out = append(out, l)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].Body) < len(out[j].Body) })
	return out
}

// dim tells which of the texts a length or a text comes from: "" for neither,
// "0" or "1" for one of them, "0*1" for a product, "?" when it cannot be told.
func (w *matchWalk) dim(fr *Frame, v ssa.Value, seen map[ssa.Value]bool) string {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] || len(seen) > 60 {
		return ""
	}
	seen[v] = true
	join := func(vs ...ssa.Value) string {
		out := ""
		for _, o := range vs {
			d := w.dim(fr, o, seen)
			if d == "" || d == out {
				continue
			}
			if out != "" {
				return "?"
			}
			out = d
		}
		return out
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Parameter:
		if fr != nil && fr.up != nil {
			i := paramIndex(v)
			if args := fr.call.Common().Args; i < len(args) {
				return w.dim(fr.up, args[i], nil)
			}
			return "?"
		}
		if v.Parent() == w.root && isString(v.Type()) {
			return fmt.Sprint(paramIndex(v))
		}
		if isInteger(v.Type()) {
			return "limit"
		}
		// analysed on its own: each text parameter stands for itself
		return "own" + v.Name()
	case *ssa.Convert:
		return w.dim(fr, v.X, seen)
	case *ssa.ChangeType:
		return w.dim(fr, v.X, seen)
	case *ssa.Slice:
		return w.dim(fr, v.X, seen)
	case *ssa.MakeSlice:
		return w.dim(fr, v.Len, seen)
	case *ssa.Extract:
		return w.dim(fr, v.Tuple, seen)
	case *ssa.Phi:
		return join(v.Edges...)
	case *ssa.Call:
		return join(v.Call.Args...)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				if s, _ := soleStore(al); s != nil {
					return w.dim(fr, s, seen)
				}
			}
			if ia, ok := v.X.(*ssa.IndexAddr); ok {
				// rows of a table are as wide as what is stored into it
				var vs []ssa.Value
				for _, ref := range *ia.X.Referrers() {
					if o, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *o.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(o) {
								vs = append(vs, st.Val)
							}
						}
					}
				}
				return join(vs...)
			}
			return "?"
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.SUB:
			return join(v.X, v.Y)
		case token.MUL:
			a, b := w.dim(fr, v.X, seen), w.dim(fr, v.Y, nil)
			if a == "" || b == "" {
				return a + b
			}
			return a + "*" + b
		case token.QUO, token.SHR, token.REM:
			return w.dim(fr, v.X, seen)
		}
	case *ssa.Alloc, *ssa.Global:
		return ""
	}
	return "?"
}

// grows reports whether v is phi plus something positive on every path (sign 1),
// or minus something positive (sign -1).
func grows(v ssa.Value, phi *ssa.Phi, sign int64, d int) bool { return moves(v, phi, sign, true, d) }

func moves(v ssa.Value, phi *ssa.Phi, sign int64, strict bool, d int) bool {
	if v == ssa.Value(phi) {
		return !strict
	}
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		n, ok := constInt(v.Y)
		if !ok || v.Op != token.ADD && v.Op != token.SUB {
			return false
		}
		if v.Op == token.SUB {
			n = -n
		}
		return n*sign > 0 && moves(v.X, phi, sign, false, d+1) || n == 0 && moves(v.X, phi, sign, strict, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !moves(e, phi, sign, strict, d+1) {
				return false
			}
		}
		return len(v.Edges) > 0
	}
	return false
}

// induction returns the phi a value is computed from and the direction in which
// it moves each time round.
func induction(l *Loop, v ssa.Value) (*ssa.Phi, int64) {
	for d := 0; d < 4; d++ {
		switch t := v.(type) {
		case *ssa.Phi:
			if t.Block() != l.Head {
				return nil, 0
			}
			for _, sign := range []int64{1, -1} {
				ok, any := true, false
				for i, e := range t.Edges {
					if l.Body[l.Head.Preds[i]] {
						any = true
						if !grows(e, t, sign, 0) {
							ok = false
						}
					}
				}
				if ok && any {
					return t, sign
				}
			}
			return nil, 0
		case *ssa.BinOp:
			if _, ok := constInt(t.Y); !ok || t.Op != token.ADD && t.Op != token.SUB {
				return nil, 0
			}
			v = t.X
			continue
		case *ssa.Convert:
			v = t.X
			continue
		}
		break
	}
	return nil, 0
}

func invariant(l *Loop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if !l.Body[in.Block()] {
		return true
	}
	// len of something from outside, computed each time
	if c, ok := v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
		return invariant(l, c.Call.Args[0])
	}
	if b, ok := v.(*ssa.BinOp); ok {
		return invariant(l, b.X) && invariant(l, b.Y)
	}
	return false
}

// exits returns the tests of a loop that every round passes and that can leave it.
func exits(l *Loop) []*ssa.If {
	var out []*ssa.If
	for b := range l.Body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.Body[b.Succs[0]] && l.Body[b.Succs[1]] {
			continue
		}
		every := true
		for _, la := range l.Latch {
			if !b.Dominates(la) {
				every = false
			}
		}
		if every {
			out = append(out, iff)
		}
	}
	return out
}

// counted returns the size of a loop that walks once over something.
func (w *matchWalk) counted(fr *Frame, l *Loop) (string, bool) {
	for _, iff := range exits(l) {
		if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
			if nx, ok := ex.Tuple.(*ssa.Next); ok {
				return w.dim(fr, nx.Iter.(*ssa.Range).X, nil), true
			}
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		stay := l.Body[iff.Block().Succs[0]]
		for _, o := range []struct {
			v, bound ssa.Value
			op       token.Token
		}{{bo.X, bo.Y, bo.Op}, {bo.Y, bo.X, flip(bo.Op)}} {
			op := o.op
			if !stay {
				op = negate(op)
			}
			phi, sign := induction(l, o.v)
			if phi == nil || !invariant(l, o.bound) {
				continue
			}
			switch {
			case sign > 0 && (op == token.LSS || op == token.LEQ || op == token.NEQ):
				return w.dim(fr, o.bound, nil), true
			case sign < 0 && (op == token.GTR || op == token.GEQ || op == token.NEQ):
				var starts []ssa.Value
				for i, e := range phi.Edges {
					if !l.Body[l.Head.Preds[i]] {
						starts = append(starts, e)
					}
				}
				if len(starts) == 1 {
					return w.dim(fr, starts[0], nil), true
				}
			}
		}
	}
	return "", false
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// isLimit: the value is the limit handed in, or a constant within the bound.
func (w *matchWalk) isLimit(fr *Frame, v ssa.Value) bool {
	if n, ok := constInt(v); ok {
		return n <= stepLimit
	}
	return w.dim(fr, v, nil) == "limit"
}

// stepped: every round of the loop counts a step against the limit, and the count
// is not started anew by a loop around it.
func (w *matchWalk) stepped(fr *Frame, l *Loop) bool {
	for _, iff := range exits(l) {
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		stay := l.Body[iff.Block().Succs[0]]
		for _, o := range []struct {
			v, bound ssa.Value
			op       token.Token
		}{{bo.X, bo.Y, bo.Op}, {bo.Y, bo.X, flip(bo.Op)}} {
			op := o.op
			if !stay {
				op = negate(op)
			}
			phi, sign := induction(l, o.v)
			if phi == nil {
				continue
			}
			up := sign > 0 && (op == token.LSS || op == token.LEQ) && w.isLimit(fr, o.bound)
			_, isC := constInt(o.bound)
			down := sign < 0 && (op == token.GTR || op == token.GEQ || op == token.NEQ) && isC
			if (up || down) && w.carried(fr, l, phi, down, 0) {
				return true
			}
		}
	}
	return false
}

// carried: the counter starts outside all loops.
func (w *matchWalk) carried(fr *Frame, l *Loop, phi *ssa.Phi, down bool, d int) bool {
	if d > 4 {
		return false
	}
	for i, e := range phi.Edges {
		if l.Body[l.Head.Preds[i]] {
			continue
		}
		if l.Parent == nil {
			if fr != nil && fr.up != nil && len(w.enclosing(fr.call.Block())) > 0 {
				return false
			}
			n, isC := constInt(e)
			if down && !w.isLimit(fr, e) || !down && !(isC && n >= 0) {
				return false
			}
			continue
		}
		up, ok := headPhi(l.Parent, e, 0)
		if !ok {
			return false
		}
		// what the outer loop carries on must come from this counter
		for j, e2 := range up.Edges {
			if l.Parent.Body[l.Parent.Head.Preds[j]] {
				if _, isC := constInt(e2); isC || !feeds(e2, phi, up, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
		if !w.carried(fr, l.Parent, up, down, d+1) {
			return false
		}
	}
	return true
}

func headPhi(l *Loop, v ssa.Value, d int) (*ssa.Phi, bool) {
	p, ok := v.(*ssa.Phi)
	if !ok || d > 4 {
		return nil, false
	}
	if p.Block() == l.Head {
		return p, true
	}
	var res *ssa.Phi
	for _, e := range p.Edges {
		q, ok := headPhi(l, e, d+1)
		if !ok || res != nil && q != res {
			return nil, false
		}
		res = q
	}
	return res, res != nil
}

// feeds: the value is the counter, or the outer counter unchanged, on every path.
func feeds(v ssa.Value, phi, outer *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(phi) || v == ssa.Value(outer) || seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !feeds(e, phi, outer, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return (v.Op == token.ADD || v.Op == token.SUB) && feeds(v.X, phi, outer, seen)
	}
	return false
}

// nest returns the sizes of the loops around a block through all callers.
func (w *matchWalk) nest(fr *Frame, b *ssa.BasicBlock) (dims []string, counted bool) {
	counted = true
	for f := fr; f != nil; f = f.up {
		for _, l := range w.enclosing(b) {
			d, ok := w.counted(f, l)
			if !ok {
				counted = false
				d = "?"
			}
			if d != "" {
				dims = append(dims, d)
			}
		}
		if f.up != nil {
			b = f.call.Block()
		}
	}
	return dims, counted
}

func bothTexts(dims []string) bool {
	s := strings.Join(dims, "*")
	return s == "0*1" || s == "1*0"
}

// productTest recognises a test that bounds the product of the two lengths.
func (w *matchWalk) productTest(s *State, cond ssa.Value, taken bool) bool {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 6; d++ {
		a = w.x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, taken = AV{fr: a.fr, v: u.X}, !taken
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok || !isInteger(bo.X.Type()) {
		return false
	}
	for _, o := range []struct {
		l, r ssa.Value
		op   token.Token
	}{{bo.X, bo.Y, bo.Op}, {bo.Y, bo.X, flip(bo.Op)}} {
		op := o.op
		if !taken {
			op = negate(op)
		}
		l := w.dim(a.fr, o.l, nil)
		n, isC := constInt(o.r)
		// an empty text
		if (l == "0" || l == "1") && isC && (n == 0 && (op == token.EQL || op == token.LEQ) || n == 1 && op == token.LSS) {
			return true
		}
		if op != token.LEQ && op != token.LSS {
			continue
		}
		if bothTexts([]string{l}) && w.isLimit(a.fr, o.r) {
			return true
		}
		if q, ok := o.r.(*ssa.BinOp); ok && q.Op == token.QUO && w.isLimit(a.fr, q.X) && bothTexts([]string{l, w.dim(a.fr, q.Y, nil)}) {
			return true
		}
	}
	return false
}

// overLimit: on this edge something is beyond the limit handed in.
func (w *matchWalk) overLimit(s *State, cond ssa.Value, taken bool) bool {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 6; d++ {
		a = w.x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, taken = AV{fr: a.fr, v: u.X}, !taken
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok || !isInteger(bo.X.Type()) {
		return false
	}
	op := bo.Op
	if !taken {
		op = negate(op)
	}
	if w.dim(a.fr, bo.X, nil) == "limit" {
		return op == token.LSS
	}
	return w.dim(a.fr, bo.Y, nil) == "limit" && op == token.GTR
}

func (w *matchWalk) walk(f *ssa.Function) {
	p, r := w.p, w.r
	x := newExplorer(p)
	x.TrackInt, x.Mem = true, true
	w.x, w.root = x, f
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
		if callee.Pkg != f.Pkg {
			return false
		}
		if len(w.enclosing(call.Block())) > 0 || isBoolResult(callee) {
			return true
		}
		// anything that is more than one pass over its input
		for _, l := range w.loopsOf(callee) {
			if _, ok := w.counted(nil, l); l.Parent != nil || !ok {
				return true
			}
		}
		more := false
		instrs(callee, func(in ssa.Instruction) {
			if mk, ok := in.(*ssa.MakeSlice); ok {
				if len(w.enclosing(mk.Block())) > 0 || strings.Contains(w.dim(nil, mk.Len, nil), "*") {
					more = true
				}
			}
		})
		return more
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if w.productTest(s, iff.Cond, taken) {
			s.Bits |= 1
		}
		if w.overLimit(s, iff.Cond, taken) {
			s.Bits |= 2
		}
		return true
	}
	name := p.shortName(f)
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		w.seen[in.Parent()] = true
		b := in.Block()
		for _, l := range w.loopsOf(b.Parent()) {
			if l.Head != b || indexIn(in) != firstNonPhi(b) {
				continue
			}
			r.Count("loops", 1)
			dims, counted := w.nest(s.fr, b)
			where := p.At(in)
			switch {
			case counted && len(dims) <= 1:
				r.OK("bounded-steps", where, "one pass in "+p.shortName(b.Parent()))
			case w.stepped(s.fr, l):
				r.OK("bounded-steps", where, "counts its steps in "+p.shortName(b.Parent()))
			case counted && s.Bits&1 != 0 && bothTexts(dims):
				r.OK("bounded-steps", where, "entered only when value times pattern is within the limit in "+p.shortName(b.Parent()))
			default:
				r.Bad("bounded-steps", where, p.shortName(b.Parent()), "loop can run more often than the limit allows: its rounds are neither counted against the limit nor bounded by a test of value length times pattern length", x.Trace(s)...)
			}
		}
		if mk, ok := in.(*ssa.MakeSlice); ok {
			r.Count("allocations", 1)
			dims, _ := w.nest(s.fr, b)
			size := w.dim(s.fr, mk.Len, nil)
			if c := w.dim(s.fr, mk.Cap, nil); c != "" && size == "" {
				size = c
			}
			all := dims
			if size != "" {
				all = append(append([]string{}, dims...), size)
			}
			switch {
			case len(all) <= 1 && !strings.Contains(size, "*"):
				r.OK("bounded-memory", p.At(in), "as long as its input in "+p.shortName(b.Parent()))
			case s.Bits&1 != 0 && bothTexts(all):
				r.OK("bounded-memory", p.At(in), "made only when value times pattern is within the limit in "+p.shortName(b.Parent()))
			case len(dims) > 0 && size == "" && s.Bits&1 != 0:
				r.OK("bounded-memory", p.At(in), "constant size in "+p.shortName(b.Parent()))
			default:
				r.Bad("bounded-memory", p.At(in), p.shortName(b.Parent()), "memory grows with value length times pattern length before the product is tested against the limit", x.Trace(s)...)
			}
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if len(ret.Results) != 2 || !isBool(ret.Results[0].Type()) || !isBool(ret.Results[1].Type()) || deadReturn(ret) {
			return
		}
		r.Count("matcher_returns", 1)
		st := x.evalBoolAV(s, AV{fr: s.fr, v: ret.Results[1]}, 0)
		m := x.evalBoolAV(s, AV{fr: s.fr, v: ret.Results[0]}, 0)
		switch {
		case s.Bits&2 != 0 && st <= 0:
			r.Bad("stopped-is-no-match", p.At(ret), name, "the limit is hit and this is not reported", x.Trace(s)...)
		case st < 0 || m < 0:
			r.OK("stopped-is-no-match", p.At(ret), "not both")
		case st > 0:
			r.Bad("stopped-is-no-match", p.At(ret), name, "gives up and may still report a match", x.Trace(s)...)
		default:
			r.Bad("stopped-is-no-match", p.At(ret), name, "cannot be shown to report no match when it gives up", x.Trace(s)...)
		}
	}
	x.Run(f)
	r.Count("walked_states", x.Nodes)
	if x.Overflow {
		r.Bad("bounded-steps", p.Pos(f.Pos()), name, "too complex to follow")
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func isBoolResult(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isBool(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func checkC23(p *Program, r *Report) {
	r.Explanation = "Loop and allocation analysis of the pattern matcher and path-sensitive walk of its use. Every loop of the matcher must be a single pass over one of the texts, count its steps against the limit handed in (with a count no outer loop restarts), or be entered only where a test has bounded value length times pattern length by that limit; memory of two-dimensional size must only be allocated behind such a test. Every return that reports giving up must report no match. Every call hands in a constant limit of at most 10000, and the filter evaluator answers no whenever the matcher gave up, for both pattern operators. Not covered: the constant factor of a step."
	r.Assumptions = []string{"a helper that rewrites a text does not make it longer", "int does not overflow when two text lengths are multiplied"}
	r.Rule("bounded-steps", "every loop of the matcher is one pass, counted, or behind the size test")
	r.Rule("bounded-memory", "two-dimensional memory is only allocated behind the size test")
	r.Rule("stopped-is-no-match", "giving up is never reported together with a match")
	r.Rule("limit-handed-in", "every call of the matcher hands in a constant limit of at most 10000")
	r.Rule("gave-up-is-no", "the filter answers no when the matcher gave up")
	var match *ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/internal/pattern" && f.Name() == "Match" && f.Signature.Recv() == nil {
			match = f
		}
	}
	if match == nil || len(match.Params) != 3 || !isString(match.Params[0].Type()) || !isString(match.Params[1].Type()) || !isInteger(match.Params[2].Type()) {
		r.Bad("anchor", "-", "pattern.Match", "the matcher (value, pattern, limit) is missing")
		return
	}
	w := &matchWalk{p: p, r: r, loops: map[*ssa.Function][]*Loop{}, seen: map[*ssa.Function]bool{}}
	reach := p.reachFrom([]*ssa.Function{match})
	for _, f := range reach {
		if p.recursive(f) {
			r.Bad("bounded-steps", p.Pos(f.Pos()), p.shortName(f), "recursive matcher: its steps cannot be bounded")
		}
	}
	w.walk(match)
	for _, f := range reach {
		if f.Blocks != nil && p.InLib(f) && !w.seen[f] {
			w.walk(f)
		}
	}
	for _, c := range p.callers[match] {
		if c.Parent() == match {
			continue
		}
		r.Count("matcher_calls", 1)
		if n, ok := p.constThrough(c.Common().Args[2], 0); !ok {
			r.Bad("limit-handed-in", p.At(c), p.shortName(c.Parent()), "the limit handed to the matcher is not a constant")
		} else if n > stepLimit {
			r.Bad("limit-handed-in", p.At(c), p.shortName(c.Parent()), fmt.Sprintf("the limit handed to the matcher is %d, more than %d", n, stepLimit))
		} else {
			r.OK("limit-handed-in", p.At(c), fmt.Sprintf("%d", n))
		}
	}
	ops := p.filterOps(r)
	for _, e := range p.evaluators() {
		for _, op := range ops {
			if op.text != "%" && op.text != "!%" {
				continue
			}
			p.gaveUp(r, e, op)
		}
	}
	r.Min("loops", 1)
	r.Min("matcher_calls", 1)
	r.Min("matcher_returns", 2)
	r.Min("answers_after_matching", 2)
}

// constThrough resolves a constant through parameters, when all callers agree.
func (p *Program) constThrough(v ssa.Value, d int) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, true
	}
	switch v := v.(type) {
	case *ssa.Convert:
		return p.constThrough(v.X, d+1)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if c := p.onceGlobal(g); c != nil {
				return p.constThrough(c, d+1)
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		if d > 3 || p.addrTkn[f] || len(p.callers[f]) == 0 || p.isEntry(f) {
			return 0, false
		}
		best, any := int64(0), false
		for _, c := range p.callers[f] {
			n, ok := p.constThrough(c.Common().Args[paramIndex(v)], d+1)
			if !ok {
				return 0, false
			}
			if !any || n > best {
				best, any = n, true
			}
		}
		return best, any
	}
	return 0, false
}

// gaveUp: no path answers yes when the matcher gave up.
func (p *Program) gaveUp(r *Report, e *ssa.Function, op *filterOp) {
	w := &filterWalk{p: p, r: r, syms: map[string]*Sym{}, anyLimit: true}
	w.setup(op, map[*ssa.Function]bool{})
	x := w.x
	name := p.shortName(e)
	good, n := true, 0
	mark := x.Instr
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok && calleeName(c.Common()) == modPath+"/internal/pattern.Match" {
			s.Bits |= 1 << 63
		}
		return mark(x, s, in)
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if s.Bits&(1<<63) == 0 || deadReturn(ret) {
			return
		}
		n++
		r.Count("answers_after_matching", 1)
		if v, ok := known(s, faStopped); ok && !v {
			return
		}
		// the matcher may have given up, and then reports no match
		if v, ok := known(s, faMatch); ok && v {
			return
		}
		v := AV{fr: s.fr, v: ret.Results[0]}
		ans, decided := false, false
		if d := x.evalBoolAV(s, v, 0); d != 0 {
			ans, decided = d > 0, true
		} else if y, ok := x.resolve(s, v).v.(*Sym); ok {
			switch y.atom {
			case faMatch:
				ans, decided = y.neg, true
			case faStopped:
				ans, decided = !y.neg, true
			}
		}
		if !decided {
			good = false
			r.Bad("gave-up-is-no", p.At(ret), name, "operator "+op.text+": the answer after matching is not told by the matcher", x.Trace(s)...)
		} else if ans {
			good = false
			r.Bad("gave-up-is-no", p.At(ret), name, "operator "+op.text+": answers yes although the matcher may have given up", x.Trace(s)...)
		}
	}
	x.Run(e)
	r.Count("walked_states", x.Nodes)
	if x.Overflow {
		r.Bad("gave-up-is-no", p.Pos(e.Pos()), name, "too complex to follow")
	} else if good && n > 0 {
		r.OK("gave-up-is-no", p.Pos(e.Pos()), name+": "+op.name)
	}
}

func init() {
	checks["C23"] = checkC23
}
