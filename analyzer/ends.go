package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: every loop and every recursion comes to an end.

const roundBudget = 250

func init() {
	checks["C13"] = checkC13
}

// rounder judges one loop.
type rounder struct {
	n    *prover
	fr   *nframe
	l    *Loop
	head *ssa.BasicBlock
	c    *nctx
	seen map[string]bool
	ms   []nlin
}

func (r *rounder) add(m nlin) {
	m = r.n.relin(r.c, m)
	if len(m.m) == 0 {
		return
	}
	if k := m.key(); !r.seen[k] {
		r.seen[k] = true
		r.ms = append(r.ms, m)
	}
}

// outside: the value is the same in every round, or a variable of the loop.
func (r *rounder) outside(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Phi:
		return x.Block() == r.head || !r.l.Body[x.Block()]
	case ssa.Instruction:
		return !r.l.Body[x.Block()]
	}
	return false
}

// atHead is the term an expression of the loop stands for at its head.
func (r *rounder) atHead(v ssa.Value) (term, bool) {
	if r.outside(v) {
		return term{fr: r.fr, v: v}, true
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		loc, ok := r.n.place(r.c, r.fr, ld.X)
		if ok && loc.elem == "" && (loc.base.ver == nil && r.outside(loc.base.v)) {
			return r.n.at(r.c, r.fr, r.head, 0, loc, 0), true
		}
	}
	return term{}, false
}

// form is an expression of the loop as it would be at its head.
func (r *rounder) form(v ssa.Value, d int) (nlin, bool) {
	if d > 8 {
		return nlin{}, false
	}
	if t, ok := r.atHead(v); ok {
		if !isInteger(v.Type()) {
			return nlin{}, false
		}
		return r.n.lin(r.c, t), true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, ok := r.form(x.X, d+1)
		if !ok {
			return a, false
		}
		b, ok := r.form(x.Y, d+1)
		if !ok {
			return b, false
		}
		switch x.Op {
		case token.ADD:
			return a.add(b, 1), true
		case token.SUB:
			return a.add(b, -1), true
		}
	case *ssa.Convert:
		if isInteger(x.Type()) && isInteger(x.X.Type()) && keepsValue(x.X.Type(), x.Type()) {
			return r.form(x.X, d+1)
		}
	case *ssa.Call:
		if calleeName(x.Common()) == "builtin.len" {
			if t, ok := r.atHead(x.Call.Args[0]); ok {
				return r.n.length(r.c, t), true
			}
		}
	}
	return nlin{}, false
}

// candidates are the measures worth trying.
func (r *rounder) candidates() {
	n := r.n
	var back []nlin
	for _, b := range r.fr.fn.Blocks {
		if !r.l.Body[b] {
			continue
		}
		for _, in := range b.Instrs {
			cmp, ok := in.(*ssa.BinOp)
			if !ok || !isInteger(cmp.X.Type()) {
				continue
			}
			switch cmp.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			x, ok := r.form(cmp.X, 0)
			if !ok {
				continue
			}
			y, ok := r.form(cmp.Y, 0)
			if !ok {
				continue
			}
			switch cmp.Op {
			case token.LSS, token.LEQ:
				r.add(y.add(x, -1))
				back = append(back, x.add(y, -1))
			case token.GTR, token.GEQ:
				r.add(x.add(y, -1))
				back = append(back, y.add(x, -1))
			default:
				r.add(y.add(x, -1))
				r.add(x.add(y, -1))
			}
		}
	}
	// what the invariants bound
	objs := map[ssa.Value]bool{}
	for _, b := range r.fr.fn.Blocks {
		if !r.l.Body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var vs []ssa.Value
			switch x := in.(type) {
			case *ssa.FieldAddr:
				vs = append(vs, x.X, x)
			case ssa.CallInstruction:
				vs = x.Common().Args
			}
			for _, v := range vs {
				if objs[v] {
					continue
				}
				objs[v] = true
				pt, ok := v.Type().Underlying().(*types.Pointer)
				if !ok || !isStruct(pt.Elem()) {
					continue
				}
				loc, ok := n.place(r.c, r.fr, v)
				if !ok || loc.elem != "" || loc.base.ver != nil || !r.outside(loc.base.v) {
					continue
				}
				for _, iv := range n.inv[types.TypeString(pt.Elem(), nil)] {
					if iv.b < 0 {
						continue
					}
					get := func(i int, isLen bool) nlin {
						l := loc
						l.path += fmt.Sprintf(".%d", i)
						t := n.at(r.c, r.fr, r.head, 0, l, 0)
						if isLen {
							return n.length(r.c, t)
						}
						return n.lin(r.c, t)
					}
					r.add(nconst(iv.c).add(get(iv.a, iv.lenA), 1).add(get(iv.b, iv.lenB), -1))
				}
			}
		}
	}
	for _, in := range r.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch {
		case isInteger(ph.Type()):
			r.add(n.lin(r.c, term{fr: r.fr, v: ph}))
		case isString(ph.Type()):
			r.add(n.length(r.c, term{fr: r.fr, v: ph}))
		default:
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				r.add(n.length(r.c, term{fr: r.fr, v: ph}))
			}
		}
	}
	// a loop left once a comparison holds
	for _, m := range back {
		r.add(m)
	}
}

// falls: going round by the edge makes the measure smaller, or no larger, and it cannot
// be small already.
func (r *rounder) falls(m nlin, i int, strict bool) bool {
	n := r.n
	p := r.head.Preds[i]
	at := &nctx{fr: r.fr, blk: p, idx: len(p.Instrs), choice: map[nchoice]int{}}
	next, ok := n.atEdge(at, m, r.fr, r.head, i)
	if !ok {
		return false
	}
	d := m.add(next, -1)
	if strict {
		d.c--
	}
	try := func(g nlin) bool {
		n.steps = roundBudget
		n.open = nil
		return n.proveEdge(at, p, r.head, g, 0)
	}
	if !try(d) {
		return false
	}
	if !strict {
		return true
	}
	low := m.clone()
	low.c += 16
	return try(low)
}

// readers take from an input of fixed size and say when nothing is left.
var readers = map[string]bool{
	"(*encoding/xml.Decoder).Token": true, "(*encoding/xml.Decoder).RawToken": true,
	"(*bufio.Scanner).Scan": true, "(*bufio.Reader).ReadByte": true, "(*bufio.Reader).ReadRune": true, "(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true,
	"(*strings.Reader).ReadByte": true, "(*strings.Reader).ReadRune": true, "(*bytes.Reader).ReadByte": true, "(*bytes.Reader).ReadRune": true, "(*bytes.Buffer).ReadByte": true, "(*bytes.Buffer).ReadRune": true, "(*bytes.Buffer).ReadString": true, "(*bytes.Buffer).ReadBytes": true,
}

// drains: every round reads an item and goes on only if there was one.
func (n *prover) drains(l *Loop) bool {
	for b := range l.Body {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !readers[calleeName(call.Common())] {
				continue
			}
			if src, ok := call.Call.Args[0].(ssa.Instruction); ok && l.Body[src.Block()] {
				continue
			}
			all := true
			for _, p := range l.Latch {
				all = all && goesOn(call, p)
			}
			if all {
				return true
			}
		}
	}
	return false
}

// goesOn: the block is reached only if the read gave something.
func goesOn(call *ssa.Call, b *ssa.BasicBlock) bool {
	for _, cd := range condsAt(b) {
		if cd.Val == ssa.Value(call) {
			return cd.Pos
		}
		cmp, ok := cd.Val.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		for _, p := range [2][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			ex, ok := p[0].(*ssa.Extract)
			if ok && ex.Tuple == ssa.Value(call) && isErrorType(ex.Type()) && isNilConst(p[1]) && cd.Pos == (cmp.Op == token.EQL) {
				return true
			}
		}
	}
	return false
}

// ends: why the loop ends; "" if no reason was found.
func (n *prover) ends(f *ssa.Function, l *Loop) (string, string) {
	for _, in := range l.Head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !l.Body[rg.Block()] {
				return "one round per entry", ""
			}
		}
	}
	if n.drains(l) {
		return "one round per item read", ""
	}
	fr := n.root(f)
	r := &rounder{n: n, fr: fr, l: l, head: l.Head, seen: map[string]bool{}}
	r.c = &nctx{fr: fr, blk: l.Head, choice: map[nchoice]int{}}
	r.candidates()
	var back []int
	for i, p := range l.Head.Preds {
		if l.Body[p] {
			back = append(back, i)
		}
	}
	// one measure after the other, each for the ways round the ones before do not settle
	used := ""
	left := back
	for {
		progress := false
		for _, m := range r.ms {
			var rest []int
			ok := true
			for _, i := range left {
				if !r.falls(m, i, true) {
					rest = append(rest, i)
				}
			}
			if len(rest) == len(left) {
				continue
			}
			for _, i := range rest {
				ok = ok && r.falls(m, i, false)
			}
			if !ok {
				continue
			}
			if used != "" {
				used += ", then "
			}
			used += n.show(m)
			left = rest
			progress = true
			break
		}
		if len(left) == 0 {
			return used, ""
		}
		if !progress {
			break
		}
	}
	tried := ""
	for i, m := range r.ms {
		if i == 6 {
			tried += " …"
			break
		}
		tried += "; " + n.show(m)
	}
	return "", tried
}

// Recursion. Calls between functions that can reach each other again are the edges of a
// graph; measures over the parameters that no edge can raise are found one after the
// other, and the edges on which the measure falls are taken out, until no cycle is left.

type redge struct {
	from, to *ssa.Function
	call     ssa.CallInstruction
	args     []ssa.Value
}

// rmeasure is a measure over the parameters of a function.
type rmeasure struct {
	part bool // how deeply the parameter is nested
	len  int  // parameter whose length counts, -1 if none
	sub  int  // parameter that is taken off
	add  int  // parameter that counts
	ptr  int  // parameter whose field is taken off
	path string
}

func (m rmeasure) show(f *ssa.Function) string {
	switch {
	case m.part:
		return "nesting of " + f.Params[m.add].Name()
	case m.len >= 0 && m.sub >= 0:
		return "len(" + f.Params[m.len].Name() + ")-" + f.Params[m.sub].Name()
	case m.ptr >= 0:
		return "limit-" + f.Params[m.ptr].Name() + m.path
	case m.sub >= 0:
		return "limit-" + f.Params[m.sub].Name()
	}
	return f.Params[m.add].Name()
}

func rmeasures(f *ssa.Function, part bool) []rmeasure {
	var out []rmeasure
	none := rmeasure{len: -1, sub: -1, add: -1, ptr: -1}
	var ints, lens []int
	for i, p := range f.Params {
		if isInteger(p.Type()) {
			ints = append(ints, i)
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok || isString(p.Type()) {
			lens = append(lens, i)
		}
		if part {
			switch u := p.Type().Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					m := none
					m.part, m.add = true, i
					out = append(out, m)
				}
			case *types.Slice, *types.Pointer, *types.Struct:
				m := none
				m.part, m.add = true, i
				out = append(out, m)
			}
			continue
		}
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			for _, path := range intFields(p.Type(), false) {
				m := none
				m.ptr, m.path = i, path
				out = append(out, m)
			}
		}
	}
	if part {
		return out
	}
	for _, i := range ints {
		for _, l := range lens {
			m := none
			m.len, m.sub = l, i
			out = append(out, m)
		}
	}
	for _, i := range ints {
		m := none
		m.sub = i
		out = append(out, m)
		m = none
		m.add = i
		out = append(out, m)
	}
	return out
}

// of is the measure of given arguments.
func (n *prover) of(m rmeasure, c *nctx, fr *nframe, arg func(i int) ssa.Value, b *ssa.BasicBlock, idx int) (nlin, bool) {
	out := nconst(0)
	if m.len >= 0 {
		out = out.add(n.length(c, term{fr: fr, v: arg(m.len)}), 1)
	}
	if m.sub >= 0 {
		out = out.add(n.lin(c, term{fr: fr, v: arg(m.sub)}), -1)
	}
	if m.add >= 0 {
		out = out.add(n.lin(c, term{fr: fr, v: arg(m.add)}), 1)
	}
	if m.ptr >= 0 {
		l, ok := n.part(c, term{fr: fr, v: arg(m.ptr)}, npart{path: m.path}, fr, b, idx)
		if !ok {
			return out, false
		}
		out = out.add(l, -1)
	}
	return out, true
}

// lowers: at the call the measure of the callee is below that of the caller, or not above.
func (n *prover) lowers(e redge, mf, mg rmeasure, strict bool) bool {
	if mf.part != mg.part {
		return false
	}
	if mf.part {
		k, ok := n.nested(e.args[mg.add], e.from.Params[mf.add], 0)
		return ok && (k > 0 || !strict)
	}
	in := e.call
	ok := true
	prove := func(low bool) bool {
		return n.holds(e.from, in, func(c *nctx, fr *nframe) nlin {
			a, ok1 := n.of(mf, c, fr, func(i int) ssa.Value { return e.from.Params[i] }, e.from.Blocks[0], 0)
			b, ok2 := n.of(mg, c, fr, func(i int) ssa.Value { return e.args[i] }, in.Block(), indexIn(in))
			if !ok1 || !ok2 {
				ok = false
				return nconst(-1)
			}
			if low {
				a.c += 100000
				return a
			}
			d := a.add(b, -1)
			if strict {
				d.c--
			}
			return d
		}, roundBudget)
	}
	if !prove(false) || !ok {
		return false
	}
	return !strict || prove(true)
}

// nested: the value is the parameter (0) or lies inside it (more).
func (n *prover) nested(v ssa.Value, p *ssa.Parameter, d int) (int, bool) {
	if d > 40 {
		return 0, false
	}
	if v == ssa.Value(p) {
		return 0, true
	}
	in := func(x ssa.Value, k int) (int, bool) {
		m, ok := n.nested(x, p, d+1)
		return m + k, ok
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return in(x.X, 0)
		}
	case *ssa.FieldAddr:
		return in(x.X, 1)
	case *ssa.Field:
		return in(x.X, 1)
	case *ssa.IndexAddr:
		return in(x.X, 1)
	case *ssa.Index:
		return in(x.X, 1)
	case *ssa.Lookup:
		return in(x.X, 1)
	case *ssa.Slice:
		return in(x.X, 0)
	case *ssa.ChangeType:
		return in(x.X, 0)
	case *ssa.Convert:
		return in(x.X, 0)
	case *ssa.FreeVar:
		if b := n.p.freeVarBinding(x); b != nil {
			return in(b, 0)
		}
	case *ssa.Alloc:
		// a local copy
		var st *ssa.Store
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
				if st != nil {
					return 0, false
				}
				st = s
			}
		}
		if st != nil {
			return in(st.Val, 0)
		}
	case *ssa.Phi:
		least, found := 0, false
		for _, e := range x.Edges {
			if isNilConst(e) {
				continue
			}
			k, ok := n.nested(e, p, d+8)
			if !ok {
				return 0, false
			}
			if !found || k < least {
				least, found = k, true
			}
		}
		return least, found
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return n.reread(c, p, d)
		}
	case *ssa.Call:
		return n.reread(x, p, d)
	}
	return 0, false
}

// reread: what a function of the library makes of parts of the parameter only.
func (n *prover) reread(c *ssa.Call, p *ssa.Parameter, d int) (int, bool) {
	g := c.Call.StaticCallee()
	if g == nil || !n.p.InLib(g) && !passesText[calleeName(c.Common())] {
		return 0, false
	}
	least, found := 0, false
	for _, a := range c.Call.Args {
		if _, ok := a.(*ssa.Const); ok || isInteger(a.Type()) {
			continue
		}
		k, ok := n.nested(a, p, d+1)
		if !ok {
			return 0, false
		}
		if !found || k < least {
			least, found = k, true
		}
	}
	// only what was nested to begin with, or read from the text
	return least, found && (least > 0 || isString(p.Type()))
}

var passesText = map[string]bool{"strings.TrimSpace": true, "strings.Trim": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Clone": true}

func (p *Program) freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	var mc *ssa.MakeClosure
	instrs(f.Parent(), func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
			mc = m
		}
	})
	if mc == nil {
		return nil
	}
	for i, x := range f.FreeVars {
		if x == fv {
			return mc.Bindings[i]
		}
	}
	return nil
}

// cycles are the calls by which functions can reach themselves.
func (p *Program) cycles(live map[*ssa.Function]bool) []redge {
	var all []redge
	for _, f := range p.Funcs {
		if !live[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := c.Common()
			var gs []*ssa.Function
			args := cc.Args
			switch {
			case cc.IsInvoke():
				gs = p.invoked(cc)
				args = append([]ssa.Value{cc.Value}, args...)
			case cc.StaticCallee() != nil:
				gs = []*ssa.Function{cc.StaticCallee()}
			default:
				if _, ok := cc.Value.(*ssa.Builtin); !ok {
					gs = p.dynamic(cc)
				}
			}
			for _, g := range gs {
				if live[g] && len(args) == len(g.Params) {
					all = append(all, redge{f, g, c, args})
				}
			}
		})
	}
	return onCycle(all)
}

// onCycle keeps the edges that lie on a cycle.
func onCycle(es []redge) []redge {
	comp := components(es)
	var out []redge
	for _, e := range es {
		if comp[e.from] == comp[e.to] {
			out = append(out, e)
		}
	}
	return out
}

// components numbers the strongly connected components (Tarjan).
func components(es []redge) map[*ssa.Function]int {
	succ := map[*ssa.Function][]*ssa.Function{}
	var order []*ssa.Function
	known := map[*ssa.Function]bool{}
	note := func(f *ssa.Function) {
		if !known[f] {
			known[f] = true
			order = append(order, f)
		}
	}
	for _, e := range es {
		note(e.from)
		note(e.to)
		succ[e.from] = append(succ[e.from], e.to)
	}
	index, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	comp := map[*ssa.Function]int{}
	var stack []*ssa.Function
	k, nc := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		k++
		index[f], low[f] = k, k
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ[f] {
			if index[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], index[g])
			}
		}
		if low[f] == index[f] {
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp[g] = nc
				if g == f {
					break
				}
			}
			nc++
		}
	}
	for _, f := range order {
		if index[f] == 0 {
			visit(f)
		}
	}
	return comp
}

type rkey struct {
	call   ssa.CallInstruction
	to     *ssa.Function
	f, g   rmeasure
	strict bool
}

// settle finds measures for the calls of one component; it returns the calls left over.
func (n *prover) settle(es []redge) ([]redge, []string) {
	memo := map[rkey]bool{}
	lowers := func(e redge, a, b rmeasure, strict bool) bool {
		k := rkey{e.call, e.to, a, b, strict}
		v, ok := memo[k]
		if !ok {
			v = n.lowers(e, a, b, strict)
			memo[k] = v
		}
		return v
	}
	var used []string
	work := [][]redge{es}
	var left []redge
	for len(work) > 0 {
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		if len(cur) == 0 {
			continue
		}
		var fs []*ssa.Function
		seen := map[*ssa.Function]bool{}
		for _, e := range cur {
			for _, f := range []*ssa.Function{e.from, e.to} {
				if !seen[f] {
					seen[f] = true
					fs = append(fs, f)
				}
			}
		}
		var rest []redge
		done := false
		for _, part := range []bool{true, false} {
			pick := map[*ssa.Function]rmeasure{}
			tries := 0
			var assign func(i int) bool
			assign = func(i int) bool {
				if i == len(fs) {
					rest = nil
					for _, e := range cur {
						if !lowers(e, pick[e.from], pick[e.to], true) {
							rest = append(rest, e)
						}
					}
					return len(rest) < len(cur)
				}
				for _, m := range rmeasures(fs[i], part) {
					if tries++; tries > 4000 {
						return false
					}
					pick[fs[i]] = m
					ok := true
					for _, e := range cur {
						a, ok1 := pick[e.from]
						b, ok2 := pick[e.to]
						if (e.from == fs[i] || e.to == fs[i]) && ok1 && ok2 && !lowers(e, a, b, false) {
							ok = false
							break
						}
					}
					if ok && assign(i+1) {
						return true
					}
					delete(pick, fs[i])
				}
				return false
			}
			if assign(0) {
				text := ""
				for _, f := range fs {
					text += "; " + f.Name() + ": " + pick[f].show(f)
				}
				used = append(used, text[2:])
				done = true
				break
			}
		}
		if !done {
			left = append(left, cur...)
			continue
		}
		by := map[int][]redge{}
		comp := components(rest)
		var keys []int
		for _, e := range onCycle(rest) {
			k := comp[e.from]
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], e)
		}
		for _, k := range keys {
			work = append(work, by[k])
		}
	}
	return left, used
}

func checkC13(p *Program, r *Report) {
	r.Rule("loop-ends", "some measure falls in every round of the loop and cannot fall for ever")
	r.Rule("recursion-ends", "on every cycle of calls some measure of the arguments falls and none before it rises; the number of levels is limited")
	r.Explanation = "Every loop of every function reachable from the public API needs a measure: a difference of lengths, positions and counters taken from the comparisons in the loop, from the invariants of the library's structs, or from its variables, that is at least one smaller at the end of every way round and cannot be small already (several measures in lexicographic order if ways round differ). A loop over a map, string or the items of a reader that it leaves when nothing is left counts as bounded. Calls by which functions can reach themselves need measures over the arguments in the same way: segments left, a counter below a constant, or nesting (the argument lies inside the caller's argument). The inequalities are decided as in C14. Assumed: the standard library returns; modifiers and callbacks supplied by the caller return; a filter is part of the text of the path it was read from; results supplied by the caller are not cyclic."
	n := p.numbers()
	live := p.live()
	type job struct {
		f *ssa.Function
		l *Loop
	}
	var jobs []job
	for _, f := range p.Funcs {
		if !live[f] || f.Synthetic != "" {
			continue
		}
		for _, l := range findLoops(f) {
			jobs = append(jobs, job{f, l})
		}
	}
	why := make([]string, len(jobs))
	tried := make([]string, len(jobs))
	n.parallel(len(jobs), func(w *prover, i int) { why[i], tried[i] = w.ends(jobs[i].f, jobs[i].l) })
	for i, j := range jobs {
		where := p.At(j.l.Head.Instrs[len(j.l.Head.Instrs)-1])
		if why[i] != "" {
			r.OK("loop-ends", where, j.f.Name()+": "+why[i])
			continue
		}
		r.Bad("loop-ends", where, j.f.String(), "no measure was found that falls in every round; tried"+tried[i])
	}
	es := p.cycles(live)
	comp := components(es)
	by := map[int][]redge{}
	var keys []int
	for _, e := range es {
		k := comp[e.from]
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], e)
	}
	left := make([][]redge, len(keys))
	used := make([][]string, len(keys))
	n.parallel(len(keys), func(w *prover, i int) { left[i], used[i] = w.settle(by[keys[i]]) })
	for i, k := range keys {
		bad := map[ssa.CallInstruction]bool{}
		for _, e := range left[i] {
			bad[e.call] = true
			r.Bad("recursion-ends", p.At(e.call), e.from.String(), "this call leads back to "+e.from.Name()+" and no measure of the arguments was found that falls on the way")
		}
		for _, e := range by[k] {
			if !bad[e.call] {
				r.OK("recursion-ends", p.At(e.call), e.from.Name()+" to "+e.to.Name()+" by "+strings.Join(used[i], "; then "))
			}
		}
		r.Count("measures_used_for_recursion", len(used[i]))
	}
	r.Count("loops", len(jobs))
	r.Min("loops", 40)
	r.Count("calls_on_cycles", len(es))
	r.Count("groups_of_recursive_functions", len(keys))
}
