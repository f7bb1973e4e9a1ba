package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the list modifiers select and rearrange results but do not change them.

func init() { checks["C32"] = checkC32 }

// listModifiers are the documented modifiers that work on lists.
var listModifiers = []string{"first", "flatten", "last", "reverse", "sort"}

// applied returns the function that computes a built-in modifier.
func (p *Program) applied(name string) *ssa.Function {
	var out *ssa.Function
	for _, f := range p.Funcs {
		rv := f.Signature.Recv()
		if rv != nil && f.Parent() == nil && f.Synthetic == "" && f.Name() == "Apply" && p.nameOf(rv.Type()) == name {
			out = f
		}
	}
	if out != nil {
		return out
	}
	// made from a function
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "NewModifierFunc" || len(c.Call.Args) != 2 {
				return
			}
			if k, ok := constString(c.Call.Args[0]); ok && k == name {
				v := c.Call.Args[1]
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				if mc, ok := v.(*ssa.MakeClosure); ok {
					v = mc.Fn
				}
				out, _ = v.(*ssa.Function)
			}
		})
	}
	return out
}

// rearranger looks at one modifier.
type rearranger struct {
	p    *Program
	r    *Report
	name string
	f    *ssa.Function
	me   int
	in   map[*ssa.Function]bool
	fs   []*ssa.Function
	n    *prover
	list int // field of a result
	seen map[ssa.Value]bool
}

func checkC32(p *Program, r *Report) {
	r.Explanation = "The functions that compute the five list modifiers, with the helpers they call. (a) Walked once for every kind of result other than a list, with the tests of the kind decided: what is returned is the result handed in. (b) Provenance: every result put into a list, every list put into an answer and every result answered for a list comes from the list handed in (or a list inside it) by loads, copies, appends and sorting alone; a result made by the modifier is a list of such results or a missing one; no field of a result that was in a list is stored to. (c) Linear inequalities, decided as in C14: the result answered by first is the one at 0 and by last the one at length-1; the list answered by reverse and sort is as long as the one handed in; a result that reverse puts at one place comes from the mirrored one; a list made with a length is filled by copying as many results or in a loop over all of it. Not covered: that sorting orders by value, that no result is put into the answer twice in place of another."
	r.Assumptions = []string{"sort and slices rearrange the list they are given", "lists are not shared between goroutines while a modifier runs"}
	r.Rule("as-it-was", "what is not a list is returned as it was handed in")
	r.Rule("unchanged", "every result in an answer is one of those handed in, and no field of one is stored to")
	r.Rule("right-end", "first answers the result at place 0, last the one at the last place")
	r.Rule("same-number", "reverse and sort answer a list of the length of the one handed in")
	r.Rule("mirrored", "reverse puts a result at the place as far from the end as it was from the start")
	r.Rule("filled", "a list made with a length is filled over the whole length")
	res, field := p.listField()
	if res == nil {
		r.Bad("unchanged", "-", "-", "no exported struct holds a list of itself")
		return
	}
	base := p.numbers()
	for _, name := range listModifiers {
		f := p.applied(name)
		if f == nil || f.Blocks == nil {
			r.Bad("unchanged", "-", "@"+name, "the function that computes this modifier was not found")
			continue
		}
		a := &rearranger{p: p, r: r, name: name, f: f, me: -1, list: field, in: map[*ssa.Function]bool{}, n: newProverLike(base), seen: map[ssa.Value]bool{}}
		for i, q := range f.Params {
			if isResultType(q.Type()) {
				a.me = i
			}
		}
		if a.me < 0 {
			r.Bad("unchanged", p.Pos(f.Pos()), f.Name(), "takes no result")
			continue
		}
		r.Count("modifiers", 1)
		a.collect(f)
		r.Count("functions_of_modifiers", len(a.fs))
		a.others()
		a.stores()
		a.answers()
	}
	r.Min("modifiers", len(listModifiers))
}

// collect finds the functions that handle results on behalf of the modifier.
func (a *rearranger) collect(f *ssa.Function) {
	if f == nil || a.in[f] || f.Blocks == nil || !a.p.InLib(f) {
		return
	}
	if rv := f.Signature.Recv(); rv != nil && isResultType(rv.Type()) && token.IsExported(f.Name()) {
		return // a method of a result only reads it
	}
	a.in[f] = true
	a.fs = append(a.fs, f)
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			a.collect(c.Common().StaticCallee())
		}
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			switch g := (*op).(type) {
			case *ssa.Function:
				a.collect(g)
			case *ssa.MakeClosure:
				h, _ := g.Fn.(*ssa.Function)
				a.collect(h)
			}
		}
	})
}

func (a *rearranger) bad(rule string, in ssa.Instruction, msg string) {
	a.r.Bad(rule, a.p.At(in), a.p.shortName(in.Parent()), "@"+a.name+": "+msg)
}

func (a *rearranger) ok(rule string, in ssa.Instruction) {
	a.r.OK(rule, a.p.At(in), "@"+a.name+" in "+a.p.shortName(in.Parent()))
}

// others: for everything but lists the answer is what was handed in.
func (a *rearranger) others() {
	p := a.p
	var names []string
	kinds := map[string]*ssa.Const{}
	for _, n := range p.Root.Pkg.Scope().Names() {
		if c, ok := p.Root.Pkg.Scope().Lookup(n).(*types.Const); ok && isNamed(c.Type(), modPath, "Type") && n != "Array" {
			kinds[n] = ssa.NewConst(c.Val(), c.Type())
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, k := range names {
		acc := &accessor{p: p, r: a.r, f: a.f, name: p.shortName(a.f), kind: k, num: kinds[k], fn: -1, me: a.me}
		x := newExplorer(p)
		acc.x = x
		x.TrackInt, x.Mem = true, true
		x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
			if v, ok := in.(ssa.Value); ok && acc.field(s, AV{fr: s.fr, v: v}) == "Type" {
				s.facts[fkey{s.fr, v, 0}] = AV{v: acc.num}
			}
			if b, ok := in.(*ssa.BinOp); ok && isNamed(b.X.Type(), modPath, "Type") {
				if d := x.evalBool(s, b); d != 0 {
					s.facts[fkey{s.fr, b, 0}] = boolAV(d > 0)
				}
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if deadReturn(ret) {
				return
			}
			v := AV{fr: s.fr, v: ret.Results[0]}
			if acc.self(s, v) || k == "Null" && acc.missing(s, v, 0) {
				a.r.OK("as-it-was", p.At(ret), fmt.Sprintf("@%s of a result of kind %s", a.name, k))
				return
			}
			acc.bad("as-it-was", ret, s, "@"+a.name+" returns something other than the result handed in")
		}
		x.Run(a.f)
		if x.Overflow {
			a.r.Bad("as-it-was", p.Pos(a.f.Pos()), acc.name, "too complex to follow")
		}
		a.r.Count("walks", 1)
		a.r.Count("walked_states", x.Nodes)
	}
}

// given: a result that was in the list, or the one handed in.
func (a *rearranger) given(v ssa.Value) string {
	if a.seen[v] {
		return ""
	}
	a.seen[v] = true
	msg := a.givenAt(v)
	delete(a.seen, v)
	return msg
}

func (a *rearranger) givenAt(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return a.param(v, a.given)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m := a.given(e); m != "" {
				return m
			}
		}
		return ""
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch at := v.X.(type) {
		case *ssa.IndexAddr:
			return a.lists(at.X)
		case *ssa.Alloc, *ssa.FreeVar:
			return a.local(at.(ssa.Value))
		case *ssa.FieldAddr:
			return a.kept(deref(at.X.Type()), at.Field, a.given)
		case *ssa.Parameter:
			return a.param(at, func(arg ssa.Value) string { return a.local(arg) })
		}
	case *ssa.Field:
		return a.kept(v.X.Type(), v.Field, a.given)
	case *ssa.Index:
		return a.lists(v.X)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return a.results(c, v.Index, a.given)
		}
	case *ssa.Call:
		return a.results(v, 0, a.given)
	}
	return "a result that does not come from the list handed in"
}

// local: the results a variable holds were in the list.
func (a *rearranger) local(v ssa.Value) string {
	if fv, ok := v.(*ssa.FreeVar); ok {
		v = a.p.freeVarBinding(fv)
	}
	if ix, ok := v.(*ssa.IndexAddr); ok {
		return a.lists(ix.X)
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return "a result that is not followed"
	}
	if a.seen[al] {
		return ""
	}
	a.seen[al] = true
	defer delete(a.seen, al)
	n := 0
	for _, ref := range a.uses(al) {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == al || isFree(x.Addr) {
				n++
				if m := a.given(x.Val); m != "" {
					return m
				}
			}
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					return "a result put together from parts"
				}
			}
		}
	}
	if n == 0 {
		return "a result that was not handed in"
	}
	return ""
}

func isFree(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

// uses are the instructions that refer to a local, also from closures.
func (a *rearranger) uses(al ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, ref := range *al.Referrers() {
		out = append(out, ref)
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			f := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == al {
					out = append(out, a.uses(f.FreeVars[i])...)
				}
			}
		}
	}
	return out
}

func (a *rearranger) param(v *ssa.Parameter, ok func(ssa.Value) string) string {
	f := v.Parent()
	if f == a.f && paramIndex(v) == a.me {
		return ""
	}
	n := 0
	for _, g := range a.fs {
		m := ""
		instrs(g, func(in ssa.Instruction) {
			c, isC := in.(ssa.CallInstruction)
			if !isC || c.Common().StaticCallee() != f {
				return
			}
			n++
			if x := ok(c.Common().Args[paramIndex(v)]); x != "" {
				m = x
			}
		})
		if m != "" {
			return m
		}
	}
	if n == 0 {
		// called by the standard library, which hands over what is in the list
		if f.Parent() != nil || f.Signature.Recv() == nil {
			return ""
		}
		return "a result handed in by someone else"
	}
	return ""
}

// kept: everything stored in the field of a struct of the library passes.
func (a *rearranger) kept(t types.Type, field int, ok func(ssa.Value) string) string {
	if isResultType(t) {
		return "a part of a result"
	}
	for _, g := range a.fs {
		m := ""
		instrs(g, func(in ssa.Instruction) {
			st, isS := in.(*ssa.Store)
			if !isS {
				return
			}
			if fa, isF := st.Addr.(*ssa.FieldAddr); isF && fa.Field == field && types.Identical(deref(fa.X.Type()), t) {
				if x := ok(st.Val); x != "" {
					m = x
				}
			}
		})
		if m != "" {
			return m
		}
	}
	return ""
}

func (a *rearranger) results(c *ssa.Call, i int, ok func(ssa.Value) string) string {
	g := c.Call.StaticCallee()
	if g == nil {
		if mc, isM := c.Call.Value.(*ssa.MakeClosure); isM {
			g, _ = mc.Fn.(*ssa.Function)
		}
	}
	if g == nil || !a.in[g] {
		return "what " + calleeName(c.Common()) + " makes of it"
	}
	for _, ret := range returnsOf(g) {
		if m := ok(resultValue(ret, i)); m != "" {
			return m
		}
	}
	return ""
}

// lists: all that is in the list was handed in; stores into lists are judged on their own.
func (a *rearranger) lists(v ssa.Value) string {
	if a.seen[v] {
		return ""
	}
	a.seen[v] = true
	msg := a.listsAt(v)
	delete(a.seen, v)
	return msg
}

func (a *rearranger) listsAt(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return ""
	case *ssa.Parameter:
		return a.param(v, a.lists)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m := a.lists(e); m != "" {
				return m
			}
		}
		return ""
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return "" // an array, filled by stores
		}
		return a.lists(v.X)
	case *ssa.ChangeType:
		return a.lists(v.X)
	case *ssa.Field:
		if isResultType(v.X.Type()) {
			return a.given(v.X)
		}
		return a.kept(v.X.Type(), v.Field, a.lists)
	case *ssa.Alloc:
		return ""
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch at := v.X.(type) {
		case *ssa.FieldAddr:
			t := deref(at.X.Type())
			if isResultType(t) {
				return a.holder(at.X)
			}
			return a.kept(t, at.Field, a.lists)
		case *ssa.Alloc, *ssa.FreeVar:
			w := at.(ssa.Value)
			if fv, ok := w.(*ssa.FreeVar); ok {
				w = a.p.freeVarBinding(fv)
			}
			if w == nil {
				return "a list that is not followed"
			}
			for _, ref := range a.uses(w) {
				if st, ok := ref.(*ssa.Store); ok && (st.Addr == w || isFree(st.Addr)) {
					if m := a.lists(st.Val); m != "" {
						return m
					}
				}
			}
			return ""
		case *ssa.IndexAddr: // a list of lists
			return ""
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return a.results(c, v.Index, a.lists)
		}
	case *ssa.Call:
		name := calleeName(v.Common())
		if i := strings.IndexByte(name, '['); i >= 0 {
			name = name[:i]
		}
		switch name {
		case "builtin.append", "slices.Clone", "slices.Concat", "slices.Grow", "slices.Insert":
			for _, x := range v.Call.Args {
				if isResultList(x.Type()) {
					if m := a.lists(x); m != "" {
						return m
					}
				}
			}
			return ""
		}
		if v.Call.StaticCallee() != nil && a.in[v.Call.StaticCallee()] {
			return a.results(v, 0, a.lists)
		}
		if f := v.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && isResultType(f.Signature.Recv().Type()) && f.Name() == "Array" {
			return a.given(v.Call.Args[0]) // see C31
		}
		return "what " + name + " makes of it"
	}
	return "a list that does not come from the one handed in"
}

// holder: the list of the result at an address.
func (a *rearranger) holder(addr ssa.Value) string {
	switch at := addr.(type) {
	case *ssa.IndexAddr:
		return a.lists(at.X)
	case *ssa.Alloc, *ssa.FreeVar:
		w := at.(ssa.Value)
		if fv, ok := w.(*ssa.FreeVar); ok {
			w = a.p.freeVarBinding(fv)
		}
		al, ok := w.(*ssa.Alloc)
		if !ok {
			return "a list that is not followed"
		}
		for _, ref := range a.uses(al) {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == al || isFree(x.Addr) {
					if m := a.given(x.Val); m != "" {
						return m
					}
				}
			case *ssa.FieldAddr:
				if x.Field != a.list {
					continue
				}
				for _, r2 := range *x.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						if m := a.lists(st.Val); m != "" {
							return m
						}
					}
				}
			}
		}
		return ""
	case *ssa.FieldAddr:
		return a.kept(deref(at.X.Type()), at.Field, a.given)
	}
	return "a list that is not followed"
}

// made: a result the modifier makes itself: a list, or a missing one.
func (a *rearranger) made(al *ssa.Alloc) string {
	for _, ref := range a.uses(al) {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == al || isFree(x.Addr) {
				if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				if q, ok := x.Val.(*ssa.Parameter); ok && q.Parent() == a.f && paramIndex(q) == a.me {
					continue
				}
				if m := a.answer(x.Val); m != "" {
					return m
				}
			}
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) {
					continue
				}
				if x.Field == a.list {
					if m := a.lists(st.Val); m != "" {
						return m
					}
					continue
				}
				if !isNamed(st.Val.Type(), modPath, "Type") {
					return "a result with a text, a number or attributes of its own"
				}
				if c, ok := st.Val.(*ssa.Const); !ok || c.Value == nil || !a.kind(c, "Array") && !a.kind(c, "Null") {
					return "a result of a kind of its own"
				}
			}
		}
	}
	return ""
}

func (a *rearranger) kind(c *ssa.Const, name string) bool {
	k, ok := a.p.Root.Pkg.Scope().Lookup(name).(*types.Const)
	return ok && c.Value != nil && c.Value.ExactString() == k.Val().ExactString()
}

// answer: what the modifier may return.
func (a *rearranger) answer(v ssa.Value) string {
	if a.given(v) == "" {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "" // the empty result is a missing one
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if m := a.answer(e); m != "" {
				return m
			}
		}
		return ""
	case *ssa.UnOp:
		switch at := v.X.(type) {
		case *ssa.Alloc:
			return a.made(at)
		case *ssa.Global:
			if a.p.zeroGlobal(at) {
				return ""
			}
		}
	case *ssa.Call:
		return a.results(v, 0, a.answer)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return a.results(c, v.Index, a.answer)
		}
	}
	return a.given(v)
}

// stores judges everything that is put into lists and results on the way.
func (a *rearranger) stores() {
	for _, f := range a.fs {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				switch at := x.Addr.(type) {
				case *ssa.IndexAddr:
					if !isResultType(x.Val.Type()) {
						return
					}
					a.r.Count("results_put_into_lists", 1)
					if m := a.given(x.Val); m != "" {
						a.bad("unchanged", in, "puts into a list "+m)
						return
					}
					a.ok("unchanged", in)
					if a.name == "reverse" {
						a.mirror(x, at)
					}
				case *ssa.FieldAddr:
					if _, ok := at.X.(*ssa.IndexAddr); ok && isResultType(deref(at.X.Type())) {
						a.bad("unchanged", in, "stores to a field of a result in a list")
					}
				}
			case *ssa.MakeSlice:
				if k, ok := constInt(x.Len); isResultList(x.Type()) && !(ok && k == 0) {
					if a.fills(x) {
						a.ok("filled", in)
					} else {
						a.bad("filled", in, "the list made here is not seen to be filled over its whole length, so missing results may be left in it")
					}
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok || len(x.Call.Args) == 0 || !isResultList(x.Call.Args[0].Type()) {
					return
				}
				switch calleeName(x.Common()) {
				case "builtin.clear":
					a.bad("unchanged", in, "empties results in a list")
				case "builtin.copy":
					if m := a.lists(x.Call.Args[1]); m != "" {
						a.bad("unchanged", in, "copies "+m)
						return
					}
					a.ok("unchanged", in)
				}
			}
		})
	}
}

// source is the length of the list a function was handed.
func (a *rearranger) source(n *prover, c *nctx, fr *nframe, f *ssa.Function) (nlin, bool) {
	for i, q := range f.Params {
		if !isResultType(q.Type()) || f == a.f && i != a.me {
			continue
		}
		for _, ref := range *q.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				if !ok {
					continue
				}
				loc, ok := n.place(c, fr, al)
				if !ok {
					continue
				}
				loc.path += fmt.Sprintf(".%d", a.list)
				return n.length(c, n.at(c, fr, x.Block(), indexIn(x)+1, loc, 0)), true
			case *ssa.Field:
				if x.Field == a.list {
					return n.length(c, term{fr: fr, v: x}), true
				}
			}
		}
	}
	for _, q := range f.Params {
		if isResultList(q.Type()) {
			return n.length(c, term{fr: fr, v: q}), true
		}
	}
	return nlin{}, false
}

// zero: a form is zero before an instruction.
func (a *rearranger) zero(in ssa.Instruction, build func(n *prover, c *nctx, fr *nframe) (nlin, bool)) bool {
	return a.zeroIn(a.n.root(in.Parent()), in, build)
}

func (a *rearranger) zeroIn(fr *nframe, in ssa.Instruction, build func(n *prover, c *nctx, fr *nframe) (nlin, bool)) bool {
	n := a.n
	for _, k := range []int64{1, -1} {
		c := &nctx{fr: fr, blk: in.Block(), idx: indexIn(in), choice: map[nchoice]int{}}
		l, ok := build(n, c, fr)
		if !ok {
			return false
		}
		n.steps, n.open, n.why = siteBudget, nil, nil
		if !n.prove(c, l.scale(k), 0) {
			return false
		}
	}
	return true
}

// taken is where in a list a result comes from.
func (a *rearranger) taken(v ssa.Value, d int) *ssa.IndexAddr {
	if d > 6 {
		return nil
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	switch at := u.X.(type) {
	case *ssa.IndexAddr:
		return at
	case *ssa.Alloc:
		var one *ssa.Store
		for _, ref := range a.uses(at) {
			if st, ok := ref.(*ssa.Store); ok && (st.Addr == ssa.Value(at) || isFree(st.Addr)) {
				if one != nil {
					return nil
				}
				one = st
			}
		}
		if one != nil {
			return a.taken(one.Val, d+1)
		}
	}
	return nil
}

// from is the place and length of the list an element is taken from.
func from(n *prover, c *nctx, fr *nframe, ix *ssa.IndexAddr) (at, size nlin) {
	at = n.lin(c, term{fr: fr, v: ix.Index})
	l := ix.X
	for {
		sl, ok := l.(*ssa.Slice)
		if !ok || !isSliceType(sl.X.Type()) {
			break
		}
		if sl.Low != nil {
			at = at.add(n.lin(c, term{fr: fr, v: sl.Low}), 1)
		}
		l = sl.X
	}
	return at, n.length(c, term{fr: fr, v: l})
}

// mirror: reverse puts a result where it belongs.
func (a *rearranger) mirror(st *ssa.Store, to *ssa.IndexAddr) {
	src := a.taken(st.Val, 0)
	if src == nil {
		a.bad("mirrored", st, "it is not seen which place of the list this result comes from")
		return
	}
	if isSliceType(to.X.Type()) {
		a.r.Count("mirrored_places", 1)
		if a.zero(st, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
			at, size := from(n, c, fr, src)
			return at.add(n.lin(c, term{fr: fr, v: to.Index}), 1).add(size, -1).add(nconst(1), 1), true
		}) {
			a.ok("mirrored", st)
			a.meets(st, to, src)
			return
		}
		a.bad("mirrored", st, "the place this result is put at and the one it comes from do not add up to the last place of the list")
		return
	}
	// an argument of append
	al, ok := to.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, ref := range *al.Referrers() {
		sl, ok := ref.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, r2 := range *sl.Referrers() {
			c, ok := r2.(*ssa.Call)
			if !ok || calleeName(c.Common()) != "builtin.append" || len(c.Call.Args) != 2 || c.Call.Args[1] != ssa.Value(sl) {
				continue
			}
			a.r.Count("mirrored_places", 1)
			if a.zero(c, func(n *prover, cx *nctx, fr *nframe) (nlin, bool) {
				at, size := from(n, cx, fr, src)
				return at.add(n.length(cx, term{fr: fr, v: c.Call.Args[0]}), 1).add(size, -1).add(nconst(1), 1), true
			}) {
				a.ok("mirrored", c)
			} else {
				a.bad("mirrored", c, "the place this result is put at and the one it comes from do not add up to the last place of the list")
			}
		}
	}
}

// meets: a loop that swaps results from both ends goes on until it has reached the middle.
func (a *rearranger) meets(st *ssa.Store, to, src *ssa.IndexAddr) {
	n := a.n
	f := st.Parent()
	var l *Loop
	for _, m := range n.loopsOf(f) {
		if m.Body[st.Block()] && (l == nil || l.Body[m.Head]) {
			l = m
		}
	}
	mk, isMk := to.X.(*ssa.MakeSlice)
	if l == nil || isMk && a.sweeps(st, to, mk) {
		return
	}
	gap := func(c *nctx, fr *nframe) nlin {
		at, _ := from(n, c, fr, src)
		return at.add(n.lin(c, term{fr: fr, v: to.Index}), -1)
	}
	sign := int64(0)
	for _, k := range []int64{1, -1} {
		if n.holds(f, st, func(c *nctx, fr *nframe) nlin { return gap(c, fr).scale(k) }, siteBudget) {
			sign = k
		}
	}
	if sign == 0 {
		return
	}
	fr := n.root(f)
	for _, b := range f.Blocks {
		if !l.Body[b] {
			continue
		}
		for _, out := range b.Succs {
			if l.Body[out] {
				continue
			}
			a.r.Count("swap_loop_exits", 1)
			c := &nctx{fr: fr, blk: b, idx: len(b.Instrs), choice: map[nchoice]int{}}
			n.steps, n.open, n.why = siteBudget, nil, nil
			if n.proveEdge(c, b, out, nconst(1).add(gap(c, fr), -sign), 0) {
				a.ok("mirrored", st)
			} else {
				a.bad("mirrored", b.Instrs[len(b.Instrs)-1], "the loop that swaps results is left before both ends have met")
			}
		}
	}
}

// isMade: the value is the list made here.
func (a *rearranger) isMade(v ssa.Value, mk *ssa.MakeSlice) bool {
	if v == ssa.Value(mk) {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok {
		return a.heldAs(fa, mk)
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, ref := range a.uses(al) {
		if st, ok := ref.(*ssa.Store); ok && (st.Addr == ssa.Value(al) || isFree(st.Addr)) {
			if st.Val != ssa.Value(mk) {
				return false
			}
			n++
		}
	}
	return n == 1
}

// heldAs: the field of a local holds the list made here and nothing else.
func (a *rearranger) heldAs(fa *ssa.FieldAddr, mk *ssa.MakeSlice) bool {
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, ref := range a.uses(al) {
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			if x.Field != fa.Field {
				continue
			}
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if st.Val != ssa.Value(mk) {
						return false
					}
					n++
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			ld, ok := x.Val.(*ssa.UnOp)
			if !ok || x.Addr != ssa.Value(al) {
				return false
			}
			lit, ok := ld.X.(*ssa.Alloc)
			if !ok || !a.litOf(lit, fa.Field, mk) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n == 1
}

// litOf: the list is the field of a composite literal.
func (a *rearranger) litOf(al *ssa.Alloc, field int, mk *ssa.MakeSlice) bool {
	for _, ref := range *al.Referrers() {
		if x, ok := ref.(*ssa.FieldAddr); ok && x.Field == field {
			return a.heldAs(x, mk)
		}
	}
	return false
}

// fills: every place of a list made with a length gets a result.
func (a *rearranger) fills(mk *ssa.MakeSlice) bool {
	f := mk.Parent()
	done := false
	instrs(f, func(in ssa.Instruction) {
		if done {
			return
		}
		switch x := in.(type) {
		case *ssa.Call:
			if calleeName(x.Common()) == "builtin.copy" && a.isMade(x.Call.Args[0], mk) {
				done = a.zero(x, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
					return n.lin(c, term{fr: fr, v: mk.Len}).add(n.length(c, term{fr: fr, v: x.Call.Args[1]}), -1), true
				})
			}
		case *ssa.Store:
			ix, ok := x.Addr.(*ssa.IndexAddr)
			if ok && a.isMade(ix.X, mk) {
				done = a.sweeps(x, ix, mk)
			}
		}
	})
	return done
}

// sweeps: the store is made in every round of a loop that counts through the list.
func (a *rearranger) sweeps(st *ssa.Store, ix *ssa.IndexAddr, mk *ssa.MakeSlice) bool {
	size := func(n *prover, c *nctx, fr *nframe) (nlin, bool) { return n.lin(c, term{fr: fr, v: mk.Len}), true }
	for _, l := range a.n.loopsOf(st.Parent()) {
		cnt := a.through(l, st, size)
		if cnt == nil {
			continue
		}
		for _, mirrored := range []bool{true, false} {
			if a.zero(st, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
				d, i := n.lin(c, term{fr: fr, v: ix.Index}), n.lin(c, term{fr: fr, v: cnt})
				if mirrored {
					return d.add(i, 1).add(n.lin(c, term{fr: fr, v: mk.Len}), -1).add(nconst(1), 1), true
				}
				return d.add(i, -1), true
			}) {
				return true
			}
		}
	}
	return false
}

// sized is a length at a point.
type sized func(n *prover, c *nctx, fr *nframe) (nlin, bool)

// through: the instruction is done in every round of a loop that has as many rounds as
// the size says; the counter of the loop.
func (a *rearranger) through(l *Loop, in ssa.Instruction, size sized) ssa.Value {
	n := a.n
	if !l.Body[in.Block()] {
		return nil
	}
	for _, p := range l.Head.Preds {
		if l.Body[p] && !in.Block().Dominates(p) {
			return nil
		}
	}
	iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	if n.holds(in.Parent(), in, func(c *nctx, fr *nframe) nlin {
		if s, ok := size(n, c, fr); ok && n.covers(c, fr, l, cmp.X, s) {
			return nconst(0)
		}
		return nconst(-1)
	}, siteBudget) {
		return cmp.X
	}
	if a.descends(l, cmp, in, size) {
		return cmp.X
	}
	return nil
}

// descends: the loop counts from the last place down to 0.
func (a *rearranger) descends(l *Loop, cmp *ssa.BinOp, in ssa.Instruction, size sized) bool {
	phi, ok := cmp.X.(*ssa.Phi)
	k, isK := constInt(cmp.Y)
	if !ok || !isK || phi.Block() != l.Head || !(cmp.Op == token.GEQ && k == 0 || cmp.Op == token.GTR && k == -1) || l.Body[l.Head.Succs[1]] {
		return false
	}
	for b := range l.Body {
		for _, s := range b.Succs {
			if !l.Body[s] && b != l.Head {
				return false
			}
		}
	}
	for i, e := range phi.Edges {
		if l.Body[l.Head.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(phi) {
				return false
			}
			if k, ok := constInt(b.Y); !ok || !(b.Op == token.SUB && k == 1 || b.Op == token.ADD && k == -1) {
				return false
			}
			continue
		}
		if !a.zero(in, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
			s, ok := size(n, c, fr)
			return n.lin(c, term{fr: fr, v: e}).add(s, -1).add(nconst(1), 1), ok
		}) {
			return false
		}
	}
	return true
}

// collected: a list that gets one result in every round of a loop through the list handed in.
func (a *rearranger) collected(v ssa.Value, f *ssa.Function) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return a.gathered(u, f)
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, l := range a.n.loopsOf(f) {
		if l.Head != phi.Block() {
			continue
		}
		for i, e := range phi.Edges {
			if !l.Body[l.Head.Preds[i]] {
				if !isEmptyList(e) {
					return false
				}
				continue
			}
			c, ok := e.(*ssa.Call)
			if !ok || !oneMore(c) || c.Call.Args[0] != v || a.through(l, c, a.sourceOf(f)) == nil {
				return false
			}
		}
		return true
	}
	return false
}

// gathered is collected for a list kept in a variable closures see.
func (a *rearranger) gathered(u *ssa.UnOp, f *ssa.Function) bool {
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	rounds := 0
	for _, ref := range a.uses(al) {
		st, ok := ref.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(al) {
			if ok {
				return false
			}
			continue
		}
		if isEmptyList(st.Val) {
			if inLoop(a.n.loopsOf(f), st.Block()) {
				return false
			}
			continue
		}
		c, ok := st.Val.(*ssa.Call)
		if !ok || !oneMore(c) || c.Block() != st.Block() {
			return false
		}
		if ld, ok := c.Call.Args[0].(*ssa.UnOp); !ok || ld.X != ssa.Value(al) {
			return false
		}
		done := false
		for _, l := range a.n.loopsOf(f) {
			if a.through(l, c, a.sourceOf(f)) != nil && !l.Body[u.Block()] {
				done = true
			}
		}
		if !done {
			return false
		}
		rounds++
	}
	return rounds == 1
}

// passed: a helper makes a list as long as the one it is handed.
func (a *rearranger) passed(st *ssa.Store, f *ssa.Function) bool {
	c, ok := st.Val.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || !a.in[c.Call.StaticCallee()] {
		return false
	}
	g := c.Call.StaticCallee()
	lists := 0
	for _, x := range c.Call.Args {
		if !isResultList(x.Type()) {
			continue
		}
		lists++
		if !a.zero(st, func(n *prover, cx *nctx, fr *nframe) (nlin, bool) {
			size, ok := a.source(n, cx, fr, f)
			return n.length(cx, term{fr: fr, v: x}).add(size, -1), ok
		}) {
			return false
		}
	}
	if lists != 1 {
		return false
	}
	for _, ret := range returnsOf(g) {
		v := resultValue(ret, 0)
		if !isResultList(v.Type()) || !a.collected(v, g) && !a.zero(ret, func(n *prover, cx *nctx, fr *nframe) (nlin, bool) {
			size, ok := a.source(n, cx, fr, g)
			return n.length(cx, term{fr: fr, v: v}).add(size, -1), ok
		}) {
			return false
		}
	}
	return true
}

func inLoop(ls []*Loop, b *ssa.BasicBlock) bool {
	for _, l := range ls {
		if l.Body[b] {
			return true
		}
	}
	return false
}

func (a *rearranger) sourceOf(f *ssa.Function) sized {
	return func(n *prover, c *nctx, fr *nframe) (nlin, bool) { return a.source(n, c, fr, f) }
}

func isEmptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		k, ok := constInt(x.Len)
		return ok && k == 0
	case *ssa.Slice:
		if x.High != nil {
			k, ok := constInt(x.High)
			return ok && k == 0
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			ar, ok := pt.Elem().Underlying().(*types.Array)
			return ok && ar.Len() == 0
		}
	}
	return false
}

// oneMore: an append of one element.
func oneMore(c *ssa.Call) bool {
	if calleeName(c.Common()) != "builtin.append" || len(c.Call.Args) != 2 {
		return false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return false
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	ar, ok := pt.Elem().Underlying().(*types.Array)
	return ok && ar.Len() == 1
}

// isSelf: the value is the result handed in.
func (a *rearranger) isSelf(v ssa.Value) bool {
	if q, ok := v.(*ssa.Parameter); ok {
		return q.Parent() == a.f && paramIndex(q) == a.me
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, ref := range a.uses(al) {
		switch x := ref.(type) {
		case *ssa.Store:
			if !a.isSelf(x.Val) {
				return false
			}
			n++
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					return false
				}
			}
		}
	}
	return n > 0
}

// answers judges what is returned for a list.
func (a *rearranger) answers() {
	for _, ret := range returnsOf(a.f) {
		if deadReturn(ret) {
			continue
		}
		a.r.Count("answers", 1)
		v := resultValue(ret, 0)
		if m := a.answer(v); m != "" {
			a.bad("unchanged", ret, "answers "+m)
			continue
		}
		a.ok("unchanged", ret)
	}
	switch a.name {
	case "first", "last":
		a.ends(a.f, a.n.root(a.f), map[*ssa.Function]bool{})
		a.idle(0, "right-end", "the list itself is answered although it is not empty")
	case "reverse", "sort":
		a.idle(1, "same-number", "the list is answered as it was although it has several results")
		a.counted()
	}
}

// idle: the list is handed back untouched only while it has at most so many results.
func (a *rearranger) idle(most int64, rule, msg string) {
	array, _ := a.p.Root.Pkg.Scope().Lookup("Array").(*types.Const)
	if array == nil {
		return
	}
	field := -1
	st := a.f.Params[a.me].Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isNamed(st.Field(i).Type(), modPath, "Type") {
			field = i
		}
	}
	want, _ := constInt(ssa.NewConst(array.Val(), array.Type()))
	n := a.n
	for _, ret := range returnsOf(a.f) {
		if deadReturn(ret) || !a.isSelf(resultValue(ret, 0)) {
			continue
		}
		fr := n.root(a.f)
		c := &nctx{fr: fr, blk: ret.Block(), idx: indexIn(ret), choice: map[nchoice]int{}}
		var kind nlin
		found := false
		for _, ref := range *a.f.Params[a.me].Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if loc, ok := n.place(c, fr, al); ok {
						loc.path += fmt.Sprintf(".%d", field)
						kind, found = n.lin(c, n.at(c, fr, x.Block(), indexIn(x)+1, loc, 0)), true
					}
				}
			case *ssa.Field:
				if x.Field == field {
					kind, found = n.lin(c, term{fr: fr, v: x}), true
				}
			}
		}
		size, ok := a.source(n, c, fr, a.f)
		if found && ok {
			c.extra = append(c.extra, kind.add(nconst(want), -1), nconst(want).add(kind, -1))
			n.steps, n.open, n.why = siteBudget, nil, nil
			if n.prove(c, nconst(most).add(size, -1), 0) {
				a.ok(rule, ret)
				continue
			}
		}
		a.bad(rule, ret, msg)
	}
}

// ends: the result answered is the one at the right end.
func (a *rearranger) ends(f *ssa.Function, fr *nframe, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	defer delete(seen, f)
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if d > 6 {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				look(e, d+1)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && a.in[g] {
				if kid := a.n.enter(fr, x); kid != nil {
					a.ends(g, kid, seen)
				} else {
					a.bad("right-end", x, "the call that makes the answer is not followed")
				}
			}
		case *ssa.UnOp:
			if ix := a.taken(v, 0); ix != nil {
				a.r.Count("ends_answered", 1)
				if a.zeroIn(fr, ix, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
					at, size := from(n, c, fr, ix)
					if a.name == "last" {
						return at.add(size, -1).add(nconst(1), 1), true
					}
					return at, true
				}) {
					a.ok("right-end", ix)
				} else {
					a.bad("right-end", ix, "the result answered is not seen to be the one at this end of the list")
				}
				return
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, ref := range a.uses(al) {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						look(st.Val, d+1)
					}
				}
			}
		}
	}
	for _, ret := range returnsOf(f) {
		look(resultValue(ret, 0), 0)
	}
}

// counted: the list answered is as long as the one handed in.
func (a *rearranger) counted() {
	for _, f := range a.fs {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != a.list || !isResultType(deref(fa.X.Type())) {
				return
			}
			a.r.Count("lists_answered", 1)
			if a.collected(st.Val, f) || a.passed(st, f) || a.zero(st, func(n *prover, c *nctx, fr *nframe) (nlin, bool) {
				size, ok := a.source(n, c, fr, f)
				return n.length(c, term{fr: fr, v: st.Val}).add(size, -1), ok
			}) {
				a.ok("same-number", st)
			} else {
				a.bad("same-number", st, "the list answered is not seen to be as long as the one handed in")
			}
		})
	}
}
