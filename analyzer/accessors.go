package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: what the methods of a result answer, kind by kind.

func init() { checks["C31"] = checkC31 }

// accessor walks one method of a result for one kind of result.
type accessor struct {
	p    *Program
	r    *Report
	x    *Explorer
	f    *ssa.Function
	name string // method
	kind string
	num  *ssa.Const
	w    *listWalk
	fn   int // the parameter that is called for every result, or -1
	me   int // the parameter that is the result
	many bool
}

const (
	acPending = 1 << (8 + iota) // the answer of the visitor was not looked at yet
	acStopped                   // the visitor asked to stop
	acCalled
)

func checkC31(p *Program, r *Report) {
	r.Explanation = "Every exported method of a result is walked once for every kind of result it is read by, with the tests of the kind decided and helpers walked in place. For a missing result each value returned must be the empty one of its type whatever the other fields hold: an empty text, zero, false, nil, a list without elements (for batch queries: of missing results only), a map nothing was put into, or a missing result; the visitor is never called. For a list the visitor is called in a loop over the results that starts at the first, goes up by one and is left only at the end of the list or after the visitor answered false; each call hands over the element at the counter together with the counter, and no call is made while the answer of the one before it was not looked at or was false. Any other result is visited once, as itself, with index zero. Listing a list gives the results it holds; listing anything else gives that result alone. A number is zero or what the standard conversion made, without an error, of the whole text, in base ten and with 64 bits. Not covered: what the text of a list looks like, which texts count as true, what further queries on a present result find."
	r.Assumptions = []string{"strconv converts as documented"}
	r.Rule("missing-is-empty", "for a missing result every method returns the empty value of its type")
	r.Rule("visited-once", "the visitor gets every result once, in order, with its index, and is not called again after answering false")
	r.Rule("listed-as-is", "listing a result gives the results it holds, or itself alone")
	r.Rule("converted-whole", "a number read from a text is what the standard conversion made of the whole text without an error, or zero")

	kinds := map[string]*ssa.Const{}
	var names []string
	for _, n := range p.Root.Pkg.Scope().Names() {
		if c, ok := p.Root.Pkg.Scope().Lookup(n).(*types.Const); ok && isNamed(c.Type(), modPath, "Type") {
			kinds[n] = ssa.NewConst(c.Val(), c.Type())
			names = append(names, n)
		}
	}
	sort.Strings(names)
	r.Count("kinds", len(names))
	for _, k := range []string{"Null", "Array", "String"} {
		if kinds[k] == nil {
			r.Bad("missing-is-empty", "-", "-", "there is no kind of result named "+k)
			return
		}
	}
	for _, f := range p.Funcs {
		rv := f.Signature.Recv()
		if rv == nil || f.Parent() != nil || f.Blocks == nil || f.Synthetic != "" || !token.IsExported(f.Name()) || f.Pkg != p.Root {
			continue
		}
		if !isResultType(rv.Type()) {
			if isResultType(deref(rv.Type())) {
				r.Bad("missing-is-empty", p.Pos(f.Pos()), p.shortName(f), "takes the result by reference, which is not followed")
			}
			continue
		}
		r.Count("methods", 1)
		for _, k := range names {
			a := &accessor{p: p, r: r, f: f, name: p.shortName(f), kind: k, num: kinds[k], fn: -1}
			res := f.Signature.Results()
			for i := 1; i < len(f.Params); i++ {
				switch t := f.Params[i].Type().Underlying().(type) {
				case *types.Signature:
					if t.Results().Len() == 1 && isBool(t.Results().At(0).Type()) {
						a.fn = i
					}
				case *types.Slice:
					a.many = true
				}
			}
			list := len(f.Params) == 1 && res.Len() == 1 && isResultList(res.At(0).Type())
			number := len(f.Params) == 1 && res.Len() == 1 && isNumeric(res.At(0).Type()) && (k == "String" || k == "Element" || k == "Attribute")
			if k != "Null" && a.fn < 0 && !list && !number {
				continue
			}
			a.walk()
		}
	}
	r.Min("methods", 5)
	r.Min("visitor_calls", 1)
}

func isResultList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isResultType(s.Elem())
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// self reports whether a is the result the method was called on.
func (a *accessor) self(s *State, v AV) bool {
	v = a.x.resolve(s, v)
	if a.x.isParam(v, a.me) {
		return true
	}
	if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if w, ok := a.x.whole(s, v.fr, u.X); ok && w != v {
			return a.x.isParam(a.x.resolve(s, w), a.me)
		}
	}
	return false
}

// field tells which field of the result the method was called on v is.
func (a *accessor) field(s *State, v AV) string {
	switch u := v.v.(type) {
	case *ssa.UnOp:
		if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL && isResultType(deref(fa.X.Type())) {
			if w, ok := a.x.whole(s, v.fr, fa.X); ok && a.self(s, w) {
				return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
			}
		}
	case *ssa.Field:
		if isResultType(u.X.Type()) && a.self(s, AV{fr: v.fr, v: u.X}) {
			return u.X.Type().Underlying().(*types.Struct).Field(u.Field).Name()
		}
	}
	return ""
}

func (a *accessor) isField(s *State, v AV, name string) bool {
	v = a.x.resolve(s, v)
	return a.field(s, v) == name
}

func (a *accessor) bad(rule string, in ssa.Instruction, s *State, msg string) {
	a.r.Bad(rule, a.p.At(in), a.name, fmt.Sprintf("for a result of kind %s: %s", a.kind, msg), a.x.Trace(s)...)
}

// missing reports whether v is a missing result.
func (a *accessor) missing(s *State, v AV, d int) bool {
	if d > 6 {
		return false
	}
	v = a.x.resolve(s, v)
	if a.x.isNullResult(s, v, 0) || a.kind == "Null" && a.self(s, v) {
		return true
	}
	switch u := v.v.(type) {
	case *ssa.Call:
		// another method of a missing result, or this one again
		if g := u.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && isResultType(g.Signature.Recv().Type()) && token.IsExported(g.Name()) && isResultType(u.Type()) {
			return a.missing(s, AV{fr: v.fr, v: u.Common().Args[0]}, d+1)
		}
	case *ssa.UnOp:
		al, ok := u.X.(*ssa.Alloc)
		if !ok || u.Op != token.MUL || !privateStruct(al) {
			return false
		}
		good := true
		instrs(al.Parent(), func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			b, path := localPath(st.Addr)
			switch {
			case b != ssa.Value(al):
			case len(path) == 0:
				good = good && a.missing(s, AV{fr: v.fr, v: st.Val}, d+1)
			case path[0] == 0:
				n, ok := constInt(a.x.resolve(s, AV{fr: v.fr, v: st.Val}).v)
				good = good && ok && n == 0
			}
		})
		return good
	}
	return false
}

// arrayOf returns the array a literal list is made of.
func (a *accessor) arrayOf(s *State, v AV) (*ssa.Alloc, *types.Array, *Frame) {
	v = a.x.resolve(s, v)
	sl, ok := v.v.(*ssa.Slice)
	if !ok {
		return nil, nil, nil
	}
	b := a.x.resolve(s, AV{fr: v.fr, v: sl.X})
	al, ok := b.v.(*ssa.Alloc)
	if !ok {
		return nil, nil, nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || sl.Low != nil {
		return nil, nil, nil
	}
	if n, isC := constInt(sl.High); sl.High != nil && (!isC || n != arr.Len()) {
		return nil, nil, nil
	}
	return al, arr, b.fr
}

// none reports whether v is a list without elements.
func (a *accessor) none(s *State, v AV) bool { return a.noneAt(s, v, 0) }

func (a *accessor) noneAt(s *State, v AV, d int) bool {
	if d > 8 {
		return false
	}
	v = a.x.resolve(s, v)
	switch u := v.v.(type) {
	case *ssa.Const:
		return u.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(a.x.resolve(s, AV{fr: v.fr, v: u.Len}).v)
		return ok && n == 0
	case *ssa.Slice:
		if n, ok := constInt(u.High); u.High != nil && ok && n == 0 {
			return true
		}
		_, arr, _ := a.arrayOf(s, v)
		return arr != nil && arr.Len() == 0
	case *ssa.Call:
		if calleeName(u.Common()) == "builtin.append" {
			return a.noneAt(s, AV{fr: v.fr, v: u.Common().Args[0]}, d+1) && a.noneAt(s, AV{fr: v.fr, v: u.Common().Args[1]}, d+1)
		}
	}
	return false
}

// alone reports whether v is a list of the result itself only.
func (a *accessor) alone(s *State, v AV) bool { return a.aloneAt(s, v, 0) }

func (a *accessor) aloneAt(s *State, v AV, d int) bool {
	if d > 8 {
		return false
	}
	v = a.x.resolve(s, v)
	if c, ok := v.v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.append" {
		return a.noneAt(s, AV{fr: v.fr, v: c.Common().Args[0]}, d+1) && a.aloneAt(s, AV{fr: v.fr, v: c.Common().Args[1]}, d+1)
	}
	al, arr, fr := a.arrayOf(s, v)
	if al == nil || arr.Len() != 1 {
		return false
	}
	n, good := 0, true
	refs := append([]ssa.Instruction{}, *al.Referrers()...)
	for _, ref := range *al.Referrers() {
		if sl, ok := ref.(*ssa.Slice); ok {
			refs = append(refs, *sl.Referrers()...)
		}
	}
	for _, ref := range refs {
		ix, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ix.Referrers() {
			switch st := q.(type) {
			case *ssa.Store:
				n++
				good = good && st.Addr == ssa.Value(ix) && a.self(s, AV{fr: fr, v: st.Val})
			case *ssa.FieldAddr:
				good = false
			}
		}
	}
	return good && n == 1
}

// held reports whether v is the list of the results held.
func (a *accessor) held(s *State, v AV) bool { return a.heldAt(s, v, 0) }

func (a *accessor) heldAt(s *State, v AV, d int) bool {
	if d > 8 {
		return false
	}
	v = a.x.resolve(s, v)
	if a.field(s, v) == "Results" {
		return true
	}
	if c, ok := v.v.(*ssa.Call); ok {
		switch n := calleeName(c.Common()); {
		case n == "builtin.append":
			return a.noneAt(s, AV{fr: v.fr, v: c.Common().Args[0]}, d+1) && a.heldAt(s, AV{fr: v.fr, v: c.Common().Args[1]}, d+1)
		case strings.HasPrefix(n, "slices.Clone"), strings.HasPrefix(n, "slices.Clip"):
			return a.heldAt(s, AV{fr: v.fr, v: c.Common().Args[0]}, d+1)
		}
	}
	if ms, ok := v.v.(*ssa.MakeSlice); ok {
		// made to size and filled by copy
		for _, ref := range *ms.Referrers() {
			if c, ok := ref.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.copy" && c.Common().Args[0] == ssa.Value(ms) && a.heldAt(s, AV{fr: v.fr, v: c.Common().Args[1]}, d+1) {
				l, ok := a.x.resolve(s, AV{fr: v.fr, v: ms.Len}).v.(*ssa.Call)
				return ok && calleeName(l.Common()) == "builtin.len" && a.heldAt(s, AV{fr: v.fr, v: l.Common().Args[0]}, d+1)
			}
		}
	}
	return false
}

// list reports whether v is what is visited.
func (a *accessor) list(s *State, v AV) bool {
	if a.kind == "Array" {
		return a.held(s, v)
	}
	return a.kind != "Null" && a.alone(s, v)
}

// empty explains why a value returned is not empty, "" if it is.
func (a *accessor) empty(s *State, v AV, t types.Type) string {
	v = a.x.resolve(s, v)
	if isResultType(t) {
		if a.missing(s, v, 0) {
			return ""
		}
		return "returns a result that may be present"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			if a.x.evalBoolAV(s, v, 0) < 0 {
				return ""
			}
			return "may return true"
		}
		for d := 0; d < 4; d++ {
			if cv, ok := v.v.(*ssa.Convert); ok && isNumeric(cv.X.Type()) {
				v = a.x.resolve(s, AV{fr: v.fr, v: cv.X})
			}
		}
		c, ok := v.v.(*ssa.Const)
		if !ok || c.Value == nil {
			return "returns a value that may not be empty"
		}
		switch c.Value.Kind() {
		case constant.String:
			ok = constant.StringVal(c.Value) == ""
		case constant.Int, constant.Float:
			ok = constant.Sign(c.Value) == 0
		default:
			ok = false
		}
		if !ok {
			return "returns " + c.Value.String()
		}
		return ""
	case *types.Interface:
		if c, ok := v.v.(*ssa.Const); ok && c.Value == nil {
			return ""
		}
		return "returns something instead of nil"
	case *types.Map:
		switch v.v.(type) {
		case *ssa.MakeMap:
			return ""
		case *ssa.Const:
			return ""
		}
		return "returns a map that may not be empty"
	case *types.Slice:
		if a.none(s, v) {
			return ""
		}
		if a.many && isResultType(u.Elem()) && a.built(s, v, map[AV]bool{}) {
			return ""
		}
		return "returns a list that may hold results"
	}
	return "returns a value of a type that is not followed"
}

// built: a list made here; what is put into it is checked where it is put there.
func (a *accessor) built(s *State, v AV, seen map[AV]bool) bool {
	v = a.x.resolve(s, v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch u := v.v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if al, _, _ := a.arrayOf(s, v); al != nil {
			return true
		}
		return a.built(s, AV{fr: v.fr, v: u.X}, seen)
	case *ssa.Const:
		return u.Value == nil
	case *ssa.Call:
		return calleeName(u.Common()) == "builtin.append" && a.built(s, AV{fr: v.fr, v: u.Common().Args[0]}, seen) && a.built(s, AV{fr: v.fr, v: u.Common().Args[1]}, seen)
	case *ssa.Phi:
		return true
	}
	return false
}

// visits reports whether a call hands a result to the visitor.
func (a *accessor) visits(s *State, in ssa.Instruction) *ssa.Call {
	c, ok := in.(*ssa.Call)
	if !ok || a.fn < 0 || c.Common().IsInvoke() {
		return nil
	}
	if _, isB := c.Common().Value.(*ssa.Builtin); isB || c.Common().StaticCallee() != nil {
		return nil
	}
	if !a.x.isParam(a.x.resolve(s, AV{fr: s.fr, v: c.Common().Value}), a.fn) {
		return nil
	}
	return c
}

func (a *accessor) visit(s *State, c *ssa.Call) {
	a.r.Count("visitor_calls", 1)
	const rule = "visited-once"
	if a.kind == "Null" {
		a.bad("missing-is-empty", c, s, "calls the visitor")
		return
	}
	if s.Bits&acStopped != 0 {
		a.bad(rule, c, s, "calls the visitor again after it asked to stop")
		return
	}
	if s.Bits&acPending != 0 {
		a.bad(rule, c, s, "calls the visitor again without having looked at its answer")
		return
	}
	var idx, val AV
	for _, arg := range c.Common().Args {
		if isResultType(arg.Type()) {
			val = AV{fr: s.fr, v: arg}
		} else {
			idx = AV{fr: s.fr, v: arg}
		}
	}
	if idx.v == nil || val.v == nil {
		a.bad(rule, c, s, "calls a visitor that does not take an index and a result")
		return
	}
	val, idx = a.x.resolve(s, val), a.x.resolveNoFact(s, idx)
	if u, ok := val.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if w, ok := a.x.whole(s, val.fr, u.X); ok {
			val = a.x.resolve(s, w)
		}
	}
	if a.kind != "Array" && a.self(s, val) {
		if n, ok := constInt(a.x.resolve(s, idx).v); !ok || n != 0 {
			a.bad(rule, c, s, "visits the result with an index other than zero")
			return
		}
		if s.Bits&acCalled != 0 {
			a.bad(rule, c, s, "visits the result more than once")
			return
		}
		s.Bits |= acCalled | acPending | lwDone
		return
	}
	if !a.w.element(s, val) {
		a.bad(rule, c, s, "hands over something other than the next result of the list")
		return
	}
	ix := val.v.(*ssa.UnOp).X.(*ssa.IndexAddr)
	at, first, ok := ascending(ix.Index)
	got, gfirst, gok := ascending(idx.v)
	same := false
	switch {
	case ok && first == 0:
		same = idx.v == ix.Index && idx.fr == val.fr || gok && gfirst == first && got == at && idx.fr == val.fr
	default:
		if ph, _, isC := consuming(ix.X); isC {
			same = gok && gfirst == 0 && got.Block() == ph.Block() && idx.fr == val.fr
		}
	}
	if !same {
		a.bad(rule, c, s, "hands over a result with an index that is not its own")
		return
	}
	if s.Bits&lwApplied != 0 {
		a.bad(rule, c, s, "visits one result twice")
		return
	}
	s.Bits |= lwApplied | acPending | acCalled
	a.r.OK(rule, a.p.At(c), fmt.Sprintf("%s of a result of kind %s: the next result with its index", a.name, a.kind))
}

func (a *accessor) walk() {
	x := newExplorer(a.p)
	a.x = x
	x.TrackInt = true
	x.Mem = true
	a.w = &listWalk{x: x, list: a.list, elem: isResultList}
	nil0 := &listWalk{x: x, list: a.none, elem: isResultList}
	fs := a.p.reachFrom([]*ssa.Function{a.f})
	a.w.prepare(fs)
	nil0.prepare(fs)
	p, r := a.p, a.r
	rule := "missing-is-empty"
	switch {
	case a.fn >= 0:
		rule = "visited-once"
	case a.kind == "Null":
	case isResultList(a.f.Signature.Results().At(0).Type()):
		rule = "listed-as-is"
	default:
		rule = "converted-whole"
	}
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
		return callee.Signature.Recv() != nil || !p.isEntry(callee)
	}
	x.Decide = func(x *Explorer, s *State, cond ssa.Value) int {
		if nil0.ends(s, cond, true) {
			return 1
		}
		if nil0.ends(s, cond, false) {
			return -1
		}
		// a list of one: the first round takes place, a second does not
		more := -1
		if s.Bits&acCalled != 0 {
			more = 1
		}
		if a.kind != "Array" && a.w.ends(s, cond, true) {
			return more
		}
		if a.kind != "Array" && a.w.ends(s, cond, false) {
			return -more
		}
		return 0
	}
	answer := func(s *State, cond ssa.Value, taken bool) {
		v, truth := AV{fr: s.fr, v: cond}, taken
		for d := 0; d < 8; d++ {
			v = x.resolveNoFact(s, v)
			u, ok := v.v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, truth = AV{fr: v.fr, v: u.X}, !truth
		}
		if c, ok := v.v.(*ssa.Call); ok && a.fn >= 0 && x.isParam(x.resolve(s, AV{fr: v.fr, v: c.Common().Value}), a.fn) {
			s.Bits &^= acPending
			if !truth {
				s.Bits |= acStopped
			}
		}
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if a.fn < 0 || a.kind == "Null" {
			if err, ok := x.noError(s, iff.Cond, taken); ok {
				s.Ext = avKey(err)
			}
			return true
		}
		answer(s, iff.Cond, taken)
		to := iff.Block().Succs[1]
		if taken {
			to = iff.Block().Succs[0]
		}
		if a.w.ends(s, iff.Cond, taken) {
			s.Bits |= lwDone
		}
		if m := a.w.cross(s, iff.Block(), to); m != "" && s.Bits&acStopped == 0 {
			a.bad(rule, iff, s, m)
		}
		if a.w.heads[iff.Block()] && s.Bits&lwDone == 0 {
			s.Bits |= lwWanted
		}
		return true
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		if v, ok := in.(ssa.Value); ok && a.field(s, AV{fr: s.fr, v: v}) == "Type" {
			s.facts[fkey{s.fr, v, 0}] = AV{v: a.num}
		}
		if b, ok := in.(*ssa.BinOp); ok && isNamed(b.X.Type(), modPath, "Type") {
			if d := x.evalBool(s, b); d != 0 {
				s.facts[fkey{s.fr, b, 0}] = boolAV(d > 0)
			}
		}
		if j, ok := in.(*ssa.Jump); ok && a.fn >= 0 && a.kind != "Null" {
			if m := a.w.cross(s, j.Block(), j.Block().Succs[0]); m != "" && s.Bits&acStopped == 0 {
				a.bad(rule, in, s, m)
			}
		}
		if a.kind == "Null" && a.fn < 0 {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if isResultType(in.Value.Type()) {
					a.bad(rule, in, s, "puts something into a map of results")
				}
			case *ssa.Store:
				if ix, ok := in.Addr.(*ssa.IndexAddr); ok && isResultType(in.Val.Type()) && a.many && !a.missing(s, AV{fr: s.fr, v: in.Val}, 0) {
					_ = ix
					a.bad(rule, in, s, "puts a result that may be present into a list")
				}
			}
		}
		return true
	}
	x.Pre = func(x *Explorer, s *State, in ssa.Instruction) {
		if c := a.visits(s, in); c != nil {
			a.visit(s, c)
		}
		switch in.(type) {
		case *ssa.Go, *ssa.Defer:
			if a.fn >= 0 {
				a.bad(rule, in, s, "leaves the straight course of the visit")
			}
		}
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if deadReturn(ret) {
			return
		}
		what := fmt.Sprintf("%s of a result of kind %s", a.name, a.kind)
		switch {
		case a.fn >= 0 && a.kind != "Null":
			if s.Bits&(acStopped|lwDone) == 0 {
				a.bad(rule, ret, s, "ends before every result was visited")
				return
			}
			if a.kind != "Array" && s.Bits&acCalled == 0 {
				a.bad(rule, ret, s, "ends without having visited the result")
				return
			}
			r.OK(rule, p.At(ret), what)
		case a.kind == "Null":
			for _, v := range ret.Results {
				if m := a.empty(s, AV{fr: s.fr, v: v}, v.Type()); m != "" {
					a.bad("missing-is-empty", ret, s, m)
					return
				}
			}
			r.OK("missing-is-empty", p.At(ret), what)
		case rule == "listed-as-is":
			if !a.list(s, AV{fr: s.fr, v: ret.Results[0]}) {
				a.bad(rule, ret, s, "returns a list other than the results held, or the result alone")
				return
			}
			r.OK(rule, p.At(ret), what)
		default:
			if m := a.number(s, AV{fr: s.fr, v: ret.Results[0]}); m != "" {
				a.bad(rule, ret, s, m)
				return
			}
			r.OK(rule, p.At(ret), what)
		}
	}
	x.Run(a.f)
	if x.Overflow {
		r.Bad(rule, p.Pos(a.f.Pos()), a.name, fmt.Sprintf("too complex to follow (%d states)", x.Nodes))
	}
	r.Count("walks", 1)
	r.Count("walked_states", x.Nodes)
}

// number explains why a number read from a text is not the whole text's.
func (a *accessor) number(s *State, v AV) string {
	x := a.x
	v = x.resolve(s, v)
	if c, ok := v.v.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
		return ""
	}
	if cv, ok := v.v.(*ssa.Convert); ok {
		if f, t := cv.X.Type().Underlying().(*types.Basic), cv.Type().Underlying().(*types.Basic); f.Kind() == types.Int && t.Kind() == types.Int64 {
			v = x.resolve(s, AV{fr: v.fr, v: cv.X})
		}
	}
	c, ok := v.v.(*ssa.Call)
	if !ok || v.idx != 1 {
		return "returns a number that is not what the standard conversion made of the text"
	}
	args := c.Common().Args
	is := func(i int, want int64) bool {
		n, ok := constInt(x.resolve(s, AV{fr: v.fr, v: args[i]}).v)
		return ok && n == want
	}
	switch calleeName(c.Common()) {
	case "strconv.ParseInt":
		if !is(1, 10) || !is(2, 64) {
			return "reads a number in another base or size"
		}
	case "strconv.ParseFloat":
		if !is(1, 64) || !isFloat(a.f.Signature.Results().At(0).Type()) {
			return "reads a number in another size"
		}
	case "strconv.Atoi":
	default:
		return "returns a number that is not what the standard conversion made of the text"
	}
	if !a.isField(s, AV{fr: v.fr, v: args[0]}, "Str") {
		return "reads a number from something other than the whole text"
	}
	if err := (AV{fr: v.fr, v: c, idx: 2}); s.Ext != avKey(err) && x.nilnessAV(x.resolve(s, err)) >= 0 {
		return "returns what a failed conversion left behind"
	}
	return ""
}

// noError recognises the outcome of a test that means there is no error.
func (x *Explorer) noError(s *State, cond ssa.Value, truth bool) (AV, bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 8; d++ {
		a = x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, !truth
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok || !isErrorType(bo.X.Type()) || (bo.Op == token.EQL) != truth {
		return AV{}, false
	}
	if bo.Op != token.EQL && bo.Op != token.NEQ {
		return AV{}, false
	}
	l, r := bo.X, bo.Y
	if isNilConst(l) {
		l, r = r, l
	}
	if !isNilConst(r) {
		return AV{}, false
	}
	return x.resolve(s, AV{fr: a.fr, v: l}), true
}
