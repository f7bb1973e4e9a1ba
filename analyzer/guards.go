package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	maxDoc   = 10 << 20
	maxValue = 5 << 20
)

func isResultType(t types.Type) bool { return isNamed(t, modPath, "Result") && isStruct(t) }

// docEntries returns the package-level entry points that take a document first.
func (p *Program) docEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.entries {
		if f.Signature.Recv() != nil || f.Pkg != p.Root || f.Signature.Params().Len() == 0 || f.Signature.Results().Len() == 0 {
			continue
		}
		t := f.Signature.Params().At(0).Type()
		if !isString(t) && !isByteSlice(t) {
			continue
		}
		r0 := f.Signature.Results().At(0).Type()
		isDoc := false
		if s, ok := r0.Underlying().(*types.Slice); ok && isResultType(s.Elem()) {
			isDoc = true
		}
		if isResultType(r0) || isNamed(r0, modPath, "ValidateError") {
			isDoc = true
		}
		if f.Signature.Results().Len() == 1 && isBool(r0) {
			isDoc = true
		}
		if f.Signature.Results().Len() == 2 && types.Identical(t, r0) && isErrorType(f.Signature.Results().At(1).Type()) {
			isDoc = true
		}
		if isDoc {
			out = append(out, f)
		}
	}
	return out
}

var docNames = append([]string{"Get", "GetString", "GetBytes", "GetMany", "GetWithOptions", "GetStringWithOptions", "GetBytesWithOptions",
	"Valid", "ValidBytes", "ValidateWithError", "ValidateBytesWithError"}, modNames...)

// isParam reports whether a is parameter i of the entry function.
func (x *Explorer) isParam(a AV, i int) bool {
	prm, ok := a.v.(*ssa.Parameter)
	return ok && a.fr == x.root && i < len(x.root.fn.Params) && x.root.fn.Params[i] == prm
}

// carries reports whether a value holds (part of) the document parameter.
func (x *Explorer) carries(s *State, a AV, i, d int) bool {
	if d > 12 {
		return true
	}
	a = x.content(s, a)
	if x.isParam(a, i) {
		return true
	}
	switch v := a.v.(type) {
	case *ssa.Slice:
		return x.carries(s, AV{fr: a.fr, v: v.X}, i, d+1)
	case *ssa.Phi:
		if v.Block() == nil {
			return false
		}
		for _, e := range v.Edges {
			if e != ssa.Value(v) && d < 6 && x.carries(s, AV{fr: a.fr, v: e}, i, d+3) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		base, path, ok := x.addrOf(s, a.fr, v.X)
		if !ok || len(path) == 0 {
			return false
		}
		return x.carriesPath(s, base, path, i, d+1)
	}
	return false
}

func (x *Explorer) carriesPath(s *State, base AV, path []int, i, d int) bool {
	if d > 12 {
		return true
	}
	sts, rest := storesTo(base.v.(*ssa.Alloc), path)
	for k, st := range sts {
		if len(rest[k]) == 0 {
			if x.carries(s, AV{fr: base.fr, v: st.Val}, i, d+1) {
				return true
			}
			continue
		}
		if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if b2, p2, ok := x.addrOf(s, base.fr, ld.X); ok && x.carriesPath(s, b2, append(append([]int{}, p2...), rest[k]...), i, d+1) {
				return true
			}
		}
	}
	return false
}

// looksAt returns a description if the instruction inspects bytes of the
// document parameter.
func (x *Explorer) looksAt(s *State, in ssa.Instruction, i int) string {
	t := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		ty := v.Type()
		if !isString(ty) && !isByteSlice(ty) {
			return false
		}
		return x.carries(s, AV{fr: s.fr, v: v}, i, 0)
	}
	switch in := in.(type) {
	case *ssa.IndexAddr:
		if t(in.X) {
			return "indexes the document"
		}
	case *ssa.Index:
		if t(in.X) {
			return "indexes the document"
		}
	case *ssa.Lookup:
		if isString(in.X.Type()) && t(in.X) {
			return "indexes the document"
		}
	case *ssa.Range:
		if t(in.X) {
			return "ranges over the document"
		}
	case *ssa.BinOp:
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if t(in.X) || t(in.Y) {
				if cs, ok := constString(in.Y); ok && cs == "" || isNilConst(in.Y) {
					return ""
				}
				if cs, ok := constString(in.X); ok && cs == "" || isNilConst(in.X) {
					return ""
				}
				return "compares the document"
			}
		}
	case ssa.CallInstruction:
		cc := in.Common()
		n := calleeName(cc)
		switch n {
		case "builtin.len", "builtin.cap", "builtin.append", "builtin.copy", "builtin.Slice", "builtin.String", "builtin.StringData", "builtin.SliceData",
			"strings.Clone", "bytes.Clone", "slices.Clone":
			return ""
		}
		callee := cc.StaticCallee()
		if call, ok := in.(*ssa.Call); ok && callee == nil {
			callee, _, _ = x.callee(s, call)
		}
		if callee != nil && x.p.InLib(callee) && !s.fr.onStack(callee) {
			return ""
		}
		for _, a := range cc.Args {
			if t(a) {
				return "passes the document to " + n
			}
		}
	}
	return ""
}

// isNullResult reports whether a Result value is the empty one.
func (x *Explorer) isNullResult(s *State, a AV, d int) bool {
	if d > 6 {
		return false
	}
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		if g, ok := v.X.(*ssa.Global); ok {
			return x.p.zeroGlobal(g)
		}
		al, ok := v.X.(*ssa.Alloc)
		if !ok || !privateStruct(al) {
			return false
		}
		good := true
		instrs(al.Parent(), func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			b, path := localPath(st.Addr)
			if b != ssa.Value(al) {
				return
			}
			if len(path) == 0 {
				if !x.isNullResult(s, AV{fr: a.fr, v: st.Val}, d+1) {
					good = false
				}
				return
			}
			c, isC := x.resolve(s, AV{fr: a.fr, v: st.Val}).v.(*ssa.Const)
			if !isC {
				good = false
				return
			}
			if n, ok := constInt(c); ok && n != 0 {
				good = false
			}
			if str, ok := constString(c); ok && str != "" {
				good = false
			}
		})
		return good
	}
	return false
}

// zeroGlobal: a package-level struct that is empty and that nothing writes to.
func (p *Program) zeroGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !p.inLib[g.Pkg] || !isStruct(deref(g.Type())) || g.Object() == nil || g.Object().Exported() {
		return false
	}
	var zero func(v ssa.Value) bool
	zero = func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			al, ok := u.X.(*ssa.Alloc)
			if !ok || !privateStruct(al) {
				return false
			}
			good := true
			instrs(al.Parent(), func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					if b, path := localPath(st.Addr); b == ssa.Value(al) {
						good = good && len(path) > 0 && zero(st.Val)
					}
				}
			})
			return good
		}
		c, ok := v.(*ssa.Const)
		if !ok {
			return false
		}
		if n, ok := constInt(c); ok {
			return n == 0
		}
		if str, ok := constString(c); ok {
			return str == ""
		}
		return c.Value == nil
	}
	good := true
	fs := append([]*ssa.Function{g.Pkg.Func("init")}, p.Funcs...)
	for _, f := range fs {
		if f == nil {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
				case *ssa.Store:
					good = good && in.Addr == ssa.Value(g) && zero(in.Val)
				case *ssa.FieldAddr:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							good = good && r.Addr == ssa.Value(in) && zero(r.Val)
						default:
							good = false
						}
					}
				default:
					good = false
				}
			}
		})
	}
	return good
}

// refusal reports whether a return of the entry refuses the document.
func (x *Explorer) refusal(s *State, ret *ssa.Return) bool {
	rs := ret.Results
	last := rs[len(rs)-1]
	switch {
	case isErrorType(last.Type()), isNamed(last.Type(), modPath, "ValidateError"):
		return x.nilness(s, s.fr, last) > 0
	case isBool(last.Type()):
		return x.evalBoolAV(s, AV{fr: s.fr, v: last}, 0) < 0
	case isResultType(last.Type()):
		return x.isNullResult(s, AV{fr: s.fr, v: last}, 0)
	case isSliceOfResult(last.Type()):
		// elements were judged when they were stored
		switch x.resolve(s, AV{fr: s.fr, v: last}).v.(type) {
		case *ssa.MakeSlice, *ssa.Const, *ssa.Slice:
			return true
		case *ssa.Call, *ssa.Phi:
			return true // grown by append, judged at the append
		}
	}
	return false
}

func isSliceOfResult(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isResultType(s.Elem())
}

// derives reports whether a is computed from a parameter satisfying pred.
func (x *Explorer) derives(s *State, a AV, pred func(AV) bool, d int, seen map[AV]bool) bool {
	if d > 40 || a.v == nil {
		return false
	}
	a = x.resolve(s, a)
	if seen[a] {
		return false
	}
	seen[a] = true
	if pred(a) {
		return true
	}
	if a.nonnil {
		a.nonnil = false
	}
	switch v := a.v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
		return false
	case *ssa.Alloc:
		hit := false
		instrs(v.Parent(), func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && !hit && rootAddr(st.Addr) == ssa.Value(v) {
				hit = x.derives(s, AV{fr: a.fr, v: st.Val}, pred, d+1, seen)
			}
			// a call that is given the place can put what else it is given there
			if c, ok := in.(*ssa.Call); ok && !hit {
				given := false
				for _, arg := range c.Call.Args {
					given = given || rootAddr(arg) == ssa.Value(v)
				}
				for _, arg := range c.Call.Args {
					if given && !hit && rootAddr(arg) != ssa.Value(v) {
						hit = x.derives(s, AV{fr: a.fr, v: arg}, pred, d+1, seen)
					}
				}
			}
		})
		return hit
	case *ssa.Call:
		callee := v.Common().StaticCallee()
		if callee != nil && x.p.InLib(callee) && callee.Blocks != nil && a.fr != nil && !a.fr.onStack(callee) {
			fr := x.newFrame(a.fr, v, callee)
			for _, ret := range returnsOf(callee) {
				for i, rv := range ret.Results {
					if a.idx > 0 && i != a.idx-1 {
						continue
					}
					if x.derives(s, AV{fr: fr, v: rv}, pred, d+1, seen) {
						return true
					}
				}
			}
			return false
		}
		if v.Common().IsInvoke() && x.derives(s, AV{fr: a.fr, v: v.Common().Value}, pred, d+1, seen) {
			return true
		}
		for _, arg := range v.Common().Args {
			if x.derives(s, AV{fr: a.fr, v: arg}, pred, d+1, seen) {
				return true
			}
		}
		return false
	case ssa.Instruction:
		for _, op := range v.Operands(nil) {
			if *op != nil && x.derives(s, AV{fr: a.fr, v: *op}, pred, d+1, seen) {
				return true
			}
		}
	}
	return false
}

func checkC08(p *Program, r *Report) {
	r.Rule("size-before-bytes", "on every path from an entry point that takes a document, the document's length must have been compared with 10 MiB before any of its bytes is indexed, ranged over, compared or passed to other code")
	r.Rule("oversized-refused", "every return reachable without having established that the document is at most 10 MiB must be a refusal (error, invalid, or empty result)")
	r.Rule("value-size-before-write", "no successful return may be reachable with a value whose text was not compared with the 5 MiB limit")
	r.Explanation = "Each public entry point was walked with its library callees inlined at the call sites, following every branch except those that establish len(document) <= 10 MiB (second part: len(value text) <= 5 MiB). Whatever remains reachable must neither inspect the document nor succeed. Covers all inputs and option values; assumes only that the standard library does not look at a slice passed to len, copy or append."
	ents := p.docEntries()
	requireNames(p, r, ents, docNames)
	r.Count("document_entry_points", len(ents))
	for _, f := range ents {
		x := newExplorer(p)
		guards := map[ssa.Instruction]bool{}
		bad := false
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			if y, n, ok := x.lenBound(s, iff.Cond, taken); ok && n <= maxDoc && x.isParam(x.content(s, y), 0) {
				guards[iff] = true
				return false
			}
			return true
		}
		x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
			if why := x.looksAt(s, in, 0); why != "" {
				bad = true
				r.Bad("size-before-bytes", p.At(in), p.shortName(s.fr.fn), why+" before its size was compared with the limit (entry "+f.Name()+")", x.Trace(s)...)
				x.Stop()
				return false
			}
			if st, ok := in.(*ssa.Store); ok && isResultType(st.Val.Type()) {
				if _, isElem := st.Addr.(*ssa.IndexAddr); isElem && !x.isNullResult(s, AV{fr: s.fr, v: st.Val}, 0) && s.fr == x.root {
					bad = true
					r.Bad("oversized-refused", p.At(in), p.shortName(s.fr.fn), "stores a result for a document whose size was not compared with the limit", x.Trace(s)...)
				}
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			r.Count("unguarded_returns", 1)
			if !x.refusal(s, ret) {
				bad = true
				r.Bad("oversized-refused", p.At(ret), f.Name(), "can return without an error or empty result although the document may exceed the limit", x.Trace(s)...)
			}
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		r.Count("walked_edges", x.Edges)
		r.Count("size_tests", len(guards))
		if x.Overflow {
			bad = true
			r.Bad("size-before-bytes", p.Pos(f.Pos()), f.Name(), "undecided: walk too large")
		}
		if len(guards) == 0 {
			bad = true
			r.Bad("size-before-bytes", p.Pos(f.Pos()), f.Name(), "no test of the document size against the limit was found")
		}
		if !bad {
			r.OK("size-before-bytes", p.Pos(f.Pos()), fmt.Sprintf("%s: %d states before the size test, none looks at the document", f.Name(), x.Nodes))
		}
	}
	// values
	nv := 0
	for _, f := range p.modFamily() {
		var vi []int
		for i, prm := range f.Params {
			if i == 0 {
				continue
			}
			if it, ok := prm.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				vi = append(vi, i)
			}
			if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
				if it, ok := sl.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
					vi = append(vi, i)
				}
			}
			if i >= 2 && isString(prm.Type()) {
				vi = append(vi, i)
			}
		}
		if len(vi) == 0 {
			continue
		}
		nv++
		x := newExplorer(p)
		src := func(a AV) bool {
			for _, i := range vi {
				if x.isParam(a, i) {
					return true
				}
			}
			return false
		}
		guards := map[ssa.Instruction]bool{}
		bad := false
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
			if isValidatorCall(p, callee) {
				return false
			}
			// only code that can see the value or decide the outcome matters
			for _, a := range call.Common().Args {
				if x.derives(s, AV{fr: s.fr, v: a}, src, 0, map[AV]bool{}) || isErrorType(a.Type()) {
					return true
				}
			}
			return false
		}
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			if y, n, ok := x.lenBound(s, iff.Cond, taken); ok && n <= maxValue {
				if cs, isC := constString(y.v); isC && int64(len(cs)) <= n {
					return false // a value rendered as a fixed word
				}
				if x.derives(s, y, src, 0, map[AV]bool{}) && !sliceOfAny(y) {
					guards[iff] = true
					return false
				}
			}
			// numbers and booleans have a short text
			if ex, ok := iff.Cond.(*ssa.Extract); ok && taken && ex.Index == 1 {
				if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && shortText(ta.AssertedType) && x.derives(s, AV{fr: s.fr, v: ta.X}, src, 0, map[AV]bool{}) {
					return false
				}
			}
			// a nil value writes nothing
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isNilConst(bo.Y) {
				if (bo.Op == token.EQL) == taken && !isErrorType(bo.X.Type()) && x.derives(s, AV{fr: s.fr, v: bo.X}, src, 0, map[AV]bool{}) {
					if _, isI := bo.X.Type().Underlying().(*types.Interface); isI {
						return false
					}
				}
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if x.nilness(s, s.fr, ret.Results[1]) > 0 {
				return
			}
			if x.isParam(x.content(s, AV{fr: s.fr, v: ret.Results[0]}), 0) {
				return
			}
			bad = true
			r.Bad("value-size-before-write", p.At(ret), f.Name(), "can succeed with a value whose size was never compared with the 5 MiB limit", x.Trace(s)...)
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		r.Count("walked_edges", x.Edges)
		r.Count("value_size_tests", len(guards))
		if x.Overflow {
			bad = true
			r.Bad("value-size-before-write", p.Pos(f.Pos()), f.Name(), "undecided: walk too large")
		}
		if len(guards) == 0 {
			bad = true
			r.Bad("value-size-before-write", p.Pos(f.Pos()), f.Name(), "no test of the value size against the limit was found")
		}
		if !bad {
			r.OK("value-size-before-write", p.Pos(f.Pos()), fmt.Sprintf("%s: every successful path compares the value size (%d states)", f.Name(), x.Nodes))
		}
	}
	r.Count("value_entry_points", nv)
	r.Min("document_entry_points", 23)
	r.Min("value_entry_points", 7)
}

// rootAddr strips element and field selections from an address.
func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return v
		}
	}
}

func shortText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

func sliceOfAny(a AV) bool {
	t := a.v.Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		_, isI := s.Elem().Underlying().(*types.Interface)
		return isI || !isByteSlice(t)
	}
	return false
}

// isValidatorCall reports whether f is one of the public well-formedness checks.
func isValidatorCall(p *Program, f *ssa.Function) bool {
	if f == nil || f.Pkg != p.Root || f.Signature.Recv() != nil {
		return false
	}
	switch f.Name() {
	case "Valid", "ValidBytes", "ValidateWithError", "ValidateBytesWithError":
		return true
	}
	return false
}

// validTest: if the branch outcome establishes that the public well-formedness
// check accepted some text, returns that text.
func (x *Explorer) validTest(s *State, cond ssa.Value, truth bool) (AV, bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 10; d++ {
		switch v := a.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.NOT {
				a, truth = AV{fr: a.fr, v: v.X}, !truth
				continue
			}
		case *ssa.BinOp:
			if (v.Op == token.EQL || v.Op == token.NEQ) && (isNilConst(v.Y) || isNilConst(v.X)) {
				e := v.X
				if isNilConst(v.X) {
					e = v.Y
				}
				c := x.resolveNoFact(s, AV{fr: a.fr, v: e})
				if call, ok := c.v.(*ssa.Call); ok && isValidatorCall(x.p, call.Common().StaticCallee()) && !isBool(call.Type()) {
					if (v.Op == token.EQL) == truth {
						return x.content(s, AV{fr: c.fr, v: call.Common().Args[0]}), true
					}
				}
			}
			return AV{}, false
		case *ssa.Call:
			if isValidatorCall(x.p, v.Common().StaticCallee()) && isBool(v.Type()) {
				if truth {
					return x.content(s, AV{fr: a.fr, v: v.Common().Args[0]}), true
				}
				return AV{}, false
			}
		}
		b := x.resolveNoFact(s, a)
		if b == a {
			return AV{}, false
		}
		a = b
	}
	return AV{}, false
}

func checkC09(p *Program, r *Report) {
	r.Rule("edit-only-valid", "every return of a modification entry point reachable without the library's well-formedness check having accepted the document (or, when setting, the document being empty) must carry a non-nil error or the unedited document")
	r.Rule("raw-result-valid", "every return of SetRaw without an error must return a text that the well-formedness check accepted on that path")
	r.Explanation = "Each modification entry point was walked with its library callees inlined; branches that establish Valid(document) or, for set functions, an empty document were cut. Successful edits must be unreachable in what remains. For SetRaw the returned text itself must have passed the check. The meaning of the check itself is property C18/C27."
	fam := p.modFamily()
	requireNames(p, r, fam, modNames)
	r.Count("modification_entry_points", len(fam))
	for _, f := range fam {
		isSet := len(f.Name()) >= 3 && f.Name()[:3] == "Set"
		x := newExplorer(p)
		tests := map[ssa.Instruction]bool{}
		bad := false
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
			if isValidatorCall(p, callee) {
				return false
			}
			return docRelevant(x, s, call, callee)
		}
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			if y, ok := x.validTest(s, iff.Cond, taken); ok && x.isParam(x.content(s, y), 0) {
				tests[iff] = true
				return false
			}
			if isSet {
				if y, n, ok := x.lenBound(s, iff.Cond, taken); ok && n <= 0 && x.isParam(x.content(s, y), 0) {
					return false
				}
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			r.Count("unvalidated_returns", 1)
			if x.nilness(s, s.fr, ret.Results[1]) > 0 {
				return
			}
			if x.isParam(x.content(s, AV{fr: s.fr, v: ret.Results[0]}), 0) {
				return
			}
			bad = true
			r.Bad("edit-only-valid", p.At(ret), f.Name(), "can return an edited document that was never checked for well-formedness", x.Trace(s)...)
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		r.Count("walked_edges", x.Edges)
		r.Count("validity_tests", len(tests))
		if x.Overflow {
			bad = true
			r.Bad("edit-only-valid", p.Pos(f.Pos()), f.Name(), "undecided: walk too large")
		}
		if len(tests) == 0 {
			bad = true
			r.Bad("edit-only-valid", p.Pos(f.Pos()), f.Name(), "no well-formedness test of the document found")
		}
		if !bad {
			r.OK("edit-only-valid", p.Pos(f.Pos()), fmt.Sprintf("%s: no edit reachable without the check (%d states)", f.Name(), x.Nodes))
		}
	}
	// which error answers a malformed document: the failing side of the check
	for _, f := range fam {
		if !callsValidator(p, f) {
			continue
		}
		x := newExplorer(p)
		bad := false
		seen := 0
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
			return !isValidatorCall(p, callee) && docRelevant(x, s, call, callee)
		}
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			if y, ok := x.validTest(s, iff.Cond, !taken); ok && x.isParam(x.content(s, y), 0) {
				s.Bits |= 1 // the check has rejected the document
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if s.Bits&1 == 0 {
				return
			}
			seen++
			c := &classifier{p: p, sentinels: map[*ssa.Global]bool{}}
			if g := p.Global("ErrMalformedXML"); g != nil {
				c.sentinels[g] = true
			}
			a := x.resolve(s, AV{fr: s.fr, v: ret.Results[1]})
			if !x.wrapsSentinel(s, a, "ErrMalformedXML", 0) {
				bad = true
				r.Bad("edit-only-valid", p.At(ret), f.Name(), "answers a document the check rejected with something else than the malformed-document error", x.Trace(s)...)
			}
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		if !bad && seen > 0 {
			r.OK("edit-only-valid", p.Pos(f.Pos()), f.Name()+": a rejected document is answered with ErrMalformedXML")
		}
		r.Count("rejecting_returns", seen)
	}
	// SetRaw
	f := p.Func("SetRaw")
	if f != nil {
		x := newExplorer(p)
		bad := false
		n := 0
		var ok1 []AV
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
			if isValidatorCall(p, callee) || isModEntry(fam, callee) {
				return false
			}
			return true
		}
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			if y, ok := x.validTest(s, iff.Cond, taken); ok {
				id := -1
				for i, o := range ok1 {
					if o == y {
						id = i
					}
				}
				if id < 0 {
					id = len(ok1)
					ok1 = append(ok1, y)
				}
				s.Bits |= 1 << uint(id)
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if x.nilness(s, s.fr, ret.Results[1]) > 0 {
				return
			}
			n++
			v := x.content(s, AV{fr: s.fr, v: ret.Results[0]})
			for i, o := range ok1 {
				if o == v && s.Bits&(1<<uint(i)) != 0 {
					return
				}
			}
			if x.isParam(v, 0) {
				return
			}
			bad = true
			r.Bad("raw-result-valid", p.At(ret), f.Name(), "can succeed with a document that was not checked for well-formedness after the insertion", x.Trace(s)...)
		}
		x.Run(f)
		r.Count("raw_success_returns", n)
		if !bad {
			r.OK("raw-result-valid", p.Pos(f.Pos()), "SetRaw: every successful return was checked")
		}
		r.Min("raw_success_returns", 1)
	}
	r.Min("modification_entry_points", 12)
	r.Min("validity_tests", 12)
	r.Min("rejecting_returns", 2)
}

func isModEntry(fam []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fam {
		if g == f {
			return true
		}
	}
	return false
}

// docRelevant: the callee can produce the document or the error that is returned,
// or decides a test on the document; everything else is left opaque.
func docRelevant(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
	res := callee.Signature.Results()
	if callee.Signature.Recv() != nil {
		return false
	}
	for _, a := range call.Common().Args {
		if (isString(a.Type()) || isByteSlice(a.Type())) && x.carries(s, AV{fr: s.fr, v: a}, 0, 0) {
			return res.Len() > 0
		}
	}
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) || isBool(res.At(i).Type()) {
			return callee.Signature.Params().Len() < 4
		}
	}
	return false
}

func callsValidator(p *Program, f *ssa.Function) bool {
	hit := false
	instrs(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && isValidatorCall(p, c.Common().StaticCallee()) {
			hit = true
		}
	})
	return hit
}

// wrapsSentinel reports whether an error value is the named documented error or
// wraps it.
func (x *Explorer) wrapsSentinel(s *State, a AV, name string, d int) bool {
	if d > 8 {
		return false
	}
	a = x.resolve(s, a)
	a.nonnil = false
	switch v := a.v.(type) {
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		return ok && g.Name() == name && g.Pkg == x.p.Root
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "fmt.Errorf":
			format, ok := constString(v.Common().Args[0])
			if !ok {
				return false
			}
			args := varargs(v.Common().Args[1])
			for _, w := range wrapVerbs(format) {
				if w < len(args) && args[w] != nil && x.wrapsSentinel(s, AV{fr: a.fr, v: args[w]}, name, d+1) {
					return true
				}
			}
		case "errors.Join":
			for _, e := range varargs(v.Common().Args[0]) {
				if e != nil && x.wrapsSentinel(s, AV{fr: a.fr, v: e}, name, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	checks["C08"] = checkC08
	checks["C09"] = checkC09
}
