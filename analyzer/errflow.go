package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modFamily returns the public modification entry points: exported functions
// that take a document first and return a document and an error.
func (p *Program) modFamily() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.entries {
		if f.Signature.Recv() != nil || f.Pkg != p.Root {
			continue
		}
		s := f.Signature
		if s.Results().Len() != 2 || s.Params().Len() < 2 || !isErrorType(s.Results().At(1).Type()) {
			continue
		}
		t := s.Params().At(0).Type()
		if (isString(t) || isByteSlice(t)) && types.Identical(t, s.Results().At(0).Type()) {
			out = append(out, f)
		}
	}
	return out
}

var modNames = []string{"Set", "SetBytes", "SetRaw", "SetMany", "SetManyBytes", "SetWithOptions", "SetBytesWithOptions",
	"Delete", "DeleteBytes", "DeleteMany", "DeleteManyBytes", "DeleteBytesWithOptions"}

func requireNames(p *Program, r *Report, fs []*ssa.Function, names []string) {
	have := map[string]bool{}
	for _, f := range fs {
		have[f.Name()] = true
	}
	for _, n := range names {
		if !have[n] {
			r.Bad("anchor", "-", n, "public entry point is missing or changed its signature")
		}
	}
}

// reachFrom returns library functions statically reachable from the given ones.
func (p *Program) reachFrom(roots []*ssa.Function, except ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	for _, f := range except {
		seen[f] = true
	}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.InLib(f) || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				visit(c.Common().StaticCallee())
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					visit(g)
				}
				if mc, ok := (*op).(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		})
	}
	for _, f := range roots {
		visit(f)
	}
	return out
}

// ---------------------------------------------------------------- C05

// retPair is one (value, error) combination a return may produce.
type retPair struct {
	v, e  ssa.Value
	conds []Cond
	ret   *ssa.Return
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				out = append(out, r)
			}
		}
	}
	return out
}

// retPairs splits every return of f along the phis that feed it.
func retPairs(f *ssa.Function, vi, ei int) []retPair {
	var out []retPair
	for _, ret := range returnsOf(f) {
		type key struct{ v, e ssa.Value }
		seen := map[key]bool{}
		var expand func(v, e ssa.Value, conds []Cond)
		expand = func(v, e ssa.Value, conds []Cond) {
			pv, okv := v.(*ssa.Phi)
			pe, oke := e.(*ssa.Phi)
			if !okv && !oke {
				out = append(out, retPair{v, e, conds, ret})
				return
			}
			k := key{v, e}
			if seen[k] {
				return
			}
			seen[k] = true
			// expand the phi(s) of the innermost block
			var blk *ssa.BasicBlock
			switch {
			case okv && oke:
				if pv.Block() == pe.Block() || pv.Block().Dominates(pe.Block()) {
					blk = pe.Block()
				} else {
					blk = pv.Block()
				}
			case okv:
				blk = pv.Block()
			default:
				blk = pe.Block()
			}
			for i, pr := range blk.Preds {
				nv, ne := v, e
				if okv && pv.Block() == blk {
					nv = pv.Edges[i]
				}
				if oke && pe.Block() == blk {
					ne = pe.Edges[i]
				}
				nc := append(append([]Cond{}, conds...), condsAt(pr)...)
				nc = append(nc, edgeConds(pr, blk)...)
				expand(nv, ne, nc)
			}
		}
		expand(ret.Results[vi], ret.Results[ei], condsAt(ret.Block()))
	}
	return out
}

// nilness of an error-like value under branch conditions: -1 nil, +1 non-nil, 0 unknown.
func nilnessUnder(e ssa.Value, conds []Cond) int {
	if isNilConst(e) {
		return -1
	}
	switch x := e.(type) {
	case *ssa.MakeInterface:
		return 1
	case *ssa.Alloc:
		return 1
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "fmt.Errorf", "errors.New":
			return 1
		}
	}
	for _, c := range conds {
		b, ok := c.Val.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
			continue
		}
		var other ssa.Value
		if sameValue(b.X, e) {
			other = b.Y
		} else if sameValue(b.Y, e) {
			other = b.X
		} else {
			continue
		}
		if !isNilConst(other) {
			continue
		}
		isNil := (b.Op == token.EQL) == c.Pos
		if isNil {
			return -1
		}
		return 1
	}
	return 0
}

func sameValue(a, b ssa.Value) bool {
	strip := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return v
			}
		}
	}
	return a == b || strip(a) == strip(b)
}

// origAnalysis decides which parameter a function hands back on failure.
type origAnalysis struct {
	p    *Program
	memo map[*ssa.Function]map[int]bool
	busy map[*ssa.Function]bool
}

// errOrig returns the parameters i such that on every return of f whose error
// may be non-nil, result 0 has the content of parameter i.
func (a *origAnalysis) errOrig(f *ssa.Function) map[int]bool {
	if m, ok := a.memo[f]; ok {
		return m
	}
	res := map[int]bool{}
	if a.busy[f] || f.Blocks == nil || !a.p.InLib(f) || f.Signature.Results().Len() != 2 {
		return res
	}
	a.busy[f] = true
	for i, prm := range f.Params {
		if isString(prm.Type()) || isByteSlice(prm.Type()) {
			res[i] = true
		}
	}
	for _, rp := range retPairs(f, 0, 1) {
		for i := range res {
			if a.pairOK(rp, f.Params[i]) != "" {
				delete(res, i)
			}
		}
	}
	delete(a.busy, f)
	a.memo[f] = res
	return res
}

// pairOK returns "" when the pair either carries no error or carries the
// original document prm; otherwise a description of what is returned instead.
func (a *origAnalysis) pairOK(rp retPair, prm *ssa.Parameter) string {
	if nilnessUnder(rp.e, rp.conds) < 0 {
		return ""
	}
	if a.isOrig(rp.v, rp.e, rp.conds, prm, map[ssa.Value]bool{}) {
		return ""
	}
	return describe(rp.v)
}

func (a *origAnalysis) isOrig(v, e ssa.Value, conds []Cond, prm *ssa.Parameter, seen map[ssa.Value]bool) bool {
	if v == prm {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return (isString(x.X.Type()) || isByteSlice(x.X.Type())) && a.isOrig(x.X, e, conds, prm, seen)
	case *ssa.ChangeType:
		return a.isOrig(x.X, e, conds, prm, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !a.isOrig(ed, e, conds, prm, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok || x.Index != 0 {
			return false
		}
		callee := call.Common().StaticCallee()
		if callee == nil {
			return false
		}
		// the call must have failed whenever this pair carries an error
		failed := false
		if ex, ok := e.(*ssa.Extract); ok && ex.Tuple == call && ex.Index == 1 {
			failed = true
		}
		for _, ref := range *call.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 1 && nilnessUnder(ex, conds) > 0 {
				failed = true
			}
		}
		if !failed {
			return false
		}
		for i := range a.errOrig(callee) {
			if i < len(call.Common().Args) && a.isOrig(call.Common().Args[i], nil, condsAt(call.Block()), prm, map[ssa.Value]bool{}) {
				return true
			}
		}
		return false
	case *ssa.Call:
		// a helper that returns its argument unchanged
		callee := x.Common().StaticCallee()
		if callee == nil || !a.p.InLib(callee) || callee.Signature.Results().Len() != 1 {
			return false
		}
		idx := -1
		for _, ret := range returnsOf(callee) {
			pi := -1
			rv := ret.Results[0]
			for {
				if c, ok := rv.(*ssa.Convert); ok {
					rv = c.X
					continue
				}
				break
			}
			for i, q := range callee.Params {
				if rv == q {
					pi = i
				}
			}
			if pi < 0 || (idx >= 0 && idx != pi) {
				return false
			}
			idx = pi
		}
		return idx >= 0 && a.isOrig(x.Common().Args[idx], e, conds, prm, seen)
	}
	return false
}

func describe(v ssa.Value) string {
	if v == nil {
		return "?"
	}
	if isNilConst(v) {
		return "nil"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "the constant " + x.Value.String()
	case *ssa.Parameter:
		return "parameter " + x.Name()
	case *ssa.Convert:
		return "a conversion of " + describe(x.X)
	case *ssa.Extract:
		return fmt.Sprintf("result %d of %s", x.Index, describe(x.Tuple))
	case *ssa.Call:
		n := calleeName(x.Common())
		return "a call of " + strings.TrimPrefix(n, modPath+".")
	case *ssa.Global:
		return x.Name()
	case *ssa.UnOp:
		return "a load of " + describe(x.X)
	case *ssa.FieldAddr:
		return "field of " + describe(x.X)
	case *ssa.Phi:
		return "a merged value"
	}
	return fmt.Sprintf("%T value", v)
}

func checkC05(p *Program, r *Report) {
	r.Rule("error-returns-original", "on every return of a modification entry point whose error may be non-nil, the returned document must be the document parameter itself (or a string/bytes conversion of it, or what another entry point returned with its error for the same document)")
	r.Explanation = "Every return statement of every public modification function was split along the control-flow edges that feed its (document, error) pair; for each pair whose error is not provably nil the document operand was traced through conversions, merges and calls back to the document parameter. Decides the property for the identity of the returned value; that the parameter's bytes are not overwritten meanwhile is property C03."
	a := &origAnalysis{p: p, memo: map[*ssa.Function]map[int]bool{}, busy: map[*ssa.Function]bool{}}
	fam := p.modFamily()
	requireNames(p, r, fam, modNames)
	r.Count("modification_entry_points", len(fam))
	for _, f := range fam {
		for _, rp := range retPairs(f, 0, 1) {
			r.Count("return_pairs", 1)
			if nilnessUnder(rp.e, rp.conds) < 0 {
				r.Count("success_pairs", 1)
				continue
			}
			r.Count("error_pairs", 1)
			if why := a.pairOK(rp, f.Params[0]); why != "" {
				r.Bad("error-returns-original", p.At(rp.ret), p.shortName(f), "returns "+why+" together with a possibly non-nil error ("+describe(rp.e)+")")
			} else {
				r.OK("error-returns-original", p.At(rp.ret), p.shortName(f)+" returns the original document with "+describe(rp.e))
			}
		}
	}
	r.Min("modification_entry_points", 12)
	r.Min("error_pairs", 12)
}

// ---------------------------------------------------------------- C06

// errorIndex returns the index of the error-like result of a signature.
func errorIndex(sig *types.Signature, isErr func(types.Type) bool) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if isErr(sig.Results().At(n - 1).Type()) {
		return n - 1
	}
	return -1
}

// errValue returns the SSA value of the error result of a call (nil if unused).
func errValue(call *ssa.Call, idx int) ssa.Value {
	if call.Common().Signature().Results().Len() == 1 {
		if len(*call.Referrers()) == 0 {
			return nil
		}
		return call
	}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == idx && len(*ex.Referrers()) > 0 {
			return ex
		}
	}
	return nil
}

// checkDropped verifies that the failure reported by call is not dropped by the
// function that makes it. It returns "" or a description with the offending
// instruction.
func checkDropped(call *ssa.Call, idx int, isErr func(types.Type) bool) (string, ssa.Instruction) {
	e := errValue(call, idx)
	if e == nil {
		return "the error is discarded", call
	}
	return followFailure(call.Parent(), call, e, isErr, map[*ssa.Parameter]bool{})
}

// followFailure follows an error that is set: from a call, or from the start of a
// function that is handed it.
func followFailure(fn *ssa.Function, call *ssa.Call, e ssa.Value, isErr func(types.Type) bool, busy map[*ssa.Parameter]bool) (string, ssa.Instruction) {
	retIdx := errorIndex(fn.Signature, isErr)
	boolRet := retIdx < 0
	type state struct {
		b  *ssa.BasicBlock
		al string
	}
	// aliases of the error value along the path
	type item struct {
		b    *ssa.BasicBlock
		from int
		al   map[ssa.Value]bool
	}
	seen := map[state]bool{}
	tested := false
	var badMsg string
	var badAt ssa.Instruction
	var stack []item
	alkey := func(b *ssa.BasicBlock, m map[ssa.Value]bool) state {
		var sb strings.Builder
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if v, ok := in.(ssa.Value); ok && m[v] {
					sb.WriteString(v.Name() + ",")
				}
			}
		}
		return state{b, sb.String()}
	}
	process := func(b *ssa.BasicBlock, from int, al map[ssa.Value]bool) {
		for i := from; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Call:
				if call != nil && in == call {
					if badMsg == "" {
						badMsg, badAt = "execution continues and calls it again after a failure", in
					}
					return
				}
			case *ssa.ChangeInterface:
				if al[in.X] {
					al[in] = true
				}
			case *ssa.MakeInterface:
				if al[in.X] {
					al[in] = true
				}
			case *ssa.Store:
				if al[in.Val] {
					// kept in memory for later inspection
					tested = true
					return
				}
			case *ssa.Panic:
				return
			case *ssa.Return:
				if boolRet {
					return
				}
				rv := in.Results[retIdx]
				if al[rv] {
					return
				}
				if nilnessUnder(rv, condsAt(b)) > 0 {
					return
				}
				if u, ok := rv.(*ssa.UnOp); ok {
					if _, isG := u.X.(*ssa.Global); isG {
						return
					}
				}
				src := rv
				if ex, ok := rv.(*ssa.Extract); ok {
					src = ex.Tuple
				}
				if c, ok := src.(*ssa.Call); ok {
					for i, a := range c.Common().Args {
						if !al[a] {
							continue
						}
						// a helper that is handed the error has to hand it back
						if g := c.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && i < len(g.Params) && !busy[g.Params[i]] {
							busy[g.Params[i]] = true
							if msg, at := followFailure(g, nil, g.Params[i], isErr, busy); msg != "" {
								if badMsg == "" {
									badMsg, badAt = msg, at
								}
								return
							}
						}
						return
					}
				}
				if badMsg == "" {
					badMsg, badAt = "the function can return "+describe(rv)+" as its error after this call failed", in
				}
				return
			case *ssa.If:
				for _, c := range expandCond(Cond{in.Cond, true, in}) {
					bo, ok := c.Val.(*ssa.BinOp)
					if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
						continue
					}
					var hit bool
					if al[bo.X] && isNilConst(bo.Y) || al[bo.Y] && isNilConst(bo.X) {
						hit = true
					}
					if !hit {
						continue
					}
					tested = true
					nilWhenTrue := (bo.Op == token.EQL) == c.Pos
					var to *ssa.BasicBlock
					if nilWhenTrue {
						to = b.Succs[1]
					} else {
						to = b.Succs[0]
					}
					stack = append(stack, item{b: to, from: predIndex(b, to), al: al})
					return
				}
				for _, s := range b.Succs {
					stack = append(stack, item{b: s, from: predIndex(b, s), al: al})
				}
				return
			}
		}
		for _, s := range b.Succs {
			stack = append(stack, item{b: s, from: predIndex(b, s), al: al})
		}
	}
	al0 := map[ssa.Value]bool{e: true}
	if call != nil {
		process(call.Block(), indexIn(call)+1, al0)
	} else {
		process(fn.Blocks[0], 0, al0)
	}
	for len(stack) > 0 && badMsg == "" {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		al := map[ssa.Value]bool{}
		for k := range it.al {
			al[k] = true
		}
		for _, in := range it.b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if it.from >= 0 && it.al[phi.Edges[it.from]] {
				al[phi] = true
			} else {
				delete(al, phi)
			}
		}
		k := alkey(it.b, al)
		if seen[k] {
			continue
		}
		seen[k] = true
		process(it.b, 0, al)
	}
	if badMsg != "" {
		return badMsg, badAt
	}
	if boolRet && !tested && call != nil {
		used := false
		for _, ref := range *e.Referrers() {
			if _, ok := ref.(*ssa.BinOp); ok {
				used = true
			}
			if c, ok := ref.(ssa.CallInstruction); ok && c != nil {
				used = true
			}
			if _, ok := ref.(*ssa.Phi); ok {
				used = true
			}
		}
		if !used {
			return "the error is never tested", call
		}
	}
	return "", nil
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// frame binds a callee's parameters to values of the calling frame.
type frame struct {
	up   *frame
	call *ssa.Call
	fn   *ssa.Function
}

func (f *frame) depth() int {
	n := 0
	for g := f; g != nil; g = g.up {
		n++
	}
	return n
}

func (f *frame) has(fn *ssa.Function) bool {
	for g := f; g != nil; g = g.up {
		if g.fn == fn {
			return true
		}
	}
	return false
}

type classifier struct {
	p         *Program
	sentinels map[*ssa.Global]bool
	leaves    int
	seen      map[string]bool
}

// classify checks that every non-nil error v may be wraps a sentinel. bad is
// called for each origin that does not.
func (c *classifier) classify(v ssa.Value, fr *frame, seen map[ssa.Value]bool, bad func(at ssa.Instruction, what string, fr *frame)) bool {
	if isNilConst(v) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	fail := func(in ssa.Instruction, what string) bool {
		bad(in, what, fr)
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		ok := true
		for _, e := range x.Edges {
			if !c.classify(e, fr, seen, bad) {
				ok = false
			}
		}
		return ok
	case *ssa.ChangeInterface:
		return c.classify(x.X, fr, seen, bad)
	case *ssa.ChangeType:
		return c.classify(x.X, fr, seen, bad)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if c.sentinels[g] {
				c.leaves++
				return true
			}
			// another package-level error: look at its initial value
			var sts []*ssa.Store
			if g.Pkg != nil && c.p.inLib[g.Pkg] {
				for _, f := range c.p.Funcs {
					instrs(f, func(in ssa.Instruction) {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							sts = append(sts, st)
						}
					})
				}
				ok := len(sts) > 0
				for _, st := range sts {
					if !c.classify(st.Val, nil, map[ssa.Value]bool{}, func(ssa.Instruction, string, *frame) {}) {
						ok = false
					}
				}
				if ok {
					return true
				}
			}
			return fail(x, "the package-level error "+g.Name()+", which does not wrap a documented error class")
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			ok := true
			for _, ref := range *al.Referrers() {
				if st, is := ref.(*ssa.Store); is && st.Addr == al {
					if !c.classify(st.Val, fr, seen, bad) {
						ok = false
					}
				}
			}
			return ok
		}
		return fail(x, describe(v))
	case *ssa.Parameter:
		if fr != nil && fr.fn == x.Parent() {
			for i, q := range x.Parent().Params {
				if q == x {
					return c.classify(fr.call.Common().Args[i], fr.up, map[ssa.Value]bool{}, bad)
				}
			}
		}
		return fail(nil, "an error supplied by the caller")
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.classifyCall(call, x.Index, fr, bad)
		}
		return fail(x, describe(v))
	case *ssa.Call:
		return c.classifyCall(x, 0, fr, bad)
	case *ssa.MakeInterface:
		// a library error type that unwraps to a class
		if c.unwrapsToClass(x, fr) {
			c.leaves++
			return true
		}
		return fail(x, "a value of type "+typeName(x.X.Type())+", which does not unwrap to a documented error class")
	}
	if in, ok := v.(ssa.Instruction); ok {
		return fail(in, describe(v))
	}
	return fail(nil, describe(v))
}

func (c *classifier) unwrapsToClass(mi *ssa.MakeInterface, fr *frame) bool {
	ms := c.p.Prog.MethodSets.MethodSet(mi.X.Type())
	for _, name := range []string{"Unwrap"} {
		sel := ms.Lookup(c.p.Root.Pkg, name)
		if sel == nil {
			continue
		}
		m := c.p.Prog.MethodValue(sel)
		if m == nil || m.Blocks == nil {
			continue
		}
		all := true
		for _, ret := range returnsOf(m) {
			v := ret.Results[0]
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && c.sentinels[g] {
					continue
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					// the field must have been filled with a class where the value was built
					if al, ok := mi.X.(*ssa.Alloc); ok {
						found := false
						for _, ref := range *al.Referrers() {
							if fa2, ok := ref.(*ssa.FieldAddr); ok && fa2.Field == fa.Field {
								for _, r2 := range *fa2.Referrers() {
									if st, ok := r2.(*ssa.Store); ok && st.Addr == fa2 {
										if c.classify(st.Val, fr, map[ssa.Value]bool{}, func(ssa.Instruction, string, *frame) {}) && !isNilConst(st.Val) {
											found = true
										}
									}
								}
							}
						}
						if found {
							continue
						}
					}
				}
			}
			all = false
		}
		return all
	}
	return false
}

// varargs returns the elements of a variadic slice built at the call site.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok || i < 0 || i >= at.Len() {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				out[i] = st.Val
			}
		}
	}
	return out
}

// wrapVerbs returns the operand positions of the %w verbs of a format string.
func wrapVerbs(format string) []int {
	var out []int
	arg := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			if format[i] == '*' {
				arg++
			}
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' {
			out = append(out, arg)
		}
		arg++
	}
	return out
}

func (c *classifier) classifyCall(call *ssa.Call, idx int, fr *frame, bad func(ssa.Instruction, string, *frame)) bool {
	cc := call.Common()
	name := calleeName(cc)
	switch name {
	case "fmt.Errorf":
		format, ok := constString(cc.Args[0])
		if !ok {
			bad(call, "an error formatted with a non-constant format", fr)
			return false
		}
		args := varargs(cc.Args[1])
		ws := wrapVerbs(format)
		var msgs []func()
		for _, w := range ws {
			if w >= len(args) || args[w] == nil {
				continue
			}
			if c.classify(args[w], fr, map[ssa.Value]bool{}, func(at ssa.Instruction, what string, f2 *frame) {
				msgs = append(msgs, func() { bad(at, what, f2) })
			}) {
				return true
			}
		}
		if len(msgs) > 0 {
			for _, m := range msgs {
				m()
			}
			return false
		}
		bad(call, fmt.Sprintf("an error formatted with %q, which wraps none of the documented error classes", format), fr)
		return false
	case "errors.Join":
		for _, a := range varargs(cc.Args[0]) {
			if a != nil && c.classify(a, fr, map[ssa.Value]bool{}, func(ssa.Instruction, string, *frame) {}) && !isNilConst(a) {
				return true
			}
		}
		bad(call, "a joined error without any documented error class", fr)
		return false
	}
	callee := cc.StaticCallee()
	if callee == nil || !c.p.InLib(callee) || callee.Blocks == nil {
		bad(call, "an error of "+strings.TrimPrefix(name, modPath+".")+", which is not one of the documented error classes", fr)
		return false
	}
	if fr.has(callee) || fr.depth() > 12 {
		return true // recursion: decided at the outer activation
	}
	ok := true
	nf := &frame{up: fr, call: call, fn: callee}
	for _, ret := range returnsOf(callee) {
		if infeasibleReturn(ret, call) {
			continue
		}
		if idx >= len(ret.Results) {
			continue
		}
		if !c.classify(ret.Results[idx], nf, map[ssa.Value]bool{}, bad) {
			ok = false
		}
	}
	return ok
}

// fieldRef identifies a field of a struct held in a parameter, local or value.
type fieldRef struct {
	base ssa.Value
	path string
}

// canonBase maps a load of a write-once local to that local, and a spilled
// parameter to the parameter.
func canonBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					v = al
					continue
				}
			}
			return v
		case *ssa.Alloc:
			if val, _ := soleStore(x); val != nil && !fieldStores(x) {
				if prm, ok := val.(*ssa.Parameter); ok {
					return prm
				}
			}
			return v
		default:
			return v
		}
	}
}

func fieldStores(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					return true
				}
			}
		}
	}
	return false
}

// asFieldRef recognises a read of a struct field.
func asFieldRef(v ssa.Value) (fieldRef, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fieldRef{canonBase(fa.X), fmt.Sprintf(".%d", fa.Field)}, true
			}
		}
	case *ssa.Field:
		return fieldRef{canonBase(x.X), fmt.Sprintf(".%d", x.Field)}, true
	}
	return fieldRef{}, false
}

// fieldFact is "field ref equals / differs from constant".
type fieldFact struct {
	ref fieldRef
	val constant.Value
	eq  bool
}

func fieldFacts(conds []Cond) []fieldFact {
	var out []fieldFact
	for _, c := range conds {
		b, ok := c.Val.(*ssa.BinOp)
		if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
			continue
		}
		x, y := b.X, b.Y
		if _, isC := x.(*ssa.Const); isC {
			x, y = y, x
		}
		k, ok := y.(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		ref, ok := asFieldRef(x)
		if !ok {
			continue
		}
		out = append(out, fieldFact{ref, k.Value, (b.Op == token.EQL) == c.Pos})
	}
	return out
}

// infeasibleReturn reports whether a return of the callee is guarded by a test on
// a field of a struct parameter that the call site has already decided the
// other way.
func infeasibleReturn(ret *ssa.Return, call *ssa.Call) bool {
	callee := ret.Parent()
	inside := fieldFacts(condsAt(ret.Block()))
	outside := fieldFacts(condsAt(call.Block()))
	for _, in := range inside {
		prm, ok := in.ref.base.(*ssa.Parameter)
		if !ok || prm.Parent() != callee {
			continue
		}
		for i, q := range callee.Params {
			if q != prm {
				continue
			}
			argBase := canonBase(call.Common().Args[i])
			if al, ok := argBase.(*ssa.Alloc); ok {
				if v, _ := soleStore(al); v == nil || fieldStores(al) {
					continue
				}
			}
			for _, o := range outside {
				if o.ref.base == argBase && o.ref.path == in.ref.path {
					same := constant.Compare(o.val, token.EQL, in.val)
					if o.eq && (same != in.eq) {
						return true
					}
					if !o.eq && same && in.eq {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkC06(p *Program, r *Report) {
	r.Rule("no-dropped-failure", "after a call to a library function that reports an error, no path on which that error is non-nil may return a nil error, repeat the call, or ignore the error")
	r.Rule("classified-error", "every error a modification entry point can return must be one of the three documented error values or wrap one with %w")
	r.Rule("stable-classes", "the documented error values must be created once at start-up and never replaced")
	r.Explanation = "From each public modification function every statically reachable library function was analysed. For each call that can fail, all control-flow paths after the call were followed under the assumption that it failed. Each error operand of each return was traced to its origins (sentinels, %w wrapping, callees, with calls whose failing branch the call site excludes pruned). Not covered: failures that no function reports as an error value."
	isErr := func(t types.Type) bool { return isErrorType(t) }
	fam := p.modFamily()
	requireNames(p, r, fam, modNames)
	reach := p.reachFrom(fam)
	r.Count("reachable_functions", len(reach))
	for _, f := range reach {
		instrs(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				if d, isD := in.(ssa.CallInstruction); isD {
					if cal := d.Common().StaticCallee(); cal != nil && p.InLib(cal) && errorIndex(cal.Signature, isErr) >= 0 {
						r.Bad("no-dropped-failure", p.At(in), p.shortName(f), "deferred or concurrent call of "+p.shortName(cal)+" drops its error")
					}
				}
				return
			}
			cal := call.Common().StaticCallee()
			if cal == nil || !p.InLib(cal) {
				return
			}
			idx := errorIndex(cal.Signature, isErr)
			if idx < 0 {
				return
			}
			r.Count("fallible_calls", 1)
			if msg, at := checkDropped(call, idx, isErr); msg != "" {
				r.Bad("no-dropped-failure", p.At(call), p.shortName(f), "failure of "+p.shortName(cal)+": "+msg, "at "+p.At(at))
			} else {
				r.OK("no-dropped-failure", p.At(call), p.shortName(f)+" passes on the failure of "+p.shortName(cal))
			}
		})
	}
	c := &classifier{p: p, sentinels: map[*ssa.Global]bool{}}
	for _, n := range []string{"ErrMalformedXML", "ErrInvalidPath", "ErrInvalidValue"} {
		g := p.Global(n)
		if g == nil {
			r.Bad("anchor", "-", n, "documented error value is missing")
			continue
		}
		c.sentinels[g] = true
		stores := 0
		for _, f := range p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					return
				}
				stores++
				call, isCall := st.Val.(*ssa.Call)
				if f.Name() != "init" || !isCall || (calleeName(call.Common()) != "errors.New" && calleeName(call.Common()) != "fmt.Errorf") {
					r.Bad("stable-classes", p.At(st), p.shortName(f), n+" is replaced")
				}
			})
		}
		if stores == 1 {
			r.OK("stable-classes", p.Pos(g.Pos()), n+" is created once at start-up")
		} else {
			r.Bad("stable-classes", p.Pos(g.Pos()), n, fmt.Sprintf("assigned %d times", stores))
		}
	}
	for _, f := range fam {
		for _, ret := range returnsOf(f) {
			e := ret.Results[1]
			if isNilConst(e) {
				continue
			}
			r.Count("error_returns", 1)
			before := c.leaves
			ok := c.classify(e, nil, map[ssa.Value]bool{}, func(at ssa.Instruction, what string, fr *frame) {
				where := p.At(ret)
				fnm := p.shortName(f)
				var path []string
				for g := fr; g != nil; g = g.up {
					path = append([]string{"via " + p.shortName(g.fn) + " called at " + p.At(g.call)}, path...)
				}
				if at != nil {
					where = p.At(at)
					if at.Parent() != nil {
						fnm = p.shortName(at.Parent())
					}
				}
				r.Bad("classified-error", where, fnm, "a modification can return "+what, append([]string{"entry " + p.shortName(f)}, path...)...)
			})
			if ok {
				r.Count("error_origins", c.leaves-before)
				r.OK("classified-error", p.At(ret), p.shortName(f)+": all origins of "+describe(e)+" are classified")
			}
		}
	}
	r.Min("fallible_calls", 20)
	r.Min("error_returns", 15)
	r.Min("error_origins", 10)
}

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
}
