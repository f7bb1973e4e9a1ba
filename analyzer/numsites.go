package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type bsite struct {
	in   ssa.Instruction
	what string
	gs   []func(c *nctx, fr *nframe) nlin
}

// boundSites are the indexings and slicings of a function.
func (n *prover) boundSites(f *ssa.Function) []bsite {
	var out []bsite
	val := func(v ssa.Value) func(c *nctx, fr *nframe) nlin {
		return func(c *nctx, fr *nframe) nlin { return n.lin(c, term{fr: fr, v: v}) }
	}
	length := func(v ssa.Value) func(c *nctx, fr *nframe) nlin {
		return func(c *nctx, fr *nframe) nlin { return n.length(c, term{fr: fr, v: v}) }
	}
	diff := func(a, b func(c *nctx, fr *nframe) nlin, k int64) func(c *nctx, fr *nframe) nlin {
		return func(c *nctx, fr *nframe) nlin { return a(c, fr).add(b(c, fr), -1).add(nconst(k), 1) }
	}
	there := func(in ssa.Instruction, what string, v ssa.Value) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.Builtin, *ssa.MakeInterface:
			return
		}
		if n.alwaysSet(v) {
			out = append(out, bsite{in, what, []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return nconst(0) }}})
			return
		}
		out = append(out, bsite{in, what, []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return n.lin(c, term{fr: fr, v: v}).add(nconst(1), -1) }}})
	}
	atLeast := func(in ssa.Instruction, what string, v ssa.Value, k int64) {
		out = append(out, bsite{in, what, []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return n.lin(c, term{fr: fr, v: v}).add(nconst(k), -1) }}})
	}
	instrs(f, func(in ssa.Instruction) {
		var x, idx ssa.Value
		switch v := in.(type) {
		case *ssa.FieldAddr:
			there(in, "dereference", v.X)
			return
		case *ssa.UnOp:
			if v.Op == token.MUL {
				there(in, "dereference", v.X)
			}
			return
		case *ssa.Store:
			there(in, "dereference", v.Addr)
			return
		case *ssa.MapUpdate:
			there(in, "write to a map", v.Map)
			return
		case *ssa.MakeSlice:
			atLeast(in, "allocation", v.Len, 0)
			if v.Cap != v.Len {
				out = append(out, bsite{in, "allocation", []func(c *nctx, fr *nframe) nlin{diff(val(v.Cap), val(v.Len), 0)}})
			}
			return
		case *ssa.BinOp:
			switch v.Op {
			case token.EQL, token.NEQ:
				// values of any kind may not be comparable
				if it, ok := v.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 && !isNilConst(v.X) && !isNilConst(v.Y) && !madeHere(v.X) && !madeHere(v.Y) {
					out = append(out, bsite{in, "comparison", []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return nconst(-1) }}})
				}
			case token.QUO, token.REM:
				if isInteger(v.Type()) {
					if k, ok := constInt(v.Y); !ok || k == 0 {
						atLeast(in, "division", v.Y, 1)
					}
				}
			case token.SHL, token.SHR:
				if k, ok := constInt(v.Y); !ok || k < 0 {
					atLeast(in, "shift", v.Y, 0)
				}
			}
			return
		case *ssa.Panic:
			out = append(out, bsite{in, "panic", []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return nconst(-1) }}})
			return
		case *ssa.TypeAssert:
			if !v.CommaOk && !n.always(v) {
				out = append(out, bsite{in, "type assertion", []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin { return nconst(-1) }}})
			}
			return
		case *ssa.SliceToArrayPointer:
			if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
				out = append(out, bsite{in, "conversion", []func(c *nctx, fr *nframe) nlin{func(c *nctx, fr *nframe) nlin {
					return n.length(c, term{fr: fr, v: v.X}).add(nconst(a.Len()), -1)
				}}})
			}
			return
		case ssa.CallInstruction:
			c := v.Common()
			if c.IsInvoke() {
				there(in, "method call", c.Value)
				return
			}
			g := c.StaticCallee()
			if g == nil {
				if !suppliedFunc(c.Value) {
					there(in, "call", c.Value)
				}
				return
			}
			if n.p.InLib(g) {
				return
			}
			if g.Signature.Recv() != nil && len(c.Args) > 0 && canBeNil(c.Args[0].Type()) {
				there(in, "method call", c.Args[0])
			}
			switch calleeName(c) {
			case "strings.Repeat", "bytes.Repeat", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate":
				atLeast(in, "count", c.Args[1], 0)
			}
			return
		case *ssa.IndexAddr:
			x, idx = v.X, v.Index
		case *ssa.Index:
			x, idx = v.X, v.Index
		case *ssa.Slice:
			s := bsite{in: in, what: "slice"}
			hi := length(v.X)
			if v.High != nil {
				s.gs = append(s.gs, diff(length(v.X), val(v.High), 0))
				hi = val(v.High)
			}
			if v.Low != nil {
				s.gs = append(s.gs, diff(hi, val(v.Low), 0), val(v.Low))
			} else if v.High != nil {
				s.gs = append(s.gs, val(v.High))
			}
			if v.Max == nil && len(s.gs) > 0 {
				out = append(out, s)
			}
			return
		default:
			return
		}
		if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			if k, isK := constInt(idx); isK && k >= 0 && k < a.Len() {
				return
			}
		}
		out = append(out, bsite{in, "index", []func(c *nctx, fr *nframe) nlin{diff(length(x), val(idx), -1), val(idx)}})
	})
	return out
}

// suppliedFunc: a function the caller of the library has provided.
func suppliedFunc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		nt, ok := deref(fa.X.Type()).(*types.Named)
		return ok && nt.Obj().Exported()
	case *ssa.Field:
		nt, ok := x.X.Type().(*types.Named)
		return ok && nt.Obj().Exported()
	}
	return false
}

// madeHere: an interface value of a basic type.
func madeHere(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	switch mi.X.Type().Underlying().(type) {
	case *types.Basic, *types.Pointer:
		return true
	}
	return false
}

// always: an assertion that cannot fail: the value was made with that type, or comes from a
// pool that holds nothing else.
func (n *prover) always(v *ssa.TypeAssert) bool {
	is := func(x ssa.Value) bool {
		mi, ok := x.(*ssa.MakeInterface)
		return ok && types.Identical(mi.X.Type(), v.AssertedType)
	}
	if is(v.X) {
		return true
	}
	get, ok := v.X.(*ssa.Call)
	if !ok || calleeName(get.Common()) != "(*sync.Pool).Get" {
		return false
	}
	pool, ok := get.Call.Args[0].(*ssa.Global)
	if !ok {
		return false
	}
	good, made := true, false
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if calleeName(x.Common()) == "(*sync.Pool).Put" && x.Common().Args[0] == ssa.Value(pool) && !is(x.Common().Args[1]) {
					good = false
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(pool) {
					return
				}
				var g *ssa.Function
				switch y := x.Val.(type) {
				case *ssa.Function:
					g = y
				case *ssa.MakeClosure:
					g, _ = y.Fn.(*ssa.Function)
				}
				if g == nil {
					good = false
					return
				}
				made = true
				for _, r := range n.returns(g) {
					good = good && is(resultValue(r, 0))
				}
			}
		})
	}
	return good && made
}

// alwaysSet: a read of a package variable or field that is set by then and never set to nil.
func (n *prover) alwaysSet(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	switch x := ld.X.(type) {
	case *ssa.Global:
		set, ok := false, true
		for _, f := range n.p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(x) {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						ok = ok && y.Addr == ssa.Value(x) && neverNil(y.Val)
						if f == ld.Parent() && (y.Block() == ld.Block() && indexIn(y) < indexIn(ld) || y.Block() != ld.Block() && y.Block().Dominates(ld.Block())) {
							set = true
						}
					default:
						ok = false
					}
				}
			})
		}
		return set && ok
	case *ssa.FieldAddr:
		return n.fieldSet(deref(x.X.Type()), x.Field)
	}
	return false
}

// fieldSet: every struct of the type is made with the field set, and nothing sets it to nil.
func (n *prover) fieldSet(t types.Type, field int) bool {
	if named, ok := t.(*types.Named); !ok || !n.p.inLibPkg(named.Obj().Pkg()) || named.Obj().Exported() {
		return false
	}
	fills := func(r ssa.Instruction) *ssa.Store {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != field {
			return nil
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && neverNil(st.Val) {
				return st
			}
		}
		return nil
	}
	ok, made := true, map[*ssa.Global]bool{}
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if x.Field != field || !types.Identical(deref(x.X.Type()), t) {
					return
				}
				for _, u := range *x.Referrers() {
					switch y := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						ok = ok && y.Addr == ssa.Value(x) && neverNil(y.Val)
					default:
						ok = false
					}
				}
				if g, isG := x.X.(*ssa.Global); isG && f.Name() == "init" && f.Synthetic != "" && fills(x) != nil {
					made[g] = true
				}
			case *ssa.Alloc:
				if !types.Identical(deref(x.Type()), t) {
					ok = ok && !holdsType(deref(x.Type()), t, 0)
					return
				}
				ok = ok && n.madeWith(x, fills)
			case *ssa.MakeSlice:
				ok = ok && !holdsType(x.Type().Underlying().(*types.Slice).Elem(), t, 0)
			case *ssa.MakeChan:
				ok = ok && !holdsType(x.Type().Underlying().(*types.Chan).Elem(), t, 0)
			case *ssa.Lookup:
				ok = ok && !holdsType(x.Type(), t, 0)
			case *ssa.Store:
				if types.Identical(x.Val.Type(), t) {
					if _, isC := x.Val.(*ssa.Const); isC {
						ok = false
					}
					if g, isG := x.Addr.(*ssa.Global); isG && f.Name() == "init" && f.Synthetic != "" {
						made[g] = true
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if k, isC := (*op).(*ssa.Const); isC && k.Value == nil && types.Identical(k.Type(), t) {
					ok = false
				}
			}
		})
	}
	for _, pkg := range n.p.Lib {
		for _, m := range pkg.Members {
			if g, isG := m.(*ssa.Global); isG && holdsType(deref(g.Type()), t, 0) {
				ok = ok && types.Identical(deref(g.Type()), t) && made[g]
			}
		}
	}
	return ok
}

// madeWith: the new struct has the field filled before it is used for anything else.
func (n *prover) madeWith(al *ssa.Alloc, fills func(ssa.Instruction) *ssa.Store) bool {
	at := -1
	for _, r := range *al.Referrers() {
		if st := fills(r); st != nil && st.Block() == al.Block() && (at < 0 || indexIn(st) < at) {
			at = indexIn(st)
		}
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Block() == al.Block() && (at < 0 || indexIn(st) < at) {
			at = indexIn(st)
		}
	}
	if at < 0 {
		return false
	}
	for _, r := range *al.Referrers() {
		if _, isFA := r.(*ssa.FieldAddr); !isFA && r.Block() == al.Block() && indexIn(r) < at {
			return false
		}
	}
	return true
}

// holdsType: a value of the first type contains one of the second.
func holdsType(in, t types.Type, d int) bool {
	if types.Identical(in, t) {
		return true
	}
	switch u := in.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields() && d < 6; i++ {
			if holdsType(u.Field(i).Type(), t, d+1) {
				return true
			}
		}
	case *types.Array:
		return holdsType(u.Elem(), t, d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsType(u.At(i).Type(), t, d+1) {
				return true
			}
		}
	}
	return false
}
