package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation and local memory for the path explorer.

func pathCode(path []int) int {
	c := 1
	for _, f := range path {
		c = c*64 + f%63 + 1
	}
	return c
}

// overlaps reports whether one field path is a prefix of the other.
func overlaps(a, b int) bool {
	for a > b {
		a /= 64
	}
	for b > a {
		b /= 64
	}
	return a == b
}

// memory follows stores to and loads from private locals.
func (x *Explorer) memory(s *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		base, path := localPath(in.Addr)
		al, ok := base.(*ssa.Alloc)
		if !ok || !x.p.private(al) {
			return
		}
		val := x.resolve(s, AV{fr: s.fr, v: in.Val})
		code := pathCode(path)
		for k := range s.facts {
			if k.fr == s.fr && k.v == ssa.Value(al) && k.idx < 0 && overlaps(-k.idx, code) {
				delete(s.facts, k)
			}
		}
		s.facts[fkey{s.fr, al, -code}] = val
		// an element of a literal table: keep its fields, the index goes out of scope
		if ld, ok := val.v.(*ssa.UnOp); ok && x.Fold && len(path) == 0 && isStruct(in.Val.Type()) && ld.Op == token.MUL {
			for i := 0; i < in.Val.Type().Underlying().(*types.Struct).NumFields(); i++ {
				if f, ok := x.foldField(s, AV{fr: val.fr, v: ld.X}, i, 0); ok {
					s.facts[fkey{s.fr, al, -pathCode([]int{i})}] = x.resolve(s, f)
				}
			}
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		base, path := localPath(in.X)
		al, ok := base.(*ssa.Alloc)
		if !ok {
			return
		}
		if t, ok := s.facts[fkey{s.fr, al, -pathCode(path)}]; ok {
			s.facts[fkey{s.fr, in, 0}] = t
		}
	}
}

// private caches privateStruct.
func (p *Program) private(al *ssa.Alloc) bool {
	if p.priv == nil {
		p.priv = map[*ssa.Alloc]bool{}
	}
	v, ok := p.priv[al]
	if !ok {
		v = privateStruct(al)
		p.priv[al] = v
	}
	return v
}

const foldLimit = 256

func (x *Explorer) intAV(c constant.Value, t types.Type) (AV, bool) {
	limit := int64(foldLimit)
	if x.FoldMax > 0 {
		limit = x.FoldMax
	}
	if n, ok := constant.Int64Val(c); !ok || n > limit || n < -limit {
		return AV{}, false
	}
	return AV{v: ssa.NewConst(c, t)}, true
}

// fold evaluates pure instructions whose operands are known constants.
func (x *Explorer) fold(s *State, a AV) (AV, bool) {
	switch v := a.v.(type) {
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.SUB, token.MUL:
		default:
			return AV{}, false
		}
		l, ok1 := x.resolve(s, AV{fr: a.fr, v: v.X}).v.(*ssa.Const)
		r, ok2 := x.resolve(s, AV{fr: a.fr, v: v.Y}).v.(*ssa.Const)
		if !ok1 || !ok2 || l.Value == nil || r.Value == nil || l.Value.Kind() != r.Value.Kind() {
			return AV{}, false
		}
		switch l.Value.Kind() {
		case constant.Int:
			return x.intAV(constant.BinaryOp(l.Value, v.Op, r.Value), v.Type())
		case constant.String:
			if v.Op == token.ADD {
				return AV{v: ssa.NewConst(constant.BinaryOp(l.Value, v.Op, r.Value), v.Type())}, true
			}
		}
	case *ssa.Call:
		cc := v.Common()
		switch calleeName(cc) {
		case "builtin.len":
			t := x.resolve(s, AV{fr: a.fr, v: cc.Args[0]})
			if str, ok := constString(t.v); ok {
				return x.intAV(constant.MakeInt64(int64(len(str))), v.Type())
			}
			if isNilConst(t.v) {
				return x.intAV(constant.MakeInt64(0), v.Type())
			}
			if els, _, ok := x.literal(t); ok {
				return x.intAV(constant.MakeInt64(int64(len(els))), v.Type())
			}
		case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
			if str, ok := constString(x.resolve(s, AV{fr: a.fr, v: cc.Args[0]}).v); ok {
				switch cc.StaticCallee().Name() {
				case "TrimSpace":
					str = strings.TrimSpace(str)
				case "ToLower":
					str = strings.ToLower(str)
				case "ToUpper":
					str = strings.ToUpper(str)
				}
				return AV{v: ssa.NewConst(constant.MakeString(str), v.Type())}, true
			}
		case "slices.Contains":
			els, fr, ok := x.literal(x.resolve(s, AV{fr: a.fr, v: cc.Args[0]}))
			want, ok2 := constString(x.resolve(s, AV{fr: a.fr, v: cc.Args[1]}).v)
			if !ok || !ok2 {
				return AV{}, false
			}
			for _, e := range els {
				str, ok := constString(x.resolve(s, AV{fr: fr, v: e}).v)
				if !ok {
					return AV{}, false
				}
				if str == want {
					return boolAV(true), true
				}
			}
			return boolAV(false), true
		}
	case *ssa.Field:
		t := x.resolve(s, AV{fr: a.fr, v: v.X})
		if ld, ok := t.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if f, ok := x.foldField(s, AV{fr: t.fr, v: ld.X}, v.Field, 0); ok {
				return x.resolve(s, f), true
			}
		}
	case *ssa.Lookup:
		if !v.CommaOk {
			return x.foldLookup(s, a.fr, v, 0)
		}
	}
	return AV{}, false
}

// literal returns the elements of a slice or array literal.
func (x *Explorer) literal(a AV) ([]ssa.Value, *Frame, bool) {
	var al *ssa.Alloc
	switch v := a.v.(type) {
	case *ssa.Slice:
		if v.Low != nil || v.High != nil {
			return nil, nil, false
		}
		al, _ = v.X.(*ssa.Alloc)
	case *ssa.Alloc:
		al = v
	}
	if al == nil {
		return nil, nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > foldLimit {
		return nil, nil, false
	}
	els := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		ix, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ix.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(ix) {
				continue
			}
			i, ok := constInt(ix.Index)
			if !ok || els[i] != nil {
				return nil, nil, false
			}
			els[i] = st.Val
		}
	}
	for i := range els {
		if els[i] == nil {
			els[i] = ssa.NewConst(nil, arr.Elem())
			if isString(arr.Elem()) {
				els[i] = ssa.NewConst(constant.MakeString(""), arr.Elem())
			}
		}
	}
	return els, a.fr, true
}

// onceGlobal returns the value a package-level variable is given at start-up if
// it is never assigned again.
func (p *Program) onceGlobal(g *ssa.Global) ssa.Value {
	if g.Pkg == nil || !p.inLib[g.Pkg] || g.Name() == "init$guard" {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && rootAddr(st.Addr) == ssa.Value(g) {
				n++
				if st.Addr == ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" {
					val = st.Val
				}
			}
		})
	}
	if n != 1 {
		return nil
	}
	return val
}

// foldLoad resolves loads of literal elements and of constant globals.
func (x *Explorer) foldLoad(s *State, fr *Frame, addr ssa.Value) (AV, bool) {
	switch ad := addr.(type) {
	case *ssa.Global:
		if v := x.p.onceGlobal(ad); v != nil {
			switch v.(type) {
			case *ssa.Const, *ssa.Slice, *ssa.MakeMap, *ssa.MakeInterface:
				return AV{v: v}, true
			}
		}
	case *ssa.FieldAddr:
		return x.foldField(s, AV{fr: fr, v: ad.X}, ad.Field, 0)
	case *ssa.IndexAddr:
		i, ok := constInt(x.resolve(s, AV{fr: fr, v: ad.Index}).v)
		if !ok || isStruct(deref(ad.Type())) {
			return AV{}, false
		}
		els, efr, ok := x.literal(x.resolve(s, AV{fr: fr, v: ad.X}))
		if !ok || i < 0 || int(i) >= len(els) {
			return AV{}, false
		}
		return AV{fr: efr, v: els[i]}, true
	}
	return AV{}, false
}

// foldField resolves a field of an element of a literal table of structs. at is
// the address of the struct.
func (x *Explorer) foldField(s *State, at AV, field, d int) (AV, bool) {
	if d > 4 {
		return AV{}, false
	}
	switch ad := at.v.(type) {
	case *ssa.Alloc:
		// a local copy of an element
		val, ok := s.facts[fkey{at.fr, ad, -1}]
		if !ok {
			if v, _ := soleWholeStore(ad); v != nil && privateStruct(ad) {
				val, ok = x.resolve(s, AV{fr: at.fr, v: v}), true
			}
		}
		if ld, isLd := val.v.(*ssa.UnOp); ok && isLd && ld.Op == token.MUL {
			return x.foldField(s, AV{fr: val.fr, v: ld.X}, field, d+1)
		}
	case *ssa.IndexAddr:
		i, ok := constInt(x.resolve(s, AV{fr: at.fr, v: ad.Index}).v)
		if !ok {
			return AV{}, false
		}
		tab := x.resolve(s, AV{fr: at.fr, v: ad.X})
		var al *ssa.Alloc
		switch v := tab.v.(type) {
		case *ssa.Slice:
			if v.Low == nil && v.High == nil {
				al, _ = v.X.(*ssa.Alloc)
			}
		case *ssa.Alloc:
			al = v
		}
		if al == nil {
			return AV{}, false
		}
		var val ssa.Value
		for _, ref := range *al.Referrers() {
			ix, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if j, ok := constInt(ix.Index); !ok || j != i {
				continue
			}
			for _, r2 := range *ix.Referrers() {
				fa, ok := r2.(*ssa.FieldAddr)
				if st, whole := r2.(*ssa.Store); whole && st.Addr == ssa.Value(ix) {
					ld, ok := st.Val.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						return AV{}, false
					}
					lit, ok := ld.X.(*ssa.Alloc)
					if !ok || !privateStruct(lit) || val != nil {
						return AV{}, false
					}
					sts, rest := storesTo(lit, []int{field})
					if len(sts) > 1 || len(sts) == 1 && len(rest[0]) > 0 {
						return AV{}, false
					}
					if len(sts) == 1 {
						val = sts[0].Val
					}
					continue
				}
				if !ok || fa.Field != field {
					continue
				}
				for _, r3 := range *fa.Referrers() {
					if st, ok := r3.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						if val != nil {
							return AV{}, false
						}
						val = st.Val
					}
				}
			}
		}
		if val == nil {
			return zeroAV(deref(at.v.Type()).Underlying().(*types.Struct).Field(field).Type())
		}
		return AV{fr: tab.fr, v: val}, true
	}
	return AV{}, false
}

func zeroAV(t types.Type) (AV, bool) {
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case !ok:
		return AV{v: ssa.NewConst(nil, t)}, true
	case b.Info()&types.IsString != 0:
		return AV{v: ssa.NewConst(constant.MakeString(""), t)}, true
	case b.Info()&types.IsInteger != 0:
		return AV{v: ssa.NewConst(constant.MakeInt64(0), t)}, true
	case b.Info()&types.IsBoolean != 0:
		return AV{v: ssa.NewConst(constant.MakeBool(false), t)}, true
	}
	return AV{}, false
}

// mapLiteral returns the entries of a map literal that is not changed.
func (x *Explorer) mapLiteral(m AV) (map[string]ssa.Value, bool) {
	mk, ok := m.v.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	out := map[string]ssa.Value{}
	for _, ref := range *mk.Referrers() {
		switch ref := ref.(type) {
		case *ssa.MapUpdate:
			k, ok := constString(ref.Key)
			if !ok {
				return nil, false
			}
			out[k] = ref.Value
		case *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
		case *ssa.Store:
			g, ok := ref.Addr.(*ssa.Global)
			if !ok || x.p.mapWritten(g) {
				return nil, false
			}
		case *ssa.Call:
			if calleeName(ref.Common()) != "builtin.len" {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// foldLookup resolves a lookup of a constant key in a map literal.
func (x *Explorer) foldLookup(s *State, fr *Frame, lk *ssa.Lookup, idx int) (AV, bool) {
	key, ok := constString(x.resolve(s, AV{fr: fr, v: lk.Index}).v)
	if !ok {
		return AV{}, false
	}
	m := x.resolve(s, AV{fr: fr, v: lk.X})
	lit, ok := x.mapLiteral(m)
	if !ok {
		return AV{}, false
	}
	val := lit[key]
	if idx == 1 {
		return boolAV(val != nil), true
	}
	if val == nil {
		mt := lk.X.Type().Underlying().(*types.Map)
		if isBool(mt.Elem()) {
			return boolAV(false), true
		}
		return AV{v: ssa.NewConst(nil, mt.Elem())}, !isString(mt.Elem()) && !isInteger(mt.Elem())
	}
	return x.resolve(s, AV{fr: m.fr, v: val}), true
}

// mapWritten reports whether the map in a package-level variable is changed
// anywhere after start-up.
func (p *Program) mapWritten(g *ssa.Global) bool {
	w := false
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			ld, ok := in.(*ssa.UnOp)
			if !ok || ld.X != ssa.Value(g) {
				return
			}
			for _, ref := range *ld.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
				case *ssa.Call:
					if calleeName(ref.Common()) != "builtin.len" {
						w = true
					}
				default:
					w = true
				}
			}
		})
	}
	return w
}
