package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Gated value numbering: what a function returns, as a tree of conditions whose
// leaves are value numbers over its parameters. Functions without loops are
// expanded in place; all others are uninterpreted. String and byte-slice forms of
// the same text have the same number.

type vnode struct {
	cond string // "" at a leaf
	t, f *vnode
	res  []*vterm
	loop *ssa.BasicBlock // leaf: a loop is entered here
	st   *vstate         // state at a loop leaf
}

type vterm struct {
	key    string
	c      *ssa.Const
	ptr    *vcell            // pointer to a local object
	fields map[string]*vterm // struct value
	typ    types.Type
	call   *ssa.Call // uninterpreted call, with its arguments
	args   []*vterm
	part   int  // which result of the call
	nonnil bool // never nil
}

// vcell is a local object; its contents are in the state.
type vcell struct {
	id   int
	typ  types.Type
	name string
}

type vstate struct {
	mem   map[string]*vterm // cell id + path -> contents
	log   string            // effects on memory that is not local
	facts map[string]bool
}

func (s *vstate) clone() *vstate {
	o := &vstate{mem: map[string]*vterm{}, log: s.log, facts: map[string]bool{}}
	for k, v := range s.mem {
		o.mem[k] = v
	}
	for k, v := range s.facts {
		o.facts[k] = v
	}
	return o
}

type vnumber struct {
	p      *Program
	cells  int
	budget int
	steps  int
	stack  map[*ssa.Function]bool
	opaque map[string]bool
	state  map[*ssa.Function]bool // functions that use package state
	noted  map[string]bool        // uninterpreted calls met

	sentinel map[*ssa.Global]bool // error values made at start-up and never changed
}

type vabort struct{ why string }

func newVnumber(p *Program) *vnumber {
	n := &vnumber{p: p, stack: map[*ssa.Function]bool{}, opaque: map[string]bool{}, state: map[*ssa.Function]bool{}, noted: map[string]bool{}}
	inits := p.initFuncs()
	changing := map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		if inits[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					changing[g] = true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if op, _ := lockOp(c.Common()); op != "" {
					n.state[f] = true
				}
			}
		})
	}
	n.sentinel = map[*ssa.Global]bool{}
	for f := range inits {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if g, ok := st.Addr.(*ssa.Global); ok && !changing[g] && isErrorType(st.Val.Type()) {
				if c, ok := st.Val.(*ssa.Call); ok && makesError(c.Common()) {
					n.sentinel[g] = true
				}
			}
		})
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			var ops [8]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if g, ok := (*op).(*ssa.Global); ok && changing[g] {
					n.state[f] = true
				}
			}
		})
	}
	return n
}

func makesError(c *ssa.CallCommon) bool {
	name := calleeName(c)
	return name == "errors.New" || name == "fmt.Errorf"
}

func konst(c *ssa.Const) *vterm {
	if c.Value == nil {
		return &vterm{key: "nil", c: c, typ: c.Type()}
	}
	return &vterm{key: "const:" + c.Value.ExactString(), c: c, typ: c.Type()}
}

func boolTerm(b bool) *vterm {
	return konst(ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool]))
}

// frame is one function being expanded.
type vframe struct {
	f    *ssa.Function
	env  map[ssa.Value]*vterm
	seen map[*ssa.BasicBlock]bool
	top  bool
}

func (fr *vframe) clone() *vframe {
	o := &vframe{f: fr.f, env: map[ssa.Value]*vterm{}, seen: map[*ssa.BasicBlock]bool{}, top: fr.top}
	for k, v := range fr.env {
		o.env[k] = v
	}
	for k := range fr.seen {
		o.seen[k] = true
	}
	return o
}

// tree numbers what f returns for the given arguments.
func (n *vnumber) tree(f *ssa.Function, args []*vterm, st *vstate) (out *vnode, why string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(vabort); ok {
				out, why = nil, a.why
				n.stack = map[*ssa.Function]bool{}
				return
			}
			panic(r)
		}
	}()
	n.budget = 20000
	return n.expand(f, args, st, true, func(res []*vterm, st *vstate) *vnode {
		return &vnode{res: n.settle(res, st), st: st}
	}), ""
}

// settle replaces pointers to local objects by what they point to.
func (n *vnumber) settle(res []*vterm, st *vstate) []*vterm {
	out := make([]*vterm, len(res))
	for i, r := range res {
		out[i] = &vterm{key: n.deep(r, st, 0), c: r.c, typ: r.typ, call: r.call, args: r.args, part: r.part, nonnil: r.nonnil || r.ptr != nil || strings.HasPrefix(r.key, "iface:")}
	}
	return out
}

// deep is the key of a value including the local memory it leads to.
func (n *vnumber) deep(v *vterm, st *vstate, d int) string {
	if c, path, ok := cellAddr(v); ok && d < 6 {
		if path != "" {
			return "&" + path + n.cellKey(c, st, d+1)
		}
		return "&" + n.cellKey(c, st, d+1)
	}
	if v.fields != nil && d < 6 {
		return n.structKey(v, st, d+1)
	}
	return v.key
}

func (n *vnumber) structKey(v *vterm, st *vstate, d int) string {
	var ks []string
	for k, f := range v.fields {
		x := n.deep(f, st, d)
		if zeroKey(x) {
			continue
		}
		ks = append(ks, k+":"+x)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

func zeroKey(k string) bool {
	return k == "nil" || k == "const:0" || k == "const:false" || k == `const:""` || k == "{}"
}

func (n *vnumber) cellKey(c *vcell, st *vstate, d int) string {
	return n.deep(n.cellValue(c, "", c.typ, st), st, d)
}

// cellValue reads the contents of a local object.
func (n *vnumber) cellValue(c *vcell, path string, typ types.Type, st *vstate) *vterm {
	if v := st.mem[fmt.Sprint(c.id, path)]; v != nil {
		return v
	}
	// part of a value stored as a whole
	for i := len(path); i > 0; {
		i = strings.LastIndexByte(path[:i], '.')
		if i < 0 {
			break
		}
		if v := st.mem[fmt.Sprint(c.id, path[:i])]; v != nil {
			for _, part := range strings.Split(path[i+1:], ".") {
				v = n.field(v, "."+part, typ)
			}
			return v
		}
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		v := &vterm{fields: map[string]*vterm{}, typ: typ}
		for i := 0; i < s.NumFields(); i++ {
			v.fields[fieldPath(i)] = n.cellValue(c, path+fieldPath(i), s.Field(i).Type(), st)
		}
		v.key = n.structKey(v, st, 0)
		return v
	}
	return zeroTerm(typ)
}

func zeroTerm(typ types.Type) *vterm {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return konst(ssa.NewConst(constant.MakeString(""), typ))
		case u.Info()&types.IsBoolean != 0:
			return konst(ssa.NewConst(constant.MakeBool(false), typ))
		case u.Info()&types.IsNumeric != 0:
			return konst(ssa.NewConst(constant.MakeInt64(0), typ))
		}
	case *types.Struct, *types.Array:
		return &vterm{key: "{}", fields: map[string]*vterm{}, typ: typ}
	}
	return konst(ssa.NewConst(nil, typ))
}

func (n *vnumber) field(v *vterm, path string, typ types.Type) *vterm {
	if v.fields != nil {
		if f := v.fields[path]; f != nil {
			return f
		}
		return zeroTerm(typ)
	}
	return &vterm{key: v.key + path, typ: typ}
}

// storeCell writes a value to (part of) a local object.
func (n *vnumber) storeCell(c *vcell, path string, v *vterm, st *vstate) {
	pre := fmt.Sprint(c.id, path)
	for k := range st.mem {
		if k == pre || strings.HasPrefix(k, pre+".") || strings.HasPrefix(k, pre+"[") {
			delete(st.mem, k)
		}
	}
	// split a whole that is partly overwritten
	for i := len(path); i > 0; {
		i = strings.LastIndexByte(path[:i], '.')
		if i < 0 {
			break
		}
		k := fmt.Sprint(c.id, path[:i])
		if w := st.mem[k]; w != nil {
			delete(st.mem, k)
			if w.fields != nil {
				for fp, fv := range w.fields {
					st.mem[k+fp] = fv
				}
			} else {
				st.mem[k+"$rest"] = w
			}
		}
	}
	if v.fields != nil && len(v.fields) > 0 {
		for fp, fv := range v.fields {
			st.mem[pre+fp] = fv
		}
		return
	}
	st.mem[pre] = v
}

func (n *vnumber) expand(f *ssa.Function, args []*vterm, st *vstate, top bool, k func([]*vterm, *vstate) *vnode) *vnode {
	if n.stack[f] || f.Blocks == nil {
		panic(vabort{"recursion"})
	}
	n.stack[f] = true
	fr := &vframe{f: f, env: map[ssa.Value]*vterm{}, seen: map[*ssa.BasicBlock]bool{}, top: top}
	for i, prm := range f.Params {
		fr.env[prm] = args[i]
	}
	out := n.block(fr, f.Blocks[0], nil, 0, st, func(res []*vterm, st *vstate) *vnode {
		delete(n.stack, f)
		x := k(res, st)
		n.stack[f] = true
		return x
	})
	delete(n.stack, f)
	return out
}

func (n *vnumber) val(fr *vframe, v ssa.Value, st *vstate) *vterm {
	if t := fr.env[v]; t != nil {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return konst(v)
	case *ssa.Global:
		return &vterm{key: "global:" + v.Name(), typ: v.Type()}
	case *ssa.Function:
		return &vterm{key: "func:" + v.Name(), typ: v.Type()}
	}
	panic(vabort{"value " + v.Name() + " of " + fr.f.Name()})
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			return true
		}
	}
	return false
}

func (n *vnumber) block(fr *vframe, b, from *ssa.BasicBlock, at int, st *vstate, k func([]*vterm, *vstate) *vnode) *vnode {
	n.budget--
	n.steps++
	if n.budget < 0 || n.steps > 5000000 {
		panic(vabort{"too large"})
	}
	if at == 0 {
		if isLoopHead(b) {
			if fr.top {
				return &vnode{loop: b, st: st}
			}
			panic(vabort{"loop in " + fr.f.Name()})
		}
		// phis first, all at once
		var phis []*ssa.Phi
		var vals []*vterm
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == from {
					phis, vals = append(phis, phi), append(vals, n.val(fr, phi.Edges[i], st))
				}
			}
		}
		for i, phi := range phis {
			fr.env[phi] = vals[i]
		}
	}
	for i := at; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			if _, ok := in.(*ssa.RunDefers); ok {
				panic(vabort{"deferred calls"})
			}
		case *ssa.Alloc:
			n.cells++
			c := &vcell{id: n.cells, typ: deref(v.Type()), name: v.Comment}
			fr.env[v] = &vterm{key: fmt.Sprintf("cell%d", c.id), ptr: c, typ: v.Type()}
		case *ssa.Store:
			a, x := n.val(fr, v.Addr, st), n.val(fr, v.Val, st)
			if c, path, ok := cellAddr(a); ok {
				n.storeCell(c, path, x, st)
			} else {
				st.log += ";" + a.key + "=" + n.deep(x, st, 0)
			}
		case *ssa.FieldAddr:
			x := n.val(fr, v.X, st)
			fr.env[v] = &vterm{key: x.key + fieldPath(v.Field), ptr: nil, typ: v.Type()}
			if c, path, ok := cellAddr(x); ok {
				fr.env[v] = &vterm{key: fmt.Sprintf("cell%d%s", c.id, path+fieldPath(v.Field)), ptr: c, typ: v.Type()}
			}
		case *ssa.Field:
			fr.env[v] = n.field(n.val(fr, v.X, st), fieldPath(v.Field), v.Type())
		case *ssa.IndexAddr:
			x, ix := n.val(fr, v.X, st), n.val(fr, v.Index, st)
			fr.env[v] = &vterm{key: n.deep(x, st, 0) + "[" + ix.key + "]", typ: v.Type()}
			if c, path, ok := cellAddr(x); ok {
				fr.env[v] = &vterm{key: fmt.Sprintf("cell%d%s.[%s]", c.id, path, ix.key), ptr: c, typ: v.Type()}
			}
		case *ssa.Index:
			x, ix := n.val(fr, v.X, st), n.val(fr, v.Index, st)
			fr.env[v] = &vterm{key: x.key + "[" + ix.key + "]", typ: v.Type()}
		case *ssa.Lookup:
			x, ix := n.val(fr, v.X, st), n.val(fr, v.Index, st)
			fr.env[v] = &vterm{key: x.key + "[" + ix.key + "]" + st.log, typ: v.Type()}
		case *ssa.UnOp:
			x := n.val(fr, v.X, st)
			switch v.Op {
			case token.MUL:
				if c, path, ok := cellAddr(x); ok {
					fr.env[v] = n.cellValue(c, path, v.Type(), st)
				} else if g, ok := v.X.(*ssa.Global); ok && n.p.zeroGlobal(g) {
					fr.env[v] = zeroTerm(v.Type())
				} else if g, ok := v.X.(*ssa.Global); ok {
					fr.env[v] = &vterm{key: "*" + g.Name(), typ: v.Type(), nonnil: n.sentinel[g]}
				} else {
					fr.env[v] = &vterm{key: "*" + x.key + st.log, typ: v.Type()}
				}
			case token.NOT:
				fr.env[v] = negTerm(x)
			default:
				fr.env[v] = &vterm{key: v.Op.String() + x.key, typ: v.Type()}
			}
		case *ssa.BinOp:
			fr.env[v] = n.binop(v.Op, n.val(fr, v.X, st), n.val(fr, v.Y, st), v.Type(), st)
		case *ssa.ChangeType:
			fr.env[v] = n.val(fr, v.X, st)
		case *ssa.ChangeInterface:
			fr.env[v] = n.val(fr, v.X, st)
		case *ssa.Convert:
			x := n.val(fr, v.X, st)
			if byteish(v.Type()) && byteish(v.X.Type()) {
				y := *x
				y.typ = v.Type()
				if x.c != nil && x.c.Value == nil {
					y.c, y.key = nil, `const:""`
				}
				fr.env[v] = &y
			} else {
				fr.env[v] = &vterm{key: typeName(v.Type()) + "(" + x.key + ")", typ: v.Type()}
			}
		case *ssa.MakeInterface:
			x := n.val(fr, v.X, st)
			fr.env[v] = &vterm{key: "iface:" + types.TypeString(v.X.Type(), nil) + ":" + n.deep(x, st, 0), typ: v.Type()}
		case *ssa.Slice:
			x := n.val(fr, v.X, st)
			key := n.deep(x, st, 0)
			for _, o := range []ssa.Value{v.Low, v.High, v.Max} {
				if o == nil {
					key += ":"
				} else {
					key += ":" + n.val(fr, o, st).key
				}
			}
			fr.env[v] = &vterm{key: "slice(" + key + ")", typ: v.Type()}
			if v.Low == nil && v.High == nil && v.Max == nil && x.ptr == nil {
				fr.env[v] = x
			}
		case *ssa.TypeAssert:
			x := n.val(fr, v.X, st)
			fr.env[v] = &vterm{key: "assert(" + x.key + "," + types.TypeString(v.AssertedType, nil) + ")", typ: v.Type()}
		case *ssa.MakeSlice:
			fr.env[v] = &vterm{key: "make(" + types.TypeString(v.Type(), nil) + "," + n.val(fr, v.Len, st).key + ")", typ: v.Type()}
		case *ssa.MakeMap:
			fr.env[v] = &vterm{key: "makemap" + types.TypeString(v.Type(), nil), typ: v.Type()}
		case *ssa.Extract:
			t := n.val(fr, v.Tuple, st)
			if t.fields != nil {
				fr.env[v] = t.fields[fmt.Sprint("#", v.Index)]
			} else {
				fr.env[v] = &vterm{key: fmt.Sprintf("%s#%d", t.key, v.Index), typ: v.Type(), call: t.call, args: t.args, part: v.Index}
			}
		case *ssa.Call:
			if out := n.call(fr, v, b, i, from, st, k); out != nil {
				return out
			}
		case *ssa.If:
			c := n.truth(n.val(fr, v.Cond, st), st)
			if c.c != nil {
				if constant.BoolVal(c.c.Value) {
					return n.block(fr, b.Succs[0], b, 0, st, k)
				}
				return n.block(fr, b.Succs[1], b, 0, st, k)
			}
			key, pos := condKey(c.key)
			out := &vnode{cond: key}
			for _, val := range []bool{true, false} {
				s2, fr2 := st.clone(), fr.clone()
				s2.facts[key] = val
				succ := b.Succs[0]
				if val != pos {
					succ = b.Succs[1]
				}
				// the stack of expansions is the same on both sides
				saved := map[*ssa.Function]bool{}
				for f := range n.stack {
					saved[f] = true
				}
				sub := n.block(fr2, succ, b, 0, s2, k)
				n.stack = saved
				if val {
					out.t = sub
				} else {
					out.f = sub
				}
			}
			return out
		case *ssa.Jump:
			return n.block(fr, b.Succs[0], b, 0, st, k)
		case *ssa.Return:
			res := make([]*vterm, len(v.Results))
			for j, r := range v.Results {
				res[j] = n.truth(n.val(fr, r, st), st)
			}
			return k(res, st)
		case *ssa.Panic:
			return &vnode{res: []*vterm{{key: "panic"}}, st: st}
		default:
			panic(vabort{fmt.Sprintf("%T in %s", in, fr.f.Name())})
		}
	}
	panic(vabort{"no terminator"})
}

// cellAddr splits a pointer into a local object into the object and the path.
func cellAddr(a *vterm) (*vcell, string, bool) {
	if a.ptr == nil {
		return nil, "", false
	}
	return a.ptr, strings.TrimPrefix(a.key, fmt.Sprintf("cell%d", a.ptr.id)), true
}

func condKey(k string) (string, bool) {
	pos := true
	for strings.HasPrefix(k, "!") {
		k, pos = k[1:], !pos
	}
	return k, pos
}

func negTerm(x *vterm) *vterm {
	if x.c != nil && x.c.Value != nil {
		return boolTerm(!constant.BoolVal(x.c.Value))
	}
	if strings.HasPrefix(x.key, "!") {
		return &vterm{key: x.key[1:], typ: x.typ}
	}
	return &vterm{key: "!" + x.key, typ: x.typ}
}

// truth resolves a condition by what is already known on the way.
func (n *vnumber) truth(c *vterm, st *vstate) *vterm {
	if c.c != nil || c.typ == nil {
		return c
	}
	if b, ok := c.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return c
	}
	key, pos := condKey(c.key)
	if v, ok := st.facts[key]; ok {
		return boolTerm(v == pos)
	}
	if otherNumber(st.facts, key) {
		return boolTerm(!pos)
	}
	return c
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (n *vnumber) binop(op token.Token, x, y *vterm, typ types.Type, st *vstate) *vterm {
	if x.c != nil && y.c != nil && x.c.Value != nil && y.c.Value != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.c.Value.Kind() == y.c.Value.Kind() {
				return boolTerm(constant.Compare(x.c.Value, op, y.c.Value))
			}
		case token.ADD, token.SUB, token.MUL:
			if x.c.Value.Kind() == y.c.Value.Kind() && x.c.Value.Kind() != constant.Bool {
				return konst(ssa.NewConst(constant.BinaryOp(x.c.Value, op, y.c.Value), typ))
			}
		}
	}
	kx, ky := n.deep(x, st, 0), n.deep(y, st, 0)
	switch op {
	case token.NEQ:
		return negTerm(n.binop(token.EQL, x, y, typ, st))
	case token.GTR:
		return n.binop(token.LSS, y, x, typ, st)
	case token.GEQ:
		return negTerm(n.binop(token.LSS, x, y, typ, st))
	case token.LEQ:
		return negTerm(n.binop(token.LSS, y, x, typ, st))
	case token.EQL:
		if x.ptr != nil && ky == "nil" || y.ptr != nil && kx == "nil" {
			return boolTerm(false)
		}
		if x.nonnil && ky == "nil" || y.nonnil && kx == "nil" {
			return boolTerm(false)
		}
		if kx == ky && x.ptr == nil && y.ptr == nil {
			return boolTerm(true)
		}
		if ky == "nil" && nonNilText(kx) || kx == "nil" && nonNilText(ky) {
			return boolTerm(false)
		}
		if strings.HasPrefix(kx, "iface:") && ky == "nil" || strings.HasPrefix(ky, "iface:") && kx == "nil" {
			return boolTerm(false)
		}
		// an empty text is one of length 0
		if ky == `const:""` {
			kx, ky = "len("+kx+")", "const:0"
		} else if kx == `const:""` {
			kx, ky = "len("+ky+")", "const:0"
		}
		if kx > ky {
			kx, ky = ky, kx
		}
		return &vterm{key: "(" + kx + "==" + ky + ")", typ: typ}
	case token.LSS:
		// lengths are never negative
		if kx == "const:0" && strings.HasPrefix(ky, "len(") {
			return negTerm(n.binop(token.EQL, x, y, typ, st))
		}
		if ky == "const:1" && strings.HasPrefix(kx, "len(") {
			return n.binop(token.EQL, x, zeroTerm(types.Typ[types.Int]), typ, st)
		}
		if ky == "const:0" && strings.HasPrefix(kx, "len(") {
			return boolTerm(false)
		}
	case token.ADD, token.MUL, token.AND, token.OR:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && kx > ky {
			kx, ky = ky, kx
		}
	}
	return &vterm{key: "(" + kx + op.String() + ky + ")", typ: typ}
}

// nonNilText: the document is some text, also when it is empty.
func nonNilText(k string) bool { return k == "$doc" }

// call numbers a call: expanded if possible, otherwise uninterpreted. A nil result
// means the walk goes on after the call.
func (n *vnumber) call(fr *vframe, v *ssa.Call, b *ssa.BasicBlock, i int, from *ssa.BasicBlock, st *vstate, k func([]*vterm, *vstate) *vnode) *vnode {
	c := v.Common()
	args := make([]*vterm, len(c.Args))
	for j, a := range c.Args {
		args[j] = n.val(fr, a, st)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if args[0].c != nil && args[0].c.Value != nil && args[0].c.Value.Kind() == constant.String {
				fr.env[v] = konst(ssa.NewConst(constant.MakeInt64(int64(len(constant.StringVal(args[0].c.Value)))), v.Type()))
			} else if args[0].key == "nil" {
				fr.env[v] = zeroTerm(v.Type())
			} else {
				fr.env[v] = &vterm{key: "len(" + n.deep(args[0], st, 0) + ")", typ: v.Type()}
			}
			return nil
		case "StringData", "SliceData":
			fr.env[v] = &vterm{key: "data(" + args[0].key + ")", typ: v.Type()}
			return nil
		case "Slice", "String":
			if strings.HasPrefix(args[0].key, "data(") {
				txt := strings.TrimSuffix(strings.TrimPrefix(args[0].key, "data("), ")")
				if args[1].key == "len("+txt+")" {
					fr.env[v] = &vterm{key: txt, typ: v.Type()}
					return nil
				}
			}
		case "append", "copy", "delete", "clear":
			st.log += ";" + bi.Name() + "(" + n.keys(args, st) + ")"
		}
		fr.env[v] = &vterm{key: bi.Name() + "(" + n.keys(args, st) + ")", typ: v.Type()}
		return nil
	}
	g := c.StaticCallee()
	if g != nil && n.p.InLib(g) && g.Blocks != nil && !n.state[g] && !n.stack[g] && len(g.FreeVars) == 0 {
		okey := g.Name() + "(" + n.keys(args, st) + ")" + st.log
		if !n.opaque[okey] {
			out, ok := n.try(fr, v, g, args, b, i, from, st, k, okey)
			if ok {
				return out
			}
		}
	}
	n.uninterpreted(fr, v, g, args, st)
	return nil
}

// try expands the callee and continues behind the call on each of its returns.
func (n *vnumber) try(fr *vframe, v *ssa.Call, g *ssa.Function, args []*vterm, b *ssa.BasicBlock, i int, from *ssa.BasicBlock, st *vstate, k func([]*vterm, *vstate) *vnode, okey string) (out *vnode, ok bool) {
	// first see whether it can be expanded at all
	saved := map[*ssa.Function]bool{}
	for f := range n.stack {
		saved[f] = true
	}
	budget := n.budget
	can := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(vabort); !is {
					panic(r)
				}
				ok = false
			}
		}()
		if n.budget > 2000 {
			n.budget = 2000
		}
		n.expand(g, args, st.clone(), false, func(res []*vterm, _ *vstate) *vnode { return &vnode{res: res} })
		return true
	}()
	n.budget = budget - 1
	n.stack = saved
	if !can {
		n.opaque[okey] = true
		return nil, false
	}
	return n.expand(g, args, st, false, func(res []*vterm, s2 *vstate) *vnode {
		fr2 := fr.clone()
		if len(res) == 1 {
			fr2.env[v] = res[0]
		} else if len(res) > 1 {
			t := &vterm{key: "tuple", fields: map[string]*vterm{}}
			for j, r := range res {
				t.fields[fmt.Sprint("#", j)] = r
			}
			fr2.env[v] = t
		} else {
			fr2.env[v] = &vterm{key: "void"}
		}
		return n.block(fr2, b, from, i+1, s2.clone(), k)
	}), true
}

func (n *vnumber) keys(args []*vterm, st *vstate) string {
	var out []string
	for _, a := range args {
		out = append(out, n.deep(a, st, 0))
	}
	return strings.Join(out, ",")
}

func (n *vnumber) uninterpreted(fr *vframe, v *ssa.Call, g *ssa.Function, args []*vterm, st *vstate) {
	name := "dynamic:" + v.Common().Value.Name()
	if v.Common().IsInvoke() {
		x := n.val(fr, v.Common().Value, st)
		name = "invoke:" + x.key + "." + v.Common().Method.Name()
	}
	if g != nil {
		name = g.String()
	} else if !v.Common().IsInvoke() {
		if t := fr.env[v.Common().Value]; t != nil {
			name = "dynamic:" + t.key
		} else {
			panic(vabort{"call of a closure"})
		}
	}
	key := name + "(" + n.keys(args, st) + ")"
	n.noted[name] = true
	writes := false
	for j, a := range args {
		// the callee may change local objects it is handed
		if a.ptr != nil {
			c, path, _ := cellAddr(a)
			n.storeCell(c, path, &vterm{key: fmt.Sprintf("after(%s,%d)", key, j), typ: deref(a.typ)}, st)
			writes = true
		}
	}
	if g == nil || n.p.InLib(g) && n.effects(g) {
		key += st.log
		if !writes {
			st.log += ";" + key
		}
	}
	fr.env[v] = &vterm{key: key, typ: v.Type(), call: v, args: args, nonnil: makesError(v.Common())}
}

// effects: the function may change memory it is handed.
func (n *vnumber) effects(g *ssa.Function) bool {
	if n.state[g] {
		return false // what it keeps never shows (C02)
	}
	for _, prm := range g.Params {
		if reference(prm.Type()) && !isByteSlice(prm.Type()) {
			return true
		}
	}
	return false
}

// compare decides whether two trees return the same under the facts.
type vcompare struct {
	n    int
	diff string
	errs bool // only whether it fails counts, not with which error
}

func evalNode(t *vnode, facts map[string]bool) *vnode {
	for t.cond != "" {
		v, ok := facts[t.cond]
		if !ok {
			return t
		}
		if v {
			t = t.t
		} else {
			t = t.f
		}
	}
	return t
}

func (c *vcompare) same(a, b *vnode, facts map[string]bool) bool {
	c.n++
	if c.n > 20000 {
		c.diff = "too many cases"
		return false
	}
	a, b = evalNode(a, facts), evalNode(b, facts)
	split := a.cond
	if split == "" {
		split = b.cond
	}
	if split != "" {
		for _, v := range []bool{true, false} {
			if !feasible(facts, split, v) {
				continue
			}
			f2 := map[string]bool{split: v}
			for k, x := range facts {
				f2[k] = x
			}
			if !c.same(a, b, f2) {
				return false
			}
		}
		return true
	}
	if a.loop != nil || b.loop != nil {
		if a.loop == b.loop {
			return true
		}
		c.diff = "one enters a loop"
		return false
	}
	return c.leaf(a, b, facts)
}

// eqNumber takes apart a condition that says which number a value is.
func eqNumber(cond string) (term, num string, ok bool) {
	digits := func(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }
	body := strings.TrimSuffix(strings.TrimPrefix(cond, "("), ")")
	if len(body) != len(cond)-2 {
		return "", "", false
	}
	if i := strings.LastIndex(body, "==const:"); i > 0 && digits(body[i+8:]) {
		return body[:i], body[i+8:], true
	}
	if rest := strings.TrimPrefix(body, "const:"); rest != body {
		if i := strings.Index(rest, "=="); i > 0 && digits(rest[:i]) {
			return rest[i+2:], rest[:i], true
		}
	}
	return "", "", false
}

// otherNumber: the value is known to be another number.
func otherNumber(facts map[string]bool, cond string) bool {
	term, num, ok := eqNumber(cond)
	if !ok {
		return false
	}
	for k, x := range facts {
		if t, m, ok := eqNumber(k); ok && x && t == term && m != num {
			return true
		}
	}
	return false
}

// feasible: the condition can have this value given what is known.
func feasible(facts map[string]bool, cond string, v bool) bool {
	if v && otherNumber(facts, cond) {
		return false
	}
	// a text cannot be both empty and longer than something
	if strings.HasPrefix(cond, "(const:") && v && strings.Contains(cond, "<len(") {
		i := strings.Index(cond, "<len(")
		l := strings.TrimSuffix(cond[i+1:], ")")
		for _, k := range []string{"(const:0==" + l + ")"} {
			if facts[k] {
				return false
			}
		}
	}
	if strings.HasPrefix(cond, "(const:0==len(") && v {
		l := strings.TrimSuffix(strings.TrimPrefix(cond, "(const:0=="), ")")
		for k, x := range facts {
			if x && strings.HasPrefix(k, "(const:") && strings.HasSuffix(k, "<"+l+")") {
				return false
			}
		}
	}
	return true
}

// nilUnder: whether the value is nil given the facts.
func nilUnder(t *vterm, facts map[string]bool) (isNil, known bool) {
	if t.key == "nil" {
		return true, true
	}
	for _, k := range []string{"(" + t.key + "==nil)", "(nil==" + t.key + ")"} {
		if v, ok := facts[k]; ok {
			return v, true
		}
	}
	return false, t.nonnil
}

func (c *vcompare) leaf(a, b *vnode, facts map[string]bool) bool {
	if len(a.res) != len(b.res) {
		c.diff = "different number of results"
		return false
	}
	val := func(t *vterm) string {
		if t.typ != nil && nilable(t.typ) {
			for _, k := range []string{"(" + t.key + "==nil)", "(nil==" + t.key + ")"} {
				if facts[k] {
					return "nil"
				}
			}
		}
		if t.typ != nil {
			if k, pos := condKey(t.key); t.c == nil {
				if v, ok := facts[k]; ok {
					return boolTerm(v == pos).key
				}
			}
		}
		return t.key
	}
	nilFact := func(t *vterm) (isNil, known bool) { return nilUnder(t, facts) }
	failed := false
	for i := range a.res {
		if a.res[i].typ == nil || !isErrorType(a.res[i].typ) {
			continue
		}
		// decide first whether the call failed
		for _, t := range []*vterm{a.res[i], b.res[i]} {
			if _, known := nilFact(t); !known {
				k := "(" + t.key + "==nil)"
				if t.key > "nil" {
					k = "(nil==" + t.key + ")"
				}
				for _, v := range []bool{true, false} {
					f2 := map[string]bool{k: v}
					for k2, x := range facts {
						f2[k2] = x
					}
					if !c.leaf(a, b, f2) {
						return false
					}
				}
				return true
			}
		}
		aNil, _ := nilFact(a.res[i])
		bNil, _ := nilFact(b.res[i])
		if c.errs && aNil == bNil {
			failed = failed || !aNil
			continue
		}
		if val(a.res[i]) != val(b.res[i]) {
			c.diff = fmt.Sprintf("errors differ: %s and %s", short(val(a.res[i])), short(val(b.res[i])))
			return false
		}
		if isNil, _ := nilFact(a.res[i]); !isNil {
			failed = true // what is returned with an error is C05's
		}
	}
	if failed {
		return true
	}
	for i := range a.res {
		if x, y := val(a.res[i]), val(b.res[i]); x != y {
			c.diff = fmt.Sprintf("%s against %s", short(x), short(y))
			return false
		}
	}
	return true
}

// family is one operation in its forms.
type family struct {
	name   string
	basic  *ssa.Function
	value  bool // takes a value
	others []*ssa.Function
	batch  []*ssa.Function
}

func textParam(t types.Type) bool { return isString(t) || isByteSlice(t) }

func isOptions(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), modPath, "Options")
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func isValues(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Interface)
	return ok
}

// roles names what each parameter of a variant stands for.
func roles(f *ssa.Function) (string, bool) {
	var out []string
	for i, prm := range f.Params {
		t := prm.Type()
		_, iface := t.Underlying().(*types.Interface)
		switch {
		case i == 0 && f.Signature.Recv() != nil && isNamed(t, modPath, "Result"):
			out = append(out, "recv")
		case i == 0 && textParam(t) && f.Signature.Recv() == nil:
			out = append(out, "doc")
		case isString(t) && i == 1:
			out = append(out, "path")
		case isStrings(t) && i == 1:
			out = append(out, "paths")
		case iface && i == 2:
			out = append(out, "value")
		case isValues(t) && i == 2:
			out = append(out, "values")
		case isOptions(t) && i == len(f.Params)-1:
			out = append(out, "opts")
		default:
			return "", false
		}
	}
	return strings.Join(out, " "), true
}

func checkC17(p *Program, r *Report) {
	r.Rule("same-answer", "each single-operation form (string, bytes, options nil, options default) returns, condition by condition, the values the basic form returns")
	r.Rule("same-verdict", "the forms that report only validity and those that report the error decide by the same validation")
	r.Rule("batch", "a batch form applies the basic operation to every path in order, at its own index, to the same or the so far updated document, and stops only on an error")
	n := newVnumber(p)
	v := &variants{p: p, r: r, n: n}
	fams := []*family{{name: "Get", basic: p.Func("GetBytes")}, {name: "Set", basic: p.Func("SetBytes"), value: true}, {name: "Delete", basic: p.Func("DeleteBytes")}, {name: "Result.Get", basic: method(p, "Result", "Get")}}
	for _, fam := range fams {
		if fam.basic == nil {
			r.Bad("same-answer", fam.name, "-", "the basic form of "+fam.name+" is not in the library")
			return
		}
		want, ok := roles(fam.basic)
		if !ok {
			r.Bad("same-answer", fam.name, p.Pos(fam.basic.Pos()), "the parameters of the basic form are not recognised")
			continue
		}
		method := fam.basic.Signature.Recv() != nil
		for _, e := range p.entries {
			if e == fam.basic || (e.Signature.Recv() != nil) != method || !strings.HasPrefix(e.Name(), strings.TrimPrefix(fam.name, "Result.")) {
				continue
			}
			got, ok := roles(e)
			if !ok {
				continue
			}
			switch got {
			case want, want + " opts":
				fam.others = append(fam.others, e)
			case strings.Replace(strings.Replace(want, "path", "paths", 1), "value", "values", 1):
				fam.batch = append(fam.batch, e)
			}
		}
		v.family(fam)
	}
	v.verdicts()
	r.Count("forms", v.forms)
	r.Count("cases_compared", v.cases)
	r.Count("batch_forms", v.batches)
	r.Count("uninterpreted_calls", len(n.noted))
	r.Min("forms", 6)
	r.Min("batch_forms", 2)
}

type variants struct {
	p                     *Program
	r                     *Report
	n                     *vnumber
	forms, cases, batches int
}

func newVstate() *vstate { return &vstate{mem: map[string]*vterm{}, facts: map[string]bool{}} }

// defaults is what DefaultOptions returns.
func (v *variants) defaults() (*vterm, *vstate) {
	f := v.p.Func("DefaultOptions")
	if f == nil {
		return nil, nil
	}
	var res *vterm
	var st *vstate
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(vabort); !ok {
					panic(e)
				}
			}
		}()
		v.n.budget = 500
		v.n.expand(f, nil, newVstate(), false, func(rs []*vterm, s *vstate) *vnode {
			if len(rs) == 1 && res == nil {
				res, st = rs[0], s
			}
			return &vnode{}
		})
	}()
	return res, st
}

// args makes the arguments of a variant.
func (v *variants) args(f *ssa.Function, opts *vterm) []*vterm {
	names, _ := roles(f)
	var out []*vterm
	for i, name := range strings.Fields(names) {
		t := f.Params[i].Type()
		if name == "opts" {
			out = append(out, opts)
			continue
		}
		out = append(out, &vterm{key: "$" + name, typ: t})
	}
	return out
}

func (v *variants) family(fam *family) {
	base, why := v.n.tree(fam.basic, v.args(fam.basic, nil), newVstate())
	if base == nil {
		v.r.Bad("same-answer", v.p.shortName(fam.basic), v.p.Pos(fam.basic.Pos()), "what the basic form returns cannot be worked out: "+why)
		return
	}
	for _, f := range fam.others {
		v.forms++
		names, _ := roles(f)
		kinds := []string{""}
		if strings.HasSuffix(names, " opts") {
			kinds = []string{"nil options", "default options"}
		}
		for _, kind := range kinds {
			st := newVstate()
			var opts *vterm
			switch kind {
			case "nil options":
				opts = zeroTerm(f.Params[len(f.Params)-1].Type())
			case "default options":
				if opts, st = v.defaults(); opts == nil {
					v.r.Bad("same-answer", v.p.shortName(f), v.p.Pos(f.Pos()), "what DefaultOptions returns cannot be worked out")
					continue
				}
			}
			id := v.p.shortName(f)
			if kind != "" {
				id += " with " + kind
			}
			got, why := v.n.tree(f, v.args(f, opts), st)
			if got == nil {
				v.r.Bad("same-answer", id, v.p.Pos(f.Pos()), "what it returns cannot be worked out: "+why)
				continue
			}
			c := &vcompare{}
			if c.same(got, base, map[string]bool{}) {
				v.r.OK("same-answer", id, "the same as "+v.p.shortName(fam.basic))
			} else {
				v.r.Bad("same-answer", id, v.p.Pos(f.Pos()), fmt.Sprintf("it does not return what %s returns: %s", v.p.shortName(fam.basic), c.diff))
			}
			v.cases += c.n
		}
	}
	for _, f := range fam.batch {
		v.batches++
		v.batch(fam, f, v.args(f, nil), 0)
	}
}

// verdicts: Valid says whether ValidateWithError finds an error.
func (v *variants) verdicts() {
	var base *vnode
	var name string
	for _, fn := range []string{"ValidateBytesWithError", "ValidateWithError", "ValidBytes", "Valid"} {
		f := v.p.Func(fn)
		if f == nil {
			continue
		}
		v.forms++
		t, why := v.n.tree(f, []*vterm{{key: "$doc", typ: f.Params[0].Type()}}, newVstate())
		if t == nil {
			v.r.Bad("same-verdict", fn, v.p.Pos(f.Pos()), "what it returns cannot be worked out: "+why)
			continue
		}
		if base == nil {
			base, name = t, fn
			continue
		}
		b := base
		if f.Signature.Results().Len() == 1 && !nilable(f.Signature.Results().At(0).Type()) {
			b, t = decided(nilness(base)), decided(t)
		}
		c := &vcompare{}
		if c.same(t, b, map[string]bool{}) {
			v.r.OK("same-verdict", fn, "agrees with "+name)
		} else {
			v.r.Bad("same-verdict", fn, v.p.Pos(f.Pos()), fmt.Sprintf("it does not agree with %s: %s", name, c.diff))
		}
		v.cases += c.n
	}
}

// nilness turns a tree of results into one of "the result is nil".
func nilness(t *vnode) *vnode {
	if t.cond != "" {
		return &vnode{cond: t.cond, t: nilness(t.t), f: nilness(t.f)}
	}
	if len(t.res) != 1 {
		return t
	}
	k := t.res[0].key
	switch {
	case k == "nil":
		return &vnode{res: []*vterm{boolTerm(true)}}
	case strings.HasPrefix(k, "&"):
		return &vnode{res: []*vterm{boolTerm(false)}}
	}
	eq := "(" + k + "==nil)"
	if k > "nil" {
		eq = "(nil==" + k + ")"
	}
	return &vnode{res: []*vterm{{key: eq, typ: types.Typ[types.Bool]}}}
}

// decided splits on results that are conditions.
func decided(t *vnode) *vnode {
	if t.cond != "" {
		return &vnode{cond: t.cond, t: decided(t.t), f: decided(t.f)}
	}
	if len(t.res) != 1 || t.res[0].c != nil {
		return t
	}
	k, pos := condKey(t.res[0].key)
	return &vnode{cond: k, t: &vnode{res: []*vterm{boolTerm(pos)}}, f: &vnode{res: []*vterm{boolTerm(!pos)}}}
}

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+".", "")
	if len(s) > 220 {
		s = s[:220] + "..."
	}
	return s
}

// batch decides a batch form. args are the roles of the parameters of f, which is
// the form itself or the function it hands everything to.
func (v *variants) batch(fam *family, f *ssa.Function, args []*vterm, d int) bool {
	id := v.p.shortName(f)
	bad := func(pos token.Pos, why string) bool {
		v.r.Bad("batch", id, v.p.Pos(pos), why)
		return false
	}
	role := map[string]int{}
	for i, a := range args {
		role[a.key] = i
	}
	if _, ok := role["$paths"]; !ok || d > 3 {
		return bad(f.Pos(), "the list of paths is not handed on")
	}
	t, why := v.n.tree(f, args, newVstate())
	if t == nil {
		return bad(f.Pos(), "what it returns cannot be worked out: "+why)
	}
	ok, loops := true, false
	var leaves func(t *vnode, facts map[string]bool)
	leaves = func(t *vnode, facts map[string]bool) {
		if t.cond != "" {
			for _, val := range []bool{true, false} {
				f2 := map[string]bool{t.cond: val}
				for k, x := range facts {
					f2[k] = x
				}
				if val {
					leaves(t.t, f2)
				} else {
					leaves(t.f, f2)
				}
			}
			return
		}
		v.cases++
		if t.loop != nil {
			loops = true
			return
		}
		for _, x := range t.res {
			if x.typ != nil && isErrorType(x.typ) {
				if isNil, known := nilUnder(x, facts); known && !isNil {
					return // fails
				}
			}
			if x.key == "panic" {
				ok = bad(f.Pos(), "it can panic")
				return
			}
		}
		if facts["(const:0==len($paths))"] || facts["(const:0==len($values))"] && facts["(len($paths)==len($values))"] {
			if len(t.res) > 0 && (t.res[0].key == "$doc" || fam.name == "Get" || fam.name == "Result.Get") {
				return
			}
		}
		// everything is handed to another function
		if len(t.res) > 0 && t.res[0].call != nil {
			g := t.res[0].call.Call.StaticCallee()
			if g != nil && v.p.InLib(g) {
				for i, x := range t.res {
					err := &vterm{key: fmt.Sprintf("%s#%d", strings.TrimSuffix(t.res[0].key, "#0"), i)}
					if isNil, _ := nilUnder(err, facts); x.key == "nil" && isNil {
						continue
					}
					if x.call != t.res[0].call || x.part != i {
						ok = bad(t.res[0].call.Pos(), "the results of "+v.p.shortName(g)+" are not handed back as they are")
						return
					}
				}
				if !v.batch(fam, g, t.res[0].args, d+1) {
					ok = false
				}
				return
			}
		}
		// no query can find anything here
		if len(t.res) == 1 && strings.HasPrefix(t.res[0].key, "make(") && strings.HasSuffix(t.res[0].key, ",len($paths))") {
			single, _ := v.single(fam, facts)
			if single != nil && onlyZero(single, facts) {
				return
			}
			ok = bad(f.Pos(), "it returns empty results where the single form does not")
			return
		}
		ok = bad(f.Pos(), "it returns without handling the paths: "+short(fmt.Sprint(keysOf(t.res))))
	}
	leaves(t, map[string]bool{})
	if !ok || !loops {
		if ok {
			v.r.OK("batch", id, "hands the paths on")
		}
		return ok
	}
	if why, pos := v.batchLoop(fam, f, args); why != "" {
		if !pos.IsValid() {
			pos = f.Pos()
		}
		return bad(pos, why)
	}
	v.r.OK("batch", id, "one "+fam.name+" for each path")
	return true
}

func keysOf(ts []*vterm) (out []string) {
	for _, t := range ts {
		out = append(out, t.key)
	}
	return
}

func (v *variants) single(fam *family, facts map[string]bool) (*vnode, string) {
	st := newVstate()
	for k, x := range facts {
		st.facts[k] = x
	}
	return v.n.tree(fam.basic, v.pathArgs(fam.basic), st)
}

// pathArgs are the arguments of the basic form in one turn of a batch.
func (v *variants) pathArgs(f *ssa.Function) []*vterm {
	args := v.args(f, nil)
	for _, a := range args {
		switch a.key {
		case "$path":
			a.key = "*$paths[$i]"
		case "$value":
			a.key = "*$values[$i]"
		}
	}
	return args
}

func onlyZero(t *vnode, facts map[string]bool) bool {
	t = evalNode(t, facts)
	if t.cond != "" {
		return onlyZero(t.t, facts) && onlyZero(t.f, facts)
	}
	return len(t.res) == 1 && zeroKey(t.res[0].key)
}

// batchLoop decides the loop of a batch form; "" if it is right.
func (v *variants) batchLoop(fam *family, f *ssa.Function, args []*vterm) (string, token.Pos) {
	base, why := v.single(fam, nil)
	if base == nil {
		return "the single form cannot be worked out: " + why, f.Pos()
	}
	param := map[ssa.Value]string{}
	for i, prm := range f.Params {
		param[prm] = args[i].key
	}
	loops := findLoops(f)
	b := &batchWalk{v: v, fam: fam, f: f, param: param, loops: loops}
	// the operation: a call in a loop that does what the single form does
	var diff string
	for _, l := range loops {
		for blk := range l.Body {
			for _, in := range blk.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := c.Call.StaticCallee()
				if g == nil || !v.p.InLib(g) || g.Blocks == nil {
					continue
				}
				if l2 := innermost(loops, blk); l2 != l {
					continue
				}
				terms, ok := b.terms(l, c)
				if !ok {
					continue
				}
				t, _ := v.n.tree(g, terms, newVstate())
				if t == nil {
					continue
				}
				cmp := &vcompare{errs: true}
				same := cmp.same(t, base, map[string]bool{})
				v.cases += cmp.n
				if !same {
					diff = cmp.diff
					continue
				}
				if b.op != nil {
					return "the operation is applied in more than one place", c.Pos()
				}
				b.op, b.loop = c, l
			}
		}
	}
	if b.op == nil {
		why := "no loop applies the single operation to each path"
		if diff != "" {
			why += " (" + diff + ")"
		}
		return why, f.Pos()
	}
	return b.decide()
}

func innermost(loops []*Loop, b *ssa.BasicBlock) *Loop {
	var in *Loop
	for _, l := range loops {
		if l.Body[b] && (in == nil || len(l.Body) < len(in.Body)) {
			in = l
		}
	}
	return in
}

type batchWalk struct {
	v     *variants
	fam   *family
	f     *ssa.Function
	param map[ssa.Value]string
	loops []*Loop
	op    *ssa.Call
	loop  *Loop
	doc   *ssa.Phi // the document as updated so far
}

// terms names the arguments of a call in the loop.
func (b *batchWalk) terms(l *Loop, c *ssa.Call) ([]*vterm, bool) {
	var out []*vterm
	for _, a := range c.Call.Args {
		k := b.term(l, a, 0)
		if k == "" {
			return nil, false
		}
		t := &vterm{key: k, typ: a.Type()}
		if cn, ok := a.(*ssa.Const); ok {
			t = konst(cn)
		}
		out = append(out, t)
	}
	return out, true
}

func (b *batchWalk) term(l *Loop, v ssa.Value, d int) string {
	if d > 8 {
		return ""
	}
	if k := b.param[v]; k != "" {
		return k
	}
	switch v := v.(type) {
	case *ssa.Const:
		return "const"
	case *ssa.Convert:
		if byteish(v.Type()) && byteish(v.X.Type()) {
			return b.term(l, v.X, d+1)
		}
	case *ssa.ChangeType:
		return b.term(l, v.X, d+1)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "Slice" {
			if dc, ok := v.Call.Args[0].(*ssa.Call); ok && len(dc.Call.Args) == 1 {
				return b.term(l, dc.Call.Args[0], d+1)
			}
		}
		if g := v.Call.StaticCallee(); g != nil && len(v.Call.Args) == 1 && b.sameText(g) {
			return b.term(l, v.Call.Args[0], d+1)
		}
		if b.distinct(v) {
			return "$paths"
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return ""
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			if sv, _ := soleStore(al); sv != nil {
				return b.term(l, sv, d+1)
			}
		}
		if ia, ok := v.X.(*ssa.IndexAddr); ok && b.index(l, ia.Index) {
			switch b.term(l, ia.X, d+1) {
			case "$paths":
				return "*$paths[$i]"
			case "$values":
				return "*$values[$i]"
			}
		}
	case *ssa.Phi:
		if v.Block() == l.Head {
			if b.index(l, v) {
				return "$i"
			}
			if byteish(v.Type()) {
				for i, e := range v.Edges {
					if !l.Body[l.Head.Preds[i]] && b.term(l, e, d+1) != "$doc" {
						return ""
					}
				}
				return "$doc"
			}
		}
		if b.distinct(v) {
			return "$paths"
		}
	}
	return ""
}

// sameText: the function returns the text it is given.
func (b *batchWalk) sameText(g *ssa.Function) bool {
	if !b.v.p.InLib(g) || len(g.Params) != 1 || !byteish(g.Params[0].Type()) {
		return false
	}
	t, _ := b.v.n.tree(g, []*vterm{{key: "$doc", typ: g.Params[0].Type()}}, newVstate())
	if t == nil {
		return false
	}
	var all func(t *vnode, empty bool) bool
	all = func(t *vnode, empty bool) bool {
		if t.cond != "" {
			return all(t.t, empty || t.cond == "(const:0==len($doc))") && all(t.f, empty)
		}
		return len(t.res) == 1 && (t.res[0].key == "$doc" || empty && zeroKey(t.res[0].key))
	}
	return all(t, false)
}

// index: v counts the turns of the loop from 0.
func (b *batchWalk) index(l *Loop, v ssa.Value) bool {
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
		// for range: -1 before the loop, +1 at the top of it
		if one, ok := constInt(bo.Y); ok && one == 1 {
			if phi, ok := bo.X.(*ssa.Phi); ok && phi.Block() == l.Head && bo.Block() == l.Head {
				for i, e := range phi.Edges {
					if l.Body[l.Head.Preds[i]] {
						if e != bo {
							return false
						}
					} else if s, ok := constInt(e); !ok || s != -1 {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != l.Head || !isInteger(phi.Type()) {
		return false
	}
	for i, e := range phi.Edges {
		if l.Body[l.Head.Preds[i]] {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
				return false
			}
			if one, ok := constInt(bo.Y); !ok || one != 1 {
				return false
			}
		} else if s, ok := constInt(e); !ok || s != 0 {
			return false
		}
	}
	return true
}

// everyPath: the loop runs once for each path and is left early only where the
// operation failed.
func (b *batchWalk) everyPath(l *Loop, op *ssa.Call) (string, token.Pos) {
	head := false
	for blk := range l.Body {
		for si, s := range blk.Succs {
			if l.Body[s] {
				continue
			}
			iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok {
				return "the loop is left unconditionally", token.NoPos
			}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok {
				x, y, o := bo.X, bo.Y, bo.Op
				if si == 0 {
					o = negate(o) // what holds when the loop goes on
				}
				if o == token.GTR {
					x, y, o = y, x, token.LSS
				}
				if (o == token.LSS || o == token.NEQ) && b.index(l, x) && b.pathCount(l, y) {
					head = true
					continue
				}
			}
			if op != nil && op.Block().Dominates(blk) && b.failed(iff.Cond, si == 0, op) {
				continue
			}
			return "the loop can end before all paths are handled", iff.Cond.Pos()
		}
	}
	if !head {
		return "the loop does not run over the paths", token.NoPos
	}
	return "", token.NoPos
}

func (b *batchWalk) pathCount(l *Loop, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "builtin.len" {
		return false
	}
	if mk, ok := c.Call.Args[0].(*ssa.MakeSlice); ok {
		return b.pathCount(l, mk.Len)
	}
	k := b.term(l, c.Call.Args[0], 0)
	return k == "$paths" || k == "$values"
}

// failed: the condition holds (as taken) only when the operation failed.
func (b *batchWalk) failed(cond ssa.Value, taken bool, op *ssa.Call) bool {
	for _, c := range expandCond(Cond{cond, taken, nil}) {
		bo, ok := c.Val.(*ssa.BinOp)
		if !ok {
			continue
		}
		if !(bo.Op == token.NEQ && c.Pos || bo.Op == token.EQL && !c.Pos) {
			continue
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if ex, ok := pair[0].(*ssa.Extract); ok && ex.Tuple == ssa.Value(op) && isErrorType(ex.Type()) && isNilConst(pair[1]) {
				return true
			}
		}
	}
	return false
}

func (b *batchWalk) decide() (string, token.Pos) {
	l, op := b.loop, b.op
	if l.Parent != nil {
		return "the operation is applied in a nested loop", op.Pos()
	}
	if why, pos := b.everyPath(l, op); why != "" {
		return why, pos
	}
	// every turn, except for paths seen before
	for _, la := range l.Latch {
		if op.Block().Dominates(la) {
			continue
		}
		if !b.onlySeenSkipped(l, op.Block()) {
			return "a path can be passed over", op.Pos()
		}
	}
	if b.fam.name == "Get" || b.fam.name == "Result.Get" {
		return b.collected()
	}
	return b.threaded()
}

// onlySeenSkipped: every way round the loop that avoids blk goes over an edge taken
// only for a path met before.
func (b *batchWalk) onlySeenSkipped(l *Loop, blk *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == blk || seen[x] {
			return true
		}
		seen[x] = true
		for si, s := range x.Succs {
			if !l.Body[s] {
				continue
			}
			if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok && b.seenBefore(l, iff.Cond, si == 0) {
				continue
			}
			if s == l.Head {
				return false
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(l.Head)
}

// seenBefore: the condition holds (as taken) only if the path is in a local set of
// paths, to which every handled path is added.
func (b *batchWalk) seenBefore(l *Loop, cond ssa.Value, taken bool) bool {
	for u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT; u, ok = cond.(*ssa.UnOp) {
		cond, taken = u.X, !taken
	}
	if !taken {
		return false
	}
	if c, ok := cond.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "Contains") && calleePkg(g) == "slices" && len(c.Call.Args) == 2 {
			if b.term(l, c.Call.Args[1], 0) != "*$paths[$i]" {
				return false
			}
			// among the paths already taken
			if phi, ok := c.Call.Args[0].(*ssa.Phi); ok && phi.Block() == l.Head {
				return b.takenList(l, phi)
			}
			if sl, ok := c.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High != nil {
				return b.term(l, sl.X, 0) == "$paths" && b.index(l, sl.High)
			}
		}
		return false
	}
	var lk *ssa.Lookup
	switch c := cond.(type) {
	case *ssa.Lookup:
		lk = c
	case *ssa.Extract:
		lk, _ = c.Tuple.(*ssa.Lookup)
		if c.Index != 1 {
			return false
		}
	}
	if lk == nil || b.term(l, lk.Index, 0) != "*$paths[$i]" {
		return false
	}
	mk, ok := lk.X.(*ssa.MakeMap)
	if !ok || l.Body[mk.Block()] {
		return false
	}
	for _, ref := range *mk.Referrers() {
		switch u := ref.(type) {
		case *ssa.MapUpdate:
			if u.Map != ssa.Value(mk) || b.term(l, u.Key, 0) != "*$paths[$i]" || !l.Body[u.Block()] {
				return false
			}
			if mp := mk.Type().Underlying().(*types.Map); types.Identical(mp.Elem().Underlying(), types.Typ[types.Bool]) {
				if tv, ok := constBool(u.Value); !ok || !tv {
					return false
				}
			}
		case *ssa.Lookup, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// takenList: phi is a list to which only paths of this loop are added.
func (b *batchWalk) takenList(l *Loop, phi *ssa.Phi) bool {
	ok := true
	seen := map[ssa.Value]bool{phi: true}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e)
			}
		case *ssa.Call:
			if calleeName(v.Common()) != "builtin.append" {
				ok = false
				return
			}
			walk(v.Call.Args[0])
			elems := varargs(v.Call.Args[1])
			if len(elems) != 1 || b.term(l, elems[0], 0) != "*$paths[$i]" {
				ok = false
			}
		default:
			ok = ok && emptyList(v)
		}
	}
	for _, e := range phi.Edges {
		walk(e)
	}
	return ok
}

func emptyList(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(v.Len)
		return ok && n == 0
	case *ssa.Slice:
		if v.High != nil {
			n, ok := constInt(v.High)
			return ok && n == 0
		}
		// make with constant sizes: a slice of a new array
		if al, ok := v.X.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return arr.Len() == 0
			}
		}
	}
	return false
}

// distinct: v is the list of the distinct paths, in order.
func (b *batchWalk) distinct(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !b.v.p.InLib(g) || g.Blocks == nil || !isStrings(v.Type()) {
			return false
		}
		in := &batchWalk{v: b.v, fam: b.fam, f: g, param: map[ssa.Value]string{}, loops: findLoops(g)}
		any := false
		for i, a := range v.Call.Args {
			if b.param[a] == "$paths" {
				in.param[g.Params[i]] = "$paths"
				any = true
			}
		}
		if !any {
			return false
		}
		n := 0
		for _, ret := range returnsOf(g) {
			if len(ret.Results) != 1 || !in.distinct(ret.Results[0]) && in.param[ret.Results[0]] != "$paths" {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.Phi:
		if !isStrings(v.Type()) {
			return false
		}
		for _, l := range b.loops {
			if l.Head != v.Block() {
				continue
			}
			if why, _ := b.everyPath(l, nil); why != "" || !b.takenList(l, v) {
				return false
			}
			// the append happens unless the path was met before
			for blk := range l.Body {
				for _, in := range blk.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || calleeName(c.Common()) != "builtin.append" || !isStrings(c.Type()) {
						continue
					}
					for _, la := range l.Latch {
						if !blk.Dominates(la) && !b.onlySeenSkipped(l, blk) {
							return false
						}
					}
				}
			}
			return true
		}
	}
	return false
}

// collected: the result of each query goes to its own place in what is returned.
func (b *batchWalk) collected() (string, token.Pos) {
	l, op := b.loop, b.op
	list := map[ssa.Value]bool{}
	stored := false
	for _, ref := range *op.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
			if _, ok := ia.X.(*ssa.Alloc); ok {
				continue // arguments of append
			}
			if !b.index(l, ia.Index) {
				return "a result is stored at another index than that of its path", st.Pos()
			}
			mk, ok := ia.X.(*ssa.MakeSlice)
			if !ok || !b.pathCount(l, mk.Len) {
				return "the list of results is not as long as that of the paths", st.Pos()
			}
			for _, la := range l.Latch {
				if !st.Block().Dominates(la) {
					return "a result is not always stored", st.Pos()
				}
			}
			list[mk] = true
			stored = true
		}
	}
	if !stored {
		// appended instead
		for _, in := range l.Head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			good, n := true, 0
			for i, e := range phi.Edges {
				if !l.Body[l.Head.Preds[i]] {
					good = good && emptyList(e)
					continue
				}
				c, ok := e.(*ssa.Call)
				if !ok || calleeName(c.Common()) != "builtin.append" || c.Call.Args[0] != ssa.Value(phi) {
					good = false
					continue
				}
				el := varargs(c.Call.Args[1])
				if len(el) != 1 || el[0] != ssa.Value(op) {
					good = false
					continue
				}
				n++
			}
			if good && n > 0 {
				list[phi] = true
				stored = true
			}
		}
	}
	if !stored {
		return "the result of the operation is not put into the list as it is", op.Pos()
	}
	// nothing else writes to the list
	bad := token.NoPos
	for v := range list {
		for _, ref := range *v.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Val != ssa.Value(op) {
						bad = st.Pos()
					}
				}
			}
		}
	}
	if bad.IsValid() {
		return "something else is stored among the results", bad
	}
	for _, ret := range returnsOf(b.f) {
		if !reachesFrom(l.Head, ret.Block()) {
			continue
		}
		if !list[ret.Results[0]] {
			return "what is returned is not the list of results", ret.Pos()
		}
	}
	return "", token.NoPos
}

func reachesFrom(a, b *ssa.BasicBlock) bool { return reachable(a, true)[b] }

// threaded: each operation works on what the one before returned, and the last
// document is returned.
func (b *batchWalk) threaded() (string, token.Pos) {
	l, op := b.loop, b.op
	var doc *ssa.Phi
	for _, a := range op.Call.Args {
		x := b.through(a)
		if phi, ok := x.(*ssa.Phi); ok && phi.Block() == l.Head && byteish(phi.Type()) {
			doc = phi
		}
	}
	if doc == nil {
		return "the operation does not work on the document updated so far", op.Pos()
	}
	for i, e := range doc.Edges {
		if !l.Body[l.Head.Preds[i]] {
			continue
		}
		if why, pos := b.carriedDoc(doc, e, l.Head.Preds[i], map[ssa.Value]bool{}); why != "" {
			return why, pos
		}
	}
	for _, ret := range returnsOf(b.f) {
		if !reachesFrom(l.Head, ret.Block()) || op.Block().Dominates(ret.Block()) && b.errReturn(ret) {
			continue
		}
		if b.errReturn(ret) {
			if b.failsWithOp(ret) {
				continue
			}
			return "it fails where no operation failed", ret.Pos()
		}
		if x := b.through(resultValue(ret, 0)); x != ssa.Value(doc) && !b.mergesTo(x, doc, b.failedEdges(ret), 0) {
			return "it does not return the document as last updated", ret.Pos()
		}
	}
	return "", token.NoPos
}

func (b *batchWalk) through(v ssa.Value) ssa.Value {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Convert:
			if !byteish(x.Type()) || !byteish(x.X.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// mergesTo: a merge of the document given and the one updated so far.
func (b *batchWalk) mergesTo(v ssa.Value, doc *ssa.Phi, dead map[[2]*ssa.BasicBlock]bool, d int) bool {
	v = b.through(v)
	if v == ssa.Value(doc) {
		return true
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || d > 3 {
		return false
	}
	for i, e := range phi.Edges {
		if !reachesFrom(b.loop.Head, phi.Block().Preds[i]) || dead[[2]*ssa.BasicBlock{phi.Block().Preds[i], phi.Block()}] {
			continue
		}
		if !b.mergesTo(e, doc, dead, d+1) {
			return false
		}
	}
	return true
}

// failedEdges are merges that a return behind a test for no error cannot come from.
func (b *batchWalk) failedEdges(ret *ssa.Return) map[[2]*ssa.BasicBlock]bool {
	out := map[[2]*ssa.BasicBlock]bool{}
	for _, c := range condsAt(ret.Block()) {
		bo, ok := c.Val.(*ssa.BinOp)
		if !ok || !isNilConst(bo.Y) || !(bo.Op == token.EQL && c.Pos || bo.Op == token.NEQ && !c.Pos) {
			continue
		}
		phi, ok := bo.X.(*ssa.Phi)
		if !ok || !isErrorType(phi.Type()) {
			continue
		}
		for i, e := range phi.Edges {
			if pred := phi.Block().Preds[i]; b.opFailed(e, pred, phi.Block()) {
				out[[2]*ssa.BasicBlock{pred, phi.Block()}] = true
			}
		}
	}
	return out
}

// opFailed: e is an error, and the edge is taken only when the operation failed.
func (b *batchWalk) opFailed(e ssa.Value, pred, to *ssa.BasicBlock) bool {
	if call, ok := e.(*ssa.Call); ok && !makesError(call.Common()) {
		return false
	} else if ex, is := e.(*ssa.Extract); !ok && (!is || ex.Tuple != ssa.Value(b.op)) {
		return false
	}
	for _, pc := range append(condsAt(pred), edgeConds(pred, to)...) {
		if b.failed(pc.Val, pc.Pos, b.op) {
			return true
		}
	}
	return false
}

// failsWithOp: the error returned is one of the operation, or nil.
func (b *batchWalk) failsWithOp(ret *ssa.Return) bool {
	phi, ok := resultValue(ret, len(ret.Results)-1).(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range phi.Edges {
		if isNilConst(e) || b.opFailed(e, phi.Block().Preds[i], phi.Block()) {
			continue
		}
		// the error of the turn before is nil where the loop goes on
		last, ok := e.(*ssa.Phi)
		if !ok || last.Block() != b.loop.Head {
			return false
		}
		for _, e2 := range last.Edges {
			if ex, is := e2.(*ssa.Extract); !isNilConst(e2) && (!is || ex.Tuple != ssa.Value(b.op)) {
				return false
			}
		}
	}
	return true
}

func (b *batchWalk) errReturn(ret *ssa.Return) bool {
	n := len(ret.Results)
	if n < 2 {
		return false
	}
	e := resultValue(ret, n-1)
	if isNilConst(e) {
		return false
	}
	for _, c := range condsAt(ret.Block()) {
		if bo, ok := c.Val.(*ssa.BinOp); ok && (bo.X == e && isNilConst(bo.Y)) {
			if bo.Op == token.EQL && c.Pos || bo.Op == token.NEQ && !c.Pos {
				return false
			}
		}
	}
	if phi, ok := e.(*ssa.Phi); ok && phi.Block() == b.loop.Head {
		// the error of the last operation, which is nil where the loop goes on
		return false
	}
	return true
}

func (b *batchWalk) carriedDoc(doc *ssa.Phi, v ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool) (string, token.Pos) {
	v = b.through(v)
	if seen[v] && v != ssa.Value(doc) {
		return "", token.NoPos
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Tuple == ssa.Value(b.op) && x.Index == 0 {
			return "", token.NoPos
		}
	case *ssa.Phi:
		if x == doc {
			if b.op.Block().Dominates(from) {
				return "the updated document can be dropped", b.op.Pos()
			}
			return "", token.NoPos
		}
		for i, e := range x.Edges {
			if why, pos := b.carriedDoc(doc, e, x.Block().Preds[i], seen); why != "" {
				return why, pos
			}
		}
		return "", token.NoPos
	}
	return "the document handed on is not the one the operation returned", b.op.Pos()
}

func init() { checks["C17"] = checkC17 }

func method(p *Program, typ, name string) *ssa.Function {
	for _, f := range p.entries {
		if f.Name() == name && f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), modPath, typ) {
			return f
		}
	}
	return nil
}
