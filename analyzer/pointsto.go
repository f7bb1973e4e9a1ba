package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inclusion-based, field-sensitive points-to analysis of the library. Strings are
// treated as pointers to the bytes they denote, so that sharing of text with a
// buffer is visible. Memory handed in by a caller of an entry point is one object
// per parameter and pointed-to type.

type objKind int

const (
	objAlloc  objKind = iota // allocated by the library
	objExt                   // handed in by a caller, or reachable from what was
	objGlobal                // a package-level variable
	objFunc                  // a function or closure
	objConst                 // a string constant
	objStd                   // made by a standard-library call
	objUser                  // made by code the user supplied
)

type ptObj struct {
	id    int
	kind  objKind
	site  ssa.Value
	fn    *ssa.Function
	typ   types.Type // type of the object's contents, nil if unknown
	root  string     // objExt: "Func.param"
	param types.Type // objExt: type of the parameter
	in    *ssa.Function
}

func (o *ptObj) String() string {
	switch o.kind {
	case objExt:
		return "memory handed in as " + o.root
	case objGlobal:
		return "package variable " + o.site.Name()
	case objFunc:
		return "function " + o.fn.Name()
	case objConst:
		return "constant"
	case objUser:
		return "memory made by user code"
	}
	if o.in != nil {
		return "memory allocated in " + o.in.Name()
	}
	return "memory"
}

type loc struct {
	o    *ptObj
	path string
}

type nodeKey struct {
	h    any // ssa.Value, *ptObj or *ssa.Function (results)
	path string
}

type ptNode struct {
	key nodeKey
	pts map[loc]nodeKey // and where each came from
}

type ptLeaf struct {
	path string
	typ  types.Type
}

// memWrite is one place where memory is written.
type memWrite struct {
	in   ssa.Instruction
	what string
	to   nodeKey // the pointer written through
	path string  // below what it points to
}

type pointsTo struct {
	p       *Program
	nodes   map[nodeKey]*ptNode
	objs    map[any]*ptObj
	nobj    int
	changed bool
	leafC   map[types.Type][]ptLeaf
	writes  []memWrite
	entry   map[*ssa.Function]bool
	userArg []userCall
	record  bool
	methods map[string][]*ssa.Function
	pools   map[nodeKey]bool // contents of a sync.Pool: owned by whoever took them out
}

// userCall: a value handed to code the user supplied.
type userCall struct {
	in   ssa.CallInstruction
	args []ssa.Value
}

// pointsTo analyses the library as called through the given entry points.
func (p *Program) pointsTo(entries []*ssa.Function) *pointsTo {
	t := &pointsTo{p: p, nodes: map[nodeKey]*ptNode{}, objs: map[any]*ptObj{}, leafC: map[types.Type][]ptLeaf{}, entry: map[*ssa.Function]bool{}, methods: map[string][]*ssa.Function{}, pools: map[nodeKey]bool{}}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil {
			t.methods[f.Name()] = append(t.methods[f.Name()], f)
		}
	}
	for _, e := range entries {
		t.entry[e] = true
		for _, prm := range e.Params {
			t.seedParam(e, prm)
		}
	}
	for round := 0; round < 60; round++ {
		t.changed = false
		for _, f := range p.Funcs {
			t.fn(f)
		}
		if !t.changed {
			break
		}
	}
	t.record = true
	for _, f := range p.Funcs {
		t.fn(f)
	}
	return t
}

func (t *pointsTo) node(h any, path string) *ptNode {
	k := nodeKey{h, path}
	n := t.nodes[k]
	if n == nil {
		n = &ptNode{key: k, pts: map[loc]nodeKey{}}
		t.nodes[k] = n
	}
	return n
}

func (t *pointsTo) add(n *ptNode, l loc, from nodeKey) {
	if _, ok := n.pts[l]; !ok {
		n.pts[l] = from
		t.changed = true
	}
}

func (t *pointsTo) copyNode(dst, src *ptNode) {
	if dst == src {
		return
	}
	for l := range src.pts {
		t.add(dst, l, src.key)
	}
}

// copyVal copies every pointer held in a value of the given type.
func (t *pointsTo) copyVal(dh any, dp string, sh any, sp string, typ types.Type) {
	for _, lf := range t.leaves(typ) {
		t.ensureExt(sh, sp+lf.path, lf.typ)
		t.copyNode(t.node(dh, dp+lf.path), t.node(sh, sp+lf.path))
	}
}

func (t *pointsTo) obj(key any, mk func() *ptObj) *ptObj {
	o := t.objs[key]
	if o == nil {
		o = mk()
		t.nobj++
		o.id = t.nobj
		t.objs[key] = o
	}
	return o
}

type extKey struct{ root, typ string }

func (t *pointsTo) ext(root string, param, typ types.Type) *ptObj {
	name := "any"
	if typ != nil {
		name = types.TypeString(typ, nil)
	}
	return t.obj(extKey{root, name}, func() *ptObj { return &ptObj{kind: objExt, root: root, param: param, typ: typ} })
}

// pointee is the type of what a pointer-like value points to.
func pointee(typ types.Type) types.Type {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return types.NewArray(u.Elem(), 0)
	case *types.Map:
		return u
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.NewArray(types.Typ[types.Byte], 0)
		}
	}
	return nil
}

func pointerLike(typ types.Type) bool {
	switch u := typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	}
	return false
}

func (t *pointsTo) leaves(typ types.Type) []ptLeaf {
	if l, ok := t.leafC[typ]; ok {
		return l
	}
	var out []ptLeaf
	switch {
	case pointerLike(typ):
		out = []ptLeaf{{"", typ}}
	default:
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				for _, l := range t.leaves(u.Field(i).Type()) {
					out = append(out, ptLeaf{fmt.Sprintf(".%d%s", i, l.path), l.typ})
				}
			}
		case *types.Array:
			for _, l := range t.leaves(u.Elem()) {
				out = append(out, ptLeaf{"[]" + l.path, l.typ})
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range t.leaves(u.At(i).Type()) {
					out = append(out, ptLeaf{fmt.Sprintf("#%d%s", i, l.path), l.typ})
				}
			}
		}
	}
	t.leafC[typ] = out
	return out
}

// ensureExt gives the contents of caller memory something to point to.
func (t *pointsTo) ensureExt(h any, path string, typ types.Type) {
	o, ok := h.(*ptObj)
	if !ok || o.kind != objExt && o.kind != objUser {
		return
	}
	n := t.node(o, path)
	c := t.ext(o.root, o.param, pointee(typ))
	if o.kind == objUser {
		c = o
	}
	t.add(n, loc{c, ""}, n.key)
}

func (t *pointsTo) seedParam(f *ssa.Function, prm *ssa.Parameter) {
	root := t.p.shortName(f) + "." + prm.Name()
	for _, lf := range t.leaves(prm.Type()) {
		o := t.ext(root, prm.Type(), pointee(lf.typ))
		t.add(t.node(prm, lf.path), loc{o, ""}, nodeKey{})
	}
}

// val makes sure constants, globals and functions have their node.
func (t *pointsTo) val(v ssa.Value) {
	switch v := v.(type) {
	case *ssa.Global:
		o := t.obj(v, func() *ptObj { return &ptObj{kind: objGlobal, site: v, typ: deref(v.Type())} })
		t.add(t.node(v, ""), loc{o, ""}, nodeKey{})
	case *ssa.Function:
		o := t.obj(v, func() *ptObj { return &ptObj{kind: objFunc, fn: v} })
		t.add(t.node(v, ""), loc{o, ""}, nodeKey{})
	case *ssa.Const:
		if v.Value != nil && isString(v.Type()) {
			o := t.obj("const", func() *ptObj { return &ptObj{kind: objConst} })
			t.add(t.node(v, ""), loc{o, ""}, nodeKey{})
		}
	}
}

func (t *pointsTo) locs(v ssa.Value) []loc { return t.locsAt(v, "") }

func (t *pointsTo) locsAt(h any, path string) []loc {
	if v, ok := h.(ssa.Value); ok {
		t.val(v)
	}
	n := t.node(h, path)
	out := make([]loc, 0, len(n.pts))
	for l := range n.pts {
		out = append(out, l)
	}
	return out
}

func (t *pointsTo) assign(dst ssa.Value, src ssa.Value) {
	t.val(src)
	t.copyVal(dst, "", src, "", dst.Type())
}

func (t *pointsTo) fresh(v ssa.Value, path string, typ types.Type, kind objKind) *ptObj {
	type key struct {
		v    ssa.Value
		path string
	}
	o := t.obj(key{v, path}, func() *ptObj {
		var in *ssa.Function
		if i, ok := v.(ssa.Instruction); ok {
			in = i.Parent()
		}
		return &ptObj{kind: kind, site: v, typ: typ, in: in}
	})
	t.add(t.node(v, path), loc{o, ""}, nodeKey{})
	return o
}

func (t *pointsTo) load(dst any, dp string, addr ssa.Value, below string, typ types.Type) {
	for _, l := range t.locs(addr) {
		if l.o.kind == objFunc || l.o.kind == objConst {
			continue
		}
		t.copyVal(dst, dp, l.o, l.path+below, typ)
	}
}

func (t *pointsTo) store(addr ssa.Value, below string, src any, sp string, typ types.Type) {
	if v, ok := src.(ssa.Value); ok {
		t.val(v)
	}
	for _, l := range t.locs(addr) {
		t.copyVal(l.o, l.path+below, src, sp, typ)
	}
}

func (t *pointsTo) write(in ssa.Instruction, what string, ptr ssa.Value, below string) {
	if t.record {
		t.val(ptr)
		t.writes = append(t.writes, memWrite{in, what, nodeKey{ptr, ""}, below})
	}
}

func (t *pointsTo) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.instr(f, in)
		}
	}
}

func fieldPath(i int) string { return fmt.Sprintf(".%d", i) }

func (t *pointsTo) instr(f *ssa.Function, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc:
		t.fresh(v, "", deref(v.Type()), objAlloc)
	case *ssa.MakeSlice:
		t.fresh(v, "", pointee(v.Type()), objAlloc)
	case *ssa.MakeMap:
		t.fresh(v, "", v.Type(), objAlloc)
	case *ssa.MakeChan:
		t.fresh(v, "", v.Type(), objAlloc)
	case *ssa.FieldAddr:
		for _, l := range t.locs(v.X) {
			t.add(t.node(v, ""), loc{l.o, t.sub(l, fieldPath(v.Field))}, nodeKey{v.X, ""})
		}
	case *ssa.IndexAddr:
		for _, l := range t.locs(v.X) {
			t.add(t.node(v, ""), loc{l.o, t.sub(l, "[]")}, nodeKey{v.X, ""})
		}
	case *ssa.Field:
		t.val(v.X)
		t.copyVal(v, "", v.X, fieldPath(v.Field), v.Type())
	case *ssa.Index:
		if !isString(v.X.Type()) {
			t.copyVal(v, "", v.X, "[]", v.Type())
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			t.load(v, "", v.X, "", v.Type())
		}
		if v.Op == token.ARROW {
			t.load(v, "", v.X, "[]", v.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.Store:
		t.store(v.Addr, "", v.Val, "", v.Val.Type())
		t.write(v, "store", v.Addr, "")
	case *ssa.Send:
		t.store(v.Chan, "[]", v.X, "", v.X.Type())
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.assign(v, e)
		}
	case *ssa.ChangeType:
		t.assign(v, v.X)
	case *ssa.ChangeInterface:
		t.assign(v, v.X)
	case *ssa.Convert:
		from, to := v.X.Type().Underlying(), v.Type().Underlying()
		_, fs := from.(*types.Slice)
		_, ts := to.(*types.Slice)
		switch {
		case fs && isString(v.Type()), ts && isString(v.X.Type()), isString(v.Type()) && !isString(v.X.Type()):
			t.fresh(v, "", pointee(v.Type()), objAlloc)
		case pointerLike(v.Type()):
			t.assign(v, v.X)
		}
	case *ssa.SliceToArrayPointer:
		t.assign(v, v.X)
	case *ssa.BinOp:
		if v.Op == token.ADD && isString(v.Type()) {
			// concatenation with an empty operand returns the other one
			if !neverEmpty(v.Y, 0) {
				t.assign(v, v.X)
			}
			if !neverEmpty(v.X, 0) {
				t.assign(v, v.Y)
			}
			t.fresh(v, "", pointee(v.Type()), objAlloc)
		}
	case *ssa.Slice:
		t.val(v.X)
		t.copyNode(t.node(v, ""), t.node(v.X, ""))
	case *ssa.MakeInterface:
		t.val(v.X)
		if pointerLike(v.X.Type()) {
			t.copyNode(t.node(v, ""), t.node(v.X, ""))
		} else {
			o := t.fresh(v, "", v.X.Type(), objAlloc)
			t.copyVal(o, "", v.X, "", v.X.Type())
		}
	case *ssa.TypeAssert:
		t.typeAssert(v)
	case *ssa.Extract:
		t.copyVal(v, "", v.Tuple, fmt.Sprintf("#%d", v.Index), v.Type())
	case *ssa.Lookup:
		m, ok := v.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		dp := ""
		if v.CommaOk {
			dp = "#0"
		}
		t.load(v, dp, v.X, "v", m.Elem())
	case *ssa.MapUpdate:
		m := v.Map.Type().Underlying().(*types.Map)
		t.store(v.Map, "k", v.Key, "", m.Key())
		t.store(v.Map, "v", v.Value, "", m.Elem())
		t.write(v, "map update", v.Map, "")
	case *ssa.Range:
		t.val(v.X)
		t.copyNode(t.node(v, ""), t.node(v.X, ""))
	case *ssa.Next:
		if v.IsString {
			return
		}
		rg, ok := v.Iter.(*ssa.Range)
		if !ok {
			return
		}
		if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
			t.load(v, "#1", rg, "k", m.Key())
			t.load(v, "#2", rg, "v", m.Elem())
		}
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		o := t.obj(v, func() *ptObj { return &ptObj{kind: objFunc, fn: fn, site: v} })
		t.add(t.node(v, ""), loc{o, ""}, nodeKey{})
		for i, b := range v.Bindings {
			t.assign(fn.FreeVars[i], b)
		}
	case *ssa.Return:
		for i, r := range v.Results {
			t.val(r)
			t.copyVal(f, fmt.Sprintf("#%d", i), r, "", r.Type())
		}
	case ssa.CallInstruction:
		t.call(f, v)
	}
}

// neverEmpty: the text has at least one character.
func neverEmpty(v ssa.Value, d int) bool {
	if s, ok := constString(v); ok {
		return s != ""
	}
	b, ok := v.(*ssa.BinOp)
	return ok && d < 20 && b.Op == token.ADD && (neverEmpty(b.X, d+1) || neverEmpty(b.Y, d+1))
}

// sub extends the path of a location; memory of unknown layout is one cell.
func (t *pointsTo) sub(l loc, s string) string {
	if l.o.kind == objUser || l.o.kind == objStd || l.o.kind == objExt && l.o.typ == nil {
		return ""
	}
	return l.path + s
}

func (t *pointsTo) typeAssert(v *ssa.TypeAssert) {
	dp := ""
	if v.CommaOk {
		dp = "#0"
	}
	t.val(v.X)
	typ := v.AssertedType
	if _, ok := typ.Underlying().(*types.Interface); ok {
		t.copyNode(t.node(v, dp), t.node(v.X, ""))
		return
	}
	for l := range t.node(v.X, "").pts {
		if l.o.kind == objExt && l.o.typ == nil {
			// any value handed in: its contents by type
			if pointerLike(typ) {
				t.add(t.node(v, dp), loc{t.ext(l.o.root, l.o.param, pointee(typ)), ""}, nodeKey{v.X, ""})
			} else {
				box := t.ext(l.o.root, l.o.param, typ)
				t.copyVal(v, dp, box, "", typ)
			}
			continue
		}
		if pointerLike(typ) {
			if t.fits(l, typ) {
				t.add(t.node(v, dp), l, nodeKey{v.X, ""})
			}
		} else if l.o.typ == nil || types.Identical(l.o.typ, typ) {
			t.copyVal(v, dp, l.o, l.path, typ)
		}
	}
}

// fits: the location may be what a value of the type points to.
func (t *pointsTo) fits(l loc, typ types.Type) bool {
	if l.o.kind == objFunc {
		_, ok := typ.Underlying().(*types.Signature)
		return ok
	}
	if l.o.kind == objConst {
		return isString(typ)
	}
	if l.o.typ == nil || l.path != "" {
		return true
	}
	want := pointee(typ)
	if want == nil {
		return true
	}
	if wa, ok := want.Underlying().(*types.Array); ok {
		ha, ok := l.o.typ.Underlying().(*types.Array)
		return ok && types.Identical(wa.Elem(), ha.Elem())
	}
	if _, ok := want.Underlying().(*types.Map); ok {
		return types.Identical(want, l.o.typ.Underlying())
	}
	return types.Identical(want, l.o.typ)
}

func (t *pointsTo) bindCall(call ssa.CallInstruction, callee *ssa.Function, args []ssa.Value) {
	for i, prm := range callee.Params {
		if i < len(args) {
			t.assign(prm, args[i])
		}
	}
	if v := call.Value(); v != nil {
		res := callee.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			t.copyVal(v, "", callee, "#0", res.At(0).Type())
		default:
			t.copyVal(v, "", callee, "", v.Type())
		}
	}
}

func (t *pointsTo) call(f *ssa.Function, call ssa.CallInstruction) {
	c := call.Common()
	for _, a := range c.Args {
		t.val(a)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		t.builtin(call, b.Name(), c.Args)
		return
	}
	if g := c.StaticCallee(); g != nil {
		if t.p.InLib(g) && g.Blocks != nil {
			t.bindCall(call, g, c.Args)
		} else {
			t.std(call, g)
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		return
	}
	if c.IsInvoke() {
		t.val(c.Value)
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		args := append([]ssa.Value{c.Value}, c.Args...)
		for _, m := range t.methods[c.Method.Name()] {
			if it != nil && m.Synthetic == "" && (types.Implements(m.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(m.Signature.Recv().Type()), it)) {
				t.bindCall(call, m, args)
			}
		}
		if !isErrorType(c.Value.Type()) {
			t.user(call, args)
		}
		return
	}
	t.val(c.Value)
	ext := false
	for l := range t.node(c.Value, "").pts {
		switch {
		case l.o.kind == objFunc && l.o.fn.Blocks != nil && t.p.InLib(l.o.fn):
			t.bindCall(call, l.o.fn, c.Args)
		case l.o.kind == objFunc:
			t.std(call, l.o.fn)
		default:
			ext = true
		}
	}
	if ext {
		t.user(call, c.Args)
	}
}

// user: the call runs code supplied by the user. It may return what it got or
// something of its own.
func (t *pointsTo) user(call ssa.CallInstruction, args []ssa.Value) {
	if t.record {
		t.userArg = append(t.userArg, userCall{call, args})
	}
	v := call.Value()
	if v == nil {
		return
	}
	o := t.obj("user", func() *ptObj { return &ptObj{kind: objUser, root: "user code"} })
	for _, lf := range t.leaves(v.Type()) {
		t.add(t.node(v, lf.path), loc{o, ""}, nodeKey{})
	}
	for _, a := range args {
		if types.Identical(a.Type(), v.Type()) {
			t.assign(v, a)
		}
	}
}

func (t *pointsTo) builtin(call ssa.CallInstruction, name string, args []ssa.Value) {
	v := call.Value()
	switch name {
	case "append":
		sl, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		t.copyNode(t.node(v, ""), t.node(args[0], ""))
		o := t.fresh(v, "", pointee(v.Type()), objAlloc)
		t.load(o, "[]", args[0], "[]", sl.Elem())
		if len(args) > 1 && !isString(args[1].Type()) {
			for _, l := range t.locs(v) {
				t.load(l.o, l.path+"[]", args[1], "[]", sl.Elem())
			}
		}
		t.write(call, "append", args[0], "[]")
	case "copy":
		if sl, ok := args[0].Type().Underlying().(*types.Slice); ok && !isString(args[1].Type()) {
			for _, l := range t.locs(args[0]) {
				t.load(l.o, l.path+"[]", args[1], "[]", sl.Elem())
			}
		}
		t.write(call, "copy", args[0], "[]")
	case "delete", "clear":
		t.write(call, name, args[0], "")
	case "Slice", "String", "StringData", "SliceData", "Add":
		if v != nil && len(args) > 0 {
			t.copyNode(t.node(v, ""), t.node(args[0], ""))
		}
	case "min", "max":
		for _, a := range args {
			t.assign(v, a)
		}
	case "recover":
		t.fresh(v, "", nil, objStd)
	}
}

// std models a standard-library call: what its results may share memory with and
// what it writes to.
func (t *pointsTo) std(call ssa.CallInstruction, g *ssa.Function) {
	c := call.Common()
	if o := g.Origin(); o != nil {
		g = o
	}
	pkg, name := calleePkg(g), g.Name()
	v := call.Value()
	args := c.Args
	mutates, aliases := stdModel(pkg, name, g.Signature)
	if pkg == "bytes" && t.buffer(call, name, g.Signature) {
		return
	}
	if mutates && len(args) > 0 {
		t.write(call, pkg+"."+name, args[0], "[]")
	}
	// callbacks run with elements of the arguments
	for _, a := range args {
		for l := range t.node(a, "").pts {
			if l.o.kind == objFunc && t.p.InLib(l.o.fn) {
				for _, prm := range l.o.fn.Params {
					for _, b := range args {
						if sl, ok := b.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), prm.Type()) {
							t.load(prm, "", b, "[]", prm.Type())
						}
					}
				}
			}
		}
	}
	if v == nil {
		return
	}
	lvs := t.leaves(v.Type())
	for _, lf := range lvs {
		kind := objStd
		o := t.fresh(v, lf.path, nil, kind)
		_ = o
		if !aliases {
			continue
		}
		for _, a := range args {
			for _, al := range t.leaves(a.Type()) {
				switch {
				case sharesElems(lf.typ, al.typ):
					t.copyNode(t.node(v, lf.path), t.node(a, al.path))
				case nestedElems(lf.typ, al.typ):
					// a list of parts of the argument
					n := t.node(o, "")
					t.copyNode(n, t.node(a, al.path))
				case nestedElems(al.typ, lf.typ):
					for l := range t.node(a, al.path).pts {
						t.copyVal(v, lf.path, l.o, l.path+"[]", lf.typ)
					}
				}
			}
		}
	}
	// containers of the standard library keep what is put into them
	if recv := g.Signature.Recv(); recv != nil && len(args) > 0 && pkg == "sync" {
		for _, l := range t.locs(args[0]) {
			if isNamed(deref(recv.Type()), "sync", "Pool") {
				t.pools[nodeKey{l.o, l.path + "$in"}] = true
			}
			for _, a := range args[1:] {
				for _, al := range t.leaves(a.Type()) {
					t.copyNode(t.node(l.o, l.path+"$in"), t.node(a, al.path))
				}
			}
			for _, lf := range lvs {
				if _, ok := lf.typ.Underlying().(*types.Interface); ok {
					t.copyNode(t.node(v, lf.path), t.node(l.o, l.path+"$in"))
				}
			}
		}
	}
}

// buffer models bytes.Buffer, which writes into the slice it was made from.
func (t *pointsTo) buffer(call ssa.CallInstruction, name string, sig *types.Signature) bool {
	args, v := call.Common().Args, call.Value()
	if sig.Recv() == nil {
		if name != "NewBuffer" {
			return false
		}
		o := t.fresh(v, "", nil, objStd)
		t.copyNode(t.node(o, "$buf"), t.node(args[0], ""))
		return true
	}
	if !isNamed(deref(sig.Recv().Type()), "bytes", "Buffer") {
		return false
	}
	for _, l := range t.locs(args[0]) {
		buf := t.node(l.o, l.path+"$buf")
		switch {
		case strings.HasPrefix(name, "Write"), name == "ReadFrom", name == "Grow":
			if t.record {
				t.writes = append(t.writes, memWrite{call, "(*bytes.Buffer)." + name, buf.key, "[]"})
			}
		case name == "Bytes", name == "Next", name == "AvailableBuffer":
			t.copyNode(t.node(v, ""), buf)
		}
	}
	if v != nil {
		for _, lf := range t.leaves(v.Type()) {
			t.fresh(v, lf.path, nil, objStd)
		}
	}
	return true
}

func byteish(t types.Type) bool { return isString(t) || isByteSlice(t) }

func sharesElems(a, b types.Type) bool {
	if byteish(a) && byteish(b) {
		return true
	}
	return types.Identical(a.Underlying(), b.Underlying())
}

// nestedElems: the elements of the list type a may share memory with b.
func nestedElems(a, b types.Type) bool {
	sl, ok := a.Underlying().(*types.Slice)
	return ok && pointerLike(sl.Elem()) && sharesElems(sl.Elem(), b)
}

func stdModel(pkg, name string, sig *types.Signature) (mutates, aliases bool) {
	has := func(list ...string) bool {
		for _, l := range list {
			if name == l || strings.HasSuffix(l, "*") && strings.HasPrefix(name, strings.TrimSuffix(l, "*")) {
				return true
			}
		}
		return false
	}
	switch pkg {
	case "strings":
		if sig.Recv() != nil && isNamed(deref(sig.Recv().Type()), "strings", "Builder") {
			return false, false
		}
		return false, !has("Clone", "NewReader", "NewReplacer")
	case "bytes":
		if sig.Recv() != nil {
			return false, false
		}
		return false, !has("Clone", "ToLower", "ToUpper", "ToTitle", "Title", "Repeat", "Join", "Replace", "ReplaceAll", "Map", "Runes", "NewReader", "ToValidUTF8")
	case "sort":
		return has("Slice", "SliceStable", "Strings", "Ints", "Float64s", "Sort", "Stable"), has("Reverse", "StringSlice", "IntSlice")
	case "slices":
		return has("Sort*", "Reverse", "Insert", "Delete", "DeleteFunc", "Replace", "Compact*", "Grow"), !has("Clone", "Concat", "Repeat", "Collect", "Sorted*")
	case "maps":
		return has("Copy", "DeleteFunc", "Insert"), false
	case "unsafe":
		return false, true
	case "fmt", "strconv", "unicode/utf8":
		ap := has("Append*")
		return ap, ap
	case "io":
		return has("ReadFull", "ReadAtLeast", "CopyBuffer"), false
	case "reflect":
		return has("Set*", "Swapper"), true
	case "encoding/binary":
		return has("Put*", "Append*"), has("Append*")
	}
	if sig.Recv() != nil && has("Read", "ReadAt", "ReadFull") {
		return true, false
	}
	return false, false
}

// trace lists how a location came to be in a node.
func (t *pointsTo) trace(n nodeKey, l loc) []string {
	var out []string
	seen := map[nodeKey]bool{}
	for i := 0; i < 40; i++ {
		if seen[n] {
			break
		}
		seen[n] = true
		d := t.describe(n)
		if d != "" && (len(out) == 0 || out[len(out)-1] != d) {
			out = append(out, d)
		}
		node := t.nodes[n]
		if node == nil {
			break
		}
		from, ok := node.pts[l]
		if !ok {
			// the location was extended on the way
			best := ""
			for k, fr := range node.pts {
				if k.o == l.o && strings.HasPrefix(l.path, k.path) && len(k.path) >= len(best) {
					best, from, ok = k.path, fr, true
				}
			}
			if !ok {
				break
			}
			l.path = best
		}
		if from == (nodeKey{}) {
			break
		}
		n = from
	}
	// from the origin to here
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (t *pointsTo) describe(n nodeKey) string {
	switch h := n.h.(type) {
	case *ssa.Parameter:
		return t.p.shortName(h.Parent()) + " parameter " + h.Name()
	case *ssa.FreeVar:
		return t.p.shortName(h.Parent()) + " captured " + h.Name()
	case ssa.Instruction:
		if v, ok := h.(ssa.Value); ok && h.Pos().IsValid() {
			return t.p.At(h) + " " + t.p.shortName(h.Parent()) + " " + v.Name()
		}
	case *ssa.Function:
		return "result of " + t.p.shortName(h)
	case *ptObj:
		return "stored in " + h.String()
	}
	return ""
}

// reach returns every object reachable from the given locations.
func (t *pointsTo) reach(start []loc) map[*ptObj]bool {
	byObj := map[*ptObj][]*ptNode{}
	for _, n := range t.nodes {
		if o, ok := n.key.h.(*ptObj); ok {
			byObj[o] = append(byObj[o], n)
		}
	}
	out := map[*ptObj]bool{}
	var stack []*ptObj
	push := func(o *ptObj) {
		if !out[o] {
			out[o] = true
			stack = append(stack, o)
		}
	}
	for _, l := range start {
		push(l.o)
	}
	for len(stack) > 0 {
		o := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, n := range byObj[o] {
			if t.pools[n.key] {
				continue
			}
			for l := range n.pts {
				push(l.o)
			}
		}
	}
	return out
}

func sortedObjs(m map[*ptObj]bool) []*ptObj {
	out := make([]*ptObj, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
