package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Text provenance. Every text (string, bytes, character) carries the set of kinds
// it can be made of. Kinds flow through copies, parts, concatenations, fields
// (one per struct type), and containers (unified when one is assigned to the
// other). A function's result is summarised over its parameters, so that a helper
// used for different kinds of text does not mix them.

type kind uint16

const (
	kSource  kind = 1 << iota // document text as written, special characters encoded
	kDecoded                  // text decoded from a document
	kUser                     // plain text value given by the caller
	kName                     // part of a path
	kRaw                      // value given as raw bytes
	kEncoded                  // encoded by the library
	kConst                    // from the program itself, or a number
	kFilter                   // the value a filter compares with
)

var kindNames = []struct {
	k kind
	s string
}{{kSource, "document source text"}, {kDecoded, "decoded text"}, {kUser, "a plain text value"}, {kName, "path text"}, {kRaw, "a raw value"}, {kEncoded, "encoded text"}, {kConst, "constant text"}, {kFilter, "a filter value"}}

func (k kind) String() string {
	var out []string
	for _, n := range kindNames {
		if k&n.k != 0 {
			out = append(out, n.s)
		}
	}
	return strings.Join(out, ", ")
}

// label is a set of kinds, with the parameters whose kinds are included.
type label struct {
	kinds kind
	prm   map[*ssa.Parameter]bool
	wrap  map[wrapKey]bool // encoded or decoded parameters
	outs  map[any]bool     // buffers the text was built in
	from  map[kind]token.Pos
}

// wrapKey is a parameter's text after encoding or decoding.
type wrapKey struct {
	p   *ssa.Parameter
	enc bool
}

type fieldKey struct {
	typ   string
	index int
}

type partKey struct {
	class any
	key   bool
}

type labels struct {
	p       *Program
	at      map[any]*label
	parent  map[any]any // union-find of containers
	ret     map[*ssa.Function][]*label
	global  map[*ssa.Parameter]*label
	changed bool
	outs    map[any]bool                 // buffers whose contents become the document
	enc     map[*ssa.Global]replaceTable // tables
	coders  map[*ssa.Function]int        // 1 encodes, -1 decodes
	inits   map[*ssa.Function]bool

	filterValue, resultRaw, resultStr, parserData fieldKey
}

type replaceTable struct {
	pairs map[string]string
	pos   token.Pos
	enc   bool
	dec   bool
}

// the special characters and their encoded forms
var specials = map[string]string{"&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&quot;", "'": "&apos;"}

func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString, types.Uint8, types.Int32, types.UntypedRune:
			return true
		}
	case *types.Slice:
		return isByteSlice(t)
	case *types.Interface:
		return !isErrorType(t)
	}
	return false
}

// container: holds texts that are changed in place.
func container(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return textual(u.Key()) || textual(u.Elem()) || container(u.Elem())
	case *types.Slice:
		return textual(u.Elem()) || container(u.Elem())
	case *types.Array:
		return textual(u.Elem()) || container(u.Elem())
	case *types.Pointer:
		return textual(u.Elem()) || container(u.Elem()) || isBuffer(u.Elem())
	}
	return isBuffer(t)
}

func isBuffer(t types.Type) bool {
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer")
}

func (l *labels) find(v any) any {
	for l.parent[v] != nil {
		v = l.parent[v]
	}
	return v
}

func (l *labels) union(a, b any) {
	a, b = l.find(a), l.find(b)
	if a == b {
		return
	}
	l.parent[a] = b
	l.changed = true
	for _, k := range []bool{false, true} {
		if x := l.at[partKey{a, k}]; x != nil {
			l.add(partKey{b, k}, x)
		}
	}
	if l.outs[a] {
		l.outs[b] = true
	}
}

func (l *labels) node(k any) *label {
	x := l.at[k]
	if x == nil {
		x = &label{}
		l.at[k] = x
	}
	return x
}

func (x *label) clone() *label {
	o := &label{kinds: x.kinds}
	for p := range x.prm {
		if o.prm == nil {
			o.prm = map[*ssa.Parameter]bool{}
		}
		o.prm[p] = true
	}
	for p := range x.wrap {
		if o.wrap == nil {
			o.wrap = map[wrapKey]bool{}
		}
		o.wrap[p] = true
	}
	for p := range x.outs {
		if o.outs == nil {
			o.outs = map[any]bool{}
		}
		o.outs[p] = true
	}
	for k, p := range x.from {
		if o.from == nil {
			o.from = map[kind]token.Pos{}
		}
		o.from[k] = p
	}
	return o
}

func (x *label) merge(y *label) bool {
	ch := false
	if y == nil {
		return false
	}
	if x.kinds|y.kinds != x.kinds {
		for k, p := range y.from {
			if x.kinds&k == 0 {
				if x.from == nil {
					x.from = map[kind]token.Pos{}
				}
				x.from[k] = p
			}
		}
		x.kinds |= y.kinds
		ch = true
	}
	for p := range y.prm {
		if !x.prm[p] {
			if x.prm == nil {
				x.prm = map[*ssa.Parameter]bool{}
			}
			x.prm[p] = true
			ch = true
		}
	}
	for p := range y.wrap {
		if !x.wrap[p] {
			if x.wrap == nil {
				x.wrap = map[wrapKey]bool{}
			}
			x.wrap[p] = true
			ch = true
		}
	}
	for p := range y.outs {
		if !x.outs[p] {
			if x.outs == nil {
				x.outs = map[any]bool{}
			}
			x.outs[p] = true
			ch = true
		}
	}
	return ch
}

func (l *labels) add(k any, y *label) {
	if l.node(k).merge(y) {
		l.changed = true
	}
}

func kindAt(k kind, pos token.Pos) *label {
	return &label{kinds: k, from: map[kind]token.Pos{k: pos}}
}

// recode is the label of text after encoding or decoding it.
func recode(x *label, enc bool, pos token.Pos) *label {
	o := &label{outs: x.outs}
	set := func(k kind) {
		o.kinds |= k
		if o.from == nil {
			o.from = map[kind]token.Pos{}
		}
		o.from[k] = pos
	}
	if enc {
		if x.kinds&^kConst != 0 {
			set(kEncoded)
		}
	} else if x.kinds&^kConst != 0 {
		set(kDecoded)
	}
	if x.kinds&kConst != 0 {
		set(kConst)
	}
	for p := range x.prm {
		if o.wrap == nil {
			o.wrap = map[wrapKey]bool{}
		}
		o.wrap[wrapKey{p, enc}] = true
	}
	for w := range x.wrap {
		if o.wrap == nil {
			o.wrap = map[wrapKey]bool{}
		}
		o.wrap[wrapKey{w.p, enc}] = true
	}
	return o
}

// subst puts the labels of the arguments into the summary of a callee.
func (l *labels) subst(sum *label, callee *ssa.Function, args []*label, pos token.Pos) *label {
	o := sum.clone()
	o.prm, o.wrap = nil, nil
	arg := func(p *ssa.Parameter) *label {
		for i, q := range callee.Params {
			if q == p && i < len(args) {
				return args[i]
			}
		}
		return nil
	}
	for p := range sum.prm {
		if p.Parent() == callee {
			if a := arg(p); a != nil {
				o.merge(a)
			}
		} else {
			o.merge(&label{prm: map[*ssa.Parameter]bool{p: true}})
		}
	}
	for w := range sum.wrap {
		if w.p.Parent() == callee {
			if a := arg(w.p); a != nil {
				o.merge(recode(a, w.enc, pos))
			}
		} else {
			o.merge(&label{wrap: map[wrapKey]bool{w: true}})
		}
	}
	return o
}

// resolve replaces parameters by what callers pass.
func (l *labels) resolve(x *label) *label {
	o := &label{kinds: x.kinds, from: x.from, outs: x.outs}
	o = o.clone()
	for p := range x.prm {
		if g := l.global[p]; g != nil {
			o.merge(&label{kinds: g.kinds, from: g.from})
		}
	}
	for w := range x.wrap {
		if g := l.global[w.p]; g != nil {
			r := recode(g, w.enc, w.p.Pos())
			o.merge(&label{kinds: r.kinds, from: r.from})
		}
	}
	return o
}

// val is the label of a text value.
func (l *labels) val(v ssa.Value) *label {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return &label{}
		}
		return kindAt(kConst, x.Pos())
	case *ssa.Parameter:
		o := &label{}
		if textual(x.Type()) {
			o.prm = map[*ssa.Parameter]bool{x: true}
		}
		if isByteSlice(x.Type()) {
			o.merge(l.at[partKey{l.find(x), false}])
		}
		return o
	}
	if isByteSlice(v.Type()) {
		return l.node(partKey{l.find(v), false})
	}
	return l.node(v)
}

// put records the label of a text value.
func (l *labels) put(v ssa.Value, x *label) {
	if isByteSlice(v.Type()) {
		l.add(partKey{l.find(v), false}, x)
		return
	}
	l.add(v, x)
}

// hold names a container or place: the class a value belongs to.
func (l *labels) hold(v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return l.find(l.fieldOf(x.X.Type(), x.Field))
	case *ssa.ChangeType:
		return l.hold(x.X)
	case *ssa.MakeInterface:
		return l.hold(x.X)
	}
	return l.find(v)
}

func (l *labels) fieldOf(t types.Type, i int) fieldKey {
	return fieldKey{types.TypeString(deref(t), nil), i}
}

// same makes two values share contents, or lets the text of one flow to the other.
func (l *labels) flow(dst, src ssa.Value) {
	if c, ok := src.(*ssa.Const); ok && c.Value == nil {
		return
	}
	t := dst.Type()
	if isByteSlice(t) || container(t) {
		if isByteSlice(src.Type()) || container(src.Type()) {
			l.union(l.hold(dst), l.hold(src))
		}
		if _, ok := src.(*ssa.Parameter); ok && isByteSlice(src.Type()) {
			l.put(dst, l.val(src))
		}
		return
	}
	if textual(t) {
		l.put(dst, l.val(src))
	}
}

func newLabels(p *Program) *labels {
	l := &labels{p: p, at: map[any]*label{}, parent: map[any]any{}, ret: map[*ssa.Function][]*label{}, global: map[*ssa.Parameter]*label{}, outs: map[any]bool{}, enc: map[*ssa.Global]replaceTable{}, coders: map[*ssa.Function]int{}, inits: p.initFuncs()}
	l.filterValue = l.named("Filter", "Value")
	l.resultRaw = l.named("Result", "Raw")
	l.resultStr = l.named("Result", "Str")
	l.parserData = l.named("xmlParser", "data")
	l.tables()
	for _, f := range p.Funcs {
		l.coders[f] = l.coder(f)
	}
	for _, e := range p.entries {
		l.entry(e)
	}
	for round := 0; round < 3; round++ {
		for i := 0; i < 60; i++ {
			l.changed = false
			for _, f := range p.Funcs {
				l.fn(f)
			}
			if !l.changed {
				break
			}
		}
		// which buffers become documents
		more := false
		for _, e := range p.entries {
			if !returnsDoc(e) || len(l.ret[e]) == 0 {
				continue
			}
			for o := range l.ret[e][0].outs {
				if o = l.find(o); !l.outs[o] {
					l.outs[o] = true
					more = true
				}
			}
		}
		if !more {
			break
		}
		// contents of a document buffer are document text from now on
		keep := l.outs
		for k := range l.at {
			delete(l.at, k)
		}
		l.ret, l.global = map[*ssa.Function][]*label{}, map[*ssa.Parameter]*label{}
		l.outs = keep
		for _, e := range p.entries {
			l.entry(e)
		}
	}
	return l
}

// named is the key of a field, or a key of nothing if there is no such field.
func (l *labels) named(typ, field string) fieldKey {
	o := l.p.Root.Pkg.Scope().Lookup(typ)
	if o == nil {
		return fieldKey{"", -2}
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return fieldKey{"", -2}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return fieldKey{types.TypeString(o.Type(), nil), i}
		}
	}
	return fieldKey{"", -2}
}

// ofAttribute: the field is of a result that is an attribute value.
func (l *labels) ofAttribute(a *ssa.FieldAddr) bool {
	c, ok := l.p.Root.Pkg.Scope().Lookup("Attribute").(*types.Const)
	if !ok {
		return false
	}
	for _, ref := range *a.X.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fa.X != a.X {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				if k, ok := st.Val.(*ssa.Const); ok && types.Identical(k.Type(), c.Type()) && k.Value != nil && k.Value.ExactString() == c.Val().ExactString() {
					return true
				}
			}
		}
	}
	return false
}

// returnsDoc: the entry point takes a document and returns one.
func returnsDoc(e *ssa.Function) bool {
	rs := e.Signature.Results()
	return rs.Len() == 2 && byteish(rs.At(0).Type()) && isErrorType(rs.At(1).Type()) && len(e.Params) > 1 && textParam(e.Params[0].Type()) && e.Signature.Recv() == nil
}

// entry gives the parameters of an entry point their kinds.
func (l *labels) entry(e *ssa.Function) {
	for i, prm := range e.Params {
		t := prm.Type()
		k := kName
		switch {
		case e.Signature.Recv() != nil && i == 0:
			continue
		case i == 0 && textParam(t):
			k = kSource
			if e.Signature.Params().Len() == 1 && e.Signature.Results().Len() > 0 && isNamed(deref(e.Signature.Results().At(0).Type()), modPath, "Result") {
				k = kSource
			}
		case isValues(t):
			k = kUser
		case textual(t) && !byteish(t):
			k = kUser
		case i >= 2 && byteish(t):
			k = kRaw
		}
		x := kindAt(k, prm.Pos())
		switch {
		case textual(t):
			if l.global[prm] == nil {
				l.global[prm] = &label{}
			}
			l.global[prm].merge(x)
			if isByteSlice(t) {
				l.add(partKey{l.find(prm), false}, x)
			}
		case container(t):
			l.add(partKey{l.find(prm), false}, x)
		}
	}
}

func (l *labels) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			l.instr(f, in)
		}
	}
}

func (l *labels) instr(f *ssa.Function, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			l.flow(v, e)
		}
	case *ssa.ChangeType:
		l.flow(v, v.X)
	case *ssa.ChangeInterface:
		l.flow(v, v.X)
	case *ssa.Convert:
		if textual(v.Type()) && textual(v.X.Type()) {
			if isByteSlice(v.Type()) && isByteSlice(v.X.Type()) {
				l.flow(v, v.X)
			} else {
				l.put(v, l.val(v.X))
			}
		}
	case *ssa.MakeInterface:
		// a character as a value is a number
		if textual(v.X.Type()) && !isCharType(v.X.Type()) {
			l.put(v, l.val(v.X))
		}
	case *ssa.TypeAssert:
		x := l.val(v.X).clone()
		if isByteSlice(v.AssertedType) && x.kinds&kUser != 0 {
			x.kinds = x.kinds&^kUser | kRaw
			if x.from == nil {
				x.from = map[kind]token.Pos{}
			}
			x.from[kRaw] = v.Pos()
		}
		if isByteSlice(v.AssertedType) {
			// what callers pass as bytes is raw
			for p := range x.prm {
				if g := l.global[p]; g != nil && g.kinds&(kUser|kRaw) != 0 {
					x.merge(kindAt(kRaw, v.Pos()))
				}
			}
			x.prm = nil
		} else if it, ok := v.AssertedType.Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
			// what is asserted to be something else was not passed as bytes
			x.kinds &^= kRaw
			for p := range x.prm {
				if g := l.global[p]; g != nil {
					x.merge(&label{kinds: g.kinds &^ kRaw})
				}
			}
			x.prm = nil
		}
		if v.CommaOk {
			l.add(v, x)
		} else {
			l.asserted(v, x)
		}
	case *ssa.BinOp:
		if textual(v.Type()) {
			l.put(v, l.val(v.X))
			l.put(v, l.val(v.Y))
		}
	case *ssa.Slice:
		if isByteSlice(v.Type()) && isByteSlice(v.X.Type()) || container(v.Type()) {
			l.union(l.find(v), l.hold(v.X))
			if _, ok := v.X.(*ssa.Parameter); ok && isByteSlice(v.Type()) {
				l.put(v, l.val(v.X))
			}
		} else if textual(v.Type()) {
			l.put(v, l.val(v.X))
		}
	case *ssa.Field:
		k := l.fieldOf(v.X.Type(), v.Field)
		l.loadPlace(v, k)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			if textual(v.Type()) {
				l.put(v, l.val(v.X))
			}
			return
		}
		l.load(v, v.X)
	case *ssa.Store:
		l.store(v.Addr, v.Val)
	case *ssa.Index:
		if isString(v.X.Type()) {
			l.put(v, l.val(v.X))
			return
		}
		l.elem(v, v.X)
	case *ssa.Lookup:
		if isString(v.X.Type()) {
			l.put(v, l.val(v.X))
			return
		}
		mp := v.X.Type().Underlying().(*types.Map)
		if textual(mp.Elem()) {
			if v.CommaOk {
				l.add(v, l.node(partKey{l.hold(v.X), false}))
			} else {
				l.put(v, l.node(partKey{l.hold(v.X), false}))
			}
		} else if container(mp.Elem()) && !v.CommaOk {
			l.union(l.find(v), l.find(partKey{l.hold(v.X), false}))
		}
	case *ssa.MapUpdate:
		c := l.hold(v.Map)
		if textual(v.Key.Type()) {
			l.add(partKey{c, true}, l.val(v.Key))
		}
		if textual(v.Value.Type()) {
			l.add(partKey{c, false}, l.val(v.Value))
		} else if container(v.Value.Type()) {
			l.union(l.find(partKey{c, false}), l.hold(v.Value))
		}
	case *ssa.Range:
		// the iteration carries the texts
		if isString(v.X.Type()) {
			l.add(v, l.val(v.X))
		} else {
			l.union(l.find(v), l.hold(v.X))
		}
	case *ssa.Extract:
		l.extract(v)
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		for i, b := range v.Bindings {
			fv := fn.FreeVars[i]
			if container(fv.Type()) || isByteSlice(fv.Type()) {
				l.union(l.find(fv), l.hold(b))
			} else if textual(fv.Type()) {
				l.put(fv, l.val(b))
			} else if reference(fv.Type()) {
				l.union(l.find(fv), l.hold(b))
			}
		}
	case *ssa.Return:
		rs := l.ret[f]
		if rs == nil {
			rs = make([]*label, len(v.Results))
			for i := range rs {
				rs[i] = &label{}
			}
			l.ret[f] = rs
		}
		for i := range v.Results {
			r := resultValue(v, i)
			if textual(r.Type()) {
				if rs[i].merge(l.val(r)) {
					l.changed = true
				}
			}
			if (container(r.Type()) || isByteSlice(r.Type())) && !isNilConst(r) {
				l.union(l.find(retKey{f, i}), l.hold(r))
			}
		}
	case ssa.CallInstruction:
		l.call(f, v)
	}
}

type retKey struct {
	f *ssa.Function
	i int
}

// asserted gives the outcome of a type assertion what the interface carried.
func (l *labels) asserted(v ssa.Value, x *label) {
	t := v.Type()
	switch {
	case textual(t) || isErrorType(t):
		l.put(v, x)
	case container(t):
		l.add(partKey{l.find(v), false}, x)
		l.add(partKey{l.find(v), true}, x)
	}
}

func (l *labels) extract(v *ssa.Extract) {
	switch t := v.Tuple.(type) {
	case *ssa.Next:
		rng, ok := t.Iter.(*ssa.Range)
		if !ok {
			return
		}
		if t.IsString {
			if v.Index == 2 {
				l.put(v, l.node(rng))
			}
			return
		}
		if v.Index == 0 {
			return
		}
		if textual(v.Type()) {
			l.put(v, l.node(partKey{l.find(rng), v.Index == 1}))
		} else if container(v.Type()) {
			l.union(l.find(v), l.find(partKey{l.find(rng), v.Index == 1}))
		}
	case *ssa.Call:
		if textual(v.Type()) && !isByteSlice(v.Type()) {
			l.put(v, l.node(partOf{t, v.Index}))
		} else if container(v.Type()) || isByteSlice(v.Type()) {
			if isByteSlice(v.Type()) {
				l.put(v, l.node(partOf{t, v.Index}))
			}
			l.union(l.find(v), l.find(partOf{t, v.Index}))
		}
	case *ssa.TypeAssert:
		if v.Index == 0 {
			l.asserted(v, l.node(t))
		}
	case *ssa.Lookup:
		if v.Index == 0 {
			if textual(v.Type()) {
				l.put(v, l.node(t))
			} else if container(v.Type()) {
				l.union(l.find(v), l.find(partKey{l.hold(t.X), false}))
			}
		}
	}
}

type partOf struct {
	c *ssa.Call
	i int
}

// loadPlace reads a field, global or variable.
func (l *labels) loadPlace(v ssa.Value, k any) {
	switch {
	case isByteSlice(v.Type()) || container(v.Type()):
		l.union(l.find(v), l.find(k))
		if isByteSlice(v.Type()) {
			l.put(v, l.node(k))
		}
	case textual(v.Type()):
		l.put(v, l.node(k))
	}
}

func (l *labels) load(v *ssa.UnOp, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		l.loadPlace(v, l.fieldOf(a.X.Type(), a.Field))
	case *ssa.IndexAddr:
		l.elem(v, a.X)
	case *ssa.Global, *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Phi, *ssa.UnOp, *ssa.Extract, *ssa.Call:
		if textual(v.Type()) && !isByteSlice(v.Type()) {
			l.put(v, l.node(partKey{l.hold(addr), false}))
		} else if isByteSlice(v.Type()) || container(v.Type()) {
			l.union(l.find(v), l.find(deepKey{l.hold(addr)}))
		}
	}
}

// deepKey is what a pointer to a container points to.
type deepKey struct{ class any }

// elem reads an element of a container.
func (l *labels) elem(v ssa.Value, x ssa.Value) {
	if !textual(v.Type()) && !container(v.Type()) {
		return
	}
	c := l.hold(x)
	if textual(v.Type()) && !isByteSlice(v.Type()) {
		l.put(v, l.node(partKey{c, false}))
		if isByteSlice(x.Type()) {
			l.put(v, l.val(x))
		}
	} else {
		l.union(l.find(v), l.find(deepKey{c}))
	}
}

func (l *labels) store(addr, val ssa.Value) {
	t := val.Type()
	if !textual(t) && !container(t) {
		return
	}
	if c, ok := val.(*ssa.Const); ok && c.Value == nil {
		return
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		k := l.fieldOf(a.X.Type(), a.Field)
		if k == l.filterValue {
			l.add(k, kindAt(kFilter, val.Pos()))
		}
		if k == l.resultRaw && l.ofAttribute(a) {
			k.index = -1 // the value itself, never parsed
		}
		if isByteSlice(t) || container(t) {
			l.union(l.find(k), l.hold(val))
			if _, ok := val.(*ssa.Parameter); ok && isByteSlice(t) {
				l.add(k, l.val(val))
			}
		} else {
			l.add(k, l.val(val))
		}
	case *ssa.IndexAddr:
		c := l.hold(a.X)
		if textual(t) && !isByteSlice(t) {
			l.add(partKey{c, false}, l.val(val))
		} else {
			l.union(l.find(deepKey{c}), l.hold(val))
		}
	default:
		c := l.hold(addr)
		if textual(t) && !isByteSlice(t) {
			l.add(partKey{c, false}, l.val(val))
		} else {
			l.union(l.find(deepKey{c}), l.hold(val))
		}
	}
}

func (l *labels) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	v, _ := ci.(*ssa.Call)
	result := func(i int, x *label) {
		if v == nil {
			return
		}
		if v.Call.Signature().Results().Len() == 1 {
			if textual(v.Type()) {
				l.put(v, x)
			}
			return
		}
		l.add(partOf{v, i}, x)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			l.union(l.find(v), l.hold(c.Args[0]))
			if isByteSlice(v.Type()) {
				l.put(v, l.val(c.Args[0]))
				l.put(v, l.val(c.Args[1]))
			} else if container(v.Type()) && !isNilConst(c.Args[1]) {
				l.union(l.find(v), l.hold(c.Args[1]))
			}
		case "copy":
			if textual(c.Args[0].Type()) {
				l.put(c.Args[0], l.val(c.Args[1]))
			} else if container(c.Args[0].Type()) {
				l.union(l.hold(c.Args[0]), l.hold(c.Args[1]))
			}
		case "StringData", "SliceData", "String", "Slice", "min", "max":
			x := &label{}
			for _, a := range c.Args {
				if textual(a.Type()) {
					x.merge(l.val(a))
				} else if p, ok := a.Type().Underlying().(*types.Pointer); ok && textual(p.Elem()) {
					x.merge(l.node(partKey{l.hold(a), false}))
				}
			}
			if v != nil {
				if textual(v.Type()) {
					l.put(v, x)
				} else if _, ok := v.Type().Underlying().(*types.Pointer); ok {
					l.add(partKey{l.find(v), false}, x)
				}
			}
		}
		return
	}
	var callees []*ssa.Function
	if g := c.StaticCallee(); g != nil {
		callees = []*ssa.Function{g}
	} else if c.IsInvoke() {
		callees = l.p.invoked(c)
	} else {
		callees = l.p.dynamic(c)
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	if c.IsInvoke() || len(callees) == 0 {
		// code of the caller: what it returns is made of what it is given
		x := &label{}
		for _, a := range args {
			if textual(a.Type()) || isErrorType(a.Type()) {
				x.merge(l.val(a))
			}
		}
		rs := c.Signature().Results()
		for i := 0; i < rs.Len(); i++ {
			if textual(rs.At(i).Type()) {
				result(i, x)
			}
		}
	}
	for _, g := range callees {
		if l.p.InLib(g) && g.Blocks != nil {
			l.libCall(v, g, args, result, ci.Pos())
			continue
		}
		l.stdCall(v, g, args, result, ci.Pos())
	}
}

func (l *labels) libCall(v *ssa.Call, g *ssa.Function, args []ssa.Value, result func(int, *label), pos token.Pos) {
	lab := make([]*label, len(args))
	for i, a := range args {
		lab[i] = &label{}
		if i >= len(g.Params) {
			break
		}
		prm := g.Params[i]
		if textual(prm.Type()) {
			lab[i] = l.val(a)
			if l.global[prm] == nil {
				l.global[prm] = &label{}
			}
			r := l.resolve(lab[i])
			if l.global[prm].merge(&label{kinds: r.kinds, from: r.from}) {
				l.changed = true
			}
		}
		if (container(prm.Type()) || isByteSlice(prm.Type())) && !isNilConst(a) {
			l.union(l.find(prm), l.hold(a))
		}
	}
	switch l.coders[g] {
	case 1, -1:
		result(0, recode(lab[0], l.coders[g] == 1, pos))
		return
	}
	for i, sum := range l.ret[g] {
		result(i, l.subst(sum, g, lab, pos))
	}
	if v == nil {
		return
	}
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if container(t) || isByteSlice(t) {
			var dst any = partOf{v, i}
			if rs.Len() == 1 {
				dst = v
			}
			l.union(l.find(dst), l.find(retKey{g, i}))
		}
	}
}

// stdCall models a function of the standard library: what it returns is made of
// the texts it is given.
func (l *labels) stdCall(v *ssa.Call, g *ssa.Function, args []ssa.Value, result func(int, *label), pos token.Pos) {
	recv := g.Signature.Recv()
	if recv != nil && isBuffer(deref(recv.Type())) {
		c := l.hold(args[0])
		switch g.Name() {
		case "String", "Bytes":
			x := l.node(partKey{c, false}).clone()
			if l.outs[c] {
				x = kindAt(kSource, pos)
			}
			x.outs = map[any]bool{c: true}
			result(0, x)
		default:
			for _, a := range args[1:] {
				if textual(a.Type()) {
					l.add(partKey{c, false}, l.val(a))
				}
			}
		}
		return
	}
	x := &label{}
	for i, a := range args {
		if recv != nil && i == 0 && isNamed(deref(a.Type()), "strings", "Replacer") {
			continue
		}
		if textual(a.Type()) {
			x.merge(l.val(a))
		} else if container(a.Type()) {
			x.merge(l.node(partKey{l.hold(a), false}))
		}
	}
	name := calleePkg(g) + "." + g.Name()
	if recv != nil && isNamed(deref(recv.Type()), "strings", "Replacer") && g.Name() == "Replace" {
		if t, ok := l.tableOf(args[0]); ok && (t.enc && covers(t.pairs, specials) || t.dec) {
			result(0, recode(l.val(args[1]), t.enc, pos))
			return
		}
		x = l.val(args[1]).clone()
	}
	switch name {
	case "html.EscapeString":
		result(0, recode(x, true, pos))
		return
	case "html.UnescapeString":
		result(0, recode(x, false, pos))
		return
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		// writing to a buffer
		y := &label{}
		for _, a := range args[1:] {
			if textual(a.Type()) {
				y.merge(l.val(a))
			} else if container(a.Type()) {
				y.merge(l.node(partKey{l.hold(a), false}))
			}
		}
		if mi, ok := args[0].(*ssa.MakeInterface); ok {
			l.add(partKey{l.hold(mi.X), false}, y)
		}
		return
	}
	x.merge(kindAt(kConst, pos))
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if textual(t) {
			result(i, x)
		} else if container(t) && v != nil {
			var dst any = partOf{v, i}
			if rs.Len() == 1 {
				dst = v
			}
			l.add(partKey{l.find(dst), false}, x)
		}
	}
}

// invoked are the library methods an interface call can reach.
func (p *Program) invoked(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || f.Name() != c.Method.Name() {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), c.Value.Type().Underlying().(*types.Interface)) {
			out = append(out, f)
		}
	}
	return out
}

// dynamic are the functions a call of a function value can reach.
func (p *Program) dynamic(c *ssa.CallCommon) []*ssa.Function {
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if p.addrTkn[f] && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

// tables finds the replacement tables made at start-up.
func (l *labels) tables() {
	for f := range l.inits {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if g, ok := st.Addr.(*ssa.Global); ok {
				if t, ok := l.tableOf(st.Val); ok {
					l.enc[g] = t
				}
			}
		})
	}
}

// tableOf is the table behind a replacer.
func (l *labels) tableOf(v ssa.Value) (replaceTable, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			t, ok := l.enc[g]
			return t, ok
		}
	case *ssa.Call:
		if calleeName(x.Common()) == "strings.NewReplacer" {
			return l.newTable(x)
		}
		if g := x.Call.StaticCallee(); g != nil && l.p.InLib(g) && g.Blocks != nil && len(g.Params) == 0 {
			if rets := returnsOf(g); len(rets) == 1 && len(rets[0].Results) == 1 {
				return l.tableOf(resultValue(rets[0], 0))
			}
		}
	}
	return replaceTable{}, false
}

func (l *labels) newTable(c *ssa.Call) (replaceTable, bool) {
	t := replaceTable{pairs: map[string]string{}, pos: c.Pos()}
	list := c.Call.Args[0]
	if u, ok := list.(*ssa.UnOp); ok && u.Op == token.MUL {
		// a list kept in a variable that is set once
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return t, false
		}
		n := 0
		for _, f := range l.p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					list = st.Val
					n++
				}
			})
		}
		for f := range l.inits {
			instrs(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					list = st.Val
					n++
				}
			})
		}
		if n == 0 {
			return t, false
		}
	}
	el := varargs(list)
	if len(el) == 0 {
		return t, false
	}
	for i := 0; i+1 < len(el); i += 2 {
		a, ok1 := constString(el[i])
		b, ok2 := constString(el[i+1])
		if !ok1 || !ok2 {
			return t, false
		}
		if _, dup := t.pairs[a]; !dup {
			t.pairs[a] = b
		}
	}
	for a, b := range t.pairs {
		if specials[a] != "" && strings.HasPrefix(b, "&") {
			t.enc = true
		}
		if strings.HasPrefix(a, "&") && strings.HasSuffix(a, ";") {
			t.dec = true
		}
	}
	return t, true
}

// coder recognises functions that encode or decode their only argument.
func (l *labels) coder(f *ssa.Function) int {
	if len(f.Params) != 1 || !isString(f.Params[0].Type()) || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
		return 0
	}
	all := 0
	for i, ret := range returnsOf(f) {
		d := l.codes(f, resultValue(ret, 0), ret.Block(), 0)
		if i == 0 {
			all = d
		}
		all &= d
	}
	switch all {
	case canEncode:
		return 1
	case canDecode:
		return -1
	}
	return 0
}

const (
	canEncode = 1 << iota
	canDecode
)

// codes says whether v is the encoded parameter, the decoded one, or both, which is
// the parameter itself where it holds nothing to encode or decode.
func (l *labels) codes(f *ssa.Function, v ssa.Value, at *ssa.BasicBlock, d int) int {
	prm := f.Params[0]
	if d > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if x == prm {
			return asItIs(f, prm, at)
		}
	case *ssa.Const:
		// the empty text for the empty text
		if s, ok := constString(x); ok && s == "" && asItIs(f, prm, at) == canEncode|canDecode {
			return canEncode | canDecode
		}
	case *ssa.Phi:
		all := canEncode | canDecode
		for i, e := range x.Edges {
			all &= l.codes(f, e, x.Block().Preds[i], d+1)
		}
		return all
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "(*strings.Replacer).Replace":
			if t, ok := l.tableOf(x.Call.Args[0]); ok && x.Call.Args[1] == ssa.Value(prm) {
				if t.enc && covers(t.pairs, specials) {
					return canEncode
				}
				if t.dec {
					return canDecode
				}
			}
		case "strings.ReplaceAll":
			return replaceChain(x, prm)
		case "(*strings.Builder).String":
			if al, ok := x.Call.Args[0].(*ssa.Alloc); ok {
				return charwise(f, al, prm)
			}
		}
	}
	return 0
}

// covers: every pair of b is in a.
func covers(a, b map[string]string) bool {
	for k, v := range b {
		if a[k] != v {
			return false
		}
	}
	return true
}

// asItIs says whether the parameter holds nothing to encode, or nothing to decode,
// at a point.
func asItIs(f *ssa.Function, prm *ssa.Parameter, at *ssa.BasicBlock) (out int) {
	without := func(ch string) bool {
		return !reachAvoiding(f, at, func(iff *ssa.If, taken bool) bool {
			for _, c := range expandCond(Cond{iff.Cond, taken, iff}) {
				if v, chars := absent(c.Val, c.Pos); v == ssa.Value(prm) && (chars == "*" || strings.Contains(chars, ch)) {
					return true
				}
			}
			return false
		})
	}
	if without("&") {
		out = canDecode | canEncode
		for k := range specials {
			if !without(k) {
				return canDecode
			}
		}
	}
	return
}

// absent is the text a condition is about and the characters it cannot hold if the
// condition comes out this way; "*" if it is empty.
func absent(cond ssa.Value, taken bool) (ssa.Value, string) {
	switch c := cond.(type) {
	case *ssa.Call:
		if len(c.Call.Args) != 2 || taken {
			return nil, ""
		}
		s, ok := constString(c.Call.Args[1])
		if n, isN := constInt(c.Call.Args[1]); isN && n > 0 {
			s, ok = string(rune(n)), true
		}
		if !ok {
			return nil, ""
		}
		switch calleeName(c.Common()) {
		case "strings.ContainsAny", "strings.ContainsRune":
			return c.Call.Args[0], s
		case "strings.Contains":
			if len(s) == 1 {
				return c.Call.Args[0], s
			}
		}
	case *ssa.BinOp:
		if s, ok := constString(c.Y); ok && s == "" && (c.Op == token.EQL && taken || c.Op == token.NEQ && !taken) {
			return c.X, "*"
		}
		call, ok := c.X.(*ssa.Call)
		if !ok {
			return nil, ""
		}
		n, ok := constInt(c.Y)
		if !ok {
			return nil, ""
		}
		if calleeName(call.Common()) == "builtin.len" {
			if n == 0 && (c.Op == token.EQL && taken || c.Op == token.NEQ && !taken || c.Op == token.GTR && !taken) || n == 1 && c.Op == token.LSS && taken {
				return call.Call.Args[0], "*"
			}
			return nil, ""
		}
		if len(call.Call.Args) != 2 {
			return nil, ""
		}
		var none bool
		s, isC := constString(call.Call.Args[1])
		if k, isN := constInt(call.Call.Args[1]); isN && k > 0 {
			s, isC = string(rune(k)), true
		}
		switch calleeName(call.Common()) {
		case "strings.Index", "strings.LastIndex":
			isC = isC && len(s) == 1
			fallthrough
		case "strings.IndexAny", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "strings.LastIndexAny":
			none = n == 0 && (c.Op == token.LSS && taken || c.Op == token.GEQ && !taken) || n == -1 && (c.Op == token.EQL && taken || c.Op == token.NEQ && !taken || c.Op == token.GTR && !taken || c.Op == token.LEQ && taken)
		case "strings.Count":
			isC = isC && len(s) == 1
			none = n == 0 && (c.Op == token.EQL && taken || c.Op == token.NEQ && !taken || c.Op == token.GTR && !taken)
		}
		if none && isC {
			return call.Call.Args[0], s
		}
	}
	return nil, ""
}

// replaceChain recognises one ReplaceAll after another.
func replaceChain(c *ssa.Call, prm *ssa.Parameter) int {
	var pairs [][2]string
	var v ssa.Value = c
	for {
		call, ok := v.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "strings.ReplaceAll" {
			break
		}
		a, ok1 := constString(call.Call.Args[1])
		b, ok2 := constString(call.Call.Args[2])
		if !ok1 || !ok2 {
			return 0
		}
		pairs = append([][2]string{{a, b}}, pairs...)
		v = call.Call.Args[0]
	}
	if v != ssa.Value(prm) || len(pairs) != len(specials) {
		return 0
	}
	enc, dec := true, true
	for _, p := range pairs {
		enc = enc && specials[p[0]] == p[1]
		dec = dec && specials[p[1]] == p[0]
	}
	if enc && pairs[0][0] == "&" {
		return canEncode
	}
	if dec && pairs[len(pairs)-1][1] == "&" {
		return canDecode
	}
	return 0
}

// charwise recognises an encoder that goes over the characters and writes each or
// its encoded form to a buffer.
func charwise(f *ssa.Function, buf *ssa.Alloc, prm *ssa.Parameter) int {
	entities := map[string]bool{}
	ok := true
	for _, ref := range *buf.Referrers() {
		c, is := ref.(*ssa.Call)
		if !is {
			continue
		}
		switch c.Call.StaticCallee().Name() {
		case "String", "Len", "Grow":
			continue
		case "WriteString":
			s, isC := constString(c.Call.Args[1])
			if !isC {
				ok = false
				continue
			}
			// behind a test for the character it stands for
			found := false
			for _, cd := range condsAt(c.Block()) {
				if ch, eq := charTest(cd); ch != "" && eq && specials[ch] == s {
					found = true
				}
			}
			if !found {
				ok = false
			}
			entities[s] = true
		case "WriteByte", "WriteRune":
			not := map[string]bool{}
			for _, cd := range condsAt(c.Block()) {
				if ch, eq := charTest(cd); ch != "" && !eq {
					not[ch] = true
				}
			}
			for k := range specials {
				if !not[k] {
					ok = false
				}
			}
		default:
			ok = false
		}
	}
	if !ok || len(entities) != len(specials) {
		return 0
	}
	return canEncode
}

func charTest(c Cond) (string, bool) {
	bo, ok := c.Val.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return "", false
	}
	n, ok := constInt(bo.Y)
	if !ok || n <= 0 || n > 127 {
		return "", false
	}
	return string(rune(n)), (bo.Op == token.EQL) == c.Pos
}

func isCharType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}
