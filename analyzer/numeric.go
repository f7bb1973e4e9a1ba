package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A goal-directed prover for linear inequalities between integers, lengths and
// integer fields. A goal is proved at a program point from the conditions that
// dominate the point and from lemmas it derives itself: a goal about values merged at
// a join must hold for each incoming edge, one about a loop variable must hold on
// entry and be kept by each iteration, one about parameters must hold at each call
// site, and one about what a call returns or changes must hold at each return.
// Everything is decided on SSA; no path is enumerated or executed.

// nframe is a function as entered through a chain of call sites.
type nframe struct {
	up    *nframe
	call  ssa.CallInstruction
	fn    *ssa.Function
	kids  map[nkid]*nframe
	depth int
	id    int
}

type nkid struct {
	call ssa.CallInstruction
	fn   *ssa.Function
}

func (f *nframe) has(fn *ssa.Function) bool {
	for g := f; g != nil; g = g.up {
		if g.fn == fn {
			return true
		}
	}
	return false
}

func (f *nframe) root() *nframe {
	for f.up != nil {
		f = f.up
	}
	return f
}

// inside: f is g or entered from g.
func (f *nframe) inside(g *nframe) bool {
	for ; f != nil; f = f.up {
		if f == g {
			return true
		}
	}
	return false
}

// term is a value in a frame, or the content of a field at some point.
type term struct {
	fr  *nframe
	v   ssa.Value
	ver *nver
}

// nloc is a field of an object or of an element of a slice.
type nloc struct {
	base term
	elem string
	path string
}

type nver struct {
	kind verKind
	fr   *nframe
	blk  *ssa.BasicBlock
	in   ssa.Instruction
	loc  nloc
	id   int
}

type verKind int

const (
	verEntry verKind = iota // content at the start of the root function
	verCall                 // content after a call that may change it
	verPhi                  // content at a join
	verKill                 // content after something that may change it
	verDef                  // content when the object came to be known
)

// nsym is an unknown of the linear forms.
type nsym struct {
	t   term
	fld string
	len bool
}

type nlin struct {
	c int64
	m map[int]int64
}

func (a nlin) clone() nlin {
	o := nlin{a.c, make(map[int]int64, len(a.m))}
	for k, v := range a.m {
		o.m[k] = v
	}
	return o
}

func (a nlin) add(b nlin, k int64) nlin {
	o := a.clone()
	o.c += k * b.c
	for s, v := range b.m {
		o.m[s] += k * v
		if o.m[s] == 0 {
			delete(o.m, s)
		}
	}
	return o
}

func (a nlin) scale(k int64) nlin { return nlin{}.add(a, k) }

func nconst(c int64) nlin { return nlin{c, nil} }

func (a nlin) ids() []int {
	out := make([]int, 0, len(a.m))
	for k := range a.m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (a nlin) key() string {
	var sb strings.Builder
	for _, k := range a.ids() {
		sb.WriteString(strconv.FormatInt(a.m[k], 10))
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(k))
		sb.WriteByte(' ')
	}
	sb.WriteString(strconv.FormatInt(a.c, 10))
	return sb.String()
}

type nchoice struct {
	fr *nframe
	b  *ssa.BasicBlock
	c  ssa.CallInstruction
}

// nctx is where a goal is to be proved and what has been assumed on the way.
type nctx struct {
	fr     *nframe
	blk    *ssa.BasicBlock
	idx    int
	choice map[nchoice]int
	extra  []nlin
	assume []nguard
	facts  []nlin // conditions, computed once
	dis    []nlin // e != 0
	amb    []nchoice
	done   bool
}

func (c *nctx) with(k nchoice, i int) *nctx {
	n := &nctx{fr: c.fr, blk: c.blk, idx: c.idx, choice: map[nchoice]int{}, extra: c.extra, assume: c.assume}
	for a, b := range c.choice {
		n.choice[a] = b
	}
	n.choice[k] = i
	return n
}

type nmod struct {
	fld  string // struct type and field
	root int    // parameter it is reached from, -1 if unknown
}

type prover struct {
	p      *Program
	roots  map[*ssa.Function]*nframe
	frames int
	syms   []nsym
	symID  map[nsym]int
	vers   map[nver]*nver
	mods   map[*ssa.Function]map[nmod]bool
	loops  map[*ssa.Function][]*Loop
	inv    map[string][]ninv // per struct type
	post   map[*ssa.Function][]*npost
	open   []nopen // lemmas being proved
	budget int
	steps  int
	proved map[string]bool
	failed map[string]int
	low    int
	trace  bool
	trace2 bool
	recov  int
	short  types.Type // lists of this type kept in memory are within the limit
	limit  int64
	pre    map[*ssa.Parameter]bool // never nil
	taken  map[string]string
	rets   map[*ssa.Function][]*ssa.Return
	fm     int
	why    []string
	conds  map[*ssa.BasicBlock][]Cond
}

// ninv is an invariant of a struct type between calls: a - b + c >= 0, where b may be
// missing; len marks the length of a field.
type ninv struct {
	a, b       int
	lenA, lenB bool
	c          int64
}

// npost is a promise of a function: a sum of results, of what it was given and of what
// it leaves is not negative.
type npost struct {
	parts []npart
	c     int64
	text  string
}

type npart struct {
	k    int64
	kind partKind
	i    int    // result or parameter
	path string // field reached
	len  bool
}

type partKind int

const (
	partResult partKind = iota
	partEntry           // of a parameter, when called
	partExit            // of a parameter, on return
)

// nopen is a lemma under proof at a loop head or function entry.
type nopen struct {
	fr   *nframe
	head *ssa.BasicBlock // nil: entry
	l    nlin
	when []nguard
	c    *nctx // what it is proved under
}

// within: everything a context takes to hold is taken to hold in this one.
func (c *nctx) within(o *nctx) bool {
	if o == nil {
		return true
	}
	for k, i := range o.choice {
		if j, ok := c.choice[k]; !ok || i != j {
			return false
		}
	}
	for _, l := range o.extra {
		ok := false
		for _, m := range c.extra {
			ok = ok || m.key() == l.key()
		}
		if !ok {
			return false
		}
	}
	for _, g := range o.assume {
		ok := false
		for _, h := range c.assume {
			ok = ok || h == g
		}
		if !ok {
			return false
		}
	}
	return true
}

// nguard is a condition taken to hold.
type nguard struct {
	fr  *nframe
	val ssa.Value
	pos bool
}

func newProver(p *Program) *prover {
	n := &prover{p: p, roots: map[*ssa.Function]*nframe{}, symID: map[nsym]int{}, vers: map[nver]*nver{}, mods: map[*ssa.Function]map[nmod]bool{}, loops: map[*ssa.Function][]*Loop{}, inv: map[string][]ninv{}, post: map[*ssa.Function][]*npost{}, proved: map[string]bool{}, failed: map[string]int{}, rets: map[*ssa.Function][]*ssa.Return{}, conds: map[*ssa.BasicBlock][]Cond{}}
	n.findMods()
	return n
}

// newProverLike is a prover with the same assumptions and its own memory.
func newProverLike(n *prover) *prover {
	w := &prover{p: n.p, roots: map[*ssa.Function]*nframe{}, symID: map[nsym]int{}, vers: map[nver]*nver{}, mods: n.mods, taken: n.taken, pre: n.pre, loops: map[*ssa.Function][]*Loop{}, inv: n.inv, post: n.post, proved: map[string]bool{}, failed: map[string]int{}, rets: map[*ssa.Function][]*ssa.Return{}, conds: map[*ssa.BasicBlock][]Cond{}, trace2: n.trace2, short: n.short, limit: n.limit}
	return w
}

func (n *prover) root(f *ssa.Function) *nframe {
	if r := n.roots[f]; r != nil {
		return r
	}
	n.frames++
	r := &nframe{fn: f, kids: map[nkid]*nframe{}, id: n.frames}
	n.roots[f] = r
	return r
}

const maxFrames = 7

// enter is the frame of a library function called from a frame, or nil.
func (n *prover) enter(fr *nframe, c ssa.CallInstruction) *nframe {
	g := c.Common().StaticCallee()
	if g == nil || !n.p.InLib(g) || g.Blocks == nil || fr.has(g) || fr.depth >= maxFrames {
		return nil
	}
	if _, ok := c.(*ssa.Call); !ok {
		return nil
	}
	k := nkid{c, g}
	if f := fr.kids[k]; f != nil {
		return f
	}
	n.frames++
	f := &nframe{up: fr, call: c, fn: g, kids: map[nkid]*nframe{}, depth: fr.depth + 1, id: n.frames}
	fr.kids[k] = f
	return f
}

func (n *prover) loopsOf(f *ssa.Function) []*Loop {
	if l, ok := n.loops[f]; ok {
		return l
	}
	l := findLoops(f)
	n.loops[f] = l
	return l
}

func (n *prover) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range n.loopsOf(b.Parent()) {
		if l.Head == b {
			return l
		}
	}
	return nil
}

func (n *prover) returns(f *ssa.Function) []*ssa.Return {
	if r, ok := n.rets[f]; ok {
		return r
	}
	r := returnsOf(f)
	if !n.recovers() {
		// the block reached only through recover
		var keep []*ssa.Return
		for _, x := range r {
			if x.Block() != f.Recover {
				keep = append(keep, x)
			}
		}
		r = keep
	}
	n.rets[f] = r
	return r
}

// recovers: some library function calls recover.
func (n *prover) recovers() bool {
	if n.recov == 0 {
		n.recov = 1
		for _, f := range n.p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
						n.recov = 2
					}
				}
			})
		}
	}
	return n.recov == 2
}

func (n *prover) condsAt(b *ssa.BasicBlock) []Cond {
	if c, ok := n.conds[b]; ok {
		return c
	}
	c := condsAt(b)
	n.conds[b] = c
	return c
}

func (n *prover) sym(s nsym) int {
	if i, ok := n.symID[s]; ok {
		return i
	}
	i := len(n.syms)
	n.syms = append(n.syms, s)
	n.symID[s] = i
	return i
}

func (n *prover) symLin(s nsym) nlin { return nlin{0, map[int]int64{n.sym(s): 1}} }

func (n *prover) ver(v nver) *nver {
	if x := n.vers[v]; x != nil {
		return x
	}
	x := new(nver)
	*x = v
	x.id = len(n.vers)
	n.vers[v] = x
	return x
}

// ---- what functions change

func fieldID(t types.Type, i int) string { return typeKey(t) + "#" + strconv.Itoa(i) }

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, nil)
	typeKeys.Store(t, s)
	return s
}

// rootOf says where an address comes from: a parameter (index), something new (-2) or
// unknown (-1).
func (n *prover) rootOf(v ssa.Value) int {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Parameter:
			return paramIndex(x)
		case *ssa.Alloc:
			return -2
		case *ssa.Call:
			if n.fresh(x) {
				return -2
			}
			return -1
		case *ssa.UnOp:
			// a variable a closure shares, set once
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return -1
			}
			one, _ := soleStoreAll(al)
			if one == nil {
				return -1
			}
			v = one
		default:
			return -1
		}
	}
	return -1
}

// fresh: the call returns an object it has made.
func (n *prover) fresh(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil || !n.p.InLib(g) || g.Blocks == nil || g.Signature.Results().Len() != 1 {
		return false
	}
	for _, r := range n.returns(g) {
		if _, ok := resultValue(r, 0).(*ssa.Alloc); !ok {
			return false
		}
	}
	return true
}

// cellID names the variables of a type.
func cellID(t types.Type) string { return "cell " + typeKey(t) }

// findTaken collects the fields whose address is handed on.
func (n *prover) findTaken() {
	n.taken = map[string]string{}
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return
			}
			for _, r := range *fa.Referrers() {
				switch x := r.(type) {
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					continue
				case *ssa.Store:
					if x.Addr == ssa.Value(fa) {
						continue
					}
				}
				n.taken[fieldID(deref(fa.X.Type()), fa.Field)] = cellID(deref(fa.Type()))
			}
		})
	}
}

func (n *prover) findMods() {
	n.findTaken()
	for _, f := range n.p.Funcs {
		n.mods[f] = map[nmod]bool{}
	}
	for changed := true; changed; {
		changed = false
		add := func(f *ssa.Function, m nmod) {
			if m.root != -2 && !n.mods[f][m] {
				n.mods[f][m] = true
				changed = true
			}
		}
		for _, f := range n.p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Store:
					addr := x.Addr
					root := n.rootOf(addr)
					switch a := addr.(type) {
					case *ssa.FieldAddr:
						id := fieldID(deref(a.X.Type()), a.Field)
						add(f, nmod{id, root})
						if n.taken[id] != "" {
							add(f, nmod{n.taken[id], -1})
						}
					case *ssa.IndexAddr:
					default:
						cell := cellID(x.Val.Type())
						add(f, nmod{cell, root})
						if _, own := a.(*ssa.Alloc); !own {
							for id, c := range n.taken {
								if c == cell {
									add(f, nmod{id, -1})
								}
							}
						}
					}
					n.wholeMods(x.Val.Type(), root, func(m nmod) { add(f, m) })
				case ssa.CallInstruction:
					for _, g := range n.callees(x.Common()) {
						for m := range n.mods[g] {
							r := -1
							if m.root >= 0 {
								args := x.Common().Args
								if x.Common().IsInvoke() {
									args = append([]ssa.Value{x.Common().Value}, args...)
								}
								if m.root < len(args) {
									r = n.rootOf(args[m.root])
								}
							}
							add(f, nmod{m.fld, r})
						}
					}
				}
			})
		}
	}
}

// wholeMods: storing a struct changes all its fields.
func (n *prover) wholeMods(t types.Type, root int, add func(nmod)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		add(nmod{fieldID(t, i), root})
		n.wholeMods(st.Field(i).Type(), root, add)
	}
}

// callees are the library functions a call can reach, closures handed to it included.
func (n *prover) callees(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	if g := c.StaticCallee(); g != nil {
		if n.p.InLib(g) {
			out = append(out, g)
		}
	} else if c.IsInvoke() {
		out = append(out, n.p.invoked(c)...)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		out = append(out, n.p.dynamic(c)...)
	}
	for _, a := range c.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if f, ok := mc.Fn.(*ssa.Function); ok {
				out = append(out, f)
			}
		}
	}
	return out
}

// ---- resolving values

// canon follows a value to what it stands for.
func (n *prover) canon(c *nctx, t term) term {
	for d := 0; d < 60; d++ {
		if t.ver != nil {
			nt, ok := n.reversion(c, t.ver)
			if !ok || nt == t {
				return t
			}
			t = nt
			continue
		}
		switch v := t.v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return term{v: t.v}
		case *ssa.Parameter:
			if t.fr == nil || t.fr.up == nil || v.Parent() != t.fr.fn {
				return t
			}
			args := t.fr.call.Common().Args
			i := paramIndex(v)
			if i >= len(args) {
				return t
			}
			t = term{fr: t.fr.up, v: args[i]}
			continue
		case *ssa.FreeVar:
			if mc := n.closureOf(v.Parent()); mc != nil {
				for i, fv := range v.Parent().FreeVars {
					if fv == v && i < len(mc.Bindings) {
						t = term{fr: n.root(mc.Parent()), v: mc.Bindings[i]}
					}
				}
				if t.v != ssa.Value(v) {
					continue
				}
			}
			return t
		case *ssa.ChangeType:
			t = term{fr: t.fr, v: v.X}
			continue
		case *ssa.Phi:
			if i, ok := c.choice[nchoice{fr: t.fr, b: v.Block()}]; ok {
				t = term{fr: t.fr, v: v.Edges[i]}
				continue
			}
			var one ssa.Value
			same := true
			for _, e := range v.Edges {
				if e == ssa.Value(v) {
					continue
				}
				if one != nil && one != e {
					same = false
				}
				one = e
			}
			if same && one != nil {
				t = term{fr: t.fr, v: one}
				continue
			}
			return t
		case *ssa.Call:
			if nt, ok := n.result(c, t.fr, v, 0); ok && v.Call.Signature().Results().Len() == 1 {
				t = nt
				continue
			}
			return t
		case *ssa.Extract:
			if call, ok := v.Tuple.(*ssa.Call); ok {
				if nt, ok := n.result(c, t.fr, call, v.Index); ok {
					t = nt
					continue
				}
			}
			return t
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return t
			}
			nt, ok := n.load(c, t.fr, v)
			if !ok {
				return t
			}
			if nt == t {
				return t
			}
			t = nt
			continue
		case *ssa.Field:
			nt, ok := n.field(c, term{fr: t.fr, v: v.X}, strconv.Itoa(v.Field))
			if !ok || nt == t {
				return t
			}
			t = nt
			continue
		default:
			return t
		}
	}
	return t
}

func (n *prover) closureOf(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	var mc *ssa.MakeClosure
	k := 0
	instrs(f.Parent(), func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
			mc = m
			k++
		}
	})
	if k != 1 {
		return nil
	}
	return mc
}

// result is what a library call returns, if there is one return or one was chosen.
func (n *prover) result(c *nctx, fr *nframe, call *ssa.Call, i int) (term, bool) {
	if extreme(call) != 0 {
		k, ok := c.choice[nchoice{fr: fr, c: call}]
		return term{fr: fr, v: call.Call.Args[k]}, ok
	}
	g := call.Call.StaticCallee()
	if g == nil || !n.p.InLib(g) || g.Blocks == nil {
		return term{}, false
	}
	rets := n.returns(g)
	k, ok := c.choice[nchoice{fr: fr, c: call}]
	if !ok {
		if len(rets) != 1 || !simple(g) && opaque(rets[0].Results[i].Type()) {
			return term{}, false
		}
		k = 0
	}
	kid := n.enter(fr, call)
	if kid == nil {
		return term{}, false
	}
	return term{fr: kid, v: resultValue(rets[k], i)}, true
}

// simple: no branches.
func simple(f *ssa.Function) bool { return len(f.Blocks) == 1 }

// opaque: results of this type are looked into only when need be.
func opaque(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return true
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// place resolves an address to an object and a field path.
func (n *prover) place(c *nctx, fr *nframe, addr ssa.Value) (nloc, bool) {
	path := ""
	t := term{fr: fr, v: addr}
	for d := 0; d < 30; d++ {
		t = n.canon(c, t)
		switch x := t.v.(type) {
		case *ssa.FieldAddr:
			path = "." + strconv.Itoa(x.Field) + path
			t = term{fr: t.fr, v: x.X}
			continue
		case *ssa.IndexAddr:
			return nloc{base: n.canon(c, term{fr: t.fr, v: x.X}), elem: n.elemKey(t.fr, x.Index), path: path}, true
		}
		return nloc{base: t, path: path}, true
	}
	return nloc{}, false
}

// elemKey names an index.
func (n *prover) elemKey(fr *nframe, v ssa.Value) string {
	add := int64(0)
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if fr.up == nil || x.Parent() != fr.fn || paramIndex(x) >= len(fr.call.Common().Args) {
				return fmt.Sprintf("%d:%s%+d", fr.id, x.Name(), add)
			}
			v, fr = fr.call.Common().Args[paramIndex(x)], fr.up
			continue
		case *ssa.BinOp:
			if k, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				if x.Op == token.SUB {
					k = -k
				}
				add += k
				v = x.X
				continue
			}
		case *ssa.Const:
			if k, ok := constInt(x); ok {
				return fmt.Sprintf("=%d", k+add)
			}
		}
		break
	}
	return fmt.Sprintf("%d:%s%+d", fr.id, v.Name(), add)
}

// load resolves a read of memory.
func (n *prover) load(c *nctx, fr *nframe, v *ssa.UnOp) (term, bool) {
	loc, ok := n.place(c, fr, v.X)
	if !ok {
		return term{}, false
	}
	if g, isG := loc.base.v.(*ssa.Global); isG && loc.path == "" {
		_ = g
		return term{}, false
	}
	if loc.path == "" && loc.elem == "" {
		// a local that is not in a register
		if al, isA := loc.base.v.(*ssa.Alloc); isA {
			if isStruct(deref(al.Type())) {
				return term{}, false
			}
			if val, _ := soleStoreAll(al); val != nil {
				return term{fr: loc.base.fr, v: val}, true
			}
			return n.at(c, fr, v.Block(), indexIn(v), loc, 0), true
		}
		if _, _, ok := n.locType(loc); ok && n.short != nil {
			return n.at(c, fr, v.Block(), indexIn(v), loc, 0), true
		}
		return term{}, false
	}
	if loc.path == "" {
		return term{}, false // whole element
	}
	return n.at(c, fr, v.Block(), indexIn(v), loc, 0), true
}

// field is a part of a struct value.
func (n *prover) field(c *nctx, t term, path string) (term, bool) {
	for d := 0; d < 20; d++ {
		switch v := t.v.(type) {
		case *ssa.Field:
			path = strconv.Itoa(v.Field) + "." + path
			t = term{fr: t.fr, v: v.X}
			continue
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return term{}, false
			}
			loc, ok := n.place(c, t.fr, v.X)
			if !ok {
				return term{}, false
			}
			loc.path += "." + path
			return n.at(c, t.fr, v.Block(), indexIn(v), loc, 0), true
		case *ssa.Phi, *ssa.Parameter, *ssa.Extract, *ssa.Call, *ssa.ChangeType, *ssa.FreeVar:
			nt := n.canon(c, t)
			if nt == t {
				return term{}, false
			}
			t = nt
			continue
		case *ssa.Const:
			return term{v: zeroConst}, v.Value == nil
		default:
			return term{}, false
		}
	}
	return term{}, false
}

var zeroConst = ssa.NewConst(nil, types.Typ[types.Int])

// lastField is the struct type and field a path ends in.
func lastField(base types.Type, path string) (types.Type, int, bool) {
	t := deref(base)
	parts := strings.Split(strings.TrimPrefix(path, "."), ".")
	for i, s := range parts {
		k, _ := strconv.Atoi(s)
		st, ok := t.Underlying().(*types.Struct)
		if !ok || k >= st.NumFields() {
			return nil, 0, false
		}
		if i == len(parts)-1 {
			return t, k, true
		}
		t = deref(st.Field(k).Type())
	}
	return nil, 0, false
}

func (n *prover) locField(l nloc) (types.Type, int, bool) {
	if l.base.v == nil {
		if l.base.ver == nil {
			return nil, 0, false
		}
		t := n.verType(l.base.ver)
		if t == nil {
			return nil, 0, false
		}
		return lastField(t, l.path)
	}
	t := l.base.v.Type()
	if l.elem != "" {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				t = a.Elem()
			}
		}
	}
	return lastField(t, l.path)
}

// locType names what a place holds, and its type.
func (n *prover) locType(l nloc) (string, types.Type, bool) {
	if l.path == "" {
		al, ok := l.base.v.(*ssa.Alloc)
		if !ok && l.elem == "" && n.short != nil {
			var t types.Type
			if l.base.ver != nil {
				t = n.verType(l.base.ver)
			} else if l.base.v != nil {
				t = l.base.v.Type()
			}
			if t != nil {
				if pt, ok := t.Underlying().(*types.Pointer); ok && !isStruct(pt.Elem()) {
					return cellID(pt.Elem()), pt.Elem(), true
				}
			}
		}
		if !ok || l.elem != "" {
			return "", nil, false
		}
		return cellID(deref(al.Type())), deref(al.Type()), true
	}
	st, fi, ok := n.locField(l)
	if !ok {
		return "", nil, false
	}
	return fieldID(st, fi), st.Underlying().(*types.Struct).Field(fi).Type(), true
}

// verType is the type of the content of a version.
func (n *prover) verType(v *nver) types.Type {
	_, t, ok := n.locType(v.loc)
	if !ok {
		return nil
	}
	return t
}

// at is the content of a place before instruction idx of a block.
func (n *prover) at(c *nctx, fr *nframe, b *ssa.BasicBlock, idx int, loc nloc, d int) term {
	id, typ, ok := n.locType(loc)
	if !ok || d > 40 {
		return term{ver: n.ver(nver{kind: verKill, fr: fr, blk: b, loc: loc})}
	}
	for steps := 0; steps < 400; steps++ {
		for i := idx - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if v, ok := in.(ssa.Value); ok && v == loc.base.v && fr == loc.base.fr {
				switch v.(type) {
				case *ssa.Alloc, *ssa.Call, *ssa.Extract:
				default:
					return term{ver: n.ver(nver{kind: verDef, fr: fr, in: in, loc: loc})}
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				if loc.base == (term{fr: fr, v: x}) {
					return term{v: zeroFor(typ)}
				}
			case *ssa.Store:
				if t, done := n.stored(c, fr, x, loc, id); done {
					return t
				}
			case *ssa.Call:
				if cv, _ := callOf(loc.base.v); cv == x && loc.base.fr == fr {
					return term{ver: n.ver(nver{kind: verCall, fr: fr, in: x, loc: loc})}
				}
				if t, done := n.called(c, fr, x, loc, id, d); done {
					return t
				}
			case *ssa.RunDefers:
				hit := false
				instrs(fr.fn, func(in ssa.Instruction) {
					if df, ok := in.(*ssa.Defer); ok {
						for _, g := range append(n.callees(df.Common()), closureFn(df.Call.Value)...) {
							if g == nil {
								continue
							}
							for m := range n.mods[g] {
								hit = hit || m.fld == id
							}
						}
					}
				})
				if hit {
					return term{ver: n.ver(nver{kind: verKill, fr: fr, in: in, loc: loc})}
				}
			}
		}
		switch {
		case b.Index == 0 || len(b.Preds) == 0:
			if fr.up == nil {
				// what a sort leaves alone is in its comparisons as it was before
				if call := n.sortOf(fr.fn); call != nil && loc.elem == "" && !n.changes(fr.fn, id) {
					idx = indexIn(call)
					b = call.Block()
					fr = n.root(call.Parent())
					continue
				}
				return term{ver: n.ver(nver{kind: verEntry, fr: fr, loc: loc})}
			}
			idx = indexIn(fr.call)
			b = fr.call.Block()
			fr = fr.up
		case len(b.Preds) == 1:
			b = b.Preds[0]
			idx = len(b.Instrs)
		default:
			if k, ok := c.choice[nchoice{fr: fr, b: b}]; ok {
				b = b.Preds[k]
				idx = len(b.Instrs)
				continue
			}
			dom := b.Idom()
			if !n.between(c, fr, dom, b, loc, id) {
				b = dom
				idx = len(b.Instrs)
				continue
			}
			return term{ver: n.ver(nver{kind: verPhi, fr: fr, blk: b, loc: loc})}
		}
	}
	return term{ver: n.ver(nver{kind: verKill, fr: fr, blk: b, loc: loc})}
}

func (n *prover) changes(f *ssa.Function, id string) bool {
	for m := range n.mods[f] {
		if m.fld == id {
			return true
		}
	}
	return false
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// steady: the number of entries of the map is the same throughout the function.
func (n *prover) steady(f *ssa.Function, t types.Type) bool {
	for _, g := range n.p.reachFrom([]*ssa.Function{f}) {
		bad := false
		instrs(g, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				bad = bad || types.Identical(x.Map.Type().Underlying(), t.Underlying())
			case ssa.CallInstruction:
				switch calleeName(x.Common()) {
				case "builtin.delete", "builtin.clear":
					bad = bad || types.Identical(x.Common().Args[0].Type().Underlying(), t.Underlying())
				default:
					c := x.Common()
					if c.StaticCallee() == nil {
						if _, ok := c.Value.(*ssa.Builtin); !ok {
							bad = true
						}
					}
				}
			}
		})
		if bad {
			return false
		}
	}
	return true
}

func closureFn(v ssa.Value) []*ssa.Function {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		if f, ok := mc.Fn.(*ssa.Function); ok {
			return []*ssa.Function{f}
		}
	}
	return nil
}

func zeroFor(t types.Type) ssa.Value {
	if _, ok := t.Underlying().(*types.Basic); ok {
		return ssa.NewConst(nil, types.Typ[types.Int])
	}
	return ssa.NewConst(nil, t)
}

// between: something between the dominator and a join may change the place.
func (n *prover) between(c *nctx, fr *nframe, dom, b *ssa.BasicBlock, loc nloc, id string) bool {
	seen := map[*ssa.BasicBlock]bool{dom: true}
	stack := append([]*ssa.BasicBlock{}, b.Preds...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if _, done := n.stored(c, fr, y, loc, id); done {
					return true
				}
			case *ssa.Call:
				if n.affects(c, fr, y, loc, id) != 0 {
					return true
				}
			case *ssa.RunDefers:
				return true
			}
		}
		stack = append(stack, x.Preds...)
	}
	return false
}

// stored: what a store says about the content of a place.
func (n *prover) stored(c *nctx, fr *nframe, st *ssa.Store, loc nloc, id string) (term, bool) {
	// quickly: does the type fit
	fit := false
	whole := isStruct(st.Val.Type())
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldID(deref(fa.X.Type()), fa.Field) == id {
		fit = true
	}
	if !fit && loc.path == "" {
		fit = id == cellID(st.Val.Type())
	} else if _, ok := st.Addr.(*ssa.FieldAddr); !fit && !ok {
		fit = n.taken[id] == cellID(st.Val.Type())
	}
	if !fit && whole {
		n.wholeMods(st.Val.Type(), 0, func(m nmod) { fit = fit || m.fld == id })
	}
	if !fit {
		return term{}, false
	}
	at, ok := n.place(c, fr, st.Addr)
	if !ok {
		return term{ver: n.ver(nver{kind: verKill, fr: fr, in: st, loc: loc})}, true
	}
	if at.base == loc.base && at.elem == loc.elem {
		if at.path == loc.path {
			return term{fr: fr, v: st.Val}, true
		}
		if whole && strings.HasPrefix(loc.path, at.path+".") {
			if t, ok := n.field(c, term{fr: fr, v: st.Val}, loc.path[len(at.path)+1:]); ok {
				return t, true
			}
			return term{ver: n.ver(nver{kind: verKill, fr: fr, in: st, loc: loc})}, true
		}
		return term{}, false
	}
	if (at.elem == "") != (loc.elem == "") {
		// an object of its own and an element of a slice
		if n.isAlloc(at.base) && at.elem == "" || n.isAlloc(loc.base) && loc.elem == "" {
			return term{}, false
		}
	}
	if at.elem == "" && loc.elem == "" && n.distinct(at.base, loc.base) {
		return term{}, false
	}
	return term{ver: n.ver(nver{kind: verKill, fr: fr, in: st, loc: loc})}, true
}

func (n *prover) isAlloc(t term) bool {
	_, ok := t.v.(*ssa.Alloc)
	return ok
}

// distinct: two objects that cannot be the same.
func (n *prover) distinct(a, b term) bool {
	if a == b {
		return false
	}
	_, pa := a.v.(*ssa.Parameter)
	_, pb := b.v.(*ssa.Parameter)
	aa, ab := n.isAlloc(a), n.isAlloc(b)
	if aa && ab || aa && pb || ab && pa {
		return true
	}
	// what was in memory before is not what was just made
	if aa && b.ver != nil && b.ver.kind == verEntry || ab && a.ver != nil && a.ver.kind == verEntry {
		return true
	}
	return false
}

// affects: 0 the call does not change the place, 1 through the argument (the place is
// the argument's), 2 maybe.
func (n *prover) affects(c *nctx, fr *nframe, call *ssa.Call, loc nloc, id string) int {
	if loc.base.fr != nil && loc.base.fr.up == fr && loc.base.fr.call == ssa.CallInstruction(call) {
		return 1
	}
	out := 0
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok && loc.elem != "" && (bi.Name() == "copy" || bi.Name() == "append") {
		if sl, ok := call.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			fit := false
			n.wholeMods(sl.Elem(), 0, func(m nmod) { fit = fit || m.fld == id })
			if fit {
				return 2
			}
		}
	}
	for _, g := range n.callees(call.Common()) {
		for m := range n.mods[g] {
			if m.fld != id {
				continue
			}
			if m.root < 0 || call.Call.IsInvoke() || call.Call.StaticCallee() != g {
				if loc.elem == "" && n.private(loc.base) {
					continue
				}
				return 2
			}
			if m.root >= len(call.Call.Args) {
				return 2
			}
			at, ok := n.place(c, fr, call.Call.Args[m.root])
			if !ok {
				return 2
			}
			if at.base == loc.base {
				out = 1
				continue
			}
			if n.distinct(at.base, loc.base) {
				continue
			}
			return 2
		}
	}
	return out
}

// private: an object only this function holds.
func (n *prover) private(t term) bool {
	al, ok := t.v.(*ssa.Alloc)
	return ok && privateStruct(al)
}

// called: what a call says about the content of a place.
func (n *prover) called(c *nctx, fr *nframe, call *ssa.Call, loc nloc, id string, d int) (term, bool) {
	how := n.affects(c, fr, call, loc, id)
	if how == 0 {
		return term{}, false
	}
	sym := term{ver: n.ver(nver{kind: verCall, fr: fr, in: call, loc: loc})}
	if how == 2 {
		return sym, true
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return sym, true
	}
	rets := n.returns(g)
	k, ok := c.choice[nchoice{fr: fr, c: call}]
	kid := n.enter(fr, call)
	if kid == nil {
		return sym, true
	}
	if !ok {
		if len(rets) != 1 || !simple(g) && !(loc.base.fr != nil && loc.base.fr.inside(kid)) {
			return sym, true
		}
		k = 0
	}
	ret := rets[k]
	return n.at(c, kid, ret.Block(), indexIn(ret), loc, d+1), true
}

// reversion looks at a version again after more has been chosen.
func (n *prover) reversion(c *nctx, v *nver) (term, bool) {
	switch v.kind {
	case verPhi:
		if k, ok := c.choice[nchoice{fr: v.fr, b: v.blk}]; ok {
			p := v.blk.Preds[k]
			return n.at(c, v.fr, p, len(p.Instrs), v.loc, 0), true
		}
	case verCall:
		call := v.in.(*ssa.Call)
		if _, ok := c.choice[nchoice{fr: v.fr, c: call}]; ok {
			return n.at(c, v.fr, call.Block(), indexIn(call)+1, n.reloc(c, v.loc), 0), true
		}
	case verDef:
		if l := n.reloc(c, v.loc); l != v.loc {
			return n.at(c, v.fr, v.in.Block(), indexIn(v.in)+1, l, 0), true
		}
	}
	return term{}, false
}

// reloc looks at the object of a place again.
func (n *prover) reloc(c *nctx, l nloc) nloc {
	b := n.canon(c, l.base)
	if b == l.base {
		return l
	}
	if b.ver == nil && l.elem == "" {
		if pl, ok := n.place(c, b.fr, b.v); ok {
			pl.path += l.path
			return pl
		}
	}
	return nloc{base: b, elem: l.elem, path: l.path}
}

// ---- linear forms

func (n *prover) lin(c *nctx, t term) nlin { return n.linD(c, t, 0) }

func (n *prover) linD(c *nctx, t term, d int) nlin {
	t = n.canon(c, t)
	if t.ver != nil {
		return n.symLin(nsym{t: t})
	}
	if d > 30 {
		return n.symLin(nsym{t: t})
	}
	switch v := t.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nconst(0)
		}
		if k, ok := constInt(v); ok {
			return nconst(k)
		}
		if b, ok := constBool(v); ok {
			return nconst(asInt(b))
		}
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeInterface, *ssa.Builtin:
		// pointers count 1, nil counts 0
		return nconst(1)
	case *ssa.ChangeInterface:
		return n.linD(c, term{fr: t.fr, v: v.X}, d+1)
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.SUB:
			k := int64(1)
			if v.Op == token.SUB {
				k = -1
			}
			if isInteger(v.Type()) && !smallInt(v.Type()) {
				return n.linD(c, term{fr: t.fr, v: v.X}, d+1).add(n.linD(c, term{fr: t.fr, v: v.Y}, d+1), k)
			}
		case token.MUL:
			x, y := n.linD(c, term{fr: t.fr, v: v.X}, d+1), n.linD(c, term{fr: t.fr, v: v.Y}, d+1)
			if len(x.m) == 0 {
				return nconst(0).add(y, x.c)
			}
			if len(y.m) == 0 {
				return nconst(0).add(x, y.c)
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return nconst(1).add(n.linD(c, term{fr: t.fr, v: v.X}, d+1), -1)
		}
		if v.Op == token.SUB && isInteger(v.Type()) {
			return nconst(0).add(n.linD(c, term{fr: t.fr, v: v.X}, d+1), -1)
		}
	case *ssa.Convert:
		if isInteger(v.Type()) && isInteger(v.X.Type()) && keepsValue(v.X.Type(), v.Type()) {
			return n.linD(c, term{fr: t.fr, v: v.X}, d+1)
		}
	case *ssa.Call:
		if calleeName(v.Common()) == "builtin.len" && (!isMapType(v.Call.Args[0].Type()) || n.steady(v.Parent(), v.Call.Args[0].Type())) {
			return n.lenD(c, term{fr: t.fr, v: v.Call.Args[0]}, d+1)
		}
	}
	if f, ok := t.v.(*ssa.Field); ok {
		x, path := f.X, strconv.Itoa(f.Field)
		for {
			if f2, ok := x.(*ssa.Field); ok {
				path = strconv.Itoa(f2.Field) + "." + path
				x = f2.X
				continue
			}
			break
		}
		return n.symLin(nsym{t: n.canon(c, term{fr: t.fr, v: x}), fld: path})
	}
	return n.symLin(nsym{t: t})
}

func asInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// keepsValue: a conversion that changes no number.
func keepsValue(from, to types.Type) bool {
	u := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsUnsigned != 0
	}
	if u(from) == u(to) {
		return intSize(to) >= intSize(from)
	}
	return u(from) && intSize(to) > intSize(from)
}

// canBeNil: values of the type are nil or not.
func canBeNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// twoValued: counted as 0 or 1.
func twoValued(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsBoolean != 0
	}
	return canBeNil(t)
}

func smallInt(t types.Type) bool { return intSize(t) < 4 }

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (n *prover) length(c *nctx, t term) nlin { return n.lenD(c, t, 0) }

func (n *prover) lenD(c *nctx, t term, d int) nlin {
	t = n.canon(c, t)
	if t.ver != nil || d > 30 {
		return n.symLin(nsym{t: t, len: true})
	}
	switch v := t.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nconst(0)
		}
		if s, ok := constString(v); ok {
			return nconst(int64(len(s)))
		}
	case *ssa.Convert:
		if isString(v.Type()) && isByteSlice(v.X.Type()) || isByteSlice(v.Type()) && isString(v.X.Type()) || isByteSlice(v.Type()) && isByteSlice(v.X.Type()) || isString(v.Type()) && isString(v.X.Type()) {
			return n.lenD(c, term{fr: t.fr, v: v.X}, d+1)
		}
	case *ssa.Slice:
		var hi nlin
		if v.High != nil {
			hi = n.linD(c, term{fr: t.fr, v: v.High}, d+1)
		} else {
			hi = n.lenD(c, term{fr: t.fr, v: v.X}, d+1)
		}
		if v.Low != nil {
			return hi.add(n.linD(c, term{fr: t.fr, v: v.Low}, d+1), -1)
		}
		return hi
	case *ssa.BinOp:
		if v.Op == token.ADD && isString(v.Type()) {
			return n.lenD(c, term{fr: t.fr, v: v.X}, d+1).add(n.lenD(c, term{fr: t.fr, v: v.Y}, d+1), 1)
		}
	case *ssa.MakeSlice:
		return n.linD(c, term{fr: t.fr, v: v.Len}, d+1)
	case *ssa.Alloc:
		if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
			return nconst(a.Len())
		}
	case *ssa.Call:
		if calleeName(v.Common()) == "builtin.append" {
			return n.lenD(c, term{fr: t.fr, v: v.Call.Args[0]}, d+1).add(n.lenD(c, term{fr: t.fr, v: v.Call.Args[1]}, d+1), 1)
		}
		switch calleeName(v.Common()) {
		case "builtin.String", "builtin.Slice":
			return n.linD(c, term{fr: t.fr, v: v.Call.Args[1]}, d+1)
		case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
			if l, ok := n.written(c, t.fr, v, d); ok {
				return l
			}
		}
	case *ssa.UnOp:
		// an element of a table whose rows all have one length
		if v.Op == token.MUL {
			if l, ok := n.rowLen(c, t.fr, v); ok {
				return l
			}
		}
	}
	if p, ok := t.v.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return nconst(a.Len())
		}
	}
	if a, ok := t.v.Type().Underlying().(*types.Array); ok {
		return nconst(a.Len())
	}
	return n.symLin(nsym{t: t, len: true})
}

// written is the length of what has been written to a local buffer in one go.
func (n *prover) written(c *nctx, fr *nframe, get *ssa.Call, d int) (nlin, bool) {
	al, ok := get.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return nlin{}, false
	}
	sum := nconst(0)
	for _, r := range *al.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 || call.Call.Args[0] != ssa.Value(al) {
			return nlin{}, false
		}
		name := calleeName(call.Common())
		switch name[strings.LastIndex(name, ".")+1:] {
		case "String", "Bytes", "Len", "Grow":
			continue
		case "Write", "WriteString":
			sum = sum.add(n.lenD(c, term{fr: fr, v: call.Call.Args[1]}, d+1), 1)
		case "WriteByte":
			sum.c++
		default:
			return nlin{}, false
		}
		if call.Block() != get.Block() || indexIn(call) > indexIn(get) || n.inLoop(al, call) {
			return nlin{}, false
		}
	}
	return sum, true
}

// inLoop: the instruction can run more often than the object is made.
func (n *prover) inLoop(al *ssa.Alloc, in ssa.Instruction) bool {
	for _, l := range n.loopsOf(al.Parent()) {
		if l.Body[in.Block()] && !l.Body[al.Block()] {
			return true
		}
	}
	return false
}

// rowLen: the load takes a row of a table made in this function, in which a loop over
// all rows has put rows of one length.
func (n *prover) rowLen(c *nctx, fr *nframe, ld *ssa.UnOp) (nlin, bool) {
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return nlin{}, false
	}
	table := n.canon(c, term{fr: fr, v: ia.X})
	mk, _ := table.v.(*ssa.MakeSlice)
	refs := []ssa.Instruction{}
	var made ssa.Instruction = ld
	if call, ok := table.v.(*ssa.Call); ok && call.Parent() == ld.Parent() {
		// made by a function of its own
		g := call.Call.StaticCallee()
		if g == nil || !n.p.InLib(g) || len(n.returns(g)) != 1 || g.Signature.Results().Len() != 1 {
			return nlin{}, false
		}
		ret := n.returns(g)[0]
		mk, _ = resultValue(ret, 0).(*ssa.MakeSlice)
		if fr = n.enter(fr, call); mk == nil || fr == nil {
			return nlin{}, false
		}
		made = ret
		for _, r := range *call.Referrers() {
			if x, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *x.Referrers() {
					if _, ok := r2.(*ssa.Store); ok {
						return nlin{}, false
					}
				}
				continue
			}
			refs = append(refs, r)
		}
	} else if mk == nil || mk.Parent() != ld.Parent() {
		return nlin{}, false
	}
	var row *ssa.Store
	for _, ref := range append(refs, *mk.Referrers()...) {
		switch x := ref.(type) {
		case *ssa.Return:
			if ssa.Instruction(x) != made {
				return nlin{}, false
			}
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if row != nil {
						return nlin{}, false
					}
					row = st
				}
			}
		case *ssa.Call:
			if calleeName(x.Common()) != "builtin.len" {
				return nlin{}, false
			}
		case *ssa.DebugRef:
		default:
			return nlin{}, false
		}
	}
	if row == nil {
		return nlin{}, false
	}
	rm, ok := row.Val.(*ssa.MakeSlice)
	if !ok {
		return nlin{}, false
	}
	// in a loop over all rows that is over before the load
	idx, ok := row.Addr.(*ssa.IndexAddr)
	if !ok {
		return nlin{}, false
	}
	for _, l := range n.loopsOf(made.Parent()) {
		if !l.Body[row.Block()] || l.Body[made.Block()] || !l.Head.Dominates(made.Block()) {
			continue
		}
		for _, la := range l.Latch {
			if !row.Block().Dominates(la) {
				return nlin{}, false
			}
		}
		if n.covers(c, fr, l, idx.Index, n.lin(c, term{fr: fr, v: mk.Len})) {
			return n.lin(c, term{fr: fr, v: rm.Len}), true
		}
	}
	return nlin{}, false
}

// covers: the index takes every value from 0 to the length of the slice.
func (n *prover) covers(c *nctx, fr *nframe, l *Loop, idx ssa.Value, size nlin) bool {
	iff, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If)
	if !ok || l.Body[l.Head.Succs[1]] {
		return false
	}
	for b := range l.Body {
		for _, s := range b.Succs {
			if !l.Body[s] && b != l.Head {
				return false
			}
		}
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var phi *ssa.Phi
	bound := n.lin(c, term{fr: fr, v: cmp.Y})
	switch cmp.Op {
	case token.LSS:
	case token.LEQ:
		bound = bound.add(nconst(1), 1)
	default:
		return false
	}
	if bound.key() != size.key() || cmp.X != idx {
		return false
	}
	first := int64(0)
	if p, ok := idx.(*ssa.Phi); ok {
		phi = p
	} else if a, ok := idx.(*ssa.BinOp); ok && a.Op == token.ADD {
		// range: the index is the phi plus one
		p, ok1 := a.X.(*ssa.Phi)
		k, ok2 := constInt(a.Y)
		if !ok1 || !ok2 || k != 1 {
			return false
		}
		phi, first = p, -1
	}
	if phi == nil || phi.Block() != l.Head {
		return false
	}
	for i, e := range phi.Edges {
		if l.Body[l.Head.Preds[i]] {
			step := e
			if first == 0 {
				a, ok := step.(*ssa.BinOp)
				if !ok || a.Op != token.ADD || a.X != ssa.Value(phi) {
					return false
				}
				if k, ok := constInt(a.Y); !ok || k != 1 {
					return false
				}
			} else if step != idx {
				return false
			}
			continue
		}
		if k, ok := constInt(e); !ok || k != first {
			return false
		}
	}
	return true
}

// relin computes a form again after more has been chosen.
func (n *prover) relin(c *nctx, l nlin) nlin {
	out := nconst(l.c)
	for _, s := range l.ids() {
		k := l.m[s]
		y := n.syms[s]
		var x nlin
		switch {
		case y.fld != "":
			t := n.canon(c, y.t)
			if f, ok := n.field(c, t, y.fld); ok {
				x = n.lin(c, f)
			} else {
				x = n.symLin(nsym{t: t, fld: y.fld})
			}
		case y.len:
			x = n.length(c, y.t)
		default:
			x = n.lin(c, y.t)
		}
		out = out.add(x, k)
	}
	return out
}

func (n *prover) show(l nlin) string {
	var parts []string
	for _, s := range l.ids() {
		y := n.syms[s]
		name := n.showTerm(y.t)
		if y.fld != "" {
			name += "." + y.fld
		}
		if y.len {
			name = "len(" + name + ")"
		}
		parts = append(parts, fmt.Sprintf("%+d*%s", l.m[s], name))
	}
	return strings.Join(parts, " ") + fmt.Sprintf(" %+d >= 0", l.c)
}

func (n *prover) showTerm(t term) string {
	if t.ver != nil {
		v := t.ver
		k := []string{"entry", "call", "phi", "kill", "def"}[v.kind]
		w := ""
		if v.in != nil {
			w = fmt.Sprint(v.in)
		}
		if v.blk != nil {
			w = fmt.Sprintf("%s:%d", v.fr.fn.Name(), v.blk.Index)
		}
		return fmt.Sprintf("%s%s%s@%s(%s)", n.showTerm(v.loc.base), v.loc.elem, v.loc.path, k, w)
	}
	if t.v == nil {
		return "?"
	}
	f := ""
	if t.fr != nil {
		f = t.fr.fn.Name() + "/" + strconv.Itoa(t.fr.depth) + "."
	}
	return f + t.v.Name()
}
