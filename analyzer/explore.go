package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is the path explorer: a virtual-inlining walk over the control-flow
// graph of an entry function. Library callees are walked in the context of the
// call site, so what a helper tests or returns is seen exactly as if its body
// stood at the call. Along the walk only symbolic bindings are kept (which
// value a merge or a call result stands for, which tests were decided), so the
// state space is finite and nothing is executed.

// Frame is one activation in the virtual inlining.
type Frame struct {
	up    *Frame
	call  ssa.CallInstruction
	fn    *ssa.Function
	clo   *ssa.MakeClosure
	cloFr *Frame
	id    int
	kids  map[ssa.CallInstruction]map[*ssa.Function]*Frame
}

func (f *Frame) onStack(fn *ssa.Function) bool {
	for g := f; g != nil; g = g.up {
		if g.fn == fn {
			return true
		}
	}
	return false
}

func (f *Frame) within(g *Frame) bool {
	for x := f; x != nil; x = x.up {
		if x == g {
			return true
		}
	}
	return false
}

// AV is an abstract value: an SSA value in a frame, or (nonnil) an unknown
// value known not to be nil. Constants have a nil frame.
type AV struct {
	fr     *Frame
	v      ssa.Value
	idx    int // for tuple-valued calls: result index + 1
	nonnil bool
}

type fkey struct {
	fr  *Frame
	v   ssa.Value
	idx int
}

// State is a point of the walk.
type State struct {
	fr     *Frame
	blk    *ssa.BasicBlock
	idx    int
	facts  map[fkey]AV
	Bits   uint64
	Ext    string // client typestate
	parent *State
	note   string
}

func (s *State) clone() *State {
	n := *s
	n.facts = make(map[fkey]AV, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.parent = s
	n.note = ""
	return &n
}

// Explorer walks one entry function.
type Explorer struct {
	p     *Program
	Enter func(x *Explorer, st *State, call ssa.CallInstruction, callee *ssa.Function) bool
	// Edge is called for each feasible branch direction; returning false cuts it.
	Edge func(x *Explorer, st *State, iff *ssa.If, taken bool) bool
	// Instr is called for every instruction; returning false ends the path.
	Instr func(x *Explorer, st *State, in ssa.Instruction) bool
	// Ret is called for returns of the entry function.
	Ret func(x *Explorer, st *State, ret *ssa.Return)
	// AnyRet is called for returns of inlined functions; returning false ends the path.
	AnyRet func(x *Explorer, st *State, ret *ssa.Return) bool
	// Decide may fix the outcome of a condition: 0 unknown, 1 true, -1 false.
	Decide func(x *Explorer, st *State, cond ssa.Value) int
	// Pre is called for every instruction before its result is redefined.
	Pre      func(x *Explorer, st *State, in ssa.Instruction)
	TrackInt bool
	Mem      bool  // follow stores to locals that only their own function accesses
	Fold     bool  // propagate constants through arithmetic, literal tables and known methods
	FoldMax  int64 // largest integer kept by Fold (default foldLimit)
	MaxNodes int

	root     *Frame
	nframes  int
	visited  map[string]bool
	Nodes    int
	Edges    int
	Overflow bool
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	immut    map[string]bool
	stop     bool
}

func newExplorer(p *Program) *Explorer {
	return &Explorer{p: p, visited: map[string]bool{}, MaxNodes: 200000,
		live:  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		immut: map[string]bool{}}
}

func (x *Explorer) newFrame(up *Frame, call ssa.CallInstruction, fn *ssa.Function) *Frame {
	if up != nil {
		if m := up.kids[call]; m != nil {
			if f := m[fn]; f != nil {
				return f
			}
		}
	}
	f := &Frame{up: up, call: call, fn: fn, id: x.nframes, kids: map[ssa.CallInstruction]map[*ssa.Function]*Frame{}}
	x.nframes++
	if up != nil {
		if up.kids[call] == nil {
			up.kids[call] = map[*ssa.Function]*Frame{}
		}
		up.kids[call][fn] = f
	}
	return f
}

// Stop ends the walk.
func (x *Explorer) Stop() { x.stop = true }

// Run walks fn from its entry.
func (x *Explorer) Run(fn *ssa.Function) {
	x.root = x.newFrame(nil, nil, fn)
	st := &State{fr: x.root, blk: fn.Blocks[0], facts: map[fkey]AV{}}
	x.RunFrom(st)
}

func (x *Explorer) RunFrom(st *State) {
	work := []*State{st}
	for len(work) > 0 && !x.stop {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := x.key(s)
		if x.visited[k] {
			continue
		}
		x.visited[k] = true
		x.Nodes++
		if x.Nodes > x.MaxNodes {
			x.Overflow = true
			return
		}
		succ := x.step(s)
		x.Edges += len(succ)
		work = append(work, succ...)
	}
}

func (x *Explorer) key(s *State) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d.%d.%x.%s|", s.fr.id, s.blk.Index, s.idx, s.Bits, s.Ext)
	if len(s.facts) > 0 {
		ks := make([]string, 0, len(s.facts))
		for k, v := range s.facts {
			ks = append(ks, fmt.Sprintf("%d:%s#%d=%s", k.fr.id, k.v.Name(), k.idx, avKey(v)))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ";"))
	}
	return sb.String()
}

// Sym is a value a check gives a meaning to; it can be bound like any other value
// and, having no frame, outlives the call that produced it.
type Sym struct {
	name string
	typ  types.Type
	atom int
	neg  bool
}

func (y *Sym) Name() string                         { return y.name }
func (y *Sym) String() string                       { return y.name }
func (y *Sym) Type() types.Type                     { return y.typ }
func (y *Sym) Parent() *ssa.Function                { return nil }
func (y *Sym) Referrers() *[]ssa.Instruction        { return nil }
func (y *Sym) Operands(r []*ssa.Value) []*ssa.Value { return r }
func (y *Sym) Pos() token.Pos                       { return token.NoPos }

func avKey(a AV) string {
	nn := ""
	if a.nonnil {
		nn = "!"
	}
	if c, ok := a.v.(*ssa.Const); ok {
		if c.Value == nil {
			return "c:nil"
		}
		return "c:" + c.Value.ExactString()
	}
	id := -1
	if a.fr != nil {
		id = a.fr.id
	}
	return fmt.Sprintf("%s%d:%s#%d", nn, id, a.v.Name(), a.idx)
}

func (x *Explorer) tracked(v ssa.Value) bool {
	t := v.Type().Underlying()
	switch t := t.(type) {
	case *types.Basic:
		if t.Info()&types.IsBoolean != 0 || t.Info()&types.IsString != 0 {
			return true
		}
		return x.TrackInt && t.Info()&types.IsNumeric != 0
	case *types.Interface, *types.Pointer, *types.Slice, *types.Signature, *types.Map:
		return true
	}
	return false
}

// liveness of a function: values live at entry of each block.
func (x *Explorer) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := x.live[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		m[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range m[s] {
					cur[v] = true
				}
				pi := predIndex(b, s)
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
					_ = pi
				}
				for j, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						cur[phi.Edges[j]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(cur, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// phis of b are defined at entry: keep them as live-in so that their
			// binding survives until the block runs
			for v := range cur {
				if !m[b][v] {
					m[b][v] = true
					changed = true
				}
			}
		}
	}
	// a value whose derived values are live is kept too: conditions look through
	// pure instructions to the values they were computed from
	for _, b := range f.Blocks {
		var add func(v ssa.Value, d int)
		add = func(v ssa.Value, d int) {
			in, ok := v.(ssa.Instruction)
			if !ok || d > 4 {
				return
			}
			switch in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Slice, *ssa.Extract, *ssa.Field:
				for _, op := range in.Operands(nil) {
					if *op != nil && !m[b][*op] {
						m[b][*op] = true
						add(*op, d+1)
					}
				}
			}
		}
		var vs []ssa.Value
		for v := range m[b] {
			vs = append(vs, v)
		}
		for _, v := range vs {
			add(v, 0)
		}
	}
	x.live[f] = m
	return m
}

// purge drops bindings that can no longer matter at the entry of s.blk.
func (x *Explorer) purge(s *State) {
	if len(s.facts) == 0 {
		return
	}
	live := x.liveIn(s.fr.fn)[s.blk]
	for k := range s.facts {
		if k.fr == s.fr {
			if !live[k.v] {
				// a tuple binding lives while its extracts are used
				if k.idx > 0 {
					used := false
					for _, r := range *k.v.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == k.idx-1 {
							if live[ex] || x.liveUse(ex, live) {
								used = true
							}
						}
					}
					if used {
						continue
					}
				}
				delete(s.facts, k)
			}
			continue
		}
		if !s.fr.within(k.fr) {
			// a finished callee: bindings were resolved when it returned
			delete(s.facts, k)
		}
	}
}

func (x *Explorer) liveUse(v ssa.Value, live map[ssa.Value]bool) bool {
	for _, r := range *v.Referrers() {
		if rv, ok := r.(ssa.Value); ok && live[rv] {
			return true
		}
	}
	return false
}

// redefine forgets what was known about a value that is computed anew.
func redefine(s *State, v ssa.Value) {
	for k, t := range s.facts {
		if (k.fr == s.fr && k.v == v) || (t.fr == s.fr && t.v == v) {
			delete(s.facts, k)
		}
	}
}

func (x *Explorer) step(s *State) []*State {
	b := s.blk
	for i := s.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if x.Pre != nil {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				s.idx = i
				x.Pre(x, s, in)
			}
		}
		if v, ok := in.(ssa.Value); ok && len(s.facts) > 0 {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				if v.Name() != "" {
					redefine(s, v)
				}
			}
		}
		if x.Instr != nil {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				s.idx = i
				if !x.Instr(x, s, in) {
					return nil
				}
			}
		}
		if x.Mem {
			x.memory(s, in)
		}
		switch in := in.(type) {
		case *ssa.Call:
			callee, clo, cloFr := x.callee(s, in)
			if callee != nil && callee.Blocks != nil && x.p.InLib(callee) && !s.fr.onStack(callee) &&
				(x.Enter == nil || x.Enter(x, s, in, callee)) {
				n := s.clone()
				n.fr = x.newFrame(s.fr, in, callee)
				n.fr.clo, n.fr.cloFr = clo, cloFr
				for k, t := range n.facts {
					if k.fr.within(n.fr) || (t.fr != nil && t.fr.within(n.fr)) {
						delete(n.facts, k)
					}
				}
				n.blk, n.idx = callee.Blocks[0], 0
				return []*State{n}
			}
		case *ssa.Return:
			if s.fr.up == nil {
				if x.Ret != nil {
					x.Ret(x, s, in)
				}
				return nil
			}
			if x.AnyRet != nil && !x.AnyRet(x, s, in) {
				return nil
			}
			return []*State{x.doReturn(s, in)}
		case *ssa.Panic:
			return nil
		case *ssa.Jump:
			return []*State{x.goTo(s, b, b.Succs[0])}
		case *ssa.If:
			dec := x.evalBool(s, in.Cond)
			if dec == 0 && x.Decide != nil {
				dec = x.Decide(x, s, in.Cond)
			}
			var out []*State
			for _, taken := range []bool{false, true} {
				if dec == 1 && !taken || dec == -1 && taken {
					continue
				}
				n := s.clone()
				n.idx = i
				if x.Edge != nil && !x.Edge(x, n, in, taken) {
					continue
				}
				x.assume(n, in.Cond, taken)
				to := b.Succs[1]
				if taken {
					to = b.Succs[0]
				}
				if b.Succs[0] == b.Succs[1] {
					to = b.Succs[0]
				}
				m := x.goToFrom(n, b, to, taken)
				m.parent = s
				m.note = fmt.Sprintf("%s: branch %v in %s", x.p.At(in), taken, x.p.shortName(s.fr.fn))
				out = append(out, m)
			}
			return out
		}
	}
	return nil
}

func (x *Explorer) callee(s *State, call *ssa.Call) (*ssa.Function, *ssa.MakeClosure, *Frame) {
	cc := call.Common()
	if cc.IsInvoke() {
		if x.Fold {
			if mi, ok := x.resolve(s, AV{fr: s.fr, v: cc.Value}).v.(*ssa.MakeInterface); ok {
				return x.p.Prog.LookupMethod(mi.X.Type(), cc.Method.Pkg(), cc.Method.Name()), nil, nil
			}
		}
		return nil, nil, nil
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return v, nil, nil
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return f, v, s.fr
	case *ssa.Builtin:
		return nil, nil, nil
	}
	a := x.resolve(s, AV{fr: s.fr, v: cc.Value})
	switch v := a.v.(type) {
	case *ssa.Function:
		return v, nil, nil
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return f, v, a.fr
	}
	return nil, nil, nil
}

func (x *Explorer) doReturn(s *State, ret *ssa.Return) *State {
	n := s.clone()
	call := s.fr.call.(*ssa.Call)
	var vals []AV
	for _, r := range ret.Results {
		v := x.resolve(s, AV{fr: s.fr, v: r})
		if isBool(r.Type()) {
			// decided conditions are kept as such: their operands go out of scope
			if d := x.evalBoolAV(s, v, 0); d != 0 {
				v = boolAV(d > 0)
			}
		}
		vals = append(vals, v)
	}
	up := s.fr.up
	n.fr = up
	n.blk = call.Block()
	n.idx = indexIn(call) + 1
	for k := range n.facts {
		if k.fr.within(s.fr) {
			delete(n.facts, k)
		}
	}
	for i, v := range vals {
		idx := 0
		if len(vals) > 1 {
			idx = i + 1
		}
		if x.tracked(ret.Results[i]) || isStruct(ret.Results[i].Type()) {
			n.facts[fkey{up, call, idx}] = v
		}
	}
	return n
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (x *Explorer) goTo(s *State, from, to *ssa.BasicBlock) *State {
	return x.goToFrom(s, from, to, true)
}

func (x *Explorer) goToFrom(s *State, from, to *ssa.BasicBlock, taken bool) *State {
	n := s.clone()
	n.blk, n.idx = to, 0
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			if !(len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && !taken) {
				break
			}
		}
	}
	type upd struct {
		k fkey
		v AV
		s bool
	}
	var ups []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := fkey{s.fr, phi, 0}
		if x.tracked(phi) || isStruct(phi.Type()) {
			v := x.resolve(s, AV{fr: s.fr, v: phi.Edges[pi]})
			if x.Fold && isBool(phi.Type()) {
				if d := x.evalBoolAV(s, v, 0); d != 0 {
					v = boolAV(d > 0)
				}
			}
			if v.v == ssa.Value(phi) && v.fr == s.fr {
				// unchanged: keep what is known
				if old, ok := s.facts[k]; ok {
					ups = append(ups, upd{k, old, true})
				} else {
					ups = append(ups, upd{k, AV{}, false})
				}
				continue
			}
			ups = append(ups, upd{k, v, true})
		} else {
			ups = append(ups, upd{k, AV{}, false})
		}
	}
	for _, u := range ups {
		redefine(n, u.k.v)
	}
	for _, u := range ups {
		if u.s {
			// a binding to another phi of this same block would be stale
			if u.v.fr == s.fr && computedFrom(u.v.v, to, 0) {
				if _, first, ok := ascending(u.v.v); ok && first >= 0 && x.Fold && u.k.v != u.v.v {
					// an earlier value of a loop variable: only its sign is kept
					if _, _, self := ascending(u.k.v); !self {
						n.facts[u.k] = AV{v: nonNegative}
					}
				}
				continue
			}
			n.facts[u.k] = u.v
		}
	}
	x.purge(n)
	return n
}

// nonNegative stands for some number that is not negative.
var nonNegative = &Sym{name: "$nonneg", typ: types.Typ[types.Int]}

// computedFrom: v is arithmetic on a phi of the block.
func computedFrom(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Block() == b
	case *ssa.BinOp:
		return d < 6 && !isBool(v.Type()) && (computedFrom(v.X, b, d+1) || computedFrom(v.Y, b, d+1))
	case *ssa.Convert:
		return d < 6 && computedFrom(v.X, b, d+1)
	}
	return false
}

// assume records the outcome of a condition.
func (x *Explorer) assume(s *State, cond ssa.Value, truth bool) {
	fr := s.fr
	for depth := 0; depth < 8; depth++ {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, truth = u.X, !truth
			continue
		}
		a := x.resolve(s, AV{fr: fr, v: cond})
		if a.v != cond || a.fr != fr {
			s.facts[fkey{fr, cond, 0}] = boolAV(truth)
			if a.fr == nil {
				return
			}
			fr, cond = a.fr, a.v
			continue
		}
		break
	}
	if _, isC := cond.(*ssa.Const); isC {
		return
	}
	s.facts[fkey{fr, cond, 0}] = boolAV(truth)
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		eq := (bo.Op == token.EQL) == truth
		lhs, rhs := bo.X, bo.Y
		if _, isC := lhs.(*ssa.Const); isC {
			lhs, rhs = rhs, lhs
		}
		if isNilConst(rhs) {
			a := x.resolve(s, AV{fr: fr, v: lhs})
			if a.fr == nil || a.nonnil {
				return
			}
			k := fkey{a.fr, a.v, a.idx}
			if eq {
				s.facts[k] = AV{v: rhs}
			} else {
				s.facts[k] = AV{nonnil: true, fr: a.fr, v: a.v, idx: a.idx}
			}
			// also under the local name: bindings of finished callees are dropped
			if a.fr != fr && !isParamOrConst(lhs) {
				s.facts[fkey{fr, lhs, 0}] = s.facts[k]
			}
		}
	}
}

func isParamOrConst(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.Const, *ssa.FreeVar, *ssa.Global:
		return true
	}
	return false
}

func boolAV(b bool) AV {
	return AV{v: ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool])}
}

// resolve follows bindings, parameters and pure renamings.
func (x *Explorer) resolve(s *State, a AV) AV {
	for n := 0; n < 64; n++ {
		if a.nonnil || a.v == nil {
			return a
		}
		if _, ok := a.v.(*ssa.Const); ok {
			return AV{v: a.v}
		}
		if a.fr != nil {
			if t, ok := s.facts[fkey{a.fr, a.v, a.idx}]; ok {
				if t == a {
					return a
				}
				a = t
				continue
			}
		}
		switch v := a.v.(type) {
		case *ssa.Parameter:
			fr := a.fr
			if fr == nil || fr.up == nil || v.Parent() != fr.fn {
				return a
			}
			i := paramIndex(v)
			args := fr.call.Common().Args
			if fr.call.Common().IsInvoke() {
				if i == 0 {
					return a
				}
				i--
			}
			if i >= len(args) {
				return a
			}
			a = AV{fr: fr.up, v: args[i]}
			continue
		case *ssa.FreeVar:
			fr := a.fr
			if fr == nil || fr.clo == nil || v.Parent() != fr.fn {
				return a
			}
			for i, fv := range fr.fn.FreeVars {
				if fv == v {
					a = AV{fr: fr.cloFr, v: fr.clo.Bindings[i]}
					break
				}
			}
			continue
		case *ssa.ChangeType:
			a = AV{fr: a.fr, v: v.X}
			continue
		case *ssa.ChangeInterface:
			a = AV{fr: a.fr, v: v.X}
			continue
		case *ssa.Extract:
			if lk, ok := v.Tuple.(*ssa.Lookup); ok && x.Fold {
				if t, ok := x.foldLookup(s, a.fr, lk, v.Index); ok {
					return t
				}
			}
			if c, ok := v.Tuple.(*ssa.Call); ok {
				k := fkey{a.fr, c, v.Index + 1}
				if t, ok := s.facts[k]; ok {
					a = t
					continue
				}
				return AV{fr: a.fr, v: c, idx: v.Index + 1}
			}
			return a
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if t, ok := x.loadOf(s, a.fr, v.X); ok {
					a = t
					continue
				}
				if x.Fold {
					if t, ok := x.foldLoad(s, a.fr, v.X); ok {
						a = t
						continue
					}
				}
			}
			return a
		default:
			if x.Fold {
				if t, ok := x.fold(s, a); ok {
					return t
				}
			}
			return a
		}
	}
	return a
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

// addrOf resolves an address to an allocation and a field path.
func (x *Explorer) addrOf(s *State, fr *Frame, v ssa.Value) (AV, []int, bool) {
	var path []int
	a := AV{fr: fr, v: v}
	for n := 0; n < 32; n++ {
		a = x.resolve(s, a)
		switch w := a.v.(type) {
		case *ssa.FieldAddr:
			path = append([]int{w.Field}, path...)
			a = AV{fr: a.fr, v: w.X}
			continue
		case *ssa.Alloc:
			return a, path, true
		}
		return a, path, false
	}
	return a, path, false
}

// loadOf resolves a load from a write-once local or from a field that is only
// ever written while its object is being constructed.
func (x *Explorer) loadOf(s *State, fr *Frame, addr ssa.Value) (AV, bool) {
	base, path, ok := x.addrOf(s, fr, addr)
	if !ok {
		return AV{}, false
	}
	al := base.v.(*ssa.Alloc)
	if len(path) == 0 {
		if isStruct(al.Type().Underlying().(*types.Pointer).Elem()) {
			return AV{}, false
		}
		val, _ := soleStoreAll(al)
		if val == nil {
			return AV{}, false
		}
		return AV{fr: base.fr, v: val}, true
	}
	return x.loadPath(s, base, path, 0)
}

// loadPath resolves the value of the field at path of an allocated object.
func (x *Explorer) loadPath(s *State, base AV, path []int, d int) (AV, bool) {
	al := base.v.(*ssa.Alloc)
	if d > 6 {
		return AV{}, false
	}
	if !x.immutable(al.Type().Underlying().(*types.Pointer).Elem(), path) {
		// a local struct nobody else can write
		if !privateStruct(al) {
			return AV{}, false
		}
	}
	st, rest := storesTo(al, path)
	if len(st) != 1 {
		return AV{}, false
	}
	if len(rest[0]) == 0 {
		return AV{fr: base.fr, v: st[0].Val}, true
	}
	// the enclosing struct was copied from another object
	ld, ok := st[0].Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return AV{}, false
	}
	b2, p2, ok := x.addrOf(s, base.fr, ld.X)
	if c, isCall := b2.v.(*ssa.Call); !ok && isCall && b2.idx == 0 && b2.fr != nil {
		// made by a constructor that has returned since
		if g := c.Call.StaticCallee(); g != nil && x.p.InLib(g) && !b2.fr.onStack(g) {
			if rets := returnsOf(g); len(rets) == 1 && len(rets[0].Results) == 1 {
				b2, p2, ok = x.addrOf(s, x.newFrame(b2.fr, c, g), rets[0].Results[0])
			}
		}
	}
	if !ok {
		return AV{}, false
	}
	return x.loadPath(s, b2, append(append([]int{}, p2...), rest[0]...), d+1)
}

// storesTo lists the stores of the allocating function that write the field at
// path, with the part of the path that lies inside the stored value.
func storesTo(al *ssa.Alloc, path []int) (out []*ssa.Store, rest [][]int) {
	instrs(al.Parent(), func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		b2, p2 := localPath(st.Addr)
		if b2 != ssa.Value(al) || len(p2) > len(path) || !samePath(p2, path[:len(p2)]) {
			return
		}
		out = append(out, st)
		rest = append(rest, path[len(p2):])
	})
	return out, rest
}

// privateStruct reports whether a struct local is only accessed by direct field
// loads and stores and whole loads in its own function.
func privateStruct(al *ssa.Alloc) bool {
	ok := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch in := r.(type) {
			case *ssa.FieldAddr:
				walk(in)
			case *ssa.UnOp:
			case *ssa.Store:
				if in.Addr != v {
					ok = false
				}
			case *ssa.DebugRef:
			default:
				ok = false
			}
		}
	}
	walk(al)
	return ok
}

// soleStoreAll is soleStore, also looking at closures that capture the local.
func soleStoreAll(al *ssa.Alloc) (ssa.Value, *ssa.Store) {
	var st *ssa.Store
	n := 0
	bad := false
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 5 {
			bad = true
			return
		}
		for _, r := range *v.Referrers() {
			switch in := r.(type) {
			case *ssa.Store:
				if in.Addr == v {
					n++
					st = in
				} else {
					bad = true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				f, _ := in.Fn.(*ssa.Function)
				if f == nil {
					bad = true
					return
				}
				for i, bnd := range in.Bindings {
					if bnd == v {
						walk(f.FreeVars[i], d+1)
					}
				}
			default:
				bad = true
			}
		}
	}
	walk(al, 0)
	if bad || n != 1 || st.Parent() != al.Parent() {
		return nil, nil
	}
	return st.Val, st
}

func localPath(v ssa.Value) (ssa.Value, []int) {
	var path []int
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return v, path
		}
		path = append([]int{fa.Field}, path...)
		v = fa.X
	}
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// immutable reports whether the field at path of struct type t is only written
// into freshly allocated objects by the function that allocates them.
func (x *Explorer) immutable(t types.Type, path []int) bool {
	// walk to the struct that directly holds the field
	for len(path) > 1 {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		t = st.Field(path[0]).Type()
		path = path[1:]
	}
	return x.p.immutableField(t, path[0])
}

func (p *Program) immutableField(t types.Type, field int) bool {
	key := fmt.Sprintf("%s.%d", t.String(), field)
	if p.immut == nil {
		p.immut = map[string]bool{}
	}
	if v, ok := p.immut[key]; ok {
		return v
	}
	ok := true
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if !ok {
				return
			}
			switch in := in.(type) {
			case *ssa.Store:
				base, _ := localPath(in.Addr)
				_, fresh := base.(*ssa.Alloc)
				if fa, isFA := in.Addr.(*ssa.FieldAddr); isFA && fa.Field == field && types.Identical(deref(fa.X.Type()), t) && !fresh {
					ok = false
				}
				// overwriting a whole object of the type
				if pt, isP := in.Addr.Type().Underlying().(*types.Pointer); isP && containsType(pt.Elem(), t, 0) && !fresh {
					ok = false
				}
			case *ssa.FieldAddr:
				if in.Field == field && types.Identical(deref(in.X.Type()), t) {
					// the address of the field must not be kept
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if r.Addr != ssa.Value(in) {
								ok = false
							}
						case ssa.CallInstruction:
							// method call on an embedded field is fine for struct fields
							if !isStruct(deref(in.Type())) {
								ok = false
							}
						default:
							ok = false
						}
					}
				}
			}
		})
	}
	p.immut[key] = ok
	return ok
}

func containsType(outer, inner types.Type, d int) bool {
	if types.Identical(outer, inner) {
		return true
	}
	if d > 4 {
		return false
	}
	if st, ok := outer.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isStruct(st.Field(i).Type()) && containsType(st.Field(i).Type(), inner, d+1) {
				return true
			}
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// nilness: -1 nil, 1 non-nil, 0 unknown.
func (x *Explorer) nilness(s *State, fr *Frame, v ssa.Value) int {
	a := x.resolve(s, AV{fr: fr, v: v})
	return x.nilnessAV(a)
}

func (x *Explorer) nilnessAV(a AV) int {
	if a.nonnil {
		return 1
	}
	switch v := a.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return -1
		}
		return 1
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return 1
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "fmt.Errorf", "errors.New":
			return 1
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if x.p.constErrorGlobal(g) {
				return 1
			}
		}
	}
	return 0
}

// constErrorGlobal: a package-level error created once at start-up.
func (p *Program) constErrorGlobal(g *ssa.Global) bool {
	if !isErrorType(deref(g.Type())) || g.Pkg == nil || !p.inLib[g.Pkg] {
		return false
	}
	n, good := 0, true
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				n++
				c, isCall := st.Val.(*ssa.Call)
				if !isCall || f.Name() != "init" {
					good = false
					return
				}
				switch calleeName(c.Common()) {
				case "errors.New", "fmt.Errorf":
				default:
					good = false
				}
			}
		})
	}
	return n == 1 && good
}

// evalBool decides a condition from what is known: 1 true, -1 false, 0 unknown.
func (x *Explorer) evalBool(s *State, cond ssa.Value) int {
	return x.evalBoolAV(s, AV{fr: s.fr, v: cond}, 0)
}

func (x *Explorer) evalBoolAV(s *State, a AV, d int) int {
	if d > 10 {
		return 0
	}
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Const:
		if b, ok := constBool(v); ok {
			if b {
				return 1
			}
			return -1
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return -x.evalBoolAV(s, AV{fr: a.fr, v: v.X}, d+1)
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return 0
		}
		l := x.resolve(s, AV{fr: a.fr, v: v.X})
		r := x.resolve(s, AV{fr: a.fr, v: v.Y})
		if v.Op == token.EQL || v.Op == token.NEQ {
			res := 0
			if isNilConst(r.v) && !r.nonnil {
				res = -x.nilnessAV(l)
			} else if isNilConst(l.v) && !l.nonnil {
				res = -x.nilnessAV(r)
			} else if isBool(v.X.Type()) {
				lb, rb := x.evalBoolAV(s, l, d+1), x.evalBoolAV(s, r, d+1)
				res = lb * rb
			}
			if res != 0 {
				if v.Op == token.NEQ {
					return -res
				}
				return res
			}
		}
		lc, ok1 := l.v.(*ssa.Const)
		rc, ok2 := r.v.(*ssa.Const)
		if ok1 && ok2 && lc.Value != nil && rc.Value != nil && !l.nonnil && !r.nonnil {
			if lc.Value.Kind() == rc.Value.Kind() {
				if constant.Compare(lc.Value, v.Op, rc.Value) {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Trace renders the branch decisions and calls that led to a state.
func (x *Explorer) Trace(s *State) []string {
	var out []string
	for f := s.fr; f != nil && f.up != nil; f = f.up {
		out = append([]string{"in " + x.p.shortName(f.fn) + " called at " + x.p.At(f.call)}, out...)
	}
	var br []string
	for t := s; t != nil; t = t.parent {
		if t.note != "" {
			br = append([]string{t.note}, br...)
		}
	}
	if len(br) > 12 {
		br = br[len(br)-12:]
	}
	return append(out, br...)
}

// content strips conversions that keep the bytes of a string or byte slice.
func (x *Explorer) content(s *State, a AV) AV {
	for n := 0; n < 32; n++ {
		a = x.resolve(s, a)
		switch v := a.v.(type) {
		case *ssa.Convert:
			if (isString(v.Type()) || isByteSlice(v.Type())) && (isString(v.X.Type()) || isByteSlice(v.X.Type())) {
				a = AV{fr: a.fr, v: v.X}
				continue
			}
		case *ssa.Slice:
			if v.Low == nil && v.High == nil && !isPtrToArray(v.X.Type()) {
				a = AV{fr: a.fr, v: v.X}
				continue
			}
		case *ssa.Call:
			switch calleeName(v.Common()) {
			case "builtin.Slice", "builtin.String":
				a = AV{fr: a.fr, v: v.Common().Args[0]}
				continue
			case "builtin.StringData", "builtin.SliceData":
				a = AV{fr: a.fr, v: v.Common().Args[0]}
				continue
			case "strings.Clone", "bytes.Clone", "slices.Clone":
				a = AV{fr: a.fr, v: v.Common().Args[0]}
				continue
			case "builtin.append":
				args := v.Common().Args
				if len(args) == 2 && isNilOrEmptySlice(x, s, AV{fr: a.fr, v: args[0]}) {
					a = AV{fr: a.fr, v: args[1]}
					continue
				}
			}
		}
		return a
	}
	return a
}

func isPtrToArray(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func isNilOrEmptySlice(x *Explorer, s *State, a AV) bool {
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(v.Len)
		return ok && n == 0
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if ok && at.Len() == 0 {
				return true
			}
		}
		if n, ok := constInt(v.High); ok && v.High != nil && n == 0 {
			return true
		}
	}
	return false
}

// lenArg returns the value whose length v is.
func (x *Explorer) lenArg(s *State, a AV) (AV, bool) {
	a = x.resolve(s, a)
	if c, ok := a.v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
		return x.content(s, AV{fr: a.fr, v: c.Common().Args[0]}), true
	}
	if cv, ok := a.v.(*ssa.Convert); ok && isInteger(cv.X.Type()) {
		return x.lenArg(s, AV{fr: a.fr, v: cv.X})
	}
	return AV{}, false
}

// lenBound: if the branch outcome implies len(y) <= n for some y, returns y and n.
func (x *Explorer) lenBound(s *State, cond ssa.Value, truth bool) (AV, int64, bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 10; d++ {
		if u, ok := a.v.(*ssa.UnOp); ok && u.Op == token.NOT {
			a, truth = AV{fr: a.fr, v: u.X}, !truth
			continue
		}
		if _, ok := a.v.(*ssa.BinOp); ok {
			break
		}
		// look through calls of helpers that return the comparison
		b := x.resolveNoFact(s, a)
		if b == a {
			break
		}
		a = b
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok {
		return AV{}, 0, false
	}
	op := bo.Op
	l, r := AV{fr: a.fr, v: bo.X}, AV{fr: a.fr, v: bo.Y}
	if !truth {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	// string compared with ""
	if op == token.EQL {
		for _, pr := range [][2]AV{{l, r}, {r, l}} {
			if c, ok := x.resolve(s, pr[1]).v.(*ssa.Const); ok && (isString(bo.X.Type()) || isByteSlice(bo.X.Type())) {
				n := int64(0)
				if c.Value != nil {
					if cs, ok := constString(c); ok {
						n = int64(len(cs))
					}
				}
				return x.content(s, pr[0]), n, true
			}
		}
	}
	if n, ok := constInt(x.resolve(s, r).v); ok {
		if y, ok := x.lenArg(s, l); ok {
			switch op {
			case token.LEQ, token.EQL:
				return y, n, true
			case token.LSS:
				return y, n - 1, true
			}
		}
	}
	if n, ok := constInt(x.resolve(s, l).v); ok {
		if y, ok := x.lenArg(s, r); ok {
			switch op {
			case token.GEQ, token.EQL:
				return y, n, true
			case token.GTR:
				return y, n - 1, true
			}
		}
	}
	return AV{}, 0, false
}

// resolveNoFact is resolve for conditions: a recorded outcome of the condition
// itself is not followed, only what it stands for.
func (x *Explorer) resolveNoFact(s *State, a AV) AV {
	if t, ok := s.facts[fkey{a.fr, a.v, a.idx}]; ok {
		if _, isC := t.v.(*ssa.Const); !isC {
			return x.resolveNoFact(s, t)
		}
	}
	save, had := s.facts[fkey{a.fr, a.v, a.idx}]
	if had {
		delete(s.facts, fkey{a.fr, a.v, a.idx})
		defer func() { s.facts[fkey{a.fr, a.v, a.idx}] = save }()
	}
	return x.resolve(s, a)
}
