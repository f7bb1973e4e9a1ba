package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockSet maps a lock to how it is held: 'R' or 'W'.
type lockSet map[loc]byte

func (s lockSet) clone() lockSet {
	o := lockSet{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

func (s lockSet) String() string {
	var out []string
	for k := range s {
		out = append(out, lockName(k))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func lockName(l loc) string {
	if l.o.kind == objGlobal {
		n := l.o.site.Name()
		if l.path != "" {
			n += " (field" + l.path + ")"
		}
		return n
	}
	return l.o.String()
}

// lockOp recognises the lock operations of package sync.
func lockOp(c *ssa.CallCommon) (op string, recv ssa.Value) {
	switch calleeName(c) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W", c.Args[0]
	case "(*sync.RWMutex).RLock":
		return "R", c.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "w", c.Args[0]
	case "(*sync.RWMutex).RUnlock":
		return "r", c.Args[0]
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return "?", c.Args[0]
	}
	if c.IsInvoke() && isNamed(c.Value.Type(), "sync", "Locker") {
		switch c.Method.Name() {
		case "Lock":
			return "W", c.Value
		case "Unlock":
			return "w", c.Value
		}
	}
	return "", nil
}

// locks is the interprocedural analysis of which locks are held where.
type locks struct {
	p      *Program
	t      *pointsTo
	r      *Report
	inits  map[*ssa.Function]bool
	must   map[*ssa.Function]lockSet // at entry
	may    map[*ssa.Function]lockSet
	net    map[*ssa.Function]lockEffect
	bad    map[string]bool
	order  map[loc]map[loc]string
	atMust map[ssa.Instruction]lockSet
	atMay  map[ssa.Instruction]lockSet
	judge  bool
	failed map[string]bool
}

// lockEffect: what a function changes about the locks its caller holds.
type lockEffect struct {
	acq lockSet
	rel map[loc]byte
}

func (k *locks) report(rule, where, fn, msg string) {
	key := rule + where + msg
	if !k.judge || k.bad[key] {
		return
	}
	k.bad[key], k.failed[rule] = true, true
	k.r.Bad(rule, where, fn, msg)
}

// callees: the library functions a call may run, and whether it may run code of
// the user.
func (k *locks) callees(c ssa.CallInstruction) (fns []*ssa.Function, user bool) {
	cc := c.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if g := cc.StaticCallee(); g != nil {
		if k.p.InLib(g) && g.Blocks != nil {
			return []*ssa.Function{g}, false
		}
		// functions handed to the standard library run inside the call
		for _, a := range cc.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for _, l := range k.t.locs(a) {
				if l.o.kind == objFunc && k.p.InLib(l.o.fn) {
					fns = append(fns, l.o.fn)
				} else if l.o.kind == objExt || l.o.kind == objUser {
					user = true
				}
			}
		}
		return fns, user
	}
	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		for _, m := range k.t.methods[cc.Method.Name()] {
			if it != nil && m.Synthetic == "" && (types.Implements(m.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(m.Signature.Recv().Type()), it)) {
				fns = append(fns, m)
			}
		}
		for _, l := range k.t.locs(cc.Value) {
			if l.o.kind == objExt || l.o.kind == objUser {
				user = true
			}
		}
		return fns, user
	}
	for _, l := range k.t.locs(cc.Value) {
		switch {
		case l.o.kind == objFunc && k.p.InLib(l.o.fn):
			fns = append(fns, l.o.fn)
		case l.o.kind != objFunc:
			user = true
		}
	}
	return fns, user
}

func (k *locks) lockOf(v ssa.Value) (loc, bool) {
	ls := k.t.locs(v)
	if len(ls) != 1 {
		return loc{}, false
	}
	return ls[0], true
}

type lockState struct{ must, may lockSet }

func meet(a, b lockSet) lockSet {
	o := lockSet{}
	for l, m := range a {
		if n, ok := b[l]; ok {
			if n == 'R' {
				m = 'R'
			}
			o[l] = m
		}
	}
	return o
}

func join(a, b lockSet) lockSet {
	o := a.clone()
	for l, m := range b {
		if n, ok := o[l]; !ok || n == 'R' {
			o[l] = m
		}
	}
	return o
}

func sameLocks(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for l, m := range a {
		if b[l] != m {
			return false
		}
	}
	return true
}

// walk runs the dataflow over one function from the given entry state and returns
// the state at its returns.
func (k *locks) walk(f *ssa.Function, in lockState, visit func(ssa.Instruction, lockState)) (out lockState, returns int, agree bool) {
	states := map[*ssa.BasicBlock]lockState{f.Blocks[0]: in}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	agree = true
	for n := 0; len(work) > 0 && n < 10000; n++ {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		s := k.block(f, b, states[b], nil)
		for _, nx := range b.Succs {
			old, seen := states[nx]
			upd := s
			if seen {
				upd = lockState{meet(old.must, s.must), join(old.may, s.may)}
				if sameLocks(upd.must, old.must) && sameLocks(upd.may, old.may) {
					continue
				}
			}
			states[nx] = lockState{upd.must.clone(), upd.may.clone()}
			work = append(work, nx)
		}
	}
	for _, b := range f.Blocks {
		st, ok := states[b]
		if !ok || b == f.Recover {
			continue
		}
		s := k.block(f, b, st, visit)
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if returns == 0 {
				out = s
			} else {
				if !sameLocks(out.may, s.may) {
					agree = false
				}
				out = lockState{meet(out.must, s.must), join(out.may, s.may)}
			}
			returns++
		}
	}
	return out, returns, agree
}

func (k *locks) block(f *ssa.Function, b *ssa.BasicBlock, st lockState, visit func(ssa.Instruction, lockState)) lockState {
	s := lockState{st.must.clone(), st.may.clone()}
	for _, in := range b.Instrs {
		if visit != nil {
			visit(in, s)
		}
		switch v := in.(type) {
		case *ssa.Call:
			k.apply(f, v, v, &s)
		case *ssa.RunDefers:
			// deferred calls that may have been registered
			instrs(f, func(d ssa.Instruction) {
				if df, ok := d.(*ssa.Defer); ok {
					if df.Block() == b || df.Block().Dominates(b) || canReach(df.Block(), b) {
						k.apply(f, df, in, &s)
					}
				}
			})
		}
	}
	return s
}

func canReach(a, b *ssa.BasicBlock) bool {
	return reachable(a, false)[b]
}

// apply: the effect of the call in on the locks, where it takes place at the
// instruction at.
func (k *locks) apply(f *ssa.Function, in ssa.CallInstruction, at ssa.Instruction, s *lockState) {
	p, c := k.p, in.Common()
	if op, recv := lockOp(c); op != "" {
		l, ok := k.lockOf(recv)
		if !ok {
			k.report("consistent-lock", p.At(in), p.shortName(f), "cannot tell which lock is used")
			return
		}
		switch op {
		case "W", "R":
			if _, held := s.may[l]; held {
				k.report("no-deadlock", p.At(in), p.shortName(f), lockName(l)+" is acquired while it may already be held by the same call")
			}
			for h := range s.may {
				if h != l {
					if k.order[h] == nil {
						k.order[h] = map[loc]string{}
					}
					k.order[h][l] = p.At(in)
				}
			}
			s.must[l], s.may[l] = op[0], op[0]
		case "w", "r":
			if k.judge {
				m, held := s.must[l]
				if d, is := in.(*ssa.Defer); is && !held && at != d {
					// registered on some paths only: judged where it is registered
					m, held = k.atMust[d][l]
				}
				if !held {
					k.report("no-deadlock", p.At(in), p.shortName(f), lockName(l)+" is released where it may not be held")
				} else if (m == 'W') != (op == "w") {
					k.report("no-deadlock", p.At(in), p.shortName(f), lockName(l)+" is released with the wrong kind of unlock")
				}
			}
			delete(s.must, l)
			delete(s.may, l)
		case "?":
			k.report("consistent-lock", p.At(in), p.shortName(f), "conditional locking of "+lockName(l)+" is not followed")
		}
		return
	}
	fns, _ := k.callees(in)
	for _, g := range fns {
		e := k.net[g]
		for l := range e.rel {
			delete(s.must, l)
			delete(s.may, l)
		}
		for l, m := range e.acq {
			s.must[l], s.may[l] = m, m
		}
	}
}

// effects computes what each function does to the locks of its caller, so that
// helpers that only lock or unlock are understood.
func (k *locks) effects() {
	for round := 0; round < 8; round++ {
		changed := false
		for _, f := range k.p.Funcs {
			// all locks that occur, once assumed free and once held
			free, n, _ := k.walk(f, lockState{lockSet{}, lockSet{}}, nil)
			if n == 0 {
				continue
			}
			all := lockSet{}
			for _, l := range k.allLocks() {
				all[l] = 'W'
			}
			held, _, _ := k.walk(f, lockState{all.clone(), all.clone()}, nil)
			e := lockEffect{lockSet{}, map[loc]byte{}}
			for l, m := range free.must {
				e.acq[l] = m
			}
			for l := range all {
				if _, ok := held.may[l]; !ok {
					e.rel[l] = 1
				}
			}
			old := k.net[f]
			if !sameLocks(old.acq, e.acq) || len(old.rel) != len(e.rel) {
				changed = true
				k.net[f] = e
			}
		}
		if !changed {
			return
		}
	}
}

func (k *locks) allLocks() []loc {
	set := map[loc]bool{}
	for _, f := range k.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if op, recv := lockOp(c.Common()); op != "" {
					if l, ok := k.lockOf(recv); ok {
						set[l] = true
					}
				}
			}
		})
	}
	var out []loc
	for l := range set {
		out = append(out, l)
	}
	return out
}

// contexts computes the locks held whenever a function starts.
func (k *locks) contexts() {
	k.must, k.may = map[*ssa.Function]lockSet{}, map[*ssa.Function]lockSet{}
	seenM := map[*ssa.Function]bool{}
	flow := func(g *ssa.Function, s lockState) bool {
		if !seenM[g] {
			seenM[g] = true
			k.must[g], k.may[g] = s.must.clone(), s.may.clone()
			return true
		}
		m, y := meet(k.must[g], s.must), join(k.may[g], s.may)
		if sameLocks(m, k.must[g]) && sameLocks(y, k.may[g]) {
			return false
		}
		k.must[g], k.may[g] = m, y
		return true
	}
	var work []*ssa.Function
	add := func(g *ssa.Function, s lockState) {
		if flow(g, s) {
			work = append(work, g)
		}
	}
	for _, e := range k.p.entries {
		add(e, lockState{lockSet{}, lockSet{}})
	}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		k.walk(f, lockState{k.must[f].clone(), k.may[f].clone()}, func(in ssa.Instruction, s lockState) {
			switch c := in.(type) {
			case *ssa.Call, *ssa.Go:
				fns, _ := k.callees(c.(ssa.CallInstruction))
				for _, g := range fns {
					add(g, s)
				}
			case *ssa.RunDefers:
				instrs(f, func(d ssa.Instruction) {
					if df, ok := d.(*ssa.Defer); ok {
						fns, _ := k.callees(df)
						for _, g := range fns {
							add(g, s)
						}
					}
				})
			}
		})
	}
}

// sharedState finds the objects that live between calls and change after start-up.
func (t *pointsTo) sharedState(inits map[*ssa.Function]bool) (shared map[*ptObj]bool, mutable map[*ptObj][]memWrite) {
	var start []loc
	for _, o := range t.objs {
		if o.kind == objGlobal && !strings.Contains(o.site.Name(), "init$guard") {
			start = append(start, loc{o, ""})
		}
	}
	shared = t.reach(start)
	for o := range shared {
		if o.kind == objConst || o.kind == objFunc || o.kind == objExt || o.kind == objUser {
			delete(shared, o)
		}
	}
	mutable = map[*ptObj][]memWrite{}
	for _, w := range t.writes {
		if inits[w.in.Parent()] {
			continue
		}
		for l := range t.nodes[w.to].pts {
			if shared[l.o] && !t.constructs(w, l.o, shared) {
				mutable[l.o] = append(mutable[l.o], w)
			}
		}
	}
	return shared, mutable
}

// constructs: the write fills an object that the writing code has just allocated
// and that nothing kept between calls leads to yet.
func (t *pointsTo) constructs(w memWrite, o *ptObj, shared map[*ptObj]bool) bool {
	v, ok := w.to.h.(ssa.Value)
	if !ok {
		return false
	}
	return t.freshFor(v, w.in, o, shared, map[ssa.Value]bool{}, 0)
}

func (t *pointsTo) pointsAt(v ssa.Value, o *ptObj) bool {
	t.val(v)
	for l := range t.node(v, "").pts {
		if l.o == o {
			return true
		}
	}
	return false
}

// freshFor: whenever v points to o at the given instruction, o was allocated by
// this activation (or a call it made) and is not yet reachable from shared state.
func (t *pointsTo) freshFor(v ssa.Value, at ssa.Instruction, o *ptObj, shared map[*ptObj]bool, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if !t.pointsAt(v, o) {
		return true
	}
	if d > 6 {
		return false
	}
	rec := func(x ssa.Value) bool { return t.freshFor(x, at, o, shared, seen, d) }
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return o.site == v && !t.publishedBefore(o, v.(ssa.Instruction), at, shared)
	case *ssa.Convert:
		if o.site == ssa.Value(v) {
			return !t.publishedBefore(o, v, at, shared)
		}
		return rec(v.X)
	case *ssa.MakeInterface:
		if o.site == ssa.Value(v) {
			return !t.publishedBefore(o, v, at, shared)
		}
		return rec(v.X)
	case *ssa.FieldAddr:
		return rec(v.X)
	case *ssa.IndexAddr:
		return rec(v.X)
	case *ssa.Slice:
		return rec(v.X)
	case *ssa.ChangeType:
		return rec(v.X)
	case *ssa.TypeAssert:
		return rec(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !rec(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL && t.freshLoad(v, at, o, shared, seen, d)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return t.freshResult(c, v.Index, at, o, shared, d)
		}
		return false
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if o.site == ssa.Value(v) && t.publishedBefore(o, v, at, shared) {
				return false
			}
			return rec(v.Call.Args[0])
		}
		return t.freshResult(v, 0, at, o, shared, d)
	case *ssa.Parameter:
		f := v.Parent()
		if t.entry[f] || t.p.addrTkn[f] || len(t.p.callers[f]) == 0 {
			return false
		}
		for _, c := range t.p.callers[f] {
			i := paramIndex(v)
			if i >= len(c.Common().Args) || !t.freshFor(c.Common().Args[i], c, o, shared, map[ssa.Value]bool{}, d+1) {
				return false
			}
		}
		return true
	case *ssa.FreeVar:
		// captured local of the enclosing function
		ok := true
		fn := v.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == v {
				idx = i
			}
		}
		found := false
		if fn.Parent() != nil && idx >= 0 {
			instrs(fn.Parent(), func(in ssa.Instruction) {
				if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == ssa.Value(fn) {
					found = true
					if !t.freshFor(mc.Bindings[idx], mc, o, shared, map[ssa.Value]bool{}, d+1) {
						ok = false
					}
				}
			})
		}
		return found && ok
	}
	return false
}

// freshLoad: what the load takes out of memory is fresh because the memory is a
// local variable that only this function fills, with fresh pointers.
func (t *pointsTo) freshLoad(v *ssa.UnOp, at ssa.Instruction, o *ptObj, shared map[*ptObj]bool, seen map[ssa.Value]bool, d int) bool {
	f := v.Parent()
	carries := func(x ssa.Value) bool {
		for _, lf := range t.leaves(x.Type()) {
			for _, l := range t.locsAt(x, lf.path) {
				if l.o == o {
					return true
				}
			}
		}
		return false
	}
	for _, l := range t.locs(v.X) {
		a, ok := l.o.site.(*ssa.Alloc)
		if !ok || a.Parent() != f {
			return false
		}
		for _, w := range t.writes {
			hits := false
			for wl := range t.nodes[w.to].pts {
				hits = hits || wl.o == l.o
			}
			if !hits {
				continue
			}
			st, ok := w.in.(*ssa.Store)
			if !ok || st.Parent() != f {
				return false
			}
			if !carries(st.Val) {
				continue
			}
			if pointerLike(st.Val.Type()) {
				if !t.freshFor(st.Val, at, o, shared, seen, d) {
					return false
				}
				continue
			}
			u, ok := st.Val.(*ssa.UnOp)
			if !ok || seen[u] {
				if !ok {
					return false
				}
				continue
			}
			seen[u] = true
			if !t.freshLoad(u, at, o, shared, seen, d) {
				return false
			}
		}
	}
	return true
}

// freshResult: the call's result is allocated by the callee and not kept.
func (t *pointsTo) freshResult(c *ssa.Call, i int, at ssa.Instruction, o *ptObj, shared map[*ptObj]bool, d int) bool {
	g := c.Common().StaticCallee()
	if g == nil {
		return false
	}
	if !t.p.InLib(g) {
		return o.site == ssa.Value(c) && !t.publishedBefore(o, c, at, shared)
	}
	for _, ret := range returnsOf(g) {
		if i < len(ret.Results) && !t.freshFor(ret.Results[i], ret, o, shared, map[ssa.Value]bool{}, d+1) {
			return false
		}
	}
	return !t.publishedBefore(o, c, at, shared)
}

// publishedBefore: after the allocation and before the instruction, a pointer to
// the object may be put where shared state leads to it.
func (t *pointsTo) publishedBefore(o *ptObj, alloc, at ssa.Instruction, shared map[*ptObj]bool) bool {
	f := at.Parent()
	if alloc.Parent() != f {
		return false
	}
	hit := false
	instrs(f, func(in ssa.Instruction) {
		if hit || in == at || !t.publishes(in, o, shared, 0) {
			return
		}
		if pathAvoiding(in, at, alloc) {
			hit = true
		}
	})
	return hit
}

// publishes: the instruction stores a pointer that leads to o into shared state.
func (t *pointsTo) publishes(in ssa.Instruction, o *ptObj, shared map[*ptObj]bool, d int) bool {
	leads := func(v ssa.Value) bool {
		for _, lf := range t.leaves(v.Type()) {
			if t.reach(t.locsAt(v, lf.path))[o] {
				return true
			}
		}
		return false
	}
	kept := func(addr ssa.Value) bool {
		for _, l := range t.locs(addr) {
			if !shared[l.o] {
				continue
			}
			if l.o.kind == objGlobal || !t.freshFor(addr, in, l.o, shared, map[ssa.Value]bool{}, 3) {
				return true
			}
		}
		return false
	}
	switch v := in.(type) {
	case *ssa.Store:
		return pointerCarrying(t, v.Val.Type()) && leads(v.Val) && kept(v.Addr)
	case *ssa.MapUpdate:
		return (leads(v.Value) || leads(v.Key)) && kept(v.Map)
	case ssa.CallInstruction:
		g := v.Common().StaticCallee()
		if g == nil || d > 3 {
			return false
		}
		if !t.p.InLib(g) {
			if calleePkg(g) == "sync" || calleePkg(g) == "sync/atomic" {
				for _, a := range v.Common().Args {
					if leads(a) && t.reach(t.locs(v.Common().Args[0]))[o] {
						return true
					}
				}
			}
			return false
		}
		// only if it is handed a pointer to the object
		handed := false
		for _, a := range v.Common().Args {
			if pointerCarrying(t, a.Type()) && leads(a) {
				handed = true
			}
		}
		if !handed {
			return false
		}
		pub := false
		instrs(g, func(i2 ssa.Instruction) {
			if !pub && t.publishes(i2, o, shared, d+1) {
				pub = true
			}
		})
		return pub
	}
	return false
}

func pointerCarrying(t *pointsTo, typ types.Type) bool { return len(t.leaves(typ)) > 0 }

// pathAvoiding: execution can go from a to b without passing c.
func pathAvoiding(a, b, c ssa.Instruction) bool {
	if a.Block() == b.Block() && indexIn(a) < indexIn(b) {
		if c.Block() != a.Block() || indexIn(c) < indexIn(a) || indexIn(c) > indexIn(b) {
			return true
		}
	}
	if c.Block() == a.Block() && indexIn(c) > indexIn(a) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), a.Block().Succs...)
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if n == b.Block() {
			if c.Block() != n || indexIn(c) > indexIn(b) {
				return true
			}
			continue
		}
		if n == c.Block() {
			continue
		}
		stack = append(stack, n.Succs...)
	}
	return false
}

// access is one read or write of shared mutable state.
type access struct {
	in    ssa.Instruction
	write bool
	what  string
}

func (k *locks) accesses(mutable map[*ptObj][]memWrite, shared map[*ptObj]bool) map[*ptObj][]access {
	t := k.t
	out := map[*ptObj][]access{}
	note := func(in ssa.Instruction, ptr ssa.Value, write bool, what string) {
		for _, l := range t.locs(ptr) {
			if mutable[l.o] == nil || syncType(l) {
				continue
			}
			if write && t.freshFor(ptr, in, l.o, shared, map[ssa.Value]bool{}, 0) || !write && t.freshFor(ptr, in, l.o, shared, map[ssa.Value]bool{}, 0) {
				continue
			}
			out[l.o] = append(out[l.o], access{in, write, what})
		}
	}
	for _, f := range k.p.Funcs {
		if k.inits[f] || k.must[f] == nil {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.UnOp:
				if v.Op.String() == "*" {
					note(in, v.X, false, "read")
				}
			case *ssa.Lookup:
				if _, ok := v.X.Type().Underlying().(*types.Map); ok {
					note(in, v.X, false, "map lookup")
				}
			case *ssa.Range:
				note(in, v.X, false, "iteration")
			case *ssa.Next:
				if rg, ok := v.Iter.(*ssa.Range); ok && !v.IsString {
					note(in, rg.X, false, "iteration")
				}
			case *ssa.Call:
				if b, ok := v.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len":
						if _, ok := v.Call.Args[0].Type().Underlying().(*types.Map); ok {
							note(in, v.Call.Args[0], false, "len")
						}
					case "copy", "append":
						for _, a := range v.Call.Args[1:] {
							note(in, a, false, b.Name())
						}
					}
				} else if g := v.Call.StaticCallee(); g != nil && !k.p.InLib(g) {
					switch calleePkg(g) {
					case "sync", "sync/atomic":
						return
					}
					for _, a := range v.Call.Args {
						if pointerLike(a.Type()) && !isString(a.Type()) {
							note(in, a, false, "use")
						}
					}
				}
			}
		})
	}
	for _, w := range t.writes {
		if k.inits[w.in.Parent()] || k.must[w.in.Parent()] == nil {
			continue
		}
		if v, ok := w.to.h.(ssa.Value); ok {
			note(w.in, v, true, w.what)
		} else {
			for l := range t.nodes[w.to].pts {
				if mutable[l.o] != nil {
					out[l.o] = append(out[l.o], access{w.in, true, w.what})
				}
			}
		}
	}
	return out
}

// syncType: the location is itself a synchronisation primitive.
func syncType(l loc) bool {
	if l.o.typ == nil || l.path != "" {
		return false
	}
	if n, ok := types.Unalias(l.o.typ).(*types.Named); ok && n.Obj().Pkg() != nil {
		pk := n.Obj().Pkg().Path()
		return pk == "sync" || pk == "sync/atomic"
	}
	return false
}

func checkC01(p *Program, r *Report) {
	r.Explanation = "Lock-set analysis on the points-to model: the state the library keeps between calls is everything reachable from package variables; objects of it that change after start-up must have one lock that every access outside start-up holds (writers exclusively). Lock sets are a forward must/may dataflow over the call graph with deferred unlocks, locking helpers and closures. Also: no lock is acquired while the same call may hold it, locks are never acquired in opposite orders, every acquired lock is released on every return, and no code supplied by the user (modifier, callback, or a formatting method on a user value) runs while a lock may be held. Filling an object before it becomes reachable needs no lock. Atomic values and sync.Map synchronise themselves."
	r.Rule("consistent-lock", "every access to state kept between calls holds its lock")
	r.Rule("no-deadlock", "locks are acquired at most once per call, in one order, and released on every path")
	r.Rule("no-user-code-locked", "no user-supplied code runs while a lock is held")
	t := p.pointsTo(p.entries)
	k := &locks{p: p, t: t, r: r, inits: p.startUp(t), net: map[*ssa.Function]lockEffect{}, bad: map[string]bool{}, failed: map[string]bool{}, order: map[loc]map[loc]string{}, atMust: map[ssa.Instruction]lockSet{}, atMay: map[ssa.Instruction]lockSet{}}
	k.effects()
	k.contexts()
	shared, mutable := t.sharedState(k.inits)
	r.Count("shared_objects", len(shared))
	r.Count("changing_objects", len(mutable))
	r.Count("locks", len(k.allLocks()))
	for _, f := range p.Funcs {
		if k.must[f] != nil {
			k.walk(f, lockState{k.must[f].clone(), k.may[f].clone()}, func(in ssa.Instruction, s lockState) {
				k.atMust[in] = s.must.clone()
			})
		}
	}
	k.judge = true
	k.order = map[loc]map[loc]string{}
	for _, f := range p.Funcs {
		if k.inits[f] || k.must[f] == nil {
			continue
		}
		r.Count("functions_walked", 1)
		out, n, agree := k.walk(f, lockState{k.must[f].clone(), k.may[f].clone()}, func(in ssa.Instruction, s lockState) {
			k.atMust[in], k.atMay[in] = s.must.clone(), s.may.clone()
			k.userCode(f, in, s)
		})
		if n == 0 {
			continue
		}
		e := k.net[f]
		extra := lockSet{}
		for l, m := range out.may {
			if _, ok := k.may[f][l]; !ok {
				extra[l] = m
			}
		}
		if len(extra) > 0 && (p.isEntry(f) || !agree || len(extra) != len(e.acq)) {
			k.report("no-deadlock", p.Pos(f.Pos()), p.shortName(f), "returns while it may still hold "+extra.String())
		}
	}
	for a, bs := range k.order {
		for b, at := range bs {
			if other, ok := k.order[b][a]; ok {
				k.report("no-deadlock", at, lockName(b), "acquired while holding "+lockName(a)+", but the other way round at "+other)
			}
		}
	}
	acc := k.accesses(mutable, shared)
	var objs []*ptObj
	for o := range acc {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		as := acc[o]
		r.Count("accesses", len(as))
		// the lock held by most accesses is the object's lock
		votes := map[loc]int{}
		for _, a := range as {
			for l := range k.atMust[a.in] {
				votes[l]++
			}
		}
		var best loc
		bn := 0
		for l, n := range votes {
			if n > bn || n == bn && lockName(l) < lockName(best) {
				best, bn = l, n
			}
		}
		okAll := true
		for _, a := range as {
			m, held := k.atMust[a.in][best]
			if bn > 0 && held && (m == 'W' || !a.write) {
				continue
			}
			okAll = false
			msg := a.what + " of " + o.String() + " without a lock"
			if bn > 0 && held {
				msg = a.what + " of " + o.String() + " while " + lockName(best) + " is only held for reading"
			} else if bn > 0 {
				msg = a.what + " of " + o.String() + " without holding " + lockName(best)
			}
			k.report("consistent-lock", p.At(a.in), p.shortName(a.in.Parent()), msg)
		}
		if okAll {
			r.OK("consistent-lock", "-", fmt.Sprintf("%s: %d accesses under %s", o.String(), len(as), lockName(best)))
		}
	}
	if !k.failed["no-deadlock"] {
		for _, l := range k.allLocks() {
			r.OK("no-deadlock", "-", lockName(l)+" is acquired once, in one order, and released on every return")
		}
	}
	if !k.failed["no-user-code-locked"] {
		r.OK("no-user-code-locked", "-", "no call of user code happens with a lock held")
	}
	r.Min("changing_objects", 1)
	r.Min("locks", 1)
	r.Min("accesses", 3)
}

// startUp: functions only run before any call: package initialisation and
// argument-free functions run through sync.Once.
func (p *Program) startUp(t *pointsTo) map[*ssa.Function]bool {
	m := p.initFuncs()
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(c.Common()) != "(*sync.Once).Do" {
				return
			}
			if g, ok := c.Common().Args[1].(*ssa.Function); ok && len(g.FreeVars) == 0 {
				m[g] = true
			}
		})
	}
	return m
}

// userCode: a call that may run code of the user while a lock may be held.
func (k *locks) userCode(f *ssa.Function, in ssa.Instruction, s lockState) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	p := k.p
	if op, _ := lockOp(c.Common()); op != "" {
		return
	}
	_, user := k.callees(c)
	if user {
		k.r.Count("user_code_calls", 1)
	}
	if len(s.may) == 0 {
		return
	}
	if user {
		k.report("no-user-code-locked", p.At(in), p.shortName(f), "runs code of the user while holding "+s.may.String())
		return
	}
	// formatting a value of the user runs its String or Error method
	g := c.Common().StaticCallee()
	if g == nil || p.InLib(g) || calleePkg(g) != "fmt" {
		return
	}
	for _, a := range c.Common().Args {
		for _, l := range k.t.locs(a) {
			n := k.t.node(l.o, l.path+"[]")
			for e := range n.pts {
				if e.o.kind == objExt && e.o.typ == nil || e.o.kind == objUser {
					k.report("no-user-code-locked", p.At(in), p.shortName(f), "formats a value of the user while holding "+s.may.String())
				}
			}
		}
	}
}

func init() {
	checks["C01"] = checkC01
}
