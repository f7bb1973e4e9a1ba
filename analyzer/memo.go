package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memo analyses what the library keeps from one call to the next.
type memo struct {
	p       *Program
	t       *pointsTo
	r       *Report
	inits   map[*ssa.Function]bool
	shared  map[*ptObj]bool
	mutable map[*ptObj][]memWrite
	states  map[*ssa.Function]string // functions that read changing state, and which
	bad     map[string]bool
}

// tableStore recognises an instruction that enters a value in a table.
func tableStore(in ssa.Instruction) (table, key, val ssa.Value) {
	switch v := in.(type) {
	case *ssa.MapUpdate:
		return v.Map, v.Key, v.Value
	case ssa.CallInstruction:
		switch calleeName(v.Common()) {
		case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
			a := v.Common().Args
			return a[0], a[1], a[2]
		}
	}
	return nil, nil, nil
}

// tableLoad recognises a lookup in a table.
func tableLoad(in ssa.Instruction) (table, key ssa.Value) {
	switch v := in.(type) {
	case *ssa.Lookup:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			return v.X, v.Index
		}
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "(*sync.Map).Load", "(*sync.Map).LoadOrStore":
			return v.Common().Args[0], v.Common().Args[1]
		}
	}
	return nil, nil
}

// kept: the table value may be one that lives between calls.
func (m *memo) kept(table ssa.Value, at ssa.Instruction) bool {
	for _, l := range m.t.locs(table) {
		if m.shared[l.o] && !m.t.freshFor(table, at, l.o, m.shared, map[ssa.Value]bool{}, 0) {
			return true
		}
	}
	return false
}

// registry: the value is the table of modifiers (or leads to it).
func registryTable(t types.Type) bool {
	return isRegistryType(t) || isRegistryType(deref(t))
}

func (m *memo) flag(rule, where, fn, msg string, via ...string) {
	k := rule + where + msg
	if m.bad[k] {
		return
	}
	m.bad[k] = true
	m.r.Bad(rule, where, fn, msg, via...)
}

// atoms: the values a key determines completely.
func (m *memo) atoms(k ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || out[v] {
			return
		}
		out[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			visit(v.X)
		case *ssa.ChangeType:
			visit(v.X)
		case *ssa.ChangeInterface:
			visit(v.X)
		case *ssa.Convert:
			if isString(v.Type()) && isByteSlice(v.X.Type()) || isByteSlice(v.Type()) && isString(v.X.Type()) {
				visit(v.X)
			}
		case *ssa.BinOp:
			if v.Op == token.ADD && isString(v.Type()) {
				// operands of a concatenation are determined if a constant keeps
				// them apart, or only one of them varies
				parts := concatParts(v)
				vary := 0
				apart := true
				prev := false
				for _, x := range parts {
					if _, ok := x.(*ssa.Const); ok {
						prev = false
						continue
					}
					vary++
					if prev {
						apart = false
					}
					prev = true
				}
				if vary == 1 || apart {
					for _, x := range parts {
						visit(x)
					}
				}
			}
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				m.structParts(a, visit)
			}
		case *ssa.Call:
			switch calleeName(v.Common()) {
			case "fmt.Sprintf", "fmt.Sprint":
				for _, a := range varargs(v.Common().Args[len(v.Common().Args)-1]) {
					visit(a)
				}
			case "strconv.FormatBool", "strconv.Itoa", "strconv.Quote", "strings.Clone":
				visit(v.Common().Args[0])
			case "strings.Join":
				for _, a := range varargs(v.Common().Args[0]) {
					visit(a)
				}
			}
		}
	}
	visit(k)
	return out
}

func concatParts(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(concatParts(b.X), concatParts(b.Y)...)
	}
	return []ssa.Value{v}
}

// structParts visits what is stored in the fields of a local struct or array.
func (m *memo) structParts(a ssa.Value, visit func(ssa.Value)) {
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, ref := range *refs {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == a {
				visit(x.Val)
			}
		case *ssa.FieldAddr:
			m.structParts(x, visit)
		case *ssa.IndexAddr:
			m.structParts(x, visit)
		}
	}
}

// slice is the backward dependence of a value inside one function, up to the
// values in stop.
type slice struct {
	m      *memo
	stop   map[ssa.Value]bool
	params map[ssa.Value]bool // parameters and captured variables reached
	state  map[string]bool    // changing state read on the way
	hits   map[ssa.Instruction]bool
	lookup func(in ssa.Instruction) bool // remembered values
	seen   map[ssa.Value]bool
	objs   map[*ptObj]bool
	conds  map[*ssa.BasicBlock]bool
	cut    map[ssa.Value]bool // where it stopped
}

func (m *memo) slice(stop map[ssa.Value]bool, lookup func(ssa.Instruction) bool) *slice {
	return &slice{m: m, stop: stop, lookup: lookup, params: map[ssa.Value]bool{}, state: map[string]bool{}, hits: map[ssa.Instruction]bool{}, seen: map[ssa.Value]bool{}, objs: map[*ptObj]bool{}, conds: map[*ssa.BasicBlock]bool{}, cut: map[ssa.Value]bool{}}
}

func (s *slice) visit(v ssa.Value) {
	if v == nil || s.seen[v] {
		return
	}
	if s.stop[v] && !reference(v.Type()) {
		if _, ok := v.(*ssa.Const); !ok {
			s.cut[v] = true
		}
		return
	}
	s.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Parameter, *ssa.FreeVar:
		s.params[v] = true
		return
	case *ssa.Global:
		for o, w := range s.m.mutable {
			if o.site == ssa.Value(v) && len(w) > 0 && !s.m.table(o) {
				s.state["package variable "+v.Name()] = true
			}
		}
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	if s.lookup != nil && s.lookup(in) {
		s.hits[in] = true
		return
	}
	f := in.Parent()
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.visit(e)
		}
		s.between(v.Block().Idom(), v.Block())
		return
	case *ssa.Lookup:
		if table, key := tableLoad(v); table != nil && s.m.kept(table, v) {
			s.visit(key)
			if registryTable(table.Type()) {
				s.state["the registered modifiers"] = true
			}
			return
		}
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g != nil && s.m.p.InLib(g) && g.Blocks != nil {
			if st := s.m.states[g]; st != "" {
				s.state[st+" (read by "+g.Name()+")"] = true
			}
			for i, a := range v.Common().Args {
				if i < len(g.Params) && (g.Params[i].Referrers() == nil || len(*g.Params[i].Referrers()) == 0) {
					continue // not used
				}
				s.visit(a)
				s.contents(f, a)
			}
			return
		}
		for _, a := range v.Common().Args {
			s.visit(a)
			s.contents(f, a)
		}
		if g == nil && v.Common().IsInvoke() {
			s.visit(v.Common().Value)
		}
		return
	}
	var ops [12]*ssa.Value
	for _, op := range in.Operands(ops[:0]) {
		if *op != nil {
			s.visit(*op)
		}
	}
	s.contents(f, v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		s.contents(f, u.X)
	}
}

// reference: knowing the value is not knowing what it leads to.
func reference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// contents follows what the function puts into memory the value leads to.
func (s *slice) contents(f *ssa.Function, v ssa.Value) {
	if !reference(v.Type()) {
		return
	}
	t := s.m.t
	fresh := false
	for _, l := range t.locs(v) {
		if !s.objs[l.o] && l.o.kind != objExt {
			if in, ok := v.(ssa.Instruction); ok && s.m.shared[l.o] && !t.freshFor(v, in, l.o, s.m.shared, map[ssa.Value]bool{}, 0) {
				continue // kept: not filled for this value
			}
			s.objs[l.o] = true
			fresh = true
		}
	}
	if !fresh {
		return
	}
	over := func(x ssa.Value) bool {
		if !pointerLike(x.Type()) || isString(x.Type()) {
			return false
		}
		for _, l := range t.locs(x) {
			if s.objs[l.o] && !s.m.table(l.o) {
				return true
			}
		}
		return false
	}
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if over(x.Addr) {
				s.visit(x.Val)
				s.under(x.Block(), v)
			}
		case *ssa.MapUpdate:
			if over(x.Map) {
				s.visit(x.Key)
				s.visit(x.Value)
				s.under(x.Block(), v)
			}
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return
			}
			for _, a := range x.Common().Args {
				if over(a) && s.m.writes(x, a) {
					for _, b := range x.Common().Args {
						s.visit(b)
					}
					s.under(x.Block(), v)
					break
				}
			}
		}
	})
}

// writes: the call may write through the argument.
func (m *memo) writes(c *ssa.Call, a ssa.Value) bool {
	objs := map[*ptObj]bool{}
	for _, l := range m.t.locs(a) {
		objs[l.o] = true
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return (b.Name() == "append" || b.Name() == "copy" || b.Name() == "clear" || b.Name() == "delete") && c.Common().Args[0] == a
	}
	g := c.Common().StaticCallee()
	in := map[*ssa.Function]bool{}
	if g != nil && m.p.InLib(g) {
		in = m.reachFrom(g)
	}
	for _, w := range m.t.writes {
		if w.in != ssa.Instruction(c) && !in[w.in.Parent()] {
			continue
		}
		for l := range m.t.nodes[w.to].pts {
			if objs[l.o] {
				return true
			}
		}
	}
	return false
}

func (m *memo) reachFrom(g *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{g: true}
	work := []*ssa.Function{g}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if h := c.Common().StaticCallee(); h != nil && m.p.InLib(h) && !out[h] {
				out[h] = true
				work = append(work, h)
			}
		})
	}
	return out
}

// under: conditions deciding whether the block runs, once the value exists.
func (s *slice) under(b *ssa.BasicBlock, v ssa.Value) {
	var from *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		from = in.Block()
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		if from != nil && d != from && !from.Dominates(d) {
			break
		}
		if c, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && !postdom(b, d) {
			s.visit(c.Cond)
		}
	}
}

// postdom: every way on from d leads through b.
func postdom(b, d *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var escapes func(n *ssa.BasicBlock) bool
	escapes = func(n *ssa.BasicBlock) bool {
		if n == b || seen[n] {
			return false
		}
		seen[n] = true
		if len(n.Succs) == 0 {
			return true
		}
		for _, x := range n.Succs {
			if escapes(x) {
				return true
			}
		}
		return false
	}
	for _, x := range d.Succs {
		if escapes(x) {
			return false
		}
	}
	return true
}

// between: conditions that select the way from a to b.
func (s *slice) between(a, b *ssa.BasicBlock) {
	if a == nil || s.conds[b] {
		return
	}
	s.conds[b] = true
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), b.Preds...)
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		if c, ok := n.Instrs[len(n.Instrs)-1].(*ssa.If); ok {
			s.visit(c.Cond)
		}
		if n != a {
			stack = append(stack, n.Preds...)
		}
	}
}

// table: the object is a remembered table or a variable holding one.
func (m *memo) table(o *ptObj) bool {
	t := o.site.Type()
	if o.kind == objGlobal {
		t = deref(t)
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	return o.kind == objGlobal && isNamed(t, "sync", "Map")
}

// covered: everything the leaves of the slice stand for is determined by the key,
// looking into the callers where parameters of the function are concerned.
func (m *memo) covered(s *slice, f *ssa.Function, atoms map[ssa.Value]bool, extra map[ssa.Value]bool, d int) string {
	var st []string
	for x := range s.state {
		st = append(st, x)
	}
	sort.Strings(st)
	if len(st) > 0 {
		return st[0]
	}
	var missing []*ssa.Parameter
	for _, prm := range f.Params {
		if s.params[prm] && (!atoms[prm] || reference(prm.Type())) && !extra[prm] {
			missing = append(missing, prm)
		}
	}
	for v := range s.params {
		if _, ok := v.(*ssa.FreeVar); ok && !extra[v] && (!atoms[v] || reference(v.Type())) {
			return "captured variable " + v.Name()
		}
	}
	if len(missing) == 0 {
		return ""
	}
	cs := m.p.callers[f]
	if m.t.entry[f] || m.p.addrTkn[f] || len(cs) == 0 || d > 4 {
		return "parameter " + missing[0].Name() + " of " + f.Name()
	}
	for _, c := range cs {
		up := map[ssa.Value]bool{}
		for i, prm := range f.Params {
			if atoms[prm] && i < len(c.Common().Args) {
				for a := range m.atoms(c.Common().Args[i]) {
					up[a] = true
				}
			}
		}
		s2 := m.slice(up, s.lookup)
		for _, prm := range missing {
			if i := paramIndex(prm); i < len(c.Common().Args) {
				s2.visit(c.Common().Args[i])
				s2.contents(c.Parent(), c.Common().Args[i])
			}
		}
		if why := m.covered(s2, c.Parent(), up, nil, d+1); why != "" {
			return why
		}
	}
	return ""
}

// readers finds the functions whose outcome depends on changing state other than
// the remembered tables.
func (m *memo) readers() {
	m.states = map[*ssa.Function]string{}
	for _, f := range m.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if m.states[f] != "" {
				return
			}
			if table, _ := tableLoad(in); table != nil && registryTable(table.Type()) && m.kept(table, in) {
				m.states[f] = "the registered modifiers"
			}
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				for _, l := range m.t.locs(u.X) {
					if m.mutable[l.o] != nil && !m.table(l.o) && !m.t.freshFor(u.X, in, l.o, m.shared, map[ssa.Value]bool{}, 0) {
						m.states[f] = l.o.String()
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok && c.Common().IsInvoke() && isModifierType(c.Common().Value.Type()) {
				m.states[f] = "what a modifier of the user returns"
			}
		})
	}
	for changed := true; changed; {
		changed = false
		for _, f := range m.p.Funcs {
			if m.states[f] != "" {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && m.states[f] == "" {
					if g := c.Common().StaticCallee(); g != nil && m.states[g] != "" {
						m.states[f] = m.states[g]
						changed = true
					}
				}
			})
		}
	}
}

// lookups judges where a remembered value takes the place of a computed one: the
// computed one may depend on nothing the key leaves out.
func (m *memo) lookups() {
	type site struct {
		in   ssa.Instruction
		keys map[ssa.Value]bool
	}
	byFn := map[*ssa.Function][]site{}
	for _, f := range m.p.Funcs {
		if m.inits[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if table, key := tableLoad(in); table != nil && !registryTable(table.Type()) && m.kept(table, in) {
				byFn[f] = append(byFn[f], site{in, m.atoms(key)})
			}
		})
	}
	done := map[*ssa.Function]bool{}
	for round := 0; round < 6; round++ {
		var fns []*ssa.Function
		for _, f := range m.p.Funcs {
			if len(byFn[f]) > 0 && !done[f] {
				fns = append(fns, f)
			}
		}
		for _, f := range fns {
			done[f] = true
			for _, st := range byFn[f] {
				m.r.Count("lookups", 1)
				rets := m.substitutes(f, st.in, st.keys)
				if !rets {
					continue
				}
				// the function hands out a remembered value: its callers look up
				// through it
				for _, c := range m.p.callers[f] {
					call, ok := c.(*ssa.Call)
					if !ok || done[c.Parent()] {
						continue
					}
					keys := map[ssa.Value]bool{}
					for i, prm := range f.Params {
						if st.keys[prm] && i < len(c.Common().Args) {
							for a := range m.atoms(c.Common().Args[i]) {
								keys[a] = true
							}
						}
					}
					byFn[c.Parent()] = append(byFn[c.Parent()], site{call, keys})
				}
			}
		}
		if len(fns) == 0 {
			break
		}
	}
}

// substitutes compares, in one function, results derived from the remembered value
// with the results returned instead of it. It reports whether the function returns
// either the remembered value or word that there is none, so that its callers are
// the ones to use it in place of a computed value.
func (m *memo) substitutes(f *ssa.Function, at ssa.Instruction, keys map[ssa.Value]bool) bool {
	p := m.p
	is := func(in ssa.Instruction) bool { return in == at }
	look := func(v ssa.Value) *slice {
		s := m.slice(keys, is)
		s.visit(v)
		s.contents(f, v)
		return s
	}
	type alt struct {
		s  *slice
		in ssa.Instruction
	}
	judge := func(what string, alts []alt) bool {
		extra := map[ssa.Value]bool{}
		hit := false
		for _, a := range alts {
			if len(a.s.hits) > 0 {
				hit = true
				for x := range a.s.params {
					extra[x] = true
				}
			}
		}
		if !hit {
			return false
		}
		okAll, miss := true, true
		for _, a := range alts {
			if len(a.s.hits) > 0 {
				continue
			}
			if len(a.s.params) > 0 || len(a.s.state) > 0 || len(a.s.cut) > 0 {
				miss = false
			}
			if why := m.covered(a.s, f, keys, extra, 0); why != "" {
				okAll = false
				m.flag("found-by-all", p.At(at), p.shortName(f), fmt.Sprintf("a remembered value is used in place of %s (%s), which also depends on %s", what, p.At(a.in), why))
			}
		}
		if okAll {
			m.r.OK("found-by-all", p.At(at), p.shortName(f)+": key covers what the computed "+what+" depends on")
		}
		return miss
	}
	returned := false
	n := f.Signature.Results().Len()
	for i := 0; i < n; i++ {
		if isErrorType(f.Signature.Results().At(i).Type()) {
			continue
		}
		var alts []alt
		for _, ret := range returnsOf(f) {
			if deadReturn(ret) || ret.Block() != at.Block() && !canReach(at.Block(), ret.Block()) {
				continue
			}
			v := resultValue(ret, i)
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == ret.Block() {
				for _, e := range phi.Edges {
					alts = append(alts, alt{look(e), ret})
				}
				continue
			}
			alts = append(alts, alt{look(v), ret})
		}
		if judge("the result", alts) {
			returned = true
		}
	}
	// inside the function
	instrs(f, func(in ssa.Instruction) {
		phi, ok := in.(*ssa.Phi)
		if !ok || !canReach(at.Block(), phi.Block()) {
			return
		}
		for _, l := range findLoops(f) {
			if l.Head == phi.Block() {
				return
			}
		}
		var alts []alt
		for _, e := range phi.Edges {
			alts = append(alts, alt{look(e), in})
		}
		judge("a value", alts)
	})
	return returned
}

func checkC02(p *Program, r *Report) {
	r.Explanation = "Effect and dependence analysis of the state kept between calls (everything reachable from package variables on the points-to model). (a) Outside start-up the only writes to it are: entries of the modifier registry, entries of remembered tables, forgetting entries, and filling an object before anything kept leads to it; every other write would let one call change what a later one sees. (b) What is entered in a remembered table depends, by a backward data- and control-dependence slice through callers, only on values its key determines, and on no changing state. (c) Where a remembered value is used in place of a computed one, the computed one depends on nothing the key of the lookup leaves out. (d) Nothing kept leads to memory the caller may still write, and nothing handed out lets the caller write what is kept."
	r.Rule("frozen", "state kept between calls is changed only by entering or forgetting table entries")
	r.Rule("keyed-by-all", "a remembered value depends only on what its key determines")
	r.Rule("found-by-all", "a remembered value replaces a computed one only when the key covers everything the computed one depends on")
	r.Rule("not-shared", "what is kept is not reachable for writing by callers")
	t := p.pointsTo(p.entries)
	m := &memo{p: p, t: t, r: r, inits: p.startUp(t), bad: map[string]bool{}}
	m.shared, m.mutable = t.sharedState(m.inits)
	r.Count("kept_objects", len(m.shared))
	m.readers()
	var objs []*ptObj
	for o := range m.mutable {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	entered := map[ssa.Instruction]bool{}
	for _, o := range objs {
		for _, w := range m.mutable[o] {
			r.Count("writes_to_kept_state", 1)
			fn := p.shortName(w.in.Parent())
			if m.allowed(o, w, entered) {
				r.OK("frozen", p.At(w.in), fn+": "+w.what+" of "+o.String())
				continue
			}
			m.flag("frozen", p.At(w.in), fn, w.what+" changes "+o.String()+", which later calls use", t.trace(w.to, loc{o, w.path})...)
		}
	}
	for _, f := range p.Funcs {
		if m.inits[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			table, key, val := tableStore(in)
			if table == nil || registryTable(table.Type()) || !m.kept(table, in) {
				return
			}
			r.Count("entries_made", 1)
			at := m.atoms(key)
			s := m.slice(at, nil)
			s.visit(val)
			s.contents(f, val)
			if why := m.covered(s, f, at, nil, 0); why != "" {
				m.flag("keyed-by-all", p.At(in), p.shortName(f), "the remembered value also depends on "+why+", which its key does not determine")
				return
			}
			r.OK("keyed-by-all", p.At(in), p.shortName(f))
		})
	}
	m.lookups()
	m.ownership()
	m.pooled()
	r.Min("kept_objects", 5)
}

// allowed: the write is one that keeps the meaning of what is remembered.
func (m *memo) allowed(o *ptObj, w memWrite, entered map[ssa.Instruction]bool) bool {
	typ := o.site.Type()
	if o.kind == objGlobal {
		typ = deref(typ)
	}
	if isRegistryType(typ) {
		return true
	}
	if _, ok := w.in.(*ssa.MapUpdate); ok {
		return true // judged by keyed-by-all
	}
	if w.what == "delete" || w.what == "clear" {
		return true
	}
	st, ok := w.in.(*ssa.Store)
	if !ok {
		return false
	}
	if isRegistryType(st.Val.Type()) {
		return true // C16
	}
	if _, ok := st.Val.Type().Underlying().(*types.Map); ok && emptyTable(st.Val) {
		return true
	}
	// a counter nobody looks at
	if b, ok := st.Val.(*ssa.BinOp); ok && isInteger(st.Val.Type()) {
		if u, ok := b.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			_, c := b.Y.(*ssa.Const)
			return c && !m.readElsewhere(o, u)
		}
	}
	return false
}

func (m *memo) readElsewhere(o *ptObj, own *ssa.UnOp) bool {
	hit := false
	for _, f := range m.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u == own || u.Op != token.MUL {
				return
			}
			for _, l := range m.t.locs(u.X) {
				if l.o == o {
					hit = true
				}
			}
		})
	}
	return hit
}

// emptyTable: a map made here and not filled yet, or nil.
func emptyTable(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeMap:
		for _, ref := range *v.Referrers() {
			if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(v) {
				return false
			}
		}
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !emptyTable(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		for _, ret := range returnsOf(g) {
			if len(ret.Results) != 1 || !emptyTable(ret.Results[0]) {
				return false
			}
		}
		return true
	}
	return false
}

// ownership: rule (d).
func (m *memo) ownership() {
	p, t, r := m.p, m.t, m.r
	// what is kept apart from the modifiers
	var start []loc
	mods := map[*ptObj]bool{}
	for _, o := range t.objs {
		if o.kind != objGlobal || strings.Contains(o.site.Name(), "init$guard") {
			continue
		}
		if isRegistryType(deref(o.site.Type())) {
			for x := range t.reach([]loc{{o, ""}}) {
				mods[x] = true
			}
			continue
		}
		start = append(start, loc{o, ""})
	}
	kept := t.reach(start)
	for _, o := range sortedObjs(kept) {
		if mods[o] || o.kind != objExt {
			continue
		}
		if o.param != nil {
			if isString(o.param) || isModifierType(o.param) || types.IsInterface(o.param) && o.typ == nil {
				continue
			}
		}
		if a, ok := o.typ.(*types.Array); ok && types.Identical(a.Elem(), types.Typ[types.Byte]) && !isByteSlice(o.param) {
			continue // text of a string
		}
		m.flag("not-shared", "-", "-", "what is kept between calls leads to "+o.String(), t.holder(o)...)
	}
	for _, e := range p.entries {
		res := e.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			typ := res.At(i).Type()
			if isErrorType(typ) || isModifierType(typ) {
				continue
			}
			r.Count("results", 1)
			okAll := true
			for _, lf := range t.leaves(typ) {
				ls := t.locsAt(e, fmt.Sprintf("#%d", i)+lf.path)
				if isString(lf.typ) {
					for _, l := range ls {
						if kept[l.o] && m.mutable[l.o] != nil {
							okAll = false
							m.flag("not-shared", p.Pos(e.Pos()), p.shortName(e), "returns text inside "+l.o.String()+", which later calls overwrite")
						}
					}
					continue
				}
				for o := range t.reach(ls) {
					if kept[o] && !mods[o] && (o.kind == objAlloc || o.kind == objGlobal) && writable(o) {
						okAll = false
						m.flag("not-shared", p.Pos(e.Pos()), p.shortName(e), "the caller receives "+o.String()+", which later calls use", t.holder(o)...)
					}
				}
			}
			if okAll {
				r.OK("not-shared", p.Pos(e.Pos()), p.shortName(e)+fmt.Sprintf(" result %d", i))
			}
		}
	}
}

// pooled: an object taken from a sync.Pool carries nothing over from its last use.
func (m *memo) pooled() {
	p := m.p
	reset := func(in ssa.Instruction, obj map[ssa.Value]bool) bool {
		switch x := in.(type) {
		case *ssa.Call:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				return b.Name() == "clear" && obj[c.Args[0]]
			}
			g := c.StaticCallee()
			if g == nil || g.Signature.Recv() == nil || len(c.Args) == 0 || !obj[c.Args[0]] {
				return false
			}
			if g.Name() == "Truncate" && len(c.Args) == 2 {
				n, ok := constInt(c.Args[1])
				return ok && n == 0
			}
			return strings.EqualFold(g.Name(), "Reset")
		case *ssa.Store:
			return obj[x.Addr]
		case *ssa.Slice:
			n, ok := constInt(x.High)
			return x.High != nil && ok && n == 0 && obj[x.X]
		}
		return false
	}
	type use struct {
		at    ssa.Instruction
		clean bool
	}
	gets, puts := map[ssa.Value][]use{}, map[ssa.Value][]use{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch name := calleeName(c.Common()); name {
			case "(*sync.Pool).Get", "(*sync.Pool).Put":
				m.r.Count("pool_uses", 1)
				get := strings.HasSuffix(name, "Get")
				v := ssa.Value(nil)
				if get {
					if c.Value() == nil {
						return
					}
					v = c.Value()
				} else {
					v = c.Common().Args[1]
				}
				obj := aliasesOf(v)
				clean := false
				instrs(f, func(r ssa.Instruction) {
					if reset(r, obj) && (get && dominatesInstr(in, r) || !get && dominatesInstr(r, in)) {
						clean = true
					}
				})
				pool := c.Common().Args[0]
				if get {
					gets[pool] = append(gets[pool], use{in, clean})
				} else {
					puts[pool] = append(puts[pool], use{in, clean})
				}
			}
		})
	}
	dirty := func(us []use) *use {
		for i := range us {
			if !us[i].clean {
				return &us[i]
			}
		}
		return nil
	}
	for pool, g := range gets {
		a, b := dirty(g), dirty(puts[pool])
		if a == nil || b == nil {
			m.r.OK("frozen", p.At(g[0].at), "objects of the pool are reset")
			continue
		}
		m.flag("frozen", p.At(a.at), p.shortName(a.at.Parent()), "an object is taken from a pool without being reset, so it carries over what an earlier call left in it")
	}
}

// aliasesOf lists the values that are the given one, converted or asserted.
func aliasesOf(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var down, up func(v ssa.Value)
	down = func(v ssa.Value) {
		if v == nil || out[v] {
			return
		}
		out[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.TypeAssert:
				down(x)
			case *ssa.Extract:
				down(x)
			case *ssa.MakeInterface:
				down(x)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					down(x)
				}
			}
		}
	}
	up = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			up(x.X)
		case *ssa.TypeAssert:
			up(x.X)
		case *ssa.Extract:
			up(x.Tuple)
		case *ssa.UnOp:
			// other loads of the same variable
			if x.Op == token.MUL && x.X.Referrers() != nil {
				for _, ref := range *x.X.Referrers() {
					if u, ok := ref.(*ssa.UnOp); ok {
						down(u)
					}
				}
			}
			down(v)
		default:
			down(v)
		}
	}
	up(v)
	return out
}

// writable: holders of a pointer to the object can change it (text cannot).
func writable(o *ptObj) bool {
	switch v := o.site.(type) {
	case *ssa.Convert:
		return !isString(v.Type())
	case *ssa.BinOp:
		return false
	}
	return o.site == nil || !isString(o.site.Type())
}

func init() {
	checks["C02"] = checkC02
}
