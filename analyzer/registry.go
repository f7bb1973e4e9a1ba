package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var builtinModifiers = []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"}

// isRegistryType reports whether t is a map from names to modifiers.
func isRegistryType(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isNamed(m.Elem(), modPath, "Modifier")
}

func isModifierType(t types.Type) bool { return isNamed(t, modPath, "Modifier") }

// nameOf returns the constant name a concrete modifier type reports.
func (p *Program) nameOf(t types.Type) string {
	m := p.Prog.LookupMethod(t, p.Root.Pkg, "Name")
	if m == nil || m.Blocks == nil {
		return ""
	}
	name := ""
	for _, r := range returnsOf(m) {
		s, ok := constString(r.Results[0])
		if !ok || name != "" && s != name {
			return ""
		}
		name = s
	}
	return name
}

// registryWrite returns the key of an instruction that changes a registry.
func registryWrite(in ssa.Instruction) (key ssa.Value, what string) {
	switch in := in.(type) {
	case *ssa.MapUpdate:
		if isRegistryType(in.Map.Type()) {
			return in.Key, "registers"
		}
	case *ssa.Call:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && len(in.Common().Args) > 0 && isRegistryType(in.Common().Args[0].Type()) {
			switch b.Name() {
			case "delete":
				return in.Common().Args[1], "removes"
			case "clear":
				return nil, "clears"
			}
		}
	}
	return nil, ""
}

// initFuncs are the functions only run at start-up.
func (p *Program) initFuncs() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			m[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if m[f] || p.isEntry(f) || p.addrTkn[f] || len(p.callers[f]) == 0 {
				continue
			}
			all := true
			for _, c := range p.callers[f] {
				if !m[c.Parent()] {
					all = false
				}
			}
			if all {
				m[f] = true
				changed = true
			}
		}
	}
	return m
}

// registryLookup recognises a condition that tells whether a name is present.
// It returns the lookup's key and whether the given outcome means "present".
func (x *Explorer) registryLookup(s *State, a AV, truth bool) (AV, bool, bool) {
	for d := 0; d < 10; d++ {
		a = x.resolveNoFact(s, a)
		switch v := a.v.(type) {
		case *ssa.UnOp:
			if v.Op == token.NOT {
				a, truth = AV{fr: a.fr, v: v.X}, !truth
				continue
			}
		case *ssa.Extract:
			if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 1 && isRegistryType(lk.X.Type()) {
				return x.resolve(s, AV{fr: a.fr, v: lk.Index}), truth, true
			}
		case *ssa.BinOp:
			if v.Op != token.EQL && v.Op != token.NEQ {
				return AV{}, false, false
			}
			val := v.X
			if isNilConst(val) {
				val = v.Y
			} else if !isNilConst(v.Y) {
				return AV{}, false, false
			}
			b := x.resolveNoFact(s, AV{fr: a.fr, v: val})
			present := (v.Op == token.NEQ) == truth
			switch lk := b.v.(type) {
			case *ssa.Lookup:
				if isRegistryType(lk.X.Type()) {
					return x.resolve(s, AV{fr: b.fr, v: lk.Index}), present, true
				}
			case *ssa.Extract:
				if l, ok := lk.Tuple.(*ssa.Lookup); ok && lk.Index == 0 && isRegistryType(l.X.Type()) {
					return x.resolve(s, AV{fr: b.fr, v: l.Index}), present, true
				}
			}
			return AV{}, false, false
		}
		return AV{}, false, false
	}
	return AV{}, false, false
}

func checkC16(p *Program, r *Report) {
	r.Explanation = "Constant propagation and path-sensitive guard analysis of everything that touches the name-to-modifier table. Start-up: on every path of the package initialisers each documented name is entered with a modifier whose Name method returns that name. Afterwards: for each documented name, no public call given that name can reach an entry or removal of it; every entry is preceded by a test that the same name is absent; the table is never replaced, cleared or handed out; GetModifier returns exactly what the table holds under the name asked for. Not covered: what the built-in modifiers compute."
	r.Assumptions = []string{"table accesses are atomic with respect to each other (C01)"}
	r.Rule("present-at-start", "start-up registers every documented built-in under its own name, on every path")
	r.Rule("builtin-kept", "no public call can register over or remove a built-in name")
	r.Rule("no-overwrite", "a name is registered only after a test showed it is absent")
	r.Rule("takes-effect", "registering or removing reports success only after the entry was made or removed")
	r.Rule("exact-lookup", "GetModifier returns what is registered under exactly the given name, or nil when there is nothing")
	r.Rule("table-private", "the table is never replaced, cleared, exported or handed out")
	inits := p.initFuncs()

	// who touches the table
	var writers []*ssa.Function
	for _, f := range p.Funcs {
		w := false
		instrs(f, func(in ssa.Instruction) {
			if _, what := registryWrite(in); what != "" {
				r.Count("table_writes", 1)
				if !inits[f] {
					w = true
				}
			}
			p.tableUse(r, f, in, inits)
		})
		if w {
			writers = append(writers, f)
		}
	}
	for _, m := range p.Root.Members {
		if g, ok := m.(*ssa.Global); ok && token.IsExported(g.Name()) && isRegistryType(deref(g.Type())) {
			r.Bad("table-private", p.Pos(g.Pos()), g.Name(), "the modifier table is exported")
		}
	}

	// start-up
	x := newExplorer(p)
	x.Fold, x.Mem, x.TrackInt = true, true, true
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool { return true }
	x.Decide = func(x *Explorer, s *State, cond ssa.Value) int {
		if key, present, ok := x.registryLookup(s, AV{fr: s.fr, v: cond}, true); ok {
			if k, ok := constString(key.v); ok {
				has := false
				for i, n := range builtinModifiers {
					if n == k {
						has = s.Bits&(1<<i) != 0
					}
				}
				if has == present {
					return 1
				}
				return -1
			}
		}
		// the package initialiser runs once
		if ld, ok := cond.(*ssa.UnOp); ok {
			if g, ok := ld.X.(*ssa.Global); ok && g.Name() == "init$guard" {
				return -1
			}
		}
		return 0
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isRegistryType(mu.Map.Type()) {
			return true
		}
		key, ok := constString(x.resolve(s, AV{fr: s.fr, v: mu.Key}).v)
		if !ok {
			r.Bad("present-at-start", p.At(in), p.shortName(s.fr.fn), "registers a modifier under a name that is not fixed at start-up")
			return true
		}
		v := x.resolve(s, AV{fr: s.fr, v: mu.Value})
		mi, ok := v.v.(*ssa.MakeInterface)
		got := ""
		if ok {
			got = p.nameOf(mi.X.Type())
			if isNamed(mi.X.Type(), modPath, "ModifierFunc") {
				got = key
			}
		}
		if c, isC := v.v.(*ssa.Call); isC && calleeName(c.Common()) == modPath+".NewModifierFunc" {
			got = key
		}
		for i, n := range builtinModifiers {
			if n != key {
				continue
			}
			if got != key {
				r.Bad("present-at-start", p.At(in), p.shortName(s.fr.fn), fmt.Sprintf("the built-in name %q is given a modifier that calls itself %q", key, got))
				s.Bits &^= 1 << i
			} else {
				r.Count("startup_registrations", 1)
				s.Bits |= 1 << i
			}
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		for i, n := range builtinModifiers {
			if s.Bits&(1<<i) == 0 {
				r.Bad("present-at-start", p.Pos(p.Root.Func("init").Pos()), "init", fmt.Sprintf("the built-in modifier %q is not registered on every start-up path", n))
			} else {
				r.OK("present-at-start", "init", n+" is registered")
			}
		}
	}
	x.Run(p.Root.Func("init"))
	if x.Overflow {
		r.Bad("present-at-start", "-", "init", "start-up code is too complex to follow")
	}
	r.Count("walked_states", x.Nodes)

	// public calls that can reach a write
	wset := map[*ssa.Function]bool{}
	for _, w := range writers {
		wset[w] = true
	}
	covered := map[*ssa.Function]bool{}
	for _, e := range p.entries {
		reaches := false
		for _, g := range p.reachFrom([]*ssa.Function{e}) {
			if wset[g] {
				reaches = true
			}
		}
		if !reaches {
			continue
		}
		r.Count("mutating_entry_points", 1)
		for _, k := range builtinModifiers {
			p.builtinKept(r, e, k, covered)
		}
		p.noOverwrite(r, e, covered)
	}
	for _, w := range writers {
		if !covered[w] {
			r.Bad("builtin-kept", p.Pos(w.Pos()), p.shortName(w), "changes the modifier table but is not reached from a public call the analysis can follow")
		}
	}
	p.exactLookup(r)
	r.Min("mutating_entry_points", 1)
	r.Min("table_writes", 2)
}

// tableUse flags uses of a table that let it out of the library's hands.
func (p *Program) tableUse(r *Report, f *ssa.Function, in ssa.Instruction, inits map[*ssa.Function]bool) {
	fn := p.shortName(f)
	switch in := in.(type) {
	case *ssa.Store:
		if isRegistryType(in.Val.Type()) && !inits[f] {
			if _, local := rootAddr(in.Addr).(*ssa.Alloc); !local {
				r.Bad("table-private", p.At(in), fn, "replaces the modifier table")
			}
		}
	case *ssa.Return:
		if p.isEntry(f) {
			for _, v := range in.Results {
				if isRegistryType(v.Type()) && !freshMap(v) {
					r.Bad("table-private", p.At(in), fn, "hands out the modifier table")
				}
			}
		}
	case *ssa.MakeInterface:
		if isRegistryType(in.X.Type()) {
			r.Bad("table-private", p.At(in), fn, "hands out the modifier table")
		}
	case *ssa.Call:
		if _, what := registryWrite(in); what == "clears" {
			r.Bad("table-private", p.At(in), fn, "clears the modifier table")
		}
	}
}

func freshMap(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.Const:
		return true
	case *ssa.Call:
		return calleeName(v.Common()) == "maps.Clone"
	}
	return false
}

// builtinKept: given the name of a built-in, no write to the table is reachable.
func (p *Program) builtinKept(r *Report, e *ssa.Function, k string, covered map[*ssa.Function]bool) {
	x := newExplorer(p)
	x.Fold, x.Mem, x.TrackInt = true, true, true
	name := p.shortName(e)
	x.Decide = func(x *Explorer, s *State, cond ssa.Value) int {
		if key, present, ok := x.registryLookup(s, AV{fr: s.fr, v: cond}, true); ok {
			if c, ok := constString(key.v); ok && c == k {
				if present {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	bad := false
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		covered[s.fr.fn] = true
		key, what := registryWrite(in)
		if what == "" {
			return true
		}
		if what == "clears" {
			return true
		}
		a := x.resolve(s, AV{fr: s.fr, v: key})
		c, isC := constString(a.v)
		if isC && c != k {
			return true
		}
		bad = true
		r.Bad("builtin-kept", p.At(in), name, fmt.Sprintf("%s a modifier under the built-in name %q", what, k), x.Trace(s)...)
		return false
	}
	x.root = x.newFrame(nil, nil, e)
	st := &State{fr: x.root, blk: e.Blocks[0], facts: map[fkey]AV{}}
	for _, prm := range e.Params {
		if isString(prm.Type()) {
			st.facts[fkey{x.root, prm, 0}] = AV{v: ssa.NewConst(constant.MakeString(k), prm.Type())}
		}
	}
	x.RunFrom(st)
	if x.Overflow {
		r.Bad("builtin-kept", p.Pos(e.Pos()), name, "too complex to follow")
		return
	}
	r.Count("walked_states", x.Nodes)
	if !bad {
		r.OK("builtin-kept", p.Pos(e.Pos()), fmt.Sprintf("%s(%q) cannot change the table", name, k))
	}
}

// noOverwrite: every registration follows an absence test of the same name.
func (p *Program) noOverwrite(r *Report, e *ssa.Function, covered map[*ssa.Function]bool) {
	x := newExplorer(p)
	x.Mem = true
	name := p.shortName(e)
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if key, present, ok := x.registryLookup(s, AV{fr: s.fr, v: iff.Cond}, taken); ok {
			if present || s.Bits&4 == 0 {
				s.Ext = ""
			} else {
				s.Ext = avKey(key)
			}
		}
		return true
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		if releases(in) {
			s.Ext = "" // others may change the table from here on
			s.Bits &^= 4
		}
		if lk, ok := in.(*ssa.Lookup); ok && isRegistryType(lk.X.Type()) {
			s.Bits |= 4
		}
		covered[s.fr.fn] = true
		key, what := registryWrite(in)
		switch what {
		case "registers":
			a := x.resolve(s, AV{fr: s.fr, v: key})
			if x.isParam(a, 0) && x.isParam(x.resolve(s, AV{fr: s.fr, v: in.(*ssa.MapUpdate).Value}), 1) {
				s.Bits |= 1
			}
			if s.Ext == "" || s.Ext != avKey(a) {
				r.Bad("no-overwrite", p.At(in), name, "registers a modifier without a test that the name is absent", x.Trace(s)...)
			} else {
				r.OK("no-overwrite", p.At(in), name+": the name was tested to be absent")
			}
		case "removes":
			a := x.resolve(s, AV{fr: s.fr, v: key})
			s.Ext = avKey(a)
			if x.isParam(a, 0) {
				s.Bits |= 2
			}
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		want, verb := uint64(0), ""
		switch name {
		case "RegisterModifier":
			want, verb = 1, "registered"
		case "UnregisterModifier":
			want, verb = 2, "removed"
		default:
			return
		}
		if deadReturn(ret) || len(ret.Results) != 1 || x.nilness(s, s.fr, ret.Results[0]) > 0 {
			return
		}
		if s.Bits&want == 0 {
			r.Bad("takes-effect", p.At(ret), name, "reports success without having "+verb+" the name", x.Trace(s)...)
		} else {
			r.OK("takes-effect", p.At(ret), name+": success only once the name is "+verb)
		}
	}
	x.Run(e)
	if x.Overflow {
		r.Bad("no-overwrite", p.Pos(e.Pos()), name, "too complex to follow")
	}
	r.Count("walked_states", x.Nodes)
}

// releases reports whether an instruction gives up a lock.
func releases(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Call:
		return isUnlock(in.Common())
	case *ssa.RunDefers:
		rel := false
		instrs(in.Parent(), func(d ssa.Instruction) {
			if df, ok := d.(*ssa.Defer); ok && isUnlock(df.Common()) {
				rel = true
			}
		})
		return rel
	}
	return false
}

func isUnlock(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return true
	}
	return false
}

// exactLookup: GetModifier answers from the table, under exactly the given name.
func (p *Program) exactLookup(r *Report) {
	f := p.Func("GetModifier")
	if f == nil || f.Signature.Params().Len() != 1 || !isString(f.Signature.Params().At(0).Type()) {
		r.Bad("anchor", "-", "GetModifier", "public entry point is missing or changed its signature")
		return
	}
	x := newExplorer(p)
	x.Mem = true
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		if key, present, ok := x.registryLookup(s, AV{fr: s.fr, v: iff.Cond}, taken); ok && !present && x.isParam(key, 0) {
			s.Ext = "absent"
		}
		return true
	}
	x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		a := x.resolve(s, AV{fr: s.fr, v: ret.Results[0]})
		var lk *ssa.Lookup
		switch v := a.v.(type) {
		case *ssa.Lookup:
			lk = v
		case *ssa.Extract:
			lk, _ = v.Tuple.(*ssa.Lookup)
		case *ssa.Const:
			if s.Ext == "absent" || deadReturn(ret) {
				r.OK("exact-lookup", p.At(ret), "nil only when nothing is registered")
				return
			}
			r.Bad("exact-lookup", p.At(ret), "GetModifier", "reports a name as missing without looking it up", x.Trace(s)...)
			return
		}
		if lk != nil && isRegistryType(lk.X.Type()) && x.isParam(x.resolve(s, AV{fr: a.fr, v: lk.Index}), 0) {
			r.OK("exact-lookup", p.At(ret), "the entry under the given name")
			return
		}
		r.Bad("exact-lookup", p.At(ret), "GetModifier", "returns something other than the entry under the given name", x.Trace(s)...)
	}
	x.Run(f)
	if x.Overflow {
		r.Bad("exact-lookup", p.Pos(f.Pos()), "GetModifier", "too complex to follow")
	}
}

// deadReturn: the block run after a recovered panic, not on a normal path.
func deadReturn(ret *ssa.Return) bool { return ret.Block() == ret.Parent().Recover }

func init() {
	checks["C16"] = checkC16
}
