package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts about one evaluation of a filter. A path of the evaluator establishes
// the truth of some of them; the value it returns must agree with the meaning of
// the operator whatever the others are.
const (
	faExists  = iota // the value exists
	faEq             // value == filter value (text)
	faLT             // value < filter value (numbers)
	faLE             // <=
	faGT             // >
	faGE             // >=
	faNumEq          // == (numbers)
	faErrA           // the value is not a number
	faErrV           // the filter value is not a number
	faInfA           // the value is infinite
	faInfV           // the filter value is infinite
	faNanA           // the value is NaN
	faNanV           // the filter value is NaN
	faGateA          // the value passed a test for being a number
	faGateV          // the filter value passed a test for being a number
	faWild           // the pattern has wildcards
	faMatch          // the pattern matches
	faStopped        // the matcher gave up
	faDeep           // nested too deeply
	faNil            // there is no filter
	faCount
)

var faNames = [...]string{"the value exists", "equal", "less", "less or equal", "greater", "greater or equal", "numerically equal",
	"value is not a number", "filter value is not a number", "value is infinite", "filter value is infinite", "value is NaN", "filter value is NaN",
	"value looks like a number", "filter value looks like a number", "pattern has wildcards", "pattern matches", "matcher gave up", "nested too deeply", "no filter"}

type filterOp struct {
	text, name string
	val        int64
	need       []int // facts the meaning depends on
	mean       func(f func(int) bool) bool
}

func finite(f func(int) bool) bool {
	return f(faGateA) && f(faGateV) && !f(faErrA) && !f(faErrV) && !f(faInfA) && !f(faInfV)
}

var ordFacts = []int{faExists, faLT, faLE, faGT, faGE, faNumEq, faErrA, faErrV, faInfA, faInfV, faNanA, faNanV, faGateA, faGateV}
var patFacts = []int{faExists, faEq, faWild, faMatch, faStopped}

func (p *Program) filterOps(r *Report) []*filterOp {
	ops := []*filterOp{
		{text: "==", name: "OpEqual", need: []int{faExists, faEq}, mean: func(f func(int) bool) bool { return f(faExists) && f(faEq) }},
		{text: "!=", name: "OpNotEqual", need: []int{faExists, faEq}, mean: func(f func(int) bool) bool { return f(faExists) && !f(faEq) }},
		{text: "<", name: "OpLessThan", need: ordFacts, mean: func(f func(int) bool) bool { return f(faExists) && finite(f) && f(faLT) }},
		{text: ">", name: "OpGreaterThan", need: ordFacts, mean: func(f func(int) bool) bool { return f(faExists) && finite(f) && f(faGT) }},
		{text: "<=", name: "OpLessThanOrEqual", need: ordFacts, mean: func(f func(int) bool) bool { return f(faExists) && finite(f) && f(faLE) }},
		{text: ">=", name: "OpGreaterThanOrEqual", need: ordFacts, mean: func(f func(int) bool) bool { return f(faExists) && finite(f) && f(faGE) }},
		{text: "%", name: "OpPatternMatch", need: patFacts, mean: func(f func(int) bool) bool {
			if !f(faWild) {
				return f(faExists) && f(faEq)
			}
			return f(faExists) && f(faMatch) && !f(faStopped)
		}},
		{text: "!%", name: "OpPatternNotMatch", need: patFacts, mean: func(f func(int) bool) bool {
			if !f(faWild) {
				return f(faExists) && !f(faEq)
			}
			return f(faExists) && !f(faMatch) && !f(faStopped)
		}},
		{text: "", name: "OpExists", need: []int{faExists}, mean: func(f func(int) bool) bool { return f(faExists) }},
	}
	seen := map[int64]string{}
	for _, o := range ops {
		c, ok := p.Root.Pkg.Scope().Lookup(o.name).(*types.Const)
		if !ok {
			r.Bad("anchor", "-", o.name, "exported constant is missing")
			return nil
		}
		o.val, _ = constant.Int64Val(c.Val())
		if old, dup := seen[o.val]; dup {
			r.Bad("own-comparison", p.Pos(c.Pos()), o.name, "has the same value as "+old)
		}
		seen[o.val] = o.name
	}
	return ops
}

func filterField(t types.Type, field int) string {
	if !isNamed(deref(t), modPath, "Filter") {
		return ""
	}
	return deref(t).Underlying().(*types.Struct).Field(field).Name()
}

// loadsFilter returns the name of the Filter field an abstract value is read from.
func (x *Explorer) loadsFilter(s *State, a AV) string {
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return filterField(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return filterField(v.X.Type(), v.Field)
	}
	return ""
}

type filterWalk struct {
	p    *Program
	x    *Explorer
	r    *Report
	syms map[string]*Sym
	// anyLimit: matcher results count whatever the arguments
	anyLimit bool
}

// sym returns the symbol of a text or number: "A" the element's value, "V" the
// filter's value, "numA" and "numV" the numbers read from them.
func (w *filterWalk) sym(name string, t types.Type) *Sym {
	y := w.syms[name]
	if y == nil {
		y = &Sym{name: "$" + name, typ: t}
		w.syms[name] = y
	}
	return y
}

func (w *filterWalk) fact(atom int, neg bool) *Sym {
	y := w.sym(fmt.Sprintf("fact%d%v", atom, neg), types.Typ[types.Bool])
	y.atom, y.neg = atom, neg
	return y
}

// is returns the name of the symbol a value stands for.
func (w *filterWalk) is(s *State, fr *Frame, v ssa.Value) string {
	if y, ok := w.x.resolve(s, AV{fr: fr, v: v}).v.(*Sym); ok {
		return y.name[1:]
	}
	return ""
}

// attrKey: the lookup is of the attribute the filter names.
func (w *filterWalk) attrKey(s *State, fr *Frame, lk *ssa.Lookup) bool {
	m, ok := lk.X.Type().Underlying().(*types.Map)
	if !ok || !isString(m.Elem()) {
		return false
	}
	k := w.x.resolve(s, AV{fr: fr, v: lk.Index})
	switch v := k.v.(type) {
	case *ssa.Slice:
		n, ok := constInt(v.Low)
		return ok && n == 1 && v.High == nil && w.x.loadsFilter(s, AV{fr: k.fr, v: v.X}) == "Path"
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "strings.TrimPrefix", "strings.CutPrefix":
			lit, ok := constString(v.Common().Args[1])
			return ok && lit == "@" && k.idx <= 1 && w.x.loadsFilter(s, AV{fr: k.fr, v: v.Common().Args[0]}) == "Path"
		}
	}
	return false
}

func pick(side string, a, v int) int {
	if strings.HasSuffix(side, "A") {
		return a
	}
	return v
}

// mark gives the value an instruction computes its meaning.
func (w *filterWalk) mark(s *State, in ssa.Instruction, op *filterOp) {
	x := w.x
	text := types.Typ[types.String]
	bind := func(v ssa.Value, idx int, y *Sym) { s.facts[fkey{s.fr, v, idx}] = AV{v: y} }
	field := ""
	switch v := in.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			field = filterField(fa.X.Type(), fa.Field)
		}
		if v.Op == token.NOT {
			if y, ok := x.resolveNoFact(s, AV{fr: s.fr, v: v.X}).v.(*Sym); ok {
				bind(v, 0, w.fact(y.atom, !y.neg))
			}
		}
	case *ssa.Field:
		field = filterField(v.X.Type(), v.Field)
	case *ssa.Lookup:
		if !v.CommaOk && w.attrKey(s, s.fr, v) {
			bind(v, 0, w.sym("A", text))
		}
	case *ssa.Extract:
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && w.attrKey(s, s.fr, lk) {
			if v.Index == 0 {
				bind(v, 0, w.sym("A", text))
			} else {
				bind(v, 0, w.fact(faExists, false))
			}
		}
	case *ssa.Call:
		args := v.Common().Args
		switch calleeName(v.Common()) {
		case "(" + modPath + ".Result).String":
			bind(v, 0, w.sym("A", text))
		case "(" + modPath + ".Result).Exists":
			bind(v, 0, w.fact(faExists, false))
		case "strconv.ParseFloat":
			n, ok := constInt(args[1])
			if side := w.is(s, s.fr, args[0]); ok && n == 64 && (side == "A" || side == "V") {
				bind(v, 1, w.sym("num"+side, types.Typ[types.Float64]))
				bind(v, 2, w.sym("err"+side, errorType))
			}
		case "math.IsInf":
			side := w.is(s, s.fr, args[0])
			if n, ok := constInt(args[1]); ok && n == 0 && strings.HasPrefix(side, "num") {
				bind(v, 0, w.fact(pick(side, faInfA, faInfV), false))
			}
		case "math.IsNaN":
			if side := w.is(s, s.fr, args[0]); strings.HasPrefix(side, "num") {
				bind(v, 0, w.fact(pick(side, faNanA, faNanV), false))
			}
		case "strings.ContainsAny", "strings.IndexAny":
			set, ok := constString(x.resolve(s, AV{fr: s.fr, v: args[1]}).v)
			if ok && wildSet(set) && w.is(s, s.fr, args[0]) == "V" {
				if isBool(v.Type()) {
					bind(v, 0, w.fact(faWild, false))
				} else {
					bind(v, 0, w.sym("wildAt", types.Typ[types.Int]))
				}
			}
		case modPath + "/internal/pattern.Match":
			lim, ok := constInt(x.resolve(s, AV{fr: s.fr, v: args[2]}).v)
			if w.anyLimit || ok && lim <= stepLimit && w.is(s, s.fr, args[0]) == "A" && w.is(s, s.fr, args[1]) == "V" {
				bind(v, 1, w.fact(faMatch, false))
				bind(v, 2, w.fact(faStopped, false))
			}
		default:
			// a predicate of the library on one of the two texts
			f := v.Common().StaticCallee()
			if f != nil && w.p.InLib(f) && len(args) == 1 && isString(args[0].Type()) && isBool(v.Type()) {
				if side := w.is(s, s.fr, args[0]); side == "A" || side == "V" {
					bind(v, 0, w.fact(pick(side, faGateA, faGateV), false))
				}
			}
		}
	case *ssa.BinOp:
		if y := w.compare(s, v); y != nil {
			bind(v, 0, y)
		}
	}
	val, _ := in.(ssa.Value)
	switch field {
	case "Op":
		s.facts[fkey{s.fr, val, 0}] = AV{v: ssa.NewConst(constant.MakeInt64(op.val), val.Type())}
	case "Value":
		bind(val, 0, w.sym("V", text))
	}
}

func (w *filterWalk) compare(s *State, v *ssa.BinOp) *Sym {
	x := w.x
	l, r := w.is(s, s.fr, v.X), w.is(s, s.fr, v.Y)
	equality := v.Op == token.EQL || v.Op == token.NEQ
	switch {
	case isBool(v.X.Type()):
		// a fact compared with a known answer
		for _, o := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			y, ok := x.resolveNoFact(s, AV{fr: s.fr, v: o[0]}).v.(*Sym)
			if d := x.evalBool(s, o[1]); ok && d != 0 && equality {
				return w.fact(y.atom, y.neg != ((v.Op == token.EQL) != (d > 0)))
			}
		}
	case isString(v.X.Type()):
		if equality && (l == "A" && r == "V" || l == "V" && r == "A") {
			return w.fact(faEq, v.Op == token.NEQ)
		}
	case isFloat(v.X.Type()):
		op := v.Op
		if l == "numV" && r == "numA" {
			op = flip(op)
		} else if l != "numA" || r != "numV" {
			return nil
		}
		switch op {
		case token.LSS:
			return w.fact(faLT, false)
		case token.LEQ:
			return w.fact(faLE, false)
		case token.GTR:
			return w.fact(faGT, false)
		case token.GEQ:
			return w.fact(faGE, false)
		case token.EQL:
			return w.fact(faNumEq, false)
		case token.NEQ:
			return w.fact(faNumEq, true)
		}
	case isNilConst(v.Y) && isNamed(deref(v.X.Type()), modPath, "Filter"), isNilConst(v.X) && isNamed(deref(v.Y.Type()), modPath, "Filter"):
		if equality {
			return w.fact(faNil, v.Op == token.NEQ)
		}
	case isErrorType(v.X.Type()) && isNilConst(v.Y):
		if equality && strings.HasPrefix(l, "err") {
			return w.fact(pick(l, faErrA, faErrV), v.Op == token.EQL)
		}
	case isNamed(v.X.Type(), modPath, "Type"):
		if _, null, ok := x.nullTest(s, v, true); ok {
			return w.fact(faExists, null)
		}
	case isInteger(v.X.Type()):
		n, ok := constInt(x.resolve(s, AV{fr: s.fr, v: v.Y}).v)
		if !ok {
			return nil
		}
		if l == "wildAt" {
			switch {
			case v.Op == token.GEQ && n == 0, v.Op == token.NEQ && n == -1, v.Op == token.GTR && n == -1:
				return w.fact(faWild, false)
			case v.Op == token.LSS && n == 0, v.Op == token.EQL && n == -1:
				return w.fact(faWild, true)
			}
		}
		// nesting limit
		prm, ok := x.resolve(s, AV{fr: s.fr, v: v.X}).v.(*ssa.Parameter)
		if ok && prm.Parent() == x.root.fn {
			switch {
			case v.Op == token.GEQ && n >= 10, v.Op == token.GTR && n >= 9:
				return w.fact(faDeep, false)
			case v.Op == token.LSS && n >= 10, v.Op == token.LEQ && n >= 9:
				return w.fact(faDeep, true)
			}
		}
	}
	return nil
}

func wildSet(s string) bool {
	return strings.ContainsRune(s, '*') && strings.ContainsRune(s, '?') && strings.ContainsRune(s, '\\')
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// known returns what a path established about a fact.
func known(s *State, atom int) (val, ok bool) {
	return s.Bits&(1<<(atom+32)) != 0, s.Bits&(1<<atom) != 0
}

// consistent: the facts can hold together.
func consistent(s *State, f func(int) bool) bool {
	// what looks like a number and can be read is not infinite
	if v, ok := known(s, faGateA); ok && v && !f(faErrA) && f(faInfA) {
		return false
	}
	if v, ok := known(s, faGateV); ok && v && !f(faErrV) && f(faInfV) {
		return false
	}
	if f(faStopped) && f(faMatch) {
		return false
	}
	if f(faNanA) || f(faNanV) {
		return !f(faLT) && !f(faLE) && !f(faGT) && !f(faGE) && !f(faNumEq)
	}
	return !(f(faLT) && f(faGT)) && f(faNumEq) == (!f(faLT) && !f(faGT)) && f(faLE) == !f(faGT) && f(faGE) == !f(faLT)
}

// judge compares what is returned with the meaning of the operator, for every
// combination of the facts the path leaves open.
func (w *filterWalk) judge(s *State, op *filterOp, constVal bool, isConst bool, atom int, neg bool) (string, bool) {
	need := op.need
	if !isConst {
		has := false
		for _, n := range need {
			if n == atom {
				has = true
			}
		}
		if !has {
			need = append(append([]int{}, need...), atom)
		}
	}
	var open []int
	var cur [faCount]bool
	cur[faGateA], cur[faGateV] = true, true
	// without wildcard test the pattern is taken to have some
	cur[faWild] = true
	for i := 0; i < faCount; i++ {
		if v, ok := known(s, i); ok {
			cur[i] = v
		}
	}
	for _, n := range need {
		if _, ok := known(s, n); !ok && n != faGateA && n != faGateV && n != faWild {
			open = append(open, n)
		}
	}
	f := func(i int) bool { return cur[i] }
	for m := 0; m < 1<<len(open); m++ {
		for i, n := range open {
			cur[n] = m&(1<<i) != 0
		}
		ordering := len(op.need) == len(ordFacts)
		if ordering && !consistent(s, f) || !ordering && f(faStopped) && f(faMatch) {
			continue
		}
		want := op.mean(f)
		if f(faDeep) {
			want = false
		}
		if f(faNil) {
			want = true
		}
		got := constVal
		if !isConst {
			got = cur[atom] != neg
		}
		if got != want {
			var ws []string
			for _, n := range need {
				if cur[n] {
					ws = append(ws, faNames[n])
				}
			}
			return fmt.Sprintf("answers %v where %v is right, for example when only these hold: %s", got, want, strings.Join(ws, ", ")), false
		}
	}
	return "", true
}

// evaluators returns the outermost functions that evaluate a filter.
func (p *Program) evaluators() []*ssa.Function {
	qual := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
			continue
		}
		hasF := false
		for _, prm := range f.Params {
			if isNamed(deref(prm.Type()), modPath, "Filter") {
				hasF = true
			}
		}
		if !hasF {
			continue
		}
		for _, g := range p.reachFrom([]*ssa.Function{f}) {
			instrs(g, func(in ssa.Instruction) {
				if fa, ok := in.(*ssa.FieldAddr); ok && filterField(fa.X.Type(), fa.Field) == "Op" {
					qual[f] = true
				}
			})
		}
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !qual[f] {
			continue
		}
		outer := len(p.callers[f]) == 0 || p.addrTkn[f]
		for _, c := range p.callers[f] {
			if !qual[c.Parent()] {
				outer = true
			}
		}
		if outer {
			out = append(out, f)
		}
	}
	return out
}

func (w *filterWalk) setup(op *filterOp, seen map[*ssa.Function]bool) {
	p := w.p
	x := newExplorer(p)
	x.Fold, x.TrackInt, x.Mem = true, true, true
	w.x = x
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
		sig := callee.Signature
		texts, useful := 0, false
		for _, prm := range callee.Params {
			if isNamed(deref(prm.Type()), modPath, "Filter") || isNamed(prm.Type(), modPath, "FilterOp") || isFloat(prm.Type()) {
				useful = true
			}
			if isString(prm.Type()) {
				texts++
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if isFloat(sig.Results().At(i).Type()) {
				useful = true
			}
			if texts > 1 && isBool(sig.Results().At(i).Type()) {
				useful = true
			}
		}
		return useful && callee.Pkg == p.Root
	}
	x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		seen[in.Parent()] = true
		w.mark(s, in, op)
		return true
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		y, ok := x.resolveNoFact(s, AV{fr: s.fr, v: iff.Cond}).v.(*Sym)
		if !ok {
			return true
		}
		a, val := y.atom, taken != y.neg
		if old, ok := known(s, a); ok && old != val {
			return false
		}
		s.Bits |= 1 << a
		s.Bits &^= 1 << (a + 32)
		if val {
			s.Bits |= 1 << (a + 32)
		}
		return true
	}
}

func checkC22(p *Program, r *Report) {
	r.Explanation = "Path-sensitive boolean abstraction of the filter evaluator and of the operator parser. For each operator the evaluator is walked with that operator fixed; each path establishes facts (value exists, texts equal, number read, number finite, comparison outcome, matcher gave up) and returns one boolean; that boolean must equal the documented meaning of the operator for every combination of the facts the path leaves open. The compared texts must be the selected value and the filter's value themselves, and the compared numbers those read from them. In the parser, every operator stored into a filter must be the one whose text was recognised on that path. Not covered: which texts the library's own test for numbers accepts, and the matching algorithm."
	r.Assumptions = []string{"strconv.ParseFloat, math.IsInf and math.IsNaN behave as documented", "a text rejected by the library's own test for numbers is not a finite number"}
	r.Rule("own-comparison", "each operator returns its own comparison of the value with the filter's value")
	r.Rule("operator-text", "the operator stored in a filter is the one written in the path")
	r.Rule("one-evaluator", "the operator and value of a filter are only looked at by the evaluator")
	r.Rule("answer-used", "every filter evaluation decides a branch or is returned")
	ops := p.filterOps(r)
	if ops == nil {
		return
	}
	seen := map[*ssa.Function]bool{}
	evals := p.evaluators()
	p.evalOps(r, ops, evals, seen)
	p.parseOps(r, ops, seen)
	for _, f := range p.Funcs {
		if seen[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				if n := filterField(v.X.Type(), v.Field); n == "Op" || n == "Value" {
					r.Bad("one-evaluator", p.At(in), p.shortName(f), "looks at the "+strings.ToLower(n)+" of a filter outside the evaluator")
				}
			case *ssa.Field:
				if n := filterField(v.X.Type(), v.Field); n == "Op" || n == "Value" {
					r.Bad("one-evaluator", p.At(in), p.shortName(f), "looks at the "+strings.ToLower(n)+" of a filter outside the evaluator")
				}
			}
		})
	}
	for _, e := range evals {
		for _, c := range p.callers[e] {
			r.Count("evaluation_sites", 1)
			v, ok := c.(*ssa.Call)
			if !ok || !decidesBranch(v, 0) {
				r.Bad("answer-used", p.At(c), p.shortName(c.Parent()), "the answer of a filter is not used")
			} else {
				r.OK("answer-used", p.At(c), p.shortName(c.Parent())+" branches on it")
			}
		}
	}
	r.Min("evaluators", 1)
	r.Min("operator_stores", 2)
	r.Min("returns_judged", 9)
}

func decidesBranch(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.If, *ssa.Return:
			return true
		case *ssa.UnOp:
			if decidesBranch(ref, d+1) {
				return true
			}
		case *ssa.Phi:
			if decidesBranch(ref, d+1) {
				return true
			}
		case *ssa.Store:
			return true
		}
	}
	return false
}

func (p *Program) evalOps(r *Report, ops []*filterOp, evals []*ssa.Function, seen map[*ssa.Function]bool) {
	for _, e := range evals {
		r.Count("evaluators", 1)
		for _, op := range ops {
			w := &filterWalk{p: p, r: r, syms: map[string]*Sym{}}
			w.setup(op, seen)
			x := w.x
			name := p.shortName(e)
			good := true
			x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
				if deadReturn(ret) {
					return
				}
				r.Count("returns_judged", 1)
				v := AV{fr: s.fr, v: ret.Results[0]}
				var msg string
				ok := false
				if d := x.evalBoolAV(s, v, 0); d != 0 {
					msg, ok = w.judge(s, op, d > 0, true, 0, false)
				} else if y, isSym := x.resolve(s, v).v.(*Sym); isSym {
					msg, ok = w.judge(s, op, false, false, y.atom, y.neg)
				} else {
					msg = "answers with something that is not a comparison of the value with the filter's value"
				}
				if !ok {
					good = false
					t := op.text
					if t == "" {
						t = "existence"
					}
					r.Bad("own-comparison", p.At(ret), name, "operator "+t+": "+msg, x.Trace(s)...)
				}
			}
			x.Run(e)
			r.Count("walked_states", x.Nodes)
			if x.Overflow {
				r.Bad("own-comparison", p.Pos(e.Pos()), name, "too complex to follow")
			} else if good {
				r.OK("own-comparison", p.Pos(e.Pos()), name+": "+op.name)
			}
		}
	}
}

// parseOps walks the functions that build filters.
func (p *Program) parseOps(r *Report, ops []*filterOp, seen map[*ssa.Function]bool) {
	byText := map[string]*filterOp{}
	for _, o := range ops {
		byText[o.text] = o
	}
	stores := map[ssa.Instruction]bool{}
	var holders []*ssa.Function
	for _, f := range p.Funcs {
		has := false
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && filterField(fa.X.Type(), fa.Field) == "Op" {
					stores[in] = false
					has = true
				}
			}
		})
		if has {
			holders = append(holders, f)
		}
	}
	// start from functions that see the whole expression
	roots := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		hasOp := false
		for _, prm := range f.Params {
			if isNamed(prm.Type(), modPath, "FilterOp") {
				hasOp = true
			}
		}
		if hasOp && d < 4 {
			for _, c := range p.callers[f] {
				up(c.Parent(), d+1)
			}
			return
		}
		roots[f] = true
	}
	for _, h := range holders {
		up(h, 0)
	}
	for _, f := range p.Funcs {
		if !roots[f] {
			continue
		}
		name := p.shortName(f)
		x := newExplorer(p)
		x.Fold, x.TrackInt, x.Mem = true, true, true
		x.FoldMax = 12
		x.Decide = func(x *Explorer, s *State, cond ssa.Value) int { return x.decideSign(s, cond) }
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			lit, is, ok := x.literalTest(s, iff.Cond, taken)
			if ok && is && lit != "" && byText[lit] != nil {
				s.Ext = lit
			}
			return true
		}
		x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
			seen[in.Parent()] = true
			if _, ok := stores[in]; !ok {
				return true
			}
			stores[in] = true
			r.Count("operator_stores", 1)
			val := x.resolve(s, AV{fr: s.fr, v: in.(*ssa.Store).Val})
			n, ok := constInt(val.v)
			want := byText[s.Ext]
			if tab, isTab := x.tableValue(s, val); isTab {
				for k, e := range tab {
					r.Count("operator_stores", 1)
					if n, ok := constInt(e); !ok || byText[k] == nil || byText[k].val != n {
						r.Bad("operator-text", p.At(in), name, "stores the wrong operator for the text "+k, x.Trace(s)...)
					} else {
						r.OK("operator-text", p.At(in), byText[k].name+" for "+k)
					}
				}
				return true
			}
			if !ok {
				r.Bad("operator-text", p.At(in), name, "stores an operator that cannot be traced to the text of the path", x.Trace(s)...)
			} else if n != want.val {
				got := fmt.Sprint(n)
				for _, o := range ops {
					if o.val == n {
						got = o.name
					}
				}
				t := "the text " + s.Ext
				if s.Ext == "" {
					t = "no operator"
				}
				r.Bad("operator-text", p.At(in), name, fmt.Sprintf("stores %s where %s was found", got, t), x.Trace(s)...)
			} else {
				r.OK("operator-text", p.At(in), want.name+" for "+want.text)
			}
			return true
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		if x.Overflow {
			r.Bad("operator-text", p.Pos(f.Pos()), name, "too complex to follow")
		}
	}
	for in, ok := range stores {
		if !ok {
			r.Bad("operator-text", p.At(in), p.shortName(in.Parent()), "stores an operator on no path the analysis can follow")
		}
	}
}

// tableValue returns the literal table a value was looked up in by its text.
func (x *Explorer) tableValue(s *State, a AV) (map[string]ssa.Value, bool) {
	var lk *ssa.Lookup
	switch v := a.v.(type) {
	case *ssa.Extract:
		lk, _ = v.Tuple.(*ssa.Lookup)
		if v.Index != 0 {
			lk = nil
		}
	case *ssa.Lookup:
		lk = v
	}
	if lk == nil {
		return nil, false
	}
	return x.mapLiteral(x.resolve(s, AV{fr: a.fr, v: lk.X}))
}

// decideSign decides tests of a position against "not found".
func (x *Explorer) decideSign(s *State, cond ssa.Value) int {
	truth := 1
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 6; d++ {
		a = x.resolveNoFact(s, a)
		u, ok := a.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, -truth
	}
	bo, ok := a.v.(*ssa.BinOp)
	if !ok || !isInteger(bo.X.Type()) {
		return 0
	}
	n, ok := constInt(bo.Y)
	if !ok {
		return 0
	}
	v := x.resolve(s, AV{fr: a.fr, v: bo.X})
	if _, first, ok := ascending(v.v); v.v != ssa.Value(nonNegative) && (!ok || first < 0) {
		return 0
	}
	switch {
	case bo.Op == token.GEQ && n <= 0, bo.Op == token.GTR && n < 0, bo.Op == token.NEQ && n < 0:
		return truth
	case bo.Op == token.LSS && n <= 0, bo.Op == token.LEQ && n < 0, bo.Op == token.EQL && n < 0:
		return -truth
	}
	return 0
}

// literalTest recognises a comparison of text with a literal.
func (x *Explorer) literalTest(s *State, cond ssa.Value, truth bool) (lit string, is, ok bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 6; d++ {
		a = x.resolveNoFact(s, a)
		u, isU := a.v.(*ssa.UnOp)
		if !isU || u.Op != token.NOT {
			break
		}
		a, truth = AV{fr: a.fr, v: u.X}, !truth
	}
	switch v := a.v.(type) {
	case *ssa.BinOp:
		if v.Op != token.EQL && v.Op != token.NEQ {
			return "", false, false
		}
		for _, o := range []ssa.Value{v.X, v.Y} {
			c := x.resolve(s, AV{fr: a.fr, v: o}).v
			if str, isS := constString(c); isS {
				return str, (v.Op == token.EQL) == truth, true
			}
			if n, isN := constInt(c); isN && isByteOrRune(v.X.Type()) && n > 0 {
				return string(rune(n)), (v.Op == token.EQL) == truth, true
			}
		}
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "strings.HasPrefix":
			if str, isS := constString(x.resolve(s, AV{fr: a.fr, v: v.Common().Args[1]}).v); isS {
				return str, truth, true
			}
		}
	}
	return "", false, false
}

func isByteOrRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

func init() {
	checks["C22"] = checkC22
}
