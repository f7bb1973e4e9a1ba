package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what holds at a point

type factSet struct {
	n     *prover
	c     *nctx
	fs    []nlin
	seen  map[string]bool
	dis   []nlin
	local []nchoice
	amb   []nchoice
	busy  map[nchoice]bool
	syms  map[int]bool
	deep  int
	edges []edge
	when  []nguard
}

// guard: a flag is known.
func (f *factSet) guard(g nguard) {
	if !f.given(g) {
		f.when = append(f.when, g)
	}
}

func (f *factSet) given(g nguard) bool {
	for _, o := range f.when {
		if o == g {
			return true
		}
	}
	return false
}

func (f *factSet) givenAll(gs []nguard) bool {
	for _, g := range gs {
		if !f.given(g) {
			return false
		}
	}
	return true
}

func (f *factSet) ge(l nlin) {
	if len(l.m) == 0 && l.c >= 0 {
		return
	}
	k := l.key()
	if f.seen[k] {
		return
	}
	f.seen[k] = true
	f.fs = append(f.fs, l)
}

func (f *factSet) eq(a, b nlin) {
	f.ge(a.add(b, -1))
	f.ge(b.add(a, -1))
}

func (f *factSet) ambiguous(k nchoice) {
	for _, a := range f.amb {
		if a == k {
			return
		}
	}
	f.amb = append(f.amb, k)
}

// facts are the conditions that hold at the point of a context.
func (n *prover) facts(c *nctx) *factSet {
	f := &factSet{n: n, c: c, seen: map[string]bool{}, busy: map[nchoice]bool{}, syms: map[int]bool{}}
	for fr, b := c.fr, c.blk; ; {
		for _, cd := range n.condsAt(b) {
			f.cond(fr, cd, 0)
		}
		if fr == c.fr {
			f.either(fr, b)
		}
		if fr.up == nil {
			break
		}
		fr, b = fr.up, fr.call.Block()
	}
	keys := make([]nchoice, 0, len(c.choice))
	for k := range c.choice {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return choiceKey(keys[i]) < choiceKey(keys[j]) })
	for _, k := range keys {
		i := c.choice[k]
		if k.b != nil {
			p := k.b.Preds[i]
			for _, cd := range n.condsAt(p) {
				f.cond(k.fr, cd, 0)
			}
			for _, cd := range edgeConds(p, k.b) {
				f.cond(k.fr, cd, 0)
			}
		} else {
			f.returned(k.fr, k.c.(*ssa.Call), i)
		}
	}
	for _, g := range c.assume {
		f.cond(g.fr, Cond{Val: g.val, Pos: g.pos}, 0)
	}
	for _, l := range c.extra {
		f.ge(n.relin(c, l))
	}
	for _, o := range n.open {
		if !c.within(o.c) || !f.givenAll(o.when) {
			continue
		}
		if o.head == nil {
			if c.fr.root() == o.fr {
				f.ge(n.relin(c, o.l))
			}
			continue
		}
		// the latest visit of the head is on the way to the point
		for fr, b := c.fr, c.blk; fr != nil; fr = fr.up {
			if fr == o.fr {
				if o.head.Dominates(b) {
					f.ge(n.relin(c, o.l))
				}
				break
			}
			if fr.up != nil {
				b = fr.call.Block()
			}
		}
	}
	return f
}

// either: a branch taken for one of several reasons on the way to the point.
func (f *factSet) either(fr *nframe, b *ssa.BasicBlock) {
	for k := 0; b != nil && k < 1; b = b.Idom() {
		if len(b.Preds) < 2 || f.n.loopAt(b) != nil {
			continue
		}
		tests := true
		for _, p := range b.Preds {
			if len(edgeConds(p, b)) == 0 {
				tests = false
			}
		}
		if tests {
			f.local = append(f.local, nchoice{fr: fr, b: b})
			k++
		}
	}
}

// merged are values of the function at hand that are compared on the way and that a join
// gives.
func (f *factSet) merged() []int {
	seen := map[int]bool{}
	for _, l := range f.fs {
		for s := range l.m {
			y := f.n.syms[s]
			if phi, ok := y.t.v.(*ssa.Phi); ok && y.t.fr == f.c.fr && !y.len && f.n.loopAt(phi.Block()) == nil && isInteger(phi.Type()) {
				seen[s] = true
			}
		}
	}
	if len(seen) > 2 {
		return nil
	}
	return sortedInts(seen)
}

func choiceKey(k nchoice) string {
	if k.b != nil {
		return fmt.Sprintf("b%d.%d", k.fr.id, k.b.Index)
	}
	return fmt.Sprintf("c%d.%d.%d", k.fr.id, k.c.Block().Index, indexIn(k.c))
}

// near: the smaller (larger) of two values is one of them when the other is not far below
// (above) it.
func (f *factSet) near(me nlin, a []ssa.Value, sign int64, value func(ssa.Value) nlin) {
	if len(a) != 2 {
		return
	}
	for i := range a {
		x, y := value(a[i]), value(a[1-i])
		for k := int64(0); k <= 1; k++ {
			// y >= x-k, so the smaller is at least x-k
			if f.n.contradicts(f.fs, x.add(y, -1).scale(sign).add(nconst(k+1), -1)) {
				f.ge(me.add(x, -1).scale(sign).add(nconst(k), 1))
				break
			}
		}
	}
}

// extreme: 1 for the built-in min, -1 for max.
func extreme(c ssa.CallInstruction) int {
	switch calleeName(c.Common()) {
	case "builtin.min":
		return 1
	case "builtin.max":
		return -1
	}
	return 0
}

// returned: the conditions under which a call takes one of its returns.
func (f *factSet) returned(fr *nframe, call *ssa.Call, i int) {
	if extreme(call) != 0 {
		n := f.n
		me := n.lin(f.c, term{fr: fr, v: call.Call.Args[i]})
		for _, a := range call.Call.Args {
			f.ge(n.lin(f.c, term{fr: fr, v: a}).add(me, -1).scale(int64(extreme(call))))
		}
		return
	}
	kid := f.n.enter(fr, call)
	if kid == nil {
		return
	}
	k := nchoice{fr: fr, c: call}
	if f.busy[k] || f.deep > 4 {
		return
	}
	f.busy[k] = true
	f.deep++
	ret := f.n.returns(kid.fn)[i]
	for _, cd := range f.n.condsAt(ret.Block()) {
		f.cond(kid, cd, 1)
	}
	f.deep--
	delete(f.busy, k)
}

func (f *factSet) cond(fr *nframe, cd Cond, d int) {
	if d > 6 {
		return
	}
	n, c := f.n, f.c
	val, pos := cd.Val, cd.Pos
	for {
		u, ok := val.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		val, pos = u.X, !pos
	}
	if _, ok := val.(*ssa.BinOp); !ok {
		if l := n.lin(c, term{fr: fr, v: val}); len(l.m) > 0 {
			f.eq(l, nconst(asInt(pos)))
		}
	}
	switch v := val.(type) {
	case *ssa.Const:
		if b, ok := constBool(v); ok && b != pos {
			f.ge(nconst(-1))
		}
	case *ssa.BinOp:
		f.compare(fr, v, pos, d)
	case *ssa.Phi:
		if i, ok := c.choice[nchoice{fr: fr, b: v.Block()}]; ok {
			f.cond(fr, Cond{Val: v.Edges[i], Pos: pos}, d+1)
			return
		}
		if n.loopAt(v.Block()) != nil {
			f.guard(nguard{fr, v, pos})
		}
		one := -1
		for i, e := range v.Edges {
			if b, ok := constBool(e); ok && b != pos {
				continue
			}
			if one >= 0 {
				f.ambiguous(nchoice{fr: fr, b: v.Block()})
				return
			}
			one = i
		}
		if one >= 0 && n.loopAt(v.Block()) == nil {
			p := v.Block().Preds[one]
			for _, x := range n.condsAt(p) {
				f.cond(fr, x, d+1)
			}
			for _, x := range edgeConds(p, v.Block()) {
				f.cond(fr, x, d+1)
			}
			f.cond(fr, Cond{Val: v.Edges[one], Pos: pos}, d+1)
		}
	case *ssa.Parameter:
		t := n.canon(c, term{fr: fr, v: v})
		if t.v != nil && t.v != val {
			f.cond(t.fr, Cond{Val: t.v, Pos: pos}, d+1)
		} else if fr.up == nil {
			f.guard(nguard{fr, v, pos})
		}
	case *ssa.Call:
		f.boolCall(fr, v, 0, pos, d)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			f.boolCall(fr, call, v.Index, pos, d)
		}
	case *ssa.UnOp, *ssa.Field:
		t := n.canon(c, term{fr: fr, v: v.(ssa.Value)})
		if t.v != nil && t.v != v.(ssa.Value) {
			f.cond(t.fr, Cond{Val: t.v, Pos: pos}, d+1)
		}
	}
}

// compare adds what a comparison says.
func (f *factSet) compare(fr *nframe, v *ssa.BinOp, pos bool, d int) {
	n, c := f.n, f.c
	x, y := term{fr: fr, v: v.X}, term{fr: fr, v: v.Y}
	op := v.Op
	if !pos {
		op = negateOp(op)
	}
	t := v.X.Type()
	switch {
	case isInteger(t):
		a, b := n.lin(c, x), n.lin(c, y)
		switch op {
		case token.LSS:
			f.ge(b.add(a, -1).add(nconst(1), -1))
		case token.LEQ:
			f.ge(b.add(a, -1))
		case token.GTR:
			f.ge(a.add(b, -1).add(nconst(1), -1))
		case token.GEQ:
			f.ge(a.add(b, -1))
		case token.EQL:
			f.eq(a, b)
		case token.NEQ:
			f.dis = append(f.dis, a.add(b, -1))
		}
		if d < 4 {
			f.narrowInt(fr, v.X, v.Y, op, d)
			f.narrowInt(fr, v.Y, v.X, mirrorOp(op), d)
		}
	case isString(t):
		a, b := n.length(c, x), n.length(c, y)
		if op == token.EQL {
			f.eq(a, b)
		}
		if op == token.NEQ {
			if len(b.m) == 0 && b.c == 0 {
				f.ge(a.add(nconst(1), -1))
			}
			if len(a.m) == 0 && a.c == 0 {
				f.ge(b.add(nconst(1), -1))
			}
		}
	case isNilConst(v.Y) || isNilConst(v.X):
		z := v.X
		if isNilConst(v.X) {
			z = v.Y
		}
		if _, ok := z.Type().Underlying().(*types.Slice); ok {
			if op == token.EQL {
				l := n.length(c, term{fr: fr, v: z})
				f.eq(l, nconst(0))
			}
			return
		}
		if l := n.lin(c, term{fr: fr, v: z}); op == token.EQL || op == token.NEQ {
			f.eq(l, nconst(asInt(op == token.NEQ)))
		}
		// an error or pointer result: which returns give that
		call, i := callOf(z)
		if call != nil && (op == token.EQL || op == token.NEQ) {
			f.narrow(fr, call, func(r term) int {
				switch nilOf(r.v) {
				case 0:
					return tri(op == token.EQL)
				case 1:
					return tri(op == token.NEQ)
				}
				return 0
			}, i, nil, d)
		}
	}
}

func tri(b bool) int {
	if b {
		return 1
	}
	return -1
}

// nilOf: 0 nil, 1 not nil, 2 unknown.
func nilOf(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 0
		}
		return 1
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		return 1
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "fmt.Errorf", "errors.New":
			return 1
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrorType(deref(g.Type())) {
			return 1
		}
	}
	return 2
}

func negateOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func mirrorOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

// narrowInt: a call result compared with a constant rules out some returns.
func (f *factSet) narrowInt(fr *nframe, v, w ssa.Value, op token.Token, d int) {
	call, i := callOf(v)
	if call == nil {
		return
	}
	b, ok := constInt(w)
	if !ok {
		return
	}
	f.narrow(fr, call, func(r term) int {
		a, ok := constInt(r.v)
		if !ok {
			if k, isC := r.v.(*ssa.Const); isC && k.Value == nil {
				a, ok = 0, true
			}
		}
		if !ok {
			return 0
		}
		switch op {
		case token.EQL:
			return tri(a == b)
		case token.NEQ:
			return tri(a != b)
		case token.LSS:
			return tri(a < b)
		case token.LEQ:
			return tri(a <= b)
		case token.GTR:
			return tri(a > b)
		case token.GEQ:
			return tri(a >= b)
		}
		return 0
	}, i, nil, d)
}

// narrow: a call whose result passes a test took one of the returns that can.
func (f *factSet) narrow(fr *nframe, call *ssa.Call, test func(term) int, i int, more func(term), d int) {
	n, c := f.n, f.c
	g := call.Call.StaticCallee()
	if g == nil || !n.p.InLib(g) || g.Blocks == nil {
		return
	}
	if _, ok := c.choice[nchoice{fr: fr, c: call}]; ok {
		k := c.choice[nchoice{fr: fr, c: call}]
		if kid := n.enter(fr, call); kid != nil && more != nil {
			more(n.canon(c, term{fr: kid, v: resultValue(n.returns(g)[k], i)}))
		}
		return
	}
	kid := n.enter(fr, call)
	if kid == nil {
		return
	}
	one := -1
	for k, ret := range n.returns(g) {
		r := n.canon(c, term{fr: kid, v: resultValue(ret, i)})
		if test(r) < 0 {
			continue
		}
		if one >= 0 {
			f.ambiguous(nchoice{fr: fr, c: call})
			return
		}
		one = k
	}
	if one < 0 {
		f.ge(nconst(-1))
		return
	}
	f.returned(fr, call, one)
	if more != nil {
		more(term{fr: kid, v: resultValue(n.returns(g)[one], i)})
	}
}

// boolCall: the result of a call is known.
func (f *factSet) boolCall(fr *nframe, call *ssa.Call, i int, pos bool, d int) {
	n, c := f.n, f.c
	arg := func(k int) term { return term{fr: fr, v: call.Call.Args[k]} }
	switch calleeName(call.Common()) {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
		if pos {
			f.ge(n.length(c, arg(0)).add(n.length(c, arg(1)), -1))
			if k, ok := constString(call.Call.Args[1]); ok {
				f.ends(n.canon(c, arg(0)), k, calleeName(call.Common()))
			}
		}
		return
	case "strings.ContainsRune", "strings.ContainsAny":
		if pos {
			f.ge(n.length(c, arg(0)).add(nconst(1), -1))
		}
		return
	case "strings.CutPrefix", "strings.CutSuffix":
		return
	}
	f.narrow(fr, call, func(r term) int {
		if b, ok := constBool(r.v); ok {
			return tri(b == pos)
		}
		return 0
	}, i, func(r term) {
		if r.v != nil {
			f.cond(r.fr, Cond{Val: r.v, Pos: pos}, d+1)
		}
	}, d)
}

// ends: a text that starts with one word and ends with another is as long as both if
// they cannot overlap.
func (f *factSet) ends(t term, k, name string) {
	if strings.HasSuffix(name, "Contains") {
		return
	}
	e := edge{t, k, strings.HasSuffix(name, "HasPrefix")}
	for _, o := range f.edges {
		if o.t != e.t || o.pre == e.pre {
			continue
		}
		a, b := e, o
		if o.pre {
			a, b = o, e
		}
		n := 0
		for i := 1; i <= len(a.k) && i <= len(b.k); i++ {
			if strings.HasSuffix(a.k, b.k[:i]) {
				n = i
			}
		}
		if strings.Contains(a.k, b.k) || strings.Contains(b.k, a.k) {
			continue
		}
		f.ge(f.n.length(f.c, t).add(nconst(int64(len(a.k)+len(b.k)-n)), -1))
	}
	f.edges = append(f.edges, e)
}

type edge struct {
	t   term
	k   string
	pre bool
}

func sortedInts(m map[int]bool) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// implied adds what is known of the unknowns in the facts and in a form.
func (f *factSet) implied(g nlin) {
	n, c := f.n, f.c
	todo := g.ids()
	done := 0
	for round := 0; round < 12; round++ {
		for ; done < len(f.fs); done++ {
			todo = append(todo, f.fs[done].ids()...)
		}
		for _, e := range f.dis {
			todo = append(todo, e.ids()...)
		}
		var next []int
		for _, s := range todo {
			if !f.syms[s] {
				f.syms[s] = true
				next = append(next, s)
			}
		}
		todo = nil
		if len(next) == 0 {
			break
		}
		for _, s := range next {
			f.about(s)
		}
	}
	// e != 0 where e cannot be negative (or positive)
	for _, e := range f.dis {
		if len(e.m) == 0 {
			if e.c == 0 {
				f.ge(nconst(-1))
			}
			continue
		}
		if n.contradicts(f.fs, nconst(-1).add(e, -1)) {
			f.ge(e.add(nconst(1), -1))
		} else if n.contradicts(f.fs, e.add(nconst(1), -1)) {
			f.ge(nconst(-1).add(e, -1))
		}
	}
	for _, s := range sortedInts(f.syms) {
		f.found(s)
	}
	_ = c
}

// present: values that are never nil, and when results are.
func (f *factSet) present(y nsym, me nlin) {
	n, c := f.n, f.c
	switch v := y.t.v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && n.setOnce(g) {
			f.ge(me.add(nconst(1), -1))
		}
	case *ssa.Parameter:
		if n.pre[v] {
			f.ge(me.add(nconst(1), -1))
			return
		}
		// what a caller outside must provide: the object of a method, a modifier, a function
		if y.t.fr.up == nil && n.p.isEntry(v.Parent()) {
			recv := v.Parent().Signature.Recv() != nil && paramIndex(v) == 0
			_, isPtr := v.Type().Underlying().(*types.Pointer)
			_, isFn := v.Type().Underlying().(*types.Signature)
			it, isIf := v.Type().Underlying().(*types.Interface)
			if recv && isPtr || isFn || isIf && it.NumMethods() > 0 {
				f.ge(me.add(nconst(1), -1))
			}
		}
	case *ssa.FreeVar:
		f.ge(me.add(nconst(1), -1))
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "fmt.Errorf", "errors.New", "strings.NewReplacer", "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "encoding/xml.NewEncoder", "encoding/xml.NewDecoder", "bufio.NewReader", "bufio.NewWriter", "bufio.NewScanner":
			f.ge(me.add(nconst(1), -1))
		}
		f.aboutResult(y, me)
	case *ssa.Extract:
		switch x := v.Tuple.(type) {
		case *ssa.Call:
			f.aboutResult(y, me)
		case *ssa.TypeAssert:
			// a value of an interface type that was there
			if v.Index == 0 && types.IsInterface(x.AssertedType) {
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
						f.ge(me.add(n.lin(c, term{fr: y.t.fr, v: e}), -1))
					}
				}
			}
		}
	}
}

// setOnce: a package variable that start-up sets and nothing sets to nil.
func (n *prover) setOnce(g *ssa.Global) bool {
	atStart, ok := false, true
	for _, f := range n.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				switch x := in.(type) {
				case *ssa.UnOp:
				case *ssa.Store:
					if x.Addr != ssa.Value(g) || !neverNil(x.Val) {
						ok = false
					} else if f.Name() == "init" && f.Synthetic != "" {
						atStart = true
					}
				default:
					ok = false
				}
			}
		})
	}
	return atStart && ok
}

func neverNil(v ssa.Value) bool { return neverNilD(v, 0) }

func neverNilD(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan:
		return true
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "strings.NewReplacer", "errors.New", "fmt.Errorf", "regexp.MustCompile":
			return true
		}
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		for _, r := range returnsOf(g) {
			y := resultValue(r, 0)
			if d > 4 || !neverNilD(y, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// sortOf is the sort call a comparison closure is made for.
func (n *prover) sortOf(f *ssa.Function) *ssa.Call {
	mc := n.closureOf(f)
	if mc == nil || len(*mc.Referrers()) != 1 {
		return nil
	}
	call, ok := (*mc.Referrers())[0].(*ssa.Call)
	if !ok {
		return nil
	}
	switch calleeName(call.Common()) {
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		return call
	}
	return nil
}

// found: a search that succeeded found its object inside.
func (f *factSet) found(s int) {
	n, c := f.n, f.c
	y := n.syms[s]
	if y.len || y.fld != "" || y.t.ver != nil {
		return
	}
	call, ok := y.t.v.(*ssa.Call)
	if !ok {
		return
	}
	r := n.symLin(y)
	arg := func(k int) nlin { return n.length(c, term{fr: y.t.fr, v: call.Call.Args[k]}) }
	switch calleeName(call.Common()) {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		if n.contradicts(f.fs, nconst(-1).add(r, -1)) {
			f.ge(arg(0).add(arg(1), -1).add(r, -1))
		}
	}
}

// about adds what is always true of an unknown.
func (f *factSet) about(s int) {
	n, c := f.n, f.c
	y := n.syms[s]
	me := n.symLin(y)
	if y.len {
		f.ge(me)
	}
	if y.t.ver != nil {
		if t := n.verType(y.t.ver); t != nil && !y.len && twoValued(t) {
			f.ge(me)
			f.ge(nconst(1).add(me, -1))
		}
		if y.len && n.keptShort(y.t.ver.loc) {
			f.ge(nconst(n.limit).add(me, -1))
		}
		f.aboutVersion(y)
		return
	}
	fr := y.t.fr
	if !y.len && y.fld == "" && twoValued(y.t.v.Type()) {
		f.ge(me)
		f.ge(nconst(1).add(me, -1))
		f.present(y, me)
		return
	}
	if y.fld != "" {
		f.aboutResult(y, me)
		return
	}
	if !y.len {
		if b, ok := y.t.v.Type().Underlying().(*types.Basic); ok {
			if b.Info()&types.IsUnsigned != 0 {
				f.ge(me)
			}
			if b.Kind() == types.Uint8 {
				f.ge(nconst(255).add(me, -1))
			}
		}
	}
	length := func(v ssa.Value) nlin { return n.length(c, term{fr: fr, v: v}) }
	value := func(v ssa.Value) nlin { return n.lin(c, term{fr: fr, v: v}) }
	if y.len && n.lookedUp(y.t.v) {
		f.ge(nconst(n.limit).add(me, -1))
	}
	switch v := y.t.v.(type) {
	case *ssa.Parameter:
		// the positions a sort asks to compare
		if call := n.sortOf(v.Parent()); call != nil && !y.len && fr.up == nil {
			f.ge(me)
			up := n.root(call.Parent())
			x := call.Call.Args[0]
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			f.ge(n.length(c, term{fr: up, v: x}).add(me, -1).add(nconst(1), -1))
		}
	case *ssa.Phi:
		if y.len {
			return
		}
		if lo, ok := n.counter(v); ok {
			f.ge(me.add(nconst(lo), -1))
		}
		f.rounds(v, me, fr)
	case *ssa.BinOp:
		k, isK := constInt(v.Y)
		switch v.Op {
		case token.QUO:
			if isK && k > 0 {
				x := value(v.X)
				if n.contradicts(f.fs, nconst(-1).add(x, -1)) || len(x.m) == 0 && x.c >= 0 {
					f.ge(x.add(me, -k))
					f.ge(nconst(k-1).add(me, k).add(x, -1))
					f.ge(me)
				}
			}
		case token.REM:
			if isK && k > 0 {
				f.ge(nconst(k-1).add(me, -1))
				f.ge(me.add(nconst(k-1), 1))
				x := value(v.X)
				if n.contradicts(f.fs, nconst(-1).add(x, -1)) {
					f.ge(me)
				}
			}
		case token.AND:
			if isK && k >= 0 {
				f.ge(me)
				f.ge(nconst(k).add(me, -1))
			}
		case token.SHR:
			x := value(v.X)
			if n.contradicts(f.fs, nconst(-1).add(x, -1)) {
				f.ge(me)
				f.ge(x.add(me, -1))
			}
		}
	case *ssa.Call:
		a := v.Call.Args
		switch name := calleeName(v.Common()); name {
		case "builtin.min":
			for _, x := range a {
				f.ge(value(x).add(me, -1))
			}
			f.near(me, a, 1, value)
		case "builtin.max":
			for _, x := range a {
				f.ge(me.add(value(x), -1))
			}
			f.near(me, a, -1, value)
		case "builtin.len":
			f.ge(me)
		case "builtin.cap":
			f.ge(me.add(length(a[0]), -1))
		case "builtin.copy":
			f.ge(me)
			f.ge(length(a[0]).add(me, -1))
			f.ge(length(a[1]).add(me, -1))
		case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
			f.ge(me.add(nconst(1), 1))
			f.ge(length(a[0]).add(me, -1))
			if sub := length(a[1]); len(sub.m) == 0 && sub.c > 0 {
				f.ge(length(a[0]).add(me, -1).add(nconst(1), -1))
			}
		case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "bytes.IndexByte", "bytes.LastIndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc", "bytes.LastIndexAny", "bytes.LastIndexFunc":
			f.ge(me.add(nconst(1), 1))
			f.ge(length(a[0]).add(me, -1).add(nconst(1), -1))
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix":
			if y.len {
				f.ge(length(a[0]).add(me, -1))
				if strings.HasSuffix(name, "TrimPrefix") || strings.HasSuffix(name, "TrimSuffix") {
					f.ge(me.add(length(a[1]), 1).add(length(a[0]), -1))
				}
			}
		case "strings.Split", "bytes.Split", "strings.SplitAfter":
			if y.len {
				if sep := length(a[1]); len(sep.m) == 0 && sep.c > 0 {
					f.ge(me.add(nconst(1), -1))
				}
				f.ge(length(a[0]).add(nconst(1), 1).add(me, -1))
			}
		case "strings.SplitN", "bytes.SplitN":
			if y.len {
				if sep := length(a[1]); len(sep.m) == 0 && sep.c > 0 {
					if k := value(a[2]); len(k.m) == 0 && k.c > 0 {
						f.ge(me.add(nconst(1), -1))
						f.ge(k.add(me, -1))
					}
				}
			}
		case "strings.Count", "bytes.Count", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
			f.ge(me)
			f.ge(length(a[0]).add(nconst(1), 1).add(me, -1))
		case "slices.Clone", "bytes.Clone", "strings.Clone", "bytes.ToUpper", "slices.Sorted":
			if y.len && !strings.Contains(name, "ToUpper") && name != "slices.Sorted" {
				f.eq(me, length(a[0]))
			}
		case "strings.Repeat":
			if y.len {
				if s := length(a[0]); len(s.m) == 0 {
					k := value(a[1])
					f.ge(me.add(k, -s.c))
				}
			}
		}
		f.aboutResult(y, me)
	case *ssa.Extract:
		switch tup := v.Tuple.(type) {
		case *ssa.Call:
			a := tup.Call.Args
			switch calleeName(tup.Common()) {
			case "strings.Cut", "bytes.Cut":
				if y.len && v.Index < 2 {
					f.ge(length(a[0]).add(me, -1))
				}
			case "strings.CutPrefix", "strings.CutSuffix":
				if y.len && v.Index == 0 {
					f.ge(length(a[0]).add(me, -1))
				}
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
				if v.Index == 1 {
					f.ge(me)
					f.ge(nconst(4).add(me, -1))
					f.ge(length(a[0]).add(me, -1))
					if n.contradicts(f.fs, nconst(0).add(length(a[0]), -1)) {
						f.ge(me.add(nconst(1), -1))
					}
				}
			}
		case *ssa.Next:
			if tup.IsString && v.Index == 1 && !y.len {
				if rg, ok := tup.Iter.(*ssa.Range); ok {
					f.ge(me)
					f.ge(length(rg.X).add(me, -1).add(nconst(1), -1))
				}
			}
		}
		f.aboutResult(y, me)
	}
}

// counter: a loop variable that starts at constants and only grows by constants.
func (n *prover) counter(v *ssa.Phi) (int64, bool) {
	l := n.loopAt(v.Block())
	if l == nil {
		return 0, false
	}
	var lo int64
	first := true
	for i, e := range v.Edges {
		if l.Body[v.Block().Preds[i]] {
			if e == ssa.Value(v) {
				continue
			}
			a, ok := e.(*ssa.BinOp)
			if !ok || a.Op != token.ADD || a.X != ssa.Value(v) {
				return 0, false
			}
			if k, ok := constInt(a.Y); !ok || k < 0 {
				return 0, false
			}
			continue
		}
		k, ok := constInt(e)
		if !ok {
			return 0, false
		}
		if first || k < lo {
			lo = k
		}
		first = false
	}
	return lo, !first
}

// rounds: a count of the rounds of a loop over a map cannot exceed the number of entries.
func (f *factSet) rounds(v *ssa.Phi, me nlin, fr *nframe) {
	n := f.n
	l := n.loopAt(v.Block())
	if l == nil {
		return
	}
	var rg *ssa.Range
	var test *ssa.If
	for _, in := range v.Block().Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			if y, ok := x.Iter.(*ssa.Range); ok && !x.IsString && rg == nil {
				rg = y
			}
		case *ssa.If:
			test = x
		}
	}
	if rg == nil || test == nil || l.Body[rg.Block()] || !n.steady(v.Parent(), rg.X.Type()) {
		return
	}
	var step func(e ssa.Value, d int) bool
	step = func(e ssa.Value, d int) bool {
		if e == ssa.Value(v) {
			return true
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			k, ok := constInt(x.Y)
			return ok && x.Op == token.ADD && k <= 1 && x.X == ssa.Value(v)
		case *ssa.Phi:
			if d > 4 || !l.Body[x.Block()] || n.loopAt(x.Block()) != nil {
				return false
			}
			for _, y := range x.Edges {
				if !step(y, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	var start nlin
	starts := 0
	for i, e := range v.Edges {
		if l.Body[v.Block().Preds[i]] {
			if !step(e, 0) {
				return
			}
			continue
		}
		start = n.lin(f.c, term{fr: fr, v: e})
		starts++
	}
	if starts != 1 {
		return
	}
	top := start.add(n.length(f.c, term{fr: fr, v: rg.X}), 1)
	if f.c.fr == fr && v.Block().Succs[0].Dominates(f.c.blk) && len(v.Block().Succs[0].Preds) == 1 && l.Body[f.c.blk] {
		top.c--
	}
	f.ge(top.add(me, -1))
}

// aboutVersion: invariants of the object, and what the call that set it promises.
func (f *factSet) aboutVersion(y nsym) {
	n, c := f.n, f.c
	v := y.t.ver
	st, fi, ok := n.locField(v.loc)
	if !ok {
		return
	}
	var at func(path string) term
	switch v.kind {
	case verEntry:
		at = func(path string) term {
			l := v.loc
			l.path = path
			return term{ver: n.ver(nver{kind: verEntry, fr: v.fr, loc: l})}
		}
	case verCall:
		at = func(path string) term {
			l := v.loc
			l.path = path
			return n.at(c, v.fr, v.in.Block(), indexIn(v.in)+1, l, 0)
		}
		call := v.in.(*ssa.Call)
		if g := call.Call.StaticCallee(); g != nil {
			for _, p := range n.post[g] {
				f.promise(v.fr, call, p, func(q npart) bool { return q.kind != partEntry })
			}
		}
	default:
		return
	}
	dir := v.loc.path[:strings.LastIndex(v.loc.path, ".")+1]
	for _, iv := range n.inv[types.TypeString(st, nil)] {
		if iv.a != fi && iv.b != fi {
			continue
		}
		get := func(i int, isLen bool) nlin {
			t := at(dir + strconv.Itoa(i))
			if isLen {
				return n.length(c, t)
			}
			return n.lin(c, t)
		}
		l := nconst(iv.c).add(get(iv.a, iv.lenA), 1)
		if iv.b >= 0 {
			l = l.add(get(iv.b, iv.lenB), -1)
		}
		f.ge(l)
	}
}

// aboutResult adds what a function promises about its results.
func (f *factSet) aboutResult(y nsym, me nlin) {
	call, i := callOf(y.t.v)
	if call == nil {
		return
	}
	if g := call.Call.StaticCallee(); g != nil {
		for _, p := range f.n.post[g] {
			f.promise(y.t.fr, call, p, func(q npart) bool { return q.kind == partResult && q.i == i })
		}
	}
}

// promise adds a promise of a function for one call of it.
func (f *factSet) promise(fr *nframe, call *ssa.Call, p *npost, about func(npart) bool) {
	hit := false
	for _, q := range p.parts {
		hit = hit || about(q)
	}
	if !hit {
		return
	}
	if l, ok := f.n.instPost(f.c, fr, call, p); ok {
		f.ge(l)
	}
}

// instPost is a promise in terms of a call.
func (n *prover) instPost(c *nctx, fr *nframe, call *ssa.Call, p *npost) (nlin, bool) {
	out := nconst(p.c)
	for _, q := range p.parts {
		var l nlin
		switch q.kind {
		case partResult:
			var v ssa.Value = call
			if call.Call.Signature().Results().Len() > 1 {
				v = nil
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == q.i {
						v = e
					}
				}
				if v == nil {
					return out, false
				}
			}
			x, ok := n.part(c, term{fr: fr, v: v}, q, fr, call.Block(), indexIn(call)+1)
			if !ok {
				return out, false
			}
			l = x
		default:
			if q.i >= len(call.Call.Args) {
				return out, false
			}
			idx := indexIn(call)
			if q.kind == partExit {
				idx++
			}
			x, ok := n.part(c, term{fr: fr, v: call.Call.Args[q.i]}, q, fr, call.Block(), idx)
			if !ok {
				return out, false
			}
			l = x
		}
		out = out.add(l, q.k)
	}
	return out, true
}

// part is the number a part of a promise stands for at a point.
func (n *prover) part(c *nctx, t term, q npart, fr *nframe, b *ssa.BasicBlock, idx int) (nlin, bool) {
	if q.path != "" {
		if _, ok := t.v.Type().Underlying().(*types.Pointer); ok {
			pl, ok := n.place(c, t.fr, t.v)
			if !ok {
				return nlin{}, false
			}
			pl.path += q.path
			t = n.at(c, fr, b, idx, pl, 0)
		} else {
			ft, ok := n.field(c, t, q.path[1:])
			if !ok {
				return n.symLin(nsym{t: n.canon(c, t), fld: q.path[1:]}), !q.len
			}
			t = ft
		}
	}
	if q.len {
		return n.length(c, t), true
	}
	return n.lin(c, t), true
}

// ---- linear arithmetic

const (
	maxRows = 260
	maxCoef = 1 << 20
)

func tighten(l nlin) nlin {
	var g int64
	for _, v := range l.m {
		if v < 0 {
			v = -v
		}
		g = gcd(g, v)
	}
	if g > 1 {
		o := nlin{floorDiv(l.c, g), make(map[int]int64, len(l.m))}
		for k, v := range l.m {
			o.m[k] = v / g
		}
		return o
	}
	return l
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// relevant keeps the facts connected to a form.
func relevant(fs []nlin, g nlin) []nlin {
	in := map[int]bool{}
	for s := range g.m {
		in[s] = true
	}
	used := make([]bool, len(fs))
	var out []nlin
	for changed := true; changed; {
		changed = false
		for i, l := range fs {
			if used[i] {
				continue
			}
			hit := len(l.m) == 0
			for s := range l.m {
				hit = hit || in[s]
			}
			if !hit {
				continue
			}
			used[i] = true
			changed = true
			out = append(out, l)
			for s := range l.m {
				in[s] = true
			}
		}
	}
	return out
}

// contradicts: no integers satisfy the facts and the form.
func (n *prover) contradicts(fs []nlin, g nlin) bool {
	if len(g.m) == 0 && g.c < 0 {
		return true
	}
	n.fm++
	best := newRows()
	for _, l := range append(relevant(fs, g), g) {
		r := nrow{c: l.c, v: make([]ncoef, 0, len(l.m))}
		for _, s := range l.ids() {
			r.v = append(r.v, ncoef{int32(s), l.m[s]})
		}
		if best.put(r) {
			return true
		}
	}
	for len(best.rows) > 0 {
		// the cheapest unknown to eliminate
		pos, neg := map[int32]int{}, map[int32]int{}
		for _, l := range best.rows {
			for _, x := range l.v {
				if x.k > 0 {
					pos[x.s]++
				} else {
					neg[x.s]++
				}
			}
		}
		pick, cost := int32(-1), 1<<30
		for s := range pos {
			k := pos[s]*neg[s] - pos[s] - neg[s]
			if k < cost || k == cost && s < pick {
				pick, cost = s, k
			}
		}
		for s := range neg {
			if pos[s] == 0 {
				k := -neg[s]
				if k < cost || k == cost && s < pick {
					pick, cost = s, k
				}
			}
		}
		if pick < 0 {
			return false
		}
		next := newRows()
		var ps, ns []nrow
		for _, l := range best.rows {
			switch v := l.of(pick); {
			case v > 0:
				ps = append(ps, l)
			case v < 0:
				ns = append(ns, l)
			default:
				next.put(l)
			}
		}
		for _, a := range ps {
			for _, b := range ns {
				if next.put(a.mix(-b.of(pick), b, a.of(pick))) {
					return true
				}
				if len(next.rows) > maxRows {
					return false
				}
			}
		}
		best = next
	}
	return false
}

// nrow is a form in a compact shape.
type nrow struct {
	c int64
	v []ncoef
}

type ncoef struct {
	s int32
	k int64
}

func (r nrow) of(s int32) int64 {
	for _, x := range r.v {
		if x.s == s {
			return x.k
		}
	}
	return 0
}

// mix is p*r + q*o.
func (r nrow) mix(p int64, o nrow, q int64) nrow {
	out := nrow{c: p*r.c + q*o.c, v: make([]ncoef, 0, len(r.v)+len(o.v))}
	i, j := 0, 0
	for i < len(r.v) || j < len(o.v) {
		switch {
		case j == len(o.v) || i < len(r.v) && r.v[i].s < o.v[j].s:
			out.v = append(out.v, ncoef{r.v[i].s, p * r.v[i].k})
			i++
		case i == len(r.v) || o.v[j].s < r.v[i].s:
			out.v = append(out.v, ncoef{o.v[j].s, q * o.v[j].k})
			j++
		default:
			if k := p*r.v[i].k + q*o.v[j].k; k != 0 {
				out.v = append(out.v, ncoef{r.v[i].s, k})
			}
			i++
			j++
		}
	}
	return out
}

// nrows keeps the strongest form of each shape.
type nrows struct {
	rows []nrow
	at   map[string]int
	buf  []byte
}

func newRows() *nrows { return &nrows{at: map[string]int{}} }

// put adds a form; it reports a contradiction.
func (m *nrows) put(r nrow) bool {
	var g int64
	for _, x := range r.v {
		k := x.k
		if k < 0 {
			k = -k
		}
		if k > maxCoef {
			return false
		}
		g = gcd(g, k)
	}
	if len(r.v) == 0 {
		return r.c < 0
	}
	if g > 1 {
		v := make([]ncoef, len(r.v))
		for i, x := range r.v {
			v[i] = ncoef{x.s, x.k / g}
		}
		r = nrow{floorDiv(r.c, g), v}
	}
	m.buf = m.buf[:0]
	for _, x := range r.v {
		m.buf = append(m.buf, byte(x.s), byte(x.s>>8), byte(x.s>>16), byte(x.k), byte(x.k>>8), byte(x.k>>16))
	}
	if i, ok := m.at[string(m.buf)]; ok {
		if r.c < m.rows[i].c {
			m.rows[i] = r
		}
		return false
	}
	m.at[string(m.buf)] = len(m.rows)
	m.rows = append(m.rows, r)
	return false
}

// derived are consequences of the negated goal and the facts, the simplest first.
func (n *prover) derived(fs []nlin, neg nlin) []nlin {
	rel := relevant(fs, neg)
	seen := map[string]bool{neg.key(): true}
	all := []nlin{neg}
	front := []nlin{neg}
	for round := 0; round < 4 && len(all) < 120; round++ {
		var next []nlin
		for _, a := range front {
			for _, b := range rel {
				for _, s := range a.ids() {
					x, y := a.m[s], b.m[s]
					if x == 0 || y == 0 || (x > 0) == (y > 0) {
						continue
					}
					if x < 0 {
						x = -x
					}
					if y < 0 {
						y = -y
					}
					l := tighten(nconst(0).add(a, y).add(b, x))
					if len(l.m) == 0 || len(l.m) > len(a.m)+1 {
						continue
					}
					k := l.key()
					if seen[k] {
						continue
					}
					seen[k] = true
					next = append(next, l)
				}
			}
			if len(all)+len(next) > 160 {
				break
			}
		}
		all = append(all, next...)
		front = next
	}
	rest := all[1:]
	sort.SliceStable(rest, func(i, j int) bool { return len(rest[i].m) < len(rest[j].m) })
	return all
}

// ---- proving

const (
	proveDepth = 16
	lemmaTries = 14
)

func (n *prover) ctxKey(c *nctx) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d.%d|", c.fr.id, c.blk.Index, c.idx)
	guards := func(gs []nguard) {
		for _, g := range gs {
			fmt.Fprintf(&sb, "|g%d.%s.%v", g.fr.id, g.val.Name(), g.pos)
		}
	}
	given := func(c *nctx) {
		var ks []string
		for k, i := range c.choice {
			ks = append(ks, choiceKey(k)+"="+strconv.Itoa(i))
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		for _, e := range c.extra {
			sb.WriteString("|" + e.key())
		}
		guards(c.assume)
	}
	given(c)
	for _, o := range n.open {
		h := -1
		if o.head != nil {
			h = o.head.Index
		}
		fmt.Fprintf(&sb, "|o%d.%d:%s", o.fr.id, h, o.l.key())
		guards(o.when)
		if o.c != nil {
			sb.WriteString("{")
			given(o.c)
			sb.WriteString("}")
		}
	}
	return sb.String()
}

// holds proves a form non-negative before an instruction of a function.
func (n *prover) holds(f *ssa.Function, in ssa.Instruction, build func(c *nctx, fr *nframe) nlin, budget int) bool {
	fr := n.root(f)
	c := &nctx{fr: fr, blk: in.Block(), idx: indexIn(in), choice: map[nchoice]int{}}
	n.steps = budget
	n.open = nil
	n.why = nil
	return n.prove(c, build(c, fr), 0)
}

func (n *prover) note(d int, format string, a ...any) {
	if n.trace {
		fmt.Printf("%s%s\n", strings.Repeat("  ", d), fmt.Sprintf(format, a...))
	}
}

func (n *prover) prove(c *nctx, g nlin, d int) bool {
	g = n.relin(c, g)
	if len(g.m) == 0 {
		if g.c >= 0 {
			return true
		}
	}
	if n.steps <= 0 || d > proveDepth {
		n.note(d, "gave up")
		return false
	}
	n.steps--
	key := n.ctxKey(c) + "#" + g.key()
	if n.proved[key] {
		n.note(d, "known %s", n.show(g))
		return true
	}
	if at, ok := n.failed[key]; ok && at <= d {
		n.note(d, "known bad %s", n.show(g))
		return false
	}
	n.note(d, "goal at %s:%d: %s", c.fr.fn.Name(), c.blk.Index, n.show(g))
	f := n.facts(c)
	f.implied(g)
	neg := nconst(-1).add(g, -1)
	if n.contradicts(f.fs, neg) || n.absurd(f.fs) {
		n.proved[key] = true
		n.note(d, "direct")
		if n.trace && n.absurd(f.fs) {
			n.note(d, "ABSURD %v", c.choice)
			for _, l := range f.fs {
				n.note(d, "  ! %s", n.show(l))
			}
		}
		return true
	}
	if n.trace && d < 40 {
		for _, l := range relevant(f.fs, g) {
			n.note(d, "  . %s", n.show(l))
		}
	}
	if n.expand(c, f, g, neg, d) {
		n.proved[key] = true
		n.note(d, "shown %s", n.show(g))
		return true
	}
	n.note(d, "not shown %s", n.show(g))
	if n.steps > 0 {
		n.failed[key] = d
	}
	return false
}

// absurd: the point cannot be reached.
func (n *prover) absurd(fs []nlin) bool { return n.contradicts(fs, nconst(0)) || n.clash(fs) }

func (n *prover) clash(fs []nlin) bool {
	// components not connected to the goal
	seen := map[int]bool{}
	for _, l := range fs {
		if len(l.m) == 0 {
			if l.c < 0 {
				return true
			}
			continue
		}
		ids := l.ids()
		if seen[ids[0]] {
			continue
		}
		for _, r := range relevant(fs, l) {
			for s := range r.m {
				seen[s] = true
			}
		}
		if n.contradicts(fs, l) {
			return true
		}
	}
	return false
}

// splitOf is the join or call at which an unknown gets its value.
func (n *prover) splitsOf(c *nctx, y nsym) []nchoice {
	var out []nchoice
	var of func(t term, d int)
	of = func(t term, d int) {
		if d > 4 {
			return
		}
		if v := t.ver; v != nil {
			switch v.kind {
			case verPhi:
				if n.loopAt(v.blk) == nil {
					out = append(out, nchoice{fr: v.fr, b: v.blk})
				}
			case verCall:
				if call, ok := v.in.(*ssa.Call); ok && n.affects(c, v.fr, call, v.loc, n.locID(v.loc)) == 1 && n.enter(v.fr, call) != nil {
					out = append(out, nchoice{fr: v.fr, c: call})
				}
			}
			of(v.loc.base, d+1)
			return
		}
		switch x := t.v.(type) {
		case *ssa.Phi:
			if n.loopAt(x.Block()) == nil {
				out = append(out, nchoice{fr: t.fr, b: x.Block()})
			}
		case *ssa.Call, *ssa.Extract:
			call, _ := callOf(x.(ssa.Value))
			if call == nil {
				return
			}
			if g := call.Call.StaticCallee(); g != nil && n.p.InLib(g) && n.enter(t.fr, call) != nil || extreme(call) != 0 {
				out = append(out, nchoice{fr: t.fr, c: call})
			}
		}
	}
	of(y.t, 0)
	var keep []nchoice
	for _, k := range out {
		if _, ok := c.choice[k]; !ok {
			keep = append(keep, k)
		}
	}
	return keep
}

func (n *prover) locID(l nloc) string {
	id, _, _ := n.locType(l)
	return id
}

func (n *prover) cases(k nchoice) int {
	if k.b != nil {
		return len(k.b.Preds)
	}
	if extreme(k.c) != 0 {
		return len(k.c.Common().Args)
	}
	return len(n.returns(k.c.Common().StaticCallee()))
}

func (n *prover) trySplit(c *nctx, k nchoice, g nlin, d int) bool {
	for i := 0; i < n.cases(k); i++ {
		n.note(d, "case %s=%d", n.showChoice(k), i)
		if !n.prove(c.with(k, i), g, d+1) {
			return false
		}
	}
	return true
}

func (n *prover) showChoice(k nchoice) string {
	if k.b != nil {
		return fmt.Sprintf("%s:%d", k.fr.fn.Name(), k.b.Index)
	}
	return fmt.Sprintf("%s in %s", calleeName(k.c.Common()), k.fr.fn.Name())
}

func (n *prover) expand(c *nctx, f *factSet, g, neg nlin, d int) bool {
	tried := map[nchoice]bool{}
	for _, s := range g.ids() {
		for _, k := range n.splitsOf(c, n.syms[s]) {
			if tried[k] {
				continue
			}
			tried[k] = true
			if n.trySplit(c, k, g, d) {
				return true
			}
			// one complete case analysis is enough to see that more is needed
		}
	}
	// the goal itself as an invariant of a loop
	for _, h := range n.headsOf(c, g) {
		if n.inductOn(c, f, h, g, d) {
			return true
		}
	}
	if n.short != nil && n.inStep(c, f, g, d) {
		return true
	}
	lemmas := n.derived(f.fs, neg)
	// values merged before the point that the goal depends on
	for _, l := range lemmas {
		if len(l.m) > 5 {
			continue
		}
		for _, s := range l.ids() {
			for _, k := range n.splitsOf(c, n.syms[s]) {
				if tried[k] || k.b == nil || k.fr != c.fr || n.steps <= 0 {
					continue
				}
				tried[k] = true
				if n.trySplit(c, k, g, d) {
					return true
				}
			}
		}
	}
	var sides []nlin
	for _, e := range f.dis {
		up, down := e.add(nconst(1), -1), nconst(-1).add(e, -1)
		if n.contradicts(append(append([]nlin{}, f.fs...), up), neg) {
			sides = append(sides, down)
		}
		if n.contradicts(append(append([]nlin{}, f.fs...), down), neg) {
			sides = append(sides, up)
		}
	}
	if len(sides) > 0 {
		// the other side of an inequality must be ruled out
		lemmas = append(sides, lemmas...)
	}
	// as invariants of loops first, then as what callers see to
	lemmas = weakestFirst(lemmas)
	for _, outside := range []bool{false, true} {
		k := 0
		if outside {
			for _, s := range f.merged() {
				f.local = append(f.local, n.splitsOf(c, n.syms[s])...)
			}
			for _, a := range f.local {
				if _, ok := c.choice[a]; !ok && !tried[a] && n.steps > 0 {
					tried[a] = true
					if n.trySplit(c, a, g, d) {
						return true
					}
				}
			}
		}
		for i, l := range lemmas {
			lem := nconst(-1).add(l, -1)
			if len(lem.m) == 0 || i > 0 && n.contradicts(f.fs, lem) {
				continue
			}
			if k >= lemmaTries || n.steps <= 0 {
				break
			}
			did := false
			if outside {
				if n.entryForm(c, lem) {
					did = true
					if n.callersOn(c, f, lem, d) {
						return true
					}
				}
			} else {
				for _, h := range n.headsOf(c, lem) {
					did = true
					// one of many tries
					all := n.steps
					if n.short != nil {
						n.steps = all / 3
					}
					given := n.steps
					ok := n.inductOn(c, f, h, lem, d)
					n.steps += all - given
					if ok {
						return true
					}
					// a little more may be inductive when this much is not
					if lem.c > 0 && lem.c <= 4 && len(lem.m) == 2 {
						tight := lem.clone()
						tight.c = 0
						if n.inductOn(c, f, h, tight, d) {
							return true
						}
					}
				}
			}
			if did {
				k++
			}
		}
	}
	// joins that decide facts
	for _, a := range f.amb {
		if tried[a] {
			continue
		}
		if _, ok := c.choice[a]; ok {
			continue
		}
		if a.b != nil && n.loopAt(a.b) != nil {
			continue
		}
		tried[a] = true
		if n.trySplit(c, a, g, d) {
			return true
		}
	}
	rel := map[int]bool{}
	for _, l := range relevant(f.fs, neg) {
		for s := range l.m {
			rel[s] = true
		}
	}
	var ids []int
	for s := range rel {
		if g.m[s] == 0 {
			ids = append(ids, s)
		}
	}
	sort.Ints(ids)
	for _, s := range ids {
		for _, k := range n.splitsOf(c, n.syms[s]) {
			if tried[k] || n.steps <= 0 {
				continue
			}
			tried[k] = true
			if n.trySplit(c, k, g, d) {
				return true
			}
		}
	}
	return false
}

// inStep: what the goal speaks of grows in a loop together with a counter of the loop.
func (n *prover) inStep(c *nctx, f *factSet, g nlin, d int) bool {
	for _, s := range g.ids() {
		y := n.syms[s]
		ph, ok := y.t.v.(*ssa.Phi)
		if !ok || y.t.ver != nil || y.fld != "" || n.loopAt(ph.Block()) == nil {
			continue
		}
		head, fr := ph.Block(), y.t.fr
		loop := n.loopAt(head)
		entry := -1
		for i, p := range head.Preds {
			if !loop.Body[p] {
				entry = i
			}
		}
		if entry < 0 || !n.availableAt(c, y.t, fr, head) {
			continue
		}
		x := n.symLin(y)
		for _, in := range head.Instrs {
			q, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if q == ph || n.steps <= 0 {
				continue
			}
			var o nlin
			switch {
			case isInteger(q.Type()):
				o = n.symLin(nsym{t: term{fr: fr, v: q}})
			case !y.len && (isString(q.Type()) || isSliceType(q.Type())):
				o = n.symLin(nsym{t: term{fr: fr, v: q}, len: true})
			default:
				continue
			}
			l := o.add(x, -1)
			if g.m[s] > 0 {
				l = x.add(o, -1)
			}
			p := head.Preds[entry]
			first, ok := n.atEdge(&nctx{fr: fr, blk: p, idx: len(p.Instrs), choice: c.choice}, l, fr, head, entry)
			if ok && len(first.m) == 0 {
				l.c -= first.c
			}
			if n.contradicts(f.fs, nconst(-1).add(l, -1)) || !n.induct(c, fr, head, l, nil, d) {
				continue
			}
			more := &nctx{fr: c.fr, blk: c.blk, idx: c.idx, choice: c.choice, extra: append(append([]nlin{}, c.extra...), l), assume: c.assume}
			if n.prove(more, g, d+1) {
				return true
			}
		}
	}
	return false
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// weakestFirst puts forms that another of the same shape follows from behind it.
func weakestFirst(ls []nlin) []nlin {
	best := map[string]int64{}
	for _, l := range ls {
		k := nlin{m: l.m}.key()
		if c, ok := best[k]; !ok || l.c < c {
			best[k] = l.c
		}
	}
	var out, rest []nlin
	for _, l := range ls {
		if l.c == best[nlin{m: l.m}.key()] {
			out = append(out, l)
		} else {
			rest = append(rest, l)
		}
	}
	return append(out, rest...)
}

// headsOf are the loop heads whose variables a form talks about, if the rest of it is
// known there.
func (n *prover) headsOf(c *nctx, l nlin) []nchoice {
	var out []nchoice
	add := func(k nchoice) {
		for _, o := range out {
			if o == k {
				return
			}
		}
		for _, s := range l.ids() {
			if !n.availableAt(c, n.syms[s].t, k.fr, k.b) {
				return
			}
		}
		out = append(out, k)
	}
	for _, s := range l.ids() {
		t := n.syms[s].t
		if v := t.ver; v != nil {
			if v.kind == verPhi && n.loopAt(v.blk) != nil {
				add(nchoice{fr: v.fr, b: v.blk})
			}
			continue
		}
		if p, ok := t.v.(*ssa.Phi); ok && n.loopAt(p.Block()) != nil {
			add(nchoice{fr: t.fr, b: p.Block()})
		}
	}
	return out
}

// before: the instruction (or block start) of a frame is passed before the head is.
func (n *prover) before(fr *nframe, b *ssa.BasicBlock, in ssa.Instruction, atHead bool, hf *nframe, head *ssa.BasicBlock) bool {
	if fr == hf {
		if b == head {
			return atHead
		}
		return b.Dominates(head)
	}
	if hf.inside(fr) {
		x := hf
		for x.up != fr {
			x = x.up
		}
		if b == x.call.Block() {
			return in == nil || indexIn(in) < indexIn(x.call)
		}
		return b.Dominates(x.call.Block())
	}
	// bring both to a common frame
	if fr.up == nil {
		return false
	}
	if fr.up == hf || !hf.inside(fr.up) {
		return n.before(fr.up, fr.call.Block(), fr.call, false, hf, head)
	}
	x := hf
	for x.up != fr.up {
		x = x.up
	}
	cb, hb := fr.call.Block(), x.call.Block()
	if cb == hb {
		return indexIn(fr.call) < indexIn(x.call)
	}
	return cb.Dominates(hb)
}

func (n *prover) availableAt(c *nctx, t term, hf *nframe, head *ssa.BasicBlock) bool {
	if v := t.ver; v != nil {
		if !n.availableAt(c, v.loc.base, hf, head) {
			return false
		}
		switch v.kind {
		case verEntry:
			return true
		case verPhi:
			return n.before(v.fr, v.blk, nil, true, hf, head)
		default:
			b := v.blk
			if v.in != nil {
				b = v.in.Block()
			}
			return n.before(v.fr, b, v.in, false, hf, head)
		}
	}
	if t.fr == nil {
		return true
	}
	switch x := t.v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Const, *ssa.Global:
		return true
	case *ssa.Phi:
		return n.before(t.fr, x.Block(), nil, true, hf, head)
	case ssa.Instruction:
		return n.before(t.fr, x.Block(), x, false, hf, head)
	}
	return false
}

// inductOn proves a form at a loop head, if need be only for rounds in which a flag known
// at the point is set.
func (n *prover) inductOn(c *nctx, f *factSet, h nchoice, l nlin, d int) bool {
	if n.induct(c, h.fr, h.b, l, nil, d) {
		return true
	}
	for _, g := range f.when {
		if ph, ok := g.val.(*ssa.Phi); ok && g.fr == h.fr && ph.Block() == h.b && n.steps > 0 {
			if n.induct(c, h.fr, h.b, l, []nguard{g}, d) {
				return true
			}
		}
	}
	return false
}

// callersOn proves a form about parameters at every call, if need be only at those that
// pass a flag known at the point.
func (n *prover) callersOn(c *nctx, f *factSet, l nlin, d int) bool {
	if n.callers(c, l, nil, d) {
		return true
	}
	var gs []nguard
	for _, g := range f.when {
		if p, ok := g.val.(*ssa.Parameter); ok && g.fr == c.fr.root() && p.Parent() == g.fr.fn {
			gs = append(gs, g)
		}
	}
	return len(gs) > 0 && n.steps > 0 && n.callers(c, l, gs, d)
}

func sameGuards(a, b []nguard) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// induct proves a form at a loop head: it holds on entry and each round keeps it.
func (n *prover) induct(c *nctx, fr *nframe, head *ssa.BasicBlock, l nlin, when []nguard, d int) bool {
	k := l.key()
	for _, o := range n.open {
		if o.fr == fr && o.head == head && o.l.key() == k && sameGuards(o.when, when) {
			return false
		}
	}
	loop := n.loopAt(head)
	nopens := 0
	for _, o := range n.open {
		if o.fr == fr && o.head == head {
			nopens++
			// a stronger bound on what is being bounded is no way to bound it
			if n.short != nil && len(o.l.add(l, -1).m) == 0 {
				return false
			}
		}
	}
	if nopens > 3 {
		return false
	}
	base := n.moveTo(c, fr, head, loop)
	memo := n.ctxKey(base) + "#ind" + strconv.Itoa(fr.id) + "." + strconv.Itoa(head.Index) + ":" + k
	for _, g := range when {
		memo += fmt.Sprintf("|%s.%v", g.val.Name(), g.pos)
	}
	if n.proved[memo] {
		n.note(d, "known invariant %s", n.show(l))
		return true
	}
	if at, ok := n.failed[memo]; ok && at <= d {
		return false
	}
	n.note(d, "induction at %s:%d: %s", fr.fn.Name(), head.Index, n.show(l))
	ok := true
	// entry first: it fails sooner
	for pass := 0; pass < 2 && ok; pass++ {
		if pass == 1 {
			n.open = append(n.open, nopen{fr, head, l, when, base})
		}
		for i, p := range head.Preds {
			if loop.Body[p] != (pass == 1) {
				continue
			}
			at := &nctx{fr: fr, blk: p, idx: len(p.Instrs), choice: base.choice, extra: base.extra, assume: base.assume}
			vacuous := false
			for _, g := range when {
				e := g.val.(*ssa.Phi).Edges[i]
				if b, ok := constBool(e); ok {
					vacuous = vacuous || b != g.pos
					continue
				}
				at.assume = append(append([]nguard{}, at.assume...), nguard{fr, e, g.pos})
			}
			if vacuous {
				continue
			}
			g, good := n.atEdge(at, l, fr, head, i)
			if !good || !n.proveEdge(at, p, head, g, d+1) {
				ok = false
				break
			}
		}
		if pass == 1 {
			n.open = n.open[:len(n.open)-1]
		}
	}
	if ok {
		n.proved[memo] = true
	} else if n.steps > 0 {
		n.failed[memo] = d
	}
	return ok
}

// proveEdge proves a form at the end of a block given the edge taken from it.
func (n *prover) proveEdge(c *nctx, p, to *ssa.BasicBlock, g nlin, d int) bool {
	cds := edgeConds(p, to)
	if len(cds) == 0 {
		return n.prove(c, g, d)
	}
	f := &factSet{n: n, c: c, seen: map[string]bool{}, busy: map[nchoice]bool{}, syms: map[int]bool{}}
	for _, cd := range cds {
		f.cond(c.fr, cd, 0)
	}
	c2 := *c
	c2.extra = append(append([]nlin{}, c.extra...), f.fs...)
	return n.prove(&c2, g, d)
}

// moveTo drops what was assumed about things after a loop head.
func (n *prover) moveTo(c *nctx, fr *nframe, head *ssa.BasicBlock, loop *Loop) *nctx {
	o := &nctx{fr: fr, blk: head, choice: map[nchoice]int{}}
	for k, i := range c.choice {
		b := k.b
		var in ssa.Instruction
		if b == nil {
			b, in = k.c.Block(), k.c
		}
		if k.fr == fr && loop != nil && loop.Body[b] {
			continue
		}
		if n.before(k.fr, b, in, false, fr, head) {
			o.choice[k] = i
		}
	}
	for _, l := range c.extra {
		ok := true
		for s := range l.m {
			t := n.syms[s].t
			if !n.availableAt(c, t, fr, head) || loop != nil && n.definedAt(t, fr, head) {
				ok = false
			}
		}
		if ok {
			o.extra = append(o.extra, l)
		}
	}
	for _, g := range c.assume {
		t := term{fr: g.fr, v: g.val}
		if n.availableAt(c, t, fr, head) && !(loop != nil && n.definedAt(t, fr, head)) {
			o.assume = append(o.assume, g)
		}
	}
	return o
}

// definedAt: the unknown is a variable of the loop.
func (n *prover) definedAt(t term, fr *nframe, head *ssa.BasicBlock) bool {
	if v := t.ver; v != nil {
		return v.kind == verPhi && v.fr == fr && v.blk == head || n.definedAt(v.loc.base, fr, head)
	}
	p, ok := t.v.(*ssa.Phi)
	return ok && t.fr == fr && p.Block() == head
}

// atEdge is a form with the loop variables replaced by their values on an edge.
func (n *prover) atEdge(c *nctx, l nlin, fr *nframe, head *ssa.BasicBlock, i int) (nlin, bool) {
	out := nconst(l.c)
	p := head.Preds[i]
	for _, s := range l.ids() {
		k := l.m[s]
		y := n.syms[s]
		x := n.symLin(y)
		if v := y.t.ver; v != nil {
			if n.definedAt(v.loc.base, fr, head) {
				return out, false
			}
			if v.kind == verPhi && v.fr == fr && v.blk == head {
				t := n.at(c, fr, p, len(p.Instrs), v.loc, 0)
				if y.len {
					x = n.length(c, t)
				} else {
					x = n.lin(c, t)
				}
			}
		} else if ph, ok := y.t.v.(*ssa.Phi); ok && y.t.fr == fr && ph.Block() == head {
			t := term{fr: fr, v: ph.Edges[i]}
			switch {
			case y.fld != "":
				if ft, ok := n.field(c, t, y.fld); ok {
					x = n.lin(c, ft)
				} else {
					x = n.symLin(nsym{t: n.canon(c, t), fld: y.fld})
				}
			case y.len:
				x = n.length(c, t)
			default:
				x = n.lin(c, t)
			}
		}
		out = out.add(x, k)
	}
	return out, true
}

// entryForm: a form about what a root function is given.
func (n *prover) entryForm(c *nctx, l nlin) bool {
	r := c.fr.root()
	for _, s := range l.ids() {
		if !n.atEntry(n.syms[s].t, r) {
			return false
		}
	}
	return true
}

func (n *prover) atEntry(t term, r *nframe) bool {
	if v := t.ver; v != nil {
		return v.kind == verEntry && v.fr == r && v.loc.elem == "" && n.atEntry(v.loc.base, r)
	}
	p, ok := t.v.(*ssa.Parameter)
	return ok && t.fr == r && p.Parent() == r.fn
}

// callers proves a form about parameters at every call.
func (n *prover) callers(c *nctx, l nlin, when []nguard, d int) bool {
	r := c.fr.root()
	f := r.fn
	k := l.key()
	for _, o := range n.open {
		if o.head == nil && o.fr == r && o.l.key() == k && (len(o.when) == 0 || sameGuards(o.when, when)) {
			return true // being proved for all calls, earlier ones included
		}
	}
	if n.p.isEntry(f) || n.p.addrTkn[f] || f.Parent() != nil || len(n.p.callers[f]) == 0 {
		return false
	}
	nopens := 0
	for _, o := range n.open {
		if o.head == nil {
			nopens++
		}
	}
	if nopens > 6 {
		return false
	}
	n.note(d, "callers of %s: %s", f.Name(), n.show(l))
	n.open = append(n.open, nopen{r, nil, l, when, nil})
	defer func() { n.open = n.open[:len(n.open)-1] }()
	for _, site := range n.p.callers[f] {
		call, ok := site.(*ssa.Call)
		if !ok {
			return false
		}
		up := n.root(call.Parent())
		at := &nctx{fr: up, blk: call.Block(), idx: indexIn(call), choice: map[nchoice]int{}}
		for _, g := range when {
			if i := paramIndex(g.val.(*ssa.Parameter)); i < len(call.Call.Args) {
				at.assume = append(at.assume, nguard{up, call.Call.Args[i], g.pos})
			}
		}
		g, ok := n.atCall(at, l, up, call, r)
		if !ok || !n.prove(at, g, d+1) {
			return false
		}
	}
	return true
}

// atCall is a form about parameters in terms of the arguments of a call.
func (n *prover) atCall(c *nctx, l nlin, up *nframe, call *ssa.Call, r *nframe) (nlin, bool) {
	out := nconst(l.c)
	for _, s := range l.ids() {
		k := l.m[s]
		y := n.syms[s]
		t, ok := n.mapEntry(c, y.t, up, call, r)
		if !ok {
			return out, false
		}
		var x nlin
		switch {
		case y.fld != "":
			if ft, ok := n.field(c, t, y.fld); ok {
				x = n.lin(c, ft)
			} else {
				x = n.symLin(nsym{t: n.canon(c, t), fld: y.fld})
			}
		case y.len:
			x = n.length(c, t)
		default:
			x = n.lin(c, t)
		}
		out = out.add(x, k)
	}
	return out, true
}

func (n *prover) mapEntry(c *nctx, t term, up *nframe, call *ssa.Call, r *nframe) (term, bool) {
	if v := t.ver; v != nil {
		b, ok := n.mapEntry(c, v.loc.base, up, call, r)
		if !ok {
			return term{}, false
		}
		if b.ver != nil {
			return n.at(c, up, call.Block(), indexIn(call), nloc{base: b, path: v.loc.path}, 0), true
		}
		pl, ok := n.place(c, b.fr, b.v)
		if !ok {
			return term{}, false
		}
		pl.path += v.loc.path
		return n.at(c, up, call.Block(), indexIn(call), pl, 0), true
	}
	p, ok := t.v.(*ssa.Parameter)
	if !ok || p.Parent() != r.fn {
		return term{}, false
	}
	i := paramIndex(p)
	if i >= len(call.Call.Args) {
		return term{}, false
	}
	return n.canon(c, term{fr: up, v: call.Call.Args[i]}), true
}
