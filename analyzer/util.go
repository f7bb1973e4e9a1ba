package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cond is a branch condition known to hold at some block.
type Cond struct {
	Val ssa.Value
	Pos bool // true: condition is true
	If  *ssa.If
}

// condsAt returns the branch conditions that hold whenever b executes because
// an edge that decides them dominates b.
func condsAt(b *ssa.BasicBlock) []Cond {
	var out []Cond
	for cur := b; cur != nil; cur = cur.Idom() {
		if len(cur.Preds) == 1 {
			out = append(out, edgeConds(cur.Preds[0], cur)...)
		}
	}
	return out
}

// edgeConds returns the condition decided by the edge from -> to itself.
func edgeConds(from, to *ssa.BasicBlock) []Cond {
	if len(from.Instrs) == 0 {
		return nil
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return nil
	}
	return expandCond(Cond{iff.Cond, from.Succs[0] == to, iff})
}

// expandCond unwraps negations.
func expandCond(c Cond) []Cond {
	for {
		u, ok := c.Val.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return []Cond{c}
		}
		c.Val, c.Pos = u.X, !c.Pos
	}
}

// Loop is a natural loop.
type Loop struct {
	Head   *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool // includes Head
	Latch  []*ssa.BasicBlock
	Parent *Loop
}

type funcInfo struct {
	fn    *ssa.Function
	loops []*Loop
}

func findLoops(f *ssa.Function) []*Loop {
	byHead := map[*ssa.BasicBlock]*Loop{}
	var order []*Loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{Head: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					order = append(order, l)
				}
				l.Latch = append(l.Latch, b)
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.Body[x] {
						continue
					}
					l.Body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range order {
		for _, m := range order {
			if m != l && m.Body[l.Head] && len(m.Body) > len(l.Body) {
				if l.Parent == nil || len(m.Body) < len(l.Parent.Body) {
					l.Parent = m
				}
			}
		}
	}
	return order
}

// irreducible reports whether f has a cycle that is not a natural loop.
func irreducible(f *ssa.Function) bool {
	// remove back edges, look for remaining cycles
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			switch state[s] {
			case 0:
				if dfs(s) {
					return true
				}
			case 1:
				return true
			}
		}
		state[b] = 2
		return false
	}
	return len(f.Blocks) > 0 && dfs(f.Blocks[0])
}

// instrs calls fn for every instruction of f.
func instrs(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// calleeName returns "pkg.Func" or "(pkg.Type).Method" for a static callee that
// may live outside the library, and "" for dynamic calls.
func calleeName(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if c.IsInvoke() {
		return "invoke:" + types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return f.RelString(nil)
	}
	return ""
}

// calleePkg returns the import path of a static callee's package.
func calleePkg(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNamed(t types.Type, pkg, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// reachable returns the blocks reachable from b (b included only through a cycle
// unless self is true).
func reachable(b *ssa.BasicBlock, self bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	if self {
		stack = append(stack, b)
	} else {
		stack = append(stack, b.Succs...)
	}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		stack = append(stack, x.Succs...)
	}
	return seen
}

// indexIn returns the position of an instruction in its block.
func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// before reports whether a is executed before b whenever b executes.
func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexIn(a) < indexIn(b)
	}
	return a.Block().Dominates(b.Block())
}

// typeName renders a type without the module path.
func typeName(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), modPath+".", "")
}

// spillParam: go/ssa spills a parameter whose address is needed into an Alloc
// that is stored to exactly once; return the stored value of such an Alloc.
func soleStore(a *ssa.Alloc) (ssa.Value, *ssa.Store) {
	var st *ssa.Store
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if st != nil {
				return nil, nil
			}
			st = s
		}
	}
	if st == nil {
		return nil, nil
	}
	return st.Val, st
}

// resultValue is the value a return gives back; in a function with deferred calls
// it is stored in a result variable just before.
func resultValue(ret *ssa.Return, i int) ssa.Value {
	v := ret.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != ret.Block() {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var last ssa.Value
	for _, in := range ret.Block().Instrs {
		if in == ssa.Instruction(u) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			last = st.Val
			continue
		}
		for _, op := range in.Operands(nil) {
			if ld, ok := in.(*ssa.UnOp); *op == ssa.Value(a) && !(ok && ld.Op == token.MUL) {
				last = nil // a part of it may change
			}
		}
	}
	if last == nil {
		return v
	}
	return last
}
