package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tracker is the validator's position bookkeeping.
type tracker struct {
	p        *Program
	owner    *types.Named // the struct that counts lines and columns
	cursor   *types.Var   // index of the next character
	line     *types.Var
	column   *types.Var
	errLine  *types.Var
	errCol   *types.Var
	labels   map[*types.Var]string
	moves    map[*ssa.Function]bool // transitively moves the cursor of a tracker
	pairSeen map[string]bool
}

// fieldOf returns the struct field an address denotes and the outermost struct
// the address is computed from.
func fieldOf(addr ssa.Value) (fld *types.Var, base ssa.Value) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return nil, nil
	}
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	base = fa.X
	for {
		up, ok := base.(*ssa.FieldAddr)
		if !ok {
			break
		}
		base = up.X
	}
	return st.Field(fa.Field), base
}

func (t *tracker) owned(base ssa.Value) bool {
	n, ok := deref(base.Type()).(*types.Named)
	return ok && n.Obj() == t.owner.Obj()
}

// loadOfField: v reads the field of the tracker.
func (t *tracker) loadOfField(v ssa.Value, fld *types.Var) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	f, base := fieldOf(u.X)
	return f != nil && f == fld && t.owned(base)
}

// findTracker identifies the bookkeeping fields from how they are used: the owner
// is the receiver of the methods that return validation errors; the cursor is the
// field that indexes the text; where the cursor moves, the field that is also set
// to zero is the column and the other counted field is the line.
func (p *Program) findTracker(r *Report) *tracker {
	t := &tracker{p: p, labels: map[*types.Var]string{}, moves: map[*ssa.Function]bool{}, pairSeen: map[string]bool{}}
	ve, _ := p.Root.Pkg.Scope().Lookup("ValidateError").(*types.TypeName)
	if ve == nil {
		r.Bad("anchor", "-", "ValidateError", "exported type is missing")
		return nil
	}
	st, _ := ve.Type().Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "Line":
			t.errLine = st.Field(i)
		case "Column":
			t.errCol = st.Field(i)
		}
	}
	if t.errLine == nil || t.errCol == nil {
		r.Bad("anchor", "-", "ValidateError", "fields Line and Column are missing")
		return nil
	}
	score := map[*types.Named]map[*types.Var]int{}
	for _, f := range p.Funcs {
		recv := f.Signature.Recv()
		if recv == nil {
			continue
		}
		n, ok := deref(recv.Type()).(*types.Named)
		if !ok {
			continue
		}
		gives := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isNamed(deref(f.Signature.Results().At(i).Type()), modPath, "ValidateError") {
				gives = true
			}
		}
		if gives && score[n] == nil {
			score[n] = map[*types.Var]int{}
		}
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			u, ok := ia.Index.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			fld, base := fieldOf(u.X)
			if fld == nil {
				return
			}
			if n, ok := deref(base.Type()).(*types.Named); ok && score[n] != nil {
				score[n][fld]++
			}
		})
	}
	best := 0
	for n, fs := range score {
		for v, c := range fs {
			if c > best {
				best, t.owner, t.cursor = c, n, v
			}
		}
	}
	if t.owner == nil {
		r.Bad("anchor", "-", "-", "no validator with a cursor into its text was found")
		return nil
	}
	// counted fields
	ost, _ := t.owner.Underlying().(*types.Struct)
	inc, zero := map[*types.Var]bool{}, map[*types.Var]bool{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fld, base := fieldOf(s.Addr)
			if fld == nil || !t.owned(base) || !isInteger(fld.Type()) {
				return
			}
			if _, fresh := base.(*ssa.Alloc); fresh {
				return
			}
			if n, ok := constInt(s.Val); ok && n == 0 {
				zero[fld] = true
			} else if b, ok := s.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
				inc[fld] = true
			}
		})
	}
	for i := 0; ost != nil && i < ost.NumFields(); i++ {
		v := ost.Field(i)
		if v == t.cursor || !inc[v] {
			continue
		}
		if zero[v] && t.column == nil {
			t.column = v
		} else if !zero[v] && t.line == nil {
			t.line = v
		}
	}
	if t.line == nil || t.column == nil {
		r.Bad("anchor", p.Pos(t.owner.Obj().Pos()), t.owner.Obj().Name(), "no line and column counters were found")
		return nil
	}
	return t
}

// writes reports which bookkeeping fields a function stores to directly.
func (t *tracker) writes(f *ssa.Function) (cur, cnt bool) {
	instrs(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			fld, base := fieldOf(s.Addr)
			if fld == nil || !t.owned(base) {
				return
			}
			if _, fresh := base.(*ssa.Alloc); fresh {
				return
			}
			switch fld {
			case t.cursor:
				cur = true
			case t.line, t.column:
				cnt = true
			}
		}
	})
	return
}

// A step is what happens between two resting points: the cursor moves over some
// characters and the counters follow. Its bits, and what else it records.
const (
	pbMoved = 1 << iota
	pbNL    // the character is a newline
	pbLine  // line counted up
	pbCol0  // column set to zero
	pbCol   // column counted up

	pbMask = 8  // 16 bits: characters ahead known not to be newlines
	pbBy   = 32 // 8 bits: how far the cursor moved
	pbCols = 40 // 8 bits: how far the column moved
)

func stepBy(b uint64) int   { return int(b >> pbBy & 0xff) }
func stepCols(b uint64) int { return int(b >> pbCols & 0xff) }

// plain: the first n characters of the step are known not to be newlines.
func plain(b uint64, n int) bool {
	m := uint64(1)<<n - 1
	return n <= 16 && b>>pbMask&m == m
}

func stepOK(b uint64) bool {
	switch b & (pbMoved | pbLine | pbCol0 | pbCol) {
	case 0:
		return true
	case pbMoved | pbLine | pbCol0:
		return b&pbNL != 0 && stepBy(b) == 1
	case pbMoved | pbCol:
		return stepBy(b) == stepCols(b) && plain(b, stepBy(b))
	}
	return false
}

func describeStep(b uint64) string {
	notNL := plain(b, stepBy(b))
	switch {
	case b&pbMoved == 0:
		return "changes the line or column without consuming a character"
	case b&(pbLine|pbCol|pbCol0) == 0:
		return "consumes a character without counting it"
	case b&pbNL != 0 && b&pbLine == 0:
		return "consumes a newline without starting a new line"
	case b&pbNL != 0:
		return "starts a new line at a column other than zero"
	case notNL && b&pbLine != 0:
		return "starts a new line at a character that is not a newline"
	case notNL:
		return "does not count one column for a character"
	}
	return "counts a character without testing whether it is a newline"
}

// charSyms and cursorSyms stand for the characters of a step and for cursor
// positions in it, counted from where the step begins.
var charSyms, cursorSyms [16]*Sym

func init() {
	for i := range charSyms {
		charSyms[i] = &Sym{name: fmt.Sprintf("$char%d", i), typ: types.Typ[types.Byte]}
		cursorSyms[i] = &Sym{name: fmt.Sprintf("$cursor%d", i), typ: types.Typ[types.Int]}
	}
}

func symIndex(syms *[16]*Sym, v ssa.Value) int {
	for i, y := range syms {
		if v == ssa.Value(y) {
			return i
		}
	}
	return -1
}

func (t *tracker) steps(r *Report) {
	p := t.p
	direct := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if cur, cnt := t.writes(f); cur || cnt {
			direct[f] = true
		}
	}
	t.transitive(direct)
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if !direct[f] {
			continue
		}
		root := len(p.callers[f]) == 0 || p.addrTkn[f]
		for _, c := range p.callers[f] {
			if !direct[c.Parent()] {
				root = true
			}
		}
		if root {
			roots = append(roots, f)
		}
	}
	// peeks: functions that read the next character without moving
	peeks := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return p.InLib(f) && !t.moves[f] && f.Signature.Recv() != nil && t.owned(f.Params[0]) &&
			res.Len() == 1 && (isByteOrRune(res.At(0).Type()) || isBool(res.At(0).Type()))
	}
	for _, f := range roots {
		name := p.shortName(f)
		good := true
		x := newExplorer(p)
		x.TrackInt, x.Mem = true, true
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
			return direct[callee] || peeks(callee)
		}
		judge := func(s *State, in ssa.Instruction) {
			if !stepOK(s.Bits) {
				good = false
				r.Bad("counted-once", p.At(in), p.shortName(in.Parent()), describeStep(s.Bits), x.Trace(s)...)
			}
			ahead := s.Bits >> pbMask & 0xffff >> stepBy(s.Bits)
			s.Bits = ahead << pbMask
			for k, a := range s.facts {
				if symIndex(&charSyms, a.v) >= 0 || symIndex(&cursorSyms, a.v) >= 0 {
					delete(s.facts, k)
				}
			}
		}
		is := func(s *State, v ssa.Value) ssa.Value { return x.resolve(s, AV{fr: s.fr, v: v}).v }
		// offset of an index from where the step began, or -1
		var offset func(s *State, v ssa.Value, d int) int
		offset = func(s *State, v ssa.Value, d int) int {
			w := is(s, v)
			if i := symIndex(&cursorSyms, w); i >= 0 {
				return i
			}
			b, ok := w.(*ssa.BinOp)
			if !ok || d > 4 || b.Op != token.ADD && b.Op != token.SUB {
				return -1
			}
			l, c := b.X, b.Y
			if _, ok := constInt(l); ok && b.Op == token.ADD {
				l, c = c, l
			}
			n, ok := constInt(is(s, c))
			o := offset(s, l, d+1)
			if !ok || o < 0 {
				return -1
			}
			if b.Op == token.SUB {
				n = -n
			}
			if o += int(n); o < 0 || o > 15 {
				return -1
			}
			return o
		}
		x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
			bind := func(v ssa.Value, y *Sym) { s.facts[fkey{s.fr, v, 0}] = AV{v: y} }
			switch v := in.(type) {
			case *ssa.UnOp:
				if t.loadOfField(v, t.cursor) {
					if s.Bits&pbMoved != 0 && stepOK(s.Bits) {
						judge(s, in)
					}
					if n := stepBy(s.Bits); n < 16 {
						bind(v, cursorSyms[n])
					}
				}
				if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL && isByteOrRune(v.Type()) {
					if o := offset(s, ia.Index, 0); o >= 0 {
						bind(v, charSyms[o])
					}
				}
			case *ssa.BinOp:
				if isInteger(v.Type()) {
					if o := offset(s, v, 0); o >= 0 {
						bind(v, cursorSyms[o])
					}
				}
			case *ssa.Store:
				fld, base := fieldOf(v.Addr)
				if fld == nil || !t.owned(base) {
					return true
				}
				r.Count("position_updates", 1)
				// how much is added to the field, or -1
				plus := func(f *types.Var) int {
					b, ok := is(s, v.Val).(*ssa.BinOp)
					if !ok || b.Op != token.ADD {
						return -1
					}
					l, c := b.X, b.Y
					if !t.loadOfField(l, f) {
						l, c = c, l
					}
					n, ok := constInt(is(s, c))
					if !ok || n < 1 || n > 200 || !t.loadOfField(l, f) {
						return -1
					}
					return int(n)
				}
				bad := func(msg string) {
					good = false
					r.Bad("counted-once", p.At(v), p.shortName(v.Parent()), msg, x.Trace(s)...)
				}
				switch fld {
				case t.cursor:
					by := offset(s, v.Val, 0) - stepBy(s.Bits)
					if s.Bits&pbMoved != 0 {
						judge(s, in)
					}
					if by < 1 {
						bad("moves the cursor by something other than counted characters")
						return true
					}
					s.Bits |= pbMoved | uint64(by)<<pbBy
				case t.line:
					if s.Bits&pbLine != 0 {
						judge(s, in)
					}
					if plus(t.line) != 1 {
						bad("changes the line other than by counting one up")
					}
					s.Bits |= pbLine
				case t.column:
					n, ok := constInt(is(s, v.Val))
					if ok && n == 0 && s.Bits&pbCol != 0 && s.Bits&pbNL != 0 {
						s.Bits &^= pbCol | 0xff<<pbCols // counted before the newline was seen
					}
					if s.Bits&(pbCol|pbCol0) != 0 {
						judge(s, in)
					}
					if ok && n == 0 {
						s.Bits |= pbCol0
					} else if n := plus(t.column); n > 0 {
						s.Bits |= pbCol | uint64(n)<<pbCols
					} else {
						bad("changes the column other than by counting up or starting at zero")
					}
				}
			case ssa.CallInstruction:
				// another function counts on its own
				if g := v.Common().StaticCallee(); g != nil && t.moves[g] && !direct[g] {
					judge(s, in)
					s.Bits = 0
				}
			}
			return true
		}
		x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
			a := AV{fr: s.fr, v: iff.Cond}
			for d := 0; d < 6; d++ {
				a = x.resolveNoFact(s, a)
				u, ok := a.v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				a, taken = AV{fr: a.fr, v: u.X}, !taken
			}
			b, ok := a.v.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return true
			}
			eq := (b.Op == token.EQL) == taken
			l, c := x.resolve(s, AV{fr: a.fr, v: b.X}), b.Y
			if _, isC := l.v.(*ssa.Const); isC {
				l, c = x.resolve(s, AV{fr: a.fr, v: b.Y}), b.X
			}
			if lit, ok := constString(c); ok {
				// the text ahead is a literal
				if cv, isCv := l.v.(*ssa.Convert); isCv && eq && !strings.Contains(lit, "\n") {
					l = x.resolve(s, AV{fr: l.fr, v: cv.X})
				}
				sl, isSl := l.v.(*ssa.Slice)
				if !eq || !isSl || sl.Low == nil || strings.Contains(lit, "\n") {
					return true
				}
				if o := offset(s, sl.Low, 0); o >= 0 {
					for i := range lit {
						if o+i < 16 {
							s.Bits |= 1 << (pbMask + o + i)
						}
					}
				}
				return true
			}
			n, isC := constInt(c)
			o := symIndex(&charSyms, l.v)
			if o < 0 || !isC {
				return true
			}
			bit := uint64(1) << (pbMask + o)
			switch {
			case n == '\n' && eq:
				if s.Bits&bit != 0 {
					return false
				}
				if o == 0 {
					s.Bits |= pbNL
				}
			case n == '\n', eq:
				if o == 0 && s.Bits&pbNL != 0 {
					return false
				}
				s.Bits |= bit
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			r.Count("steps_judged", 1)
			judge(s, ret)
		}
		x.Run(f)
		r.Count("walked_states", x.Nodes)
		if x.Overflow {
			r.Bad("counted-once", p.Pos(f.Pos()), name, "too complex to follow")
		} else if good {
			r.OK("counted-once", p.Pos(f.Pos()), name+" keeps cursor, line and column in step")
		}
	}
	// parts of the tracker handed to code that moves the cursor without counting
	writesCursor := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if writesCursor[f] {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				switch v := in.(type) {
				case *ssa.Store:
					fld, base := fieldOf(v.Addr)
					if fld == t.cursor && !t.owned(base) {
						if _, fresh := base.(*ssa.Alloc); !fresh {
							writesCursor[f] = true
						}
					}
				case ssa.CallInstruction:
					if c := v.Common().StaticCallee(); c != nil && writesCursor[c] {
						// only if it may be handed the same object
						for _, a := range v.Common().Args {
							if _, fresh := a.(*ssa.Call); !fresh && t.holdsCursor(a.Type()) {
								writesCursor[f] = true
							}
						}
					}
				}
			})
			if writesCursor[f] {
				ch = true
			}
		}
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			switch v := in.(type) {
			case ssa.CallInstruction:
				c := v.Common().StaticCallee()
				for _, a := range v.Common().Args {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok || !t.owned(fa.X) || !t.holdsCursor(a.Type()) {
						continue
					}
					if c == nil || writesCursor[c] {
						r.Bad("counted-once", p.At(v), p.shortName(f), "hands the cursor to "+calleeName(v.Common())+", which moves it without counting lines and columns")
					}
				}
			case *ssa.Store:
				fa, ok := v.Addr.(*ssa.FieldAddr)
				if !ok || !t.owned(fa.X) || !t.holdsCursor(v.Val.Type()) {
					return
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					r.Bad("counted-once", p.At(v), p.shortName(f), "replaces the cursor without counting lines and columns")
				}
			}
		})
	}
}

func (t *tracker) holdsCursor(ty types.Type) bool {
	st, ok := deref(ty).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := deref(ty).(*types.Named); ok && n.Obj() == t.owner.Obj() {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == t.cursor {
			return true
		}
	}
	return false
}

func (t *tracker) transitive(direct map[*ssa.Function]bool) {
	for f := range direct {
		t.moves[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range t.p.Funcs {
			if t.moves[f] {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && t.moves[g] {
						t.moves[f] = true
					}
				}
			})
			if t.moves[f] {
				ch = true
			}
		}
	}
}

// mover: the instruction may move the cursor.
func (t *tracker) mover(in ssa.Instruction) bool {
	switch v := in.(type) {
	case ssa.CallInstruction:
		if g := v.Common().StaticCallee(); g != nil {
			return t.moves[g]
		}
		_, b := v.Common().Value.(*ssa.Builtin)
		return !b
	case *ssa.Store:
		fld, base := fieldOf(v.Addr)
		return fld != nil && t.owned(base) && (fld == t.cursor || fld == t.line || fld == t.column)
	}
	return false
}

// together: nothing moves the cursor between the two instructions.
func (t *tracker) together(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if !dominatesInstr(a, b) {
		a, b = b, a
		if !dominatesInstr(a, b) {
			return false
		}
	}
	scan := func(blk *ssa.BasicBlock, from, to int) bool {
		for i := from; i < to; i++ {
			if t.mover(blk.Instrs[i]) {
				return false
			}
		}
		return true
	}
	if a.Block() == b.Block() {
		return scan(a.Block(), indexIn(a)+1, indexIn(b))
	}
	if !scan(a.Block(), indexIn(a)+1, len(a.Block().Instrs)) || !scan(b.Block(), 0, indexIn(b)) {
		return false
	}
	// blocks between, not passing a again
	seen := map[*ssa.BasicBlock]bool{a.Block(): true, b.Block(): true}
	var stack []*ssa.BasicBlock
	stack = append(stack, b.Block().Preds...)
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[c] {
			continue
		}
		seen[c] = true
		if !scan(c, 0, len(c.Instrs)) {
			return false
		}
		stack = append(stack, c.Preds...)
	}
	return true
}

// exprKey names what a value is computed from, for comparing two places in
// memory.
func exprKey(v ssa.Value, d int) string {
	if d > 8 {
		return v.Name()
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.UnOp:
		return v.Op.String() + exprKey(v.X, d+1)
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.f%d", exprKey(v.X, d+1), v.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.g%d", exprKey(v.X, d+1), v.Field)
	case *ssa.IndexAddr:
		return exprKey(v.X, d+1) + "[" + exprKey(v.Index, d+1) + "]"
	case *ssa.BinOp:
		return "(" + exprKey(v.X, d+1) + v.Op.String() + exprKey(v.Y, d+1) + ")"
	case *ssa.Call:
		if calleeName(v.Common()) == "builtin.len" {
			return "len(" + exprKey(v.Call.Args[0], d+1) + ")"
		}
	}
	return v.Name()
}

// fieldRead returns the field a value is read from and the place of its struct.
func fieldRead(v ssa.Value) (*types.Var, string) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
				return st.Field(fa.Field), exprKey(fa.X, 0)
			}
		}
	case *ssa.Field:
		if st, ok := v.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(v.Field), exprKey(v.X, 0)
		}
	}
	return nil, ""
}

// getter: the call returns the counter itself.
func (t *tracker) counterLoad(v ssa.Value, fld *types.Var) (ssa.Instruction, bool) {
	if t.loadOfField(v, fld) {
		return v.(ssa.Instruction), true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	g := c.Common().StaticCallee()
	if g == nil || !t.p.InLib(g) || t.moves[g] {
		return nil, false
	}
	n := 0
	for _, ret := range returnsOf(g) {
		if len(ret.Results) != 1 || !t.loadOfField(ret.Results[0], fld) {
			return nil, false
		}
		n++
	}
	return c, n > 0
}

// pair: the two values are the line and the column of one position. It returns
// what is wrong, or "".
func (t *tracker) pair(l, c ssa.Value, d int) string {
	p := t.p
	if d > 12 {
		return "position cannot be traced"
	}
	ln, lok := constInt(l)
	cn, cok := constInt(c)
	if lok && cok {
		if ln == 1 && cn == 0 {
			return ""
		}
		return fmt.Sprintf("fixed position line %d, column %d is not the start of the document", ln, cn)
	}
	if li, ok := t.counterLoad(l, t.line); ok {
		ci, ok := t.counterLoad(c, t.column)
		if !ok {
			return "the line is the current one, the column is not"
		}
		if !t.together(li, ci) {
			return "line and column are taken at different moments"
		}
		return ""
	}
	if _, ok := t.counterLoad(l, t.column); ok {
		return "the column is used as line"
	}
	if _, ok := t.counterLoad(c, t.line); ok {
		return "the line is used as column"
	}
	key := fmt.Sprintf("%p.%p", l, c)
	switch lv := l.(type) {
	case *ssa.Parameter:
		cv, ok := c.(*ssa.Parameter)
		if !ok || lv.Parent() != cv.Parent() {
			return "line and column come from different places"
		}
		if t.pairSeen[key] {
			return ""
		}
		t.pairSeen[key] = true
		f := lv.Parent()
		if p.addrTkn[f] || len(p.callers[f]) == 0 {
			return "position cannot be traced to its callers"
		}
		for _, call := range p.callers[f] {
			args := call.Common().Args
			if msg := t.pair(args[paramIndex(lv)], args[paramIndex(cv)], d+1); msg != "" {
				return msg + " (handed in at " + p.At(call) + ")"
			}
		}
		return ""
	case *ssa.Phi:
		cv, ok := c.(*ssa.Phi)
		if !ok || cv.Block() != lv.Block() {
			return "line and column come from different places"
		}
		if t.pairSeen[key] {
			return ""
		}
		t.pairSeen[key] = true
		for i := range lv.Edges {
			if msg := t.pair(lv.Edges[i], cv.Edges[i], d+1); msg != "" {
				return msg
			}
		}
		return ""
	case *ssa.Extract:
		cv, ok := c.(*ssa.Extract)
		if !ok || cv.Tuple != lv.Tuple {
			return "line and column come from different places"
		}
		call, ok := lv.Tuple.(*ssa.Call)
		if !ok {
			return "position cannot be traced"
		}
		g := call.Common().StaticCallee()
		if g == nil || !p.InLib(g) {
			return "position cannot be traced"
		}
		for _, ret := range returnsOf(g) {
			if msg := t.pair(ret.Results[lv.Index], ret.Results[cv.Index], d+1); msg != "" {
				return msg
			}
		}
		return ""
	}
	lf, lb := fieldRead(l)
	cf, cb := fieldRead(c)
	if lf != nil && cf != nil {
		switch {
		case lb != cb:
			return "line and column come from different places"
		case t.labels[lf] == "line" && t.labels[cf] == "column":
			return ""
		case t.labels[lf] == "column" || t.labels[cf] == "line":
			return "line and column are exchanged"
		}
	}
	if ll, ok := localOf(l); ok {
		if cl, ok := localOf(c); ok {
			return t.pair(ll, cl, d+1)
		}
	}
	return "position is not one the validator counted"
}

// localOf: the value of a local assigned once.
func localOf(v ssa.Value) (ssa.Value, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	s, _ := soleStore(al)
	return s, s != nil
}

// origin labels a value line or column from where it comes.
func (t *tracker) origin(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if _, ok := t.counterLoad(v, t.line); ok {
		return "line"
	}
	if _, ok := t.counterLoad(v, t.column); ok {
		return "column"
	}
	if f, _ := fieldRead(v); f != nil {
		return t.labels[f]
	}
	if l, ok := localOf(v); ok {
		return t.origin(l, seen)
	}
	merge := func(vs []ssa.Value) string {
		out := ""
		for _, e := range vs {
			o := t.origin(e, seen)
			if o == "" {
				continue
			}
			if out != "" && out != o {
				return "mixed"
			}
			out = o
		}
		return out
	}
	switch v := v.(type) {
	case *ssa.Phi:
		return merge(v.Edges)
	case *ssa.Parameter:
		var vs []ssa.Value
		for _, c := range t.p.callers[v.Parent()] {
			if i := paramIndex(v); i < len(c.Common().Args) {
				vs = append(vs, c.Common().Args[i])
			}
		}
		return merge(vs)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			if g := call.Common().StaticCallee(); g != nil && t.p.InLib(g) {
				var vs []ssa.Value
				for _, ret := range returnsOf(g) {
					vs = append(vs, ret.Results[v.Index])
				}
				return merge(vs)
			}
		}
	case *ssa.Call:
		if g := v.Common().StaticCallee(); g != nil && t.p.InLib(g) && isInteger(v.Type()) {
			var vs []ssa.Value
			for _, ret := range returnsOf(g) {
				vs = append(vs, ret.Results[0])
			}
			return merge(vs)
		}
	}
	return ""
}

// construct is one struct that receives a line and a column.
type construct struct {
	base      ssa.Value
	line, col *ssa.Store
}

func (t *tracker) positions(r *Report) {
	p := t.p
	// which fields of which structs hold lines and columns
	t.labels[t.errLine], t.labels[t.errCol] = "line", "column"
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fld, base := fieldOf(s.Addr)
				if fld == nil || t.owned(base) || !isInteger(fld.Type()) {
					return
				}
				o := t.origin(s.Val, map[ssa.Value]bool{})
				if o == "" || t.labels[fld] == o || t.labels[fld] == "mixed" || fld == t.errLine || fld == t.errCol {
					return
				}
				if t.labels[fld] != "" {
					o = "mixed"
				}
				t.labels[fld] = o
				ch = true
			})
		}
	}
	for _, f := range p.Funcs {
		cons := map[string]*construct{}
		var order []string
		instrs(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fld, base := fieldOf(s.Addr)
			if fld == nil || t.owned(base) || t.labels[fld] == "" {
				return
			}
			k := fa.X.Name()
			c := cons[k]
			if c == nil {
				c = &construct{base: fa.X}
				cons[k] = c
				order = append(order, k)
			}
			switch t.labels[fld] {
			case "line":
				if c.line != nil {
					t.onePair(r, f, c)
					c.line, c.col = nil, nil
				}
				c.line = s
			case "column":
				if c.col != nil {
					t.onePair(r, f, c)
					c.line, c.col = nil, nil
				}
				c.col = s
			default:
				r.Bad("real-position", p.At(s), p.shortName(f), "field "+fld.Name()+" receives lines as well as columns")
			}
		})
		sort.Strings(order)
		for _, k := range order {
			t.onePair(r, f, cons[k])
		}
		// errors made without a position
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !isNamed(deref(al.Type()), modPath, "ValidateError") {
				return
			}
			if c := cons[al.Name()]; c != nil {
				return
			}
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					return // copied as a whole
				}
			}
			r.Bad("real-position", p.At(in), p.shortName(f), "validation error without a position")
		})
	}
	// the counters start at line 1, column 0
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			n, ok := deref(al.Type()).(*types.Named)
			if !ok || n.Obj() != t.owner.Obj() {
				return
			}
			r.Count("trackers_created", 1)
			start := map[*types.Var]int64{}
			whole, unknown := false, false
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					whole = true
				}
			}
			instrs(f, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fld, base := fieldOf(st.Addr)
				if fld == nil || base != ssa.Value(al) {
					return
				}
				if t.holdsCursor(fld.Type()) && !t.freshPart(st.Val) {
					unknown = true
				}
				if fld == t.line || fld == t.column || fld == t.cursor {
					if n, ok := constInt(st.Val); ok {
						start[fld] = n
					} else {
						unknown = true
					}
				}
			})
			if whole {
				return
			}
			if unknown || start[t.line] != 1 || start[t.column] != 0 || start[t.cursor] != 0 {
				r.Bad("starts-at-one", p.At(in), p.shortName(f), "a validator does not start at line 1, column 0")
			} else {
				r.OK("starts-at-one", p.At(in), p.shortName(f))
			}
		})
	}
}

// freshPart: the struct that holds the cursor is new and its cursor at the start.
func (t *tracker) freshPart(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		_, zero := v.(*ssa.Const)
		return zero
	}
	var als []ssa.Value
	switch a := u.X.(type) {
	case *ssa.Alloc:
		als = append(als, a)
	case *ssa.Call:
		if g := a.Common().StaticCallee(); g != nil && t.p.InLib(g) {
			for _, ret := range returnsOf(g) {
				if len(ret.Results) == 1 {
					als = append(als, ret.Results[0])
				}
			}
		}
	}
	for _, a := range als {
		al, ok := a.(*ssa.Alloc)
		if !ok {
			return false
		}
		okAll := true
		instrs(al.Parent(), func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fld, base := fieldOf(st.Addr); fld == t.cursor && base == ssa.Value(al) {
				if n, ok := constInt(st.Val); !ok || n != 0 {
					okAll = false
				}
			}
			if st.Addr == ssa.Value(al) {
				okAll = false
			}
		})
		if !okAll {
			return false
		}
	}
	return len(als) > 0
}

func (t *tracker) onePair(r *Report, f *ssa.Function, c *construct) {
	p := t.p
	r.Count("positions", 1)
	if c.line == nil || c.col == nil {
		s := c.line
		what := "the column is not set"
		if s == nil {
			s, what = c.col, "the line is not set"
		}
		r.Bad("real-position", p.At(s), p.shortName(f), what)
		return
	}
	if msg := t.pair(c.line.Val, c.col.Val, 0); msg != "" {
		r.Bad("real-position", p.At(c.line), p.shortName(f), msg)
		return
	}
	r.OK("real-position", p.At(c.line), p.shortName(f)+" at "+strings.TrimPrefix(p.At(c.line), "validate.go:"))
}

func checkC19(p *Program, r *Report) {
	r.Explanation = "Typestate and provenance analysis of the validator's position bookkeeping. The cursor, line and column fields are identified from their use. Every function that writes one of them is walked path by path: each consumed character must move the cursor by one and either (newline) count a line and set the column to zero or (any other character) count one column; the cursor must not be handed to code that moves it uncounted. Every line and column stored into a validation error or a remembered position must be the pair of counters read at one moment, a pair remembered that way, or the start of the document. Not covered: which of the reached positions is the most helpful one to report."
	r.Rule("counted-once", "every consumed character is counted exactly once, newlines as lines, others as columns")
	r.Rule("real-position", "line and column of an error are the two counters at one moment")
	r.Rule("starts-at-one", "counting starts at line 1, column 0")
	t := p.findTracker(r)
	if t == nil {
		return
	}
	t.steps(r)
	t.positions(r)
	r.Min("position_updates", 1)
	r.Min("steps_judged", 1)
	r.Min("positions", 3)
	r.Min("trackers_created", 1)
}

func init() {
	checks["C19"] = checkC19
}
