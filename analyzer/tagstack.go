package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file holds the tag-stack typestate used for the document validator and
// the raw-fragment check. Both scan text, keep the names of open tags on a
// stack and accept or refuse. The walk follows every path of the scanner and
// keeps, per path, what the scanner has established about the tag at hand and
// about the stack; an accepting return must agree with it.

const (
	tsLT      = 1 << iota // a '<' was recognised, its kind not yet decided
	tsOpen                // an opening tag is being read
	tsClose               // a closing tag is being read
	tsBang                // a '<!' construct is being read
	tsSlash               // '/' seen inside the opening tag
	tsSelf                // '/' and '>' seen: self-closing
	tsMatch               // the innermost open name was found equal to the closing name
	tsEmpty               // the stack is known to be empty
	tsFull                // the stack is known not to be empty
	tsSawOpen             // an opening tag was read
	tsScanned             // the end of the text was reached
	tsNoDoc               // not a DOCTYPE
	tsNoEnt               // not an ENTITY
	tsNext
)

type tagWalk struct {
	p        *Program
	r        *Report
	x        *Explorer
	textIdx  int // parameter holding the scanned text
	stackT   types.Type
	flags    map[string]int // bool fields of scanner objects -> bit index
	bang     bool           // vet '<!' constructs
	bad      bool
	accepts  int
	pops     map[ssa.Instruction]bool
	pushes   map[ssa.Instruction]bool
	matches  map[ssa.Instruction]bool
	tests    map[ssa.Instruction]bool
	bases    []AV
	popRule  string
	pendRule string
	searches map[ssa.Instruction]bool
}

// stackType finds the slice type that is shortened by one element in code
// reachable from f.
func (p *Program) stackType(f *ssa.Function, except ...*ssa.Function) types.Type {
	var found types.Type
	for _, g := range p.reachFrom([]*ssa.Function{f}, except...) {
		instrs(g, func(in ssa.Instruction) {
			sl, ok := in.(*ssa.Slice)
			if !ok || sl.High == nil || sl.Low != nil {
				return
			}
			st, ok := sl.X.Type().Underlying().(*types.Slice)
			if !ok || !hasString(st.Elem()) {
				return
			}
			if isLenMinusOne(sl.High, sl.X) {
				found = sl.X.Type()
			}
		})
	}
	return found
}

func hasString(t types.Type) bool {
	if isString(t) {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isString(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// isLenMinusOne: v == len(s)-1 for a slice of the type of s (or s itself).
func isLenMinusOne(v ssa.Value, s ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	n, isC := constInt(b.Y)
	if b.Op == token.ADD {
		n = -n
	} else if b.Op != token.SUB {
		return false
	}
	if !isC || n != 1 {
		return false
	}
	c, ok := b.X.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "builtin.len" {
		return false
	}
	return types.Identical(c.Common().Args[0].Type(), s.Type())
}

func (w *tagWalk) report(rule, pos string, fn *ssa.Function, msg string, s *State) {
	w.bad = true
	w.r.Bad(rule, pos, w.p.shortName(fn), msg, w.x.Trace(s)...)
}

// constLen evaluates an integer constant or the length of a constant string.
func (x *Explorer) constLen(s *State, a AV) (int64, bool) {
	a = x.resolve(s, a)
	if n, ok := constInt(a.v); ok {
		return n, true
	}
	if c, ok := a.v.(*ssa.Call); ok && calleeName(c.Common()) == "builtin.len" {
		if cs, ok := constString(x.resolve(s, AV{fr: a.fr, v: c.Common().Args[0]}).v); ok {
			return int64(len(cs)), true
		}
	}
	return 0, false
}

var negOp = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
var swapOp = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// atom is a comparison or boolean call a branch outcome establishes.
type atom struct {
	fr   *Frame
	op   token.Token // 0 for a call
	l, r AV
	call *ssa.Call
	pos  bool // for calls: outcome
}

// atomOf reduces a branch condition to the comparison or call behind it.
func (x *Explorer) atomOf(s *State, cond ssa.Value, truth bool) (atom, bool) {
	a := AV{fr: s.fr, v: cond}
	for d := 0; d < 12; d++ {
		if u, ok := a.v.(*ssa.UnOp); ok && u.Op == token.NOT {
			a, truth = AV{fr: a.fr, v: u.X}, !truth
			continue
		}
		if b, ok := a.v.(*ssa.BinOp); ok {
			op := b.Op
			if _, cmp := negOp[op]; !cmp {
				return atom{}, false
			}
			if !truth {
				op = negOp[op]
			}
			l, r := AV{fr: a.fr, v: b.X}, AV{fr: a.fr, v: b.Y}
			if _, isC := l.v.(*ssa.Const); isC {
				l, r, op = r, l, swapOp[op]
			}
			// comparison of a boolean with a constant
			if bv, ok := constBool(r.v); ok {
				truth = (op == token.EQL) == bv
				a = l
				continue
			}
			return atom{fr: a.fr, op: op, l: l, r: r}, true
		}
		b := x.resolveNoFact(s, a)
		if b == a {
			if c, ok := a.v.(*ssa.Call); ok {
				return atom{fr: a.fr, call: c, pos: truth}, true
			}
			return atom{}, false
		}
		a = b
	}
	return atom{}, false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
}

// decide is called when the kind of a tag is being decided.
func (w *tagWalk) decide(s *State, at ssa.Instruction) bool {
	if msg := w.pending(s); msg != "" {
		w.report(w.pendRule, w.p.At(at), s.fr.fn, msg, s)
		return false
	}
	s.Bits &^= tsLT | tsOpen | tsClose | tsBang | tsSlash | tsSelf | tsMatch | tsNoDoc | tsNoEnt
	return true
}

// pending describes an obligation the scanner has left open.
func (w *tagWalk) pending(s *State) string {
	switch {
	case s.Bits&tsClose != 0:
		return "a closing tag is passed over without taking the innermost open name off the stack"
	case s.Bits&tsOpen != 0 && s.Bits&tsSelf == 0:
		return "an opening tag is passed over without being put on the stack, and it was not seen to be self-closing"
	case s.Bits&tsBang != 0 && w.bang && s.Bits&(tsNoDoc|tsNoEnt) != tsNoDoc|tsNoEnt:
		return "a '<!' construct that is neither comment nor CDATA is passed over without testing for DOCTYPE and ENTITY in any letter case"
	}
	return ""
}

func (w *tagWalk) char(s *State, c byte, truth bool, at ssa.Instruction) bool {
	lt := s.Bits&tsLT != 0
	switch c {
	case '<':
		if truth {
			s.Bits |= tsLT
			s.Bits &^= tsScanned
		}
	case '/':
		if lt {
			if !w.decide(s, at) {
				return false
			}
			if truth {
				s.Bits |= tsClose
			} else {
				s.Bits |= tsOpen
			}
		} else if truth && s.Bits&tsOpen != 0 {
			s.Bits |= tsSlash
		}
	case '!', '?':
		if truth {
			if lt {
				if !w.decide(s, at) {
					return false
				}
			} else if s.Bits&tsOpen == 0 {
				break
			}
			s.Bits &^= tsOpen | tsSlash | tsSelf
			if c == '!' {
				s.Bits |= tsBang
			}
		}
	case '>':
		if truth && s.Bits&tsOpen != 0 && s.Bits&tsSlash != 0 {
			s.Bits |= tsSelf
		}
	case '-', '[':
		if truth {
			s.Bits &^= tsBang
		}
	}
	if s.Bits&tsOpen != 0 {
		s.Bits |= tsSawOpen
	}
	return true
}

func (w *tagWalk) prefix(s *State, lit string, truth bool, at ssa.Instruction) bool {
	if !strings.HasPrefix(lit, "<") {
		return true
	}
	if truth {
		from := 0
		if s.Bits&tsLT == 0 && len(lit) > 1 && (lit[1] == '!' && s.Bits&tsBang != 0 || lit[1] == '/' && s.Bits&tsClose != 0) {
			from = 2 // the construct at hand, looked at again
		} else if s.Bits&tsLT != 0 {
			from = 1
		}
		for i := from; i < len(lit) && i < 3; i++ {
			if !w.char(s, lit[i], true, at) {
				return false
			}
		}
		return true
	}
	switch lit {
	case "</":
		if s.Bits&tsLT != 0 {
			return w.char(s, '/', false, at)
		}
	}
	return true
}

func (w *tagWalk) isStack(t types.Type) bool { return w.stackT != nil && types.Identical(t, w.stackT) }

// stackTop reports whether a value is (a field of) the last element of the stack.
func (w *tagWalk) stackTop(s *State, a AV, d int) bool {
	if d > 8 {
		return false
	}
	x := w.x
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Field:
		return w.stackTop(s, AV{fr: a.fr, v: v.X}, d+1)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		return w.stackTopAddr(s, AV{fr: a.fr, v: v.X}, d+1)
	}
	return false
}

func (w *tagWalk) stackTopAddr(s *State, a AV, d int) bool {
	if d > 8 {
		return false
	}
	x := w.x
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.FieldAddr:
		return w.stackTopAddr(s, AV{fr: a.fr, v: v.X}, d+1)
	case *ssa.IndexAddr:
		return w.isStack(v.X.Type()) && isLenMinusOneAV(x, s, AV{fr: a.fr, v: v.Index}, w.stackT)
	case *ssa.Alloc:
		val, _ := soleWholeStore(v)
		return val != nil && w.stackTop(s, AV{fr: a.fr, v: val}, d+1)
	}
	return false
}

// soleWholeStore: the only value stored into a struct local.
func soleWholeStore(al *ssa.Alloc) (ssa.Value, *ssa.Store) {
	if !privateStruct(al) {
		return nil, nil
	}
	st, rest := storesTo(al, nil)
	if len(st) != 1 || len(rest[0]) != 0 {
		return nil, nil
	}
	return st[0].Val, st[0]
}

func isLenMinusOneAV(x *Explorer, s *State, a AV, t types.Type) bool {
	a = x.resolve(s, a)
	b, ok := a.v.(*ssa.BinOp)
	if !ok {
		return false
	}
	n, isC := constInt(x.resolve(s, AV{fr: a.fr, v: b.Y}).v)
	if b.Op == token.ADD {
		n = -n
	} else if b.Op != token.SUB {
		return false
	}
	if !isC || n != 1 {
		return false
	}
	c, ok := x.resolve(s, AV{fr: a.fr, v: b.X}).v.(*ssa.Call)
	return ok && calleeName(c.Common()) == "builtin.len" && types.Identical(c.Common().Args[0].Type(), t)
}

func (w *tagWalk) isText(s *State, a AV) bool {
	return w.x.derives(s, a, func(b AV) bool { return w.x.isParam(b, w.textIdx) }, 0, map[AV]bool{})
}

func (w *tagWalk) addBase(s *State, a AV) {
	var b ssa.Value
	a = w.x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			b = ia.X
		}
	case *ssa.Index:
		b = v.X
	case *ssa.Lookup:
		b = v.X
	}
	if b == nil {
		return
	}
	c := w.x.content(s, AV{fr: a.fr, v: b})
	for _, o := range w.bases {
		if o == c {
			return
		}
	}
	w.bases = append(w.bases, c)
}

// lenOf: the comparison is between the length of a stack and a constant.
func (w *tagWalk) stackLen(s *State, at atom) (int64, bool) {
	if at.op == 0 {
		return 0, false
	}
	n, ok := w.x.constLen(s, at.r)
	if !ok {
		return 0, false
	}
	l := w.x.resolve(s, at.l)
	c, ok := l.v.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "builtin.len" || !w.isStack(c.Common().Args[0].Type()) {
		return 0, false
	}
	return n, true
}

func cmpInt(a int64, op token.Token, b int64) bool {
	return constant.Compare(constant.MakeInt64(a), op, constant.MakeInt64(b))
}

func (w *tagWalk) edge(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
	at, ok := x.atomOf(s, iff.Cond, taken)
	if !ok {
		return true
	}
	if at.op == 0 {
		cc := at.call.Common()
		switch calleeName(cc) {
		case "strings.HasPrefix", "bytes.HasPrefix":
			lit, ok := constString(x.content(s, AV{fr: at.fr, v: cc.Args[1]}).v)
			if !ok {
				return true
			}
			if w.bang {
				w.keyword(s, lit, at.pos, w.folded(s, AV{fr: at.fr, v: cc.Args[0]}, lit))
			}
			w.tests[iff] = true
			return w.prefix(s, lit, at.pos, iff)
		case "strings.EqualFold", "bytes.EqualFold":
			for _, a := range cc.Args {
				if lit, ok := constString(x.content(s, AV{fr: at.fr, v: a}).v); ok {
					w.keyword(s, lit, at.pos, true)
				}
			}
		}
		return true
	}
	// the stack is empty or not
	if n, ok := w.stackLen(s, at); ok {
		zero := cmpInt(0, at.op, n)
		more := at.op == token.NEQ || at.op == token.GTR || at.op == token.GEQ || n >= 1
		switch {
		case s.Bits&tsEmpty != 0 && !zero:
			return false
		case s.Bits&tsFull != 0 && zero && !more:
			return false
		}
		if zero && !more || at.op == token.LSS && n <= 1 {
			if s.Bits&tsFull != 0 {
				return false
			}
			s.Bits |= tsEmpty
			s.Bits &^= tsFull
		} else if !zero {
			s.Bits |= tsFull
			s.Bits &^= tsEmpty
		}
		return true
	}
	// a character test
	if n, ok := constInt(x.resolve(s, at.r).v); ok && isByte(at.l.v.Type()) && (at.op == token.EQL || at.op == token.NEQ) && n > 0 && n < 128 {
		w.addBase(s, at.l)
		w.tests[iff] = true
		return w.char(s, byte(n), at.op == token.EQL, iff)
	}
	// result of a search for '<'
	if n, ok := constInt(x.resolve(s, at.r).v); ok && isInteger(at.l.v.Type()) {
		l := x.resolve(s, at.l)
		if c, ok := l.v.(*ssa.Call); ok {
			switch calleeName(c.Common()) {
			case "strings.IndexByte", "bytes.IndexByte", "strings.Index", "bytes.Index":
				isLT := false
				arg := x.content(s, AV{fr: l.fr, v: c.Common().Args[1]}).v
				if k, ok := constInt(arg); ok && k == '<' {
					isLT = true
				}
				if k, ok := constString(arg); ok && k == "<" {
					isLT = true
				}
				if isLT {
					if cmpInt(-1, at.op, n) && !cmpInt(0, at.op, n) {
						s.Bits |= tsScanned
					}
					if !cmpInt(-1, at.op, n) {
						return w.char(s, '<', true, iff)
					}
				}
			}
		}
	}
	// names agree
	if isString(at.l.v.Type()) && (at.op == token.EQL || at.op == token.NEQ) {
		for _, pr := range [][2]AV{{at.l, at.r}, {at.r, at.l}} {
			if w.stackTop(s, pr[0], 0) && !w.stackTop(s, pr[1], 0) && w.isText(s, pr[1]) && at.op == token.EQL {
				s.Bits |= tsMatch
				w.matches[iff] = true
			}
		}
	}
	// end of the text
	op, l, r := at.op, at.l, at.r
	if _, ok := x.lenArg(s, l); ok {
		l, r, op = r, l, swapOp[op]
	}
	if y, ok := x.lenArg(s, r); ok && isInteger(l.v.Type()) {
		if _, isC := x.resolve(s, l).v.(*ssa.Const); !isC && (op == token.GEQ || op == token.EQL || op == token.GTR) && w.isText(s, y) {
			s.Bits |= tsScanned
		}
	}
	// text too short for a keyword
	if n, ok := x.constLen(s, at.r); ok {
		if y, ok := x.lenArg(s, at.l); ok && w.isText(s, y) {
			max := int64(-1)
			switch at.op {
			case token.LSS:
				max = n - 1
			case token.LEQ, token.EQL:
				max = n
			}
			if max >= 0 && max < int64(len("<!DOCTYPE")) {
				s.Bits |= tsNoDoc
			}
			if max >= 0 && max < int64(len("<!ENTITY")) {
				s.Bits |= tsNoEnt
			}
		}
	}
	return true
}

// folded reports whether a text was brought to the letter case of lit.
func (w *tagWalk) folded(s *State, a AV, lit string) bool {
	return w.x.derives(s, a, func(b AV) bool {
		c, ok := b.v.(*ssa.Call)
		if !ok {
			return false
		}
		switch calleeName(c.Common()) {
		case "strings.ToUpper", "bytes.ToUpper":
			return lit == strings.ToUpper(lit)
		case "strings.ToLower", "bytes.ToLower":
			return lit == strings.ToLower(lit)
		}
		return false
	}, 0, map[AV]bool{})
}

func (w *tagWalk) keyword(s *State, lit string, found, anyCase bool) {
	if found || !anyCase {
		return
	}
	u := strings.ToUpper(lit)
	u = strings.TrimPrefix(strings.TrimPrefix(u, "<"), "!")
	switch {
	case u != "" && strings.HasPrefix("DOCTYPE", u):
		s.Bits |= tsNoDoc
	case u != "" && strings.HasPrefix("ENTITY", u):
		s.Bits |= tsNoEnt
	}
}

func (w *tagWalk) flagBit(fa *ssa.FieldAddr) (int, bool) {
	st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || !isBool(st.Field(fa.Field).Type()) {
		return 0, false
	}
	k := deref(fa.X.Type()).String() + "." + st.Field(fa.Field).Name()
	b, ok := w.flags[k]
	if !ok {
		b = len(w.flags)
		if b > 15 {
			return 0, false
		}
		w.flags[k] = b
	}
	return b, true
}

func (w *tagWalk) instr(x *Explorer, s *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		// flags of the scanner, kept per path: bit set means "changed from false"
		if fa, ok := in.X.(*ssa.FieldAddr); ok && in.Op == token.MUL {
			if b, ok := w.flagBit(fa); ok {
				val := uint64(tsNext) << uint(2*b)
				if s.Bits&(val<<1) == 0 { // known
					s.facts[fkey{s.fr, in, 0}] = boolAV(s.Bits&val != 0)
				}
			}
		}
	case *ssa.Store:
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
			if b, ok := w.flagBit(fa); ok {
				val := uint64(tsNext) << uint(2*b)
				s.Bits &^= val | val<<1
				switch x.evalBool(s, in.Val) {
				case 1:
					s.Bits |= val
				case 0:
					s.Bits |= val << 1
				}
			}
		}
	case *ssa.Call:
		if msg := w.farSearch(s, in); msg != "" {
			w.report(w.pendRule, w.p.At(in), s.fr.fn, msg, s)
			return false
		}
		if calleeName(in.Common()) == "builtin.append" && w.isStack(in.Type()) {
			w.pushes[in] = true
			s.Bits |= tsFull
			s.Bits &^= tsOpen | tsSlash | tsSelf | tsEmpty | tsMatch
		}
	case *ssa.Slice:
		if w.isStack(in.X.Type()) && in.High != nil {
			w.pops[in] = true
			if !isLenMinusOneAV(x, s, AV{fr: s.fr, v: in.High}, w.stackT) {
				w.report(w.popRule, w.p.At(in), s.fr.fn, "the stack of open tags is shortened by something other than its innermost entry", s)
				return false
			}
			if s.Bits&tsClose == 0 || s.Bits&tsMatch == 0 {
				w.report(w.popRule, w.p.At(in), s.fr.fn, "an open tag is taken off the stack without having been found equal to the name of the closing tag", s)
				return false
			}
			s.Bits &^= tsClose | tsMatch | tsEmpty | tsFull
		}
	}
	return true
}

// farSearch: a search through the rest of the scanned text that does not stop
// at the end of the construct at hand.
func (w *tagWalk) farSearch(s *State, c *ssa.Call) string {
	pkg, name, ok := strings.Cut(calleeName(c.Common()), ".")
	if !ok || pkg != "strings" && pkg != "bytes" || !strings.Contains(name, "Index") || len(c.Common().Args) < 2 {
		return ""
	}
	sl, ok := w.x.resolve(s, AV{fr: s.fr, v: c.Common().Args[0]}).v.(*ssa.Slice)
	if !ok || sl.High != nil || !w.isText(s, w.x.resolve(s, AV{fr: s.fr, v: c.Common().Args[0]})) {
		return ""
	}
	w.searches[c] = true
	if strings.HasPrefix(name, "Last") {
		return "the rest of the text is searched from its end, so the tags before the place found are passed over"
	}
	a := w.x.resolve(s, AV{fr: s.fr, v: c.Common().Args[1]})
	if cv, ok := a.v.(*ssa.Convert); ok {
		a = w.x.resolve(s, AV{fr: a.fr, v: cv.X})
	}
	lit, ok := constString(a.v)
	if !ok || len(lit) < 2 || !strings.HasSuffix(lit, ">") {
		return ""
	}
	switch lit {
	case "-->", "]]>", "?>", "/>":
		return ""
	}
	return fmt.Sprintf("the rest of the text is searched for %q, which ends no construct of a fragment, so the tags before it are passed over", lit)
}

func (w *tagWalk) accept(s *State, ret ssa.Instruction, rule string, needRoot bool) {
	w.accepts++
	f := w.x.root.fn
	if msg := w.pending(s); msg != "" {
		w.report(w.pendRule, w.p.At(ret), f, msg+" and the text is accepted", s)
	}
	if s.Bits&tsEmpty == 0 {
		w.report(rule, w.p.At(ret), f, "the text can be accepted without the stack of open tags having been found empty", s)
	}
	if s.Bits&tsScanned == 0 {
		w.report(rule, w.p.At(ret), f, "the text can be accepted before its end was reached", s)
	}
	if needRoot && s.Bits&tsSawOpen == 0 {
		w.report(rule, w.p.At(ret), f, "the text can be accepted without any element having been opened", s)
	}
}

func newTagWalk(p *Program, r *Report, f *ssa.Function, text int, except ...*ssa.Function) *tagWalk {
	w := &tagWalk{p: p, r: r, x: newExplorer(p), textIdx: text, flags: map[string]int{},
		pops: map[ssa.Instruction]bool{}, pushes: map[ssa.Instruction]bool{}, matches: map[ssa.Instruction]bool{}, tests: map[ssa.Instruction]bool{}, searches: map[ssa.Instruction]bool{},
		popRule: "pop-after-match", pendRule: "every-tag-accounted"}
	w.stackT = p.stackType(f, except...)
	w.x.Edge = w.edge
	w.x.Instr = w.instr
	return w
}

func (w *tagWalk) run(f *ssa.Function) {
	w.x.root = w.x.newFrame(nil, nil, f)
	w.x.RunFrom(&State{fr: w.x.root, blk: f.Blocks[0], facts: map[fkey]AV{}, Bits: tsEmpty})
	if w.x.Overflow {
		w.bad = true
		w.r.Bad(w.pendRule, w.p.Pos(f.Pos()), f.Name(), "undecided: walk too large")
	}
	w.r.Count("walked_states", w.x.Nodes)
	w.r.Count("walked_edges", w.x.Edges)
	w.r.Count("character_tests", len(w.tests))
	w.r.Count("stack_pushes", len(w.pushes))
	w.r.Count("stack_pops", len(w.pops))
	w.r.Count("name_comparisons", len(w.matches))
	w.r.Count("accepting_returns", w.accepts)
	w.r.Count("searches_of_the_rest", len(w.searches))
}

func checkC18(p *Program, r *Report) {
	r.Rule("pop-after-match", "an open tag may be taken off the validator's stack only while a closing tag is read and after the innermost open name was found equal to its name")
	r.Rule("every-tag-accounted", "before another tag is classified or the document accepted, a closing tag must have popped the stack and an opening tag must have been pushed unless '/' and '>' were seen")
	r.Rule("accept-balanced", "the document may be accepted only where the stack was just found empty, the end of the text was reached and an element was opened")
	r.Explanation = "Typestate over every path of the validator, all callees inlined: per path it keeps which kind of tag is being read (decided by the character tests after '<'), whether the innermost name matched, whether the stack is known empty, whether the end was reached, and the validator's own boolean flags. Not covered: that a name is read to its end (see C27), and characters inside comments and CDATA."
	for _, n := range []string{"Valid", "ValidBytes", "ValidateWithError", "ValidateBytesWithError"} {
		f := p.Func(n)
		if f == nil {
			r.Bad("accept-balanced", "-", n, "entry point not found")
			continue
		}
		w := newTagWalk(p, r, f, 0)
		if w.stackT == nil {
			r.Bad("accept-balanced", p.Pos(f.Pos()), n, "no stack of open tags found")
			continue
		}
		w.x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if !x.refusal(s, ret) {
				w.accept(s, ret, "accept-balanced", true)
			}
		}
		w.run(f)
		r.Count("validator_entry_points", 1)
		if !w.bad {
			r.OK("accept-balanced", p.Pos(f.Pos()), fmt.Sprintf("%s: %d accepting returns, stack empty and end reached on each", n, w.accepts))
			r.OK("pop-after-match", p.Pos(f.Pos()), fmt.Sprintf("%s: %d pops, %d name comparisons", n, len(w.pops), len(w.matches)))
			r.OK("every-tag-accounted", p.Pos(f.Pos()), fmt.Sprintf("%s: %d character tests in %d states", n, len(w.tests), w.x.Nodes))
		}
	}
	r.Min("validator_entry_points", 4)
	r.Min("stack_pops", 4)
	r.Min("stack_pushes", 4)
	r.Min("name_comparisons", 4)
	r.Min("accepting_returns", 4)
}

func checkC10(p *Program, r *Report) {
	r.Rule("pop-after-match", "in the fragment check an open tag may be taken off the stack only while a closing tag is read and after the innermost open name was found equal to its name")
	r.Rule("every-tag-accounted", "before another tag is classified or the fragment accepted, a closing tag must have popped the stack, an opening tag must have been pushed unless '/' and '>' were seen, and a '<!' construct other than a comment or CDATA must have been tested for DOCTYPE and ENTITY in any letter case")
	r.Rule("accept-balanced", "SetRaw may succeed only where the stack of the fragment's open tags was just found empty and the end of the fragment was reached")
	r.Rule("same-text", "the text SetRaw inserts must be the very text that was scanned")
	r.Explanation = "Typestate over every path of SetRaw with the fragment check inlined (the modification and validation entry points it calls are opaque): per path it keeps which kind of tag is being read, whether the innermost name matched, whether the stack is known empty and which keywords were excluded. Not covered: whether names and quoted values are delimited exactly as the validator does."
	f := p.Func("SetRaw")
	if f == nil {
		r.Bad("accept-balanced", "-", "SetRaw", "entry point not found")
		return
	}
	fam := p.modFamily()
	var except []*ssa.Function
	for _, g := range p.entries {
		if g != f && (isModEntry(fam, g) || isValidatorCall(p, g)) {
			except = append(except, g)
		}
	}
	w := newTagWalk(p, r, f, 2, except...)
	w.bang = true
	if w.stackT == nil {
		r.Bad("accept-balanced", p.Pos(f.Pos()), f.Name(), "no stack of open tags found")
		return
	}
	ins := map[ssa.Instruction]bool{}
	w.x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, callee *ssa.Function) bool {
		return !isValidatorCall(p, callee) && !isModEntry(fam, callee)
	}
	w.x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
		if c, ok := in.(*ssa.Call); ok && isModEntry(fam, c.Common().StaticCallee()) {
			ins[in] = true
			good := false
			for _, a := range c.Common().Args {
				b := x.resolve(s, AV{fr: s.fr, v: a})
				if mi, ok := b.v.(*ssa.MakeInterface); ok {
					b = AV{fr: b.fr, v: mi.X}
				}
				b = x.content(s, b)
				for _, o := range w.bases {
					if o == b {
						good = true
					}
				}
			}
			if !good && len(w.bases) > 0 {
				w.report("same-text", p.At(in), s.fr.fn, "the inserted text is not the text that was scanned", s)
			}
		}
		return w.instr(x, s, in)
	}
	w.x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
		if !x.refusal(s, ret) {
			w.accept(s, ret, "accept-balanced", false)
		}
	}
	w.run(f)
	r.Count("insertions", len(ins))
	if !w.bad {
		r.OK("accept-balanced", p.Pos(f.Pos()), fmt.Sprintf("SetRaw: %d accepting returns", w.accepts))
		r.OK("pop-after-match", p.Pos(f.Pos()), fmt.Sprintf("%d pops, %d name comparisons", len(w.pops), len(w.matches)))
		r.OK("every-tag-accounted", p.Pos(f.Pos()), fmt.Sprintf("%d character tests in %d states", len(w.tests), w.x.Nodes))
		r.OK("same-text", p.Pos(f.Pos()), "scanned and inserted text are the same parameter")
	}
	r.Min("insertions", 1)
	r.Min("stack_pops", 1)
	r.Min("stack_pushes", 1)
	r.Min("name_comparisons", 1)
	r.Min("accepting_returns", 1)
}

func init() {
	checks["C10"] = checkC10
	checks["C18"] = checkC18
}
