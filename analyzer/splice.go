package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: an edit copies what stands before and after the edited place, once, in
// place and to the end.

func init() { checks["C20"] = checkC20 }

// splicer knows the parts edits are made of. Places in a document are named
// kind|element|origin: where the tag of the element starts (S), where its content
// starts (C) and ends (D), and where the element ends (E), counted from origin, ""
// being the start of the document.
type splicer struct {
	p        *Program
	r        *Report
	builder  *types.Named
	out, doc int // fields of the builder
	parser   *types.Named
	pos      int // field of the parser
	place    *types.Named
	make     map[*ssa.Function]bool
	skip     map[*ssa.Function]bool
	name     map[*ssa.Function]bool
	content  map[*ssa.Function]bool
	moves    map[*ssa.Function]bool
	locator  map[*ssa.Function]int   // the argument that says where the text of the parser starts, -1 if none
	kinds    map[int]map[string]bool // what the fields of a place hold
	roles    map[int]string
	selfs    map[int]bool // fields that say whether the element is empty
	syms     map[string]*Sym
	states   map[string]ostate
	use      map[*ssa.Function]int
	reported map[string]bool
	failed   map[ssa.Instruction]bool
	copies   map[ssa.Instruction]bool
	returns  map[ssa.Instruction]bool
	searches map[ssa.Instruction]bool
	quiet    bool
}

// ostate is what is known of the output and of the parsers at a point.
type ostate struct {
	shape string // "" nothing, "new" new text only, "pre" up to x, "all", "done", "bad"
	x     string
	mid   bool   // new text stands behind x
	phase string // parser=kind;...
	self  string // element=1/0;...
	objs  string // object.field=place;...
	empty bool   // the document is empty
}

func (o ostate) key() string {
	return fmt.Sprintf("%s %s %v %s %s %s %v", o.shape, o.x, o.mid, o.phase, o.self, o.objs, o.empty)
}

func kvGet(s, k string) string {
	for _, e := range strings.Split(s, ";") {
		if i := strings.IndexByte(e, '='); i >= 0 && e[:i] == k {
			return e[i+1:]
		}
	}
	return ""
}

func kvSet(s, k, v string) string {
	var out []string
	for _, e := range strings.Split(s, ";") {
		if i := strings.IndexByte(e, '='); i >= 0 && e[:i] != k {
			out = append(out, e)
		}
	}
	if v != "" {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func (c *splicer) get(s *State) ostate { return c.states[s.Ext] }

func (c *splicer) put(s *State, o ostate) {
	k := o.key()
	c.states[k] = o
	s.Ext = k
}

func (c *splicer) sym(name string, t types.Type) *Sym {
	y, ok := c.syms[name]
	if !ok {
		y = &Sym{name: name, typ: t}
		c.syms[name] = y
	}
	return y
}

func isTextBuffer(t types.Type) bool {
	return isNamed(t, "strings", "Builder") || isNamed(t, "bytes", "Buffer")
}

func (p *Program) newSplicer(r *Report) *splicer {
	c := &splicer{p: p, r: r, out: -1, doc: -1, pos: -1, make: map[*ssa.Function]bool{}, skip: map[*ssa.Function]bool{}, name: map[*ssa.Function]bool{}, content: map[*ssa.Function]bool{}, moves: map[*ssa.Function]bool{}, locator: map[*ssa.Function]int{}, kinds: map[int]map[string]bool{}, roles: map[int]string{}, selfs: map[int]bool{}, syms: map[string]*Sym{}, states: map[string]ostate{}, use: map[*ssa.Function]int{}, reported: map[string]bool{}, failed: map[ssa.Instruction]bool{}, copies: map[ssa.Instruction]bool{}, returns: map[ssa.Instruction]bool{}, searches: map[ssa.Instruction]bool{}}
	c.put(&State{}, ostate{})
	c.states[""] = ostate{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Recv() == nil || f.Parent() != nil {
			continue
		}
		named, ok := deref(sig.Recv().Type()).(*types.Named)
		if !ok || named.Obj().Exported() {
			continue
		}
		// the parser: a method reads a name with attributes
		if sig.Params().Len() == 0 && sig.Results().Len() == 3 && isString(sig.Results().At(0).Type()) && isBool(sig.Results().At(2).Type()) {
			if m, ok := sig.Results().At(1).Type().Underlying().(*types.Map); ok && isString(m.Key()) {
				c.parser = named
				c.name[f] = true
			}
		}
		// the builder: a document and an output
		if st, ok := named.Underlying().(*types.Struct); ok {
			out, doc := -1, -1
			for i := 0; i < st.NumFields(); i++ {
				if isTextBuffer(st.Field(i).Type()) {
					out = i
				}
				if isByteSlice(st.Field(i).Type()) && doc < 0 {
					doc = i
				}
			}
			if out >= 0 && doc >= 0 {
				c.builder, c.out, c.doc = named, out, doc
			}
		}
	}
	if c.builder == nil || c.parser == nil {
		return nil
	}
	// the position: what the parser looks at its text with
	count := map[int]int{}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if u, ok := ia.Index.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), c.parser) {
					count[fa.Field]++
				}
			}
		})
	}
	for i, n := range count {
		if c.pos < 0 || n > count[c.pos] {
			c.pos = i
		}
	}
	if c.pos < 0 {
		return nil
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && c.isPos(st.Addr) {
				c.moves[f] = true
			}
		})
	}
	for more := true; more; {
		more = false
		for _, f := range p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				if call, ok := in.(*ssa.Call); ok && !c.moves[f] && call.Call.StaticCallee() != nil && c.moves[call.Call.StaticCallee()] && c.ofParser(call) {
					c.moves[f], more = true, true
				}
			})
		}
	}
	for _, f := range p.Funcs {
		sig := f.Signature
		if f.Parent() != nil || sig.Results().Len() != 1 || sig.Params().Len() > 1 {
			continue
		}
		res := sig.Results().At(0).Type()
		if sig.Recv() == nil {
			if sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && types.Identical(deref(res), c.parser) {
				c.make[f] = true
			}
			continue
		}
		if !types.Identical(deref(sig.Recv().Type()), c.parser) || !c.moves[f] {
			continue
		}
		if sig.Params().Len() == 0 && isBool(res) {
			c.skip[f] = true
		}
		if sig.Params().Len() == 1 && isString(sig.Params().At(0).Type()) && isString(res) {
			c.content[f] = true
		}
	}
	// places: what searches with a parser answer
	for _, f := range p.Funcs {
		if t := c.placeOf(f); t != nil && c.uses(f)&1 != 0 {
			c.place = t
		}
	}
	if c.place != nil {
		for _, f := range p.Funcs {
			if c.placeOf(f) == c.place && c.uses(f)&1 != 0 {
				c.locator[f] = -1
			}
		}
	}
	return c
}

// placeOf is the struct of positions a function answers first.
func (c *splicer) placeOf(f *ssa.Function) *types.Named {
	if f.Parent() != nil || f.Signature.Results().Len() == 0 {
		return nil
	}
	named, ok := deref(f.Signature.Results().At(0).Type()).(*types.Named)
	if !ok || named.Obj().Exported() || named == c.parser || named == c.builder {
		return nil
	}
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if isInteger(st.Field(i).Type()) {
			n++
		}
	}
	if n < 2 {
		return nil
	}
	return named
}

func (c *splicer) isPos(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	return ok && fa.Field == c.pos && types.Identical(deref(fa.X.Type()), c.parser)
}

func (c *splicer) ofParser(call *ssa.Call) bool {
	return len(call.Call.Args) > 0 && types.Identical(deref(call.Call.Args[0].Type()), c.parser)
}

// uses: a function searches with a parser (1), writes to a buffer (2), reads tags (4).
func (c *splicer) uses(f *ssa.Function) int {
	if n, ok := c.use[f]; ok {
		return n
	}
	c.use[f] = 0
	n := 0
	instrs(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if _, _, op, isW := writeOf(call); isW && op != "take" {
			n |= 2
		}
		if g := call.Call.StaticCallee(); g != nil && c.p.InLib(g) {
			switch {
			case c.skip[g]:
				n |= 1 | 4
			case c.name[g], c.content[g], c.make[g]:
				n |= 4
			default:
				n |= c.uses(g)
			}
		}
	})
	c.use[f] = n
	return n
}

// writeOf: the buffer a call writes to and what it writes.
func writeOf(call *ssa.Call) (buf, what ssa.Value, op string, ok bool) {
	a := call.Call.Args
	if call.Call.IsInvoke() || len(a) == 0 {
		return nil, nil, "", false
	}
	name := calleeName(&call.Call)
	if isTextBuffer(deref(a[0].Type())) && call.Call.Signature().Recv() != nil {
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "WriteString", "Write", "WriteByte", "WriteRune":
			return a[0], a[1], "write", true
		case "Reset":
			return a[0], nil, "reset", true
		case "String", "Bytes":
			return a[0], nil, "take", true
		case "Len", "Grow", "Cap", "Available":
			return nil, nil, "", false
		}
		return a[0], nil, "other", true
	}
	if mi, isM := a[0].(*ssa.MakeInterface); isM && isTextBuffer(deref(mi.X.Type())) {
		switch name {
		case "io.WriteString":
			return mi.X, a[1], "write", true
		case "fmt.Fprintf", "fmt.Fprint":
			return mi.X, nil, "print", true
		}
		return mi.X, nil, "other", true
	}
	return nil, nil, "", false
}

func (c *splicer) isDoc(x *Explorer, s *State, a AV) bool {
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Convert:
		return c.isDoc(x, s, AV{fr: a.fr, v: v.X})
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			return fa.Field == c.doc && types.Identical(deref(fa.X.Type()), c.builder)
		}
	}
	return false
}

// span is a part of a text: from lo to hi of the document, or something else.
type span struct {
	doc    bool
	lo, hi string // "" the start or end of the document
	empty  bool
}

// spans cuts a text into parts.
func (c *splicer) spans(x *Explorer, s *State, a AV, d int) []span {
	a = x.resolve(s, a)
	if c.isDoc(x, s, a) {
		return []span{{doc: true}}
	}
	if d > 12 {
		return []span{{}}
	}
	switch v := a.v.(type) {
	case *ssa.Const:
		if t, ok := constString(v); ok && t == "" {
			return []span{{empty: true}}
		}
	case *ssa.Convert:
		return c.spans(x, s, AV{fr: a.fr, v: v.X}, d+1)
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return append(c.spans(x, s, AV{fr: a.fr, v: v.X}, d+1), c.spans(x, s, AV{fr: a.fr, v: v.Y}, d+1)...)
		}
	case *ssa.Slice:
		if !c.isDoc(x, s, AV{fr: a.fr, v: v.X}) {
			break
		}
		at := func(v ssa.Value, edge string) string {
			if v == nil {
				return ""
			}
			w := c.placeIn(x, s, AV{fr: a.fr, v: v}, 0)
			switch w {
			case edge:
				return ""
			case "":
				return "?"
			}
			return w
		}
		return []span{{doc: true, lo: at(v.Low, "0"), hi: at(v.High, "end")}}
	}
	return []span{{}}
}

// placeIn names the place a number stands for, "" if it is none.
func (c *splicer) placeIn(x *Explorer, s *State, a AV, d int) string {
	a = x.resolve(s, a)
	if d > 8 {
		return ""
	}
	switch v := a.v.(type) {
	case *Sym:
		if strings.Count(v.name, "|") == 2 && posOrder[v.name[:1]] > 0 && v.name[1] == '|' {
			return v.name
		}
	case *ssa.Const:
		if n, ok := constInt(v); ok && n == 0 {
			return "0"
		}
	case *ssa.Parameter:
		if a.fr != nil && a.fr.up == nil && isInteger(v.Type()) {
			return fmt.Sprintf("arg%d", paramIndex(v))
		}
	case *ssa.Call:
		if isBuiltin(v, "len") && c.isDoc(x, s, AV{fr: a.fr, v: v.Call.Args[0]}) {
			return "end"
		}
	case *ssa.BinOp:
		if v.Op != token.ADD {
			return ""
		}
		for _, e := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			at := c.placeIn(x, s, AV{fr: a.fr, v: e[0]}, d+1)
			f := strings.Split(at, "|")
			if len(f) != 3 {
				continue
			}
			by := x.resolve(s, AV{fr: a.fr, v: e[1]})
			if call, ok := by.v.(*ssa.Call); ok && isBuiltin(call, "len") && f[0] == "C" {
				t := x.resolve(s, AV{fr: by.fr, v: call.Call.Args[0]})
				if y, ok := t.v.(*Sym); ok && y.name == "content|"+f[1] {
					return "D|" + f[1] + "|" + f[2]
				}
				if k, ok := constString(t.v); ok && k == "" {
					return at
				}
			}
			from := c.placeIn(x, s, by, d+1)
			switch {
			case from == "":
			case from == "0":
				return at
			case f[2] == "":
			case f[2] == "base" && strings.HasPrefix(from, "arg"):
				i := 0
				fmt.Sscanf(from, "arg%d", &i)
				if old := c.locator[x.root.fn]; old >= 0 && old != i {
					return ""
				}
				c.locator[x.root.fn] = i
				return f[0] + "|" + f[1] + "|"
			case strings.ReplaceAll(from, "|", "!") == f[2]:
				return f[0] + "|" + f[1] + "|"
			}
		}
	}
	return ""
}

var posOrder = map[string]int{"S": 1, "C": 2, "D": 3, "E": 4}

// originOf is where in the document the text of a parser starts: "" at its start,
// "?" if that is not known.
func (c *splicer) originOf(x *Explorer, s *State, a AV) string {
	a = x.resolve(s, a)
	switch v := a.v.(type) {
	case *ssa.Parameter:
		if a.fr != nil && a.fr.up == nil {
			return "base"
		}
	case *Sym:
		if strings.HasPrefix(v.name, "parser|") {
			return v.name[strings.LastIndexByte(v.name, '|')+1:]
		}
	}
	return "?"
}

func (c *splicer) textOrigin(x *Explorer, s *State, a AV) string {
	a = x.resolve(s, a)
	if c.isDoc(x, s, a) {
		return ""
	}
	switch v := a.v.(type) {
	case *ssa.Convert:
		return c.textOrigin(x, s, AV{fr: a.fr, v: v.X})
	case *ssa.Const:
		if t, ok := constString(v); (ok && t == "") || v.Value == nil {
			return "none"
		}
	case *Sym:
		if strings.HasPrefix(v.name, "content|") {
			return "C!" + v.name[len("content|"):] + "!"
		}
	case *ssa.Slice:
		if c.isDoc(x, s, AV{fr: a.fr, v: v.X}) {
			if v.Low == nil {
				return ""
			}
			switch at := c.placeIn(x, s, AV{fr: a.fr, v: v.Low}, 0); {
			case at == "0":
				return ""
			case strings.HasPrefix(at, "arg"), strings.HasSuffix(at, "|"):
				return strings.ReplaceAll(at, "|", "!")
			}
		}
	}
	return "?"
}

// elementOf names the element a parser is at.
func (c *splicer) elementOf(x *Explorer, s *State, v ssa.Value) string {
	a := x.resolve(s, AV{fr: s.fr, v: v})
	if y, ok := a.v.(*Sym); ok && strings.HasPrefix(y.name, "parser|") {
		return strings.Split(y.name, "|")[1]
	}
	id := -1
	if a.fr != nil {
		id = a.fr.id
	}
	return fmt.Sprintf("p%d.%s", id, a.v.Name())
}

// age renames what is known of an element: the name is about to stand for another.
func (c *splicer) age(s *State, el, to string) {
	re := func(n string) string {
		for _, sep := range []string{"|", "!"} {
			f := strings.Split(n, sep)
			for i := range f {
				if f[i] == el {
					f[i] = to
				}
			}
			n = strings.Join(f, sep)
		}
		return n
	}
	for k, a := range s.facts {
		y, ok := a.v.(*Sym)
		if !ok || c.syms[y.name] != y {
			continue
		}
		if strings.HasPrefix(y.name, "parser|"+el+"|") && !strings.HasSuffix(to, "'") {
			continue
		}
		if n := re(y.name); n != y.name {
			s.facts[k] = AV{v: c.sym(n, y.typ)}
		}
	}
	o := c.get(s)
	o.x = re(o.x)
	for _, e := range strings.Split(o.objs, ";") {
		if i := strings.IndexByte(e, '='); i >= 0 {
			o.objs = kvSet(o.objs, e[:i], re(e[i+1:]))
		}
	}
	c.put(s, o)
}

func (c *splicer) bad(in ssa.Instruction, rule, text string, x *Explorer, s *State) {
	k := rule + c.p.At(in) + text
	if !c.reported[k] && !c.quiet {
		c.reported[k] = true
		c.failed[in] = true
		c.r.Bad(rule, c.p.At(in), in.Parent().String(), text, x.Trace(s)...)
	}
}

// emit: a part is written to the output.
func (c *splicer) emit(x *Explorer, s *State, in ssa.Instruction, w span) {
	o := c.get(s)
	if o.shape == "bad" || w.empty {
		return
	}
	fail := func(text string) {
		c.bad(in, "copied-once", text, x, s)
		o.shape = "bad"
	}
	if w.doc {
		c.copies[in] = true
	}
	switch {
	case !w.doc:
		switch o.shape {
		case "":
			o.shape = "new"
		case "done":
			fail("text is written behind the rest of the document")
		}
		o.mid = true
	case w.lo == "" && w.hi == "":
		switch o.shape {
		case "", "new":
			o.shape = "all"
		default:
			fail("the document is copied a second time")
		}
	case w.lo == "":
		switch {
		case o.shape != "":
			fail("the start of the document is copied after other text")
		case !strings.HasSuffix(w.hi, "|"):
			fail("the text before the edit is cut off at a place that is not where a tag of the document starts or ends")
		default:
			o.shape, o.x, o.mid = "pre", w.hi, false
		}
	case w.lo == "end" && w.hi == "":
		if o.shape == "pre" || o.shape == "" || o.shape == "new" {
			fail("the rest of the document is left out")
		}
	case w.hi == "":
		f, t := strings.Split(o.x, "|"), strings.Split(w.lo, "|")
		switch {
		case o.shape != "pre":
			fail("the rest of the document is copied without its start, or twice")
		case len(t) != 3 || t[2] != "":
			fail("the text after the edit starts at a place that is not where a tag of the document starts or ends")
		case o.x == w.lo:
			o.shape = "done"
		case f[1] != t[1]:
			fail("the text before the edit ends at one element and the text after it starts at another")
		case posOrder[f[0]] > posOrder[t[0]]:
			fail("the text after the edit starts before the text before it ends: a part of the document is repeated")
		case kvGet(o.self, f[1]) != "1" && !(f[0] == "S" && t[0] == "C" || f[0] == "S" && t[0] == "E" || f[0] == "C" && t[0] == "D"):
			fail("what is left out between the two parts is neither the element, nor its content, nor its start tag: a tag or content that stays is lost")
		default:
			o.shape = "done"
		}
	case w.lo == o.x && o.shape == "pre" && !o.mid && strings.HasSuffix(w.hi, "|"):
		// the start of the document in two parts
		o.x = w.hi
	default:
		if o.shape == "done" {
			fail("text is written behind the rest of the document")
		} else if o.shape == "" {
			o.shape = "new"
		}
	}
	c.put(s, o)
}

func (c *splicer) explorer() *Explorer {
	x := newExplorer(c.p)
	x.TrackInt, x.Mem = true, true
	x.MaxNodes = 600000
	x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, g *ssa.Function) bool {
		if _, loc := c.locator[g]; loc || c.skip[g] || c.name[g] || c.content[g] || c.make[g] {
			return false
		}
		if g.Signature.Recv() != nil && types.Identical(deref(g.Signature.Recv().Type()), c.builder) || c.uses(g) != 0 {
			return true
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			t := g.Signature.Results().At(i).Type()
			if isInteger(t) || isString(t) || isByteSlice(t) || types.Identical(deref(t), c.place) {
				for _, q := range g.Params {
					if isInteger(q.Type()) || isByteSlice(q.Type()) || types.Identical(deref(q.Type()), c.place) {
						return true
					}
				}
			}
		}
		return false
	}
	x.Edge = func(x *Explorer, s *State, iff *ssa.If, taken bool) bool {
		a := x.resolve(s, AV{fr: s.fr, v: iff.Cond})
		for {
			u, ok := a.v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			a, taken = x.resolve(s, AV{fr: a.fr, v: u.X}), !taken
		}
		o := c.get(s)
		switch v := a.v.(type) {
		case *Sym:
			if strings.HasPrefix(v.name, "self|") {
				val := "0"
				if taken {
					val = "1"
				}
				el := v.name[len("self|"):]
				if old := kvGet(o.self, el); old != "" && old != val {
					return false
				}
				o.self = kvSet(o.self, el, val)
				c.put(s, o)
			}
		case *ssa.BinOp:
			n, ok := constInt(v.Y)
			call, isCall := x.resolve(s, AV{fr: a.fr, v: v.X}).v.(*ssa.Call)
			if ok && isCall && isBuiltin(call, "len") && c.isDoc(x, s, AV{fr: a.fr, v: call.Call.Args[0]}) {
				is, known := false, false
				switch {
				case n == 0 && v.Op == token.EQL, n == 0 && v.Op == token.LEQ, n == 1 && v.Op == token.LSS:
					is, known = taken, true
				case n == 0 && v.Op == token.NEQ, n == 0 && v.Op == token.GTR, n == 1 && v.Op == token.GEQ:
					is, known = !taken, true
				}
				if known {
					o.empty = is
					c.put(s, o)
				}
			}
		}
		return true
	}
	x.Instr = c.instr
	x.AnyRet = func(x *Explorer, s *State, ret *ssa.Return) bool {
		// what its parsers were at no longer matters
		o := c.get(s)
		pre := fmt.Sprintf("p%d.", s.fr.id)
		for _, e := range strings.Split(o.phase, ";") {
			if strings.HasPrefix(e, pre) {
				o.phase = kvSet(o.phase, e[:strings.IndexByte(e, '=')], "")
			}
		}
		c.put(s, o)
		return true
	}
	return x
}

func (c *splicer) bind(s *State, v ssa.Value, idx int, name string, t types.Type) {
	s.facts[fkey{s.fr, v, idx}] = AV{v: c.sym(name, t)}
}

func (c *splicer) instr(x *Explorer, s *State, in ssa.Instruction) bool {
	o := c.get(s)
	switch v := in.(type) {
	case *ssa.Store:
		if c.place != nil && types.Identical(v.Val.Type(), c.place) {
			// a place is copied
			if obj := c.object(x, s, v.Addr); obj != "" {
				o.objs = c.forget(o.objs, obj)
				if y, ok := x.resolve(s, AV{fr: s.fr, v: v.Val}).v.(*Sym); ok && strings.HasPrefix(y.name, "place|") {
					o.objs = kvSet(o.objs, obj+".*", y.name)
				}
				c.put(s, o)
			}
			return true
		}
		fa, ok := v.Addr.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		switch {
		case c.isPos(fa):
			o.phase = kvSet(o.phase, c.elementOf(x, s, fa.X), "")
			c.put(s, o)
		case types.Identical(deref(fa.X.Type()), c.builder) && fa.Field == c.doc:
			if _, fresh := x.resolve(s, AV{fr: s.fr, v: fa.X}).v.(*ssa.Alloc); fresh {
				return true
			}
			if !c.fromOutput(x, s, AV{fr: s.fr, v: v.Val}, 0) || !c.complete(o) {
				c.bad(in, "copied-once", "the document is replaced by a text that is not the complete output", x, s)
			}
			// places found so far are places of another document
			for k, a := range s.facts {
				if y, ok := a.v.(*Sym); ok && c.syms[y.name] == y {
					delete(s.facts, k)
				}
			}
			o.phase, o.empty = "", false
			c.put(s, o)
		case c.place != nil && types.Identical(deref(fa.X.Type()), c.place) && isBool(v.Val.Type()):
			if obj := c.object(x, s, fa.X); obj != "" {
				at := "?"
				a := x.resolve(s, AV{fr: s.fr, v: v.Val})
				if y, ok := a.v.(*Sym); ok && strings.HasPrefix(y.name, "self|") {
					at = y.name
				} else if b := x.evalBoolAV(s, a, 0); b != 0 {
					at = map[int]string{1: "true", -1: "false"}[b]
				}
				o.objs = kvSet(o.objs, fmt.Sprintf("%s.%d", obj, fa.Field), at)
				c.put(s, o)
			}
		case c.place != nil && types.Identical(deref(fa.X.Type()), c.place) && isInteger(v.Val.Type()):
			if obj := c.object(x, s, fa.X); obj != "" {
				at := c.placeIn(x, s, AV{fr: s.fr, v: v.Val}, 0)
				if strings.Count(at, "|") != 2 {
					at = "?"
				}
				o.objs = kvSet(o.objs, fmt.Sprintf("%s.%d", obj, fa.Field), at)
				c.put(s, o)
			}
		}
	case *ssa.Alloc:
		if c.place != nil && types.Identical(deref(v.Type()), c.place) {
			o.objs = c.forget(o.objs, fmt.Sprintf("a%d.%s", s.fr.id, v.Name()))
			c.put(s, o)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return true
		}
		if y, ok := x.resolve(s, AV{fr: s.fr, v: v.X}).v.(*Sym); ok && strings.HasPrefix(y.name, "place|") {
			c.bind(s, v, 0, y.name, v.Type())
			return true
		}
		fa, ok := v.X.(*ssa.FieldAddr)
		if !ok {
			return true
		}
		if c.isPos(fa) {
			el := c.elementOf(x, s, fa.X)
			if k := kvGet(o.phase, el); k != "" {
				if origin := c.originOf(x, s, AV{fr: s.fr, v: fa.X}); origin != "?" {
					c.bind(s, v, 0, k+"|"+el+"|"+origin, v.Type())
				}
			}
			return true
		}
		c.field(x, s, v, fa.X, fa.Field)
	case *ssa.Field:
		c.field(x, s, v, v.X, v.Field)
	case *ssa.BinOp:
		if v.Op == token.ADD && isInteger(v.Type()) {
			if at := c.placeIn(x, s, AV{fr: s.fr, v: v}, 0); strings.Count(at, "|") == 2 {
				c.bind(s, v, 0, at, v.Type())
			}
		}
	case *ssa.Call:
		c.called(x, s, v)
	}
	return true
}

// field: a field of a place is read.
func (c *splicer) field(x *Explorer, s *State, v ssa.Value, from ssa.Value, i int) {
	if c.place == nil || !types.Identical(deref(from.Type()), c.place) {
		return
	}
	if obj := c.object(x, s, from); obj != "" {
		o := c.get(s)
		if at := kvGet(o.objs, fmt.Sprintf("%s.%d", obj, i)); at != "" {
			switch at {
			case "?":
			case "true", "false":
				s.facts[fkey{s.fr, v, 0}] = boolAV(at == "true")
			default:
				c.bind(s, v, 0, at, v.Type())
			}
			return
		}
		if at := kvGet(o.objs, obj+".*"); at != "" && c.selfs[i] {
			c.bind(s, v, 0, "self|"+at[len("place|"):], v.Type())
		} else if at != "" && c.roles[i] != "" {
			c.bind(s, v, 0, c.roles[i]+"|"+at[len("place|"):]+"|", v.Type())
		}
		return
	}
	y, ok := x.resolve(s, AV{fr: s.fr, v: from}).v.(*Sym)
	if ok && strings.HasPrefix(y.name, "place|") && c.selfs[i] {
		c.bind(s, v, 0, "self|"+y.name[len("place|"):], v.Type())
	} else if ok && strings.HasPrefix(y.name, "place|") && c.roles[i] != "" {
		c.bind(s, v, 0, c.roles[i]+"|"+y.name[len("place|"):]+"|", v.Type())
	}
}

// object names the place made here that a pointer points to.
func (c *splicer) object(x *Explorer, s *State, v ssa.Value) string {
	a := x.resolve(s, AV{fr: s.fr, v: v})
	if al, ok := a.v.(*ssa.Alloc); ok && a.fr != nil && types.Identical(deref(al.Type()), c.place) {
		return fmt.Sprintf("a%d.%s", a.fr.id, al.Name())
	}
	return ""
}

func (c *splicer) forget(objs, obj string) string {
	for _, e := range strings.Split(objs, ";") {
		if strings.HasPrefix(e, obj+".") {
			objs = kvSet(objs, e[:strings.IndexByte(e, '=')], "")
		}
	}
	return objs
}

// answered: a search answers a place made in it.
func (c *splicer) answered(x *Explorer, s *State, ret *ssa.Return) {
	if len(ret.Results) == 0 {
		return
	}
	obj := c.object(x, s, ret.Results[0])
	if obj == "" {
		return
	}
	o := c.get(s)
	st := c.place.Underlying().(*types.Struct)
	el := ""
	for i := 0; i < st.NumFields(); i++ {
		if f := strings.Split(kvGet(o.objs, fmt.Sprintf("%s.%d", obj, i)), "|"); len(f) == 3 {
			el = f[1]
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		at := kvGet(o.objs, fmt.Sprintf("%s.%d", obj, i))
		if at == "" && isBool(st.Field(i).Type()) {
			at = "false"
		}
		if at == "" {
			continue
		}
		if isBool(st.Field(i).Type()) {
			if c.kinds[i] == nil {
				c.kinds[i] = map[string]bool{}
			}
			known := kvGet(o.self, el)
			c.kinds[i][map[bool]string{true: "self", false: "?"}[at == "self|"+el || at == "true" && known == "1" || at == "false" && known == "0"]] = true
			continue
		}
		f := strings.Split(at, "|")
		k := "?"
		if len(f) == 3 && f[2] == "" {
			k = f[0]
			if kvGet(o.self, f[1]) == "1" && k != "S" {
				k = "end"
			}
		}
		if c.kinds[i] == nil {
			c.kinds[i] = map[string]bool{}
		}
		c.kinds[i][k] = true
	}
}

// fromOutput: the text is what was built, or the document.
func (c *splicer) fromOutput(x *Explorer, s *State, a AV, d int) bool {
	a = x.resolve(s, a)
	if c.isDoc(x, s, a) {
		return true
	}
	switch v := a.v.(type) {
	case *Sym:
		return v.name == "output"
	case *ssa.Convert:
		return d < 8 && c.fromOutput(x, s, AV{fr: a.fr, v: v.X}, d+1)
	case *ssa.Call:
		if buf, _, op, ok := writeOf(v); ok && op == "take" {
			return c.isOut(x, s, AV{fr: a.fr, v: buf})
		}
	}
	return false
}

func (c *splicer) isOut(x *Explorer, s *State, a AV) bool {
	fa, ok := x.resolve(s, a).v.(*ssa.FieldAddr)
	return ok && fa.Field == c.out && types.Identical(deref(fa.X.Type()), c.builder)
}

func (c *splicer) complete(o ostate) bool {
	switch o.shape {
	case "", "all", "done", "bad":
		return true
	case "new":
		return o.empty
	}
	return false
}

func (c *splicer) called(x *Explorer, s *State, call *ssa.Call) {
	o := c.get(s)
	if g := call.Call.StaticCallee(); g != nil && c.p.InLib(g) {
		base, loc := c.locator[g]
		switch {
		case c.make[g]:
			origin := c.textOrigin(x, s, AV{fr: s.fr, v: call.Call.Args[0]})
			el := fmt.Sprintf("p%d.%s", s.fr.id, call.Name())
			c.age(s, el, el+"'")
			f := strings.Split(origin, "!")
			if len(f) > 1 && f[1] == el {
				f[1] = el + "'"
				origin = strings.Join(f, "!")
			}
			o = c.get(s)
			o.phase, o.self = kvSet(o.phase, el, ""), kvSet(o.self, el, "")
			c.put(s, o)
			c.bind(s, call, 0, "parser|"+el+"|"+origin, call.Type())
			return
		case c.skip[g]:
			el := c.elementOf(x, s, call.Call.Args[0])
			c.age(s, el, el+"~")
			o = c.get(s)
			o.phase, o.self = kvSet(o.phase, el, "S"), kvSet(o.self, el, "")
			c.put(s, o)
			if c.originOf(x, s, AV{fr: s.fr, v: call.Call.Args[0]}) == "none" {
				// nothing is found in no text
				s.facts[fkey{s.fr, call, 0}] = boolAV(false)
			}
			return
		case c.name[g]:
			el := c.elementOf(x, s, call.Call.Args[0])
			o.phase, o.self = kvSet(o.phase, el, "C"), kvSet(o.self, el, "")
			c.put(s, o)
			c.bind(s, call, 3, "self|"+el, types.Typ[types.Bool])
			return
		case c.content[g]:
			el := c.elementOf(x, s, call.Call.Args[0])
			next := ""
			if kvGet(o.phase, el) == "C" {
				c.bind(s, call, 0, "content|"+el, call.Type())
				next = "E"
			}
			o.phase = kvSet(o.phase, el, next)
			c.put(s, o)
			return
		case loc:
			c.searches[call] = true
			for _, a := range call.Call.Args {
				if !types.Identical(deref(a.Type()), c.parser) {
					continue
				}
				origin := c.originOf(x, s, AV{fr: s.fr, v: a})
				from := ""
				if base >= 0 {
					from = c.placeIn(x, s, AV{fr: s.fr, v: call.Call.Args[base]}, 0)
				} else {
					from = "0"
				}
				if from == "0" {
					from = ""
				} else if from == "" {
					from = "??"
				}
				if origin != "none" && strings.ReplaceAll(from, "|", "!") != origin && !(origin == "base" && from == fmt.Sprintf("arg%d", base)) {
					c.bad(call, "counted-from-start", "the search is told that the text it looks at starts at another place of the document than it does: the places it finds are off", x, s)
				}
			}
			el := fmt.Sprintf("L%d.%s", s.fr.id, call.Name())
			c.age(s, el, el+"'")
			o = c.get(s)
			o.self = kvSet(kvSet(o.self, el+"'", kvGet(o.self, el)), el, "")
			c.put(s, o)
			idx := 0
			if g.Signature.Results().Len() > 1 {
				idx = 1
			}
			c.bind(s, call, idx, "place|"+el, g.Signature.Results().At(0).Type())
			return
		case c.moves[g] && c.ofParser(call) && c.uses(g)&4 == 0:
			o.phase = kvSet(o.phase, c.elementOf(x, s, call.Call.Args[0]), "")
			c.put(s, o)
			return
		}
	}
	buf, what, op, ok := writeOf(call)
	if !ok || !c.isOut(x, s, AV{fr: s.fr, v: buf}) {
		return
	}
	switch op {
	case "reset":
		o.shape, o.x, o.mid = "", "", false
		c.put(s, o)
	case "write":
		for _, w := range c.spans(x, s, AV{fr: s.fr, v: what}, 0) {
			c.emit(x, s, call, w)
		}
	case "print":
		c.emit(x, s, call, span{})
	case "other":
		c.bad(call, "copied-once", "the output is changed in a way that cannot be followed", x, s)
	}
}

func checkC20(p *Program, r *Report) {
	r.Rule("copied-once", "on every path of an edit that ends without an error, the output is untouched, or the whole document, or: the document up to a place, new text, and the document from a place of the same element that is not before the first, to its end. Places are where the parser stood before or behind a tag, counted from the start of the document")
	r.Rule("counted-from-start", "every search inside a part of the document is told where that part starts, and every place it answers has that added")
	r.Rule("handed-back", "what an edit answers on success is the output of the builder, or the document where nothing was written, and nothing is done to it on the way")
	c := p.newSplicer(r)
	if c == nil {
		r.Bad("copied-once", "", "", "the builder or the parser of edits is not found")
		return
	}
	if len(c.make) == 0 || len(c.skip) == 0 || len(c.content) == 0 {
		r.Bad("copied-once", "", "", "the readers of the parser are not found")
		return
	}
	isM := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), c.builder)
	}
	nodes := 0
	run := func(x *Explorer, f *ssa.Function) {
		x.Run(f)
		nodes += x.Nodes
		if x.Overflow && !c.quiet {
			r.Bad("copied-once", p.Pos(f.Pos()), f.String(), "the paths are too many to follow")
		}
	}
	var locs []*ssa.Function
	for f := range c.locator {
		locs = append(locs, f)
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].String() < locs[j].String() })
	// first what the searches answer, then whether that is right everywhere
	for _, c.quiet = range []bool{true, false} {
		c.kinds = map[int]map[string]bool{}
		for _, f := range locs {
			x := c.explorer()
			x.Ret = c.answered
			run(x, f)
		}
	}
	if c.place != nil {
		st := c.place.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			ks := c.kinds[i]
			if len(ks) == 0 || ks["?"] {
				continue
			}
			if ks["self"] {
				c.selfs[i] = true
				continue
			}
			role := ""
			for k := range ks {
				if k != "end" {
					if role != "" {
						role = "?"
					} else {
						role = k
					}
				}
			}
			if role == "" {
				role = "D"
			}
			if role != "?" && !(role == "S" && ks["end"]) {
				c.roles[i] = role
				r.OK("counted-from-start", st.Field(i).Name(), "holds "+role)
			}
		}
	}
	// the edits: methods of the builder that others call
	entries := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if isM(top) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && isM(g) && c.uses(g)&2 != 0 {
					entries[g] = true
					callers[top] = true
				}
			}
		})
	}
	var roots []*ssa.Function
	for f := range entries {
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, f := range roots {
		x := c.explorer()
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			c.returns[ret] = true
			for _, v := range ret.Results {
				if isErrorType(v.Type()) && x.nilnessAV(x.resolve(s, AV{fr: s.fr, v: v})) > 0 {
					return
				}
			}
			if o := c.get(s); !c.complete(o) {
				c.bad(ret, "copied-once", "an edit succeeds with an output that lacks "+map[string]string{"pre": "the rest of the document", "new": "the document"}[o.shape], x, s)
			}
		}
		run(x, f)
	}
	var outer []*ssa.Function
	for f := range callers {
		outer = append(outer, f)
	}
	sort.Slice(outer, func(i, j int) bool { return outer[i].String() < outer[j].String() })
	answers := map[ssa.Instruction]bool{}
	for _, f := range outer {
		x := newExplorer(p)
		x.Enter = func(x *Explorer, s *State, call ssa.CallInstruction, g *ssa.Function) bool {
			if isM(g) {
				return c.uses(g)&2 == 0
			}
			for _, q := range g.Params {
				if types.Identical(deref(q.Type()), c.builder) {
					return true
				}
			}
			return g.Parent() != nil
		}
		x.Instr = func(x *Explorer, s *State, in ssa.Instruction) bool {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && entries[g] {
					s.Ext = "edited"
				}
			}
			if v, ok := in.(*ssa.Convert); ok && c.fromOutput(x, s, AV{fr: s.fr, v: v}, 0) {
				c.bind(s, v, 0, "output", v.Type())
			}
			return true
		}
		x.AnyRet = func(x *Explorer, s *State, ret *ssa.Return) bool {
			for _, e := range ret.Results {
				if len(ret.Results) > 1 && isErrorType(e.Type()) && s.Ext == "edited" && x.nilnessAV(x.resolve(s, AV{fr: s.fr, v: e})) > 0 {
					s.Ext = "failed"
				}
			}
			return true
		}
		x.Ret = func(x *Explorer, s *State, ret *ssa.Return) {
			if s.Ext != "edited" || len(ret.Results) == 0 {
				return
			}
			v := ret.Results[0]
			if !isString(v.Type()) && !isByteSlice(v.Type()) {
				return
			}
			for _, e := range ret.Results {
				if isErrorType(e.Type()) && x.nilnessAV(x.resolve(s, AV{fr: s.fr, v: e})) > 0 {
					return
				}
			}
			answers[ret] = true
			if e := ret.Results[len(ret.Results)-1]; len(ret.Results) > 1 && isErrorType(e.Type()) && x.nilnessAV(x.resolve(s, AV{fr: s.fr, v: e})) == 0 {
				// the error of the edit, handed on with whatever was there
				if call, ok := x.resolve(s, AV{fr: s.fr, v: e}).v.(*ssa.Call); ok && call.Call.StaticCallee() != nil && entries[call.Call.StaticCallee()] && !c.fromOutput(x, s, AV{fr: s.fr, v: v}, 0) {
					return
				}
			}
			if !c.fromOutput(x, s, AV{fr: s.fr, v: v}, 0) {
				c.bad(ret, "handed-back", "what is answered is not what the builder put together", x, s)
			}
		}
		run(x, f)
	}
	for rule, m := range map[string]map[ssa.Instruction]bool{"copied-once": c.copies, "counted-from-start": c.searches, "handed-back": answers} {
		for in := range m {
			if !c.failed[in] {
				r.OK(rule, p.At(in), in.Parent().String())
			}
		}
	}
	for in := range c.returns {
		if !c.failed[in] {
			r.OK("copied-once", p.At(in), in.Parent().String()+" returns")
		}
	}
	r.Count("edits", len(roots))
	r.Count("searches", len(c.searches))
	r.Count("copies", len(c.copies))
	r.Count("returns", len(c.returns))
	r.Count("answers", len(answers))
	r.Count("states", nodes)
	r.Min("edits", 1)
	r.Min("searches", 1)
	r.Min("copies", 2)
	r.Min("answers", 1)
}
