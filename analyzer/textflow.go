package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// piece is one text written to the output, in order.
type piece struct {
	v  ssa.Value
	in ssa.Instruction
}

// outWrites are the writes to buffers that become documents.
func (l *labels) outWrites() (out []*ssa.Call) {
	for _, f := range l.p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if b, _ := l.written(c); b != nil && l.outs[b] {
				out = append(out, c)
			}
		})
	}
	return
}

// written is the buffer a call writes to and the texts it writes.
func (l *labels) written(c *ssa.Call) (any, []ssa.Value) {
	g := c.Call.StaticCallee()
	if g == nil {
		if c.Call.IsInvoke() && strings.HasPrefix(c.Call.Method.Name(), "Write") {
			if mi, ok := c.Call.Value.(*ssa.MakeInterface); ok && isBuffer(deref(mi.X.Type())) {
				return l.hold(mi.X), c.Call.Args
			}
		}
		return nil, nil
	}
	if r := g.Signature.Recv(); r != nil && isBuffer(deref(r.Type())) && strings.HasPrefix(g.Name(), "Write") {
		return l.hold(c.Call.Args[0]), c.Call.Args[1:]
	}
	switch calleePkg(g) + "." + g.Name() {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok && isBuffer(deref(mi.X.Type())) {
			var vals []ssa.Value
			for _, a := range c.Call.Args[1:] {
				if textual(a.Type()) {
					vals = append(vals, a)
				} else {
					for _, e := range varargs(a) {
						if m, ok := e.(*ssa.MakeInterface); ok {
							e = m.X
						}
						if textual(e.Type()) {
							vals = append(vals, e)
						}
					}
				}
			}
			return l.hold(mi.X), vals
		}
	}
	return nil, nil
}

// parts splits a concatenation.
func parts(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isString(b.Type()) {
		return append(parts(b.X), parts(b.Y)...)
	}
	if c, ok := v.(*ssa.Convert); ok && byteish(c.Type()) && byteish(c.X.Type()) {
		return parts(c.X)
	}
	return []ssa.Value{v}
}

func checkC11(p *Program, r *Report) {
	r.Rule("escaped", "text written to an edited document is constant, a part of the document, a name from the path, a raw value, or has gone through a complete encoder; plain values and decoded attribute values never reach the output as they are")
	r.Rule("raw-attribute", "a raw value is written as an attribute value only behind a test that it has no quote and no opening bracket")
	l := newLabels(p)
	writes := l.outWrites()
	n := 0
	for _, c := range writes {
		_, vals := l.written(c)
		for _, v := range vals {
			for _, part := range parts(v) {
				n++
				x := l.resolve(l.val(part))
				id := p.shortName(c.Parent())
				if bad := x.kinds & (kDecoded | kUser); bad != 0 {
					r.Bad("escaped", p.Pos(c.Pos()), id, fmt.Sprintf("%s is written to the document without being encoded", bad))
				} else {
					r.OK("escaped", id+" "+x.kinds.String(), "written")
				}
			}
		}
	}
	// documents put together without a buffer
	docs := 0
	for _, e := range p.entries {
		if !returnsDoc(e) || len(l.ret[e]) == 0 {
			continue
		}
		docs++
		x := l.resolve(l.ret[e][0])
		if bad := x.kinds & (kDecoded | kUser); bad != 0 {
			r.Bad("escaped", p.Pos(e.Pos()), p.shortName(e), fmt.Sprintf("the document returned can contain %s that was not encoded", bad))
		} else {
			r.OK("escaped", p.shortName(e)+" result", x.kinds.String())
		}
	}
	attrs := 0
	a := &attrGuard{l: l, p: p}
	for _, c := range writes {
		for _, v := range l.attrValues(c) {
			attrs++
			if l.resolve(l.val(v)).kinds&kRaw == 0 {
				r.OK("raw-attribute", p.shortName(c.Parent()), "no raw value gets here")
				continue
			}
			if why, pos := a.guarded(c.Parent(), v, c, 0); why != "" {
				r.Bad("raw-attribute", p.Pos(c.Pos()), p.shortName(c.Parent()), fmt.Sprintf("a raw value can be written into an attribute unchecked: %s (%s)", why, p.Pos(pos)))
			} else {
				r.OK("raw-attribute", p.shortName(c.Parent()), "checked before")
			}
		}
	}
	r.Count("output_writes", len(writes))
	r.Count("texts_written", n)
	r.Count("edit_entry_points", docs)
	r.Count("attribute_values", attrs)
	r.Count("encoders", countCoders(l, 1))
	r.Min("edit_entry_points", 4)
	r.Min("attribute_values", 1)
	if len(writes) == 0 {
		r.Bad("escaped", "-", "-", "no writes to an output document were found")
	}
}

func countCoders(l *labels, d int) (n int) {
	for _, c := range l.coders {
		if c == d {
			n++
		}
	}
	return
}

// attrValues are the texts of a write that stand where an attribute value does:
// behind constant text ending in = and a quote.
func (l *labels) attrValues(c *ssa.Call) (out []ssa.Value) {
	b, vals := l.written(c)
	var seq []ssa.Value
	for _, v := range vals {
		seq = append(seq, parts(v)...)
	}
	for i, v := range seq {
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		if i > 0 {
			if s, ok := constString(seq[i-1]); ok && opensValue(s) {
				out = append(out, v)
			}
			continue
		}
		// what was written just before
		for _, s := range l.before(b, c) {
			if opensValue(s) {
				out = append(out, v)
				break
			}
		}
	}
	// a format
	if g := c.Call.StaticCallee(); g != nil && g.Name() == "Fprintf" && len(vals) > 0 {
		if f, ok := constString(vals[0]); ok && (strings.Contains(f, `="%`) || strings.Contains(f, `='%`)) {
			out = append(out, vals[1:]...)
		}
	}
	return
}

func opensValue(s string) bool {
	return strings.HasSuffix(s, `="`) || strings.HasSuffix(s, `='`)
}

// before are the constant texts that can end the write before a write.
func (l *labels) before(buf any, c *ssa.Call) (out []string) {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, i int)
	scan = func(b *ssa.BasicBlock, i int) {
		for ; i >= 0; i-- {
			w, ok := b.Instrs[i].(*ssa.Call)
			if !ok {
				continue
			}
			if o, vals := l.written(w); o == buf && len(vals) > 0 {
				ps := parts(vals[len(vals)-1])
				if s, ok := constString(ps[len(ps)-1]); ok {
					out = append(out, s)
				} else if n, ok := constInt(ps[len(ps)-1]); ok {
					out = append(out, string(rune(n)))
				}
				return
			}
		}
		for _, pr := range b.Preds {
			if !seen[pr] {
				seen[pr] = true
				scan(pr, len(pr.Instrs)-1)
			}
		}
	}
	scan(c.Block(), indexIn(c)-1)
	return
}

// attrGuard decides whether a raw value is tested before it becomes an attribute.
type attrGuard struct {
	l *labels
	p *Program
}

// guarded: "" if v, used by the instruction, cannot be a raw value with markup.
func (a *attrGuard) guarded(f *ssa.Function, v ssa.Value, use ssa.Instruction, d int) (string, token.Pos) {
	if d > 6 {
		return "too many calls in between", use.Pos()
	}
	// tests in this function
	if a.cut(f, v, use.Block(), nil) {
		return "", token.NoPos
	}
	prm, ok := v.(*ssa.Parameter)
	if !ok {
		if phi, ok := v.(*ssa.Phi); ok {
			for i, e := range phi.Edges {
				if a.l.resolve(a.l.val(e)).kinds&kRaw == 0 {
					continue
				}
				last := phi.Block().Preds[i]
				if why, pos := a.guarded(f, e, last.Instrs[len(last.Instrs)-1], d+1); why != "" {
					return why, pos
				}
			}
			return "", token.NoPos
		}
		return "no test before this point", use.Pos()
	}
	if a.p.isEntry(f) {
		return "it comes straight from the caller", f.Pos()
	}
	// this use needs the segment to be an attribute
	seg := attrSegment(a.p, use.Block())
	k := paramIndex(prm)
	for _, site := range a.p.callers[f] {
		c := site.Common()
		if c.StaticCallee() != f || k >= len(c.Args) {
			return "called through a value", site.Pos()
		}
		arg := c.Args[k]
		if a.l.resolve(a.l.val(arg)).kinds&kRaw == 0 {
			continue
		}
		if seg != nil {
			if i := paramIndex(seg); i < len(c.Args) && a.notAttribute(site.Parent(), c.Args[i], site.Block()) {
				continue
			}
		}
		if why, pos := a.guarded(site.Parent(), arg, site.(ssa.Instruction), d+1); why != "" {
			return why, pos
		}
	}
	return "", token.NoPos
}

// attrSegment is the parameter whose type was tested to be an attribute.
func attrSegment(p *Program, b *ssa.BasicBlock) *ssa.Parameter {
	for _, c := range condsAt(b) {
		if x, ok := attrTest(p, c.Val, c.Pos); ok {
			if prm := rootParam(x); prm != nil {
				return prm
			}
		}
	}
	return nil
}

// attrTest: the condition (as taken) says a segment is an attribute; returns the
// value holding the type.
func attrTest(p *Program, v ssa.Value, taken bool) (ssa.Value, bool) {
	bo, ok := v.(*ssa.BinOp)
	if !ok || !(bo.Op == token.EQL && taken || bo.Op == token.NEQ && !taken) {
		return nil, false
	}
	k, ok := p.Root.Pkg.Scope().Lookup("SegmentAttribute").(*types.Const)
	if !ok {
		return nil, false
	}
	for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		c, ok := pair[1].(*ssa.Const)
		if ok && c.Value != nil && types.Identical(c.Type(), k.Type()) && constant.Compare(c.Value, token.EQL, k.Val()) {
			return pair[0], true
		}
	}
	return nil, false
}

func rootParam(v ssa.Value) *ssa.Parameter {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x
		case *ssa.Field:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Alloc:
			s, _ := soleStore(x)
			if s == nil {
				return nil
			}
			v = s
		default:
			return nil
		}
	}
	return nil
}

// notAttribute: the segment handed on at this block cannot be an attribute: every
// way here passes a test that the last segment is none, or that there is none.
func (a *attrGuard) notAttribute(f *ssa.Function, seg ssa.Value, at *ssa.BasicBlock) bool {
	return !reachAvoiding(f, at, func(iff *ssa.If, taken bool) bool {
		for _, c := range expandCond(Cond{iff.Cond, taken, iff}) {
			if _, ok := attrTest(a.p, c.Val, !c.Pos); ok {
				return true
			}
			// there is a segment, as it is taken from the path
			if bo, ok := c.Val.(*ssa.BinOp); ok {
				if ln, ok := bo.X.(*ssa.Call); ok && calleeName(ln.Common()) == "builtin.len" && sameSlice(seg, ln.Call.Args[0]) {
					if n, ok := constInt(bo.Y); ok && n == 0 && (bo.Op == token.GTR && !c.Pos || bo.Op == token.EQL && c.Pos || bo.Op == token.NEQ && !c.Pos) {
						return true
					}
				}
			}
		}
		return false
	})
}

func sameSlice(seg, list ssa.Value) bool {
	for d := 0; d < 5; d++ {
		switch x := seg.(type) {
		case *ssa.UnOp:
			seg = x.X
		case *ssa.IndexAddr:
			return x.X == list
		default:
			return false
		}
	}
	return false
}

// reachAvoiding: at can be reached from the start without an edge that is safe.
func reachAvoiding(f *ssa.Function, at *ssa.BasicBlock, safe func(*ssa.If, bool) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == at {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			if isIf && safe(iff, i == 0) {
				continue
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0])
}

// cut: every way to the block passes an edge where v is known to be harmless:
// it has none of the characters, or it is not raw. bind maps parameters of a helper
// to the values they stand for.
func (a *attrGuard) cut(f *ssa.Function, v ssa.Value, at *ssa.BasicBlock, bind map[ssa.Value]ssa.Value) bool {
	for _, ch := range attrMarkup {
		if reachAvoiding(f, at, func(iff *ssa.If, taken bool) bool {
			for _, c := range expandCond(Cond{iff.Cond, taken, iff}) {
				if a.harmless(f, v, c.Val, c.Pos, ch, bind) {
					return true
				}
			}
			return false
		}) {
			return false
		}
	}
	return true
}

// what a raw attribute value must not have
var attrMarkup = []string{"<", "\""}

// harmless: the condition says that v does not have the character or is not raw.
func (a *attrGuard) harmless(f *ssa.Function, v, cond ssa.Value, taken bool, ch string, bind map[ssa.Value]ssa.Value) bool {
	val := func(x ssa.Value) ssa.Value {
		if b := bind[x]; b != nil {
			return b
		}
		return x
	}
	if x, chars := absent(cond, taken); x != nil && val(x) == v && (chars == "*" || strings.Contains(chars, ch)) {
		return true
	}
	switch c := cond.(type) {
	case *ssa.Call:
		// a helper that says whether it is harmless
		if g := c.Call.StaticCallee(); g != nil && a.p.InLib(g) && bind == nil {
			return a.helper(g, c, v, ch, func(ret *ssa.Return) bool {
				b, ok := constBool(ret.Results[0])
				return !ok || b == taken
			}, taken)
		}
	case *ssa.BinOp:
		// a helper that returns an error
		if isNilConst(c.Y) && isErrorType(c.X.Type()) && bind == nil {
			call, ok := c.X.(*ssa.Call)
			if ok && (c.Op == token.EQL && taken || c.Op == token.NEQ && !taken) {
				if g := call.Call.StaticCallee(); g != nil && a.p.InLib(g) {
					return a.helper(g, call, v, ch, func(ret *ssa.Return) bool { return isNilConst(ret.Results[0]) }, false)
				}
			}
		}
	case *ssa.Extract:
		return !taken && a.rawFlag(v, val(c))
	case *ssa.Parameter:
		return !taken && a.rawFlag(v, val(c))
	}
	return false
}

// helper: the returns of g that matter are reached only where v is harmless.
func (a *attrGuard) helper(g *ssa.Function, c *ssa.Call, v ssa.Value, ch string, matters func(*ssa.Return) bool, want bool) bool {
	if g.Blocks == nil || g.Signature.Results().Len() != 1 {
		return false
	}
	bind := map[ssa.Value]ssa.Value{}
	any := false
	for i, x := range c.Call.Args {
		if i < len(g.Params) {
			bind[g.Params[i]] = x
			any = any || x == v
		}
	}
	if !any {
		return false
	}
	n := 0
	for _, ret := range returnsOf(g) {
		if !matters(ret) {
			continue
		}
		n++
		// the test itself returned
		if !isErrorType(ret.Results[0].Type()) {
			if _, ok := ret.Results[0].(*ssa.Const); !ok && a.harmless(g, v, ret.Results[0], want, ch, bind) {
				continue
			}
			if phi, ok := ret.Results[0].(*ssa.Phi); ok {
				good := true
				for i, e := range phi.Edges {
					if b, ok := constBool(e); ok && b != want {
						continue
					}
					if a.harmless(g, v, e, want, ch, bind) {
						continue
					}
					pred := phi.Block().Preds[i]
					iff, isIf := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
					if isIf && a.harmless(g, v, iff.Cond, pred.Succs[0] == phi.Block(), ch, bind) {
						continue
					}
					if !a.cut(g, v, pred, bind) {
						good = false
					}
				}
				if good {
					continue
				}
			}
		}
		if !a.cut(g, v, ret.Block(), bind) {
			return false
		}
	}
	return n > 0
}

// rawFlag: flag is returned together with v and is false only if v is not raw.
func (a *attrGuard) rawFlag(v, flag ssa.Value) bool {
	return a.rawPair(v, flag, 0)
}

func (a *attrGuard) rawPair(v, flag ssa.Value, d int) bool {
	if b, ok := constBool(flag); ok {
		return b || a.l.resolve(a.l.val(v)).kinds&kRaw == 0
	}
	p1, ok1 := v.(*ssa.Parameter)
	p2, ok2 := flag.(*ssa.Parameter)
	if ok1 && ok2 && p1.Parent() == p2.Parent() && d < 5 {
		// both handed on
		f := p1.Parent()
		if a.p.isEntry(f) || len(a.p.callers[f]) == 0 {
			return false
		}
		for _, site := range a.p.callers[f] {
			c := site.Common()
			if c.StaticCallee() != f || !a.rawPair(c.Args[paramIndex(p1)], c.Args[paramIndex(p2)], d+1) {
				return false
			}
		}
		return true
	}
	e1, ok1 := v.(*ssa.Extract)
	e2, ok2 := flag.(*ssa.Extract)
	if !ok1 || !ok2 || e1.Tuple != e2.Tuple {
		return false
	}
	c, ok := e1.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || !a.p.InLib(g) {
		return false
	}
	for _, ret := range returnsOf(g) {
		x := a.l.resolve(a.l.val(resultValue(ret, e1.Index)))
		if x.kinds&kRaw == 0 {
			continue
		}
		if b, ok := constBool(resultValue(ret, e2.Index)); !ok || !b {
			return false
		}
	}
	return true
}

func checkC21(p *Program, r *Report) {
	r.Rule("inverse", "the tables for encoding and decoding cover the five special characters and are inverses of each other")
	r.Rule("decode-once", "only document source text is decoded, never text that has been decoded before or comes from the caller")
	r.Rule("encode-once", "only plain text is encoded, never document source text or text encoded before")
	r.Rule("returned-decoded", "text that a result carries as its value has been decoded")
	r.Rule("parsed-as-written", "only document source text is parsed or carried as raw content")
	r.Rule("compared-decoded", "text a filter value is compared with has been decoded")
	l := newLabels(p)
	// tables
	nt := 0
	for g, t := range l.enc {
		if !t.enc && !t.dec {
			continue
		}
		nt++
		want := specials
		if !t.enc {
			want = map[string]string{}
			for a, b := range specials {
				want[b] = a
			}
		}
		if t.enc && t.dec {
			r.Bad("inverse", p.Pos(t.pos), g.Name(), "a table both encodes and decodes")
			continue
		}
		if !covers(t.pairs, want) || !covers(want, t.pairs) {
			if !t.enc && covers(t.pairs, want) || t.enc && l.otherInverse(t) {
				r.OK("inverse", g.Name(), fmt.Sprintf("%d pairs", len(t.pairs)))
				continue
			}
			r.Bad("inverse", p.Pos(t.pos), g.Name(), "the table is not the inverse of the one for the other direction: "+tableDiff(t.pairs, want))
			continue
		}
		r.OK("inverse", g.Name(), fmt.Sprintf("%d pairs", len(t.pairs)))
	}
	nd, ne := 0, 0
	site := func(c *ssa.Call, arg ssa.Value, enc bool) {
		x := l.resolve(l.val(arg))
		id := p.shortName(c.Parent())
		if enc {
			ne++
			if bad := x.kinds & (kSource | kEncoded | kRaw); bad != 0 {
				r.Bad("encode-once", p.Pos(c.Pos()), id, fmt.Sprintf("%s is encoded again", bad))
			} else {
				r.OK("encode-once", id, x.kinds.String())
			}
			return
		}
		nd++
		if bad := x.kinds & (kDecoded | kUser | kName | kRaw); bad != 0 {
			r.Bad("decode-once", p.Pos(c.Pos()), id, fmt.Sprintf("%s is decoded, which is not document source text", bad))
		} else {
			r.OK("decode-once", id, x.kinds.String())
		}
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			g := c.Call.StaticCallee()
			if g == nil {
				return
			}
			if d := l.coders[g]; d != 0 {
				site(c, c.Call.Args[0], d == 1)
				return
			}
			if calleeName(c.Common()) == "(*strings.Replacer).Replace" && l.coders[f] == 0 {
				if t, ok := l.tableOf(c.Call.Args[0]); ok && (t.enc || t.dec) {
					site(c, c.Call.Args[1], t.enc)
				}
			}
		})
	}
	// what results carry
	ns, nr := 0, 0
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			x := l.resolve(l.val(st.Val))
			id := p.shortName(f)
			switch l.fieldOf(fa.X.Type(), fa.Field) {
			case l.resultStr:
				ns++
				if bad := x.kinds & (kSource | kEncoded); bad != 0 {
					r.Bad("returned-decoded", p.Pos(st.Pos()), id, fmt.Sprintf("a result carries %s as its value without decoding it", bad))
				} else {
					r.OK("returned-decoded", id, x.kinds.String())
				}
			case l.resultRaw:
				nr++
				if bad := x.kinds & (kDecoded | kUser); bad != 0 && !l.ofAttribute(fa) {
					r.Bad("parsed-as-written", p.Pos(st.Pos()), id, fmt.Sprintf("a result carries %s as its raw content, which would be decoded again", bad))
				} else {
					r.OK("parsed-as-written", id, x.kinds.String())
				}
			case l.parserData:
				nr++
				x.merge(l.resolve(l.node(partKey{l.find(l.parserData), false})))
				if bad := x.kinds & (kDecoded | kUser); bad != 0 {
					r.Bad("parsed-as-written", p.Pos(st.Pos()), id, fmt.Sprintf("%s is parsed as a document", bad))
				} else {
					r.OK("parsed-as-written", id, x.kinds.String())
				}
			}
		})
	}
	// comparisons with filter values
	nc := 0
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			var ops []ssa.Value
			switch v := in.(type) {
			case *ssa.BinOp:
				switch v.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if isString(v.X.Type()) {
						ops = []ssa.Value{v.X, v.Y}
					}
				}
			case *ssa.Call:
				if g := v.Call.StaticCallee(); g != nil && calleePkg(g) != modPath {
					for _, a := range v.Call.Args {
						if byteish(a.Type()) {
							ops = append(ops, a)
						}
					}
				}
			}
			if len(ops) < 2 {
				return
			}
			filter, source := false, false
			for _, o := range ops {
				k := l.resolve(l.val(o)).kinds
				if k&kFilter != 0 {
					filter = true
				} else if k&kSource != 0 {
					source = true
				}
			}
			if !filter {
				return
			}
			nc++
			if source {
				r.Bad("compared-decoded", p.Pos(in.Pos()), p.shortName(f), "a filter value is compared with document text that was not decoded")
			} else {
				r.OK("compared-decoded", p.shortName(f), "decoded")
			}
		})
	}
	r.Count("tables", nt)
	r.Count("decoding_sites", nd)
	r.Count("encoding_sites", ne)
	r.Count("result_values", ns)
	r.Count("raw_contents", nr)
	r.Count("filter_comparisons", nc)
	r.Min("decoding_sites", 1)
	r.Min("encoding_sites", 1)
	r.Min("result_values", 1)
	if l.resultStr.index < 0 || l.resultRaw.index < 0 || l.filterValue.index < 0 || l.parserData.index < 0 {
		r.Bad("returned-decoded", "-", "-", "the fields that carry text were not found")
	}
	if countCoders(l, 1) == 0 || countCoders(l, -1) == 0 {
		r.Bad("inverse", "-", "-", "no complete encoder or no decoder for the five special characters was found")
	}
}

// otherInverse: some decoding table is exactly the inverse of this one.
func (l *labels) otherInverse(t replaceTable) bool {
	if !covers(t.pairs, specials) {
		return false
	}
	inv := map[string]string{}
	for a, b := range t.pairs {
		inv[b] = a
	}
	if len(inv) != len(t.pairs) {
		return false
	}
	for _, o := range l.enc {
		if o.dec && covers(o.pairs, inv) {
			return true
		}
	}
	return false
}

func tableDiff(a, b map[string]string) string {
	var out []string
	for k, v := range b {
		if a[k] != v {
			out = append(out, fmt.Sprintf("%q should give %q but gives %q", k, v, a[k]))
		}
	}
	for k, v := range a {
		if _, ok := b[k]; !ok {
			out = append(out, fmt.Sprintf("%q gives %q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func init() {
	checks["C11"] = checkC11
	checks["C21"] = checkC21
}
