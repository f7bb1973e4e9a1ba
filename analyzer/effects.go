package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memoryPkgs are standard packages whose functions and variables only compute
// on memory they are given. Functions of these packages that work on a reader or
// writer are checked separately.
var memoryPkgs = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "errors": true, "sort": true, "slices": true, "maps": true,
	"cmp": true, "iter": true, "math": true, "math/bits": true, "math/cmplx": true, "math/big": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "sync": true, "sync/atomic": true, "unsafe": true,
	"regexp": true, "regexp/syntax": true, "container/list": true, "container/heap": true, "container/ring": true,
	"hash": true, "hash/fnv": true, "hash/crc32": true, "hash/maphash": true, "html": true, "encoding/xml": true,
	"encoding": true, "encoding/hex": true, "encoding/base64": true, "encoding/binary": true, "encoding/json": true,
	"reflect": true, "unique": true, "bufio": true, "math/rand": true, "math/rand/v2": true,
}

// memoryFuncs are single functions of other packages that only compute.
var memoryFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"fmt.Append": true, "fmt.Appendf": true, "fmt.Appendln": true, "fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Sscanln": true,
	"fmt.Fprintf": true, "fmt.Fprint": true, "fmt.Fprintln": true, // the writer is checked
	"io.WriteString": true, "io.ReadAll": true, "io.Copy": true, "io.NewSectionReader": true, "io.LimitReader": true,
	"runtime.KeepAlive": true, "io.EOF": true, "io.ErrUnexpectedEOF": true,
}

// memoryStreams are the stream implementations backed by memory only.
func memoryStream(t types.Type) bool {
	for _, n := range [][2]string{{"strings", "Builder"}, {"strings", "Reader"}, {"bytes", "Buffer"}, {"bytes", "Reader"},
		{"bufio", "Reader"}, {"bufio", "Writer"}, {"encoding/xml", "Decoder"}, {"encoding/xml", "Encoder"}} {
		if isNamed(t, n[0], n[1]) {
			return true
		}
	}
	return false
}

func isStreamType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, isI := n.Underlying().(*types.Interface)
	return isI && n.Obj().Pkg().Path() == "io"
}

// checkC15: the library's functions compute on memory only.
func checkC15(p *Program, r *Report) {
	r.Explanation = "Effect analysis over the whole library: every reference to a function or variable outside the library (in every function, initialiser and closure, called or not) must be to one that computes on memory only; streams handed to such functions must be memory-backed; no goroutine is started; calls through interfaces go only to interfaces of the library, to error values, or to memory-backed streams; the XML decoder is never given an entity table or a charset reader; no code reachable from a query or the validator recognises an entity declaration. Not covered: what user-supplied modifiers, callbacks and Stringer values do when called."
	r.Assumptions = []string{"the listed standard packages perform no input or output of their own", "user-supplied callbacks are the caller's responsibility"}
	r.Rule("memory-only", "a library function may refer only to outside functions and variables that compute on memory")
	r.Rule("memory-stream", "a reader or writer used by the library must be backed by memory")
	r.Rule("no-goroutine", "the library starts no goroutine")
	r.Rule("no-entities", "the XML decoder gets no entity table and no charset reader, and no reading code recognises an entity declaration")
	r.Rule("known-callee", "a call through an interface must go to a library interface, an error or a memory stream")
	for _, f := range p.Funcs {
		fn := p.shortName(f)
		ok := true
		bad := func(rule string, in ssa.Instruction, msg string) {
			ok = false
			r.Bad(rule, p.At(in), fn, msg)
		}
		instrs(f, func(in ssa.Instruction) {
			if _, isGo := in.(*ssa.Go); isGo {
				bad("no-goroutine", in, "starts a goroutine")
			}
			if st, isS := in.(*ssa.Store); isS {
				if fa, isF := st.Addr.(*ssa.FieldAddr); isF && isNamed(fa.X.Type(), "encoding/xml", "Decoder") {
					name := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
					if (name == "Entity" || name == "CharsetReader") && !isNilConst(st.Val) {
						bad("no-entities", in, "sets the XML decoder's "+name)
					}
				}
			}
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if p.InLib(v) {
						continue
					}
					r.Count("outside_references", 1)
					if msg := outsideFunc(v); msg != "" {
						bad("memory-only", in, msg)
					}
				case *ssa.Global:
					if v.Pkg != nil && !p.inLib[v.Pkg] {
						r.Count("outside_references", 1)
						pk := v.Pkg.Pkg.Path()
						if !memoryPkgs[pk] && !memoryFuncs[pk+"."+v.Name()] {
							bad("memory-only", in, "uses the variable "+pk+"."+v.Name())
						}
					}
				case *ssa.Builtin:
					if v.Name() == "print" || v.Name() == "println" {
						bad("memory-only", in, "writes to the standard error stream with "+v.Name())
					}
				}
			}
			if ci, isC := in.(ssa.CallInstruction); isC {
				c := ci.Common()
				if c.IsInvoke() {
					r.Count("interface_calls", 1)
					if !p.knownInvoke(c) {
						bad("known-callee", in, "calls "+c.Method.Name()+" of the interface "+typeName(c.Value.Type()))
					}
				} else if cal := c.StaticCallee(); cal != nil && !p.InLib(cal) {
					sig := cal.Signature
					off := 0
					if sig.Recv() != nil {
						off = 1
					}
					for i := 0; i < sig.Params().Len() && i+off < len(c.Args); i++ {
						if !isStreamType(sig.Params().At(i).Type()) {
							continue
						}
						r.Count("streams_passed", 1)
						if t := p.streamSource(c.Args[i+off], 0); t != "" {
							bad("memory-stream", in, "passes "+t+" as a stream to "+calleeName(c))
						}
					}
				}
			}
		})
		if ok {
			r.OK("memory-only", p.Pos(f.Pos()), fn+": every outside reference computes on memory")
		}
	}
	// a reader that never recognises an entity declaration cannot resolve one
	var readers []*ssa.Function
	for _, f := range p.docEntries() {
		if !isModEntry(p.modFamily(), f) {
			readers = append(readers, f)
		}
	}
	for _, f := range p.reachFrom(readers) {
		r.Count("reader_functions", 1)
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if s, ok := constString(*op); ok && strings.Contains(strings.ToUpper(s), "ENTITY") && strings.Contains(s, "!") {
					r.Bad("no-entities", p.At(in), p.shortName(f), "recognises an entity declaration while reading a document")
				}
			}
		})
	}
	r.Min("outside_references", 10)
	r.Min("reader_functions", 5)
}

func outsideFunc(f *ssa.Function) string {
	name := f.RelString(nil)
	if o := f.Origin(); o != nil {
		name = o.RelString(nil)
	}
	pk := calleePkg(f)
	if pk == "" {
		// wrapper or universe method such as (error).Error
		return ""
	}
	if memoryPkgs[pk] || memoryFuncs[name] {
		return ""
	}
	if name == "fmt.init" || name == "io.init" {
		return ""
	}
	return "refers to " + name + ", which does not compute on memory only"
}

// knownInvoke accepts interface calls that cannot reach a stream or the system.
func (p *Program) knownInvoke(c *ssa.CallCommon) bool {
	t := types.Unalias(c.Value.Type())
	if isErrorType(t) {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		pk := n.Obj().Pkg().Path()
		if pk == modPath || strings.HasPrefix(pk, modPath+"/") || pk == "sort" || pk == "fmt" || pk == "encoding" {
			return true
		}
	}
	if n := c.Method.Name(); n == "Error" || n == "String" || n == "Unwrap" || n == "Is" || n == "As" {
		return true
	}
	return p.streamSource(c.Value, 0) == ""
}

// streamSource names the origin of a stream value that is not known to be
// memory-backed, or returns "".
func (p *Program) streamSource(v ssa.Value, d int) string {
	if d > 8 {
		return "a stream of unknown origin"
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		t := v.X.Type()
		if memoryStream(t) {
			return ""
		}
		if n, ok := types.Unalias(deref(t)).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return ""
		}
		return "a " + t.String()
	case *ssa.ChangeInterface:
		return p.streamSource(v.X, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := p.streamSource(e, d+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Const:
		return ""
	case *ssa.Parameter:
		// every caller in the library must pass a memory stream
		f := v.Parent()
		if p.isEntry(f) || p.addrTkn[f] || len(p.callers[f]) == 0 {
			return "a caller-supplied stream"
		}
		for _, c := range p.callers[f] {
			if s := p.streamSource(c.Common().Args[paramIndex(v)], d+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					if s := p.streamSource(st.Val, d+1); s != "" {
						return s
					}
				}
			}
			return ""
		}
	}
	return "a stream of unknown origin"
}

// ---- determinism ----

// varying are outside functions whose result differs between equal calls.
func varying(f *ssa.Function) bool {
	pk := calleePkg(f)
	switch pk {
	case "time", "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "os", "runtime", "runtime/debug", "os/user", "net", "unique":
		return f.RelString(nil) != "runtime.KeepAlive"
	}
	switch f.Name() {
	case "MapKeys", "MapRange", "UnsafeAddr", "UnsafePointer", "Pointer":
		return pk == "reflect"
	case "Range":
		return pk == "sync"
	}
	return false
}

// pureFunc reports whether calling f has no effect but its result.
func (p *Program) pureFunc(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if !p.InLib(f) {
		return pureExternal(f)
	}
	if f.Blocks == nil {
		return false
	}
	ok := true
	instrs(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Store:
			if _, isA := rootAddr(in.Addr).(*ssa.Alloc); !isA && !freshRoot(in.Addr) {
				ok = false
			}
		case *ssa.MapUpdate:
			if !freshRoot(in.Map) {
				ok = false
			}
		case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
			ok = false
		case *ssa.Call:
			c := in.Common()
			if b, isB := c.Value.(*ssa.Builtin); isB {
				switch b.Name() {
				case "copy", "delete", "clear":
					if !freshRoot(c.Args[0]) {
						ok = false
					}
				case "print", "println", "close", "panic", "recover":
					ok = false
				}
				return
			}
			cal := c.StaticCallee()
			if cal == nil {
				ok = false
				return
			}
			if localBuilder(c) {
				return
			}
			if !p.pureFunc(cal, seen) {
				ok = false
			}
		}
	})
	return ok
}

// freshRoot reports whether memory is allocated in the same function.
func freshRoot(v ssa.Value) bool {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
			return true
		default:
			return false
		}
	}
	return false
}

// localBuilder reports a method call on a builder or buffer allocated in the
// calling function.
func localBuilder(c *ssa.CallCommon) bool {
	if c.IsInvoke() || len(c.Args) == 0 {
		return false
	}
	cal := c.StaticCallee()
	if cal == nil || cal.Signature.Recv() == nil || !memoryStream(cal.Signature.Recv().Type()) {
		return false
	}
	al, ok := rootAddr(c.Args[0]).(*ssa.Alloc)
	return ok && al.Parent() != nil
}

func pureExternal(f *ssa.Function) bool {
	pk := calleePkg(f)
	switch pk {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "errors", "cmp", "html":
		if rc := f.Signature.Recv(); rc != nil && memoryStream(rc.Type()) {
			switch f.Name() {
			case "Len", "String", "Cap", "Bytes":
				return true
			}
			return false
		}
		return true
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "slices", "maps":
		switch f.Name() {
		case "Contains", "Index", "ContainsFunc", "Equal", "Clone", "Max", "Min":
			return true
		}
	}
	return false
}

type orderCheck struct {
	p       *Program
	r       *Report
	done    map[ssa.Value]bool
	bags    map[ssa.Value]bool // slices whose element order is not fixed
	loops   map[*ssa.Function][]*Loop
	retDone map[*ssa.Function]map[int]bool
}

func (o *orderCheck) bad(in ssa.Instruction, msg string) {
	o.r.Bad("order-free", o.p.At(in), o.p.shortName(in.Parent()), msg)
}

func (o *orderCheck) loopsOf(f *ssa.Function) []*Loop {
	if l, ok := o.loops[f]; ok {
		return l
	}
	l := findLoops(f)
	o.loops[f] = l
	return l
}

// innermost loop containing b.
func (o *orderCheck) loopOf(b *ssa.BasicBlock) *Loop {
	var best *Loop
	for _, l := range o.loopsOf(b.Parent()) {
		if l.Body[b] && (best == nil || len(l.Body) < len(best.Body)) {
			best = l
		}
	}
	return best
}

// checkC07: nothing that varies between equal calls influences a result.
func checkC07(p *Program, r *Report) {
	r.Explanation = "Order-taint analysis: every iteration over a map in the library, and every slice filled by one, is followed until it is sorted; until then it may only be used in ways whose outcome does not depend on the order (collecting, counting, existence tests, lookups by the unique key). In addition no library function may refer to the clock, random numbers, the environment, runtime state, hash seeds or addresses. Not covered: values formatted by the caller's own String methods, and pointers the caller passes as values."
	r.Assumptions = []string{"sort functions order by a total order on the collected keys when the comparison compares the keys themselves"}
	r.Rule("order-free", "the order of a map iteration must not reach a result: collect and sort, or use the elements in an order-insensitive way")
	r.Rule("no-varying-source", "the library refers to no clock, random source, environment, runtime state or address")
	o := &orderCheck{p: p, r: r, done: map[ssa.Value]bool{}, bags: map[ssa.Value]bool{}, loops: map[*ssa.Function][]*Loop{}, retDone: map[*ssa.Function]map[int]bool{}}
	for _, f := range p.Funcs {
		fn := p.shortName(f)
		nb := len(r.Viol)
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if !p.InLib(v) && varying(v) {
						r.Bad("no-varying-source", p.At(in), fn, "refers to "+v.RelString(nil))
					}
				case *ssa.Global:
					if v.Pkg != nil && !p.inLib[v.Pkg] {
						switch v.Pkg.Pkg.Path() {
						case "os", "time", "runtime", "crypto/rand":
							r.Bad("no-varying-source", p.At(in), fn, "refers to "+v.Pkg.Pkg.Path()+"."+v.Name())
						}
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Convert:
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if xb, ok := in.X.Type().Underlying().(*types.Basic); ok && xb.Kind() == types.UnsafePointer {
						r.Bad("no-varying-source", p.At(in), fn, "turns an address into a number")
					}
				}
			case *ssa.Select:
				if len(in.States) > 1 || !in.Blocking {
					r.Bad("no-varying-source", p.At(in), fn, "chooses between channel operations")
				}
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					r.Count("map_iterations", 1)
					o.mapRange(in)
				}
			case *ssa.Call:
				o.call(in)
			}
		})
		if len(r.Viol) == nb {
			r.OK("no-varying-source", p.Pos(f.Pos()), fn+": no varying source, no order-dependent use of a map iteration")
		}
	}
	r.Count("unsorted_collections", len(o.bags))
	r.Min("functions", 20)
}

// call looks for library iterators over maps and for %p.
func (o *orderCheck) call(in *ssa.Call) {
	name := calleeName(in.Common())
	switch name {
	case "maps.Keys", "maps.Values", "maps.All":
		for _, ref := range *in.Referrers() {
			c, ok := ref.(*ssa.Call)
			if !ok {
				o.bad(in, "iterates over "+name+" in an unspecified order")
				continue
			}
			switch calleeName(c.Common()) {
			case "slices.Sorted", "maps.Collect":
			case "slices.SortedFunc", "slices.SortedStableFunc":
				if !o.totalComparator(c.Common().Args[1]) {
					o.bad(c, "sorts by a comparison that does not compare the keys themselves")
				}
			case "slices.Collect":
				o.bag(c, c)
			default:
				o.bad(c, "uses "+name+" in an unspecified order")
			}
		}
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Appendf", "fmt.Fprintf":
		for _, a := range in.Common().Args {
			if s, ok := constString(a); ok && strings.Contains(s, "%p") {
				o.r.Bad("no-varying-source", o.p.At(in), o.p.shortName(in.Parent()), "formats an address with %p")
			}
		}
	}
}

func (o *orderCheck) mapRange(rng *ssa.Range) {
	for _, ref := range *rng.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		l := o.loopOf(nx.Block())
		if l == nil {
			// no loop back: only the first element is used
			o.bad(nx, "uses an arbitrary first element of a map")
			continue
		}
		o.loop(l, nx, nil)
	}
}

// bag follows a slice whose element order is unspecified.
func (o *orderCheck) bag(v ssa.Value, at ssa.Instruction) {
	if o.bags[v] {
		return
	}
	o.bags[v] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	var sorts []ssa.Instruction
	for _, ref := range *refs {
		if o.isSort(ref, v) {
			sorts = append(sorts, ref)
		}
	}
	after := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s != in && dominatesInstr(s, in) {
				return true
			}
		}
		return false
	}
	for _, ref := range *refs {
		if after(ref) {
			continue
		}
		switch ref := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			o.bag(ref, at)
		case *ssa.ChangeType:
			o.bag(ref, at)
		case *ssa.Slice:
			if ref.Low == nil && ref.High == nil {
				o.bag(ref, at)
			} else {
				o.bad(ref, "cuts a part out of a list collected from a map before it is sorted")
			}
		case *ssa.MakeInterface:
			// sort.Slice(x any, less)
			for _, r2 := range *ref.Referrers() {
				if !o.isSort(r2, ref) {
					o.bad(r2, "uses a list collected from a map before it is sorted")
				}
			}
		case *ssa.IndexAddr:
			if ref.X != v {
				o.bad(ref, "indexes with a value taken in map order")
				continue
			}
			// writing elements keeps it a collection; reading needs an order-free loop
			for _, r2 := range *ref.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ref {
					continue
				}
				l := o.loopOf(ref.Block())
				if l == nil {
					o.bad(ref, "picks one element of a list collected from a map before it is sorted")
					continue
				}
				o.loop(l, ref, v)
			}
		case *ssa.Call:
			c := ref.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append":
					if c.Args[0] == v || len(c.Args) > 1 && c.Args[1] == v {
						o.bag(ref, at)
					}
				case "copy":
					if c.Args[1] == v {
						o.bag(c.Args[0], at)
					}
				default:
					o.bad(ref, "uses a list collected from a map before it is sorted")
				}
				continue
			}
			if o.isSort(ref, v) {
				continue
			}
			cal := c.StaticCallee()
			if cal == nil || !o.p.InLib(cal) {
				switch calleeName(c) {
				case "slices.Contains", "slices.ContainsFunc":
					continue
				}
				o.bad(ref, "passes a list collected from a map to "+calleeName(c)+" before it is sorted")
				continue
			}
			for i, a := range c.Args {
				if a == v {
					if o.sortsParam(cal, i) {
						sorts = append(sorts, ref)
						continue
					}
					o.bag(cal.Params[i], at)
				}
			}
		case *ssa.Return:
			o.ret(ref, v)
		case *ssa.Store:
			if al, ok := ref.Addr.(*ssa.Alloc); ok && ref.Val == v {
				o.cell(al, ref)
			} else {
				o.bad(ref, "stores a list collected from a map before it is sorted")
			}
		default:
			o.bad(ref, "uses a list collected from a map before it is sorted")
		}
	}
}

// sortsParam reports whether a library function sorts the given parameter before
// anything else is done with it on every path.
func (o *orderCheck) sortsParam(f *ssa.Function, i int) bool {
	prm := f.Params[i]
	var srt ssa.Instruction
	for _, ref := range *prm.Referrers() {
		if o.isSort(ref, prm) {
			srt = ref
		}
	}
	return srt != nil && srt.Block() == f.Blocks[0] || srt != nil && dominatesReturns(srt)
}

func dominatesReturns(in ssa.Instruction) bool {
	for _, r := range returnsOf(in.Parent()) {
		if !dominatesInstr(in, r) {
			return false
		}
	}
	return true
}

// ret: a function returns an unsorted collection; follow it at its call sites.
func (o *orderCheck) ret(ret *ssa.Return, v ssa.Value) {
	f := ret.Parent()
	for i, res := range ret.Results {
		if res != v {
			continue
		}
		if o.retDone[f] == nil {
			o.retDone[f] = map[int]bool{}
		}
		if o.retDone[f][i] {
			continue
		}
		o.retDone[f][i] = true
		if o.p.isEntry(f) || o.p.addrTkn[f] {
			o.bad(ret, "returns a list collected from a map without sorting it")
			continue
		}
		for _, c := range o.p.callers[f] {
			call, ok := c.(*ssa.Call)
			if !ok {
				continue
			}
			if f.Signature.Results().Len() == 1 {
				o.bag(call, call)
				continue
			}
			for _, ref := range *call.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
					o.bag(ex, call)
				}
			}
		}
	}
}

// cell: a local variable kept in memory holds an unsorted collection.
func (o *orderCheck) cell(al *ssa.Alloc, at ssa.Instruction) {
	if o.done[al] {
		return
	}
	o.done[al] = true
	var sorts []ssa.Instruction
	var loads []*ssa.UnOp
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.UnOp:
			loads = append(loads, ref)
			for _, r2 := range *ref.Referrers() {
				if o.isSort(r2, ref) {
					sorts = append(sorts, r2)
				}
				if mi, ok := r2.(*ssa.MakeInterface); ok {
					for _, r3 := range *mi.Referrers() {
						if o.isSort(r3, mi) {
							sorts = append(sorts, r3)
						}
					}
				}
			}
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for _, r2 := range *ref.Referrers() {
				if !isSortCall(r2) {
					o.bad(ref, "shares a list collected from a map with a closure before it is sorted")
				}
			}
		default:
			o.bad(ref, "takes the address of a list collected from a map")
		}
	}
	for _, ld := range loads {
		sorted := false
		for _, s := range sorts {
			if dominatesInstr(s, ld) && !o.refilled(al, s, ld) {
				sorted = true
			}
		}
		if !sorted {
			o.bag(ld, at)
		}
	}
}

// refilled reports whether the cell is assigned between a sort and a load.
func (o *orderCheck) refilled(al *ssa.Alloc, s, ld ssa.Instruction) bool {
	for _, ref := range *al.Referrers() {
		st, ok := ref.(*ssa.Store)
		if !ok {
			continue
		}
		if c, isC := st.Val.(*ssa.Call); isC {
			if b, isB := c.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" && dominatesInstr(s, st) {
				continue // appending to a sorted list keeps a fixed order
			}
		}
		if dominatesInstr(s, st) {
			return true
		}
	}
	return false
}

func isSortCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	switch calleeName(c.Common()) {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// isSort reports whether an instruction sorts v by a total order.
func (o *orderCheck) isSort(in ssa.Instruction, v ssa.Value) bool {
	c, ok := in.(*ssa.Call)
	if !ok || len(c.Common().Args) == 0 || c.Common().Args[0] != v && !wraps(c.Common().Args[0], v) {
		if ok && !c.Common().IsInvoke() {
			// a library helper that sorts its parameter
			if cal := c.Common().StaticCallee(); cal != nil && o.p.InLib(cal) {
				for i, a := range c.Common().Args {
					if a == v && o.sortsParam(cal, i) {
						return true
					}
				}
			}
		}
		return false
	}
	args := c.Common().Args
	switch calleeName(c.Common()) {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return o.totalComparator(args[1])
	case "sort.Sort", "sort.Stable":
		return true
	}
	if cal := c.Common().StaticCallee(); cal != nil && o.p.InLib(cal) {
		for i, a := range args {
			if a == v && o.sortsParam(cal, i) {
				return true
			}
		}
	}
	return false
}

func wraps(v, x ssa.Value) bool {
	switch w := v.(type) {
	case *ssa.MakeInterface:
		return w.X == x || wraps(w.X, x)
	case *ssa.ChangeType:
		return w.X == x
	case *ssa.Call: // sort.StringSlice(x) is a ChangeType; sort.Reverse is a call
		for _, a := range w.Common().Args {
			if wraps(a, x) {
				return true
			}
		}
	}
	return false
}

// totalComparator accepts comparison functions that somewhere compare the
// elements (or a field of them) themselves, not only something computed from them.
func (o *orderCheck) totalComparator(v ssa.Value) bool {
	var f *ssa.Function
	switch v := v.(type) {
	case *ssa.MakeClosure:
		f, _ = v.Fn.(*ssa.Function)
	case *ssa.Function:
		f = v
	}
	if f == nil {
		return false
	}
	if !o.p.InLib(f) {
		n := f.RelString(nil)
		return strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare")
	}
	found := false
	elem := func(v ssa.Value) bool {
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Field:
				v = x.X
			case *ssa.IndexAddr, *ssa.Index:
				return true
			case *ssa.Parameter:
				return true
			case *ssa.Alloc:
				s, _ := soleStore(x)
				if s == nil {
					return false
				}
				v = s
			default:
				return false
			}
		}
		return false
	}
	instrs(f, func(in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.BinOp:
			if (in.Op == token.LSS || in.Op == token.GTR) && isString(in.X.Type()) && elem(in.X) && elem(in.Y) {
				found = true
			}
		case *ssa.Call:
			n := calleeName(in.Common())
			if n == "strings.Compare" || n == "cmp.Compare" || n == "cmp.Less" {
				if elem(in.Common().Args[0]) && elem(in.Common().Args[1]) {
					found = true
				}
			}
		}
	})
	return found
}

// loop checks one loop that visits elements in an unspecified order. elem is the
// instruction that yields the element: the map iterator or an element address.
func (o *orderCheck) loop(l *Loop, elem ssa.Instruction, list ssa.Value) {
	if v, ok := elem.(ssa.Value); ok {
		if o.done[v] {
			return
		}
		o.done[v] = true
	}
	o.r.Count("unordered_loops", 1)
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && l.Body[in.Block()]
	}
	early := false
	for b := range l.Body {
		for _, s := range b.Succs {
			if !l.Body[s] && b != l.Head {
				early = true
			}
		}
	}
	accum := map[ssa.Value]bool{}
	// loop-carried values
	for _, in := range l.Head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		kind := o.carried(l, phi)
		switch kind {
		case "same", "flag":
			accum[phi] = true
		case "count", "bag":
			accum[phi] = true
			if early && kind == "bag" || early && usedOutside(l, phi) {
				o.bad(phi, "what has been collected when the loop over a map stops early depends on the iteration order")
				continue
			}
			if kind == "bag" {
				o.bag(phi, elem)
			}
		case "index":
			accum[phi] = true
			if early && usedOutside(l, phi) {
				o.bad(phi, "the position at which an unordered loop stops is used after it")
			}
		default:
			o.bad(phi, "a value carried from one map iteration to the next depends on the iteration order")
		}
	}
	// effects in the loop and values leaving it
	for _, b := range l.Head.Parent().Blocks {
		if !l.Body[b] {
			continue
		}
		for _, in := range b.Instrs {
			o.loopInstr(l, in, elem, inLoop)
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || accum[v] {
				continue
			}
			if _, isC := in.(*ssa.Call); isC {
				if bi, isB := in.(*ssa.Call).Common().Value.(*ssa.Builtin); isB && bi.Name() == "append" {
					continue // covered by the carried value
				}
			}
			if o.invariantIn(l, v, map[ssa.Value]bool{}) {
				continue
			}
			for _, ref := range *v.Referrers() {
				if ref.Block() == nil || l.Body[ref.Block()] {
					continue
				}
				if _, isD := ref.(*ssa.DebugRef); isD {
					continue
				}
				if phi, isP := ref.(*ssa.Phi); isP {
					// leaving through the normal exit with an accumulated value is
					// covered; anything else is one element picked by order
					okAll := true
					for i, e := range phi.Edges {
						if e == v && !(o.uniqueKey(l, phi.Block().Preds[i], elem)) {
							okAll = false
						}
					}
					if okAll {
						continue
					}
				}
				if o.uniqueKey(l, ref.Block(), elem) {
					continue
				}
				if call, isC := ref.(*ssa.Call); isC {
					// evicting an arbitrary entry of a package-level cache
					if bi, isB := call.Common().Value.(*ssa.Builtin); isB && bi.Name() == "delete" && fromGlobal(call.Common().Args[0]) {
						continue
					}
				}
				o.bad(ref, "an element picked by the iteration order of a map is used after the loop")
			}
		}
	}
}

func fromGlobal(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = ld.X.(*ssa.Global)
	return ok
}

func usedOutside(l *Loop, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if ref.Block() != nil && !l.Body[ref.Block()] {
			if _, isD := ref.(*ssa.DebugRef); !isD {
				return true
			}
		}
	}
	return false
}

// uniqueKey reports whether block b is only reached when the map key of this
// iteration equals a value fixed outside the loop.
func (o *orderCheck) uniqueKey(l *Loop, b *ssa.BasicBlock, elem ssa.Instruction) bool {
	nx, ok := elem.(*ssa.Next)
	if !ok {
		return false
	}
	for _, c := range condsAt(b) {
		bo, ok := c.Val.(*ssa.BinOp)
		if !ok || !(bo.Op == token.EQL && c.Pos || bo.Op == token.NEQ && !c.Pos) {
			continue
		}
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			ex, isE := pr[0].(*ssa.Extract)
			if isE && ex.Tuple == nx && ex.Index == 1 {
				if in, isI := pr[1].(ssa.Instruction); !isI || !l.Body[in.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// invariantIn reports whether a value computed in the loop is the same in every
// iteration: it is computed from constants and values fixed outside.
func (o *orderCheck) invariantIn(l *Loop, v ssa.Value, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !l.Body[in.Block()] {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == l.Head {
			return false
		}
		// which constant is chosen depends on the element
		return false
	case *ssa.BinOp:
		return o.invariantIn(l, x.X, seen) && o.invariantIn(l, x.Y, seen)
	case *ssa.Convert:
		return o.invariantIn(l, x.X, seen)
	case *ssa.FieldAddr:
		return o.invariantIn(l, x.X, seen)
	case *ssa.UnOp:
		return o.invariantIn(l, x.X, seen)
	case *ssa.MakeInterface:
		return o.invariantIn(l, x.X, seen)
	case *ssa.Call:
		c := x.Common()
		if c.IsInvoke() || c.StaticCallee() == nil || !o.p.pureFunc(c.StaticCallee(), map[*ssa.Function]bool{}) {
			return false
		}
		for _, a := range c.Args {
			if !o.invariantIn(l, a, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// carried classifies a header phi of an unordered loop.
func (o *orderCheck) carried(l *Loop, phi *ssa.Phi) string {
	var srcs []ssa.Value
	seen := map[ssa.Value]bool{phi: true}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		if p2, ok := v.(*ssa.Phi); ok && l.Body[p2.Block()] {
			seen[v] = true
			for _, e := range p2.Edges {
				walk(e)
			}
			return
		}
		seen[v] = true
		srcs = append(srcs, v)
	}
	for i, pr := range phi.Block().Preds {
		if l.Body[pr] {
			walk(phi.Edges[i])
		}
	}
	if len(srcs) == 0 {
		return "same"
	}
	flag, count, bag := true, true, true
	var c0 *ssa.Const
	for _, v := range srcs {
		c, isC := v.(*ssa.Const)
		if isC && (c0 == nil || sameConst(c0, c)) {
			c0 = c
		} else {
			flag = false
		}
		if bo, ok := v.(*ssa.BinOp); !ok || !isInteger(v.Type()) || !(bo.Op == token.ADD || bo.Op == token.OR || bo.Op == token.XOR) ||
			!(seen[bo.X] && isPhi(bo.X) && !seen[bo.Y] || seen[bo.Y] && isPhi(bo.Y) && !seen[bo.X]) {
			count = false
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			bag = false
			continue
		}
		b, isB := call.Common().Value.(*ssa.Builtin)
		if !isB || b.Name() != "append" || !seen[call.Common().Args[0]] && !isAppendChain(call.Common().Args[0], seen) {
			bag = false
		}
	}
	switch {
	case flag:
		return "flag"
	case count:
		return "count"
	case bag:
		return "bag"
	}
	return ""
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

func isAppendChain(v ssa.Value, seen map[ssa.Value]bool) bool {
	for i := 0; i < 6; i++ {
		call, ok := v.(*ssa.Call)
		if !ok {
			return seen[v]
		}
		b, isB := call.Common().Value.(*ssa.Builtin)
		if !isB || b.Name() != "append" {
			return false
		}
		v = call.Common().Args[0]
	}
	return false
}

func sameConst(a, b *ssa.Const) bool {
	if a.Value == nil || b.Value == nil {
		return a.Value == nil && b.Value == nil
	}
	return a.Value.ExactString() == b.Value.ExactString()
}

// loopInstr checks the effect of one instruction in an unordered loop.
func (o *orderCheck) loopInstr(l *Loop, in ssa.Instruction, elem ssa.Instruction, inLoop func(ssa.Value) bool) {
	switch in := in.(type) {
	case *ssa.Store:
		root := rootAddr(in.Addr)
		if inLoop(root) {
			if _, ok := root.(*ssa.Alloc); ok {
				return
			}
		}
		if _, ok := in.Val.(*ssa.Const); ok {
			if _, isIdx := in.Addr.(*ssa.IndexAddr); !isIdx {
				return
			}
		}
		if al, ok := in.Addr.(*ssa.Alloc); ok {
			// variable kept in memory
			if c, ok := in.Val.(*ssa.Call); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if ld, ok := c.Common().Args[0].(*ssa.UnOp); ok && ld.X == al {
						o.cell(al, in)
						return
					}
				}
			}
			if bo, ok := in.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && isInteger(bo.Type()) {
				if ld, ok := bo.X.(*ssa.UnOp); ok && ld.X == al {
					return
				}
			}
		}
		if ix, ok := in.Addr.(*ssa.IndexAddr); ok && !inLoop(ix.X) {
			if _, isS := ix.X.Type().Underlying().(*types.Slice); isS {
				if ld, isL := ix.X.(*ssa.UnOp); isL {
					if al, isA := ld.X.(*ssa.Alloc); isA {
						o.cell(al, in)
						return
					}
				}
				o.bag(ix.X, in)
				return
			}
		}
		o.bad(in, "assigns outside a map iteration in the iteration's order")
	case *ssa.MapUpdate:
		if inLoop(in.Map) {
			if _, ok := in.Map.(*ssa.MakeMap); ok {
				return
			}
		}
		if _, ok := in.Value.(*ssa.Const); ok {
			return
		}
		if o.isElem(in.Key, elem) {
			return
		}
		o.bad(in, "which entry of a map survives depends on the order of another map's iteration")
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers:
		o.bad(in, "has an effect in the order of a map iteration")
	case *ssa.Call:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "len", "cap", "delete", "min", "max", "ssa:wrapnilchk":
			case "copy":
				if !inLoop(rootAddr(c.Args[0])) {
					o.bad(in, "copies in the order of a map iteration")
				}
			default:
				o.bad(in, "calls "+b.Name()+" in the order of a map iteration")
			}
			return
		}
		if localBuilder(c) && inLoop(rootAddr(c.Args[0])) {
			return
		}
		cal := c.StaticCallee()
		if cal == nil || !o.p.pureFunc(cal, map[*ssa.Function]bool{}) {
			n := calleeName(c)
			if n == "" {
				n = "a function value"
			}
			o.bad(in, "calls "+n+", which has effects, in the order of a map iteration")
		}
	}
}

// isElem reports whether v is the element of the current iteration itself.
func (o *orderCheck) isElem(v ssa.Value, elem ssa.Instruction) bool {
	switch e := elem.(type) {
	case *ssa.Next:
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Tuple == e && ex.Index == 1
	case *ssa.IndexAddr:
		ld, ok := v.(*ssa.UnOp)
		return ok && ld.X == e
	}
	return false
}

func init() {
	checks["C15"] = checkC15
	checks["C07"] = checkC07
}
