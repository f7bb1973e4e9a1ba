package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// checkC03: nothing is written to memory a caller handed in.
func checkC03(p *Program, r *Report) {
	r.Explanation = "Ownership analysis: an inclusion-based, field-sensitive points-to analysis of the whole library in which the memory behind every parameter of every entry point (slices, strings, maps, pointers, interface contents, and what they lead to) is an object of its own. No store, append, copy, map update, delete, clear or mutating standard-library call may write through a pointer that can lead to such an object. Strings count as pointers to their bytes, so a write through an unsafe conversion is seen. Trusted: the model of the standard library (which functions write to or share memory with their arguments)."
	r.Rule("no-write-to-caller", "no instruction writes through a pointer that may lead to memory handed in by the caller")
	t := p.pointsTo(p.entries)
	inits := p.initFuncs()
	r.Count("objects", t.nobj)
	r.Count("caller_objects", 0)
	for _, o := range t.objs {
		if o.kind == objExt {
			r.Count("caller_objects", 1)
		}
	}
	bad := map[string]bool{}
	for _, w := range t.writes {
		if inits[w.in.Parent()] {
			continue
		}
		r.Count("writes", 1)
		var ls []loc
		for l := range t.nodes[w.to].pts {
			if l.o.kind == objExt {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool {
			if ls[i].o.id != ls[j].o.id {
				return ls[i].o.id < ls[j].o.id
			}
			return ls[i].path < ls[j].path
		})
		if len(ls) == 0 {
			r.OK("no-write-to-caller", p.At(w.in), p.shortName(w.in.Parent())+" "+w.what)
			continue
		}
		key := p.At(w.in) + w.what
		if bad[key] {
			continue
		}
		bad[key] = true
		r.Bad("no-write-to-caller", p.At(w.in), p.shortName(w.in.Parent()), w.what+" writes to "+ls[0].o.String(), t.trace(w.to, ls[0])...)
	}
	r.Min("caller_objects", 5)
	r.Min("writes", 20)
}

// checkC04: results of queries over a byte slice never point into it.
func checkC04(p *Program, r *Report) {
	r.Explanation = "Escape analysis of the caller's buffer on the same points-to model as C03: nothing a query entry point returns, or hands to code of the user, may lead to memory handed in as a byte slice. A text sliced out of the buffer through an unsafe conversion, or a concatenation that may return its operand, counts as pointing into it. Trusted: the model of the standard library."
	r.Rule("independent-copy", "no result of a query leads to a byte slice handed in by the caller")
	isBuf := func(o *ptObj) bool { return o.kind == objExt && o.param != nil && isByteSlice(o.param) }
	for _, e := range p.entries {
		takes, gives := false, false
		for _, prm := range e.Params {
			takes = takes || isByteSlice(prm.Type())
		}
		res := e.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			gives = gives || holdsResult(res.At(i).Type())
		}
		if !takes || !gives {
			continue
		}
		t := p.pointsTo([]*ssa.Function{e})
		for _, o := range t.objs {
			if isBuf(o) {
				r.Count("caller_buffers", 1)
			}
		}
		judge := func(where, fn, what string, h any, path string, typ types.Type) {
			for _, lf := range t.leaves(typ) {
				n := t.node(h, path+lf.path)
				for _, o := range sortedObjs(t.reach(t.locsAt(h, path+lf.path))) {
					if !isBuf(o) {
						continue
					}
					var via []string
					for l := range n.pts {
						if l.o == o {
							via = t.trace(n.key, l)
							break
						}
					}
					if via == nil {
						via = t.holder(o)
					}
					r.Bad("independent-copy", where, fn, what+" may lead to "+o.String(), via...)
					return
				}
			}
			r.OK("independent-copy", where, fn+" "+what)
		}
		for i := 0; i < res.Len(); i++ {
			if holdsResult(res.At(i).Type()) {
				r.Count("query_results", 1)
				judge(p.Pos(e.Pos()), p.shortName(e), "result", e, fmt.Sprintf("#%d", i), res.At(i).Type())
			}
		}
		for _, u := range t.userArg {
			for _, a := range u.args {
				if holdsResult(a.Type()) {
					r.Count("values_given_to_user_code", 1)
					judge(p.At(u.in), p.shortName(u.in.Parent()), "value handed to user code", a, "", a.Type())
				}
			}
		}
	}
	r.Min("caller_buffers", 1)
	r.Min("query_results", 2)
}

// holder describes where in the heap a pointer to the object is kept.
func (t *pointsTo) holder(o *ptObj) []string {
	var keys []*ptNode
	for _, n := range t.nodes {
		if ho, ok := n.key.h.(*ptObj); ok && ho.kind != objExt {
			for l := range n.pts {
				if l.o == o {
					keys = append(keys, n)
					break
				}
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i].key, keys[j].key
		if a.h.(*ptObj).id != b.h.(*ptObj).id {
			return a.h.(*ptObj).id < b.h.(*ptObj).id
		}
		return a.path < b.path
	})
	for _, n := range keys {
		for l := range n.pts {
			if l.o == o {
				return t.trace(n.key, l)
			}
		}
	}
	return nil
}

// holdsResult: the type is, or contains, query results.
func holdsResult(typ types.Type) bool {
	switch u := typ.(type) {
	case *types.Pointer:
		return holdsResult(u.Elem())
	case *types.Slice:
		return holdsResult(u.Elem())
	case *types.Map:
		return holdsResult(u.Elem())
	}
	return isNamed(typ, modPath, "Result")
}

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}
