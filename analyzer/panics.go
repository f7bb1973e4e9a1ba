package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// C14: no operation of the library that can panic does.

const siteBudget = 500

func init() {
	checks["C14"] = checkC14
}

// live are the functions something outside can cause to run.
func (p *Program) live() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] || !p.InLib(f) || f.Blocks == nil {
			return
		}
		out[f] = true
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					g, _ := x.Fn.(*ssa.Function)
					add(g)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, g := range p.invoked(c.Common()) {
					add(g)
				}
			}
		})
	}
	for _, e := range p.entries {
		add(e)
	}
	for _, f := range p.Funcs {
		if f.Name() == "init" || f.Parent() == nil && len(f.Name()) > 5 && f.Name()[:5] == "init#" {
			add(f)
		}
	}
	return out
}

func checkC14(p *Program, r *Report) {
	r.Rule("cannot-panic", "at every index, slice, dereference, map write, allocation, division, shift, assertion and call through a value, what keeps it from panicking follows from the tests passed on the way")
	r.Explanation = "Every operation that can panic in every function reachable from the public API is an obligation: bounds of indexing and slicing, nil pointers, maps, interfaces and functions, sizes of allocations, divisors, shift counts, assertions without a test, explicit panics. Each is discharged by a forward analysis of linear inequalities between lengths, positions, counters and 0/1 for nil and true: the tests that dominate the operation, the values merged at joins taken case by case, inductive facts at loop heads, facts the callers establish, inferred invariants of the library's own structs (for the parser 0 <= pos <= dataLen = len(data)) and inferred promises of functions (the parser only moves forward; a located element lies inside the document). Memory is tracked by field and by what each call may change. Not decided, and counted as such: an index into a row of a table the analysis does not see being made, and products of two unknowns. Assumed: the object of a method, modifiers and functions supplied by the caller are not nil; lengths and positions stay below the largest int; the standard library does not panic when its documented preconditions hold; the stack does not run out (C13)."
	n := p.numbers()
	live := p.live()
	var fs []*ssa.Function
	for _, f := range p.Funcs {
		if live[f] && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	type found struct {
		site bsite
		open string
		skip bool
	}
	res := make([][]found, len(fs))
	n.parallel(len(fs), func(w *prover, i int) {
		f := fs[i]
		for _, s := range w.boundSites(f) {
			x := found{site: s}
			for _, g := range s.gs {
				if !w.holds(f, s.in, g, siteBudget) && !w.holds(f, s.in, g, 4*siteBudget) {
					fr := w.root(f)
					x.skip = w.beyond(f, s.in)
					x.open = w.show(g(&nctx{fr: fr, blk: s.in.Block(), idx: indexIn(s.in), choice: map[nchoice]int{}}, fr))
					break
				}
			}
			res[i] = append(res[i], x)
		}
	})
	invs := 0
	for _, v := range n.inv {
		invs += len(v)
	}
	promises := 0
	for _, v := range n.post {
		promises += len(v)
	}
	r.Count("functions_analysed", len(fs))
	r.Count("struct_invariants_inferred", invs)
	r.Count("function_promises_inferred", promises)
	r.Count("required_arguments_inferred", len(n.pre))
	r.Count("systems_of_inequalities_decided", n.fm)
	for i, f := range fs {
		for _, x := range res[i] {
			r.Count("sites_"+x.site.what, 1)
			where := p.At(x.site.in)
			if x.open == "" {
				r.OK("cannot-panic", where, x.site.what+" in "+f.Name())
				continue
			}
			if x.skip {
				r.Count("sites_not_decided", 1)
				continue
			}
			r.Bad("cannot-panic", where, f.String(), fmt.Sprintf("nothing on the way to this %s rules out that it panics; needed: %s", x.site.what, x.open))
		}
	}
	r.Min("sites_index", 20)
	r.Min("sites_slice", 20)
	r.Min("sites_dereference", 50)
}

// beyond: what the site needs cannot be said with sums of lengths and positions: a row of
// a table made elsewhere, or a product.
func (n *prover) beyond(f *ssa.Function, in ssa.Instruction) bool {
	var base ssa.Value
	var idx []ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		base, idx = x.X, []ssa.Value{x.Index}
	case *ssa.Index:
		base, idx = x.X, []ssa.Value{x.Index}
	case *ssa.Slice:
		base, idx = x.X, []ssa.Value{x.Low, x.High}
	case *ssa.MakeSlice:
		idx = []ssa.Value{x.Len, x.Cap}
	default:
		return false
	}
	fr := n.root(f)
	c := &nctx{fr: fr, blk: in.Block(), idx: indexIn(in), choice: map[nchoice]int{}}
	if base != nil {
		if ld, ok := n.canon(c, term{fr: fr, v: base}).v.(*ssa.UnOp); ok {
			if _, ok := ld.X.(*ssa.IndexAddr); ok {
				return true
			}
		}
	}
	for _, v := range idx {
		if v == nil {
			continue
		}
		for s := range n.lin(c, term{fr: fr, v: v}).m {
			y := n.syms[s]
			if b, ok := y.t.v.(*ssa.BinOp); ok && !y.len {
				switch b.Op {
				case token.MUL, token.SHL, token.XOR, token.OR:
					return true
				}
			}
		}
	}
	return false
}
