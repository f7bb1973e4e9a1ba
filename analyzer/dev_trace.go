//go:build dev

package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["ENUM"] = func(p *Program, r *Report) {
		live := p.live()
		for _, f := range p.Funcs {
			if !live[f] {
				continue
			}
			for _, l := range findLoops(f) {
				fmt.Println("LOOP", f.Name(), p.At(l.Head.Instrs[len(l.Head.Instrs)-1]), len(l.Body))
			}
		}
		edge := map[*ssa.Function]map[*ssa.Function]bool{}
		for f := range live {
			edge[f] = map[*ssa.Function]bool{}
			instrs(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && live[g] {
						edge[f][g] = true
					}
					for _, g := range p.invokedOr(c) {
						edge[f][g] = true
					}
				}
			})
		}
		reach := func(a, b *ssa.Function) bool {
			seen := map[*ssa.Function]bool{}
			var v func(x *ssa.Function) bool
			v = func(x *ssa.Function) bool {
				for y := range edge[x] {
					if y == b {
						return true
					}
					if !seen[y] {
						seen[y] = true
						if v(y) {
							return true
						}
					}
				}
				return false
			}
			return v(a)
		}
		for _, f := range p.Funcs {
			if live[f] && reach(f, f) {
				fmt.Println("REC", f.String())
				for g := range edge[f] {
					if reach(g, f) {
						fmt.Println("     ->", g.Name())
					}
				}
			}
		}
	}
}

func (p *Program) invokedOr(c ssa.CallInstruction) []*ssa.Function {
	if c.Common().IsInvoke() {
		return p.invoked(c.Common())
	}
	return nil
}

func init() {
	checks["TRACE13"] = func(p *Program, r *Report) {
		n := newProver(p)
		n.infer()
		for _, f := range p.Funcs {
			if f.Name() == "shouldCreateSiblingRoot" {
				for _, l := range findLoops(f) {
					n.trace = true
					fmt.Println(n.ends(f, l))
				}
			}
		}
	}
}

func init() {
	checks["NUM"] = func(p *Program, r *Report) { checkC14(p, r); checkC13(p, r) }
	checks["NUM4"] = func(p *Program, r *Report) { checkC14(p, r); checkC13(p, r); checkC12(p, r); checkC30(p, r) }
	checks["TRACE14"] = func(p *Program, r *Report) {
		n := newProver(p)
		n.infer()
		for _, f := range p.Funcs {
			if f.Name() != os.Getenv("FN") {
				continue
			}
			for _, s := range n.boundSites(f) {
				if !strings.HasSuffix(p.At(s.in), os.Getenv("AT")) {
					continue
				}
				for gi := range s.gs {
					w := newProverLike(n)
					var g func(c *nctx, fr *nframe) nlin
					pick := func() {
						for _, t := range w.boundSites(f) {
							if t.in == s.in && t.what == s.what {
								g = t.gs[gi]
							}
						}
					}
					pick()
					if !w.holds(f, s.in, g, siteBudget) {
						w = newProverLike(n)
						w.trace = true
						pick()
						w.holds(f, s.in, g, siteBudget)
						return
					}
				}
			}
		}
	}
}

func init() {
	checks["TRACE12"] = func(p *Program, r *Report) {
		n := newProver(p)
		n.infer()
		res, field := p.listField()
		for _, f := range p.Funcs {
			if f.Name() != os.Getenv("FN") {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok || !strings.HasSuffix(p.At(st), os.Getenv("AT")) || !p.fillsList(st, res, field) {
					return
				}
				w := newProverLike(n)
				w.short, w.limit = types.NewSlice(res), maxList
				w.trace = true
				fmt.Println(w.holds(f, st, func(c *nctx, fr *nframe) nlin {
					return nconst(maxList).add(w.length(c, term{fr: fr, v: st.Val}), -1)
				}, siteBudget))
			})
		}
	}
}

func init() {
	checks["FAST"] = func(p *Program, r *Report) {
		for id, check := range checks {
			if len(id) == 3 && id[0] == 'C' && id != "C12" && id != "C13" && id != "C14" && id != "C30" {
				check(p, r)
			}
		}
	}
}

func init() {
	checks["TRACE30"] = func(p *Program, r *Report) {
		n := newProver(p)
		n.infer()
		for _, f := range p.Funcs {
			if f.Name() != os.Getenv("FN") {
				continue
			}
			for _, ret := range returnsOf(f) {
				if !strings.HasSuffix(p.At(ret), os.Getenv("AT")) {
					continue
				}
				w := newProverLike(n)
				w.short, w.limit = ret.Results[0].Type(), maxSegments
				w.trace = true
				fmt.Println(w.holds(f, ret, func(c *nctx, fr *nframe) nlin {
					return nconst(maxSegments).add(w.length(c, term{fr: fr, v: ret.Results[0]}), -1)
				}, 2*siteBudget))
			}
		}
	}
}
