package main

// If-conversion: a symbolic branch over a small, acyclic, side-effect-light region is executed once
// with guards, and the results are merged with ite instead of forking the path.

import (
	"golang.org/x/tools/go/ssa"
)

type region struct {
	ok     bool
	order  []*ssa.BasicBlock // topological order, excluding the branch block and the join
	join   *ssa.BasicBlock   // nil: function exit
	instrs int
}

// postdominators computed on the CFG with a virtual exit (index n).
func (fi *FnInfo) computeIpdom(fn *ssa.Function) {
	n := len(fn.Blocks)
	succs := make([][]int, n)
	for _, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			succs[b.Index] = []int{n}
		}
		for _, s := range b.Succs {
			succs[b.Index] = append(succs[b.Index], s.Index)
		}
	}
	// reverse graph postorder from exit
	preds := make([][]int, n+1)
	for i, ss := range succs {
		for _, s := range ss {
			preds[s] = append(preds[s], i)
		}
	}
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(n)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			x := order[i]
			if x == n {
				continue
			}
			nd := -1
			for _, s := range succs[x] {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
					continue
				}
				a, b := nd, s
				for a != b {
					for num[a] < num[b] {
						a = idom[a]
					}
					for num[b] < num[a] {
						b = idom[b]
					}
				}
				nd = a
			}
			if nd != idom[x] {
				idom[x] = nd
				changed = true
			}
		}
	}
	fi.ipdom = make([]int, n)
	for i := 0; i < n; i++ {
		fi.ipdom[i] = idom[i]
		if idom[i] == n {
			fi.ipdom[i] = -1
		} else if idom[i] < 0 {
			fi.ipdom[i] = -2 // cannot reach exit
		}
	}
}

func (in *Interp) regionOf(fr *frame, b *ssa.BasicBlock) *region {
	fi := fr.info
	if fi.merge == nil {
		fi.merge = map[*ssa.BasicBlock]*region{}
		fi.bad = map[*ssa.BasicBlock]int{}
		fi.computeIpdom(fr.fn)
	}
	if r, ok := fi.merge[b]; ok {
		return r
	}
	r := &region{}
	fi.merge[b] = r
	pd := fi.ipdom[b.Index]
	if pd == -2 {
		return r
	}
	if pd >= 0 {
		r.join = fr.fn.Blocks[pd]
	}
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	okay := true
	var dfs func(x *ssa.BasicBlock)
	dfs = func(x *ssa.BasicBlock) {
		if !okay || x == r.join {
			return
		}
		if x == b || state[x] == 1 {
			okay = false // cycle
			return
		}
		if state[x] == 2 {
			return
		}
		state[x] = 1
		r.instrs += len(x.Instrs)
		if len(post) > 40 || r.instrs > 400 {
			okay = false
			return
		}
		for _, i := range x.Instrs {
			switch i.(type) {
			case *ssa.Panic, *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.Range, *ssa.Next:
				okay = false
				return
			}
		}
		for _, s := range x.Succs {
			dfs(s)
		}
		state[x] = 2
		post = append(post, x)
	}
	for _, s := range b.Succs {
		dfs(s)
	}
	if !okay {
		return r
	}
	for i := len(post) - 1; i >= 0; i-- {
		r.order = append(r.order, post[i])
	}
	r.ok = true
	return r
}

const specBudget = 4000

// tryMerge executes the region controlled by the symbolic condition c at the end of block b.
func (in *Interp) tryMerge(fr *frame, b *ssa.BasicBlock, c *Term) (next *ssa.BasicBlock, done, ok bool) {
	r := in.regionOf(fr, b)
	if !r.ok || fr.info.bad[b] > 3 {
		return nil, false, false
	}
	if r.join == nil && len(fr.defers) > 0 {
		return nil, false, false
	}
	mark := len(in.undo)
	saveGuard, saveSpec := in.guard, in.spec
	saveLog := in.logging
	in.logging = true
	startSteps := in.path.steps
	depth, sd := in.depth, len(in.stack)
	cur := fr.cur
	success := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				in.guard, in.spec = saveGuard, saveSpec
				in.depth = depth
				in.stack = in.stack[:sd]
				fr.cur = cur
				in.rollback(mark)
				in.logging = saveLog
				switch y := x.(type) {
				case specAbort:
				case targetPanic:
				case pathEnd:
					if y.kind != "unsupported" {
						panic(x)
					}
				default:
					panic(x)
				}
				fr.info.bad[b]++
			}
		}()
		in.spec++
		if in.spec > 6 {
			panic(specAbort{"nesting"})
		}
		base := saveGuard
		if base == nil {
			base = in.ctx.T
		}
		type edge struct {
			from *ssa.BasicBlock
			g    *Term
		}
		inEdges := map[*ssa.BasicBlock][]edge{}
		addEdge := func(from, to *ssa.BasicBlock, g *Term) {
			if !g.isFalse() {
				inEdges[to] = append(inEdges[to], edge{from, g})
			}
		}
		addEdge(b, b.Succs[0], c)
		addEdge(b, b.Succs[1], in.ctx.Not(c))
		var retVal Value
		haveRet := false
		phi := func(x *ssa.BasicBlock) {
			es := inEdges[x]
			var vals []Value
			var phis []*ssa.Phi
			for _, i := range x.Instrs {
				p, isPhi := i.(*ssa.Phi)
				if !isPhi {
					break
				}
				phis = append(phis, p)
				var v Value
				for k := len(es) - 1; k >= 0; k-- {
					e := es[k]
					for j, pr := range x.Preds {
						if pr == e.from {
							ev := fr.get(in, p.Edges[j])
							if k == len(es)-1 {
								v = ev
							} else {
								nv, ok := in.iteT(e.g, ev, v, p.Type())
								if !ok {
									panic(specAbort{"phi"})
								}
								v = nv
							}
							break
						}
					}
				}
				vals = append(vals, v)
			}
			for i, p := range phis {
				fr.put(p, vals[i])
			}
		}
		for _, x := range r.order {
			es := inEdges[x]
			if len(es) == 0 {
				continue
			}
			gs := make([]*Term, len(es))
			for i, e := range es {
				gs[i] = e.g
			}
			g := in.ctx.Or(gs...)
			in.guard = in.ctx.And(base, g)
			phi(x)
			for _, instr := range x.Instrs {
				if _, isPhi := instr.(*ssa.Phi); isPhi {
					continue
				}
				fr.cur = instr
				in.path.steps++
				if in.path.steps-startSteps > specBudget {
					panic(specAbort{"budget"})
				}
				switch instr := instr.(type) {
				case *ssa.If:
					cv := fr.get(in, instr.Cond)
					switch cv := cv.(type) {
					case bool:
						if cv {
							addEdge(x, x.Succs[0], g)
						} else {
							addEdge(x, x.Succs[1], g)
						}
					case *Term:
						addEdge(x, x.Succs[0], in.ctx.And(g, cv))
						addEdge(x, x.Succs[1], in.ctx.And(g, in.ctx.Not(cv)))
					default:
						panic(specAbort{"cond"})
					}
				case *ssa.Jump:
					addEdge(x, x.Succs[0], g)
				case *ssa.Return:
					var v Value
					switch len(instr.Results) {
					case 0:
					case 1:
						v = fr.get(in, instr.Results[0])
					default:
						t := make(tuple, len(instr.Results))
						for i, rr := range instr.Results {
							t[i] = fr.get(in, rr)
						}
						v = t
					}
					if !haveRet {
						retVal, haveRet = v, true
					} else if len(instr.Results) > 0 {
						var ok bool
						if len(instr.Results) == 1 {
							retVal, ok = in.iteT(g, v, retVal, fr.fn.Signature.Results().At(0).Type())
						} else {
							retVal, ok = in.iteT(g, v, retVal, fr.fn.Signature.Results())
						}
						if !ok {
							panic(specAbort{"ret"})
						}
					}
				default:
					in.exec(fr, instr)
				}
			}
		}
		in.guard, in.spec = saveGuard, saveSpec
		in.logging = saveLog
		if r.join != nil {
			in.guard = saveGuard
			phi(r.join)
			next = r.join
		} else {
			fr.result = retVal
			done = true
		}
		success = true
	}()
	return next, done, success
}
