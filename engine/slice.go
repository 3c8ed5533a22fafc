package main

// Branch feasibility. The path condition is satisfied by the current model, so
// only the constraints that share variables (transitively) with the branch
// condition matter. Over a single variable of at most 8 bits these are decided
// by their truth tables; everything else, and every assertion, goes to the SMT
// solver.

type byteSet [4]uint64

func (b *byteSet) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }

type sliceCtx struct {
	vars map[*Term][]*Term
	tabs map[*Term]*byteSet
	seen map[*Term]bool
}

func (c *TermCtx) varsOf(t *Term) []*Term {
	if c.sl.vars == nil {
		c.sl = sliceCtx{vars: map[*Term][]*Term{}, tabs: map[*Term]*byteSet{}}
	}
	if v, ok := c.sl.vars[t]; ok {
		return v
	}
	var r []*Term
	c.newEval() // reuse the generation marks
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst {
			return
		}
		e := &c.evalMemo[t.id]
		if e.gen == c.evalGen {
			return
		}
		e.gen = c.evalGen
		if t.op == OVar {
			r = append(r, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(t)
	c.newEval() // the marks are not values
	c.sl.vars[t] = r
	return r
}

// table is the set of values of the only variable of t for which t holds.
func (c *TermCtx) table(t, v *Term) *byteSet {
	if s, ok := c.sl.tabs[t]; ok {
		return s
	}
	var s byteSet
	m := Model{}
	n := 1 << v.sort.w
	if v.sort.k == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		m[v.name] = uint64(i)
		if c.Eval(t, m) != 0 {
			s[i>>6] |= 1 << (i & 63)
		}
	}
	c.sl.tabs[t] = &s
	return &s
}

func smallVar(v *Term) bool { return v.sort.k == 0 || v.sort.k == 1 && v.sort.w <= 8 }

// feasible decides pc ∧ other where the current model satisfies pc.
func (w *Worker) feasible(other *Term) (SatRes, Model) {
	c := w.tc
	vs := c.varsOf(other)
	in := make(map[*Term]bool, len(vs))
	for _, v := range vs {
		in[v] = true
	}
	used := make([]bool, len(w.pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, p := range w.pc {
			if used[i] {
				continue
			}
			pv := c.varsOf(p)
			hit := false
			for _, v := range pv {
				if in[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			n++
			for _, v := range pv {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	if len(vs) == 1 && smallVar(vs[0]) {
		v := vs[0]
		dom := *c.table(other, v)
		exact := true
		for i, p := range w.pc {
			if !used[i] {
				continue
			}
			pv := c.varsOf(p)
			if len(pv) == 1 {
				if pv[0] == v {
					t := c.table(p, v)
					for k := range dom {
						dom[k] &= t[k]
					}
				}
				continue
			}
			exact = false
		}
		if dom.empty() {
			w.st.Tables++
			return Unsat, nil
		}
		tries := 0
		for x := 0; x < 256; x++ {
			if dom[x>>6]>>(x&63)&1 == 0 {
				continue
			}
			m := w.model.with(v.name, uint64(x))
			if exact {
				w.st.Tables++
				return Sat, m
			}
			ok := true
			for i, p := range w.pc {
				if used[i] && c.Eval(p, m) == 0 {
					ok = false
					break
				}
			}
			if ok {
				w.st.Tables++
				return Sat, m
			}
			if tries++; tries >= 8 {
				break
			}
		}
	}
	pc := w.pc
	sliced := n*2 < len(pc)
	if sliced {
		pc = make([]*Term, 0, n)
		for i, p := range w.pc {
			if used[i] {
				pc = append(pc, p)
			}
		}
	}
	res, m := w.sol.Check(pc, other)
	if res == Sat && sliced {
		r := make(Model, len(w.model))
		for k, x := range w.model {
			r[k] = x
		}
		for v := range in {
			if x, ok := m[v.name]; ok {
				r[v.name] = x
			}
		}
		m = r
	}
	return res, m
}
