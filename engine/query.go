package main

// Preparation and proof of the obligations.

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// apps collects the applications in a term, once each.
func collectApps(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collectApps(a, seen, f)
	}
	if t.Op == OApp {
		f(t)
	}
}

// pending is a query left to the solvers.
type pending struct {
	text, lean string
	seqs, fps  bool
}

type query struct {
	v     *V
	ctx   *Ctx
	goal  *Term
	extra []*Term
	done  map[*Term]bool
}

// decided unfolds the recursive functions whose definition is
// decided by the context.
func (v *V) rewriteDecided(ctx *Ctx, ts []*Term, passes int) ([]*Term, map[*Term]*Term) {
	sub := map[*Term]*Term{}
	for p := 0; p < passes; p++ {
		seen := map[*Term]bool{}
		found := false
		for _, t := range ts {
			collectApps(t, seen, func(a *Term) {
				if _, ok := sub[a]; ok {
					found = true
					return
				}
				u := v.spec.Unfold(a)
				if u == nil {
					return
				}
				su := ctx.Simp(u)
				if su.Op == OIte || su == a {
					return
				}
				if su.Sort == Bool && (su.Op == OOr || su.Op == OAnd) && su.Op != OTrue && su.Op != OFalse && hasRec(v, su, a.Name) {
					// undecided boolean definition
					return
				}
				sub[a] = su
				found = true
			})
		}
		if !found {
			break
		}
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = Subst(t, sub)
			if i == len(ts)-1 {
				// the facts would be simplified by themselves
				out[i] = ctx.Simp(out[i])
			}
		}
		ts = out
	}
	return ts, sub
}

func hasRec(v *V, t *Term, name string) bool {
	r := false
	collectApps(t, map[*Term]bool{}, func(a *Term) {
		if a.Name == name {
			r = true
		}
	})
	return r
}

func occurs(x, t *Term, memo map[*Term]bool) bool {
	if x == t {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.Args {
		if occurs(x, a, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

func seqEq(t *Term) bool {
	return t.Op == OEq && t.Args[0].Sort.Kind == SSeq || t.Op == OIte || t.Op == OOr
}

func isVar(t *Term) bool {
	return t.Op == OApp && len(t.Args) == 0 && !isConstType(t) && ctorClass(t.Name) == ""
}

func (v *V) prove(ctx *Ctx, goal *Term, fuel int, limit time.Duration) Result {
	return v.proveD(ctx, goal, fuel, limit, 0)
}

var proveStats struct{ simp, solver int }

func (v *V) proveD(ctx *Ctx, goal *Term, fuel int, limit time.Duration, depth int) Result {
	if ctx.dead {
		return Result{Status: "unsat", By: "simplifier"}
	}
	g := ctx.Simp(goal)
	if g == True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	if g.Op == OAnd && depth < 6 {
		c := ctx.clone()
		r := Result{Status: "unsat", By: "simplifier"}
		for _, a := range g.Args {
			x := v.proveD(c, a, fuel, limit, depth+1)
			r.Time += x.Time
			if x.By != "simplifier" {
				r.By = x.By
			}
			if x.Status != "unsat" {
				return x
			}
			c.Assume(a)
		}
		return r
	}
	if g.Op == OOr && depth < 6 {
		// keep one disjunct as the goal
		c := ctx.clone()
		best := -1
		for i, a := range g.Args {
			if a.Op == OEq && (best < 0 || a.Args[0].Sort.Kind == SSeq) || a.Op == OAnd {
				best = i
			}
		}
		if best < 0 {
			best = len(g.Args) - 1
		}
		for i, a := range g.Args {
			if i != best {
				c.Assume(Not(a))
				if c.dead {
					return Result{Status: "unsat", By: "simplifier"}
				}
			}
		}
		return v.proveD(c, g.Args[best], fuel, limit, depth+1)
	}
	// rewriting with the decided definitions
	ts := append(append([]*Term{}, ctx.facts...), g)
	ts, _ = v.rewriteDecided(ctx, ts, 12)
	facts, g := ts[:len(ts)-1], ts[len(ts)-1]
	if g == True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	c2 := NewCtx()
	// what is known of the elements helps simplify the
	// equations between sequences
	facts = append([]*Term{}, facts...)
	sort.SliceStable(facts, func(i, j int) bool { return !seqEq(facts[i]) && seqEq(facts[j]) })
	for _, f := range facts {
		c2.Assume(f)
		if c2.dead {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	g = c2.Simp(g)
	if g == True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	if (g.Op == OAnd || g.Op == OOr) && depth < 6 {
		return v.proveD(c2, g, fuel, limit, depth+1)
	}
	hyps := append([]*Term{}, c2.facts...)
	g0 := g
	// definitions, facts and lemmas about the applications
	done := map[*Term]bool{}
	level := append(append([]*Term{}, hyps...), g)
	if fuel == 0 {
		fuel = 1
	}
	for l := 0; l <= fuel; l++ {
		var apps []*Term
		seen := map[*Term]bool{}
		for _, t := range level {
			collectApps(t, seen, func(a *Term) {
				if !done[a] {
					done[a] = true
					apps = append(apps, a)
				}
			})
		}
		level = nil
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		for _, a := range apps {
			if l < fuel {
				// the behaviour of a function that is defined by cases
				if a.Name == "O" || a.Name == "E" || a.Name == "EM" || a.Name == "OPT" {
					if u := v.spec.Unfold(a.Args[0]); u != nil {
						us, _ := v.rewriteDecided(c2, []*Term{u}, 12)
						level = append(level, c2.Simp(Eq(a, mkSym(a.Name, a.Sort, us[0], a.Args[1:]...))))
					}
				}
				if u := v.spec.Unfold(a); u != nil {
					// the applications in it whose definition is decided
					// were rewritten everywhere else
					us, _ := v.rewriteDecided(c2, []*Term{u}, 12)
					u = us[0]
					level = append(level, c2.Simp(Eq(a, u)))
				}
			}
			facts, args := v.spec.Facts[a.Name], a.Args
			if (a.Name == "O" || a.Name == "E") && a.Args[0].Op == OApp {
				// what is known of the behaviour of the function
				if l := v.spec.Facts["OF_"+a.Args[0].Name]; l != nil {
					facts, args = l, append(append([]*Term{}, a.Args[0].Args...), a.Args[1:]...)
					for _, f := range v.spec.Facts[a.Name] {
						if v.lemmaLimit != nil && f.Lemma && !v.lemmaLimit[f.Fn.Name] || f.If != nil {
							continue
						}
						if t := v.factInst(f, a.Args); t != nil {
							level = append(level, c2.Simp(t))
						}
					}
				}
			}
			if len(a.Args) > 0 && a.Args[0].Op == OApp {
				if l := v.spec.Facts[a.Name+"@"+a.Args[0].Name]; l != nil {
					for _, f := range l {
						if t := v.factInst(f, append(append([]*Term{}, a.Args[0].Args...), a.Args[1:]...)); t != nil {
							level = append(level, c2.Simp(t))
						}
					}
				}
			}
			for _, f := range facts {
				if !v.spec.visible(f.Fn) {
					continue
				}
				if f.Lemma && v.lemmaLimit != nil && !v.lemmaLimit[f.Fn.Name] {
					continue
				}
				if f.If != nil && (len(args) != len(f.Fn.Params) || c2.Simp(v.spec.evalWith(f.If, f.Fn.Params, args)) != True) {
					continue
				}
				for _, as := range alsoArgs(f, args, done) {
					if t := v.factInst(f, as); t != nil {
						t = c2.Simp(t)
						if t != True {
							level = append(level, t)
						}
					}
				}
			}
		}
		hyps = append(hyps, level...)
	}
	hyps = append(hyps, nthInsts(c2, append(hyps[:len(hyps):len(hyps)], g))...)
	for _, h := range hyps {
		if h == False {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	// substitution of the variables defined by equations
	for n := 0; n < 60; n++ {
		var x, t *Term
		for _, h := range hyps {
			if h.Op == OEq {
				a, b := h.Args[0], h.Args[1]
				if isVar(a) && !occurs(a, b, map[*Term]bool{}) {
					x, t = a, b
				} else if isVar(b) && !occurs(b, a, map[*Term]bool{}) {
					x, t = b, a
				}
				if x != nil {
					break
				}
			}
		}
		if x == nil {
			break
		}
		m := map[*Term]*Term{x: t}
		var nh []*Term
		for _, h := range hyps {
			s := Subst(h, m)
			if s != True {
				nh = append(nh, s)
			}
		}
		// keep the ranges of the variable
		if x.lo != nil {
			nh = append(nh, Le(IntB(x.lo), t))
		}
		if x.hi != nil {
			nh = append(nh, Le(t, IntB(x.hi)))
		}
		hyps = nh
		g = Subst(g, m)
	}
	c3 := NewCtx()
	for _, h := range hyps {
		c3.Assume(h)
		if c3.dead {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	g = c3.Simp(g)
	if g == True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	if h := os.Getenv("JV_H"); h != "" && strings.Contains(goal.String(), h) {
		fmt.Printf("GOAL %s\n", g)
		for _, f := range c3.facts {
			fmt.Printf("  HYP %s\n", f)
		}
	}
	text, seqs, fps := smtQuery(c3.facts, g)
	lean, _, _ := smtQuery(c2.facts, g0)
	if v.collect != nil {
		*v.collect = append(*v.collect, pending{text, lean, seqs, fps})
		return Result{Status: "unsat", By: "pending"}
	}
	r := solve(text, lean, seqs, fps, limit)
	return r
}

// alsoArgs completes the arguments of the schema with those of
// other applications.
func alsoArgs(f *Facts, args []*Term, apps map[*Term]bool) [][]*Term {
	r := [][]*Term{args}
	for _, a := range f.Also {
		i, _ := strconv.Atoi(a[2])
		var vals []*Term
		seen := map[*Term]bool{}
		for t := range apps {
			if t.Name == a[1] && i < len(t.Args) && !seen[t.Args[i]] {
				seen[t.Args[i]] = true
				vals = append(vals, t.Args[i])
			}
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i].id < vals[j].id })
		var n [][]*Term
		for _, x := range r {
			for _, y := range vals {
				n = append(n, append(x[:len(x):len(x)], y))
			}
		}
		r = n
	}
	return r
}

// factInst returns the instance of a fact schema or lemma.
func (v *V) factInst(f *Facts, args []*Term) *Term {
	if len(args) != len(f.Fn.Params) {
		return nil
	}
	for i, a := range args {
		if a.Sort != f.Fn.PSorts[i] {
			return nil
		}
	}
	return v.spec.inst(f.Fn, args)
}

// entails tells whether a simple condition follows from the facts.
func (v *V) entails(st *State, t *Term) bool {
	saved := v.collect
	v.collect = nil
	r := v.prove(st.ctx, t, 0, 2*time.Second*timeScale)
	v.collect = saved
	return r.Status == "unsat"
}

// nthInsts instantiates the equations between parts of sequences
// of structs at the positions that are read.
func nthInsts(c *Ctx, ts []*Term) []*Term {
	type part struct{ a, lo, n, b, lo2 *Term }
	var parts []part
	split := func(t *Term) (s, lo, n *Term) {
		if t.Op == OExt {
			return t.Args[0], t.Args[1], t.Args[2]
		}
		return t, Zero, Len(t)
	}
	for _, t := range ts {
		if t.Op != OEq || t.Args[0].Sort.Kind != SSeq || t.Args[0].Sort == Bytes || t.Args[0].Op != OExt && t.Args[1].Op != OExt {
			continue
		}
		a, lo, n := split(t.Args[0])
		b, lo2, _ := split(t.Args[1])
		if a.Op == OCat || b.Op == OCat {
			continue
		}
		parts = append(parts, part{a, lo, n, b, lo2}, part{b, lo2, n, a, lo})
	}
	if len(parts) == 0 {
		return nil
	}
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.Args {
			walk(x)
		}
		if t.Op != ONth {
			return
		}
		for _, p := range parts {
			if p.a != t.Args[0] {
				continue
			}
			k := t.Args[1]
			f := c.Simp(Imp(And(Le(p.lo, k), Lt(k, Add(p.lo, p.n))), Eq(t, Nth(p.b, Add(Sub(k, p.lo), p.lo2)))))
			if f != True {
				r = append(r, f)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return r
}
