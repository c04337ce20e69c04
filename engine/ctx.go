package main

// A Ctx is a path condition: a conjunction of facts, with the
// knowledge derived from them to simplify later terms.

import "math/big"

type Ctx struct {
	facts  []*Term
	known  map[*Term]bool
	bounds map[*Term]rng // by linear key
	memo   map[*Term]*Term
	dead   bool
}

func NewCtx() *Ctx {
	return &Ctx{known: map[*Term]bool{}, bounds: map[*Term]rng{}, memo: map[*Term]*Term{}}
}

func (c *Ctx) clone() *Ctx {
	n := &Ctx{facts: c.facts[:len(c.facts):len(c.facts)], dead: c.dead, memo: map[*Term]*Term{}}
	n.known = make(map[*Term]bool, len(c.known)+4)
	for k, v := range c.known {
		n.known[k] = v
	}
	n.bounds = make(map[*Term]rng, len(c.bounds)+4)
	for k, v := range c.bounds {
		n.bounds[k] = v
	}
	return n
}

// linKey splits t into sign * key + n.
func linKey(t *Term) (key *Term, neg bool, n *big.Int) {
	if t.Op != OAdd {
		return t, false, bzero
	}
	l := newLin()
	neg = t.Coefs[0].Sign() < 0
	for i, a := range t.Args {
		c := t.Coefs[i]
		if neg {
			c = new(big.Int).Neg(c)
		}
		l.add1(a, c)
	}
	return l.term(), neg, t.N
}

func isect(a, b rng) rng {
	r := a
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}

// Range returns the interval of t under the context.
func (c *Ctx) Range(t *Term) rng { return c.rangeD(t, 4) }

func (c *Ctx) rangeD(t *Term, d int) rng {
	r := rng{t.lo, t.hi}
	if t.isInt() || d == 0 {
		return r
	}
	key, neg, n := linKey(t)
	if b, ok := c.bounds[key]; ok {
		if neg {
			var x rng
			if b.hi != nil {
				x.lo = new(big.Int).Neg(b.hi)
			}
			if b.lo != nil {
				x.hi = new(big.Int).Neg(b.lo)
			}
			b = x
		}
		var x rng
		if b.lo != nil {
			x.lo = new(big.Int).Add(b.lo, n)
		}
		if b.hi != nil {
			x.hi = new(big.Int).Add(b.hi, n)
		}
		r = isect(r, x)
	}
	switch t.Op {
	case OAdd:
		x := rng{new(big.Int).Set(t.N), new(big.Int).Set(t.N)}
		for i, a := range t.Args {
			ar := c.rangeD(a, d-1)
			k := t.Coefs[i]
			al, ah := ar.lo, ar.hi
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if x.lo != nil {
				if al == nil {
					x.lo = nil
				} else {
					x.lo = new(big.Int).Add(x.lo, new(big.Int).Mul(k, al))
				}
			}
			if x.hi != nil {
				if ah == nil {
					x.hi = nil
				} else {
					x.hi = new(big.Int).Add(x.hi, new(big.Int).Mul(k, ah))
				}
			}
		}
		r = isect(r, x)
	case ODiv:
		a := c.rangeD(t.Args[0], d-1)
		var x rng
		if a.lo != nil {
			x.lo = fdiv(a.lo, t.Args[1].N)
		}
		if a.hi != nil {
			x.hi = fdiv(a.hi, t.Args[1].N)
		}
		r = isect(r, x)
	case OIte:
		a, b := c.rangeD(t.Args[1], d-1), c.rangeD(t.Args[2], d-1)
		var x rng
		if a.lo != nil && b.lo != nil {
			x.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			x.hi = bmax(a.hi, b.hi)
		}
		r = isect(r, x)
	}
	return r
}

// Assume adds a fact; it reports whether the context is still feasible.
func (c *Ctx) Assume(f *Term) bool {
	f = c.Simp(f)
	if f == True || c.dead {
		return !c.dead
	}
	if f.Op == OAnd {
		for _, a := range f.Args {
			if !c.Assume(a) {
				return false
			}
		}
		return true
	}
	c.facts = append(c.facts, f)
	if f == False {
		c.dead = true
		return false
	}
	c.learn(f)
	// revisit the disjunctions that are now decided
	for i := 0; i < len(c.facts); i++ {
		g := c.facts[i]
		if g.Op != OOr && g.Op != OIte {
			continue
		}
		delete(c.known, g)
		delete(c.known, Not(g))
		s := c.Simp(g)
		if s == g {
			c.known[g] = true
			continue
		}
		nf := append([]*Term{}, c.facts[:i]...)
		c.facts = append(nf, c.facts[i+1:]...)
		return c.Assume(s)
	}
	return true
}

func (c *Ctx) learn(f *Term) {
	c.memo = map[*Term]*Term{}
	c.known[f] = true
	if f.Op == ONot {
		c.known[f.Args[0]] = false
	} else {
		c.known[Not(f)] = false
	}
	switch f.Op {
	case OLe0:
		key, neg, n := linKey(f.Args[0])
		// sign*key + n <= 0
		b := c.bounds[key]
		if neg {
			b = isect(b, rng{lo: n}) // -key + n <= 0
		} else {
			b = isect(b, rng{hi: new(big.Int).Neg(n)})
		}
		c.setBound(key, b)
		c.derive(f.Args[0])
	case OEq:
		if f.Args[0].Sort == Int {
			key, neg, n := linKey(Sub(f.Args[0], f.Args[1]))
			v := n
			if !neg {
				v = new(big.Int).Neg(n)
			}
			c.setBound(key, isect(c.bounds[key], rng{v, v}))
		}
	case ONot:
		if e := f.Args[0]; e.Op == OEq && e.Args[0].Sort == Int {
			key, _, _ := linKey(Sub(e.Args[0], e.Args[1]))
			c.setBound(key, c.bounds[key])
		}
	}
}

// derive bounds each atom of the linear term t <= 0 with the
// ranges of the other ones.
func (c *Ctx) derive(t *Term) {
	if t.Op != OAdd || len(t.Args) > 6 || len(t.Args) < 2 {
		return
	}
	for i, a := range t.Args {
		sum := new(big.Int).Set(t.N)
		ok := true
		for j, x := range t.Args {
			if j == i {
				continue
			}
			r := c.rangeD(x, 2)
			m := r.lo
			if t.Coefs[j].Sign() < 0 {
				m = r.hi
			}
			if m == nil {
				ok = false
				break
			}
			sum.Add(sum, new(big.Int).Mul(t.Coefs[j], m))
		}
		if !ok {
			continue
		}
		// coef*a <= -sum
		sum.Neg(sum)
		k := t.Coefs[i]
		key, neg, n := linKey(a)
		if neg || n.Sign() != 0 {
			continue
		}
		b := c.bounds[key]
		if k.Sign() > 0 {
			b = isect(b, rng{hi: fdiv(sum, k)})
		} else {
			// a >= sum/k, rounded up
			m := new(big.Int).Neg(k)
			q := new(big.Int).Neg(fdiv(sum, m))
			b = isect(b, rng{lo: q})
		}
		c.setBound(key, b)
	}
}

// setBound stores a bound, tightened with the known disequalities.
func (c *Ctx) setBound(key *Term, b rng) {
	r := isect(b, rng{key.lo, key.hi})
	for ch := true; ch; {
		ch = false
		if r.lo != nil && c.known[Not(Eq(key, IntB(r.lo)))] {
			r.lo = new(big.Int).Add(r.lo, bone)
			ch = true
		}
		if r.hi != nil && c.known[Not(Eq(key, IntB(r.hi)))] {
			r.hi = new(big.Int).Sub(r.hi, bone)
			ch = true
		}
		if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) > 0 {
			c.dead = true
			return
		}
	}
	c.bounds[key] = r
}

// Simp simplifies t under the context.
func (c *Ctx) Simp(t *Term) *Term {
	if r, ok := c.memo[t]; ok {
		return r
	}
	r := c.simp(t)
	c.memo[t] = r
	return r
}

func (c *Ctx) simp(t *Term) *Term {
	if t.Sort == Bool && t.Op != OTrue && t.Op != OFalse {
		if v, ok := c.known[t]; ok {
			return BoolC(v)
		}
	}
	if t.Op == OIte {
		cond := c.Simp(t.Args[0])
		if cond == True {
			return c.Simp(t.Args[1])
		}
		if cond == False {
			return c.Simp(t.Args[2])
		}
	}
	r := t
	if len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = c.Simp(a)
		}
		r = rebuild(t, args)
	}
	if r.Sort == Bool && r != t {
		if v, ok := c.known[r]; ok {
			return BoolC(v)
		}
	}
	switch r.Op {
	case OLe0:
		b := c.Range(r.Args[0])
		if b.hi != nil && b.hi.Sign() <= 0 {
			return True
		}
		if b.lo != nil && b.lo.Sign() > 0 {
			return False
		}
	case OEq:
		if r.Args[0].Sort == Int {
			b := c.Range(Sub(r.Args[0], r.Args[1]))
			if b.lo != nil && b.lo.Sign() > 0 || b.hi != nil && b.hi.Sign() < 0 {
				return False
			}
			if b.lo != nil && b.hi != nil && b.lo.Sign() == 0 && b.hi.Sign() == 0 {
				return True
			}
		}
	case OExt:
		if r.Args[0].Op == OCat {
			if x := extR(r.Args[0], r.Args[1], r.Args[2], c.Range); x != r {
				return c.Simp(x)
			}
		}
	case ONth:
		if r.Args[0].Op == OCat {
			if x := nthR(r.Args[0], r.Args[1], c.Range); x != r {
				return c.Simp(x)
			}
		}
	case OCat:
		// s[o:o+n] followed by the known value of s[o+n]
		for i := 0; i+1 < len(r.Args); i++ {
			e, u := r.Args[i], r.Args[i+1]
			if e.Op != OExt || u.Op != OUnit || u.Args[0].Op == ONth {
				continue
			}
			x := Nth(e.Args[0], Add(e.Args[1], e.Args[2]))
			if x.Op == ONth && c.Simp(x) == u.Args[0] {
				as := append([]*Term{}, r.Args[:i]...)
				as = append(as, Ext(e.Args[0], e.Args[1], Add(e.Args[2], One)))
				as = append(as, r.Args[i+2:]...)
				return c.Simp(Cat(r.Sort, as...))
			}
		}
	case OMod, ODiv:
		b := c.Range(r.Args[0])
		if b.lo != nil && b.hi != nil {
			k := r.Args[1].N
			l := fdiv(b.lo, k)
			if l.Cmp(fdiv(b.hi, k)) == 0 {
				if r.Op == ODiv {
					return IntB(l)
				}
				return Sub(r.Args[0], IntB(new(big.Int).Mul(l, k)))
			}
		}
	}
	if r.Sort == Int && !r.isInt() && r.Op != OAdd {
		if b := c.Range(r); b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 {
			return IntB(b.lo)
		}
	}
	return r
}
