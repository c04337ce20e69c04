package main

// Hash-consed first-order terms with a normalising
// constructor for each operator. Everything the verifier
// proves is a Bool term over these.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SKind int

const (
	SInt SKind = iota
	SBool
	SF32
	SF64
	SSeq
	SDT
	SArr
)

type Sort struct {
	Kind   SKind
	Name   string // SMT name
	Elem   *Sort
	Key    *Sort
	Fields []SField
}

type SField struct {
	Name string
	Sort *Sort
}

var (
	Int   = &Sort{Kind: SInt, Name: "Int"}
	Bool  = &Sort{Kind: SBool, Name: "Bool"}
	F32   = &Sort{Kind: SF32, Name: "(_ FloatingPoint 8 24)"}
	F64   = &Sort{Kind: SF64, Name: "(_ FloatingPoint 11 53)"}
	sorts = map[string]*Sort{}
	Bytes = SeqOf(Int)
)

func SeqOf(e *Sort) *Sort {
	n := "(Seq " + e.Name + ")"
	if s := sorts[n]; s != nil {
		return s
	}
	s := &Sort{Kind: SSeq, Name: n, Elem: e}
	sorts[n] = s
	return s
}

func ArrOf(k, v *Sort) *Sort {
	n := "(Array " + k.Name + " " + v.Name + ")"
	if s := sorts[n]; s != nil {
		return s
	}
	s := &Sort{Kind: SArr, Name: n, Elem: v, Key: k}
	sorts[n] = s
	return s
}

type Op int

const (
	OInt Op = iota // integer constant
	OTrue
	OFalse
	OApp // uninterpreted application (or constant when no args)
	OAdd // n + sum(coef_i * arg_i)
	OMul // product of two non constant terms
	ODiv // floor division by a positive constant
	OMod // modulo a positive constant
	OIte
	OEq
	OLe0 // arg <= 0
	ONot
	OAnd
	OOr
	OEmpty // empty sequence
	OUnit
	OCat
	OLen
	ONth
	OExt // extract(s, off, len)
	OMk
	OSel
	ORead  // array select
	OWrite // array store
	OConstArr
	OFP // floating point operator, name in Name
)

type Term struct {
	neg   *Term // negation, once computed
	Op    Op
	Sort  *Sort
	Name  string
	Args  []*Term
	N     *big.Int   // OInt value, OAdd constant
	Coefs []*big.Int // OAdd coefficients
	Idx   int        // OSel field
	id    int
	lo    *big.Int // intrinsic range of Int terms, if any
	hi    *big.Int
}

var (
	table = map[string]*Term{}
	terms []*Term
	bzero = big.NewInt(0)
	bone  = big.NewInt(1)
)

func mk(t Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|%s|", t.Op, t.Name, t.Idx, t.Sort.Name)
	if t.N != nil {
		b.WriteString(t.N.String())
	}
	for i, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.Coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.Coefs[i].String())
		}
	}
	k := b.String()
	if r := table[k]; r != nil {
		return r
	}
	r := &t
	r.id = len(terms)
	terms = append(terms, r)
	table[k] = r
	r.setRange()
	return r
}

// ranges declared for the results of uninterpreted functions
type rng struct{ lo, hi *big.Int }

var appRange = map[string]rng{}

func declRange(name string, lo, hi *big.Int) { appRange[name] = rng{lo, hi} }

var maxLen = new(big.Int).Lsh(bone, 47)

func (t *Term) setRange() {
	if t.Sort != Int {
		return
	}
	switch t.Op {
	case OInt:
		t.lo, t.hi = t.N, t.N
	case OApp:
		if r, ok := appRange[t.Name]; ok {
			t.lo, t.hi = r.lo, r.hi
		} else if i := strings.IndexByte(t.Name, '!'); i > 0 {
			if r, ok := appRange[t.Name[:i]]; ok {
				t.lo, t.hi = r.lo, r.hi
			}
		}
	case OLen:
		t.lo, t.hi = bzero, maxLen
	case ONth:
		if t.Args[0].Sort == Bytes {
			t.lo, t.hi = bzero, big.NewInt(255)
		}
	case OSel:
		if r, ok := appRange["sel:"+t.Name]; ok {
			t.lo, t.hi = r.lo, r.hi
		}
	case OMod:
		t.lo, t.hi = bzero, new(big.Int).Sub(t.Args[1].N, bone)
	case ODiv:
		a := t.Args[0]
		if a.lo != nil {
			t.lo = fdiv(a.lo, t.Args[1].N)
		}
		if a.hi != nil {
			t.hi = fdiv(a.hi, t.Args[1].N)
		}
	case OAdd:
		lo, hi := new(big.Int).Set(t.N), new(big.Int).Set(t.N)
		for i, a := range t.Args {
			c := t.Coefs[i]
			al, ah := a.lo, a.hi
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, ah))
				}
			}
		}
		t.lo, t.hi = lo, hi
	case OIte:
		a, b := t.Args[1], t.Args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = bmax(a.hi, b.hi)
		}
	}
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func fdiv(a, b *big.Int) *big.Int { // floor, b > 0
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean == floor for b > 0
	return q
}
func fmod(a, b *big.Int) *big.Int { return new(big.Int).Mod(a, b) }

// ---- constants

var True = mk(Term{Op: OTrue, Sort: Bool})
var False = mk(Term{Op: OFalse, Sort: Bool})

func IntB(n *big.Int) *Term { return mk(Term{Op: OInt, Sort: Int, N: n}) }
func IntC(n int64) *Term    { return IntB(big.NewInt(n)) }
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) isInt() bool { return t.Op == OInt }
func (t *Term) isC(n int64) bool {
	return t.Op == OInt && t.N.IsInt64() && t.N.Int64() == n
}
func (t *Term) i64() int64 { return t.N.Int64() }

var Zero, One = IntC(0), IntC(1)

func App(name string, s *Sort, args ...*Term) *Term {
	if r := rewriteApp(name, s, args); r != nil {
		return r
	}
	return mk(Term{Op: OApp, Sort: s, Name: name, Args: args})
}

var freshN int

func Fresh(name string, s *Sort) *Term {
	freshN++
	return mk(Term{Op: OApp, Sort: s, Name: fmt.Sprintf("%s!%d", name, freshN)})
}

// ---- integers

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func newLin() *lin { return &lin{c: new(big.Int), m: map[*Term]*big.Int{}} }
func (l *lin) add(t *Term, k *big.Int) {
	switch t.Op {
	case OInt:
		l.c.Add(l.c, new(big.Int).Mul(t.N, k))
	case OAdd:
		l.c.Add(l.c, new(big.Int).Mul(t.N, k))
		for i, a := range t.Args {
			l.add1(a, new(big.Int).Mul(t.Coefs[i], k))
		}
	default:
		l.add1(t, k)
	}
}
func (l *lin) add1(t *Term, k *big.Int) {
	o := l.m[t]
	if o == nil {
		o = new(big.Int)
	}
	n := new(big.Int).Add(o, k)
	if n.Sign() == 0 {
		delete(l.m, t)
	} else {
		l.m[t] = n
	}
}
func (l *lin) sorted() []*Term {
	r := make([]*Term, 0, len(l.m))
	for t := range l.m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
func (l *lin) term() *Term {
	if len(l.m) == 0 {
		return IntB(l.c)
	}
	ts := l.sorted()
	if len(ts) == 1 && l.c.Sign() == 0 && l.m[ts[0]].Cmp(bone) == 0 {
		return ts[0]
	}
	cs := make([]*big.Int, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	return mk(Term{Op: OAdd, Sort: Int, Args: ts, Coefs: cs, N: l.c})
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, bone)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, bone)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Zero, a) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		if a.N.Sign() != 0 {
			l.add(b, a.N)
		}
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OMul, Sort: Int, Args: []*Term{a, b}})
}

// Div is the floor division by a positive constant.
func Div(a, b *Term) *Term {
	if !b.isInt() || b.N.Sign() <= 0 {
		return App("divt", Int, a, b)
	}
	k := b.N
	if k.Cmp(bone) == 0 {
		return a
	}
	if a.isInt() {
		return IntB(fdiv(a.N, k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := fdiv(a.lo, k), fdiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return IntB(l)
		}
	}
	if a.Op == ODiv {
		return Div(a.Args[0], IntB(new(big.Int).Mul(a.Args[1].N, k)))
	}
	if a.Op == OMod {
		m := a.Args[1].N
		if fmod(m, k).Sign() == 0 {
			// (x mod ab) div a == (x div a) mod b
			return Mod(Div(a.Args[0], b), IntB(fdiv(m, k)))
		}
	}
	if a.Op == OAdd {
		// take out the multiples of k
		in, out := newLin(), newLin()
		for i, x := range a.Args {
			if fmod(a.Coefs[i], k).Sign() == 0 {
				out.add1(x, fdiv(a.Coefs[i], k))
			} else {
				in.add1(x, a.Coefs[i])
			}
		}
		in.c.Set(fmod(a.N, k))
		out.c.Set(fdiv(a.N, k))
		if len(out.m) > 0 || out.c.Sign() != 0 {
			return Add(out.term(), Div(in.term(), b))
		}
		// divide all the coefficients by their gcd with k
		g := new(big.Int).Set(k)
		for _, c := range a.Coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bone) > 0 {
			n := newLin()
			for i, x := range a.Args {
				n.add1(x, fdiv(a.Coefs[i], g))
			}
			n.c.Set(fdiv(a.N, g))
			return Div(n.term(), IntB(fdiv(k, g)))
		}
	}
	return mk(Term{Op: ODiv, Sort: Int, Args: []*Term{a, b}})
}

func Mod(a, b *Term) *Term {
	if !b.isInt() || b.N.Sign() <= 0 {
		return App("modt", Int, a, b)
	}
	k := b.N
	if k.Cmp(bone) == 0 {
		return Zero
	}
	if a.isInt() {
		return IntB(fmod(a.N, k))
	}
	if a.lo != nil && a.hi != nil {
		l := fdiv(a.lo, k)
		if l.Cmp(fdiv(a.hi, k)) == 0 {
			return Sub(a, IntB(new(big.Int).Mul(l, k)))
		}
	}
	if a.Op == OMod && fmod(a.Args[1].N, k).Sign() == 0 {
		return Mod(a.Args[0], b)
	}
	if a.Op == OAdd {
		n := newLin()
		for i, x := range a.Args {
			c := fmod(a.Coefs[i], k)
			if c.Sign() == 0 {
				continue
			}
			if x.Op == OMod && fmod(x.Args[1].N, k).Sign() == 0 {
				n.add(x.Args[0], c)
			} else {
				n.add1(x, c)
			}
		}
		n.c.Add(n.c, a.N)
		// reduce
		m := newLin()
		for t, c := range n.m {
			if c2 := fmod(c, k); c2.Sign() != 0 {
				// keep small negative coefficients readable
				if new(big.Int).Sub(k, c2).Cmp(c2) < 0 {
					c2 = new(big.Int).Sub(c2, k)
				}
				m.m[t] = c2
			}
		}
		m.c.Set(fmod(n.c, k))
		if new(big.Int).Lsh(m.c, 1).Cmp(k) > 0 {
			m.c.Sub(m.c, k)
		}
		t := m.term()
		if t != a {
			return Mod(t, b)
		}
	}
	return mk(Term{Op: OMod, Sort: Int, Args: []*Term{a, b}})
}

// Tdiv and Trem are the truncated division of Go.
func Tdiv(a, b *Term) *Term {
	if b.isInt() && b.N.Sign() > 0 {
		if a.lo != nil && a.lo.Sign() >= 0 {
			return Div(a, b)
		}
		return Ite(Ge(a, Zero), Div(a, b), Neg(Div(Neg(a), b)))
	}
	return App("tdiv", Int, a, b)
}
func Trem(a, b *Term) *Term {
	if b.isInt() && b.N.Sign() > 0 {
		if a.lo != nil && a.lo.Sign() >= 0 {
			return Mod(a, b)
		}
		return Ite(Ge(a, Zero), Mod(a, b), Neg(Mod(Neg(a), b)))
	}
	return App("trem", Int, a, b)
}

// ---- booleans

func Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = not(a)
	}
	return a.neg
}

func not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OLe0:
		// !(x <= 0)  ==  1 - x <= 0
		return le0(Sub(One, a.Args[0]))
	case OAnd:
		r := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			r[i] = Not(x)
		}
		return Or(r...)
	case OOr:
		r := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			r[i] = Not(x)
		}
		return And(r...)
	case OIte:
		return Ite(a.Args[0], Not(a.Args[1]), Not(a.Args[2]))
	}
	return mk(Term{Op: ONot, Sort: Bool, Args: []*Term{a}})
}

func le0(t *Term) *Term {
	if t.isInt() {
		return BoolC(t.N.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return True
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return False
	}
	if t.Op == OIte && t.Args[1].isInt() && t.Args[2].isInt() {
		return Ite(t.Args[0], le0(t.Args[1]), le0(t.Args[2]))
	}
	if t.Op == OAdd {
		g := new(big.Int)
		for _, c := range t.Coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bone) > 0 {
			// sum c_i x_i + n <= 0  ==  sum (c_i/g) x_i + ceil(n/g) <= 0
			n := newLin()
			for i, x := range t.Args {
				n.add1(x, fdiv(t.Coefs[i], g))
			}
			n.c.Neg(fdiv(new(big.Int).Neg(t.N), g))
			t = n.term()
		}
	}
	// a bound of a quotient is one of the dividend
	if t.Op == ODiv && t.Args[1].isInt() {
		return le0(Sub(t.Args[0], IntB(new(big.Int).Sub(t.Args[1].N, bone))))
	}
	if t.Op == OAdd && len(t.Args) == 1 && t.Args[0].Op == ODiv && t.Args[0].Args[1].isInt() {
		x, k := t.Args[0].Args[0], t.Args[0].Args[1].N
		switch {
		case t.Coefs[0].Cmp(bone) == 0: // x/k <= -n
			c := new(big.Int).Neg(t.N)
			c.Add(c.Mul(c, k), k)
			return le0(Sub(x, IntB(c.Sub(c, bone))))
		case t.Coefs[0].Cmp(big.NewInt(-1)) == 0: // n <= x/k
			return le0(Sub(IntB(new(big.Int).Mul(t.N, k)), x))
		}
	}
	return mk(Term{Op: OLe0, Sort: Bool, Args: []*Term{t}})
}
func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(Sub(a, b), One)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(Term{Op: op, Sort: Bool, Args: out})
}
func And(ts ...*Term) *Term { return nary(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, False, True, ts) }
func Imp(a, b *Term) *Term  { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == Bool {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == OIte && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	return mk(Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b && a.Sort.Kind != SF32 && a.Sort.Kind != SF64 {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	switch a.Sort.Kind {
	case SBool:
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		case a == Not(b):
			return False
		}
		// canonical polarity
		if a.Op == ONot && b.Op == ONot {
			return Eq(a.Args[0], b.Args[0])
		}
	case SInt:
		if a.isC(0) {
			a, b = b, a
		}
		if b.isC(0) && a.Op == OApp && (a.Name == "i.rt" || a.Name == "itabtype" || a.Name == "iface") {
			// only the nil interface has no type
			return Eq(a.Args[0], b)
		}
		d := Sub(a, b)
		if d.isInt() {
			return BoolC(d.N.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return False
		}
		if b.Op == OIte {
			a, b = b, a
		}
		if a.Op == OIte && b.isInt() && (a.Args[1].isInt() || a.Args[2].isInt()) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if r := eqApps(a, b); r != nil {
			return r
		}
		if d.Op == OAdd {
			g := new(big.Int)
			for _, c := range d.Coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if fmod(d.N, g).Sign() != 0 {
				return False
			}
			// normalise the sign and divide by the gcd
			if d.Coefs[0].Sign() < 0 {
				g = new(big.Int).Neg(g)
			}
			n := newLin()
			for i, x := range d.Args {
				n.add1(x, new(big.Int).Quo(d.Coefs[i], g))
			}
			n.c.Quo(d.N, g)
			d = n.term()
		}
		// canonical presentation: x == const when possible
		if d.Op == OAdd && len(d.Args) == 1 && d.Coefs[0].Cmp(bone) == 0 {
			a, b = d.Args[0], IntB(new(big.Int).Neg(d.N))
		} else if d.Op != OAdd {
			a, b = d, Zero
		} else if len(d.Args) == 2 && d.N.Sign() == 0 && d.Coefs[0].Cmp(bone) == 0 && d.Coefs[1].Cmp(big.NewInt(-1)) == 0 {
			a, b = d.Args[0], d.Args[1]
		} else {
			a, b = d, Zero
		}
		if a.Op == ODiv && b.isInt() && a.Args[1].isInt() && a.Args[1].N.Cmp(big.NewInt(4)) <= 0 && a.Args[1].N.Sign() > 0 {
			// a quotient by a small number
			var or []*Term
			for i := int64(0); i < a.Args[1].i64(); i++ {
				or = append(or, Eq(a.Args[0], Add(Mul(b, a.Args[1]), IntC(i))))
			}
			return Or(or...)
		}
		return mk(Term{Op: OEq, Sort: Bool, Args: []*Term{a, b}})
	case SSeq:
		return eqSeq(a, b)
	case SDT:
		if a.Op == OMk && b.Op == OMk {
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		if a.Op == OMk || b.Op == OMk {
			var cs []*Term
			for i := range a.Sort.Fields {
				cs = append(cs, Eq(Sel(a, i), Sel(b, i)))
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OEq, Sort: Bool, Args: []*Term{a, b}})
}

// ---- sequences

func Empty(s *Sort) *Term { return mk(Term{Op: OEmpty, Sort: s}) }
func Unit(t *Term) *Term  { return mk(Term{Op: OUnit, Sort: SeqOf(t.Sort), Args: []*Term{t}}) }
func Str(s string) *Term {
	ts := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		ts[i] = Unit(IntC(int64(s[i])))
	}
	return Cat(Bytes, ts...)
}

func Cat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Sort != s {
			panic("cat sort " + t.Sort.Name + " in " + s.Name + ": " + t.String())
		}
		switch t.Op {
		case OEmpty:
			return
		case OCat:
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if n := len(out); n > 0 {
			if m := joinExt(out[n-1], t); m != nil {
				out[n-1] = m
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	switch len(out) {
	case 0:
		return Empty(s)
	case 1:
		return out[0]
	}
	return mk(Term{Op: OCat, Sort: s, Args: out})
}

// joinExt merges two adjacent slices of the same sequence.
func joinExt(a, b *Term) *Term {
	base := func(t *Term) (s, off, n *Term) {
		if t.Op == OExt {
			return t.Args[0], t.Args[1], t.Args[2]
		}
		if t.Op == OUnit && t.Args[0].Op == ONth {
			return t.Args[0].Args[0], t.Args[0].Args[1], One
		}
		return nil, nil, nil
	}
	s1, o1, n1 := base(a)
	if s1 == nil {
		return nil
	}
	s2, o2, n2 := base(b)
	if s1 != s2 || Add(o1, n1) != o2 {
		return nil
	}
	return Ext(s1, o1, Add(n1, n2))
}

func Len(t *Term) *Term {
	switch t.Op {
	case OEmpty:
		return Zero
	case OUnit:
		return One
	case OCat:
		l := newLin()
		for _, a := range t.Args {
			l.add(Len(a), bone)
		}
		return l.term()
	case OExt:
		return t.Args[2]
	case OApp:
		if strings.HasPrefix(t.Name, "mem") && len(t.Args) == 2 {
			return t.Args[1]
		}
		if strings.HasPrefix(t.Name, "sorted_") && len(t.Args) == 1 {
			return Len(t.Args[0]) // sorting keeps the number of elements
		}
	case OIte:
		if r := Ite(t.Args[0], Len(t.Args[1]), Len(t.Args[2])); r.Op != OIte {
			return r
		}
	}
	return mk(Term{Op: OLen, Sort: Int, Args: []*Term{t}})
}

func Nth(s, i *Term) *Term { return nthR(s, i, staticRange) }

func nthR(s, i *Term, rg func(*Term) rng) *Term {
	switch s.Op {
	case OUnit:
		if i.isC(0) {
			return s.Args[0]
		}
	case OExt:
		return nthR(s.Args[0], Add(s.Args[1], i), rg)
	case OCat:
		pos := Zero
		for _, a := range s.Args {
			d := Sub(i, pos)
			if a.Op == OUnit {
				if d.isC(0) {
					return a.Args[0]
				}
			} else if dr := rg(d); dr.lo != nil && dr.lo.Sign() >= 0 {
				// inside of a when i - pos < len(a)
				if x := rg(Sub(Len(a), d)); x.lo != nil && x.lo.Sign() > 0 {
					return nthR(a, d, rg)
				}
			}
			if dr := rg(d); dr.hi != nil && dr.hi.Sign() < 0 {
				break
			}
			pos = Add(pos, Len(a))
		}
		// look up from the end
	}
	return mk(Term{Op: ONth, Sort: s.Sort.Elem, Args: []*Term{s, i}})
}

// Ext is s[off : off+n], for arguments known to be in bounds
// (the verifier proves the bounds of each slice expression
// before it builds the term).
func Ext(s, off, n *Term) *Term { return extR(s, off, n, staticRange) }

func staticRange(t *Term) rng { return rng{t.lo, t.hi} }

func extR(s, off, n *Term, rg func(*Term) rng) *Term {
	if n.isInt() && n.N.Sign() <= 0 {
		return Empty(s.Sort)
	}
	if off.isC(0) && n == Len(s) {
		return s
	}
	switch s.Op {
	case OExt:
		return extR(s.Args[0], Add(s.Args[1], off), n, rg)
	case OUnit:
		if off.isC(0) && n.isC(1) {
			return s
		}
	case OCat:
		// drop the leading and trailing parts that are
		// syntactically outside of the range.
		args := s.Args
		for len(args) > 0 {
			d := Sub(off, Len(args[0]))
			if dr := rg(d); dr.lo == nil || dr.lo.Sign() < 0 {
				break
			}
			off = d
			args = args[1:]
		}
		if off.isC(0) {
			// take whole parts while they fit
			var out []*Term
			rest := n
			i := 0
			for ; i < len(args); i++ {
				d := Sub(rest, Len(args[i]))
				if dr := rg(d); dr.lo == nil || dr.lo.Sign() < 0 {
					break
				}
				out = append(out, args[i])
				rest = d
			}
			if rest.isC(0) {
				return Cat(s.Sort, out...)
			}
			if len(out) > 0 && i < len(args) {
				out = append(out, extR(Cat(s.Sort, args[i:]...), Zero, rest, rg))
				return Cat(s.Sort, out...)
			}
			if i == 0 && len(args) > 0 {
				// fits in the first part?
				d := Sub(Len(args[0]), rest)
				if dr := rg(d); dr.lo != nil && dr.lo.Sign() >= 0 {
					if len(args) < len(s.Args) || len(args) > 1 {
						return extR(args[0], Zero, rest, rg)
					}
				}
			}
		} else if len(args) > 0 {
			end := Add(off, n)
			d := Sub(Len(args[0]), end)
			if dr := rg(d); dr.lo != nil && dr.lo.Sign() >= 0 && len(s.Args) > 1 {
				return extR(args[0], off, n, rg)
			}
			// the range starts in args[0] and includes its end
			h := Sub(Len(args[0]), off)
			if e := Sub(n, h); e.lo != nil && e.lo.Sign() >= 0 && h.lo != nil && h.lo.Sign() >= 0 && len(args) > 1 {
				return Cat(s.Sort, Ext(args[0], off, h), Ext(Cat(s.Sort, args[1:]...), Zero, e))
			}
		}
		if len(args) < len(s.Args) {
			if len(args) == 0 {
				return Empty(s.Sort)
			}
			return Ext(Cat(s.Sort, args...), off, n)
		}
		// drop trailing parts
		end := Add(off, n)
		for k := len(args) - 1; k > 0; k-- {
			pl := Len(Cat(s.Sort, args[:k]...))
			d := Sub(pl, end)
			if dr := rg(d); dr.lo == nil || dr.lo.Sign() < 0 {
				break
			}
			if k < len(s.Args) {
				return Ext(Cat(s.Sort, args[:k]...), off, n)
			}
		}
	}
	return mk(Term{Op: OExt, Sort: s.Sort, Args: []*Term{s, off, n}})
}

// Upd is s with the element i replaced by v (i in bounds).
func Upd(s, i, v *Term) *Term {
	return Cat(s.Sort, Ext(s, Zero, i), Unit(v), Ext(s, Add(i, One), Sub(Len(s), Add(i, One))))
}

func parts(t *Term) []*Term {
	if t.Op == OCat {
		return t.Args
	}
	if t.Op == OEmpty {
		return nil
	}
	return []*Term{t}
}

func eqSeq(a, b *Term) *Term {
	pa, pb := parts(a), parts(b)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	var cs []*Term
	for len(pa) > 0 && len(pb) > 0 && pa[0].Op == OUnit && pb[0].Op == OUnit {
		c := Eq(pa[0].Args[0], pb[0].Args[0])
		if c == False {
			return False
		}
		cs = append(cs, c)
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1].Op == OUnit && pb[len(pb)-1].Op == OUnit {
		c := Eq(pa[len(pa)-1].Args[0], pb[len(pb)-1].Args[0])
		if c == False {
			return False
		}
		cs = append(cs, c)
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	a, b = Cat(a.Sort, pa...), Cat(b.Sort, pb...)
	if a == b {
		return And(cs...)
	}
	if b.Op == OEmpty {
		a, b = b, a
	}
	if a.Op == OEmpty {
		l := Len(b)
		c := Eq(l, Zero)
		if c == False {
			return False
		}
		if c.Op != OEq || c.Args[0].Op != OLen {
			return And(append(cs, c)...)
		}
	}
	if Eq(Len(a), Len(b)) == False {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	cs = append(cs, mk(Term{Op: OEq, Sort: Bool, Args: []*Term{a, b}}))
	return And(cs...)
}

// ---- datatypes and arrays

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("mk %s.%s: sort %s, want %s", s.Name, s.Fields[i].Name, a.Sort.Name, s.Fields[i].Sort.Name))
		}
	}
	if len(args) > 0 && args[0].Op == OSel && args[0].Idx == 0 && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != OSel || a.Idx != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk(Term{Op: OMk, Sort: s, Args: args})
}
func Sel(t *Term, i int) *Term {
	if t.Op == OMk {
		return t.Args[i]
	}
	if t.Op == OIte {
		if a, b := t.Args[1], t.Args[2]; a.Op == OMk || b.Op == OMk {
			return Ite(t.Args[0], Sel(a, i), Sel(b, i))
		}
	}
	f := t.Sort.Fields[i]
	return mk(Term{Op: OSel, Sort: f.Sort, Args: []*Term{t}, Idx: i, Name: t.Sort.Name + "." + f.Name})
}
func SelN(t *Term, name string) *Term {
	for i, f := range t.Sort.Fields {
		if f.Name == name {
			return Sel(t, i)
		}
	}
	panic("no field " + name + " in " + t.Sort.Name)
}
func Read(a, k *Term) *Term {
	for a.Op == OWrite {
		e := Eq(a.Args[1], k)
		if e == True {
			return a.Args[2]
		}
		if e != False {
			break
		}
		a = a.Args[0]
	}
	if a.Op == OConstArr {
		return a.Args[0]
	}
	if a.Op == OWrite {
		return Ite(Eq(a.Args[1], k), a.Args[2], Read(a.Args[0], k))
	}
	return mk(Term{Op: ORead, Sort: a.Sort.Elem, Args: []*Term{a, k}})
}
func Write(a, k, v *Term) *Term {
	if a.Op == OWrite && a.Args[1] == k {
		a = a.Args[0]
	}
	if a.Op == OConstArr && a.Args[0] == v {
		return a
	}
	return mk(Term{Op: OWrite, Sort: a.Sort, Args: []*Term{a, k, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	return mk(Term{Op: OConstArr, Sort: s, Args: []*Term{v}})
}
func FP(name string, s *Sort, args ...*Term) *Term {
	return mk(Term{Op: OFP, Sort: s, Name: name, Args: args})
}

// ---- rebuilding

// rebuild re-applies the constructor of t to new arguments.
func rebuild(t *Term, args []*Term) *Term {
	same := true
	for i, a := range args {
		if a != t.Args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.Op {
	case OApp:
		return App(t.Name, t.Sort, args...)
	case OAdd:
		l := newLin()
		l.c.Set(t.N)
		for i, a := range args {
			l.add(a, t.Coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(args[0], args[1])
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OEq:
		return Eq(args[0], args[1])
	case OLe0:
		return le0(args[0])
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OUnit:
		return Unit(args[0])
	case OCat:
		return Cat(t.Sort, args...)
	case OLen:
		return Len(args[0])
	case ONth:
		return Nth(args[0], args[1])
	case OExt:
		return Ext(args[0], args[1], args[2])
	case OMk:
		return Mk(t.Sort, args...)
	case OSel:
		return Sel(args[0], t.Idx)
	case ORead:
		return Read(args[0], args[1])
	case OWrite:
		return Write(args[0], args[1], args[2])
	case OConstArr:
		return ConstArr(t.Sort, args[0])
	case OFP:
		return FP(t.Name, t.Sort, args...)
	}
	panic("rebuild")
}

// Subst replaces the terms of m in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = f(a)
		}
		r := rebuild(t, args)
		memo[t] = r
		return r
	}
	return f(t)
}

// ---- printing (for humans)

func (t *Term) String() string { return t.str(12) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	as := func() []string {
		r := make([]string, len(t.Args))
		for i, a := range t.Args {
			r[i] = a.str(d - 1)
		}
		return r
	}
	switch t.Op {
	case OInt:
		return t.N.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		if len(t.Args) == 0 {
			return t.Name
		}
		return t.Name + "(" + strings.Join(as(), ", ") + ")"
	case OAdd:
		var b strings.Builder
		for i, a := range as() {
			c := t.Coefs[i]
			if i > 0 || c.Sign() < 0 {
				if c.Sign() < 0 {
					b.WriteString(" - ")
				} else {
					b.WriteString(" + ")
				}
			}
			if ab := new(big.Int).Abs(c); ab.Cmp(bone) != 0 {
				b.WriteString(ab.String() + "*")
			}
			b.WriteString(a)
		}
		if t.N.Sign() != 0 {
			fmt.Fprintf(&b, " + %s", t.N)
		}
		return "(" + b.String() + ")"
	case OEq:
		s := as()
		return "(" + s[0] + " == " + s[1] + ")"
	case OLe0:
		return "(" + as()[0] + " <= 0)"
	case OAnd:
		return "(" + strings.Join(as(), " && ") + ")"
	case OOr:
		return "(" + strings.Join(as(), " || ") + ")"
	case ONot:
		return "!" + as()[0]
	case OEmpty:
		return "[]"
	case OUnit:
		if a := t.Args[0]; a.isInt() && a.N.IsInt64() && a.i64() >= 32 && a.i64() < 127 {
			return "'" + string(rune(a.i64())) + "'"
		}
		return "[" + as()[0] + "]"
	case OCat:
		return "<" + strings.Join(as(), " ") + ">"
	case OLen:
		return "len(" + as()[0] + ")"
	case ONth:
		s := as()
		return s[0] + "[" + s[1] + "]"
	case OExt:
		s := as()
		return s[0] + "[" + s[1] + " : +" + s[2] + "]"
	case OSel:
		return as()[0] + "." + t.Sort0()
	case OIte:
		s := as()
		return "(" + s[0] + " ? " + s[1] + " : " + s[2] + ")"
	case OMk:
		return "{" + strings.Join(as(), ", ") + "}"
	}
	n := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", ORead: "read", OWrite: "write", OConstArr: "const", OFP: t.Name}[t.Op]
	return n + "(" + strings.Join(as(), ", ") + ")"
}
func (t *Term) Sort0() string { return t.Name[strings.LastIndexByte(t.Name, '.')+1:] }
