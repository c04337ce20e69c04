package main

// Symbolic execution of the SSA form, path by path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap     map[int]*Obj
	ctx      *Ctx
	env      []map[ssa.Value]Value
	loops    []*loopEntry
	calls    int  // calls of methods of the user
	waited   bool // after WaitGroup.Wait
	trail    []string
	defers   [][]func(st *State, k func(*State))
	deferred []func(end *State) // obligations of the return
	future   map[int]*Obj       // the heap when the function has returned
}

func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)+4), ctx: st.ctx.clone(), calls: st.calls, waited: st.waited}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.env = make([]map[ssa.Value]Value, len(st.env))
	for i, m := range st.env {
		c := make(map[ssa.Value]Value, len(m)+4)
		for k, v := range m {
			c[k] = v
		}
		n.env[i] = c
	}
	n.loops = append([]*loopEntry{}, st.loops...)
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	n.defers = append(n.defers, st.defers...)
	n.deferred = st.deferred[:len(st.deferred):len(st.deferred)]
	n.future = st.future
	return n
}

type Cont func(st *State, res []Value)

type Frame struct {
	fn    *ssa.Function
	depth int // index in env
	binds []Value
	k     Cont
}

type Oblig struct {
	Fn      string
	Label   string
	Props   []string
	Pos     string
	Desc    string
	Ctx     *Ctx
	Goal    *Term
	Trail   []string
	Fuel    int
	Res     Result
	Trivial bool
}

type V struct {
	p             *Prog
	spec          *Spec
	target        string // function under verification
	contract      *Contract
	tenv          *Env // names of the contract of the target
	quiet         int
	obligs        []*Oblig
	nobj          int
	globals       map[*ssa.Global]int
	base          map[int]*Obj // initial objects of the globals
	depth         int
	active        map[*ssa.Function]int
	paths         int
	steps         int
	returns       int
	retCtx        []*Ctx
	deferred      []func(st *State)
	usedContracts map[string]bool
	usedTrusted   map[string]bool
	inlined       map[string]bool
	loopInfo      []string
	stack         []string
	fuel          int
	initVals      map[*ssa.Global]Value
	debug         bool
	loopDepth     int
	nLoops        int // loops met
	lemmaLimit    map[string]bool
	curProps      []string
	cacheMaps     map[*Term]bool
	collect       *[]pending
	pend          *Oblig
}

func (v *V) newObj(st *State, o Obj) *Obj {
	v.nobj++
	o.id = v.nobj
	o.fresh = true
	st.heap[o.id] = &o
	return &o
}

func (st *State) obj(id int) *Obj {
	o := st.heap[id]
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}
func (st *State) put(o Obj) { st.heap[o.id] = &o }

// ---- obligations

func (v *V) oblige(st *State, label string, goal *Term, pos string, props []string, desc string) {
	g := st.ctx.Simp(goal)
	if st.ctx.dead {
		return
	}
	if v.quiet == 0 {
		o := &Oblig{Fn: v.target, Label: label, Props: props, Pos: pos, Desc: desc, Ctx: st.ctx.clone(), Goal: g, Trail: st.trail, Trivial: g == True, Fuel: v.fuel}
		v.obligs = append(v.obligs, o)
	}
	if g != True {
		st.ctx.Assume(g)
	}
}

func (v *V) safety(st *State, what string, goal *Term, pos token.Pos) bool {
	v.oblige(st, "safe:"+what, goal, v.p.pos(pos), nil, "")
	return !st.ctx.dead
}

// ---- environment

func (v *V) get(st *State, fr *Frame, x ssa.Value) Value {
	switch c := x.(type) {
	case *ssa.Const:
		return v.constVal(st, c)
	case *ssa.Function:
		return &Clo{fn: c}
	case *ssa.Builtin:
		return &Clo{lib: "builtin." + c.Name()}
	case *ssa.Global:
		return v.globalPtr(st, c)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.binds[i]
			}
		}
	}
	r, ok := st.env[fr.depth][x]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", x.Name(), fr.fn))
	}
	return r
}

func (v *V) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return v.zero(st, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolC(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0 || u.Kind() == types.UnsafePointer:
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				unsup("constant %s", c)
			}
			return IntB(n)
		case u.Kind() == types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return F32C(f)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return F64C(f)
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (v *V) zero(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return zeroTerm(v.p.sortOf(t))
	case *types.Struct:
		if typeName(t) == "bytes.Buffer" {
			return Empty(Bytes)
		}
		if !transparent(t) {
			return App("zero:"+typeName(t), Int)
		}
		s := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, v.zero(st, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			unsup("large array")
		}
		z := zeroTerm(v.p.sortOf(u.Elem()))
		us := make([]*Term, u.Len())
		for i := range us {
			us[i] = Unit(z)
		}
		return Cat(SeqOf(z.Sort), us...)
	case *types.Slice:
		return v.nilSlice(u.Elem())
	case *types.Interface:
		return &Iface{rt: Zero, word: Zero}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, v.zero(st, u.At(i).Type()))
		}
		return r
	}
	return Zero
}

func (v *V) nilSlice(elem types.Type) *Slice {
	return &Slice{arr: 0, off: Zero, ln: Zero, cp: Zero, nilT: True, elem: elem}
}

// globalPtr returns a pointer to the object of a global.
func (v *V) globalPtr(st *State, g *ssa.Global) Value {
	et := g.Type().(*types.Pointer).Elem()
	id, ok := v.globals[g]
	if !ok && g.Pkg != v.p.ssa {
		v.nobj++
		id = v.nobj
		v.globals[g] = id
		n := "ext:" + g.Pkg.Pkg.Name() + "." + g.Name()
		declRange(n, bone, nil)
		var val Value
		if v.p.sortOf(et) == Int {
			val = v.unpack(st, mk(Term{Op: OApp, Sort: Int, Name: n}), et)
		} else {
			unsup("variable %s", g)
		}
		v.base[id] = &Obj{id: id, name: n, typ: et, val: val, shared: "it is a variable of another package"}
		ok = true
	}
	if !ok {
		v.nobj++
		id = v.nobj
		v.globals[g] = id
		o := &Obj{id: id, name: g.Name(), typ: et}
		if !v.p.inits[g] {
			o.racy = "a package variable that is written after the initialisation of the package"
		}
		v.base[id] = o
		var val Value
		if v.p.inits[g] {
			if iv, ok := v.initVals[g]; ok {
				val = iv
			}
		}
		if val == nil {
			if v.p.inits[g] {
				val = v.zero(st, et)
			} else {
				val = v.freshVal(st, "glob."+g.Name(), et, nil)
			}
		}
		o.val = val
	}
	if st.heap[id] == nil {
		st.heap[id] = v.base[id]
	}
	return &Ptr{obj: id, typ: et}
}

// ---- fresh values

// freshVal returns an arbitrary value of type t.
func (v *V) freshVal(st *State, name string, t types.Type, like Value) Value {
	if isReflectType(t) {
		w := Fresh(name, Int)
		st.ctx.Assume(Ge(w, One))
		return v.rtypeVal(w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := v.p.sortOf(t)
		return v.freshTerm(st, name, s, t)
	case *types.Struct:
		if !transparent(t) {
			return Fresh(name, Int)
		}
		r := &Struct{typ: t}
		ls, _ := like.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			var l Value
			if ls != nil {
				l = ls.f[i]
			}
			r.f = append(r.f, v.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), l))
		}
		return r
	case *types.Array:
		x := Fresh(name, v.p.sortOf(t))
		st.ctx.Assume(Eq(Len(x), IntC(u.Len())))
		return x
	case *types.Slice:
		c := Fresh(name, v.p.sortOf(t))
		cp := Fresh(name+".cap", Int)
		st.ctx.Assume(Ge(cp, Len(c)))
		nl := Fresh(name+".nil", Bool)
		st.ctx.Assume(Imp(nl, Eq(cp, Zero)))
		o := v.newObj(st, Obj{name: name, arr: true, typ: u.Elem(), val: c, pinned: Zero})
		if l, ok := like.(*Slice); ok && l.arr != 0 {
			lo := *st.obj(l.arr)
			o2 := *o
			o2.pinned = lo.pinned
			o2.shared = lo.shared
			o2.parent = l.arr
			o2.attach = Add(l.off, l.ln)
			st.put(o2)
			lo.kids = append(lo.kids[:len(lo.kids):len(lo.kids)], o.id)
			st.put(lo)
		}
		return &Slice{arr: o.id, off: Zero, ln: Len(c), cp: cp, nilT: nl, elem: u.Elem()}
	case *types.Interface:
		id := Fresh(name, Int)
		st.ctx.Assume(Ge(id, Zero))
		return ifaceOf(id)
	case *types.Map:
		if u.Key() != nil && v.ghostMap(t) {
			return v.freshMap(st, name, u)
		}
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && transparent(u.Elem()) && s.NumFields() > 0 && !v.isHeader(u.Elem()) {
			o := v.newObj(st, Obj{name: name, typ: u.Elem()})
			val := v.freshVal(st, name, u.Elem(), nil)
			o2 := *o
			o2.val = val
			st.put(o2)
			return &Ptr{obj: o.id, typ: u.Elem()}
		}
	}
	x := Fresh(name, Int)
	st.ctx.Assume(Ge(x, Zero))
	return x
}

// ghostMap: maps local to the package whose content is tracked.
func (v *V) ghostMap(t types.Type) bool {
	n, ok := t.(*types.Named)
	if ok {
		switch n.Obj().Name() {
		case "instrCache", "stringSet":
			return false
		}
	}
	return true
}

func (v *V) isHeader(t types.Type) bool { return false }

func (v *V) freshMap(st *State, name string, u *types.Map) Value {
	ks, vs := v.p.sortOf(u.Key()), v.p.sortOf(u.Elem())
	if isReflectType(u.Key()) {
		ks = Int
	}
	o := v.newObj(st, Obj{name: name, typ: u, pres: Fresh(name+".has", ArrOf(ks, Bool)), mval: freshVals(name, ArrOf(ks, vs))})
	return &MapRef{o.id}
}

func (v *V) freshTerm(st *State, name string, s *Sort, t types.Type) *Term {
	x := Fresh(name, s)
	if s == Int && t != nil {
		if lo, hi, ok := intRange(t); ok {
			if lo != nil {
				st.ctx.Assume(Ge(x, IntB(lo)))
			}
			if hi != nil {
				st.ctx.Assume(Le(x, IntB(hi)))
			}
		}
	}
	return x
}

func ifaceOf(id *Term) *Iface {
	return &Iface{rt: App("i.rt", Int, id), word: App("i.word", Int, id)}
}

var rtypeConst = mk(Term{Op: OApp, Sort: Int, Name: "T:*reflect.rtype"})

func (v *V) rtypeVal(t *Term) *Iface { return &Iface{rt: rtypeConst, word: t} }

// ---- conversion between values and terms

// pack returns the term of a value of type t.
func (v *V) pack(st *State, x Value, t types.Type) *Term {
	if t != nil && isReflectType(t) {
		if i, ok := x.(*Iface); ok {
			if i.rt == Zero {
				return Zero
			}
			return i.word
		}
	}
	switch y := x.(type) {
	case *Term:
		return y
	case *Slice:
		return v.content(st, y)
	case *Struct:
		s := v.p.sortOf(y.typ)
		u := y.typ.Underlying().(*types.Struct)
		args := make([]*Term, len(y.f))
		for i, f := range y.f {
			args[i] = v.pack(st, f, u.Field(i).Type())
			if sl, ok := f.(*Slice); ok {
				v.pin(st, sl)
			}
		}
		return Mk(s, args...)
	case *Iface:
		if y.val != nil {
			return App("iface", Int, y.rt, v.ifaceWord(st, y))
		}
		return App("iface", Int, y.rt, y.word)
	case *Clo:
		return v.packClo(st, y)
	case *MapRef:
		o := st.obj(y.obj)
		oo := *o
		oo.published = true
		st.put(oo)
		n := mapval(o.pres, o.mval)
		st.ctx.Assume(Ge(n, One))
		if o.mname == "instrCache" {
			v.cacheMaps[n] = true
		}
		return n
	case *Ptr:
		o := st.obj(y.obj)
		if len(y.path) == 0 && !o.arr {
			// address of a local word: cell(w)
			switch o.typ.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
				return App("cell", Int, v.pack(st, o.val, o.typ))
			case *types.Basic:
				if w, ok := o.val.(*Term); ok && w.Sort == Int {
					return App("cell", Int, w)
				}
			case *types.Struct:
				w := v.pack(st, o.val, o.typ)
				n := "new:" + typeName(o.typ)
				declRange(n, bone, nil)
				return App(n, Int, w)
			}
		}
		if o.name != "" && len(y.path) == 0 {
			n := "addr:" + o.name
			declRange(n, bone, nil)
			return App(n, Int)
		}
		unsup("address of %s used as a value", o.name)
	case nil:
		unsup("undefined value")
	}
	unsup("pack %T", x)
	return nil
}

func (v *V) packClo(st *State, c *Clo) *Term {
	if c.lib != "" {
		unsup("function value %s", c.lib)
	}
	if len(c.binds) == 0 {
		n := "fn:" + v.p.fnName(c.fn)
		declRange(n, bone, nil)
		return mk(Term{Op: OApp, Sort: Int, Name: n})
	}
	n := "clo:" + v.p.fnName(c.fn)
	declRange(n, bone, nil)
	var args []*Term
	for i, b := range c.binds {
		t := c.fn.FreeVars[i].Type()
		if p, ok := b.(*Ptr); ok {
			args = append(args, v.pack(st, v.load(st, p, t.(*types.Pointer).Elem(), token.NoPos), t.(*types.Pointer).Elem()))
			n += "*"
		} else {
			args = append(args, v.pack(st, b, t))
		}
	}
	declRange(n, bone, nil)
	return App(n, Int, args...)
}

func (v *V) ifaceWord(st *State, y *Iface) *Term {
	switch y.typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		w := v.pack(st, y.val, y.typ)
		return w
	}
	if b, ok := y.typ.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v.pack(st, y.val, y.typ)
	}
	t := v.pack(st, y.val, y.typ)
	n := "box:" + typeName(y.typ)
	declRange(n, bone, nil)
	return App(n, Int, t)
}

// unpack returns the value of type t denoted by a term.
func (v *V) unpack(st *State, x *Term, t types.Type) Value {
	if isReflectType(t) {
		return v.rtypeVal(x)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !transparent(t) {
			return x
		}
		r := &Struct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, v.unpack(st, Sel(x, i), u.Field(i).Type()))
		}
		return r
	case *types.Slice:
		// the spare capacity is unknown, and the array may be
		// shared with other values
		cp := Fresh("cap", Int)
		st.ctx.Assume(Ge(cp, Len(x)))
		o := v.newObj(st, Obj{name: "value", arr: true, typ: u.Elem(), val: x, shared: "the backing array may be shared with another value", pinned: Zero})
		return &Slice{arr: o.id, off: Zero, ln: Len(x), cp: cp, nilT: Fresh("nil", Bool), elem: u.Elem()}
	case *types.Interface:
		return ifaceOf(x)
	case *types.Signature:
		if x.Op == OApp && strings.HasPrefix(x.Name, "fn:") {
			if f := v.p.fns[x.Name[3:]]; f != nil {
				return &Clo{fn: f}
			}
		}
	}
	return x
}

// content returns the sequence viewed by a slice.
func (v *V) content(st *State, s *Slice) *Term {
	so := SeqOf(v.p.sortOf(s.elem))
	if s.arr == 0 {
		return Empty(so)
	}
	v.checkRead(st, s, token.NoPos)
	o := st.obj(s.arr)
	return st.ctx.Simp(Ext(o.val.(*Term), s.off, s.ln))
}

func (v *V) checkRead(st *State, s *Slice, pos token.Pos) {
	if s.arr == 0 {
		return
	}
	o := st.obj(s.arr)
	for a := o; ; a = st.obj(a.parent) {
		if a.released != "" {
			v.oblige(st, "own:use of a released buffer", Eq(s.ln, Zero), v.p.pos(pos), nil, "the memory of "+a.name+" is read after it was given back to "+a.released)
			break
		}
		if a.stale != "" {
			v.oblige(st, "own:use of a released buffer", Eq(s.ln, Zero), v.p.pos(pos), nil, "elements of "+a.name+" hold memory given back to "+a.stale)
			break
		}
		if a.parent == 0 {
			break
		}
	}
	if o.clobber != nil {
		v.oblige(st, "own:overwritten", Or(Eq(s.ln, Zero), Le(Add(s.off, s.ln), o.clobber)), v.p.pos(pos), nil, "bytes that may have been overwritten are read")
	}
}

// pin records that a view of a slice is held by a value whose
// content must not change.
func (v *V) pin(st *State, s *Slice) {
	if s.arr == 0 {
		return
	}
	o := st.obj(s.arr)
	end := st.ctx.Simp(Add(s.off, s.ln))
	if o.pinned == nil || st.ctx.Simp(Le(end, o.pinned)) != True {
		oo := *o
		oo.pinned = end
		st.put(oo)
	}
}

// ---- memory

// locate resolves a pointer to the content of its object.
func (v *V) loadPath(st *State, val Value, typ types.Type, path []PSel, pos token.Pos) (Value, types.Type) {
	for _, p := range path {
		if p.field >= 0 {
			switch x := val.(type) {
			case *Struct:
				u := typ.Underlying().(*types.Struct)
				val, typ = x.f[p.field], u.Field(p.field).Type()
			case *Iface:
				if p.field == 0 {
					val, typ = x.rt, types.Typ[types.UnsafePointer]
				} else {
					val, typ = v.wordOf(st, x), types.Typ[types.UnsafePointer]
				}
			case *Slice:
				switch p.field {
				case 1:
					val, typ = x.ln, types.Typ[types.Int]
				case 2:
					val, typ = x.cp, types.Typ[types.Int]
				default:
					unsup("data pointer of a local slice")
				}
			case *Term:
				if x.Sort == Bytes && p.field == 1 {
					val, typ = Len(x), types.Typ[types.Int]
					continue
				}
				unsup("field of %s", x.Sort.Name)
			default:
				unsup("field of %T", val)
			}
			continue
		}
		seq, ok := val.(*Term)
		if !ok {
			unsup("index of %T", val)
		}
		var et types.Type
		switch u := typ.Underlying().(type) {
		case *types.Array:
			et = u.Elem()
		default:
			unsup("index path of %s", typ)
		}
		val, typ = v.unpack(st, st.ctx.Simp(Nth(seq, p.idx)), et), et
	}
	return val, typ
}

func (v *V) wordOf(st *State, x *Iface) *Term {
	if x.val != nil {
		return v.ifaceWord(st, x)
	}
	return x.word
}

func (v *V) load(st *State, pv Value, t types.Type, pos token.Pos) Value {
	switch p := pv.(type) {
	case *Term:
		if p.isC(0) {
			v.safety(st, "nil dereference", False, pos)
			return v.freshVal(st, "bad", t, nil)
		}
		return v.loadAddr(st, p, t)
	case *Ptr:
		o := st.obj(p.obj)
		if o.released != "" {
			v.oblige(st, "own:use of a released object", False, v.p.pos(pos), nil, o.name+" is used after it was given back to "+o.released)
		}
		if o.racy != "" {
			v.oblige(st, "race:read of shared memory without synchronisation", False, v.p.pos(pos), nil, o.name+": "+o.racy)
		}
		val, typ := o.val, o.typ
		path := p.path
		if o.arr {
			if len(path) == 0 {
				unsup("load of a backing array")
			}
			if o.stale != "" {
				v.oblige(st, "own:use of a released buffer", False, v.p.pos(pos), nil, "elements of "+o.name+" hold memory given back to "+o.stale)
			}
			i := path[0].idx
			val = v.unpack(st, st.ctx.Simp(Nth(val.(*Term), i)), o.typ)
			if o.clobber != nil {
				v.oblige(st, "own:overwritten", Lt(i, o.clobber), v.p.pos(pos), nil, "an element that may have been overwritten is read")
			}
			path = path[1:]
		}
		val, typ = v.loadPath(st, val, typ, path, pos)
		return v.reinterpret(st, val, typ, t)
	}
	unsup("load through %T", pv)
	return nil
}

// reinterpret converts the value val of type from, accessed
// through a pointer to the type to.
func (v *V) reinterpret(st *State, val Value, from, to types.Type) Value {
	if types.Identical(from.Underlying(), to.Underlying()) {
		if s, ok := val.(*Struct); ok && !types.Identical(from, to) {
			return &Struct{typ: to, f: s.f}
		}
		return val
	}
	switch x := val.(type) {
	case *Struct:
		switch u := to.Underlying().(type) {
		case *types.Slice: // slice header
			if len(x.f) == 3 {
				d, ok1 := x.f[0].(*Term)
				l, ok2 := x.f[1].(*Term)
				c, ok3 := x.f[2].(*Term)
				if ok1 && ok2 && ok3 {
					return v.memSlice(st, d, l, c, u.Elem())
				}
			}
		case *types.Basic:
			if u.Info()&types.IsString != 0 && len(x.f) >= 2 {
				d, ok1 := x.f[0].(*Term)
				l, ok2 := x.f[1].(*Term)
				if ok1 && ok2 {
					st.ctx.Assume(Ge(l, Zero))
					return App("mem", Bytes, d, l)
				}
			}
		}
	case *Term:
		// a word seen as another type of word
		if x.Sort == Int && v.p.sortOf(to) == Int {
			fs, ts := v.p.sizes.Sizeof(from), v.p.sizes.Sizeof(to)
			_, fi := from.Underlying().(*types.Interface)
			_, ti := to.Underlying().(*types.Interface)
			if fs == ts && !fi && !ti {
				return x
			}
		}
		if x.Sort == Bytes {
			if s, ok := to.Underlying().(*types.Slice); ok {
				// string header seen as a slice: no capacity
				_ = s
				unsup("string seen as a slice")
			}
		}
	case *MapRef:
		if v.p.sortOf(to) == Int {
			return v.pack(st, x, from)
		}
	case *Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && v.p.sortOf(x.elem) == Int {
			v.pin(st, x)
			return v.content(st, x)
		}
	case *Iface:
		if _, ok := to.Underlying().(*types.Interface); ok {
			return x
		}
		if s, ok := to.Underlying().(*types.Struct); ok && s.NumFields() == 2 {
			return &Struct{typ: to, f: []Value{x.rt, v.wordOf(st, x)}}
		}
	}
	unsup("memory of type %s seen as %s", from, to)
	return nil
}

// memSlice is the slice of the memory of the user at d.
func (v *V) memSlice(st *State, d, l, c *Term, elem types.Type) *Slice {
	st.ctx.Assume(Ge(l, Zero))
	st.ctx.Assume(Le(l, IntB(maxLen)))
	es := v.p.sortOf(elem)
	n := "mem"
	if b, ok := elem.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		n = "mem:" + typeName(elem)
	}
	seq := App(n, SeqOf(es), d, l)
	st.ctx.Assume(Imp(Eq(d, Zero), Eq(l, Zero)))
	if st.ctx.Simp(Ge(c, l)) != True {
		st.ctx.Assume(Ge(c, l))
	}
	o := v.newObj(st, Obj{name: "user memory", arr: true, typ: elem, val: seq, shared: "it is the memory of the user", pinned: Zero})
	return &Slice{arr: o.id, off: Zero, ln: st.ctx.Simp(l), cp: c, nilT: Eq(d, Zero), elem: elem}
}

// loadAddr reads a value of type t in the memory of the user,
// that is immutable during an encoding.
func (v *V) loadAddr(st *State, a *Term, t types.Type) Value {
	if isReflectType(t) {
		return v.rtypeVal(App("ld_reflect.Type", Int, a))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			l := App("ld_int", Int, Add(a, IntC(8)))
			st.ctx.Assume(Ge(l, Zero))
			st.ctx.Assume(Le(l, IntB(maxLen)))
			return App("mem", Bytes, App("ld_ptr", Int, a), l)
		case u.Kind() == types.UnsafePointer:
			return App("ld_ptr", Int, a)
		}
		n := "ld_" + u.Name()
		if u.Kind() == types.Uintptr {
			n = "ld_uintptr"
		}
		if lo, hi, ok := intRange(t); ok {
			declRange(n, lo, hi)
		}
		return App(n, v.p.sortOf(t), a)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return App("ld_ptr", Int, a)
	case *types.Slice:
		return v.memSlice(st, App("ld_ptr", Int, a), App("ld_int", Int, Add(a, IntC(8))), App("ld_int", Int, Add(a, IntC(16))), u.Elem())
	case *types.Interface:
		w := App("ld_ptr", Int, Add(a, IntC(8)))
		tw := App("ld_ptr", Int, a)
		if u.NumMethods() > 0 {
			return &Iface{rt: App("itabtype", Int, tw), word: w}
		}
		return &Iface{rt: tw, word: w}
	case *types.Struct:
		if !transparent(t) {
			return App("ld_"+typeName(t), Int, a)
		}
		r := &Struct{typ: t}
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := v.p.sizes.Offsetsof(fs)
		for i, f := range fs {
			r.f = append(r.f, v.loadAddr(st, Add(a, IntC(offs[i])), f.Type()))
		}
		return r
	}
	unsup("load of %s", t)
	return nil
}

func (v *V) store(st *State, pv Value, val Value, t types.Type, pos token.Pos) {
	p, ok := pv.(*Ptr)
	if !ok {
		if x, isT := pv.(*Term); isT && x.isC(0) {
			v.safety(st, "nil dereference", False, pos)
			return
		}
		v.oblige(st, "frame:write in the memory of the user", False, v.p.pos(pos), nil, "")
		return
	}
	o := *st.obj(p.obj)
	if o.racy != "" {
		v.oblige(st, "race:write in shared memory without synchronisation", False, v.p.pos(pos), nil, o.name+": "+o.racy)
		return
	}
	if !o.arr && o.shared != "" {
		v.oblige(st, "frame:write in a shared object", False, v.p.pos(pos), nil, o.name+": "+o.shared)
		return
	}
	if o.released != "" {
		v.oblige(st, "own:use of a released object", False, v.p.pos(pos), nil, o.name+" is written after it was given back to "+o.released)
	}
	if o.arr {
		i := p.path[0].idx
		v.checkWrite(st, &o, i, pos)
		if st.ctx.dead {
			return
		}
		seq := o.val.(*Term)
		var nv *Term
		if len(p.path) == 1 {
			nv = v.pack(st, val, o.typ)
			if s, ok := val.(*Slice); ok {
				v.pin(st, s)
			}
		} else {
			el := v.unpack(st, st.ctx.Simp(Nth(seq, i)), o.typ)
			nv = v.pack(st, v.storePath(st, el, o.typ, p.path[1:], val, t), o.typ)
		}
		o = *st.obj(p.obj)
		o.val = st.ctx.Simp(Upd(seq, i, nv))
		st.put(o)
		return
	}
	nv := v.storePath(st, o.val, o.typ, p.path, val, t)
	o = *st.obj(p.obj)
	o.val = nv
	o.ver++
	st.put(o)
}

func (v *V) checkWrite(st *State, o *Obj, i *Term, pos token.Pos) {
	if o.shared != "" {
		v.oblige(st, "frame:write in a shared array", False, v.p.pos(pos), nil, o.shared)
		return
	}
	if o.released != "" {
		v.oblige(st, "own:use of a released buffer", False, v.p.pos(pos), nil, "")
	}
	lim := o.pinned
	if lim != nil && st.ctx.Simp(Ge(i, lim)) != True {
		v.oblige(st, "frame:write in bytes owned by the caller", Ge(i, lim), v.p.pos(pos), nil, "")
	}
	if o.attach != nil && o.parent != 0 && st.ctx.Simp(Ge(i, o.attach)) != True && !o.fresh {
		v.oblige(st, "frame:write before the appended bytes", Ge(i, o.attach), v.p.pos(pos), nil, "")
	}
}

func (v *V) storePath(st *State, cur Value, typ types.Type, path []PSel, val Value, t types.Type) Value {
	if len(path) == 0 {
		if !types.Identical(typ.Underlying(), t.Underlying()) {
			return v.reinterpret(st, val, t, typ)
		}
		if s, ok := val.(*Struct); ok && !types.Identical(s.typ, typ) {
			return &Struct{typ: typ, f: s.f}
		}
		return val
	}
	p := path[0]
	if p.field >= 0 {
		switch x := cur.(type) {
		case *Struct:
			u := typ.Underlying().(*types.Struct)
			n := &Struct{typ: x.typ, f: append([]Value{}, x.f...)}
			n.f[p.field] = v.storePath(st, x.f[p.field], u.Field(p.field).Type(), path[1:], val, t)
			return n
		case *Iface:
			w := v.pack(st, val, t)
			if p.field == 0 {
				return &Iface{rt: w, word: v.wordOf(st, x)}
			}
			return &Iface{rt: x.rt, word: w}
		}
		unsup("store in a field of %T", cur)
	}
	seq := cur.(*Term)
	et := typ.Underlying().(*types.Array).Elem()
	var nv *Term
	if len(path) == 1 {
		nv = v.pack(st, val, et)
	} else {
		nv = v.pack(st, v.storePath(st, v.unpack(st, Nth(seq, p.idx), et), et, path[1:], val, t), et)
	}
	return st.ctx.Simp(Upd(seq, p.idx, nv))
}

// ---- slices

// appendTo appends xs (nx elements) to the slice s.
func (v *V) appendTo(st *State, s *Slice, xs *Term, pos token.Pos) *Slice {
	if xs.Op == OEmpty {
		if s.arr == 0 {
			return s
		}
		return s
	}
	var nx = Len(xs)
	old := v.content(st, s)
	nilT := And(s.nilT, Eq(nx, Zero))
	end := st.ctx.Simp(Add(s.off, s.ln))
	mkNew := func(parent int, attach *Term, pinned *Term) *Slice {
		c := st.ctx.Simp(Cat(old.Sort, old, xs))
		cp := v.newCap(st, Len(c))
		o := v.newObj(st, Obj{name: "array", arr: true, typ: s.elem, val: c, parent: parent, attach: attach, pinned: pinned})
		if parent != 0 {
			oo := *o
			oo.fresh = false
			st.put(oo)
		}
		return &Slice{arr: o.id, off: Zero, ln: Len(c), cp: cp, nilT: nilT, elem: s.elem}
	}
	if s.arr == 0 {
		return mkNew(0, nil, Zero)
	}
	o := *st.obj(s.arr)
	grow := st.ctx.Simp(Gt(Add(s.ln, nx), s.cp)) // must reallocate
	if grow == True {
		return mkNew(0, nil, Zero)
	}
	if o.shared != "" {
		// Never in place, or else memory of others is written.
		v.oblige(st, "frame:append in a shared array", Or(grow, Eq(nx, Zero)), v.p.pos(pos), nil, o.shared)
		return mkNew(0, nil, Zero)
	}
	fits := st.ctx.Simp(Le(Add(s.ln, nx), s.cp))
	if fits != True && st.ctx.Simp(Eq(end, Len(o.val.(*Term)))) != True {
		// the array has elements after the end of s
		if in := And(fits, Le(Add(end, nx), Len(o.val.(*Term)))); v.entails(st, in) {
			st.ctx.Assume(in)
			fits = True
		}
	}
	if fits == True && (o.n != nil || st.ctx.Simp(Le(Add(end, nx), Len(o.val.(*Term)))) == True) {
		// in place, for sure
		v.checkTail(st, s, end, pos)
		o = *st.obj(s.arr)
		cont := o.val.(*Term)
		e2 := Add(end, nx)
		o.val = st.ctx.Simp(Cat(cont.Sort, Ext(cont, Zero, end), xs, Ext(cont, e2, Sub(Len(cont), e2))))
		st.put(o)
		return &Slice{arr: s.arr, off: s.off, ln: st.ctx.Simp(Add(s.ln, nx)), cp: s.cp, nilT: nilT, elem: s.elem}
	}
	v.checkTail(st, s, end, pos)
	if st.ctx.dead {
		return s
	}
	o = *st.obj(s.arr)
	pin := st.ctx.Simp(Sub(o.pinned, s.off))
	r := mkNew(s.arr, s.ln, pin)
	o = *st.obj(s.arr)
	o.kids = append(o.kids[:len(o.kids):len(o.kids)], r.arr)
	// what lies after the end of s may be overwritten
	tail := Len(o.val.(*Term))
	if st.ctx.Simp(Eq(end, tail)) != True {
		if o.clobber == nil || st.ctx.Simp(Le(o.clobber, end)) != True {
			o.clobber = end
		}
	}
	st.put(o)
	return r
}

// checkTail handles a write in the elements of the array
// of s from its end: they must not be pinned, and the
// slices that share them become unusable.
func (v *V) checkTail(st *State, s *Slice, end *Term, pos token.Pos) {
	o := *st.obj(s.arr)
	if o.released != "" {
		v.oblige(st, "own:use of a released buffer", False, v.p.pos(pos), nil, "")
		return
	}
	if st.ctx.Simp(Ge(end, o.pinned)) != True {
		v.oblige(st, "own:append overwrites elements in use", Ge(end, o.pinned), v.p.pos(pos), nil, "the elements after the end of the slice may be used by another value")
	}
	for _, k := range o.kids {
		c := *st.obj(k)
		// the child shares [.., attach) with the parent; its own
		// elements are in the tail of the parent
		if c.attach == nil || c.val == nil {
			continue
		}
		if st.ctx.Simp(Ge(c.attach, c.pinned)) != True {
			v.oblige(st, "own:append overwrites elements in use", Ge(c.attach, c.pinned), v.p.pos(pos), nil, "two slices appended to the same one share its memory")
			c = *st.obj(k)
		}
		c.clobber = c.attach
		st.put(c)
	}
}

var capMax = new(big.Int).Lsh(bone, 60)

func (v *V) newCap(st *State, ln *Term) *Term {
	cp := Fresh("cap", Int)
	st.ctx.Assume(Ge(cp, ln))
	st.ctx.Assume(Le(cp, IntB(capMax)))
	return cp
}

func mapval(pres, mval *Term) *Term {
	n := "mapval:" + pres.Sort.Name + mval.Sort.Name
	declRange(n, bone, nil)
	return App(n, Int, pres, mval)
}

// varName is the name of the first variable that x is the value of.
func varName(x ssa.Value, def string) string {
	for _, r := range *x.Referrers() {
		if d, ok := r.(*ssa.DebugRef); ok && !d.IsAddr && d.Object() != nil {
			return d.Object().Name()
		}
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.Phi:
			if y.Comment != "" {
				return y.Comment
			}
		case *ssa.ChangeType:
			return varName(y, def)
		}
	}
	return def
}

// freshVals is the unknown values of a map.
func freshVals(name string, s *Sort) *Term {
	if s.Elem.Kind == SDT && len(s.Elem.Fields) == 0 {
		return ConstArr(s, zeroTerm(s.Elem))
	}
	return Fresh(name, s)
}

// mhas tells whether the map m has the key k.
func mhas(m, k *Term) *Term {
	if m.Op == OApp && strings.HasPrefix(m.Name, "mapval:") {
		return Read(m.Args[0], k)
	}
	if m.Op == OIte {
		return Ite(m.Args[0], mhas(m.Args[1], k), mhas(m.Args[2], k))
	}
	return App("mhas:"+k.Sort.Name, Bool, m, k)
}

func (v *V) slice(st *State, s *Slice, lo, hi, mx *Term) *Slice {
	return &Slice{arr: s.arr, off: st.ctx.Simp(Add(s.off, lo)), ln: st.ctx.Simp(Sub(hi, lo)), cp: st.ctx.Simp(Sub(mx, lo)), nilT: s.nilT, elem: s.elem}
}

// ---- execution

const maxPaths = 40000

func (v *V) step(st *State) {
	v.steps++
	if v.steps > 3000000 {
		unsup("too many steps")
	}
}

// runFn executes the body of fn.
func (v *V) runFn(st *State, fn *ssa.Function, args, binds []Value, k Cont) {
	if fn.Blocks == nil {
		unsup("function %s has no body", fn)
	}
	if v.depth > 60 {
		unsup("inlining too deep at %s", fn)
	}
	if v.active[fn] >= 3 {
		unsup("recursion of %s, that has no contract", v.p.fnName(fn))
	}
	v.active[fn]++
	v.depth++
	defer func() { v.active[fn]--; v.depth-- }()
	fr := &Frame{fn: fn, depth: len(st.env), binds: binds}
	fr.k = func(st2 *State, res []Value) {
		// leave the frame
		for len(st2.loops) > 0 && st2.loops[len(st2.loops)-1].depth >= fr.depth {
			e := st2.loops[len(st2.loops)-1]
			st2.loops = st2.loops[:len(st2.loops)-1]
			if e.probe {
				return
			}
		}
		st2.env = st2.env[:fr.depth]
		// the continuation runs outside of this activation
		v.active[fn]--
		v.depth--
		k(st2, res)
		v.active[fn]++
		v.depth++
	}
	m := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		m[p] = args[i]
	}
	st.env = append(st.env[:len(st.env):len(st.env)], m)
	st.defers = append(st.defers[:len(st.defers):len(st.defers)], nil)
	v.block(st, fr, fn.Blocks[0], nil)
}

func (v *V) set(st *State, fr *Frame, x ssa.Value, val Value) { st.env[fr.depth][x] = val }

// jump goes from a block to the next one.
func (v *V) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if st.ctx.dead {
		return
	}
	for len(st.loops) > 0 {
		e := st.loops[len(st.loops)-1]
		if e.depth != fr.depth || e.loop == nil || e.loop.body[to] {
			break
		}
		st.loops = st.loops[:len(st.loops)-1]
		if e.probe {
			return
		}
	}
	if l := v.p.loopsOf(fr.fn)[to]; l != nil {
		n := len(st.loops)
		top := n > 0 && st.loops[n-1].depth == fr.depth && st.loops[n-1].loop == l
		if top && st.loops[n-1].back != nil {
			st.loops[n-1].back(st, from)
			return
		}
		switch {
		case v.headerConst(st, fr, from, to):
			v.nLoops++
			if top {
				ne := *st.loops[n-1]
				ne.count++
				if ne.count > 80 {
					unsup("loop at %s unrolled too much", v.p.pos(blockPos(to)))
				}
				st.loops = append(st.loops[:n-1:n-1], &ne)
			} else {
				st.loops = append(st.loops[:n:n], &loopEntry{depth: fr.depth, loop: l})
			}
		default:
			if top {
				st.loops = st.loops[:n-1]
			}
			v.enterLoop(st, fr, from, to, l)
			return
		}
	}
	v.block(st, fr, to, from)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

func (v *V) phis(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, v.get(st, fr, p.Edges[idx]))
	}
	for i, p := range ps {
		v.set(st, fr, p, vals[i])
	}
}

func (v *V) block(st *State, fr *Frame, b, pred *ssa.BasicBlock) {
	v.phis(st, fr, b, pred)
	v.exec(st, fr, b, 0)
}

func (v *V) exec(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.ctx.dead {
			return
		}
		v.step(st)
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			v.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := st.ctx.Simp(v.get(st, fr, x.Cond).(*Term))
			switch c {
			case True:
				v.jump(st, fr, b, b.Succs[0])
				return
			case False:
				v.jump(st, fr, b, b.Succs[1])
				return
			}
			v.paths++
			if v.paths > maxPaths {
				unsup("too many paths")
			}
			s2 := st.clone()
			pos := v.p.pos(x.Cond.Pos())
			if st.ctx.Assume(c) && !st.ctx.dead {
				st.trail = append(st.trail, pos+":T")
				v.jump(st, fr, b, b.Succs[0])
			}
			if s2.ctx.Assume(Not(c)) && !s2.ctx.dead {
				s2.trail = append(s2.trail, pos+":F")
				v.jump(s2, fr, b, b.Succs[1])
			}
			return
		case *ssa.Return:
			res := make([]Value, len(x.Results))
			for j, r := range x.Results {
				res[j] = v.get(st, fr, r)
			}
			st.defers = st.defers[:len(st.defers)-1]
			fr.k(st, res)
			return
		case *ssa.Panic:
			v.safety(st, "explicit panic", False, x.Pos())
			return
		case *ssa.Call:
			bb, ii := b, i
			v.call(st, fr, &x.Call, x.Pos(), func(s2 *State, res []Value) {
				switch len(res) {
				case 0:
				case 1:
					v.set(s2, fr, x, res[0])
				default:
					v.set(s2, fr, x, Tuple(res))
				}
				v.exec(s2, fr, bb, ii+1)
			})
			return
		case *ssa.Defer:
			args := make([]Value, len(x.Call.Args))
			for j, a := range x.Call.Args {
				args[j] = v.get(st, fr, a)
			}
			var fv Value
			if !x.Call.IsInvoke() {
				fv = v.get(st, fr, x.Call.Value)
			} else {
				unsup("defer of an interface method")
			}
			pos := x.Pos()
			n := len(st.defers) - 1
			cm := &x.Call
			st.defers[n] = append(st.defers[n][:len(st.defers[n]):len(st.defers[n])], func(s2 *State, k func(*State)) {
				v.callValue(s2, cm, fv, args, pos, func(s3 *State, _ []Value) { k(s3) })
			})
			continue
		case *ssa.RunDefers:
			ds := st.defers[len(st.defers)-1]
			if len(ds) == 0 {
				continue
			}
			st.defers[len(st.defers)-1] = nil
			bb, ii := b, i
			var run func(s2 *State, j int)
			run = func(s2 *State, j int) {
				if j < 0 {
					v.exec(s2, fr, bb, ii+1)
					return
				}
				ds[j](s2, func(s3 *State) { run(s3, j-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Store:
			v.store(st, v.get(st, fr, x.Addr), v.get(st, fr, x.Val), x.Val.Type(), x.Pos())
			continue
		case *ssa.MapUpdate:
			v.mapUpdate(st, v.get(st, fr, x.Map), v.get(st, fr, x.Key), v.get(st, fr, x.Value), x)
			continue
		case *ssa.Next:
			if v.next(st, fr, x, b, i) {
				return
			}
			continue
		case *ssa.TypeAssert:
			bb, ii := b, i
			v.typeAssert(st, fr, x, func(s2 *State, r Value) {
				v.set(s2, fr, x, r)
				v.exec(s2, fr, bb, ii+1)
			})
			return
		case ssa.Value:
			v.set(st, fr, x, v.eval(st, fr, x))
			continue
		}
		unsup("instruction %T", in)
	}
}

func (v *V) term(st *State, fr *Frame, x ssa.Value) *Term {
	y := v.get(st, fr, x)
	t, ok := y.(*Term)
	if !ok {
		return v.pack(st, y, x.Type())
	}
	return st.ctx.Simp(t)
}

func (v *V) eval(st *State, fr *Frame, in ssa.Value) Value {
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		o := v.newObj(st, Obj{name: x.Comment, typ: et})
		val := v.zero(st, et)
		oo := *o
		oo.val = val
		st.put(oo)
		return &Ptr{obj: o.id, typ: et}
	case *ssa.BinOp:
		return v.binop(st, fr, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return v.load(st, v.get(st, fr, x.X), x.Type(), x.Pos())
		case token.NOT:
			return Not(v.term(st, fr, x.X))
		case token.SUB:
			t := v.term(st, fr, x.X)
			if t.Sort != Int {
				return FP("fp.neg", t.Sort, t)
			}
			return wrap(st.ctx, Neg(t), x.Type())
		case token.XOR:
			t := v.term(st, fr, x.X)
			return wrap(st.ctx, Sub(IntC(-1), t), x.Type())
		}
	case *ssa.ChangeType:
		y := v.get(st, fr, x.X)
		if s, ok := y.(*Struct); ok {
			return &Struct{typ: x.Type(), f: s.f}
		}
		return y
	case *ssa.ChangeInterface:
		return v.get(st, fr, x.X)
	case *ssa.Convert:
		return v.convert(st, fr, x)
	case *ssa.MakeInterface:
		y := v.get(st, fr, x.X)
		if s, ok := y.(*Slice); ok && !forSort(x) {
			v.pin(st, s)
		}
		return &Iface{rt: typeConst(x.X.Type()), val: y, typ: x.X.Type()}
	case *ssa.MakeClosure:
		c := &Clo{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, v.get(st, fr, b))
		}
		return c
	case *ssa.MakeMap:
		u := x.Type().Underlying().(*types.Map)
		ks, vs := v.p.sortOf(u.Key()), v.p.sortOf(u.Elem())
		o := v.newObj(st, Obj{name: varName(x, "map"), mname: typeName(x.Type()), typ: u, pres: ConstArr(ArrOf(ks, Bool), False), mval: ConstArr(ArrOf(ks, vs), zeroTerm(vs))})
		return &MapRef{o.id}
	case *ssa.MakeSlice:
		u := x.Type().Underlying().(*types.Slice)
		ln, cp := v.term(st, fr, x.Len), v.term(st, fr, x.Cap)
		v.safety(st, "make slice size", And(Ge(ln, Zero), Le(ln, cp), Le(cp, IntB(new(big.Int).Lsh(maxLen, 2)))), x.Pos())
		so := SeqOf(v.p.sortOf(u.Elem()))
		var seq *Term
		if cp.isInt() && cp.i64() <= 64 {
			var us []*Term
			for i := int64(0); i < cp.i64(); i++ {
				us = append(us, Unit(zeroTerm(so.Elem)))
			}
			seq = Cat(so, us...)
		} else {
			seq = App("zeros", so, cp)
			if so != Bytes {
				seq = App("zeros:"+so.Elem.Name, so, cp)
			}
			st.ctx.Assume(Eq(Len(seq), cp))
		}
		o := v.newObj(st, Obj{name: "make", arr: true, typ: u.Elem(), val: seq, n: cp, pinned: Zero})
		return &Slice{arr: o.id, off: Zero, ln: ln, cp: cp, nilT: False, elem: u.Elem()}
	case *ssa.Slice:
		return v.sliceOp(st, fr, x)
	case *ssa.FieldAddr:
		y := v.get(st, fr, x.X)
		su := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		switch p := y.(type) {
		case *Ptr:
			return &Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], PSel{field: x.Field}), typ: su.Field(x.Field).Type()}
		case *Term:
			if p.isC(0) {
				v.safety(st, "nil dereference", False, x.Pos())
			}
			var fs []*types.Var
			for i := 0; i < su.NumFields(); i++ {
				fs = append(fs, su.Field(i))
			}
			return Add(p, IntC(v.p.sizes.Offsetsof(fs)[x.Field]))
		}
		unsup("field address of %T", y)
	case *ssa.Field:
		y := v.get(st, fr, x.X)
		switch s := y.(type) {
		case *Struct:
			return s.f[x.Field]
		}
		unsup("field of %T", y)
	case *ssa.IndexAddr:
		i := v.term(st, fr, x.Index)
		y := v.get(st, fr, x.X)
		switch s := y.(type) {
		case *Slice:
			v.safety(st, "index", And(Ge(i, Zero), Lt(i, s.ln)), x.Pos())
			if s.arr == 0 {
				st.ctx.Assume(False)
				return Zero
			}
			o := st.obj(s.arr)
			if o.released != "" {
				v.checkRead(st, s, x.Pos())
			}
			return &Ptr{obj: s.arr, path: []PSel{{field: -1, idx: st.ctx.Simp(Add(s.off, i))}}, typ: s.elem}
		case *Ptr:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			v.safety(st, "index", And(Ge(i, Zero), Lt(i, IntC(at.Len()))), x.Pos())
			return &Ptr{obj: s.obj, path: append(s.path[:len(s.path):len(s.path)], PSel{field: -1, idx: i}), typ: at.Elem()}
		}
		unsup("index address of %T", y)
	case *ssa.Index:
		i := v.term(st, fr, x.Index)
		y := v.term(st, fr, x.X)
		v.safety(st, "index", And(Ge(i, Zero), Lt(i, Len(y))), x.Pos())
		return v.unpack(st, st.ctx.Simp(Nth(y, i)), x.Type())
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s, i := v.term(st, fr, x.X), v.term(st, fr, x.Index)
			v.safety(st, "index", And(Ge(i, Zero), Lt(i, Len(s))), x.Pos())
			return st.ctx.Simp(Nth(s, i))
		}
		return v.lookup(st, fr, x)
	case *ssa.Range:
		return v.rangeInit(st, fr, x)
	case *ssa.Extract:
		return v.get(st, fr, x.Tuple).(Tuple)[x.Index]
	}
	unsup("instruction %T: %s", in, in)
	return nil
}

func (v *V) isNil(st *State, y Value) *Term {
	switch x := y.(type) {
	case *Iface:
		if x.rt.Op == OApp && (x.rt.Name == "i.rt" || x.rt.Name == "itabtype") {
			return Eq(x.rt.Args[0], Zero)
		}
		if x.rt == rtypeConst && x.word != nil {
			return Eq(x.word, Zero)
		}
		return Eq(x.rt, Zero)
	case *Slice:
		return x.nilT
	case *Ptr, *Clo, *MapRef:
		return False
	case *Term:
		return Eq(x, Zero)
	}
	unsup("nil comparison of %T", y)
	return nil
}

func isNilConst(x ssa.Value) bool {
	c, ok := x.(*ssa.Const)
	return ok && c.Value == nil
}

func (v *V) binop(st *State, fr *Frame, x *ssa.BinOp) Value {
	if x.Op == token.EQL || x.Op == token.NEQ {
		var r *Term
		a, b := v.get(st, fr, x.X), v.get(st, fr, x.Y)
		switch {
		case isNilConst(x.Y) && !isString(x.X.Type()):
			r = v.isNil(st, a)
		case isNilConst(x.X) && !isString(x.Y.Type()):
			r = v.isNil(st, b)
		default:
			ta, tb := v.pack(st, a, x.X.Type()), v.pack(st, b, x.Y.Type())
			if ta.Sort == F32 || ta.Sort == F64 {
				r = FP("fp.eq", Bool, ta, tb)
			} else {
				r = Eq(ta, tb)
			}
		}
		r = st.ctx.Simp(r)
		if x.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := v.term(st, fr, x.X), v.term(st, fr, x.Y)
	if a.Sort == F32 || a.Sort == F64 {
		n := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}[x.Op]
		if n != "" {
			return FP(n, a.Sort, a, b)
		}
		n = map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}[x.Op]
		if n != "" {
			return FP(n, Bool, a, b)
		}
		unsup("float operator %s", x.Op)
	}
	if a.Sort == Bytes {
		switch x.Op {
		case token.ADD:
			return Cat(Bytes, a, b)
		case token.LSS:
			return App("strlt", Bool, a, b)
		case token.GTR:
			return App("strlt", Bool, b, a)
		case token.LEQ:
			return Not(App("strlt", Bool, b, a))
		case token.GEQ:
			return Not(App("strlt", Bool, a, b))
		}
		unsup("string operator %s", x.Op)
	}
	if a.Sort == Bool {
		switch x.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	uptr := false
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
		uptr = true // addresses: no wrap around
	}
	w := func(t *Term) Value {
		if uptr {
			return st.ctx.Simp(t)
		}
		return wrap(st.ctx, t, x.Type())
	}
	switch x.Op {
	case token.ADD:
		return w(Add(a, b))
	case token.SUB:
		return w(Sub(a, b))
	case token.MUL:
		return w(Mul(a, b))
	case token.QUO:
		v.safety(st, "division by zero", Not(Eq(b, Zero)), x.Pos())
		return w(st.ctx.Simp(Tdiv(a, b)))
	case token.REM:
		v.safety(st, "division by zero", Not(Eq(b, Zero)), x.Pos())
		return w(st.ctx.Simp(Trem(a, b)))
	case token.LSS:
		return st.ctx.Simp(Lt(a, b))
	case token.LEQ:
		return st.ctx.Simp(Le(a, b))
	case token.GTR:
		return st.ctx.Simp(Gt(a, b))
	case token.GEQ:
		return st.ctx.Simp(Ge(a, b))
	case token.SHR:
		if b.isInt() && b.N.IsInt64() && b.i64() < 64 {
			return w(Div(a, IntB(new(big.Int).Lsh(bone, uint(b.i64())))))
		}
	case token.SHL:
		if b.isInt() && b.N.IsInt64() && b.i64() < 64 {
			return w(Mul(a, IntB(new(big.Int).Lsh(bone, uint(b.i64())))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r := v.bitop(st, x.Op, a, b, x.Type())
		if lo, _, ok := intRange(x.Type()); ok && lo.Sign() == 0 && (a.isInt() || b.isInt()) {
			// never out of the range of an unsigned type
			return st.ctx.Simp(r)
		}
		return w(r)
	}
	unsup("operator %s", x.Op)
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// bitop encodes the bitwise operators with a constant operand.
func (v *V) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	if a.isInt() && op != token.AND_NOT {
		a, b = b, a
	}
	if a.isInt() && b.isInt() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.N, b.N)
		case token.OR:
			r.Or(a.N, b.N)
		case token.XOR:
			r.Xor(a.N, b.N)
		case token.AND_NOT:
			r.AndNot(a.N, b.N)
		}
		return IntB(r)
	}
	if !b.isInt() || b.N.Sign() < 0 && op != token.AND {
		// both symbolic
		n := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
		return App(n, Int, a, b)
	}
	if b.N.Sign() == 0 {
		switch op {
		case token.AND:
			return Zero
		default:
			return a
		}
	}
	rg := st.ctx.Range(a)
	if rg.lo == nil || rg.lo.Sign() < 0 {
		// Signed operand: two's complement of the width.
		size := v.p.sizes.Sizeof(t) * 8
		m := new(big.Int).Lsh(bone, uint(size))
		if op == token.AND && b.N.Sign() > 0 {
			a = Mod(a, IntB(m))
		} else if op != token.AND {
			a = Mod(a, IntB(m))
		}
	}
	// bits of the constant
	var sum []*Term
	andc := func(c *big.Int) *Term { // a & c, c >= 0
		var ps []*Term
		n := c.BitLen()
		for i := 0; i < n; {
			if c.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < n && c.Bit(j) == 1 {
				j++
			}
			// bits i..j-1
			lo, w := new(big.Int).Lsh(bone, uint(i)), new(big.Int).Lsh(bone, uint(j-i))
			ps = append(ps, Mul(Mod(Div(a, IntB(lo)), IntB(w)), IntB(lo)))
			i = j
		}
		return Add(ps...)
	}
	_ = sum
	switch op {
	case token.AND:
		if b.N.Sign() < 0 {
			// a &^ c with c = ^b >= 0
			c := new(big.Int).Not(b.N)
			return Sub(a, andc(c))
		}
		return andc(b.N)
	case token.OR:
		if m := new(big.Int).Sub(b.N, bone); b.N.Sign() > 0 && new(big.Int).And(m, b.N).Sign() == 0 {
			// one bit
			return Ite(Eq(Mod(Div(a, b), IntC(2)), Zero), Add(a, b), a)
		}
		return Add(a, Sub(b, andc(b.N)))
	case token.XOR:
		return Add(a, Sub(b, Mul(IntC(2), andc(b.N))))
	case token.AND_NOT:
		if m := new(big.Int).Add(b.N, bone); b.N.Sign() > 0 && new(big.Int).And(m, b.N).Sign() == 0 {
			// the low bits are cleared
			return Mul(Div(a, IntB(m)), IntB(m))
		}
		return Sub(a, andc(b.N))
	}
	return nil
}

func (v *V) convert(st *State, fr *Frame, x *ssa.Convert) Value {
	y := v.get(st, fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	isBytes := func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && fb.Info()&types.IsString != 0 && isBytes(to):
		s := st.ctx.Simp(y.(*Term))
		cp := Fresh("cap", Int)
		st.ctx.Assume(Ge(cp, Len(s)))
		o := v.newObj(st, Obj{name: "[]byte(string)", arr: true, typ: types.Typ[types.Uint8], val: s, pinned: Zero})
		return &Slice{arr: o.id, off: Zero, ln: Len(s), cp: cp, nilT: False, elem: types.Typ[types.Uint8]}
	case isBytes(from) && tok && tb.Info()&types.IsString != 0:
		return v.content(st, y.(*Slice))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t, ok := y.(*Term)
		if !ok {
			return y // address
		}
		return wrap(st.ctx, t, x.Type())
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		t := y.(*Term)
		d := v.p.sortOf(x.Type())
		if t.Sort == d {
			return t
		}
		if d == F32 {
			return FP("to32", F32, t)
		}
		return FP("to64", F64, t)
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return App("ofint:"+v.p.sortOf(x.Type()).Name, v.p.sortOf(x.Type()), y.(*Term))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return App("runestr", Bytes, y.(*Term))
	}
	// pointers, unsafe.Pointer and uintptr
	ptrish := func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
		}
		return false
	}
	if ptrish(from) && ptrish(to) {
		return y
	}
	unsup("conversion of %s to %s", from, to)
	return nil
}

func (v *V) sliceOp(st *State, fr *Frame, x *ssa.Slice) Value {
	y := v.get(st, fr, x.X)
	var lo, hi, mx *Term
	lo = Zero
	if x.Low != nil {
		lo = v.term(st, fr, x.Low)
	}
	if x.High != nil {
		hi = v.term(st, fr, x.High)
	}
	if x.Max != nil {
		mx = v.term(st, fr, x.Max)
	}
	switch s := y.(type) {
	case *Term: // string
		if hi == nil {
			hi = Len(s)
		}
		v.safety(st, "slice bounds", And(Ge(lo, Zero), Le(lo, hi), Le(hi, Len(s))), x.Pos())
		return st.ctx.Simp(Ext(s, lo, Sub(hi, lo)))
	case *Slice:
		if hi == nil {
			hi = s.ln
		}
		if mx == nil {
			mx = s.cp
		}
		v.safety(st, "slice bounds", And(Ge(lo, Zero), Le(lo, hi), Le(hi, mx), Le(mx, s.cp)), x.Pos())
		if st.ctx.dead {
			return s
		}
		// Elements beyond what is known of the array.
		if s.arr != 0 {
			o := st.obj(s.arr)
			end := st.ctx.Simp(Add(s.off, hi))
			if o.n == nil && st.ctx.Simp(Le(hi, s.ln)) != True && st.ctx.Simp(Le(end, Len(o.val.(*Term)))) != True {
				// extend the known content with arbitrary elements
				c := o.val.(*Term)
				oo := *o
				ext := Fresh("spare", c.Sort)
				st.ctx.Assume(Eq(Len(ext), Ite(Gt(end, Len(c)), Sub(end, Len(c)), Zero)))
				oo.val = Cat(c.Sort, c, ext)
				if o.shared == "" {
					// the children may live there
				}
				st.put(oo)
			}
		}
		return v.slice(st, s, lo, hi, mx)
	case *Ptr: // array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = IntC(at.Len())
		}
		if mx == nil {
			mx = IntC(at.Len())
		}
		v.safety(st, "slice bounds", And(Ge(lo, Zero), Le(lo, hi), Le(hi, mx), Le(mx, IntC(at.Len()))), x.Pos())
		if len(s.path) != 0 {
			unsup("slice of a nested array")
		}
		o := *st.obj(s.obj)
		if !o.arr {
			// turn the cell into a backing array
			o.arr, o.typ, o.n = true, at.Elem(), IntC(at.Len())
			if o.pinned == nil {
				o.pinned = Zero
			}
			st.put(o)
		}
		return &Slice{arr: s.obj, off: lo, ln: st.ctx.Simp(Sub(hi, lo)), cp: st.ctx.Simp(Sub(mx, lo)), nilT: False, elem: at.Elem()}
	}
	unsup("slice of %T", y)
	return nil
}

// ---- maps

func (v *V) mapKey(st *State, k Value, t types.Type) *Term { return v.pack(st, k, t) }

func (v *V) lookup(st *State, fr *Frame, x *ssa.Lookup) Value {
	m := v.get(st, fr, x.X)
	u := x.X.Type().Underlying().(*types.Map)
	k := v.mapKey(st, v.get(st, fr, x.Index), u.Key())
	var has, val *Term
	switch y := m.(type) {
	case *MapRef:
		o := st.obj(y.obj)
		has = st.ctx.Simp(Read(o.pres, k))
		val = st.ctx.Simp(Read(o.mval, k))
	case *Term:
		if y.isC(0) {
			has, val = False, zeroTerm(v.p.sortOf(u.Elem()))
			break
		}
		if y.Op == OApp && strings.HasPrefix(y.Name, "mapval:") {
			has, val = st.ctx.Simp(Read(y.Args[0], k)), st.ctx.Simp(Read(y.Args[1], k))
			break
		}
		has = mhas(y, k)
		st.ctx.Assume(Imp(Eq(y, Zero), Not(has)))
		val = Ite(has, App("mget:"+k.Sort.Name+v.p.sortOf(u.Elem()).Name, v.p.sortOf(u.Elem()), y, k), zeroTerm(v.p.sortOf(u.Elem())))
		v.mapFacts(st, x.X.Type(), y, k, has, val)
	default:
		unsup("lookup in %T", m)
	}
	if x.CommaOk {
		return Tuple{v.unpack(st, val, u.Elem()), has}
	}
	return v.unpack(st, val, u.Elem())
}

func (v *V) mapUpdate(st *State, m, k, val Value, x *ssa.MapUpdate) {
	u := x.Map.Type().Underlying().(*types.Map)
	r, ok := m.(*MapRef)
	if !ok {
		v.oblige(st, "frame:write in a shared map", False, v.p.pos(x.Pos()), nil, "the map may be read by others")
		return
	}
	o := *st.obj(r.obj)
	if o.published {
		v.oblige(st, "frame:write in a published map", False, v.p.pos(x.Pos()), nil, "the map may be read by others")
	}
	if o.shared != "" {
		v.oblige(st, "frame:write in a shared map", False, v.p.pos(x.Pos()), nil, o.shared)
	}
	kt := v.mapKey(st, k, u.Key())
	if c := v.spec.Caches[typeName(x.Map.Type())]; c != nil {
		v.oblige(st, "cache: invariant of "+typeName(x.Map.Type()), v.fnEq(st, val, v.spec.evalWith(c.Expr, c.Params, []*Term{kt})), v.p.pos(x.Pos()), nil, "")
		if st.ctx.dead {
			return
		}
		v.freeze(st, val, "it can be reached through a cache", nil)
	}
	vt := v.pack(st, val, u.Elem())
	o = *st.obj(r.obj)
	o.pres, o.mval = Write(o.pres, kt, True), Write(o.mval, kt, vt)
	st.put(o)
}

// rangeIter is the state of a range over a string or a map.
type rangeIter struct{ obj int }

func (v *V) rangeInit(st *State, fr *Frame, x *ssa.Range) Value {
	y := v.get(st, fr, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		o := v.newObj(st, Obj{name: "iter", typ: types.Typ[types.Int], val: Zero})
		return Tuple{"string", y, &Ptr{obj: o.id, typ: types.Typ[types.Int]}}
	case *types.Map:
		_ = u
		// the keys are enumerated by position
		o := v.newObj(st, Obj{name: "iter", typ: types.Typ[types.Int], val: Zero})
		it := Fresh("order", Int)
		return Tuple{"map", y, &Ptr{obj: o.id, typ: types.Typ[types.Int]}, it}
	}
	unsup("range over %s", x.X.Type())
	return nil
}

// next forks on the end of the iteration; true when it has
// continued the execution itself.
func (v *V) next(st *State, fr *Frame, x *ssa.Next, b *ssa.BasicBlock, i int) bool {
	t := v.get(st, fr, x.Iter).(Tuple)
	p := t[2].(*Ptr)
	pos := v.load(st, p, types.Typ[types.Int], x.Pos()).(*Term)
	tt := x.Type().(*types.Tuple)
	if t[0] == "string" {
		s := v.pack(st, t[1], types.Typ[types.String])
		done := st.ctx.Simp(Ge(pos, Len(s)))
		s2 := st.clone()
		if done != True && st.ctx.Assume(Not(done)) {
			r := v.spec.Call("drune", Ext(s, pos, Sub(Len(s), pos)))
			n := v.spec.Call("dsize", Ext(s, pos, Sub(Len(s), pos)))
			v.set(st, fr, x, Tuple{True, pos, r})
			v.store(st, p, st.ctx.Simp(Add(pos, n)), types.Typ[types.Int], x.Pos())
			v.exec(st, fr, b, i+1)
		}
		if done != False && s2.ctx.Assume(done) {
			v.set(s2, fr, x, Tuple{False, Zero, Zero})
			v.exec(s2, fr, b, i+1)
		}
		return true
	}
	// map: mrange_n(order) entries, key number pos
	it := t[3].(*Term)
	n := App("mrange.n", Int, it)
	st.ctx.Assume(Ge(n, Zero))
	done := st.ctx.Simp(Ge(pos, n))
	s2 := st.clone()
	if done != True && st.ctx.Assume(Not(done)) {
		var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
		var kterm *Term
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if bt, ok := kt.(*types.Basic); !ok || bt.Kind() != types.Invalid {
			_ = bt
		}
		kt, vt = mt.Key(), mt.Elem()
		kterm = App("mrange.key:"+v.p.sortOf(kt).Name, v.p.sortOf(kt), it, pos)
		var has, val *Term
		switch y := t[1].(type) {
		case *MapRef:
			o := st.obj(y.obj)
			has, val = Read(o.pres, kterm), Read(o.mval, kterm)
		case *Term:
			has = mhas(y, kterm)
			val = App("mget:"+kterm.Sort.Name+v.p.sortOf(vt).Name, v.p.sortOf(vt), y, kterm)
			st.ctx.Assume(has)
			v.mapFacts(st, x.Iter.(*ssa.Range).X.Type(), y, kterm, has, val)
		}
		st.ctx.Assume(has)
		v.set(st, fr, x, Tuple{True, v.unpack(st, kterm, kt), v.unpack(st, val, vt)})
		v.store(st, p, st.ctx.Simp(Add(pos, One)), types.Typ[types.Int], x.Pos())
		v.exec(st, fr, b, i+1)
	}
	if done != False && s2.ctx.Assume(done) {
		v.set(s2, fr, x, Tuple{False, Zero, Zero})
		v.exec(s2, fr, b, i+1)
	}
	return true
}

// ---- type assertions

func (v *V) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert, k func(*State, Value)) {
	i, ok := v.get(st, fr, x.X).(*Iface)
	if !ok {
		unsup("type assertion on %T", v.get(st, fr, x.X))
	}
	at := x.AssertedType
	var okT *Term
	if _, isI := at.Underlying().(*types.Interface); isI {
		okT = And(Not(Eq(i.rt, Zero)), App("implements", Bool, i.rt, typeConst(at)))
		if types.NewMethodSet(at).Len() == 0 {
			okT = Not(Eq(i.rt, Zero))
		}
		okT = st.ctx.Simp(okT)
		if x.CommaOk {
			s2 := st.clone()
			if okT != False && st.ctx.Assume(okT) {
				k(st, Tuple{i, True})
			}
			if okT != True && s2.ctx.Assume(Not(okT)) {
				k(s2, Tuple{v.zero(s2, at), False})
			}
			return
		}
		v.ifaceTyping(st, i, typeConst(at))
		v.safety(st, "type assertion", okT, x.Pos())
		if st.ctx.dead {
			return
		}
		k(st, i)
		return
	}
	okT = st.ctx.Simp(Eq(i.rt, typeConst(at)))
	payload := func(s *State) Value {
		if i.val != nil && types.Identical(i.typ, at) {
			return i.val
		}
		w := i.word
		switch at.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return v.unpack(s, w, at)
		}
		if w == nil {
			unsup("payload of an interface")
		}
		return v.unpack(s, App("unbox:"+typeName(at), v.p.sortOf(at), w), at)
	}
	if x.CommaOk {
		s2 := st.clone()
		if okT != False && st.ctx.Assume(okT) {
			k(st, Tuple{payload(st), True})
		}
		if okT != True && s2.ctx.Assume(Not(okT)) {
			k(s2, Tuple{v.zero(s2, at), False})
		}
		return
	}
	v.safety(st, "type assertion", okT, x.Pos())
	if st.ctx.dead {
		return
	}
	k(st, payload(st))
}

func (v *V) ifaceTyping(st *State, i *Iface, at *Term) {
	// A value stored in an interface implements what the
	// interface type of its variable implements.
	fs := append([]*Term(nil), st.ctx.facts...)
	for _, f := range fs {
		if f.Op == OApp && f.Name == "implements" && (at == nil || f.Args[1] == at) {
			t := f.Args[0]
			if i.rt.Op == OApp && i.rt.Name == "itabtype" {
				st.ctx.Assume(Imp(And(Eq(App("kind", Int, t), IntC(20)), Not(Eq(i.rt, Zero))), App("implements", Bool, i.rt, f.Args[1])))
			}
			if i.rt.Op == OApp && i.rt.Name == "ld_ptr" {
				// the empty interface implements nothing of interest
				st.ctx.Assume(Imp(Eq(App("kind", Int, t), IntC(20)), Not(Eq(App("nummethod", Int, t), Zero))))
			}
		}
	}
}

// forSort tells whether the interface is only given to a function that
// sorts what it holds.
func forSort(x *ssa.MakeInterface) bool {
	for _, r := range *x.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg == nil || c.Call.StaticCallee().Pkg.Pkg.Path() != "sort" {
			return false
		}
	}
	return true
}
