package main

// What is assumed of the runtime and of the standard library
// (functions outside of the package), in terms of the functions
// declared in /verif/contracts/lib.go.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func nilIface() *Iface { return &Iface{rt: Zero, word: Zero} }

// newErr is an error value that did not exist before.
func (v *V) newErr(st *State) *Iface {
	id := Fresh("err", Int)
	st.ctx.Assume(Ge(id, One))
	return ifaceOf(id)
}

func (v *V) bytesOf(st *State, a Value) *Term {
	switch x := a.(type) {
	case *Term:
		return st.ctx.Simp(x)
	case *Slice:
		return v.content(st, x)
	}
	unsup("bytes of %T", a)
	return nil
}

// varargs returns the elements of a variadic argument.
func (v *V) varargs(st *State, a Value) []*Term {
	s, ok := a.(*Slice)
	if !ok {
		return nil
	}
	if s.arr == 0 {
		return nil
	}
	c := v.content(st, s)
	n := st.ctx.Simp(Len(c))
	if !n.isInt() {
		return []*Term{c}
	}
	var r []*Term
	for i := int64(0); i < n.i64(); i++ {
		r = append(r, st.ctx.Simp(Nth(c, IntC(i))))
	}
	return r
}

func (v *V) lib(st *State, fn *ssa.Function, args []Value, pos token.Pos, k Cont) {
	name := fn.String()
	v.usedTrusted[name] = true
	S := v.spec
	one := func(x Value) { k(st, []Value{x}) }
	app := func(out *Term) { one(v.appendTo(st, args[0].(*Slice), st.ctx.Simp(out), pos)) }
	constInt := func(a Value, n int64, what string) {
		t, ok := a.(*Term)
		if !ok || !st.ctx.Simp(t).isC(n) {
			unsup("%s of %s is not %d", what, name, n)
		}
	}
	T := func(i int) *Term { return st.ctx.Simp(args[i].(*Term)) }
	switch name {
	case "strconv.AppendInt", "strconv.AppendUint":
		constInt(args[2], 10, "base")
		app(S.Call("dec", T(1)))
		return
	case "strconv.FormatInt", "strconv.FormatUint":
		constInt(args[1], 10, "base")
		one(S.Call("dec", T(0)))
		return
	case "strconv.Itoa":
		one(S.Call("dec", T(0)))
		return
	case "strconv.AppendFloat":
		app(S.Call("ftoa", T(1), T(2), T(3), T(4)))
		return
	case "strconv.FormatFloat":
		one(S.Call("ftoa", T(0), T(1), T(2), T(3)))
		return
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		b := v.bytesOf(st, args[0])
		k(st, []Value{S.Call("drune", b), S.Call("dsize", b)})
		return
	case "encoding/json.Valid":
		one(S.Call("jvalid", v.bytesOf(st, args[0])))
		return
	case "(*encoding/base64.Encoding).EncodedLen":
		one(S.Call("b64len", T(1)))
		return
	case "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).AppendEncode", "(*encoding/base64.Encoding).EncodeToString":
		enc := T(0)
		std := mk(Term{Op: OApp, Sort: Int, Name: "ext:base64.StdEncoding"})
		b64 := func(b *Term) *Term {
			if enc == std {
				return S.Call("b64", b)
			}
			return App("b64x", Bytes, enc, b)
		}
		if strings.HasSuffix(name, "EncodeToString") {
			one(st.ctx.Simp(b64(v.bytesOf(st, args[1]))))
			return
		}
		d := args[1].(*Slice)
		src := v.bytesOf(st, args[2])
		out := b64(src)
		if strings.HasSuffix(name, "AppendEncode") {
			one(v.appendTo(st, d, st.ctx.Simp(out), pos))
			return
		}
		st.ctx.Assume(Eq(Len(out), S.Call("b64len", Len(src))))
		v.safety(st, "base64 destination size", Ge(d.ln, Len(out)), pos)
		if st.ctx.dead {
			return
		}
		if d.arr != 0 {
			v.writeRange(st, d, Zero, out, pos)
		}
		k(st, nil)
		return
	case "bytes.Compare":
		a, b := v.bytesOf(st, args[0]), v.bytesOf(st, args[1])
		one(st.ctx.Simp(Ite(App("strlt", Bool, a, b), IntC(-1), Ite(Eq(a, b), Zero, One))))
		return
	case "strings.Compare":
		a, b := T(0), T(1)
		one(st.ctx.Simp(Ite(App("strlt", Bool, a, b), IntC(-1), Ite(Eq(a, b), Zero, One))))
		return
	case "bytes.Equal":
		one(st.ctx.Simp(Eq(v.bytesOf(st, args[0]), v.bytesOf(st, args[1]))))
		return
	case "bytes.HasSuffix", "strings.HasSuffix":
		a, b := v.bytesOf(st, args[0]), v.bytesOf(st, args[1])
		one(st.ctx.Simp(And(Ge(Len(a), Len(b)), Eq(Ext(a, Sub(Len(a), Len(b)), Len(b)), b))))
		return
	case "bytes.HasPrefix", "strings.HasPrefix":
		a, b := v.bytesOf(st, args[0]), v.bytesOf(st, args[1])
		one(st.ctx.Simp(And(Ge(Len(a), Len(b)), Eq(Ext(a, Zero, Len(b)), b))))
		return
	case "strings.Index", "strings.IndexByte":
		b := T(1)
		if b.Sort == Int {
			b = Unit(b)
		}
		one(S.Call("sindex", T(0), b))
		return
	case "strings.Split":
		t := S.Call("ssplit", T(0), T(1))
		one(v.freshSlice(st, t, types.Typ[types.String]))
		return
	case "strings.ContainsRune":
		s := T(0)
		str, ok := constBytes(s)
		if !ok {
			one(App("containsRune", Bool, s, T(1)))
			return
		}
		var or []*Term
		for _, r := range str {
			if r == utf8.RuneError {
				unsup("ContainsRune of an invalid string")
			}
			or = append(or, Eq(T(1), IntC(int64(r))))
		}
		one(st.ctx.Simp(Or(or...)))
		return
	case "unicode.IsLetter":
		one(S.Call("isLetter", T(0)))
		return
	case "unicode.IsDigit":
		one(S.Call("isDigit", T(0)))
		return
	case "math.IsInf":
		constInt(args[1], 0, "sign")
		one(FP("fp.isInfinite", Bool, T(0)))
		return
	case "math.IsNaN":
		one(FP("fp.isNaN", Bool, T(0)))
		return
	case "math.Abs":
		one(FP("fp.abs", F64, T(0)))
		return
	case "fmt.Errorf", "errors.New":
		one(v.newErr(st))
		return
	case "fmt.Sprintf":
		f := T(0)
		str, ok := constBytes(f)
		if !ok {
			unsup("Sprintf with a computed format")
		}
		one(App("sprintf:"+str, Bytes, v.varargs(st, args[1])...))
		return
	case "context.TODO", "context.Background":
		n := mk(Term{Op: OApp, Sort: Int, Name: "ctx:TODO"})
		declRange(n.Name, bone, nil)
		one(ifaceOf(mk(Term{Op: OApp, Sort: Int, Name: n.Name})))
		return
	case "runtime.KeepAlive":
		k(st, nil)
		return
	case "reflect.TypeOf":
		i := args[0].(*Iface)
		isN := st.ctx.Simp(v.isNil(st, i))
		if isN == False {
			one(v.rtypeVal(st.ctx.Simp(i.rt)))
			return
		}
		s2 := st.clone()
		if isN != False && st.ctx.Assume(isN) {
			k(st, []Value{nilIface()})
		}
		if isN != True && s2.ctx.Assume(Not(isN)) {
			k(s2, []Value{v.rtypeVal(s2.ctx.Simp(i.rt))})
		}
		return
	case "reflect.PtrTo", "reflect.PointerTo":
		one(v.rtypeVal(st.ctx.Simp(App("ptrTo", Int, v.typeArg(st, args[0])))))
		return
	case "reflect.ValueOf":
		one(Fresh("value", Int))
		return
	case "(reflect.StructTag).Get":
		one(S.Call("tagGet", T(0), T(1)))
		return
	case "sync/atomic.LoadPointer":
		// whatever was last stored, by any goroutine
		p := Fresh("loaded", Int)
		st.ctx.Assume(Ge(p, Zero))
		one(p)
		return
	case "sync/atomic.StorePointer":
		if g := v.globalOf(args[0]); g != "instrCachePtr" {
			unsup("StorePointer to %s", g)
		}
		t := T(1)
		if !strings.HasPrefix(t.Name, "mapval:") || !v.cacheMaps[t] {
			v.oblige(st, "cache: a map of instructions is published", False, v.p.pos(pos), nil, t.String())
		}
		k(st, nil)
		return
	case "(*sync.WaitGroup).Add":
		constInt(args[1], 1, "count")
		p := args[0].(*Ptr)
		o := *st.obj(p.obj)
		o.released = ""
		o.wgCount++
		st.put(o)
		k(st, nil)
		return
	case "(*sync.WaitGroup).Done":
		p := args[0].(*Ptr)
		o := *st.obj(p.obj)
		v.oblige(st, "safe:negative WaitGroup counter", BoolC(o.wgCount > 0), v.p.pos(pos), nil, "")
		if st.ctx.dead {
			return
		}
		o.wgCount--
		if o.wgCount == 0 {
			o.snap = map[int]*Obj{}
			for id, x := range st.heap {
				o.snap[id] = x
			}
		}
		st.put(o)
		if o.wgCount == 0 {
			for _, c := range o.pubs {
				v.freeze(st, c, "it can be reached through a cache", nil)
			}
		}
		k(st, nil)
		return
	case "(*sync.WaitGroup).Wait":
		p := args[0].(*Ptr)
		o := *st.obj(p.obj)
		if o.wgCount > 0 {
			f := st.future
			var fo *Obj
			if f != nil {
				fo = f[p.obj]
			}
			if fo == nil || fo.snap == nil {
				v.oblige(st, "safe:the wait never ends", False, v.p.pos(pos), nil, "the counter of the WaitGroup stays positive")
				return
			}
			// what happened before the last Done is visible
			for id, x := range fo.snap {
				y := st.heap[id]
				if y != nil && y.arr {
					continue
				}
				c := *x
				if c.shared == "" {
					c.shared = concurrent
				}
				st.heap[id] = &c
			}
		}
		k(st, nil)
		return
	case "(*sync.Pool).Get":
		v.poolGet(st, args[0], pos, k)
		return
	case "(*sync.Pool).Put":
		v.poolPut(st, args[0], args[1], pos)
		if !st.ctx.dead {
			k(st, nil)
		}
		return
	case "(*sync.Map).Load", "(*sync.Map).Store", "(*sync.Map).LoadOrStore":
		v.cacheOp(st, fn.Name(), args, pos, k)
		return
	case "(*sync.Map).Range":
		v.syncRange(st, args, pos, k)
		return
	case "sort.Sort", "sort.Stable":
		v.sortIface(st, args[0], pos, k)
		return
	case "sort.Slice", "sort.SliceStable":
		v.sortSlice(st, args[0], args[1], pos, k)
		return
	// time
	case "(time.Time).Year":
		one(S.Call("tYear", T(0)))
		return
	case "(time.Time).Unix":
		one(S.Call("tUnix", T(0)))
		return
	case "(time.Time).Nanosecond":
		one(S.Call("tNano", T(0)))
		return
	case "(time.Time).Zone":
		k(st, []Value{App("tZoneName", Bytes, T(0)), S.Call("tOff", T(0))})
		return
	case "(time.Time).AppendFormat":
		one(v.appendTo(st, args[1].(*Slice), S.Call("tFormat", T(0), T(2)), pos))
		return
	case "(time.Time).Format":
		one(S.Call("tFormat", T(0), T(1)))
		return
	case "(time.Duration).Nanoseconds":
		one(T(0))
		return
	case "(time.Duration).Microseconds":
		one(st.ctx.Simp(Tdiv(T(0), IntC(1000))))
		return
	case "(time.Duration).Milliseconds":
		one(st.ctx.Simp(Tdiv(T(0), IntC(1000000))))
		return
	case "(time.Duration).Minutes":
		one(S.Call("durMin", T(0)))
		return
	case "(time.Duration).Seconds":
		one(S.Call("durSec", T(0)))
		return
	// bytes.Buffer
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "encoding/json.HTMLEscape", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Len":
		v.bufferOp(st, fn.Name(), args, pos, k)
		return
	}
	if strings.HasPrefix(name, "github.com/wI2L/jettison.") {
		v.usedTrusted[name] = true
		switch fn.Name() {
		case "maplen":
			one(S.Call("maplen", T(0)))
			return
		case "mapiterinit", "newmapiter":
			v.iterInit(st, args, pos)
			if !st.ctx.dead {
				k(st, nil)
			}
			return
		case "mapiternext":
			p := args[0].(*Ptr)
			o := *st.obj(p.obj)
			if o.gm == nil || o.released != "" {
				v.oblige(st, "safe:mapiternext on an uninitialised iterator", False, v.p.pos(pos), nil, "")
				return
			}
			v.safety(st, "mapiternext past the end", Lt(o.gpos, S.Call("maplen", o.gm)), pos)
			o = *st.obj(p.obj)
			o.gpos = st.ctx.Simp(Add(o.gpos, One))
			v.iterFields(st, &o)
			st.put(o)
			k(st, nil)
			return
		}
	}
	if fn.Name() == "init" {
		k(st, nil)
		return
	}
	unsup("call of %s", name)
}

func constBytes(t *Term) (string, bool) {
	if t.Op == OEmpty {
		return "", true
	}
	var b []byte
	parts := []*Term{t}
	if t.Op == OCat {
		parts = t.Args
	}
	for _, p := range parts {
		if p.Op == OUnit && p.Args[0].isInt() {
			b = append(b, byte(p.Args[0].i64()))
			continue
		}
		return "", false
	}
	return string(b), true
}

func (v *V) globalOf(a Value) string {
	p, ok := a.(*Ptr)
	if !ok || len(p.path) != 0 {
		return ""
	}
	for g, id := range v.globals {
		if id == p.obj {
			return g.Name()
		}
	}
	return ""
}

// typeArg is the term of a reflect.Type.
func (v *V) typeArg(st *State, a Value) *Term {
	i, ok := a.(*Iface)
	if !ok {
		unsup("reflect.Type %T", a)
	}
	if i.rt == Zero {
		return Zero
	}
	return st.ctx.Simp(i.word)
}

// ---- interface methods

func (v *V) invoke(st *State, recv Value, cm *ssa.CallCommon, args []Value, pos token.Pos, k Cont) {
	m := cm.Method.Name()
	one := func(x Value) { k(st, []Value{x}) }
	S := v.spec
	i, ok := recv.(*Iface)
	if !ok {
		unsup("method %s of %T", m, recv)
	}
	if isReflectType(cm.Value.Type()) {
		t := v.typeArg(st, i)
		v.safety(st, "method of a nil reflect.Type", Not(Eq(t, Zero)), pos)
		if st.ctx.dead {
			return
		}
		kind := func() *Term { return st.ctx.Simp(App("kind", Int, t)) }
		needs := func(ks ...int64) bool {
			var or []*Term
			kd := kind()
			for _, x := range ks {
				or = append(or, Eq(kd, IntC(x)))
			}
			v.safety(st, "reflect."+m+" of a type of the wrong kind", Or(or...), pos)
			return !st.ctx.dead
		}
		v.usedTrusted["reflect.Type."+m] = true
		switch m {
		case "Kind":
			one(kind())
		case "Elem":
			if needs(17, 18, 21, 22, 23) {
				one(v.rtypeVal(st.ctx.Simp(App("elem", Int, t))))
			}
		case "Key":
			if needs(21) {
				one(v.rtypeVal(st.ctx.Simp(S.Call("mapkey", t))))
			}
		case "Len":
			if needs(17) {
				one(S.Call("tlen", t))
			}
		case "NumField":
			if needs(25) {
				one(S.Call("numfield", t))
			}
		case "Field":
			if needs(25) {
				x := st.ctx.Simp(args[0].(*Term))
				v.safety(st, "reflect.Field index", And(Ge(x, Zero), Lt(x, S.Call("numfield", t))), pos)
				if st.ctx.dead {
					return
				}
				one(v.unpack(st, S.Call("tfield", t, x), cm.Signature().Results().At(0).Type()))
			}
		case "Name":
			one(S.Call("tname", t))
		case "PkgPath":
			one(App("tpkg", Bytes, t))
		case "String":
			one(App("tstring", Bytes, t))
		case "Size":
			one(S.Call("tsize", t))
		case "NumMethod":
			one(S.Call("nummethod", t))
		case "Implements":
			x := v.typeArg(st, args[0])
			one(st.ctx.Simp(App("implements", Bool, t, x)))
		default:
			unsup("reflect.Type.%s", m)
		}
		return
	}
	v.usedTrusted["method "+m+" of a value of the user"] = true
	v.safety(st, "method of a nil interface", Not(v.isNil(st, i)), pos)
	if st.ctx.dead {
		return
	}
	x := st.ctx.Simp(v.pack(st, i, nil))
	switch m {
	case "AppendJSONContext":
		c := v.pack(st, args[0], nil)
		v.outcome(st, args[1].(*Slice), S.Call("amcOut", x, c), S.Call("amcErr", x, c), pos, k)
		return
	case "AppendJSON":
		v.outcome(st, args[0].(*Slice), S.Call("amOut", x), S.Call("amErr", x), pos, k)
		return
	case "MarshalJSON", "MarshalText":
		p := map[string]string{"MarshalJSON": "mj", "MarshalText": "mt"}[m]
		e := st.ctx.Simp(S.Call(p+"Err", x))
		out := st.ctx.Simp(S.Call(p+"Out", x))
		res := v.unpack(st, out, types.NewSlice(types.Typ[types.Uint8]))
		ok := st.ctx.Simp(Eq(e, Zero))
		s2 := st.clone()
		if ok != False && st.ctx.Assume(ok) && !st.ctx.dead {
			k(st, []Value{res, nilIface()})
		}
		if ok != True && s2.ctx.Assume(Not(ok)) && !s2.ctx.dead {
			k(s2, []Value{v.unpack(s2, Fresh("junk", Bytes), types.NewSlice(types.Typ[types.Uint8])), ifaceOf(e)})
		}
		return
	case "Error", "String":
		one(Fresh("text", Bytes))
		return
	}
	unsup("method %s of an interface", m)
}

// ---- maps

// mapFacts: what holds of the entries of the maps that are
// shared between the calls.
func (v *V) mapFacts(st *State, t types.Type, m, key, has, val *Term) {
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	c := v.spec.Caches[n.Obj().Name()]
	if c == nil {
		return
	}
	st.ctx.Assume(Imp(has, Eq(val, v.spec.evalWith(c.Expr, c.Params, []*Term{key}))))
	if val.Op == OIte {
		st.ctx.Assume(Imp(has, Eq(val.Args[1], v.spec.evalWith(c.Expr, c.Params, []*Term{key}))))
	}
}

func (v *V) iterInit(st *State, args []Value, pos token.Pos) {
	p, ok := args[2].(*Ptr)
	if !ok {
		unsup("map iterator %T", args[2])
	}
	o := *st.obj(p.obj)
	s, ok := o.val.(*Struct)
	if !ok {
		unsup("map iterator %T", o.val)
	}
	v.oblige(st, "safe:map iterator not zeroed", Eq(v.pack(st, s, o.typ), v.pack(st, v.zero(st, o.typ), o.typ)), v.p.pos(pos), nil, "the runtime requires a zeroed iterator")
	if st.ctx.dead {
		return
	}
	o = *st.obj(p.obj)
	o.gm = st.ctx.Simp(args[1].(*Term))
	o.gpos = Zero
	// the type must be the one of the map: not checked (trusted)
	o.val = v.freshVal(st, "hiter", o.typ, nil)
	v.iterFields(st, &o)
	st.put(o)
}

// iterFields sets the key and the value of an iterator.
func (v *V) iterFields(st *State, o *Obj) {
	s := o.val.(*Struct)
	n := &Struct{typ: s.typ, f: append([]Value{}, s.f...)}
	u := s.typ.Underlying().(*types.Struct)
	in := Lt(o.gpos, v.spec.Call("maplen", o.gm))
	for i := 0; i < u.NumFields(); i++ {
		switch u.Field(i).Name() {
		case "key":
			n.f[i] = st.ctx.Simp(Ite(in, v.spec.Call("mkey", o.gm, o.gpos), Zero))
		case "val":
			n.f[i] = st.ctx.Simp(Ite(in, v.spec.Call("mval", o.gm, o.gpos), Zero))
		}
	}
	o.val = n
}

// ---- pools

func (v *V) poolGlobal(a Value) *ssa.Global {
	p, ok := a.(*Ptr)
	if !ok {
		return nil
	}
	for g, id := range v.globals {
		if id == p.obj {
			return g
		}
	}
	return nil
}

func (v *V) poolGet(st *State, pool Value, pos token.Pos, k Cont) {
	g := v.poolGlobal(pool)
	if g == nil {
		unsup("Get of an unknown pool")
	}
	pt := v.p.pools[g]
	s2 := st.clone()
	st.trail = append(st.trail, v.p.pos(pos)+":pool empty")
	k(st, []Value{nilIface()})
	if pt == nil {
		return
	}
	s2.trail = append(s2.trail, v.p.pos(pos)+":pooled")
	et := pt.Underlying().(*types.Pointer).Elem()
	o := v.newObj(s2, Obj{name: g.Name() + ".Get", typ: et})
	val := v.freshVal(s2, "pooled", et, nil)
	o2 := *o
	o2.val = val
	s2.put(o2)
	if e := v.spec.PoolInv[g.Name()]; e != nil {
		env := &Env{vars: map[string]*Term{"x": v.pack(s2, val, et)}}
		s2.ctx.Assume(v.spec.eval(e, env))
		v.unpin(s2, val)
	}
	k(s2, []Value{&Iface{rt: typeConst(pt), val: &Ptr{obj: o.id, typ: et}, typ: pt}})
}

func (v *V) unpin(st *State, x Value) {
	if s, ok := x.(*Struct); ok {
		for _, f := range s.f {
			if sl, ok := f.(*Slice); ok && sl.arr != 0 {
				o := *st.obj(sl.arr)
				o.pinned = Zero
				st.put(o)
			}
		}
	}
}

func (v *V) poolPut(st *State, pool, x Value, pos token.Pos) {
	g := v.poolGlobal(pool)
	if g == nil {
		unsup("Put in an unknown pool")
	}
	i, ok := x.(*Iface)
	if !ok || i.val == nil {
		unsup("Put of %T", x)
	}
	p, ok := i.val.(*Ptr)
	if !ok || len(p.path) != 0 {
		unsup("Put of a value that is not a pointer to an object")
	}
	ps := v.p.pos(pos)
	o := *st.obj(p.obj)
	if o.released != "" {
		v.oblige(st, "own:released twice", False, ps, nil, o.name+" is given back to a pool twice")
		return
	}
	if v.p.pools[g] == nil || !types.Identical(i.typ, v.p.pools[g]) {
		v.oblige(st, "own:pool of objects of the same type", False, ps, nil, "")
		return
	}
	if o.shared != "" {
		v.oblige(st, "own:release of a shared object", False, ps, nil, o.name)
		return
	}
	if e := v.spec.PoolInv[g.Name()]; e != nil {
		env := &Env{vars: map[string]*Term{"x": v.peekStruct(st, o.val, o.typ)}}
		v.oblige(st, "pool invariant of "+g.Name(), v.spec.eval(e, env), ps, nil, v.spec.PoolText[g.Name()])
		if st.ctx.dead {
			return
		}
	}
	why := "the pool " + g.Name()
	o = *st.obj(p.obj)
	o.released = why
	st.put(o)
	if s, ok := o.val.(*Struct); ok {
		for _, f := range s.f {
			sl, ok := f.(*Slice)
			if !ok || sl.arr == 0 {
				continue
			}
			for id := sl.arr; id != 0; {
				a := *st.obj(id)
				if a.shared != "" || a.caller {
					v.oblige(st, "own:memory of the caller given to a pool", Eq(sl.cp, Zero), ps, nil, a.name+" "+a.shared)
					if st.ctx.dead {
						return
					}
				}
				a.released = why
				st.put(a)
				id = a.parent
			}
		}
	}
	// what still holds pieces of it becomes stale
	for id, a := range st.heap {
		if a.arr && a.released == "" && a.shared == "" && holdsSeq(v.p.sortOf(a.typ)) && id != p.obj {
			b := *a
			b.stale = why
			st.put(b)
		}
	}
}

func holdsSeq(s *Sort) bool {
	if s.Kind == SSeq {
		return true
	}
	for _, f := range s.Fields {
		if holdsSeq(f.Sort) {
			return true
		}
	}
	return false
}

// peekStruct packs a value without pinning its slices.
func (v *V) peekStruct(st *State, x Value, t types.Type) *Term {
	s, ok := x.(*Struct)
	if !ok {
		return v.pack(st, x, t)
	}
	u := s.typ.Underlying().(*types.Struct)
	so := v.p.sortOf(s.typ)
	args := make([]*Term, len(s.f))
	for i, f := range s.f {
		if sl, ok := f.(*Slice); ok {
			args[i] = v.content(st, sl)
			continue
		}
		args[i] = v.peekStruct(st, f, u.Field(i).Type())
	}
	return Mk(so, args...)
}

// ---- caches

// keyLeaves collects the values a cache key is made of.
func keyLeaves(t *Term, out *[]*Term) bool {
	if t.Op == OApp {
		switch {
		case t.Name == "iface":
			return keyLeaves(t.Args[1], out)
		case strings.HasPrefix(t.Name, "box:"):
			return keyLeaves(t.Args[0], out)
		case strings.HasPrefix(t.Name, "sprintf:"):
			f := t.Name[8:]
			// every argument must be printed, and separated
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				if i+1 >= len(f) {
					return false
				}
				switch f[i+1] {
				case 'p', 't', 'd', 'x', 'v':
				default:
					return false
				}
				if n > 0 && f[i-1] != '-' && f[i-1] != ':' && f[i-1] != ',' && f[i-1] != '/' && f[i-1] != '|' && f[i-1] != '_' && f[i-1] != ' ' {
					return false
				}
				n++
				i++
			}
			if n != len(t.Args) {
				return false
			}
			for _, a := range t.Args {
				if !keyLeaves(a, out) {
					return false
				}
			}
			return true
		}
	}
	if t.Op == OMk {
		for _, a := range t.Args {
			if !keyLeaves(a, out) {
				return false
			}
		}
		return true
	}
	*out = append(*out, t)
	return true
}

// cacheExpect returns the value due for a key, and what else is
// known when there is one.
func (v *V) cacheExpect(st *State, c *Cache, key Value) (x, where *Term) {
	kt := st.ctx.Simp(v.pack(st, key, nil))
	var ls []*Term
	if !keyLeaves(kt, &ls) {
		return nil, nil
	}
	used := map[int]bool{}
	var as []*Term
	for _, s := range c.Sorts {
		found := false
		for i, l := range ls {
			if !used[i] && l.Sort == s {
				used[i] = true
				as = append(as, l)
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	where = True
	if c.Where != nil {
		where = v.spec.evalWith(c.Where, c.Params, as)
	}
	return v.spec.evalWith(c.Expr, c.Params, as), where
}

func (v *V) cacheOp(st *State, op string, args []Value, pos token.Pos, k Cont) {
	name := v.globalOf(args[0])
	c := v.spec.Caches[name]
	if c == nil {
		unsup("%s of a sync.Map that is not a known cache", op)
	}
	x, where := v.cacheExpect(st, c, args[1])
	if x == nil {
		v.oblige(st, "cache: the key determines the value", False, v.p.pos(pos), nil, "key of "+name)
		return
	}
	vt := v.spec.goType(c.Type)
	if vt == nil {
		unsup("type %s of the cache %s", c.Type, name)
	}
	cached := func(s *State) *Iface {
		s.ctx.Assume(where)
		xx := s.ctx.Simp(x)
		return &Iface{rt: typeConst(vt), val: v.unpack(s, xx, vt), typ: vt}
	}
	check := func(s *State, val Value) {
		i, ok := val.(*Iface)
		if !ok || i.val == nil || !types.Identical(i.typ, vt) {
			v.oblige(s, "cache: type of the values of "+name, False, v.p.pos(pos), nil, "")
			return
		}
		if where != True {
			v.oblige(s, "cache: second invariant of "+name, where, v.p.pos(pos), nil, where.String())
		}
		if v.p.sortOf(vt).Kind == SSeq {
			v.oblige(s, "cache: invariant of "+name, Eq(v.pack(s, i.val, vt), x), v.p.pos(pos), nil, x.String())
			if sl, ok := i.val.(*Slice); ok && sl.arr != 0 {
				o := *s.obj(sl.arr)
				o.shared = "it is in the cache " + name
				s.put(o)
			}
			return
		}
		if cl, ok := i.val.(*Clo); ok && v.waits(cl) {
			snap := map[int]*Obj{}
			for id, o := range s.heap {
				snap[id] = o
			}
			if !v.pubWait(s, cl) {
				v.freeze(s, cl, "it can be reached through a cache", nil)
			}
			s.deferred = append(s.deferred[:len(s.deferred):len(s.deferred)], func(end *State) {
				e := end.clone()
				e.future = end.heap
				e.heap = map[int]*Obj{}
				for id, o := range end.heap {
					e.heap[id] = o
				}
				for id, o := range snap {
					c := *o
					if x := end.heap[id]; x != nil && x.ver != o.ver {
						c.racy = "it is written after the function that reads it was stored in a cache"
					}
					e.heap[id] = &c
				}
				v.oblige(e, "cache: invariant of "+name, v.fnEq(e, cl, x), v.p.pos(pos), nil, x.String())
			})
			return
		}
		v.oblige(s, "cache: invariant of "+name, v.fnEq(s, i.val, x), v.p.pos(pos), nil, x.String())
		if !s.ctx.dead {
			v.freeze(s, i.val, "it can be reached through a cache", nil)
		}
	}
	switch op {
	case "Load":
		s2 := st.clone()
		st.trail = append(st.trail, v.p.pos(pos)+":cached")
		k(st, []Value{cached(st), True})
		s2.trail = append(s2.trail, v.p.pos(pos)+":not cached")
		k(s2, []Value{nilIface(), False})
	case "Store":
		check(st, args[2])
		if !st.ctx.dead {
			k(st, nil)
		}
	case "LoadOrStore":
		s2 := st.clone()
		st.trail = append(st.trail, v.p.pos(pos)+":cached")
		k(st, []Value{cached(st), True})
		s2.trail = append(s2.trail, v.p.pos(pos)+":stored")
		check(s2, args[2])
		if !s2.ctx.dead {
			k(s2, []Value{args[2], False})
		}
	}
}

// pubWait notes in the wait groups of the closure, not
// done yet, that it is published.
func (v *V) pubWait(st *State, c *Clo) bool {
	r := false
	for _, b := range c.binds {
		p, ok := b.(*Ptr)
		if !ok {
			continue
		}
		o := *st.obj(p.obj)
		if o.wgCount > 0 {
			o.pubs = append(o.pubs[:len(o.pubs):len(o.pubs)], c)
			st.put(o)
			r = true
		}
	}
	return r
}

// waits reports whether the closure waits for a WaitGroup.
func (v *V) waits(c *Clo) bool {
	for _, fv := range c.fn.FreeVars {
		if strings.Contains(fv.Type().String(), "sync.WaitGroup") {
			return true
		}
	}
	return false
}

// ---- sync.Map of the user

func (v *V) syncRange(st *State, args []Value, pos token.Pos, k Cont) {
	sm, ok := args[0].(*Term)
	if !ok {
		unsup("Range of a local sync.Map")
	}
	sm = st.ctx.Simp(sm)
	n := v.spec.Call("smlen", sm)
	cell := v.newObj(st, Obj{name: "pos", typ: types.Typ[types.Int], val: Zero})
	id := cell.id
	depth := len(st.env) - 1
	l := &Loop{body: map[*ssa.BasicBlock]bool{}}
	leave := func(s *State) bool {
		e := s.loops[len(s.loops)-1]
		if e.loop != l {
			unsup("loops out of order")
		}
		s.loops = s.loops[:len(s.loops)-1]
		return !e.probe
	}
	nd := len(st.defers)
	g := &gloop{
		id:     fmt.Sprintf("Range#%d", depth),
		depth:  depth,
		loop:   l,
		pos:    v.p.pos(pos),
		arrive: func(s *State, from *ssa.BasicBlock) {},
		extra: func(s *State) {
			p := s.obj(id).val.(*Term)
			s.ctx.Assume(Ge(p, Zero))
			s.ctx.Assume(Le(p, n))
		},
	}
	g.run = func(s *State) {
		p := s.ctx.Simp(s.obj(id).val.(*Term))
		done := s.ctx.Simp(Ge(p, n))
		s2 := s.clone()
		if done != True && s.ctx.Assume(Not(done)) && !s.ctx.dead {
			ka := ifaceOf(v.spec.Call("smkey", sm, p))
			va := ifaceOf(v.spec.Call("smval", sm, p))
			v.callValue(s, nil, args[1], []Value{ka, va}, pos, func(s3 *State, res []Value) {
				s3.defers = s3.defers[:nd]
				more := s3.ctx.Simp(res[0].(*Term))
				s4 := s3.clone()
				if more != False && s3.ctx.Assume(more) && !s3.ctx.dead {
					o := *s3.obj(id)
					o.val = s3.ctx.Simp(Add(p, One))
					s3.put(o)
					e := s3.loops[len(s3.loops)-1]
					if e.loop != l {
						unsup("loops out of order")
					}
					e.back(s3, nil)
				}
				if more != True && s4.ctx.Assume(Not(more)) && !s4.ctx.dead {
					if leave(s4) {
						k(s4, nil)
					}
				}
			})
		}
		if done != False && s2.ctx.Assume(done) && !s2.ctx.dead {
			if leave(s2) {
				k(s2, nil)
			}
		}
	}
	v.genericLoop(st, g)
}

// ---- sorting

func (v *V) sortContent(st *State, sl *Slice, order string, pos token.Pos) {
	if sl.arr == 0 {
		return
	}
	old := v.content(st, sl)
	nw := v.spec.Call("sorted_"+order, old)
	st.ctx.Assume(Eq(Len(nw), Len(old)))
	v.writeRange(st, sl, Zero, nw, pos)
	// the elements still hold the same pieces of memory
}

// matchLess finds the order of the specification that the
// comparison run by less is, for elements of this type.
func (v *V) matchLess(st *State, sl *Slice, pos token.Pos, less func(s *State, i, j *Term, k func(*State, *Term))) string {
	es := v.p.sortOf(sl.elem)
	c := v.content(st, sl)
	i, j := Fresh("i", Int), Fresh("j", Int)
	s := st.clone()
	for _, x := range []*Term{i, j} {
		s.ctx.Assume(Ge(x, Zero))
		s.ctx.Assume(Lt(x, Len(c)))
	}
	type outc struct {
		s *State
		r *Term
	}
	if s.ctx.dead {
		return ""
	}
	var outs []outc
	s.loops = append(s.loops[:len(s.loops):len(s.loops)], &loopEntry{depth: len(s.env)})
	less(s, i, j, func(s2 *State, r *Term) { outs = append(outs, outc{s2, r}) })
	pre := "less_" + strings.TrimPrefix(es.Name, "Seq ") + "__"
	var tried []string
	for n, f := range v.spec.Fns {
		if !strings.HasPrefix(n, pre) || f.PSorts[0] != es {
			continue
		}
		tried = append(tried, n)
	}
	sort.Strings(tried)
	for _, n := range tried {
		ok := true
		for _, o := range outs {
			g := Eq(o.r, v.spec.Call(n, Nth(c, i), Nth(c, j)))
			if v.prove(o.s.ctx, g, v.fuel, 8e9*timeScale).Status != "unsat" {
				if v.debug {
					fmt.Printf("   order %s: %s\n", n, o.s.ctx.Simp(g))
				}
				ok = false
				break
			}
		}
		if ok && len(outs) > 0 {
			for _, o := range outs {
				v.oblige(o.s, "sort order", Eq(o.r, v.spec.Call(n, Nth(c, i), Nth(c, j))), v.p.pos(pos), nil, n)
			}
			return strings.TrimPrefix(n, "less_")
		}
	}
	v.oblige(st, "sort order", False, v.p.pos(pos), nil, "the comparison is none of "+strings.Join(tried, ", "))
	return ""
}

func (v *V) sortSlice(st *State, x, less Value, pos token.Pos, k Cont) {
	i, ok := x.(*Iface)
	if !ok || i.val == nil {
		unsup("sort.Slice of %T", x)
	}
	sl, ok := i.val.(*Slice)
	if !ok {
		unsup("sort.Slice of %T", i.val)
	}
	if sl.arr == 0 {
		k(st, nil)
		return
	}
	n := v.matchLess(st, sl, pos, func(s *State, a, b *Term, kk func(*State, *Term)) {
		v.callValue(s, nil, less, []Value{a, b}, pos, func(s2 *State, r []Value) { kk(s2, r[0].(*Term)) })
	})
	if n == "" {
		return
	}
	v.sortContent(st, sl, n, pos)
	if !st.ctx.dead {
		k(st, nil)
	}
}

func (v *V) sortIface(st *State, x Value, pos token.Pos, k Cont) {
	i, ok := x.(*Iface)
	if !ok || i.val == nil {
		unsup("sort.Sort of %T", x)
	}
	ms := v.p.prog.MethodSets.MethodSet(i.typ)
	meth := func(n string) *ssa.Function {
		s := ms.Lookup(v.p.pkg, n)
		if s == nil {
			unsup("no method %s", n)
		}
		return v.p.prog.MethodValue(s)
	}
	// the slice that is sorted
	var sl *Slice
	switch y := i.val.(type) {
	case *Slice:
		sl = y
	case *Ptr:
		if s, ok := st.obj(y.obj).val.(*Struct); ok && len(y.path) == 0 {
			for _, f := range s.f {
				if z, ok := f.(*Slice); ok {
					sl = z
				}
			}
		}
	case *Struct:
		for _, f := range y.f {
			if z, ok := f.(*Slice); ok {
				sl = z
			}
		}
	}
	if sl == nil {
		unsup("sort.Sort of %s", i.typ)
	}
	if sl.arr == 0 {
		k(st, nil)
		return
	}
	ps := v.p.pos(pos)
	c := v.content(st, sl)
	sub := func() *State {
		s := st.clone()
		s.loops = append(s.loops[:len(s.loops):len(s.loops)], &loopEntry{depth: len(s.env)})
		return s
	}
	v.callFn(sub(), meth("Len"), []Value{i.val}, nil, pos, func(s *State, r []Value) {
		v.oblige(s, "sort: Len", Eq(r[0].(*Term), sl.ln), ps, nil, "")
	})
	s := sub()
	a, b := Fresh("i", Int), Fresh("j", Int)
	for _, x := range []*Term{a, b} {
		s.ctx.Assume(Ge(x, Zero))
		s.ctx.Assume(Lt(x, sl.ln))
	}
	if !s.ctx.dead {
		v.callFn(s, meth("Swap"), []Value{i.val, a, b}, nil, pos, func(s2 *State, r []Value) {
			n := v.content(s2, sl)
			v.oblige(s2, "sort: Swap", Eq(n, Upd(Upd(c, a, Nth(c, b)), b, Nth(c, a))), ps, nil, "")
		})
	}
	n := v.matchLess(st, sl, pos, func(s *State, a, b *Term, kk func(*State, *Term)) {
		v.callFn(s, meth("Less"), []Value{i.val, a, b}, nil, pos, func(s2 *State, r []Value) { kk(s2, r[0].(*Term)) })
	})
	if n == "" {
		return
	}
	v.sortContent(st, sl, n, pos)
	if !st.ctx.dead {
		k(st, nil)
	}
}

// ---- bytes.Buffer

func (v *V) bufferOp(st *State, op string, args []Value, pos token.Pos, k Cont) {
	p, ok := args[0].(*Ptr)
	if !ok {
		// json.HTMLEscape takes a pointer too
		if i, isI := args[0].(*Iface); isI {
			p, ok = i.val.(*Ptr)
		}
		if !ok {
			unsup("bytes.Buffer %T", args[0])
		}
	}
	o := *st.obj(p.obj)
	c, ok := o.val.(*Term)
	if !ok || c.Sort != Bytes {
		unsup("bytes.Buffer %T", o.val)
	}
	set := func(t *Term) {
		for _, id := range o.kids {
			a := *st.obj(id)
			v.oblige(st, "own:bytes of the buffer in use are overwritten", Eq(a.pinned, Zero), v.p.pos(pos), nil, "")
			a.released = "the next use of the buffer"
			st.put(a)
		}
		o.kids = nil
		o.val = st.ctx.Simp(t)
		st.put(o)
	}
	switch op {
	case "Reset":
		set(Empty(Bytes))
		k(st, nil)
	case "WriteString", "Write":
		b := v.bytesOf(st, args[1])
		set(Cat(Bytes, c, b))
		k(st, []Value{st.ctx.Simp(Len(b)), nilIface()})
	case "WriteByte":
		set(Cat(Bytes, c, Unit(args[1].(*Term))))
		k(st, []Value{nilIface()})
	case "HTMLEscape":
		set(Cat(Bytes, c, v.spec.Call("htmlEscape", v.bytesOf(st, args[1]))))
		k(st, nil)
	case "String":
		k(st, []Value{c})
	case "Len":
		k(st, []Value{st.ctx.Simp(Len(c))})
	case "Bytes":
		r := v.unpack(st, c, types.NewSlice(types.Typ[types.Uint8])).(*Slice)
		o = *st.obj(p.obj)
		o.kids = append(o.kids[:len(o.kids):len(o.kids)], r.arr)
		st.put(o)
		k(st, []Value{r})
	}
}
