package main

// Calls: contracts of the functions of the package, symbolic
// instructions, and inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic functions

var symSpec *Spec

// mkSym applies a symbolic function: what is O (output), E
// (error), EM (emptiness), OPT (option).
func mkSym(what string, res *Sort, f *Term, args ...*Term) *Term {
	if f.Op == OIte {
		return Ite(f.Args[0], mkSym(what, res, f.Args[1], args...), mkSym(what, res, f.Args[2], args...))
	}
	if f.Op == OApp && symSpec != nil {
		n := strings.TrimPrefix(f.Name, "fn:")
		if symSpec.Fns[what+"_"+n] != nil {
			return symSpec.Call(what+"_"+n, append(append([]*Term{}, f.Args...), args...)...)
		}
		if what == "E" && symSpec.Fns["O_"+n] != nil {
			return Zero
		}
	}
	return App(what, res, append([]*Term{f}, args...)...)
}

func mkO(f, p, o *Term) *Term { return mkSym("O", Bytes, f, p, o) }
func mkE(f, p, o *Term) *Term { return mkSym("E", Int, f, p, o) }
func mkEM(f, p *Term) *Term   { return mkSym("EM", Bool, f, p) }
func mkOPT(f, eo *Term) *Term { return mkSym("OPT", eo.Sort, f, eo) }

func init() { declRange("E", bzero, nil) }

// ---- entry points

func (v *V) call(st *State, fr *Frame, cm *ssa.CallCommon, pos token.Pos, k Cont) {
	args := make([]Value, len(cm.Args))
	for i, a := range cm.Args {
		args[i] = v.get(st, fr, a)
	}
	if cm.IsInvoke() {
		v.invoke(st, v.get(st, fr, cm.Value), cm, args, pos, k)
		return
	}
	v.callValue(st, cm, v.get(st, fr, cm.Value), args, pos, k)
}

func (v *V) callValue(st *State, cm *ssa.CallCommon, fv Value, args []Value, pos token.Pos, k Cont) {
	switch f := fv.(type) {
	case *Clo:
		if strings.HasPrefix(f.lib, "builtin.") {
			v.builtin(st, f.lib[8:], cm, args, pos, k)
			return
		}
		v.callFn(st, f.fn, args, f.binds, pos, k)
		return
	case *Term:
		f = st.ctx.Simp(f)
		v.safety(st, "call of a nil function", Not(Eq(f, Zero)), pos)
		if st.ctx.dead {
			return
		}
		v.callSym(st, f, cm.Signature(), args, pos, k)
		return
	}
	unsup("call of %T", fv)
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeName(p.Elem()) == name
}

// callSym calls a symbolic function value.
func (v *V) callSym(st *State, f *Term, sig *types.Signature, args []Value, pos token.Pos, k Cont) {
	ps := sig.Params()
	switch {
	case ps.Len() == 3 && sig.Results().Len() == 2 && typeName(ps.At(2).Type()) == "encOpts":
		p := v.pack(st, args[0], ps.At(0).Type())
		o := v.pack(st, args[2], ps.At(2).Type())
		v.outcome(st, args[1].(*Slice), mkO(f, p, o), mkE(f, p, o), pos, k)
		return
	case ps.Len() == 1 && sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()):
		p := v.pack(st, args[0], ps.At(0).Type())
		k(st, []Value{mkEM(f, p)})
		return
	case ps.Len() == 1 && sig.Results().Len() == 0 && isPtrTo(ps.At(0).Type(), "encOpts"):
		et := ps.At(0).Type().(*types.Pointer).Elem()
		cur := v.pack(st, v.load(st, args[0], et, pos), et)
		v.store(st, args[0], v.unpackOpts(st, mkOPT(f, cur), et), et, pos)
		k(st, nil)
		return
	}
	unsup("call of a function value of type %s", sig)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (v *V) unpackOpts(st *State, t *Term, et types.Type) Value { return v.unpack(st, t, et) }

// outcome continues after the call of a function that appends
// out to dst, or fails with err when it is not zero.
func (v *V) outcome(st *State, dst *Slice, out, err *Term, pos token.Pos, k Cont) {
	ok := st.ctx.Simp(Eq(err, Zero))
	var s2 *State
	if ok != True {
		s2 = st.clone()
	}
	if ok != False && st.ctx.Assume(ok) && !st.ctx.dead {
		if ok != True {
			st.trail = append(st.trail, v.p.pos(pos)+":ok")
		}
		r := v.appendTo(st, dst, st.ctx.Simp(out), pos)
		k(st, []Value{r, &Iface{rt: Zero, word: Zero}})
	}
	if s2 != nil && s2.ctx.Assume(Not(ok)) && !s2.ctx.dead {
		s2.trail = append(s2.trail, v.p.pos(pos)+":err")
		junk := Fresh("partial", Bytes)
		r := v.appendTo(s2, dst, junk, pos)
		// the bytes appended before an error are unknown
		k(s2, []Value{r, ifaceOf(s2.ctx.Simp(err))})
	}
}

func (v *V) inPkg(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg == v.p.ssa
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg() == v.p.pkg
	}
	// wrappers
	return strings.Contains(f.String(), "wI2L/jettison")
}

func (v *V) contractOf(fn *ssa.Function) *Contract {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return nil
	}
	c := v.spec.Contracts[v.p.fnName(fn)]
	if c == nil {
		return nil
	}
	if len(c.Params) != len(fn.Params) || len(c.Results) != fn.Signature.Results().Len() {
		return nil
	}
	return c
}

func (v *V) callFn(st *State, fn *ssa.Function, args, binds []Value, pos token.Pos, k Cont) {
	if !v.inPkg(fn) || fn.Blocks == nil {
		v.lib(st, fn, args, pos, k)
		return
	}
	if c := v.contractOf(fn); c != nil && !c.Inline {
		v.usedContracts[c.Fn] = true
		v.apply(st, c, fn, args, pos, k)
		return
	}
	v.inlined[v.p.fnName(fn)] = true
	v.runFn(st, fn, args, binds, k)
}

// ---- builtins

func (v *V) lenOf(st *State, x Value) *Term {
	switch y := x.(type) {
	case *Slice:
		return y.ln
	case *Term:
		if y.Sort.Kind == SSeq {
			return st.ctx.Simp(Len(y))
		}
		declRange("mlen", bzero, nil)
		return Ite(Eq(y, Zero), Zero, App("mlen", Int, y))
	case *MapRef:
		o := st.obj(y.obj)
		declRange("mlen2", bzero, nil)
		return App("mlen2", Int, o.pres)
	case *Ptr:
		if y.typ != nil {
			if a, ok := y.typ.Underlying().(*types.Array); ok {
				return IntC(a.Len())
			}
		}
	}
	unsup("len of %T", x)
	return nil
}

func (v *V) builtin(st *State, name string, cm *ssa.CallCommon, args []Value, pos token.Pos, k Cont) {
	switch name {
	case "len":
		k(st, []Value{v.lenOf(st, args[0])})
		return
	case "cap":
		if s, ok := args[0].(*Slice); ok {
			k(st, []Value{s.cp})
			return
		}
	case "append":
		s := args[0].(*Slice)
		var xs *Term
		switch a := args[1].(type) {
		case *Slice:
			xs = v.content(st, a)
			if _, ok := a.elem.Underlying().(*types.Basic); !ok {
				// elements may hold slices, that are now shared
			}
		case *Term:
			xs = st.ctx.Simp(a)
		default:
			unsup("append of %T", a)
		}
		if s.arr != 0 {
			v.checkRead(st, s, pos)
		}
		if st.ctx.dead {
			return
		}
		k(st, []Value{v.appendTo(st, s, xs, pos)})
		return
	case "copy":
		d := args[0].(*Slice)
		var xs *Term
		switch a := args[1].(type) {
		case *Slice:
			xs = v.content(st, a)
		case *Term:
			xs = st.ctx.Simp(a)
		}
		n := st.ctx.Simp(Ite(Lt(d.ln, Len(xs)), d.ln, Len(xs)))
		// decide which one is the smallest
		c := st.ctx.Simp(Lt(d.ln, Len(xs)))
		do := func(s *State, n *Term) {
			if d.arr != 0 {
				v.writeRange(s, d, Zero, s.ctx.Simp(Ext(xs, Zero, n)), pos)
			}
			if !s.ctx.dead {
				k(s, []Value{n})
			}
		}
		if c == True || c == False || d.arr == 0 {
			do(st, n)
			return
		}
		s2 := st.clone()
		if st.ctx.Assume(c) && !st.ctx.dead {
			do(st, d.ln)
		}
		if s2.ctx.Assume(Not(c)) && !s2.ctx.dead {
			do(s2, s2.ctx.Simp(Len(xs)))
		}
		return
	case "delete":
		unsup("delete")
	case "print", "println":
		k(st, nil)
		return
	case "recover":
		k(st, []Value{&Iface{rt: Zero, word: Zero}})
		return
	case "ssa:wrapnilchk":
		k(st, []Value{args[0]})
		return
	case "SliceData", "StringData", "Slice", "String", "Add":
		unsup("unsafe.%s", name)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			if name == "min" {
				r = Ite(Lt(a.(*Term), r), a.(*Term), r)
			} else {
				r = Ite(Gt(a.(*Term), r), a.(*Term), r)
			}
		}
		k(st, []Value{st.ctx.Simp(r)})
		return
	}
	unsup("builtin %s", name)
}

// writeRange overwrites the elements of d from index i.
func (v *V) writeRange(st *State, d *Slice, i, xs *Term, pos token.Pos) {
	if st.ctx.Simp(Eq(Len(xs), Zero)) == True {
		return
	}
	o := *st.obj(d.arr)
	at := st.ctx.Simp(Add(d.off, i))
	v.checkWrite(st, &o, at, pos)
	if st.ctx.dead {
		return
	}
	c := o.val.(*Term)
	e := Add(at, Len(xs))
	o.val = st.ctx.Simp(Cat(c.Sort, Ext(c, Zero, at), xs, Ext(c, e, Sub(Len(c), e))))
	if o.clobber != nil {
		if st.ctx.Simp(Le(at, o.clobber)) == True && st.ctx.Simp(Ge(e, Len(c))) == True {
			o.clobber = nil
		}
	}
	st.put(o)
}

// ---- contracts

// argEnv builds the names of a contract from actual arguments.
func (v *V) argEnv(st *State, c *Contract, ptypes []types.Type, args []Value) *Env {
	env := &Env{vars: map[string]*Term{}}
	for i, p := range c.Params {
		if p == "_" {
			continue
		}
		if r, ok := args[i].(*MapRef); ok && c.Maps[p] {
			env.vars[p] = st.obj(r.obj).mval
			continue
		}
		env.vars[p] = v.argTerm(st, args[i], ptypes[i])
	}
	return env
}

func (v *V) argTerm(st *State, a Value, t types.Type) *Term {
	if p, ok := a.(*Ptr); ok {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if _, isS := pt.Elem().Underlying().(*types.Struct); isS && transparent(pt.Elem()) {
				// the value it points to
				return v.pack(st, v.load(st, p, pt.Elem(), token.NoPos), pt.Elem())
			}
		}
	}
	return v.pack(st, a, t)
}

func paramTypes(fn *ssa.Function) []types.Type {
	var r []types.Type
	for _, p := range fn.Params {
		r = append(r, p.Type())
	}
	return r
}

func (v *V) apply(st *State, c *Contract, fn *ssa.Function, args []Value, pos token.Pos, k Cont) {
	pt := paramTypes(fn)
	env := v.argEnv(st, c, pt, args)
	env.extra = v.specials(st, c, nil, nil)
	for _, a := range args {
		if i, ok := a.(*Iface); ok && i.rt != Zero && i.val == nil {
			v.ifaceTyping(st, i, nil)
		}
	}
	for _, r := range c.Requires {
		t := v.spec.eval(r.Expr, env)
		v.oblige(st, "pre:"+c.Fn, t, v.p.pos(pos), r.Props, r.Text)
		if st.ctx.dead {
			return
		}
	}
	for _, r := range c.Memory {
		st.ctx.Assume(v.spec.eval(r.Expr, env))
	}
	var dst *Slice
	for i, p := range c.Params {
		if c.Appends[p] {
			dst = args[i].(*Slice)
		}
	}
	rs := fn.Signature.Results()
	if c.Out != nil {
		out := v.spec.coerce(v.spec.eval(c.Out.Expr, env), Bytes)
		if c.Err == nil {
			r := v.appendTo(st, dst, st.ctx.Simp(out), pos)
			res := []Value{r}
			if rs.Len() == 2 {
				res = append(res, &Iface{rt: Zero, word: Zero})
			}
			k(st, res)
			return
		}
		v.outcome(st, dst, out, st.ctx.Simp(v.spec.eval(c.Err.Expr, env)), pos, k)
		return
	}
	// frame
	post := map[string]*Term{}
	maps := map[int]bool{}
	for i, p := range c.Params {
		if !c.Maps[p] {
			continue
		}
		a, ok := args[i].(*MapRef)
		if !ok || maps[a.obj] {
			unsup("%s: %s is not a map of its own", c.Fn, p)
		}
		maps[a.obj] = true
	}
	for i, p := range c.Params {
		if !c.Modifies[p] {
			continue
		}
		switch a := args[i].(type) {
		case *Slice:
			if a.arr == 0 {
				post[p] = Empty(SeqOf(v.p.sortOf(a.elem)))
				continue
			}
			old := v.content(st, a)
			nt := v.nowDef(st, c, p, env)
			if nt == nil || nt.Sort != old.Sort {
				nt = Fresh(p+".now", old.Sort)
			}
			st.ctx.Assume(Eq(Len(nt), Len(old)))
			v.writeRange(st, a, Zero, nt, pos)
			post[p] = nt
		case *Ptr:
			et := pt[i].Underlying().(*types.Pointer).Elem()
			var nv Value
			if d := v.nowDef(st, c, p, env); d != nil && d.Sort == v.p.sortOf(et) {
				nv = v.unpack(st, d, et)
				post[p] = d
			} else {
				nv = v.freshVal(st, p+".now", et, nil)
				post[p] = v.pack(st, nv, et)
			}
			v.store(st, a, nv, et, pos)
		case *MapRef:
			o := *st.obj(a.obj)
			if o.published || !c.Maps[p] {
				unsup("modifies the shared map %s", p)
			}
			d := v.nowDef(st, c, p, env)
			if d == nil || d.Sort != o.mval.Sort {
				d = freshVals(p, o.mval.Sort)
			}
			o.pres, o.mval = Fresh(p+".has", o.pres.Sort), d
			post[p] = d
			st.put(o)
		default:
			unsup("modifies %s", p)
		}
	}
	for i, p := range c.Params {
		if a, ok := args[i].(*Slice); ok && has(c.Reuses, p) {
			// it belongs to the result
			for id := a.arr; id != 0; id = st.obj(id).parent {
				o := *st.obj(id)
				o.released = "the result of " + c.Fn
				st.put(o)
			}
		}
	}
	var res []Value
	renv := &Env{vars: map[string]*Term{}, up: env}
	renv.extra = v.specials(st, c, post, nil)
	for i, n := range c.Results {
		t := rs.At(i).Type()
		var def *Term
		for _, e := range c.Ensures {
			if d := defOf(e.Expr, n, c.Results[i:]); d != nil {
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(string); !ok {
								panic(x)
							}
							def = nil
						}
					}()
					def = v.spec.eval(d, renv)
				}()
				if def != nil {
					break
				}
			}
		}
		var val Value
		if def != nil {
			def = st.ctx.Simp(v.spec.coerce(def, v.p.sortOf(t)))
			if sl, ok := t.Underlying().(*types.Slice); ok && (c.FreshRes || i < len(c.Reuses)) {
				val = v.freshSlice(st, def, sl.Elem())
			} else {
				val = v.unpack(st, def, t)
			}
			renv.vars[n] = def
		} else {
			val = v.freshVal(st, n, t, nil)
			renv.vars[n] = v.pack(st, val, t)
		}
		res = append(res, val)
	}
	special := renv.extra
	renv.extra = func(name string, args []ast.Expr, env *Env) *Term {
		if name == "isnil" {
			if id, ok := args[0].(*ast.Ident); ok {
				for i, n := range c.Results {
					if n == id.Name {
						return v.isNil(st, res[i])
					}
				}
			}
		}
		return special(name, args, env)
	}
	for _, e := range c.Ensures {
		st.ctx.Assume(v.assumeExpr(e.Expr, renv))
	}
	if st.ctx.dead {
		return
	}
	k(st, res)
}

// nowDef finds the value of a modified parameter in a clause
// "now(p) == e" where e is over the values before the call.
func (v *V) nowDef(st *State, c *Contract, p string, env *Env) (d *Term) {
	for _, e := range c.Ensures {
		b, ok := e.Expr.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL {
			continue
		}
		l, ok := b.X.(*ast.CallExpr)
		if !ok || len(l.Args) != 1 {
			continue
		}
		f, ok := l.Fun.(*ast.Ident)
		if !ok || f.Name != "now" {
			continue
		}
		if a, ok := l.Args[0].(*ast.Ident); !ok || a.Name != p {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(string); !ok {
						panic(x)
					}
					d = nil
				}
			}()
			d = st.ctx.Simp(v.spec.eval(b.Y, env))
		}()
		if d != nil {
			return d
		}
	}
	return nil
}

func (v *V) freshSlice(st *State, content *Term, elem types.Type) *Slice {
	cp := Fresh("cap", Int)
	st.ctx.Assume(Ge(cp, Len(content)))
	o := v.newObj(st, Obj{name: "result", arr: true, typ: elem, val: content, pinned: Zero})
	return &Slice{arr: o.id, off: Zero, ln: Len(content), cp: cp, nilT: Fresh("nil", Bool), elem: elem}
}

// defOf finds the definition of the result n in an
// expression "n == e" or "fneq(n, e)", conjunctions included.
func defOf(e ast.Expr, n string, undefd []string) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return defOf(x.X, n, undefd)
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			if r := defOf(x.X, n, undefd); r != nil {
				return r
			}
			return defOf(x.Y, n, undefd)
		}
		if x.Op == token.EQL {
			if id, ok := x.X.(*ast.Ident); ok && id.Name == n {
				return x.Y
			}
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "fneq" || id.Name == "eqerr") && len(x.Args) == 2 {
			if a, ok := x.Args[0].(*ast.Ident); ok && a.Name == n {
				return x.Args[1]
			}
		}
	}
	return nil
}

// assumeExpr evaluates an ensures clause to assume it.
func (v *V) assumeExpr(e ast.Expr, env *Env) *Term { return v.spec.eval(e, env) }

// specials gives the meaning of the special forms of the
// clauses. st is the current state; post the values of the
// modified parameters; res the actual results, when the
// clause is to be proved.
func (v *V) specials(st *State, c *Contract, post map[string]*Term, res map[string]Value) func(string, []ast.Expr, *Env) *Term {
	return func(name string, args []ast.Expr, env *Env) *Term {
		switch name {
		case "now":
			if args == nil {
				return nil
			}
			t := post[args[0].(*ast.Ident).Name]
			if t == nil {
				panic("spec: now of an unmodified parameter")
			}
			return t
		case "fneq", "eqerr":
			if res == nil {
				return Eq(v.spec.eval(args[0], env), v.spec.eval(args[1], env))
			}
			id, ok := args[0].(*ast.Ident)
			if !ok || res[id.Name] == nil {
				return Eq(v.spec.eval(args[0], env), v.spec.eval(args[1], env))
			}
			x := v.spec.eval(args[1], env)
			if name == "eqerr" {
				return v.eqErr(st, res[id.Name], x)
			}
			return v.fnEq(st, res[id.Name], x)
		case "isnil":
			if id, ok := args[0].(*ast.Ident); ok && res != nil && res[id.Name] != nil {
				return v.isNil(st, res[id.Name])
			}
			return Eq(v.spec.eval(args[0], env), Zero)
		}
		return nil
	}
}

// eqErr states that the error e is the one described by x.
func (v *V) eqErr(st *State, e Value, x *Term) *Term {
	x = st.ctx.Simp(x)
	if x.Op == OIte {
		return And(Imp(x.Args[0], v.eqErr(st, e, x.Args[1])), Imp(Not(x.Args[0]), v.eqErr(st, e, x.Args[2])))
	}
	if x == Zero {
		return v.isNil(st, e)
	}
	i, isI := e.(*Iface)
	if x.Op == OApp {
		switch x.Name {
		case "anyerr":
			return Not(v.isNil(st, e))
		case "marsherr", "utype", "opterr", "uvalue":
			want := map[string]string{"marsherr": "*MarshalerError", "utype": "*UnsupportedTypeError", "opterr": "*InvalidOptionError", "uvalue": "*UnsupportedValueError"}[x.Name]
			if isI && i.val != nil {
				p, ok := i.val.(*Ptr)
				if !ok || typeName(i.typ) != want {
					return False
				}
				s, ok := st.obj(p.obj).val.(*Struct)
				if !ok {
					return False
				}
				u := s.typ.Underlying().(*types.Struct)
				field := func(n string) (Value, types.Type) {
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == n {
							return s.f[j], u.Field(j).Type()
						}
					}
					unsup("no field %s in %s", n, want)
					return nil, nil
				}
				switch x.Name {
				case "marsherr":
					tv, tt := field("Type")
					ev, _ := field("Err")
					return And(Eq(v.pack(st, tv, tt), x.Args[0]), v.eqErr(st, ev, x.Args[1]))
				case "utype":
					tv, tt := field("Type")
					return Eq(v.pack(st, tv, tt), x.Args[0])
				case "opterr":
					ev, _ := field("Err")
					return Not(v.isNil(st, ev))
				}
				return True
			}
		}
	}
	if isI {
		if i.rt == Zero {
			return Eq(x, Zero)
		}
		if i.val != nil {
			// a new error for one that is described otherwise
			u := v.unfoldAll(st, x)
			if u != x {
				return v.eqErr(st, e, u)
			}
			return False
		}
		if i.rt.Op == OApp && i.rt.Name == "i.rt" {
			return v.eqErrTerm(st, i.rt.Args[0], x)
		}
	}
	return Eq(v.pack(st, e, nil), x)
}

// eqErrTerm: a described error e against the description x,
// that may have to be unfolded to find the same leaf.
func (v *V) eqErrTerm(st *State, e, x *Term) *Term { return v.eqErrDepth(st, e, x, 2) }

func (v *V) eqErrDepth(st *State, e, x *Term, n int) *Term {
	e = st.ctx.Simp(e)
	if e == x {
		return True
	}
	if x.Op == OIte {
		return And(Imp(x.Args[0], v.eqErrDepth(st, e, x.Args[1], n)), Imp(Not(x.Args[0]), v.eqErrDepth(st, e, x.Args[2], n)))
	}
	if x.Op == OApp && x.Name == "anyerr" {
		return Not(Eq(e, Zero))
	}
	if n > 0 {
		if u := v.unfoldAll(st, x); u != x {
			return Or(Eq(e, x), v.eqErrDepth(st, e, u, n-1))
		}
	}
	return Eq(e, x)
}

// unfoldAll unfolds the recursive spec function x once.
func (v *V) unfoldAll(st *State, x *Term) *Term {
	if x.Op != OApp {
		return x
	}
	u := v.spec.Unfold(x)
	if u == nil {
		return x
	}
	return st.ctx.Simp(u)
}

// fnEq states that the function r behaves like x.
func (v *V) fnEq(st *State, r Value, x *Term) *Term {
	x = st.ctx.Simp(x)
	if f, ok := r.(*Term); ok {
		f = st.ctx.Simp(f)
		if f == x {
			return True
		}
		if f.Op == OApp && x.Op == OApp && !strings.HasPrefix(f.Name, "fn:") && v.spec.Fns[f.Name] == nil && v.spec.Unfold(x) != nil {
			// an unknown function
			if t := v.fnEqSym(st, f, x); t != nil {
				return t
			}
		}
	}
	if _, ok := r.(*Clo); ok && x.Op == OIte {
		// the closure runs in each case
		s1, s2 := st.clone(), st.clone()
		t1, t2 := True, True
		if s1.ctx.Assume(x.Args[0]) && !s1.ctx.dead {
			t1 = v.fnEq(s1, r, x.Args[1])
		}
		if s2.ctx.Assume(Not(x.Args[0])) && !s2.ctx.dead {
			t2 = v.fnEq(s2, r, x.Args[2])
		}
		return And(Imp(x.Args[0], t1), Imp(Not(x.Args[0]), t2))
	}
	if x.Op == OIte {
		return And(Imp(x.Args[0], v.fnEq(st, r, x.Args[1])), Imp(Not(x.Args[0]), v.fnEq(st, r, x.Args[2])))
	}
	if u := v.spec.Unfold(x); u != nil {
		return v.fnEq(st, r, u)
	}
	switch f := r.(type) {
	case *Term:
		f = st.ctx.Simp(f)
		if f == x {
			return True
		}
		if f.Op == OIte {
			return And(Imp(f.Args[0], v.fnEq(st, f.Args[1], x)), Imp(Not(f.Args[0]), v.fnEq(st, f.Args[2], x)))
		}
		if x == Zero || f == Zero {
			return Eq(f, x)
		}
		if t := v.fnEqSym(st, f, x); t != nil {
			return Or(Eq(f, x), t)
		}
		return Eq(f, x)
	case *Clo:
		if x == Zero {
			return False
		}
		return v.fnEqClo(st, f, x)
	}
	unsup("fneq of %T", r)
	return nil
}

// fnKind tells which kind of function is denoted by x.
func (v *V) fnKind(x *Term) string {
	n := strings.TrimPrefix(x.Name, "fn:")
	for _, k := range []string{"O", "EM", "OPT"} {
		if v.spec.Fns[k+"_"+n] != nil {
			return k
		}
	}
	return ""
}

// leafKind looks for the kind of the functions that x may be.
func (v *V) leafKind(x *Term, n int) string {
	if n == 0 || x.Op != OApp && x.Op != OIte {
		return ""
	}
	if x.Op == OIte {
		if k := v.leafKind(x.Args[1], n-1); k != "" {
			return k
		}
		return v.leafKind(x.Args[2], n-1)
	}
	if k := v.fnKind(x); k != "" {
		return k
	}
	if u := v.spec.Unfold(x); u != nil {
		return v.leafKind(u, n-1)
	}
	return ""
}

func (v *V) fnEqSym(st *State, f, x *Term) *Term {
	k := v.fnKind(x)
	if k == "" {
		k = v.fnKind(f)
	}
	if k == "" {
		k = v.leafKind(x, 6)
	}
	switch k {
	case "O":
		p, o := Fresh("p", Int), Fresh("o", v.p.sortOf(v.optsType()))
		return And(Eq(mkE(f, p, o), mkE(x, p, o)), Imp(Eq(mkE(x, p, o), Zero), Eq(mkO(f, p, o), mkO(x, p, o))))
	case "EM":
		p := Fresh("p", Int)
		return Eq(mkEM(f, p), mkEM(x, p))
	case "OPT":
		o := Fresh("o", v.p.sortOf(v.optsType()))
		return Eq(mkOPT(f, o), mkOPT(x, o))
	}
	return nil
}

func (v *V) optsType() types.Type { return v.p.pkg.Scope().Lookup("encOpts").Type() }

// fnEqClo runs the closure on arbitrary arguments.
func (v *V) fnEqClo(st *State, f *Clo, x *Term) *Term {
	sig := f.fn.Signature
	s := st.clone()
	s.defers = s.defers[:len(s.defers):len(s.defers)]
	s.loops = append(s.loops[:len(s.loops):len(s.loops)], &loopEntry{depth: len(s.env), loop: nil})
	// several goroutines may run it at the same time
	v.freeze(s, f, concurrent, nil)
	ps := sig.Params()
	label := "behaviour of the function returned"
	ps0 := v.p.pos(f.fn.Pos())
	props := v.curProps
	tag := func(l string, g *Term, s2 *State) {
		v.oblige(s2, l, g, ps0, props, x.String())
	}
	switch {
	case ps.Len() == 3 && sig.Results().Len() == 2:
		p := v.freshTerm(s, "p", Int, ps.At(0).Type())
		s.ctx.Assume(Ge(p, One))
		dst := v.dstParam(s, "dst")
		opts := v.freshVal(s, "o", ps.At(2).Type(), nil)
		v.assumeOpts(s, opts)
		o := v.pack(s, opts, ps.At(2).Type())
		d0 := v.content(s, dst)
		v.callClo(s, f, []Value{p, dst, opts}, func(s2 *State, res []Value) {
			v.returns++
			v.checkOutcome(s2, res[0], res[1], d0, mkO(x, p, o), mkE(x, p, o), tag, label, dst)
		})
	case ps.Len() == 1 && sig.Results().Len() == 1:
		p := v.freshTerm(s, "p", Int, ps.At(0).Type())
		s.ctx.Assume(Ge(p, One))
		v.callClo(s, f, []Value{p}, func(s2 *State, res []Value) {
			v.returns++
			tag(label, Eq(v.pack(s2, res[0], types.Typ[types.Bool]), mkEM(x, p)), s2)
		})
	case ps.Len() == 1 && sig.Results().Len() == 0:
		et := ps.At(0).Type().(*types.Pointer).Elem()
		ov := v.freshVal(s, "o", et, nil)
		o := v.newObj(s, Obj{name: "options", typ: et})
		o2 := *o
		o2.val = ov
		s.put(o2)
		o0 := v.pack(s, ov, et)
		v.callClo(s, f, []Value{&Ptr{obj: o.id, typ: et}}, func(s2 *State, res []Value) {
			v.returns++
			tag(label, Eq(v.pack(s2, s2.obj(o.id).val, et), mkOPT(x, o0)), s2)
		})
	default:
		unsup("fneq of a closure of type %s", sig)
	}
	return True
}

const concurrent = "it is captured by a function that several goroutines may run"

// freeze makes what can be reached from x not writable.
func (v *V) freeze(st *State, x Value, why string, seen map[int]bool) {
	if seen == nil {
		seen = map[int]bool{}
	}
	obj := func(id int) {
		if id == 0 || seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		o := *st.heap[id]
		if o.shared == "" {
			o.shared = why
			st.put(o)
		}
		v.freeze(st, o.val, why, seen)
		if o.parent != 0 {
			v.freeze(st, &Slice{arr: o.parent}, why, seen)
		}
		for _, k := range o.kids {
			v.freeze(st, &Slice{arr: k}, why, seen)
		}
	}
	switch y := x.(type) {
	case *Ptr:
		obj(y.obj)
	case *Slice:
		obj(y.arr)
	case *MapRef:
		obj(y.obj)
	case *Clo:
		for _, b := range y.binds {
			v.freeze(st, b, why, seen)
		}
	case *Struct:
		for _, f := range y.f {
			v.freeze(st, f, why, seen)
		}
	case *Iface:
		v.freeze(st, y.val, why, seen)
	case Tuple:
		for _, f := range y {
			v.freeze(st, f, why, seen)
		}
	}
}

func (v *V) callClo(s *State, f *Clo, args []Value, k Cont) {
	v.callFn(s, f.fn, args, f.binds, f.fn.Pos(), k)
}

// assumeOpts: what holds for all the options in use.
func (v *V) assumeOpts(st *State, o Value) {}

// dstParam is the destination buffer of the caller: its bytes
// are not to be written, but its spare capacity may be.
func (v *V) dstParam(st *State, name string) *Slice {
	c := Fresh(name, Bytes)
	cp := Fresh(name+".cap", Int)
	st.ctx.Assume(Ge(cp, Len(c)))
	st.ctx.Assume(Le(cp, IntB(maxLen)))
	o := v.newObj(st, Obj{name: name, arr: true, typ: types.Typ[types.Uint8], val: c, pinned: Len(c)})
	nl := Fresh(name+".nil", Bool)
	st.ctx.Assume(Imp(nl, Eq(cp, Zero)))
	return &Slice{arr: o.id, off: Zero, ln: Len(c), cp: cp, nilT: nl, elem: types.Typ[types.Uint8]}
}

// checkOutcome obliges the results of a function that appends.
func (v *V) checkOutcome(st *State, r, e Value, d0, out, err *Term, tag func(string, *Term, *State), label string, dst *Slice) {
	sl, ok := r.(*Slice)
	if !ok {
		unsup("result %T", r)
	}
	v.checkLineage(st, sl, dst, tag)
	okT := True
	if e != nil {
		okT = st.ctx.Simp(v.isNil(st, e))
	}
	c := v.content(st, sl)
	if e != nil {
		tag(label+": error", v.eqErr(st, e, err), st)
	}
	if st.ctx.dead {
		return
	}
	if okT != False {
		s2 := st.clone()
		if s2.ctx.Assume(okT) && !s2.ctx.dead {
			if e != nil {
				// no error: none was due
				s2.ctx.Assume(Eq(err, Zero))
			}
			tag(label+": bytes appended", Eq(c, Cat(Bytes, d0, s2.ctx.Simp(out))), s2)
		}
	}
	if okT != True {
		s2 := st.clone()
		if s2.ctx.Assume(Not(okT)) && !s2.ctx.dead {
			tag(label+": given bytes kept on error", And(Le(Len(d0), Len(c)), Eq(Ext(c, Zero, Len(d0)), d0)), s2)
		}
	}
}

// checkLineage: the slice returned is made of dst or of memory
// that nobody else holds.
func (v *V) checkLineage(st *State, r, dst *Slice, tag func(string, *Term, *State)) {
	for id := r.arr; id != 0; {
		o := st.obj(id)
		if o.released != "" {
			tag("own: the result does not share the memory of a pool", False, st)
			return
		}
		if o.shared != "" {
			tag("own: the result does not share the memory of another value", False, st)
			return
		}
		if dst != nil && id == dst.arr {
			return
		}
		id = o.parent
	}
}

func clauseProps(c *Clause, ct *Contract) []string {
	if c != nil && len(c.Props) > 0 {
		return c.Props
	}
	return ct.Props
}

var _ = fmt.Sprintf
