package main

// Loops: unrolling when their bounds are constant, otherwise
// an invariant is inferred among candidates (the templates of
// the contract, bound to the variables of the loop, and simple
// relations) and checked to be inductive.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopEntry struct {
	depth int
	loop  *Loop
	back  func(st *State, from *ssa.BasicBlock)
	probe bool
	count int
	vars  []loopVar // what the loop changes
}

// headerConst reports whether the exit condition of the loop
// is decided by constants only.
func (v *V) headerConst(st *State, fr *Frame, from, to *ssa.BasicBlock) (ok bool) {
	last, isIf := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !isIf {
		return false
	}
	c, isB := last.Cond.(*ssa.BinOp)
	if !isB || c.Block() != to {
		return false
	}
	for _, y := range []ssa.Value{c.X, c.Y} {
		// the length of a slice that changes is not a counter
		if l, ok := y.(*ssa.Call); ok && len(l.Call.Args) == 1 {
			if p, ok := l.Call.Args[0].(*ssa.Phi); ok && p.Block() == to {
				return false
			}
		}
	}
	s := st.clone()
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	v.quiet++
	defer func() { v.quiet-- }()
	v.phis(s, fr, to, from)
	for _, in := range to.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			if x == c {
				a, b := v.term(s, fr, x.X), v.term(s, fr, x.Y)
				return a.isInt() && b.isInt()
			}
			v.set(s, fr, x, v.binop(s, fr, x))
		case *ssa.UnOp:
			v.set(s, fr, x, v.eval(s, fr, x))
		case *ssa.Call:
			if b, isBuiltin := x.Call.Value.(*ssa.Builtin); isBuiltin && b.Name() == "len" {
				v.set(s, fr, x, v.lenOf(s, v.get(s, fr, x.Call.Args[0])))
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- variables and candidates

type loopVar struct {
	name  string
	sort  *Sort
	obj   int // the object it belongs to, or 0 for a phi
	read  func(st *State) *Term
	outer bool // of an enclosing loop
	rtype bool // a reflect.Type
}

func lvar(name string, so *Sort, obj int, read func(st *State) *Term) loopVar {
	return loopVar{name: name, sort: so, obj: obj, read: read}
}

type cand struct {
	label    string
	template bool
	term     func(st *State) *Term
}

// peek returns the term of a value without any obligation.
func (v *V) peek(st *State, x Value, t types.Type) (r *Term) {
	switch y := x.(type) {
	case *Term:
		return y
	case *Slice:
		so := SeqOf(v.p.sortOf(y.elem))
		if y.arr == 0 {
			return Empty(so)
		}
		o := st.heap[y.arr]
		if o == nil || o.released != "" {
			return nil
		}
		if o.clobber != nil && st.ctx.Simp(Le(Add(y.off, y.ln), o.clobber)) != True {
			return nil
		}
		return st.ctx.Simp(Ext(o.val.(*Term), y.off, y.ln))
	case *Iface:
		if y.rt == Zero {
			return Zero
		}
		if y.val == nil && y.word != nil {
			if isReflectType(t) {
				return y.word
			}
			return App("iface", Int, y.rt, y.word)
		}
	}
	return nil
}

func (v *V) valueVars(name string, t types.Type, obj int, get func(st *State) Value, sample Value) []loopVar {
	switch s := sample.(type) {
	case *Term:
		return []loopVar{lvar(name, s.Sort, obj, func(st *State) *Term {
			if x, ok := get(st).(*Term); ok {
				return st.ctx.Simp(x)
			}
			return nil
		})}
	case *Slice:
		return []loopVar{lvar(name, SeqOf(v.p.sortOf(s.elem)), obj, func(st *State) *Term { return v.peek(st, get(st), t) })}
	case *Iface:
		x := lvar(name, Int, obj, func(st *State) *Term { return v.peek(st, get(st), t) })
		x.rtype = isReflectType(t)
		return []loopVar{x}
	case *MapRef:
		u := t.Underlying().(*types.Map)
		ks, vs := v.p.sortOf(u.Key()), v.p.sortOf(u.Elem())
		if isReflectType(u.Key()) {
			ks = Int
		}
		return []loopVar{
			lvar(name, ArrOf(ks, vs), obj, func(st *State) *Term {
				if r, ok := get(st).(*MapRef); ok {
					return st.obj(r.obj).mval
				}
				return nil
			}),
			lvar(name+"_has", ArrOf(ks, Bool), obj, func(st *State) *Term {
				if r, ok := get(st).(*MapRef); ok {
					return st.obj(r.obj).pres
				}
				return nil
			}),
		}
	case *Struct:
		u := s.typ.Underlying().(*types.Struct)
		var r []loopVar
		if so := v.p.sortOf(s.typ); so.Kind == SDT {
			r = append(r, lvar(name, so, obj, func(st *State) (t *Term) {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsupported); !ok {
							panic(e)
						}
						t = nil
					}
				}()
				x, ok := get(st).(*Struct)
				if !ok {
					return nil
				}
				return st.ctx.Simp(v.pack(st, x, s.typ))
			}))
		}
		for i := range s.f {
			i := i
			r = append(r, v.valueVars(name+"."+u.Field(i).Name(), u.Field(i).Type(), obj, func(st *State) Value {
				if x, ok := get(st).(*Struct); ok {
					return x.f[i]
				}
				return nil
			}, s.f[i])...)
		}
		return r
	}
	return nil
}

func (v *V) autoCands(st *State, vars []loopVar) []cand {
	var r []cand
	for _, x := range vars {
		x := x
		e := x.read(st)
		if e == nil || x.outer || e.Sort.Kind == SDT {
			continue
		}
		add := func(what string, f func(t *Term) *Term) {
			r = append(r, cand{label: "auto:" + x.name + " " + what, term: func(s *State) *Term {
				t := x.read(s)
				if t == nil || t.Sort != e.Sort {
					return nil
				}
				return f(t)
			}})
		}
		add("unchanged", func(t *Term) *Term { return Eq(t, e) })
		switch {
		case x.rtype:
			add("not nil", func(t *Term) *Term { return Ge(t, One) })
		case e.Sort == Int:
			add("not smaller", func(t *Term) *Term { return Ge(t, e) })
			add("not larger", func(t *Term) *Term { return Le(t, e) })
		case e.Sort.Kind == SSeq:
			add("extended", func(t *Term) *Term {
				return And(Le(Len(e), Len(t)), Eq(Ext(t, Zero, Len(e)), e))
			})
			add("of the same length", func(t *Term) *Term { return Eq(Len(t), Len(e)) })
		}
	}
	return r
}

// templates returns the candidates from the contract of the
// function under verification.
func (v *V) templates(vars []loopVar, nameOf func(string) string) []cand {
	if v.contract == nil {
		return nil
	}
	var r []cand
	hasPos := false
	for _, x := range vars {
		hasPos = hasPos || x.name == "pos" && !x.outer
	}
	for ti := range v.contract.Invs {
		inv := &v.contract.Invs[ti]
		opts := make([][]int, len(inv.Params))
		ok := true
		for i, p := range inv.Params {
			var exact, outer, all []int
			wantOuter := strings.HasSuffix(p, "Outer")
			for j, x := range vars {
				if x.sort != inv.Sorts[i] && x.sort != nil {
					continue
				}
				if wantOuter && !x.outer || inv.Own && x.outer && !wantOuter {
					continue
				}
				all = append(all, j)
				if x.outer && x.name+"Outer" == p {
					outer = append(outer, j)
				}
				if x.name == p || strings.HasSuffix(x.name, "."+p) {
					if x.outer {
						outer = append(outer, j)
					} else {
						exact = append(exact, j)
					}
				}
			}
			if len(exact) == 0 {
				exact = outer
			}
			if len(exact) > 0 || p == "pos" || p == "rangeindex" && hasPos {
				// the position of an iterator has one name only
				opts[i] = exact
			} else {
				opts[i] = all
			}
			if len(opts[i]) == 0 {
				if v.debug && os.Getenv("JV_T") != "" {
					fmt.Printf("  inv %s: nothing for %s\n", inv.Pos, p)
				}
				ok = false
			}
		}
		if !ok {
			continue
		}
		n := 0
		used := map[int]bool{}
		bind := make([]int, len(inv.Params))
		var rec func(i int)
		rec = func(i int) {
			if n >= 48 {
				return
			}
			if i == len(bind) {
				own := false
				for _, j := range bind {
					own = own || !vars[j].outer
				}
				if !own && len(bind) > 0 {
					return
				}
				n++
				if v.debug && os.Getenv("JV_T") != "" {
					fmt.Printf("  inv %s: %v\n", inv.Pos, bind)
				}
				b := append([]int{}, bind...)
				var names []string
				for _, j := range b {
					n := vars[j].name
					if vars[j].outer {
						n += "^" + strconv.Itoa(j)
					}
					names = append(names, n)
				}
				r = append(r, cand{
					label:    fmt.Sprintf("inv %s(%s)", inv.Pos, strings.Join(names, ",")),
					template: true,
					term: func(s *State) (t *Term) {
						defer func() {
							if e := recover(); e != nil {
								if _, isU := e.(unsupported); isU {
									t = nil
									return
								}
								if _, isS := e.(string); isS {
									if v.debug {
										fmt.Println("template:", e)
									}
									t = nil
									return
								}
								panic(e)
							}
						}()
						env := &Env{vars: map[string]*Term{}, up: v.tenv}
						for i, j := range b {
							x := vars[j].read(s)
							if x == nil || x.Sort != inv.Sorts[i] {
								return nil
							}
							env.vars[inv.Params[i]] = x
						}
						return v.spec.eval(inv.Expr, env)
					},
				})
				return
			}
			for _, j := range opts[i] {
				if used[j] {
					continue
				}
				used[j] = true
				bind[i] = j
				rec(i + 1)
				used[j] = false
			}
		}
		rec(0)
	}
	return r
}

// ---- the generic loop

// objChange describes how an object changed.
func objChange(a, b *Obj) (content, owner bool) {
	if a == b {
		return
	}
	if !sameValue(a.val, b.val) || a.pres != b.pres || a.mval != b.mval || a.gpos != b.gpos || a.gm != b.gm {
		content = true
	}
	if a.pinned != b.pinned || a.clobber != b.clobber || a.released != b.released || a.published != b.published {
		owner = true
	}
	return
}

func sameValue(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.arr == y.arr && x.off == y.off && x.ln == y.ln && x.cp == y.cp && x.nilT == y.nilT
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		return ok && x.rt == y.rt && x.word == y.word && sameValue(x.val, y.val)
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *Clo:
		y, ok := b.(*Clo)
		if !ok || x.fn != y.fn || x.lib != y.lib || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameValue(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// gloop is a loop given by its variables.
type gloop struct {
	id    string
	depth int
	loop  *Loop
	pos   string
	phis  []*ssa.Phi
	fr    *Frame
	// arrive sets the variables at the end of an iteration
	arrive func(st *State, from *ssa.BasicBlock)
	// run executes from the header
	run func(st *State)
	// initial ghost variables
	ghosts []loopVar
	extra  func(st *State) // facts of the havocked state
}

func (v *V) enterLoop(st *State, fr *Frame, from, to *ssa.BasicBlock, l *Loop) {
	v.phis(st, fr, to, from)
	g := &gloop{
		id:    fmt.Sprintf("%s#%d", v.p.fnName(fr.fn), to.Index),
		depth: fr.depth,
		loop:  l,
		pos:   v.p.pos(blockPos(to)),
		fr:    fr,
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		g.phis = append(g.phis, p)
	}
	g.arrive = func(s *State, from *ssa.BasicBlock) { v.phis(s, fr, to, from) }
	g.run = func(s *State) { v.exec(s, fr, to, len(g.phis)) }
	v.genericLoop(st, g)
}

// outerVars returns the variables of the enclosing loops that are not
// those of the loop.
func (v *V) outerVars(st *State, g *gloop, own []loopVar) []loopVar {
	mine := map[int]bool{0: false}
	for _, x := range own {
		if x.obj != 0 {
			mine[x.obj] = true
		}
	}
	var r []loopVar
	for k := len(st.loops) - 1; k >= 0; k-- {
		e := st.loops[k]
		if e.loop == nil || e.loop == g.loop {
			continue
		}
		for _, x := range e.vars {
			if mine[x.obj] || x.obj != 0 && st.heap[x.obj] == nil {
				continue
			}
			x.outer = true
			r = append(r, x)
		}
	}
	return r
}

// boundCand: in a loop that goes on while i < n, i <= n.
func (v *V) boundCand(st *State, g *gloop) []cand {
	if len(g.phis) == 0 {
		return nil
	}
	b := g.phis[0].Block()
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := last.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != b {
		return nil
	}
	var phi *ssa.Phi
	plus := Zero
	switch x := c.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		p, isP := x.X.(*ssa.Phi)
		k, isK := x.Y.(*ssa.Const)
		if x.Op == token.ADD && isP && isK && k.Value != nil && k.Int64() == 1 {
			phi, plus = p, One
		}
	}
	if phi == nil || phi.Block() != b {
		return nil
	}
	if y, ok := c.Y.(ssa.Instruction); ok && y.Block() == b {
		return nil
	}
	read := func(s *State, x ssa.Value) (t *Term) {
		defer func() {
			if e := recover(); e != nil {
				t = nil
			}
		}()
		return v.term(s, g.fr, x)
	}
	n0 := read(st, c.Y)
	if n0 == nil || n0.Sort != Int {
		return nil
	}
	return []cand{{label: "auto: bound of " + phiName(phi), term: func(s *State) *Term {
		i := read(s, phi)
		if i == nil {
			return nil
		}
		return Le(Add(i, plus), n0)
	}}}
}

const (
	modeFresh = iota
	modeSame  // same backing array
	modeKeep  // unchanged
)

func (v *V) genericLoop(st *State, g *gloop) {
	if v.loopDepth > 6 {
		unsup("loops nested too deep")
	}
	v.loopDepth++
	v.nLoops++
	defer func() { v.loopDepth-- }()
	fr := g.fr
	entryVals := map[*ssa.Phi]Value{}
	modes := map[*ssa.Phi]int{}
	for _, p := range g.phis {
		entryVals[p] = st.env[fr.depth][p]
		modes[p] = modeKeep
	}
	mod := map[int]bool{}      // content changed
	ownmod := map[int]bool{}   // ownership changed
	clob := map[int]bool{}     // content overwritten
	relmod := map[int]string{} // released
	relKey := map[int]string{} // the variable that held them
	rebind := map[int]bool{}   // cells whose slices change of array

	// what is known of the arrays of the slices that change
	type slAttr struct {
		own    bool // nothing else uses its memory
		shared string
		stale  string
		clob   bool
		from   int
	}
	attrs := map[string]*slAttr{}
	ownArr := func(s *State, x *Slice, o *Obj) bool {
		return o.shared == "" && (!o.caller || o.from != 0) && o.pinned != nil && s.ctx.Simp(Le(o.pinned, x.off)) == True
	}

	havocSlice := func(h *State, key, name string, t types.Type, e *Slice, mode int) Value {
		if mode == modeSame {
			ln, cp := Fresh(name+".len", Int), Fresh(name+".cap", Int)
			off := e.off
			if e.arr == 0 {
				return e
			}
			h.ctx.Assume(Ge(ln, Zero))
			h.ctx.Assume(Le(ln, cp))
			h.ctx.Assume(Eq(Add(off, cp), Add(e.off, e.cp)))
			return &Slice{arr: e.arr, off: off, ln: ln, cp: cp, nilT: e.nilT, elem: e.elem}
		}
		like := e
		for id := e.arr; id != 0; id = st.obj(id).parent {
			if relmod[id] == "" {
				continue
			}
			// Its memory is given away by the iterations, which
			// leave another one. No other variable can use it.
			if k := relKey[id]; k != "" && k != key {
				unsup("%s: given to %s in a loop, and several variables hold it", name, relmod[id])
			}
			relKey[id] = key
			like = nil
		}
		var nv *Slice
		if like == nil {
			nv = v.freshVal(h, name, t, nil).(*Slice)
		} else {
			nv = v.freshVal(h, name, t, e).(*Slice)
		}
		a := attrs[key]
		if a == nil {
			a = &slAttr{own: true}
			if e.arr != 0 {
				eo := st.obj(e.arr)
				a.own = ownArr(st, e, eo)
				a.shared, a.stale, a.from = eo.shared, eo.stale, eo.from
			}
			attrs[key] = a
		}
		o := *h.obj(nv.arr)
		o.pinned = nv.ln
		if a.own {
			o.pinned = Zero
		}
		o.shared, o.stale = a.shared, a.stale
		o.from, o.caller = a.from, a.from != 0
		if a.clob {
			o.clobber = Zero
		}
		h.put(o)
		return nv
	}
	// checkAttrs compares the slices at the end of an iteration
	// with what was assumed of them.
	var checkAttrs func(s *State, key string, nv Value) bool
	checkAttrs = func(s *State, key string, nv Value) (ch bool) {
		switch x := nv.(type) {
		case *Struct:
			for i, f := range x.f {
				if checkAttrs(s, fmt.Sprintf("%s.%d", key, i), f) {
					ch = true
				}
			}
		case *Slice:
			a := attrs[key]
			if a == nil || x.arr == 0 {
				return
			}
			o := s.obj(x.arr)
			if o.released != "" {
				unsup("%s: given back in a loop", o.name)
			}
			if a.own && !ownArr(s, x, o) {
				a.own, ch = false, true
				if v.debug {
					fmt.Printf("   %s: not its own memory: %s shared %q caller %v pinned %v off %v\n", key, o.name, o.shared, o.caller, o.pinned, x.off)
				}
			}
			for id := x.arr; id != 0; id = s.obj(id).parent {
				f := s.obj(id).from
				if f == 0 || f == a.from {
					continue
				}
				if a.from != 0 {
					unsup("a variable is in turn the memory of several parameters")
				}
				a.from, ch = f, true
			}
			if a.shared == "" && o.shared != "" {
				a.shared, ch = o.shared, true
			}
			if a.stale == "" && o.stale != "" {
				a.stale, ch = o.stale, true
			}
			if !a.clob && o.clobber != nil && s.ctx.Simp(Le(Add(x.off, x.ln), o.clobber)) != True {
				a.clob, ch = true, true
			}
		}
		return
	}
	var havocVal func(h *State, key, name string, t types.Type, e Value, mode int) Value
	havocVal = func(h *State, key, name string, t types.Type, e Value, mode int) Value {
		switch x := e.(type) {
		case *Slice:
			return havocSlice(h, key, name, t, x, mode)
		case *Struct:
			u := x.typ.Underlying().(*types.Struct)
			r := &Struct{typ: x.typ}
			for i, f := range x.f {
				r.f = append(r.f, havocVal(h, fmt.Sprintf("%s.%d", key, i), name+"."+u.Field(i).Name(), u.Field(i).Type(), f, mode))
			}
			return r
		case *MapRef:
			u := t.Underlying().(*types.Map)
			return v.freshMap(h, name, u)
		case *Term:
			return v.freshTerm(h, name, x.Sort, t)
		case *Iface:
			if isReflectType(t) && (x.rt == Zero || x.rt == rtypeConst) {
				w := Fresh(name, Int)
				h.ctx.Assume(Ge(w, Zero))
				return v.rtypeVal(w)
			}
		}
		return v.freshVal(h, name, t, e)
	}
	havoc := func() *State {
		h := st.clone()
		for _, p := range g.phis {
			if modes[p] == modeKeep {
				continue
			}
			h.env[fr.depth][p] = havocVal(h, "v:"+p.Name(), phiName(p), p.Type(), entryVals[p], modes[p])
		}
		var ids []int
		for id := range mod {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			o := *h.obj(id)
			switch {
			case o.gm != nil: // iterator
				o.gpos = Fresh(o.name+".pos", Int)
				h.ctx.Assume(Ge(o.gpos, Zero))
				v.iterFields(h, &o)
			case o.pres != nil:
				o.pres, o.mval = Fresh(o.name+".has", o.pres.Sort), freshVals(o.name, o.mval.Sort)
			case o.arr:
				old := o.val.(*Term)
				nt := Fresh(o.name, old.Sort)
				h.ctx.Assume(Eq(Len(nt), Len(old)))
				o.val = nt
			default:
				m := modeFresh
				if !rebind[id] {
					m = modeSame
				}
				h.put(o)
				nv := havocVal(h, fmt.Sprintf("o:%d", id), o.name, o.typ, o.val, m)
				o = *h.obj(id)
				o.val = nv
			}
			h.put(o)
		}
		for id, why := range relmod {
			o := *h.obj(id)
			o.released = why
			h.put(o)
		}
		ids = ids[:0]
		for id := range ownmod {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			o := *h.obj(id)
			if o.arr {
				o.pinned = Len(o.val.(*Term))
				if clob[id] {
					o.clobber = Zero
				}
			}
			h.put(o)
		}
		return h
	}
	ownVars := func() []loopVar {
		var vars []loopVar
		for _, p := range g.phis {
			p := p
			if modes[p] == modeKeep {
				continue
			}
			n := phiName(p)
			vs := v.valueVars(n, p.Type(), 0, func(s *State) Value { return s.env[fr.depth][p] }, entryVals[p])
			if p.Comment == "rangeindex" {
				vs = append(vs, lvar("rangeindex", Int, 0, func(s *State) *Term {
					return s.ctx.Simp(Add(s.env[fr.depth][p].(*Term), One))
				}))
				vs[0].name = "rangeprev"
			}
			vars = append(vars, vs...)
		}
		var ids []int
		for id := range mod {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			id := id
			o := st.obj(id)
			switch {
			case o.gm != nil:
				vars = append(vars, lvar("pos", Int, id, func(s *State) *Term { return s.obj(id).gpos }))
			case o.pres != nil:
				vars = append(vars, lvar(o.name, o.mval.Sort, id, func(s *State) *Term { return s.obj(id).mval }))
				vars = append(vars, lvar(o.name+"_has", o.pres.Sort, id, func(s *State) *Term { return s.obj(id).pres }))
			case o.arr:
				vars = append(vars, lvar(o.name, o.val.(*Term).Sort, id, func(s *State) *Term { return s.obj(id).val.(*Term) }))
			default:
				vars = append(vars, v.valueVars(o.name, o.typ, id, func(s *State) Value { return s.obj(id).val }, o.val)...)
			}
		}
		return append(vars, g.ghosts...)
	}
	mkVars := func() []loopVar {
		vars := ownVars()
		return append(vars, v.outerVars(st, g, vars)...)
	}

	var cands []cand
	known := map[string]bool{}
	// quickAll tells which of the terms follow from the facts of
	// the state.
	quickAll := func(s *State, ts []*Term, tpl []bool) []bool {
		ok := make([]bool, len(ts))
		pend := make([][]pending, len(ts))
		saved := v.collect
		for i, t := range ts {
			if !tpl[i] && s.ctx.Simp(t) == False {
				continue
			}
			var ps []pending
			v.collect = &ps
			t0 := time.Now()
			r := v.prove(s.ctx, t, v.fuel, time.Second)
			if d := time.Since(t0).Seconds(); v.debug && d > 1 {
				fmt.Printf("   (%.1fs to write the queries of %s)\n", d, clip(s.ctx.Simp(t).String(), 200))
			}
			ok[i] = r.Status == "unsat"
			pend[i] = ps
		}
		v.collect = saved
		var wg sync.WaitGroup
		sem := make(chan bool, 3)
		for i := range ts {
			if !ok[i] || len(pend[i]) == 0 {
				continue
			}
			i := i
			lim := 800 * time.Millisecond * timeScale
			if tpl[i] {
				lim = 6 * time.Second * timeScale
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range pend[i] {
					sem <- true
					t0 := time.Now()
					r := solve(p.text, p.lean, p.seqs, p.fps, lim)
					<-sem
					if d := time.Since(t0).Seconds(); v.debug && d > 2 {
						fmt.Printf("   (%.1fs %s %s for %s)\n", d, r.Status, r.By, clip(s.ctx.Simp(ts[i]).String(), 200))
					}
					if r.Status != "unsat" {
						ok[i] = false
						break
					}
				}
			}()
		}
		wg.Wait()
		if v.debug {
			for i, t := range ts {
				if tpl[i] && !ok[i] {
					fmt.Printf("   not proved %s\n", s.ctx.Simp(t))
					if os.Getenv("JV_Q") != "" && len(pend[i]) > 0 {
						fmt.Println(pend[i][0].text)
					}
				}
			}
		}
		return ok
	}
	refresh := func() {
		vars := mkVars()
		cs := append(v.templates(vars, nil), v.autoCands(st, vars)...)
		cs = append(cs, v.boundCand(st, g)...)
		var todo []cand
		var ts []*Term
		var tpl []bool
		for _, c := range cs {
			if known[c.label] {
				continue
			}
			known[c.label] = true
			t := c.term(st)
			if t == nil {
				if v.debug && c.template {
					fmt.Printf("  %s: not applicable\n", c.label)
				}
				continue
			}
			t = st.ctx.Simp(t)
			if t == False {
				if v.debug && c.template {
					fmt.Printf("  %s: not initially true: %s\n", c.label, t)
				}
				continue
			}
			todo, ts, tpl = append(todo, c), append(ts, t), append(tpl, c.template)
		}
		t0 := time.Now()
		defer func() {
			if v.debug {
				fmt.Printf("   (%.1fs for the start of the loop)\n", time.Since(t0).Seconds())
			}
		}()
		for i, ok := range quickAll(st, ts, tpl) {
			if ok {
				cands = append(cands, todo[i])
			} else if v.debug && tpl[i] {
				fmt.Printf("  %s: not initially true\n", todo[i].label)
			}
		}
	}
	assume := func(h *State) {
		if g.extra != nil {
			g.extra(h)
		}
		for _, c := range cands {
			if t := c.term(h); t != nil {
				h.ctx.Assume(t)
			} else {
				unsup("candidate %s lost", c.label)
			}
		}
	}
	push := func(h *State, e *loopEntry) {
		h.loops = append(h.loops[:len(h.loops):len(h.loops)], e)
	}
	// classify compares the state at the end of an iteration.
	// It reports whether the set of variables grew.
	classify := func(s *State, base map[int]*Obj) bool {
		ch := false
		// two variables may not hold the same memory
		holder := map[int]*ssa.Phi{}
		for _, p := range g.phis {
			x, ok := s.env[fr.depth][p].(*Slice)
			a := attrs["v:"+p.Name()]
			if !ok || x.arr == 0 || modes[p] != modeFresh || a == nil {
				continue
			}
			r := root(s, x.arr)
			why := ""
			if q := holder[r]; q != nil {
				why = "it is also the memory of " + phiName(q)
				if b := attrs["v:"+q.Name()]; b != nil && b.shared == "" {
					b.shared, ch = "it is also the memory of "+phiName(p), true
				}
			}
			holder[r] = p
			if e, ok := entryVals[p].(*Slice); st.heap[r] != nil && (!ok || e.arr == 0 || root(st, e.arr) != r) {
				why = "it is the memory of a variable outside of the loop"
				for _, q := range g.phis {
					if e, ok := entryVals[q].(*Slice); ok && modes[q] == modeFresh && e.arr != 0 && root(st, e.arr) == r {
						// the variables take turns
						why = ""
						if relmod[r] == "" {
							relmod[r], ch = "another variable", true
						}
					}
				}
			}
			if why != "" && a.shared == "" {
				a.shared, ch = why, true
			}
		}
		seenMap := map[int]bool{}
		for _, p := range g.phis {
			nv := s.env[fr.depth][p]
			if r, ok := nv.(*MapRef); ok {
				if seenMap[r.obj] {
					unsup("two variables for the same map in a loop")
				}
				seenMap[r.obj] = true
			}
			switch modes[p] {
			case modeKeep:
				if !sameValue(nv, entryVals[p]) {
					m := modeFresh
					if a, ok := nv.(*Slice); ok {
						if b, ok := entryVals[p].(*Slice); ok && a.arr == b.arr && a.arr != 0 {
							m = modeSame
						}
					}
					modes[p] = m
					ch = true
				}
			case modeSame:
				if a, ok := nv.(*Slice); ok {
					b := entryVals[p].(*Slice)
					if a.arr != b.arr || s.ctx.Simp(Eq(a.off, b.off)) != True {
						modes[p] = modeFresh
						ch = true
					}
				}
			case modeFresh:
				if checkAttrs(s, "v:"+p.Name(), nv) {
					ch = true
				}
			}
		}
		for id, o := range base {
			n := s.heap[id]
			if n == nil || n == o || st.heap[id] == nil {
				// the memory of a variable of the loop has any content
				continue
			}
			c, own := objChange(o, n)
			if c && !mod[id] {
				mod[id] = true
				ch = true
			}
			if c && !o.arr && o.pres == nil && o.gm == nil && !rebind[id] && !sameArrays(o.val, n.val) {
				rebind[id] = true
				ch = true
			}
			if !o.arr && o.pres == nil && o.gm == nil && mod[id] && rebind[id] && checkAttrs(s, fmt.Sprintf("o:%d", id), n.val) {
				ch = true
			}
			if n.released != "" && o.released == "" {
				// from now on nothing can use it
				if relmod[id] == "" {
					relmod[id] = n.released
					ch = true
				}
			}
			if own && !ownmod[id] && o.arr {
				if n.clobber != o.clobber {
					// the content of the array is unknown from now on
					clob[id] = true
				}
				ownmod[id] = true
				ch = true
			}
		}
		return ch
	}

	refresh()
	for round := 0; ; round++ {
		if round > 60 {
			unsup("no inductive invariant found for the loop at %s", g.pos)
		}
		h := havoc()
		base := make(map[int]*Obj, len(h.heap))
		for id, o := range h.heap {
			base[id] = o
		}
		assume(h)
		if h.ctx.dead {
			// the candidates hold initially: the loop is not reached
			if v.debug {
				fmt.Printf("loop %s not reached:\n", g.pos)
				for _, c := range cands {
					fmt.Println("  ", c.label, c.term(h))
				}
				for _, f := range st.ctx.facts {
					fmt.Println("  fact", f)
				}
			}
			for _, c := range cands {
				if t := c.term(st); t != nil {
					v.oblige(st, "loop not reached", t, g.pos, nil, c.label)
				}
			}
			return
		}
		grown := false
		fails := map[string]bool{}
		autoFail := false
		loops0 := v.nLoops
		push(h, &loopEntry{depth: g.depth, loop: g.loop, vars: ownVars(), probe: true, back: func(s *State, from *ssa.BasicBlock) {
			if s.ctx.dead {
				return
			}
			g.arrive(s, from)
			if classify(s, base) {
				grown = true
			}
			if grown {
				return
			}
			var todo []cand
			var ts []*Term
			var tpl []bool
			for _, c := range cands {
				if fails[c.label] {
					continue
				}
				if c.template && autoFail {
					continue
				}
				t := c.term(s)
				if t == nil {
					fails[c.label] = true
					autoFail = autoFail || !c.template
					continue
				}
				todo, ts, tpl = append(todo, c), append(ts, t), append(tpl, c.template)
			}
			t0 := time.Now()
			if v.debug {
				defer func() { fmt.Printf("   (%.1fs for an iteration)\n", time.Since(t0).Seconds()) }()
			}
			for i, ok := range quickAll(s, ts, tpl) {
				if !ok {
					fails[todo[i].label] = true
					autoFail = autoFail || !tpl[i]
					if v.debug && tpl[i] {
						fmt.Printf("  %s: not preserved\n", todo[i].label)
					}
				}
			}
		}})
		v.quiet++
		g.run(h)
		v.quiet--
		if grown {
			refresh()
			continue
		}
		if len(fails) == 0 {
			break
		}
		if autoFail && v.nLoops > loops0 {
			// what the inner loops look like changes with the
			// candidates that were wrong: the others are judged later
			for _, c := range cands {
				if c.template {
					delete(fails, c.label)
				}
			}
		}
		var nc []cand
		for _, c := range cands {
			if !fails[c.label] {
				nc = append(nc, c)
			}
		}
		cands = nc
	}
	if v.debug {
		fmt.Printf("loop %s at %s: invariant\n", g.id, g.pos)
		for _, c := range cands {
			fmt.Printf("   %s\n", c.label)
		}
	}
	// the recorded round
	for _, c := range cands {
		v.oblige(st, "loop invariant holds initially", c.term(st), g.pos, nil, c.label)
	}
	h := havoc()
	base := make(map[int]*Obj, len(h.heap))
	for id, o := range h.heap {
		base[id] = o
	}
	assume(h)
	// recheck the variables of the final round too
	push(h, &loopEntry{depth: g.depth, loop: g.loop, vars: ownVars(), back: func(s *State, from *ssa.BasicBlock) {
		if s.ctx.dead {
			return
		}
		g.arrive(s, from)
		if classify(s, base) {
			unsup("the loop at %s changes more than expected", g.pos)
		}
		if v.quiet == 0 {
			for _, c := range cands {
				t := c.term(s)
				if t == nil {
					unsup("invariant lost")
				}
				v.oblige(s, "loop invariant is preserved", t, g.pos, nil, c.label)
			}
		}
	}})
	v.loopDepth--
	g.run(h)
	v.loopDepth++
}

func sameArrays(a, b Value) bool {
	switch x := a.(type) {
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.arr == y.arr && x.off == y.off
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameArrays(x.f[i], y.f[i]) {
				return false
			}
		}
	}
	return true
}

// root is the array that the array id may be, in the end.
func root(st *State, id int) int {
	for st.obj(id).parent != 0 {
		id = st.obj(id).parent
	}
	return id
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}
