package main

// Contracts decided by enumeration: a function of one integer
// with a finite domain is interpreted, instruction by instruction
// of its SSA form, on every value of the domain, and the clauses
// of the contract are evaluated on the result.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"runtime"
	"strconv"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- evaluation of the specification on integers

type cenv []int64

type cfn func(env cenv) int64

// ctable is the values of a recursive function of one integer.
type ctable struct {
	lo   int64
	vals []int64
}

type compiler struct {
	s    *Spec
	tabs map[string]*ctable
	fns  map[string]*compiled
}

type compiled struct {
	n    int
	body cfn
}

type enumFail struct{ msg string }

func efail(f string, a ...interface{}) { panic(enumFail{fmt.Sprintf(f, a...)}) }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (c *compiler) fn(name string) *compiled {
	if f := c.fns[name]; f != nil {
		return f
	}
	sf := c.s.Fns[name]
	if sf == nil || sf.Body == nil {
		efail("%s has no definition", name)
	}
	f := &compiled{n: len(sf.Params)}
	c.fns[name] = f
	vars := map[string]int{}
	for i, p := range sf.Params {
		vars[p] = i
	}
	f.body = c.block(sf.Body.List, vars)
	return f
}

func (c *compiler) block(l []ast.Stmt, vars map[string]int) cfn {
	if len(l) == 0 {
		efail("missing return")
	}
	switch st := l[0].(type) {
	case *ast.ReturnStmt:
		return c.expr(st.Results[0], vars)
	case *ast.IfStmt:
		cond := c.expr(st.Cond, vars)
		a := c.block(append(append([]ast.Stmt{}, st.Body.List...), l[1:]...), vars)
		rest := l[1:]
		if e, ok := st.Else.(*ast.BlockStmt); ok {
			rest = append(append([]ast.Stmt{}, e.List...), l[1:]...)
		}
		b := c.block(rest, vars)
		return func(env cenv) int64 {
			if cond(env) != 0 {
				return a(env)
			}
			return b(env)
		}
	}
	efail("statement %T in an enumerated contract", l[0])
	return nil
}

func (c *compiler) expr(e ast.Expr, vars map[string]int) cfn {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.expr(x.X, vars)
	case *ast.BasicLit:
		n, err := strconv.ParseInt(x.Value, 0, 64)
		if err != nil {
			efail("literal %s", x.Value)
		}
		return func(cenv) int64 { return n }
	case *ast.Ident:
		switch x.Name {
		case "true":
			return func(cenv) int64 { return 1 }
		case "false":
			return func(cenv) int64 { return 0 }
		}
		i, ok := vars[x.Name]
		if !ok {
			efail("unknown name %s", x.Name)
		}
		return func(env cenv) int64 { return env[i] }
	case *ast.UnaryExpr:
		a := c.expr(x.X, vars)
		switch x.Op {
		case token.NOT:
			return func(env cenv) int64 { return 1 - a(env) }
		case token.SUB:
			return func(env cenv) int64 { return -a(env) }
		}
	case *ast.BinaryExpr:
		a, b := c.expr(x.X, vars), c.expr(x.Y, vars)
		switch x.Op {
		case token.LAND:
			return func(env cenv) int64 {
				if a(env) == 0 {
					return 0
				}
				return b(env)
			}
		case token.LOR:
			return func(env cenv) int64 {
				if a(env) != 0 {
					return 1
				}
				return b(env)
			}
		case token.ADD:
			return func(env cenv) int64 { return a(env) + b(env) }
		case token.SUB:
			return func(env cenv) int64 { return a(env) - b(env) }
		case token.MUL:
			return func(env cenv) int64 { return a(env) * b(env) }
		case token.QUO:
			return func(env cenv) int64 { return floorDiv(a(env), b(env)) }
		case token.REM:
			return func(env cenv) int64 { x, y := a(env), b(env); return x - floorDiv(x, y)*y }
		case token.EQL:
			return func(env cenv) int64 { return b2i(a(env) == b(env)) }
		case token.NEQ:
			return func(env cenv) int64 { return b2i(a(env) != b(env)) }
		case token.LSS:
			return func(env cenv) int64 { return b2i(a(env) < b(env)) }
		case token.LEQ:
			return func(env cenv) int64 { return b2i(a(env) <= b(env)) }
		case token.GTR:
			return func(env cenv) int64 { return b2i(a(env) > b(env)) }
		case token.GEQ:
			return func(env cenv) int64 { return b2i(a(env) >= b(env)) }
		}
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			break
		}
		var as []cfn
		for _, a := range x.Args {
			as = append(as, c.expr(a, vars))
		}
		if id.Name == "ite" {
			return func(env cenv) int64 {
				if as[0](env) != 0 {
					return as[1](env)
				}
				return as[2](env)
			}
		}
		f := c.fn(id.Name)
		name := id.Name
		return func(env cenv) int64 {
			if len(as) == 1 {
				v := as[0](env)
				if t := c.tabs[name]; t != nil && v >= t.lo && v-t.lo < int64(len(t.vals)) {
					return t.vals[v-t.lo]
				}
				return f.body(cenv{v})
			}
			e := make(cenv, len(as))
			for i, a := range as {
				e[i] = a(env)
			}
			return f.body(e)
		}
	}
	efail("expression %T in an enumerated contract", e)
	return nil
}

// ---- interpretation of the SSA form

type cval interface{} // int64 (bool: 0 or 1), *big.Int for uint64, *carr, *cref, []cval

type carr struct{ v []int64 }

type cref struct {
	a *carr
	i int64
}

type interp struct {
	v       *V
	st      *State
	globals map[*ssa.Global]*carr
	mu      sync.Mutex
	consts  map[*ssa.Const]int64
	steps   int
}

func wrapTo(n *big.Int, t types.Type, v *V) *big.Int {
	b := t.Underlying().(*types.Basic)
	size := uint(v.p.sizes.Sizeof(b) * 8)
	m := new(big.Int).Lsh(bone, size)
	r := new(big.Int).Mod(n, m)
	if b.Info()&types.IsUnsigned == 0 && r.Bit(int(size-1)) == 1 {
		r.Sub(r, m)
	}
	return r
}

// wrap64 wraps a value that fits 64 bits of intermediate result.
func (in *interp) wrap(n int64, t types.Type) int64 {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32, types.UntypedRune:
		return int64(int32(n))
	case types.Int, types.Int64, types.Bool, types.UntypedBool, types.UntypedInt:
		return n
	case types.Uint, types.Uint64, types.Uintptr:
		if n < 0 {
			efail("64-bit unsigned value out of the reach of the interpreter")
		}
		return n
	}
	efail("type %s in an enumerated function", t)
	return 0
}

func isUnsigned64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr)
}

func (in *interp) global(g *ssa.Global) *carr {
	in.mu.Lock()
	defer in.mu.Unlock()
	if a := in.globals[g]; a != nil {
		return a
	}
	at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	n := int64(1)
	if ok {
		n = at.Len()
	}
	id, found := in.v.globals[g]
	if !found {
		efail("the value of %s is not known", g.Name())
	}
	t, isT := in.st.heap[id].val.(*Term)
	if !isT {
		efail("the value of %s is not known", g.Name())
	}
	a := &carr{}
	for i := int64(0); i < n; i++ {
		e := t
		if ok {
			e = in.st.ctx.Simp(Nth(t, IntC(i)))
		}
		if !e.isInt() || !e.N.IsInt64() {
			efail("the value of %s is not known", g.Name())
		}
		a.v = append(a.v, e.N.Int64())
	}
	in.globals[g] = a
	return a
}

// code is a function compiled for the interpreter.
type code struct {
	fn    *ssa.Function
	slots map[ssa.Value]int
}

func (in *interp) compile(fn *ssa.Function) *code {
	c := &code{fn: fn, slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.slots[p] = len(c.slots)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(ssa.Value); ok {
				c.slots[x] = len(c.slots)
			}
		}
	}
	return c
}

type runner struct {
	in    *interp
	codes map[*ssa.Function]*code
	depth int
}

func (r *runner) call(fn *ssa.Function, args []cval) []cval {
	if len(fn.Blocks) == 0 || r.depth > 20 {
		efail("call of %s", fn)
	}
	r.depth++
	defer func() { r.depth-- }()
	c := r.codes[fn]
	if c == nil {
		c = r.in.compile(fn)
		r.codes[fn] = c
	}
	regs := make([]cval, len(c.slots))
	copy(regs, args)
	get := func(v ssa.Value) cval {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil {
				efail("constant %s", k)
			}
			if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				return b2i(k.Value.String() == "true")
			}
			return k.Int64()
		}
		if g, ok := v.(*ssa.Global); ok {
			return r.in.global(g)
		}
		i, ok := c.slots[v]
		if !ok {
			efail("value %s", v)
		}
		return regs[i]
	}
	num := func(v ssa.Value) int64 {
		n, ok := get(v).(int64)
		if !ok {
			efail("value %s", v)
		}
		return n
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for n := 0; ; n++ {
		if n > 100000 {
			efail("%s does not terminate", fn.Name())
		}
		var next *ssa.BasicBlock
		// phis, at once
		np := 0
		var pv []cval
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for j, q := range b.Preds {
				if q == prev {
					pv = append(pv, get(p.Edges[j]))
				}
			}
			np++
		}
		for j := 0; j < np; j++ {
			regs[c.slots[b.Instrs[j].(*ssa.Phi)]] = pv[j]
		}
		for _, i := range b.Instrs[np:] {
			switch x := i.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				regs[c.slots[x]] = r.in.binop(x, num(x.X), num(x.Y))
			case *ssa.Convert:
				regs[c.slots[x]] = r.in.wrap(num(x.X), x.Type())
			case *ssa.ChangeType:
				regs[c.slots[x]] = get(x.X)
			case *ssa.UnOp:
				switch x.Op {
				case token.NOT:
					regs[c.slots[x]] = 1 - num(x.X)
				case token.SUB:
					regs[c.slots[x]] = r.in.wrap(-num(x.X), x.Type())
				case token.XOR:
					regs[c.slots[x]] = r.in.wrap(^num(x.X), x.Type())
				case token.MUL:
					switch a := get(x.X).(type) {
					case *cref:
						regs[c.slots[x]] = a.a.v[a.i]
					case *carr:
						if _, ok := x.Type().Underlying().(*types.Array); ok {
							regs[c.slots[x]] = &carr{append([]int64{}, a.v...)}
						} else {
							regs[c.slots[x]] = a.v[0]
						}
					default:
						efail("load %s", x)
					}
				default:
					efail("operation %s", x)
				}
			case *ssa.Alloc:
				t := x.Type().(*types.Pointer).Elem().Underlying()
				switch u := t.(type) {
				case *types.Basic:
					regs[c.slots[x]] = &carr{make([]int64, 1)}
				case *types.Array:
					regs[c.slots[x]] = &carr{make([]int64, u.Len())}
				default:
					efail("variable of type %s", t)
				}
			case *ssa.Store:
				v := get(x.Val)
				switch a := get(x.Addr).(type) {
				case *cref:
					a.a.v[a.i] = v.(int64)
				case *carr:
					if w, ok := v.(*carr); ok {
						copy(a.v, w.v)
					} else {
						a.v[0] = v.(int64)
					}
				default:
					efail("store %s", x)
				}
			case *ssa.IndexAddr:
				a, ok := get(x.X).(*carr)
				k := num(x.Index)
				if !ok || k < 0 || k >= int64(len(a.v)) {
					efail("index %d out of range at %s", k, r.in.v.p.pos(x.Pos()))
				}
				regs[c.slots[x]] = &cref{a, k}
			case *ssa.Index:
				a, ok := get(x.X).(*carr)
				k := num(x.Index)
				if !ok || k < 0 || k >= int64(len(a.v)) {
					efail("index %d out of range at %s", k, r.in.v.p.pos(x.Pos()))
				}
				regs[c.slots[x]] = a.v[k]
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil {
					efail("call %s", x)
				}
				var as []cval
				for _, a := range x.Call.Args {
					as = append(as, get(a))
				}
				res := r.call(f, as)
				if len(res) == 1 {
					regs[c.slots[x]] = res[0]
				} else {
					regs[c.slots[x]] = res
				}
			case *ssa.Extract:
				regs[c.slots[x]] = get(x.Tuple).([]cval)[x.Index]
			case *ssa.If:
				if num(x.Cond) != 0 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var res []cval
				for _, y := range x.Results {
					res = append(res, get(y))
				}
				return res
			case *ssa.Panic:
				efail("panic")
			default:
				efail("instruction %T in an enumerated function", i)
			}
		}
		prev, b = b, next
	}
}

func (in *interp) binop(x *ssa.BinOp, a, b int64) int64 {
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return b2i(a == b)
	case token.NEQ:
		return b2i(a != b)
	case token.LSS:
		return b2i(a < b)
	case token.LEQ:
		return b2i(a <= b)
	case token.GTR:
		return b2i(a > b)
	case token.GEQ:
		return b2i(a >= b)
	}
	if isUnsigned64(t) || in.v.p.sizes.Sizeof(t) == 8 {
		// no overflow of the interpreter
		if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.SHL {
			p, q := big.NewInt(a), big.NewInt(b)
			var z *big.Int
			switch x.Op {
			case token.ADD:
				z = p.Add(p, q)
			case token.SUB:
				z = p.Sub(p, q)
			case token.MUL:
				z = p.Mul(p, q)
			default:
				z = p.Lsh(p, uint(b))
			}
			z = wrapTo(z, t, in.v)
			if !z.IsInt64() {
				efail("64-bit unsigned value out of the reach of the interpreter")
			}
			return z.Int64()
		}
	}
	switch x.Op {
	case token.ADD:
		return in.wrap(a+b, t)
	case token.SUB:
		return in.wrap(a-b, t)
	case token.MUL:
		return in.wrap(a*b, t)
	case token.QUO:
		if b == 0 {
			efail("division by zero")
		}
		return in.wrap(a/b, t)
	case token.REM:
		if b == 0 {
			efail("division by zero")
		}
		return in.wrap(a%b, t)
	case token.AND:
		return in.wrap(a&b, t)
	case token.OR:
		return in.wrap(a|b, t)
	case token.XOR:
		return in.wrap(a^b, t)
	case token.AND_NOT:
		return in.wrap(a&^b, t)
	case token.SHL:
		if b < 0 {
			efail("negative shift")
		}
		if b >= 32 {
			return 0
		}
		return in.wrap(a<<uint(b), t)
	case token.SHR:
		if b < 0 {
			efail("negative shift")
		}
		if b > 63 {
			b = 63
		}
		return in.wrap(a>>uint(b), t)
	}
	efail("operation %s", x)
	return 0
}

// enumerate decides the clauses of a contract on all its domain.
func (e *engine) enumerate(name string) (obs []OResult, ret int, err error) {
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case enumFail:
				err = fmt.Errorf("%s", y.msg)
			case unsupported:
				err = fmt.Errorf("%s", y.msg)
			default:
				err = fmt.Errorf("%v", x)
			}
		}
	}()
	c := e.spec.Contracts[name]
	fn := e.p.fns[name]
	if fn == nil {
		return nil, 0, fmt.Errorf("the function %s no longer exists", name)
	}
	v := newV(e, name)
	if v.contractOf(fn) == nil || len(fn.Params) != 1 {
		return nil, 0, fmt.Errorf("the signature of %s is not the one of its contract", name)
	}
	st := v.initState()
	for _, m := range e.p.ssa.Members {
		if g, ok := m.(*ssa.Global); ok && e.p.inits[g] {
			func() {
				defer func() { recover() }()
				v.globalPtr(st, g)
			}()
		}
	}
	lo, _ := strconv.ParseInt(c.Enum[1], 0, 64)
	hi, _ := strconv.ParseInt(c.Enum[2], 0, 64)
	cp := &compiler{s: e.spec, tabs: map[string]*ctable{}, fns: map[string]*compiled{}}
	vars := map[string]int{c.Params[0]: 0}
	for i, r := range c.Results {
		vars[r] = i + 1
	}
	var clauses []cfn
	for i := range c.Ensures {
		clauses = append(clauses, cp.expr(c.Ensures[i].Expr, vars))
	}
	// the recursive functions of one integer are tabulated
	var rec []string
	for n, f := range cp.fns {
		if f.n == 1 && e.spec.Fns[n].Rec {
			cp.tabs[n] = &ctable{lo: lo}
			rec = append(rec, n)
		}
	}
	for r := lo; r <= hi; r++ {
		vs := make([]int64, len(rec))
		for i, n := range rec {
			vs[i] = cp.fns[n].body(cenv{r})
		}
		for i, n := range rec {
			cp.tabs[n].vals = append(cp.tabs[n].vals, vs[i])
		}
	}
	in := &interp{v: v, st: st, globals: map[*ssa.Global]*carr{}}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	type failure struct {
		clause int
		arg    int64
		msg    string
		res    []int64
	}
	var mu sync.Mutex
	var fails []failure
	var wg sync.WaitGroup
	span := (hi - lo + int64(workers)) / int64(workers)
	for w := 0; w < workers; w++ {
		a, b := lo+int64(w)*span, lo+int64(w+1)*span-1
		if b > hi {
			b = hi
		}
		wg.Add(1)
		go func(a, b int64) {
			defer wg.Done()
			n := a
			defer func() {
				if x := recover(); x != nil {
					msg := fmt.Sprint(x)
					if f, ok := x.(enumFail); ok {
						msg = f.msg
					}
					mu.Lock()
					fails = append(fails, failure{-1, n, msg, nil})
					mu.Unlock()
				}
			}()
			r := &runner{in: in, codes: map[*ssa.Function]*code{}}
			env := make(cenv, 1+len(c.Results))
			for ; n <= b; n++ {
				res := r.call(fn, []cval{n})
				env[0] = n
				for i, x := range res {
					env[i+1] = x.(int64)
				}
				for i, cl := range clauses {
					if cl(env) == 0 {
						mu.Lock()
						fails = append(fails, failure{i, n, "", append([]int64{}, env[1:]...)})
						mu.Unlock()
						return
					}
				}
			}
		}(a, b)
	}
	wg.Wait()
	pos := e.p.pos(fn.Pos())
	for i := range c.Ensures {
		cl := &c.Ensures[i]
		o := OResult{Fn: name, Label: cl.Label, Pos: pos, Desc: cl.Text, Props: append(append([]string{}, cl.Props...), c.Props...), Status: "unsat", By: "enumeration"}
		for _, f := range fails {
			if f.clause == i || f.clause < 0 {
				o.Status = "sat"
				o.Goal = cl.Text
				o.Model = fmt.Sprintf("%s = %d, results %v %s", c.Params[0], f.arg, f.res, f.msg)
				o.Query = o.Model
			}
		}
		obs = append(obs, o)
	}
	// no panic was reached
	s := OResult{Fn: name, Label: "safe: no panic on any value of the domain", Pos: pos, Props: append([]string{"P22"}, c.Props...), Status: "unsat", By: "enumeration"}
	for _, f := range fails {
		if f.clause < 0 {
			s.Status, s.Goal = "sat", f.msg
			s.Model = fmt.Sprintf("%s = %d: %s", c.Params[0], f.arg, f.msg)
		}
	}
	return append(obs, s), 1, nil
}
