package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- results of a function, exchanged between processes

type OResult struct {
	Fn     string   `json:"fn"`
	Label  string   `json:"label"`
	Pos    string   `json:"pos"`
	Desc   string   `json:"desc,omitempty"`
	Props  []string `json:"props"`
	Status string   `json:"status"`
	By     string   `json:"by"`
	Time   float64  `json:"time"`
	Goal   string   `json:"goal,omitempty"`
	Trail  []string `json:"trail,omitempty"`
	Model  string   `json:"model,omitempty"`
	Query  string   `json:"query,omitempty"`
}

type FnResult struct {
	Fn        string    `json:"fn"`
	Obligs    []OResult `json:"obligations"`
	Error     string    `json:"error,omitempty"`
	Contracts []string  `json:"contracts"`
	Trusted   []string  `json:"trusted"`
	Inlined   []string  `json:"inlined"`
	Returns   int       `json:"returns"`
	Wall      float64   `json:"wall"`
	Props     []string  `json:"props"`
	Bounded   string    `json:"bounded,omitempty"`
}

var (
	repoDir = "/repo"
	specDir = "/verif/contracts"
)

type engine struct {
	p       *Prog
	spec    *Spec
	renamed []string
	absent  []*Contract // their functions do not exist
}

func goroot() string {
	if g := os.Getenv("JV_GOROOT"); g != "" {
		return g
	}
	return "/opt/veriftools/go1.23.12"
}

func loadEngine() *engine {
	p, err := loadProg(repoDir, goroot())
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the package:", err)
		os.Exit(1)
	}
	var goType func(n string) types.Type
	goType = func(n string) types.Type {
		if strings.HasPrefix(n, "*") {
			if t := goType(n[1:]); t != nil {
				return types.NewPointer(t)
			}
			return nil
		}
		if strings.HasPrefix(n, "[]") {
			if t := goType(n[2:]); t != nil {
				return types.NewSlice(t)
			}
			return nil
		}
		if i := strings.Index(n, "."); i >= 0 {
			for _, q := range p.prog.AllPackages() {
				if q.Pkg.Name() == n[:i] {
					if o := q.Pkg.Scope().Lookup(n[i+1:]); o != nil {
						if tn, ok := o.(*types.TypeName); ok {
							return tn.Type()
						}
					}
				}
			}
			return nil
		}
		if o := p.pkg.Scope().Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if o := types.Universe.Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	}
	goSort := func(n string) *Sort {
		if n == "struct{}" {
			return p.sortOf(types.NewStruct(nil, nil))
		}
		if t := goType(n); t != nil {
			return p.sortOf(t)
		}
		return nil
	}
	goConst := func(n string) *Term {
		if o, ok := p.pkg.Scope().Lookup(n).(*types.Const); ok {
			switch o.Val().Kind() {
			case constant.Int:
				b, ok := new(big.Int).SetString(o.Val().ExactString(), 10)
				if ok {
					return IntB(b)
				}
			case constant.String:
				return Str(constant.StringVal(o.Val()))
			}
		}
		return nil
	}
	s := loadSpec(specDir, goSort, goType, goConst)
	e := &engine{p: p, spec: s}
	e.matchNames()
	return e
}

func newV(e *engine, target string) *V {
	e.spec.target = target
	return &V{p: e.p, spec: e.spec, target: target, globals: map[*ssa.Global]int{}, base: map[int]*Obj{}, active: map[*ssa.Function]int{}, usedContracts: map[string]bool{}, usedTrusted: map[string]bool{}, inlined: map[string]bool{}, initVals: map[*ssa.Global]Value{}, cacheMaps: map[*Term]bool{}}
}

// initState evaluates the package initialiser.
func (v *V) initState() *State {
	st := &State{heap: map[int]*Obj{}, ctx: NewCtx()}
	init := v.p.ssa.Func("init")
	v.quiet++
	var end *State
	saved := v.p.inits
	v.p.inits = map[*ssa.Global]bool{}
	for _, m := range v.p.ssa.Members {
		if g, ok := m.(*ssa.Global); ok {
			v.p.inits[g] = true // all zero at the start
		}
	}
	v.runFn(st, init, nil, nil, func(s *State, _ []Value) { end = s })
	v.p.inits = saved
	v.quiet--
	if end == nil {
		unsup("the package initialiser does not return")
	}
	byID := map[int]*ssa.Global{}
	for g, id := range v.globals {
		byID[id] = g
	}
	h := map[int]*Obj{}
	for id, o := range end.heap {
		c := *o
		if g := byID[id]; g != nil {
			if v.p.inits[g] {
				v.initVals[g] = c.val
				v.base[id] = &c
			} else {
				delete(v.globals, g)
				delete(v.base, id)
				continue
			}
		} else if c.shared == "" {
			c.shared = "it is the content of a package variable"
			if c.arr {
				c.pinned = Len(c.val.(*Term))
			}
		}
		h[id] = &c
	}
	v.usedTrusted = map[string]bool{}
	v.inlined = map[string]bool{}
	v.usedContracts = map[string]bool{}
	v.steps, v.paths = 0, 0
	r := &State{heap: h, ctx: NewCtx()}
	for _, f := range end.ctx.facts {
		r.ctx.Assume(f)
	}
	return r
}

// verify generates the obligations of a function.
func (e *engine) verify(name string, dbg bool) (v *V, err error) {
	v = newV(e, name)
	v.debug = dbg
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case unsupported:
				err = fmt.Errorf("%s", y.msg)
			default:
				err = fmt.Errorf("%v", x)
				if dbg {
					debug.PrintStack()
				}
			}
		}
	}()
	c := e.spec.Contracts[name]
	fn := e.p.fns[name]
	if fn == nil {
		return v, fmt.Errorf("the function %s no longer exists", name)
	}
	if v.contractOf(fn) == nil {
		return v, fmt.Errorf("the signature of %s is not the one of its contract", name)
	}
	v.contract = c
	v.fuel = c.Fuel
	if v.fuel == 0 {
		v.fuel = 1
	}
	st := v.initState()
	v.contract = c
	env := &Env{vars: map[string]*Term{}}
	v.tenv = env
	args := make([]Value, len(fn.Params))
	var dst *Slice
	var d0 *Term
	for i, p := range fn.Params {
		n := c.Params[i]
		if n == "_" {
			n = p.Name()
		}
		if c.Appends[n] {
			dst = v.dstParam(st, n)
			o := *st.obj(dst.arr)
			o.caller = true
			st.put(o)
			args[i] = dst
			d0 = v.content(st, dst)
			env.vars[n] = d0
			continue
		}
		if u, ok := p.Type().Underlying().(*types.Map); ok && c.Maps[n] {
			r := v.freshMap(st, n, u).(*MapRef)
			o := *st.obj(r.obj)
			o.published = !c.Modifies[n]
			st.put(o)
			args[i] = r
			env.vars[n] = o.mval
			continue
		}
		args[i] = v.freshVal(st, n, p.Type(), nil)
		v.ownParam(st, args[i], c.Modifies[n])
		env.vars[n] = v.argTerm(st, args[i], p.Type())
		v.ownParam(st, args[i], c.Modifies[n])
		if sl, ok := args[i].(*Slice); ok && has(c.Reuses, n) && sl.arr != 0 {
			o := *st.obj(sl.arr)
			o.from = o.id
			st.put(o)
		}
	}
	env.extra = v.specials(st, c, nil, nil)
	for _, r := range c.Requires {
		st.ctx.Assume(e.spec.eval(r.Expr, env))
	}
	for _, r := range c.Memory {
		st.ctx.Assume(e.spec.eval(r.Expr, env))
	}
	if v.prove(st.ctx, False, 1, 2e9).Status == "unsat" {
		return v, fmt.Errorf("the preconditions are contradictory")
	}
	v.runFn(st, fn, args, nil, func(s *State, res []Value) {
		v.atReturn(s, c, fn, args, res, env, dst, d0)
	})
	if v.returns == 0 {
		return v, fmt.Errorf("no execution reaches the end of the function")
	}
	return v, nil
}

func (v *V) ownParam(st *State, a Value, modifies bool) {
	switch x := a.(type) {
	case *Slice:
		if x.arr == 0 {
			return
		}
		o := *st.obj(x.arr)
		if o.caller && !modifies {
			return
		}
		o.caller = true
		if !modifies {
			o.shared = "it belongs to the caller"
		} else {
			o.pinned = Zero
			o.n = x.cp
		}
		st.put(o)
	case *Struct:
		for _, f := range x.f {
			v.ownParam(st, f, modifies)
		}
	case *Ptr:
		o := *st.obj(x.obj)
		if s, ok := o.val.(*Struct); ok {
			v.ownParam(st, s, modifies)
		}
		if !modifies {
			o = *st.obj(x.obj)
			o.shared = "it belongs to the caller"
			st.put(o)
		}
	}
}

func (v *V) atReturn(s *State, c *Contract, fn *ssa.Function, args, res []Value, env *Env, dst *Slice, d0 *Term) {
	if s.ctx.dead {
		return
	}
	v.returns++
	pos := v.p.pos(fn.Pos())
	for _, f := range s.deferred {
		f(s)
	}
	post := map[string]*Term{}
	for i, n := range c.Params {
		if !c.Modifies[n] {
			continue
		}
		switch a := args[i].(type) {
		case *Slice:
			post[n] = v.content(s, a)
		case *Ptr:
			et := fn.Params[i].Type().Underlying().(*types.Pointer).Elem()
			post[n] = v.pack(s, v.load(s, a, et, fn.Pos()), et)
		case *MapRef:
			if s.obj(a.obj).published {
				v.oblige(s, "own: "+n+" is still the map of the caller only", False, pos, c.Props, "")
			}
			post[n] = s.obj(a.obj).mval
		}
	}
	if len(c.Reuses) != 0 {
		v.checkReuse(s, c, args, res, pos)
	}
	renv := &Env{vars: map[string]*Term{}, up: env}
	rv := map[string]Value{}
	for i, n := range c.Results {
		rv[n] = res[i]
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(unsupported); !ok {
						panic(x)
					}
				}
			}()
			renv.vars[n] = v.pack(s, res[i], fn.Signature.Results().At(i).Type())
		}()
	}
	renv.extra = v.specials(s, c, post, rv)
	if c.Out != nil {
		out := v.spec.coerce(v.spec.eval(c.Out.Expr, env), Bytes)
		ee := Zero
		var ev Value
		if c.Err != nil {
			ee = v.spec.eval(c.Err.Expr, env)
		}
		if len(res) == 2 {
			ev = res[1]
		}
		props := append(append([]string{}, c.Out.Props...), c.Props...)
		v.curProps = props
		if c.Refuse != nil {
			cond := v.spec.eval(c.Refuse[0], env)
			s2 := s.clone()
			if s2.ctx.Assume(cond) && !s2.ctx.dead {
				v.oblige(s2, "refuse: error", v.eqErr(s2, ev, v.spec.eval(c.Refuse[1], env)), pos, props, "")
				v.oblige(s2, "refuse: no bytes", v.isNil(s2, res[0]), pos, props, "")
			}
			s = s.clone()
			if !s.ctx.Assume(Not(cond)) || s.ctx.dead {
				return
			}
		}
		v.checkOutcome(s, res[0], ev, d0, out, ee, func(l string, g *Term, s2 *State) {
			v.oblige(s2, l, g, pos, props, c.Out.Text)
		}, c.Fn, dst)
	}
	for i := range c.Ensures {
		e := &c.Ensures[i]
		s2 := s.clone()
		props := append(append([]string{}, e.Props...), c.Props...)
		v.curProps = props
		renv.extra = v.specials(s2, c, post, rv)
		v.oblige(s2, e.Label, v.spec.eval(e.Expr, renv), pos, props, e.Text)
	}
	v.curProps = nil
	for i, n := range c.Results {
		sl, ok := res[i].(*Slice)
		if !ok || c.Out != nil {
			continue
		}
		_ = n
		if c.FreshRes && sl.arr != 0 {
			v.checkLineage(s, sl, nil, func(l string, g *Term, s2 *State) {
				v.oblige(s2, l, g, pos, c.Props, "")
			})
			for id := sl.arr; id != 0; id = s.obj(id).parent {
				if s.obj(id).caller {
					v.oblige(s, "own: the result does not share the memory of the caller", False, pos, c.Props, "")
				}
			}
		}
	}
}

// checkReuse: the memory of the results is that of the parameters
// c.Reuses, in order, or new, and nothing else uses it.
func (v *V) checkReuse(s *State, c *Contract, args, res []Value, pos string) {
	used := map[int]bool{}
	for ri, r := range res {
		sl, ok := r.(*Slice)
		if !ok || sl.arr == 0 {
			continue
		}
		if ri >= len(c.Reuses) {
			unsup("%s: reuses with other results", c.Fn)
		}
		mine := map[int]bool{}
		var arg *Slice
		for i, n := range c.Params {
			if n == c.Reuses[ri] {
				arg, _ = args[i].(*Slice)
			}
		}
		v.checkLineage(s, sl, nil, func(l string, g *Term, s2 *State) {
			v.oblige(s2, l, g, pos, c.Props, "")
		})
		for id := sl.arr; id != 0; id = s.obj(id).parent {
			o := s.obj(id)
			key := id
			if o.from != 0 {
				key = o.from
			}
			if used[key] && !mine[key] {
				v.oblige(s, "own: two results do not share memory", False, pos, c.Props, "")
			}
			used[key], mine[key] = true, true
			if o.caller && (arg == nil || o.from != arg.arr) {
				v.oblige(s, "own: the result does not share the memory of another parameter", False, pos, c.Props, "")
			}
			if o.pinned == nil || s.ctx.Simp(Le(o.pinned, sl.off)) != True {
				v.oblige(s, "own: the result does not share memory in use", False, pos, c.Props, "")
			}
		}
	}
}

// ---- lemmas

func (e *engine) lemma(i int) (v *V, err error) {
	l := e.spec.Lemmas[i]
	v = newV(e, l.Fn.Name)
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
			if u, ok := x.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
			}
		}
	}()
	v.lemmaLimit = map[string]bool{}
	for _, m := range e.spec.Lemmas[:i] {
		v.lemmaLimit[m.Fn.Name] = true
	}
	v.fuel = 2
	if l.Fuel > 0 {
		v.fuel = l.Fuel
	}
	st := &State{heap: map[int]*Obj{}, ctx: NewCtx()}
	args := make([]*Term, len(l.Fn.Params))
	env := &Env{vars: map[string]*Term{}}
	for j, p := range l.Fn.Params {
		args[j] = Fresh(p, l.Fn.PSorts[j])
		env.vars[p] = args[j]
	}
	if l.Cases != nil {
		// one obligation for each value of the expression
		t := e.spec.eval(l.Cases, env)
		var walk func(st *State, x *Term)
		walk = func(st *State, x *Term) {
			if st.ctx.dead {
				return
			}
			x = st.ctx.Simp(x)
			if x.Op == OIte {
				a, b := st.clone(), st.clone()
				a.ctx.Assume(x.Args[0])
				walk(a, x.Args[1])
				b.ctx.Assume(Not(x.Args[0]))
				walk(b, x.Args[2])
				return
			}
			if u := e.spec.Unfold(x); u != nil {
				walk(st, u)
				return
			}
			e.spec.override = map[*Term]*Term{t: x}
			goal := e.spec.inst(l.Fn, args)
			e.spec.override = nil
			v.oblige(st, "lemma", goal, l.Fn.Pos, l.Props, fmt.Sprintf("%s, where %s is %s", l.Fn.Name, t, clip(x.String(), 100)))
		}
		v.returns = 1
		walk(st, t)
		return v, nil
	}
	goal := e.spec.inst(l.Fn, args)
	if l.Induct != nil {
		// well-founded: the measure decreases and is bounded below
		m := env.vars[l.Induct[0]]
		if l.Measure != nil {
			m = e.spec.eval(l.Measure, env)
		}
		hyp := func(vars []string, vals []ast.Expr) {
			ih := append([]*Term{}, args...)
			env2 := &Env{vars: map[string]*Term{}}
			for j, p := range l.Fn.Params {
				for n, q := range vars {
					if p == q {
						ih[j] = e.spec.eval(vals[n], env)
					}
				}
				env2.vars[p] = ih[j]
			}
			sm := env2.vars[l.Induct[0]]
			if l.Measure != nil {
				sm = e.spec.eval(l.Measure, env2)
			}
			var dec *Term
			if m.Sort == Int {
				dec = And(Ge(sm, Zero), Lt(sm, m))
			} else {
				dec = Lt(Len(sm), Len(m))
			}
			st.ctx.Assume(Imp(dec, e.spec.inst(l.Fn, ih)))
		}
		hyp(l.Induct, l.Smaller)
		if l.Induct2 != nil {
			hyp(l.Induct2, l.Smaller2)
		}
	}
	v.returns = 1
	if l.Split && goal.Op == OAnd {
		for _, g := range goal.Args {
			v.oblige(st.clone(), "lemma", g, l.Fn.Pos, l.Props, l.Fn.Name)
		}
		return v, nil
	}
	v.oblige(st, "lemma", goal, l.Fn.Pos, l.Props, l.Fn.Name)
	return v, nil
}

// ---- solving

var timeScale = time.Duration(1)

func fileExists(n string) bool { _, err := os.Stat(n); return err == nil }

var solverLimit = 20 * time.Second

func (v *V) discharge(workers int) []OResult {
	type job struct {
		o  *Oblig
		ps []pending
	}
	var jobs []job
	for _, o := range v.obligs {
		if o.Trivial {
			o.Res = Result{Status: "unsat", By: "simplifier"}
			continue
		}
		var ps []pending
		v.collect = &ps
		r := v.prove(o.Ctx, o.Goal, o.Fuel, solverLimit)
		v.collect = nil
		o.Res = r
		if len(ps) > 0 {
			o.Res.Status = "unknown"
			jobs = append(jobs, job{o, ps})
		}
	}
	var wg sync.WaitGroup
	ch := make(chan job)
	cache := map[string]Result{}
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				res := Result{Status: "unsat"}
				for _, p := range j.ps {
					mu.Lock()
					r, ok := cache[p.text]
					mu.Unlock()
					if !ok {
						r = solve(p.text, p.lean, p.seqs, p.fps, solverLimit)
						mu.Lock()
						cache[p.text] = r
						mu.Unlock()
					}
					res.By = r.By
					res.Time += r.Time
					if r.Status != "unsat" {
						res.Status = r.Status
						res.Text = r.Text + "\n" + p.text
						break
					}
				}
				j.o.Res = res
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	var out []OResult
	for _, o := range v.obligs {
		r := OResult{Fn: o.Fn, Label: o.Label, Pos: o.Pos, Desc: o.Desc, Props: o.Props, Status: o.Res.Status, By: o.Res.By, Time: o.Res.Time}
		if r.Status != "unsat" {
			r.Goal = clip(o.Goal.String(), 4000)
			r.Trail = o.Trail
			r.Query = clip(o.Res.Text, 20000)
		}
		out = append(out, r)
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// runTarget verifies a function or a lemma, completely.
func (e *engine) runTarget(name string, dbg bool, workers int) FnResult {
	t0 := time.Now()
	var v *V
	var err error
	r := FnResult{Fn: name}
	if strings.HasPrefix(name, "lemma_") {
		for i, l := range e.spec.Lemmas {
			if l.Fn.Name == name {
				v, err = e.lemma(i)
				r.Props = l.Props
			}
		}
	} else {
		if c := e.spec.Contracts[name]; c != nil && len(c.Enum) == 3 {
			r.Obligs, r.Returns, err = e.enumerate(name)
		} else {
			v, err = e.verify(name, dbg)
		}
		if c := e.spec.Contracts[name]; c != nil {
			r.Props = e.propsOf(c)
			r.Bounded = c.Bounded
		}
	}
	if v != nil {
		if p := os.Getenv("JV_PROP"); p != "" && !strings.HasPrefix(name, "lemma_") {
			// only what the property needs
			var l []*Oblig
			for _, o := range v.obligs {
				if appliesTo(&OResult{Label: o.Label, Props: o.Props}, r.Props, p) {
					l = append(l, o)
				}
			}
			v.obligs = l
		}
		r.Obligs = v.discharge(workers)
		r.Contracts = keys(v.usedContracts)
		r.Trusted = keys(v.usedTrusted)
		r.Inlined = keys(v.inlined)
		r.Returns = v.returns
	}
	if err != nil {
		r.Error = err.Error()
	}
	r.Wall = time.Since(t0).Seconds()
	return r
}

func (e *engine) propsOf(c *Contract) []string {
	m := map[string]bool{}
	add := func(ps []string) {
		for _, p := range ps {
			m[p] = true
		}
	}
	add(c.Props)
	for i := range c.Ensures {
		add(c.Ensures[i].Props)
	}
	if c.Out != nil {
		add(c.Out.Props)
	}
	if c.Err != nil {
		add(c.Err.Props)
	}
	return keys(m)
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: jv fn NAME... | worker NAME | list | check ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	if d := os.Getenv("JV_REPO"); d != "" {
		repoDir = d
	}
	if d, err := os.Executable(); err == nil {
		if d = filepath.Dir(filepath.Dir(d)); fileExists(d + "/contracts") {
			verifDir, specDir = d, d+"/contracts"
		}
	}
	if n, err := strconv.Atoi(os.Getenv("JV_SCALE")); err == nil && n > 0 {
		timeScale = time.Duration(n)
		solverLimit *= timeScale
	}
	switch os.Args[1] {
	case "worker":
		e := loadEngine()
		r := e.runTarget(os.Args[2], false, 2)
		json.NewEncoder(os.Stdout).Encode(r)
	case "sigs":
		if err := loadEngine().writeSigs(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "list":
		e := loadEngine()
		for _, n := range e.targets() {
			if c := e.spec.Contracts[n]; c != nil {
				fmt.Println(n, e.propsOf(c))
			} else {
				fmt.Println(n)
			}
		}
	case "fn":
		fs := flag.NewFlagSet("fn", flag.ExitOnError)
		dbg := fs.Bool("d", false, "debug")
		all := fs.Bool("a", false, "print all the obligations")
		q := fs.Bool("q", false, "print the queries that fail")
		fs.Parse(os.Args[2:])
		e := loadEngine()
		for _, n := range fs.Args() {
			r := e.runTarget(n, *dbg, 8)
			printFn(r, *all, *q)
		}
	case "stats":
		e := loadEngine()
		if f, err := os.Create("/tmp/jv.prof"); err == nil {
			_ = pprof.StartCPUProfile(f)
		}
		r := e.runTarget(os.Args[2], false, 8)
		pprof.StopCPUProfile()
		printFn(r, false, false)
		fmt.Println("queries", nQueries, "hits", nHits, "time", solverTime)
	case "all":
		names := os.Args[2:]
		if len(names) == 0 {
			names = loadEngine().targets()
		}
		rs := runAll(names, 8)
		for _, r := range rs {
			printFn(r, false, false)
		}
	case "check":
		checkMain(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func printFn(r FnResult, all, q bool) {
	ok, bad := 0, 0
	by := map[string]int{}
	for _, o := range r.Obligs {
		if o.Status == "unsat" {
			ok++
			by[o.By]++
			if all {
				fmt.Printf("  ok   %s %s %s [%s %.2fs] %s\n", o.Pos, o.Label, o.Desc, o.By, o.Time, strings.Join(o.Props, ","))
			}
			continue
		}
		bad++
		if bad <= 12 {
			fmt.Printf("  FAIL %s %s (%s) %s\n     goal %s\n     trail %s\n", o.Pos, o.Label, o.Status, o.Desc, clip(o.Goal, 1500), strings.Join(o.Trail, " "))
			if q {
				fmt.Println(o.Query)
			}
		}
	}
	st := "ok"
	if bad > 0 || r.Error != "" {
		st = "FAILED"
	}
	fmt.Printf("%-6s %s: %d obligations, %d not discharged, %d returns, %.1fs %v\n", st, r.Fn, ok+bad, bad, r.Returns, r.Wall, by)
	if r.Error != "" {
		fmt.Println("     error:", r.Error)
	}
}

// targets lists the contracts and the lemmas.
func (e *engine) targets() []string {
	var r []string
	for n, c := range e.spec.Contracts {
		if c.Trusted || c.Inline || c.Todo {
			continue
		}
		r = append(r, n)
	}
	for _, l := range e.spec.Lemmas {
		r = append(r, l.Fn.Name)
	}
	sort.Strings(r)
	return r
}

// runAll verifies the targets in separate processes.
func runAll(names []string, workers int) []FnResult {
	self, _ := os.Executable()
	out := make([]FnResult, len(names))
	sem := make(chan bool, workers)
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "worker", n)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
			var eb strings.Builder
			cmd.Stderr = &eb
			timer := time.AfterFunc(600*time.Second, func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			b, err := cmd.Output()
			timer.Stop()
			var r FnResult
			if err != nil || json.Unmarshal(b, &r) != nil {
				r = FnResult{Fn: n, Error: "the verifier failed: " + fmt.Sprint(err) + " " + clip(eb.String(), 2000)}
			}
			out[i] = r
		}(i, n)
	}
	wg.Wait()
	return out
}
