package main

// The specification language: pure functions in Go syntax,
// uninterpreted functions (without body), fact schemas
// (fact_<fn>), lemmas (lemma_<fn>), and function contracts
// in //@ comments.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type SpecFn struct {
	Name   string
	Params []string
	PSorts []*Sort
	Result *Sort
	Body   *ast.BlockStmt // nil: uninterpreted
	Rec    bool           // kept as an application, unfolded on demand
	Pos    string
	For    map[string]bool // the functions whose verification looks into it
	unfold map[*Term]*Term
}

type Clause struct {
	Label string
	Props []string
	Expr  ast.Expr
	Text  string
	Pos   string
}

type Inv struct {
	Own    bool // the variables are those that the loop itself changes, except …Outer
	Params []string
	Sorts  []*Sort
	Expr   ast.Expr
	Text   string
	Pos    string
}

type Contract struct {
	Fn       string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Memory   []Clause // what the type of the memory pointed guarantees
	Ensures  []Clause
	Invs     []Inv
	Appends  map[string]bool
	Modifies map[string]bool
	Trusted  bool
	Inline   bool
	NoCalls  bool
	FreshRes bool
	Reuses   []string        // the parameters whose memory the results may use, in order
	Maps     map[string]bool // parameters that are maps of the caller only
	Refuse   []ast.Expr      // condition and error
	Out      *Clause
	Err      *Clause
	Enum     []string
	Bounded  string
	Todo     bool
	Pos      string
	Fuel     int
}

type Facts struct {
	Fuel int
	On   string // function it is triggered on
	Fn   *SpecFn
	// lemma support
	Lemma    bool
	Induct   []string // induction parameters
	Also     [][3]string
	Measure  ast.Expr
	Split    bool       // one obligation for each part
	Smaller  []ast.Expr // the values used in the induction hypothesis
	Induct2  []string   // and those of a second one
	Smaller2 []ast.Expr
	Props    []string
	Cases    ast.Expr // the lemma is proved for each of its values
	If       ast.Expr // an instance is only made where this is known
}

// A Cache is the invariant of a map shared between calls.
type Cache struct {
	Type   string
	Params []string
	Sorts  []*Sort
	Expr   ast.Expr
	Where  ast.Expr // what is known of the keys that have a value
	Pos    string
}

type Spec struct {
	target    string          // the function verified
	override  map[*Term]*Term // values of applications, in a case of a lemma
	Caches    map[string]*Cache
	goType    func(name string) types.Type
	goConst   func(name string) *Term // constants of the package
	Fns       map[string]*SpecFn
	Contracts map[string]*Contract
	Facts     map[string][]*Facts
	Lemmas    []*Facts
	PoolInv   map[string]ast.Expr
	PoolText  map[string]string
	Consts    map[string]*Term
	goSort    func(name string) *Sort // sorts of the types of the package
}

func (s *Spec) sortOf(e ast.Expr) *Sort {
	switch x := e.(type) {
	case *ast.Ident:
		switch x.Name {
		case "int", "Fn", "Type", "Ptr", "Err", "Ref", "Ctx", "Iface", "Set":
			return Int
		case "bool":
			return Bool
		case "Bytes", "string":
			return Bytes
		case "F64":
			return F64
		case "F32":
			return F32
		}
		if r := s.goSort(x.Name); r != nil {
			return r
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if r := s.goSort(id.Name + "." + x.Sel.Name); r != nil {
				return r
			}
		}
	case *ast.ArrayType:
		return SeqOf(s.sortOf(x.Elt))
	case *ast.MapType:
		return ArrOf(s.sortOf(x.Key), s.sortOf(x.Value))
	}
	panic(fmt.Sprintf("spec: unknown type %v", e))
}

var clauseRe = regexp.MustCompile(`^\[([A-Za-z0-9_, ]+)\]\s*(.*)$`)
var funcRe = regexp.MustCompile(`^func\s+(\S+?)\(([^)]*)\)\s*(?:\(([^)]*)\))?$`)
var cacheRe = regexp.MustCompile(`^(\S+)\s+(\S+)\s+\(([^)]*)\):\s*(.*)$`)
var invRe = regexp.MustCompile(`^\(([^)]*)\)\s*(.*)$`)

func splitList(s string) []string {
	var r []string
	for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		r = append(r, x)
	}
	return r
}

func loadSpec(dir string, goSort func(string) *Sort, goType func(string) types.Type, goConst func(string) *Term) *Spec {
	s := &Spec{goConst: goConst, Caches: map[string]*Cache{}, goType: goType, Fns: map[string]*SpecFn{}, Contracts: map[string]*Contract{}, Facts: map[string][]*Facts{}, PoolInv: map[string]ast.Expr{}, PoolText: map[string]string{}, Consts: map[string]*Term{}, goSort: goSort}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	fset := token.NewFileSet()
	for _, fn := range files {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch fd := d.(type) {
			case *ast.GenDecl:
				if fd.Tok == token.CONST {
					for _, sp := range fd.Specs {
						vs := sp.(*ast.ValueSpec)
						for i, n := range vs.Names {
							s.Consts[n.Name] = s.eval(vs.Values[i], nil)
						}
					}
				}
			case *ast.FuncDecl:
				s.addFn(fset, fd)
			}
		}
		s.contracts(fn, string(src))
	}
	s.findRec()
	symSpec = s
	return s
}

// evalWith evaluates an expression on the given arguments.
func (s *Spec) evalWith(e ast.Expr, params []string, args []*Term) *Term {
	env := &Env{vars: map[string]*Term{}}
	for i, p := range params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	return s.eval(e, env)
}

func (s *Spec) addFn(fset *token.FileSet, fd *ast.FuncDecl) {
	sf := &SpecFn{Name: fd.Name.Name, Body: fd.Body, Pos: fset.Position(fd.Pos()).String(), unfold: map[*Term]*Term{}}
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			sf.Params = append(sf.Params, n.Name)
			sf.PSorts = append(sf.PSorts, s.sortOf(p.Type))
		}
	}
	if fd.Type.Results != nil {
		sf.Result = s.sortOf(fd.Type.Results.List[0].Type)
	}
	var facts *Facts
	todo := false
	if strings.HasPrefix(sf.Name, "fact_") {
		facts = &Facts{On: strings.SplitN(sf.Name[5:], "__", 2)[0], Fn: sf}
	}
	if strings.HasPrefix(sf.Name, "lemma_") {
		facts = &Facts{On: strings.SplitN(sf.Name[6:], "__", 2)[0], Fn: sf, Lemma: true}
	}
	if fd.Doc != nil {
		for _, c := range fd.Doc.List {
			t := strings.TrimPrefix(c.Text, "//@ ")
			if t == c.Text {
				continue
			}
			w := strings.Fields(t)
			switch w[0] {
			case "range":
				lo, _ := new(big.Int).SetString(w[1], 0)
				hi, _ := new(big.Int).SetString(w[2], 0)
				declRange(sf.Name, lo, hi)
			case "opaque":
				sf.Rec = true
			case "for":
				// defined, or stated, for these functions only
				sf.Rec = facts == nil
				sf.For = map[string]bool{}
				for _, n := range w[1:] {
					sf.For[n] = true
				}
			case "split":
				facts.Split = true
			case "todo":
				todo = true
			case "induction", "induction2":
				// induction v e; w f measure m
				kw := w[0]
				d := strings.Join(w[1:], " ")
				if i := strings.Index(d, " measure "); i >= 0 {
					e, err := parser.ParseExpr(d[i+9:])
					if err != nil {
						panic(err)
					}
					facts.Measure = e
					d = d[:i]
				}
				for _, d := range strings.Split(d, ";") {
					w := strings.Fields(d)
					e, err := parser.ParseExpr(strings.Join(w[1:], " "))
					if err != nil {
						panic(err)
					}
					if kw == "induction2" {
						facts.Induct2 = append(facts.Induct2, w[0])
						facts.Smaller2 = append(facts.Smaller2, e)
						continue
					}
					facts.Induct = append(facts.Induct, w[0])
					facts.Smaller = append(facts.Smaller, e)
				}
			case "also":
				// also t F i: the parameter t is any argument i of F
				facts.Also = append(facts.Also, [3]string{w[1], w[2], w[3]})
			case "on":
				facts.On = strings.Join(w[1:], "@")
			case "if":
				e, err := parser.ParseExpr(strings.Join(w[1:], " "))
				if err != nil {
					panic(err)
				}
				facts.If = e
			case "cases":
				e, err := parser.ParseExpr(strings.Join(w[1:], " "))
				if err != nil {
					panic(err)
				}
				facts.Cases = e
			case "fuel":
				facts.Fuel, _ = strconv.Atoi(w[1])
			case "props":
				facts.Props = splitList(strings.Join(w[1:], " "))
			}
		}
	}
	if s.Fns[sf.Name] != nil {
		panic("spec: duplicate " + sf.Name)
	}
	s.Fns[sf.Name] = sf
	if facts != nil && !todo {
		s.Facts[facts.On] = append(s.Facts[facts.On], facts)
		if facts.Lemma {
			s.Lemmas = append(s.Lemmas, facts)
		}
	}
}

func (s *Spec) contracts(file, src string) {
	lines := strings.Split(src, "\n")
	var cur *Contract
	for i := 0; i < len(lines); i++ {
		l := strings.TrimSpace(lines[i])
		pos := fmt.Sprintf("%s:%d", filepath.Base(file), i+1)
		if !strings.HasPrefix(l, "//@ ") {
			if !strings.HasPrefix(l, "//") {
				cur = nil
			}
			continue
		}
		t := strings.TrimSpace(l[4:])
		// continuation lines
		for i+1 < len(lines) && strings.HasPrefix(strings.TrimSpace(lines[i+1]), "//@+") {
			i++
			t += " " + strings.TrimSpace(strings.TrimSpace(lines[i])[4:])
		}
		w := strings.SplitN(t, " ", 2)
		rest := ""
		if len(w) > 1 {
			rest = strings.TrimSpace(w[1])
		}
		switch w[0] {
		case "func":
			m := funcRe.FindStringSubmatch(t)
			if m == nil {
				panic(pos + ": bad contract header " + t)
			}
			cur = &Contract{Fn: m[1], Params: splitList(m[2]), Results: splitList(m[3]), Pos: pos, Appends: map[string]bool{}, Modifies: map[string]bool{}}
			if s.Contracts[cur.Fn] != nil {
				panic(pos + ": duplicate contract " + cur.Fn)
			}
			s.Contracts[cur.Fn] = cur
			continue
		case "cache":
			m := cacheRe.FindStringSubmatch(rest)
			if m == nil {
				panic(pos + ": bad cache " + rest)
			}
			c := &Cache{Type: m[2], Pos: pos}
			for _, p := range strings.Split(m[3], ",") {
				f := strings.SplitN(strings.TrimSpace(p), " ", 2)
				te, err := parser.ParseExpr(strings.TrimSpace(f[1]))
				if err != nil {
					panic(pos + err.Error())
				}
				c.Params = append(c.Params, f[0])
				c.Sorts = append(c.Sorts, s.sortOf(te))
			}
			e, err := parser.ParseExpr(m[4])
			if err != nil {
				panic(pos + ": " + err.Error())
			}
			c.Expr = e
			s.Caches[m[1]] = c
			continue
		case "cachefact":
			p := strings.SplitN(rest, ":", 2)
			e, err := parser.ParseExpr(p[1])
			if err != nil {
				panic(pos + ": " + err.Error())
			}
			s.Caches[strings.TrimSpace(p[0])].Where = e
			continue
		case "pool":
			p := strings.SplitN(rest, ":", 2)
			e, err := parser.ParseExpr(p[1])
			if err != nil {
				panic(pos + ": " + err.Error())
			}
			s.PoolInv[strings.TrimSpace(p[0])] = e
			s.PoolText[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
			continue
		}
		if cur == nil {
			continue
		}
		clause := func() Clause {
			c := Clause{Pos: pos}
			if m := clauseRe.FindStringSubmatch(rest); m != nil {
				c.Props = splitList(m[1])
				rest = m[2]
			}
			e, err := parser.ParseExpr(rest)
			if err != nil {
				panic(pos + ": " + err.Error() + ": " + rest)
			}
			c.Expr, c.Text = e, rest
			return c
		}
		switch w[0] {
		case "props":
			cur.Props = splitList(rest)
		case "memory":
			cur.Memory = append(cur.Memory, clause())
		case "requires":
			cur.Requires = append(cur.Requires, clause())
		case "ensures":
			c := clause()
			c.Label = fmt.Sprintf("ensures#%d", len(cur.Ensures)+1)
			cur.Ensures = append(cur.Ensures, c)
		case "appends":
			for _, p := range splitList(rest) {
				cur.Appends[p] = true
			}
		case "modifies":
			for _, p := range splitList(rest) {
				cur.Modifies[p] = true
			}
		case "reuses":
			// the result is new memory, or that of the parameter
			for _, p := range splitList(rest) {
				cur.Reuses = append(cur.Reuses, p)
				cur.Modifies[p] = true
			}
		case "maps":
			cur.Maps = map[string]bool{}
			for _, p := range splitList(rest) {
				cur.Maps[p] = true
			}
		case "out":
			c := clause()
			c.Label = "out"
			cur.Out = &c
		case "refuse":
			// refuse cond: error
			i := strings.LastIndex(rest, ":")
			c, err := parser.ParseExpr(rest[:i])
			if err != nil {
				panic(pos + ": " + err.Error())
			}
			e, err := parser.ParseExpr(rest[i+1:])
			if err != nil {
				panic(pos + ": " + err.Error())
			}
			cur.Refuse = []ast.Expr{c, e}
		case "err":
			c := clause()
			c.Label = "err"
			cur.Err = &c
		case "freshres":
			cur.FreshRes = true
		case "inline":
			cur.Inline = true
		case "enum":
			cur.Enum = strings.Fields(rest)
		case "trusted":
			cur.Trusted = true
		case "fuel":
			cur.Fuel, _ = strconv.Atoi(rest)
		case "todo":
			cur.Todo = true
		case "bounded":
			cur.Bounded = rest
		case "inv", "inv_own":
			m := invRe.FindStringSubmatch(rest)
			if m == nil {
				panic(pos + ": bad inv " + rest)
			}
			inv := Inv{Text: rest, Pos: pos, Own: w[0] == "inv_own"}
			for _, p := range strings.Split(m[1], ",") {
				p = strings.TrimSpace(p)
				if p == "" {
					continue
				}
				f := strings.SplitN(p, " ", 2)
				te, err := parser.ParseExpr(strings.TrimSpace(f[1]))
				if err != nil {
					panic(pos + err.Error())
				}
				inv.Params = append(inv.Params, f[0])
				inv.Sorts = append(inv.Sorts, s.sortOf(te))
			}
			e, err := parser.ParseExpr(m[2])
			if err != nil {
				panic(pos + ": " + err.Error() + ": " + m[2])
			}
			inv.Expr = e
			cur.Invs = append(cur.Invs, inv)
		default:
			panic(pos + ": unknown clause " + w[0])
		}
	}
}

// findRec marks the recursive functions.
func (s *Spec) findRec() {
	calls := map[string]map[string]bool{}
	for n, f := range s.Fns {
		calls[n] = map[string]bool{}
		if f.Body == nil {
			continue
		}
		ast.Inspect(f.Body, func(x ast.Node) bool {
			if c, ok := x.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					calls[n][id.Name] = true
				}
			}
			return true
		})
	}
	for n, f := range s.Fns {
		seen := map[string]bool{}
		var dfs func(m string) bool
		dfs = func(m string) bool {
			for c := range calls[m] {
				if c == n {
					return true
				}
				if !seen[c] {
					seen[c] = true
					if dfs(c) {
						return true
					}
				}
			}
			return false
		}
		if f.Body != nil && dfs(n) {
			f.Rec = true
		}
	}
}

// ---- evaluation

type Env struct {
	vars  map[string]*Term
	up    *Env
	extra func(name string, args []ast.Expr, env *Env) *Term // special forms
}

func (e *Env) get(n string) *Term {
	for x := e; x != nil; x = x.up {
		if t, ok := x.vars[n]; ok {
			return t
		}
	}
	return nil
}
func (e *Env) special() func(string, []ast.Expr, *Env) *Term {
	for x := e; x != nil; x = x.up {
		if x.extra != nil {
			return x.extra
		}
	}
	return nil
}

func (s *Spec) Call(name string, args ...*Term) *Term {
	f := s.Fns[name]
	if f == nil {
		panic("spec: unknown function " + name)
	}
	if len(args) != len(f.Params) {
		panic("spec: arity of " + name)
	}
	for i, a := range args {
		if a.Sort != f.PSorts[i] {
			panic(fmt.Sprintf("spec: %s argument %s: sort %s, want %s: %s", name, f.Params[i], a.Sort.Name, f.PSorts[i].Name, a))
		}
	}
	if f.Body == nil || f.Rec {
		t := App(name, f.Result, args...)
		if r := s.override[t]; r != nil {
			return r
		}
		return t
	}
	return s.inst(f, args)
}

func (s *Spec) inst(f *SpecFn, args []*Term) *Term {
	env := &Env{vars: map[string]*Term{}}
	for i, p := range f.Params {
		env.vars[p] = args[i]
	}
	r := s.block(f.Body.List, env, f)
	if r == nil {
		panic("spec: " + f.Name + " has a path without return")
	}
	return r
}

// visible tells whether the function verified looks into f.
func (s *Spec) visible(f *SpecFn) bool {
	return f.For == nil || f.For[s.target] || strings.HasPrefix(s.target, "lemma_")
}

// Unfold returns the definition of the application t of a
// recursive function, or nil.
func (s *Spec) Unfold(t *Term) *Term {
	f := s.Fns[t.Name]
	if f == nil || !f.Rec || f.Body == nil || !s.visible(f) {
		return nil
	}
	if r, ok := f.unfold[t]; ok {
		return r
	}
	r := s.inst(f, t.Args)
	f.unfold[t] = r
	return r
}

func (s *Spec) block(l []ast.Stmt, env *Env, f *SpecFn) *Term {
	if len(l) == 0 {
		return nil
	}
	rest := func(e *Env) *Term { return s.block(l[1:], e, f) }
	switch st := l[0].(type) {
	case *ast.ReturnStmt:
		return s.coerce(s.eval(st.Results[0], env), f.Result)
	case *ast.AssignStmt:
		ne := &Env{vars: map[string]*Term{}, up: env}
		for i, lh := range st.Lhs {
			ne.vars[lh.(*ast.Ident).Name] = s.eval(st.Rhs[i], env)
		}
		return rest(ne)
	case *ast.IfStmt:
		e := env
		if st.Init != nil {
			panic("spec: if init")
		}
		c := s.eval(st.Cond, e)
		var a, b *Term
		if c != False {
			a = s.block(append(append([]ast.Stmt{}, st.Body.List...), l[1:]...), e, f)
		}
		if c != True {
			var el []ast.Stmt
			switch x := st.Else.(type) {
			case *ast.BlockStmt:
				el = x.List
			case *ast.IfStmt:
				el = []ast.Stmt{x}
			}
			b = s.block(append(append([]ast.Stmt{}, el...), l[1:]...), e, f)
		}
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		return Ite(c, a, b)
	case *ast.SwitchStmt:
		var tag *Term
		if st.Tag != nil {
			tag = s.eval(st.Tag, env)
		}
		var def []ast.Stmt
		type arm struct {
			c *Term
			b []ast.Stmt
		}
		var arms []arm
		for _, cs := range st.Body.List {
			cc := cs.(*ast.CaseClause)
			if cc.List == nil {
				def = cc.Body
				continue
			}
			var or []*Term
			for _, e := range cc.List {
				v := s.eval(e, env)
				if tag != nil {
					v = Eq(tag, s.coerce(v, tag.Sort))
				}
				or = append(or, v)
			}
			arms = append(arms, arm{Or(or...), cc.Body})
		}
		r := s.block(append(append([]ast.Stmt{}, def...), l[1:]...), env, f)
		for i := len(arms) - 1; i >= 0; i-- {
			if arms[i].c == False {
				continue
			}
			b := s.block(append(append([]ast.Stmt{}, arms[i].b...), l[1:]...), env, f)
			if r == nil {
				r = b
			} else {
				r = Ite(arms[i].c, b, r)
			}
		}
		return r
	}
	panic(fmt.Sprintf("spec: statement %T in %s", l[0], f.Name))
}

func (s *Spec) coerce(t *Term, so *Sort) *Term {
	if t.Sort != so && t.Op == OEmpty && so.Kind == SSeq {
		return Empty(so)
	}
	if t.Sort != so {
		panic(fmt.Sprintf("spec: sort %s, want %s: %s", t.Sort.Name, so.Name, t))
	}
	return t
}

func (s *Spec) eval(e ast.Expr, env *Env) *Term {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return s.eval(x.X, env)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(x.Value, 0)
			if !ok {
				panic(x.Value)
			}
			return IntB(n)
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				panic(err)
			}
			return IntC(int64(r))
		case token.STRING:
			v, err := strconv.Unquote(x.Value)
			if err != nil {
				panic(err)
			}
			return Str(v)
		case token.FLOAT:
			v, _ := strconv.ParseFloat(x.Value, 64)
			return F64C(v)
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return True
		case "false":
			return False
		case "nil":
			return Zero
		}
		if env != nil {
			if t := env.get(x.Name); t != nil {
				return t
			}
		}
		if t := s.Consts[x.Name]; t != nil {
			return t
		}
		if sp := env.special(); sp != nil {
			if t := sp(x.Name, nil, env); t != nil {
				return t
			}
		}
		if s.goConst != nil {
			if t := s.goConst(x.Name); t != nil {
				return t
			}
		}
		if s.Fns["O_"+x.Name] != nil || s.Fns["EM_"+x.Name] != nil || s.Fns["OPT_"+x.Name] != nil {
			declRange("fn:"+x.Name, bone, nil)
			return mk(Term{Op: OApp, Sort: Int, Name: "fn:" + x.Name})
		}
		panic("spec: unknown name " + x.Name)
	case *ast.UnaryExpr:
		v := s.eval(x.X, env)
		switch x.Op {
		case token.NOT:
			return Not(v)
		case token.SUB:
			return Neg(v)
		}
	case *ast.BinaryExpr:
		a := s.eval(x.X, env)
		switch x.Op {
		case token.LAND:
			if a == False {
				return False
			}
			return And(a, s.eval(x.Y, env))
		case token.LOR:
			if a == True {
				return True
			}
			return Or(a, s.eval(x.Y, env))
		}
		b := s.eval(x.Y, env)
		if a.Sort.Kind == SSeq && b.Sort.Kind == SSeq && a.Sort != b.Sort {
			if a.Op == OEmpty {
				a = Empty(b.Sort)
			} else if b.Op == OEmpty {
				b = Empty(a.Sort)
			}
		}
		if a.Sort == F64 || a.Sort == F32 {
			op := map[token.Token]string{token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq", token.EQL: "fp.eq"}[x.Op]
			if op != "" {
				return FP(op, Bool, a, b)
			}
			if x.Op == token.NEQ {
				return Not(FP("fp.eq", Bool, a, b))
			}
		}
		switch x.Op {
		case token.ADD:
			if a.Sort.Kind == SSeq {
				return Cat(a.Sort, a, b)
			}
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			return Div(a, b)
		case token.REM:
			return Mod(a, b)
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Not(Eq(a, b))
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		case token.AND:
			// bit test with a power of two constant
			if b.isInt() && b.N.Sign() > 0 && new(big.Int).And(b.N, new(big.Int).Sub(b.N, bone)).Sign() == 0 {
				return Mul(Mod(Div(a, b), IntC(2)), b)
			}
		}
	case *ast.IndexExpr:
		a, i := s.eval(x.X, env), s.eval(x.Index, env)
		if a.Sort.Kind == SArr {
			return Read(a, i)
		}
		return Nth(a, i)
	case *ast.SliceExpr:
		a := s.eval(x.X, env)
		lo, hi := Zero, Len(a)
		if x.Low != nil {
			lo = s.eval(x.Low, env)
		}
		if x.High != nil {
			hi = s.eval(x.High, env)
		}
		return Ext(a, lo, Sub(hi, lo))
	case *ast.SelectorExpr:
		return SelN(s.eval(x.X, env), x.Sel.Name)
	case *ast.CompositeLit:
		so := s.sortOf(x.Type)
		if so.Kind == SSeq {
			var us []*Term
			for _, el := range x.Elts {
				us = append(us, Unit(s.eval(el, env)))
			}
			return Cat(so, us...)
		}
		args := make([]*Term, len(so.Fields))
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j, f := range so.Fields {
					if f.Name == kv.Key.(*ast.Ident).Name {
						args[j] = s.coerce(s.eval(kv.Value, env), f.Sort)
					}
				}
			} else {
				args[i] = s.coerce(s.eval(el, env), so.Fields[i].Sort)
			}
		}
		for i, f := range so.Fields {
			if args[i] == nil {
				args[i] = zeroTerm(f.Sort)
			}
		}
		return Mk(so, args...)
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		if !ok {
			break
		}
		if sp := env.special(); sp != nil {
			if t := sp(id.Name, x.Args, env); t != nil {
				return t
			}
		}
		switch id.Name {
		case "ite":
			c := s.eval(x.Args[0], env)
			if c == True {
				return s.eval(x.Args[1], env)
			}
			if c == False {
				return s.eval(x.Args[2], env)
			}
			a, b := s.eval(x.Args[1], env), s.eval(x.Args[2], env)
			if a.Sort.Kind == SSeq && a.Sort != b.Sort {
				if a.Op == OEmpty {
					a = Empty(b.Sort)
				} else if b.Op == OEmpty {
					b = Empty(a.Sort)
				}
			}
			return Ite(c, a, b)
		case "imp":
			a := s.eval(x.Args[0], env)
			if a == False {
				return True
			}
			return Imp(a, s.eval(x.Args[1], env))
		}
		if id.Name == "typ" {
			n, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
			t := s.goType(n)
			if t == nil {
				panic("spec: unknown type " + n)
			}
			return typeConst(t)
		}
		var as []*Term
		for _, a := range x.Args {
			as = append(as, s.eval(a, env))
		}
		switch id.Name {
		case "len":
			return Len(as[0])
		case "O":
			return mkO(as[0], as[1], as[2])
		case "E":
			return mkE(as[0], as[1], as[2])
		case "EM":
			return mkEM(as[0], as[1])
		case "OPT":
			return mkOPT(as[0], as[1])
		case "kind", "elem", "ptrTo":
			return App(id.Name, Int, as[0])
		case "implements":
			return App(id.Name, Bool, as[0], as[1])
		case "iface":
			return App(id.Name, Int, as[0], as[1])
		case "itype":
			return App("i.rt", Int, as[0])
		case "iword":
			return App("i.word", Int, as[0])
		case "cell":
			return App("cell", Int, as[0])
		case "strlt":
			return App("strlt", Bool, as[0], as[1])
		case "tdiv":
			return Tdiv(as[0], as[1])
		case "mem":
			return App("mem", Bytes, as[0], as[1])
		case "mhas":
			return mhas(as[0], as[1])
		case "ld_ptr", "ld_int", "ld_int8", "ld_int16", "ld_int32", "ld_int64", "ld_uint", "ld_uint8", "ld_uint16", "ld_uint32", "ld_uint64", "ld_uintptr", "itabtype":
			return App(id.Name, Int, as[0])
		case "ld_bool":
			return App(id.Name, Bool, as[0])
		case "ld_float32":
			return App(id.Name, F32, as[0])
		case "ld_float64":
			return App(id.Name, F64, as[0])
		case "ld_time":
			return App("ld_time.Time", Int, as[0])
		case "unit":
			return Unit(as[0])
		case "upd":
			return Upd(as[0], as[1], as[2])
		case "set":
			return Write(as[0], as[1], as[2])
		case "flag":
			// flag(flags, f): whether a flag is set
			return Not(Eq(Mod(Div(as[0], as[1]), IntC(2)), Zero))
		case "bit":
			// bit(flags, k): whether the bit k is set
			k := new(big.Int).Lsh(bone, uint(as[1].i64()))
			return Not(Eq(Mod(Div(as[0], IntB(k)), IntC(2)), Zero))
		case "fpabs":
			return FP("fp.abs", as[0].Sort, as[0])
		case "isNaN":
			return FP("fp.isNaN", Bool, as[0])
		case "isInf":
			return FP("fp.isInfinite", Bool, as[0])
		case "f64":
			return FP("to64", F64, as[0])
		case "f32":
			return FP("to32", F32, as[0])
		case "prefix":
			// prefix(a, b): a is a prefix of b
			return And(Le(Len(as[0]), Len(as[1])), Eq(Ext(as[1], Zero, Len(as[0])), as[0]))
		case "emptyset":
			return ConstArr(ArrOf(Bytes, Bool), False)
		case "setval":
			// the map that has the keys of a set and no content
			u := s.goSort("struct{}")
			return mapval(as[0], ConstArr(ArrOf(Bytes, u), zeroTerm(u)))
		case "emptyctx":
			return App("iface", Int, App("i.rt", Int, App("ctx:TODO", Int)), App("i.word", Int, App("ctx:TODO", Int)))
		case "wrapint":
			return wrap(NewCtx(), as[0], types.Typ[types.Int])
		case "constmap":
			return ConstArr(ArrOf(Int, as[0].Sort), as[0])
		}
		if f := s.Fns[id.Name]; f != nil {
			for i := range as {
				if i < len(f.PSorts) {
					as[i] = s.coerce(as[i], f.PSorts[i])
				}
			}
			return s.Call(id.Name, as...)
		}
		panic("spec: unknown function " + id.Name)
	}
	panic(fmt.Sprintf("spec: expression %T", e))
}

func zeroTerm(s *Sort) *Term {
	switch s.Kind {
	case SInt:
		return Zero
	case SBool:
		return False
	case SSeq:
		return Empty(s)
	case SF32:
		return FP("c32:00000000", F32)
	case SF64:
		return FP("c64:0000000000000000", F64)
	case SDT:
		args := make([]*Term, len(s.Fields))
		for i, f := range s.Fields {
			args[i] = zeroTerm(f.Sort)
		}
		return Mk(s, args...)
	case SArr:
		return ConstArr(s, zeroTerm(s.Elem))
	}
	panic("zero")
}

func F64C(v float64) *Term { return FP(fmt.Sprintf("c64:%016x", math.Float64bits(v)), F64) }
func F32C(v float32) *Term { return FP(fmt.Sprintf("c32:%08x", math.Float32bits(v)), F32) }
