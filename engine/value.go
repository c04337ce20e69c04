package main

// Symbolic values and the symbolic heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// *Term is the value of the scalar types, strings, addresses
// of the memory of the user, and function values by name.

type Slice struct {
	arr    int // backing array
	off    *Term
	ln, cp *Term
	nilT   *Term
	elem   types.Type
}

type PSel struct {
	field int
	idx   *Term // index when field < 0
}

type Ptr struct {
	obj  int
	path []PSel
	typ  types.Type // type pointed to when it was created
}

type Iface struct {
	rt, word *Term
	val      Value // payload when known
	typ      types.Type
}

type Clo struct {
	fn    *ssa.Function
	binds []Value
	lib   string // bound library or interface method
}

type Struct struct {
	typ types.Type
	f   []Value
}

type Tuple []Value

type MapRef struct{ obj int }

type Obj struct {
	id   int
	name string
	typ  types.Type // of the cell, or of the elements of an array
	arr  bool
	val  Value // cells: the content; arrays: *Term sequence
	n    *Term // capacity of an array when known
	// ownership of backing arrays
	shared   string // not nil-string: may not be written, and why
	pinned   *Term  // elements below are not to be written
	released string // given back to a pool
	parent   int    // may share the memory of this array
	attach   *Term  // up to this index
	kids     []int
	clobber  *Term // content from this index on is unknown
	// ghost state of map iterators
	gm, gpos *Term
	// maps
	pres, mval *Term
	published  bool
	snap       map[int]*Obj // snapshot of cells (wait groups)
	fresh      bool
	mname      string // name of the type of a map
	from       int    // the array of the caller that the function may reuse and that this one may be
	caller     bool   // memory of the caller
	stale      string // elements hold memory that was given back
	wgCount    int
	racy       string // not nil-string: may not be accessed, and why
	ver        int    // number of writes to the cell
	pubs       []*Clo // functions in a cache that wait (wait groups)
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- integer types

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 && b.Kind() != types.UnsafePointer {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			return bzero, nil, true
		}
		return nil, nil, false
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr, types.UnsafePointer:
		signed = false
	}
	if signed {
		h := new(big.Int).Lsh(bone, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bone), true
	}
	return bzero, new(big.Int).Sub(new(big.Int).Lsh(bone, uint(bits)), bone), true
}

// wrap reduces t to the range of the integer type.
func wrap(c *Ctx, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok || hi == nil {
		return t
	}
	if r := c.Range(t); r.lo != nil && r.hi != nil && r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bone)
	// ((t - lo) mod size) + lo
	return c.Simp(Add(Mod(Sub(t, IntB(lo)), IntB(size)), IntB(lo)))
}

// ---- type constants

var typeConsts = map[string]types.Type{}

func typeConst(t types.Type) *Term {
	n := "T:" + typeName(t)
	if _, ok := typeConsts[n]; !ok {
		typeConsts[n] = t
		declRange(n, bone, nil)
	}
	return mk(Term{Op: OApp, Sort: Int, Name: n})
}

// kinds of reflect
func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func isConstType(t *Term) bool {
	return t.Op == OApp && len(t.Args) == 0 && strings.HasPrefix(t.Name, "T:")
}

// rewriteApp holds the rewriting rules of the functions
// known to the verifier.
func rewriteApp(name string, s *Sort, args []*Term) *Term {
	switch name {
	case "O", "E", "EM", "OPT":
		f := args[0]
		if f.Op == OIte {
			return mkSym(name, s, f, args[1:]...)
		}
		if f.Op == OApp && symSpec != nil {
			n := strings.TrimPrefix(f.Name, "fn:")
			if symSpec.Fns[name+"_"+n] != nil || name == "E" && symSpec.Fns["O_"+n] != nil {
				return mkSym(name, s, f, args[1:]...)
			}
		}
	case "ld_ptr":
		if a := args[0]; a.Op == OApp && a.Name == "cell" {
			return a.Args[0]
		}
	case "i.rt":
		if args[0].isC(0) {
			return Zero
		}
		if args[0].Op == OApp && args[0].Name == "iface" {
			return args[0].Args[0]
		}
	case "i.word":
		if args[0].isC(0) {
			return Zero
		}
		if args[0].Op == OApp && args[0].Name == "iface" {
			return args[0].Args[1]
		}
	case "iface":
		if args[0].isC(0) {
			return Zero
		}
		if a, b := args[0], args[1]; a.Op == OApp && a.Name == "i.rt" && b.Op == OApp && b.Name == "i.word" && a.Args[0] == b.Args[0] {
			return a.Args[0]
		}
	case "itabtype":
		if args[0].isC(0) {
			return Zero
		}
	case "kind":
		a := args[0]
		if a.Op == OApp && a.Name == "ptrTo" {
			return IntC(22)
		}
		if isConstType(a) {
			return IntC(kindOf(typeConsts[a.Name]))
		}
	case "elem":
		a := args[0]
		if a.Op == OApp && a.Name == "ptrTo" {
			return a.Args[0]
		}
		if isConstType(a) {
			switch u := typeConsts[a.Name].Underlying().(type) {
			case *types.Pointer:
				return typeConst(u.Elem())
			case *types.Slice:
				return typeConst(u.Elem())
			case *types.Array:
				return typeConst(u.Elem())
			case *types.Map:
				return typeConst(u.Elem())
			}
		}
	case "ptrTo":
		if isConstType(args[0]) {
			return typeConst(types.NewPointer(typeConsts[args[0].Name]))
		}
	case "implements":
		if isConstType(args[0]) && isConstType(args[1]) {
			if it, ok := typeConsts[args[1].Name].Underlying().(*types.Interface); ok {
				return BoolC(types.Implements(typeConsts[args[0].Name], it))
			}
		}
	case "mem":
		if args[1].isC(0) {
			return Empty(Bytes)
		}
	case "divt", "tdiv":
		if args[0].isInt() && args[1].isInt() && args[1].N.Sign() != 0 {
			return IntB(new(big.Int).Quo(args[0].N, args[1].N))
		}
	}
	if strings.HasPrefix(name, "unbox:") {
		if a := args[0]; a.Op == OApp && a.Name == "box:"+name[6:] {
			return a.Args[0]
		}
	}
	return nil
}

// eqApps decides the equality of some distinct constructors.
func eqApps(a, b *Term) *Term {
	if a.Op == OApp && b.Op == OApp {
		ca, cb := ctorClass(a.Name), ctorClass(b.Name)
		if ca != "" && ca == cb && a.Name != b.Name {
			return False
		}
		if a.Name == "iface" && b.Name == "iface" {
			if r := Eq(a.Args[0], b.Args[0]); r == False {
				return False
			}
		}
	}
	return nil
}

func ctorClass(n string) string {
	for _, p := range []string{"T:", "fn:"} {
		if strings.HasPrefix(n, p) {
			return p
		}
	}
	return ""
}

func init() {
	declRange("ld_ptr", bzero, nil)
	declRange("i.rt", bzero, nil)
	declRange("itabtype", bzero, nil)
	declRange("iface", bzero, nil)
	declRange("cell", bone, nil)
	declRange("kind", bone, big.NewInt(26))
	declRange("elem", bone, nil)
	declRange("ptrTo", bone, nil)
	declRange("mapkey", bone, nil)
}
