package main

// Random types, values and options.

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/wI2L/jettison"
)

type G struct {
	*rand.Rand
	bad   int // percentage of types that cannot be encoded
	leafs [][]reflect.Type
	pool  []reflect.Type // types already made
	uniq  int
}

func (g *G) p(n int) bool { return g.Intn(100) < n }

func (g *G) of(l []reflect.Type) reflect.Type { return l[g.Intn(len(l))] }

var allLeafs = [][]reflect.Type{basicTypes, namedBasic, nativeTypes, bytesTypes, structTypes, recTypes, wordTypes, ifaceTypes, stdTypes, marshTypes, marshTypes}

func (g *G) leaf() reflect.Type {
	if g.p(g.bad) {
		return g.of(badTypes)
	}
	l := g.leafs
	if l == nil {
		l = allLeafs
	}
	return g.of(l[g.Intn(len(l))])
}

// typ makes a type.
func (g *G) typ(d int) reflect.Type {
	if d <= 0 || g.p(25) {
		return g.leaf()
	}
	if len(g.pool) > 1200 {
		return g.pool[g.Intn(len(g.pool))]
	}
	var t reflect.Type
	switch g.Intn(8) {
	case 0:
		t = reflect.PointerTo(g.typ(d - 1))
	case 1:
		t = reflect.SliceOf(g.typ(d - 1))
	case 2:
		t = reflect.ArrayOf(g.Intn(4), g.typ(d-1))
	case 3:
		t = reflect.MapOf(g.of(keyTypes), g.typ(d-1))
	case 4:
		t = g.of(ifaceTypes[:2])
	case 5:
		if g.p(50) {
			t = reflect.MapOf(basicTypes[14], g.typ(d-1))
		} else {
			t = reflect.PointerTo(g.leaf())
		}
	default:
		t = g.strct(d)
	}
	g.pool = append(g.pool, t)
	return t
}

var tagNames = []string{"", "a", "b", "B", "x<y>", "é", "a b", "null", "0", "a&b", "-", "\\", `q"`, "'", "a'b", "$%-/", "a,", "世界", "A", "F1", "F2"}

func (g *G) tag() string {
	s := tagNames[g.Intn(len(tagNames))]
	if g.p(50) {
		s = ""
	}
	for _, o := range []string{"omitempty", "omitnil", "string", "other", "omitempt"} {
		if g.p(22) {
			s += "," + o
		}
	}
	if s == "" && g.p(60) {
		return ""
	}
	return `json:"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (g *G) strct(d int) reflect.Type {
	n := g.Intn(6)
	if g.p(15) {
		n = 1
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		g.uniq++
		name := fmt.Sprintf("F%d", i)
		if g.p(20) {
			name = fmt.Sprintf("F%d_%d", i, g.uniq)
		}
		fs = append(fs, reflect.StructField{Name: name, Type: g.typ(d - 1), Tag: reflect.StructTag(g.tag())})
	}
	return reflect.StructOf(fs)
}

// names lists the names of the fields under a type.
func names(t reflect.Type, d int, m map[string]bool) {
	if d > 4 {
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		names(t.Elem(), d+1, m)
	case reflect.Struct:
		for _, f := range fields(t) {
			m[f.name] = true
			names(f.t, d+1, m)
		}
	}
}

// ---- values

var alphabet = []string{"a", "b", "z", " ", "~", "0", "\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "<", ">", "&", "/", "'", "é", "ÿ", "世", "😀", "\u2027", "\u2028", "\u2029", "\u202a", "\ufffd", "\u0800", "\uffff", "\U0010ffff", "\xff", "\xc0", "\xc3", "\xe2", "\xe2\x80", "\xed\xa0\x80", "\xf0\x9f", "\x80", "\xa8", "\xbf", "\xf4\x90\x80\x80", "\xe2\x80\xa8", "null", "e-0", "\\u2028", "A"}

func (g *G) str() string {
	switch g.Intn(8) {
	case 0:
		return ""
	case 1:
		return "k" + fmt.Sprint(g.Intn(20))
	case 2:
		b := make([]byte, g.Intn(6))
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		return string(b)
	case 3:
		return strings.Repeat("x", g.Intn(40)) + alphabet[g.Intn(len(alphabet))] + strings.Repeat("y", g.Intn(9))
	}
	n := g.Intn(9)
	if g.p(2) {
		n = 2000 + g.Intn(4000)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alphabet[g.Intn(len(alphabet))])
	}
	return b.String()
}

func (g *G) int64() int64 {
	switch g.Intn(6) {
	case 0:
		return 0
	case 1:
		return int64(g.Intn(200) - 100)
	case 2:
		return int64(1)<<uint(g.Intn(64)) + int64(g.Intn(3)-1)
	case 3:
		x := int64(1)
		for i := g.Intn(19); i > 0; i-- {
			x *= 10
		}
		x += int64(g.Intn(3) - 1)
		if g.p(50) {
			x = -x
		}
		return x
	case 4:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, math.MinInt8, math.MaxUint8, math.MinInt16, math.MaxUint16, math.MaxUint32, -1}[g.Intn(10)]
	}
	return int64(g.Uint64() >> uint(g.Intn(64)))
}

func (g *G) float() float64 {
	switch g.Intn(8) {
	case 0:
		return float64(g.Intn(2000)-1000) / 8
	case 1:
		f := []float64{0, math.Copysign(0, -1), 1e-6, 1e21, 1e-7, 1e20, 1e-5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-9, 1e-10, 1.5e-9, 1e22, 1e100, 1e-100, 123456789e-15}[g.Intn(18)]
		if f != 0 && g.p(50) {
			f = math.Nextafter(f, []float64{0, math.MaxFloat64}[g.Intn(2)])
		}
		if g.p(40) {
			f = -f
		}
		return f
	case 2:
		f := float64(float32(g.NormFloat64()) * float32(math.Pow(10, float64(g.Intn(60)-30))))
		if math.IsInf(f, 0) {
			f = 1
		}
		return f
	case 3:
		return math.Trunc(g.NormFloat64()*1e6) * math.Pow(10, float64(g.Intn(40)-20))
	case 4:
		if errorsOn {
			return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.Intn(3)]
		}
	case 5:
		return math.Ldexp(1+float64(g.Intn(4))/4, g.Intn(140)-70)
	}
	f := math.Float64frombits(g.Uint64())
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1.5
	}
	return f
}

func (g *G) float32() float64 {
	switch g.Intn(3) {
	case 0:
		f := float64(math.Float32frombits(g.Uint32()))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 1.5
		}
		return f
	case 1:
		f := []float32{1e-6, 1e21, 1e-7, 1e20, 1e-5, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 33554432, 1e-10}[g.Intn(10)]
		if g.p(60) {
			f = math.Nextafter32(f, []float32{0, math.MaxFloat32}[g.Intn(2)])
		}
		if g.p(40) {
			f = -f
		}
		return float64(f)
	}
	f := g.float()
	if math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0) {
		return 2.5
	}
	return float64(float32(f))
}

var numbers = []string{"", "0", "-0", "1", "-1", "10", "1.5", "0.0", "1e5", "1E+5", "-2.50e-07", "123456789012345678901234567890", "0e0", "9.9E9"}
var badNumbers = []string{"01", "-", "+1", "1.", ".5", "1e", "1e+", "0x1", " 1", "1 ", "1.5.5", "--1", "1e5.5", "NaN", "1_0", "null", "١", "1\x00", "00", "-01", "1ee5", "1.e5"}

func (g *G) number() string {
	if errorsOn && g.p(15) {
		return badNumbers[g.Intn(len(badNumbers))]
	}
	return numbers[g.Intn(len(numbers))]
}

func (g *G) dur() time.Duration {
	switch g.Intn(6) {
	case 0:
		return time.Duration(g.Intn(3)-1) * []time.Duration{1, 1000, 1e6, 1e9, 60e9, 3600e9}[g.Intn(6)]
	case 1:
		u := []time.Duration{1, 1e3, 1e6, 1e9, 60e9, 3600e9}[g.Intn(6)]
		return u*time.Duration(1+g.Intn(1000)) + time.Duration(g.Intn(3)-1)
	case 2:
		return time.Duration(g.Intn(100))*time.Hour + time.Duration(g.Intn(60))*time.Minute + time.Duration(g.Intn(60))*time.Second + time.Duration(g.Intn(1000))*[]time.Duration{1, 1000, 1e6}[g.Intn(3)]
	}
	return time.Duration(g.int64())
}

func (g *G) time() time.Time {
	var sec int64
	switch g.Intn(4) {
	case 0: // around a year
		y := []int{0, 1, 4, 100, 400, 1600, 1900, 1970, 2000, 2024, 2100, 9999, g.Intn(10000)}[g.Intn(13)]
		sec = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(g.Intn(5)-2)
	case 1: // around the end of february
		sec = time.Date(g.Intn(10000), 3, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(g.Intn(200001)-100000)
	default:
		sec = g.Int63n(10000*31556952) - 62167219200
	}
	ns := 0
	switch g.Intn(3) {
	case 0:
		ns = g.Intn(1000000000)
	case 1:
		m := 1
		for i := g.Intn(9); i > 0; i-- {
			m *= 10
		}
		ns = m * (1 + g.Intn(9))
	}
	t := time.Unix(sec, int64(ns)).UTC()
	if g.p(50) {
		off := []int{0, 60, -60, 3600, -3600, 19800, -12600, 86340, -86340, 30, -30, 59, 86399, -86399, g.Intn(172799) - 86399}[g.Intn(15)]
		if errorsOn && g.p(5) {
			off = []int{86400, -86400, 90000, -360000, 1 << 20}[g.Intn(5)]
		}
		t = t.In(time.FixedZone("z", off))
	}
	if errorsOn && g.p(3) {
		return t.AddDate(10000+g.Intn(3)*100, 0, 0)
	}
	if errorsOn && g.p(3) {
		return time.Date(-1-g.Intn(300), 12, 31, 23, 59, 59, 0, time.UTC)
	}
	if y := t.Year(); (y < 0 || y > 9999) && !errorsOn {
		return time.Unix(sec, 0).UTC().AddDate(1-y/5000*2, 0, 0)
	}
	return t
}

var spaces = []string{"", "", "", " ", "\n", "\t\r\n "}

func (g *G) sp() string { return spaces[g.Intn(len(spaces))] }

// doc makes a JSON document.
func (g *G) doc(d int) string {
	if d > 0 {
		switch g.Intn(4) {
		case 0:
			s := "[" + g.sp()
			for i := g.Intn(4); i > 0; i-- {
				s += g.doc(d-1) + ","
			}
			return strings.TrimSuffix(s, ",") + g.sp() + "]"
		case 1:
			s := "{" + g.sp()
			for i := g.Intn(4); i > 0; i-- {
				s += g.sp() + g.jstr() + g.sp() + ":" + g.doc(d-1) + ","
			}
			return strings.TrimSuffix(s, ",") + g.sp() + "}"
		}
	}
	s := ""
	switch g.Intn(5) {
	case 0:
		s = []string{"null", "true", "false"}[g.Intn(3)]
	case 1:
		s = numbers[1+g.Intn(len(numbers)-1)]
	default:
		s = g.jstr()
	}
	return g.sp() + s + g.sp()
}

var jpieces = []string{"a", " ", "  ", "<", ">", "&", `\"`, `\\`, `\/`, `\n`, `\u2028`, `\u003c`, "\u2028", "\u2029", "\u2027", "\u202a", "é", "世", "{", "]", ",", ":", "😀", "\xff", "\xe2\x80", "\xe2", "\x80\xa8", "\xe2\x81\xa8", "\xe3\x80\xa8", `\\\"`, "\x7f"}

func (g *G) jstr() string {
	s := `"`
	for i := g.Intn(7); i > 0; i-- {
		s += jpieces[g.Intn(len(jpieces))]
	}
	return s + `"`
}

func (g *G) raw() string {
	s := g.doc(g.Intn(4))
	if errorsOn && g.p(20) {
		b := []byte(s)
		if len(b) > 0 {
			switch g.Intn(4) {
			case 0:
				b = b[:g.Intn(len(b))]
			case 1:
				b[g.Intn(len(b))] = byte(g.Intn(128))
			case 2:
				i := g.Intn(len(b))
				b = append(b[:i:i], append([]byte{"\",:{}[] \\\x00<"[g.Intn(11)]}, b[i:]...)...)
			case 3:
				b = append(b, b...)
			}
		}
		return string(b)
	}
	return s
}

var implCache = map[reflect.Type][]reflect.Type{}

// impls lists types that implement an interface.
func impls(it reflect.Type) []reflect.Type {
	if l, ok := implCache[it]; ok {
		return l
	}
	var l []reflect.Type
	for _, ts := range append([][]reflect.Type{types((*Impl1)(nil), (*Impl2)(nil), (*Impl3)(nil), (*impl4)(nil), (*EmbText)(nil))}, allLeafs[:len(allLeafs)-1]...) {
		for _, t := range ts {
			if t.Kind() == reflect.Interface {
				continue
			}
			for _, t := range []reflect.Type{t, reflect.PointerTo(t)} {
				if t.Implements(it) {
					l = append(l, t)
				}
			}
		}
	}
	implCache[it] = l
	return l
}

// val makes a value of type t.
func (g *G) val(t reflect.Type, d int) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, d)
	return v
}

func (g *G) fill(v reflect.Value, d int) {
	t := v.Type()
	switch t {
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tDur:
		v.SetInt(int64(g.dur()))
		return
	case tNum:
		v.SetString(g.number())
		return
	case tRaw:
		if !g.p(15) {
			v.SetBytes([]byte(g.raw()))
		}
		return
	case tSync:
		g.syncMap(v.Addr().Interface().(*sync.Map), d)
		return
	case typeBigFloat, typeURL:
		return
	}
	switch k := t.Kind(); k {
	case reflect.Bool:
		v.SetBool(g.p(50))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int64() << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.int64()) << uint(64-t.Bits()) >> uint(64-t.Bits()))
	case reflect.Float32:
		v.SetFloat(g.float32())
	case reflect.Float64:
		v.SetFloat(g.float())
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(1)
	case reflect.Ptr:
		if d <= 0 || g.p(20) {
			return
		}
		p := reflect.New(t.Elem())
		g.fill(p.Elem(), d-1)
		v.Set(p)
	case reflect.Slice:
		if d <= 0 && !basic(t.Elem().Kind()) || g.p(12) {
			return
		}
		n := g.n(d)
		s := reflect.MakeSlice(t, n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), d-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			g.fill(v.Index(i), d-1)
		}
	case reflect.Map:
		if d <= 0 || g.p(12) {
			return
		}
		n := g.n(d)
		if g.p(3) {
			n += 10 + g.Intn(40)
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			if t.Key().Kind() == reflect.Interface && t.Key().NumMethod() == 0 {
				m.SetMapIndex(reflect.ValueOf(i), g.val(t.Elem(), d-1))
				continue
			}
			m.SetMapIndex(g.val(t.Key(), d), g.val(t.Elem(), d-1))
		}
		v.Set(m)
	case reflect.Chan:
		if g.p(70) {
			v.Set(reflect.MakeChan(t, 0))
		}
	case reflect.Func:
		if g.p(70) {
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil }))
		}
	case reflect.Interface:
		if d <= 0 || g.p(20) {
			return
		}
		var ct reflect.Type
		if t.NumMethod() == 0 {
			ct = g.typ(d - 1)
			if ct.Kind() == reflect.Interface {
				return
			}
		} else {
			l := impls(t)
			if len(l) == 0 {
				return
			}
			ct = l[g.Intn(len(l))]
		}
		x := g.val(ct, d)
		if t.NumMethod() > 0 && x.Kind() == reflect.Ptr && x.IsNil() {
			// the methods of nil pointers held by an
			// interface are called: not our business
			x = reflect.New(ct.Elem())
		}
		if t == tText && !x.Comparable() {
			return
		}
		v.Set(x)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			f := v.Field(i)
			if !sf.IsExported() {
				if !sf.Anonymous {
					continue
				}
				f = reflect.NewAt(sf.Type, unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			g.fill(f, d-1)
			if sf.Anonymous && sf.Type.Kind() == reflect.Ptr && t.Implements(tJSON) && f.IsNil() {
				f.Set(reflect.New(sf.Type.Elem()))
			}
		}
	}
}

func (g *G) n(d int) int {
	if d <= 0 {
		return g.Intn(2)
	}
	return g.Intn(4)
}

func (g *G) syncMap(m *sync.Map, d int) {
	for i := g.n(d); i > 0; i-- {
		var k interface{}
		if errorsOn && g.p(6) {
			k = []interface{}{nil, 1.5, true, [1]int{1}, struct{}{}, new(int)}[g.Intn(6)]
		} else {
			kv := g.val(g.of(keyTypes), 1)
			if kv.Kind() == reflect.Interface && kv.IsNil() {
				continue
			}
			k = kv.Interface()
		}
		var x interface{}
		if !g.p(15) && d > 0 {
			x = g.val(g.typ(d-1), d-1).Interface()
		}
		m.Store(k, x)
	}
}

// ---- options

var layouts = []string{time.RFC3339, time.RFC3339Nano, time.Kitchen, time.RFC1123Z, "2006", "Jan _2 15:04:05.000", time.RFC822}

// opts makes options, and the list that sets them.
func (g *G) opts(t reflect.Type, p int) (O, []jettison.Option) {
	o := defO()
	var l []jettison.Option
	add := func(x jettison.Option) { l = append(l, x) }
	flag := func(b *bool, x func() jettison.Option) {
		if g.p(p) {
			*b = true
			add(x())
			if g.p(10) {
				add(x())
			}
		}
	}
	flag(&o.Unix, jettison.UnixTime)
	flag(&o.Unsorted, jettison.UnsortedMap)
	flag(&o.RawBytes, jettison.RawByteSlice)
	flag(&o.BAStr, jettison.ByteArrayAsString)
	flag(&o.NilMap, jettison.NilMapEmpty)
	flag(&o.NilSlice, jettison.NilSliceEmpty)
	flag(&o.NoEsc, jettison.NoStringEscaping)
	flag(&o.NoHTML, jettison.NoHTMLEscaping)
	flag(&o.NoUTF8, jettison.NoUTF8Coercion)
	flag(&o.NoComp, jettison.NoCompact)
	flag(&o.NoNum, jettison.NoNumberValidation)
	g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	// the options with a value: the last one wins
	ins := func(x jettison.Option) {
		i := g.Intn(len(l) + 1)
		l = append(l[:i:i], append([]jettison.Option{x}, l[i:]...)...)
	}
	if g.p(p) {
		if g.p(20) {
			add(jettison.TimeLayout("2006-01"))
		}
		o.Layout = layouts[g.Intn(len(layouts))]
		add(jettison.TimeLayout(o.Layout))
	}
	if g.p(p) {
		if g.p(20) {
			add(jettison.DurationFormat(jettison.DurationFmt(99)))
		}
		o.Dfmt = jettison.DurationFmt(g.Intn(6))
		add(jettison.DurationFormat(o.Dfmt))
	}
	if g.p(p) {
		if g.p(20) {
			add(jettison.WithContext(nil))
		}
		o.Ctx = context.WithValue(context.Background(), ctxKey{}, fmt.Sprint(g.Intn(100)))
		add(jettison.WithContext(o.Ctx))
	}
	if t != nil && g.p(p) {
		m := map[string]bool{}
		names(t, 0, m)
		var all []string
		for n := range m {
			all = append(all, n)
		}
		sortStrings(all)
		pick := func() ([]string, map[string]bool) {
			var s []string
			r := map[string]bool{}
			k := g.Intn(3)
			for _, n := range all {
				if k == 0 && g.p(30) || k == 1 && g.p(80) {
					s = append(s, n)
					r[n] = true
					if g.p(10) {
						s = append(s, n)
					}
				}
			}
			if g.p(20) {
				s = append(s, "nope", "\u003cx\u003e", "a")
				r["nope"], r["\u003cx\u003e"], r["a"] = true, true, true
			}
			return s, r
		}
		var s []string
		if g.p(60) {
			s, o.Deny = pick()
			add(jettison.DenyList(s))
		}
		if g.p(60) {
			s, o.Allow = pick()
			x := jettison.AllowList(s)
			if g.p(50) {
				ins(x)
			} else {
				add(x)
			}
		}
	}
	if g.p(20) {
		ins(nil)
	}
	return o, l
}

func (o O) String() string {
	b, _ := json.Marshal(struct {
		O
		Ctx interface{}
	}{o, fmt.Sprint(o.Ctx)})
	return string(b)
}
