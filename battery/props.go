package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

const everything = "P08 P10 P12 P14 P15 P16 P18 P19 P20 P21 P22 P23"

var generators = []generator{
	{"strings", "P01 P18 P22 P23", false, genStrings},
	{"strings-enum", "P01", true, enumStrings},
	{"ints", "P02 P15", false, genInts},
	{"ints-enum", "P02", true, enumInts},
	{"floats", "P03 P18 P21 P22 P23", false, genFloats},
	{"numbers", "P04 P23 P21", false, genNumbers},
	{"numbers-enum", "P04", true, enumNumbers},
	{"times", "P05 P22 P23 P21", false, genTimes},
	{"days", "P05", true, enumDays},
	{"durations", "P06 P22", false, genDurations},
	{"json", "P07 P18 P21 P22 P23", false, genJSON},
	{"json-enum", "P07", true, enumJSON},
	{"containers", "P08 P15 P20 P21 P22", false, genContainers},
	{"bytes", "P09 P18 P22 P23", false, genBytes},
	{"maps", "P10 P16 P18 P19 P21 P22 P23", false, genMaps},
	{"syncmaps", "P11 P18 P19 P21 P22 P23", false, genSyncMaps},
	{"structs", "P12 P15 P16 P18 P21 P22 P23", false, genStructs},
	{"struct-corpus", "P12 P13 P15 P17 P19 P20 P21 P22 P23", false, genCorpus},
	{"selection", "P12 P13 P20 P22 P23", true, enumSelection},
	{"selection-filters", "P13 P17", false, genSelectionFilters},
	{"marshalers", "P14 P15 P18 P19 P20 P21 P22 P23", false, genMarshalers},
	{"words", "P08 P14 P20 P22", false, genWords},
	{"unsupported", "P15 P21 P10", false, genUnsupported},
	{"options", "P16", false, genOptions},
	{"option-effects", "P16 P21", true, enumOptions},
	{"filters", "P16 P17", false, genFilters},
	{"fresh-types", "P20 P12 P08 P22", false, genFresh},
	{"roles", "P20 P14 P15", false, genRoles},
	{"histories", "P19 P20 P18 P10 P11", false, genHistories},
	{"concurrent", "P24", false, genConcurrent},
	{"any", everything, false, genAny},
	{"any-errors", everything, false, genAnyErrors},
}

// position wraps a type.
func (g *G) position(t reflect.Type) reflect.Type {
	for i := g.Intn(3); i >= 0; i-- {
		switch g.Intn(10) {
		case 0:
			t = reflect.PointerTo(t)
		case 1:
			t = reflect.SliceOf(t)
		case 2:
			t = reflect.ArrayOf(1+g.Intn(3), t)
		case 3:
			t = reflect.MapOf(basicTypes[14], t)
		case 4:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: t, Tag: `json:"b,omitempty"`}})
		case 5:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `json:",string"`}})
		case 6:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PointerTo(t), Tag: `json:",string"`}, {Name: "B", Type: reflect.TypeOf(0)}})
		case 7:
			if keyable(t) && t.Comparable() {
				t = reflect.MapOf(t, t)
			}
		}
	}
	return t
}

// leafRun runs values of a type in some position.
func (h *H) leafRun(l []reflect.Type, p int) {
	v := h.val(h.position(h.of(l)), 5)
	h.runv(v, p)
}

// ---- strings

var stringTypes = types((*string)(nil), (*NString)(nil), (*MStringNNNV)(nil), (*MStringNNNP)(nil), (*[]byte)(nil), (*[7]byte)(nil), (*MBytesNNNV)(nil))

func genStrings(h *H) {
	h.leafRun(stringTypes, 30)
	// decoding gives back the string
	s := h.str()
	b, err := jettison.Marshal(s)
	h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Part: h.part, Iter: h.iter, Type: "string", Value: strconv.Quote(s)}
	var d string
	if err != nil || json.Unmarshal(b, &d) != nil || d != toValid(s) {
		h.fail("the string is not decoded", s, d)
	}
}

func enumStrings(h *H) {
	combos := func(s string) {
		for m := 0; m < 8; m++ {
			o := defO()
			var l []jettison.Option
			if m&1 != 0 {
				o.NoEsc = true
				l = append(l, jettison.NoStringEscaping())
			}
			if m&2 != 0 {
				o.NoHTML = true
				l = append(l, jettison.NoHTMLEscaping())
			}
			if m&4 != 0 {
				o.NoUTF8 = true
				l = append(l, jettison.NoUTF8Coercion())
			}
			b, err := jettison.MarshalOpts(s, l...)
			h.rep.Evals++
			if want := quote(s, &o); err != nil || string(b) != want {
				h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: "string", Value: strconv.Quote(s), Options: o.String()}
				h.fail("Marshal", want, string(b))
			}
		}
	}
	inter := []byte{0, 0x1f, ' ', '"', '&', '<', '>', '\\', 'a', 0x7f, 0x80, 0x8f, 0x9f, 0xa0, 0xa7, 0xa8, 0xa9, 0xaa, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xe2, 0xe3, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff}
	for i := h.part; i < 256; i += h.parts {
		combos(string([]byte{byte(i)}))
		combos(string([]byte{'x', byte(i), 'y'}))
		for j := 0; j < 256; j++ {
			combos(string([]byte{byte(i), byte(j)}))
		}
		if bytes.IndexByte(inter, byte(i)) >= 0 {
			for _, j := range inter {
				for _, k := range inter {
					combos(string([]byte{byte(i), j, k}))
					if h.thorough || i == 0xe2 || i == 0xf0 {
						for _, l := range inter {
							combos(string([]byte{byte(i), j, k, l}))
						}
					}
				}
			}
		}
	}
}

// ---- numbers

var intTypes = append(append([]reflect.Type{}, basicTypes[1:12]...), types((*NInt)(nil), (*NInt8)(nil), (*NUint8)(nil), (*NUint64)(nil), (*NUintptr)(nil))...)

func genInts(h *H) { h.leafRun(intTypes, 5) }

func enumInts(h *H) {
	for i := -70000 + h.part; i < 70000; i += h.parts {
		for _, t := range []reflect.Type{intTypes[0], intTypes[2], intTypes[6], intTypes[8], intTypes[1], intTypes[6], intTypes[7], intTypes[10]} {
			v := reflect.New(t).Elem()
			if v.CanInt() {
				v.SetInt(int64(i) << uint(64-t.Bits()) >> uint(64-t.Bits()))
			} else {
				v.SetUint(uint64(i) << uint(64-t.Bits()) >> uint(64-t.Bits()))
			}
			x := v.Interface()
			b, err := jettison.Marshal(x)
			h.rep.Evals++
			if want := fmt.Sprint(x); err != nil || string(b) != want {
				h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: t.String(), Value: want}
				h.fail("Marshal", want, string(b))
			}
		}
	}
}

var floatTypes = types((*float32)(nil), (*float64)(nil), (*NFloat32)(nil), (*NFloat64)(nil))

func genFloats(h *H) {
	errorsOn = h.p(10)
	h.leafRun(floatTypes, 5)
}

var numberTypes = types((*json.Number)(nil), (**json.Number)(nil), (*[]json.Number)(nil))

func (h *H) runNumber(s string) {
	o := defO()
	var l []jettison.Option
	if h.p(20) {
		o.NoNum = true
		l = append(l, jettison.NoNumberValidation())
	}
	h.run(json.Number(s), o, l)
	h.run(struct {
		A json.Number  `json:",string"`
		B *json.Number `json:",string,omitempty"`
	}{json.Number(s), nil}, o, l)
}

func genNumbers(h *H) {
	errorsOn = h.p(50)
	h.leafRun(numberTypes, 15)
	const alpha = "0011234567899-+..eE x/:"
	b := make([]byte, h.Intn(12))
	for i := range b {
		b[i] = alpha[h.Intn(len(alpha))]
	}
	if h.p(60) {
		s := numbers[1+h.Intn(len(numbers)-1)]
		switch h.Intn(4) {
		case 0:
			i := h.Intn(len(s))
			s = s[:i] + string(alpha[h.Intn(len(alpha))]) + s[i:]
		case 1:
			i := h.Intn(len(s))
			s = s[:i] + s[i+1:]
		case 2:
			s = s + s
		case 3:
			i := h.Intn(len(s))
			s = s[:i] + string(rune(h.Intn(0x100))) + s[i+1:]
		}
		b = []byte(s)
	}
	h.runNumber(string(b))
}

func enumNumbers(h *H) {
	const alpha = "019-+.eE x"
	var rec func(b []byte, n int)
	rec = func(b []byte, n int) {
		s := string(b)
		got, err := jettison.Marshal(json.Number(s))
		h.rep.Evals++
		want := s
		ok := numberRE.MatchString(s)
		if s == "" {
			want, ok = "0", true
		}
		if ok != (err == nil) || ok && string(got) != want {
			h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: "json.Number", Value: strconv.Quote(s)}
			h.fail("Marshal", fmt.Sprint(want, ok), fmt.Sprint(string(got), err))
		}
		if n == 0 {
			return
		}
		for i := range alpha {
			rec(append(b, alpha[i]), n-1)
		}
	}
	n := 5
	if h.thorough {
		n = 6
	}
	for i := h.part; i < len(alpha); i += h.parts {
		rec([]byte{alpha[i]}, n-1)
	}
	rec(nil, 0)
	for c := h.part; c < 256; c += h.parts {
		for _, f := range []string{"%c", "1%c", "%c1", "-%c", "1.%c", "1.5%c", "1e%c", "1e5%c", "0%c", "10%c2"} {
			rec([]byte(strings.Replace(f, "%c", string([]byte{byte(c)}), 1)), 0)
		}
	}
}

// ---- times

var timeTypes = types((*time.Time)(nil), (**time.Time)(nil), (*[]time.Time)(nil), (*struct {
	A time.Time
	B *time.Time `json:",omitempty"`
})(nil), (*map[time.Time]time.Time)(nil))

func genTimes(h *H) {
	errorsOn = h.p(30)
	h.leafRun(timeTypes, 25)
	t := h.time()
	o := defO()
	var l []jettison.Option
	if h.p(50) {
		o.Layout = time.RFC3339
		l = append(l, jettison.TimeLayout(time.RFC3339))
	}
	h.run(t, o, l)
	h.run(&t, o, l)
}

// enumDays encodes a time of every day.
func enumDays(h *H) {
	zones := []*time.Location{time.UTC}
	for _, off := range []int{3600, -3600, 5*3600 + 1800, -(9*3600 + 1800), 23*3600 + 59*60, -(23*3600 + 59*60), 59, -59, 61} {
		zones = append(zones, time.FixedZone("", off))
	}
	d0 := time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC).Unix() / 86400
	d1 := time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC).Unix() / 86400
	var buf, want []byte
	n := 0
	for d := d0 + 1 + int64(h.part); d < d1-1; d += int64(h.parts) {
		n++
		s := d*86400 + int64(n*7919%86400)
		ns := 0
		switch n % 4 {
		case 1:
			ns = n * 7907 % 1000000000
		case 2:
			ns = (n % 1000) * 1000000
		}
		t := time.Unix(s, int64(ns)).In(zones[n%len(zones)])
		var err error
		buf, err = jettison.Append(buf[:0], t)
		want = append(t.AppendFormat(append(want[:0], '"'), time.RFC3339Nano), '"')
		h.rep.Evals++
		if err != nil || !bytes.Equal(buf, want) {
			h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: "time.Time", Value: t.String()}
			h.fail("Append", string(want), fmt.Sprint(string(buf), err))
		}
	}
	h.rep.Distinct += n
	for i := h.part; i < 1000000000; i += 997 * h.parts {
		if !h.thorough && i%5 != 0 {
			continue
		}
		t := time.Unix(int64(i), int64(i)).UTC()
		buf, _ = jettison.Append(buf[:0], t)
		want = append(t.AppendFormat(append(want[:0], '"'), time.RFC3339Nano), '"')
		h.rep.Evals++
		if !bytes.Equal(buf, want) {
			h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: "time.Time", Value: t.String()}
			h.fail("Append", string(want), string(buf))
		}
	}
}

var durTypes = types((*time.Duration)(nil), (**time.Duration)(nil), (*[]time.Duration)(nil), (*map[time.Duration]time.Duration)(nil))

func genDurations(h *H) {
	h.leafRun(durTypes, 50)
	for i := 0; i < 20; i++ {
		d := h.dur()
		for f := jettison.DurationFmt(0); f < 6; f++ {
			o := defO()
			o.Dfmt = f
			h.run(d, o, []jettison.Option{jettison.DurationFormat(f)})
		}
	}
}

// ---- embedded JSON

type jsonV string

func (j jsonV) MarshalJSON() ([]byte, error) { return []byte(j), nil }

type jsonP struct{ s []byte }

func (j *jsonP) MarshalJSON() ([]byte, error) { return j.s, nil }

func (h *H) runJSON(s string, p int) {
	o, l := h.opts(nil, p)
	h.run(json.RawMessage(s), o, l)
	h.run(jsonV(s), o, l)
	h.run(&struct {
		A json.RawMessage
		B jsonP
		C interface{}
	}{json.RawMessage(s), jsonP{[]byte(s)}, &jsonP{[]byte(s)}}, o, l)
}

func genJSON(h *H) {
	errorsOn = h.p(30)
	h.runJSON(h.raw(), 25)
	h.leafRun(types((*json.RawMessage)(nil), (**json.RawMessage)(nil), (*MStructSNNVN)(nil)), 20)
}

// enumJSON tries all the short sequences of pieces in a string, and
// between the tokens.
func enumJSON(h *H) {
	pieces := []string{" ", "<", `\"`, `\\`, `\`, "\u2028", "\xe2", "\x80", "\xa8", "a", "\t", "&", `"`, "\n", ">", "\r", "\xa9", "\xe2\x80", "[", "]", ","}
	n := 3
	if h.thorough {
		n = 4
	}
	check := func(s string) {
		for m := 0; m < 3; m++ {
			o := defO()
			var l []jettison.Option
			switch m {
			case 1:
				o.NoHTML = true
				l = append(l, jettison.NoHTMLEscaping())
			case 2:
				o.NoComp = true
				l = append(l, jettison.NoCompact())
			}
			got, err := jettison.MarshalOpts(json.RawMessage(s), l...)
			got2, err2 := jettison.MarshalOpts(jsonV(s), l...)
			h.rep.Evals++
			want, ok := compact([]byte(s), &o)
			if ok != (err == nil) || ok != (err2 == nil) || ok && (string(got) != want || string(got2) != want) {
				h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Type: "json.RawMessage or json.Marshaler", Value: strconv.Quote(s), Options: o.String()}
				h.fail("MarshalOpts", fmt.Sprintf("%q %v", want, ok), fmt.Sprintf("%q %v %q %v", got, err, got2, err2))
			}
		}
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		check(`["a` + s + `" , 1]`)
		check(`[` + s + `1]`)
		check(s)
		if n == 0 {
			return
		}
		for _, p := range pieces {
			rec(s+p, n-1)
		}
	}
	for i := h.part; i < len(pieces); i += h.parts {
		rec(pieces[i], n-1)
	}
}

// ---- containers

func genContainers(h *H) {
	h.leafs = [][]reflect.Type{basicTypes, namedBasic, recTypes, types((*struct{})(nil), (*[0]int)(nil), (*[0]struct{})(nil), (*[]struct{})(nil), (*[2][0]int)(nil), (*[3]struct{})(nil), (*[2]bool)(nil), (*interface{})(nil), (*Meth)(nil), (*struct {
		A int8
		B int64
		C bool
	})(nil), (*MIntNNPN)(nil))}
	errorsOn = h.p(15)
	t := h.typ(3)
	switch h.Intn(5) {
	case 0:
		t = reflect.ArrayOf(h.Intn(5), t)
	case 1:
		t = reflect.PointerTo(t)
	case 2:
		t = reflect.SliceOf(t)
	}
	for i := 0; i < 3; i++ {
		h.runv(h.val(t, 4), 8)
	}
	if h.p(3) {
		n := 100 + h.Intn(3000)
		s := make([]int16, n)
		for i := range s {
			s[i] = int16(i * 31)
		}
		h.run(s, defO(), nil)
		h.run(struct{ A [300]int8 }{}, defO(), nil)
	}
}

func genBytes(h *H) {
	h.leafRun(bytesTypes, 35)
	// lengths and capacities around the limits
	n := h.Intn(70)
	b := make([]byte, n, n+h.Intn(9))
	h.Read(b)
	o, l := h.opts(nil, 20)
	h.run(b, o, l)
	h.run(&b, o, l)
	h.run([]interface{}{b, NBytes(b), [4]byte{1, '<', 0xff, '"'}, &[2]byte{}, struct{ A [3]NUint8 }{}}, o, l)
	enc := base64.StdEncoding.EncodeToString(b)
	dst := make([]byte, 3, 3+h.Intn(len(enc)+5))
	r, err := jettison.Append(dst, b)
	if err != nil || string(r[3:]) != `"`+enc+`"` {
		h.fail("Append", enc, string(r))
	}
	if h.p(3) {
		b := make([]byte, 3000+h.Intn(6000))
		h.Read(b)
		h.run(b, o, l)
	}
}

// ---- maps

func (g *G) keyText() interface{} {
	switch g.Intn(6) {
	case 0:
		return MStringNNNV(g.str())
	case 1:
		return new(MIntNNNP)
	case 2:
		return MStructSNNNV{g.str()}
	}
	return g.str()
}

func genMaps(h *H) {
	errorsOn = h.p(20)
	h.leafs = [][]reflect.Type{basicTypes, types((*map[string]map[string]int)(nil), (*map[int]interface{})(nil), (*W1)(nil), (*RecMap)(nil), (*interface{})(nil), (*MMapNNVN)(nil), (*MIntNNVN)(nil), (*MStringNNNV)(nil), (*sync.Map)(nil))}
	kt := h.of(keyTypes)
	if h.p(40) {
		kt = h.of(types((*string)(nil), (*int)(nil), (*NString)(nil), (*MStringNNNV)(nil), (*MStructSNNNV)(nil)))
	}
	t := reflect.MapOf(kt, h.typ(2))
	if h.p(20) {
		t = reflect.MapOf(h.of(keyTypes), t)
	}
	for i := 0; i < 3; i++ {
		h.runv(h.val(t, 4), 12)
	}
	// many keys
	if h.p(10) {
		m := map[string]interface{}{}
		for i := h.Intn(60); i > 0; i-- {
			m[h.str()] = map[string]int{h.str(): i, h.str(): -i, "k": 2}
		}
		o, l := h.opts(nil, 10)
		if len(m) > 5 {
			o.Unsorted = false
			l = without(h, &o)
		}
		h.run(m, o, l)
		h.run(map[string]interface{}{"z": m, "a": m, "m": []interface{}{m}}, o, l)
	}
}

// without lists the options of o, in order.
func without(h *H, o *O) (l []jettison.Option) {
	add := func(b bool, x func() jettison.Option) {
		if b {
			l = append(l, x())
		}
	}
	add(o.Unix, jettison.UnixTime)
	add(o.Unsorted, jettison.UnsortedMap)
	add(o.RawBytes, jettison.RawByteSlice)
	add(o.BAStr, jettison.ByteArrayAsString)
	add(o.NilMap, jettison.NilMapEmpty)
	add(o.NilSlice, jettison.NilSliceEmpty)
	add(o.NoEsc, jettison.NoStringEscaping)
	add(o.NoHTML, jettison.NoHTMLEscaping)
	add(o.NoUTF8, jettison.NoUTF8Coercion)
	add(o.NoComp, jettison.NoCompact)
	add(o.NoNum, jettison.NoNumberValidation)
	l = append(l, jettison.TimeLayout(o.Layout), jettison.DurationFormat(o.Dfmt), jettison.WithContext(o.Ctx))
	return l
}

func genSyncMaps(h *H) {
	errorsOn = h.p(30)
	h.leafs = [][]reflect.Type{basicTypes, types((*map[string]int)(nil), (*sync.Map)(nil), (*interface{})(nil), (*W1)(nil), (*MIntNNVN)(nil), (*[]byte)(nil))}
	var m sync.Map
	h.syncMap(&m, 4)
	o, l := h.opts(nil, 12)
	h.run(&m, o, l)
	h.run(map[string]interface{}{"a": &m, "b": 1}, o, l)
	h.run([]*sync.Map{&m, nil, &m}, o, l)
	s := struct {
		A sync.Map
		B *sync.Map
		C int
	}{B: &m}
	m.Range(func(k, v interface{}) bool { s.A.Store(k, v); return true })
	h.run(&s, o, l)
	// the same entries in a Go map
	if h.p(30) {
		g := map[string]int{}
		var sm sync.Map
		for i := h.Intn(20); i > 0; i-- {
			k := h.str()
			g[k] = i
			sm.Store(k, i)
		}
		a, err1 := jettison.Marshal(g)
		b, err2 := jettison.Marshal(&sm)
		h.rep.Evals++
		if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
			h.fail("a sync.Map and a map with the same entries", string(a), string(b))
		}
	}
}

// ---- structs

func genStructs(h *H) {
	errorsOn = h.p(12)
	h.leafs = [][]reflect.Type{basicTypes, basicTypes, namedBasic, nativeTypes, types((*struct{})(nil), (*[0]int)(nil), (*[]int)(nil), (*map[string]int)(nil), (**int)(nil), (*interface{})(nil), (*Meth)(nil), (**string)(nil), (*MIntNNPN)(nil), (**MStructSNNVN)(nil), (*MMapNNVN)(nil), (**json.Number)(nil), (***int)(nil), (*NPtr)(nil), (*MStringNNVN)(nil))}
	t := h.strct(2)
	for i := 0; i < 4; i++ {
		v := h.val(t, 3)
		// omitted fields everywhere
		for j := 0; j < t.NumField(); j++ {
			if h.p(40) {
				v.Field(j).Set(reflect.Zero(t.Field(j).Type))
			}
		}
		h.runv(v, 6)
	}
}

func genCorpus(h *H) {
	errorsOn = h.p(15)
	plain = h.p(20)
	t := h.of(structTypes)
	v := h.val(t, 3)
	h.runv(v, 8)
	if h.p(50) {
		h.zap(v, 50)
		h.runv(v, 8)
	}
}

// zap zeroes some fields.
func (h *H) zap(v reflect.Value, p int) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).CanSet() && h.p(p) {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
}

// Selected is a value of a generated struct type.
type Selected struct {
	name string
	v    interface{}
}

// enumSelection compares the generated types with encoding/json.
func enumSelection(h *H) {
	for i, c := range selection {
		if i%h.parts != h.part {
			continue
		}
		h.iter = i
		x := reflect.New(reflect.TypeOf(c.v))
		x.Elem().Set(reflect.ValueOf(c.v))
		for j, v := range []interface{}{c.v, x.Interface(), []interface{}{c.v}, reflect.New(reflect.TypeOf(c.v)).Interface()} {
			for k := 0; k < 2; k++ {
				var buf bytes.Buffer
				e := json.NewEncoder(&buf)
				var l []jettison.Option
				if k == 1 {
					e.SetEscapeHTML(false)
					l = append(l, jettison.NoHTMLEscaping())
				}
				h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Iter: i, Type: c.name + " " + clip(fmt.Sprintf("%T", v), 300), Value: clip(fmt.Sprintf("%+v", c.v), 2000)}
				err := e.Encode(v)
				got, gerr := jettison.MarshalOpts(v, l...)
				want := strings.TrimSuffix(buf.String(), "\n")
				h.note(got)
				if (err == nil) != (gerr == nil) || err == nil && string(got) != want {
					h.fail(fmt.Sprint("encoding/json gives another result ", j), want, fmt.Sprint(string(got), gerr))
				}
			}
		}
		h.run(c.v, defO(), nil)
	}
}

func genSelectionFilters(h *H) {
	c := selection[h.Intn(len(selection))]
	v := reflect.New(reflect.TypeOf(c.v)).Elem()
	v.Set(reflect.ValueOf(c.v))
	h.runv(v, 60)
}

// ---- marshalers

func genMarshalers(h *H) {
	errorsOn = h.p(30)
	h.leafs = [][]reflect.Type{marshTypes, marshTypes, marshTypes, stdTypes, types((*json.Marshaler)(nil), (*JSONer)(nil), (*interface{})(nil), (*error)(nil))}
	h.leafRun(marshTypes, 8)
	h.leafRun([]reflect.Type{h.leaf()}, 15)
	h.runv(h.val(h.typ(3), 4), 8)
}

func genWords(h *H) {
	errorsOn = h.p(10)
	h.leafs = [][]reflect.Type{wordTypes}
	h.leafRun(wordTypes, 5)
	h.runv(h.val(h.typ(3), 5), 5)
}

func genUnsupported(h *H) {
	h.bad = 35
	h.leafRun(badTypes, 5)
	h.runv(h.val(h.typ(3), 4), 5)
}

// ---- options

func genOptions(h *H) {
	t := h.typ(3)
	if h.p(40) {
		t = h.of(types((*Natives)(nil), (*Bytes)(nil), (*Tags)(nil), (*OmitNils)(nil)))
	}
	h.runv(h.val(t, 4), 45)
}

// enumOptions checks the invalid options, and that no options are
// the default ones.
func enumOptions(h *H) {
	var nilctx context.Context
	v := struct{ A int }{1}
	bad := []func() jettison.Option{
		func() jettison.Option { return jettison.WithContext(nilctx) },
		func() jettison.Option { return jettison.TimeLayout("") },
		func() jettison.Option { return jettison.DurationFormat(-1) },
		func() jettison.Option { return jettison.DurationFormat(6) },
		func() jettison.Option { return jettison.DurationFormat(1 << 30) },
	}
	good := []jettison.Option{nil, jettison.UnixTime(), jettison.WithContext(context.Background()), jettison.TimeLayout("2006"), jettison.DurationFormat(jettison.DurationMinutes), jettison.UnsortedMap(), jettison.NoCompact(), jettison.AllowList(nil), jettison.DenyList([]string{"A"})}
	h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Part: h.part, Type: "struct{ A int }", Value: "{1}"}
	check := func(name string, l ...jettison.Option) {
		h.rep.Evals++
		h.cur.Options = name
		b, err := jettison.MarshalOpts(v, l...)
		var ie *jettison.InvalidOptionError
		if b != nil || !errors.As(err, &ie) || ie.Err == nil {
			h.fail("an invalid option is accepted", "InvalidOptionError", fmt.Sprint(string(b), err))
		}
		b, err = jettison.AppendOpts([]byte("x"), v, l...)
		if len(b) > 1 || !errors.As(err, &ie) {
			h.fail("an invalid option is accepted by AppendOpts", "InvalidOptionError", fmt.Sprint(string(b), err))
		}
	}
	for i, f := range bad {
		check(fmt.Sprint("invalid ", i), f())
		for j, g := range good {
			if !(i == 0 && j == 2 || i == 1 && j == 3 || i > 1 && j == 4) {
				check(fmt.Sprint("invalid ", i, " then valid ", j), f(), g, nil)
			}
			if j != 2 && j != 3 && j != 4 {
				check(fmt.Sprint("valid ", j, " then invalid ", i), g, f())
			}
		}
		for j, f2 := range bad {
			check(fmt.Sprint("invalid ", i, j), f(), f2())
		}
	}
	// every pair of options, on values that show each effect
	vals := []interface{}{}
	for i := 0; i < 12; i++ {
		vals = append(vals, h.val(reflect.TypeOf(Natives{}), 4).Addr().Interface(), h.val(reflect.TypeOf(Bytes{}), 4).Addr().Interface(), h.val(reflect.TypeOf(Omits{}), 3).Interface())
	}
	vals = append(vals, "<\xff\"\u2028", map[string]interface{}{"b<": nil, "a": map[int]int(nil), "\xff": []int(nil)}, json.RawMessage(" { \"<\" : 1 } "), []byte("<\""), [2]byte{'<', 1}, map[string]int(nil), []int(nil), json.Number("01"), time.Now(), time.Duration(1500*time.Millisecond), &struct{ C MStructSVNNN }{})
	for m := 0; m < 1<<11; m++ {
		if m%h.parts != h.part || !h.thorough && m%3 != 0 && bitsOn(m) > 2 {
			continue
		}
		o := defO()
		for i, b := range []*bool{&o.Unix, &o.Unsorted, &o.RawBytes, &o.BAStr, &o.NilMap, &o.NilSlice, &o.NoEsc, &o.NoHTML, &o.NoUTF8, &o.NoComp, &o.NoNum} {
			*b = m>>uint(i)&1 != 0
		}
		if h.p(30) {
			o.Dfmt = jettison.DurationFmt(h.Intn(6))
			o.Layout = layouts[h.Intn(len(layouts))]
		}
		l := without(h, &o)
		h.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for i := 0; i < 6; i++ {
			h.run(vals[h.Intn(len(vals))], o, l)
		}
	}
}

func bitsOn(m int) (n int) {
	for ; m > 0; m &= m - 1 {
		n++
	}
	return
}

func genFilters(h *H) {
	var t reflect.Type
	switch h.Intn(3) {
	case 0:
		t = h.of(structTypes)
	case 1:
		h.leafs = [][]reflect.Type{basicTypes, structTypes, types((*map[string]int)(nil))}
		t = h.strct(3)
	default:
		h.leafs = [][]reflect.Type{basicTypes, structTypes}
		t = h.typ(3)
	}
	for i := 0; i < 3; i++ {
		h.runv(h.val(t, 4), 60)
	}
}

// ---- histories

// genFresh makes new types at each call.
func genFresh(h *H) {
	if h.iter > 500 {
		return // the types are never forgotten
	}
	h.pool = nil
	h.leafs = [][]reflect.Type{basicTypes, marshTypes, structTypes, wordTypes}
	h.uniq++
	t := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("U%d_%d", h.part, h.uniq), Type: h.leaf(), Tag: `json:"u"`}, {Name: "V", Type: h.typ(2)}})
	ts := []reflect.Type{t, reflect.PointerTo(t), reflect.SliceOf(t), reflect.MapOf(basicTypes[14], t), reflect.ArrayOf(2, t), reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.PointerTo(t)}})}
	h.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	for _, t := range ts {
		v := h.val(t, 4)
		o, l := h.opts(t, 5)
		h.run(v.Interface(), o, l)
		h.run(v.Addr().Interface(), o, l)
	}
}

// genRoles meets static types in several roles, in a random order.
func genRoles(h *H) {
	errorsOn = h.p(10)
	l := append(append(append([]reflect.Type{}, recTypes...), structTypes...), marshTypes...)
	t := h.of(l)
	v := h.val(t, 3)
	w := h.val(t, 3)
	vals := []interface{}{
		v.Interface(), v.Addr().Interface(), []interface{}{v.Interface(), w.Addr().Interface()},
		map[string]interface{}{"a": v.Interface(), "b": w.Addr().Interface()},
		struct{ A, B interface{} }{v.Addr().Interface(), w.Interface()},
	}
	st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.PointerTo(t)}, {Name: "C", Type: reflect.SliceOf(t)}, {Name: "D", Type: reflect.MapOf(basicTypes[14], t)}, {Name: "E", Type: reflect.ArrayOf(1, t)}})).Elem()
	st.Field(0).Set(v)
	st.Field(1).Set(w.Addr())
	st.Field(2).Set(reflect.Append(st.Field(2), v, w))
	m := reflect.MakeMap(st.Field(3).Type())
	m.SetMapIndex(reflect.ValueOf("k"), w)
	st.Field(3).Set(m)
	st.Field(4).Index(0).Set(w)
	vals = append(vals, st.Interface(), st.Addr().Interface(), st.Field(2).Interface(), st.Field(3).Interface(), st.Field(4).Interface(), st.Field(4).Addr().Interface())
	o, opts := h.opts(nil, 3)
	h.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
	for _, x := range vals[:1+h.Intn(len(vals))] {
		h.run(x, o, opts)
	}
}

type past struct {
	v    interface{}
	o    O
	l    []jettison.Option
	b    string
	fail bool
	errs bool
}

// genHistories repeats calls after others, some of which fail.
func genHistories(h *H) {
	h.leafs = [][]reflect.Type{basicTypes, types((*map[string]int)(nil), (*map[string]map[string]interface{})(nil), (*sync.Map)(nil), (*MStructSNNVN)(nil), (*RecMap)(nil), (*[]byte)(nil), (*MStringNNVN)(nil), (*struct {
		A string `json:",string"`
		B map[string]string
	})(nil), (*chan int)(nil))}
	var ps []past
	for i := 0; i < 6; i++ {
		errorsOn = h.p(25)
		v := h.val(h.typ(3), 4)
		if v.Kind() == reflect.Interface {
			continue
		}
		o, l := h.opts(v.Type(), 6)
		o.Unsorted = false
		l = without(h, &o)
		o.Allow, o.Deny = nil, nil
		b, err := jettison.MarshalOpts(v.Interface(), l...)
		ps = append(ps, past{v.Interface(), o, l, string(b), err != nil, errorsOn})
		h.run(v.Interface(), o, l)
	}
	if len(ps) == 0 {
		return
	}
	for i := 0; i < 12; i++ {
		p := ps[h.Intn(len(ps))]
		h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Part: h.part, Iter: h.iter, Type: fmt.Sprintf("%T", p.v), Value: dump(p.v), Options: p.o.String()}
		errorsOn = p.errs
		want := &R{o: &p.o}
		n, _ := want.top(p.v)
		if n != nil && n.hasSet() {
			continue // keys that are equal
		}
		b, err := jettison.MarshalOpts(p.v, p.l...)
		h.rep.Evals++
		if string(b) != p.b || (err != nil) != p.fail {
			h.fail("a second call gives another result", p.b, string(b))
		}
	}
}

func genAny(h *H) {
	t := h.typ(4)
	for i := 0; i < 3; i++ {
		h.runv(h.val(t, 4), 10)
	}
}

func genAnyErrors(h *H) {
	errorsOn = true
	h.bad = 6
	h.runv(h.val(h.typ(4), 4), 10)
}

// toValid replaces each invalid byte.
func toValid(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(r)
		i += n
	}
	return b.String()
}

var _ = math.Pi
