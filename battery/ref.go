package main

// The reference: what the properties say about the encoding of a value,
// written with the reflect package and the standard library only.

import (
	"bytes"
	"context"
	"encoding"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

// O is a set of options.
type O struct {
	Ctx      context.Context
	Layout   string
	Dfmt     jettison.DurationFmt
	Unix     bool
	Unsorted bool
	RawBytes bool
	BAStr    bool
	NilMap   bool
	NilSlice bool
	NoEsc    bool
	NoHTML   bool
	NoUTF8   bool
	NoComp   bool
	NoNum    bool
	Allow    map[string]bool // nil: no list
	Deny     map[string]bool
}

func defO() O {
	return O{Ctx: context.TODO(), Layout: time.RFC3339Nano, Dfmt: jettison.DurationNanoseconds}
}

// N is an expected output: text, a sequence, or a list of parts
// separated by commas in any order.
type N struct {
	b   string
	seq []*N
	set []*N
}

func lit(s string) *N { return &N{b: s} }

func (n *N) hasSet() bool {
	if n.set != nil {
		return true
	}
	for _, k := range n.seq {
		if k.hasSet() {
			return true
		}
	}
	return false
}

func (n *N) text(sb *strings.Builder) {
	sb.WriteString(n.b)
	for _, k := range n.seq {
		k.text(sb)
	}
	for i, k := range n.set {
		if i > 0 {
			sb.WriteByte(',')
		}
		k.text(sb)
	}
}

func (n *N) String() string {
	var sb strings.Builder
	n.text(&sb)
	return sb.String()
}

func (n *N) match(s string, k func(string) bool) bool {
	switch {
	case n.set != nil:
		return matchSet(n.set, make([]bool, len(n.set)), 0, s, k)
	case n.seq != nil:
		return matchSeq(n.seq, s, k)
	}
	return strings.HasPrefix(s, n.b) && k(s[len(n.b):])
}

func matchSeq(l []*N, s string, k func(string) bool) bool {
	if len(l) == 0 {
		return k(s)
	}
	return l[0].match(s, func(r string) bool { return matchSeq(l[1:], r, k) })
}

func matchSet(l []*N, used []bool, done int, s string, k func(string) bool) bool {
	if done == len(l) {
		return k(s)
	}
	if done > 0 {
		if !strings.HasPrefix(s, ",") {
			return false
		}
		s = s[1:]
	}
	for i := range l {
		if used[i] {
			continue
		}
		used[i] = true
		if l[i].match(s, func(r string) bool { return matchSet(l, used, done+1, r, k) }) {
			return true
		}
		used[i] = false
	}
	return false
}

func (n *N) equal(b []byte) bool {
	if !n.hasSet() {
		return n.String() == string(b)
	}
	return n.match(string(b), func(r string) bool { return r == "" })
}

// errs is the set of errors that may be reported; nil is success.
type errs map[string]bool

func e1(s string) errs { return errs{s: true} }

func typeName(t reflect.Type) string { return fmt.Sprintf("%s@%p", t, t) }

// describe describes an actual error in the same way.
func describe(err error) string {
	switch e := err.(type) {
	case nil:
		return ""
	case *jettison.UnsupportedTypeError:
		return "unsupported type " + typeName(e.Type)
	case *jettison.UnsupportedValueError:
		return "unsupported value " + e.Str
	case *jettison.MarshalerError:
		if errors.Unwrap(err) != e.Err {
			return "a MarshalerError that does not unwrap to its error"
		}
		return "marshaler " + typeName(e.Type) + ": " + describe(e.Err)
	case *jettison.SyntaxError:
		return "syntax"
	case *jettison.InvalidOptionError:
		return "option"
	case *userError:
		return "user " + e.msg
	}
	return "other"
}

type userError struct{ msg string }

func (e *userError) Error() string { return e.msg }

// ---- strings

const hexd = "0123456789abcdef"

func esc(s string, o *O) string {
	if o.NoEsc {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			i++
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\n':
				b.WriteString(`\n`)
			case c == '\r':
				b.WriteString(`\r`)
			case c == '\t':
				b.WriteString(`\t`)
			case c < 0x20 || !o.NoHTML && strings.IndexByte("<>&", c) >= 0:
				fmt.Fprintf(&b, `\u%04x`, c)
			default:
				b.WriteByte(c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			if o.NoUTF8 {
				b.WriteByte(c)
			} else {
				b.WriteString(`\ufffd`)
			}
		case r == 0x2028 || r == 0x2029:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	return b.String()
}

func quote(s string, o *O) string { return `"` + esc(s, o) + `"` }

// ---- embedded JSON

func compact(b []byte, o *O) (string, bool) {
	if o.NoComp {
		return string(b), true
	}
	if !json.Valid(b) {
		return "", false
	}
	var buf bytes.Buffer
	if json.Compact(&buf, b) != nil {
		return "", false
	}
	s := buf.String()
	if !o.NoHTML {
		s = strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`).Replace(s)
	}
	return strings.NewReplacer("\u2028", `\u2028`, "\u2029", `\u2029`).Replace(s), true
}

var numberRE = regexp.MustCompile(`\A-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?\z`)

// ---- types

var (
	tTime   = reflect.TypeOf(time.Time{})
	tDur    = reflect.TypeOf(time.Duration(0))
	tSync   = reflect.TypeOf(sync.Map{})
	tNum    = reflect.TypeOf(json.Number(""))
	tRaw    = reflect.TypeOf(json.RawMessage(nil))
	tJSON   = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tText   = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	tApp    = reflect.TypeOf((*jettison.AppendMarshaler)(nil)).Elem()
	tAppCtx = reflect.TypeOf((*jettison.AppendMarshalerCtx)(nil)).Elem()
)

func native(t reflect.Type) bool {
	return t == tTime || t == tDur || t == tSync || t == tNum || t == tRaw
}

func basic(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Float64 || k == reflect.String
}

func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Uintptr }

// method gives the marshaler of a type: 0 is none, 1 to 4 in order of
// precedence, and whether it needs the address of the value.
func method(t reflect.Type, addr bool) (int, bool) {
	for i, it := range []reflect.Type{tAppCtx, tApp, tJSON, tText} {
		if t.Implements(it) {
			return i + 1, false
		}
		if t.Kind() != reflect.Ptr && addr && reflect.PointerTo(t).Implements(it) {
			return i + 1, true
		}
	}
	return 0, false
}

// R encodes values.
type R struct {
	o   *O
	raw O // the options of the keys to sort
	// classes of what was met
	float bool
}

func (r *R) errf(s string) (*N, errs) { return nil, e1(s) }

func (r *R) top(v interface{}) (*N, errs) {
	if v == nil {
		return lit("null"), nil
	}
	return r.topv(reflect.ValueOf(v))
}

func (r *R) topv(v reflect.Value) (*N, errs) {
	return r.enc(v, v.Type(), v.Kind() == reflect.Ptr, false)
}

func (r *R) num(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		// digit by digit, from the magnitude
		i := v.Int()
		u := uint64(i)
		if i < 0 {
			return "-" + digits(-u)
		}
		return digits(u)
	}
	return digits(v.Uint())
}

func digits(u uint64) string {
	if u == 0 {
		return "0"
	}
	var s string
	for u > 0 {
		q, m := bits.Div64(0, u, 10)
		s = string(rune('0'+m)) + s
		u = q
	}
	return s
}

func (r *R) flt(f float64, bs int) (string, errs) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "", e1("unsupported value " + strconv.FormatFloat(f, 'g', -1, bs))
	}
	var b []byte
	if bs == 32 {
		b, _ = json.Marshal(float32(f))
	} else {
		b, _ = json.Marshal(f)
	}
	return string(b), nil
}

func (r *R) time(t time.Time) (string, errs) {
	o := r.o
	if y := t.Year(); y < 0 || y > 9999 {
		return "", e1("other")
	}
	if o.Unix {
		return strconv.FormatInt(t.Unix(), 10), nil
	}
	if o.Layout == time.RFC3339 || o.Layout == time.RFC3339Nano {
		if _, off := t.Zone(); off <= -86400 || off >= 86400 {
			return "", e1("other")
		}
	}
	return `"` + t.Format(o.Layout) + `"`, nil
}

func (r *R) dur(d time.Duration) (string, errs) {
	switch r.o.Dfmt {
	case jettison.DurationString:
		return `"` + d.String() + `"`, nil
	case jettison.DurationMinutes:
		return r.flt(d.Minutes(), 64)
	case jettison.DurationSeconds:
		return r.flt(d.Seconds(), 64)
	case jettison.DurationMicroseconds:
		return strconv.FormatInt(d.Microseconds(), 10), nil
	case jettison.DurationMilliseconds:
		return strconv.FormatInt(d.Milliseconds(), 10), nil
	}
	return strconv.FormatInt(int64(d), 10), nil
}

func q(s string) string {
	if strings.HasPrefix(s, `"`) {
		return s
	}
	return `"` + s + `"`
}

func syncMapOf(v reflect.Value) *sync.Map {
	if v.CanAddr() && v.Addr().CanInterface() {
		return v.Addr().Interface().(*sync.Map)
	}
	p := reflect.New(tSync)
	p.Elem().Set(v)
	return p.Interface().(*sync.Map)
}

func (r *R) enc(v reflect.Value, t reflect.Type, addr, quoted bool) (*N, errs) {
	o := r.o
	one := func(s string, e errs) (*N, errs) {
		if e != nil {
			return nil, e
		}
		return lit(s), nil
	}
	switch t {
	case tTime:
		return one(r.time(v.Interface().(time.Time)))
	case tDur:
		return one(r.dur(time.Duration(v.Int())))
	case tNum:
		s := v.String()
		if s == "" {
			s = "0"
		}
		if !o.NoNum && !numberRE.MatchString(s) {
			return r.errf("other")
		}
		if quoted {
			s = `"` + s + `"`
		}
		return lit(s), nil
	case tRaw:
		if v.IsNil() {
			return lit("null"), nil
		}
		s, ok := compact(v.Bytes(), o)
		if !ok {
			return r.errf("marshaler " + typeName(tRaw) + ": syntax")
		}
		return lit(s), nil
	case tSync:
		return r.syncMap(syncMapOf(v))
	}
	if t.Kind() == reflect.Ptr && native(t.Elem()) {
		if v.IsNil() {
			return lit("null"), nil
		}
		return r.enc(v.Elem(), t.Elem(), true, quoted)
	}
	if m, ptr := method(t, addr); m != 0 {
		return r.marshal(v, t, m, ptr)
	}
	k := t.Kind()
	var s string
	switch {
	case k == reflect.String:
		if quoted {
			// twice, except that the outer quotes are those
			// of the inner text
			return lit(`"\"` + esc(esc(v.String(), o), o) + `\""`), nil
		}
		return lit(quote(v.String(), o)), nil
	case k == reflect.Bool:
		s = strconv.FormatBool(v.Bool())
	case isInt(k):
		s = r.num(v)
	case k == reflect.Float32 || k == reflect.Float64:
		var e errs
		bs := 64
		if k == reflect.Float32 {
			bs = 32
		}
		if s, e = r.flt(v.Float(), bs); e != nil {
			return nil, e
		}
	}
	if s != "" {
		if quoted {
			s = `"` + s + `"`
		}
		return lit(s), nil
	}
	switch k {
	case reflect.Interface:
		if v.IsNil() {
			return lit("null"), nil
		}
		return r.topv(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return lit("null"), nil
		}
		return r.enc(v.Elem(), t.Elem(), true, quoted)
	case reflect.Struct:
		return r.strct(v, t, addr)
	case reflect.Map:
		return r.mp(v, t)
	case reflect.Slice:
		if byteElem(t.Elem()) {
			if v.IsNil() {
				return lit("null"), nil
			}
			if o.RawBytes {
				return lit(quote(string(v.Bytes()), o)), nil
			}
			return lit(`"` + base64.StdEncoding.EncodeToString(v.Bytes()) + `"`), nil
		}
		if v.IsNil() {
			if o.NilSlice {
				return lit("[]"), nil
			}
			return lit("null"), nil
		}
		return r.elems(v, t, true)
	case reflect.Array:
		if o.BAStr && byteElem(t.Elem()) {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return lit(quote(string(b), o)), nil
		}
		return r.elems(v, t, addr)
	}
	return r.errf("unsupported type " + typeName(t))
}

func byteElem(t reflect.Type) bool {
	p := reflect.PointerTo(t)
	return t.Kind() == reflect.Uint8 && !p.Implements(tJSON) && !p.Implements(tText)
}

func (r *R) elems(v reflect.Value, t reflect.Type, addr bool) (*N, errs) {
	n := &N{seq: []*N{lit("[")}}
	for i := 0; i < v.Len(); i++ {
		if i > 0 {
			n.seq = append(n.seq, lit(","))
		}
		x, e := r.enc(v.Index(i), t.Elem(), addr, false)
		if e != nil {
			return nil, e
		}
		n.seq = append(n.seq, x)
	}
	n.seq = append(n.seq, lit("]"))
	return n, nil
}

func (r *R) marshal(v reflect.Value, t reflect.Type, m int, ptr bool) (*N, errs) {
	if !ptr && (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
		return lit("null"), nil
	}
	if ptr {
		if !v.CanAddr() {
			panic("battery: the value should be addressable: " + t.String())
		}
		v = v.Addr()
		t = reflect.PointerTo(t)
	}
	i := v.Interface()
	var b []byte
	var err error
	switch m {
	case 1:
		b, err = i.(jettison.AppendMarshalerCtx).AppendJSONContext(r.o.Ctx, nil)
	case 2:
		b, err = i.(jettison.AppendMarshaler).AppendJSON(nil)
	case 3:
		b, err = i.(json.Marshaler).MarshalJSON()
	case 4:
		b, err = i.(encoding.TextMarshaler).MarshalText()
	}
	me := "marshaler " + typeName(t) + ": "
	if err != nil {
		return r.errf(me + describe(err))
	}
	switch m {
	case 3:
		s, ok := compact(b, r.o)
		if !ok {
			return r.errf(me + "syntax")
		}
		return lit(s), nil
	case 4:
		return lit(quote(string(b), r.o)), nil
	}
	return lit(string(b)), nil
}

// ---- maps

// key gives the unescaped text of a key.
func (r *R) key(v reflect.Value, t reflect.Type) (string, bool, errs) {
	switch {
	case t.Kind() == reflect.String:
		return v.String(), true, nil
	case t == tTime:
		s, e := r.time(v.Interface().(time.Time))
		return strings.Trim(s, `"`), true, e
	case t == tDur:
		s, e := r.dur(time.Duration(v.Int()))
		return strings.Trim(s, `"`), true, e
	case t.Implements(tText):
		if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
			return "", true, nil
		}
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return "", true, e1("marshaler " + typeName(t) + ": " + describe(err))
		}
		return string(b), true, nil
	case isInt(t.Kind()):
		return r.num(v), true, nil
	}
	return "", false, nil
}

func keyable(t reflect.Type) bool {
	return t.Kind() == reflect.String || t.Implements(tText) || isInt(t.Kind())
}

type ent struct {
	k string
	n *N
}

func (r *R) object(l []ent) *N {
	if len(l) == 0 {
		return lit("{}")
	}
	n := &N{seq: []*N{lit("{")}}
	sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
	for i := 0; i < len(l); {
		j := i
		g := &N{}
		for j < len(l) && (r.o.Unsorted || l[j].k == l[i].k) {
			g.set = append(g.set, l[j].n)
			j++
		}
		if i > 0 {
			n.seq = append(n.seq, lit(","))
		}
		if len(g.set) == 1 {
			n.seq = append(n.seq, g.set[0])
		} else {
			n.seq = append(n.seq, g)
		}
		i = j
	}
	n.seq = append(n.seq, lit("}"))
	return n
}

func (r *R) mp(v reflect.Value, t reflect.Type) (*N, errs) {
	if !keyable(t.Key()) {
		return r.errf("unsupported type " + typeName(t))
	}
	if v.IsNil() {
		if r.o.NilMap {
			return lit("{}"), nil
		}
		return lit("null"), nil
	}
	var l []ent
	var es errs
	it := v.MapRange()
	for it.Next() {
		k, _, e := r.key(it.Key(), t.Key())
		if e == nil {
			var n *N
			n, e = r.enc(it.Value(), t.Elem(), false, false)
			if e == nil {
				l = append(l, ent{k, &N{seq: []*N{lit(quote(k, r.o) + ":"), n}}})
				continue
			}
		}
		es = union(es, e)
	}
	if es != nil {
		return nil, es
	}
	return r.object(l), nil
}

func union(a, b errs) errs {
	if a == nil {
		a = errs{}
	}
	for k := range b {
		a[k] = true
	}
	return a
}

func (r *R) syncMap(m *sync.Map) (*N, errs) {
	var l []ent
	var es errs
	m.Range(func(k, x interface{}) bool {
		if k == nil {
			es = union(es, e1("other"))
			return true
		}
		kv := reflect.ValueOf(k)
		s, ok, e := r.key(kv, kv.Type())
		if !ok {
			e = e1("other")
		}
		if e == nil {
			var n *N
			n, e = r.top(x)
			if e == nil {
				l = append(l, ent{s, &N{seq: []*N{lit(quote(s, r.o) + ":"), n}}})
				return true
			}
		}
		es = union(es, e)
		return true
	})
	if es != nil {
		return nil, es
	}
	return r.object(l), nil
}

// ---- structs

// F is a selected field.
type F struct {
	name                        string
	index                       []int
	tagged                      bool
	omitEmpty, omitNil, quotedS bool
	t                           reflect.Type
}

func validName(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
			return false
		}
	}
	return true
}

// collect lists the candidates, level after level. The fields of a
// type that was embedded at a smaller depth are not candidates again;
// those of a type embedded several times at a depth are ambiguous.
func collect(root reflect.Type, out *[]F) {
	type at struct {
		t     reflect.Type
		index []int
	}
	seen := map[reflect.Type]bool{}
	times := map[reflect.Type]int{}
	for level := []at{{root, nil}}; len(level) > 0; {
		var below []at
		timesBelow := map[reflect.Type]int{}
		for _, a := range level {
			if seen[a.t] {
				continue
			}
			seen[a.t] = true
			for i := 0; i < a.t.NumField(); i++ {
				sf := a.t.Field(i)
				ft := sf.Type
				et := ft
				if et.Kind() == reflect.Ptr && et.Name() == "" {
					et = et.Elem()
				}
				if !sf.IsExported() && !(sf.Anonymous && et.Kind() == reflect.Struct) {
					continue
				}
				tag := sf.Tag.Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !validName(name) {
					name = ""
				}
				idx := append(append([]int{}, a.index...), i)
				if sf.Anonymous && name == "" && et.Kind() == reflect.Struct {
					if timesBelow[et]++; timesBelow[et] == 1 {
						below = append(below, at{et, idx})
					}
					continue
				}
				f := F{name: name, index: idx, tagged: name != "", t: ft}
				if name == "" {
					f.name = sf.Name
				}
				for _, p := range parts[1:] {
					switch p {
					case "omitempty":
						f.omitEmpty = true
					case "omitnil":
						f.omitNil = true
					case "string":
						f.quotedS = basic(et.Kind())
					}
				}
				*out = append(*out, f)
				if times[a.t] > 1 {
					*out = append(*out, f)
				}
			}
		}
		level, times = below, timesBelow
	}
}

var fieldsOf = map[reflect.Type][]F{}

func fields(t reflect.Type) []F {
	if f, ok := fieldsOf[t]; ok {
		return f
	}
	var all []F
	collect(t, &all)
	by := map[string][]F{}
	for _, f := range all {
		by[f.name] = append(by[f.name], f)
	}
	var sel []F
	for _, l := range by {
		min := len(l[0].index)
		for _, f := range l {
			if len(f.index) < min {
				min = len(f.index)
			}
		}
		var top, tagged []F
		for _, f := range l {
			if len(f.index) == min {
				top = append(top, f)
				if f.tagged {
					tagged = append(tagged, f)
				}
			}
		}
		switch {
		case len(tagged) == 1:
			sel = append(sel, tagged[0])
		case len(tagged) == 0 && len(top) == 1:
			sel = append(sel, top[0])
		}
	}
	sort.Slice(sel, func(i, j int) bool {
		a, b := sel[i].index, sel[j].index
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	fieldsOf[t] = sel
	return sel
}

func isEmpty(v reflect.Value) bool {
	switch k := v.Kind(); {
	case k == reflect.Bool:
		return !v.Bool()
	case isInt(k):
		return v.IsZero()
	case k == reflect.Float32 || k == reflect.Float64:
		return v.Float() == 0
	case k == reflect.String || k == reflect.Map || k == reflect.Slice || k == reflect.Array:
		return v.Len() == 0
	case k == reflect.Ptr || k == reflect.Interface:
		return v.IsNil()
	}
	return false
}

func (r *R) strct(v reflect.Value, t reflect.Type, addr bool) (*N, errs) {
	n := &N{seq: []*N{lit("{")}}
	first := true
fields:
	for _, f := range fields(t) {
		if r.o.Deny != nil && r.o.Deny[f.name] || r.o.Allow != nil && !r.o.Allow[f.name] {
			continue
		}
		fv, fa := v, addr
		for _, i := range f.index {
			if fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					continue fields
				}
				fv = fv.Elem()
				fa = true
			}
			fv = fv.Field(i)
		}
		if f.omitNil {
			switch fv.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
				if fv.IsNil() {
					continue
				}
			}
		}
		if f.omitEmpty && isEmpty(fv) {
			continue
		}
		x, e := r.enc(fv, f.t, fa, f.quotedS)
		if e != nil {
			return nil, e
		}
		if f.omitNil && (f.t.Implements(tJSON) || reflect.PointerTo(f.t).Implements(tJSON)) && strings.HasSuffix(x.String(), "null") {
			continue
		}
		key := f.name
		if !r.o.NoHTML {
			key = strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`).Replace(key)
		}
		s := `"` + key + `":`
		if !first {
			s = "," + s
		}
		first = false
		n.seq = append(n.seq, lit(s), x)
	}
	n.seq = append(n.seq, lit("}"))
	return n, nil
}
