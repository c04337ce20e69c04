package main

// battery runs the public functions of the package on generated inputs,
// and compares the results with those of the reference.
//
//	battery -prop P01 -seed 1 -secs 20 -part 0 -parts 8
//
// The last line it prints is a JSON report.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/wI2L/jettison"
)

var (
	typeBigFloat = reflect.TypeOf(big.Float{})
	typeURL      = reflect.TypeOf(url.URL{})
)

func sortStrings(s []string) { sort.Strings(s) }

// Failure is a failing input.
type Failure struct {
	Prop    string `json:"property"`
	Gen     string `json:"generator"`
	Seed    int64  `json:"seed"`
	Part    int    `json:"part"`
	Iter    int    `json:"iteration"`
	What    string `json:"what"`
	Type    string `json:"type,omitempty"`
	Value   string `json:"value,omitempty"`
	Options string `json:"options,omitempty"`
	Want    string `json:"want,omitempty"`
	Got     string `json:"got,omitempty"`
	Stack   string `json:"stack,omitempty"`
}

// Report is the outcome of a run.
type Report struct {
	Prop     string         `json:"property"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Per      map[string]int `json:"per_generator"`
	Samples  []string       `json:"samples"`
	Failure  *Failure       `json:"failure,omitempty"`
}

// H runs cases.
type H struct {
	*G
	rep      Report
	gen      string
	iter     int
	seed     int64
	part     int
	parts    int
	seen     map[uint64]bool
	kept     []kept
	thorough bool
	cur      *Failure
}

type kept struct {
	b   []byte
	s   string
	why string
}

type failed struct{ f *Failure }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func dump(v interface{}) string {
	defer func() { recover() }()
	return clip(fmt.Sprintf("%+q %s", fmt.Sprintf("%#v", v), show(reflect.ValueOf(v))), 3000)
}

func (h *H) fail(what, want, got string) {
	f := *h.cur
	f.What, f.Want, f.Got = what, clip(want, 3000), clip(got, 3000)
	panic(failed{&f})
}

func (h *H) note(b []byte) {
	h.rep.Evals++
	h.rep.Per[h.gen]++
	f := fnv.New64a()
	f.Write([]byte(h.cur.Type))
	f.Write(b)
	k := f.Sum64()
	if len(b) > 2 && !h.seen[k] {
		if len(h.seen) < 2000000 {
			h.seen[k] = true
		}
		h.rep.Distinct++
		if len(h.rep.Samples) < 6 && h.rep.Distinct%7 == 1 {
			h.rep.Samples = append(h.rep.Samples, clip(fmt.Sprintf("%s: %s %s -> %q", h.gen, h.cur.Type, h.cur.Options, b), 400))
		}
	}
}

var tails = []string{"", "x", "{", "{\"a\":null", "1e-0", "e-0", "-", "1e-", "null", "[1,", "\"", "ab\xe2\x80", "{\"k\":", strings.Repeat("z", 37), "\\"}

func errString(e errs) string {
	var l []string
	for k := range e {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " or ")
}

// run compares the results for a value with the reference.
func (h *H) run(v interface{}, o O, opts []jettison.Option) {
	h.cur = &Failure{Prop: h.rep.Prop, Gen: h.gen, Seed: h.seed, Part: h.part, Iter: h.iter, Type: clip(fmt.Sprintf("%T", v), 1500), Options: o.String()}
	h.cur.Value = "?"
	defer func() {
		if x := recover(); x != nil {
			f, ok := x.(failed)
			if !ok {
				f.f = h.cur
				f.f.What = fmt.Sprint("panic: ", x)
				f.f.Stack = clip(string(debug.Stack()), 6000)
			}
			f.f.Value = dump(v)
			panic(f)
		}
	}()
	calls = nil
	r := &R{o: &o}
	want, es := r.top(v)
	wcalls := calls

	calls = nil
	got, err := jettison.MarshalOpts(v, opts...)
	gcalls := calls
	h.note(got)
	if nestedNG != "" {
		h.fail(nestedNG, "", "")
	}
	h.compare("MarshalOpts", want, es, got, err)
	if err == nil {
		sort.Strings(wcalls)
		sort.Strings(gcalls)
		if w, g := strings.Join(wcalls, "\n"), strings.Join(gcalls, "\n"); w != g {
			h.fail("the calls of marshalers", w, g)
		}
		h.wellFormed(got, &o)
		h.keep(got, "MarshalOpts")
	} else if got != nil {
		h.fail("bytes are returned with an error", "", string(got))
	}
	if len(opts) == 0 && h.Intn(2) == 0 {
		got, err = jettison.Marshal(v)
		h.compare("Marshal", want, es, got, err)
		if err == nil {
			h.keep(got, "Marshal")
		}
	}
	// the same with a prefix
	pre := tails[h.Intn(len(tails))]
	dst := make([]byte, len(pre), len(pre)+[]int{0, 1, 3, 8, 64, 5000}[h.Intn(6)])
	copy(dst, pre)
	if pre == "" && h.Intn(2) == 0 {
		dst = nil
	}
	var res []byte
	if len(opts) == 0 && h.Intn(2) == 0 {
		res, err = jettison.Append(dst, v)
	} else {
		res, err = jettison.AppendOpts(dst, v, opts...)
	}
	if string(dst) != pre {
		h.fail("the bytes of the buffer given are modified", pre, string(dst))
	}
	if !bytes.HasPrefix(res, []byte(pre)) {
		h.fail("the buffer returned does not start with the one given", pre, string(res))
	}
	h.compare("AppendOpts after "+fmt.Sprintf("%q", pre), want, es, res[len(pre):], err)
	if err == nil {
		h.keep(res, "AppendOpts")
	}
}

func (h *H) compare(what string, want *N, es errs, got []byte, err error) {
	switch {
	case es != nil && err == nil:
		h.fail(what+" does not fail", errString(es), string(got))
	case es != nil:
		if d := describe(err); !es[d] {
			h.fail(what+" fails with the wrong error", errString(es), d+" ("+err.Error()+")")
		}
	case err != nil:
		h.fail(what+" fails", want.String(), err.Error())
	case !want.equal(got):
		h.fail(what+" gives the wrong bytes", want.String(), string(got))
	}
}

func (h *H) wellFormed(b []byte, o *O) {
	if o.NoEsc || o.NoNum || o.NoComp || o.Layout != time.RFC3339 && o.Layout != time.RFC3339Nano {
		return
	}
	if !json.Valid(b) {
		h.fail("the output is not valid JSON", "", string(b))
	}
	var buf bytes.Buffer
	json.Compact(&buf, b)
	if buf.Len() != len(b) {
		h.fail("the output is not compact", buf.String(), string(b))
	}
	_ = utf8.Valid
}

// keep remembers results, that nothing may change later.
func (h *H) keep(b []byte, why string) {
	k := kept{b, string(b), why + " " + h.cur.Type}
	if len(h.kept) < 64 {
		h.kept = append(h.kept, k)
	} else {
		h.kept[h.Intn(len(h.kept))] = k
	}
	if h.Intn(16) == 0 {
		for _, k := range h.kept {
			if string(k.b) != k.s {
				h.fail("a result of an earlier call changed: "+k.why, k.s, string(k.b))
			}
		}
	}
	if h.Intn(4) == 0 {
		// the result belongs to the caller
		j := h.Intn(len(h.kept))
		k := h.kept[j]
		for i := range k.b {
			k.b[i] ^= 0x55
		}
		h.kept[j].s = string(k.b)
	}
}

// runv runs a value, directly or through a pointer.
func (h *H) runv(v reflect.Value, p int) {
	o, opts := h.opts(v.Type(), p)
	x := v
	if h.p(35) {
		x = v.Addr()
	}
	if x.Kind() == reflect.Interface {
		if x.IsNil() {
			h.run(nil, o, opts)
			return
		}
		x = x.Elem()
	}
	h.run(x.Interface(), o, opts)
}

type generator struct {
	name  string
	props string
	once  bool // enumerates its share of a finite set
	fn    func(h *H)
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 10, "time limit")
	part := flag.Int("part", 0, "part")
	parts := flag.Int("parts", 1, "number of parts")
	only := flag.String("gen", "", "only this generator")
	from := flag.Int("iter", -1, "only this iteration")
	thorough := flag.Bool("thorough", false, "larger enumerations")
	state := flag.String("state", "", "file where the current case is written")
	flag.Parse()
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	h := &H{seed: *seed, part: *part, parts: *parts, seen: map[uint64]bool{}, thorough: *thorough}
	h.rep.Prop = *prop
	h.rep.Per = map[string]int{}
	h.cur = &Failure{}
	var st *os.File
	if *state != "" {
		st, _ = os.Create(*state)
	}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var gs []generator
	for _, g := range generators {
		if (*prop == "" || strings.Contains(g.props, *prop)) && (*only == "" || *only == g.name) {
			gs = append(gs, g)
		}
	}
	defer func() {
		x := recover()
		if x != nil {
			f, ok := x.(failed)
			if !ok {
				f.f = &Failure{Prop: *prop, Gen: h.gen, Seed: *seed, Part: *part, Iter: h.iter, What: fmt.Sprint("panic: ", x), Stack: clip(string(debug.Stack()), 6000)}
			}
			h.rep.Failure = f.f
		}
		b, _ := json.Marshal(h.rep)
		fmt.Println(string(b))
	}()
	// every generator has its own pool of types and its own
	// sequence of cases: a failing case can be run again alone
	// with the ones before it
	gens := make([]*G, len(gs))
	for i, g := range gs {
		f := fnv.New64a()
		fmt.Fprint(f, g.name, *seed, *part)
		gens[i] = &G{Rand: rand.New(rand.NewSource(int64(f.Sum64())))}
	}
	iters := make([]int, len(gs))
	done := make([]bool, len(gs))
	for left := len(gs); left > 0; {
		for i := range gs {
			if done[i] {
				continue
			}
			h.G, h.gen = gens[i], gs[i].name
			n := 25
			if gs[i].once {
				n, done[i] = 1, true
				left--
			}
			for ; n > 0; n-- {
				h.iter = iters[i]
				iters[i]++
				if st != nil {
					s := fmt.Sprintf("%-30s %10d", h.gen, h.iter)
					st.WriteAt([]byte(s), 0)
				}
				errorsOn, plain = false, false
				gs[i].fn(h)
				if *from >= 0 && h.iter >= *from {
					return
				}
			}
			if !done[i] && (time.Now().After(end) || h.rep.Evals > 30000000) {
				done[i] = true
				left--
			}
		}
		if h.Intn(8) == 0 {
			runtime.GC()
		}
	}
	for _, k := range h.kept {
		if string(k.b) != k.s {
			h.fail("a result of an earlier call changed: "+k.why, k.s, string(k.b))
		}
	}
}
