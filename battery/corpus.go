package main

// Types that are written by hand: natives, named basic types, recursive
// types, embedded types, interfaces.

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"sync"
	"time"
)

type (
	NBool    bool
	NInt     int
	NInt8    int8
	NUint8   uint8
	NUint64  uint64
	NUintptr uintptr
	NFloat32 float32
	NFloat64 float64
	NString  string
	NNumber  json.Number
	NRaw     json.RawMessage
	NTime    time.Time
	NDur     time.Duration
	NBytes   []byte
	NArr     [3]byte
	NNArr    [2]NUint8
	NIface   interface{}
	NPtr     *int
	NSlice   []string
	NMap     map[string]int
)

type Tree struct {
	V    int `json:"v"`
	L, R *Tree
	Kids []Tree           `json:"kids,omitempty"`
	M    map[string]*Tree `json:",omitempty"`
	I    interface{}      `json:",omitnil"`
}
type (
	RecSlice []RecSlice
	RecMap   map[string]RecMap
	RecPtr   *RecPtr
	RecArr   [2]*RecArr
	RecMix   []map[int]*RecMix2
	RecMix2  struct {
		A RecMix `json:",omitempty"`
		B *RecMix2
	}
)
type MutA struct {
	N int
	B *MutB `json:",omitempty"`
	C []MutB
}
type MutB struct {
	A  *MutA
	S  string `json:",string"`
	PM *MStructSNNPN
	VM MStructSNNPN
}

type inner struct {
	X int
	Y string `json:"y,omitempty"`
	M MIntNNPN
}
type Inner2 struct {
	Z  *int `json:",omitnil"`
	M2 []MIntNNPN
}
type EmbV struct {
	inner
	Inner2
	A int
}
type EmbP struct {
	*Inner2
	B int
	C string `json:"c,omitempty,string"`
}
type embPP struct {
	*Inner2
	D MStructSNPNN
}
type EmbPP struct {
	*embPP
	E int `json:"<e&>"`
}
type EmbRec struct {
	*EmbRec
	F int
}
type EmbTime struct {
	time.Time
	A int
}
type EmbText struct {
	MIntNNNV
	B int
}

// Shapes of one word.
type (
	W1 struct{ M map[string]int }
	W2 struct{ P *int }
	W3 struct{ W2 W2 }
	W4 [1]W3
	W5 struct {
		_ struct{}
		P *int
	}
	W6 struct{ A [1]*Tree }
	W7 struct {
		F func() `json:"-"`
	}
	W8 [1]map[string]W1
	W9 struct{ U uintptr }
)

type (
	Meth   interface{ Hello() string }
	Impl1  struct{ A int }
	Impl2  map[string]int
	Impl3  int
	impl4  struct{ P *int }
	JSONer interface{ MarshalJSON() ([]byte, error) }
)

func (Impl1) Hello() string  { return "1" }
func (*Impl2) Hello() string { return "2" }
func (Impl3) Hello() string  { return "3" }
func (impl4) Hello() string  { return "4" }

type Tags struct {
	A string        `json:"a b"`
	B int           `json:"<x>&"`
	C int           `json:"\"bad"`
	D int           `json:"-,"`
	E int           `json:"-"`
	F int           `json:",string"`
	G *int          `json:"g,string,omitempty"`
	H **int         `json:",string"`
	I NPtr          `json:",string"`
	J bool          `json:",string"`
	K NString       `json:",string"`
	L *string       `json:",string"`
	M json.Number   `json:",string"`
	N *json.Number  `json:",string"`
	O float32       `json:",string"`
	P []int         `json:",string"`
	Q time.Duration `json:",string"`
	R NFloat64      `json:",omitempty,string"`
	S uintptr       `json:",string,omitnil"`
	T interface{}   `json:",string"`
	Ù int           `json:"é€"`
	W int           `json:"a;b"`
	x int
}

type Omits struct {
	A bool           `json:"a,omitempty"`
	B int8           `json:"b,omitempty"`
	C uint64         `json:"c,omitempty"`
	D float32        `json:"d,omitempty"`
	E string         `json:"e,omitempty"`
	F []int          `json:"f,omitempty"`
	G map[string]int `json:"g,omitempty"`
	H [0]int         `json:"h,omitempty"`
	I [1]int         `json:"i,omitempty"`
	J *int           `json:"j,omitempty"`
	K interface{}    `json:"k,omitempty"`
	L struct{}       `json:"l,omitempty"`
	M Meth           `json:"m,omitempty"`
	N time.Time      `json:"n,omitempty"`
	O json.Number    `json:"o,omitempty"`
	P uintptr        `json:"p,omitempty"`
	Q int16          `json:",omitempty"`
	R int32          `json:",omitempty"`
	S int64          `json:",omitempty"`
	T int            `json:",omitempty"`
	U uint8          `json:",omitempty"`
	V uint16         `json:",omitempty"`
	W uint32         `json:",omitempty"`
	X uint           `json:",omitempty"`
	Y float64        `json:",omitempty"`
	Z []byte         `json:",omitempty"`
}

type OmitNils struct {
	A *int            `json:"a,omitnil"`
	B []int           `json:"b,omitnil"`
	C map[string]int  `json:"c,omitnil"`
	D interface{}     `json:"d,omitnil"`
	E Meth            `json:"e,omitnil"`
	F int             `json:"f,omitnil"`
	G MStructSNNVN    `json:"g,omitnil"`
	H *MStructSNNVN   `json:"h,omitnil"`
	I MIntNNPN        `json:"i,omitnil"`
	J MStringNNPN     `json:"j,omitnil"`
	K json.RawMessage `json:"k,omitnil"`
	L MMapNNVN        `json:"l,omitnil"`
	M JSONer          `json:"m,omitnil"`
	N *MIntNNPN       `json:"n,omitempty,omitnil"`
	O MStringNNVN     `json:"o,omitnil,omitempty"`
	P string          `json:"p,omitnil"`
	Q *json.Number    `json:"q,omitnil"`
	R MIntNVVN        `json:"r,omitnil"`
}

type MIntNVVN int

func (x MIntNVVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntNVVN", x, nil)
}
func (x MIntNVVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNVVN", x, nil) }

type Natives struct {
	A time.Time
	B *time.Time
	C time.Duration
	D *time.Duration `json:",omitempty"`
	E json.Number
	F *json.Number
	G json.RawMessage
	H *json.RawMessage
	I sync.Map
	J *sync.Map
	K []time.Time
	L map[time.Time]time.Duration
	M map[time.Duration]*time.Time
	N [2]json.RawMessage
	O NTime
	P NDur
	Q NRaw
}

type StdTypes struct {
	A *big.Int
	B big.Int
	C net.IP
	D *big.Float
	E url.URL `json:",omitempty"`
	F map[string]*big.Int
}

type Unsup struct {
	A int
	B chan int        `json:",omitempty"`
	C func()          `json:",omitnil"`
	D *complex64      `json:",omitempty"`
	E []complex128    `json:",omitempty"`
	F map[float64]int `json:",omitempty"`
	G map[bool]int    `json:",omitnil"`
	H interface{}
}

type Bytes struct {
	A []byte
	B [4]byte
	C [0]byte
	D []NUint8
	E [3]NUint8
	F []MUint8NNVN
	G [2]MUint8NNPN
	H []MUint8NNNV
	I *[5]byte
	J MBytesNNVN
	K NBytes
	L NArr
	M [][]byte
	N map[string][]byte
	O []MUint8NPNN
	P []int8
}

func types(xs ...interface{}) (l []reflect.Type) {
	for _, x := range xs {
		l = append(l, reflect.TypeOf(x).Elem())
	}
	return
}

var (
	basicTypes  = types((*bool)(nil), (*int)(nil), (*int8)(nil), (*int16)(nil), (*int32)(nil), (*int64)(nil), (*uint)(nil), (*uint8)(nil), (*uint16)(nil), (*uint32)(nil), (*uint64)(nil), (*uintptr)(nil), (*float32)(nil), (*float64)(nil), (*string)(nil))
	namedBasic  = types((*NBool)(nil), (*NInt)(nil), (*NInt8)(nil), (*NUint8)(nil), (*NUint64)(nil), (*NUintptr)(nil), (*NFloat32)(nil), (*NFloat64)(nil), (*NString)(nil), (*NNumber)(nil), (*NDur)(nil))
	nativeTypes = types((*time.Time)(nil), (*time.Duration)(nil), (*json.Number)(nil), (*json.RawMessage)(nil), (*sync.Map)(nil))
	bytesTypes  = types((*[]byte)(nil), (*[4]byte)(nil), (*[0]byte)(nil), (*[]NUint8)(nil), (*NBytes)(nil), (*NArr)(nil), (*NNArr)(nil), (*Bytes)(nil), (*[]MUint8NNVN)(nil), (*[3]MUint8NNPN)(nil), (*[]MUint8NNNP)(nil), (*[2]MUint8NNNV)(nil), (*[]int8)(nil), (*[1]byte)(nil), (*[][3]byte)(nil), (*map[string][2]byte)(nil))
	structTypes = types((*Tags)(nil), (*Omits)(nil), (*OmitNils)(nil), (*EmbV)(nil), (*EmbP)(nil), (*EmbPP)(nil), (*EmbRec)(nil), (*EmbTime)(nil), (*EmbText)(nil), (*Tree)(nil), (*MutA)(nil), (*MutB)(nil), (*Natives)(nil), (*Bytes)(nil), (*RecMix2)(nil), (*struct{})(nil))
	recTypes    = types((*Tree)(nil), (*RecSlice)(nil), (*RecMap)(nil), (*RecPtr)(nil), (*RecArr)(nil), (*RecMix)(nil), (*RecMix2)(nil), (*MutA)(nil), (*MutB)(nil), (*EmbRec)(nil))
	wordTypes   = types((*W1)(nil), (*W2)(nil), (*W3)(nil), (*W4)(nil), (*W5)(nil), (*W6)(nil), (*W7)(nil), (*W8)(nil), (*W9)(nil), (*impl4)(nil), (*[1]*int)(nil), (*[1]*Tree)(nil), (*[1][1]map[string]int)(nil), (*NPtr)(nil), (*struct{ A *time.Time })(nil), (*struct{ M MStructPNNVN })(nil), (*[1]MStructPNVNN)(nil), (*[1]MMapNNNV)(nil), (*struct{ X [1]struct{ M MMapVNNN } })(nil))
	ifaceTypes  = types((*interface{})(nil), (*NIface)(nil), (*Meth)(nil), (*json.Marshaler)(nil), (*encoding.TextMarshaler)(nil), (*fmt.Stringer)(nil), (*JSONer)(nil), (*error)(nil))
	stdTypes    = types((*StdTypes)(nil), (*big.Int)(nil), (**big.Int)(nil), (*net.IP)(nil), (*NSlice)(nil), (*NMap)(nil), (*NRaw)(nil), (*NTime)(nil))
	badTypes    = types((*chan int)(nil), (*func())(nil), (*complex64)(nil), (*complex128)(nil), (*map[float64]int)(nil), (*map[bool]string)(nil), (*map[struct{ A int }]int)(nil), (*Unsup)(nil), (*map[interface{}]int)(nil), (*map[*int]int)(nil), (*[]chan int)(nil), (*struct{ F func() })(nil), (*struct {
		A complex64 `json:",string"`
	})(nil))
	keyTypes []reflect.Type
)

func init() {
	for _, t := range append(append(append([]reflect.Type{}, basicTypes...), namedBasic...), nativeTypes...) {
		if keyable(t) && t.Comparable() && t.Kind() != reflect.Bool && t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 {
			keyTypes = append(keyTypes, t)
		}
	}
	for _, t := range marshTypes {
		if t.Implements(tText) && t.Comparable() {
			keyTypes = append(keyTypes, t)
		}
		if pt := reflect.PointerTo(t); pt.Implements(tText) {
			keyTypes = append(keyTypes, pt)
		}
	}
	keyTypes = append(keyTypes, tText)
}
