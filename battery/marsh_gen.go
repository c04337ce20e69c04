// Code generated by gen_marsh.py. DO NOT EDIT.

package main

import (
	"context"
	"reflect"
)

type MStruct2VNNN struct {
	A int
	B string
}

func (x MStruct2VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2VNNN", x, nil)
}

type MStruct2PNNN struct {
	A int
	B string
}

func (x *MStruct2PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2PNNN", deref(x), x)
}

type MStruct2NVNN struct {
	A int
	B string
}

func (x MStruct2NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStruct2NVNN", x, nil)
}

type MStruct2NPNN struct {
	A int
	B string
}

func (x *MStruct2NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStruct2NPNN", deref(x), x)
}

type MStruct2NNVN struct {
	A int
	B string
}

func (x MStruct2NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStruct2NNVN", x, nil) }

type MStruct2NNPN struct {
	A int
	B string
}

func (x *MStruct2NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStruct2NNPN", deref(x), x) }

type MStruct2NNNV struct {
	A int
	B string
}

func (x MStruct2NNNV) MarshalText() ([]byte, error) { return behaveText("MStruct2NNNV", x, nil) }

type MStruct2NNNP struct {
	A int
	B string
}

func (x *MStruct2NNNP) MarshalText() ([]byte, error) { return behaveText("MStruct2NNNP", deref(x), x) }

type MStructPVNNN struct{ P *int }

func (x MStructPVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPVNNN", x, nil)
}

type MStructPPNNN struct{ P *int }

func (x *MStructPPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPPNNN", deref(x), x)
}

type MStructPNVNN struct{ P *int }

func (x MStructPNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNVNN", x, nil)
}

type MStructPNPNN struct{ P *int }

func (x *MStructPNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNPNN", deref(x), x)
}

type MStructPNNVN struct{ P *int }

func (x MStructPNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPNNVN", x, nil) }

type MStructPNNPN struct{ P *int }

func (x *MStructPNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPNNPN", deref(x), x) }

type MStructPNNNV struct{ P *int }

func (x MStructPNNNV) MarshalText() ([]byte, error) { return behaveText("MStructPNNNV", x, nil) }

type MStructPNNNP struct{ P *int }

func (x *MStructPNNNP) MarshalText() ([]byte, error) { return behaveText("MStructPNNNP", deref(x), x) }

type MStructSVNNN struct{ S string }

func (x MStructSVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructSVNNN", x, nil)
}

type MStructSPNNN struct{ S string }

func (x *MStructSPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructSPNNN", deref(x), x)
}

type MStructSNVNN struct{ S string }

func (x MStructSNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructSNVNN", x, nil)
}

type MStructSNPNN struct{ S string }

func (x *MStructSNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructSNPNN", deref(x), x)
}

type MStructSNNVN struct{ S string }

func (x MStructSNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructSNNVN", x, nil) }

type MStructSNNPN struct{ S string }

func (x *MStructSNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructSNNPN", deref(x), x) }

type MStructSNNNV struct{ S string }

func (x MStructSNNNV) MarshalText() ([]byte, error) { return behaveText("MStructSNNNV", x, nil) }

type MStructSNNNP struct{ S string }

func (x *MStructSNNNP) MarshalText() ([]byte, error) { return behaveText("MStructSNNNP", deref(x), x) }

type MStructMVNNN struct{ M map[string]int }

func (x MStructMVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructMVNNN", x, nil)
}

type MStructMPNNN struct{ M map[string]int }

func (x *MStructMPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructMPNNN", deref(x), x)
}

type MStructMNVNN struct{ M map[string]int }

func (x MStructMNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructMNVNN", x, nil)
}

type MStructMNPNN struct{ M map[string]int }

func (x *MStructMNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructMNPNN", deref(x), x)
}

type MStructMNNVN struct{ M map[string]int }

func (x MStructMNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructMNNVN", x, nil) }

type MStructMNNPN struct{ M map[string]int }

func (x *MStructMNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructMNNPN", deref(x), x) }

type MStructMNNNV struct{ M map[string]int }

func (x MStructMNNNV) MarshalText() ([]byte, error) { return behaveText("MStructMNNNV", x, nil) }

type MStructMNNNP struct{ M map[string]int }

func (x *MStructMNNNP) MarshalText() ([]byte, error) { return behaveText("MStructMNNNP", deref(x), x) }

type MStructEVNNN struct{}

func (x MStructEVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructEVNNN", x, nil)
}

type MStructEPNNN struct{}

func (x *MStructEPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructEPNNN", deref(x), x)
}

type MStructENVNN struct{}

func (x MStructENVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructENVNN", x, nil)
}

type MStructENPNN struct{}

func (x *MStructENPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructENPNN", deref(x), x)
}

type MStructENNVN struct{}

func (x MStructENNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructENNVN", x, nil) }

type MStructENNPN struct{}

func (x *MStructENNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructENNPN", deref(x), x) }

type MStructENNNV struct{}

func (x MStructENNNV) MarshalText() ([]byte, error) { return behaveText("MStructENNNV", x, nil) }

type MStructENNNP struct{}

func (x *MStructENNNP) MarshalText() ([]byte, error) { return behaveText("MStructENNNP", deref(x), x) }

type MIntVNNN int

func (x MIntVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntVNNN", x, nil)
}

type MIntPNNN int

func (x *MIntPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntPNNN", deref(x), x)
}

type MIntNVNN int

func (x MIntNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntNVNN", x, nil)
}

type MIntNPNN int

func (x *MIntNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntNPNN", deref(x), x)
}

type MIntNNVN int

func (x MIntNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNNVN", x, nil) }

type MIntNNPN int

func (x *MIntNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNNPN", deref(x), x) }

type MIntNNNV int

func (x MIntNNNV) MarshalText() ([]byte, error) { return behaveText("MIntNNNV", x, nil) }

type MIntNNNP int

func (x *MIntNNNP) MarshalText() ([]byte, error) { return behaveText("MIntNNNP", deref(x), x) }

type MInt8VNNN int8

func (x MInt8VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MInt8VNNN", x, nil)
}

type MInt8PNNN int8

func (x *MInt8PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MInt8PNNN", deref(x), x)
}

type MInt8NVNN int8

func (x MInt8NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MInt8NVNN", x, nil)
}

type MInt8NPNN int8

func (x *MInt8NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MInt8NPNN", deref(x), x)
}

type MInt8NNVN int8

func (x MInt8NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MInt8NNVN", x, nil) }

type MInt8NNPN int8

func (x *MInt8NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MInt8NNPN", deref(x), x) }

type MInt8NNNV int8

func (x MInt8NNNV) MarshalText() ([]byte, error) { return behaveText("MInt8NNNV", x, nil) }

type MInt8NNNP int8

func (x *MInt8NNNP) MarshalText() ([]byte, error) { return behaveText("MInt8NNNP", deref(x), x) }

type MUint8VNNN uint8

func (x MUint8VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8VNNN", x, nil)
}

type MUint8PNNN uint8

func (x *MUint8PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8PNNN", deref(x), x)
}

type MUint8NVNN uint8

func (x MUint8NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NVNN", x, nil)
}

type MUint8NPNN uint8

func (x *MUint8NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NPNN", deref(x), x)
}

type MUint8NNVN uint8

func (x MUint8NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8NNVN", x, nil) }

type MUint8NNPN uint8

func (x *MUint8NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8NNPN", deref(x), x) }

type MUint8NNNV uint8

func (x MUint8NNNV) MarshalText() ([]byte, error) { return behaveText("MUint8NNNV", x, nil) }

type MUint8NNNP uint8

func (x *MUint8NNNP) MarshalText() ([]byte, error) { return behaveText("MUint8NNNP", deref(x), x) }

type MUint16VNNN uint16

func (x MUint16VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint16VNNN", x, nil)
}

type MUint16PNNN uint16

func (x *MUint16PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint16PNNN", deref(x), x)
}

type MUint16NVNN uint16

func (x MUint16NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint16NVNN", x, nil)
}

type MUint16NPNN uint16

func (x *MUint16NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint16NPNN", deref(x), x)
}

type MUint16NNVN uint16

func (x MUint16NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint16NNVN", x, nil) }

type MUint16NNPN uint16

func (x *MUint16NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint16NNPN", deref(x), x) }

type MUint16NNNV uint16

func (x MUint16NNNV) MarshalText() ([]byte, error) { return behaveText("MUint16NNNV", x, nil) }

type MUint16NNNP uint16

func (x *MUint16NNNP) MarshalText() ([]byte, error) { return behaveText("MUint16NNNP", deref(x), x) }

type MInt64VNNN int64

func (x MInt64VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MInt64VNNN", x, nil)
}

type MInt64PNNN int64

func (x *MInt64PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MInt64PNNN", deref(x), x)
}

type MInt64NVNN int64

func (x MInt64NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MInt64NVNN", x, nil)
}

type MInt64NPNN int64

func (x *MInt64NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MInt64NPNN", deref(x), x)
}

type MInt64NNVN int64

func (x MInt64NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MInt64NNVN", x, nil) }

type MInt64NNPN int64

func (x *MInt64NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MInt64NNPN", deref(x), x) }

type MInt64NNNV int64

func (x MInt64NNNV) MarshalText() ([]byte, error) { return behaveText("MInt64NNNV", x, nil) }

type MInt64NNNP int64

func (x *MInt64NNNP) MarshalText() ([]byte, error) { return behaveText("MInt64NNNP", deref(x), x) }

type MFloat64VNNN float64

func (x MFloat64VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MFloat64VNNN", x, nil)
}

type MFloat64PNNN float64

func (x *MFloat64PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MFloat64PNNN", deref(x), x)
}

type MFloat64NVNN float64

func (x MFloat64NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MFloat64NVNN", x, nil)
}

type MFloat64NPNN float64

func (x *MFloat64NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MFloat64NPNN", deref(x), x)
}

type MFloat64NNVN float64

func (x MFloat64NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MFloat64NNVN", x, nil) }

type MFloat64NNPN float64

func (x *MFloat64NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MFloat64NNPN", deref(x), x) }

type MFloat64NNNV float64

func (x MFloat64NNNV) MarshalText() ([]byte, error) { return behaveText("MFloat64NNNV", x, nil) }

type MFloat64NNNP float64

func (x *MFloat64NNNP) MarshalText() ([]byte, error) { return behaveText("MFloat64NNNP", deref(x), x) }

type MBoolVNNN bool

func (x MBoolVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MBoolVNNN", x, nil)
}

type MBoolPNNN bool

func (x *MBoolPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MBoolPNNN", deref(x), x)
}

type MBoolNVNN bool

func (x MBoolNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MBoolNVNN", x, nil)
}

type MBoolNPNN bool

func (x *MBoolNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MBoolNPNN", deref(x), x)
}

type MBoolNNVN bool

func (x MBoolNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MBoolNNVN", x, nil) }

type MBoolNNPN bool

func (x *MBoolNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MBoolNNPN", deref(x), x) }

type MBoolNNNV bool

func (x MBoolNNNV) MarshalText() ([]byte, error) { return behaveText("MBoolNNNV", x, nil) }

type MBoolNNNP bool

func (x *MBoolNNNP) MarshalText() ([]byte, error) { return behaveText("MBoolNNNP", deref(x), x) }

type MStringVNNN string

func (x MStringVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStringVNNN", x, nil)
}

type MStringPNNN string

func (x *MStringPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStringPNNN", deref(x), x)
}

type MStringNVNN string

func (x MStringNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNVNN", x, nil)
}

type MStringNPNN string

func (x *MStringNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNPNN", deref(x), x)
}

type MStringNNVN string

func (x MStringNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStringNNVN", x, nil) }

type MStringNNPN string

func (x *MStringNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStringNNPN", deref(x), x) }

type MStringNNNV string

func (x MStringNNNV) MarshalText() ([]byte, error) { return behaveText("MStringNNNV", x, nil) }

type MStringNNNP string

func (x *MStringNNNP) MarshalText() ([]byte, error) { return behaveText("MStringNNNP", deref(x), x) }

type MBytesVNNN []byte

func (x MBytesVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MBytesVNNN", x, nil)
}

type MBytesPNNN []byte

func (x *MBytesPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MBytesPNNN", deref(x), x)
}

type MBytesNVNN []byte

func (x MBytesNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MBytesNVNN", x, nil)
}

type MBytesNPNN []byte

func (x *MBytesNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MBytesNPNN", deref(x), x)
}

type MBytesNNVN []byte

func (x MBytesNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MBytesNNVN", x, nil) }

type MBytesNNPN []byte

func (x *MBytesNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MBytesNNPN", deref(x), x) }

type MBytesNNNV []byte

func (x MBytesNNNV) MarshalText() ([]byte, error) { return behaveText("MBytesNNNV", x, nil) }

type MBytesNNNP []byte

func (x *MBytesNNNP) MarshalText() ([]byte, error) { return behaveText("MBytesNNNP", deref(x), x) }

type MIntsVNNN []int

func (x MIntsVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsVNNN", x, nil)
}

type MIntsPNNN []int

func (x *MIntsPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsPNNN", deref(x), x)
}

type MIntsNVNN []int

func (x MIntsNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsNVNN", x, nil)
}

type MIntsNPNN []int

func (x *MIntsNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsNPNN", deref(x), x)
}

type MIntsNNVN []int

func (x MIntsNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsNNVN", x, nil) }

type MIntsNNPN []int

func (x *MIntsNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsNNPN", deref(x), x) }

type MIntsNNNV []int

func (x MIntsNNNV) MarshalText() ([]byte, error) { return behaveText("MIntsNNNV", x, nil) }

type MIntsNNNP []int

func (x *MIntsNNNP) MarshalText() ([]byte, error) { return behaveText("MIntsNNNP", deref(x), x) }

type MMapVNNN map[string]int

func (x MMapVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVNNN", x, nil)
}

type MMapPNNN map[string]int

func (x *MMapPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapPNNN", deref(x), x)
}

type MMapNVNN map[string]int

func (x MMapNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapNVNN", x, nil)
}

type MMapNPNN map[string]int

func (x *MMapNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapNPNN", deref(x), x)
}

type MMapNNVN map[string]int

func (x MMapNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MMapNNVN", x, nil) }

type MMapNNPN map[string]int

func (x *MMapNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MMapNNPN", deref(x), x) }

type MMapNNNV map[string]int

func (x MMapNNNV) MarshalText() ([]byte, error) { return behaveText("MMapNNNV", x, nil) }

type MMapNNNP map[string]int

func (x *MMapNNNP) MarshalText() ([]byte, error) { return behaveText("MMapNNNP", deref(x), x) }

type MFuncVNNN func()

func (x MFuncVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MFuncVNNN", x, nil)
}

type MFuncPNNN func()

func (x *MFuncPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MFuncPNNN", deref(x), x)
}

type MFuncNVNN func()

func (x MFuncNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MFuncNVNN", x, nil)
}

type MFuncNPNN func()

func (x *MFuncNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MFuncNPNN", deref(x), x)
}

type MFuncNNVN func()

func (x MFuncNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MFuncNNVN", x, nil) }

type MFuncNNPN func()

func (x *MFuncNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MFuncNNPN", deref(x), x) }

type MFuncNNNV func()

func (x MFuncNNNV) MarshalText() ([]byte, error) { return behaveText("MFuncNNNV", x, nil) }

type MFuncNNNP func()

func (x *MFuncNNNP) MarshalText() ([]byte, error) { return behaveText("MFuncNNNP", deref(x), x) }

type MChanVNNN chan int

func (x MChanVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MChanVNNN", x, nil)
}

type MChanPNNN chan int

func (x *MChanPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MChanPNNN", deref(x), x)
}

type MChanNVNN chan int

func (x MChanNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MChanNVNN", x, nil)
}

type MChanNPNN chan int

func (x *MChanNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MChanNPNN", deref(x), x)
}

type MChanNNVN chan int

func (x MChanNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MChanNNVN", x, nil) }

type MChanNNPN chan int

func (x *MChanNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MChanNNPN", deref(x), x) }

type MChanNNNV chan int

func (x MChanNNNV) MarshalText() ([]byte, error) { return behaveText("MChanNNNV", x, nil) }

type MChanNNNP chan int

func (x *MChanNNNP) MarshalText() ([]byte, error) { return behaveText("MChanNNNP", deref(x), x) }

type MArr1PVNNN [1]*int

func (x MArr1PVNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr1PVNNN", x, nil)
}

type MArr1PPNNN [1]*int

func (x *MArr1PPNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr1PPNNN", deref(x), x)
}

type MArr1PNVNN [1]*int

func (x MArr1PNVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr1PNVNN", x, nil)
}

type MArr1PNPNN [1]*int

func (x *MArr1PNPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr1PNPNN", deref(x), x)
}

type MArr1PNNVN [1]*int

func (x MArr1PNNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr1PNNVN", x, nil) }

type MArr1PNNPN [1]*int

func (x *MArr1PNNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr1PNNPN", deref(x), x) }

type MArr1PNNNV [1]*int

func (x MArr1PNNNV) MarshalText() ([]byte, error) { return behaveText("MArr1PNNNV", x, nil) }

type MArr1PNNNP [1]*int

func (x *MArr1PNNNP) MarshalText() ([]byte, error) { return behaveText("MArr1PNNNP", deref(x), x) }

type MArr2VNNN [2]int

func (x MArr2VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr2VNNN", x, nil)
}

type MArr2PNNN [2]int

func (x *MArr2PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr2PNNN", deref(x), x)
}

type MArr2NVNN [2]int

func (x MArr2NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr2NVNN", x, nil)
}

type MArr2NPNN [2]int

func (x *MArr2NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr2NPNN", deref(x), x)
}

type MArr2NNVN [2]int

func (x MArr2NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr2NNVN", x, nil) }

type MArr2NNPN [2]int

func (x *MArr2NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr2NNPN", deref(x), x) }

type MArr2NNNV [2]int

func (x MArr2NNNV) MarshalText() ([]byte, error) { return behaveText("MArr2NNNV", x, nil) }

type MArr2NNNP [2]int

func (x *MArr2NNNP) MarshalText() ([]byte, error) { return behaveText("MArr2NNNP", deref(x), x) }

type MArr0VNNN [0]int

func (x MArr0VNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr0VNNN", x, nil)
}

type MArr0PNNN [0]int

func (x *MArr0PNNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MArr0PNNN", deref(x), x)
}

type MArr0NVNN [0]int

func (x MArr0NVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr0NVNN", x, nil)
}

type MArr0NPNN [0]int

func (x *MArr0NPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MArr0NPNN", deref(x), x)
}

type MArr0NNVN [0]int

func (x MArr0NNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr0NNVN", x, nil) }

type MArr0NNPN [0]int

func (x *MArr0NNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MArr0NNPN", deref(x), x) }

type MArr0NNNV [0]int

func (x MArr0NNNV) MarshalText() ([]byte, error) { return behaveText("MArr0NNNV", x, nil) }

type MArr0NNNP [0]int

func (x *MArr0NNNP) MarshalText() ([]byte, error) { return behaveText("MArr0NNNP", deref(x), x) }

type MStruct2VNPN struct {
	A int
	B string
}

func (x MStruct2VNPN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2VNPN", x, nil)
}
func (x *MStruct2VNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStruct2VNPN", deref(x), x) }

type MStruct2NNVP struct {
	A int
	B string
}

func (x MStruct2NNVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MStruct2NNVP", x, nil) }
func (x *MStruct2NNVP) MarshalText() ([]byte, error) { return behaveText("MStruct2NNVP", deref(x), x) }

type MStruct2PVPP struct {
	A int
	B string
}

func (x *MStruct2PVPP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2PVPP", deref(x), x)
}
func (x MStruct2PVPP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStruct2PVPP", x, nil)
}
func (x *MStruct2PVPP) MarshalJSON() ([]byte, error) { return behaveJSON("MStruct2PVPP", deref(x), x) }
func (x *MStruct2PVPP) MarshalText() ([]byte, error) { return behaveText("MStruct2PVPP", deref(x), x) }

type MStruct2VVNN struct {
	A int
	B string
}

func (x MStruct2VVNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2VVNN", x, nil)
}
func (x MStruct2VVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStruct2VVNN", x, nil)
}

type MStruct2VPVN struct {
	A int
	B string
}

func (x MStruct2VPVN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStruct2VPVN", x, nil)
}
func (x *MStruct2VPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStruct2VPVN", deref(x), x)
}
func (x MStruct2VPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStruct2VPVN", x, nil) }

type MStructPNPNV struct{ P *int }

func (x *MStructPNPNV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNPNV", deref(x), x)
}
func (x MStructPNPNV) MarshalText() ([]byte, error) { return behaveText("MStructPNPNV", x, nil) }

type MStructPNPPN struct{ P *int }

func (x *MStructPNPPN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNPPN", deref(x), x)
}
func (x *MStructPNPPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPNPPN", deref(x), x) }

type MStructPNVVV struct{ P *int }

func (x MStructPNVVV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNVVV", x, nil)
}
func (x MStructPNVVV) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPNVVV", x, nil) }
func (x MStructPNVVV) MarshalText() ([]byte, error) { return behaveText("MStructPNVVV", x, nil) }

type MStructPPPNN struct{ P *int }

func (x *MStructPPPNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPPPNN", deref(x), x)
}
func (x *MStructPPPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPPPNN", deref(x), x)
}

type MStructPVPNN struct{ P *int }

func (x MStructPVPNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPVPNN", x, nil)
}
func (x *MStructPVPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPVPNN", deref(x), x)
}

type MStructPVPVP struct{ P *int }

func (x MStructPVPVP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPVPVP", x, nil)
}
func (x *MStructPVPVP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPVPVP", deref(x), x)
}
func (x MStructPVPVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MStructPVPVP", x, nil) }
func (x *MStructPVPVP) MarshalText() ([]byte, error) { return behaveText("MStructPVPVP", deref(x), x) }

type MStructPVNPV struct{ P *int }

func (x MStructPVNPV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPVNPV", x, nil)
}
func (x *MStructPVNPV) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPVNPV", deref(x), x) }
func (x MStructPVNPV) MarshalText() ([]byte, error)  { return behaveText("MStructPVNPV", x, nil) }

type MStructPPPPN struct{ P *int }

func (x *MStructPPPPN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MStructPPPPN", deref(x), x)
}
func (x *MStructPPPPN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPPPPN", deref(x), x)
}
func (x *MStructPPPPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPPPPN", deref(x), x) }

type MStructPNPPV struct{ P *int }

func (x *MStructPNPPV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNPPV", deref(x), x)
}
func (x *MStructPNPPV) MarshalJSON() ([]byte, error) { return behaveJSON("MStructPNPPV", deref(x), x) }
func (x MStructPNPPV) MarshalText() ([]byte, error)  { return behaveText("MStructPNPPV", x, nil) }

type MStructPNPVP struct{ P *int }

func (x *MStructPNPVP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStructPNPVP", deref(x), x)
}
func (x MStructPNPVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MStructPNPVP", x, nil) }
func (x *MStructPNPVP) MarshalText() ([]byte, error) { return behaveText("MStructPNPVP", deref(x), x) }

type MIntVVNN int

func (x MIntVVNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntVVNN", x, nil)
}
func (x MIntVVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntVVNN", x, nil)
}

type MIntPVVN int

func (x *MIntPVVN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntPVVN", deref(x), x)
}
func (x MIntPVVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntPVVN", x, nil)
}
func (x MIntPVVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntPVVN", x, nil) }

type MIntNPPP int

func (x *MIntNPPP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntNPPP", deref(x), x)
}
func (x *MIntNPPP) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNPPP", deref(x), x) }
func (x *MIntNPPP) MarshalText() ([]byte, error) { return behaveText("MIntNPPP", deref(x), x) }

type MIntPPNP int

func (x *MIntPPNP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntPPNP", deref(x), x)
}
func (x *MIntPPNP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntPPNP", deref(x), x)
}
func (x *MIntPPNP) MarshalText() ([]byte, error) { return behaveText("MIntPPNP", deref(x), x) }

type MIntVVVP int

func (x MIntVVVP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntVVVP", x, nil)
}
func (x MIntVVVP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntVVVP", x, nil)
}
func (x MIntVVVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MIntVVVP", x, nil) }
func (x *MIntVVVP) MarshalText() ([]byte, error) { return behaveText("MIntVVVP", deref(x), x) }

type MIntNNPP int

func (x *MIntNNPP) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNNPP", deref(x), x) }
func (x *MIntNNPP) MarshalText() ([]byte, error) { return behaveText("MIntNNPP", deref(x), x) }

type MIntPPVN int

func (x *MIntPPVN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntPPVN", deref(x), x)
}
func (x *MIntPPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntPPVN", deref(x), x)
}
func (x MIntPPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntPPVN", x, nil) }

type MIntNNVV int

func (x MIntNNVV) MarshalJSON() ([]byte, error) { return behaveJSON("MIntNNVV", x, nil) }
func (x MIntNNVV) MarshalText() ([]byte, error) { return behaveText("MIntNNVV", x, nil) }

type MUint8VNNV uint8

func (x MUint8VNNV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8VNNV", x, nil)
}
func (x MUint8VNNV) MarshalText() ([]byte, error) { return behaveText("MUint8VNNV", x, nil) }

type MUint8NVVN uint8

func (x MUint8NVVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NVVN", x, nil)
}
func (x MUint8NVVN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8NVVN", x, nil) }

type MUint8VNVN uint8

func (x MUint8VNVN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8VNVN", x, nil)
}
func (x MUint8VNVN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8VNVN", x, nil) }

type MUint8NPVN uint8

func (x *MUint8NPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NPVN", deref(x), x)
}
func (x MUint8NPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8NPVN", x, nil) }

type MUint8NVPV uint8

func (x MUint8NVPV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NVPV", x, nil)
}
func (x *MUint8NVPV) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8NVPV", deref(x), x) }
func (x MUint8NVPV) MarshalText() ([]byte, error)  { return behaveText("MUint8NVPV", x, nil) }

type MUint8NPNV uint8

func (x *MUint8NPNV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NPNV", deref(x), x)
}
func (x MUint8NPNV) MarshalText() ([]byte, error) { return behaveText("MUint8NPNV", x, nil) }

type MUint8NPNP uint8

func (x *MUint8NPNP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MUint8NPNP", deref(x), x)
}
func (x *MUint8NPNP) MarshalText() ([]byte, error) { return behaveText("MUint8NPNP", deref(x), x) }

type MUint8VNNP uint8

func (x MUint8VNNP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8VNNP", x, nil)
}
func (x *MUint8VNNP) MarshalText() ([]byte, error) { return behaveText("MUint8VNNP", deref(x), x) }

type MUint8VNPP uint8

func (x MUint8VNPP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MUint8VNPP", x, nil)
}
func (x *MUint8VNPP) MarshalJSON() ([]byte, error) { return behaveJSON("MUint8VNPP", deref(x), x) }
func (x *MUint8VNPP) MarshalText() ([]byte, error) { return behaveText("MUint8VNPP", deref(x), x) }

type MStringNPVN string

func (x *MStringNPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNPVN", deref(x), x)
}
func (x MStringNPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MStringNPVN", x, nil) }

type MStringNVNV string

func (x MStringNVNV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNVNV", x, nil)
}
func (x MStringNVNV) MarshalText() ([]byte, error) { return behaveText("MStringNVNV", x, nil) }

type MStringNVVP string

func (x MStringNVVP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNVVP", x, nil)
}
func (x MStringNVVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MStringNVVP", x, nil) }
func (x *MStringNVVP) MarshalText() ([]byte, error) { return behaveText("MStringNVVP", deref(x), x) }

type MStringNNVP string

func (x MStringNNVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MStringNNVP", x, nil) }
func (x *MStringNNVP) MarshalText() ([]byte, error) { return behaveText("MStringNNVP", deref(x), x) }

type MStringNVPN string

func (x MStringNVPN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MStringNVPN", x, nil)
}
func (x *MStringNVPN) MarshalJSON() ([]byte, error) { return behaveJSON("MStringNVPN", deref(x), x) }

type MIntsNPVN []int

func (x *MIntsNPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsNPVN", deref(x), x)
}
func (x MIntsNPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsNPVN", x, nil) }

type MIntsVPPN []int

func (x MIntsVPPN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsVPPN", x, nil)
}
func (x *MIntsVPPN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsVPPN", deref(x), x)
}
func (x *MIntsVPPN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsVPPN", deref(x), x) }

type MIntsVNPN []int

func (x MIntsVNPN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsVNPN", x, nil)
}
func (x *MIntsVNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsVNPN", deref(x), x) }

type MIntsPNPP []int

func (x *MIntsPNPP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsPNPP", deref(x), x)
}
func (x *MIntsPNPP) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsPNPP", deref(x), x) }
func (x *MIntsPNPP) MarshalText() ([]byte, error) { return behaveText("MIntsPNPP", deref(x), x) }

type MIntsVNNP []int

func (x MIntsVNNP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsVNNP", x, nil)
}
func (x *MIntsVNNP) MarshalText() ([]byte, error) { return behaveText("MIntsVNNP", deref(x), x) }

type MIntsNVNV []int

func (x MIntsNVNV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsNVNV", x, nil)
}
func (x MIntsNVNV) MarshalText() ([]byte, error) { return behaveText("MIntsNVNV", x, nil) }

type MIntsPPNN []int

func (x *MIntsPPNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsPPNN", deref(x), x)
}
func (x *MIntsPPNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsPPNN", deref(x), x)
}

type MIntsNPPV []int

func (x *MIntsNPPV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsNPPV", deref(x), x)
}
func (x *MIntsNPPV) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsNPPV", deref(x), x) }
func (x MIntsNPPV) MarshalText() ([]byte, error)  { return behaveText("MIntsNPPV", x, nil) }

type MIntsPNVV []int

func (x *MIntsPNVV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsPNVV", deref(x), x)
}
func (x MIntsPNVV) MarshalJSON() ([]byte, error) { return behaveJSON("MIntsPNVV", x, nil) }
func (x MIntsPNVV) MarshalText() ([]byte, error) { return behaveText("MIntsPNVV", x, nil) }

type MIntsPPNP []int

func (x *MIntsPPNP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsPPNP", deref(x), x)
}
func (x *MIntsPPNP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsPPNP", deref(x), x)
}
func (x *MIntsPPNP) MarshalText() ([]byte, error) { return behaveText("MIntsPPNP", deref(x), x) }

type MIntsVVNN []int

func (x MIntsVVNN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MIntsVVNN", x, nil)
}
func (x MIntsVVNN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MIntsVVNN", x, nil)
}

type MMapVNNV map[string]int

func (x MMapVNNV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVNNV", x, nil)
}
func (x MMapVNNV) MarshalText() ([]byte, error) { return behaveText("MMapVNNV", x, nil) }

type MMapNPVP map[string]int

func (x *MMapNPVP) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapNPVP", deref(x), x)
}
func (x MMapNPVP) MarshalJSON() ([]byte, error)  { return behaveJSON("MMapNPVP", x, nil) }
func (x *MMapNPVP) MarshalText() ([]byte, error) { return behaveText("MMapNPVP", deref(x), x) }

type MMapNPVN map[string]int

func (x *MMapNPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapNPVN", deref(x), x)
}
func (x MMapNPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MMapNPVN", x, nil) }

type MMapVNNP map[string]int

func (x MMapVNNP) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVNNP", x, nil)
}
func (x *MMapVNNP) MarshalText() ([]byte, error) { return behaveText("MMapVNNP", deref(x), x) }

type MMapVNPN map[string]int

func (x MMapVNPN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVNPN", x, nil)
}
func (x *MMapVNPN) MarshalJSON() ([]byte, error) { return behaveJSON("MMapVNPN", deref(x), x) }

type MMapVPVN map[string]int

func (x MMapVPVN) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVPVN", x, nil)
}
func (x *MMapVPVN) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapVPVN", deref(x), x)
}
func (x MMapVPVN) MarshalJSON() ([]byte, error) { return behaveJSON("MMapVPVN", x, nil) }

type MMapVVNV map[string]int

func (x MMapVVNV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapVVNV", x, nil)
}
func (x MMapVVNV) AppendJSON(dst []byte) ([]byte, error) {
	return behaveAppend(dst, "MMapVVNV", x, nil)
}
func (x MMapVVNV) MarshalText() ([]byte, error) { return behaveText("MMapVVNV", x, nil) }

type MMapPNVV map[string]int

func (x *MMapPNVV) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	return behaveAppendCtx(ctx, dst, "MMapPNVV", deref(x), x)
}
func (x MMapPNVV) MarshalJSON() ([]byte, error) { return behaveJSON("MMapPNVV", x, nil) }
func (x MMapPNVV) MarshalText() ([]byte, error) { return behaveText("MMapPNVV", x, nil) }

var marshTypes = []reflect.Type{
	reflect.TypeOf((*MStruct2VNNN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2PNNN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NVNN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NPNN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NNVN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NNPN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NNNV)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NNNP)(nil)).Elem(),
	reflect.TypeOf((*MStructPVNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPPNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNVNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNNVN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNNPN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNNNV)(nil)).Elem(),
	reflect.TypeOf((*MStructPNNNP)(nil)).Elem(),
	reflect.TypeOf((*MStructSVNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructSPNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructSNVNN)(nil)).Elem(),
	reflect.TypeOf((*MStructSNPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructSNNVN)(nil)).Elem(),
	reflect.TypeOf((*MStructSNNPN)(nil)).Elem(),
	reflect.TypeOf((*MStructSNNNV)(nil)).Elem(),
	reflect.TypeOf((*MStructSNNNP)(nil)).Elem(),
	reflect.TypeOf((*MStructMVNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructMPNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructMNVNN)(nil)).Elem(),
	reflect.TypeOf((*MStructMNPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructMNNVN)(nil)).Elem(),
	reflect.TypeOf((*MStructMNNPN)(nil)).Elem(),
	reflect.TypeOf((*MStructMNNNV)(nil)).Elem(),
	reflect.TypeOf((*MStructMNNNP)(nil)).Elem(),
	reflect.TypeOf((*MStructEVNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructEPNNN)(nil)).Elem(),
	reflect.TypeOf((*MStructENVNN)(nil)).Elem(),
	reflect.TypeOf((*MStructENPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructENNVN)(nil)).Elem(),
	reflect.TypeOf((*MStructENNPN)(nil)).Elem(),
	reflect.TypeOf((*MStructENNNV)(nil)).Elem(),
	reflect.TypeOf((*MStructENNNP)(nil)).Elem(),
	reflect.TypeOf((*MIntVNNN)(nil)).Elem(),
	reflect.TypeOf((*MIntPNNN)(nil)).Elem(),
	reflect.TypeOf((*MIntNVNN)(nil)).Elem(),
	reflect.TypeOf((*MIntNPNN)(nil)).Elem(),
	reflect.TypeOf((*MIntNNVN)(nil)).Elem(),
	reflect.TypeOf((*MIntNNPN)(nil)).Elem(),
	reflect.TypeOf((*MIntNNNV)(nil)).Elem(),
	reflect.TypeOf((*MIntNNNP)(nil)).Elem(),
	reflect.TypeOf((*MInt8VNNN)(nil)).Elem(),
	reflect.TypeOf((*MInt8PNNN)(nil)).Elem(),
	reflect.TypeOf((*MInt8NVNN)(nil)).Elem(),
	reflect.TypeOf((*MInt8NPNN)(nil)).Elem(),
	reflect.TypeOf((*MInt8NNVN)(nil)).Elem(),
	reflect.TypeOf((*MInt8NNPN)(nil)).Elem(),
	reflect.TypeOf((*MInt8NNNV)(nil)).Elem(),
	reflect.TypeOf((*MInt8NNNP)(nil)).Elem(),
	reflect.TypeOf((*MUint8VNNN)(nil)).Elem(),
	reflect.TypeOf((*MUint8PNNN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NVNN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NPNN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NNVN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NNPN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NNNV)(nil)).Elem(),
	reflect.TypeOf((*MUint8NNNP)(nil)).Elem(),
	reflect.TypeOf((*MUint16VNNN)(nil)).Elem(),
	reflect.TypeOf((*MUint16PNNN)(nil)).Elem(),
	reflect.TypeOf((*MUint16NVNN)(nil)).Elem(),
	reflect.TypeOf((*MUint16NPNN)(nil)).Elem(),
	reflect.TypeOf((*MUint16NNVN)(nil)).Elem(),
	reflect.TypeOf((*MUint16NNPN)(nil)).Elem(),
	reflect.TypeOf((*MUint16NNNV)(nil)).Elem(),
	reflect.TypeOf((*MUint16NNNP)(nil)).Elem(),
	reflect.TypeOf((*MInt64VNNN)(nil)).Elem(),
	reflect.TypeOf((*MInt64PNNN)(nil)).Elem(),
	reflect.TypeOf((*MInt64NVNN)(nil)).Elem(),
	reflect.TypeOf((*MInt64NPNN)(nil)).Elem(),
	reflect.TypeOf((*MInt64NNVN)(nil)).Elem(),
	reflect.TypeOf((*MInt64NNPN)(nil)).Elem(),
	reflect.TypeOf((*MInt64NNNV)(nil)).Elem(),
	reflect.TypeOf((*MInt64NNNP)(nil)).Elem(),
	reflect.TypeOf((*MFloat64VNNN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64PNNN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NVNN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NPNN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NNVN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NNPN)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NNNV)(nil)).Elem(),
	reflect.TypeOf((*MFloat64NNNP)(nil)).Elem(),
	reflect.TypeOf((*MBoolVNNN)(nil)).Elem(),
	reflect.TypeOf((*MBoolPNNN)(nil)).Elem(),
	reflect.TypeOf((*MBoolNVNN)(nil)).Elem(),
	reflect.TypeOf((*MBoolNPNN)(nil)).Elem(),
	reflect.TypeOf((*MBoolNNVN)(nil)).Elem(),
	reflect.TypeOf((*MBoolNNPN)(nil)).Elem(),
	reflect.TypeOf((*MBoolNNNV)(nil)).Elem(),
	reflect.TypeOf((*MBoolNNNP)(nil)).Elem(),
	reflect.TypeOf((*MStringVNNN)(nil)).Elem(),
	reflect.TypeOf((*MStringPNNN)(nil)).Elem(),
	reflect.TypeOf((*MStringNVNN)(nil)).Elem(),
	reflect.TypeOf((*MStringNPNN)(nil)).Elem(),
	reflect.TypeOf((*MStringNNVN)(nil)).Elem(),
	reflect.TypeOf((*MStringNNPN)(nil)).Elem(),
	reflect.TypeOf((*MStringNNNV)(nil)).Elem(),
	reflect.TypeOf((*MStringNNNP)(nil)).Elem(),
	reflect.TypeOf((*MBytesVNNN)(nil)).Elem(),
	reflect.TypeOf((*MBytesPNNN)(nil)).Elem(),
	reflect.TypeOf((*MBytesNVNN)(nil)).Elem(),
	reflect.TypeOf((*MBytesNPNN)(nil)).Elem(),
	reflect.TypeOf((*MBytesNNVN)(nil)).Elem(),
	reflect.TypeOf((*MBytesNNPN)(nil)).Elem(),
	reflect.TypeOf((*MBytesNNNV)(nil)).Elem(),
	reflect.TypeOf((*MBytesNNNP)(nil)).Elem(),
	reflect.TypeOf((*MIntsVNNN)(nil)).Elem(),
	reflect.TypeOf((*MIntsPNNN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNVNN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNPNN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNNVN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNNPN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNNNV)(nil)).Elem(),
	reflect.TypeOf((*MIntsNNNP)(nil)).Elem(),
	reflect.TypeOf((*MMapVNNN)(nil)).Elem(),
	reflect.TypeOf((*MMapPNNN)(nil)).Elem(),
	reflect.TypeOf((*MMapNVNN)(nil)).Elem(),
	reflect.TypeOf((*MMapNPNN)(nil)).Elem(),
	reflect.TypeOf((*MMapNNVN)(nil)).Elem(),
	reflect.TypeOf((*MMapNNPN)(nil)).Elem(),
	reflect.TypeOf((*MMapNNNV)(nil)).Elem(),
	reflect.TypeOf((*MMapNNNP)(nil)).Elem(),
	reflect.TypeOf((*MFuncVNNN)(nil)).Elem(),
	reflect.TypeOf((*MFuncPNNN)(nil)).Elem(),
	reflect.TypeOf((*MFuncNVNN)(nil)).Elem(),
	reflect.TypeOf((*MFuncNPNN)(nil)).Elem(),
	reflect.TypeOf((*MFuncNNVN)(nil)).Elem(),
	reflect.TypeOf((*MFuncNNPN)(nil)).Elem(),
	reflect.TypeOf((*MFuncNNNV)(nil)).Elem(),
	reflect.TypeOf((*MFuncNNNP)(nil)).Elem(),
	reflect.TypeOf((*MChanVNNN)(nil)).Elem(),
	reflect.TypeOf((*MChanPNNN)(nil)).Elem(),
	reflect.TypeOf((*MChanNVNN)(nil)).Elem(),
	reflect.TypeOf((*MChanNPNN)(nil)).Elem(),
	reflect.TypeOf((*MChanNNVN)(nil)).Elem(),
	reflect.TypeOf((*MChanNNPN)(nil)).Elem(),
	reflect.TypeOf((*MChanNNNV)(nil)).Elem(),
	reflect.TypeOf((*MChanNNNP)(nil)).Elem(),
	reflect.TypeOf((*MArr1PVNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PPNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNVNN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNPNN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNNVN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNNPN)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNNNV)(nil)).Elem(),
	reflect.TypeOf((*MArr1PNNNP)(nil)).Elem(),
	reflect.TypeOf((*MArr2VNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr2PNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr2NVNN)(nil)).Elem(),
	reflect.TypeOf((*MArr2NPNN)(nil)).Elem(),
	reflect.TypeOf((*MArr2NNVN)(nil)).Elem(),
	reflect.TypeOf((*MArr2NNPN)(nil)).Elem(),
	reflect.TypeOf((*MArr2NNNV)(nil)).Elem(),
	reflect.TypeOf((*MArr2NNNP)(nil)).Elem(),
	reflect.TypeOf((*MArr0VNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr0PNNN)(nil)).Elem(),
	reflect.TypeOf((*MArr0NVNN)(nil)).Elem(),
	reflect.TypeOf((*MArr0NPNN)(nil)).Elem(),
	reflect.TypeOf((*MArr0NNVN)(nil)).Elem(),
	reflect.TypeOf((*MArr0NNPN)(nil)).Elem(),
	reflect.TypeOf((*MArr0NNNV)(nil)).Elem(),
	reflect.TypeOf((*MArr0NNNP)(nil)).Elem(),
	reflect.TypeOf((*MStruct2VNPN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2NNVP)(nil)).Elem(),
	reflect.TypeOf((*MStruct2PVPP)(nil)).Elem(),
	reflect.TypeOf((*MStruct2VVNN)(nil)).Elem(),
	reflect.TypeOf((*MStruct2VPVN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNPNV)(nil)).Elem(),
	reflect.TypeOf((*MStructPNPPN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNVVV)(nil)).Elem(),
	reflect.TypeOf((*MStructPPPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPVPNN)(nil)).Elem(),
	reflect.TypeOf((*MStructPVPVP)(nil)).Elem(),
	reflect.TypeOf((*MStructPVNPV)(nil)).Elem(),
	reflect.TypeOf((*MStructPPPPN)(nil)).Elem(),
	reflect.TypeOf((*MStructPNPPV)(nil)).Elem(),
	reflect.TypeOf((*MStructPNPVP)(nil)).Elem(),
	reflect.TypeOf((*MIntVVNN)(nil)).Elem(),
	reflect.TypeOf((*MIntPVVN)(nil)).Elem(),
	reflect.TypeOf((*MIntNPPP)(nil)).Elem(),
	reflect.TypeOf((*MIntPPNP)(nil)).Elem(),
	reflect.TypeOf((*MIntVVVP)(nil)).Elem(),
	reflect.TypeOf((*MIntNNPP)(nil)).Elem(),
	reflect.TypeOf((*MIntPPVN)(nil)).Elem(),
	reflect.TypeOf((*MIntNNVV)(nil)).Elem(),
	reflect.TypeOf((*MUint8VNNV)(nil)).Elem(),
	reflect.TypeOf((*MUint8NVVN)(nil)).Elem(),
	reflect.TypeOf((*MUint8VNVN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NPVN)(nil)).Elem(),
	reflect.TypeOf((*MUint8NVPV)(nil)).Elem(),
	reflect.TypeOf((*MUint8NPNV)(nil)).Elem(),
	reflect.TypeOf((*MUint8NPNP)(nil)).Elem(),
	reflect.TypeOf((*MUint8VNNP)(nil)).Elem(),
	reflect.TypeOf((*MUint8VNPP)(nil)).Elem(),
	reflect.TypeOf((*MStringNPVN)(nil)).Elem(),
	reflect.TypeOf((*MStringNVNV)(nil)).Elem(),
	reflect.TypeOf((*MStringNVVP)(nil)).Elem(),
	reflect.TypeOf((*MStringNNVP)(nil)).Elem(),
	reflect.TypeOf((*MStringNVPN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNPVN)(nil)).Elem(),
	reflect.TypeOf((*MIntsVPPN)(nil)).Elem(),
	reflect.TypeOf((*MIntsVNPN)(nil)).Elem(),
	reflect.TypeOf((*MIntsPNPP)(nil)).Elem(),
	reflect.TypeOf((*MIntsVNNP)(nil)).Elem(),
	reflect.TypeOf((*MIntsNVNV)(nil)).Elem(),
	reflect.TypeOf((*MIntsPPNN)(nil)).Elem(),
	reflect.TypeOf((*MIntsNPPV)(nil)).Elem(),
	reflect.TypeOf((*MIntsPNVV)(nil)).Elem(),
	reflect.TypeOf((*MIntsPPNP)(nil)).Elem(),
	reflect.TypeOf((*MIntsVVNN)(nil)).Elem(),
	reflect.TypeOf((*MMapVNNV)(nil)).Elem(),
	reflect.TypeOf((*MMapNPVP)(nil)).Elem(),
	reflect.TypeOf((*MMapNPVN)(nil)).Elem(),
	reflect.TypeOf((*MMapVNNP)(nil)).Elem(),
	reflect.TypeOf((*MMapVNPN)(nil)).Elem(),
	reflect.TypeOf((*MMapVPVN)(nil)).Elem(),
	reflect.TypeOf((*MMapVVNV)(nil)).Elem(),
	reflect.TypeOf((*MMapPNVV)(nil)).Elem(),
}
