package contracts

// The instruction of each type.

// ---- strings between quotes

//@ range 1 -
func quotedI(f Fn) Fn
func O_quotedI(f Fn, p Ptr, o encOpts) Bytes { return `"` + O(f, p, o) + `"` }
func E_quotedI(f Fn, p Ptr, o encOpts) Err   { return E(f, p, o) }

// inlineI: the value is the data word of an interface.
//@ range 1 -
func inlineI(f Fn) Fn
func O_inlineI(f Fn, p Ptr, o encOpts) Bytes { return O(f, cell(p), o) }
func E_inlineI(f Fn, p Ptr, o encOpts) Err   { return E(f, cell(p), o) }

//@ range 1 -
func nilKeyI(f Fn) Fn
func O_nilKeyI(f Fn, p Ptr, o encOpts) Bytes { return ite(ld_ptr(p) == 0, `""`, O(f, p, o)) }
func E_nilKeyI(f Fn, p Ptr, o encOpts) Err   { return ite(ld_ptr(p) == 0, nil, E(f, p, o)) }

//@ func wrapInlineInstr(ins) (r)
//@ props P08 P11 P15
//@ requires ins != 0
//@ ensures fneq(r, inlineI(ins))

//@ func wrapTextMarshalerNilCheck(ins) (r)
//@ props P10 P11 P14 P22
//@ requires ins != 0
//@ ensures fneq(r, nilKeyI(ins))

// ---- the types of Go that have their own form

func goI(t Type) Fn {
	switch {
	case t == typ("sync.Map"):
		return encodeSyncMap
	case t == typ("time.Time"):
		return encodeTime
	case t == typ("time.Duration"):
		return encodeDuration
	case t == typ("json.Number"):
		return encodeNumber
	case t == typ("json.RawMessage"):
		return encodeRawMessage
	}
	return 0
}

//@ func newGoTypeInstr(t) (r)
//@ props P04 P05 P06 P07 P11 P14 P15
//@ requires t != 0
//@ ensures fneq(r, goI(t))

// ---- basic types

//@ opaque
func basicI(t Type, q bool) Fn {
	k := kind(t)
	if k == 24 {
		return ite(q, encodeQuotedString, encodeString)
	}
	f := basicF(k)
	return ite(f == 0, 0, ite(q, quotedI(f), f))
}
func basicF(k int) Fn {
	switch {
	case k == 1:
		return encodeBool
	case k == 2:
		return encodeInt
	case k == 3:
		return encodeInt8
	case k == 4:
		return encodeInt16
	case k == 5:
		return encodeInt32
	case k == 6:
		return encodeInt64
	case k == 7:
		return encodeUint
	case k == 8:
		return encodeUint8
	case k == 9:
		return encodeUint16
	case k == 10:
		return encodeUint32
	case k == 11:
		return encodeUint64
	case k == 12:
		return encodeUintptr
	case k == 13:
		return encodeFloat32
	case k == 14:
		return encodeFloat64
	}
	return 0
}

//@ func newStringInstr(quoted) (r)
//@ props P01 P15
//@ ensures fneq(r, ite(quoted, encodeQuotedString, encodeString))

//@ func newBasicTypeInstr(t, quoted) (r)
//@ props P01 P02 P03 P10 P15
//@ requires t != 0
//@ ensures fneq(r, basicI(t, quoted))

// ---- types that cannot be encoded

//@ range 1 -
func unsupI(t Type) Fn
func O_unsupI(t Type, p Ptr, o encOpts) Bytes { return "" }
func E_unsupI(t Type, p Ptr, o encOpts) Err   { return utype(t) }

//@ func newUnsupportedTypeInstr(t) (r)
//@ props P10 P15 P18 P21
//@ requires t != 0
//@ ensures fneq(r, unsupI(t))

// ---- pointers, slices, arrays

//@ range 1 -
func ptrI(f Fn) Fn
func O_ptrI(f Fn, p Ptr, o encOpts) Bytes { return ite(ld_ptr(p) == 0, "null", O(f, ld_ptr(p), o)) }
func E_ptrI(f Fn, p Ptr, o encOpts) Err   { return ite(ld_ptr(p) == 0, nil, E(f, ld_ptr(p), o)) }

//@ func newPtrInstr(t, quoted) (r)
//@ props P08 P15 P20 P21 P22
//@ requires t != 0 && kind(t) == 22
//@ ensures fneq(r, ptrI(encI(elem(t), true, quoted)))

// isBA tells whether the elements of type t are plain bytes.
func isBA(t Type) bool {
	return kind(t) == 8 && !implements(ptrTo(t), typ("json.Marshaler")) && !implements(ptrTo(t), typ("encoding.TextMarshaler"))
}

//@ range 1 -
func arrI(f Fn, es int, n int, ba bool) Fn
func O_arrI(f Fn, es int, n int, ba bool, p Ptr, o encOpts) Bytes {
	return ite(ba && flag(o.flags, byteArrayAsString), baStrO(p, o, n), arrayO(f, p, o, es, n))
}
func E_arrI(f Fn, es int, n int, ba bool, p Ptr, o encOpts) Err {
	return ite(ba && flag(o.flags, byteArrayAsString), nil, elemsE(f, p, o, es, n, 0))
}

//@ func newArrayInstr(t, canAddr) (r)
//@ props P08 P09 P15 P20 P21 P22
//@ requires t != 0 && kind(t) == 17
//@ ensures fneq(r, arrI(encI(elem(t), canAddr, false), tsize(elem(t)), tlen(t), isBA(elem(t))))

//@ range 1 -
func sliceI(f Fn, es int) Fn
func O_sliceI(f Fn, es int, p Ptr, o encOpts) Bytes {
	return ite(ld_ptr(p) == 0, ite(flag(o.flags, nilSliceEmpty), "[]", "null"), arrayO(f, ld_ptr(p), o, es, ld_int(p+8)))
}
func E_sliceI(f Fn, es int, p Ptr, o encOpts) Err {
	return ite(ld_ptr(p) == 0, nil, elemsE(f, ld_ptr(p), o, es, ld_int(p+8), 0))
}

//@ func newSliceInstr(t) (r)
//@ props P08 P09 P15 P16 P20 P21 P22
//@ requires t != 0 && kind(t) == 23
//@ ensures fneq(r, ite(isBA(elem(t)), encodeByteSlice, sliceI(encI(elem(t), true, false), tsize(elem(t)))))

// ---- maps

//@ opaque
func mapKeyI(t Type) Fn {
	switch {
	case kind(t) == 24:
		return encodeString
	case t == typ("time.Time"):
		return encodeTimeKey
	case t == typ("time.Duration"):
		return encodeDurationKey
	case implements(t, typ("encoding.TextMarshaler")):
		return ite(kind(t) == 22 || kind(t) == 20, nilKeyI(mtI(t, false)), mtI(t, false))
	case isIntKind(kind(t)):
		return basicI(t, true)
	}
	return 0
}
func isIntKind(k int) bool { return 2 <= k && k <= 12 }

//@ func isInteger(t) (r)
//@ props P10 P11 P15
//@ requires t != 0
//@ ensures r == isIntKind(kind(t))

//@ func isBasicType(t) (r)
//@ props P13 P15
//@ requires t != 0
//@ ensures r == (1 <= kind(t) && kind(t) <= 14 || kind(t) == 24)

//@ func newMapKeyInstr(t) (r)
//@ props P10 P11 P21 P22 P23
//@ requires t != 0
//@ ensures fneq(r, mapKeyI(t))

// ---- all types

//@ opaque
//@ range 1 -
func encI(t Type, ca bool, q bool) Fn {
	switch {
	case goI(t) != 0:
		return ite(q && t == typ("json.Number"), quotedI(goI(t)), goI(t))
	case kind(t) == 22 && goI(elem(t)) != 0:
		return ptrI(encI(elem(t), true, q))
	case marshI(t, ca) != 0:
		return marshI(t, ca)
	case basicI(t, q) != 0:
		return basicI(t, q)
	case kind(t) == 20:
		return ite(nummethod(t) != 0, encodeMethodsInterface, encodeInterface)
	case kind(t) == 25:
		return sharedI(t, ca)
	case kind(t) == 21 || kind(t) == 23 || kind(t) == 17 || kind(t) == 22:
		return ite(tname(t) != "" && !q, sharedI(t, ca), elemI(t, ca, q))
	}
	return unsupI(t)
}

//@ opaque
//@ range 1 -
func sharedI(t Type, ca bool) Fn {
	return ite(kind(t) == 25, structI(t, ca), elemI(t, ca, false))
}

//@ opaque
//@ range 1 -
func elemI(t Type, ca bool, q bool) Fn {
	switch {
	case kind(t) == 21:
		return ite(mapKeyI(mapkey(t)) == 0, unsupI(t), mapI(mapKeyI(mapkey(t)), encI(elem(t), false, false)))
	case kind(t) == 23:
		return ite(isBA(elem(t)), encodeByteSlice, sliceI(encI(elem(t), true, false), tsize(elem(t))))
	case kind(t) == 17:
		return arrI(encI(elem(t), ca, false), tsize(elem(t)), tlen(t), isBA(elem(t)))
	}
	return ptrI(encI(elem(t), true, q))
}

//@ func newElemInstr(t, canAddr, quoted) (r)
//@ props P08 P09 P10 P15 P20 P21 P22
//@ requires t != 0 && (kind(t) == 21 || kind(t) == 23 || kind(t) == 17 || kind(t) == 22)
//@ ensures fneq(r, elemI(t, canAddr, quoted))

//@ cache sharedInstrCache instruction (t Type, ca bool): sharedI(t, ca)

//@ func newInstruction(t, canAddr, quoted) (r)
//@ fuel 2
//@ props P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P14 P15 P20 P22
//@ requires t != 0
//@ ensures fneq(r, encI(t, canAddr, quoted))

//@ func newStructInstr(t, canAddr) (r)
//@ props P12 P15 P20 P22
//@ requires t != 0 && kind(t) == 25
//@ ensures fneq(r, sharedI(t, canAddr))

// ---- the instruction of a value in an interface

//@ opaque
//@ range 1 -
func topI(t Type) Fn {
	return ite(inlined(t), inlineI(encI(t, kind(t) == 22, false)), encI(t, kind(t) == 22, false))
}

//@ cache instrCache instruction (t Type): topI(t)

//@ func cachedInstr(t) (r)
//@ props P08 P15 P19 P20 P22
//@ requires t != 0
//@ ensures fneq(r, topI(t))
