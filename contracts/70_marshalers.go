package contracts

// Marshalers.

//@ func encodeAppendMarshalerCtx(i, dst, o, t) (r, err)
//@ props P14 P18 P21 P22
//@ requires itype(i) != 0 && implements(itype(i), typ("AppendMarshalerCtx"))
//@ appends dst
//@ out amcOut(i, o.ctx)
//@ err ite(amcErr(i, o.ctx) == 0, nil, marsherr(t, amcErr(i, o.ctx)))

//@ func encodeAppendMarshaler(i, dst, o, t) (r, err)
//@ props P14 P18 P21 P22
//@ requires itype(i) != 0 && implements(itype(i), typ("AppendMarshaler"))
//@ appends dst
//@ out amOut(i)
//@ err ite(amErr(i) == 0, nil, marsherr(t, amErr(i)))

func jsonErr(i Iface, o encOpts, t Type) Err {
	if mjErr(i) != 0 {
		return marsherr(t, mjErr(i))
	}
	if !flag(o.flags, noCompact) && !jvalid(mjOut(i)) {
		return marsherr(t, anyerr())
	}
	return nil
}

//@ func encodeJSONMarshaler(i, dst, o, t) (r, err)
//@ props P07 P14 P16 P18 P21 P22 P23
//@ requires itype(i) != 0 && implements(itype(i), typ("json.Marshaler"))
//@ appends dst
//@ out compacted(mjOut(i), o)
//@ err jsonErr(i, o, t)

//@ func encodeTextMarshaler(i, dst, o, t) (r, err)
//@ props P01 P10 P11 P14 P16 P18 P21 P22 P23
//@ requires itype(i) != 0 && implements(itype(i), typ("encoding.TextMarshaler"))
//@ appends dst
//@ out `"` + escaped(mtOut(i), o) + `"`
//@ err ite(mtErr(i) == 0, nil, marsherr(t, mtErr(i)))

// ---- the instructions of the marshalers

//@ func isInlined(t) (r)
//@ props P08 P11 P14
//@ requires t != 0
//@ ensures r == inlined(t)

// inlined tells whether a value of type t is stored directly in
// the data word of an interface.
//@ opaque
func inlined(t Type) bool {
	switch {
	case kind(t) == 22 || kind(t) == 21 || kind(t) == 18 || kind(t) == 19 || kind(t) == 26:
		return true
	case kind(t) == 17:
		return tlen(t) == 1 && inlined(elem(t))
	case kind(t) == 25:
		return numfield(t) == 1 && inlined(tfield(t, 0).Type)
	}
	return false
}

// marshNil tells whether the value of type t at p is null.
func marshNil(t Type, hasPtr bool, p Ptr) bool {
	return !hasPtr && (kind(t) == 22 || kind(t) == 20) && ld_ptr(p) == 0
}

// marshVal is the value whose method is called: the pointer p, or
// the value of type t at p, or the one in the interface at p.
func marshVal(t Type, hasPtr bool, p Ptr) Iface {
	if hasPtr {
		return iface(ptrTo(t), p)
	}
	if kind(t) == 20 {
		return ite(nummethod(t) == 0, iface(ld_ptr(p), ld_ptr(p+8)), iface(itabtype(ld_ptr(p)), ld_ptr(p+8)))
	}
	return iface(t, ite(inlined(t), ld_ptr(p), p))
}
func marshTyp(t Type, hasPtr bool) Type { return ite(hasPtr, ptrTo(t), t) }

func mImpl(t Type, hasPtr bool, m Type) bool {
	return t != 0 && implements(marshTyp(t, hasPtr), m) && imp(hasPtr, kind(t) != 22)
}

//@ range 1 -
func amcI(t Type, hasPtr bool) Fn
func O_amcI(t Type, hasPtr bool, p Ptr, o encOpts) Bytes {
	return ite(marshNil(t, hasPtr, p), "null", amcOut(marshVal(t, hasPtr, p), o.ctx))
}
func E_amcI(t Type, hasPtr bool, p Ptr, o encOpts) Err {
	return ite(marshNil(t, hasPtr, p) || amcErr(marshVal(t, hasPtr, p), o.ctx) == 0, nil, marsherr(marshTyp(t, hasPtr), amcErr(marshVal(t, hasPtr, p), o.ctx)))
}

//@ func newAppendMarshalerCtxInstr(t, hasPtr) (r)
//@ props P14 P15 P21 P22
//@ requires mImpl(t, hasPtr, typ("AppendMarshalerCtx"))
//@ ensures fneq(r, amcI(t, hasPtr))

//@ range 1 -
func amI(t Type, hasPtr bool) Fn
func O_amI(t Type, hasPtr bool, p Ptr, o encOpts) Bytes {
	return ite(marshNil(t, hasPtr, p), "null", amOut(marshVal(t, hasPtr, p)))
}
func E_amI(t Type, hasPtr bool, p Ptr, o encOpts) Err {
	return ite(marshNil(t, hasPtr, p) || amErr(marshVal(t, hasPtr, p)) == 0, nil, marsherr(marshTyp(t, hasPtr), amErr(marshVal(t, hasPtr, p))))
}

//@ func newAppendMarshalerInstr(t, hasPtr) (r)
//@ props P14 P15 P21 P22
//@ requires mImpl(t, hasPtr, typ("AppendMarshaler"))
//@ ensures fneq(r, amI(t, hasPtr))

//@ range 1 -
func mjI(t Type, hasPtr bool) Fn
func O_mjI(t Type, hasPtr bool, p Ptr, o encOpts) Bytes {
	return ite(marshNil(t, hasPtr, p), "null", compacted(mjOut(marshVal(t, hasPtr, p)), o))
}
func E_mjI(t Type, hasPtr bool, p Ptr, o encOpts) Err {
	return ite(marshNil(t, hasPtr, p), nil, jsonErr(marshVal(t, hasPtr, p), o, marshTyp(t, hasPtr)))
}

//@ func newJSONMarshalerInstr(t, hasPtr) (r)
//@ props P07 P14 P15 P21 P22 P23
//@ requires mImpl(t, hasPtr, typ("json.Marshaler"))
//@ ensures fneq(r, mjI(t, hasPtr))

//@ range 1 -
func mtI(t Type, hasPtr bool) Fn
func O_mtI(t Type, hasPtr bool, p Ptr, o encOpts) Bytes {
	return ite(marshNil(t, hasPtr, p), "null", `"`+escaped(mtOut(marshVal(t, hasPtr, p)), o)+`"`)
}
func E_mtI(t Type, hasPtr bool, p Ptr, o encOpts) Err {
	return ite(marshNil(t, hasPtr, p) || mtErr(marshVal(t, hasPtr, p)) == 0, nil, marsherr(marshTyp(t, hasPtr), mtErr(marshVal(t, hasPtr, p))))
}

//@ func newTextMarshalerInstr(t, hasPtr) (r)
//@ props P01 P10 P11 P14 P15 P21 P22 P23
//@ requires mImpl(t, hasPtr, typ("encoding.TextMarshaler"))
//@ ensures fneq(r, mtI(t, hasPtr))

// newMarshalerTypeInstr: in order of precedence.
func mOf(t Type, ca bool, m Type) bool {
	return implements(t, m) || kind(t) != 22 && ca && implements(ptrTo(t), m)
}
func marshI(t Type, ca bool) Fn {
	switch {
	case mOf(t, ca, typ("AppendMarshalerCtx")):
		return amcI(t, !implements(t, typ("AppendMarshalerCtx")))
	case mOf(t, ca, typ("AppendMarshaler")):
		return amI(t, !implements(t, typ("AppendMarshaler")))
	case mOf(t, ca, typ("json.Marshaler")):
		return mjI(t, !implements(t, typ("json.Marshaler")))
	case mOf(t, ca, typ("encoding.TextMarshaler")):
		return mtI(t, !implements(t, typ("encoding.TextMarshaler")))
	}
	return 0
}

//@ func newMarshalerTypeInstr(t, canAddr) (r)
//@ props P07 P14 P15 P22
//@ requires t != 0
//@ ensures fneq(r, marshI(t, canAddr))
