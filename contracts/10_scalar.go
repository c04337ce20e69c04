package contracts

// Booleans, integers, strings, floating-point numbers.

func O_encodeBool(p Ptr, o encOpts) Bytes { return ite(ld_bool(p), "true", "false") }

//@ func encodeBool(p, dst, o) (r, err)
//@ props P15 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeBool(p, o)

func O_encodeInt(p Ptr, o encOpts) Bytes     { return dec(ld_int(p)) }
func O_encodeInt8(p Ptr, o encOpts) Bytes    { return dec(ld_int8(p)) }
func O_encodeInt16(p Ptr, o encOpts) Bytes   { return dec(ld_int16(p)) }
func O_encodeInt32(p Ptr, o encOpts) Bytes   { return dec(ld_int32(p)) }
func O_encodeInt64(p Ptr, o encOpts) Bytes   { return dec(ld_int64(p)) }
func O_encodeUint(p Ptr, o encOpts) Bytes    { return dec(ld_uint(p)) }
func O_encodeUint8(p Ptr, o encOpts) Bytes   { return dec(ld_uint8(p)) }
func O_encodeUint16(p Ptr, o encOpts) Bytes  { return dec(ld_uint16(p)) }
func O_encodeUint32(p Ptr, o encOpts) Bytes  { return dec(ld_uint32(p)) }
func O_encodeUint64(p Ptr, o encOpts) Bytes  { return dec(ld_uint64(p)) }
func O_encodeUintptr(p Ptr, o encOpts) Bytes { return dec(ld_uintptr(p)) }

//@ func encodeInt(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInt(p, o)

//@ func encodeInt8(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInt8(p, o)

//@ func encodeInt16(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInt16(p, o)

//@ func encodeInt32(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInt32(p, o)

//@ func encodeInt64(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInt64(p, o)

//@ func encodeUint(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUint(p, o)

//@ func encodeUint8(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUint8(p, o)

//@ func encodeUint16(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUint16(p, o)

//@ func encodeUint32(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUint32(p, o)

//@ func encodeUint64(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUint64(p, o)

//@ func encodeUintptr(p, dst, o) (r, err)
//@ props P02 P18
//@ requires p >= 1
//@ appends dst
//@ out O_encodeUintptr(p, o)

