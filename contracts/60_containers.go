package contracts

// Pointers, slices, arrays, byte slices, byte arrays.

//@ func encodePointer(p, dst, o, ins) (r, err)
//@ props P08 P15 P18 P21
//@ requires p >= 1 && ins != 0
//@ appends dst
//@ out ite(ld_ptr(p) == 0, "null", O(ins, ld_ptr(p), o))
//@ err ite(ld_ptr(p) == 0, nil, E(ins, ld_ptr(p), o))

// elemsO is the form of the elements from the position i of n
// elements of size es that start at the address p.
func elemsO(ins Fn, p Ptr, o encOpts, es int, n int, i int) Bytes {
	if i >= n {
		return ""
	}
	return ite(i == 0, "", ",") + O(ins, p+i*es, o) + elemsO(ins, p, o, es, n, i+1)
}

// elemsE is the first error among the elements from the position i.
func elemsE(ins Fn, p Ptr, o encOpts, es int, n int, i int) Err {
	if i >= n {
		return nil
	}
	return ite(E(ins, p+i*es, o) != nil, E(ins, p+i*es, o), elemsE(ins, p, o, es, n, i+1))
}

func arrayO(ins Fn, p Ptr, o encOpts, es int, n int) Bytes {
	return "[" + elemsO(ins, p, o, es, n, 0) + "]"
}

func baStrO(p Ptr, o encOpts, n int) Bytes { return `"` + escaped(mem(p, n), o) + `"` }

//@ func encodeByteArrayAsString(p, dst, o, n) (r)
//@ props P09 P16 P18 P23
//@ requires p >= 1 && n >= 0
//@ appends dst
//@ out baStrO(p, o, n)

//@ func encodeArray(p, dst, o, ins, es, n, ba) (r, err)
//@ props P08 P09 P15 P16 P18 P21
//@ requires p >= 1 && ins != 0 && n >= 0 && es >= 0
//@ appends dst
//@ out ite(ba && flag(o.flags, byteArrayAsString), baStrO(p, o, n), arrayO(ins, p, o, es, n))
//@ err ite(ba && flag(o.flags, byteArrayAsString), nil, elemsE(ins, p, o, es, n, 0))
//@ inv (d Bytes, i int) 0 <= i && i <= n && dst + "[" + elemsO(ins, p, o, es, n, 0) == ite(i == 0, d + "[", d) + elemsO(ins, p, o, es, n, i)
//@ inv (i int) elemsE(ins, p, o, es, n, 0) == elemsE(ins, p, o, es, n, i)
//@ inv (i int, nxt int) nxt == ite(i == 0, '[', ',')

//@ func encodeSlice(p, dst, o, ins, es) (r, err)
//@ memory 0 <= ld_int(p+8) && ld_int(p+8) <= 0x7fffffffffff && imp(ld_ptr(p) == 0, ld_int(p+8) == 0)
//@ props P08 P15 P16 P18 P21
//@ requires p >= 1 && ins != 0 && es >= 0
//@ appends dst
//@ out ite(ld_ptr(p) == 0, ite(flag(o.flags, nilSliceEmpty), "[]", "null"), arrayO(ins, ld_ptr(p), o, es, ld_int(p+8)))
//@ err ite(ld_ptr(p) == 0, nil, elemsE(ins, ld_ptr(p), o, es, ld_int(p+8), 0))

func O_encodeByteSlice(p Ptr, o encOpts) Bytes {
	if ld_ptr(p) == 0 {
		return "null"
	}
	return `"` + ite(flag(o.flags, rawByteSlice), escaped(sliceAt(p), o), b64(sliceAt(p))) + `"`
}

//@ func encodeByteSlice(p, dst, o) (r, err)
//@ props P09 P16 P18 P19 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeByteSlice(p, o)
