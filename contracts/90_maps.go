package contracts

// Maps.

// rawO is the options of the keys before they are escaped.
func rawO(o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: o.timeLayout, durationFmt: o.durationFmt, flags: ite(flag(o.flags, noStringEscaping), o.flags, o.flags+noStringEscaping), allowList: o.allowList, denyList: o.denyList}
}

// A key is between quotes.
//@ props P10 P11 P22
//@ cases mapKeyI(t)
//@ fuel 1
func lemma_OF_mapKeyI__len(t Type, p Ptr, o encOpts) bool {
	return imp(mapKeyI(t) != 0 && E(mapKeyI(t), p, o) == 0, len(O(mapKeyI(t), p, o)) >= 2)
}

// isKey tells whether f is the instruction of the keys of a type.
func keyTypeOf(f Fn) Type
func fact_mapKeyI__choice(t Type) bool { return mapKeyI(keyTypeOf(mapKeyI(t))) == mapKeyI(t) && keyTypeOf(mapKeyI(t)) != 0 }
func isKey(f Fn) bool
func fact_isKey__def(f Fn) bool { return isKey(f) == (f != 0 && f == mapKeyI(keyTypeOf(f))) }

//@ props P10 P11 P22
//@ if isKey(f)
func lemma_O__key(f Fn, p Ptr, o encOpts) bool {
	return imp(isKey(f), E(mapKeyI(keyTypeOf(f)), p, o) == E(f, p, o) && O(mapKeyI(keyTypeOf(f)), p, o) == O(f, p, o)) && imp(isKey(f) && E(f, p, o) == 0, len(O(f, p, o)) >= 2)
}

// umapO is the entries from the position i, in the order of the
// iteration.
func umapO(ki Fn, vi Fn, m Ptr, o encOpts, i int) Bytes {
	if i >= maplen(m) {
		return ""
	}
	return ite(i == 0, "", ",") + O(ki, mkey(m, i), o) + ":" + O(vi, mval(m, i), o) + umapO(ki, vi, m, o, i+1)
}
func umapE(ki Fn, vi Fn, m Ptr, o encOpts, i int) Err {
	if i >= maplen(m) {
		return nil
	}
	return ite(E(ki, mkey(m, i), o) != 0, E(ki, mkey(m, i), o), ite(E(vi, mval(m, i), o) != 0, E(vi, mval(m, i), o), umapE(ki, vi, m, o, i+1)))
}

func unq(s Bytes) Bytes { return s[1:len(s)-1] }

// entry is an entry of a sorted map.
func entry(key Bytes, val Bytes, o encOpts) kv {
	return kv{key: key, keyval: `"` + escaped(key, o) + `":` + val}
}

// smapS is the entries before the position i.
func smapS(ki Fn, vi Fn, m Ptr, o encOpts, i int) []kv {
	if i <= 0 {
		return []kv{}
	}
	return smapS(ki, vi, m, o, i-1) + unit(entry(unq(O(ki, mkey(m, i-1), rawO(o))), O(vi, mval(m, i-1), o), o))
}
func smapE(ki Fn, vi Fn, m Ptr, o encOpts, i int) Err {
	if i >= maplen(m) {
		return nil
	}
	return ite(E(ki, mkey(m, i), rawO(o)) != 0, E(ki, mkey(m, i), rawO(o)), ite(E(vi, mval(m, i), o) != 0, E(vi, mval(m, i), o), smapE(ki, vi, m, o, i+1)))
}

// joined is the entries from the position i, between commas.
func joined(s []kv, i int) Bytes {
	if i >= len(s) {
		return ""
	}
	return ite(i == 0, "", ",") + s[i].keyval + joined(s, i+1)
}

func less_kv__key(a kv, b kv) bool { return strlt(a.key, b.key) }
func sorted_kv__key(s []kv) []kv

func mapO(ki Fn, vi Fn, m Ptr, o encOpts) Bytes {
	if m == 0 {
		return ite(flag(o.flags, nilMapEmpty), "{}", "null")
	}
	if maplen(m) == 0 {
		return "{}"
	}
	return "{" + ite(flag(o.flags, unsortedMap), umapO(ki, vi, m, o, 0), joined(sorted_kv__key(smapS(ki, vi, m, o, maplen(m))), 0)) + "}"
}
func mapE(ki Fn, vi Fn, m Ptr, o encOpts) Err {
	if m == 0 || maplen(m) == 0 {
		return nil
	}
	return ite(flag(o.flags, unsortedMap), umapE(ki, vi, m, o, 0), smapE(ki, vi, m, o, 0))
}

//@ pool mapElemsPool: len(x.s) == 0

//@ func encodeMap(p, dst, o, t, ki, vi) (r, err)
//@ props P10 P16 P18 P19 P21 P22 P23
//@ requires p >= 1 && t != 0 && isKey(ki) && vi != 0
//@ appends dst
//@ out mapO(ki, vi, ld_ptr(p), o)
//@ err mapE(ki, vi, ld_ptr(p), o)
//@ inv (pos int) 0 <= pos && pos <= maplen(ld_ptr(p))
//@ inv (n int, pos int) 0 <= n && n <= pos && (n == 0) == (pos == 0)
//@ inv (d Bytes, pos int) dst + "{" + umapO(ki, vi, ld_ptr(p), o, 0) == d + umapO(ki, vi, ld_ptr(p), o, pos)
//@ inv (pos int) umapE(ki, vi, ld_ptr(p), o, 0) == umapE(ki, vi, ld_ptr(p), o, pos)
//@ inv (off int, b Bytes) off == len(b)
//@ inv (s []kv, pos int) s == smapS(ki, vi, ld_ptr(p), o, pos)
//@ inv (pos int) smapE(ki, vi, ld_ptr(p), o, 0) == smapE(ki, vi, ld_ptr(p), o, pos)
//@ inv (d Bytes, rangeindex int) rangeindex >= 0 && dst + "{" + joined(sorted_kv__key(smapS(ki, vi, ld_ptr(p), o, maplen(ld_ptr(p)))), 0) ==
//@+ d + joined(sorted_kv__key(smapS(ki, vi, ld_ptr(p), o, maplen(ld_ptr(p)))), rangeindex)

//@ range 1 -
func mapI(ki Fn, vi Fn) Fn
func O_mapI(ki Fn, vi Fn, p Ptr, o encOpts) Bytes { return mapO(ki, vi, ld_ptr(p), o) }
func E_mapI(ki Fn, vi Fn, p Ptr, o encOpts) Err   { return mapE(ki, vi, ld_ptr(p), o) }

//@ func newMapInstr(t) (r)
//@ props P10 P15 P20 P21 P22
//@ requires t != 0 && kind(t) == 21
//@ ensures fneq(r, ite(mapKeyI(mapkey(t)) == 0, unsupI(t), mapI(mapKeyI(mapkey(t)), encI(elem(t), false, false))))

// ---- the value of an interface

//@ opaque
func valO(x Iface, o encOpts) Bytes { return ite(x == 0, "null", O(topI(itype(x)), iword(x), o)) }
//@ opaque
func valE(x Iface, o encOpts) Err   { return ite(x == 0, nil, E(topI(itype(x)), iword(x), o)) }

//@ func appendJSON(dst, v, o) (r, err)
//@ props P08 P11 P16 P18 P19 P21 P22
//@ appends dst
//@ out valO(v, o)
//@ err valE(v, o)

func O_encodeInterface(p Ptr, o encOpts) Bytes {
	return valO(iface(ld_ptr(p), ld_ptr(p+8)), o)
}
func E_encodeInterface(p Ptr, o encOpts) Err { return valE(iface(ld_ptr(p), ld_ptr(p+8)), o) }

//@ func encodeInterface(p, dst, o) (r, err)
//@ props P08 P16 P18 P21 P22
//@ requires p >= 1
//@ appends dst
//@ out O_encodeInterface(p, o)
//@ err E_encodeInterface(p, o)

func O_encodeMethodsInterface(p Ptr, o encOpts) Bytes {
	return valO(iface(itabtype(ld_ptr(p)), ld_ptr(p+8)), o)
}
func E_encodeMethodsInterface(p Ptr, o encOpts) Err {
	return valE(iface(itabtype(ld_ptr(p)), ld_ptr(p+8)), o)
}

//@ func encodeMethodsInterface(p, dst, o) (r, err)
//@ props P08 P18 P21 P22
//@ requires p >= 1
//@ appends dst
//@ out O_encodeMethodsInterface(p, o)
//@ err E_encodeMethodsInterface(p, o)

// ---- sync.Map

func skeyI(t Type) Fn { return ite(inlined(t), inlineI(mapKeyI(t)), mapKeyI(t)) }
//@ opaque
func skeyO(x Iface, o encOpts) Bytes { return O(skeyI(itype(x)), iword(x), o) }

//@ opaque
func skeyE(x Iface, o encOpts) Err {
	return ite(x == 0 || mapKeyI(itype(x)) == 0, anyerr(), E(skeyI(itype(x)), iword(x), o))
}

//@ props P11 P22
//@ fuel 2
func lemma_skeyE__len(x Iface, o encOpts) bool {
	return imp(skeyE(x, o) == 0, len(skeyO(x, o)) >= 2)
}

//@ func appendSyncMapKey(dst, key, o) (r, err)
//@ props P11 P16 P18 P21 P22
//@ appends dst
//@ out skeyO(key, o)
//@ err skeyE(key, o)

func usyncO(m Ptr, o encOpts, i int) Bytes {
	if i >= smlen(m) {
		return ""
	}
	return ite(i == 0, "", ",") + skeyO(smkey(m, i), o) + ":" + valO(smval(m, i), o) + usyncO(m, o, i+1)
}
func usyncE(m Ptr, o encOpts, i int) Err {
	if i >= smlen(m) {
		return nil
	}
	return ite(skeyE(smkey(m, i), o) != 0, skeyE(smkey(m, i), o), ite(valE(smval(m, i), o) != 0, valE(smval(m, i), o), usyncE(m, o, i+1)))
}
func ssyncS(m Ptr, o encOpts, i int) []kv {
	if i <= 0 {
		return []kv{}
	}
	return ssyncS(m, o, i-1) + unit(entry(unq(skeyO(smkey(m, i-1), rawO(o))), valO(smval(m, i-1), o), o))
}
func ssyncE(m Ptr, o encOpts, i int) Err {
	if i >= smlen(m) {
		return nil
	}
	return ite(skeyE(smkey(m, i), rawO(o)) != 0, skeyE(smkey(m, i), rawO(o)), ite(valE(smval(m, i), o) != 0, valE(smval(m, i), o), ssyncE(m, o, i+1)))
}

func O_encodeSyncMap(p Ptr, o encOpts) Bytes {
	return "{" + ite(flag(o.flags, unsortedMap), usyncO(p, o, 0), joined(sorted_kv__key(ssyncS(p, o, smlen(p))), 0)) + "}"
}
func E_encodeSyncMap(p Ptr, o encOpts) Err {
	return ite(flag(o.flags, unsortedMap), usyncE(p, o, 0), ssyncE(p, o, 0))
}

//@ func encodeSyncMap(p, dst, o) (r, err)
//@ props P11 P16 P18 P19 P21 P22
//@ requires p >= 1
//@ appends dst
//@ out O_encodeSyncMap(p, o)
//@ err E_encodeSyncMap(p, o)
//@ inv (n int, pos int) 0 <= n && n <= pos && (n == 0) == (pos == 0)
//@ inv (d Bytes, pos int) dst + "{" + usyncO(p, o, 0) == d + usyncO(p, o, pos)
//@ inv (pos int) usyncE(p, o, 0) == usyncE(p, o, pos)
//@ inv (off int, b Bytes) off == len(b)
//@ inv (s []kv, pos int) s == ssyncS(p, o, pos)
//@ inv (pos int) ssyncE(p, o, 0) == ssyncE(p, o, pos)
//@ inv (d Bytes, rangeindex int) rangeindex >= 0 && dst + "{" + joined(sorted_kv__key(ssyncS(p, o, smlen(p))), 0) ==
//@+ d + joined(sorted_kv__key(ssyncS(p, o, smlen(p))), rangeindex)
