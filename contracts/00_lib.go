package contracts

// The functions that stand for the standard library, the runtime
// and the values of the user, and what is assumed of them.

// ---- numbers

// dec is the decimal form of an integer (strconv.AppendInt).
func dec(n int) Bytes {
	if n < 0 {
		return "-" + dec(0-n)
	}
	if n < 10 {
		return unit(n + 48)
	}
	return dec(n/10) + unit(n%10+48)
}

// ftoa is strconv.AppendFloat.
func ftoa(f F64, fmt int, prec int, bits int) Bytes

func fact_ftoa__len(f F64, fmt int, prec int, bits int) bool { return len(ftoa(f, fmt, prec, bits)) >= 1 }

// ---- UTF-8

func drune(b Bytes) int

//@ range 0 4
func dsize(b Bytes) int

func fact_drune__range(b Bytes) bool { return 0 <= drune(b) && drune(b) <= 0x10ffff }
func fact_dsize__ascii(b Bytes) bool {
	return imp(len(b) > 0 && b[0] < 0x80, dsize(b) == 1 && drune(b) == b[0])
}
func fact_dsize__range(b Bytes) bool {
	return imp(len(b) > 0, 1 <= dsize(b) && dsize(b) <= len(b)) && imp(len(b) == 0, dsize(b) == 0 && drune(b) == 0xfffd)
}
func fact_dsize__invalid(b Bytes) bool {
	return imp(len(b) > 0 && dsize(b) == 1 && b[0] >= 0x80, drune(b) == 0xfffd)
}
func fact_dsize__multi(b Bytes) bool {
	return imp(dsize(b) == 2, drune(b) >= 0x80 && drune(b) < 0x800) && imp(dsize(b) == 3, drune(b) >= 0x800 && drune(b) < 0x10000) && imp(dsize(b) == 4, drune(b) >= 0x10000)
}

// U+2028 and U+2029 are E2 80 A8 and E2 80 A9.
func fact_drune__2028(b Bytes) bool {
	return (drune(b) == 0x2028) == (len(b) >= 3 && b[0] == 0xe2 && b[1] == 0x80 && b[2] == 0xa8) &&
		(drune(b) == 0x2029) == (len(b) >= 3 && b[0] == 0xe2 && b[1] == 0x80 && b[2] == 0xa9)
}

// ---- other functions of the standard library

func jvalid(b Bytes) bool

//@ range 0 0x10000000000000000
func b64len(n int) int
func b64(b Bytes) Bytes

func fact_b64__len(b Bytes) bool { return len(b64(b)) == b64len(len(b)) }
func fact_b64len__bound(n int) bool {
	return imp(n >= 0, b64len(n) <= 2*n+4)
}

func sindex(s Bytes, sub Bytes) int
func fact_sindex__range(s Bytes, sub Bytes) bool {
	return 0-1 <= sindex(s, sub) && imp(sindex(s, sub) >= 0, sindex(s, sub)+len(sub) <= len(s))
}
func ssplit(s Bytes, sep Bytes) []Bytes
func isLetter(r int) bool
func isDigit(r int) bool
func tagGet(tag Bytes, key Bytes) Bytes
func htmlEscape(s Bytes) Bytes
func fact_htmlEscape__len(s Bytes) bool { return len(htmlEscape(s)) >= len(s) }

// ---- runtime types: a Type is not zero.

func mapkey(t Type) Type

//@ range 0 0x7fffffffffff
func tlen(t Type) int

//@ range 0 0x7fffffff
func numfield(t Type) int

func tfield(t Type, i int) reflect.StructField
func fact_tfield__type(t Type, i int) bool { return tfield(t, i).Type != 0 }
func fact_tfield__name(t Type, i int) bool { return len(tfield(t, i).Name) >= 1 }
func tname(t Type) Bytes

//@ range 0 0x7fffffffffff
func tsize(t Type) int

//@ range 0 0x7fffffff
func nummethod(t Type) int

// ---- maps: the entries are enumerated by position.

//@ range 0 0x7fffffffffff
func maplen(m Ptr) int

//@ range 1 0x7fffffffffffffff
func mkey(m Ptr, i int) Ptr

//@ range 1 0x7fffffffffffffff
func mval(m Ptr, i int) Ptr

//@ range 0 0x7fffffffffff
func smlen(m Ptr) int
func smkey(m Ptr, i int) Iface

func smval(m Ptr, i int) Iface

// ---- marshalers of the user

func amcOut(x Iface, ctx Ctx) Bytes

//@ range 0 -
func amcErr(x Iface, ctx Ctx) Err
func amOut(x Iface) Bytes

//@ range 0 -
func amErr(x Iface) Err
func mjOut(x Iface) Bytes

//@ range 0 -
func mjErr(x Iface) Err
func mtOut(x Iface) Bytes

//@ range 0 -
func mtErr(x Iface) Err

// ---- errors

//@ range 1 -
func anyerr() Err

//@ range 1 -
func marsherr(t Type, e Err) Err

//@ range 1 -
func utype(t Type) Err

//@ range 1 -
func opterr() Err

//@ range 1 -
func uvalue() Err

// ---- time

func tYear(t int) int
func tUnix(t int) int

//@ range 0 999999999
func tNano(t int) int
func tOff(t int) int
func tFormat(t int, layout Bytes) Bytes
func durMin(d int) F64
func durSec(d int) F64

// ---- options

// The flags of the options are distinct bits.
func hasFlag(o encOpts, f int) bool { return flag(o.flags, f) }

// ---- the order of strings

func fact_strlt__irreflexive(a Bytes, b Bytes) bool { return imp(strlt(a, b), a != b) }
