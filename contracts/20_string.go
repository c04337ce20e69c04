package contracts

// JSON strings.

func hexd(n int) int { return ite(n < 10, n+48, n+87) }

// esc is the escaped form of b from the position i.
func esc(b Bytes, i int, noHTML bool, noCoerce bool) Bytes {
	if i >= len(b) {
		return ""
	}
	c := b[i]
	if c < 0x80 {
		return esc1(c, noHTML) + esc(b, i+1, noHTML, noCoerce)
	}
	r := drune(b[i:])
	n := dsize(b[i:])
	if r == 0xfffd && n == 1 && !noCoerce {
		return `\ufffd` + esc(b, i+1, noHTML, noCoerce)
	}
	if r == 0x2028 {
		return `\u2028` + esc(b, i+3, noHTML, noCoerce)
	}
	if r == 0x2029 {
		return `\u2029` + esc(b, i+3, noHTML, noCoerce)
	}
	return b[i:i+n] + esc(b, i+n, noHTML, noCoerce)
}

func esc1(c int, noHTML bool) Bytes {
	switch {
	case c == '"':
		return `\"`
	case c == '\\':
		return `\\`
	case c == '\n':
		return `\n`
	case c == '\r':
		return `\r`
	case c == '\t':
		return `\t`
	case c < 32 || !noHTML && (c == '<' || c == '>' || c == '&'):
		return `\u00` + unit(hexd(c/16)) + unit(hexd(c%16))
	}
	return unit(c)
}

// escaped is the escaped form of b with the options o.
func escaped(b Bytes, o encOpts) Bytes {
	if flag(o.flags, noStringEscaping) {
		return b
	}
	return esc(b, 0, flag(o.flags, noHTMLEscaping), flag(o.flags, noUTF8Coercion))
}

//@ func appendEscapedBytes(dst, b, o) (r)
//@ props P01 P09 P10 P11 P14 P15 P16 P18 P23
//@ appends dst
//@ out escaped(b, o)
//@ inv (d Bytes, at int, i int) 0 <= at && at <= i && i <= len(b) &&
//@+ dst + esc(b, 0, flag(o.flags, noHTMLEscaping), flag(o.flags, noUTF8Coercion)) == d + b[at:i] + esc(b, i, flag(o.flags, noHTMLEscaping), flag(o.flags, noUTF8Coercion))

func strAt(p Ptr) Bytes { return mem(ld_ptr(p), ld_int(p+8)) }

func O_encodeString(p Ptr, o encOpts) Bytes { return `"` + escaped(strAt(p), o) + `"` }

//@ func encodeString(p, dst, o) (r, err)
//@ props P01 P10 P15 P18 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeString(p, o)

func O_encodeQuotedString(p Ptr, o encOpts) Bytes {
	return `"\"` + escaped(escaped(strAt(p), o), o) + `\""`
}

//@ func encodeQuotedString(p, dst, o) (r, err)
//@ props P01 P15 P18 P19 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeQuotedString(p, o)
