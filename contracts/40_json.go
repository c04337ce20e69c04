package contracts

// Embedded JSON.

func isSpace(c int) bool { return c == ' ' || c == '\n' || c == '\r' || c == '\t' }
func isHTML(c int) bool  { return c == '<' || c == '>' || c == '&' }

// lineSep tells whether U+2028 or U+2029 is at the position i.
func lineSep(b Bytes, i int) bool {
	return i+2 < len(b) && b[i] == 0xe2 && b[i+1] == 0x80 && (b[i+2] == 0xa8 || b[i+2] == 0xa9)
}

// compact is the compact form of b from the position i, that is
// in a string or not, and follows a backslash or not.
func compact(b Bytes, i int, str bool, skip bool, html bool) Bytes {
	if i >= len(b) {
		return ""
	}
	c := b[i]
	if html && isHTML(c) {
		return `\u00` + unit(hexd(c/16)) + unit(hexd(c%16)) + compact(b, i+1, str, skip, html)
	}
	if lineSep(b, i) {
		return `\u202` + unit(b[i+2]-112) + compact(b, i+3, str, false, html)
	}
	if !str {
		if isSpace(c) {
			return compact(b, i+1, false, false, html)
		}
		return unit(c) + compact(b, i+1, c == '"', false, html)
	}
	if skip {
		return unit(c) + compact(b, i+1, true, false, html)
	}
	return unit(c) + compact(b, i+1, c != '"', c == '\\', html)
}

//@ func appendCompactJSON(dst, src, escHTML) (r, err)
//@ props P07 P14 P16 P18 P21 P23
//@ appends dst
//@ out compact(src, 0, false, false, escHTML)
//@ err nil
//@ inv (inString bool, skipNext bool) imp(skipNext, inString)
//@ inv (d Bytes, at int, i int, inString bool, skipNext bool) 0 <= i && i <= len(src) && 0 <= at && at <= len(src) && imp(skipNext, inString) &&
//@+ ite(at <= i, dst + compact(src, 0, false, false, escHTML) == d + src[at:i] + compact(src, i, inString, skipNext, escHTML),
//@+ dst + compact(src, 0, false, false, escHTML) == d + compact(src, at, inString, false, escHTML) &&
//@+ (at == i+2 && src[i] == 0x80 && (src[i+1] == 0xa8 || src[i+1] == 0xa9) || at == i+1 && !skipNext && (src[i] == 0xa8 || src[i] == 0xa9)))

func compacted(b Bytes, o encOpts) Bytes {
	if flag(o.flags, noCompact) {
		return b
	}
	return compact(b, 0, false, false, !flag(o.flags, noHTMLEscaping))
}

func sliceAt(p Ptr) Bytes { return mem(ld_ptr(p), ld_int(p+8)) }

func O_encodeRawMessage(p Ptr, o encOpts) Bytes {
	return ite(ld_ptr(p) == 0, "null", compacted(sliceAt(p), o))
}
func E_encodeRawMessage(p Ptr, o encOpts) Err {
	if ld_ptr(p) == 0 || flag(o.flags, noCompact) || jvalid(sliceAt(p)) {
		return nil
	}
	return marsherr(typ("json.RawMessage"), anyerr())
}

//@ func encodeRawMessage(p, dst, o) (r, err)
//@ props P07 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeRawMessage(p, o)
//@ err E_encodeRawMessage(p, o)
