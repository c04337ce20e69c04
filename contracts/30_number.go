package contracts

// Numbers.

// numStep is the automaton of the JSON number grammar: the state
// that follows q after the byte c, or -1.
func numStep(q int, c int) int {
	digit := '0' <= c && c <= '9'
	switch q {
	case 0:
		return ite(c == '-', 1, ite(c == '0', 2, ite(digit, 3, 0-1)))
	case 1:
		return ite(c == '0', 2, ite(digit, 3, 0-1))
	case 2:
		return ite(c == '.', 4, ite(c == 'e' || c == 'E', 6, 0-1))
	case 3:
		return ite(digit, 3, ite(c == '.', 4, ite(c == 'e' || c == 'E', 6, 0-1)))
	case 4:
		return ite(digit, 5, 0-1)
	case 5:
		return ite(digit, 5, ite(c == 'e' || c == 'E', 6, 0-1))
	case 6:
		return ite(c == '+' || c == '-', 7, ite(digit, 8, 0-1))
	case 7:
		return ite(digit, 8, 0-1)
	}
	return ite(digit, 8, 0-1)
}

// numDFA tells whether the automaton in the state q accepts s.
func numDFA(s Bytes, q int) bool {
	if len(s) == 0 {
		return q == 2 || q == 3 || q == 5 || q == 8
	}
	n := numStep(q, s[0])
	if n < 0 {
		return false
	}
	return numDFA(s[1:], n)
}

func isNumber(s Bytes) bool { return numDFA(s, 0) }

//@ func isValidNumber(s) (r)
//@ props P04 P16 P23
//@ ensures r == isNumber(s)
//@ fuel 4
//@ inv (t Bytes) numDFA(s, 0) == numDFA(t, 3)
//@ inv (t Bytes) numDFA(s, 0) == numDFA(t, 5)
//@ inv (t Bytes) numDFA(s, 0) == numDFA(t, 8)
//@ inv (i int) 0 <= i && i <= len(s) && numDFA(s, 0) == numDFA(s[i:], 3)
//@ inv (i int) 0 <= i && i <= len(s) && numDFA(s, 0) == numDFA(s[i:], 5)
//@ inv (i int) 0 <= i && i <= len(s) && numDFA(s, 0) == numDFA(s[i:], 8)

func numText(p Ptr) Bytes { return ite(strAt(p) == "", "0", strAt(p)) }
func O_encodeNumber(p Ptr, o encOpts) Bytes { return numText(p) }
func E_encodeNumber(p Ptr, o encOpts) Err {
	return ite(flag(o.flags, noNumberValidation) || isNumber(numText(p)), nil, anyerr())
}

//@ func encodeNumber(p, dst, o) (r, err)
//@ props P04 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeNumber(p, o)
//@ err E_encodeNumber(p, o)

// ---- floating-point numbers, like ES6

func isFinite(f F64) bool { return !isNaN(f) && !isInf(f) }

// expForm tells whether a number has an exponent.
func expForm(f F64, bits int) bool {
	a := fpabs(f)
	if bits == 32 {
		return a != 0.0 && (f32(a) < f32(1e-6) || f32(a) >= f32(1e21))
	}
	return a != 0.0 && (a < 1e-6 || a >= 1e21)
}

// cleanExp removes the leading zero of a negative exponent.
func cleanExp(s Bytes) Bytes {
	n := len(s)
	if n >= 4 && s[n-4] == 'e' && s[n-3] == '-' && s[n-2] == '0' {
		return s[:n-2] + unit(s[n-1])
	}
	return s
}

func floatText(f F64, bits int) Bytes {
	if expForm(f, bits) {
		return cleanExp(ftoa(f, 'e', 0-1, bits))
	}
	return ftoa(f, 'f', 0-1, bits)
}

// The scientific form has at least one digit, and an exponent of
// at least two.
func fact_ftoa__exp(f F64, fmt int, prec int, bits int) bool {
	return imp(fmt == 'e' && isFinite(f), len(ftoa(f, fmt, prec, bits)) >= 5)
}

//@ func appendFloat(dst, f, bits) (r, err)
//@ props P03 P06 P18 P21 P23
//@ requires bits == 32 || bits == 64
//@ appends dst
//@ out floatText(f, bits)
//@ err ite(isFinite(f), nil, uvalue())

func O_encodeFloat32(p Ptr, o encOpts) Bytes { return floatText(f64(ld_float32(p)), 32) }
func E_encodeFloat32(p Ptr, o encOpts) Err {
	return ite(isFinite(f64(ld_float32(p))), nil, uvalue())
}
func O_encodeFloat64(p Ptr, o encOpts) Bytes { return floatText(ld_float64(p), 64) }
func E_encodeFloat64(p Ptr, o encOpts) Err   { return ite(isFinite(ld_float64(p)), nil, uvalue()) }

//@ func encodeFloat32(p, dst, o) (r, err)
//@ props P03 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeFloat32(p, o)
//@ err E_encodeFloat32(p, o)

//@ func encodeFloat64(p, dst, o) (r, err)
//@ props P03 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeFloat64(p, o)
//@ err E_encodeFloat64(p, o)
