package contracts

// Times and durations.

// ---- the calendar

// cal[YMD] give the date of the day r, counted from the first
// of January of the year 1 of a calendar 400 years earlier: the
// day 145732 is the first one of the year 400, and every other
// one is the day after the previous one.

//@ opaque
//@ range 400 10400
func calY(r int) int {
	if r <= 145732 {
		return 400
	}
	return ite(isDec31(calM(r-1), calD(r-1)), calY(r-1)+1, calY(r-1))
}

//@ opaque
//@ range 1 12
func calM(r int) int {
	if r <= 145732 {
		return 1
	}
	if calD(r-1) < monthDays(calY(r-1), calM(r-1)) {
		return calM(r - 1)
	}
	return ite(calM(r-1) == 12, 1, calM(r-1)+1)
}

//@ opaque
//@ range 1 31
func calD(r int) int {
	if r <= 145732 {
		return 1
	}
	return ite(calD(r-1) < monthDays(calY(r-1), calM(r-1)), calD(r-1)+1, 1)
}

func isDec31(m int, d int) bool { return m == 12 && d == 31 }
func leap(y int) bool           { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
func monthDays(y int, m int) int {
	if m == 2 {
		return ite(leap(y), 29, 28)
	}
	return ite(m == 4 || m == 6 || m == 9 || m == 11, 30, 31)
}

//@ func rdnToYmd(rdn) (y, m, d)
//@ props P05
//@ requires 145732 <= rdn && rdn <= 3798156
//@ enum rdn 145732 3798156
//@ ensures y == calY(rdn)
//@ ensures m == calM(rdn)
//@ ensures d == calD(rdn)

// The years 0 to 9999 begin and end at these seconds.
func fact_tYear__range(t int) bool {
	return (0 <= tYear(t) && tYear(t) <= 9999) == (0-62167219200 <= tUnix(t)+tOff(t) && tUnix(t)+tOff(t) <= 253402300799)
}

// ---- times

func pad2(n int) Bytes { return unit(n/10%10+48) + unit(n%10+48) }
func pad4(n int) Bytes {
	return unit(n/1000%10+48) + unit(n/100%10+48) + unit(n/10%10+48) + unit(n%10+48)
}

// fraction is the decimal digits of n/10^k without trailing zeros.
func fraction(n int, k int) Bytes {
	if n%10 == 0 && k > 1 {
		return fraction(n/10, k-1)
	}
	return digits(n, k)
}

// digits is the k last digits of n.
func digits(n int, k int) Bytes {
	if k <= 0 {
		return ""
	}
	return digits(n/10, k-1) + unit(n%10+48)
}

func frac(n int, k int) Bytes { return ite(n == 0, "", "."+fraction(n, k)) }

func zoneText(off int) Bytes {
	if off == 0 {
		return "Z"
	}
	return zoneAbs(tdiv(off, 60))
}

func zoneAbs(z int) Bytes {
	return ite(z < 0, "-"+pad2((0-z)/60)+":"+pad2((0-z)%60), "+"+pad2(z/60)+":"+pad2(z%60))
}

// dateTime is the text of the second s of the calendar of calY.
func dateTime(s int) Bytes {
	return pad4(calY(s/86400)-400) + "-" + pad2(calM(s/86400)) + "-" + pad2(calD(s/86400)) + "T" +
		pad2(s%86400/3600) + ":" + pad2(s/60%60) + ":" + pad2(s%60)
}

// 719163 days between the years 1 and 1970, and 400 years.
func rfc3339(t int, nano bool) Bytes {
	return dateTime(tUnix(t)+tOff(t)+719163*86400+146097*86400) + ite(nano, frac(tNano(t), 9), "") + zoneText(tOff(t))
}

func offsetOK(t int) bool { return 0-86400 < tOff(t) && tOff(t) < 86400 }

//@ func appendRFC3339Time(t, dst, nano) (r)
//@ props P05 P18 P22 P23
//@ requires 0 <= tYear(t) && tYear(t) <= 9999 && offsetOK(t)
//@ appends dst
//@ out `"` + rfc3339(t, nano) + `"`

func isRFC3339(l Bytes) bool     { return l == "2006-01-02T15:04:05Z07:00" }
func isRFC3339Nano(l Bytes) bool { return l == "2006-01-02T15:04:05.999999999Z07:00" }

func timeText(t int, o encOpts) Bytes {
	if flag(o.flags, unixTime) {
		return dec(tUnix(t))
	}
	if isRFC3339(o.timeLayout) || isRFC3339Nano(o.timeLayout) {
		return `"` + rfc3339(t, isRFC3339Nano(o.timeLayout)) + `"`
	}
	return `"` + tFormat(t, o.timeLayout) + `"`
}

func timeErr(t int, o encOpts) Err {
	if tYear(t) < 0 || tYear(t) > 9999 {
		return anyerr()
	}
	if flag(o.flags, unixTime) || offsetOK(t) || !isRFC3339(o.timeLayout) && !isRFC3339Nano(o.timeLayout) {
		return nil
	}
	return anyerr()
}

func O_encodeTime(p Ptr, o encOpts) Bytes { return timeText(ld_time(p), o) }
func E_encodeTime(p Ptr, o encOpts) Err   { return timeErr(ld_time(p), o) }

//@ func encodeTime(p, dst, o) (r, err)
//@ props P05 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeTime(p, o)
//@ err E_encodeTime(p, o)

func O_encodeTimeKey(p Ptr, o encOpts) Bytes {
	return ite(flag(o.flags, unixTime), `"`+timeText(ld_time(p), o)+`"`, timeText(ld_time(p), o))
}
func E_encodeTimeKey(p Ptr, o encOpts) Err { return timeErr(ld_time(p), o) }

//@ func encodeTimeKey(p, dst, o) (r, err)
//@ props P05 P10 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeTimeKey(p, o)
//@ err E_encodeTimeKey(p, o)

// ---- durations

//@ induction n n/10
func lemma_dec__len(n int) bool {
	return imp(0 <= n, len(dec(n)) >= 1) &&
		imp(0 <= n && n < 10, len(dec(n)) <= 1) &&
		imp(0 <= n && n < 100, len(dec(n)) <= 2) &&
		imp(0 <= n && n < 1000, len(dec(n)) <= 3) &&
		imp(0 <= n && n < 10000, len(dec(n)) <= 4) &&
		imp(0 <= n && n < 100000, len(dec(n)) <= 5) &&
		imp(0 <= n && n < 1000000, len(dec(n)) <= 6) &&
		imp(0 <= n && n < 10000000, len(dec(n)) <= 7) &&
		imp(0 <= n && n < 100000000, len(dec(n)) <= 8)
}

//@ func fmtInt(buf, v) (r)
//@ props P06 P22
//@ requires len(buf) >= len(dec(v))
//@ modifies buf
//@ ensures r == len(buf) - len(dec(v))
//@ ensures now(buf) == buf[:len(buf)-len(dec(v))] + dec(v)
//@ inv (w int, u int, b Bytes) 0 <= w && w <= len(buf) && len(b) == len(buf) && 0 <= u && imp(u > 0, len(dec(u)) <= w && dec(v) == dec(u) + b[w:]) && imp(u == 0, dec(v) == b[w:]) && b[:w] == buf[:w]

// durAbs is the text of u nanoseconds.
func durAbs(u int) Bytes {
	switch {
	case u == 0:
		return "0s"
	case u < 1000:
		return dec(u) + "ns"
	case u < 1000000:
		return dec(u/1000) + frac(u%1000, 3) + "µs"
	case u < 1000000000:
		return dec(u/1000000) + frac(u%1000000, 6) + "ms"
	case u < 60000000000:
		return dec(u/1000000000) + frac(u%1000000000, 9) + "s"
	case u < 3600000000000:
		return dec(u/60000000000) + "m" + dec(u/1000000000%60) + frac(u%1000000000, 9) + "s"
	}
	return dec(u/3600000000000) + "h" + dec(u/60000000000%60) + "m" + dec(u/1000000000%60) + frac(u%1000000000, 9) + "s"
}

func durText(d int) Bytes { return ite(d < 0, "-"+durAbs(0-d), durAbs(d)) }

//@ func appendDuration(dst, d) (r)
//@ props P06 P18 P22 P23
//@ appends dst
//@ out durText(d)

func durationText(d int, o encOpts) Bytes {
	switch {
	case o.durationFmt == DurationString:
		return `"` + durText(d) + `"`
	case o.durationFmt == DurationMinutes:
		return floatText(durMin(d), 64)
	case o.durationFmt == DurationSeconds:
		return floatText(durSec(d), 64)
	case o.durationFmt == DurationMilliseconds:
		return dec(tdiv(d, 1000000))
	case o.durationFmt == DurationMicroseconds:
		return dec(tdiv(d, 1000))
	}
	return dec(d)
}

func fact_durMin__finite(d int) bool { return isFinite(durMin(d)) }
func fact_durSec__finite(d int) bool { return isFinite(durSec(d)) }

func O_encodeDuration(p Ptr, o encOpts) Bytes { return durationText(ld_int64(p), o) }

//@ func encodeDuration(p, dst, o) (r, err)
//@ props P06 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeDuration(p, o)

func O_encodeDurationKey(p Ptr, o encOpts) Bytes {
	return ite(o.durationFmt == DurationString, durationText(ld_int64(p), o), `"`+durationText(ld_int64(p), o)+`"`)
}

//@ func encodeDurationKey(p, dst, o) (r, err)
//@ props P06 P10 P16 P18 P21 P23
//@ requires p >= 1
//@ appends dst
//@ out O_encodeDurationKey(p, o)
