package contracts

// The options and the functions of the package.

// ---- options



func defaultOpts() encOpts {
	return encOpts{ctx: emptyctx(), timeLayout: "2006-01-02T15:04:05.999999999Z07:00", durationFmt: DurationNanoseconds}
}

//@ func defaultEncOpts() (r)
//@ props P05 P06 P16
//@ ensures r == defaultOpts()

// applied is the options after those of the list from the position i.
func applied(s []Option, i int, o encOpts) encOpts {
	if i >= len(s) {
		return o
	}
	return applied(s, i+1, ite(s[i] == 0, o, OPT(s[i], o)))
}

//@ func encOpts.apply(eo, opts)
//@ props P16 P22
//@ modifies eo
//@ ensures now(eo) == applied(opts, 0, eo)
//@ inv (x encOpts, i int) 0 <= i && applied(opts, i, x) == applied(opts, 0, eo)

func refused(o encOpts) bool {
	return o.ctx == 0 || o.timeLayout == "" || o.durationFmt < DurationString || o.durationFmt > DurationNanoseconds
}

//@ func encOpts.validate(eo) (err)
//@ props P16
//@ ensures eqerr(err, ite(refused(eo), anyerr(), nil))

// listed tells whether the first n names of the list hold x.
func listed(s []Bytes, x Bytes, n int) bool {
	if n <= 0 {
		return false
	}
	return s[n-1] == x || listed(s, x, n-1)
}

// keysOf is the first n names of the list.
func keysOf(s []Bytes, n int) map[Bytes]bool {
	if n <= 0 {
		return emptyset()
	}
	return set(keysOf(s, n-1), s[n-1], true)
}
func setOf(s []Bytes) Ptr { return setval(keysOf(s, len(s))) }

// A set has the names of its list.
//
//@ props P17
//@ induction n n-1
func lemma_keysOf__has(s []Bytes, n int, x Bytes) bool {
	return keysOf(s, n)[x] == listed(s, x, n)
}

//@ func fieldListToSet(list) (r)
//@ props P17 P22
//@ ensures r == setOf(list)
//@ inv (rangeindex int, map_has map[Bytes]bool) 0 <= rangeindex && rangeindex <= len(list) && map_has == keysOf(list, rangeindex)

// ---- the constructors of the options

//@ range 1 -
func setO(f int) Option
func OPT_setO(f int, o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: o.timeLayout, durationFmt: o.durationFmt, flags: ite(flag(o.flags, f), o.flags, o.flags+f), allowList: o.allowList, denyList: o.denyList}
}

// othersKept: the flag f is set, and the others are as they were.
func othersKept(f int, o encOpts, n encOpts) bool {
	return flag(n.flags, unixTime) == (flag(o.flags, unixTime) || f == unixTime) && flag(n.flags, unsortedMap) == (flag(o.flags, unsortedMap) || f == unsortedMap) && flag(n.flags, rawByteSlice) == (flag(o.flags, rawByteSlice) || f == rawByteSlice) && flag(n.flags, byteArrayAsString) == (flag(o.flags, byteArrayAsString) || f == byteArrayAsString) && flag(n.flags, nilMapEmpty) == (flag(o.flags, nilMapEmpty) || f == nilMapEmpty) && flag(n.flags, nilSliceEmpty) == (flag(o.flags, nilSliceEmpty) || f == nilSliceEmpty) && flag(n.flags, noStringEscaping) == (flag(o.flags, noStringEscaping) || f == noStringEscaping) && flag(n.flags, noHTMLEscaping) == (flag(o.flags, noHTMLEscaping) || f == noHTMLEscaping) && flag(n.flags, noUTF8Coercion) == (flag(o.flags, noUTF8Coercion) || f == noUTF8Coercion) && flag(n.flags, noCompact) == (flag(o.flags, noCompact) || f == noCompact) && flag(n.flags, noNumberValidation) == (flag(o.flags, noNumberValidation) || f == noNumberValidation)
}

// Each flag is a bit of its own.
//
//@ props P16
//@ split
func lemma_setO__flags(o encOpts) bool {
	return othersKept(unixTime, o, OPT(setO(unixTime), o)) &&
		othersKept(unsortedMap, o, OPT(setO(unsortedMap), o)) &&
		othersKept(rawByteSlice, o, OPT(setO(rawByteSlice), o)) &&
		othersKept(byteArrayAsString, o, OPT(setO(byteArrayAsString), o)) &&
		othersKept(nilMapEmpty, o, OPT(setO(nilMapEmpty), o)) &&
		othersKept(nilSliceEmpty, o, OPT(setO(nilSliceEmpty), o)) &&
		othersKept(noStringEscaping, o, OPT(setO(noStringEscaping), o)) &&
		othersKept(noHTMLEscaping, o, OPT(setO(noHTMLEscaping), o)) &&
		othersKept(noUTF8Coercion, o, OPT(setO(noUTF8Coercion), o)) &&
		othersKept(noCompact, o, OPT(setO(noCompact), o)) &&
		othersKept(noNumberValidation, o, OPT(setO(noNumberValidation), o))
}

//@ range 1 -
func layoutO(s Bytes) Option
func OPT_layoutO(s Bytes, o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: s, durationFmt: o.durationFmt, flags: o.flags, allowList: o.allowList, denyList: o.denyList}
}

//@ range 1 -
func durationO(f int) Option
func OPT_durationO(f int, o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: o.timeLayout, durationFmt: f, flags: o.flags, allowList: o.allowList, denyList: o.denyList}
}

//@ range 1 -
func ctxO(c Iface) Option
func OPT_ctxO(c Iface, o encOpts) encOpts {
	return encOpts{ctx: c, timeLayout: o.timeLayout, durationFmt: o.durationFmt, flags: o.flags, allowList: o.allowList, denyList: o.denyList}
}

//@ range 1 -
func allowO(s []Bytes) Option
func OPT_allowO(s []Bytes, o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: o.timeLayout, durationFmt: o.durationFmt, flags: o.flags, allowList: setOf(s), denyList: o.denyList}
}

//@ range 1 -
func denyO(s []Bytes) Option
func OPT_denyO(s []Bytes, o encOpts) encOpts {
	return encOpts{ctx: o.ctx, timeLayout: o.timeLayout, durationFmt: o.durationFmt, flags: o.flags, allowList: o.allowList, denyList: setOf(s)}
}

//@ func UnixTime() (r)
//@ props P16
//@ ensures fneq(r, setO(unixTime))

//@ func UnsortedMap() (r)
//@ props P16
//@ ensures fneq(r, setO(unsortedMap))

//@ func RawByteSlice() (r)
//@ props P16
//@ ensures fneq(r, setO(rawByteSlice))

//@ func ByteArrayAsString() (r)
//@ props P16
//@ ensures fneq(r, setO(byteArrayAsString))

//@ func NilMapEmpty() (r)
//@ props P16
//@ ensures fneq(r, setO(nilMapEmpty))

//@ func NilSliceEmpty() (r)
//@ props P16
//@ ensures fneq(r, setO(nilSliceEmpty))

//@ func NoStringEscaping() (r)
//@ props P16
//@ ensures fneq(r, setO(noStringEscaping))

//@ func NoHTMLEscaping() (r)
//@ props P16
//@ ensures fneq(r, setO(noHTMLEscaping))

//@ func NoUTF8Coercion() (r)
//@ props P16
//@ ensures fneq(r, setO(noUTF8Coercion))

//@ func NoCompact() (r)
//@ props P16
//@ ensures fneq(r, setO(noCompact))

//@ func NoNumberValidation() (r)
//@ props P16
//@ ensures fneq(r, setO(noNumberValidation))

//@ func TimeLayout(layout) (r)
//@ props P05 P16
//@ ensures fneq(r, layoutO(layout))

//@ func DurationFormat(format) (r)
//@ props P06 P16
//@ ensures fneq(r, durationO(format))

//@ func WithContext(ctx) (r)
//@ props P14 P16
//@ ensures fneq(r, ctxO(ctx))

//@ func AllowList(fields) (r)
//@ props P16 P17
//@ ensures fneq(r, allowO(fields))

//@ func DenyList(fields) (r)
//@ props P16 P17
//@ ensures fneq(r, denyO(fields))

// ---- the functions

func optsOf(opts []Option) encOpts { return applied(opts, 0, defaultOpts()) }
func refusedO(v Iface, opts []Option) bool {
	return v != 0 && len(opts) != 0 && refused(optsOf(opts))
}

//@ func marshalJSON(v, o) (r, err)
//@ props P18 P19 P20 P21 P22
//@ requires v != 0
//@ ensures eqerr(err, valE(v, o))
//@ ensures imp(isnil(err), r == valO(v, o))
//@ ensures imp(!isnil(err), isnil(r))
//@ freshres

//@ func Marshal(v) (r, err)
//@ props P18 P19 P20 P21 P22
//@ ensures eqerr(err, valE(v, defaultOpts()))
//@ ensures imp(isnil(err), r == valO(v, defaultOpts()))
//@ ensures imp(!isnil(err), isnil(r))
//@ freshres

//@ func MarshalOpts(v, opts) (r, err)
//@ props P16 P18 P19 P20 P21 P22
//@ ensures eqerr(err, ite(refusedO(v, opts), opterr(), valE(v, optsOf(opts))))
//@ ensures imp(isnil(err), r == valO(v, optsOf(opts)))
//@ ensures imp(!isnil(err), isnil(r))
//@ freshres

//@ func Append(dst, v) (r, err)
//@ props P18 P19 P21 P22
//@ appends dst
//@ out valO(v, defaultOpts())
//@ err valE(v, defaultOpts())

//@ func AppendOpts(dst, v, opts) (r, err)
//@ props P16 P18 P19 P21 P22
//@ appends dst
//@ refuse refusedO(v, opts): opterr()
//@ out valO(v, optsOf(opts))
//@ err valE(v, optsOf(opts))
