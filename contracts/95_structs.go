package contracts

// Structs: the fields that are selected, and those that are encoded.

// ---- empty values

func nilable(t Type) bool {
	return kind(t) == 20 || kind(t) == 21 || kind(t) == 22 || kind(t) == 23
}

//@ func isNilable(t) (r)
//@ props P12 P22
//@ requires t != 0
//@ ensures r == nilable(t)

//@ range 1 -
func emptyI(t Type) Fn
func EM_emptyI(t Type, p Ptr) bool {
	k := kind(t)
	switch {
	case k == 1:
		return !ld_bool(p)
	case k == 24 || k == 23:
		return ld_int(p+8) == 0
	case k == 2:
		return ld_int(p) == 0
	case k == 3:
		return ld_int8(p) == 0
	case k == 4:
		return ld_int16(p) == 0
	case k == 5:
		return ld_int32(p) == 0
	case k == 6:
		return ld_int64(p) == 0
	case k == 7:
		return ld_uint(p) == 0
	case k == 8:
		return ld_uint8(p) == 0
	case k == 9:
		return ld_uint16(p) == 0
	case k == 10:
		return ld_uint32(p) == 0
	case k == 11:
		return ld_uint64(p) == 0
	case k == 12:
		return ld_uintptr(p) == 0
	case k == 13:
		return ld_float32(p) == f32(0.0)
	case k == 14:
		return ld_float64(p) == 0.0
	case k == 21:
		return maplen(ld_ptr(p)) == 0
	case k == 20 || k == 22:
		return ld_ptr(p) == 0
	case k == 17:
		return tlen(t) == 0
	}
	return false
}

//@ func emptyFuncOf(t) (r)
//@ props P12 P22
//@ requires t != 0
//@ ensures fneq(r, emptyI(t))

//@ cache emptyFnCache emptyFunc (t Type): emptyI(t)

//@ func cachedEmptyFuncOf(t) (r)
//@ props P12 P20 P22
//@ requires t != 0
//@ ensures fneq(r, emptyI(t))

// ---- allowed and denied members

func denied(o encOpts, name Bytes) bool {
	return o.denyList != 0 && mhas(o.denyList, name) || o.allowList != 0 && !mhas(o.allowList, name)
}

//@ func encOpts.isDeniedField(eo, name) (r)
//@ props P17
//@ ensures r == denied(eo, name)

// ---- tags

func tagName(tag Bytes) Bytes { return ite(sindex(tag, ",") < 0, tag, tag[:sindex(tag, ",")]) }
func tagOpts(tag Bytes) []Bytes {
	return ite(sindex(tag, ",") < 0, []Bytes{}, ssplit(tag[sindex(tag, ",")+1:], ","))
}

//@ func parseTag(tag) (name, opts)
//@ props P13 P22
//@ ensures name == tagName(tag)
//@ ensures opts == tagOpts(tag)

// hasOpt tells whether s holds n at the position i or after it.
func hasOpt(s []Bytes, n Bytes, i int) bool {
	if i >= len(s) {
		return false
	}
	return s[i] == n || hasOpt(s, n, i+1)
}

//@ func tagOptions.Contains(opts, name) (r)
//@ props P12 P13 P15 P22
//@ ensures r == hasOpt(opts, name, 0)
//@ inv (i int) 0 <= i && hasOpt(opts, name, 0) == hasOpt(opts, name, i)

// ---- names

func isPunct(c int) bool {
	return c == ' ' || c == '!' || '#' <= c && c <= '&' || '(' <= c && c <= '+' || '-' <= c && c <= '/' || ':' <= c && c <= '@' || c == '[' || ']' <= c && c <= '_' || '{' <= c && c <= '~'
}

// nameOk tells whether the characters from the position i are valid.
func nameOk(s Bytes, i int) bool {
	if i >= len(s) {
		return true
	}
	return (isPunct(drune(s[i:])) || isLetter(drune(s[i:])) || isDigit(drune(s[i:]))) && nameOk(s, i+dsize(s[i:]))
}

//@ func isValidFieldName(s) (r)
//@ props P13
//@ ensures r == (len(s) != 0 && nameOk(s, 0))
//@ inv (i int) 0 <= i && i <= len(s) && nameOk(s, 0) == nameOk(s, i)

// ---- selection

func selectable(f reflect.StructField) bool {
	return f.PkgPath == "" || f.Anonymous && kind(ite(kind(f.Type) == 22, elem(f.Type), f.Type)) == 25
}

//@ func shouldEncodeField(sf) (r)
//@ props P13
//@ requires sf.Type != 0
//@ ensures r == selectable(sf)

// before is the order of two index sequences from the position k.
func before(a []int, b []int, k int) bool {
	if k >= len(a) {
		return len(a) < len(b)
	}
	if k >= len(b) {
		return false
	}
	return ite(a[k] == b[k], before(a, b, k+1), a[k] < b[k])
}

//@ func byIndex.Less(x, i, j) (r)
//@ props P13 P22
//@ requires 0 <= i && i < len(x) && 0 <= j && j < len(x)
//@ ensures r == before(x[i].index, x[j].index, 0)
//@ inv (k int) 0 <= k && k <= len(x[i].index) && before(x[i].index, x[j].index, 0) == before(x[i].index, x[j].index, k)

func conflict(s []field, i int) bool {
	return i+1 < len(s) && len(s[i].index) == len(s[i+1].index) && s[i].tag == s[i+1].tag
}

//@ func dominantField(fields) (f, ok)
//@ props P13 P22
//@ requires len(fields) >= 1
//@ ensures ok == !conflict(fields, 0)
//@ ensures imp(ok, f == fields[0])

// runEnd is the end of the run of fields with the name of s[i].
func runEnd(s []field, i int, j int) int {
	if j >= len(s) || s[j].name != s[i].name {
		return j
	}
	return runEnd(s, i, j+1)
}

// visible is the dominant fields from the position i.
func visible(s []field, i int) []field {
	if i >= len(s) {
		return []field{}
	}
	return ite(runEnd(s, i, i+1) > i+1 && conflict(s, i), []field{}, s[i:i+1]) + visible(s, runEnd(s, i, i+1))
}

//@ func filterByVisibility(fields) (r)
//@ props P13 P22
//@ reuses fields
//@ ensures r == visible(fields, 0)
//@ inv (i int) 0 <= i && i <= len(fields)
//@ inv (f []field, i int) f[i:] == fields[i:]
//@ inv (r []field, i int) len(r) <= i && r + visible(fields, i) == visible(fields, 0)
//@ inv (i int, adv int) 1 <= adv && i + adv <= len(fields) && runEnd(fields, i, i+1) == runEnd(fields, i, i+adv)

func baseType(t Type) Type { return ite(kind(t) == 22, elem(t), t) }

// typeAt is the type of the field that the sequence leads to.
func typeAt(t Type, index []int, i int) Type {
	if i >= len(index) {
		return t
	}
	return typeAt(tfield(baseType(t), index[i]).Type, index, i+1)
}
func pathOk(t Type, index []int, i int) bool {
	if i >= len(index) {
		return true
	}
	return kind(baseType(t)) == 25 && 0 <= index[i] && index[i] < numfield(baseType(t)) && pathOk(tfield(baseType(t), index[i]).Type, index, i+1)
}

//@ func typeByIndex(t, index) (r)
//@ props P12 P13 P15 P22
//@ requires t != 0 && pathOk(t, index, 0)
//@ ensures r == typeAt(t, index, 0) && r != 0
//@ inv (x Type, i int) 0 <= i && x != 0 && typeAt(x, index, i) == typeAt(t, index, 0) && pathOk(x, index, i)

// ---- the members

// chase follows the offsets and the embedded pointers; it is 0
// behind a nil pointer.
func chase(p Ptr, s []seq, i int) Ptr {
	if i >= len(s) {
		return p
	}
	if !s[i].indir {
		return chase(p+s[i].offset, s, i+1)
	}
	return ite(ld_ptr(p+s[i].offset) == 0, 0, chase(ld_ptr(p+s[i].offset), s, i+1))
}

// fieldOk: the keys hold at least a character, and the functions
// that are called are there.
func fieldOk(f field) bool {
	return f.instr != 0 && imp(f.omitEmpty, f.empty != 0) && len(f.keyNonEsc) >= 4 && len(f.keyEscHTML) >= 4
}
func fieldsOk(s []field) bool {
	if len(s) == 0 {
		return true
	}
	return fieldOk(s[0]) && fieldsOk(s[1:])
}

// omitted tells whether the field f, at the address a, is not encoded.
func omitted(f field, a Ptr, o encOpts) bool {
	return denied(o, f.name) || a == 0 || f.omitNil && ld_ptr(a) == 0 || f.omitEmpty && EM(f.empty, a)
}
func memberO(f field, a Ptr, o encOpts) Bytes {
	return ite(flag(o.flags, noHTMLEscaping), f.keyNonEsc, f.keyEscHTML) + O(f.instr, a, o)
}
func nullEnd(s Bytes) bool { return len(s) >= 4 && s[len(s)-4:] == "null" }

// structO is the members from the field i.
func structO(s []field, i int, first bool, p Ptr, o encOpts) Bytes {
	if i >= len(s) {
		return ite(first, "{}", "}")
	}
	a := chase(p, s[i].embedSeq, 0)
	if omitted(s[i], a, o) {
		return structO(s, i+1, first, p, o)
	}
	if s[i].omitNullMarshaler && nullEnd(memberO(s[i], a, o)) {
		return structO(s, i+1, first, p, o)
	}
	return ite(first, "{", ",") + memberO(s[i], a, o) + structO(s, i+1, false, p, o)
}
func structE(s []field, i int, p Ptr, o encOpts) Err {
	if i >= len(s) {
		return nil
	}
	a := chase(p, s[i].embedSeq, 0)
	if omitted(s[i], a, o) {
		return structE(s, i+1, p, o)
	}
	return ite(E(s[i].instr, a, o) != 0, E(s[i].instr, a, o), structE(s, i+1, p, o))
}

//@ func encodeStruct(p, dst, o, flds) (r, err)
//@ props P12 P15 P17 P18 P21 P22
//@ requires p >= 1 && fieldsOk(flds)
//@ appends dst
//@ out structO(flds, 0, true, p, o)
//@ err structE(flds, 0, p, o)
//@ inv (i int) 0 <= i && fieldsOk(flds[i:])
//@ inv (d Bytes, i int, nxt int) (nxt == '{' || nxt == ',') && dst + structO(flds, 0, true, p, o) == d + structO(flds, i, nxt == '{', p, o)
//@ inv (i int) structE(flds, 0, p, o) == structE(flds, i, p, o)
//@ inv (fp Ptr, m int, k int) fp >= 1 && 0 <= k && chase(p, flds[m].embedSeq, 0) == chase(fp, flds[m].embedSeq, k)

// ---- the instruction of a struct

// srcOk: the index sequences lead to fields of the type t, and the
// keys hold at least a character.
func srcOk(s []field, t Type) bool {
	if len(s) == 0 {
		return true
	}
	return fieldSrc(s[0], t) && srcOk(s[1:], t)
}
func fieldSrc(f field, t Type) bool {
	return pathOk(t, f.index, 0) && len(f.keyNonEsc) >= 4 && len(f.keyEscHTML) >= 4
}

//@ for structFields
//@ props P13 P22
//@ induction s s[1:]
func lemma_srcOk__last(s []field, t Type) bool {
	return imp(len(s) > 0, srcOk(s, t) == (srcOk(s[:len(s)-1], t) && fieldSrc(s[len(s)-1], t)))
}

// ---- the fields of a struct

// The fields are those that a search in breadth finds, level by level,
// in the struct and in the structs that it embeds. A struct is scanned
// once; ncnt counts how many times each struct is embedded in a level.

// givenName is the name given by the tag, if it is valid.
func givenName(sf reflect.StructField) Bytes {
	n := tagName(tagGet(sf.Tag, "json"))
	return ite(len(n) != 0 && nameOk(n, 0), n, "")
}
func fieldName(sf reflect.StructField) Bytes {
	return ite(givenName(sf) != "", givenName(sf), sf.Name)
}
func left(sf reflect.StructField) bool { return !selectable(sf) || tagGet(sf.Tag, "json") == "-" }
func ownType(t Type) Type              { return ite(tname(t) == "" && kind(t) == 22, elem(t), t) }
func embeds(sf reflect.StructField) bool {
	return givenName(sf) == "" && sf.Anonymous && kind(ownType(sf.Type)) == 25
}
func keyOf(name Bytes) Bytes { return "\"" + name + "\":" }

// newField is the field i of the struct that f leads to.
func newField(f field, i int) field {
	sf := tfield(f.typ, i)
	opts := tagOpts(tagGet(sf.Tag, "json"))
	return field{
		typ: ownType(sf.Type), name: fieldName(sf), keyNonEsc: keyOf(fieldName(sf)), keyEscHTML: keyOf(htmlEscape(fieldName(sf))),
		index: f.index + unit(i), tag: givenName(sf) != "",
		quoted: hasOpt(opts, "string", 0) && isBasic(ownType(sf.Type)), omitEmpty: hasOpt(opts, "omitempty", 0), omitNil: hasOpt(opts, "omitnil", 0),
		embedSeq: f.embedSeq + unit(seq{offset: sf.Offset, indir: false}),
	}
}

// newEmbed is the struct embedded by the field i.
func newEmbed(f field, i int) field {
	sf := tfield(f.typ, i)
	return field{typ: ownType(sf.Type), name: tname(ownType(sf.Type)), index: f.index + unit(i), embedSeq: f.embedSeq + unit(seq{offset: sf.Offset, indir: kind(sf.Type) == 22})}
}

// scanFlds is the fields of the struct f from the field j on. They count
// twice if the struct is embedded several times in the level.
func scanFlds(f field, dup bool, j int) []field {
	if j >= numfield(f.typ) {
		return []field{}
	}
	sf := tfield(f.typ, j)
	if left(sf) || embeds(sf) {
		return scanFlds(f, dup, j+1)
	}
	return unit(newField(f, j)) + ite(dup, unit(newField(f, j)), []field{}) + scanFlds(f, dup, j+1)
}

// scanNext is the structs that f embeds and that are new in the next level.
func scanNext(f field, ncnt map[Type]int, j int) []field {
	if j >= numfield(f.typ) {
		return []field{}
	}
	sf := tfield(f.typ, j)
	if left(sf) || !embeds(sf) {
		return scanNext(f, ncnt, j+1)
	}
	n := wrapint(ncnt[ownType(sf.Type)] + 1)
	return ite(n == 1, unit(newEmbed(f, j)), []field{}) + scanNext(f, set(ncnt, ownType(sf.Type), n), j+1)
}

// scanCnt counts the structs that f embeds.
func scanCnt(f field, ncnt map[Type]int, j int) map[Type]int {
	if j >= numfield(f.typ) {
		return ncnt
	}
	sf := tfield(f.typ, j)
	if left(sf) || !embeds(sf) {
		return scanCnt(f, ncnt, j+1)
	}
	return scanCnt(f, set(ncnt, ownType(sf.Type), wrapint(ncnt[ownType(sf.Type)]+1)), j+1)
}

//@ func scanFields(f, fields0, next0, cnt, ncnt0) (r, n)
//@ props P13 P19 P20 P22
//@ requires f.typ != 0 && kind(f.typ) == 25
//@ reuses fields0 next0
//@ maps cnt ncnt0
//@ modifies ncnt0
//@ ensures r == fields0 + scanFlds(f, cnt[f.typ] > 1, 0)
//@ ensures n == next0 + scanNext(f, ncnt0, 0)
//@ ensures now(ncnt0) == scanCnt(f, ncnt0, 0)
//@ inv (i int) 0 <= i
//@ inv (fields []field, i int) fields + scanFlds(f, cnt[f.typ] > 1, i) == fields0 + scanFlds(f, cnt[f.typ] > 1, 0)
//@ inv (next []field, ncnt map[Type]int, i int) next + scanNext(f, ncnt, i) == next0 + scanNext(f, ncnt0, 0)
//@ inv (ncnt map[Type]int, i int) scanCnt(f, ncnt, i) == scanCnt(f, ncnt0, 0)

// bfs scans the structs of next, then those they embed.
func bfs(next []field, ncnt map[Type]int, seen map[Type]bool, flds []field) []field {
	if len(next) == 0 {
		return flds
	}
	return level(next, 0, ncnt, flds, []field{}, constmap(0), seen)
}
func level(curr []field, i int, cnt map[Type]int, flds []field, next []field, ncnt map[Type]int, seen map[Type]bool) []field {
	if i >= len(curr) {
		return bfs(next, ncnt, seen, flds)
	}
	f := curr[i]
	if seen[f.typ] {
		return level(curr, i+1, cnt, flds, next, ncnt, seen)
	}
	return level(curr, i+1, cnt, flds+scanFlds(f, cnt[f.typ] > 1, 0), next+scanNext(f, ncnt, 0), scanCnt(f, ncnt, 0), set(seen, f.typ, true))
}
func allFields(t Type) []field {
	return bfs(unit(field{typ: t}), constmap(0), constmap(false), []field{})
}

// The fields are sorted by name, depth, tag and position, then those that
// are visible by position.

func less_field__name(a field, b field) bool {
	return ite(a.name != b.name, strlt(a.name, b.name),
		ite(len(a.index) != len(b.index), len(a.index) < len(b.index),
			ite(a.tag != b.tag, a.tag, before(a.index, b.index, 0))))
}
func less_field__index(a field, b field) bool { return before(a.index, b.index, 0) }
func sorted_field__name(s []field) []field
func sorted_field__index(s []field) []field

// Sorting changes the order only.
//
//@ on srcOk sorted_field__name
func fact_srcOk__sorted_name(s []field, t Type) bool { return srcOk(sorted_field__name(s), t) == srcOk(s, t) }

//@ on srcOk sorted_field__index
func fact_srcOk__sorted_index(s []field, t Type) bool { return srcOk(sorted_field__index(s), t) == srcOk(s, t) }

//@ for structFields
//@ props P13 P22
//@ induction j j+1 measure len(s)-j
//@ also t srcOk 1
func lemma_runEnd__ok(s []field, i int, j int, t Type) bool {
	return imp(0 <= j && j <= len(s) && srcOk(s[j:], t), srcOk(s[runEnd(s, i, j):], t) && j <= runEnd(s, i, j) && runEnd(s, i, j) <= len(s))
}

//@ for structFields
//@ props P13 P22
//@ induction i runEnd(s,i,i+1) measure len(s)-i
//@ also t srcOk 1
func lemma_visible__ok(s []field, i int, t Type) bool {
	return imp(0 <= i && i <= len(s) && srcOk(s[i:], t), srcOk(visible(s, i), t))
}

// fieldsOf is the fields that are encoded for a struct.
//
//@ for structFields
func fieldsOf(t Type) []field {
	return sorted_field__index(visible(sorted_field__name(allFields(t)), 0))
}

// queueOk: the structs to scan are in the type t.
func queueOk(s []field, t Type) bool {
	if len(s) == 0 {
		return true
	}
	return embedOk(s[0], t) && queueOk(s[1:], t)
}
func embedOk(f field, t Type) bool {
	return f.typ != 0 && kind(f.typ) == 25 && pathOk(t, f.index, 0) && baseType(typeAt(t, f.index, 0)) == f.typ
}

//@ for structFields
//@ props P13 P22
//@ induction s s[1:]
func lemma_queueOk__last(s []field, t Type) bool {
	return imp(len(s) > 0, queueOk(s, t) == (queueOk(s[:len(s)-1], t) && embedOk(s[len(s)-1], t)))
}

// oneMore tells whether the sequence index[i:] leads to a struct of which x is
// a field.
func oneMore(t Type, index []int, i int, x int) bool {
	return pathOk(t, index, i) && kind(baseType(typeAt(t, index, i))) == 25 && 0 <= x && x < numfield(baseType(typeAt(t, index, i)))
}

//@ for structFields
//@ props P13 P22
//@ induction i i+1; t tfield(baseType(t),index[i]).Type measure len(index)-i
func lemma_pathOk__last(t Type, index []int, i int) bool {
	return imp(0 <= i && i < len(index), pathOk(t, index, i) == oneMore(t, index[:len(index)-1], i, index[len(index)-1]))
}

//@ for structFields
//@ props P13 P22
//@ induction i i+1; t tfield(baseType(t),index[i]).Type measure len(index)-i
func lemma_typeAt__last(t Type, index []int, i int) bool {
	return imp(0 <= i && i < len(index), typeAt(t, index, i) == tfield(baseType(typeAt(t, index[:len(index)-1], i)), index[len(index)-1]).Type)
}

//@ for structFields
//@ props P13 P22
//@ also t srcOk 1
func lemma_scanFlds__one(f field, dup bool, j int, t Type) bool {
	return imp(0 <= j && j < numfield(f.typ) && embedOk(f, t) && !left(tfield(f.typ, j)) && !embeds(tfield(f.typ, j)), fieldSrc(newField(f, j), t))
}

//@ for structFields
//@ props P13 P22
//@ induction j j+1 measure numfield(f.typ)-j
//@ also t srcOk 1
func lemma_scanFlds__ok(f field, dup bool, j int, t Type) bool {
	return imp(0 <= j && embedOk(f, t), srcOk(scanFlds(f, dup, j), t))
}

//@ for lemmas
//@ props P13 P22
//@ induction a a[1:]
//@ fuel 1
//@ also b srcOk 0
func lemma_srcOk__cat(a []field, t Type, b []field) bool {
	return imp(srcOk(a, t) && srcOk(b, t), srcOk(a+b, t))
}

//@ for structFields
//@ props P13 P22
//@ fuel 1
//@ also a srcOk 0
//@ also t srcOk 1
func lemma_scanFlds__cat(f field, dup bool, j int, a []field, t Type) bool {
	return imp(srcOk(a, t) && srcOk(scanFlds(f, dup, j), t), srcOk(a+scanFlds(f, dup, j), t))
}

//@ for structFields
//@ props P13 P22
//@ also t queueOk 1
func lemma_scanNext__one(f field, ncnt map[Type]int, j int, t Type) bool {
	return imp(0 <= j && j < numfield(f.typ) && embedOk(f, t) && !left(tfield(f.typ, j)) && embeds(tfield(f.typ, j)), embedOk(newEmbed(f, j), t))
}

//@ for structFields
//@ props P13 P22
//@ induction2 j j+1
//@ induction j j+1; ncnt set(ncnt,ownType(tfield(f.typ,j).Type),wrapint(ncnt[ownType(tfield(f.typ,j).Type)]+1)) measure numfield(f.typ)-j
//@ also t queueOk 1
func lemma_scanNext__ok(f field, ncnt map[Type]int, j int, t Type) bool {
	return imp(0 <= j && embedOk(f, t), queueOk(scanNext(f, ncnt, j), t))
}

//@ for lemmas
//@ props P13 P22
//@ induction a a[1:]
//@ fuel 1
//@ also b queueOk 0
func lemma_queueOk__cat(a []field, t Type, b []field) bool {
	return imp(queueOk(a, t) && queueOk(b, t), queueOk(a+b, t))
}

//@ for structFields
//@ props P13 P22
//@ fuel 1
//@ also a queueOk 0
//@ also t queueOk 1
func lemma_scanNext__cat(f field, ncnt map[Type]int, j int, a []field, t Type) bool {
	return imp(queueOk(a, t) && queueOk(scanNext(f, ncnt, j), t), queueOk(a+scanNext(f, ncnt, j), t))
}

//@ func structFields(t) (r)
//@ props P13 P15 P19 P20 P22
//@ requires t != 0 && kind(t) == 25
//@ ensures r == fieldsOf(t)
//@ ensures srcOk(r, t)
//@ inv_own (flds []field) srcOk(flds, t)
//@ inv_own (next []field) queueOk(next, t)
//@ inv_own (next []field, ncnt map[Type]int, seen map[Type]bool, flds []field) bfs(next, ncnt, seen, flds) == allFields(t)
//@ inv_own (nextOuter []field, rangeindex int, ncntOuter map[Type]int, flds []field, next []field, ncnt map[Type]int, seen map[Type]bool) 0 <= rangeindex &&
//@+ queueOk(nextOuter[rangeindex:], t) && level(nextOuter, rangeindex, ncntOuter, flds, next, ncnt, seen) == allFields(t)

//@ cache fieldsCache []field (t Type): fieldsOf(t)
//@ cachefact fieldsCache: srcOk(fieldsOf(t), t)

// behindPtr tells whether a pointer is followed.
func behindPtr(s []seq, i int) bool {
	if i >= len(s) {
		return false
	}
	return s[i].indir || behindPtr(s, i+1)
}

func nullable(t Type) bool {
	return implements(t, typ("json.Marshaler")) || implements(ptrTo(t), typ("json.Marshaler"))
}
func isBasic(t Type) bool { return 1 <= kind(t) && kind(t) <= 14 || kind(t) == 24 }

// member is the field f of the type t with its instruction.
func member(f field, t Type, ca bool) field {
	ft := typeAt(t, f.index, 0)
	return field{
		typ: f.typ, name: f.name, keyNonEsc: f.keyNonEsc, keyEscHTML: f.keyEscHTML, index: f.index, tag: f.tag,
		quoted: f.quoted, omitEmpty: f.omitEmpty, omitNil: f.omitNil && nilable(ft),
		omitNullMarshaler: f.omitNullMarshaler || f.omitNil && nullable(ft),
		instr:             encI(ft, ca || behindPtr(f.embedSeq, 0), f.quoted && isBasic(baseType(ft))),
		empty:             ite(f.omitEmpty, emptyI(ft), f.empty),
		embedSeq:          f.embedSeq,
	}
}
func members(s []field, t Type, ca bool) []field {
	if len(s) == 0 {
		return []field{}
	}
	return unit(member(s[0], t, ca)) + members(s[1:], t, ca)
}

//@ props P12 P22
//@ induction s s[1:]
func lemma_members__ok(s []field, t Type, ca bool) bool {
	return len(members(s, t, ca)) == len(s) && imp(srcOk(s, t), fieldsOk(members(s, t, ca)))
}

//@ range 1 -
func structI(t Type, ca bool) Fn
func O_structI(t Type, ca bool, p Ptr, o encOpts) Bytes {
	return ite(numfield(t) == 0, "{}", structO(members(fieldsOf(t), t, ca), 0, true, p, o))
}
func E_structI(t Type, ca bool, p Ptr, o encOpts) Err {
	return ite(numfield(t) == 0, nil, structE(members(fieldsOf(t), t, ca), 0, p, o))
}

//@ func newStructFieldsInstr(t, canAddr) (r)
//@ props P12 P13 P15 P20 P22
//@ requires t != 0 && kind(t) == 25
//@ ensures fneq(r, structI(t, canAddr))
//@ inv (d []field, rangeindex int) 0 <= rangeindex && rangeindex <= len(fieldsOf(t)) && len(d) == len(fieldsOf(t)) && d[rangeindex:] == fieldsOf(t)[rangeindex:] &&
//@+ d[:rangeindex] + members(fieldsOf(t)[rangeindex:], t, canAddr) == members(fieldsOf(t), t, canAddr)
//@ inv (rangeindex int) srcOk(fieldsOf(t)[rangeindex:], t)
//@ inv (addr bool, rangeindexOuter int, rangeindex int) 0 <= rangeindex && (canAddr || behindPtr(fieldsOf(t)[rangeindexOuter].embedSeq, 0)) == (addr || behindPtr(fieldsOf(t)[rangeindexOuter].embedSeq, rangeindex))

//@ func cachedFields(t) (r)
//@ props P13 P19 P20 P22
//@ requires t != 0 && kind(t) == 25
//@ ensures r == fieldsOf(t)
//@ ensures srcOk(fieldsOf(t), t)
