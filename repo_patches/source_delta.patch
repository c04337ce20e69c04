From fb630a54cc125d0f3bc2acc80a4583f8c148bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 01/19] fix: escape the text returned by encoding.TextMarshaler

The result of MarshalText was copied verbatim between double quotes,
which produced invalid JSON for any text holding a quote, a backslash
or a control character.
---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 7525b1f..8ec81b8 100644
--- a/encode.go
+++ b/encode.go
@@ -716,13 +716,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From ef08199d0b89a557ba9075ba04e6681238de4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 02/19] fix: escape twice the strings of fields tagged with the
 string option

A string field with the "string" tag option holds a JSON string inside
a JSON string, but its content was escaped only once, so a value with a
quote, a backslash or a control character did not decode to itself.
---
 encode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 8ec81b8..cf26dd4 100644
--- a/encode.go
+++ b/encode.go
@@ -43,10 +43,18 @@ func encodeString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 
 //nolint:unparam
 func encodeQuotedString(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	// The JSON form of the string is itself encoded
+	// as a JSON string, so the escape sequences it
+	// contains must be escaped a second time.
+	buf := cachedBuffer()
+	buf.B = appendEscapedBytes(buf.B, sp2b(p), opts)
+
 	dst = append(dst, `"\"`...)
-	dst = appendEscapedBytes(dst, sp2b(p), opts)
+	dst = appendEscapedBytes(dst, buf.B, opts)
 	dst = append(dst, `\""`...)
 
+	bufferPool.Put(buf)
+
 	return dst, nil
 }
 
-- 
2.43.0


From 0e7307c3e2c6d927097e5ce196bbbac043ea23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 03/19] fix: handle all pointer-shaped types stored directly in
 an interface

Arrays of one pointer-shaped element were dereferenced once too much,
and the value receiver methods of pointer-shaped maps, structs, funcs
and arrays were called with the address of the value instead of the
value itself.
---
 encode.go | 2 +-
 types.go  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index cf26dd4..e9ac31a 100644
--- a/encode.go
+++ b/encode.go
@@ -679,7 +679,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, !canAddr && isInlined(t))
 	}
 	return fn(i, dst, opts, t)
 }
diff --git a/types.go b/types.go
index b4aaab4..397b01d 100644
--- a/types.go
+++ b/types.go
@@ -66,10 +66,14 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether a value of type t is
+// stored directly in the data word of an interface.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
 	default:
-- 
2.43.0


From e3860f0c06329cf9f6537177816b2bc23341152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 04/19] fix: encode values of interface types that have methods

The empty interface layout was used to read a value of any interface
type, which reinterpreted the itab of a non-empty interface as a type
descriptor and crashed the program.
---
 encode.go      | 11 +++++++++++
 instruction.go |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/encode.go b/encode.go
index e9ac31a..9aedc12 100644
--- a/encode.go
+++ b/encode.go
@@ -81,6 +81,17 @@ func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	return ins(unpackEface(v).word, dst, opts)
 }
 
+// encodeMethodsInterface is similar to encodeInterface,
+// but for interface types with at least one method, that
+// have a memory layout different from the empty interface.
+func encodeMethodsInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	v := *(*interface{ M() })(p)
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
+	return appendJSON(dst, v, opts)
+}
+
 func encodeNumber(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	// Cast pointer to string directly to avoid
 	// a useless conversion.
diff --git a/instruction.go b/instruction.go
index 138d7d2..c71529e 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeMethodsInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From a8d610c6157001895ea69a20ba0fb81817ed24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 05/19] fix: do not share the offset sequences of sibling
 embedded structs

The sequences of the structs embedded by the same deeply nested struct
were appended to a common slice with spare capacity, so that the last
one overwrote the others and fields were read from a wrong location.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From 39919463bd795997ec527b19a949028f2efcd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 06/19] fix: keep the object valid when its first field is
 omitted as null

A leading field with the omitnil option whose marshaler returned null
was removed along with its key, but the next field was still preceded
by a comma.
---
 encode.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index 9aedc12..57719a2 100644
--- a/encode.go
+++ b/encode.go
@@ -256,11 +256,8 @@ fieldLoop:
 		if noHTMLEscape {
 			key = f.keyNonEsc
 		}
-		lastKeyOffset := len(dst)
+		prv, lastKeyOffset := nxt, len(dst)
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
 		nxt = ','
 		dst = append(dst, key...)
 
@@ -270,6 +267,7 @@ fieldLoop:
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
 			dst = dst[:lastKeyOffset]
+			nxt = prv
 		}
 	}
 	if nxt == '{' {
-- 
2.43.0


From 69d07d21644e0ac17b4dbccc7739d70396af1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 07/19] fix: encode correctly the times of year 0

The number of seconds since the epoch of the Rata Die algorithm is
negative for the dates of year 0, which are in the range accepted by
the encoder, and the digits of the date and time were garbage.
---
 time.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/time.go b/time.go
index 892ab6b..e91788f 100644
--- a/time.go
+++ b/time.go
@@ -2,7 +2,11 @@ package jettison
 
 import "time"
 
-const epoch = 62135683200 // 1970-01-01T00:00:00
+const (
+	epoch     = 62135683200    // 1970-01-01T00:00:00
+	cycle     = 400            // years in a Gregorian cycle
+	cycleSecs = 146097 * 86400 // seconds in a Gregorian cycle
+)
 
 // DurationFmt represents the format used
 // to encode a time.Duration value.
@@ -179,8 +183,12 @@ func appendRFC3339Time(t time.Time, dst []byte, nano bool) []byte {
 
 	// Year.
 	_, offset := t.Zone()
-	sec := t.Unix() + int64(offset) + epoch
+	// Shift the date by a full Gregorian cycle to
+	// work on a positive number of seconds for all
+	// the days of year 0, that precedes the epoch.
+	sec := t.Unix() + int64(offset) + epoch + cycleSecs
 	y, m, d := rdnToYmd(uint32(sec / 86400))
+	y -= cycle
 	for i := 4; i >= 1; i-- {
 		buf[i] = byte(y%10) + '0'
 		y /= 10
-- 
2.43.0


From af8d7304592855a097a9e40dc337b038ac6d84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 08/19] fix: accept semicolons in the names of struct field
 tags

encoding/json accepts a semicolon in a tag name, but such a tag was
ignored and the Go name of the field used instead.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 34080c1..3a6c16c 100644
--- a/struct.go
+++ b/struct.go
@@ -10,7 +10,7 @@ import (
 	"unicode"
 )
 
-const validChars = "!#$%&()*+-./:<=>?@[]^_{|}~ "
+const validChars = "!#$%&()*+-./:;<=>?@[]^_{|}~ "
 
 var fieldsCache sync.Map // map[reflect.Type][]field
 
-- 
2.43.0


From 74bed836e632a8ef6e14f4216d5979205b33084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 09/19] fix: apply the time options to pointers to time.Time

A *time.Time implements json.Marshaler, so that its MarshalJSON method
was called, ignoring the options TimeLayout and UnixTime that apply to
the time.Time values.
---
 instruction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index c71529e..a497271 100644
--- a/instruction.go
+++ b/instruction.go
@@ -91,6 +91,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newGoTypeInstr(t); ins != nil {
 		return ins
 	}
+	// The pointer to a Go type that is handled natively
+	// may implement an interface through its element.
+	if t.Kind() == reflect.Ptr && newGoTypeInstr(t.Elem()) != nil {
+		return newPtrInstr(t, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
-- 
2.43.0


From 36e76cab65970e249ccb59a6a98cc6e67b5c2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 10/19] fix: honor the string option of json.Number fields

Like every other string, integer or floating point field, a json.Number
with the "string" tag option is quoted by encoding/json.
---
 instruction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instruction.go b/instruction.go
index a497271..7f542d7 100644
--- a/instruction.go
+++ b/instruction.go
@@ -89,6 +89,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	// type implements the TextMarshaler interface, but we
 	// want to use a special instruction instead.
 	if ins := newGoTypeInstr(t); ins != nil {
+		if quoted && t == jsonNumberType {
+			return wrapQuotedInstr(ins)
+		}
 		return ins
 	}
 	// The pointer to a Go type that is handled natively
-- 
2.43.0


From 4e2b9f23c43c057c278b5069bfddd7e9ad94ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 11/19] fix: report invalid json.RawMessage values

The content of a json.RawMessage was copied to the output without being
validated, unlike the result of a MarshalJSON method, which produced
invalid JSON where encoding/json returns an error.
---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index 57719a2..e0d8fd5 100644
--- a/encode.go
+++ b/encode.go
@@ -118,6 +118,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From 6684d6a2af4cdf93e9c1fbe0923abcbeb19b7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 12/19] fix: escape U+2028 and U+2029 when UTF-8 coercion is
 disabled

The line and paragraph separators must be escaped unconditionally, but
the NoUTF8Coercion option, which only concerns invalid bytes, disabled
their escaping too.
---
 encode.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/encode.go b/encode.go
index e0d8fd5..7d93303 100644
--- a/encode.go
+++ b/encode.go
@@ -887,25 +887,23 @@ func appendEscapedBytes(dst []byte, b []byte, opts encOpts) []byte {
 				at = i
 				continue
 			}
-			// U+2028 is LINE SEPARATOR.
-			// U+2029 is PARAGRAPH SEPARATOR.
-			// They are both technically valid characters in
-			// JSON strings, but don't work in JSONP, which has
-			// to be evaluated as JavaScript, and can lead to
-			// security holes there. It is valid JSON to escape
-			// them, so we do so unconditionally.
-			// See http://timelessrepo.com/json-isnt-a-javascript-subset.
-			if r == '\u2028' || r == '\u2029' {
-				if at < i {
-					dst = append(dst, b[at:i]...)
-				}
-				dst = append(dst, `\u202`...)
-				dst = append(dst, hex[r&0xF])
-				i += size
-				at = i
-				continue
+		}
+		// U+2028 is LINE SEPARATOR.
+		// U+2029 is PARAGRAPH SEPARATOR.
+		// They are both technically valid characters in
+		// JSON strings, but don't work in JSONP, which has
+		// to be evaluated as JavaScript, and can lead to
+		// security holes there. It is valid JSON to escape
+		// them, so we do so unconditionally.
+		// See http://timelessrepo.com/json-isnt-a-javascript-subset.
+		if r == '\u2028' || r == '\u2029' {
+			if at < i {
+				dst = append(dst, b[at:i]...)
 			}
+			dst = append(dst, `\u202`...)
+			dst = append(dst, hex[r&0xF])
 			i += size
+			at = i
 			continue
 		}
 		i += size
-- 
2.43.0


From 15a89a57373097f90dc3eca794b00b5318c7cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 13/19] fix: encode all types of map keys as valid JSON strings

The keys that are not strings were encoded like values, so that a key
type with a MarshalJSON method, a nil pointer key of a sync.Map, or the
keys of type time.Time and time.Duration with the options UnixTime and
DurationFormat could produce an invalid JSON object, or panic.
---
 encode.go      | 57 ++++++++++++++++++++++++--------------------------
 instruction.go | 48 +++++++++++++++++++++++++-----------------
 2 files changed, 56 insertions(+), 49 deletions(-)

diff --git a/encode.go b/encode.go
index 7d93303..de7f143 100644
--- a/encode.go
+++ b/encode.go
@@ -176,6 +176,25 @@ func encodeDuration(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error)
 	}
 }
 
+// encodeTimeKey is similar to encodeTime, but always
+// encodes the value as a string, to use as a map key.
+func encodeTimeKey(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.flags.has(unixTime) {
+		return wrapQuotedInstr(encodeTime)(p, dst, opts)
+	}
+	return encodeTime(p, dst, opts)
+}
+
+// encodeDurationKey is similar to encodeDuration, but
+// always encodes the value as a string, to use as a map
+// key.
+func encodeDurationKey(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	if opts.durationFmt == DurationString {
+		return encodeDuration(p, dst, opts)
+	}
+	return wrapQuotedInstr(encodeDuration)(p, dst, opts)
+}
+
 func appendFloat(dst []byte, f float64, bs int) ([]byte, error) {
 	if math.IsInf(f, 0) || math.IsNaN(f) {
 		return dst, &UnsupportedValueError{
@@ -615,39 +634,17 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 		return dst, errors.New("unsupported nil key in sync.Map")
 	}
 	kt := reflect.TypeOf(key)
-	var (
-		isStr = isString(kt)
-		isInt = isInteger(kt)
-		isTxt = kt.Implements(textMarshalerType)
-	)
-	if !isStr && !isInt && !isTxt {
+	ins := newMapKeyInstr(kt)
+	if ins == nil {
 		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
-	var err error
-
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
-	}
-	if err != nil {
-		return dst, err
+	if isInlined(kt) {
+		ins = wrapInlineInstr(ins)
 	}
-	if quoted {
-		dst = append(dst, '"')
-	}
-	return dst, nil
+	dst, err := ins(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
+
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/instruction.go b/instruction.go
index 7f542d7..d709432 100644
--- a/instruction.go
+++ b/instruction.go
@@ -387,27 +387,9 @@ func newMapInstr(t reflect.Type) instruction {
 	kt := t.Key()
 	et := t.Elem()
 
-	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
+	if ki = newMapKeyInstr(kt); ki == nil {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
 	vi = newInstruction(et, false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
@@ -415,6 +397,34 @@ func newMapInstr(t reflect.Type) instruction {
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode
+// a map key of type t, or nil if it is unsupported.
+func newMapKeyInstr(t reflect.Type) instruction {
+	// The standard library has a strict precedence order
+	// for map key types, defined by the documentation of
+	// the json.Marshal function. That's why we bypass the
+	// newInstruction function.
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType:
+		return encodeTimeKey
+	case t == timeDurationType:
+		return encodeDurationKey
+	case t.Implements(textMarshalerType):
+		ins := newTextMarshalerInstr(t, false)
+		if t.Kind() == reflect.Ptr {
+			// See issue golang.org/issue/33675 for reference.
+			ins = wrapTextMarshalerNilCheck(ins)
+		}
+		return ins
+	case isInteger(t):
+		return newBasicTypeInstr(t, true)
+	default:
+		return nil
+	}
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
-- 
2.43.0


From 58b072f01c7c87fedad4b2f84e7611314c7fc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 14/19] fix: sort map entries by their unescaped keys

The entries were sorted by the JSON form of their keys, in which a
character that must be escaped starts with a backslash, so that their
order was not the lexicographical order of the keys.
---
 encode.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/encode.go b/encode.go
index de7f143..fca6fc4 100644
--- a/encode.go
+++ b/encode.go
@@ -460,7 +460,10 @@ func encodeSortedMap(
 		err error
 		buf = cachedBuffer()
 		mel *mapElems
+		raw = opts
 	)
+	raw.flags.set(noStringEscaping)
+
 	if v := mapElemsPool.Get(); v != nil {
 		mel = v.(*mapElems)
 	} else {
@@ -469,16 +472,19 @@ func encodeSortedMap(
 	for ; it.key != nil; mapiternext(it) {
 		kv := kv{}
 
-		// Encode the key and store the buffer
-		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		// Encode the unescaped key and store the
+		// buffer portion to use during sort.
+		if buf.B, err = ki(it.key, buf.B, raw); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
 
-		// Add separator after key.
-		buf.B = append(buf.B, ':')
+		// Escape the key and add separator.
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"', ':')
 
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
@@ -577,7 +583,10 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 		err error
 		buf = cachedBuffer()
 		mel *mapElems
+		raw = opts
 	)
+	raw.flags.set(noStringEscaping)
+
 	if v := mapElemsPool.Get(); v != nil {
 		mel = v.(*mapElems)
 	} else {
@@ -586,16 +595,19 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	sm.Range(func(key, value interface{}) bool {
 		kv := kv{}
 
-		// Encode the key and store the buffer
-		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		// Encode the unescaped key and store the
+		// buffer portion to use during the later sort.
+		if buf.B, err = appendSyncMapKey(buf.B, key, raw); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		off = len(buf.B)
 
-		// Add separator after key.
-		buf.B = append(buf.B, ':')
+		// Escape the key and add separator.
+		buf.B = append(buf.B, '"')
+		buf.B = appendEscapedBytes(buf.B, kv.key, opts)
+		buf.B = append(buf.B, '"', ':')
 
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
-- 
2.43.0


From 2efe1f180cb97bfe03edc8f21e4dda7431ff2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 15/19] fix: reject the times with an offset that RFC 3339
 cannot represent

The hours of an offset that do not fit in two digits were truncated,
which changed the instant represented. Like encoding/json, report an
error for the offsets of 24 hours or more.
---
 encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode.go b/encode.go
index fca6fc4..9598a02 100644
--- a/encode.go
+++ b/encode.go
@@ -139,6 +139,12 @@ func encodeTime(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 	if opts.flags.has(unixTime) {
 		return strconv.AppendInt(dst, t.Unix(), 10), nil
 	}
+	if opts.timeLayout == time.RFC3339 || opts.timeLayout == time.RFC3339Nano {
+		const day = 24 * 60 * 60
+		if _, offset := t.Zone(); offset <= -day || offset >= day {
+			return dst, errors.New("time: timezone hour outside of range [0,23]")
+		}
+	}
 	switch opts.timeLayout {
 	case time.RFC3339:
 		return appendRFC3339Time(t, dst, false), nil
-- 
2.43.0


From 71fb4a9a8affe83899f38e0d7a1fc24b728b72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 16/19] fix: support recursive slice, map, array and pointer
 types

The instructions of the recursive struct types are shared to build them
only once, but those of the other named types were not, so that a type
like 'type T []T' exhausted the stack.
---
 instruction.go | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/instruction.go b/instruction.go
index d709432..ba3d30f 100644
--- a/instruction.go
+++ b/instruction.go
@@ -10,7 +10,7 @@ import (
 
 var (
 	instrCachePtr    unsafe.Pointer // *instrCache
-	structInstrCache sync.Map       // map[string]instruction
+	sharedInstrCache sync.Map       // map[string]instruction
 )
 
 // An instruction appends the JSON representation
@@ -113,16 +113,30 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
+	case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+		// Only a named type can be recursive. An element
+		// that is quoted is always of a basic type.
+		if t.Name() != "" && !quoted {
+			return newSharedInstr(t, canAddr, newElemInstr)
+		}
+		return newElemInstr(t, canAddr, quoted)
+	}
+	return newUnsupportedTypeInstr(t)
+}
+
+// newElemInstr returns an instruction to encode
+// the composite type t, based on its element type.
+func newElemInstr(t reflect.Type, canAddr, quoted bool) instruction {
+	switch t.Kind() {
 	case reflect.Map:
 		return newMapInstr(t)
 	case reflect.Slice:
 		return newSliceInstr(t)
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
-	case reflect.Ptr:
+	default: // reflect.Ptr
 		return newPtrInstr(t, quoted)
 	}
-	return newUnsupportedTypeInstr(t)
 }
 
 func newGoTypeInstr(t reflect.Type) instruction {
@@ -260,9 +274,20 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 }
 
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
+	return newSharedInstr(t, canAddr, func(t reflect.Type, canAddr, _ bool) instruction {
+		return newStructFieldsInstr(t, canAddr)
+	})
+}
+
+// newSharedInstr returns the instruction built by fn to
+// encode the type t, that may be recursive, or the one
+// already built for the same type.
+func newSharedInstr(
+	t reflect.Type, canAddr bool, fn func(_ reflect.Type, canAddr, quoted bool) instruction,
+) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
-	if instr, ok := structInstrCache.Load(id); ok {
+	if instr, ok := sharedInstrCache.Load(id); ok {
 		return instr.(instruction)
 	}
 	// To deal with recursive types, populate the
@@ -276,7 +301,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 		ins instruction
 	)
 	wg.Add(1)
-	i, loaded := structInstrCache.LoadOrStore(id,
+	i, loaded := sharedInstrCache.LoadOrStore(id,
 		instruction(func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 			wg.Wait() // few ns/op overhead
 			return ins(p, dst, opts)
@@ -287,9 +312,9 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = fn(t, canAddr, false)
 	wg.Done()
-	structInstrCache.Store(id, ins)
+	sharedInstrCache.Store(id, ins)
 
 	return ins
 }
-- 
2.43.0


From 123969179b19b4e2c3386abe5bab5b961c60ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 17/19] fix: encode nil interface map keys as empty strings

A nil key of an interface type with a MarshalText method was encoded as
null, without quotes, which is not a valid JSON key, or as "ul" when the
entries are sorted. Encode it like a nil pointer key.
---
 instruction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index ba3d30f..3883e42 100644
--- a/instruction.go
+++ b/instruction.go
@@ -438,7 +438,7 @@ func newMapKeyInstr(t reflect.Type) instruction {
 		return encodeDurationKey
 	case t.Implements(textMarshalerType):
 		ins := newTextMarshalerInstr(t, false)
-		if t.Kind() == reflect.Ptr {
+		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
 			// See issue golang.org/issue/33675 for reference.
 			ins = wrapTextMarshalerNilCheck(ins)
 		}
-- 
2.43.0


From e2cbb2e0b6455e0b9cf68ae9fb68870617421bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 18/19] fix: use the pointer methods of fields behind embedded
 pointers

The fields promoted from an embedded pointer are addressable even if the
struct is not, but their marshaler methods with a pointer receiver were
ignored, unlike in encoding/json.
---
 instruction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 3883e42..9cae262 100644
--- a/instruction.go
+++ b/instruction.go
@@ -346,10 +346,16 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 			// eliminate a check at runtime.
 			f.omitNil = false
 		}
+		// The fields reached through an embedded pointer
+		// are always addressable.
+		addr := canAddr
+		for _, s := range f.embedSeq {
+			addr = addr || s.indir
+		}
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		f.instr = newInstruction(ftyp, addr, f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
-- 
2.43.0


From 8cf3523bc34ac6322ab27dd9bdf3e15fa1fcbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 19/19] fix: encode the nil values of a sync.Map

A nil value stored in a sync.Map caused a panic. Encode it as null, like
the nil interface values of a map.
---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 337396f..df3513b 100644
--- a/json.go
+++ b/json.go
@@ -183,6 +183,9 @@ func marshalJSON(v interface{}, opts encOpts) ([]byte, error) {
 }
 
 func appendJSON(dst []byte, v interface{}, opts encOpts) ([]byte, error) {
+	if v == nil {
+		return append(dst, "null"...), nil
+	}
 	ins := cachedInstr(reflect.TypeOf(v))
 	var err error
 	dst, err = ins(unpackEface(v).word, dst, opts)
-- 
2.43.0

