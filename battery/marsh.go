package main

// What the marshalers of the generated types do. Their behaviour is a
// function of their content and of the mode of the case.

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"

	"github.com/wI2L/jettison"
)

type ctxKey struct{}

var (
	errorsOn bool // marshalers may fail
	plain    bool // marshalers return plain text only
	calls    []string
	nestedNG string
	inNested bool
)

func deref(p interface{}) interface{} {
	v := reflect.ValueOf(p)
	if v.IsNil() {
		return nil
	}
	return v.Elem().Interface()
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "none"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	case reflect.Func, reflect.Chan:
		return fmt.Sprint(v.IsNil())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += show(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "nil"
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += show(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.Map:
		if v.IsNil() {
			return "nil"
		}
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(l)
		return "map" + strings.Join(l, " ")
	}
	return fmt.Sprint(v)
}

func behave(kind, name string, x, p interface{}) (s string, h int, err error) {
	s = show(reflect.ValueOf(x))
	if concurrent {
	} else if p != nil {
		calls = append(calls, fmt.Sprintf("%s.%s(%s) at %p", name, kind, s, p))
	} else {
		calls = append(calls, fmt.Sprintf("%s.%s(%s)", name, kind, s))
	}
	f := fnv.New32a()
	f.Write([]byte(kind + name + s))
	h = int(f.Sum32()>>8) % 12
	s = kind[:1] + s
	if h == 0 && errorsOn {
		return "", 0, &userError{name + " " + kind + " " + s}
	}
	if plain {
		h = 11
	}
	return s, h, nil
}

func jsonText(s string, h int) string {
	b, _ := json.Marshal(s)
	switch h {
	case 1, 2:
		return "null"
	case 3:
		return `{"x":[1,{"y":` + string(b) + `}],"z":null}`
	case 4:
		return "-0.5e-07"
	}
	return string(b)
}

func behaveAppendCtx(ctx context.Context, dst []byte, name string, x, p interface{}) ([]byte, error) {
	s, h, err := behave("context", name, x, p)
	if err != nil {
		return append(dst, "garbage"...), err
	}
	return append(dst, jsonText(fmt.Sprint(s, ctx.Value(ctxKey{})), h)...), nil
}

func behaveAppend(dst []byte, name string, x, p interface{}) ([]byte, error) {
	s, h, err := behave("append", name, x, p)
	if err != nil {
		return nil, err
	}
	return append(dst, jsonText(s, h)...), nil
}

var nestedVal = map[string]interface{}{"b": map[string]int{"d": 4, "c": 3}, "a": []string{"<", "x"}}

func behaveJSON(name string, x, p interface{}) ([]byte, error) {
	s, h, err := behave("json", name, x, p)
	if err != nil {
		return []byte("garbage"), err
	}
	switch h {
	case 5:
		return []byte("\t{ \"x\\\\\\\"\" : [ 1 , true,\r\n null ] , \"<&>\": \"a b\\u0020 \u2028 \u2029 \u2027 <\" } "), nil
	case 6:
		if errorsOn {
			return []byte([]string{"", "{]", "1 2", `"`, `"\x"`, "nul", "[1,]"}[len(s)%7]), nil
		}
	case 7, 8:
		if concurrent {
			return jettison.Marshal(nestedVal)
		}
		if !inNested {
			inNested = true
			b, err := jettison.Marshal(nestedVal)
			inNested = false
			if want := `{"a":["\u003c","x"],"b":{"c":3,"d":4}}`; string(b) != want || err != nil {
				nestedNG = fmt.Sprintf("a nested call of Marshal returned %q, %v", b, err)
			}
			return []byte(`{"a":["\u003c","x"],"b":{"c":3,"d":4}}`), nil
		}
	}
	return []byte(jsonText(s, h)), nil
}

func behaveText(name string, x, p interface{}) ([]byte, error) {
	s, h, err := behave("text", name, x, p)
	if err != nil {
		return []byte("garbage"), err
	}
	switch h {
	case 1:
		return nil, nil
	case 2:
		return []byte("<a\"&\\b>\n\r\t\x00\x1f\u2028\u2029é\xff\xe2\x80"), nil
	case 3:
		return []byte("null"), nil
	}
	return []byte(s), nil
}
