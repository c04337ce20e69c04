#!/usr/bin/env python3
# Writes marsh_gen.go: types with every kind of marshaler.
import random
random.seed(7)
und=[("Struct2","struct{ A int; B string }"),("StructP","struct{ P *int }"),("StructS","struct{ S string }"),("StructM","struct{ M map[string]int }"),("StructE","struct{}"),
("Int","int"),("Int8","int8"),("Uint8","uint8"),("Uint16","uint16"),("Int64","int64"),("Float64","float64"),("Bool","bool"),("String","string"),("Bytes","[]byte"),("Ints","[]int"),
("Map","map[string]int"),("Func","func()"),("Chan","chan int"),("Arr1P","[1]*int"),("Arr2","[2]int"),("Arr0","[0]int")]
meth=[("AppendJSONContext","(ctx context.Context, dst []byte) ([]byte, error)","behaveAppendCtx(ctx, dst, "),("AppendJSON","(dst []byte) ([]byte, error)","behaveAppend(dst, "),("MarshalJSON","() ([]byte, error)","behaveJSON("),("MarshalText","() ([]byte, error)","behaveText(")]
out=["// Code generated by gen_marsh.py. DO NOT EDIT.","","package main","",'import (','\t"context"','\t"reflect"',')','']
names=[]
def emit(u,code):
    n="M"+u[0]+code
    if n in names: return
    names.append(n)
    out.append(f"type {n} {u[1]}")
    for c,(m,sig,call) in zip(code,meth):
        if c=='V': out.append(f"func (x {n}) {m}{sig} {{ return {call}\"{n}\", x, nil) }}")
        if c=='P': out.append(f"func (x *{n}) {m}{sig} {{ return {call}\"{n}\", deref(x), x) }}")
    out.append("")
for u in und:
    for i in range(4):
        for c in "VP":
            emit(u,"".join(c if j==i else "N" for j in range(4)))
for u in und:
    if u[0] in("Struct2","StructP","Int","String","Map","Uint8","Ints"):
        for _ in range(14):
            code="".join(random.choice("NNVP") for _ in range(4))
            if code!="NNNN": emit(u,code)
out.append("var marshTypes = []reflect.Type{")
for n in names: out.append(f"\treflect.TypeOf((*{n})(nil)).Elem(),")
out.append("}")
open("marsh_gen.go","w").write("\n".join(out)+"\n")
