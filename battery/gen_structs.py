#!/usr/bin/env python3
# Writes the types of the selection tests: structs that embed others in
# all sorts of ways. usage: gen_structs.py SEED COUNT FILE
import random,sys
seed,count,fn=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
R=random.Random(seed)
out=["// Code generated by gen_structs.py. DO NOT EDIT.","","package main",""]
out+=["type SelInt int","type selStr string","type SelPtr *int","type SelSlice []string","type selFunc func()","type SelIface interface{}",""]
structs={}   # name -> list of (fieldname, type, tag, embedded)
names=[]
leafs=["int","string","*int","bool","[]int","float64","interface{}","map[string]int"]
pool=["A","B","C","D","E","Foo","A1","é".upper(),"x","y"]
tagn=["A","B","C","a","b","<k>","x&y","é","bad\\\\","a b","_","-","a;b","'","","Foo","世"]
def tag():
    if R.random()<0.45: return ""
    n=R.choice(tagn) if R.random()<0.6 else ""
    o=""
    if R.random()<0.25: o+=",omitempty"
    if R.random()<0.08: o+=",string"
    if R.random()<0.08: o+=",unknown,omitemptyx"
    if R.random()<0.03: o+=","
    s=n+o
    return '`json:"%s"`'%s if s else R.choice(["",'`json:""`','`xml:"q"`'])
for i in range(count):
    name=("S%d"if R.random()<0.6 else "s%d")%i
    fs=[];used=set()
    def add(f):
        if f[0] in used: return
        used.add(f[0]); fs.append(f)
    n=R.randint(0,4)
    items=[]
    for _ in range(n):
        items.append((R.choice(pool),R.choice(leafs),tag(),False))
    if names:
        for _ in range(R.choice([0,1,1,2,2,3])):
            t=R.choice(names[-6:] if R.random()<0.75 else names)
            tg=tag() if R.random()<0.25 else ""
            items.append((t,("*" if R.random()<0.45 else "")+t,tg,True))
    if R.random()<0.12:
        t=R.choice(["SelInt","selStr","SelSlice","SelIface","selFunc"])
        items.append((t,t,tag(),True))
    if R.random()<0.08: items.append((name,"*"+name,tag() if R.random()<0.3 else "",True))
    R.shuffle(items)
    for f in items: add(f)
    structs[name]=fs; names.append(name)
    out.append("type %s struct {"%name)
    for f in fs:
        out.append("\t%s%s %s"%("" if f[3] else f[0]+" ",f[1],f[2]))
    out.append("}\n")
cnt=[0]
def leaf(t):
    cnt[0]+=1; n=cnt[0]
    z=R.random()<0.2
    return {"int":"0" if z else str(n),"string":'""' if z else '"v%d<"'%n,"*int":"nil" if z else "selp(%d)"%n,"bool":"false" if z else "true","[]int":"nil" if z else "[]int{%d}"%n,
     "float64":"0" if z else "%d.5"%n,"interface{}":"nil" if z else "%d"%n,"map[string]int":"nil" if z else 'map[string]int{"k": %d}'%n,
     "SelInt":str(n),"selStr":'"s%d"'%n,"SelSlice":'SelSlice{"x"}',"SelIface":"SelIface(%d)"%n,"selFunc":"nil"}[t]
def val(t,d):
    if t.startswith("*") and t[1:] in structs:
        if d<=0 or R.random()<0.1: return "nil"
        return "&"+val(t[1:],d-1)
    if t in structs:
        return t+"{"+", ".join("%s: %s"%(f[0],val(f[1],d-1)) for f in structs[t])+"}"
    return leaf(t)
out.append("func selp(i int) *int { return &i }\n")
out.append("var selection = []Selected{")
def size(t,d=0,seen=()):
    return 1+sum(size(f[1].lstrip("*"),d+1) for f in structs.get(t,[])) if d<7 else 1
for n in names:
    if size(n)>250: continue
    for k in range(2):
        out.append('\t{"%s", %s},'%(n,val(n,6)))
out.append("}")
open(fn,"w").write("\n".join(out)+"\n")
