#!/usr/bin/env python3
# Writes the recursive types of the concurrency tests: each cluster is
# used once by a process. usage: gen_conc.py SEED COUNT FILE
import random,sys
seed,count,fn=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
R=random.Random(seed)
out=["// Code generated by gen_conc.py. DO NOT EDIT.","","package main","",'import "reflect"',""]
for i in range(count):
    names=["CA%d"%i,"CB%d"%i,"CC%d"%i]
    for n in names:
        o=lambda: R.choice(names)
        k=R.randrange(6)
        if k==0: out.append("type %s []%s"%(n,R.choice(names)) if n!=names[0] else "type %s []*%s"%(n,o())); continue
        if k==1: out.append("type %s map[string]*%s"%(n,o())); continue
        fs=[]
        for j in range(R.randint(1,4)):
            t=R.choice(["*%s","[]%s","map[string]%s","map[int]*%s","[]*%s","**%s"])%o()
            tag=R.choice(["","`json:\"x%d,omitempty\"`"%j,"`json:\",omitnil\"`","`json:\"k%d\"`"%j])
            fs.append("\tF%d %s %s"%(j,t,tag))
        if R.random()<.4: fs.append("\t*%s"%o() if False else "\tN int `json:\",string\"`")
        if R.random()<.4: fs.append("\tS []string")
        if R.random()<.3: fs.append("\tE interface{} `json:\",omitempty\"`")
        if R.random()<.3: fs.append("\tEmbC")
        out+=["type %s struct {"%n]+fs+["}"]
    out.append("")
out+=["type EmbC struct {","\tP *int `json:\",omitempty\"`","\tQ bool","}","","var concTypes = [][]reflect.Type{"]
for i in range(count):
    out.append("\ttypes((*CA%d)(nil), (*CB%d)(nil), (*CC%d)(nil)),"%(i,i,i))
out.append("}")
open(fn,"w").write("\n".join(out)+"\n")
