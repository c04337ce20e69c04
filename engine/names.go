package main

// The contracts name the functions of the package. A function that
// was renamed is found by its signature. A contract whose function
// no longer exists is left out, and the code that took its place is
// verified where it is called.

import (
	"bufio"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func sigOf(fn *ssa.Function) string {
	var b strings.Builder
	q := func(p *types.Package) string { return p.Path() }
	if r := fn.Signature.Recv(); r != nil {
		b.WriteString(types.TypeString(r.Type(), q) + ".")
	}
	tuple := func(t *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(types.TypeString(t.At(i).Type(), q))
		}
		b.WriteString(")")
	}
	tuple(fn.Signature.Params())
	tuple(fn.Signature.Results())
	if fn.Signature.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

func sigFile() string { return specDir + "/signatures.txt" }

// writeSigs records the signatures of the functions under contract.
func (e *engine) writeSigs() error {
	var l []string
	for n, fn := range e.p.fns {
		l = append(l, n+"\t"+sigOf(fn))
	}
	sort.Strings(l)
	return os.WriteFile(sigFile(), []byte(strings.Join(l, "\n")+"\n"), 0o644)
}

func (e *engine) matchNames() {
	f, err := os.Open(sigFile())
	if err != nil {
		return
	}
	defer f.Close()
	sigs := map[string]string{}
	for sc := bufio.NewScanner(f); sc.Scan(); {
		if n, s, ok := strings.Cut(sc.Text(), "\t"); ok {
			sigs[n] = s
		}
	}
	// the functions that appeared, by signature
	fresh := map[string][]string{}
	for n, fn := range e.p.fns {
		if _, ok := sigs[n]; !ok {
			fresh[sigOf(fn)] = append(fresh[sigOf(fn)], n)
		}
	}
	// the contracts that lost their function
	lost := map[string][]string{}
	for n, c := range e.spec.Contracts {
		if c.Trusted || sigs[n] == "" {
			continue
		}
		if fn := e.p.fns[n]; fn == nil || sigOf(fn) != sigs[n] {
			lost[sigs[n]] = append(lost[sigs[n]], n)
		}
	}
	for sig, ns := range lost {
		if len(ns) == 1 && len(fresh[sig]) == 1 && e.p.fns[ns[0]] == nil {
			nn := fresh[sig][0]
			fn := e.p.fns[nn]
			e.p.alias[fn] = ns[0]
			e.p.fns[ns[0]] = fn
			delete(e.p.fns, nn)
			e.renamed = append(e.renamed, fmt.Sprintf("%s is the contract of %s, by its signature", ns[0], nn))
			continue
		}
		for _, n := range ns {
			base := n[strings.LastIndex(n, ".")+1:]
			if unicode.IsUpper(rune(base[0])) {
				continue // not a detail of the package
			}
			e.absent = append(e.absent, e.spec.Contracts[n])
			delete(e.spec.Contracts, n)
		}
	}
	sort.Strings(e.renamed)
	sort.Slice(e.absent, func(i, j int) bool { return e.absent[i].Fn < e.absent[j].Fn })
}
