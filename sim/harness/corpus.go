package main

import (
	"embed"
	"sort"
	"strings"
	"sync"

	"github.com/chemikadze/asn1go"
)

// Modules of RFCs, as they are in the examples of the library: what people
// really write. The trees are those of the reference parser.

//go:embed corpus/*.asn1
var corpusFiles embed.FS

type rfc struct {
	name string
	head []token   // up to the first assignment
	body [][]token // the assignments
	mod  *asn1go.ModuleDefinition
	uses [][]int // assignments of the same module that an assignment needs, itself and indirect ones included
	tr   bool    // all of that is there, for each of them
}

var rfcs = sync.OnceValue(func() (l []*rfc) {
	files, err := corpusFiles.ReadDir("corpus")
	if err != nil {
		bug("%v", err)
	}
	for _, f := range files {
		b, err := corpusFiles.ReadFile("corpus/" + f.Name())
		if err != nil {
			bug("%v", err)
		}
		r := &ref{l: refLex(b)}
		x := &rfc{name: f.Name(), mod: r.module()}
		r.one('z', "")
		toks := make([]token, len(r.l)-1)
		for i := range toks {
			t := r.l[i]
			k := tSym
			switch {
			case t.kind == 'n':
				k = tNumber
			case t.kind == 'e':
				bug("%s: a real number", f.Name())
			case t.kind != 's':
				k = tWord
			case t.s == "-":
				k = tMinus
			}
			toks[i] = token{t.s, k}
		}
		if len(r.marks) != len(x.mod.ModuleBody.AssignmentList) {
			bug("%s: %d assignments, %d marks", f.Name(), len(x.mod.ModuleBody.AssignmentList), len(r.marks))
		}
		x.head = toks[:r.marks[0]]
		ends := append(append([]int{}, r.marks[1:]...), len(toks)-1)
		for i, from := range r.marks {
			x.body = append(x.body, toks[from:ends[i]])
		}
		x.closure()
		l = append(l, x)
	}
	return l
})

// closure finds which assignments need which.
func (x *rfc) closure() {
	at := map[string]int{}
	for i, a := range x.mod.ModuleBody.AssignmentList {
		at[a.Reference().Name()] = i
	}
	direct := make([][]int, len(x.body))
	for i, toks := range x.body {
		for _, t := range toks[1:] {
			if j, ok := at[t.s]; ok && t.kind == tWord {
				direct[i] = append(direct[i], j)
			}
		}
	}
	for i := range x.body {
		seen := map[int]bool{i: true}
		for todo := []int{i}; len(todo) > 0; {
			j := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, k := range direct[j] {
				if !seen[k] {
					seen[k] = true
					todo = append(todo, k)
				}
			}
		}
		var l []int
		for j := range seen {
			l = append(l, j)
		}
		sort.Ints(l)
		x.uses = append(x.uses, l)
	}
}

// fromRFC writes a module with assignments of an RFC.
func (g *gen) fromRFC() *asn1go.ModuleDefinition {
	var l []*rfc
	for _, x := range rfcs() {
		if !g.cfg.Translatable || strings.HasPrefix(x.name, "rfc4120") || strings.HasPrefix(x.name, "rfc5280") {
			l = append(l, x)
		}
	}
	x := l[g.N(len(l))]
	n := len(x.body)
	in := map[int]bool{}
	switch k := g.W(8, 2, 1); {
	case k == 0 || g.cfg.MaxTypes < 6: // a few
		for i, c := 0, g.Range(1, 5); i < c; i++ {
			in[g.N(n)] = true
		}
	case k == 1: // a part
		from := g.N(n)
		for i, c := from, g.Range(1, 30); i < n && c > 0; i, c = i+1, c-1 {
			in[i] = true
		}
	default:
		for i := 0; i < n; i++ {
			in[i] = true
		}
	}
	if g.cfg.Translatable { // and what they need
		all := map[int]bool{}
		for i := range in {
			for _, j := range x.uses[i] {
				all[j] = true
			}
		}
		in = all
	}
	m := *x.mod
	m.ModuleBody.AssignmentList = nil
	g.toks = append(g.toks, x.head...)
	for i := 0; i < n; i++ {
		if in[i] {
			g.toks = append(g.toks, x.body[i]...)
			m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, x.mod.ModuleBody.AssignmentList[i])
		}
	}
	g.k("END")
	return &m
}
