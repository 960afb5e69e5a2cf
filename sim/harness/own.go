package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	"asn1sim/simkernel"

	"github.com/chemikadze/asn1go"
)

func init() {
	register(&Prop{ID: "C26", Quick: 30000, Thorough: 800000, Chunk: 200,
		Rule: "distinct histories (calls, texts, changes the caller makes to results, calls made from inside a reader or writer, failures) with a call after a change; measure: hash of those",
		Real: "ParseStream, ParseString, ParseFile, Generate (parser.go, lexer.go, y.go, codegen.go, ast.go, instrumented), MarshalToFile",
		Stub: "io.Reader and io.Writer (scripted, failing, panicking, calling the library themselves), the operating system behind package os",
		Assume: []string{"one caller, one call at a time, except for calls made from inside Read or Write",
			"what a text says is known from its generator, what a changed module declares from the model of C10",
			"if the code under test starts goroutines, readers and writers neither panic nor call the library"},
		Run: runC26})
}

// owned is a module that a call returned: it is the caller's.
type owned struct {
	m    *asn1go.ModuleDefinition
	from int    // text
	d    string // what it says now
	ok   bool   // the generator supports it
}

// cells finds the lists and pointers of a tree.
func cells(x interface{}) (lists, ptrs []reflect.Value) {
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 2000 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				ptrs = append(ptrs, reflect.ValueOf(v.Interface())) // not where it is stored
				walk(v.Elem(), depth+1)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice:
			if v.Cap() > 0 {
				lists = append(lists, reflect.ValueOf(v.Interface()))
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return
}

// grow uses the room behind the lists of a module, as appending to them does.
func grow(m *asn1go.ModuleDefinition) (n int) {
	lists, _ := cells(m)
	for _, l := range lists {
		if l.Cap() == l.Len() {
			continue
		}
		n++
		e := reflect.Zero(l.Type().Elem())
		if l.Len() > 0 {
			e = l.Index(l.Len() - 1)
		}
		for i := l.Len(); i < l.Cap(); i++ {
			reflect.Append(l.Slice(0, i), e)
		}
	}
	return
}

// scribble overwrites parts of a module, or all of it.
func scribble(t *T, m *asn1go.ModuleDefinition) string {
	lists, ptrs := cells(m)
	switch k := t.N(4); {
	case k == 0 && len(lists) > 0:
		l := lists[t.N(len(lists))]
		if l.Len() > 0 {
			i := t.N(l.Len())
			l.Index(i).Set(reflect.Zero(l.Type().Elem()))
			return fmt.Sprintf("element %d of a %s overwritten", i, l.Type())
		}
		return "nothing"
	case k == 1 && len(lists) > 0:
		l := lists[t.N(len(lists))]
		for i, j := 0, l.Len()-1; i < j; i, j = i+1, j-1 {
			a, b := l.Index(i).Interface(), l.Index(j).Interface()
			set := func(at int, x interface{}) {
				if x == nil {
					l.Index(at).Set(reflect.Zero(l.Type().Elem()))
					return
				}
				l.Index(at).Set(reflect.ValueOf(x))
			}
			set(i, b)
			set(j, a)
		}
		return fmt.Sprintf("%s of %d reversed", l.Type(), l.Len())
	case k == 2 && len(ptrs) > 1:
		p := ptrs[1+t.N(len(ptrs)-1)]
		p.Elem().Set(reflect.Zero(p.Elem().Type()))
		return fmt.Sprintf("target of a %s overwritten", p.Type())
	default: // all of it, the deepest first
		wipe(lists, ptrs)
		return "everything overwritten"
	}
}

// edit changes a module in a way that leaves it translatable.
func wipe(lists, ptrs []reflect.Value) {
	for i := len(lists) - 1; i >= 0; i-- {
		for j := 0; j < lists[i].Len(); j++ {
			lists[i].Index(j).Set(reflect.Zero(lists[i].Type().Elem()))
		}
	}
	for i := len(ptrs) - 1; i >= 0; i-- {
		ptrs[i].Elem().Set(reflect.Zero(ptrs[i].Elem().Type()))
	}
}

// apart checks that results of different calls have nothing in common: it
// overwrites one after the other. desc says what a result is of.
func (t *T) apart(mods []*asn1go.ModuleDefinition, desc func(i int) string) {
	for i, m := range mods {
		if m == nil {
			continue
		}
		var was []string
		for _, o := range mods[i+1:] {
			if o == nil {
				was = append(was, "")
			} else {
				was = append(was, dump(o))
			}
		}
		wipe(cells(m))
		for j, o := range mods[i+1:] {
			if o != nil && dump(o) != was[j] {
				t.Fail("results share memory", "the caller overwrote the module returned by: %s; that changed the one returned by: %s", desc(i), desc(i+1+j))
			}
		}
	}
}

func edit(t *T, m *asn1go.ModuleDefinition, n int) string {
	list := m.ModuleBody.AssignmentList
	// the lists of components of structures that are types of their own
	var comps []asn1go.ComponentTypeList
	for _, a := range list {
		if ta, ok := a.(asn1go.TypeAssignment); ok {
			switch s := bare(ta.Type).(type) {
			case asn1go.SequenceType:
				comps = append(comps, s.Components)
			case asn1go.SetType:
				comps = append(comps, s.Components)
			}
		}
	}
	switch k := t.N(6); {
	case k == 0 && len(list) > 1:
		i, j := t.N(len(list)), t.N(len(list))
		list[i], list[j] = list[j], list[i]
		return fmt.Sprintf("assignments %d and %d swapped", i, j)
	case k == 1:
		m.ModuleIdentifier.Reference = fmt.Sprintf("Renamed-Module%d", n)
		return "module renamed"
	case k == 2 && m.TagDefault != asn1go.TAGS_AUTOMATIC:
		if m.TagDefault == asn1go.TAGS_IMPLICIT {
			m.TagDefault = asn1go.TAGS_EXPLICIT
		} else {
			m.TagDefault = asn1go.TAGS_IMPLICIT
		}
		return "default tagging changed"
	case k >= 3 && k <= 4 && len(comps) > 0:
		l := comps[t.N(len(comps))]
		if len(l) == 0 {
			break
		}
		i := t.N(len(l))
		c, ok := l[i].(asn1go.NamedComponentType)
		if !ok {
			break
		}
		switch t.N(3) {
		case 0:
			c.NamedType.Identifier = asn1go.Identifier(fmt.Sprintf("renamed-component%d", n))
		case 1:
			c.IsOptional, c.Default = !c.IsOptional, nil
		default:
			c.NamedType.Type, c.Default = asn1go.OctetStringType{}, nil
		}
		l[i] = c
		return fmt.Sprintf("component %d of %d changed", i, len(l))
	}
	var ty asn1go.Type = asn1go.BooleanType{}
	switch t.N(3) {
	case 1:
		ty = asn1go.IntegerType{}
	case 2:
		ty = asn1go.SequenceOfType{Type: asn1go.OctetStringType{}}
	}
	m.ModuleBody.AssignmentList = append(list, asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(fmt.Sprintf("Added-Type%d", n)), Type: ty})
	return "assignment added"
}

type userPanic struct{ n int }

func (p userPanic) Error() string { return fmt.Sprintf("simulated panic %d in the caller's code", p.n) }

func runC26(t *T) {
	var texts []*text
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		end := t.Span()
		x := wellFormed(t.Tape, modcfg(t.Tape, t.P(3, 4)))
		end()
		texts = append(texts, x)
		t.Ev("text %d: %s", i, cut(fmt.Sprintf("%q", x.b), 300))
		t.Mark(string(x.b))
	}
	pars := []asn1go.GenParams{drawParams(t), drawParams(t)}
	gens := []asn1go.CodeGenerator{asn1go.NewCodeGenerator(pars[0]), asn1go.NewCodeGenerator(pars[1])}
	var pool []*owned
	var readers []*simReader
	var writers []*simWriter
	base := runtime.NumGoroutine()
	changed := false
	check := func(what string) {
		for i, p := range pool {
			if d := dump(p.m); d != p.d {
				t.Fail("module changed", "%s: the module returned by parse %d (text %d) is not what it was: %s", what, i, p.from, diff(d, p.d))
			}
		}
		for w := 0; runtime.NumGoroutine() > base; w++ {
			if w > 20000 {
				t.Fail("goroutine left behind", "%s: %d goroutines more than before", what, runtime.NumGoroutine()-base)
			}
			if w < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(100 * time.Microsecond)
			}
		}
		for i, r := range readers {
			if r.late.Load() > 0 {
				t.Fail("reader used after the call", "%s: reader %d is read although its call has returned", what, i)
			}
		}
		for i, w := range writers {
			if w.late.Load() > 0 {
				t.Fail("writer used after the call", "%s: writer %d is written to although its call has returned", what, i)
			}
		}
	}
	generated := func(what string, p *owned, params asn1go.GenParams, err error, acc []byte) {
		beyond := inexpressible(p.m)
		switch {
		case err != nil && len(beyond) > 0:
			t.Count("rejected as inexpressible")
		case err != nil:
			t.Fail("translatable module rejected", "%s: %v", what, err)
		default:
			if d := compareSource(acc, p.m, params); d != "" {
				t.Fail("different declarations", "%s: %s\nmodule: %s", what, d, cut(p.d, 2000))
			}
		}
	}
	parsed := func(what string, x int, m *asn1go.ModuleDefinition, err error) {
		if err != nil || m == nil {
			t.Fail("module rejected", "%s: %q: %v", what, cut(string(texts[x].b), 1000), err)
		}
		d := dump(m)
		if want := "&" + dump(*texts[x].mod); d != want {
			t.Fail("different module", "%s: %q: %s", what, cut(string(texts[x].b), 1000), diff(d, want))
		}
		pool = append(pool, &owned{m: m, from: x, d: d, ok: texts[x].tr})
		if changed {
			t.Nontrivial = true
		}
	}
	usable := func() *owned {
		var l []*owned
		for _, p := range pool {
			if p.ok {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[t.N(len(l))]
	}
	// inner draws a call that the caller's reader or writer makes; done judges it afterwards.
	inner := func() (call func(), done func(what string), size int) {
		if p := usable(); p != nil && t.P(1, 2) {
			k := t.N(2)
			var err error
			w := newWriter(t)
			ran := false
			n := uint64(len(p.m.ModuleBody.AssignmentList))
			return func() { err, ran = gens[k].Generate(*p.m, w), true },
				func(what string) {
					if ran {
						generated("generating from inside "+what, p, pars[k], err, w.acc)
						t.Count("inner:generate")
					}
				}, int(genBudget+2000*n*n) / 600
		}
		x := t.N(len(texts))
		r := newReader(t, texts[x].b, drawDelivery(t.Tape, len(texts[x].b), texts[x].starts))
		var m *asn1go.ModuleDefinition
		var err error
		ran := false
		return func() { m, err = asn1go.ParseStream(r); ran = true },
			func(what string) {
				if ran {
					parsed("parsing from inside "+what, x, m, err)
					t.Count("inner:parse")
				}
			}, len(r.data) + 1000
	}
	for op, ops := 0, t.Range(2, 9); op < ops; op++ {
		end := t.Span()
		switch k := t.W(5, 5, 3, 1, 1, 2); {
		case k == 0 || len(pool) == 0: // parse
			x := t.N(len(texts))
			var o outcome
			what := fmt.Sprintf("parse %d of text %d", op, x)
			switch how := t.W(3, 1, 1); how {
			case 0:
				r := newReader(t, texts[x].b, drawDelivery(t.Tape, len(texts[x].b), texts[x].starts))
				size := len(r.data)
				var done func(string)
				var pan *userPanic
				if !plainBuild() && t.P(1, 3) {
					at := t.N(1 + t.N(6))
					if t.P(1, 3) {
						pan = &userPanic{op}
						r.hook = func(n int) {
							if n == at {
								panic(*pan)
							}
						}
						what += fmt.Sprintf(" with a reader that panics in read %d", at)
						t.Count("fault:reader panics")
					} else {
						call, d, s := inner()
						done = d
						size += s
						r.hook = func(n int) {
							if n == at {
								call()
							}
						}
						what += fmt.Sprintf(" with a reader that calls the library in read %d", at)
					}
				}
				o.o = t.guard(budgetFor(size), func() { o.mod, o.err = asn1go.ParseStream(r) })
				r.over.Store(true)
				readers = append(readers, r)
				what += ", " + r.d.String()
				if pan != nil && (strings.Contains(o.o.Panic, pan.Error()) || o.err != nil && strings.Contains(o.err.Error(), pan.Error())) {
					t.Count("panic reached the caller")
					t.Ev("%s: panicked", what)
					check(what)
					end()
					continue
				}
				if done != nil {
					t.Ev("%s: %s", what, o.short())
					if o.o.Over || o.o.Panic != "" {
						t.Fail("parsing fails", "%s: %s", what, o.short())
					}
					done(what)
				}
			case 1:
				o = t.parseString(string(texts[x].b))
			default:
				k := simkernel.New(&simkernel.Plan{Files: map[string]*simkernel.File{"/work/m.asn1": {Data: texts[x].b, Mode: 0o644}}, Reads: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}, false)
				o = t.parseFile("/work/m.asn1", k, len(texts[x].b))
				if l := k.Leaked(); len(l) > 0 {
					t.Fail("descriptor left behind", "%s: %v", what, l)
				}
			}
			t.Ev("%s: %s", what, o.short())
			t.Mark(what)
			if o.o.Over || o.o.Panic != "" {
				t.Fail("parsing fails", "%s: %s", what, o.short())
			}
			parsed(what, x, o.mod, o.err)
			check(what)
		case k == 1: // generate
			p := usable()
			if p == nil {
				t.Ev("nothing to generate")
				break
			}
			g := t.N(2)
			gen := gens[g]
			if t.P(1, 3) {
				gen = asn1go.NewCodeGenerator(pars[g])
			}
			w := newWriter(t)
			w.lat = t.lats()
			what := fmt.Sprintf("generate %d from a module of text %d, %+v", op, p.from, pars[g])
			extra := 0
			var done func(string)
			var pan *userPanic
			if !plainBuild() && t.P(1, 4) {
				if t.P(1, 3) {
					pan = &userPanic{op}
					w.hook = func() { panic(*pan) }
					what += " with a writer that panics"
					t.Count("fault:writer panics")
				} else {
					call, d, s := inner()
					done, extra = d, s
					once := false
					w.hook = func() {
						if !once {
							once = true
							call()
						}
					}
					what += " with a writer that calls the library"
				}
			} else if t.P(1, 5) {
				w.failAt, w.err, w.sticky = t.N(600), faultErrors[0], t.P(1, 2)
				t.Count("fault:write error")
			}
			var res genOutcome
			n := uint64(len(p.m.ModuleBody.AssignmentList))
			res.o = t.guard(genBudget+2000*n*n+600*uint64(extra), func() { res.err = gen.Generate(*p.m, w) })
			res.acc = w.acc
			w.over.Store(true)
			writers = append(writers, w)
			t.Ev("%s: %s", what, res.short())
			t.Mark(what)
			switch {
			case pan != nil && (strings.Contains(res.o.Panic, pan.Error()) || res.err != nil && strings.Contains(res.err.Error(), pan.Error())):
				t.Count("panic reached the caller")
			case res.o.Over || res.o.Panic != "":
				t.Fail("generating fails", "%s: %s", what, res.short())
			case w.failed > 0:
				if res.err == nil {
					t.Fail("write error lost", "%s", what)
				}
				t.Count("generation ended by a write error")
			default:
				if done != nil {
					done(what)
				}
				if changed {
					t.Nontrivial = true
				}
				generated(what, p, pars[g], res.err, w.acc)
			}
			check(what)
		case k == 2: // the caller changes a module
			p := pool[t.N(len(pool))]
			what := ""
			switch t.W(2, 3, 2) {
			case 0:
				n := grow(p.m)
				what = fmt.Sprintf("appending to %d lists of a module of text %d", n, p.from)
				t.Count("caller: appends to lists")
				if n == 0 {
					break
				}
				changed = true
			case 1:
				if p.ok {
					what = edit(t, p.m, op) + fmt.Sprintf(" in a module of text %d", p.from)
					p.d = dump(p.m)
					t.Count("caller: edits a module")
					changed = true
					break
				}
				fallthrough
			default:
				what = scribble(t, p.m) + fmt.Sprintf(" in a module of text %d", p.from)
				p.d, p.ok = dump(p.m), false
				t.Count("caller: overwrites a module")
				changed = true
			}
			t.Ev("%s", what)
			t.Mark(what)
			check(what)
		case k == 3: // a parse that fails
			x := texts[t.N(len(texts))]
			r := newReader(t, x.b, drawDelivery(t.Tape, len(x.b), x.starts))
			what := fmt.Sprintf("parse %d of ", op)
			if t.P(1, 2) {
				r.data = corrupt(t, x.b, x.starts)
				r.maxReads = 12*len(r.data) + 4000
				what += "a damaged text"
			} else {
				r.failAt, r.failErr, r.failMode, r.failWith = t.N(len(x.b)+1), faultErrors[t.N(len(faultErrors))], t.N(2), t.P(1, 2)
				what += "a text that can not be read"
				t.Count("fault:read error")
			}
			o := t.parse(r)
			r.over.Store(true)
			readers = append(readers, r)
			t.Ev("%s: %s", what, o.short())
			t.Mark(what)
			if o.o.Over || o.o.Panic != "" {
				t.Fail("parsing fails", "%s: %s", what, o.short())
			}
			if o.mod != nil && o.err == nil {
				pool = append(pool, &owned{m: o.mod, from: -1, d: dump(o.mod)})
			}
			check(what)
		case k == 4: // saving
			v := drawValue(t)
			der, eerr, panicked := encode(v)
			if panicked {
				break
			}
			p := printable(v)
			before := fmt.Sprintf("%T %+v", v, p)
			plan := &simkernel.Plan{Files: map[string]*simkernel.File{}, Writes: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
			limit(plan.Writes, 40000)
			kern := simkernel.New(plan, false)
			simkernel.Install(kern)
			var err error
			oo := t.guard(2000000+uint64(len(der))*100, func() { err = asn1go.MarshalToFile(v, "/work/out.der", 0o644) })
			simkernel.Install(nil)
			what := fmt.Sprintf("saving %s", cut(before, 200))
			t.Ev("%s: %v", what, err)
			switch {
			case oo.Over || oo.Panic != "":
				t.Fail("saving fails", "%s: %+v", what, oo)
			case (err == nil) != (eerr == nil):
				t.Fail("saving fails", "%s: %v; encoding it gives %v", what, err, eerr)
			}
			if now := fmt.Sprintf("%T %+v", v, printable(v)); now != before {
				t.Fail("value changed", "%s: it is now %s", what, cut(now, 200))
			}
			if again, _, _ := encode(v); string(again) != string(der) {
				t.Fail("value changed", "%s: it is encoded differently now", what)
			}
			if l := kern.Leaked(); len(l) > 0 {
				t.Fail("descriptor left behind", "%s: %v", what, l)
			}
			check(what)
		default: // lists of one module do not share their room
			p := pool[t.N(len(pool))]
			n := grow(p.m)
			t.Ev("appending to %d lists of a module of text %d", n, p.from)
			if n > 0 {
				changed = true
			}
			check("appending to the lists of a module")
		}
		end()
	}
	check("at the end")
}
