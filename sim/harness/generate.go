package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"asn1sim/simrt"

	"github.com/chemikadze/asn1go"
)

// genOutcome is the result of a generation as its caller sees it.
type genOutcome struct {
	o   Outcome
	err error
	acc []byte
}

func (g genOutcome) key() string {
	switch {
	case g.o.Over:
		return "does not end"
	case g.o.Panic != "":
		return "panic: " + g.o.Panic
	case g.err != nil:
		return "error: " + g.err.Error()
	}
	return "source: " + string(g.acc)
}

func (g genOutcome) short() string {
	if g.err == nil && g.o.Panic == "" && !g.o.Over {
		return fmt.Sprintf("source of %d bytes", len(g.acc))
	}
	return cut(g.key(), 160)
}

func (g genOutcome) usable() bool { return !g.o.Over && g.o.Panic == "" }

const genBudget = 6000000

func (t *T) generate(g asn1go.CodeGenerator, m *asn1go.ModuleDefinition, w *simWriter) (res genOutcome) {
	w.now = 0
	var to io.Writer = w
	if w.as != nil {
		to = w.as
	}
	n := uint64(len(m.ModuleBody.AssignmentList))
	res.o = t.guard(genBudget+2000*n*n, func() { res.err = g.Generate(*m, to) })
	if w.after != nil {
		w.after()
	}
	t.Sim += w.now
	res.acc = w.acc
	return
}

// translatable draws a module the generator supports, as the parser returns it or as it is written.
func translatable(t *T) (*asn1go.ModuleDefinition, *text) {
	x := wellFormed(t.Tape, modcfg(t.Tape, true))
	t.Mark(string(x.b))
	if t.P(3, 4) {
		o := t.parse(newReader(t, x.b, drawDelivery(t.Tape, len(x.b), x.starts)))
		if o.mod != nil && o.err == nil && o.key() == "module: &"+dump(*x.mod) {
			t.Count("module from the parser")
			return o.mod, x
		}
		t.Count("skipped:parser disagrees")
	}
	t.Count("module from the model")
	return x.mod, x
}

// failingWriter draws a writer that fails somewhere in n bytes.
func failingWriter(t *T, n int) *simWriter {
	w := newWriter(t)
	switch t.W(3, 1, 1) {
	case 0:
		w.failAt = t.N(n + 1)
	case 1:
		w.failAt = t.N(12)
	default:
		w.failAt = n - t.N(12)
	}
	if w.failAt < 0 {
		w.failAt = 0
	}
	w.err = faultErrors[t.N(len(faultErrors))]
	w.sticky = t.P(1, 2)
	switch t.W(2, 1, 1) {
	case 1:
		w.zero = true
	case 2:
		w.full = true
	}
	w.lat = t.lats()
	return w
}

func (w *simWriter) String() string {
	if w.failAt < 0 {
		return "writer"
	}
	how := "accepting a part"
	if w.zero {
		how = "accepting nothing"
	}
	if w.full {
		how = "accepting all of it"
	}
	return fmt.Sprintf("writer failing after %d bytes with %q, for ever: %v, %s", w.failAt, w.err, w.sticky, how)
}

func init() {
	libReal := "ParseStream and Generate (parser.go, lexer.go, y.go, codegen.go, ast.go, instrumented), go/printer"
	register(&Prop{
		ID: "C06", Quick: 100000, Thorough: 2000000, Chunk: 400,
		Rule: "distinct (module text, parameters, writer failure offset and kind) in which the writer did fail; measure: hash of those",
		Real: libReal,
		Stub: "io.Writer (scripted, failing), io.Reader, clock",
		Assume: []string{"writers keep the io.Writer contract: a short count comes with an error",
			"the complete source is what the same call gives with a writer that never fails"},
		Run: runC06})
	register(&Prop{
		ID: "C07", Quick: 100000, Thorough: 2000000, Chunk: 400,
		Rule:   "distinct (module, unsupported constructs and their places, parameters, calls made before); measure: hash of those",
		Real:   libReal,
		Stub:   "io.Writer (recording), io.Reader, clock",
		Assume: []string{"a construct counts where the generator has to translate it: types of assignments, components, list elements and single alternatives; alternatives of a CHOICE that becomes interface{} or asn1.RawValue, constraints, tags of top-level types and named numbers of inner types are not translated at all"},
		Run:    runC07})
	register(&Prop{
		ID: "C08", Quick: 40000, Thorough: 1000000, Chunk: 250,
		Rule:   "distinct histories of calls (modules, parameters, generator instances, failing writers and readers, map seeds, clock readings) with at least one repeated generation; measure: hash of the history",
		Real:   libReal,
		Stub:   "io.Writer, io.Reader (scripted), clock, the runtime's random numbers for map iteration",
		Assume: []string{"randomness can reach the library only through map iteration and the clock; math/rand and addresses are covered as far as repeating the call in one process shows them"},
		Run:    runC08})
	register(&Prop{
		ID: "C09", Quick: 5000, Thorough: 120000, Chunk: 60,
		Rule: "distinct schedules (sequence of task switches with the number of statements in between) of at least two overlapping calls; measure: hash of the switch sequence and of the calls",
		Real: libReal + ", compiled with the race detector",
		Stub: "goroutine scheduling (one task at a time, preemption at statements), io.Reader, io.Writer, clock",
		Assume: []string{"statements of the library are the preemption points; the standard library's internals are not preempted, but their memory accesses are seen by the race detector",
			"sync.Pool inside the standard library is switched off, as it would hide or invent ordering between calls"},
		Run: runC09})
	register(&Prop{
		ID: "C10", Quick: 100000, Thorough: 2000000, Chunk: 400,
		Rule: "distinct (module text, parameters) with at least one declaration; measure: hash of those",
		Real: libReal,
		Stub: "io.Writer (recording), io.Reader (scripted); the reference is an independent model of the documented mapping, compared with the output as read by go/parser",
		Assume: []string{"names do not collide after translation to Go",
			"tags and string kinds of a type that a component only refers to are not carried to the component (documented)",
			"CHOICE: asn1.RawValue if an alternative is tagged, the alternative itself if it is the only one, else interface{}"},
		Run: runC10})
}

func runC06(t *T) {
	m, x := translatable(t)
	params := drawParams(t)
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	t.Ev("parameters %+v", params)
	t.Mark(fmt.Sprint(params))
	gen := asn1go.NewCodeGenerator(params)
	ref := t.generate(gen, m, newWriter(t))
	t.Ev("complete: %s", ref.short())
	if !ref.usable() || ref.err != nil {
		t.Count("skipped:not generated")
		return
	}
	full := string(ref.acc)
	for i, n := 0, t.Range(1, 5); i < n; i++ {
		w := failingWriter(t, len(full))
		g := gen
		if t.P(1, 2) {
			g = asn1go.NewCodeGenerator(params)
		}
		if t.P(1, 6) {
			w.failAt = -1
		}
		desc := w.String()
		t.Mark(desc)
		desc += w.dress(t)
		o := t.generate(g, m, w)
		t.Ev("%s: %d calls, accepted %d of %d: %s", desc, w.calls, len(o.acc), len(full), o.short())
		what := fmt.Sprintf("%q (%+v), %s", cut(string(x.b), 2000), params, desc)
		switch {
		case o.o.Over:
			t.Fail("generating does not end", "%s", what)
		case o.o.Panic != "":
			t.Fail("generating panics", "%s: %s", what, o.o.Panic)
		case w.spoilt != "":
			t.Fail("accepted bytes are not a prefix", "%s: %s", what, w.spoilt)
		case !strings.HasPrefix(full, string(o.acc)):
			t.Fail("accepted bytes are not a prefix", "%s: %s", what, diff(string(o.acc), full))
		}
		if w.failed == 0 {
			t.Count("fault not reached")
			if o.err != nil {
				t.Fail("error without failure", "%s: %v", what, o.err)
			}
			if string(o.acc) != full {
				t.Fail("incomplete without failure", "%s: %d of %d bytes", what, len(o.acc), len(full))
			}
			continue
		}
		t.Nontrivial = true
		t.Count("fault:write error, " + map[bool]string{true: "for ever", false: "once"}[w.sticky] + ", " + map[bool]string{true: "nothing accepted", false: map[bool]string{true: "all accepted", false: "part accepted"}[w.full]}[w.zero])
		if o.err == nil {
			t.Fail("write failure not reported", "%s: %d of %d bytes accepted", what, len(o.acc), len(full))
		}
		if !errors.Is(o.err, w.err) && !strings.Contains(o.err.Error(), w.err.Error()) {
			t.Fail("failure not named", "%s: the error is only %q", what, o.err)
		}
	}
}

// visit rebuilds a type and offers every place the generator translates to f, outermost first.
func (x *model) visit(t asn1go.Type, f func(asn1go.Type) asn1go.Type) asn1go.Type {
	switch tt := t.(type) {
	case asn1go.TaggedType:
		tt.Type = x.visit(tt.Type, f)
		return tt
	case asn1go.ConstraintedType:
		tt.Type = x.visit(tt.Type, f)
		return tt
	case asn1go.NamedType:
		tt.Type = x.visit(tt.Type, f)
		return tt
	}
	if n := f(t); n != nil {
		return n
	}
	comp := func(c interface{}) interface{} {
		if n, ok := c.(asn1go.NamedComponentType); ok {
			n.NamedType.Type = x.visit(n.NamedType.Type, f)
			return n
		}
		return c
	}
	comps := func(l asn1go.ComponentTypeList, e asn1go.ExtensionAdditions) (lo asn1go.ComponentTypeList, eo asn1go.ExtensionAdditions) {
		for _, c := range l {
			lo = append(lo, comp(c).(asn1go.ComponentType))
		}
		for _, c := range e {
			eo = append(eo, comp(c).(asn1go.ExtensionAddition))
		}
		return
	}
	switch tt := t.(type) {
	case asn1go.SequenceOfType:
		tt.Type = x.visit(tt.Type, f)
		return tt
	case asn1go.SetOfType:
		tt.Type = x.visit(tt.Type, f)
		return tt
	case asn1go.SequenceType:
		tt.Components, tt.ExtensionAdditions = comps(tt.Components, tt.ExtensionAdditions)
		return tt
	case asn1go.SetType:
		tt.Components, tt.ExtensionAdditions = comps(tt.Components, tt.ExtensionAdditions)
		return tt
	case asn1go.ChoiceType:
		if len(tt.AlternativeTypeList) == 1 && !x.carriesTag(tt.AlternativeTypeList[0].Type, 0) {
			a := tt.AlternativeTypeList[0]
			a.Type = x.visit(a.Type, f)
			tt.AlternativeTypeList = []asn1go.NamedType{a}
			return tt
		}
	}
	return t
}

// visitModule offers every translated place of a module to f; it returns a changed copy.
func visitModule(m *asn1go.ModuleDefinition, f func(asn1go.Type) asn1go.Type) *asn1go.ModuleDefinition {
	x := newModel(m, asn1go.GenParams{})
	c := *m
	c.ModuleBody.AssignmentList = nil
	for _, a := range m.ModuleBody.AssignmentList {
		switch a := a.(type) {
		case asn1go.TypeAssignment:
			a.Type = x.visit(a.Type, f)
			c.ModuleBody.AssignmentList = append(c.ModuleBody.AssignmentList, a)
		case asn1go.ValueAssignment:
			switch a.Value.(type) {
			case asn1go.Number, asn1go.Boolean, asn1go.Real:
				a.Type = x.visit(a.Type, f)
			}
			c.ModuleBody.AssignmentList = append(c.ModuleBody.AssignmentList, a)
		}
	}
	return &c
}

// What can not be translated.
const (
	badNull = iota
	badUndefined
	badCircular
	badUTCTime
	badComponentsOf
	badTagNumber
	badNamedNumber
	badAutomatic
	badIntRepr
	badAutoTag
	badKinds
)

var badNames = []string{"NULL", "undefined reference", "circular reference", "UTCTime", "COMPONENTS OF", "tag number that is not a literal", "named number from another module", "AUTOMATIC TAGS", "unknown integer representation", "component tagged AUTOMATIC"}

// imports puts a symbol into the imports of a module.
func imports(t *T, m *asn1go.ModuleDefinition, s asn1go.Symbol, from string) *asn1go.ModuleDefinition {
	c := *m
	c.ModuleBody.Imports = append([]asn1go.SymbolsFromModule{}, c.ModuleBody.Imports...)
	if n := len(c.ModuleBody.Imports); n > 0 && t.P(1, 2) {
		i := &c.ModuleBody.Imports[t.N(n)]
		i.SymbolList = append(append([]asn1go.Symbol{}, i.SymbolList...), s)
		return &c
	}
	c.ModuleBody.Imports = append(c.ModuleBody.Imports, asn1go.SymbolsFromModule{SymbolList: []asn1go.Symbol{s}, Module: asn1go.GlobalModuleReference{Reference: from}})
	return &c
}

// undefined names a type that is not in a module, although its name may be there.
func undefined(t *T, m *asn1go.ModuleDefinition, n int) (*asn1go.ModuleDefinition, asn1go.TypeReference) {
	fresh := fmt.Sprintf("Undefined-Type%d", n)
	name := fresh
	var types, values []string
	for _, a := range m.ModuleBody.AssignmentList {
		switch a := a.(type) {
		case asn1go.TypeAssignment:
			types = append(types, string(a.TypeReference))
		case asn1go.ValueAssignment:
			values = append(values, string(a.ValueReference))
		}
	}
	from := func(l []string) string {
		if len(l) == 0 {
			return fresh
		}
		return l[t.N(len(l))]
	}
	kind := t.W(3, 3, 1, 1, 1, 1, 1)
	switch kind {
	case 1: // imported
		if l := m.ModuleBody.Imports; len(l) > 0 && t.P(1, 2) {
			s := l[t.N(len(l))].SymbolList
			if x, ok := s[t.N(len(s))].(asn1go.TypeReference); ok {
				name = string(x)
			}
		} else {
			m = imports(t, m, asn1go.TypeReference(name), []string{"Other", m.ModuleIdentifier.Reference}[t.W(4, 1)])
		}
	case 2: // name of the module
		name = m.ModuleIdentifier.Reference
	case 3: // a value
		name = from(values)
		name = strings.ToUpper(name[:1]) + name[1:]
	case 4: // about the name of a type
		name = from(types)
		switch i := t.N(len(name)); t.N(4) {
		case 0:
			name += "s"
		case 1:
			name = name[:1+i/2]
		case 2:
			name = strings.ToUpper(name)
		default:
			name = strings.Replace(name, "-", "", 1)
		}
	case 5: // in go
		name = []string{"String", "Bool", "Int64", "Error", "Float64", "Any", "Asn1", "Time", "Big"}[t.N(9)]
	case 6: // about that of a predefined type
		name = []string{"Generalizedtime", "GeneralizedTimes", "Integer", "Boolean", "UtcTime", "UTCTimes", "Real", "Date", "TIME-OF-DAY", "OID-IRI", "VideoString"}[t.N(11)]
	}
	if m.ModuleBody.AssignmentList.Get(name) != nil || name == "GeneralizedTime" {
		name = fresh
	}
	t.Count("undefined: " + []string{"fresh", "imported", "name of the module", "name of a value", "about the name of a type", "name in go", "about a predefined name"}[kind])
	return m, asn1go.TypeReference(name)
}

// spoil puts something that can not be translated into a module.
func spoil(t *T, m *asn1go.ModuleDefinition, p *asn1go.GenParams, n int) (*asn1go.ModuleDefinition, int, string) {
	kind := t.N(badKinds)
	var repl asn1go.Type
	add := func(m *asn1go.ModuleDefinition, a ...asn1go.Assignment) *asn1go.ModuleDefinition {
		c := *m
		at := t.N(len(m.ModuleBody.AssignmentList) + 1)
		l := append(asn1go.AssignmentList{}, m.ModuleBody.AssignmentList[:at]...)
		l = append(l, a...)
		c.ModuleBody.AssignmentList = append(l, m.ModuleBody.AssignmentList[at:]...)
		return &c
	}
	ref := func(s string) asn1go.TypeReference { return asn1go.TypeReference(fmt.Sprintf("%s%d", s, n)) }
	wrap := func(ty asn1go.Type) asn1go.Type { // tags and constraints are no excuse
		switch t.W(3, 1, 1) {
		case 1:
			return asn1go.TaggedType{Tag: asn1go.Tag{ClassNumber: asn1go.Number(t.N(9))}, Type: ty}
		case 2:
			return asn1go.ConstraintedType{Type: ty, Constraint: asn1go.SingleElementConstraint(asn1go.SingleValue{Value: asn1go.Number(1)})}
		}
		return ty
	}
	cause := ""
	field := func(c asn1go.ComponentType, ext bool) asn1go.Type {
		ok := asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: "fine", Type: asn1go.BooleanType{}}}
		s := asn1go.SequenceType{Components: asn1go.ComponentTypeList{ok, c}}
		if ext {
			s = asn1go.SequenceType{Components: asn1go.ComponentTypeList{ok}, ExtensionAdditions: asn1go.ExtensionAdditions{c}}
		}
		if t.P(1, 3) {
			return asn1go.SetType{Components: s.Components, ExtensionAdditions: s.ExtensionAdditions}
		}
		return s
	}
	switch kind {
	case badNull:
		repl = asn1go.NullType{}
	case badUndefined:
		var name asn1go.TypeReference
		m, name = undefined(t, m, n)
		repl, cause = name, string(name)
	case badCircular:
		// a knot of its own, and a way into it
		k := t.Range(1, 3)
		var l []asn1go.Assignment
		for i := 0; i < k; i++ {
			l = append(l, asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(fmt.Sprintf("Knot%d-%d", n, i)), Type: wrap(asn1go.TypeReference(fmt.Sprintf("Knot%d-%d", n, (i+1)%k)))})
		}
		m = add(m, l...)
		repl = asn1go.TypeReference(fmt.Sprintf("Knot%d-0", n))
	case badUTCTime:
		repl = asn1go.TypeReference("UTCTime")
	case badComponentsOf:
		var of asn1go.Type = asn1go.TypeReference("Whatever")
		if t.P(1, 2) {
			of = asn1go.SequenceType{}
			if t.P(1, 2) { // one that is there
				m = add(m, asn1go.TypeAssignment{TypeReference: ref("Part"), Type: asn1go.SequenceType{Components: asn1go.ComponentTypeList{asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: "part", Type: asn1go.BooleanType{}}}}}})
				of = ref("Part")
			}
		}
		repl = field(asn1go.ComponentsOfComponentType{Type: of}, t.P(1, 2))
	case badTagNumber:
		var num asn1go.Value = asn1go.DefinedValue{ValueName: "tag-number"}
		if t.P(1, 3) {
			num = asn1go.DefinedValue{ModuleName: "Other", ValueName: "tag-number"}
			if t.P(1, 2) {
				m = imports(t, m, asn1go.ValueReference("tag-number"), "Other")
			}
		} else if t.P(1, 2) { // one that is there
			name := asn1go.ValueReference(fmt.Sprintf("tag-number%d", n))
			m = add(m, asn1go.ValueAssignment{ValueReference: name, Type: asn1go.IntegerType{}, Value: asn1go.Number(t.N(9))})
			num = asn1go.DefinedValue{ValueName: name}
		}
		repl = field(asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: "tagged",
			Type: asn1go.TaggedType{Tag: asn1go.Tag{ClassNumber: num}, Type: asn1go.BooleanType{}}}, IsOptional: t.P(1, 3)}, t.P(1, 2))
	case badAutoTag:
		repl = field(asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: "tagged",
			Type: asn1go.TaggedType{Tag: asn1go.Tag{ClassNumber: asn1go.Number(t.N(9))}, TagType: asn1go.TAGS_AUTOMATIC, HasTagType: true, Type: asn1go.BooleanType{}}}, IsOptional: t.P(1, 3)}, t.P(1, 2))
	case badNamedNumber:
		l := []asn1go.NamedNumber{{Name: "one", Value: asn1go.Number(1)}, {Name: "far", Value: asn1go.DefinedValue{ModuleName: "Other", ValueName: "far-value"}}}
		if t.P(1, 2) {
			l = append(l, asn1go.NamedNumber{Name: "two", Value: asn1go.Number(2)})
		}
		if t.P(1, 3) {
			m = imports(t, m, asn1go.ValueReference("far-value"), "Other")
		}
		if t.P(1, 3) { // one of that name is here
			m = add(m, asn1go.ValueAssignment{ValueReference: "far-value", Type: asn1go.IntegerType{}, Value: asn1go.Number(3)})
		}
		m = add(m, asn1go.TypeAssignment{TypeReference: ref("Numbered"), Type: wrap(asn1go.IntegerType{NamedNumberList: l})})
		return m, kind, cause
	case badAutomatic:
		c := *m
		c.TagDefault = asn1go.TAGS_AUTOMATIC
		return &c, kind, cause
	case badIntRepr:
		p.IntegerRepr = []asn1go.IntegerRepr{"int32", "bigint", "INT64", " int64", "uint"}[t.N(5)]
		repl = asn1go.IntegerType{}
		cause = string(p.IntegerRepr)
	}
	// place it
	slots := 0
	visitModule(m, func(asn1go.Type) asn1go.Type { slots++; return nil })
	if at := t.N(slots + 1); at > 0 {
		i := 0
		m = visitModule(m, func(asn1go.Type) asn1go.Type {
			i++
			if i == at {
				return repl
			}
			return nil
		})
		t.Count("place: inside")
		return m, kind, cause
	}
	t.Count("place: own assignment")
	if t.P(1, 4) {
		return add(m, asn1go.ValueAssignment{ValueReference: asn1go.ValueReference(fmt.Sprintf("spoilt%d", n)), Type: wrap(repl), Value: asn1go.Number(1)}), kind, cause
	}
	return add(m, asn1go.TypeAssignment{TypeReference: ref("Spoilt"), Type: wrap(repl)}), kind, cause
}

func runC07(t *T) {
	m, x := translatable(t)
	params := drawParams(t)
	good := t.generate(asn1go.NewCodeGenerator(params), m, newWriter(t))
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	if !good.usable() || good.err != nil {
		t.Count("skipped:not generated")
		return
	}
	bad := m
	var causes []string
	what := ""
	n := 1 + t.W(4, 1, 1)
	if t.P(1, 12) {
		n = t.Range(4, 40)
	}
	for i := 0; i < n; i++ {
		var kind int
		var cause string
		bad, kind, cause = spoil(t, bad, &params, i)
		if cause != "" {
			causes = append(causes, cause)
		}
		what += badNames[kind] + "; "
		t.Count("construct:" + badNames[kind])
	}
	d := dump(bad)
	t.Mark(d)
	t.Mark(fmt.Sprint(params))
	t.Nontrivial = true
	gen := asn1go.NewCodeGenerator(params)
	for i, n := 0, t.W(3, 1, 1); i < n; i++ {
		switch t.N(3) {
		case 0:
			o := t.generate(gen, m, newWriter(t))
			t.Ev("earlier call with the good module: %s", o.short())
		case 1:
			w := failingWriter(t, len(good.acc))
			o := t.generate(gen, m, w)
			t.Ev("earlier call with %s: %s", w, o.short())
			t.Count("fault:write error in an earlier call")
		default:
			o := t.generate(gen, bad, newWriter(t))
			t.Ev("earlier call with the bad module: %s", o.short())
		}
		t.Mark("earlier")
	}
	w := newWriter(t)
	o := t.generate(gen, bad, w)
	t.Ev("module with %s: %d writer calls, %d bytes: %s", what, w.calls, len(w.acc), o.short())
	desc := fmt.Sprintf("%s (%+v) with %s", cut(d, 3000), params, what)
	switch {
	case o.o.Over:
		t.Fail("generating does not end", "%s", desc)
	case o.o.Panic != "":
		t.Fail("generating panics", "%s: %s", desc, o.o.Panic)
	case o.err == nil:
		t.Fail("no error", "%s: %d bytes generated", desc, len(w.acc))
	case len(w.acc) > 0:
		t.Fail("output despite error", "%s: %d bytes, error %v", desc, len(w.acc), o.err)
	case strings.TrimSpace(o.err.Error()) == "":
		t.Fail("no cause named", "%s: %q", desc, o.err)
	}
	if len(causes) == 1 && strings.Count(what, ";") == 1 && !strings.Contains(o.err.Error(), causes[0]) {
		t.Fail("no cause named", "%s: the error %q does not name %s", desc, o.err, causes[0])
	}
}

// specimen is a module of a history with what is known about it.
type specimen struct {
	m    *asn1go.ModuleDefinition
	x    *text
	d    string                // dump when it was made
	refs map[string]genOutcome // by parameters
}

func (t *T) entropy() {
	seed := uint64(t.N(1 << 16))
	runtime.SimSetMapRand(true, seed*0x9e3779b97f4a7c15+1)
}

func runC08(t *T) {
	var all []*specimen
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		m, x := translatable(t)
		if t.P(1, 3) {
			var p asn1go.GenParams
			m, _, _ = spoil(t, m, &p, i)
			if t.P(1, 2) {
				m, _, _ = spoil(t, m, &p, i+10)
			}
			t.Count("untranslatable module")
		}
		all = append(all, &specimen{m: m, x: x, d: dump(m), refs: map[string]genOutcome{}})
		t.Ev("module %d: %s", i, cut(fmt.Sprintf("%q", x.b), 200))
	}
	pars := []asn1go.GenParams{drawParams(t), drawParams(t)}
	gens := map[asn1go.GenParams][]asn1go.CodeGenerator{}
	gen := func(p asn1go.GenParams) (asn1go.CodeGenerator, int) {
		l := gens[p]
		if k := t.N(len(l) + 1); k > 0 {
			return l[k-1], k
		}
		g := asn1go.NewCodeGenerator(p)
		gens[p] = append(l, g)
		return g, len(l) + 1
	}
	clock := int64(0)
	for i, n := 0, t.Range(3, 12); i < n; i++ {
		t.entropy()
		if t.P(1, 4) {
			clock += int64(t.N(1<<30)) - 1<<28
			t.Count("fault:clock jump")
		}
		now := clock
		withClock(now, func() {
			s := all[t.N(len(all))]
			p := pars[t.N(len(pars))]
			key := fmt.Sprintf("%+v", p)
			switch t.W(6, 3, 2, 1) {
			case 0:
				g, k := gen(p)
				w := newWriter(t)
				w.lat = t.lats()
				o := t.generate(g, s.m, w)
				t.Ev("generate with %s, instance %d: %s", key, k, o.short())
				t.Mark(fmt.Sprint("generate", key, k))
				if ref, ok := s.refs[key]; ok {
					t.Nontrivial = true
					if ref.key() != o.key() {
						t.Fail("outcome differs", "%q (%s): %s", cut(string(s.x.b), 2000), key, diff(o.key(), ref.key()))
					}
				} else {
					s.refs[key] = o
				}
			case 1:
				g, k := gen(p)
				w := failingWriter(t, 3000)
				o := t.generate(g, s.m, w)
				t.Ev("generate with %s, instance %d, %s: %s", key, k, w, o.short())
				t.Mark(fmt.Sprint("fail", key, k, w.String()))
				t.Count("fault:write error")
			case 2:
				b, starts, kind := anyText(t)
				r := newReader(t, b, drawDelivery(t.Tape, len(b), fitStarts(starts, len(b))))
				if t.P(1, 3) {
					r.failAt, r.failErr = t.N(len(b)+1), faultErrors[0]
					t.Count("fault:read error")
				}
				o := t.parse(r)
				t.Ev("parse something else (%s): %s", kind, o.short())
				t.Mark(string(b))
			default: // the same text once more
				o := t.parse(newReader(t, s.x.b, drawDelivery(t.Tape, len(s.x.b), s.x.starts)))
				t.Ev("parse again: %s", o.short())
				t.Mark("again")
			}
		})
		for j, s := range all {
			if d := dump(s.m); d != s.d {
				t.Fail("module changed", "module %d, %q: %s", j, cut(string(s.x.b), 2000), diff(d, s.d))
			}
		}
	}
	// Finally everything once more, by fresh instances.
	for i, s := range all {
		for _, p := range pars {
			t.entropy()
			ref, ok := s.refs[fmt.Sprintf("%+v", p)]
			o := t.generate(asn1go.NewCodeGenerator(p), s.m, newWriter(t))
			if ok && ref.key() != o.key() {
				t.Fail("outcome differs", "module %d, %q (%+v), fresh instance at the end: %s", i, cut(string(s.x.b), 2000), p, diff(o.key(), ref.key()))
			}
			if ok {
				t.Nontrivial = true
			}
		}
		if d := dump(s.m); d != s.d {
			t.Fail("module changed", "module %d, %q: %s", i, cut(string(s.x.b), 2000), diff(d, s.d))
		}
	}
	runtime.SimSetMapRand(true, 0x5eed)
}

// call is one call made by a task.
type call struct {
	parse bool
	b     []byte
	d     *delivery
	failA int
	every int
	spec  *specimen
	gen   asn1go.CodeGenerator
	p     asn1go.GenParams
	w     func() *simWriter
	desc  string
	got   string
	mod   *asn1go.ModuleDefinition
	modD  string
}

// run makes the call; it may be running concurrently with others.
func (c *call) run() {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case simrt.Overrun, ioOverrun:
				c.got = "does not end"
			case simrt.Killed:
				c.got = "deadlock"
			default:
				c.got = fmt.Sprint("panic: ", x)
			}
		}
	}()
	if c.parse {
		r := &simReader{data: c.b, d: c.d, failAt: c.failA, failErr: faultErrors[0], maxReads: 12*len(c.b) + 4000, every: c.every}
		m, err := asn1go.ParseStream(r)
		o := outcome{mod: m, err: err}
		c.got, c.mod = o.key(), m
		if m != nil {
			c.modD = dump(m)
		}
		return
	}
	w := c.w()
	w.every = c.every
	err := c.gen.Generate(*c.spec.m, w)
	c.got = genOutcome{err: err, acc: w.acc}.key()
	if err != nil {
		c.got += fmt.Sprintf(" after %d bytes", len(w.acc))
	}
}

// plainBuild: the code under test starts goroutines of its own, so there are no seams in its
// statements. Tasks then run one after the other; the race detector does not know that.
func plainBuild() bool { return *fMode == "plain" }

const tasksBudget = 100000000

// concurrently runs the functions as tasks; then is called when all of them have ended.
func (t *T) concurrently(fns []func(), then func()) {
	// The scheduler draws from the tape; a fixed number of fine-grained
	// preemptions at first, larger steps afterwards, so that runs stay short.
	mode := t.W(3, 3, 2)
	switches, lastID := 0, -1
	sched := &simrt.Sched{
		Pick: func(ids []int) (int, int) {
			switches++
			// the simplest schedule: the same task goes on until it blocks or ends
			at := 0
			for i, id := range ids {
				if id == lastID {
					at = i
				}
			}
			i := (at + t.N(len(ids))) % len(ids)
			if switches > 600 {
				return i, 5000
			}
			switch mode {
			case 0:
				if v := t.N(1000); v > 0 {
					return i, 1 + v%40
				}
			case 1:
				if v := t.N(1 << uint(t.Range(1, 11))); v > 0 {
					return i, v
				}
			default:
				if v := t.N(2800); v > 0 {
					return i, 200 + v
				}
			}
			return i, 0
		},
		Trace: func(now int64, id int, why string) {
			if id != lastID {
				t.Ev("%dns task %d (%s) at step %d", now, id, why, simrt.Steps())
			}
			lastID = id
			t.Mark(fmt.Sprint(id, simrt.Steps()))
		},
	}
	races := simrt.RaceErrors()
	simrt.Begin(tasksBudget)
	sched.Run(fns)
	steps, over := simrt.End()
	t.Steps += steps
	t.Sim += sched.Now
	t.Counts["task switches"] += sched.Switches
	races = simrt.RaceErrors() - races
	t.Nontrivial = sched.Switches > len(fns)
	then()
	t.Ev("%d switches, %d steps", sched.Switches, steps)
	if races > 0 {
		t.Fail("data race", "the race detector reports unsynchronised access to shared memory")
	}
	if sched.Deadlock {
		t.Fail("deadlock", "no task can proceed")
	}
	if over {
		t.Fail("does not end", "more than %d statements", steps)
	}
}

func runC09(t *T) {
	nt := t.Range(2, 5)
	var specs []*specimen
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		cfg := gcfg{Translatable: true, Tags: -1, MaxTypes: 4, MaxValues: 2, Depth: 2}
		x := wellFormed(t.Tape, cfg)
		m := x.mod
		if o, err := asn1go.ParseString(string(x.b)); err == nil && t.P(1, 2) {
			m = o
		}
		if t.P(1, 3) {
			var p asn1go.GenParams
			m, _, _ = spoil(t, m, &p, i)
		}
		specs = append(specs, &specimen{m: m, x: x, d: dump(m)})
		t.Ev("module %d: %s", i, cut(fmt.Sprintf("%q", x.b), 200))
		t.Mark(string(x.b))
	}
	pars := []asn1go.GenParams{drawParams(t), drawParams(t)}
	shared := []asn1go.CodeGenerator{asn1go.NewCodeGenerator(pars[0]), asn1go.NewCodeGenerator(pars[1])}
	tasks := make([][]*call, nt)
	for i := range tasks {
		for j, n := 0, t.Range(1, 3); j < n; j++ {
			end := t.Span()
			c := &call{failA: -1, every: 1 << uint(t.Range(2, 8))}
			if plainBuild() {
				c.every = 1 << 30
			}
			if t.P(1, 2) {
				c.parse = true
				switch t.W(2, 2, 1) {
				case 0:
					c.b = specs[t.N(len(specs))].x.b
				case 1:
					c.b = wellFormed(t.Tape, gcfg{Tags: -1, MaxTypes: 3, MaxValues: 2, Depth: 2}).b
				default:
					x := wellFormed(t.Tape, gcfg{Tags: -1, MaxTypes: 3, MaxValues: 2, Depth: 1})
					c.b = corrupt(t, x.b, x.starts)
				}
				c.d = drawDelivery(t.Tape, len(c.b), nil)
				if t.P(1, 5) {
					c.failA = t.N(len(c.b) + 1)
					t.Count("fault:read error")
				}
				c.desc = fmt.Sprintf("parse %d bytes, %s", len(c.b), c.d)
			} else {
				c.spec = specs[t.N(len(specs))]
				k := t.N(2)
				c.p = pars[k]
				c.gen = shared[k]
				own := t.P(1, 4)
				if own {
					c.gen = asn1go.NewCodeGenerator(c.p)
				}
				lat, failAt, sticky := t.lats(), -1, t.P(1, 2)
				if t.P(1, 4) {
					failAt = t.N(1500)
					t.Count("fault:write error")
				}
				c.w = func() *simWriter {
					w := newWriter(nil)
					w.lat, w.failAt, w.err, w.sticky = lat, failAt, faultErrors[0], sticky
					return w
				}
				c.desc = fmt.Sprintf("generate %+v, own instance: %v, write failure at %d", c.p, own, failAt)
			}
			t.Ev("task %d: %s", i, c.desc)
			t.Mark(c.desc)
			tasks[i] = append(tasks[i], c)
			end()
		}
	}
	var solo []string
	alone := func() {
		for i := range tasks {
			for _, c := range tasks[i] {
				s := *c
				simrt.Begin(tasksBudget)
				s.run()
				simrt.End()
				solo = append(solo, s.got)
			}
		}
	}
	before := t.P(1, 3)
	if before {
		alone()
	}
	var fns []func()
	for i := range tasks {
		l := tasks[i]
		fns = append(fns, func() {
			for _, c := range l {
				c.run()
			}
		})
	}
	t.concurrently(fns, func() {
		if !before {
			alone()
		}
	})
	n := 0
	for i := range tasks {
		for _, c := range tasks[i] {
			if c.got != solo[n] {
				t.Fail("outcome differs", "task %d, %s: %s", i, c.desc, diff(c.got, solo[n]))
			}
			if c.mod != nil && dump(c.mod) != c.modD {
				t.Fail("returned module changed", "task %d, %s: %s", i, c.desc, diff(dump(c.mod), c.modD))
			}
			n++
		}
	}
	for i, s := range specs {
		if d := dump(s.m); d != s.d {
			t.Fail("shared module changed", "module %d: %s", i, diff(d, s.d))
		}
	}
	var mods []*asn1go.ModuleDefinition
	var of []string
	for i, l := range tasks {
		for _, c := range l {
			mods, of = append(mods, c.mod), append(of, fmt.Sprintf("task %d, %s", i, c.desc))
		}
	}
	t.apart(mods, func(i int) string { return of[i] })
}

// inexpressible lists what a module asks for that encoding/asn1 has no field tag for.
func inexpressible(m *asn1go.ModuleDefinition) (found []string) {
	seen := map[string]bool{}
	note := func(id string) {
		if !seen[id] {
			seen[id] = true
			found = append(found, id)
		}
	}
	comps := func(l asn1go.ComponentTypeList, e asn1go.ExtensionAdditions) {
		var all []interface{}
		for _, c := range l {
			all = append(all, c)
		}
		for _, c := range e {
			all = append(all, c)
		}
		for _, c := range all {
			n, ok := c.(asn1go.NamedComponentType)
			if !ok {
				continue
			}
			tags := 0
			t := n.NamedType.Type
		unwrap:
			for {
				switch tt := t.(type) {
				case asn1go.TaggedType:
					tags++
					if tt.Tag.Class == asn1go.CLASS_UNIVERSAL {
						note("universal-tag")
					}
					t = tt.Type
				case asn1go.ConstraintedType:
					t = tt.Type
				default:
					break unwrap
				}
			}
			if tags > 1 {
				note("nested-tags")
			}
		}
	}
	visitModule(m, func(t asn1go.Type) asn1go.Type {
		switch tt := t.(type) {
		case asn1go.SequenceType:
			comps(tt.Components, tt.ExtensionAdditions)
		case asn1go.SetType:
			comps(tt.Components, tt.ExtensionAdditions)
		}
		return nil
	})
	return
}

func runC10(t *T) {
	m, x := translatable(t)
	params := drawParams(t)
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	t.Mark(fmt.Sprint(params))
	w := newWriter(t)
	w.lat = t.lats()
	w.dress(t)
	o := t.generate(asn1go.NewCodeGenerator(params), m, w)
	if w.spoilt != "" {
		t.Fail("writer spoilt", "%q (%+v): %s", cut(string(x.b), 3000), params, w.spoilt)
	}
	t.Ev("%+v: %d writer calls: %s", params, w.calls, o.short())
	if !o.usable() {
		t.Fail("no result", "%q (%+v): %s", cut(string(x.b), 3000), params, o.short())
	}
	t.Nontrivial = len(m.ModuleBody.AssignmentList) > 0
	beyond := inexpressible(x.mod)
	if o.err != nil {
		if len(beyond) > 0 {
			t.Count("rejected as inexpressible")
			return
		}
		t.Fail("translatable module rejected", "%q (%+v): %v", cut(string(x.b), 3000), params, o.err)
	}
	if d := compareSource(o.acc, x.mod, params); d != "" {
		t.Fail("different declarations", "%q (%+v): %s\nsource:\n%s", cut(string(x.b), 3000), params, d, cut(string(o.acc), 3000))
	}
	for _, id := range beyond {
		if !t.Known(id) {
			t.Fail("encoding tag lost: "+id, "%q (%+v): a component has %s, which the generated struct tag does not express:\n%s", cut(string(x.b), 3000), params, id, cut(string(o.acc), 3000))
		}
	}
}
