package main

import (
	"fmt"
	"math"
	"strconv"
	"unicode"
	"unicode/utf8"

	"github.com/chemikadze/asn1go"
)

// The reference parser: what a text stands for, if anything. It is written from
// the supported notation (README, and the rules of asn1.y), by recursive descent
// over all tokens at once, and shares nothing with the parser under test.

// refToken is a token with where it is.
type refToken struct {
	kind     byte // 'u' upper-case word, 'l' lower-case word, 'k' keyword, 'n' number, 'e' exponent mark, 's' symbol, 'z' end
	s        string
	from, to int
}

// unsure stops the reference parser where the notation leaves open what has to happen.
type unsure string

// notModule stops it where the text is not a module.
type notModule string

type ref struct {
	l     []refToken
	i     int
	marks []int // tokens at which assignments start
}

// refParse returns the tree of a text, or why it is none. open is not empty if
// it is not settled whether the text has to be accepted.
func refParse(b []byte) (m *asn1go.ModuleDefinition, why, open string) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case unsure:
			m, open = nil, string(p)
		case notModule:
			m, why = nil, string(p)
		default:
			panic(p)
		}
	}()
	r := &ref{l: refLex(b)}
	m = r.module()
	r.one('z', "")
	return
}

func refSpace(c byte) bool   { return c == ' ' || c >= 9 && c <= 13 }
func refLetter(c byte) bool  { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func refDigit(c byte) bool   { return c >= '0' && c <= '9' }
func refInWord(c byte) bool  { return refLetter(c) || refDigit(c) || c == '-' }
func refNewline(c byte) bool { return c >= 10 && c <= 13 }

func refLex(b []byte) (l []refToken) {
	at := func(i int) byte {
		if i < len(b) {
			return b[i]
		}
		return 0
	}
	is := func(i int, s string) bool { return i+len(s) <= len(b) && string(b[i:i+len(s)]) == s }
	open, bad := "", ""
	for i := 0; i < len(b); {
		c := b[i]
		start := i
		switch {
		case refSpace(c):
			i++
		case is(i, "--"):
			for i += 2; i < len(b) && !refNewline(b[i]); i++ {
				if is(i, "--") {
					i += 2
					break
				}
			}
		case is(i, "/*"):
			depth := 1
			for i += 2; depth > 0; {
				switch {
				case i >= len(b):
					bad, depth = "a comment that is not closed", 0
				case is(i, "/*"):
					depth++
					i += 2
				case is(i, "*/"):
					depth--
					i += 2
				default:
					i++
				}
			}
		case c >= 0x80:
			r, n := utf8.DecodeRune(b[i:])
			if unicode.IsLetter(r) {
				panic(unsure("letters beyond ASCII"))
			}
			bad = fmt.Sprintf("%+q", r)
			i += n
		case refLetter(c):
			if n := len(l); n > 0 && l[n-1].kind == 'n' && l[n-1].to == i && (c == 'e' || c == 'E') {
				l = append(l, refToken{'e', "e", i, i + 1})
				i++
				continue
			}
			for i < len(b) && refInWord(b[i]) {
				if is(i, "--") {
					panic(unsure("a word with two hyphens"))
				}
				i++
			}
			if r, _ := utf8.DecodeRune(b[i:]); at(i) >= 0x80 && (unicode.IsLetter(r) || unicode.IsDigit(r)) {
				panic(unsure("letters beyond ASCII"))
			}
			w := string(b[start:i])
			k := byte('u')
			switch {
			case w[len(w)-1] == '-':
				bad = "a word that ends with a hyphen"
			case isReserved[w]:
				k = 'k'
			case w[0] >= 'a':
				k = 'l'
			}
			l = append(l, refToken{k, w, start, i})
		case refDigit(c):
			for i < len(b) && refDigit(b[i]) {
				i++
			}
			if r, _ := utf8.DecodeRune(b[i:]); at(i) >= 0x80 && unicode.IsDigit(r) {
				bad = "a number with " + string(r)
			}
			if _, err := strconv.Atoi(string(b[start:i])); err != nil {
				open = "a number beyond 64 bits"
			}
			l = append(l, refToken{'n', string(b[start:i]), start, i})
		default:
			s := string(c)
			for _, x := range []string{"::=", "...", "..", "[[", "]]"} {
				if is(i, x) {
					s = x
					break
				}
			}
			i += len(s)
			l = append(l, refToken{'s', s, start, i})
		}
	}
	if open != "" {
		panic(unsure(open))
	}
	if bad != "" {
		panic(notModule(bad))
	}
	return append(l, refToken{'z', "", len(b), len(b)})
}

func (r *ref) fail(want string) {
	t := r.l[r.i]
	panic(notModule(fmt.Sprintf("%q at %d, where %s is expected", t.s, t.from, want)))
}

// see tells whether the token at distance d is a keyword or a symbol s.
func (r *ref) see(d int, s string) bool {
	if r.i+d >= len(r.l) {
		return false
	}
	t := r.l[r.i+d]
	return (t.kind == 'k' || t.kind == 's') && t.s == s
}

func (r *ref) is(d int, kind byte) bool { return r.i+d < len(r.l) && r.l[r.i+d].kind == kind }

func (r *ref) take(s string) bool {
	if r.see(0, s) {
		r.i++
		return true
	}
	return false
}

func (r *ref) must(l ...string) {
	for _, s := range l {
		if !r.take(s) {
			r.fail(s)
		}
	}
}

func (r *ref) one(kind byte, what string) string {
	if r.l[r.i].kind != kind {
		r.fail(what)
	}
	r.i++
	return r.l[r.i-1].s
}

func (r *ref) identifier() string { return r.one('l', "an identifier") }
func (r *ref) number() int {
	n, _ := strconv.Atoi(r.one('n', "a number"))
	return n
}

func (r *ref) signedNumber() asn1go.Number {
	if r.take("-") {
		return asn1go.Number(-r.number())
	}
	return asn1go.Number(r.number())
}

func (r *ref) module() *asn1go.ModuleDefinition {
	m := &asn1go.ModuleDefinition{}
	m.ModuleIdentifier.Reference = r.one('u', "a module reference")
	if r.take("{") {
		for first := true; first || !r.see(0, "}"); first = false {
			c := asn1go.DefinitiveObjIdComponent{}
			if r.is(0, 'n') {
				c.Id = r.number()
			} else {
				c.Name = r.identifier()
				if r.take("(") {
					c.Id = r.number()
					r.must(")")
				}
			}
			m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, c)
		}
		r.must("}")
	}
	r.must("DEFINITIONS")
	switch {
	case r.take("EXPLICIT"):
		r.must("TAGS")
	case r.take("IMPLICIT"):
		r.must("TAGS")
		m.TagDefault = asn1go.TAGS_IMPLICIT
	case r.take("AUTOMATIC"):
		r.must("TAGS")
		m.TagDefault = asn1go.TAGS_AUTOMATIC
	}
	if r.take("EXTENSIBILITY") {
		r.must("IMPLIED")
		m.ExtensibilityImplied = true
	}
	r.must("::=", "BEGIN")
	if r.take("END") {
		return m
	}
	if r.take("EXPORTS") {
		if !r.take("ALL") && !r.see(0, ";") {
			r.symbols()
		}
		r.must(";")
	}
	if r.take("IMPORTS") {
		for !r.take(";") {
			s := asn1go.SymbolsFromModule{SymbolList: r.symbols()}
			r.must("FROM")
			s.Module.Reference = r.one('u', "a module reference")
			switch {
			case r.see(0, "{"):
				s.Module.AssignedIdentifier = r.oid()
			case r.is(0, 'u') && r.i+1 < len(r.l) && r.see(1, "."):
				s.Module.AssignedIdentifier = r.definedValue()
			case r.is(0, 'u'):
				panic(unsure("an import without an assigned identifier before another"))
			case r.is(0, 'l'):
				if r.see(1, ",") || r.see(1, "FROM") {
					panic(unsure("an import without an assigned identifier before another"))
				}
				s.Module.AssignedIdentifier = r.definedValue()
			}
			m.ModuleBody.Imports = append(m.ModuleBody.Imports, s)
		}
	}
	for first := true; first || !r.see(0, "END"); first = false {
		r.marks = append(r.marks, r.i)
		var a asn1go.Assignment
		if r.is(0, 'u') {
			t := asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(r.one('u', ""))}
			r.must("::=")
			t.Type = r.typ()
			a = t
		} else {
			v := asn1go.ValueAssignment{ValueReference: asn1go.ValueReference(r.identifier())}
			v.Type = r.typ()
			r.must("::=")
			v.Value = r.value()
			a = v
		}
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, a)
	}
	r.must("END")
	return m
}

func (r *ref) symbols() (l []asn1go.Symbol) {
	for {
		if r.is(0, 'u') {
			l = append(l, asn1go.TypeReference(r.one('u', "")))
		} else {
			l = append(l, asn1go.ValueReference(r.one('l', "a symbol")))
		}
		if !r.take(",") {
			return
		}
	}
}

func (r *ref) definedValue() (d asn1go.DefinedValue) {
	if r.is(0, 'u') {
		d.ModuleName = asn1go.ModuleReference(r.one('u', ""))
		r.must(".")
	}
	d.ValueName = asn1go.ValueReference(r.one('l', "a value reference"))
	return
}

func (r *ref) oid() (l asn1go.ObjectIdentifierValue) {
	r.must("{")
	for first := true; first || !r.take("}"); first = false {
		e := asn1go.ObjectIdElement{}
		switch {
		case r.is(0, 'n'):
			e.ID = r.number()
		case r.is(0, 'l') && r.see(1, "("):
			e.Name = r.identifier()
			r.must("(")
			if r.is(0, 'n') {
				e.ID = r.number()
			} else {
				d := r.definedValue()
				e.Reference = &d
			}
			r.must(")")
		default:
			d := r.definedValue()
			e.Reference = &d
		}
		l = append(l, e)
	}
	return
}

func (r *ref) startsValue() bool {
	t := r.l[r.i]
	switch t.kind {
	case 'n', 'l':
		return true
	case 'k', 's':
		switch t.s {
		case "TRUE", "FALSE", "-", "{", "PLUS-INFINITY", "MINUS-INFINITY":
			return true
		}
	}
	return false
}

func (r *ref) value() asn1go.Value {
	switch {
	case r.take("TRUE"):
		return asn1go.Boolean(true)
	case r.take("FALSE"):
		return asn1go.Boolean(false)
	case r.take("PLUS-INFINITY"):
		return asn1go.Real(math.Inf(1))
	case r.take("MINUS-INFINITY"):
		return asn1go.Real(math.Inf(-1))
	case r.see(0, "{"):
		return r.oid()
	case r.is(0, 'l'):
		return asn1go.IdentifiedIntegerValue{Name: r.identifier()}
	}
	neg := r.take("-")
	whole := r.one('n', "a value")
	last := r.l[r.i-1]
	next := func() { // of a real number, which is written without white space
		if r.l[r.i].from != last.to {
			panic(unsure("white space in a real number"))
		}
		last = r.l[r.i]
		r.i++
	}
	frac, exp, real := "0", 0, false
	if r.see(0, ".") {
		real = true
		next()
		if !r.is(0, 'n') {
			r.fail("a fraction")
		}
		frac = r.l[r.i].s
		next()
	}
	if r.is(0, 'e') {
		real = true
		next()
		sign := 1
		if r.see(0, "-") {
			next()
			sign = -1
		}
		if !r.is(0, 'n') {
			r.fail("an exponent")
		}
		exp, _ = strconv.Atoi(r.l[r.i].s)
		exp *= sign
		next()
	}
	if !real {
		n, _ := strconv.Atoi(whole)
		if neg {
			n = -n
		}
		return asn1go.Number(n)
	}
	f, _ := strconv.ParseFloat(whole+"."+frac+"e"+strconv.Itoa(exp), 64)
	if neg {
		f = -f
	}
	return asn1go.Real(f)
}

var refStrings = func() map[string]int {
	m := map[string]int{}
	for _, s := range restrictedStrings {
		m[s.word] = s.lex
	}
	return m
}()

// typ reads a type with the constraints that follow.
func (r *ref) typ() asn1go.Type {
	t := r.plainType()
	for r.see(0, "(") {
		t = asn1go.ConstraintedType{Type: t, Constraint: r.constraint()}
	}
	return t
}

func (r *ref) plainType() asn1go.Type {
	t := r.l[r.i]
	if t.kind == 'u' {
		r.i++
		return asn1go.TypeReference(t.s)
	}
	if t.kind == 's' && t.s == "[" {
		return r.tagged()
	}
	if t.kind != 'k' {
		r.fail("a type")
	}
	r.i++
	if x, ok := refStrings[t.s]; ok {
		return asn1go.RestrictedStringType{LexType: x}
	}
	switch t.s {
	case "BOOLEAN":
		return asn1go.BooleanType{}
	case "REAL":
		return asn1go.RealType{}
	case "NULL":
		return asn1go.NullType{}
	case "GeneralizedTime", "UTCTime":
		return asn1go.TypeReference(t.s)
	case "OCTET":
		r.must("STRING")
		return asn1go.OctetStringType{}
	case "CHARACTER":
		r.must("STRING")
		return asn1go.CharacterStringType{}
	case "OBJECT":
		r.must("IDENTIFIER")
		return asn1go.ObjectIdentifierType{}
	case "ANY":
		if r.take("DEFINED") {
			r.must("BY")
			return asn1go.AnyType{Identifier: asn1go.Identifier(r.identifier())}
		}
		return asn1go.AnyType{}
	case "INTEGER":
		x := asn1go.IntegerType{}
		if r.take("{") {
			for more := true; more; more = r.take(",") {
				x.NamedNumberList = append(x.NamedNumberList, r.namedNumber())
			}
			r.must("}")
		}
		return x
	case "BIT":
		r.must("STRING")
		x := asn1go.BitStringType{}
		if r.take("{") {
			for more := true; more; more = r.take(",") {
				b := asn1go.NamedBit{Name: asn1go.Identifier(r.identifier())}
				r.must("(")
				b.Index = r.unsignedOrDefined()
				r.must(")")
				x.NamedBits = append(x.NamedBits, b)
			}
			r.must("}")
		}
		return x
	case "ENUMERATED":
		x := asn1go.EnumeratedType{}
		r.must("{")
		for more := true; more; more = r.take(",") {
			if len(x.RootEnumeration) > 0 && r.see(0, "...") {
				panic(unsure("an extension marker in an enumeration"))
			}
			if r.see(1, "(") {
				x.RootEnumeration = append(x.RootEnumeration, r.namedNumber())
			} else {
				x.RootEnumeration = append(x.RootEnumeration, asn1go.Identifier(r.identifier()))
			}
		}
		r.must("}")
		return x
	case "CHOICE":
		return r.choice()
	case "SEQUENCE", "SET":
		return r.sequence(t.s == "SET")
	}
	r.i--
	r.fail("a type")
	return nil
}

func (r *ref) unsignedOrDefined() asn1go.Value {
	if r.is(0, 'n') {
		return asn1go.Number(r.number())
	}
	return r.definedValue()
}

func (r *ref) namedNumber() asn1go.NamedNumber {
	n := asn1go.NamedNumber{Name: asn1go.Identifier(r.identifier())}
	r.must("(")
	if r.is(0, 'n') || r.see(0, "-") {
		n.Value = r.signedNumber()
	} else {
		n.Value = r.definedValue()
	}
	r.must(")")
	return n
}

func (r *ref) tagged() asn1go.Type {
	r.must("[")
	t := asn1go.TaggedType{}
	for i, w := range classWords {
		if w != "" && r.take(w) {
			t.Tag.Class = classes[i]
			break
		}
	}
	t.Tag.ClassNumber = r.unsignedOrDefined()
	r.must("]")
	switch {
	case r.take("EXPLICIT"):
		t.TagType, t.HasTagType = asn1go.TAGS_EXPLICIT, true
	case r.take("IMPLICIT"):
		t.TagType, t.HasTagType = asn1go.TAGS_IMPLICIT, true
	}
	t.Type = r.typ()
	return t
}

func (r *ref) namedType() asn1go.NamedType {
	id := r.identifier()
	return asn1go.NamedType{Identifier: asn1go.Identifier(id), Type: r.typ()}
}

func (r *ref) exception() {
	if !r.take("!") {
		return
	}
	switch {
	case r.is(0, 'n') || r.see(0, "-"):
		r.signedNumber()
	case r.is(0, 'l'), r.is(0, 'u') && r.see(1, "."):
		r.definedValue()
	default:
		r.typ()
		r.must(":")
		r.value()
	}
}

func (r *ref) choice() asn1go.Type {
	x := asn1go.ChoiceType{}
	r.must("{")
	for !r.see(0, "...") {
		x.AlternativeTypeList = append(x.AlternativeTypeList, r.namedType())
		if !r.take(",") {
			r.must("}")
			return x
		}
	}
	r.must("...")
	r.exception()
	for r.take(",") {
		if r.see(0, "...") {
			panic(unsure("a second extension marker"))
		}
		x.ExtensionTypes = append(x.ExtensionTypes, r.namedType())
	}
	r.must("}")
	return x
}

func (r *ref) component() asn1go.ComponentType {
	if r.take("COMPONENTS") {
		r.must("OF")
		return asn1go.ComponentsOfComponentType{Type: r.typ()}
	}
	c := asn1go.NamedComponentType{NamedType: r.namedType()}
	if r.take("OPTIONAL") {
		c.IsOptional = true
	} else if r.take("DEFAULT") {
		v := r.value()
		c.Default = &v
	}
	return c
}

func (r *ref) sequence(set bool) asn1go.Type {
	of := func() asn1go.Type {
		r.must("OF")
		var e asn1go.Type
		if r.is(0, 'l') {
			e = r.namedType()
		} else {
			e = r.typ()
		}
		if set {
			return asn1go.SetOfType{Type: e}
		}
		return asn1go.SequenceOfType{Type: e}
	}
	switch {
	case r.see(0, "OF"):
		return of()
	case r.see(0, "("):
		c := r.constraint()
		return asn1go.ConstraintedType{Type: of(), Constraint: c}
	case r.take("SIZE"):
		c := r.constraint()
		c = asn1go.Constraint{ConstraintSpec: asn1go.SubtypeConstraint{asn1go.Unions{asn1go.Intersections{asn1go.IntersectionElements{Elements: asn1go.SizeConstraint{Constraint: c}}}}}}
		return asn1go.ConstraintedType{Type: of(), Constraint: c}
	}
	r.must("{")
	var l asn1go.ComponentTypeList
	var e asn1go.ExtensionAdditions
	done := func() asn1go.Type {
		r.must("}")
		if set {
			return asn1go.SetType{Components: l, ExtensionAdditions: e}
		}
		return asn1go.SequenceType{Components: l, ExtensionAdditions: e}
	}
	if r.see(0, "}") {
		return done()
	}
	if r.take("...") {
		r.exception()
		if r.take(",") && !r.take("...") {
			panic(unsure("additions without a root"))
		}
		if r.see(0, ",") {
			panic(unsure("additions without a root"))
		}
		return done()
	}
	for {
		l = append(l, r.component())
		if !r.take(",") {
			return done()
		}
		if r.take("...") {
			break
		}
	}
	r.exception()
	for r.take(",") {
		if r.see(0, "...") {
			panic(unsure("a second extension marker"))
		}
		if r.take("[[") {
			if r.is(0, 'n') {
				r.number()
				r.must(":")
			}
			for more := true; more; more = r.take(",") {
				r.component()
			}
			r.must("]]")
			continue
		}
		e = append(e, r.component())
	}
	return done()
}

func (r *ref) constraint() asn1go.Constraint {
	r.must("(")
	spec := asn1go.SubtypeConstraint{r.elementSet()}
	if r.take(",") {
		r.must("...")
		if r.take(",") {
			spec = append(spec, r.elementSet())
		}
	}
	r.exception()
	r.must(")")
	return asn1go.Constraint{ConstraintSpec: spec}
}

func (r *ref) elementSet() asn1go.ElementSetSpec {
	if r.take("ALL") {
		r.must("EXCEPT")
		return asn1go.Exclusions{Elements: r.element()}
	}
	var u asn1go.Unions
	for more := true; more; more = r.take("|") || r.take("UNION") {
		var in asn1go.Intersections
		for more := true; more; more = r.take("^") || r.take("INTERSECTION") {
			e := asn1go.IntersectionElements{Elements: r.element()}
			if r.take("EXCEPT") {
				e.Exclusions = asn1go.Exclusions{Elements: r.element()}
			}
			in = append(in, e)
		}
		u = append(u, in)
	}
	return u
}

func (r *ref) element() asn1go.Elements {
	switch {
	case r.take("("):
		e := r.elementSet()
		r.must(")")
		return e
	case r.take("SIZE"):
		return asn1go.SizeConstraint{Constraint: r.constraint()}
	case r.take("WITH"):
		if r.take("COMPONENT") {
			r.constraint()
			return asn1go.InnerTypeConstraint{}
		}
		r.must("COMPONENTS", "{")
		if r.take("...") {
			r.must(",")
		}
		for more := true; more; more = r.take(",") {
			r.identifier()
			if r.see(0, "(") {
				r.constraint()
			}
			_ = r.take("PRESENT") || r.take("ABSENT") || r.take("OPTIONAL")
		}
		r.must("}")
		return asn1go.InnerTypeConstraint{}
	case r.see(0, "MIN") || r.startsValue():
		x := asn1go.ValueRange{}
		min := r.take("MIN")
		if !min {
			x.LowerEndpoint.Value = r.value()
		}
		if !min && !r.see(0, "<") && !r.see(0, "..") {
			return asn1go.SingleValue{Value: x.LowerEndpoint.Value}
		}
		x.LowerEndpoint.IsOpen = r.take("<")
		r.must("..")
		x.UpperEndpoint.IsOpen = r.take("<")
		if !r.take("MAX") {
			x.UpperEndpoint.Value = r.value()
		}
		return x
	}
	return asn1go.TypeConstraint{Type: r.typ()}
}
