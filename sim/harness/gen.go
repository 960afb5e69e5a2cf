package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/chemikadze/asn1go"
)

// Lexical classes of tokens; they decide which tokens need something in between.
const (
	tWord = iota
	tNumber
	tReal // a real literal: inseparable
	tSym
	tMinus
)

type token struct {
	s    string
	kind int
}

// gcfg selects what modules look like.
type gcfg struct {
	Translatable bool // only what the code generator supports
	MaxTypes     int
	MaxValues    int
	Depth        int
	Budget       int // size of a module; 0: 60
	Tags         int // -1: any default tagging
	NoEND        bool
}

// gen writes a module and, at the same time, builds the tree the parser must return.
type gen struct {
	*Tape
	cfg    gcfg
	toks   []token
	used   map[string]bool
	past   []string // some names written so far
	types  []string // names of type assignments, in order
	rank   []int    // aliases only point to lower ranks, so they are not circular
	ints   []string // values of type INTEGER
	cur    int
	budget int         // bounds the size of a module
	chain  int         // levels of a type that is nested deeply
	scalar [3][]string // types written so far that are finally INTEGER, BOOLEAN, REAL
}

func (g *gen) k(words ...string) {
	for _, w := range words {
		g.toks = append(g.toks, token{w, tWord})
	}
}

func (g *gen) s(syms ...string) {
	for _, w := range syms {
		k := tSym
		if w == "-" {
			k = tMinus
		}
		g.toks = append(g.toks, token{w, k})
	}
}

func (g *gen) num(n int) { g.toks = append(g.toks, token{strconv.Itoa(n), tNumber}) }

// numRepr writes a number, sometimes with leading zeros.
func (g *gen) numLit(n int) {
	s := strconv.Itoa(n)
	if g.P(1, 24) {
		s = strings.Repeat("0", g.Range(1, 3)) + s
	}
	g.toks = append(g.toks, token{s, tNumber})
}

var upperWords = []string{"T", "Foo", "Bar", "Type", "Request", "Kdc-Rep", "Ends", "Begin-Of", "Integer", "Seq", "X", "PDU", "Sequences", "INTEGERS", "Tag5", "A1b2", "Is-A-Thing", "Of", "IA5", "E", "Boolean-1", "ENDS", "END-Of"}
var lowerWords = []string{"a", "foo", "bar", "name", "msg-type", "e", "e5", "eData", "pvno", "x", "end", "integer", "of", "is-a-thing", "b2c", "size", "crealm", "optional", "default-1", "etype", "true"}

// anyWord makes a word from a reserved word or from anything; the first letter is not decided yet.
func (g *gen) anyWord() string {
	w := ""
	if g.P(1, 2) {
		w = reservedWords[g.N(len(reservedWords))]
		switch g.N(6) {
		case 0:
			w = w[:1] + strings.ToLower(w[1:])
		case 1:
			w += "-" + strconv.Itoa(g.N(100))
		case 2:
			w += string(wordChars[g.N(len(wordChars))])
		case 3:
			w = w[:len(w)-1]
		case 4:
			w = "x-" + w
		default:
			w += "-" + reservedWords[g.N(len(reservedWords))]
		}
	} else {
		b := []byte{wordChars[g.N(52)]}
		for i, n := 0, g.N(14); i < n; i++ {
			if g.P(1, 6) {
				b = append(b, '-')
			}
			b = append(b, wordChars[g.N(len(wordChars))])
		}
		w = string(b)
	}
	return strings.TrimRight(w, "-")
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// reservedWords of the notation (X.680, and ANY and DEFINED).
var reservedWords = []string{
	"ABSENT", "ABSTRACT-SYNTAX", "ALL", "ANY", "APPLICATION", "AUTOMATIC", "BEGIN", "BIT", "BMPString", "BOOLEAN", "BY", "CHARACTER", "CHOICE", "CLASS", "COMPONENT",
	"COMPONENTS", "CONSTRAINED", "CONTAINING", "DEFAULT", "DEFINED", "DEFINITIONS", "EMBEDDED", "ENCODED", "END", "ENUMERATED", "EXCEPT", "EXPLICIT", "EXPORTS",
	"EXTENSIBILITY", "EXTERNAL", "FALSE", "FROM", "GeneralString", "GeneralizedTime", "GraphicString", "IA5String", "IDENTIFIER", "IMPLICIT", "IMPLIED", "IMPORTS",
	"INCLUDES", "INSTANCE", "INTEGER", "INTERSECTION", "ISO646String", "MAX", "MIN", "MINUS-INFINITY", "NULL", "NumericString", "OBJECT", "OCTET", "OF", "OPTIONAL",
	"ObjectDescriptor", "PATTERN", "PDV", "PLUS-INFINITY", "PRESENT", "PRIVATE", "PrintableString", "REAL", "RELATIVE-OID", "SEQUENCE", "SET", "SIZE", "STRING",
	"SYNTAX", "T61String", "TAGS", "TRUE", "TYPE-IDENTIFIER", "TeletexString", "UNION", "UNIQUE", "UNIVERSAL", "UTCTime", "UTF8String", "UniversalString",
	"VideotexString", "VisibleString", "WITH",
}

var isReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range reservedWords {
		m[w] = true
	}
	return m
}()

// similar makes a word that differs from an earlier one in a single character, or is the same.
func (g *gen) similar() string {
	w := []byte(g.past[g.N(len(g.past))])
	at := len(w) - 1
	if g.P(1, 2) {
		at = g.N(len(w))
	}
	if w[at] != '-' {
		w[at] = wordChars[g.N(len(wordChars))]
	}
	if !refLetter(w[0]) {
		w[0] = 'x'
	}
	return string(w)
}

func (g *gen) upper() string {
	if len(g.past) > 0 && !g.cfg.NoEND && g.P(1, 12) {
		w := g.similar()
		if w = strings.ToUpper(w[:1]) + w[1:]; isReserved[w] {
			w += "X"
		}
		return w
	}
	w := upperWords[g.N(len(upperWords))]
	if g.P(1, 4) {
		w = g.anyWord()
		w = strings.ToUpper(w[:1]) + w[1:]
	}
	if g.cfg.NoEND && strings.HasPrefix(w, "END") {
		w = "Fin" + w[3:]
	}
	if isReserved[w] {
		w += "X"
	}
	return w
}

func (g *gen) lower() string {
	if len(g.past) > 0 && g.P(1, 12) {
		w := g.similar()
		return strings.ToLower(w[:1]) + w[1:]
	}
	if g.P(1, 4) {
		w := g.anyWord()
		return strings.ToLower(w[:1]) + w[1:]
	}
	return lowerWords[g.N(len(lowerWords))]
}

// fresh makes a name that is not used yet, also not as a Go name.
func (g *gen) fresh(base string) string {
	n := base
	for i := 0; ; i++ {
		key := strings.ToLower(n)
		if !g.used[key] && !isReserved[n] {
			g.used[key] = true
			return n
		}
		n = base + strconv.Itoa(i+1)
	}
}

// count draws how long a list is: lo to hi, rarely many more.
func (g *gen) count(lo, hi int) int {
	n := g.Range(lo, hi)
	if g.P(1, 200) {
		n += g.N(1 << uint(g.Range(2, 7)))
	}
	return n
}

func (g *gen) long(base string) string {
	if g.P(1, 60) {
		base += "-" + strings.Repeat("abcdefghij", g.Range(1, 9))
		if g.P(1, 8) {
			n := g.Range(1, 5000)
			if g.P(1, 10) {
				n *= 16
			}
			base += strings.Repeat("Z", n)
		}
	}
	if len(g.past) < 40 {
		g.past = append(g.past, base)
	} else {
		g.past[g.N(len(g.past))] = base
	}
	return base
}

var edgeNumbers = []int{0, 1, 2, 3, 5, 10, 24, 30, 31, 63, 64, 99, 100, 127, 128, 255, 256, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 1 << 53, 1<<53 + 1, 999999999999999999, math.MaxInt64 - 1, math.MaxInt64}

func (g *gen) number() int {
	switch g.W(4, 3, 2) {
	case 0:
		return g.N(6)
	case 1:
		return edgeNumbers[g.N(len(edgeNumbers))]
	default:
		return g.N(1 << 20)
	}
}

func (g *gen) tagNumber() int {
	if g.P(1, 10) {
		return g.number()
	}
	return g.N(40)
}

// signed writes a signed number.
func (g *gen) signed() asn1go.Number {
	n := g.number()
	if g.P(1, 4) {
		g.s("-")
		g.numLit(n)
		return asn1go.Number(-n)
	}
	g.numLit(n)
	return asn1go.Number(n)
}

func (g *gen) digits(max int) string {
	n := g.Range(1, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.N(10))
	}
	return string(b)
}

// real writes a real number other than an integer literal.
func (g *gen) real() asn1go.Real {
	switch g.W(8, 1, 1) {
	case 1:
		g.k("PLUS-INFINITY")
		return asn1go.Real(math.Inf(1))
	case 2:
		g.k("MINUS-INFINITY")
		return asn1go.Real(math.Inf(-1))
	}
	neg := g.P(1, 4)
	if neg {
		g.s("-")
	}
	whole, part := 4, 6
	if g.P(1, 6) { // as many as a number may have
		whole, part = 18, 18
	}
	s := g.digits(whole)
	form := g.W(3, 2, 2)
	if form != 2 {
		s += "." + g.digits(part)
	}
	if form != 0 {
		e := "e"
		if g.P(1, 2) {
			e = "E"
		}
		s += e
		if g.P(1, 2) {
			s += "-"
		}
		s += g.digits(2)
		if g.P(1, 12) {
			s += g.digits(2)
		}
	}
	g.toks = append(g.toks, token{s, tReal})
	v, _ := strconv.ParseFloat(s, 64)
	if neg {
		v = -v
	}
	return asn1go.Real(v)
}

func (g *gen) definedValue(local bool) asn1go.DefinedValue {
	defer g.Span()()
	if !local && g.P(1, 3) {
		m, v := g.upper(), g.lower()
		g.k(m)
		g.s(".")
		g.k(v)
		return asn1go.DefinedValue{ModuleName: asn1go.ModuleReference(m), ValueName: asn1go.ValueReference(v)}
	}
	v := g.lower()
	if local && len(g.ints) > 0 {
		v = g.ints[g.N(len(g.ints))]
	}
	g.k(v)
	return asn1go.DefinedValue{ValueName: asn1go.ValueReference(v)}
}

// value writes any supported value.
func (g *gen) value() asn1go.Value {
	defer g.Span()()
	switch g.W(4, 2, 2, 2, 1) {
	case 0:
		return g.signed()
	case 1:
		b := g.P(1, 2)
		if b {
			g.k("TRUE")
		} else {
			g.k("FALSE")
		}
		return asn1go.Boolean(b)
	case 2:
		return g.real()
	case 3:
		v := g.lower()
		g.k(v)
		return asn1go.IdentifiedIntegerValue{Name: v}
	default:
		return g.oidValue()
	}
}

func (g *gen) oidValue() asn1go.ObjectIdentifierValue {
	defer g.Span()()
	g.s("{")
	out := asn1go.ObjectIdentifierValue{}
	for i, n := 0, g.count(1, 4); i < n; i++ {
		switch g.W(3, 2, 3, 1) {
		case 0:
			v := g.number()
			g.numLit(v)
			out = append(out, asn1go.ObjectIdElement{ID: v})
		case 1:
			d := g.definedValue(false)
			out = append(out, asn1go.ObjectIdElement{Reference: &d})
		case 2:
			name := g.lower()
			g.k(name)
			g.s("(")
			v := g.number()
			g.numLit(v)
			g.s(")")
			out = append(out, asn1go.ObjectIdElement{Name: name, ID: v})
		default:
			name := g.lower()
			g.k(name)
			g.s("(")
			d := g.definedValue(false)
			g.s(")")
			out = append(out, asn1go.ObjectIdElement{Name: name, Reference: &d})
		}
	}
	g.s("}")
	return out
}

type restricted struct {
	word string
	lex  int
}

var restrictedStrings = []restricted{
	{"UTF8String", asn1go.UTF8String}, {"IA5String", asn1go.IA5String}, {"NumericString", asn1go.NumericString},
	{"PrintableString", asn1go.PrintableString}, {"BMPString", asn1go.BMPString}, {"GeneralString", asn1go.GeneralString},
	{"GraphicString", asn1go.GraphicString}, {"ISO646String", asn1go.ISO646String}, {"TeletexString", asn1go.TeletexString},
	{"T61String", asn1go.T61String}, {"UniversalString", asn1go.UniversalString}, {"VideotexString", asn1go.VideotexString},
	{"VisibleString", asn1go.VisibleString},
}

// reference writes a type reference. Direct ones are aliases: they must not be circular.
func (g *gen) reference(direct bool) asn1go.Type {
	if !g.cfg.Translatable {
		r := g.upper()
		if len(g.types) > 0 && g.P(2, 3) {
			r = g.types[g.N(len(g.types))]
		}
		g.k(r)
		return asn1go.TypeReference(r)
	}
	var c []string
	for i, n := range g.types {
		if !direct || g.rank[i] < g.rank[g.cur] {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		g.k("BOOLEAN")
		return asn1go.BooleanType{}
	}
	r := c[g.N(len(c))]
	g.k(r)
	return asn1go.TypeReference(r)
}

// typ writes a type. direct: nothing but tags and constraints between it and its assignment.
// closed: no constraint may follow here, as it would belong to an enclosing type.
func (g *gen) typ(depth int, direct bool) asn1go.Type {
	defer g.Span()()
	g.budget--
	if g.chain > 0 {
		return g.link()
	}
	return g.bareType(depth, direct)
}

// link is a type in a type in a type, as deep as the chain is long.
func (g *gen) link() asn1go.Type {
	g.chain--
	kind := g.N(6)
	inner := func() asn1go.Type {
		if g.chain > 0 {
			return g.link()
		}
		return g.typ(1, false)
	}
	switch kind {
	case 0:
		g.k("SEQUENCE", "OF")
		return asn1go.SequenceOfType{Type: inner()}
	case 1:
		g.k("SET", "OF")
		return asn1go.SetOfType{Type: inner()}
	}
	set := kind == 2
	word := "SEQUENCE"
	if set {
		word = "SET"
	}
	g.k(word)
	g.s("{")
	names := map[string]bool{}
	var l asn1go.ComponentTypeList
	at, n := 0, 1
	if g.P(1, 6) {
		n = 2
		at = g.N(2)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.s(",")
		}
		id := unique(names, g.lower())
		g.k(id)
		c := asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: asn1go.Identifier(id)}}
		if i == at {
			c.NamedType.Type = inner()
		} else {
			c.NamedType.Type = g.simple()
		}
		if g.P(1, 5) {
			g.k("OPTIONAL")
			c.IsOptional = true
		}
		l = append(l, c)
	}
	g.s("}")
	if set {
		return asn1go.SetType{Components: l}
	}
	return asn1go.SequenceType{Components: l}
}

func (g *gen) simple() asn1go.Type {
	switch g.W(3, 2, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		g.k("INTEGER")
		return g.maybeConstrained(asn1go.IntegerType{}, 0)
	case 1:
		g.k("BOOLEAN")
		return asn1go.BooleanType{}
	case 2:
		r := restrictedStrings[g.N(len(restrictedStrings))]
		g.k(r.word)
		return g.maybeConstrained(asn1go.RestrictedStringType{LexType: r.lex}, 0)
	case 3:
		g.k("OCTET", "STRING")
		return g.maybeConstrained(asn1go.OctetStringType{}, 0)
	case 4:
		g.k("BIT", "STRING")
		return g.maybeConstrained(asn1go.BitStringType{}, 0)
	case 5:
		g.k("OBJECT", "IDENTIFIER")
		return asn1go.ObjectIdentifierType{}
	case 6:
		g.k("REAL")
		return asn1go.RealType{}
	case 7:
		g.k("CHARACTER", "STRING")
		return asn1go.CharacterStringType{}
	case 8:
		if !g.cfg.Translatable && g.P(1, 2) {
			g.k("UTCTime")
			return asn1go.TypeReference("UTCTime")
		}
		g.k("GeneralizedTime")
		return asn1go.TypeReference("GeneralizedTime")
	default:
		if !g.cfg.Translatable && g.P(1, 2) {
			g.k("NULL")
			return asn1go.NullType{}
		}
		g.k("ANY")
		if g.P(1, 2) {
			g.k("DEFINED", "BY")
			id := g.lower()
			g.k(id)
			return asn1go.AnyType{Identifier: asn1go.Identifier(id)}
		}
		return asn1go.AnyType{}
	}
}

func (g *gen) maybeConstrained(t asn1go.Type, depth int) asn1go.Type {
	for i := 0; i < 2 && g.P(1, 4); i++ {
		t = asn1go.ConstraintedType{Type: t, Constraint: g.constraint(depth)}
	}
	return t
}

func (g *gen) bareType(depth int, direct bool) asn1go.Type {
	if depth <= 0 || g.budget <= 0 {
		if g.P(1, 3) {
			return g.reference(direct)
		}
		return g.simple()
	}
	switch g.W(6, 3, 3, 2, 2, 2, 3, 2, 2, 2, 2) {
	case 0:
		return g.simple()
	case 1:
		return g.maybeConstrained(g.reference(direct), depth-1)
	case 2:
		g.k("SEQUENCE")
		c, e := g.components(depth - 1)
		return asn1go.SequenceType{Components: c, ExtensionAdditions: e}
	case 3:
		g.k("SET")
		c, e := g.components(depth - 1)
		return asn1go.SetType{Components: c, ExtensionAdditions: e}
	case 4, 5:
		set := g.P(1, 2)
		word := "SEQUENCE"
		if set {
			word = "SET"
		}
		g.k(word)
		var c *asn1go.Constraint
		switch g.W(4, 1, 1) {
		case 1:
			g.k("SIZE")
			k := g.constraint(0)
			k = asn1go.Constraint{ConstraintSpec: asn1go.SubtypeConstraint{asn1go.Unions{asn1go.Intersections{asn1go.IntersectionElements{Elements: asn1go.SizeConstraint{Constraint: k}}}}}}
			c = &k
		case 2:
			k := g.constraint(0)
			c = &k
		}
		g.k("OF")
		var elem asn1go.Type
		if g.P(1, 5) {
			id := g.lower()
			g.k(id)
			elem = asn1go.NamedType{Identifier: asn1go.Identifier(id), Type: g.typ(depth-1, false)}
		} else {
			elem = g.typ(depth-1, false)
		}
		var t asn1go.Type = asn1go.SequenceOfType{Type: elem}
		if set {
			t = asn1go.SetOfType{Type: elem}
		}
		if c != nil {
			return asn1go.ConstraintedType{Type: t, Constraint: *c}
		}
		return t
	case 6:
		return g.choice(depth - 1)
	case 7:
		return g.enumerated()
	case 8:
		return g.tagged(depth-1, direct)
	case 9:
		g.k("INTEGER")
		g.s("{")
		var l []asn1go.NamedNumber
		names := map[string]bool{}
		for i, n := 0, g.count(1, 4); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			l = append(l, g.namedNumber(names))
		}
		g.s("}")
		return g.maybeConstrained(asn1go.IntegerType{NamedNumberList: l}, 0)
	default:
		g.k("BIT", "STRING")
		g.s("{")
		var l []asn1go.NamedBit
		for i, n := 0, g.count(1, 4); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			id := g.lower()
			g.k(id)
			g.s("(")
			var v asn1go.Value
			if g.P(1, 4) {
				v = g.definedValue(false)
			} else {
				n := g.tagNumber()
				g.numLit(n)
				v = asn1go.Number(n)
			}
			g.s(")")
			l = append(l, asn1go.NamedBit{Name: asn1go.Identifier(id), Index: v})
		}
		g.s("}")
		return g.maybeConstrained(asn1go.BitStringType{NamedBits: l}, 0)
	}
}

func unique(names map[string]bool, n string) string {
	for i := 0; ; i++ {
		c := n
		if i > 0 {
			c = n + strconv.Itoa(i)
		}
		if !names[c] {
			names[c] = true
			return c
		}
	}
}

func (g *gen) namedNumber(names map[string]bool) asn1go.NamedNumber {
	defer g.Span()()
	id := unique(names, g.long(g.lower()))
	g.k(id)
	g.s("(")
	defer g.s(")")
	if g.P(1, 5) && (!g.cfg.Translatable || len(g.ints) > 0) {
		return asn1go.NamedNumber{Name: asn1go.Identifier(id), Value: g.definedValue(g.cfg.Translatable)}
	}
	return asn1go.NamedNumber{Name: asn1go.Identifier(id), Value: g.signed()}
}

func (g *gen) enumerated() asn1go.Type {
	g.k("ENUMERATED")
	g.s("{")
	names := map[string]bool{}
	items := func() []asn1go.EnumerationItem {
		var l []asn1go.EnumerationItem
		for i, n := 0, g.count(1, 4); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			if g.P(1, 2) {
				id := unique(names, g.long(g.lower()))
				g.k(id)
				l = append(l, asn1go.Identifier(id))
			} else {
				l = append(l, g.namedNumber(names))
			}
		}
		return l
	}
	t := asn1go.EnumeratedType{RootEnumeration: items()} // extension markers are documented as unsupported
	g.s("}")
	return t
}

func (g *gen) exception() {
	defer g.Span()()
	if !g.P(1, 4) {
		return
	}
	g.s("!")
	switch g.N(3) {
	case 0:
		g.signed()
	case 1:
		g.definedValue(false)
	default:
		if g.cfg.Translatable || g.budget <= 0 || g.P(2, 3) {
			g.k("INTEGER")
			g.s(":")
			g.signed()
			return
		}
		g.typ(1, false)
		g.s(":")
		g.value()
	}
}

func (g *gen) choice(depth int) asn1go.Type {
	g.k("CHOICE")
	g.s("{")
	names := map[string]bool{}
	alt := func() asn1go.NamedType {
		id := unique(names, g.long(g.lower()))
		g.k(id)
		return asn1go.NamedType{Identifier: asn1go.Identifier(id), Type: g.typ(depth, false)}
	}
	t := asn1go.ChoiceType{}
	form := g.W(5, 2, 1)
	if form != 2 {
		for i, n := 0, g.count(1, 4); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			t.AlternativeTypeList = append(t.AlternativeTypeList, alt())
		}
	}
	if form != 0 {
		if form == 1 {
			g.s(",")
		}
		g.s("...")
		g.exception()
		for i, n := 0, g.count(0, 2); i < n; i++ {
			g.s(",")
			t.ExtensionTypes = append(t.ExtensionTypes, alt())
		}
	}
	g.s("}")
	return t
}

var classWords = []string{"", "APPLICATION", "PRIVATE", "UNIVERSAL"}
var classes = []int{asn1go.CLASS_CONTEXT_SPECIFIC, asn1go.CLASS_APPLICATION, asn1go.CLASS_PRIVATE, asn1go.CLASS_UNIVERSAL}

func (g *gen) tagged(depth int, direct bool) asn1go.Type {
	c := g.W(6, 2, 2, 1)
	g.s("[")
	if classWords[c] != "" {
		g.k(classWords[c])
	}
	t := asn1go.TaggedType{Tag: asn1go.Tag{Class: classes[c]}}
	if !g.cfg.Translatable && g.P(1, 6) {
		t.Tag.ClassNumber = g.definedValue(false)
	} else {
		n := g.tagNumber()
		g.numLit(n)
		t.Tag.ClassNumber = asn1go.Number(n)
	}
	g.s("]")
	switch g.W(3, 1, 1) {
	case 1:
		g.k("EXPLICIT")
		t.TagType, t.HasTagType = asn1go.TAGS_EXPLICIT, true
	case 2:
		g.k("IMPLICIT")
		t.TagType, t.HasTagType = asn1go.TAGS_IMPLICIT, true
	}
	t.Type = g.typ(depth, direct)
	return t
}

func (g *gen) component(depth int, names map[string]bool) asn1go.ComponentType {
	defer g.Span()()
	if !g.cfg.Translatable && g.P(1, 16) {
		g.k("COMPONENTS", "OF")
		return asn1go.ComponentsOfComponentType{Type: g.typ(depth, false)}
	}
	id := unique(names, g.long(g.lower()))
	g.k(id)
	c := asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: asn1go.Identifier(id)}}
	if g.P(1, 3) {
		c.NamedType.Type = g.tagged(depth, false)
	} else {
		c.NamedType.Type = g.typ(depth, false)
	}
	switch g.W(4, 2, 2) {
	case 1:
		g.k("OPTIONAL")
		c.IsOptional = true
	case 2:
		g.k("DEFAULT")
		v := g.value()
		c.Default = &v
	}
	return c
}

func (g *gen) components(depth int) (asn1go.ComponentTypeList, asn1go.ExtensionAdditions) {
	g.s("{")
	defer g.s("}")
	names := map[string]bool{}
	list := func(lo, hi int) asn1go.ComponentTypeList {
		var l asn1go.ComponentTypeList
		for i, n := 0, g.count(lo, hi); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			l = append(l, g.component(depth, names))
		}
		return l
	}
	switch g.W(7, 1, 1, 2, 2) {
	case 1:
		return nil, nil
	case 2:
		g.s("...")
		g.exception()
		if g.P(1, 2) {
			g.s(",", "...")
		}
		return nil, nil
	case 3, 4:
		l := list(1, 3)
		g.s(",", "...")
		g.exception()
		var e asn1go.ExtensionAdditions
		for i, n := 0, g.count(0, 2); i < n; i++ {
			g.s(",")
			if g.P(1, 8) {
				// A group is read and left out of the tree (README, footnote 1).
				g.s("[[")
				if g.P(2, 3) {
					g.numLit(2 + g.N(9))
					g.s(":")
				}
				list(1, 3)
				g.s("]]")
				continue
			}
			e = append(e, g.component(depth, names))
		}
		return l, e
	}
	return list(1, 5), nil
}

// constraint writes a constraint in parentheses.
func (g *gen) constraint(depth int) asn1go.Constraint {
	defer g.Span()()
	g.s("(")
	g.budget--
	spec := asn1go.SubtypeConstraint{g.elementSet(depth + 1)}
	switch g.W(6, 1, 1) {
	case 1:
		g.s(",", "...")
	case 2:
		g.s(",", "...", ",")
		spec = append(spec, g.elementSet(0))
	}
	g.exception()
	g.s(")")
	return asn1go.Constraint{ConstraintSpec: spec}
}

func (g *gen) elementSet(depth int) asn1go.ElementSetSpec {
	defer g.Span()()
	if g.P(1, 10) {
		g.k("ALL", "EXCEPT")
		return asn1go.Exclusions{Elements: g.element(depth)}
	}
	var u asn1go.Unions
	for i, n := 0, 1+g.W(5, 2, 1); i < n; i++ {
		if i > 0 {
			if g.P(1, 3) {
				g.k("UNION")
			} else {
				g.s("|")
			}
		}
		var in asn1go.Intersections
		for j, m := 0, 1+g.W(6, 1, 1); j < m; j++ {
			if j > 0 {
				if g.P(1, 3) {
					g.k("INTERSECTION")
				} else {
					g.s("^")
				}
			}
			e := asn1go.IntersectionElements{Elements: g.element(depth)}
			if g.P(1, 8) {
				g.k("EXCEPT")
				e.Exclusions = asn1go.Exclusions{Elements: g.element(depth)}
			}
			in = append(in, e)
		}
		u = append(u, in)
	}
	return u
}

func (g *gen) endpoint() asn1go.Value {
	defer g.Span()()
	switch g.W(4, 1, 1) {
	case 1:
		return g.real()
	case 2:
		v := g.lower()
		g.k(v)
		return asn1go.IdentifiedIntegerValue{Name: v}
	}
	return g.signed()
}

func (g *gen) element(depth int) asn1go.Elements {
	defer g.Span()()
	if depth <= 0 || g.budget <= 0 {
		if g.P(1, 2) {
			return g.valueRange()
		}
		return asn1go.SingleValue{Value: g.value()}
	}
	g.budget--
	switch g.W(4, 3, 2, 1, 1, 1) {
	case 0:
		return g.valueRange()
	case 1:
		return asn1go.SingleValue{Value: g.value()}
	case 2:
		g.k("SIZE")
		return asn1go.SizeConstraint{Constraint: g.constraint(depth - 2)}
	case 3:
		g.s("(")
		e := g.elementSet(depth - 1)
		g.s(")")
		return e
	case 4:
		if g.cfg.Translatable {
			g.k("INTEGER")
			return asn1go.TypeConstraint{Type: asn1go.IntegerType{}}
		}
		if g.P(1, 3) {
			return asn1go.TypeConstraint{Type: g.typ(depth-1, false)}
		}
		return asn1go.TypeConstraint{Type: g.simple()}
	default:
		g.k("WITH")
		if g.P(1, 2) {
			g.k("COMPONENT")
			g.constraint(0)
			return asn1go.InnerTypeConstraint{}
		}
		g.k("COMPONENTS")
		g.s("{")
		if g.P(1, 2) {
			g.s("...", ",")
		}
		for i, n := 0, g.count(1, 3); i < n; i++ {
			if i > 0 {
				g.s(",")
			}
			g.k(g.lower())
			if g.P(1, 2) {
				g.constraint(0)
			}
			switch g.N(4) {
			case 1:
				g.k("PRESENT")
			case 2:
				g.k("ABSENT")
			case 3:
				g.k("OPTIONAL")
			}
		}
		g.s("}")
		return asn1go.InnerTypeConstraint{}
	}
}

func (g *gen) valueRange() asn1go.Elements {
	defer g.Span()()
	r := asn1go.ValueRange{}
	if g.P(1, 4) {
		g.k("MIN")
	} else {
		r.LowerEndpoint.Value = g.endpoint()
	}
	if g.P(1, 6) {
		g.s("<")
		r.LowerEndpoint.IsOpen = true
	}
	g.s("..")
	if g.P(1, 6) {
		g.s("<")
		r.UpperEndpoint.IsOpen = true
	}
	if g.P(1, 4) {
		g.k("MAX")
	} else {
		r.UpperEndpoint.Value = g.endpoint()
	}
	return r
}

func (g *gen) header() asn1go.ModuleDefinition {
	defer g.Span()()
	m := asn1go.ModuleDefinition{}
	name := g.long(g.upper())
	g.k(name)
	m.ModuleIdentifier.Reference = name
	if g.P(1, 3) {
		g.s("{")
		for i, n := 0, g.count(1, 4); i < n; i++ {
			c := asn1go.DefinitiveObjIdComponent{}
			switch g.W(2, 1, 2) {
			case 0:
				c.Id = g.number()
				g.numLit(c.Id)
			case 1:
				c.Name = g.lower()
				g.k(c.Name)
			default:
				c.Name = g.lower()
				g.k(c.Name)
				g.s("(")
				c.Id = g.number()
				g.numLit(c.Id)
				g.s(")")
			}
			m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, c)
		}
		g.s("}")
	}
	g.k("DEFINITIONS")
	tags := g.cfg.Tags
	if tags < 0 {
		if g.cfg.Translatable {
			tags = g.W(2, 1, 1)
		} else {
			tags = g.W(2, 1, 1, 1)
		}
	}
	switch tags {
	case 1:
		g.k("EXPLICIT", "TAGS")
	case 2:
		g.k("IMPLICIT", "TAGS")
		m.TagDefault = asn1go.TAGS_IMPLICIT
	case 3:
		g.k("AUTOMATIC", "TAGS")
		m.TagDefault = asn1go.TAGS_AUTOMATIC
	}
	if g.P(1, 6) {
		g.k("EXTENSIBILITY", "IMPLIED")
		m.ExtensibilityImplied = true
	}
	g.s("::=")
	g.k("BEGIN")
	return m
}

func (g *gen) symbols() []asn1go.Symbol {
	defer g.Span()()
	var l []asn1go.Symbol
	for i, n := 0, g.count(1, 4); i < n; i++ {
		if i > 0 {
			g.s(",")
		}
		if g.P(1, 2) {
			w := g.long(g.lower())
			g.k(w)
			l = append(l, asn1go.ValueReference(w))
		} else {
			w := g.long(g.upper())
			g.k(w)
			l = append(l, asn1go.TypeReference(w))
		}
	}
	return l
}

func (g *gen) exportsImports(m *asn1go.ModuleDefinition) {
	switch g.W(6, 1, 1, 1) {
	case 1:
		g.k("EXPORTS", "ALL")
		g.s(";")
	case 2:
		g.k("EXPORTS")
		g.s(";")
	case 3:
		g.k("EXPORTS")
		g.symbols()
		g.s(";")
	}
	switch g.W(5, 1, 3) {
	case 1:
		g.k("IMPORTS")
		g.s(";")
	case 2:
		g.k("IMPORTS")
		for i, n := 0, g.count(1, 3); i < n; i++ {
			sm := asn1go.SymbolsFromModule{SymbolList: g.symbols()}
			g.k("FROM")
			mod := g.upper()
			g.k(mod)
			sm.Module.Reference = mod
			last := i == n-1
			// Without an assigned identifier, the next symbol would be taken for one.
			switch f := g.W(2, 2, 1); {
			case f == 0 && last:
			case f == 2:
				sm.Module.AssignedIdentifier = g.definedValue(false)
			default:
				sm.Module.AssignedIdentifier = g.oidValue()
			}
			m.ModuleBody.Imports = append(m.ModuleBody.Imports, sm)
		}
		g.s(";")
	}
}

// module writes a whole module.
func (g *gen) module() *asn1go.ModuleDefinition {
	if g.cfg.Tags < 0 && !g.cfg.NoEND && g.P(1, 16) {
		return g.fromRFC()
	}
	g.used = map[string]bool{}
	if g.budget = g.cfg.Budget; g.budget == 0 {
		g.budget = 60
	}
	m := g.header()
	nt, nv := g.Range(0, g.cfg.MaxTypes), g.Range(0, g.cfg.MaxValues)
	if nt+nv > 0 {
		g.exportsImports(&m)
	}
	// order of types and values
	var order []bool // true: type
	for t, v := nt, nv; t+v > 0; {
		if t > 0 && (v == 0 || g.N(t+v) < t) {
			order = append(order, true)
			t--
		} else {
			order = append(order, false)
			v--
		}
	}
	// the values come first in thought, so that named numbers can refer to them
	valNames := make([]string, 0, nv)
	valKind := make([]int, 0, nv)
	for i := 0; i < nv; i++ {
		n := g.fresh(g.long(g.lower()))
		kind := g.W(4, 2, 2, 1, 1, 1)
		valNames, valKind = append(valNames, n), append(valKind, kind)
		if kind == 0 {
			g.ints = append(g.ints, n)
		}
	}
	for i := 0; i < nt; i++ {
		g.types = append(g.types, g.fresh(g.long(g.upper())))
	}
	g.rank = make([]int, nt)
	for i := range g.rank {
		g.rank[i] = i
	}
	for i := nt - 1; i > 0; i-- {
		j := i - g.N(i+1)
		g.rank[i], g.rank[j] = g.rank[j], g.rank[i]
	}
	ti, vi := 0, 0
	deep := -1
	if nt > 0 && g.P(1, 60) {
		deep = g.N(nt)
	}
	for _, isType := range order {
		if isType {
			if ti == deep {
				g.chain = g.Range(3, 1<<uint(g.Range(2, 7)))
			}
			g.cur = ti
			name := g.types[ti]
			ti++
			g.k(name)
			g.s("::=")
			t := g.typ(g.cfg.Depth, true)
			m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(name), Type: t})
			if k := g.scalarKind(t); k >= 0 {
				g.scalar[k] = append(g.scalar[k], name)
			}
			continue
		}
		name, kind := valNames[vi], valKind[vi]
		vi++
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, g.valueAssignment(name, kind))
	}
	g.k("END")
	return &m
}

// scalarKind tells which kind of scalar a type is, as far as it is known by now.
func (g *gen) scalarKind(t asn1go.Type) int {
	switch t := bare(t).(type) {
	case asn1go.IntegerType:
		return 0
	case asn1go.BooleanType:
		return 1
	case asn1go.RealType:
		return 2
	case asn1go.TypeReference:
		for k, l := range g.scalar {
			for _, n := range l {
				if n == t.Name() {
					return k
				}
			}
		}
	}
	return -1
}

// valueType writes the type of a value: a plain one or a declared name for it.
func (g *gen) valueType(kind int, word string, plain asn1go.Type) asn1go.Type {
	if l := g.scalar[kind]; len(l) > 0 && g.P(1, 3) {
		n := l[g.N(len(l))]
		g.k(n)
		return g.maybeConstrained(asn1go.TypeReference(n), 0)
	}
	g.k(word)
	if kind == 1 {
		return plain
	}
	return g.maybeConstrained(plain, 0)
}

func (g *gen) valueAssignment(name string, kind int) asn1go.ValueAssignment {
	defer g.Span()()
	a := asn1go.ValueAssignment{ValueReference: asn1go.ValueReference(name)}
	g.k(name)
	switch kind {
	case 0:
		a.Type = g.valueType(0, "INTEGER", asn1go.IntegerType{})
		g.s("::=")
		a.Value = g.signed()
	case 1:
		a.Type = g.valueType(1, "BOOLEAN", asn1go.BooleanType{})
		g.s("::=")
		b := g.P(1, 2)
		a.Value = asn1go.Boolean(b)
		if b {
			g.k("TRUE")
		} else {
			g.k("FALSE")
		}
	case 2:
		a.Type = g.valueType(2, "REAL", asn1go.RealType{})
		g.s("::=")
		if g.P(1, 4) {
			a.Value = g.signed()
		} else {
			a.Value = g.real()
		}
	case 3:
		g.k("OBJECT", "IDENTIFIER")
		a.Type = asn1go.ObjectIdentifierType{}
		g.s("::=")
		a.Value = g.oidValue()
	case 4:
		g.k("INTEGER")
		a.Type = asn1go.IntegerType{}
		g.s("::=")
		v := g.lower()
		g.k(v)
		a.Value = asn1go.IdentifiedIntegerValue{Name: v}
	default:
		if g.cfg.Translatable {
			g.s("[")
			n := g.N(30)
			g.num(n)
			g.s("]")
			g.k("INTEGER")
			a.Type = asn1go.TaggedType{Tag: asn1go.Tag{ClassNumber: asn1go.Number(n)}, Type: asn1go.IntegerType{}}
			g.s("::=")
			a.Value = g.signed()
		} else {
			a.Type = g.typ(1, false)
			g.s("::=")
			a.Value = g.value()
		}
	}
	return a
}

// text is a module as written, with the tree it stands for.
type text struct {
	b      []byte
	starts []int // offset of each token
	end    int   // offset just after the closing keyword
	mod    *asn1go.ModuleDefinition
	toks   []token
	tr     bool // the generator supports it
}

func (x *text) String() string { return fmt.Sprintf("%q", x.b) }
