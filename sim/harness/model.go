package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	gotoken "go/token"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/chemikadze/asn1go"
)

// The reference model: what a translatable module has to become. It works on
// the tree and says, in a canonical notation, which declarations are expected.

// decl is one declared name.
type decl struct {
	Kind  string // "type", "alias" or "var"
	Name  string
	Type  string
	Value string
}

func (d decl) String() string {
	if d.Kind == "var" {
		return fmt.Sprintf("var %s %s = %s", d.Name, d.Type, d.Value)
	}
	return fmt.Sprintf("%s %s %s", d.Kind, d.Name, d.Type)
}

type model struct {
	m       *asn1go.ModuleDefinition
	big     bool
	types   map[string]asn1go.Type
	imports map[string]bool
}

func goName(s string) string {
	s = strings.Replace(s, "-", "_", -1)
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func newModel(m *asn1go.ModuleDefinition, p asn1go.GenParams) *model {
	x := &model{m: m, big: p.IntegerRepr == asn1go.IntegerReprBigInt, types: map[string]asn1go.Type{}, imports: map[string]bool{}}
	for _, a := range m.ModuleBody.AssignmentList {
		if t, ok := a.(asn1go.TypeAssignment); ok {
			x.types[t.TypeReference.Name()] = t.Type
		}
	}
	return x
}

// bare removes tags and constraints.
func bare(t asn1go.Type) asn1go.Type {
	for {
		switch x := t.(type) {
		case asn1go.TaggedType:
			t = x.Type
		case asn1go.ConstraintedType:
			t = x.Type
		default:
			return t
		}
	}
}

// leaf follows references to the type they finally name. The name is that of
// the last reference; the type is nil if there is no definition.
func (x *model) leaf(t asn1go.Type) (asn1go.Type, string) {
	name := ""
	for i := 0; i < len(x.types)+2; i++ {
		t = bare(t)
		r, ok := t.(asn1go.TypeReference)
		if !ok {
			return t, name
		}
		name = r.Name()
		d, ok := x.types[name]
		if !ok {
			return nil, name
		}
		t = d
	}
	return nil, name
}

// goType returns the documented Go type; set tells whether it is a SET or SET OF.
func (x *model) goType(t asn1go.Type) (s string, set bool) {
	switch t := t.(type) {
	case asn1go.TaggedType:
		return x.goType(t.Type)
	case asn1go.ConstraintedType:
		return x.goType(t.Type)
	case asn1go.NamedType:
		return x.goType(t.Type)
	case asn1go.BooleanType:
		return "bool", false
	case asn1go.IntegerType:
		if x.big {
			x.imports["math/big"] = true
			return "*big.Int", false
		}
		return "int64", false
	case asn1go.RealType:
		return "float64", false
	case asn1go.CharacterStringType, asn1go.RestrictedStringType:
		return "string", false
	case asn1go.OctetStringType:
		return "[]byte", false
	case asn1go.BitStringType:
		x.imports["encoding/asn1"] = true
		return "asn1.BitString", false
	case asn1go.EnumeratedType:
		x.imports["encoding/asn1"] = true
		return "asn1.Enumerated", false
	case asn1go.ObjectIdentifierType:
		x.imports["encoding/asn1"] = true
		return "asn1.ObjectIdentifier", false
	case asn1go.AnyType:
		return "interface{}", false
	case asn1go.SequenceOfType:
		e, _ := x.goType(t.Type)
		return "[]" + e, false
	case asn1go.SetOfType:
		e, _ := x.goType(t.Type)
		return "[]" + e, true
	case asn1go.SequenceType:
		return x.structOf(t.Components, t.ExtensionAdditions), false
	case asn1go.SetType:
		return x.structOf(t.Components, t.ExtensionAdditions), true
	case asn1go.ChoiceType:
		for _, a := range t.AlternativeTypeList {
			if x.carriesTag(a.Type, 0) {
				x.imports["encoding/asn1"] = true
				return "asn1.RawValue", false
			}
		}
		if len(t.AlternativeTypeList) == 1 {
			return x.goType(t.AlternativeTypeList[0].Type)
		}
		return "interface{}", false
	case asn1go.TypeReference:
		l, name := x.leaf(t)
		if l == nil && name == "GeneralizedTime" {
			x.imports["time"] = true
			return "time.Time", false
		}
		if _, ok := l.(asn1go.BitStringType); ok {
			x.imports["encoding/asn1"] = true
			return "asn1.BitString", false
		}
		return goName(t.Name()), false
	}
	bug("model: type %T", t)
	return
}

// carriesTag tells whether an alternative of a CHOICE is tagged: by itself, or
// because the type it refers to is, once references are followed to their leaf.
func (x *model) carriesTag(t asn1go.Type, depth int) bool {
	switch t := t.(type) {
	case asn1go.TaggedType:
		return true
	case asn1go.ConstraintedType:
		return x.carriesTag(t.Type, depth)
	case asn1go.TypeReference:
		// follow to the last assignment in the chain
		name := t.Name()
		for i := 0; i < len(x.types)+1; i++ {
			d, ok := x.types[name]
			if !ok {
				// useful types are tagged types; only if named directly they count as what they are
				return name == "GeneralizedTime" && i > 0
			}
			r, ok := bare(d).(asn1go.TypeReference)
			if !ok {
				return x.carriesTag(d, depth+1)
			}
			name = r.Name()
		}
	}
	return false
}

func (x *model) structOf(c asn1go.ComponentTypeList, e asn1go.ExtensionAdditions) string {
	var fields []string
	add := func(c interface{}) {
		n, ok := c.(asn1go.NamedComponentType)
		if !ok {
			bug("model: component %T", c)
		}
		t, _ := x.goType(n.NamedType.Type)
		fields = append(fields, goName(string(n.NamedType.Identifier))+" "+t+" "+x.tag(n))
	}
	for _, f := range c {
		add(f)
	}
	for _, f := range e {
		add(f)
	}
	return "struct{" + strings.Join(fields, "; ") + "}"
}

// tag returns the encoding tags of a component, sorted.
func (x *model) tag(n asn1go.NamedComponentType) string {
	var l []string
	if n.IsOptional || n.Default != nil {
		l = append(l, "optional")
	}
	if n.Default != nil {
		if v, ok := (*n.Default).(asn1go.Number); ok {
			l = append(l, "default:"+strconv.Itoa(int(v)))
		}
	}
	t := n.NamedType.Type
	for {
		if c, ok := t.(asn1go.ConstraintedType); ok {
			t = c.Type
			continue
		}
		tt, ok := t.(asn1go.TaggedType)
		if !ok {
			break
		}
		switch tt.Tag.Class {
		case asn1go.CLASS_APPLICATION:
			l = append(l, "application")
		case asn1go.CLASS_PRIVATE:
			l = append(l, "private")
		}
		kind := x.m.TagDefault
		if tt.HasTagType {
			kind = tt.TagType
		}
		if kind == asn1go.TAGS_EXPLICIT {
			l = append(l, "explicit")
		}
		l = append(l, "tag:"+strconv.Itoa(int(tt.Tag.ClassNumber.(asn1go.Number))))
		t = tt.Type
	}
	switch s := t.(type) {
	case asn1go.RestrictedStringType:
		switch s.LexType {
		case asn1go.IA5String:
			l = append(l, "ia5")
		case asn1go.UTF8String:
			l = append(l, "utf8")
		case asn1go.NumericString:
			l = append(l, "numeric")
		}
	case asn1go.SetType, asn1go.SetOfType:
		l = append(l, "set")
	case asn1go.TypeReference:
		if lf, name := x.leaf(s); lf == nil && name == "GeneralizedTime" {
			l = append(l, "generalized")
		}
	}
	sort.Strings(l)
	return "`" + strings.Join(l, ",") + "`"
}

func (x *model) number(n asn1go.Number, asBig bool) string {
	s := strconv.Itoa(int(n))
	if asBig {
		return "big.NewInt(" + s + ")"
	}
	return s
}

// decls returns the expected declarations in order.
func (x *model) decls() []decl {
	var out []decl
	for _, a := range x.m.ModuleBody.AssignmentList {
		switch a := a.(type) {
		case asn1go.TypeAssignment:
			name := goName(a.TypeReference.Name())
			t, set := x.goType(a.Type)
			kind := "alias"
			if strings.HasPrefix(t, "struct{") {
				kind = "type"
			}
			if set {
				out = append(out, decl{"type", name + "SET", t, ""}, decl{"alias", name, name + "SET", ""})
			} else {
				out = append(out, decl{kind, name, t, ""})
			}
			if i, ok := bare(a.Type).(asn1go.IntegerType); ok {
				for _, nn := range i.NamedNumberList {
					v := ""
					switch n := nn.Value.(type) {
					case asn1go.Number:
						v = x.number(n, x.big)
					case asn1go.DefinedValue:
						v = "Val" + goName(string(n.ValueName))
					}
					out = append(out, decl{"var", name + "Val" + goName(string(nn.Name)), name, v})
				}
			}
		case asn1go.ValueAssignment:
			v := ""
			switch n := a.Value.(type) {
			case asn1go.Number:
				l, _ := x.leaf(a.Type)
				_, real := l.(asn1go.RealType)
				v = x.number(n, x.big && !real)
			case asn1go.Boolean:
				v = strconv.FormatBool(bool(n))
			case asn1go.Real:
				v = "real " + strconv.FormatUint(math.Float64bits(float64(n)), 16)
				if math.IsInf(float64(n), 1) {
					v = "math.Inf(1)"
				} else if math.IsInf(float64(n), -1) {
					v = "math.Inf(-1)"
				}
				if math.IsInf(float64(n), 0) {
					x.imports["math"] = true
				}
			default:
				continue // not a literal
			}
			t, _ := x.goType(a.Type)
			out = append(out, decl{"var", "Val" + goName(string(a.ValueReference)), t, v})
		}
	}
	return out
}

// source is generated Go code, read back.
type source struct {
	pkg     string
	decls   []decl
	imports []string
	used    map[string]bool // package names used in selectors
}

// readSource parses generated code into the model's notation.
func readSource(b []byte) (*source, error) {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	s := &source{pkg: f.Name.Name, used: map[string]bool{}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				s.used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("unexpected declaration %T", d)
		}
		for _, sp := range g.Specs {
			switch sp := sp.(type) {
			case *ast.ImportSpec:
				p, _ := strconv.Unquote(sp.Path.Value)
				if sp.Name != nil {
					p = sp.Name.Name + " " + p
				}
				s.imports = append(s.imports, p)
			case *ast.TypeSpec:
				kind := "type"
				if sp.Assign != gotoken.NoPos {
					kind = "alias"
				}
				s.decls = append(s.decls, decl{kind, sp.Name.Name, exprString(sp.Type), ""})
			case *ast.ValueSpec:
				if g.Tok != gotoken.VAR || len(sp.Names) != len(sp.Values) {
					return nil, fmt.Errorf("unexpected value declaration of %v", sp.Names[0])
				}
				for i, n := range sp.Names {
					t := ""
					if sp.Type != nil {
						t = exprString(sp.Type)
					}
					s.decls = append(s.decls, decl{"var", n.Name, t, valueString(sp.Values[i], t)})
				}
			}
		}
	}
	return s, nil
}

func exprString(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return exprString(e.X) + "." + e.Sel.Name
	case *ast.StarExpr:
		return "*" + exprString(e.X)
	case *ast.ParenExpr:
		return exprString(e.X)
	case *ast.ArrayType:
		if e.Len != nil {
			return "[?]" + exprString(e.Elt)
		}
		return "[]" + exprString(e.Elt)
	case *ast.InterfaceType:
		if e.Methods != nil && len(e.Methods.List) > 0 {
			return "interface{?}"
		}
		return "interface{}"
	case *ast.StructType:
		var l []string
		for _, f := range e.Fields.List {
			tag := ""
			if f.Tag != nil {
				raw, _ := strconv.Unquote(f.Tag.Value)
				tag = raw
				if strings.HasPrefix(raw, `asn1:"`) && strings.HasSuffix(raw, `"`) {
					c := strings.Split(raw[6:len(raw)-1], ",")
					sort.Strings(c)
					tag = strings.Join(c, ",")
				}
			}
			t := exprString(f.Type)
			for _, n := range f.Names {
				l = append(l, n.Name+" "+t+" `"+tag+"`")
			}
			if len(f.Names) == 0 {
				l = append(l, "(embedded) "+t)
			}
		}
		return "struct{" + strings.Join(l, "; ") + "}"
	}
	return fmt.Sprintf("<%T>", e)
}

func valueString(e ast.Expr, typ string) string {
	neg := ""
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == gotoken.SUB {
		neg = "-"
		e = u.X
	}
	switch e := e.(type) {
	case *ast.BasicLit:
		return neg + e.Value
	case *ast.Ident:
		return neg + e.Name
	case *ast.CallExpr:
		var l []string
		for _, a := range e.Args {
			l = append(l, valueString(a, ""))
		}
		return neg + exprString(e.Fun) + "(" + strings.Join(l, ", ") + ")"
	case *ast.SelectorExpr:
		return neg + exprString(e)
	}
	return fmt.Sprintf("<%T>", e)
}

// sameDecl compares a declaration with the expected one; reals are compared by value.
func sameDecl(got, want decl) bool {
	if strings.HasPrefix(want.Value, "real ") {
		bits, _ := strconv.ParseUint(want.Value[5:], 16, 64)
		v, err := strconv.ParseFloat(got.Value, 64)
		if err != nil || v != math.Float64frombits(bits) {
			return false
		}
		got.Value = want.Value
	}
	return got == want
}

// compareSource checks generated code against the model; empty if it agrees.
func compareSource(b []byte, m *asn1go.ModuleDefinition, p asn1go.GenParams) string {
	s, err := readSource(b)
	if err != nil {
		return fmt.Sprintf("not a Go source file: %v", err)
	}
	x := newModel(m, p)
	want := x.decls()
	pkg := p.Package
	if pkg == "" {
		pkg = goName(m.ModuleIdentifier.Reference)
	}
	if s.pkg != pkg {
		return fmt.Sprintf("package %s, want %s", s.pkg, pkg)
	}
	for i := 0; i < len(want) || i < len(s.decls); i++ {
		switch {
		case i >= len(s.decls):
			return fmt.Sprintf("missing: %v", want[i])
		case i >= len(want):
			return fmt.Sprintf("unexpected: %v", s.decls[i])
		case !sameDecl(s.decls[i], want[i]):
			return fmt.Sprintf("declaration %d: %s", i, diff(s.decls[i].String(), want[i].String()))
		}
	}
	seen := map[string]bool{}
	for _, i := range s.imports {
		if seen[i] {
			return fmt.Sprintf("%q is imported twice", i)
		}
		seen[i] = true
		if !x.imports[i] {
			return fmt.Sprintf("%q is imported but not used", i)
		}
	}
	for i := range x.imports {
		if !seen[i] {
			return fmt.Sprintf("%q is used but not imported", i)
		}
	}
	return ""
}
