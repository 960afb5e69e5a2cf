package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/chemikadze/asn1go"
)

// dump writes a tree in a canonical form: empty and missing lists are the same,
// pointers are followed, and numbers are exact.
func dump(x interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 10000 {
		b.WriteString("<too deep>")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if isEmpty(f) {
				continue
			}
			if !first {
				b.WriteString(" ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpValue(b, f, depth+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if n := v.Type().Name(); n != "" {
			b.WriteString(n)
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			dumpValue(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.String:
		name(b, v)
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		name(b, v)
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		name(b, v)
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Float64, reflect.Float32:
		name(b, v)
		fmt.Fprintf(b, "%v/%x", v.Float(), math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(b, "<%v>", v.Kind())
	}
}

func name(b *strings.Builder, v reflect.Value) {
	if n := v.Type().Name(); n != "int" && n != "string" && n != "bool" {
		b.WriteString(n + " ")
	}
}

// isEmpty tells whether a field says nothing (nil and empty lists are alike).
func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !isEmpty(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Int:
		return v.Int() == 0
	case reflect.Bool:
		return !v.Bool()
	}
	return false
}

// outcome is the result of a parse as its caller sees it.
type outcome struct {
	o   Outcome
	mod *asn1go.ModuleDefinition
	err error
}

func (o outcome) key() string {
	switch {
	case o.o.Over:
		return "does not end"
	case o.o.Panic != "":
		return "panic: " + o.o.Panic
	case o.mod == nil && o.err == nil:
		return "neither module nor error"
	case o.mod != nil && o.err != nil:
		return "module and error " + o.err.Error()
	case o.err != nil:
		return "error: " + o.err.Error()
	}
	return "module: " + dump(o.mod)
}

func (o outcome) short() string { return cut(o.key(), 160) }

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// diff shows where two strings part.
func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	end := func(s string) string {
		s = s[lo:]
		return cut(s, 200)
	}
	return fmt.Sprintf("got ...%s\nwant ...%s", end(got), end(want))
}

func budgetFor(n int) uint64 { return 300000 + 600*uint64(n) }
