package main

import (
	"bytes"
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C25", Quick: 160000, Thorough: 2500000, Chunk: 400,
		Rule:   "distinct (damaged text, delivery schedule) pairs; measure: hash of the text and of the read schedule",
		Real:   "ParseStream: lexer, grammar actions (instrumented)",
		Stub:   "io.Reader (scripted); the reference is a parser of its own (ref.go), written from the supported notation",
		Assume: []string{"the supported notation is that of the grammar; not settled, and accepted either way: letters beyond ASCII outside comments, a word with two hyphens, numbers beyond 64 bits, white space in real numbers, extension markers in enumerations, a second extension marker in a list that is not empty, additions without a root, an import without an assigned identifier before another one"},
		Run:    runC25})
}

var symbols = []string{"::=", "...", "..", "[[", "]]", "[", "]", "{", "}", "(", ")", "<", ">", ",", ".", "-", ":", "=", "\"", "'", ";", "@", "|", "!", "^"}

// anyToken draws a token that could be anywhere.
func anyToken(t *T) token {
	switch t.W(3, 4, 1, 1, 1) {
	case 0:
		return token{reservedWords[t.N(len(reservedWords))], tWord}
	case 1:
		return token{symbols[t.N(len(symbols))], tSym}
	case 2:
		return token{upperWords[t.N(len(upperWords))] + "X", tWord}
	case 3:
		return token{lowerWords[t.N(len(lowerWords))], tWord}
	}
	if t.P(1, 4) {
		return token{[]string{"1.5", "2e3", "0.5E-1"}[t.N(3)], tReal}
	}
	return token{fmt.Sprint(t.N(300)), tNumber}
}

// lookAlikes and strays are what editors, mail programs and printers put into texts.
var lookAlikes = [][2]string{{"-", "\u2010"}, {"-", "\u2013"}, {"-", "\u00ad"}, {"-", "\u2212"}, {":", "\uff1a"}, {"=", "\uff1d"}, {",", "\u201a"}, {",", "\uff0c"}, {";", "\u037e"}, {"...", "\u2026"}, {"..", "\u2025"},
	{"(", "\uff08"}, {"{", "\uff5b"}, {"|", "\u00a6"}, {"'", "\u2019"}, {"\"", "\u201c"}, {"1", "\u0661"}, {"2", "\uff12"}, {"0", "\u0660"}, {"3", "\u00b3"}, {"5", "\u0665"}, {"1", "\u00b9"}, {"4", "\u096a"}, {"A", "\u0410"}, {"E", "\u0395"}, {"I", "\u2160"}, {"a", "\u0430"}}
var strays = []string{"\u00a0", "\ufeff", "\u200b", "\u0085", "\u2028", "\u3000", "\u00ad", "\x00", "\x1a", "\x04", "\x7f", "\x1b", "\x08", "\xff", "\xc3", "\u00bd", "\u2019", "\u0300", "\u0661", "\x1c", "\x1f", "`", "$", "%", "~", "?", "\\", "\""}

// misspell changes a word, number or symbol a little.
func misspell(t *T, s string) string {
	at := t.N(len(s))
	switch t.N(11) {
	case 9: // what some editors make of it
		r := lookAlikes[t.N(len(lookAlikes))]
		return strings.Replace(s, r[0], r[1], 1+t.N(2))
	case 10:
		x := strays[t.N(len(strays))]
		return []string{x + s, s + x, s[:at] + x + s[at:], x}[t.N(4)]
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
	case 3:
		return strings.Replace(s, "-", []string{"_", "", " ", " - "}[t.N(4)], 1)
	case 4:
		return s + []string{"-", "_", "s", "S", "1", ".", "'", ":", "="}[t.N(9)]
	case 5:
		return s[:at] + s[at:at+1] + s[at:]
	case 6:
		return s[:at] + " " + s[at:]
	case 7:
		if len(s) == 1 {
			return s
		}
		return s[:at] + s[at+1:]
	}
	return []string{"-", "0", "_", "&", "\\", "+", "#"}[t.N(7)] + s
}

// editTokens loses, repeats, swaps, replaces and inserts tokens.
func editTokens(t *T, l []token) []token {
	l = append([]token(nil), l...)
	for i, n := 0, 1+t.W(5, 2, 1); i < n && len(l) > 0; i++ {
		at := t.N(len(l))
		to := at + 1
		if t.P(1, 4) {
			to += t.N(6)
		}
		if to > len(l) {
			to = len(l)
		}
		rest := append([]token(nil), l[to:]...)
		part := append([]token(nil), l[at:to]...)
		switch t.W(3, 2, 2, 4, 3, 2, 2) {
		case 0:
			t.Count("fault:lost tokens")
			l = append(l[:at], rest...)
		case 1:
			t.Count("fault:repeated tokens")
			l = append(append(l[:to], part...), rest...)
		case 2:
			t.Count("fault:swapped tokens")
			if len(rest) > 0 {
				l = append(append(append(l[:at], rest[0]), part...), rest[1:]...)
			}
		case 3:
			t.Count("fault:replaced token")
			l = append(append(l[:at], anyToken(t)), rest...)
		case 4:
			t.Count("fault:inserted token")
			l = append(append(append(l[:at], anyToken(t)), part...), rest...)
		case 6:
			t.Count("fault:misspelt token")
			l = append(append(l[:at], token{misspell(t, part[0].s), part[0].kind}), append(part[1:], rest...)...)
		default:
			t.Count("fault:moved tokens")
			l = append(l[:at], rest...)
			if len(l) > 0 {
				p := t.N(len(l))
				l = append(l[:p:p], append(part, l[p:]...)...)
			}
		}
	}
	return l
}

// transport splits a text into segments and loses, repeats and reorders some.
func transport(t *T, b []byte) []byte {
	var l [][]byte
	size := []int{0, 1, 4, 16, 64, 512, 4096}[t.W(3, 1, 1, 2, 2, 1, 1)]
	for rest := b; len(rest) > 0; {
		n := size
		if size == 0 { // lines
			n = bytes.IndexByte(rest, '\n') + 1
			if n == 0 {
				n = len(rest)
			}
		}
		if n > len(rest) {
			n = len(rest)
		}
		l, rest = append(l, rest[:n]), rest[n:]
	}
	for i, n := 0, t.Range(1, 3); i < n && len(l) > 0; i++ {
		at := t.N(len(l))
		switch t.W(2, 2, 2) {
		case 0:
			t.Count("fault:lost segment")
			l = append(l[:at:at], l[at+1:]...)
		case 1:
			t.Count("fault:repeated segment")
			to := at + t.N(len(l)-at)
			l = append(l[:to:to], append([][]byte{l[at]}, l[to:]...)...)
		default:
			t.Count("fault:reordered segments")
			q := t.N(len(l))
			l[at], l[q] = l[q], l[at]
		}
	}
	return bytes.Join(l, nil)
}

// delimiters damages the marks that begin and end comments, or puts some where there are none.
func delimiters(t *T, b []byte, starts []int) []byte {
	marks := []string{"/*", "*/", "--", "/", "*", "-", "//", "/**/", "/*/", "*/ /*", "---"}
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		var at []int
		for j := 0; j+1 < len(b); j++ {
			if m := string(b[j : j+2]); m == "/*" || m == "*/" || m == "--" {
				at = append(at, j)
			}
		}
		if len(at) > 0 && t.P(2, 3) {
			j := at[t.N(len(at))]
			k := j + t.N(2)
			switch t.N(4) {
			case 0:
				b = append(b[:k:k], b[k+1:]...)
			case 1:
				b = append(b[:j+1:j+1], append([]byte{" \n-*/x"[t.N(6)]}, b[j+1:]...)...)
			case 2:
				b = append(b[:k:k], append([]byte{"*/- x"[t.N(5)]}, b[k+1:]...)...)
			default:
				b = append(b[:j:j], b[j+2:]...)
			}
			t.Count("fault:damaged comment delimiter")
			continue
		}
		j := t.N(len(b) + 1)
		if len(starts) > 0 && t.P(3, 4) {
			j = starts[t.N(len(starts))]
		}
		if j > len(b) {
			j = len(b)
		}
		m := marks[t.N(len(marks))]
		if t.P(1, 2) {
			m += " "
		}
		b = append(b[:j:j], append([]byte(m), b[j:]...)...)
		t.Count("fault:stray comment delimiter")
	}
	return b
}

// damaged draws a text that was a module once.
func damaged(t *T) (b []byte, starts []int) {
	cfg := modcfg(t.Tape, false)
	g := &gen{Tape: t.On(forModules), cfg: cfg}
	g.module()
	toks := g.toks
	kind := t.W(5, 2, 3, 2, 1, 2)
	switch kind {
	case 0:
		toks = editTokens(t, toks)
	case 3: // more than one module, or something before or after
		var more []token
		switch t.W(2, 2) {
		case 0:
			for i, n := 0, t.Range(1, 4); i < n; i++ {
				more = append(more, anyToken(t))
			}
		default:
			h := &gen{Tape: t.On(forModules), cfg: cfg}
			h.module()
			more = h.toks
		}
		if t.P(1, 6) {
			toks = append(more, toks...)
			t.Count("fault:something before the module")
		} else {
			toks = append(toks[:len(toks):len(toks)], more...)
			t.Count("fault:something after the module")
		}
	case 4: // parts of two modules
		h := &gen{Tape: t.On(forModules), cfg: cfg}
		h.module()
		t.Count("fault:two modules mixed")
		n, m := t.N(len(toks)), t.N(len(h.toks))
		toks = append(toks[:n:n], h.toks[m:]...)
	}
	x := render(t.On(forLayout), toks)
	switch kind {
	case 1:
		return corrupt(t, x.b, x.starts), x.starts
	case 2:
		return transport(t, x.b), x.starts
	case 5:
		return delimiters(t, x.b, x.starts), x.starts
	}
	return x.b, x.starts
}

func runC25(t *T) {
	var b []byte
	var starts []int
	if t.P(1, 12) { // not damaged at all: the reference has to know it
		x := wellFormed(t.Tape, modcfg(t.Tape, false))
		b, starts = x.b, x.starts
		m, why, open := refParse(b)
		if m == nil || dump(*m) != dump(*x.mod) {
			bug("the reference parser: %s%s: %q", why, open, b)
		}
		t.Count("input:not damaged")
	} else {
		b, starts = damaged(t)
	}
	starts = fitStarts(starts, len(b))
	b, starts, _, _ = enlarge(t, b, starts)
	t.Ev("text, %d bytes: %s", len(b), cut(fmt.Sprintf("%q", b), 300))
	t.Mark(string(b))
	t.Count("size:" + sizeClass(len(b)))
	d := drawDelivery(t.Tape, len(b), starts)
	t.Mark(d.String())
	m, why, open := refParse(b)
	if open != "" {
		t.Count("not settled: " + open)
		return
	}
	t.Nontrivial = true
	r := newReader(t, b, d)
	r.dress(t)
	o := t.parse(r)
	t.Ev("reference: %v; delivery %s: %d reads, %v", why, d, r.n, o.short())
	if r.short {
		t.Count("short:read")
	}
	got := o.key()
	switch {
	case o.o.Over || o.o.Panic != "":
		t.Fail("no result", "%q (delivery %s), %s: %s", cut(string(b), 3000), d, map[bool]string{true: "a module", false: "no module: " + why}[m != nil], cut(got, 1000))
	case m == nil:
		t.Count("no module")
		if o.err == nil || o.mod != nil {
			t.Fail("accepted", "%q (delivery %s) is no module: %s; %s", cut(string(b), 3000), d, why, cut(got, 1000))
		}
	case o.err != nil:
		t.Count("a module")
		t.Fail("rejected", "%q (delivery %s) is a module: %v", cut(string(b), 3000), d, o.err)
	default:
		t.Count("a module")
		if want := "module: &" + dump(*m); got != want {
			t.Fail("different tree", "%q (delivery %s): %s", cut(string(b), 3000), d, diff(got, want))
		}
	}
}
