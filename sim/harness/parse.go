package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"asn1sim/simkernel"

	"github.com/chemikadze/asn1go"
)

// parse runs ParseStream on a simulated reader.
func (t *T) parse(r *simReader) (res outcome) {
	var from io.Reader = r
	if r.as != nil {
		from = r.as
	}
	res.o = t.guard(budgetFor(len(r.data)), func() {
		res.mod, res.err = asn1go.ParseStream(from)
	})
	t.Sim += r.now
	return
}

func (t *T) parseString(s string) (res outcome) {
	res.o = t.guard(budgetFor(len(s)), func() {
		res.mod, res.err = asn1go.ParseString(s)
	})
	return
}

// parseFile runs ParseFile on a simulated kernel.
func (t *T) parseFile(name string, k *simkernel.Kernel, size int) (res outcome) {
	simkernel.Install(k)
	defer simkernel.Install(nil)
	res.o = t.guard(budgetFor(size), func() {
		res.mod, res.err = asn1go.ParseFile(name)
	})
	t.Sim += k.Now
	return
}

func (t *T) lats() []int64 {
	var l []int64
	for i, k := 0, t.Range(1, 4); i < k; i++ {
		l = append(l, int64(t.N(1<<uint(t.N(31)))))
	}
	return l
}

// modcfg draws what kind of module to write.
func modcfg(t *Tape, tr bool) gcfg {
	c := gcfg{Translatable: tr, Tags: -1, MaxTypes: 3, MaxValues: 2, Depth: 2}
	switch t.W(4, 3, 1) {
	case 1:
		c.MaxTypes, c.MaxValues, c.Depth = 6, 4, 3
	case 2:
		c.MaxTypes, c.MaxValues, c.Depth = 12, 8, 4
	}
	if t.P(1, 400) {
		c.MaxTypes, c.MaxValues, c.Depth, c.Budget = 150, 60, 3, 2000
	}
	return c
}

// wellFormed writes a module with a random layout.
func wellFormed(t *Tape, cfg gcfg) *text {
	g := &gen{Tape: t.On(forModules), cfg: cfg}
	mod := g.module()
	x := render(t.On(forLayout), g.toks)
	x.mod, x.tr = mod, cfg.Translatable
	return x
}

// soup is text that was never a module.
var soupWords = []string{"::=", "::", ":", ":=", "...", "..", ".", "[[", "]]", "[", "]", "{", "}", "(", ")", "--", "-", "/*", "*/", "/", "*", "<", ">", ",", ";", "@", "|", "!", "^", "=", "\"", "'", " ", "\n", "\r\n", "\t",
	"1", "10", "1.5", "1e5", "1.e", "99999999999999999999999", "a", "A", "foo-bar", "foo-", "a--b", "BEGIN", "END", "DEFINITIONS", "INTEGER", "SEQUENCE", "OF", "é", "日本", "\xff", "\xe6\x97", "\xf0\x9f", "\x00", "#", "$", "_", "٣", "ℝ", "𝒳", "\ufeff", "ǅ", "ª"}

func soup(t *Tape) []byte {
	var b []byte
	for i, n := 0, t.Range(0, 30); i < n; i++ {
		if t.P(1, 12) {
			b = append(b, byte(t.N(256)))
			continue
		}
		b = append(b, soupWords[t.N(len(soupWords))]...)
	}
	return b
}

// corrupt damages text the way storage and transport do.
func corrupt(t *T, b []byte, starts []int) []byte {
	b = append([]byte(nil), b...)
	pick := func() int {
		if len(starts) > 0 && t.P(1, 2) {
			p := starts[t.N(len(starts))] + t.Range(-1, 2)
			if p >= 0 && p < len(b) {
				return p
			}
		}
		return t.N(len(b))
	}
	for i, n := 0, t.Range(1, 4); i < n && len(b) > 0; i++ {
		at := pick()
		switch t.W(3, 2, 2, 2, 2, 2, 1, 1) {
		case 0: // flipped bit
			b[at] ^= 1 << uint(t.N(8))
			t.Count("fault:bit flip")
		case 1: // lost bytes
			end := at + t.Range(1, 20)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at], b[end:]...)
			t.Count("fault:lost bytes")
		case 2: // torn off
			b = b[:at]
			t.Count("fault:truncation")
		case 3: // duplicated range
			end := at + t.Range(1, 60)
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:end:end], b[at:]...)
			t.Count("fault:duplicated range")
		case 4: // foreign bytes
			b = append(b[:at:at], append([]byte(soupWords[t.N(len(soupWords))]), b[at:]...)...)
			t.Count("fault:inserted bytes")
		case 5: // a stale block
			from := t.N(len(b))
			n := t.Range(1, 64)
			for j := 0; j < n && at+j < len(b) && from+j < len(b); j++ {
				b[at+j] = b[from+j]
			}
			t.Count("fault:misdirected block")
		case 6: // a block of zeros
			for j := 0; j < 64 && at+j < len(b); j++ {
				b[at+j] = 0
			}
			t.Count("fault:zeroed block")
		default: // two ranges swapped
			p, q := at, pick()
			for j := 0; j < 16 && p+j < len(b) && q+j < len(b); j++ {
				b[p+j], b[q+j] = b[q+j], b[p+j]
			}
			t.Count("fault:reordered blocks")
		}
	}
	return b
}

// anyText draws any input; well tells whether it is a well-formed module.
func anyText(t *T) (b []byte, starts []int, kind string) {
	switch t.W(5, 4, 1, 1) {
	case 0:
		x := wellFormed(t.Tape, modcfg(t.Tape, false))
		return x.b, x.starts, "well-formed"
	case 1:
		x := wellFormed(t.Tape, modcfg(t.Tape, false))
		return corrupt(t, x.b, x.starts), x.starts, "corrupted"
	case 2:
		return soup(t.Tape), nil, "soup"
	default: // soup where a definition should be
		b := []byte("M DEFINITIONS ::= BEGIN ")
		if t.P(1, 2) {
			b = append(b, "A ::= INTEGER "...)
		}
		b = append(b, soup(t.Tape)...)
		return append(b, " END"...), nil, "soup in a module"
	}
}

func fitStarts(starts []int, n int) []int {
	var out []int
	for _, s := range starts {
		if s < n {
			out = append(out, s)
		}
	}
	return out
}

func sizeClass(n int) string {
	switch {
	case n < 256:
		return "<256"
	case n < 4096:
		return "<4096"
	case n < 65536:
		return "<65536"
	}
	return ">=65536"
}

func readsPlan(t *Tape) []int {
	var l []int
	switch t.W(2, 2, 2, 2) {
	case 1:
		l = []int{t.Range(1, 9)}
	case 2:
		l = []int{1, 0, 2, 4096, 3}
	case 3:
		for i, n := 0, t.Range(1, 6); i < n; i++ {
			l = append(l, t.N(5000))
		}
	}
	nonzero := false
	for _, x := range l {
		nonzero = nonzero || x > 0
	}
	if !nonzero {
		return nil
	}
	return l
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 60000, Thorough: 2500000, Chunk: 400,
		Rule: "distinct (input text, delivery schedule) pairs in which at least one read is short or empty or the end of input comes with data; measure: hash of the text and of the read schedule",
		Real: "ParseStream, ParseString, ParseFile: lexer, look-ahead, grammar actions, sticky reader (all of parser.go, lexer.go, y.go, instrumented)",
		Stub: "io.Reader (scripted), operating system files (simulated kernel behind package syscall), clock",
		Assume: []string{"readers keep the io.Reader contract", "runs of empty reads are at most 5 long (a parser may give up on a reader that never progresses)",
			"the Go standard library's bufio and strings packages"},
		Run: runC01})
	register(&Prop{
		ID: "C02", Quick: 120000, Thorough: 2500000, Chunk: 400,
		Rule: "distinct (module text, delivery schedule) pairs with at least one assignment; measure: hash of the text and of the read schedule",
		Real: "ParseStream: lexer, grammar actions (instrumented)",
		Stub: "io.Reader (scripted); the reference is the module generator, which knows the tree it writes",
		Assume: []string{"the supported notation is that of the grammar; not generated: extension addition groups and the second component list (documented as unsupported), a second extension marker in a non-empty list, extension markers of enumerations (documented as unsupported), an import without an assigned identifier before another one (the grammar takes what follows for the identifier), parameterisation, strings, value sets",
			"an identifier directly followed by a line comment is separated by white space"},
		Run: runC02})
	register(&Prop{
		ID: "C03", Quick: 120000, Thorough: 2500000, Chunk: 400,
		Rule:   "distinct (module text, delivery schedule, failure offset, failure kind) in which the reader did report the failure; measure: hash of those",
		Real:   "ParseStream (instrumented)",
		Stub:   "io.Reader (scripted, failing)",
		Assume: []string{"the failing text is a well-formed module; for malformed text an earlier syntax error may be reported instead"},
		Run:    runC03})
	register(&Prop{
		ID: "C04", Quick: 50000, Thorough: 2000000, Chunk: 400,
		Rule:   "distinct (module text, cut offset, delivery schedule); measure: hash of those",
		Real:   "ParseStream, ParseString (instrumented)",
		Stub:   "io.Reader (scripted; the input ends early)",
		Assume: []string{"no name of the module starts with END, as the cut text would then contain the closing keyword"},
		Run:    runC04})
	register(&Prop{
		ID: "C05", Quick: 160000, Thorough: 2500000, Chunk: 400,
		Rule:   "distinct (text, delivery schedule, fault) triples that are not plain well-formed modules; measure: hash of those",
		Real:   "ParseStream and Generate (instrumented: work is counted in executed statements)",
		Stub:   "io.Reader and io.Writer (scripted)",
		Assume: []string{"bounded work: at most 300000+600 statements per input byte, 12 reads per byte (a byte may be preceded by up to 4 empty reads); generation at most 3 million statements for modules of the sizes drawn", "nesting depth of a few thousand levels at most: recursion over the nesting of types or comments is bounded by the input"},
		Run:    runC05})
}

func runC01(t *T) {
	b, starts, kind := anyText(t)
	starts = fitStarts(starts, len(b))
	b, starts, _, _ = enlarge(t, b, starts)
	t.Ev("input %s, %d bytes: %s", kind, len(b), cut(fmt.Sprintf("%q", b), 200))
	t.Mark(string(b))
	ref := t.parse(newReader(t, b, whole))
	want := ref.key()
	t.Ev("one read: %s", ref.short())
	t.Count("input:" + kind)
	t.Count("size:" + sizeClass(len(b)))
	if ref.o.Over || ref.o.Panic != "" {
		t.Count("skipped:" + cut(want, 20)) // C05's business
		return
	}
	check := func(how string, o outcome) {
		if got := o.key(); got != want {
			t.Ev("%s: %s", how, o.short())
			t.Fail("outcome depends on delivery", "%s of %q: %s", how, cut(string(b), 2000), diff(got, want))
		}
	}
	check("ParseString", t.parseString(string(b)))
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		d := drawDelivery(t.Tape, len(b), starts)
		t.Mark(d.String())
		r := newReader(t, b, d)
		as := r.dress(t)
		o := t.parse(r)
		t.Ev("delivery %s: %d reads, %v", d, r.n, o.err)
		if r.short || d.eofWith {
			t.Nontrivial = true
		}
		if r.n > 2 {
			t.Count("short:read")
		}
		if d.eofWith {
			t.Count("eof with data")
		}
		for _, s := range d.sizes {
			if s == 0 {
				t.Count("empty reads")
				break
			}
		}
		check(fmt.Sprintf("delivery %s%s", d, as), o)
	}
	if t.P(1, 4) {
		plan := &simkernel.Plan{Files: map[string]*simkernel.File{"/work/m.asn1": {Data: b, Mode: 0o644}}, Reads: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats()}
		k := simkernel.New(plan, false)
		o := t.parseFile("/work/m.asn1", k, len(b))
		t.Ev("file: %d system calls, %v", k.Calls(), o.err)
		t.Count("file")
		for c, n := range k.Counts {
			t.Counts[c] += n
		}
		check("ParseFile", o)
	}
	if t.P(1, 4) { // a file that somebody opened, and read a part of
		junk := junks[t.N(len(junks))]
		kind := []string{"", "pipe"}[t.W(2, 1)]
		plan := &simkernel.Plan{Files: map[string]*simkernel.File{"/work/m.asn1": {Data: append([]byte(junk), b...), Mode: 0o644, Kind: kind}}, Reads: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats()}
		k := simkernel.New(plan, false)
		o := t.parseOpened("/work/m.asn1", k, len(junk), len(b))
		t.Ev("open %q file of which %q was consumed: %d system calls, %v", kind, junk, k.Calls(), o.err)
		t.Count("open file, of which a part was consumed")
		t.Mark("opened " + junk + kind)
		for c, n := range k.Counts {
			t.Counts[c] += n
		}
		check(fmt.Sprintf("an open file (%s) of which %q was consumed", kind, junk), o)
	}
}

// parseOpened opens a file on a simulated kernel, reads the first bytes, and parses the rest.
func (t *T) parseOpened(name string, k *simkernel.Kernel, skip, size int) (res outcome) {
	simkernel.Install(k)
	defer simkernel.Install(nil)
	f, err := os.Open(name)
	if err != nil {
		bug("%v", err)
	}
	defer f.Close()
	if _, err := io.ReadFull(f, make([]byte, skip)); err != nil {
		bug("%v", err)
	}
	res.o = t.guard(budgetFor(size), func() {
		res.mod, res.err = asn1go.ParseStream(f)
	})
	t.Sim += k.Now
	return
}

func runC02(t *T) {
	x := wellFormed(t.Tape, modcfg(t.Tape, false))
	x.enlarge(t)
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	t.Mark(string(x.b))
	t.Count("size:" + sizeClass(len(x.b)))
	d := drawDelivery(t.Tape, len(x.b), x.starts)
	t.Mark(d.String())
	r := newReader(t, x.b, d)
	as := r.dress(t)
	o := t.parse(r)
	t.Ev("delivery %s: %d reads: %v", d, r.n, o.short())
	t.Nontrivial = len(x.mod.ModuleBody.AssignmentList) > 0
	if r.short {
		t.Count("short:read")
	}
	want := "module: &" + dump(*x.mod)
	got := o.key()
	if got != want {
		class := "different tree"
		switch {
		case o.o.Over || o.o.Panic != "":
			class = "no result"
		case o.err != nil:
			class = "rejected"
		}
		t.Fail(class, "%q (delivery %s%s): %s", cut(string(x.b), 3000), d, as, diff(got, want))
		return
	}
	if wrong := lookups(o.mod.ModuleBody.AssignmentList); wrong != "" {
		t.Fail("lookup", "%q: %s", cut(string(x.b), 3000), wrong)
	}
}

// lookups asks a parsed module for each of its assignments by name, and for some
// it does not have, and says what went wrong.
func lookups(l asn1go.AssignmentList) string {
	seen := map[string]bool{}
	absent := []string{"", "Not-Defined-Here", "not-defined-here"}
	for _, a := range l {
		var name string
		var typ, val string
		switch a := a.(type) {
		case asn1go.TypeAssignment:
			name, typ, val = string(a.TypeReference), "&"+dump(a), "nil"
		case asn1go.ValueAssignment:
			name, typ, val = string(a.ValueReference), "nil", "&"+dump(a)
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		absent = append(absent, name+"-x", name[:len(name)-1])
		if got := a.Reference().Name(); got != name {
			return fmt.Sprintf("%q calls itself %q", name, got)
		}
		if got := dump(l.Get(name)); got != dump(a) {
			return fmt.Sprintf("Get(%q): %s", name, diff(got, dump(a)))
		}
		if got := dump(l.GetType(name)); got != typ {
			return fmt.Sprintf("GetType(%q): %s", name, diff(got, typ))
		}
		if got := dump(l.GetValue(name)); got != val {
			return fmt.Sprintf("GetValue(%q): %s", name, diff(got, val))
		}
		if v, ok := a.(asn1go.ValueAssignment); ok {
			want := ""
			switch v.Value.(type) {
			case asn1go.Number:
				want = "IntegerType{}"
			case asn1go.Real:
				want = "RealType{}"
			case asn1go.Boolean:
				want = "BooleanType{}"
			}
			if want != "" {
				if got := dump(v.Value.Type()); got != want {
					return fmt.Sprintf("the value of %q says its type is %s, which is %s", name, got, want)
				}
			}
		}
	}
	for _, name := range absent {
		if !seen[name] && (l.Get(name) != nil || l.GetType(name) != nil || l.GetValue(name) != nil) {
			return fmt.Sprintf("an assignment %q is found, and there is none", name)
		}
	}
	return ""
}

func runC03(t *T) {
	x := wellFormed(t.Tape, modcfg(t.Tape, false))
	x.enlarge(t)
	d := drawDelivery(t.Tape, len(x.b), x.starts)
	r := newReader(t, x.b, d)
	switch t.W(3, 3, 2) {
	case 0:
		r.failAt = t.N(len(x.b) + 1)
	case 1:
		r.failAt = x.starts[t.N(len(x.starts))] + t.Range(0, 3)
	default:
		r.failAt = len(x.b) - t.N(len(x.b)-x.end+4)
	}
	if r.failAt > len(x.b) {
		r.failAt = len(x.b)
	}
	if r.failAt < 0 {
		r.failAt = 0
	}
	r.failErr = faultErrors[t.N(len(faultErrors))]
	r.failMode = t.N(2)
	r.failWith = t.P(1, 2)
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	t.Ev("delivery %s; fails at %d with %q, for ever: %v, with data: %v", d, r.failAt, r.failErr, r.failMode == 1, r.failWith)
	t.Mark(string(x.b))
	t.Mark(d.String())
	t.Mark(fmt.Sprint(r.failAt, r.failErr, r.failMode, r.failWith))
	as := r.dress(t)
	o := t.parse(r)
	t.Ev("%d reads, %d failures reported: %s", r.n, r.failed, o.short())
	if r.failed == 0 {
		t.Count("fault not reached")
		if o.mod != nil {
			t.Fail("module despite failure", "reader failing at %d of %q with %q%s: a module, although the reader was not asked for the rest", r.failAt, cut(string(x.b), 3000), r.failErr, as)
		}
		return
	}
	t.Nontrivial = true
	where := "inside"
	switch {
	case r.failAt >= x.end:
		where = "after the end"
	case r.failAt == 0:
		where = "at the start"
	}
	t.Count(fmt.Sprintf("fault:read error %s, %s, %s", where, []string{"once", "for ever"}[r.failMode], map[bool]string{true: "with data", false: "alone"}[r.failWith]))
	if o.o.Over || o.o.Panic != "" {
		t.Fail("no outcome", "reader failing at %d of %q with %q%s: %s", r.failAt, cut(string(x.b), 3000), r.failErr, as, o.short())
	}
	if o.mod != nil {
		t.Fail("module despite failure", "reader failing at %d of %q with %q%s: %s", r.failAt, cut(string(x.b), 3000), r.failErr, as, o.short())
	}
	if o.err == nil {
		t.Fail("no error", "reader failing at %d of %q with %q%s: neither module nor error", r.failAt, cut(string(x.b), 3000), r.failErr, as)
	}
	if !strings.Contains(o.err.Error(), r.failErr.Error()) && !errors.Is(o.err, r.failErr) {
		t.Fail("failure not named", "reader failing at %d of %q with %q%s: the error is only %q", r.failAt, cut(string(x.b), 3000), r.failErr, as, o.err)
	}
	if !strings.Contains(o.err.Error(), r.failErr.Error()) {
		t.Fail("failure text missing", "reader failing at %d of %q with %q%s: the error is %q", r.failAt, cut(string(x.b), 3000), r.failErr, as, o.err)
	}
}

func runC04(t *T) {
	cfg := modcfg(t.Tape, false)
	cfg.NoEND = true
	x := wellFormed(t.Tape, cfg)
	x.enlarge(t)
	t.Ev("module, %d bytes: %s", len(x.b), cut(fmt.Sprintf("%q", x.b), 300))
	for i, n := 0, t.Range(1, 6); i < n; i++ {
		at := 0
		switch t.W(2, 3, 2, 1) {
		case 0:
			at = t.N(x.end)
		case 1:
			at = x.starts[t.N(len(x.starts))] + t.Range(-1, 2)
		case 2: // close to the end, inside the closing keyword
			at = x.end - 1 - t.N(12)
		default: // only complete blocks arrived
			block := []int{4096, 512, 128, 1024, 2048, 8192}[t.N(6)]
			at = x.end / block * block
			if k := t.N(4); k > 0 && at > k*block {
				at -= t.N(k+1) * block
			}
		}
		if at < 0 {
			at = 0
		}
		if at >= x.end {
			at = x.end - 1
		}
		b := x.b[:at]
		d := drawDelivery(t.Tape, len(b), fitStarts(x.starts, at))
		t.Mark(string(b))
		t.Mark(d.String())
		t.Nontrivial = true
		t.Count("fault:truncation")
		var o outcome
		how := "ParseString"
		if t.P(1, 4) {
			o = t.parseString(string(b))
		} else {
			how = "delivery " + d.String()
			o = t.parse(newReader(t, b, d))
		}
		t.Ev("cut at %d, %s: %s", at, how, o.short())
		if o.o.Over || o.o.Panic != "" {
			t.Fail("no error for a cut input", "%q, %s: %s", cut(string(b), 3000), how, o.short())
		}
		if o.mod != nil || o.err == nil {
			t.Fail("cut input accepted", "%q, %s: %s", cut(string(b), 3000), how, o.short())
		}
	}
}

// knots are definitions that refer to themselves.
var knots = []string{
	"A ::= A", "A ::= B B ::= A", "A ::= [1] A", "A ::= [1] B B ::= [2] A", "A ::= SEQUENCE { a A }", "A ::= SEQUENCE OF A", "A ::= SET OF A",
	"A ::= CHOICE { a A }", "A ::= CHOICE { a [1] A, b A }", "A ::= CHOICE { a B } B ::= CHOICE { b A, c A }", "A ::= A (SIZE (1..5))",
	"A ::= B B ::= C C ::= D D ::= B", "A ::= SEQUENCE { a [0] B, c C } B ::= C C ::= B", "A ::= CHOICE { a B, b B } B ::= C (1..2) C ::= [3] B",
	"A ::= SET { a A OPTIONAL } B ::= A C ::= SEQUENCE OF C D ::= [1] D", "a INTEGER ::= 5 A ::= INTEGER { a(a) } b A ::= 3 c C ::= 4 C ::= C",
	"a A ::= 5 A ::= A", "A ::= SEQUENCE { a B DEFAULT 5, ..., b A } B ::= [1] EXPLICIT B", "A ::= SEQUENCE { COMPONENTS OF A }", "A ::= UTCTime B ::= GeneralizedTime C ::= B D ::= A",
	"A ::= INTEGER (A)", "A ::= INTEGER A ::= A", "A ::= BIT STRING B ::= A C ::= SEQUENCE { b B, c C }",
}

// knot draws definitions that refer to one another in any way.
func knot(t *T) string {
	n := t.Range(1, 6)
	name := func() string { return string(rune('A' + t.N(n))) }
	val := func() string {
		return []string{"a", "b", "c", "5", "-1", "TRUE", "x"}[t.N(7)]
	}
	var body func(depth int) string
	body = func(depth int) string {
		at := func() string {
			if depth > 0 && t.P(1, 4) {
				return body(depth - 1)
			}
			return name()
		}
		switch t.N(20) {
		case 0:
			return name()
		case 1:
			return "[1] " + at()
		case 2:
			return "[APPLICATION 2] EXPLICIT " + at()
		case 3:
			return "SEQUENCE { a " + at() + " }"
		case 4:
			return "SEQUENCE { a " + at() + " OPTIONAL, b " + at() + " }"
		case 5:
			return "SEQUENCE { a " + at() + " DEFAULT " + val() + " }"
		case 6:
			return "SET { a [0] " + at() + ", ..., b " + at() + " }"
		case 7:
			return "SEQUENCE OF " + at()
		case 8:
			return "SET OF " + at()
		case 9:
			return "CHOICE { a " + at() + " }"
		case 10:
			return "CHOICE { a " + at() + ", b [1] " + at() + " }"
		case 11:
			return name() + " (" + val() + ".." + val() + ")"
		case 12:
			return name() + " (SIZE (1.." + val() + "))"
		case 13:
			return "INTEGER (" + name() + ")"
		case 14:
			return "INTEGER { x(" + val() + "), y(" + val() + ") }"
		case 15:
			return "BIT STRING { x(" + val() + ") }"
		case 16:
			return "SEQUENCE { COMPONENTS OF " + at() + ", z " + at() + " }"
		case 17:
			return "[" + val() + "] " + at()
		case 18:
			return "SEQUENCE SIZE (1.." + val() + ") OF " + at()
		default:
			return []string{"INTEGER", "BOOLEAN", "NULL", "UTCTime", "GeneralizedTime", "OCTET STRING", "OBJECT IDENTIFIER"}[t.N(7)]
		}
	}
	out := ""
	for i := 0; i < n; i++ {
		out += string(rune('A'+i)) + " ::= " + body(2) + "\n"
	}
	for i, k := 0, t.N(4); i < k; i++ {
		v := val()
		if t.P(1, 4) {
			v = []string{"{ a 1 }", "{ b c }", "{ x(a) 2 }", "{ iso a(b) }", "\"s\"", "1.5", "{}"}[t.N(7)]
		}
		out += string(rune('a'+i)) + " " + []string{name(), "INTEGER", "OBJECT IDENTIFIER", "BOOLEAN"}[t.N(4)] + " ::= " + v + "\n"
	}
	return out
}

// rewired replaces some names of a module with other ones of it.
func rewired(t *T) []byte {
	x := wellFormed(t.Tape, modcfg(t.Tape, true))
	word := func(at int) string {
		end := at
		for end < len(x.b) && (x.b[end] >= 'a' && x.b[end] <= 'z' || x.b[end] >= 'A' && x.b[end] <= 'Z' || x.b[end] >= '0' && x.b[end] <= '9' || x.b[end] == '-' && end+1 < len(x.b) && x.b[end+1] != '-') {
			end++
		}
		return string(x.b[at:end])
	}
	var big, small []string
	for _, at := range x.starts {
		if w := word(at); w != "" && w[0] >= 'a' && w[0] <= 'z' {
			small = append(small, w)
		} else if w != "" && w[0] >= 'A' && w[0] <= 'Z' && w != strings.ToUpper(w) {
			big = append(big, w)
		}
	}
	var out []byte
	last := 0
	rate := t.Range(1, 8)
	for _, at := range x.starts {
		w := word(at)
		l := small
		if w == "" || at < last || !t.P(1, rate) {
			continue
		}
		if w[0] >= 'A' && w[0] <= 'Z' {
			if l = big; w == strings.ToUpper(w) {
				continue
			}
		} else if w[0] < 'a' || w[0] > 'z' {
			continue
		}
		out = append(append(out, x.b[last:at]...), l[t.N(len(l))]...)
		last = at + len(w)
	}
	return append(out, x.b[last:]...)
}

func nested(t *T) []byte {
	n := t.Range(1, 1<<uint(t.N(11)))
	k := t.N(8)
	t.Count("deep nesting")
	switch k {
	case 0:
		return []byte("M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("SEQUENCE OF ", n) + "INTEGER END")
	case 1:
		return []byte("M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("SEQUENCE { a ", n) + "INTEGER" + strings.Repeat(" }", n) + " END")
	case 2:
		return []byte("M DEFINITIONS ::= BEGIN " + strings.Repeat("/* ", n) + strings.Repeat(" */", n) + " END")
	case 3:
		return []byte("M DEFINITIONS ::= BEGIN A ::= INTEGER (" + strings.Repeat("(", n) + "5" + strings.Repeat(")", n) + ") END")
	case 4:
		return []byte("M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("[1] ", n) + "INTEGER" + strings.Repeat(" (5)", n) + " END")
	case 5:
		return []byte("M DEFINITIONS ::= BEGIN " + strings.Repeat("/*", n))
	case 6: // every type uses the next one several times
		t.Count("many paths through the types")
		s := "M DEFINITIONS ::= BEGIN "
		forms := []string{"CHOICE { x A%[1]d, y A%[1]d }", "CHOICE { x [1] A%[1]d, y [2] A%[1]d }", "SEQUENCE { x A%[1]d, y A%[1]d OPTIONAL }", "SET { x [0] A%[1]d, y SEQUENCE OF A%[1]d }",
			"SEQUENCE OF CHOICE { x A%[1]d, y A%[1]d, z A%[1]d }", "[3] CHOICE { x CHOICE { x A%[1]d, y A%[1]d }, y SET OF A%[1]d }", "CHOICE { x A%[1]d }"}
		form := forms[t.N(len(forms))]
		mixed := t.P(1, 2)
		m := t.Range(2, 70)
		for i := 0; i < m; i++ {
			if mixed {
				form = forms[t.N(len(forms))]
			}
			s += fmt.Sprintf("A%d ::= ", i) + fmt.Sprintf(form, i+1) + "\n"
		}
		last := []string{"INTEGER", "BOOLEAN", "A0", "SEQUENCE { x A0 }", "CHOICE { x INTEGER, y [1] BOOLEAN }"}[t.N(5)]
		return []byte(s + fmt.Sprintf("A%d ::= %s END", m, last))
	default:
		s := "M DEFINITIONS ::= BEGIN A0 ::= INTEGER "
		for i := 1; i < n%60+2; i++ { // a chain of aliases
			s += fmt.Sprintf("A%d ::= A%d ", i, i-1)
		}
		return []byte(s + "END")
	}
}

func runC05(t *T) {
	var b []byte
	var starts []int
	kind := ""
	switch t.W(5, 1, 1, 2, 1) {
	case 0:
		b, starts, kind = anyText(t)
	case 3:
		b, kind = []byte("M DEFINITIONS "+[]string{"", "IMPLICIT TAGS "}[t.N(2)]+"::= BEGIN "+knot(t)+" END"), "definitions that refer to one another in any way"
	case 4:
		b, kind = rewired(t), "names replaced by others of the module"
	case 1:
		b, kind = []byte("M DEFINITIONS "+[]string{"", "IMPLICIT TAGS "}[t.N(2)]+"::= BEGIN "+knots[t.N(len(knots))]+" END"), "self-referential"
	default:
		b, kind = nested(t), "nested"
	}
	starts = fitStarts(starts, len(b))
	d := drawDelivery(t.Tape, len(b), starts)
	r := newReader(t, b, d)
	fault := t.W(3, 2, 1)
	switch fault {
	case 1:
		r.failAt = t.N(len(b) + 1)
		r.failErr = faultErrors[t.N(len(faultErrors))]
		r.failMode = t.N(2)
		r.failWith = t.P(1, 2)
		if len(b) == 0 {
			r.failMode = 1
		}
	case 2:
		r.stall = true
	}
	t.Ev("input %s, %d bytes: %s", kind, len(b), cut(fmt.Sprintf("%q", b), 300))
	t.Ev("delivery %s fault %d at %d", d, fault, r.failAt)
	t.Mark(string(b))
	t.Mark(d.String())
	t.Mark(fmt.Sprint(fault, r.failAt, r.failErr, r.failMode, r.failWith))
	t.Nontrivial = kind != "well-formed" || fault != 0
	t.Count("input:" + kind)
	t.Count([]string{"fault:none", "fault:read error", "fault:reader stalls with empty reads"}[fault])
	r.dress(t)
	o := t.parse(r)
	t.Ev("%d reads: %s", r.n, o.short())
	desc := fmt.Sprintf("%q (delivery %s, fault %d at %d)", cut(string(b), 3000), d, fault, r.failAt)
	switch {
	case o.o.Over:
		t.Fail("parsing does not end", "%s: more than %d statements or %d reads", desc, budgetFor(len(b)), r.maxReads)
	case o.o.Panic != "":
		t.Fail("parsing panics", "%s: %s", desc, o.o.Panic)
	case o.mod == nil && o.err == nil:
		t.Fail("neither module nor error", "%s", desc)
	case o.mod != nil && o.err != nil:
		t.Fail("module and error", "%s: %v", desc, o.err)
	}
	if o.mod == nil {
		return
	}
	params := drawParams(t)
	w := newWriter(t)
	var err error
	g := t.guard(3000000+3000*uint64(len(b)), func() {
		err = asn1go.NewCodeGenerator(params).Generate(*o.mod, w)
	})
	t.Ev("generate %+v: %v, %d bytes", params, err, len(w.acc))
	t.Count("generated")
	switch {
	case g.Over:
		t.Fail("generating does not end", "%s", desc)
	case g.Panic != "":
		t.Fail("generating panics", "%s: %s", desc, g.Panic)
	}
}

var packages = []string{"", "pkg", "my_package", "asn1types"}

func drawParams(t *T) asn1go.GenParams {
	p := asn1go.GenParams{Package: packages[t.W(3, 1, 1, 1)]}
	switch t.W(3, 2, 1) {
	case 1:
		p.IntegerRepr = asn1go.IntegerReprBigInt
	case 2:
		p.IntegerRepr = asn1go.IntegerReprInt64
	}
	return p
}

var _ = io.EOF
