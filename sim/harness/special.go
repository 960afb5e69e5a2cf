package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"
	"syscall"

	"asn1sim/simkernel"

	"github.com/chemikadze/asn1go"
)

func init() {
	register(&Prop{ID: "C24", Quick: 36000, Thorough: 250000, Chunk: 50,
		Rule: "distinct (input or value, arguments, kinds of the files, read and write schedule, faults, kill points) with a pipe or device in the place of a file; measure: hash of those",
		Real: "the whole asn1go command, one process per run, and the file functions ParseFile and MarshalToFile, with package os (all instrumented)",
		Stub: "the operating system: pipes, devices, files, descriptors and errors come from a simulated kernel behind package syscall",
		Assume: []string{"the other end of a pipe is there, and does not make anybody wait", "the library, called in this process, is the reference for the source; encoding/asn1 for encodings",
			"a failing close of the input loses nothing and may or may not be reported"},
		Run: runC24})
}

var kinds = []string{"pipe", "char", "link", "hard"}

func runC24(t *T) {
	switch t.W(4, 2, 2) {
	case 0:
		specialCommand(t)
	case 1:
		specialParse(t)
	default:
		specialSave(t)
	}
}

// stillThere says which pipe or device was replaced or removed.
func stillThere(kind map[string]string, get func(string) (string, bool)) string {
	m := map[string]bool{}
	for n := range kind {
		m[n] = true
	}
	for _, n := range sortedKeys(m) {
		if k, ok := get(n); !ok {
			return fmt.Sprintf("%s (%s) is gone", n, kind[n])
		} else if k != kind[n] && kind[n] != "hard" {
			return fmt.Sprintf("%s (%s) was replaced", n, kind[n])
		}
	}
	return ""
}

// unusual makes name something else than a plain file. It returns the path where
// the data ends up, and the other name of the same file if there is one.
func unusual(t *T, p *simkernel.Plan, name, kind string, new []byte) (dst, twin string) {
	dst = name
	f := &simkernel.File{Mode: 0o622, Kind: kind, Mtime: drawMtime(t, p.ProcStart)}
	old, exists := oldOutput(t, new)
	plain := &simkernel.File{Data: old, Mode: 0o640, Mtime: drawMtime(t, p.ProcStart)}
	switch kind {
	case "link":
		dst, f.Mode = "/tmp/real", 0o777
		switch t.W(2, 2, 2, 1) {
		case 0:
			f.Link = dst
		case 1:
			f.Link = strings.Repeat("../", strings.Count(name, "/")-1) + "tmp/real"
		case 2: // in the same directory
			dst, f.Link = path.Join(path.Dir(name), "the real one"), "the real one"
		default: // a link to a link
			f.Link = "/data/hop"
			p.Files["/data/hop"] = &simkernel.File{Kind: "link", Link: "../tmp/./real", Mode: 0o777}
		}
		if exists {
			p.Files[dst] = plain
		}
		t.Mark(fmt.Sprint(f.Link, exists, len(old)))
	case "hard":
		twin = "/tmp/twin"
		f.Kind, f.Same, f.Mode = "", twin, plain.Mode
		p.Files[twin] = plain
		t.Mark(fmt.Sprint(len(old)))
	}
	p.Files[name] = f
	return
}

// through names a file in another way: through a link to its directory, or through one to another
// directory, from which .. does not lead back.
func through(t *T, p *simkernel.Plan, link, name string) string {
	l := &simkernel.File{Kind: "link", Mode: 0o777}
	p.Files[link] = l
	t.Count("named through a link")
	switch t.N(3) {
	case 0:
		l.Link = path.Dir(name)
		return link + "/" + path.Base(name)
	case 1:
		l.Link = ".." + path.Dir(name)
		return path.Base(link) + "/" + path.Base(name)
	default:
		l.Link = "/data"
		p.Files["/data"] = &simkernel.File{Dir: true}
		return path.Base(link) + "/.." + name
	}
}

func specialCommand(t *T) {
	w := drawWorld(t, t.P(4, 5), false)
	p := w.plan
	kind := map[string]string{}
	if w.out == w.in && w.out != "" {
		w.place("", "/gen/other.go")
		p.Files[w.in] = &simkernel.File{Data: w.input, Mode: 0o644}
	}
	which := t.W(2, 2, 2)
	if w.in == "" && which == 0 {
		which = 1
	}
	if w.out == "" && which > 0 { // by name, then
		if w.in != "" && !p.StdoutFile {
			w.outAt = len(p.Args)
			p.Args = append(p.Args, []string{"/dev/stdout", "/proc/self/fd/1"}[t.N(2)])
			t.Count("output is /dev/stdout")
		} else if w.in != "" {
			which = 0
		}
	}
	if w.in == "" && !p.StdinFile && !p.StdoutFile {
		p.Args = append(p.Args, []string{"/dev/stdin", "/proc/self/fd/0"}[t.N(2)])
		t.Count("input is /dev/stdin")
		if t.P(1, 2) {
			p.Args = append(p.Args, "/dev/stdout")
			t.Count("output is /dev/stdout")
		}
	}
	if w.in != "" && which != 1 {
		kind[w.in] = kinds[t.W(3, 1)]
		p.Files[w.in].Kind = kind[w.in]
		t.Count("input is a " + kind[w.in])
	}
	dst, twin := w.out, ""
	if w.out != "" && which != 0 {
		kind[w.out] = kinds[t.W(3, 1, 2, 2)]
		dst, twin = unusual(t, p, w.out, kind[w.out], w.src)
		t.Count("output is a " + kind[w.out])
	}
	if w.in != "" && kind[w.in] == "" && t.P(1, 4) {
		p.Files["/data/real.asn1"] = p.Files[w.in]
		p.Files[w.in] = &simkernel.File{Kind: "link", Link: "/data/real.asn1", Mode: 0o777}
		kind[w.in] = "link"
		t.Count("input is a link")
	}
	if w.in != "" && t.P(1, 6) {
		p.Args[w.inArg] = through(t, p, "/work/via", w.in)
	}
	if w.out != "" && t.P(1, 6) {
		p.Args[w.outAt] = through(t, p, "/work/there", w.out)
	}
	source, target := w.source(), w.dest()
	if kind[w.in] == "link" {
		source = "/data/real.asn1"
	}
	if target = dst; dst == "" {
		target = "<stdout>"
	} else if twin != "" {
		target = twin
	}
	t.Mark(fmt.Sprint(kind, p.Args))
	var faults []string
	kill := false
	switch t.W(5, 2, 4, 1) {
	case 1:
		n := t.N(3)
		if t.P(1, 3) {
			p.Reads = []int{1 + len(w.input)/(n+2)}
		}
		f := &simkernel.Fault{Op: "read", Target: source, Nth: n, Errno: t.pick(readErrs), Sticky: t.P(1, 2)}
		if w.in != "" && t.P(1, 4) {
			f = &simkernel.Fault{Op: "open", Target: w.in, Errno: t.pick(openErrs)}
		}
		p.Faults = append(p.Faults, f)
	case 2:
		f := &simkernel.Fault{Op: "write", Target: target, Nth: t.W(3, 1, 1), Errno: t.pick(writeErrs), Sticky: t.P(1, 2)}
		if t.P(1, 3) {
			f.Errno = int(syscall.EPIPE)
		}
		if t.P(1, 2) {
			f.Part = 1 + t.N(1+len(w.src))
		}
		switch t.W(4, 1, 1) {
		case 1:
			f = &simkernel.Fault{Op: "close", Target: target, Errno: t.pick(closeErrs)}
		case 2:
			if w.out != "" {
				f = &simkernel.Fault{Op: "open", Target: w.out, Errno: t.pick(openErrs)}
			}
		}
		p.Faults = append(p.Faults, f)
	case 3:
		kill = true
		at := t.N(1 << uint(t.Range(2, 6)))
		p.Kill = &simkernel.Kill{At: at, Phase: t.N(3)}
		faults = append(faults, fmt.Sprintf("kill at system call %d (%s)", at, []string{"before", "after", "half-way"}[p.Kill.Phase]))
	}
	for _, f := range p.Faults {
		faults = append(faults, fmt.Sprintf("%s %d of %s fails: %s", f.Op, f.Nth, f.Target, syscall.Errno(f.Errno)))
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	t.Ev("%v, faults: %v", kind, faults)
	t.Mark(fmt.Sprint(faults))
	r := t.spawn("cli-asn1go", p)
	t.Nontrivial = len(kind) > 0 || strings.Contains(strings.Join(p.Args, " "), "/dev/std")
	if t.skipCLI(r, w) || r.over {
		t.Count("skipped:library does not answer")
		return
	}
	desc := fmt.Sprintf("%s, %v, with %v", w, kind, faults)
	hit := r.hit(w)
	inputHit, eof := false, false
	read := int64(0)
	for i := range r.events {
		e := &r.events[i]
		if e.Target != source && !(e.Op == "open" && e.Target == w.in) {
			continue
		}
		switch {
		case e.Err != "" && e.Fault == "errno" && (e.Op == "open" || e.Op == "read"):
			inputHit = true
		case e.Op == "read" && e.Err == "":
			read += e.N
			eof = eof || e.N == 0
		}
	}
	got, exists := r.stdout, true
	var was *simkernel.File
	if w.out != "" {
		was = p.Files[dst]
		if twin != "" {
			was = p.Files[twin]
		}
		f := r.files[dst]
		if exists = f != nil; exists {
			got = f.Data
		} else {
			got = nil
		}
	}
	asBefore := exists == (was != nil || w.out == "") && (was == nil && len(got) == 0 || was != nil && bytes.Equal(was.Data, got))
	ok := w.ok && !inputHit
	switch {
	case kill && r.killed:
		t.Count("command:killed")
	case hit == "" && ok:
		if r.exit != 0 || r.signal != "" {
			t.Fail("failed without cause", "%s: exit status %d %s: %s", desc, r.exit, r.signal, cut(string(r.stderr), 300))
		}
		if !exists || !bytes.Equal(got, w.src) {
			t.Fail("wrong output", "%s: %d bytes arrived, want %d: %s", desc, len(got), len(w.src), diff(string(got), string(w.src)))
		}
		t.Count("command:succeeded")
	default:
		if r.exit == 0 && r.signal == "" {
			t.Fail("success claimed", "%s: exit status 0, although: %s %s", desc, hit, cut(w.why, 100))
		}
		if r.signal == "" && len(bytes.TrimSpace(r.stderr)) == 0 {
			t.Fail("no diagnostic", "%s: exit status %d and nothing on standard error", desc, r.exit)
		}
		if r.signal != "" && r.signal != "broken pipe" {
			t.Fail("died", "%s: died of a signal: %s", desc, r.signal)
		}
		t.Count("command:failed")
	}
	if !ok && !asBefore {
		t.Fail("output despite bad input", "%s: destination holds %d bytes", desc, len(got))
	}
	if ok && !asBefore && !bytes.HasPrefix(w.src, got) {
		t.Fail("wrong output", "%s: what arrived is not the beginning of the source: %s", desc, diff(string(got), string(w.src)))
	}
	if r.exit == 0 && r.signal == "" && !r.killed && kind[w.in] != "" && (!eof || read != int64(len(w.input))) {
		t.Fail("success claimed without reading all", "%s: %d of %d bytes were read, end seen: %v", desc, read, len(w.input), eof)
	}
	if d := stillThere(kind, func(n string) (string, bool) {
		f := r.files[n]
		if f == nil {
			return "", false
		}
		return f.Kind, true
	}); d != "" {
		t.Fail("replaced", "%s: %s", desc, d)
	}
	if twin != "" && r.files[twin] != r.files[w.out] {
		t.Fail("replaced", "%s: %s and %s are not the same file any longer", desc, w.out, twin)
	}
	real := *w
	real.out = dst
	if twin != "" {
		delete(r.files, twin)
		delete(p.Files, twin)
	}
	if d := r.others(&real, !kill && len(p.Faults) == 0); d != "" {
		t.Fail("other files changed", "%s: %s", desc, d)
	}
}

// unlinked makes name a link to a file with the data.
func unlinked(t *T, p *simkernel.Plan, name string, b []byte) string {
	dst, _ := unusual(t, p, name, "link", b)
	p.Files[dst] = &simkernel.File{Data: b, Mode: 0o644}
	return dst
}

func specialParse(t *T) {
	good := t.P(2, 3)
	var b []byte
	if good {
		b = wellFormed(t.Tape, modcfg(t.Tape, false)).b
	} else {
		b, _, _ = anyText(t)
	}
	name, arg := "/work/m.asn1", "m.asn1"
	kind := kinds[t.W(3, 1, 2)]
	p := &simkernel.Plan{Files: map[string]*simkernel.File{name: {Data: b, Mode: 0o644, Kind: kind}}, Reads: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
	source := name
	if kind == "link" {
		source = unlinked(t, p, name, b)
	}
	if kind == "link" && t.P(1, 3) || kind != "link" && t.P(1, 6) {
		arg = through(t, p, "/work/via", name)
	}
	if t.P(1, 2) {
		f := &simkernel.Fault{Op: "read", Target: source, Nth: t.N(4), Sticky: t.P(1, 2), Errno: t.pick(readErrs)}
		if t.P(1, 2) {
			p.Reads = []int{1 + len(b)/(f.Nth+1)}
		}
		switch t.W(4, 1, 1) {
		case 1:
			f.Op, f.Target, f.Errno, f.Nth = "open", name, t.pick(openErrs), 0
		case 2:
			f.Op, f.Errno, f.Nth = "close", t.pick(closeErrs), 0
		}
		p.Faults = append(p.Faults, f)
		t.Ev("fault %s nth=%d %s sticky=%v", f.Op, f.Nth, syscall.Errno(f.Errno), f.Sticky)
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	t.Ev("%s holds %d bytes: %s", kind, len(b), cut(fmt.Sprintf("%q", b), 200))
	t.Mark(string(b))
	t.Mark(fmt.Sprint(kind, p.Reads, arg, source))
	t.Nontrivial = true
	t.Count("parsed a " + kind)
	k := simkernel.New(p, false)
	o := t.parseFile(arg, k, len(b))
	t.Ev("ParseFile: %s", o.short())
	for c, n := range k.Counts {
		t.Counts[c] += n
	}
	what := fmt.Sprintf("ParseFile of %s, a %s holding %q, reads %v", arg, kind, cut(string(b), 1500), p.Reads)
	var cause syscall.Errno
	reads, closed := 0, false
	for _, e := range k.Events {
		t.Ev("%s", eventString(&e))
		switch {
		case (e.Op == "open" || e.Op == "read") && e.Fault == "errno":
			if cause == 0 {
				cause = errnoOf(e.Err)
			}
		case e.Op == "read" && e.Err == "" && e.N > 0:
			reads++
		case e.Op == "close" && e.Err != "":
			closed = true
		}
	}
	if o.o.Over || o.o.Panic != "" {
		t.Count("skipped:library does not answer")
		return
	}
	if cause != 0 {
		if o.mod != nil || o.err == nil {
			t.Fail("failure hidden", "%s: %s, although a system call failed: %s", what, o.short(), cause)
		}
		if (good || reads == 0) && !carries(o.err, cause) {
			t.Fail("cause lost", "%s: error %q does not say %q", what, o.err, cause)
		}
	} else if ref := t.parseString(string(b)); !(closed && o.err != nil && o.mod == nil) && o.key() != ref.key() {
		t.Fail("outcome depends on the kind of file", "%s: %s", what, diff(o.key(), ref.key()))
	}
	if l := k.Leaked(); len(l) > 0 || k.Opened != k.Closed {
		t.Fail("descriptor leaked", "%s: still open: %v (opened %d, closed %d)", what, l, k.Opened, k.Closed)
	}
	if d := sameFiles(k, p.Files, ""); d != "" {
		t.Fail("files changed", "%s: %s", what, d)
	}
}

func specialSave(t *T) {
	v := drawValue(t)
	der, encErr, panicked := encode(v)
	if panicked {
		t.Count("skipped:encoding/asn1 panics")
		return
	}
	name, arg := "/work/out.der", "out.der"
	if t.P(1, 3) {
		name, arg = "/work/sub/out.der", "./sub/out.der"
	}
	kind := kinds[t.W(3, 1, 2, 2)]
	p := &simkernel.Plan{Files: map[string]*simkernel.File{"/work/keep.der": {Data: []byte("precious"), Mode: 0o600},
		"/work/sub": {Dir: true}, "/data": {Dir: true}},
		Writes: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
	dst, twin := unusual(t, p, name, kind, der)
	if t.P(1, 6) {
		arg = through(t, p, "/work/there", name)
	}
	target, was := dst, p.Files[dst]
	if twin != "" {
		target, was = twin, p.Files[twin]
	}
	if t.P(1, 2) {
		f := &simkernel.Fault{Op: "write", Target: target, Nth: t.W(3, 1, 1), Errno: t.pick(writeErrs), Sticky: t.P(1, 2)}
		if t.P(1, 3) {
			f.Errno = int(syscall.EPIPE)
		}
		if t.P(1, 2) {
			f.Part = 1 + t.N(1+len(der))
		}
		switch t.W(4, 1, 1) {
		case 1:
			f = &simkernel.Fault{Op: "open", Target: name, Errno: t.pick(openErrs)}
		case 2:
			f = &simkernel.Fault{Op: "close", Target: target, Errno: t.pick(closeErrs)}
		}
		p.Faults = append(p.Faults, f)
		t.Ev("fault %s nth=%d %s part=%d sticky=%v", f.Op, f.Nth, syscall.Errno(f.Errno), f.Part, f.Sticky)
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	mode := []os.FileMode{0o644, 0o600, 0o666, 0o400}[t.N(4)]
	what := fmt.Sprintf("MarshalToFile(%s, %o), %d bytes of DER, to %s, a %s, writes %v", cut(fmt.Sprintf("%T %+v", v, printable(v)), 300), mode, len(der), arg, kind, p.Writes)
	t.Ev("%s", what)
	t.Mark(fmt.Sprintf("%x %v %s %s %o %v", der, encErr, kind, arg, mode, p.Writes))
	t.Nontrivial = true
	t.Count("saved to a " + kind)
	k := simkernel.New(p, false)
	var err error
	simkernel.Install(k)
	o := t.guard(2000000, func() { err = asn1go.MarshalToFile(v, arg, mode) })
	simkernel.Install(nil)
	t.Sim += k.Now
	for c, n := range k.Counts {
		t.Counts[c] += n
	}
	var failed *simkernel.Event
	for i := range k.Events {
		e := &k.Events[i]
		t.Ev("%s", eventString(e))
		if failed == nil && e.Fault == "errno" && e.Err != "" {
			failed = e
		}
	}
	t.Ev("%v", err)
	files := k.Snapshot()
	now, there := files[dst]
	asBefore := there == (was != nil) && (was == nil || bytes.Equal(was.Data, now.Data))
	f, still := files[name]
	if kind == "hard" {
		still = k.SameFile(name, twin)
	} else {
		still = still && f.Kind == kind
	}
	switch {
	case o.Over || o.Panic != "":
		t.Fail("no answer", "%s: %+v", what, o)
	case !still:
		t.Fail("replaced", "%s", what)
	case encErr != nil:
		if err == nil || !strings.Contains(err.Error(), encErr.Error()) {
			t.Fail("failure hidden", "%s: error %v, although it can not be encoded: %v", what, err, encErr)
		}
		if !asBefore {
			t.Fail("output despite a bad value", "%s: %d bytes arrived", what, len(now.Data))
		}
	case failed == nil:
		if err != nil {
			t.Fail("failed without cause", "%s: %v", what, err)
		}
		if !bytes.Equal(now.Data, der) {
			t.Fail("wrong output", "%s: %d bytes arrived: %s", what, len(now.Data), diff(fmt.Sprintf("%x", now.Data), fmt.Sprintf("%x", der)))
		}
	default:
		if err == nil {
			t.Fail("failure hidden", "%s: no error, although %s", what, eventString(failed))
		}
		if !carries(err, errnoOf(failed.Err)) {
			t.Fail("cause lost", "%s: error %q does not say %q", what, err, failed.Err)
		}
		if !asBefore && !bytes.HasPrefix(der, now.Data) {
			t.Fail("wrong output", "%s: what arrived is not the beginning of the encoding", what)
		}
	}
	if l := k.Leaked(); len(l) > 0 || k.Opened != k.Closed {
		t.Fail("descriptor leaked", "%s: still open: %v", what, l)
	}
	delete(p.Files, twin)
	delete(p.Files, name)
	k.Forget(twin)
	k.Forget(name)
	if d := sameFiles(k, p.Files, dst); d != "" {
		t.Fail("other files changed", "%s: %s", what, d)
	}
}
