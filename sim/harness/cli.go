package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"asn1sim/simkernel"

	"github.com/chemikadze/asn1go"
)

const exitOverrun = 97 // as in package boot

// cliRun is what one simulated process did.
type cliRun struct {
	exit     int
	signal   string // how it died, if not by exiting
	killed   bool   // by the plan
	over     bool
	events   []simkernel.Event
	files    map[string]*simkernel.File
	stdout   []byte
	stderr   []byte
	stdinEOF bool
}

// process is a simulated process.
type process struct {
	t     *T
	plan  *simkernel.Plan
	cmd   *exec.Cmd
	real  bytes.Buffer // what does not go through the simulated kernel: crashes of the runtime
	in    *bufio.Reader
	out   *os.File // what others did, if it takes turns
	files []*os.File
	timer *time.Timer
	late  bool
	r     *cliRun
}

// start starts a command line tool on a simulated kernel.
func (t *T) start(bin string, plan *simkernel.Plan) *process {
	b, err := json.Marshal(plan)
	if err != nil {
		bug("%v", err)
	}
	pipe := func() (*os.File, *os.File) {
		r, w, err := os.Pipe()
		if err != nil {
			bug("%v", err)
		}
		return r, w
	}
	p := &process{t: t, plan: plan, r: &cliRun{files: map[string]*simkernel.File{}}}
	pr, pw := pipe()
	jr, jw := pipe()
	p.cmd = exec.Command(filepath.Join(t.scratch, bin))
	p.cmd.Env = []string{"ASN1SIM=1", "GOGC=off", "GOMEMLIMIT=1GiB", "GOMAXPROCS=1", "HOME=/nonexistent", "GOTRACEBACK=single"}
	p.cmd.Dir = "/"
	p.cmd.ExtraFiles = []*os.File{pr, jw}
	p.files = []*os.File{jr}
	if plan.Turns {
		or, ow := pipe()
		p.cmd.ExtraFiles = append(p.cmd.ExtraFiles, or)
		p.out = ow
		p.files = append(p.files, ow)
	}
	p.cmd.Stderr = &p.real
	if err := p.cmd.Start(); err != nil {
		bug("%v", err)
	}
	for _, f := range p.cmd.ExtraFiles {
		f.Close()
	}
	go func() {
		pw.Write(b)
		pw.Close()
	}()
	p.timer = time.AfterFunc(60*time.Second, func() { p.late = true; p.cmd.Process.Kill() })
	p.in = bufio.NewReaderSize(jr, 1<<16)
	return p
}

// next reads what the process does next; nil: it ended.
func (p *process) next() *simkernel.Event {
	line, err := p.in.ReadBytes('\n')
	if err != nil {
		return nil
	}
	e := &simkernel.Event{}
	if err := json.Unmarshal(line, e); err != nil {
		bug("journal: %v in %q", err, line)
	}
	return e
}

// finish waits for the end of the process and says what it did; nil: it did not end by itself in a minute.
func (p *process) finish() *cliRun {
	t, r, plan := p.t, p.r, p.plan
	for _, f := range p.files {
		f.Close()
	}
	p.cmd.Wait()
	p.timer.Stop()
	if p.late {
		return nil
	}
	st := p.cmd.ProcessState.Sys().(syscall.WaitStatus)
	r.exit = st.ExitStatus()
	if st.Signaled() {
		r.signal = st.Signal().String()
	}
	std := &simkernel.File{Data: append([]byte(nil), plan.StdoutOld...)}
	for i := range r.events {
		e := &r.events[i]
		switch {
		case plan.StdoutFile && e.Target == "<stdout>" && e.Err == "" && (e.Op == "write" || e.Op == "truncate"):
			simkernel.ApplyTo(std, e)
		case e.Op == "kill":
			r.killed = true
			t.Count("fault:kill " + e.Target + " a system call")
		case e.Op == "overrun":
			r.over = true
		case e.Op == "unknown":
			bug("system call %s is not simulated", e.Target)
		case e.Op == "write" && e.Err == "" && e.Target == "<stdout>":
			r.stdout = append(r.stdout, e.Data...)
		case e.Op == "write" && e.Err == "" && e.Target == "<stderr>":
			r.stderr = append(r.stderr, e.Data...)
		}
		if e.Fault != "" && e.Fault != "errno" {
			t.Count(e.Op + ":" + e.Fault)
		}
		if e.Fault == "errno" {
			t.Count("fault:" + e.Op + ":" + e.Err)
		}
		if len(plan.Lat) > 0 {
			t.Sim += plan.Lat[i%len(plan.Lat)]
		}
		if !plan.Turns {
			t.Ev("%s", eventString(e))
		}
	}
	if plan.StdoutFile {
		if r.stdout = bytes.TrimPrefix(std.Data, plan.StdoutOld); !bytes.HasPrefix(std.Data, plan.StdoutOld) {
			r.stdout = append([]byte("(what was there before is gone)"), r.stdout...)
		}
	}
	r.stderr = append(r.stderr, p.real.Bytes()...)
	if r.exit == 96 && !st.Signaled() {
		bug("simulated process: %s", r.stderr)
	}
	return r
}

// spawn runs a command line tool on a simulated kernel, in a process of its own.
func (t *T) spawn(bin string, plan *simkernel.Plan) *cliRun {
	r := t.spawn1(bin, plan)
	if r == nil { // the machine may have been busy with other things
		r = t.spawn1(bin, plan)
	}
	if r == nil {
		bug("watchdog: simulated process did not finish")
	}
	t.Ev("exit status %d %s", r.exit, r.signal)
	return r
}

func (t *T) spawn1(bin string, plan *simkernel.Plan) *cliRun {
	p := t.start(bin, plan)
	for e := p.next(); e != nil; e = p.next() {
		p.r.events = append(p.r.events, *e)
	}
	p.r.files = copyFiles(plan.Files)
	for i := range p.r.events {
		simkernel.Apply(p.r.files, &p.r.events[i])
	}
	return p.finish()
}

// copyFiles copies the regular files.
func copyFiles(files map[string]*simkernel.File) map[string]*simkernel.File {
	out := map[string]*simkernel.File{}
	for p, f := range files {
		if !f.Dir {
			out[p] = &simkernel.File{Data: append([]byte(nil), f.Data...), Mode: f.Mode, Mtime: f.Mtime, Kind: f.Kind, Link: f.Link}
		}
	}
	for p, f := range files {
		if f.Same != "" && out[p] != nil && out[f.Same] != nil {
			out[p] = out[f.Same]
		}
	}
	return out
}

func eventString(e *simkernel.Event) string {
	s := fmt.Sprintf("%d %s %s", e.I, e.Op, e.Target)
	if e.To != "" {
		s += " " + e.To
	}
	if e.Op == "read" || e.Op == "write" || e.Op == "truncate" {
		s += fmt.Sprintf(" off=%d n=%d", e.Off, e.N)
	}
	if e.Err != "" {
		s += " -> " + e.Err
	}
	if e.Fault != "" {
		s += " (" + e.Fault + ")"
	}
	return s
}

// world is what the command is started in.
type world struct {
	plan  *simkernel.Plan
	input []byte
	in    string // path; empty: standard input
	out   string // path; empty: standard output
	ok    bool   // the library translates the input
	src   []byte // and this is what it makes of it
	why   string // or this is its error

	params       asn1go.GenParams
	inArg, outAt int // where in the arguments the names are
}

func (w *world) String() string {
	from, to := w.in, w.out
	if from == "" {
		from = "stdin"
	}
	if to == "" {
		to = "stdout"
	}
	return fmt.Sprintf("%v: %d bytes from %s to %s", w.plan.Args[1:], len(w.input), from, to)
}

var inNames = []string{"m.asn1", "/work/m.asn1", "./in put.asn1", "100%d%s.asn1", "/data/rfc.asn1", "sub/../m.asn1"}
var outNames = []string{"out.go", "/work/out.go", "./o ut.go", "%v%n.go", "/gen/out.go", "m.asn1.go"}

func workPath(n string) string {
	if !strings.HasPrefix(n, "/") {
		n = "/work/" + n
	}
	return filepath.Clean(n)
}

// drawWorld draws input, flags and files. good: a translatable input; bad: one that is not.
func drawWorld(t *T, good, bad bool) *world {
	w := &world{plan: &simkernel.Plan{Files: map[string]*simkernel.File{}, DiskCap: -1, StdoutCap: -1, Seed: uint64(t.N(1000)) + 1, Budget: 40000000,
		ProcStart: 1600000000 + int64(t.N(1<<28))}}
	p := w.plan
	kind := 0
	switch {
	case bad:
		kind = 1 + t.N(4)
	case !good:
		kind = t.W(6, 1, 1, 1, 1)
	}
	switch kind {
	case 0:
		w.input = wellFormed(t.Tape, modcfg(t.Tape, true)).b
		if t.P(1, 40) { // a long comment, so that reads and writes have something to split
			w.input = append(w.input, []byte("\n-- "+strings.Repeat("padding ", t.Range(1000, 9000))+"\n")...)
		}
	case 1:
		cfg := modcfg(t.Tape, t.P(1, 2))
		cfg.Tags = 3
		w.input = wellFormed(t.Tape, cfg).b
	case 2:
		x := wellFormed(t.Tape, modcfg(t.Tape, false))
		w.input = corrupt(t, x.b, x.starts)
	case 4: // any number of reasons, around a power of 2 for one
		n := 1 + t.N(40)
		if t.P(1, 2) {
			n = []int{127, 128, 255, 256, 257, 512, 1024}[t.N(7)]
		}
		what := []string{"NULL", "Missing", "SEQUENCE { a NULL, COMPONENTS OF A0 }"}[t.W(6, 1, 1)]
		w.input = []byte("M DEFINITIONS ::= BEGIN\n")
		for i := 0; i < n; i++ {
			w.input = append(w.input, fmt.Sprintf("A%d ::= %s\n", i, what)...)
		}
		w.input = append(w.input, "END\n"...)
		t.Count("input:many reasons")
	default:
		w.input, _, _ = anyText(t)
	}
	params := asn1go.GenParams{}
	p.Args = []string{"asn1go"}
	if t.P(1, 4) {
		params.Package = packages[1+t.N(len(packages)-1)]
		p.Args = append(p.Args, "-package", params.Package)
	}
	switch t.W(6, 2, 2, 1) {
	case 1:
		params.IntegerRepr = "big.Int"
		p.Args = append(p.Args, "-default-integer-repr=big.Int")
	case 2:
		params.IntegerRepr = "int64"
		p.Args = append(p.Args, "--default-integer-repr", "int64")
	case 3:
		if !good {
			params.IntegerRepr = "int128"
			p.Args = append(p.Args, "-default-integer-repr", "int128")
		}
	}
	mode := []uint32{0o644, 0o600, 0o666}
	form := t.W(4, 2, 2) // file to file, file to stdout, stdin to stdout
	if form < 2 {
		n := inNames[t.N(len(inNames))]
		w.in = workPath(n)
		w.inArg = len(p.Args)
		p.Args = append(p.Args, n)
		p.Files[w.in] = &simkernel.File{Data: w.input, Mode: mode[t.N(3)]}
	} else {
		p.Stdin = w.input
	}
	w.params = params
	w.translate(t)
	drawStd(t, p, form == 2, form > 0)
	if form == 0 {
		n := outNames[t.N(len(outNames))]
		w.out = workPath(n)
		if t.P(1, 10) {
			n, w.out = p.Args[len(p.Args)-1], w.in
			t.Count("output is the input")
		}
		w.outAt = len(p.Args)
		p.Args = append(p.Args, n)
		if w.out != w.in {
			if old, exists := oldOutput(t, w.src); exists {
				p.Files[w.out] = &simkernel.File{Data: old, Mode: mode[t.N(3)]}
			}
		}
	}
	p.Files["/data"] = &simkernel.File{Dir: true}
	p.Files["/gen"] = &simkernel.File{Dir: true}
	p.Files["/work/sub"] = &simkernel.File{Dir: true}
	for _, n := range []string{"/work/keep.go", "/work/out.go.tmp", "/gen/out.go~", "/tmp/asn1go", "/data/other.asn1"} {
		if t.P(1, 2) {
			p.Files[n] = &simkernel.File{Data: []byte("precious " + n + "\n"), Mode: 0o644}
		}
	}
	for _, n := range sortedKeys(names(p.Files)) { // of any age, or from the future
		if f := p.Files[n]; !f.Dir {
			f.Mtime = drawMtime(t, p.ProcStart)
		}
	}
	p.Pid = 2 + t.W(3, 1, 1)
	p.Reads = readsPlan(t.Tape)
	p.Writes = readsPlan(t.Tape)
	p.Lat = t.lats()
	t.Ev("input %s", cut(fmt.Sprintf("%q", w.input), 300))
	t.Ev("%s; library: %s", w, map[bool]string{true: fmt.Sprintf("source of %d bytes", len(w.src)), false: cut(w.why, 100)}[w.ok])
	if f := p.Files[w.out]; f != nil {
		t.Ev("existing output: %d bytes", len(f.Data))
	}
	t.Ev("reads %v writes %v", p.Reads, p.Writes)
	t.Mark(string(w.input))
	t.Mark(fmt.Sprint(w.plan.Args, p.Reads, p.Writes))
	t.Count(map[bool]string{true: "input:translatable", false: "input:not translatable"}[w.ok])
	t.Count([]string{"file to file", "file to stdout", "stdin to stdout"}[form])
	return w
}

func names(files map[string]*simkernel.File) map[string]bool {
	m := map[string]bool{}
	for n := range files {
		m[n] = true
	}
	return m
}

func drawMtime(t *T, now int64) int64 {
	switch t.W(3, 3, 1, 1, 1) {
	case 0:
		return now*1e9 - 1
	case 1:
		return (now - 1 - int64(t.N(1<<26))) * 1e9
	case 2:
		return (now + 1 + int64(t.N(1<<20))) * 1e9
	case 3:
		return 1 // 1970
	}
	return now*1e9 - int64(t.N(1<<30))
}

// translate asks the library.
func (w *world) translate(t *T) {
	w.ok, w.src, w.why = false, nil, ""
	o := t.parseString(string(w.input))
	if o.o.Over || o.o.Panic != "" {
		w.why = "?"
	} else if o.err != nil {
		w.why = o.err.Error()
	} else if g := t.generate(asn1go.NewCodeGenerator(w.params), o.mod, newWriter(t)); !g.usable() {
		w.why = "?"
	} else if g.err != nil {
		w.why = g.err.Error()
	} else {
		w.ok, w.src = true, g.acc
	}
}

// drawStd decides what the standard streams are: pipes, or files that somebody used before.
func drawStd(t *T, p *simkernel.Plan, in, out bool) {
	if in && t.P(1, 4) {
		skip := []byte("-- read by somebody else\n")[:t.N(26)]
		p.StdinFile, p.StdinOff = true, int64(len(skip))
		p.Stdin = append(skip, p.Stdin...)
		t.Ev("standard input is a file, at offset %d", p.StdinOff)
		t.Mark(fmt.Sprint("stdin file ", p.StdinOff))
		t.Count("standard input is a file")
	}
	if out && t.P(1, 4) {
		p.StdoutFile, p.StdoutAppend = true, t.P(1, 2)
		p.StdoutOld = []byte("written by somebody else\n")[:t.N(26)]
		t.Ev("standard output is a file that holds %d bytes, append: %v", len(p.StdoutOld), p.StdoutAppend)
		t.Mark(fmt.Sprint("stdout file ", len(p.StdoutOld), p.StdoutAppend))
		t.Count("standard output is a file")
	}
}

func oldOutput(t *T, src []byte) ([]byte, bool) {
	switch t.W(4, 2, 4, 4, 2, 2, 1, 1) {
	case 6: // hardly different
		old := append([]byte(nil), src...)
		if len(old) > 0 {
			old[t.N(len(old))] ^= 1 << uint(t.N(5))
		}
		return old, true
	case 7: // as if written by a run that was killed
		return append([]byte(nil), src[:t.N(len(src)+1)]...), true
	case 1:
		return nil, true
	case 2: // longer than what will be written
		return []byte(strings.Repeat("stale line of an old run\n", 2+t.N(4)+len(src)/20)), true
	case 3:
		return []byte("package old\n"), true
	case 4:
		return append([]byte(nil), src...), true
	case 5:
		return append(append([]byte(nil), src...), []byte("type Old = int64\n")...), true
	}
	return nil, false
}

func errnos(l ...syscall.Errno) []int {
	var out []int
	for _, e := range l {
		out = append(out, int(e))
	}
	return out
}

var (
	openErrs  = errnos(syscall.EACCES, syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EPERM, syscall.ELOOP)
	readErrs  = errnos(syscall.EIO, syscall.EISDIR, syscall.ENOMEM, syscall.ESTALE)
	writeErrs = errnos(syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.ESTALE)
	closeErrs = errnos(syscall.EIO, syscall.ENOSPC, syscall.EDQUOT)
)

func (w *world) dest() string {
	if w.out == "" {
		return "<stdout>"
	}
	return w.out
}

func (w *world) source() string {
	if w.in == "" {
		return "<stdin>"
	}
	return w.in
}

func (t *T) pick(l []int) int { return l[t.N(len(l))] }

// inputFault makes the input unreadable.
func (w *world) inputFault(t *T) string {
	p := w.plan
	if w.in != "" {
		switch t.W(4, 2, 1, 1, 1) {
		case 1:
			p.Faults = append(p.Faults, &simkernel.Fault{Op: "open", Target: w.in, Errno: t.pick(openErrs)})
			return "open of the input fails"
		case 2:
			delete(p.Files, w.in)
			t.decoy(p, w.in)
			return "input does not exist"
		case 3:
			p.Files[w.in] = &simkernel.File{Dir: true}
			return "input is a directory"
		case 4:
			p.Files[w.in].NoRead = true
			return "input is not readable"
		}
	}
	n := t.N(3)
	if t.P(1, 3) {
		n = t.N(12)
	}
	if t.P(1, 3) { // make sure there are that many reads
		p.Reads = []int{1 + len(w.input)/(n+2)}
	}
	p.Faults = append(p.Faults, &simkernel.Fault{Op: "read", Target: w.source(), Nth: n, Errno: t.pick(readErrs), Sticky: t.P(1, 2)})
	return fmt.Sprintf("read %d of the input fails", n)
}

// outputFault makes the output fail.
func (w *world) outputFault(t *T) string {
	p := w.plan
	k := t.W(4, 3, 3)
	if w.out != "" {
		k = t.W(4, 3, 3, 2, 2, 1, 1, 1, 1)
	}
	switch k {
	case 1:
		c := int64(t.N(len(w.src) + 1))
		if t.P(1, 3) {
			c = int64(len(w.src)) - int64(t.N(3))
			if c < 0 {
				c = 0
			}
		}
		if w.out == "" {
			p.StdoutCap = c
		} else {
			p.DiskCap = c
		}
		return fmt.Sprintf("room for %d bytes of output", c)
	case 2:
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "close", Target: w.dest(), Errno: t.pick(closeErrs)})
		return "close of the output fails"
	case 3:
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "open", Target: w.out, Nth: t.W(5, 1), Errno: t.pick(openErrs)})
		return "open of the output fails"
	case 4:
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "truncate", Target: w.out, Errno: t.pick(errnos(syscall.EIO, syscall.EPERM, syscall.EINVAL))})
		return "truncation of the output fails"
	case 5:
		p.Files[w.out] = &simkernel.File{Dir: true}
		return "output is a directory"
	case 6:
		if f := p.Files[w.out]; f != nil {
			f.NoWrite = true
		} else {
			p.Files[w.out] = &simkernel.File{NoWrite: true, Mode: 0o444}
		}
		return "output is not writable"
	case 7:
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "rename", Errno: int(syscall.EIO)})
		return "renames fail"
	case 8:
		if w.in == w.out {
			break
		}
		delete(p.Files, w.out)
		p.Args[len(p.Args)-1] = "/missing/out.go"
		w.out = "/missing/out.go"
		return "directory of the output does not exist"
	}
	f := &simkernel.Fault{Op: "write", Target: w.dest(), Nth: t.W(3, 1, 1), Errno: t.pick(writeErrs), Sticky: t.P(1, 2)}
	if t.P(1, 2) {
		f.Part = 1 + t.N(1+len(w.src))
	}
	if w.out == "" && t.P(1, 4) {
		f.Errno = int(syscall.EPIPE)
	}
	p.Faults = append(p.Faults, f)
	return fmt.Sprintf("write %d of the output fails", f.Nth)
}

// content is the destination after the run; nil, false if it does not exist.
func (r *cliRun) content(w *world) ([]byte, bool) {
	if w.out == "" {
		return r.stdout, true
	}
	f := r.files[w.out]
	if f == nil {
		return nil, false
	}
	return f.Data, true
}

// others says which other file changed; new files count only if fresh is set.
func (r *cliRun) others(w *world, fresh bool) string {
	var names []string
	for p := range w.plan.Files {
		names = append(names, p)
	}
	for p := range r.files {
		if _, ok := w.plan.Files[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		was, now := w.plan.Files[p], r.files[p]
		switch {
		case p == w.out || (was != nil && was.Dir):
		case was == nil && fresh:
			return fmt.Sprintf("%s was created", p)
		case was == nil:
		case now == nil:
			return fmt.Sprintf("%s is gone", p)
		case !bytes.Equal(was.Data, now.Data):
			return fmt.Sprintf("%s holds %q, was %q", p, cut(string(now.Data), 100), cut(string(was.Data), 100))
		case was.Mode != now.Mode:
			return fmt.Sprintf("%s has mode %o, was %o", p, now.Mode, was.Mode)
		case was.Kind != now.Kind || was.Link != now.Link:
			return fmt.Sprintf("%s was replaced", p)
		}
	}
	return ""
}

func (t *T) skipCLI(r *cliRun, w *world) bool {
	if w.why == "?" {
		t.Count("skipped:library does not answer")
		return true
	}
	return false
}

func init() {
	real := "the whole asn1go command (cmd/asn1go/main.go and the library, instrumented, with the Go runtime and package os), one process per run"
	stub := "the operating system: file system, descriptors, standard streams and errors come from a simulated kernel behind package syscall; kills are real"
	register(&Prop{ID: "C11", Quick: 20000, Thorough: 250000, Chunk: 50,
		Rule: "distinct (input, arguments, files, read and write schedule, faults) in which a fault fired or the input can not be translated; measure: hash of those", Real: real, Stub: stub,
		Assume: []string{"a death by signal (SIGPIPE) needs no diagnostic", "the library, called in this process, tells which inputs can be translated and what the complete source is"}, Run: runC11})
	register(&Prop{ID: "C12", Quick: 20000, Thorough: 250000, Chunk: 50,
		Rule: "distinct (input, arguments, files, previous output, read and write schedule) with a translatable input; measure: hash of those", Real: real, Stub: stub,
		Assume: []string{"the library, called in this process, is the reference for the source"}, Run: runC12})
	register(&Prop{ID: "C13", Quick: 20000, Thorough: 250000, Chunk: 50,
		Rule: "distinct (input, arguments, files, read schedule, input faults) in which the input fails; measure: hash of those", Real: real, Stub: stub, Run: runC13})
	register(&Prop{ID: "C14", Quick: 24000, Thorough: 300000, Chunk: 50,
		Rule: "distinct (input, arguments, files, read and write schedule, faults, kill point) in which the process was killed or a fault fired; measure: hash of those", Real: real, Stub: stub,
		Assume: []string{"a system call is atomic, except that a write may be cut in half; what the kernel accepted survives the kill (no power failure)"}, Run: runC14})
	register(&Prop{ID: "C17", Quick: 20000, Thorough: 250000, Chunk: 50,
		Rule: "distinct (dump, read and write schedule, faults); measure: hash of those", Real: "the whole ws2bin command (cmd/ws2bin/main.go, internal/utils, instrumented, with the Go runtime and package os), one process per run", Stub: stub,
		Assume: []string{"a dump line is an offset and bytes of one or two hexadecimal digits, separated by spaces; three or more digits are not generated unless they exceed a byte",
			"a failing fsync of standard output is not a failing write (pipes do not support it)"}, Run: runC17})
}

// hit tells whether a fault of interest was served.
func (r *cliRun) hit(w *world) string {
	for i := range r.events {
		e := &r.events[i]
		if e.Err == "" || e.Target == "<stderr>" || (e.Fault != "errno" && e.Fault != "full") {
			continue
		}
		switch e.Op {
		case "open":
			if e.Target != w.source() && e.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
				continue // looked at something it does not depend on
			}
			return eventString(e)
		case "read", "write", "truncate", "rename":
			return eventString(e)
		case "close":
			if e.Target != w.source() || e.Target == w.dest() && r.wrote(w) {
				return eventString(e)
			}
		}
	}
	return ""
}

func (r *cliRun) wrote(w *world) bool {
	for i := range r.events {
		if e := &r.events[i]; e.Target == w.dest() && (e.Op == "write" || e.Op == "truncate") {
			return true
		}
	}
	return false
}

func runC11(t *T) {
	w := drawWorld(t, false, false)
	p := w.plan
	var faults []string
	switch t.W(2, 3, 5, 1) {
	case 1:
		faults = append(faults, w.inputFault(t))
	case 2:
		faults = append(faults, w.outputFault(t))
	case 3:
		faults = append(faults, w.inputFault(t), w.outputFault(t))
	}
	deaf := t.P(1, 12)
	if deaf {
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "write", Target: "<stderr>", Errno: int(syscall.EIO), Sticky: true})
		faults = append(faults, "standard error does not work")
	}
	if t.P(1, 40) {
		p.Args = append(p.Args, "one", "two", "three")
		faults = append(faults, "too many arguments")
	} else if t.P(1, 80) {
		p.Args = append([]string{p.Args[0], []string{"-bogus", "--Package=x", "-="}[t.N(3)]}, p.Args[1:]...)
		faults = append(faults, "strange flags")
	}
	t.Ev("faults: %v", faults)
	t.Mark(fmt.Sprint(faults))
	for _, f := range p.Faults {
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	r := t.spawn("cli-asn1go", p)
	desc := fmt.Sprintf("%s with %v", w, faults)
	if t.skipCLI(r, w) {
		return
	}
	hit := r.hit(w)
	t.Nontrivial = hit != "" || !w.ok || len(faults) > 0
	if r.over {
		t.Count("skipped:does not end")
		return
	}
	if r.exit == 0 && r.signal == "" {
		if hit != "" {
			t.Fail("success claimed despite a failure", "%s: exit status 0, although: %s", desc, hit)
		}
		if !w.ok {
			t.Fail("success claimed for bad input", "%s: exit status 0, although: %s", desc, w.why)
		}
		if got, ok := r.content(w); !ok || !bytes.Equal(got, w.src) {
			t.Fail("success claimed without the output", "%s: exit status 0, destination holds %d of %d bytes (exists: %v): %s", desc, len(got), len(w.src), ok, diff(string(got), string(w.src)))
		}
		read, eof := int64(0), false
		for i := range r.events {
			e := &r.events[i]
			if e.Op == "read" && e.Target == w.source() && e.Err == "" {
				if n := e.Off + e.N - p.StdinOff; read < n {
					read = n
				}
				eof = eof || e.N == 0
			}
		}
		if read < int64(len(w.input)) {
			t.Fail("success claimed without reading all", "%s: exit status 0, only %d of %d bytes were read", desc, read, len(w.input))
		}
		// whatever was written to has to be closed in time to know that it is there
		open := map[string]int{}
		for i := range r.events {
			e := &r.events[i]
			switch {
			case e.Op == "write" && e.Target == w.dest():
				open[e.Target] = 1
			case e.Op == "close" && e.Target == w.dest() && e.Err == "":
				open[e.Target] = 0
			}
		}
		if open[w.dest()] != 0 {
			t.Fail("success claimed without closing", "%s: exit status 0, but %s was not closed", desc, w.dest())
		}
		t.Count("exit:0")
		return
	}
	t.Count("exit:not 0")
	if r.signal != "" {
		if r.signal != "broken pipe" {
			t.Fail("died", "%s: died of a signal: %s", desc, r.signal)
		}
		t.Count("died of SIGPIPE")
		return
	}
	if !deaf && len(bytes.TrimSpace(r.stderr)) == 0 {
		t.Fail("no diagnostic", "%s: exit status %d and nothing on standard error", desc, r.exit)
	}
}

func runC12(t *T) {
	w := drawWorld(t, true, false)
	r := t.spawn("cli-asn1go", w.plan)
	if t.skipCLI(r, w) || !w.ok {
		t.Count("skipped:not translatable")
		return
	}
	t.Nontrivial = true
	desc := w.String()
	switch {
	case r.over:
		t.Fail("does not end", "%s", desc)
	case r.exit != 0 || r.signal != "":
		t.Fail("failed without cause", "%s: exit status %d %s: %s", desc, r.exit, r.signal, cut(string(r.stderr), 300))
	}
	got, ok := r.content(w)
	if !ok {
		t.Fail("no output", "%s", desc)
	}
	if !bytes.Equal(got, w.src) {
		t.Fail("wrong output", "%s: %d bytes, want %d: %s", desc, len(got), len(w.src), diff(string(got), string(w.src)))
	}
	if w.out != "" && len(r.stdout) > 0 {
		t.Fail("output in the wrong place", "%s: %d bytes on standard output", desc, len(r.stdout))
	}
	if d := r.others(w, true); d != "" {
		t.Fail("other files changed", "%s: %s", desc, d)
	}
}

func runC13(t *T) {
	broken := t.P(1, 2)
	w := drawWorld(t, broken, !broken)
	fault := "none"
	if broken {
		fault = w.inputFault(t)
	} else if w.ok {
		t.Count("skipped:translatable after all")
		return
	}
	if t.P(1, 8) {
		w.plan.Faults = append(w.plan.Faults, &simkernel.Fault{Op: "write", Target: "<stderr>", Errno: int(syscall.EIO), Sticky: true})
		fault += ", standard error does not work"
	}
	t.Ev("fault: %s", fault)
	t.Mark(fault)
	for _, f := range w.plan.Faults {
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	r := t.spawn("cli-asn1go", w.plan)
	if r.over || t.skipCLI(r, w) {
		return
	}
	if broken {
		failed := false
		for i := range r.events {
			e := &r.events[i]
			if (e.Op == "open" || e.Op == "read") && e.Target == w.source() && e.Err != "" && e.Err != syscall.EINTR.Error() {
				failed = true
			}
		}
		if !failed {
			t.Count("fault not reached")
			return
		}
	}
	t.Nontrivial = true
	desc := fmt.Sprintf("%s, input failure: %s %s", w, fault, cut(w.why, 100))
	if len(r.stdout) > 0 {
		t.Fail("output despite bad input", "%s: %d bytes on standard output", desc, len(r.stdout))
	}
	if w.out != "" && w.out != w.in {
		was, now := w.plan.Files[w.out], r.files[w.out]
		switch {
		case was == nil && now != nil:
			t.Fail("output file created", "%s: %s was created (%d bytes)", desc, w.out, len(now.Data))
		case was != nil && now == nil:
			t.Fail("output file gone", "%s: %s is gone", desc, w.out)
		case was != nil && !bytes.Equal(was.Data, now.Data):
			t.Fail("output file changed", "%s: %s had %d bytes, has %d", desc, w.out, len(was.Data), len(now.Data))
		}
	}
	if w.out == w.in && w.out != "" && w.plan.Files[w.in] != nil && !w.plan.Files[w.in].Dir {
		now := r.files[w.in]
		if now == nil || !bytes.Equal(now.Data, w.plan.Files[w.in].Data) {
			t.Fail("input file changed", "%s", desc)
		}
	}
	if d := r.others(w, true); d != "" {
		t.Fail("other files changed", "%s: %s", desc, d)
	}
}

func runC14(t *T) {
	w := drawWorld(t, false, false)
	p := w.plan
	var faults []string
	switch t.W(3, 1, 3) {
	case 1:
		faults = append(faults, w.inputFault(t))
	case 2:
		faults = append(faults, w.outputFault(t))
	}
	if len(faults) == 0 || t.P(1, 2) {
		at := t.N(1 << uint(t.Range(2, 6)))
		p.Kill = &simkernel.Kill{At: at, Phase: t.N(3)}
		faults = append(faults, fmt.Sprintf("kill at system call %d (%s)", at, []string{"before", "after", "half-way"}[p.Kill.Phase]))
	}
	if t.P(1, 8) {
		t.occupy(w)
	}
	t.Ev("faults: %v", faults)
	t.Mark(fmt.Sprint(faults))
	for _, f := range p.Faults {
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	r := t.spawn("cli-asn1go", p)
	if t.skipCLI(r, w) {
		return
	}
	if p.Kill != nil && !r.killed {
		t.Count("kill not reached")
	}
	t.Nontrivial = r.killed || r.hit(w) != ""
	desc := fmt.Sprintf("%s with %v", w, faults)
	if d := r.others(w, false); d != "" {
		t.Fail("other files changed", "%s: %s", desc, d)
	}
	if w.out == "" {
		return
	}
	was, now := p.Files[w.out], r.files[w.out]
	switch {
	case was != nil && was.Dir:
	case now == nil && was == nil:
	case now == nil:
		t.Fail("output file gone", "%s", desc)
	case was != nil && bytes.Equal(was.Data, now.Data):
		t.Count("output: previous contents")
	case w.ok && bytes.HasPrefix(w.src, now.Data):
		t.Count("output: prefix of the new source")
		if len(now.Data) > 0 && len(now.Data) < len(w.src) {
			t.Count("output: part of the new source")
		}
	default:
		t.Fail("output is neither old nor new", "%s: %s", desc, diff(string(now.Data), string(w.src)))
	}
}

// occupy runs the command once without faults, and puts files of somebody else wherever it made some.
func (t *T) occupy(w *world) {
	p := *w.plan
	p.Kill, p.Faults, p.DiskCap, p.StdoutCap = nil, nil, -1, -1
	r := t.spawn("cli-asn1go", &p)
	for i := range r.events {
		e := &r.events[i]
		for _, n := range []string{e.Target, e.To} {
			if !strings.HasPrefix(n, "/") || n == w.out || n == w.in || p.Files[n] != nil || e.Op == "mkdir" || e.Op == "stat" || e.Op == "open" && e.To != "created" {
				continue
			}
			w.plan.Files[n] = &simkernel.File{Data: []byte("precious " + n + "\n"), Mode: 0o644}
			t.Ev("%s belongs to somebody else", n)
			t.Mark(n)
		}
	}
	t.Count("names of temporary files taken")
}

// dumpText writes a hex dump; want is what it stands for. Where the dump is
// malformed only for those to whom other white space than the space is part of
// a byte, lenient is what it stands for to others.
func dumpText(t *T) (b []byte, want []byte, lenient []byte, ok bool) {
	ok = true
	want = []byte{}
	skipAt, skip := 0, []byte(nil)
	bad := -1
	lines := t.Range(0, 6)
	if t.P(1, 10) {
		lines = t.Range(100, 600)
	}
	if t.P(1, 3) {
		bad = t.N(lines + 1)
	}
	var s strings.Builder
	offset, form := 0, "%04x"
	if t.P(1, 4) {
		form = []string{"%08x", "%06X", "%x", "%03x", "%d"}[t.N(5)]
	}
	for i := 0; i < lines; i++ {
		end := t.Span()
		if t.P(1, 20) {
			offset = t.N(1 << 17) // another packet, or one that was cut
			if t.P(1, 2) {
				offset = 0
			}
		}
		s.WriteString(fmt.Sprintf(form, offset))
		s.WriteString(strings.Repeat(" ", 1+t.W(1, 4)))
		n := 16
		switch t.W(12, 6, 1) {
		case 1:
			n = t.N(17)
		case 2:
			n = t.N(70)
		}
		if t.P(1, 400) { // more than any buffer
			n = t.Range(1000, 30000)
		}
		offset += n
		at := -1
		if i == bad {
			at = t.N(n + 1)
		}
		for j := 0; j < n; j++ {
			if j == at {
				bad := badBytes[t.N(len(badBytes))]
				switch bad {
				case "1f\r":
					skipAt, skip, bad = len(want), []byte{0x1f}, " "+bad
				case "1\t2":
					skipAt, skip, bad = len(want), []byte{1, 2}, " "+bad
				}
				s.WriteString(bad + " ")
				ok = false
			}
			end := t.Span()
			if j > 0 {
				s.WriteString(strings.Repeat(" ", 1+t.W(8, 1)))
			}
			v := byte(t.N(256))
			want = append(want, v)
			switch t.W(8, 1, 1) {
			case 1:
				s.WriteString(fmt.Sprintf("%02X", v))
			case 2:
				s.WriteString(fmt.Sprintf("%x", v))
			default:
				s.WriteString(fmt.Sprintf("%02x", v))
			}
			end()
		}
		if t.P(1, 8) {
			s.WriteString("  ")
		}
		if i < lines-1 || t.P(2, 3) {
			s.WriteString("\n")
		}
		if t.P(1, 20) {
			s.WriteString("\n")
		}
		end()
	}
	if skip != nil {
		lenient = append(append(append(lenient, want[:skipAt]...), skip...), want[skipAt:]...)
	}
	return []byte(s.String()), want, lenient, ok
}

var badBytes = []string{"zz", "100", "fff", "0g", "+1", "-1", "0x1f", "1_0", "é", "1f\r", "1\t2", ".", "3q", "\x00", "abcd"}

func runC17(t *T) {
	b, want, lenient, ok := dumpText(t)
	p := &simkernel.Plan{Args: []string{"ws2bin"}, Files: map[string]*simkernel.File{}, Stdin: b, DiskCap: -1, StdoutCap: -1, Seed: 1, Budget: 40000000,
		Reads: readsPlan(t.Tape), Writes: readsPlan(t.Tape), Lat: t.lats()}
	drawStd(t, p, true, true)
	var faults []string
	if t.P(1, 3) {
		n := t.N(3)
		p.Faults = append(p.Faults, &simkernel.Fault{Op: "read", Target: "<stdin>", Nth: n, Errno: t.pick(readErrs), Sticky: t.P(1, 2)})
		faults = append(faults, fmt.Sprintf("read %d fails", n))
	}
	if t.P(1, 2) {
		switch t.N(3) {
		case 0:
			f := &simkernel.Fault{Op: "write", Target: "<stdout>", Nth: t.W(3, 1, 1), Errno: t.pick(append(append([]int{}, writeErrs...), int(syscall.EPIPE))), Sticky: t.P(1, 2)}
			if t.P(1, 2) {
				f.Part = 1 + t.N(1+len(want))
			}
			p.Faults = append(p.Faults, f)
			faults = append(faults, fmt.Sprintf("write %d fails", f.Nth))
		case 1:
			p.StdoutCap = int64(t.N(len(want) + 2))
			faults = append(faults, fmt.Sprintf("room for %d bytes", p.StdoutCap))
		default:
			p.Faults = append(p.Faults, &simkernel.Fault{Op: "close", Target: "<stdout>", Errno: t.pick(closeErrs)})
			faults = append(faults, "close fails")
		}
	}
	t.Ev("dump of %d bytes, %d bytes decoded, well-formed: %v: %s", len(b), len(want), ok, cut(fmt.Sprintf("%q", b), 200))
	t.Ev("faults %v reads %v writes %v", faults, p.Reads, p.Writes)
	t.Mark(string(b))
	t.Mark(fmt.Sprint(p.Reads, p.Writes, faults))
	for _, f := range p.Faults {
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	t.Count(map[bool]string{true: "input:well-formed", false: "input:malformed"}[ok])
	t.Nontrivial = true
	r := t.spawn("cli-ws2bin", p)
	desc := fmt.Sprintf("%q with %v, reads %v writes %v", cut(string(b), 500), faults, p.Reads, p.Writes)
	hit, unread := "", false
	for i := range r.events {
		e := &r.events[i]
		if (e.Fault == "errno" || e.Fault == "full") && e.Err != "" && e.Target != "<stderr>" && (e.Op == "read" || e.Op == "write" || e.Op == "close") {
			hit = eventString(e)
			unread = unread || e.Op == "read"
		}
	}
	if lenient != nil && !r.over && !unread && (r.exit == 0 || hit != "") && bytes.HasPrefix(lenient, r.stdout) {
		t.Count("read as well-formed:other white space")
		want, ok = lenient, true
	}
	switch {
	case r.over:
		t.Fail("does not end", "%s", desc)
	case r.exit == 0 && r.signal == "":
		if !ok {
			t.Fail("malformed dump accepted", "%s: exit status 0, output %q", desc, cut(string(r.stdout), 100))
		}
		if hit != "" {
			t.Fail("success claimed despite a failure", "%s: exit status 0, although %s", desc, hit)
		}
		if !bytes.Equal(r.stdout, want) {
			t.Fail("wrong bytes", "%s: exit status 0, %d bytes, want %d: %s", desc, len(r.stdout), len(want), diff(fmt.Sprintf("%x", r.stdout), fmt.Sprintf("%x", want)))
		}
		closed := false
		for i := range r.events {
			closed = closed || r.events[i].Op == "close" && r.events[i].Target == "<stdout>"
		}
		if !closed && len(want) > 0 {
			t.Fail("success claimed without closing", "%s", desc)
		}
	case ok && hit == "":
		t.Fail("failed without cause", "%s: exit status %d %s: %s", desc, r.exit, r.signal, cut(string(r.stderr), 300))
	}
	if (!ok || unread) && len(r.stdout) > 0 {
		t.Fail("output despite bad input", "%s: %d bytes", desc, len(r.stdout))
	}
	if ok && !unread && !bytes.HasPrefix(want, r.stdout) {
		t.Fail("wrong bytes", "%s: output is not a prefix", desc)
	}
}
