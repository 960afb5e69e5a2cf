package main

import (
	"bytes"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"asn1sim/simkernel"

	"github.com/chemikadze/asn1go"
)

func init() {
	register(&Prop{ID: "C15", Quick: 60000, Thorough: 1500000, Chunk: 400,
		Rule: "distinct (file contents, calls, read schedule, faults); measure: hash of those",
		Real: "ParseFile and what it calls, with package os (instrumented library)",
		Stub: "the operating system: file system, descriptors and errors come from a simulated kernel behind package syscall",
		Assume: []string{"a failing close of the input loses nothing and may or may not be reported", "for malformed contents a syntax error found before the failing read may be reported instead of the failure",
			"whatever is appended to the file before its end was seen belongs to its contents"},
		Run: runC15})
	register(&Prop{ID: "C16", Quick: 240000, Thorough: 1500000, Chunk: 400,
		Rule: "distinct (value, previous file, requested mode, write schedule, faults); measure: hash of those",
		Real: "MarshalToFile, with package os (instrumented library)",
		Stub: "the operating system: file system, descriptors, disk space and errors come from a simulated kernel behind package syscall (umask 022)",
		Assume: []string{"encoding/asn1 is the reference for the encoding", "a system call is atomic, except that a write may be cut short",
			"the mode of a file that existed is not looked at"},
		Run: runC16})
}

// carries tells whether err says that e was the cause.
func carries(err error, e syscall.Errno) bool {
	return err != nil && (errors.Is(err, e) || strings.Contains(err.Error(), e.Error()))
}

// sameFiles says which file is not as it was.
func sameFiles(k *simkernel.Kernel, want map[string]*simkernel.File, except string) string {
	now := k.Snapshot()
	for _, p := range sortedNames(want, now) {
		w, ok := want[p]
		n, ok2 := now[p]
		switch {
		case p == except || ok && w.Dir:
		case !ok:
			return fmt.Sprintf("%s was created", p)
		case !ok2:
			return fmt.Sprintf("%s is gone", p)
		case !bytes.Equal(w.Data, n.Data):
			return fmt.Sprintf("%s holds %q, was %q", p, cut(string(n.Data), 100), cut(string(w.Data), 100))
		case w.Mode != n.Mode:
			return fmt.Sprintf("%s has mode %o, was %o", p, n.Mode, w.Mode)
		case w.Kind != n.Kind || w.Link != n.Link:
			return fmt.Sprintf("%s was replaced", p)
		}
	}
	return ""
}

func runC15(t *T) {
	type file struct {
		b    []byte
		good bool
	}
	var names []string
	files := map[string]*file{}
	plan := &simkernel.Plan{Files: map[string]*simkernel.File{}, Reads: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
	for i, n := 0, 1+t.W(4, 1, 1); i < n; i++ {
		f := &file{good: t.P(2, 3)}
		if f.good {
			f.b = wellFormed(t.Tape, modcfg(t.Tape, false)).b
		} else {
			f.b, _, _ = anyText(t)
			f.good = false
		}
		name := fmt.Sprintf("/work/m%d.asn1", i)
		plan.Files[name] = &simkernel.File{Data: f.b, Mode: 0o644}
		names = append(names, name)
		files[name] = f
		t.Ev("%s: %d bytes, well-formed: %v: %s", name, len(f.b), f.good, cut(fmt.Sprintf("%q", f.b), 200))
		t.Mark(string(f.b))
	}
	if t.P(1, 6) { // as in /proc
		v := int64(t.W(2, 1)) * int64(t.N(1<<16))
		plan.StatSize = &v
		t.Ev("stat says %d bytes", v)
		t.Mark(fmt.Sprint(v))
		t.Count("fault:stat reports a wrong size")
	}
	faulty := t.P(2, 3)
	if faulty {
		for i, n := 0, 1+t.W(3, 1); i < n; i++ {
			f := &simkernel.Fault{Op: "read", Target: names[t.N(len(names))], Nth: t.N(4), Sticky: t.P(1, 2)}
			switch t.W(4, 2, 1, 1, 1, 1) {
			case 0:
				f.Errno = t.pick(readErrs)
				if t.P(1, 3) {
					f.Nth = t.N(40)
				}
				if t.P(1, 2) { // enough reads to hit one of them
					plan.Reads = []int{1 + len(files[f.Target].b)/(f.Nth+1)}
				}
			case 1:
				f.Op, f.Errno, f.Nth = "open", t.pick(openErrs), t.W(3, 1)
			case 2:
				f.Op, f.Errno = "close", t.pick(closeErrs)
			case 3:
				delete(plan.Files, f.Target)
				t.decoy(plan, f.Target)
				f = nil
				t.Count("fault:missing file")
			case 4:
				plan.Files[f.Target] = &simkernel.File{Dir: true}
				f = nil
				t.Count("fault:directory")
			default:
				if x := plan.Files[f.Target]; x != nil {
					x.NoRead = true
				}
				f = nil
				t.Count("fault:unreadable file")
			}
			if f != nil {
				plan.Faults = append(plan.Faults, f)
				t.Ev("fault %s %s nth=%d %s sticky=%v", f.Op, f.Target, f.Nth, syscall.Errno(f.Errno), f.Sticky)
				t.Mark(fmt.Sprintf("%+v", *f))
			}
		}
	}
	for _, n := range names {
		t.Mark(fmt.Sprintf("%v", plan.Files[n] != nil && !plan.Files[n].Dir && !plan.Files[n].NoRead))
	}
	t.Mark(fmt.Sprint(plan.Reads))
	k := simkernel.New(plan, false)
	want := map[string]*simkernel.File{}
	for p, f := range plan.Files {
		want[p] = &simkernel.File{Data: f.Data, Mode: f.Mode, Dir: f.Dir}
	}
	growAt, grow := -1, []byte(nil)
	if t.P(1, 6) {
		growAt = t.N(4)
		grow = []byte("\n-- more\n")
		if t.P(1, 2) {
			grow = files[names[0]].b
		}
		t.Ev("%s grows by %d bytes at read %d", names[0], len(grow), growAt)
		t.Mark(fmt.Sprint("grow", growAt, len(grow)))
	}
	nread := 0
	k.OnRead = func(p string, f *simkernel.File) {
		if p != names[0] {
			return
		}
		if nread == growAt {
			f.Data = append(f.Data[:len(f.Data):len(f.Data)], grow...)
			want[p].Data = f.Data
			t.Count("fault:file grows while it is read")
		}
		nread++
	}
	t.Nontrivial = true
	for i, n := 0, 1+t.W(4, 2, 1); i < n; i++ {
		name := names[t.N(len(names))]
		f := files[name]
		arg := name
		if t.P(1, 2) {
			arg = name[len("/work/"):]
		}
		t.Mark(arg)
		k.Delivered = nil
		from := len(k.Events)
		size := len(f.b) + len(grow)
		o := t.parseFile(arg, k, size)
		t.Ev("ParseFile(%s): %s", arg, o.short())
		var cause syscall.Errno
		reads, closed, ended := 0, false, false
		for _, e := range k.Events[from:] {
			t.Ev("%s", eventString(&e))
			switch {
			case e.Op == "open" && e.Err != "" || e.Op == "read" && e.Err != "" && e.Fault != "eintr":
				if cause == 0 {
					cause = errnoOf(e.Err)
				}
			case e.Op == "read" && e.Err == "" && e.N > 0:
				reads++
			case e.Op == "read" && e.Err == "":
				ended = true
			case e.Op == "close" && e.Err != "":
				closed = true
			case e.Op == "write" || e.Op == "truncate" || e.Op == "rename" || e.Op == "unlink" || e.Op == "chmod" || e.Op == "mkdir" || e.Op == "link":
				t.Fail("file modified", "ParseFile(%s): %s", arg, eventString(&e))
			}
		}
		what := fmt.Sprintf("ParseFile(%s) of %q, reads %v", arg, cut(string(f.b), 1500), plan.Reads)
		if o.o.Over || o.o.Panic != "" {
			ref := t.parseString(string(k.Delivered))
			if cause == 0 && (ref.o.Over || ref.o.Panic != "") {
				t.Count("skipped:library does not answer")
				return // C05's business
			}
			t.Fail("no answer", "%s: %s", what, o.short())
		}
		if cause != 0 {
			t.Count("call failed")
			if o.mod != nil || o.err == nil {
				t.Fail("failure hidden", "%s: %s, although a system call failed: %s", what, o.short(), cause)
			}
			if (f.good && growAt < 0 || reads == 0) && !carries(o.err, cause) {
				t.Fail("cause lost", "%s: error %q does not say %q", what, o.err, cause)
			}
		} else {
			if x := k.Snapshot()[name]; o.err == nil && (x.Data == nil && x.Mode == 0 || x.Dir || x.NoRead) {
				t.Fail("failure hidden", "%s: %s, although the file can not be read", what, o.short())
			}
			whole := k.Delivered
			if !ended { // then the answer must not depend on the rest
				whole = k.Snapshot()[name].Data
			}
			ref := t.parseString(string(whole))
			if !(closed && o.err != nil && o.mod == nil) && o.key() != ref.key() {
				t.Fail("outcome depends on the file", "%s: %s", what, diff(o.key(), ref.key()))
			}
			if len(k.Delivered) < len(f.b) && o.err == nil {
				t.Fail("file not read to its end", "%s: %d of %d bytes", what, len(k.Delivered), len(f.b))
			}
			t.Count("call as contents")
		}
		if l := k.Leaked(); len(l) > 0 || k.Opened != k.Closed {
			t.Fail("descriptor leaked", "%s: still open: %v (opened %d, closed %d)", what, l, k.Opened, k.Closed)
		}
		if d := sameFiles(k, want, ""); d != "" {
			t.Fail("file modified", "%s: %s", what, d)
		}
	}
	for c, n := range k.Counts {
		t.Counts[c] += n
	}
}

// errnoOf finds the error with the given text.
// decoy puts a module wherever a program may look for one instead of the one that is absent.
func (t *T) decoy(p *simkernel.Plan, absent string) {
	p.Absent = append(p.Absent, absent)
	if t.P(1, 2) {
		p.Decoy = []byte("Decoy DEFINITIONS ::= BEGIN Decoy ::= INTEGER END\n")
		t.Mark("decoy")
		t.Count("other files in place of the missing one")
	}
}

func errnoOf(s string) syscall.Errno {
	for e := syscall.Errno(1); e < 134; e++ {
		if e.Error() == s {
			return e
		}
	}
	return syscall.EIO
}

type inner struct {
	A int
	B string `asn1:"utf8"`
	C []byte `asn1:"optional,tag:1"`
}

type outer struct {
	V   int `asn1:"explicit,tag:0,default:3"`
	I   inner
	L   []inner `asn1:"set,optional"`
	T   time.Time
	O   asn1.ObjectIdentifier `asn1:"optional"`
	Raw asn1.RawValue         `asn1:"optional"`
}

type enclosing struct {
	A int
	X interface{}
}

// drawValue draws something to encode; not everything can be.
func drawValue(t *T) interface{} {
	str := func() string {
		switch t.W(3, 2, 1, 1) {
		case 1:
			return strings.Repeat("x", t.N(1<<uint(t.Range(1, 12))))
		case 2:
			return "日本 \u00e9"
		case 3:
			return "bad \xff\xfe utf8"
		}
		return "some text"
	}
	raw := func() []byte {
		b := make([]byte, t.N(1<<uint(t.Range(1, 15))))
		x := uint64(t.N(1 << 20))
		for i := range b {
			x = x*6364136223846793005 + 1442695040888963407
			b[i] = byte(x >> 56)
		}
		return b
	}
	tim := func() time.Time {
		y := 1950 + t.N(100)
		switch t.W(6, 1, 1) {
		case 1:
			y = t.N(1900)
		case 2:
			y = 10000 + t.N(20000)
		}
		return time.Date(y, 1, 1+t.N(28), t.N(24), 0, t.N(60), 0, time.UTC)
	}
	oid := func() asn1.ObjectIdentifier {
		switch t.W(4, 1, 1) {
		case 1:
			return asn1.ObjectIdentifier{3, 99}
		case 2:
			return asn1.ObjectIdentifier{1}
		}
		return asn1.ObjectIdentifier{1, 2, 840, t.N(1 << 20)}
	}
	in := func() inner { return inner{t.N(1 << 20), str(), raw()} }
	switch t.W(1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 2, 2) {
	case 0:
		return t.N(1<<30) - 1<<29
	case 1:
		return str()
	case 2:
		return raw()
	case 3:
		return t.P(1, 2)
	case 4:
		return oid()
	case 5:
		return new(big.Int).Lsh(big.NewInt(int64(t.N(1000))), uint(t.N(2000)))
	case 6:
		return tim()
	case 7:
		return asn1.BitString{Bytes: raw(), BitLength: 0}
	case 8:
		l := []int{}
		for i, n := 0, t.N(2000); i < n; i++ {
			l = append(l, i*i)
		}
		return l
	case 9:
		o := outer{V: t.N(5), I: in(), T: tim(), O: oid()}
		for i, n := 0, t.N(4); i < n; i++ {
			o.L = append(o.L, in())
		}
		if t.P(1, 2) {
			o.Raw = asn1.RawValue{Class: 2, Tag: 5, Bytes: raw()}
		}
		return o
	case 10:
		return []inner{in(), in()}
	}
	switch t.N(9) {
	case 0:
		return nil
	case 1:
		return 1.5
	case 2:
		return map[string]int{"a": 1}
	case 3:
		return func() {}
	case 4:
		return make(chan int)
	case 5:
		return enclosing{1, struct{ F float64 }{2}}
	case 6:
		return enclosing{1, nil}
	case 7:
		return struct{ a int }{1}
	}
	return []interface{}{1, "a", 2.5}
}

// encode is the reference.
func encode(v interface{}) (b []byte, err error, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	b, err = asn1.Marshal(v)
	return
}

func runC16(t *T) {
	v := drawValue(t)
	der, encErr, panicked := encode(v)
	if panicked {
		t.Count("skipped:encoding/asn1 panics")
		return
	}
	modes := []os.FileMode{0o644, 0o600, 0o666, 0o640, 0o400, 0o777, 0}
	mode := modes[t.N(len(modes))]
	plan := &simkernel.Plan{Files: map[string]*simkernel.File{}, Writes: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
	name := []string{"out.der", "/work/out.der", "./o ut.der", "%d.der", "/tmp/x/../out.der"}[t.N(5)]
	path := workPath(name)
	old, exists := oldOutput(t, der)
	if exists {
		plan.Files[path] = &simkernel.File{Data: old, Mode: 0o640}
	}
	for _, p := range []string{"/work/keep.der", "/work/out.der.tmp", "/work/out.der~", "/tmp/a"} {
		if t.P(1, 2) {
			plan.Files[p] = &simkernel.File{Data: []byte("precious " + p), Mode: 0o600}
		}
	}
	if t.P(2, 3) {
		for i, n := 0, 1+t.W(4, 1); i < n; i++ {
			f := &simkernel.Fault{Target: path, Sticky: t.P(1, 2)}
			switch t.W(5, 4, 3, 3, 1, 1, 1, 1) {
			case 0:
				f.Op, f.Nth, f.Errno = "write", t.W(3, 1, 1), t.pick(writeErrs)
				if t.P(1, 2) {
					f.Part = 1 + t.N(1+len(der))
				}
			case 1:
				plan.DiskCap = int64(t.N(len(der) + 1))
				if t.P(1, 3) {
					plan.DiskCap = int64(len(der)) - int64(t.N(3))
				}
				if plan.DiskCap < 0 {
					plan.DiskCap = 0
				}
				t.Ev("room for %d bytes", plan.DiskCap)
			case 2:
				f.Op, f.Errno = "open", t.pick(openErrs)
			case 3:
				f.Op, f.Errno = "close", t.pick(closeErrs)
			case 4:
				f.Op, f.Errno = "truncate", int(syscall.EIO)
			case 5:
				plan.Files[path] = &simkernel.File{Dir: true}
			case 6:
				plan.Files[path] = &simkernel.File{Data: old, Mode: 0o444, NoWrite: true}
			case 7:
				if t.P(1, 2) {
					f.Op, f.Errno, f.Target = "rename", int(syscall.EIO), ""
				} else {
					name, path = "/missing/out.der", "/missing/out.der"
				}
			}
			if f.Op != "" {
				plan.Faults = append(plan.Faults, f)
				t.Ev("fault %s %s nth=%d %s part=%d sticky=%v", f.Op, f.Target, f.Nth, syscall.Errno(f.Errno), f.Part, f.Sticky)
				t.Mark(fmt.Sprintf("%+v", *f))
			}
		}
	}
	was := plan.Files[path]
	existed := was != nil
	desc := fmt.Sprintf("MarshalToFile(%s, %q, %o), %d bytes of DER, file existed: %v, writes %v, room %d", cut(fmt.Sprintf("%T %+v", v, printable(v)), 300), name, mode, len(der), existed, plan.Writes, plan.DiskCap)
	t.Ev("%s", desc)
	t.Mark(fmt.Sprintf("%x %v %s %o %v %d %x", der, encErr, name, mode, plan.Writes, plan.DiskCap, old))
	t.Nontrivial = true
	t.Count(map[bool]string{true: "value:encodable", false: "value:not encodable"}[encErr == nil])
	t.Count("size:" + sizeClass(len(der)))
	if t.P(1, 8) { // wherever it would make other files, somebody else has some already
		probe := *plan
		probe.Faults, probe.DiskCap = nil, -1
		k := simkernel.New(&probe, false)
		simkernel.Install(k)
		t.guard(2000000, func() { asn1go.MarshalToFile(v, name, mode) })
		simkernel.Install(nil)
		for i := range k.Events {
			e := &k.Events[i]
			for _, n := range []string{e.Target, e.To} {
				if strings.HasPrefix(n, "/") && n != path && plan.Files[n] == nil && e.Op != "mkdir" && e.Op != "stat" && (e.Op != "open" || e.To == "created") {
					plan.Files[n] = &simkernel.File{Data: []byte("precious " + n), Mode: 0o600}
					t.Ev("%s belongs to somebody else", n)
					t.Mark(n)
				}
			}
		}
		t.Count("names of temporary files taken")
	}
	k := simkernel.New(plan, false)
	want := map[string]*simkernel.File{}
	for p, f := range plan.Files {
		want[p] = &simkernel.File{Data: f.Data, Mode: f.Mode, Dir: f.Dir}
	}
	// what a crash at this instant would leave
	mixed := ""
	k.OnEvent = func(e *simkernel.Event) {
		f, ok := k.Snapshot()[path]
		switch {
		case mixed != "" || !ok && !existed:
		case !ok:
			if !was.Dir {
				mixed = fmt.Sprintf("after %s: file is gone", eventString(e))
			}
		case existed && bytes.Equal(f.Data, was.Data):
		case encErr == nil && bytes.HasPrefix(der, f.Data):
		default:
			mixed = fmt.Sprintf("after %s: %s", eventString(e), diff(fmt.Sprintf("%x", f.Data), fmt.Sprintf("%x", der)))
		}
	}
	var err error
	simkernel.Install(k)
	o := t.guard(2000000, func() { err = asn1go.MarshalToFile(v, name, mode) })
	simkernel.Install(nil)
	t.Sim += k.Now
	for c, n := range k.Counts {
		t.Counts[c] += n
	}
	var failed *simkernel.Event
	for i := range k.Events {
		e := &k.Events[i]
		t.Ev("%s", eventString(e))
		if e.Err == "" || e.Fault == "eintr" || e.Op == "open" && e.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			continue
		}
		switch e.Op {
		case "open", "write", "close", "truncate", "rename", "fsync":
			if failed == nil {
				failed = e
			}
		}
	}
	t.Ev("%v", err)
	if o.Over || o.Panic != "" {
		t.Fail("no answer", "%s: %+v", desc, o)
	}
	if mixed != "" {
		t.Fail("file is neither old nor new", "%s: %s", desc, mixed)
	}
	if l := k.Leaked(); len(l) > 0 || k.Opened != k.Closed {
		t.Fail("descriptor leaked", "%s: still open: %v", desc, l)
	}
	now, there := k.Snapshot()[path]
	switch {
	case encErr != nil:
		t.Count("outcome:not encodable")
		if err == nil {
			t.Fail("failure hidden", "%s: no error, although it can not be encoded: %v", desc, encErr)
		}
		if !strings.Contains(err.Error(), encErr.Error()) {
			t.Fail("cause lost", "%s: error %q does not say %q", desc, err, encErr)
		}
		if d := sameFiles(k, want, ""); d != "" {
			t.Fail("file changed for a bad value", "%s: %s", desc, d)
		}
		return
	case err == nil:
		t.Count("outcome:saved")
		if failed != nil {
			t.Fail("failure hidden", "%s: no error, although %s", desc, eventString(failed))
		}
		if !there || !bytes.Equal(now.Data, der) {
			t.Fail("not saved", "%s: no error, but the file (exists: %v) holds %d bytes: %s", desc, there, len(now.Data), diff(fmt.Sprintf("%x", now.Data), fmt.Sprintf("%x", der)))
		}
		if m := uint32(mode); !existed && now.Mode != m && now.Mode != m&^0o022 {
			t.Fail("wrong permissions", "%s: %o", desc, now.Mode)
		}
		if d := sameFiles(k, want, path); d != "" {
			t.Fail("other files changed", "%s: %s", desc, d)
		}
	default:
		t.Count("outcome:failed")
		if failed == nil {
			t.Fail("failed without cause", "%s: %v", desc, err)
		}
		carried := false
		for i := range k.Events {
			e := &k.Events[i]
			carried = carried || e.Err != "" && e.Fault != "eintr" && carries(err, errnoOf(e.Err))
		}
		if !carried {
			t.Fail("cause lost", "%s: error %q does not say %q", desc, err, failed.Err)
		}
		if d := sameFiles(k, want, path); d != "" {
			t.Fail("other files changed", "%s: %s", desc, d)
		}
	}
}

// printable leaves out what prints as an address.
func printable(v interface{}) interface{} {
	switch v.(type) {
	case func(), chan int:
		return "value"
	}
	return v
}

func sortedNames(a map[string]*simkernel.File, b map[string]simkernel.File) []string {
	m := map[string]bool{}
	for n := range a {
		m[n] = true
	}
	for n := range b {
		m[n] = true
	}
	return sortedKeys(m)
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
