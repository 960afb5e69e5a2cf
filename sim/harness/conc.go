package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"

	"asn1sim/simkernel"
	"asn1sim/simrt"

	"github.com/chemikadze/asn1go"
)

func init() {
	register(&Prop{ID: "C23", Quick: 6000, Thorough: 120000, Chunk: 60,
		Rule: "distinct (calls, files, faults, sequence of task switches) of at least two overlapping tasks; measure: hash of those",
		Real: "ParseFile, MarshalToFile and what they call, with package os (instrumented library), compiled with the race detector",
		Stub: "goroutine scheduling (one task at a time, preemption at statements and at system calls); the operating system: a simulated kernel behind package syscall, either one for each task (no ordering between tasks that the race detector could take for synchronisation) or one for all (one file system, one umask, one working directory)",
		Assume: []string{"statements of the library and system calls are the preemption points; the memory accesses of the standard library are seen by the race detector",
			"sync.Pool inside the standard library is switched off, as it would hide or invent ordering between calls",
			"no two calls save to the same file at the same time"},
		Run: runC23})
}

// fileCall is a call that works on a file.
type fileCall struct {
	save bool
	own  bool // nobody else uses the file
	name string
	v    interface{}
	mode os.FileMode
	size int
	desc string
	got  string
	err  error
	mod  *asn1go.ModuleDefinition
	modD string
	over bool
}

func (c *fileCall) run() {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case simrt.Overrun, ioOverrun:
				c.got, c.over = "does not end", true
			case simrt.Killed:
				c.got = "deadlock"
			default:
				c.got = fmt.Sprint("panic: ", x)
			}
		}
	}()
	if c.save {
		c.err = asn1go.MarshalToFile(c.v, c.name, c.mode)
		c.got = "saved"
		if c.err != nil {
			c.got = "error: " + c.err.Error()
		}
		return
	}
	c.mod, c.err = asn1go.ParseFile(c.name)
	o := outcome{mod: c.mod, err: c.err}
	c.got = o.key()
	if c.mod != nil {
		c.modD = dump(c.mod)
	}
}

func clonePlan(p *simkernel.Plan) *simkernel.Plan {
	q := *p
	q.Faults = nil
	for _, f := range p.Faults {
		g := *f
		q.Faults = append(q.Faults, &g)
	}
	return &q
}

// madeUp are numbers of names that a program makes up.
var madeUp = regexp.MustCompile(`[0-9]{4,}`)

func runC23(t *T) {
	nt := t.Range(2, 4)
	plans := make([]*simkernel.Plan, nt)
	tasks := make([][]*fileCall, nt)
	var modules [][]byte
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		x := wellFormed(t.Tape, gcfg{Tags: -1, MaxTypes: 3, MaxValues: 2, Depth: 2})
		modules = append(modules, x.b)
		t.Ev("module %d: %s", i, cut(fmt.Sprintf("%q", x.b), 200))
	}
	var values []interface{}
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		v := drawValue(t)
		if _, _, panicked := encode(v); panicked {
			v = i
		}
		values = append(values, v)
		t.Ev("value %d: %s", i, cut(fmt.Sprintf("%T %+v", v, printable(v)), 200))
	}
	// one world for all, or a world for each; the latter leaves nothing that
	// the race detector could take for synchronisation
	shared := t.P(1, 2)
	calm := shared && t.P(1, 2) // no short calls but errors: what an error hits must not depend on the schedule
	world := &simkernel.Plan{Files: map[string]*simkernel.File{}, DiskCap: -1, StdoutCap: -1, ProcStart: 1600000000}
	style := t.N(len(saveNames) + 1)
	src := []string{"/work/", "/src/", "../src/", "src/", ""}[t.N(5)]
	world.Dirs = append(world.Dirs, "/src", "/work/src")
	if shared {
		t.Count("file system:shared")
		t.Mark("shared")
		world.Lat = t.lats()
		if !calm {
			world.Reads, world.Writes = readsPlan(t.Tape), readsPlan(t.Tape)
		}
		for i := 0; i < nt; i++ {
			world.Dirs = append(world.Dirs, fmt.Sprintf("/work/d%d", i))
		}
	} else {
		t.Count("file system:one for each task")
	}
	for i := range tasks {
		end := t.Span()
		p := world
		if !shared {
			p = &simkernel.Plan{Files: map[string]*simkernel.File{}, Dirs: world.Dirs, Reads: readsPlan(t.Tape), Writes: readsPlan(t.Tape), DiskCap: -1, StdoutCap: -1, Lat: t.lats(), ProcStart: 1600000000}
		}
		plans[i] = p
		for j, n := 0, t.Range(1, 3); j < n; j++ {
			c := &fileCall{}
			if t.P(1, 2) {
				c.save = true
				c.v = values[t.N(len(values))]
				c.mode = []os.FileMode{0o644, 0o600, 0o666}[t.N(3)]
				c.name = fmt.Sprintf("/work/out%d.der", t.N(2))
				if shared {
					c.name = saveName(style, i)
					if t.P(1, 4) {
						c.name = saveName(t.N(len(saveNames)+1), i)
					}
				}
				der, _, _ := encode(c.v)
				c.size = len(der)
				if old, exists := oldOutput(t, der); exists && p.Files[c.path()] == nil {
					p.Files[c.path()] = &simkernel.File{Data: old, Mode: 0o640}
				}
				c.desc = fmt.Sprintf("save %d bytes to %s", len(der), c.name)
			} else {
				k := t.N(len(modules) + 2)
				c.name = fmt.Sprintf("%sm%d.asn1", src, k)
				if shared && k == len(modules) {
					c.name, c.own = fmt.Sprintf("%st%d.asn1", src, i), true
				}
				if p.Files[c.path()] == nil && k <= len(modules) {
					var b []byte
					if k < len(modules) { // the same for all tasks
						b = modules[k]
					} else if b = wellFormed(t.Tape, gcfg{Tags: -1, MaxTypes: 3, MaxValues: 2, Depth: 2}).b; t.P(1, 2) {
						b = corrupt(t, b, nil)
					}
					p.Files[c.path()] = &simkernel.File{Data: b, Mode: 0o644}
				}
				if f := p.Files[c.path()]; f != nil {
					c.size = len(f.Data)
				}
				c.desc = fmt.Sprintf("parse %s (%d bytes)", c.name, c.size)
			}
			tasks[i] = append(tasks[i], c)
			t.Ev("task %d: %s", i, c.desc)
			t.Mark(c.desc)
		}
		limit(p.Reads, 20000)
		limit(p.Writes, 40000)
		if (!shared || calm) && t.P(1, 2) {
			c := tasks[i][t.N(len(tasks[i]))]
			f := &simkernel.Fault{Target: c.path(), Nth: t.W(3, 1, 1), Sticky: t.P(1, 2)}
			switch t.W(3, 1, 1, 1) {
			case 0:
				f.Op, f.Errno = "read", t.pick(readErrs)
				if c.save {
					f.Op, f.Errno = "write", t.pick(writeErrs)
					if t.P(1, 2) {
						f.Part = 1 + t.N(1+c.size)
					}
				}
			case 1:
				f.Op, f.Errno, f.Nth = "open", t.pick(openErrs), 0
			case 2:
				f.Op, f.Errno, f.Nth = "close", t.pick(closeErrs), 0
			default:
				if !shared {
					p.DiskCap = int64(t.N(c.size + 1))
				}
				f = nil
			}
			if shared && !c.save && !c.own { // others use the file, too
				f = nil
			}
			if f != nil {
				p.Faults = append(p.Faults, f)
				t.Ev("fault %s %s nth=%d %s part=%d sticky=%v", f.Op, f.Target, f.Nth, syscall.Errno(f.Errno), f.Part, f.Sticky)
				t.Mark(fmt.Sprintf("%+v", *f))
			}
		}
		t.Mark(fmt.Sprint(p.Reads, p.Writes, p.DiskCap))
		end()
	}
	// each task alone
	type ending struct {
		calls  []string
		files  map[string]simkernel.File
		leaked []string
		umask  uint32
		cwd    string
	}
	solo := make([]ending, nt)
	stop := false
	alone := func() {
		for i := range tasks {
			k := simkernel.New(clonePlan(plans[i]), false)
			simkernel.Install(k)
			for _, c := range tasks[i] {
				s := *c
				simrt.Begin(budgetFor(c.size) + 2000000)
				s.run()
				simrt.End()
				stop = stop || s.over
				solo[i].calls = append(solo[i].calls, s.got)
			}
			simkernel.Install(nil)
			solo[i].files, solo[i].leaked = k.Snapshot(), k.Leaked()
			solo[i].umask, solo[i].cwd = k.Umask(), k.Cwd()
		}
	}
	before := t.P(1, 2)
	if before {
		if alone(); stop {
			t.Count("skipped:library does not answer")
			return
		}
	}
	kernels := make([]*simkernel.Kernel, nt)
	every := 1 << uint(t.N(4))
	var fns []func()
	for i := range tasks {
		if shared && i > 0 {
			kernels[i] = kernels[0]
			continue
		}
		k := simkernel.New(clonePlan(plans[i]), false)
		if shared {
			k.OnWait = func() { simrt.Block("lock of a file") }
		}
		n, lat := int64(0), plans[i].Lat
		if !plainBuild() {
			k.OnCall = func() {
				if n := int(atomic.AddInt64(&n, 1)); n%every == 0 {
					simrt.Sleep(lat[n%len(lat)], "system call")
				}
			}
		}
		kernels[i] = k
	}
	for i := range tasks {
		l := tasks[i]
		fns = append(fns, func() {
			for _, c := range l {
				c.run()
			}
		})
	}
	simkernel.InstallEach(func() *simkernel.Kernel {
		if i := simrt.Current(); i >= 0 {
			return kernels[i]
		}
		return nil
	})
	t.concurrently(fns, func() {
		simkernel.Install(nil)
		if !before {
			alone()
		}
	})
	if stop {
		t.Count("skipped:library does not answer")
		return
	}
	leaked, extra := 0, 0
	for i := range tasks {
		k := kernels[i]
		if !shared || i == 0 {
			for c, n := range k.Counts {
				t.Counts[c] += n
			}
		}
		for j, c := range tasks[i] {
			if madeUp.ReplaceAllString(c.got, "N") != madeUp.ReplaceAllString(solo[i].calls[j], "N") {
				t.Fail("outcome differs", "task %d, %s: %s", i, c.desc, diff(c.got, solo[i].calls[j]))
			}
			if c.mod != nil && dump(c.mod) != c.modD {
				t.Fail("returned module changed", "task %d, %s: %s", i, c.desc, diff(dump(c.mod), c.modD))
			}
			t.Count(strings.SplitN(c.desc, " ", 2)[0] + ":" + map[bool]string{true: "succeeded", false: "failed"}[c.err == nil])
		}
		all := map[string]bool{}
		for _, c := range tasks[i] {
			all[c.path()] = true
		}
		if !shared {
			for n := range plans[i].Files {
				all[n] = true
			}
		}
		now := k.Snapshot()
		for _, n := range sortedKeys(all) {
			a, aok := solo[i].files[n]
			b, bok := now[n]
			if aok != bok || !bytes.Equal(a.Data, b.Data) || a.Mode != b.Mode {
				t.Fail("files differ", "task %d: %s exists: %v, holds %q (mode %o); alone: exists: %v, %q (mode %o)", i, n, bok, cut(string(b.Data), 100), b.Mode, aok, cut(string(a.Data), 100), a.Mode)
			}
		}
		leaked += len(solo[i].leaked)
		for n := range solo[i].files {
			if !all[n] && plans[i].Files[n] == nil {
				extra++
			}
		}
		if shared && i < nt-1 {
			continue
		}
		if l := k.Leaked(); len(l) != leaked {
			t.Fail("descriptor leaked", "task %d: %v are still open; alone: %d", i, l, leaked)
		}
		leaked = 0
		if k.Cwd() != solo[i].cwd {
			t.Fail("working directory of the process changed", "it is %s; alone: %s", k.Cwd(), solo[i].cwd)
		}
		if k.Umask() != solo[i].umask {
			t.Fail("umask of the process changed", "the umask of the process is %o; alone: %o", k.Umask(), solo[i].umask)
		}
	}
	var mods []*asn1go.ModuleDefinition
	var of []string
	for i, l := range tasks {
		for _, c := range l {
			mods, of = append(mods, c.mod), append(of, fmt.Sprintf("task %d, %s", i, c.desc))
		}
	}
	t.apart(mods, func(i int) string { return of[i] })
	if !shared {
		return
	}
	now := kernels[0].Snapshot()
	mine := map[string]bool{}
	for _, l := range tasks {
		for _, c := range l {
			mine[c.path()] = c.save
		}
	}
	for n, was := range world.Files {
		if is, ok := now[n]; !mine[n] && (!ok || !bytes.Equal(was.Data, is.Data) || was.Mode != is.Mode) {
			t.Fail("another file changed", "%s exists: %v, holds %q, held %q", n, ok, cut(string(is.Data), 100), cut(string(was.Data), 100))
		}
	}
	var left []string
	for n := range now {
		if !mine[n] && world.Files[n] == nil {
			left = append(left, n)
		}
	}
	if sort.Strings(left); len(left) > extra {
		t.Fail("files left", "%v; alone: %d", left, extra)
	}
}

// saveNames are destinations of one task each.
var saveNames = []string{"/work/out%d.der", "/work/d%d/out.der", "out%d.der", "/work/%d.der", "/work/out.%d", "/work/d%d/out.der.tmp"}

func saveName(style, task int) string {
	if style < len(saveNames) {
		return fmt.Sprintf(saveNames[style], task)
	}
	return []string{"/work/x.der", "/work/x.der.tmp", "/work/x.der~", "/work/.x.der"}[task]
}

// path is where the file really is.
func (c *fileCall) path() string {
	if path.IsAbs(c.name) {
		return path.Clean(c.name)
	}
	return path.Join("/work", c.name)
}

// limit keeps the number of pieces that size bytes are split into small.
func limit(l []int, size int) {
	for i, n := range l {
		if n > 0 && n < size/1000 {
			l[i] = size / 1000
		}
	}
}
