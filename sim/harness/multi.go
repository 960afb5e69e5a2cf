package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"syscall"

	"asn1sim/simkernel"
)

func init() {
	real := "the whole asn1go command (cmd/asn1go/main.go and the library, instrumented, with the Go runtime and package os), one process per command"
	register(&Prop{ID: "C21", Quick: 12000, Thorough: 150000, Chunk: 40,
		Rule: "distinct histories (inputs, arguments, files and their ages, faults and kill points of the earlier runs, read and write schedules); measure: hash of those", Real: real,
		Stub: "the operating system: file system, descriptors, standard streams, process ids, clock and errors come from a simulated kernel behind package syscall; kills are real; files survive from run to run",
		Assume: []string{"what the kernel accepted survives a kill (no power failure)", "the library, called in this process, is the reference for the source",
			"files that the command itself made in an earlier run may change or go"}, Run: runC21})
	register(&Prop{ID: "C22", Quick: 14000, Thorough: 100000, Chunk: 40,
		Rule: "distinct (commands, files, faults, kill points, order of their system calls); measure: hash of those and of the order", Real: real + ", two or three at a time in lockstep",
		Stub: "the operating system and its scheduler: every system call of every process is ordered by the simulator, each process has a simulated kernel that follows one common file system",
		Assume: []string{"a system call is atomic, except that a write may be cut in half", "no two commands have the same output, and no command writes the input of another",
			"processes that run at the same time have different process ids"}, Run: runC22})
}

// faulty makes something go wrong in a run; it says what.
func (w *world) faulty(t *T) []string {
	var faults []string
	switch t.W(3, 2, 1, 3) {
	case 0:
		return nil
	case 2:
		faults = append(faults, w.inputFault(t))
	case 3:
		faults = append(faults, w.outputFault(t))
	}
	if len(faults) == 0 || t.P(1, 3) {
		at := t.N(1 << uint(t.Range(2, 6)))
		w.plan.Kill = &simkernel.Kill{At: at, Phase: t.N(3)}
		faults = append(faults, fmt.Sprintf("kill at system call %d (%s)", at, []string{"before", "after", "half-way"}[w.plan.Kill.Phase]))
	}
	t.Mark(fmt.Sprint(faults))
	for _, f := range w.plan.Faults {
		t.Mark(fmt.Sprintf("%+v", *f))
	}
	return faults
}

// place gives the command other names for its input and output.
func (w *world) place(in, out string) {
	p := w.plan
	if w.in != "" && in != "" && in != w.in {
		f := p.Files[w.in]
		if f == nil {
			f = &simkernel.File{Data: w.input, Mode: 0o644}
		}
		delete(p.Files, w.in)
		if w.out == w.in {
			out = in
		}
		w.in = in
		p.Args[w.inArg] = in
		p.Files[in] = f
	}
	if w.out != "" && out != "" && out != w.out {
		delete(p.Files, w.out)
		w.out = out
		p.Args[w.outAt] = out
	}
}

func runC21(t *T) {
	w := drawWorld(t, true, false)
	if !w.ok {
		t.Count("skipped:not translatable")
		return
	}
	files := copyFiles(w.plan.Files)
	dirs := []string{"/data", "/gen", "/work/sub"}
	made := map[string]bool{}
	start := w.plan.ProcStart - 1000
	if t.P(1, 8) {
		start += 1 << 20 // the clock was wrong then
	}
	for i, n := 0, t.Range(1, 3); i < n; i++ {
		end := t.Span()
		t.Ev("earlier run %d:", i)
		e := drawWorld(t, false, false)
		if e.why == "?" {
			end()
			continue
		}
		p := e.plan
		same := t.W(3, 2, 1)
		if same < 2 { // the same command, though the input may have been another
			if e.in != "" && w.in != "" {
				e.place(w.in, w.out)
			}
			if same == 1 && (e.in == "") == (w.in == "") && (e.out == "") == (w.out == "") {
				e.params = w.params
				switch t.W(2, 2, 2) {
				case 1:
					e.input = w.input
				case 2: // hardly different
					e.input = append([]byte(nil), w.input...)
					for k := t.N(len(e.input) + 1); k < len(e.input); k++ {
						if c := e.input[k]; c >= 'a' && c < 'z' {
							e.input[k]++
							break
						}
					}
				}
				p.Args = append([]string(nil), w.plan.Args...)
				e.in, e.out, e.inArg, e.outAt = w.in, w.out, w.inArg, w.outAt
				if e.in == "" {
					p.Stdin, p.StdinFile = e.input, false
				} else if p.Files[e.in] == nil || !p.Files[e.in].Dir {
					p.Files[e.in] = &simkernel.File{Data: e.input, Mode: 0o644, Mtime: 1}
				}
				e.translate(t)
				t.Count("earlier run:same command")
			}
		}
		start += int64(t.N(100))
		p.ProcStart = start
		own := p.Files[e.in]
		old := p.Files[e.out]
		p.Files = copyFiles(files)
		for _, d := range dirs {
			p.Files[d] = &simkernel.File{Dir: true}
		}
		if e.in != "" && own != nil {
			own.Mtime = drawMtime(t, start)
			p.Files[e.in] = own
		}
		if e.out != "" && old != nil && p.Files[e.out] == nil && t.P(1, 4) {
			p.Files[e.out] = old
		}
		faults := e.faulty(t)
		t.Ev("earlier run %d: %s, faults: %v", i, e, faults)
		r := t.spawn("cli-asn1go", p)
		if r.over {
			t.Count("skipped:library does not answer")
			return
		}
		switch {
		case r.killed:
			t.Count("earlier run:killed")
		case r.exit == 0:
			t.Count("earlier run:succeeded")
		default:
			t.Count("earlier run:failed")
		}
		for n := range r.files {
			if p.Files[n] == nil {
				made[n] = true
			}
		}
		for j := range r.events {
			switch x := &r.events[j]; {
			case x.Err != "":
			case x.Op == "mkdir":
				dirs = append(dirs, x.Target)
			case x.Op == "rmdir":
				for k, d := range dirs {
					if d == x.Target {
						dirs = append(dirs[:k:k], dirs[k+1:]...)
						break
					}
				}
			}
		}
		files = r.files
		end()
	}
	p := w.plan
	own := p.Files[w.in]
	p.Files = files
	for _, d := range dirs {
		p.Files[d] = &simkernel.File{Dir: true}
	}
	if w.in != "" {
		if f := p.Files[w.in]; f != nil && bytes.Equal(f.Data, own.Data) && t.P(1, 2) {
			t.Count("input untouched since")
		} else {
			// edited by hand, or put back from somewhere with its old date
			if own.Mtime = start*1e9 + int64(1000+t.N(1<<30)); t.P(1, 2) {
				own.Mtime = drawMtime(t, p.ProcStart)
			}
			p.Files[w.in] = own
		}
	}
	if f := p.Files[w.out]; w.out != "" && f != nil {
		t.Ev("output now: %d bytes, mtime %d; input mtime %d", len(f.Data), f.Mtime, own.Mtime)
	}
	r := t.spawn("cli-asn1go", p)
	t.Nontrivial = true
	desc := fmt.Sprintf("%s after earlier runs", w)
	switch {
	case r.over:
		t.Fail("does not end", "%s", desc)
	case r.exit != 0 || r.signal != "":
		t.Fail("failed without cause", "%s: exit status %d %s: %s", desc, r.exit, r.signal, cut(string(r.stderr), 300))
	}
	got, ok := r.content(w)
	if !ok || !bytes.Equal(got, w.src) {
		t.Fail("wrong output", "%s: %d bytes (exists: %v), want %d: %s", desc, len(got), ok, len(w.src), diff(string(got), string(w.src)))
	}
	for n := range made {
		if n != w.in && n != w.out {
			delete(p.Files, n)
			delete(r.files, n)
		}
	}
	if d := r.others(w, false); d != "" {
		t.Fail("other files changed", "%s: %s", desc, d)
	}
}

func runC22(t *T) {
	n := 2 + t.W(3, 1)
	var ws []*world
	var faults [][]string
	files := map[string]*simkernel.File{}
	for i := 0; i < n; i++ {
		end := t.Span()
		t.Ev("command %d:", i)
		w := drawWorld(t, t.P(2, 3), false)
		if i > 0 {
			first := ws[0]
			if first.in != "" && w.in != "" && first.plan.Files[first.in] != nil && t.P(1, 3) { // the same input
				out := w.out
				if w.out == w.in {
					out = "/work/own.go"
				}
				w.place(first.in, out)
				w.out = out
				if w.out != "" {
					w.plan.Args[w.outAt] = w.out
				}
				w.input = first.input
				w.plan.Files[w.in] = first.plan.Files[first.in]
				w.translate(t)
				t.Count("same input")
			}
			w.apart(t, ws)
		}
		w.plan.Pid = 2 + i
		for j, size := range w.plan.Reads { // the pieces are not the point here
			if least := len(w.input) / 500; size > 0 && size < least {
				w.plan.Reads[j] = least
			}
		}
		for j, size := range w.plan.Writes {
			if least := len(w.src) / 500; size > 0 && size < least {
				w.plan.Writes[j] = least
			}
		}
		if t.P(1, 3) {
			w.plan.Seed = 1
		}
		ws = append(ws, w)
		end()
	}
	for i, w := range ws { // the files of all of them; then what goes wrong
		for n, f := range w.plan.Files {
			if files[n] == nil {
				files[n] = f
			}
		}
		if w.in != "" {
			files[w.in] = w.plan.Files[w.in]
		}
		w.plan.ProcStart = ws[0].plan.ProcStart
		faults = append(faults, nil)
		if i > 0 || t.P(1, 4) {
			w.plan.Files = copyFiles(files)
			faults[i] = w.lone(t)
		}
	}
	for i, w := range ws {
		w.plan.Files = files
		w.plan.Turns = true
		t.Ev("command %d: %s, faults: %v", i, w, faults[i])
		t.Mark(fmt.Sprint(w.plan.Args, faults[i]))
	}
	rs, stuck := t.together("cli-asn1go", ws, files)
	t.Nontrivial = true
	if stuck != "" {
		t.Fail("no progress", "%s", stuck)
	}
	final := rs[0].files
	outs := map[string]bool{}
	for _, w := range ws {
		outs[w.out] = true
	}
	for i, w := range ws {
		r := rs[i]
		if w.why == "?" || r.over {
			t.Count("skipped:library does not answer")
			continue
		}
		desc := fmt.Sprintf("command %d of %d, %s with %v", i, n, w, faults[i])
		hit := r.hit(w)
		got, exists := r.stdout, true
		var was *simkernel.File
		if w.out != "" {
			was = files[w.out]
			f := final[w.out]
			if exists = f != nil; exists {
				got = f.Data
			} else {
				got = nil
			}
		}
		old := w.out != "" && (exists == (was != nil)) && (was == nil || bytes.Equal(was.Data, got))
		switch {
		case !r.killed && hit == "" && w.ok:
			if r.exit != 0 || r.signal != "" {
				t.Fail("failed because of another run", "%s: exit status %d %s: %s", desc, r.exit, r.signal, cut(string(r.stderr), 300))
			}
			if !exists || !bytes.Equal(got, w.src) {
				t.Fail("wrong output", "%s: %d bytes (exists: %v), want %d: %s", desc, len(got), exists, len(w.src), diff(string(got), string(w.src)))
			}
			t.Count("command:succeeded")
		case !r.killed && hit == "":
			if r.exit == 0 {
				t.Fail("success claimed for bad input", "%s: exit status 0, although: %s", desc, w.why)
			}
			if w.out != "" && !old || w.out == "" && len(got) > 0 {
				t.Fail("output despite bad input", "%s: holds %d bytes", desc, len(got))
			}
			t.Count("command:bad input")
		case w.out != "":
			if !old && !(exists && w.ok && bytes.HasPrefix(w.src, got)) {
				t.Fail("output is neither old nor new", "%s (exists: %v): %s", desc, exists, diff(string(got), string(w.src)))
			}
			if r.exit == 0 && r.signal == "" && hit != "" {
				t.Fail("success claimed despite a failure", "%s: exit status 0, although: %s", desc, hit)
			}
			t.Count("command:disturbed")
		}
		if w.out != "" && len(r.stdout) > 0 {
			t.Fail("output in the wrong place", "%s: %d bytes on standard output", desc, len(r.stdout))
		}
	}
	for _, n := range sortedKeys(names(files)) {
		was, now := files[n], final[n]
		switch {
		case was.Dir || outs[n]:
		case now == nil:
			t.Fail("other files changed", "%s is gone", n)
		case !bytes.Equal(was.Data, now.Data) || was.Mode != now.Mode:
			t.Fail("other files changed", "%s holds %q, was %q", n, cut(string(now.Data), 100), cut(string(was.Data), 100))
		}
	}
}

// lone makes something go wrong that only this command meets.
func (w *world) lone(t *T) []string {
	var faults []string
	p := w.plan
	switch t.W(4, 2, 1, 1, 1) {
	case 1:
		at := t.N(1 << uint(t.Range(2, 6)))
		p.Kill = &simkernel.Kill{At: at, Phase: t.N(3)}
		faults = append(faults, fmt.Sprintf("kill at system call %d (%s)", at, []string{"before", "after", "half-way"}[p.Kill.Phase]))
	case 2:
		f := &simkernel.Fault{Op: "read", Target: w.source(), Nth: t.N(3), Errno: t.pick(readErrs), Sticky: t.P(1, 2)}
		if t.P(1, 4) {
			f = &simkernel.Fault{Op: "open", Target: w.source(), Errno: t.pick(openErrs)}
		}
		p.Faults = append(p.Faults, f)
	case 3:
		f := &simkernel.Fault{Op: "write", Target: w.dest(), Nth: t.W(3, 1, 1), Errno: t.pick(writeErrs), Sticky: t.P(1, 2)}
		if t.P(1, 2) {
			f.Part = 1 + t.N(1+len(w.src))
		}
		p.Faults = append(p.Faults, f)
	case 4:
		p.Faults = append(p.Faults, &simkernel.Fault{Op: []string{"open", "close", "truncate", "rename"}[t.N(4)], Target: w.dest(), Errno: t.pick(openErrs)})
	}
	for _, f := range p.Faults {
		faults = append(faults, fmt.Sprintf("%s %d of %s fails: %s", f.Op, f.Nth, f.Target, syscall.Errno(f.Errno)))
	}
	return faults
}

// apart makes sure that this command and the others do not write what another reads or writes.
func (w *world) apart(t *T, ws []*world) {
	taken := func(n string, write bool) bool {
		for _, o := range ws {
			if n != "" && (n == o.out || write && n == o.in) {
				return true
			}
			if n != "" && !write && n == o.in && !bytes.Equal(o.input, w.input) {
				return true
			}
		}
		return false
	}
	suffix := fmt.Sprint(len(ws))
	if w.in != "" && (taken(w.in, false) || w.in == w.out && taken(w.in, true)) {
		w.place(path.Dir(w.in)+"/x"+suffix+path.Base(w.in), "")
	}
	if w.out != "" && taken(w.out, true) {
		// often a name that differs in a part only: the directory, the stem or the extension
		dir, base := path.Dir(w.out), path.Base(w.out)
		stem := strings.TrimSuffix(base, path.Ext(base))
		n := []string{dir + "/" + base + suffix, dir + "/" + stem + suffix + path.Ext(base), "/work/sub/" + suffix + "/../" + base, dir + "/" + stem + "." + suffix}[t.N(4)]
		if n = path.Clean(n); taken(n, true) {
			n = dir + "/" + stem + suffix + path.Ext(base)
		}
		w.place("", n)
	}
}

// together runs the commands at the same time, on the same files.
func (t *T) together(bin string, ws []*world, files map[string]*simkernel.File) (rs []*cliRun, stuck string) {
	type state struct {
		*process
		pending []simkernel.Event
		blocked bool
		done    bool
	}
	common := copyFiles(files)
	var ps []*state
	defer func() {
		for _, p := range ps {
			if !p.done {
				p.cmd.Process.Kill()
				p.finish()
			}
		}
	}()
	// advance reads what p does until it waits for its next turn or ends
	advance := func(i int) {
		p := ps[i]
		for {
			e := p.next()
			if e != nil && e.Op == "turn" {
				p.blocked = e.Target == "blocked"
				return
			}
			if e == nil {
				p.done = true
				for j, o := range ps {
					if j != i {
						o.pending = append(o.pending, simkernel.Event{Op: "exit", Proc: p.plan.Pid})
					}
				}
				return
			}
			p.r.events = append(p.r.events, *e)
			simkernel.Apply(common, e)
			t.Ev("[%d] %s", i, eventString(e))
			for j, o := range ps {
				if j != i {
					o.pending = append(o.pending, *e)
				}
			}
		}
	}
	for _, w := range ws {
		ps = append(ps, &state{process: t.start(bin, w.plan)})
	}
	for i := range ps {
		advance(i)
	}
	last, burst, turns, idle := -1, 0, 0, 0
	mode := t.N(3)
	for {
		var ids []int
		blocked := 0
		for i, p := range ps {
			if !p.done {
				ids = append(ids, i)
				if p.blocked {
					blocked++
				}
			}
		}
		if len(ids) == 0 {
			break
		}
		if blocked == len(ids) {
			if idle++; idle > 3*len(ids) {
				return nil, fmt.Sprintf("all of the %d commands that run wait for one another", len(ids))
			}
		} else {
			idle = 0
		}
		turns++
		if turns > 20000 {
			return nil, fmt.Sprintf("%d commands are still not done after %d system calls", len(ids), turns)
		}
		i := ids[0]
		switch {
		case turns > 3000 || idle > 0: // everybody in turn
			i = ids[turns%len(ids)]
		case burst > 0 && last >= 0 && !ps[last].done && !ps[last].blocked:
			burst--
			i = last
		default:
			at := 0
			for k, id := range ids {
				if id == last {
					at = k
				}
			}
			i = ids[(at+t.N(len(ids)))%len(ids)]
			switch mode {
			case 1:
				burst = t.N(4)
			case 2:
				burst = t.N(1 << uint(t.N(6)))
			}
		}
		if i != last {
			t.Mark(fmt.Sprint(turns, i))
		}
		last = i
		p := ps[i]
		others := p.pending
		if others == nil {
			others = []simkernel.Event{}
		}
		p.pending = nil
		b, err := json.Marshal(others)
		if err != nil {
			bug("%v", err)
		}
		if _, err := p.out.Write(append(b, '\n')); err != nil {
			bug("turn: %v", err)
		}
		advance(i)
	}
	for i, p := range ps {
		r := p.finish()
		if r == nil {
			bug("watchdog: simulated process did not finish")
		}
		r.files = common
		t.Ev("[%d] exit status %d %s", i, r.exit, r.signal)
		rs = append(rs, r)
	}
	return rs, ""
}
