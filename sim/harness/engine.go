package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"asn1sim/simkernel"
	"asn1sim/simrt"
)

// Failure is a violated property.
type Failure struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type failStop struct{}

// T is one simulated run.
type T struct {
	*Tape
	prop       string
	scratch    string
	verbose    bool
	Trace      []string
	Counts     map[string]int
	Digest     uint64
	Shape      uint64 // identity of the schedule and fault sequence explored
	Nontrivial bool
	Sim        int64 // virtual nanoseconds
	Steps      uint64
	fail       *Failure
}

// Ev records an event. Events are formatted in every run, so that recording them changes nothing.
func (t *T) Ev(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	t.Digest = mix(t.Digest, hashString(s))
	if t.verbose {
		t.Trace = append(t.Trace, s)
	}
}

// Mark adds to the run's identity: what was explored, as opposed to what happened.
func (t *T) Mark(s string) { t.Shape = mix(t.Shape, hashString(s)) }

// Count counts an injected fault or a rare condition that was reached.
func (t *T) Count(k string) { t.Counts[k]++ }

// Fail ends the run with a violation.
func (t *T) Fail(class, format string, args ...interface{}) {
	if t.fail == nil {
		t.fail = &Failure{class, fmt.Sprintf(format, args...)}
		t.Ev("VIOLATION %s: %s", class, t.fail.Msg)
	}
	panic(failStop{})
}

// Prop is one property's simulation.
type Prop struct {
	ID              string
	Run             func(*T)
	Quick, Thorough int // simulated runs
	Chunk           int // runs per worker process
	Rule            string
	Real            string
	Stub            string
	Assume          []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// oneRun executes a single simulated run.
func oneRun(p *Prop, tape *Tape, scratch string, verbose bool) *T {
	t := &T{Tape: tape, prop: p.ID, scratch: scratch, verbose: verbose, Counts: map[string]int{}}
	runtime.SimSetMapRand(true, 0x5eed)
	time.SimNow = nil
	simkernel.Install(nil)
	gc := debug.SetGCPercent(-1) // collections would run finalizers at uncontrolled times
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failStop); ok {
					return
				}
				panic(r)
			}
		}()
		p.Run(t)
	}()
	simrt.End()
	simkernel.Install(nil)
	time.SimNow = nil
	debug.SetGCPercent(gc)
	return t
}

// Outcome is how a call of the code under test ended.
type Outcome struct {
	Panic string // non-empty if it panicked
	Over  bool   // step budget exceeded
	Steps uint64
}

// guard calls f under a step budget and catches panics of the code under test.
func (t *T) guard(budget uint64, f func()) (o Outcome) {
	simrt.Begin(budget)
	defer func() {
		r := recover()
		o.Steps, o.Over = simrt.End()
		t.Steps += o.Steps
		if r == nil {
			return
		}
		switch x := r.(type) {
		case failStop:
			panic(x)
		case simrt.Overrun:
			o.Over = true
		case ioOverrun:
			o.Over = true
		case harnessBug:
			panic(x)
		default:
			o.Panic = fmt.Sprint(r)
			if e, ok := r.(runtime.Error); ok {
				o.Panic = e.Error()
			}
			if t.verbose {
				t.Trace = append(t.Trace, "panic: "+o.Panic, string(firstLines(debug.Stack(), 40)))
			}
		}
	}()
	f()
	return
}

// ioOverrun ends a call that keeps reading or writing for ever.
type ioOverrun struct{}

type harnessBug struct{ msg string }

func (b harnessBug) Error() string { return b.msg }

func bug(format string, args ...interface{}) { panic(harnessBug{fmt.Sprintf(format, args...)}) }

func firstLines(b []byte, n int) []byte {
	l := strings.Split(string(b), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return []byte(strings.Join(l, "\n"))
}

func seedFor(seed uint64, prop string, run int) uint64 {
	return mix(seed, hashString(prop), uint64(run))
}

func fatalf(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(4)
}

// knownFindings are the recorded, unrepaired defects: id -> what fails, by property.
var knownFindings = map[string]map[string]string{}

// Known tells whether a violation is a recorded finding, and notes that it was seen.
func (t *T) Known(id string) bool {
	if _, ok := knownFindings[t.prop][id]; !ok {
		return false
	}
	t.Counts["known:"+id]++
	return true
}

// loadKnown reads the known-findings file. Lines of the form
// "known: property=<id> finding=<name> <what fails>" count; all others are ignored.
func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 4 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "finding=") {
			continue
		}
		p, id := f[1][9:], f[2][8:]
		if knownFindings[p] == nil {
			knownFindings[p] = map[string]string{}
		}
		knownFindings[p][id] = strings.Join(f[3:], " ")
	}
}

// withClock calls f with the virtual wall clock at now.
func withClock(now int64, f func()) {
	time.SimNow = func() (int64, int32) { return 1600000000 + now/1e9, int32(((now % 1e9) + 1e9) % 1e9) }
	defer func() { time.SimNow = nil }()
	f()
}
