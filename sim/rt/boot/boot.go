// Package boot is linked into simulated copies of the command line tools. Its
// init puts the process on a simulated kernel before main starts: the plan
// arrives on descriptor 3, the journal of system calls leaves on descriptor 4; where
// several processes take turns, what the others did arrives on descriptor 5.
// Without those descriptors (SIM unset) it does nothing.
package boot

import (
	"encoding/json"
	"os"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"asn1sim/simkernel"
	"asn1sim/simrt"
)

// ExitOverrun is the exit status of a run that exceeded its step budget.
const ExitOverrun = 97

func raw(trap, a1, a2, a3 uintptr) (uintptr, syscall.Errno) {
	r, _, e := syscall.RawSyscall(trap, a1, a2, a3)
	return r, e
}

func readAll(fd uintptr) []byte {
	var out []byte
	buf := make([]byte, 1<<16)
	for {
		n, e := raw(syscall.SYS_READ, fd, uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 || n == 0 {
			return out
		}
		out = append(out, buf[:n]...)
	}
}

func readLine(fd uintptr) []byte {
	var out []byte
	buf := make([]byte, 1<<12)
	for len(out) == 0 || out[len(out)-1] != '\n' {
		n, e := raw(syscall.SYS_READ, fd, uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 || n == 0 {
			return out
		}
		out = append(out, buf[:n]...)
	}
	return out
}

func writeAll(fd uintptr, b []byte) {
	for len(b) > 0 {
		n, e := raw(syscall.SYS_WRITE, fd, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			raw(syscall.SYS_EXIT_GROUP, 96, 0, 0)
		}
		b = b[n:]
	}
}

func init() {
	if os.Getenv("ASN1SIM") == "" {
		return
	}
	plan := &simkernel.Plan{}
	if err := json.Unmarshal(readAll(3), plan); err != nil {
		println("asn1sim: bad plan:", err.Error())
		os.Exit(96)
	}
	os.Unsetenv("ASN1SIM")
	os.Args = plan.Args
	pid, _ := raw(syscall.SYS_GETPID, 0, 0, 0)
	syscall.SimPid = plan.Pid
	k := simkernel.New(plan, true)
	journal := func(e *simkernel.Event) {
		e.Steps = simrt.Steps()
		b, _ := json.Marshal(e)
		writeAll(4, append(b, '\n'))
	}
	k.OnEvent = journal
	k.OnKill = func() {
		raw(syscall.SYS_KILL, pid, uintptr(syscall.SIGKILL), 0)
		for {
		}
	}
	if plan.Turns {
		k.OnTurn = func(blocked bool) []simkernel.Event {
			e := &simkernel.Event{Op: "turn"}
			if blocked {
				e.Target = "blocked"
			}
			journal(e)
			var others []simkernel.Event
			if err := json.Unmarshal(readLine(5), &others); err != nil {
				raw(syscall.SYS_EXIT_GROUP, 96, 0, 0)
			}
			return others
		}
	}
	simrt.OnOverrun = func(steps uint64) {
		journal(&simkernel.Event{Op: "overrun", N: int64(steps)})
		raw(syscall.SYS_EXIT_GROUP, ExitOverrun, 0, 0)
	}
	runtime.SimSetMapRand(true, plan.Seed)
	start := plan.ProcStart
	time.SimNow = func() (int64, int32) {
		return start + k.Now/1e9, int32(k.Now % 1e9)
	}
	simkernel.Install(k)
	simrt.Begin(plan.Budget)
}
