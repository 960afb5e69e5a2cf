package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type edit struct{ from, to string }

// The standard library is nondeterministic in five places that matter here:
// system calls, process numbers, the random numbers behind map iteration, the wall clock and
// sync.Pool under the race detector. These edits put a seam in front of each.
var overlayEdits = map[string][]edit{
	"syscall/syscall_linux.go": {
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif h := SimHook; h != nil {\n\t\tif r1, r2, err, ok := h(trap, a1, a2, a3, 0, 0, 0); ok {\n\t\t\treturn r1, r2, err\n\t\t}\n\t}\n"},
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif h := SimHook; h != nil {\n\t\tif r1, r2, err, ok := h(trap, a1, a2, a3, a4, a5, a6); ok {\n\t\t\treturn r1, r2, err\n\t\t}\n\t}\n"},
		{"", "\n// SimHook is the simulated kernel, if one is installed.\nvar SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno, handled bool)\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Umask(mask int) (oldmask int) {\n", "func Umask(mask int) (oldmask int) {\n\tif h := SimHook; h != nil {\n\t\tif r1, _, _, ok := h(SYS_UMASK, uintptr(mask), 0, 0, 0, 0, 0); ok {\n\t\t\treturn int(r1)\n\t\t}\n\t}\n"},
		{"func Getpid() (pid int) {\n", "// SimPid is the identity of the simulated process.\nvar SimPid int\n\nfunc Getpid() (pid int) {\n\tif SimPid != 0 {\n\t\treturn SimPid\n\t}\n"},
	},
	"runtime/rand.go": {
		{"//go:nosplit\n//go:linkname rand\nfunc rand() uint64 {\n",
			"//go:nosplit\n//go:linkname rand\nfunc rand() uint64 {\n" +
				"\tsimRandState += 0x9e3779b97f4a7c15\n\tz := simRandState\n\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n" +
				"\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\treturn z ^ (z >> 31)\n}\n\n//go:nosplit\nfunc origRand() uint64 {\n"},
		{"\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(origRand())\n\tmp.cheaprand64 = origRand()\n"},
		{"", "\nvar simRandState uint64 = 1\n\n// SimSetMapRand seeds the random numbers of maps.\nfunc SimSetMapRand(on bool, seed uint64) { simRandState = seed }\n"},
	},
	"internal/runtime/maps/runtime_alg.go": {
		{"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))"},
		{"key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * uint64(i+1)"},
	},
	"time/time.go": {
		{"func Now() Time {\n", "func Now() Time {\n\tif h := SimNow; h != nil {\n\t\tsec, nsec := h()\n\t\treturn Unix(sec, int64(nsec))\n\t}\n"},
		{"", "\n// SimNow is the virtual clock, if there is one.\nvar SimNow func() (sec int64, nsec int32)\n"},
	},
	"sync/pool.go": {
		{"func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif SimNoPool {\n\t\treturn\n\t}\n"},
		{"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif SimNoPool {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
		{"", "\n// SimNoPool makes every Pool forget what is put into it.\nvar SimNoPool bool\n"},
	},
}

// writeOverlay derives patched copies of standard library files and returns the overlay file.
func writeOverlay(goroot, dir string) (string, error) {
	repl := map[string]string{}
	for name, edits := range overlayEdits {
		src := filepath.Join(goroot, "src", name)
		b, err := os.ReadFile(src)
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, e := range edits {
			if e.from == "" {
				s += e.to
				continue
			}
			if strings.Count(s, e.from) != 1 {
				return "", fmt.Errorf("%s: seam not found: %q", src, e.from)
			}
			s = strings.Replace(s, e.from, e.to, 1)
		}
		out := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return "", err
		}
		repl[src] = out
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	file := filepath.Join(dir, "overlay.json")
	return file, os.WriteFile(file, b, 0o644)
}
