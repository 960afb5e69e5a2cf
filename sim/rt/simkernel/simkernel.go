// Package simkernel is an operating system kernel in memory: a small file
// system, file descriptors and standard streams behind the system call
// numbers of linux/amd64. The build step patches package syscall so that every
// system call of the simulated program comes here first. What goes wrong, and
// when, is entirely decided by the Plan.
package simkernel

import (
	"encoding/json"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// Plan describes the world a run starts in and what will happen to it.
type Plan struct {
	Args      []string         `json:"args,omitempty"`
	Files     map[string]*File `json:"files"`
	Dirs      []string         `json:"dirs,omitempty"`
	Stdin     []byte           `json:"stdin,omitempty"`
	Reads     []int            `json:"reads,omitempty"`  // cycled: most bytes a read returns; 0: EINTR first
	Writes    []int            `json:"writes,omitempty"` // cycled: most bytes a write accepts; 0: EINTR first
	Faults    []*Fault         `json:"faults,omitempty"`
	Kill      *Kill            `json:"kill,omitempty"`
	DiskCap   int64            `json:"diskcap"` // bytes that still fit on the disk; <0: no limit
	StdoutCap int64            `json:"stdoutcap"`
	Lat       []int64          `json:"lat,omitempty"` // cycled: virtual nanoseconds a call takes
	Seed      uint64           `json:"seed"`          // runtime randomness (map iteration order)
	Budget    uint64           `json:"budget"`
	ProcStart int64            `json:"start"`              // virtual wall clock, unix seconds
	StatSize  *int64           `json:"statsize,omitempty"` // what stat says about the size of regular files (as procfs does)

	StdinFile    bool   `json:"stdinfile,omitempty"`  // standard input is a regular file
	StdinOff     int64  `json:"stdinoff,omitempty"`   // that was read up to here before
	StdoutFile   bool   `json:"stdoutfile,omitempty"` // standard output is a regular file
	StdoutOld    []byte `json:"stdoutold,omitempty"`  // with these contents, positioned at their end
	StdoutAppend bool   `json:"stdoutappend,omitempty"`

	Decoy  []byte   `json:"decoy,omitempty"`  // contents of every file that is not there,
	Absent []string `json:"absent,omitempty"` // except these

	Pid   int  `json:"pid,omitempty"`
	Turns bool `json:"turns,omitempty"` // other processes use the same files: ask before every call
}

// File is a regular file.
type File struct {
	Data    []byte `json:"data"`
	Mode    uint32 `json:"mode"`
	Dir     bool   `json:"dir,omitempty"`
	NoRead  bool   `json:"noread,omitempty"`
	NoWrite bool   `json:"nowrite,omitempty"`
	Mtime   int64  `json:"mtime,omitempty"` // unix nanoseconds; 0: when the run started
	Kind    string `json:"kind,omitempty"`  // empty: a regular file; "pipe" or "char": Data is what is in it, or what went in; "link"
	Link    string `json:"link,omitempty"`  // where a symbolic link leads to
	Same    string `json:"same,omitempty"`  // another name of the same file
}

// special tells whether f is a pipe or a device, without a position or size.
func (f *File) special() bool { return f.Kind == "pipe" || f.Kind == "char" }

// Fault makes the Nth matching call fail.
type Fault struct {
	Op     string `json:"op"`               // open, read, write, close, truncate, fsync, stat, rename...
	Target string `json:"target,omitempty"` // path, or <stdin> <stdout> <stderr>; empty: any
	Nth    int    `json:"nth"`
	Errno  int    `json:"errno"`
	Part   int    `json:"part,omitempty"`   // write: bytes accepted by the call before the failing one
	Sticky bool   `json:"sticky,omitempty"` // every later matching call fails as well

	seen  int
	Fired int `json:"fired,omitempty"`
}

// Kill ends the process at a system call.
type Kill struct {
	At    int `json:"at"`    // index of the call
	Phase int `json:"phase"` // 0: before it, 1: after it, 2: half-way through (writes)
}

// Event is one system call as it was served.
type Event struct {
	I      int    `json:"i"`
	Op     string `json:"op"`
	Target string `json:"t,omitempty"`
	To     string `json:"to,omitempty"`
	Off    int64  `json:"off,omitempty"`
	N      int64  `json:"n,omitempty"`
	Data   []byte `json:"d,omitempty"`
	Flags  int    `json:"f,omitempty"`
	Err    string `json:"e,omitempty"`
	Fault  string `json:"x,omitempty"`
	Steps  uint64 `json:"s,omitempty"`
	Time   int64  `json:"at,omitempty"`  // unix nanoseconds
	Proc   int    `json:"pid,omitempty"` // who did it, where there are several
}

type inode struct {
	f     *File
	path  string
	taken int64 // pipes: what was read
}

type openFile struct {
	ino    *inode
	role   string // path or <stdin>...
	off    int64
	flags  int
	stream bool
	std    bool // one of the standard streams, also if it is a regular file
}

// name is what the journal calls the file: its present path, or <stdin> and so on.
func (f *openFile) name() string {
	if f.stream || f.std {
		return f.role
	}
	return f.ino.path
}

// Kernel is the simulated kernel.
type Kernel struct {
	mu             sync.Mutex
	plan           *Plan
	paths          map[string]*inode
	dirs           map[string]bool
	fds            map[int]*openFile
	cwd            string
	umask          uint32
	n              int // system calls served
	nr, nw         int
	lat            int
	Now            int64
	Events         []Event
	OnEvent        func(*Event)
	OnKill         func()
	OnTurn         func(blocked bool) []Event // what others did meanwhile
	OnWait         func()                     // set if the tasks of one process use this kernel: called, in a loop, while a task waits for a lock
	locks          map[string]map[int]bool    // holders of locks: process (or descriptor, with OnWait), exclusively
	OnCall         func()                     // before each call
	OnRead         func(path string, f *File) // before a read of a file: somebody else may change it
	Delivered      []byte                     // what reads of files returned, unless std
	Unknown        []string
	Stdout         []byte
	Stderr         []byte
	stdinOff       int
	Opened, Closed int
	Counts         map[string]int
	std            bool // fds 0..2 belong to the simulated process
}

const (
	base   = 1000
	maxGap = 1 << 30
)

var fdCounter = base

// New creates a kernel for plan. With std, descriptors 0, 1 and 2 are simulated as well.
func New(plan *Plan, std bool) *Kernel {
	k := &Kernel{plan: plan, paths: map[string]*inode{}, dirs: map[string]bool{"/": true, "/tmp": true, "/work": true},
		fds: map[int]*openFile{}, cwd: "/work", umask: 0o022, std: std, Counts: map[string]int{}, locks: map[string]map[int]bool{}}
	for _, d := range plan.Dirs {
		k.dirs[d] = true
	}
	names := make([]string, 0)
	for p := range plan.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		f := plan.Files[p]
		if f.Dir {
			k.dirs[p] = true
			continue
		}
		c := &File{Data: append([]byte(nil), f.Data...), Mode: f.Mode, NoRead: f.NoRead, NoWrite: f.NoWrite, Mtime: f.Mtime, Kind: f.Kind, Link: f.Link}
		if c.Mtime == 0 {
			c.Mtime = plan.ProcStart * 1e9
		}
		k.paths[p] = &inode{f: c, path: p}
	}
	for _, p := range names {
		if other := k.paths[plan.Files[p].Same]; plan.Files[p].Same != "" && other != nil {
			k.paths[p] = other
		}
	}
	if std {
		k.fds[0] = &openFile{role: "<stdin>", stream: true}
		k.fds[1] = &openFile{role: "<stdout>", stream: true}
		k.fds[2] = &openFile{role: "<stderr>", stream: true}
		if plan.StdinFile {
			k.fds[0] = &openFile{role: "<stdin>", std: true, off: plan.StdinOff, ino: &inode{f: &File{Data: append([]byte(nil), plan.Stdin...), Mode: 0o644}, path: "<stdin>"}}
		}
		if plan.StdoutFile {
			f := &openFile{role: "<stdout>", std: true, off: int64(len(plan.StdoutOld)), flags: syscall.O_WRONLY, ino: &inode{f: &File{Data: append([]byte(nil), plan.StdoutOld...), Mode: 0o644}, path: "<stdout>"}}
			if plan.StdoutAppend {
				f.flags |= syscall.O_APPEND
			}
			k.fds[1] = f
		}
	}
	return k
}

// Install routes the system calls of this process to k; nil restores the real kernel.
func Install(k *Kernel) {
	if k == nil {
		syscall.SimHook = stale
		return
	}
	syscall.SimHook = k.call
}

// InstallEach routes every system call of this process to the kernel that which names then.
func InstallEach(which func() *Kernel) {
	syscall.SimHook = func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
		if k := which(); k != nil {
			return k.call(trap, a1, a2, a3, a4, a5, a6)
		}
		return stale(trap, a1, a2, a3, a4, a5, a6)
	}
}

// stale swallows calls on descriptors of kernels that are gone.
func stale(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
	switch trap {
	case sysRead, sysWrite, sysClose, sysFstat, sysPread, sysPwrite, sysFsync:
		if a1 >= base && a1 < maxGap {
			return ^uintptr(0), 0, syscall.EBADF, true
		}
	}
	return 0, 0, 0, false
}

// Virtual lists the open virtual descriptors above the standard ones.
func (k *Kernel) Leaked() []string {
	var out []string
	for fd, f := range k.fds {
		if fd > 2 {
			out = append(out, f.name())
		}
	}
	sort.Strings(out)
	return out
}

// Cwd returns the working directory of the process.
func (k *Kernel) Cwd() string { return k.cwd }

// Umask returns the mask of the process.
func (k *Kernel) Umask() uint32 { return k.umask }

func (k *Kernel) time() int64 { return k.plan.ProcStart*1e9 + k.Now }

// Snapshot returns the contents of all files.
func (k *Kernel) Snapshot() map[string]File {
	out := map[string]File{}
	for p, ino := range k.paths {
		out[p] = *ino.f
	}
	return out
}

// SameFile tells whether two names are those of one file.
func (k *Kernel) SameFile(a, b string) bool { return k.paths[a] != nil && k.paths[a] == k.paths[b] }

// Forget takes a name away.
func (k *Kernel) Forget(name string) { delete(k.paths, name) }

// Calls returns the number of system calls served.
func (k *Kernel) Calls() int { return k.n }

const (
	sysRead       = 0
	sysWrite      = 1
	sysOpen       = 2
	sysClose      = 3
	sysStat       = 4
	sysFstat      = 5
	sysLstat      = 6
	sysLseek      = 8
	sysIoctl      = 16
	sysPread      = 17
	sysPwrite     = 18
	sysReadv      = 19
	sysWritev     = 20
	sysAccess     = 21
	sysDup        = 32
	sysDup2       = 33
	sysSendfile   = 40
	sysFcntl      = 72
	sysFlock      = 73
	sysFsync      = 74
	sysFdatasync  = 75
	sysTruncate   = 76
	sysFtruncate  = 77
	sysGetcwd     = 79
	sysChdir      = 80
	sysFchdir     = 81
	sysRename     = 82
	sysMkdir      = 83
	sysRmdir      = 84
	sysCreat      = 85
	sysLink       = 86
	sysUnlink     = 87
	sysSymlink    = 88
	sysReadlink   = 89
	sysChmod      = 90
	sysFchmod     = 91
	sysChown      = 92
	sysUmask      = 95
	sysFchown     = 93
	sysLchown     = 94
	sysUtime      = 132
	sysGetdents   = 217
	sysOpenat     = 257
	sysMkdirat    = 258
	sysFstatat    = 262
	sysUnlinkat   = 263
	sysRenameat   = 264
	sysLinkat     = 265
	sysSymlinkat  = 266
	sysReadlinkat = 267
	sysFchmodat   = 268
	sysFaccessat  = 269
	sysSplice     = 275
	sysUtimensat  = 280
	sysFallocate  = 285
	sysDup3       = 292
	sysPwritev    = 296
	sysRenameat2  = 316
	sysCopyRange  = 326
	sysStatx      = 332
	sysOpenat2    = 437
	sysFaccessat2 = 439
)

const bad = ^uintptr(0)

//go:nocheckptr
func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	var b []byte
	for i := uintptr(0); i < 4096; i++ {
		c := *(*byte)(ptr(p + i))
		if c == 0 {
			break
		}
		b = append(b, c)
	}
	return string(b)
}

//go:nocheckptr
func ptr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

//go:nocheckptr
func mem(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	if n > 1<<28 {
		n = 1 << 28
	}
	return (*[1 << 28]byte)(ptr(p))[:n:n]
}

// abs is the path that a name stands for: directories are walked through, links to directories
// followed. A link at the end is left alone.
func (k *Kernel) abs(p string) string { return k.walk(p, 0) }

func (k *Kernel) walk(p string, depth int) string {
	if !strings.HasPrefix(p, "/") {
		p = k.cwd + "/" + p
	}
	at := "/"
	for p != "" {
		c := p
		if i := strings.IndexByte(p, '/'); i >= 0 {
			c, p = p[:i], p[i+1:]
		} else {
			p = ""
		}
		switch c {
		case "", ".":
		case "..":
			at = path.Dir(at)
		default:
			at = path.Join(at, c)
			if strings.Trim(p, "/") != "" {
				at = k.lead(at, depth)
			}
		}
	}
	return at
}

// at is the name that an -at call means.
func (k *Kernel) at(dir uintptr, p uintptr) string {
	name := cstr(p)
	if int32(dir) != -100 && !strings.HasPrefix(name, "/") {
		if f := k.fds[int(dir)]; f != nil && !f.stream {
			name = f.ino.path + "/" + name
		}
	}
	return name
}

// follow goes where symbolic links lead to.
func (k *Kernel) follow(p string) string { return k.lead(p, 0) }

func (k *Kernel) lead(p string, depth int) string {
	for ; depth < 8 && k.paths[p] != nil && k.paths[p].f.Kind == "link"; depth++ {
		to := k.paths[p].f.Link
		if !path.IsAbs(to) {
			to = path.Dir(p) + "/" + to
		}
		p = k.walk(to, depth+1)
	}
	return p
}

func (k *Kernel) event(e Event) *Event {
	e.I = k.n - 1
	e.Time = k.time()
	e.Proc = k.plan.Pid
	k.Events = append(k.Events, e)
	return &k.Events[len(k.Events)-1]
}

func (k *Kernel) emit(e Event) {
	p := k.event(e)
	if k.OnEvent != nil {
		k.OnEvent(p)
	}
}

// fault returns the fault that hits this call, if any.
func (k *Kernel) fault(op, target string) *Fault {
	var hit *Fault
	for _, f := range k.plan.Faults {
		if f.Op != op || (f.Target != "" && f.Target != target) {
			continue
		}
		n := f.seen
		f.seen++
		if hit == nil && (n == f.Nth || (f.Sticky && n > f.Nth)) {
			f.Fired++
			hit = f
		}
	}
	if hit != nil {
		k.Counts["fault:"+op+":"+syscall.Errno(hit.Errno).Error()]++
	}
	return hit
}

// call serves one system call.
func (k *Kernel) call(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err syscall.Errno, handled bool) {
	if !k.mine(trap, a1) {
		return 0, 0, 0, false
	}
	if k.OnCall != nil {
		k.OnCall()
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	k.turn(false)
	at := k.n
	k.n++
	if len(k.plan.Lat) > 0 {
		k.Now += k.plan.Lat[k.lat%len(k.plan.Lat)]
		k.lat++
	}
	kill := k.plan.Kill
	if kill != nil && (kill.At != at) {
		kill = nil
	}
	if kill != nil && (kill.Phase == 0 || (kill.Phase == 2 && trap != sysWrite && trap != sysPwrite)) {
		k.die("before")
	}
	half := kill != nil && kill.Phase == 2
	r1, err = k.serve(trap, a1, a2, a3, a4, a5, half)
	if kill != nil {
		k.die("after")
	}
	if err != 0 {
		return bad, 0, err, true
	}
	return r1, 0, 0, true
}

// turn waits until it is this process's turn, and catches up with what others did.
func (k *Kernel) turn(blocked bool) {
	if k.OnTurn == nil {
		return
	}
	for _, e := range k.OnTurn(blocked) {
		e := e
		k.foreign(&e)
	}
}

// foreign repeats what another process did to the file system.
func (k *Kernel) foreign(e *Event) {
	if e.Op == "exit" {
		for _, l := range k.locks {
			delete(l, e.Proc)
		}
		return
	}
	if e.Err != "" || strings.HasPrefix(e.Target, "<") {
		return
	}
	ino := k.paths[e.Target]
	switch e.Op {
	case "mkdir":
		k.dirs[e.Target] = true
	case "rmdir":
		delete(k.dirs, e.Target)
	case "flock":
		k.lock(e.Target, e.Proc, e.To)
	case "open":
		switch {
		case e.To == "created":
			k.paths[e.Target] = &inode{f: &File{Mode: uint32(e.Off), Mtime: e.Time}, path: e.Target}
		case e.To == "truncated" && ino != nil:
			ino.f.Data, ino.f.Mtime = nil, e.Time
		}
	case "rename":
		k.move(e.Target, e.To)
	case "link":
		if ino != nil {
			k.paths[e.To] = ino
		}
	case "unlink":
		k.forget(e.Target)
	default:
		if ino != nil {
			Apply(map[string]*File{e.Target: ino.f}, e)
		}
	}
}

// forget removes a name.
func (k *Kernel) forget(p string) {
	ino := k.paths[p]
	delete(k.paths, p)
	if ino == nil || ino.path != p {
		return
	}
	var others []string
	for q, x := range k.paths {
		if x == ino {
			others = append(others, q)
		}
	}
	if sort.Strings(others); len(others) > 0 {
		ino.path = others[0]
		return
	}
	ino.path = p + " (deleted)"
}

func (k *Kernel) move(from, to string) {
	ino := k.paths[from]
	if ino == nil || from == to {
		return
	}
	k.forget(to)
	delete(k.paths, from)
	k.paths[to] = ino
	ino.path = to
}

func (k *Kernel) lock(name string, pid int, how string) {
	if k.locks[name] == nil {
		k.locks[name] = map[int]bool{}
	}
	delete(k.locks[name], pid)
	if how != "none" {
		k.locks[name][pid] = how == "exclusive"
	}
}

func (k *Kernel) holds(name string, fd int) bool {
	_, ok := k.locks[name][k.holder(fd)]
	return ok
}

func (k *Kernel) holder(fd int) int {
	if k.OnWait != nil {
		return fd
	}
	return k.plan.Pid
}

func (k *Kernel) flock(fd, op int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	how := map[int]string{syscall.LOCK_EX: "exclusive", syscall.LOCK_SH: "shared", syscall.LOCK_UN: "none"}[op&^syscall.LOCK_NB]
	for how != "none" && !f.stream {
		busy := false
		for pid, ex := range k.locks[f.name()] {
			busy = busy || pid != k.holder(fd) && (ex || how == "exclusive")
		}
		if !busy {
			break
		}
		if op&syscall.LOCK_NB != 0 {
			return 0, syscall.EWOULDBLOCK
		}
		if k.OnWait != nil {
			func() {
				k.mu.Unlock()
				defer k.mu.Lock()
				k.OnWait()
			}()
			continue
		}
		k.turn(true)
	}
	k.lock(f.name(), k.holder(fd), how)
	k.emit(Event{Op: "flock", Target: f.name(), To: how})
	return 0, 0
}

func (k *Kernel) getdents(fd int, buf []byte) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.stream || !f.ino.f.Dir {
		return 0, syscall.ENOTDIR
	}
	kids := map[string]byte{}
	for p := range k.paths {
		if path.Dir(p) == f.ino.path {
			kids[path.Base(p)] = syscall.DT_REG
			switch k.paths[p].f.Kind {
			case "pipe":
				kids[path.Base(p)] = syscall.DT_FIFO
			case "link":
				kids[path.Base(p)] = syscall.DT_LNK
			case "char":
				kids[path.Base(p)] = syscall.DT_CHR
			}
		}
	}
	for p := range k.dirs {
		if path.Dir(p) == f.ino.path && p != "/" {
			kids[path.Base(p)] = syscall.DT_DIR
		}
	}
	names := make([]string, 0)
	for n := range kids {
		names = append(names, n)
	}
	sort.Strings(names)
	n := 0
	for ; f.off < int64(len(names)); f.off++ {
		name := names[f.off]
		size := (19 + len(name) + 1 + 7) &^ 7
		if n+size > len(buf) {
			break
		}
		d := buf[n : n+size]
		for i := range d {
			d[i] = 0
		}
		d[0], d[8] = byte(f.off+10), byte(f.off+1)
		d[16], d[17], d[18] = byte(size), byte(size>>8), kids[name]
		copy(d[19:], name)
		n += size
	}
	return uintptr(n), 0
}

func (k *Kernel) die(when string) {
	k.emit(Event{Op: "kill", Target: when})
	if k.OnKill != nil {
		k.OnKill()
	}
}

// mine tells whether the call is simulated.
func (k *Kernel) mine(trap, a1 uintptr) bool {
	switch trap {
	case sysRead, sysWrite, sysClose, sysFstat, sysLseek, sysPread, sysPwrite, sysReadv, sysWritev, sysDup, sysDup2, sysDup3,
		sysFcntl, sysFchdir, sysFlock, sysFsync, sysFdatasync, sysFtruncate, sysFchmod, sysFchown, sysGetdents, sysFallocate, sysIoctl:
		if k.std && a1 <= 2 {
			return true
		}
		return a1 >= base && a1 < maxGap
	case sysOpen, sysOpenat, sysOpenat2, sysStat, sysLstat, sysFstatat, sysStatx, sysAccess, sysFaccessat, sysFaccessat2, sysTruncate,
		sysGetcwd, sysChdir, sysRename, sysRenameat, sysRenameat2, sysMkdir, sysMkdirat, sysRmdir, sysCreat, sysLink, sysLinkat,
		sysUnlink, sysUnlinkat, sysSymlink, sysSymlinkat, sysReadlink, sysReadlinkat, sysChmod, sysFchmodat, sysChown, sysLchown,
		sysUtime, sysUtimensat, sysSendfile, sysSplice, sysCopyRange, sysPwritev, sysUmask:
		return true
	}
	return false
}

func errname(e syscall.Errno) string {
	if e == 0 {
		return ""
	}
	return e.Error()
}

func (k *Kernel) serve(trap, a1, a2, a3, a4, a5 uintptr, half bool) (uintptr, syscall.Errno) {
	switch trap {
	case sysOpen:
		return k.open(cstr(a1), int(a2), uint32(a3))
	case sysCreat:
		return k.open(cstr(a1), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a2))
	case sysOpenat:
		return k.open(k.at(a1, a2), int(a3), uint32(a4))
	case sysRead:
		return k.read(int(a1), mem(a2, a3), -1)
	case sysPread:
		return k.read(int(a1), mem(a2, a3), int64(a4))
	case sysWrite:
		return k.write(int(a1), mem(a2, a3), -1, half)
	case sysPwrite:
		return k.write(int(a1), mem(a2, a3), int64(a4), half)
	case sysClose:
		return k.close(int(a1))
	case sysLseek:
		return k.lseek(int(a1), int64(a2), int(a3))
	case sysFtruncate:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		if f.stream {
			return 0, syscall.EINVAL
		}
		return k.truncate(f.ino, f.name(), int64(a2))
	case sysTruncate:
		p := k.follow(k.abs(cstr(a1)))
		ino := k.paths[p]
		if ino == nil {
			return 0, syscall.ENOENT
		}
		return k.truncate(ino, p, int64(a2))
	case sysFsync, sysFdatasync:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		if x := k.fault("fsync", f.name()); x != nil {
			k.emit(Event{Op: "fsync", Target: f.name(), Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
			return 0, syscall.Errno(x.Errno)
		}
		var e syscall.Errno
		if f.stream || f.ino.f.special() {
			e = syscall.EINVAL
		}
		k.emit(Event{Op: "fsync", Target: f.name(), Err: errname(e)})
		return 0, e
	case sysFstat:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		if x := k.fault("stat", f.name()); x != nil {
			k.emit(Event{Op: "stat", Target: f.name(), Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
			return 0, syscall.Errno(x.Errno)
		}
		k.fill(a2, f.ino, f.stream, false)
		k.emit(Event{Op: "stat", Target: f.role})
		return 0, 0
	case sysStat, sysLstat:
		return k.statPath(cstr(a1), a2, trap == sysStat)
	case sysFstatat:
		if cstr(a2) != "" {
			return k.statPath(k.at(a1, a2), a3, a4&0x100 == 0)
		}
		return 0, syscall.ENOSYS
	case sysAccess, sysFaccessat, sysFaccessat2:
		p := ""
		if trap != sysAccess {
			p = k.at(a1, a2)
		} else {
			p = cstr(a1)
		}
		q := k.follow(k.abs(p))
		if k.paths[q] == nil && !k.dirs[q] && k.decoy(q) == nil {
			return 0, syscall.ENOENT
		}
		return 0, 0
	case sysRename:
		return k.rename(cstr(a1), cstr(a2))
	case sysRenameat, sysRenameat2:
		return k.rename(k.at(a1, a2), k.at(a3, a4))
	case sysUnlink:
		return k.unlink(cstr(a1))
	case sysUnlinkat:
		if a3&0x200 != 0 {
			return k.rmdir(k.at(a1, a2))
		}
		return k.unlink(k.at(a1, a2))
	case sysLink, sysLinkat:
		from, to := "", ""
		if trap == sysLinkat {
			from, to = k.at(a1, a2), k.at(a3, a4)
		} else {
			from, to = cstr(a1), cstr(a2)
		}
		ino := k.paths[k.abs(from)]
		if ino == nil {
			return 0, syscall.ENOENT
		}
		if k.paths[k.abs(to)] != nil {
			return 0, syscall.EEXIST
		}
		if !k.dirs[path.Dir(k.abs(to))] {
			return 0, syscall.ENOENT
		}
		if device(k.abs(from)) != device(k.abs(to)) {
			return 0, syscall.EXDEV
		}
		k.paths[k.abs(to)] = ino
		k.emit(Event{Op: "link", Target: k.abs(from), To: k.abs(to)})
		return 0, 0
	case sysUmask:
		old := k.umask
		k.umask = uint32(a1) & 0o777
		return uintptr(old), 0
	case sysMkdir, sysMkdirat:
		p := ""
		if trap == sysMkdirat {
			p = k.abs(k.at(a1, a2))
		} else {
			p = k.abs(cstr(a1))
		}
		if k.dirs[p] || k.paths[p] != nil {
			return 0, syscall.EEXIST
		}
		if !k.dirs[path.Dir(p)] {
			return 0, syscall.ENOENT
		}
		k.dirs[p] = true
		k.emit(Event{Op: "mkdir", Target: p})
		return 0, 0
	case sysFchmod:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		if x := k.fault("chmod", f.name()); x != nil {
			return 0, syscall.Errno(x.Errno)
		}
		if !f.stream {
			f.ino.f.Mode = uint32(a2) & 0o7777
			k.emit(Event{Op: "chmod", Target: f.name(), Flags: int(a2) & 0o7777})
		}
		return 0, 0
	case sysChmod, sysFchmodat:
		p, m := "", a2
		if trap == sysFchmodat {
			p, m = k.at(a1, a2), a3
		} else {
			p = cstr(a1)
		}
		q := k.abs(p)
		if x := k.fault("chmod", q); x != nil {
			return 0, syscall.Errno(x.Errno)
		}
		q = k.follow(q)
		ino := k.paths[q]
		if ino == nil {
			return 0, syscall.ENOENT
		}
		ino.f.Mode = uint32(m) & 0o7777
		k.emit(Event{Op: "chmod", Target: q, Flags: int(m) & 0o7777})
		return 0, 0
	case sysFchown, sysChown, sysLchown, sysUtime:
		return 0, 0
	case sysFlock:
		return k.flock(int(a1), int(a2))
	case sysGetdents:
		return k.getdents(int(a1), mem(a2, a3))
	case sysUtimensat:
		ino := (*inode)(nil)
		if a2 != 0 {
			ino = k.paths[k.follow(k.abs(k.at(a1, a2)))]
		} else if f := k.fds[int(a1)]; f != nil && !f.stream {
			ino = f.ino
		}
		if ino == nil {
			return 0, syscall.ENOENT
		}
		at := k.time()
		if a3 != 0 {
			switch ts := (*[2]syscall.Timespec)(ptr(a3))[1]; ts.Nsec {
			case 1<<30 - 1: // now
			case 1<<30 - 2: // as it is
				at = ino.f.Mtime
			default:
				at = ts.Nano()
			}
		}
		ino.f.Mtime = at
		k.emit(Event{Op: "utimes", Target: ino.path, N: at})
		return 0, 0
	case sysRmdir:
		return k.rmdir(cstr(a1))
	case sysChdir:
		p := k.follow(k.abs(cstr(a1)))
		if !k.dirs[p] {
			if k.paths[p] != nil {
				return 0, syscall.ENOTDIR
			}
			return 0, syscall.ENOENT
		}
		k.cwd = p
		return 0, 0
	case sysFchdir:
		f := k.fds[int(a1)]
		switch {
		case f == nil:
			return 0, syscall.EBADF
		case f.ino == nil || !k.dirs[f.ino.path]:
			return 0, syscall.ENOTDIR
		}
		k.cwd = f.ino.path
		return 0, 0
	case sysGetcwd:
		b := mem(a1, a2)
		s := k.cwd + "\x00"
		if len(b) < len(s) {
			return 0, syscall.ERANGE
		}
		copy(b, s)
		return uintptr(len(s)), 0
	case sysReadlink, sysReadlinkat:
		p := ""
		if trap == sysReadlinkat {
			p, a2, a3 = k.at(a1, a2), a3, a4
		} else {
			p = cstr(a1)
		}
		b := mem(a2, a3)
		ino := k.paths[k.abs(p)]
		if ino == nil && !k.dirs[k.abs(p)] {
			return 0, syscall.ENOENT
		}
		if ino == nil || ino.f.Kind != "link" {
			return 0, syscall.EINVAL
		}
		return uintptr(copy(b, ino.f.Link)), 0
	case sysDup, sysDup3:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		fd := k.newFD(f)
		return uintptr(fd), 0
	case sysFcntl:
		f := k.fds[int(a1)]
		if f == nil {
			return 0, syscall.EBADF
		}
		switch int(a2) {
		case syscall.F_DUPFD_CLOEXEC, syscall.F_DUPFD:
			return uintptr(k.newFD(f)), 0
		case syscall.F_GETFL:
			return uintptr(f.flags), 0
		}
		return 0, 0
	case sysIoctl:
		return 0, syscall.ENOTTY
	case sysSendfile, sysSplice:
		return 0, syscall.EINVAL
	case sysCopyRange, sysStatx, sysOpenat2, sysFallocate, sysPwritev, sysReadv, sysWritev:
		return 0, syscall.ENOSYS
	case sysSymlink, sysSymlinkat:
		return 0, syscall.EPERM
	}
	k.Unknown = append(k.Unknown, "syscall "+itoa(int(trap)))
	k.emit(Event{Op: "unknown", Target: itoa(int(trap))})
	return 0, syscall.ENOSYS
}

func itoa(n int) string {
	b, _ := json.Marshal(n)
	return string(b)
}

//go:norace
func (k *Kernel) newFD(f *openFile) int {
	fd := fdCounter
	fdCounter++
	k.fds[fd] = f
	return fd
}

func (k *Kernel) open(name string, flags int, mode uint32) (uintptr, syscall.Errno) {
	p := k.abs(name)
	fail := func(e syscall.Errno, why string) (uintptr, syscall.Errno) {
		k.emit(Event{Op: "open", Target: p, Flags: flags, Err: errname(e), Fault: why})
		return 0, e
	}
	if x := k.fault("open", p); x != nil {
		return fail(syscall.Errno(x.Errno), "errno")
	}
	if flags&syscall.O_NOFOLLOW == 0 && (flags&syscall.O_CREAT == 0 || flags&syscall.O_EXCL == 0) {
		p = k.follow(p)
	} else if k.paths[p] != nil && k.paths[p].f.Kind == "link" && flags&syscall.O_EXCL == 0 {
		return fail(syscall.ELOOP, "")
	}
	acc := flags & syscall.O_ACCMODE
	switch p {
	case "/dev/stdin", "/proc/self/fd/0", "/dev/stdout", "/proc/self/fd/1":
		n := 0
		if strings.HasSuffix(p, "out") || strings.HasSuffix(p, "1") {
			n = 1
		}
		if k.fds[n] == nil {
			return fail(syscall.ENOENT, "")
		}
		f := k.fds[n]
		if !f.stream { // a regular file is opened anew
			f = &openFile{role: f.role, std: true, ino: f.ino, flags: flags}
			if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
				k.truncate(f.ino, f.role, 0)
			}
		}
		return uintptr(k.newFD(f)), 0
	}
	if k.dirs[p] {
		if acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0 {
			return fail(syscall.EISDIR, "")
		}
		ino := &inode{f: &File{Mode: 0o755, Dir: true}, path: p}
		k.Opened++
		fd := k.newFD(&openFile{ino: ino, role: p, flags: flags})
		k.emit(Event{Op: "open", Target: p, Flags: flags})
		return uintptr(fd), 0
	}
	ino := k.paths[p]
	created := false
	if ino == nil && flags&syscall.O_CREAT == 0 && acc == syscall.O_RDONLY {
		ino = k.decoy(p)
	}
	if ino == nil {
		if flags&syscall.O_CREAT == 0 || !k.dirs[path.Dir(p)] {
			return fail(syscall.ENOENT, "")
		}
		ino = &inode{f: &File{Mode: mode & 0o7777 &^ k.umask, Mtime: k.time()}, path: p}
		k.paths[p] = ino
		created = true
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return fail(syscall.EEXIST, "")
		}
		if (ino.f.NoRead && acc != syscall.O_WRONLY) || (ino.f.NoWrite && acc != syscall.O_RDONLY) {
			return fail(syscall.EACCES, "")
		}
	}
	e := Event{Op: "open", Target: p, Flags: flags}
	if created {
		e.To = "created"
		e.Off = int64(ino.f.Mode)
	}
	if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && !created && !ino.f.special() {
		ino.f.Data, ino.f.Mtime = nil, k.time()
		e.To = "truncated"
	}
	k.Opened++
	fd := k.newFD(&openFile{ino: ino, role: p, flags: flags})
	k.emit(e)
	return uintptr(fd), 0
}

func (k *Kernel) close(fd int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	x := k.fault("close", f.name())
	delete(k.fds, fd)
	if !f.stream && k.holds(f.name(), fd) {
		k.lock(f.name(), k.holder(fd), "none")
		k.emit(Event{Op: "flock", Target: f.name(), To: "none"})
	}
	if fd > 2 {
		k.Closed++
	}
	if x != nil {
		k.emit(Event{Op: "close", Target: f.name(), Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	k.emit(Event{Op: "close", Target: f.role})
	return 0, 0
}

func (k *Kernel) read(fd int, buf []byte, at int64) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if x := k.fault("read", f.name()); x != nil {
		k.emit(Event{Op: "read", Target: f.name(), Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	if f.stream && f.name() != "<stdin>" {
		return 0, syscall.EBADF
	}
	if !f.stream && f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	if !f.stream && f.ino.f.Dir {
		k.emit(Event{Op: "read", Target: f.name(), Err: errname(syscall.EISDIR)})
		return 0, syscall.EISDIR
	}
	if at >= 0 && (f.stream || f.ino.f.special()) {
		k.emit(Event{Op: "read", Target: f.name(), Err: errname(syscall.ESPIPE)})
		return 0, syscall.ESPIPE
	}
	max := len(buf)
	if len(k.plan.Reads) > 0 {
		c := k.plan.Reads[k.nr%len(k.plan.Reads)]
		k.nr++
		if c == 0 {
			k.Counts["eintr:read"]++
			k.emit(Event{Op: "read", Target: f.name(), Err: errname(syscall.EINTR), Fault: "eintr"})
			return 0, syscall.EINTR
		}
		if c < max {
			max = c
		}
	}
	var src []byte
	off := &f.off
	tmp := at
	if at >= 0 {
		off = &tmp
	}
	if f.stream {
		src = k.plan.Stdin
		o := int64(k.stdinOff)
		off = &o
		defer func() { k.stdinOff = int(o) }()
	} else {
		if k.OnRead != nil {
			k.OnRead(f.name(), f.ino.f)
		}
		src = f.ino.f.Data
		if f.ino.f.special() {
			off = &f.ino.taken
		}
	}
	n := 0
	if *off < int64(len(src)) {
		n = copy(buf[:max], src[*off:])
	}
	if n > 0 && n < len(buf) && *off+int64(n) < int64(len(src)) {
		k.Counts["short:read"]++
	}
	if !k.std {
		k.Delivered = append(k.Delivered, buf[:n]...)
	}
	k.emit(Event{Op: "read", Target: f.name(), Off: *off, N: int64(n)})
	*off += int64(n)
	return uintptr(n), 0
}

func (k *Kernel) write(fd int, buf []byte, at int64, half bool) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	fail := func(e syscall.Errno, why string) (uintptr, syscall.Errno) {
		k.emit(Event{Op: "write", Target: f.name(), Err: errname(e), Fault: why})
		return 0, e
	}
	if x := k.fault("write", f.name()); x != nil {
		if x.Part > 0 && x.Fired == 1 && len(buf) > 1 {
			// the failure shows up one call later, after some bytes went through
			part := x.Part
			if part >= len(buf) {
				part = len(buf) - 1
			}
			x.seen--
			x.Part = 0
			x.Fired = 0
			x.Nth = x.seen
			k.Counts["short:write-before-error"]++
			return k.store(f, buf[:part], at, "partial")
		}
		return fail(syscall.Errno(x.Errno), "errno")
	}
	if f.stream && f.name() == "<stdin>" {
		return 0, syscall.EBADF
	}
	if !f.stream && f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return fail(syscall.EBADF, "")
	}
	if at >= 0 && (f.stream || f.ino.f.special()) {
		return fail(syscall.ESPIPE, "")
	}
	max := len(buf)
	why := ""
	if len(k.plan.Writes) > 0 && f.name() != "<stderr>" {
		c := k.plan.Writes[k.nw%len(k.plan.Writes)]
		k.nw++
		if c == 0 {
			k.Counts["eintr:write"]++
			return fail(syscall.EINTR, "eintr")
		}
		if c < max {
			max = c
			why = "short"
			k.Counts["short:write"]++
		}
	}
	if half && max > 1 {
		max = max / 2
		why = "half"
	}
	cap := &k.plan.DiskCap
	if f.stream || f.std {
		cap = &k.plan.StdoutCap
	}
	if *cap >= 0 && f.name() != "<stderr>" && (f.stream || !f.ino.f.special()) {
		if *cap == 0 && max > 0 {
			k.Counts["fault:write:disk full"]++
			return fail(syscall.ENOSPC, "full")
		}
		if int64(max) > *cap {
			max = int(*cap)
			why = "full"
			k.Counts["short:write-disk-full"]++
		}
		*cap -= int64(max)
	}
	return k.store(f, buf[:max], at, why)
}

func (k *Kernel) store(f *openFile, buf []byte, at int64, why string) (uintptr, syscall.Errno) {
	data := append([]byte(nil), buf...)
	if f.stream {
		switch f.name() {
		case "<stdout>":
			k.Stdout = append(k.Stdout, data...)
		case "<stderr>":
			k.Stderr = append(k.Stderr, data...)
		}
		k.emit(Event{Op: "write", Target: f.name(), N: int64(len(data)), Data: data, Fault: why})
		return uintptr(len(data)), 0
	}
	off := f.off
	if at >= 0 {
		off = at
	}
	if f.flags&syscall.O_APPEND != 0 || f.ino.f.special() {
		off = int64(len(f.ino.f.Data))
	}
	put(f.ino.f, off, data)
	f.ino.f.Mtime = k.time()
	k.emit(Event{Op: "write", Target: f.name(), Off: off, N: int64(len(data)), Data: data, Fault: why})
	if at < 0 {
		f.off = off + int64(len(data))
	}
	return uintptr(len(data)), 0
}

func put(f *File, off int64, data []byte) {
	for int64(len(f.Data)) < off {
		f.Data = append(f.Data, 0)
	}
	n := copy(f.Data[off:], data)
	f.Data = append(f.Data, data[n:]...)
}

func (k *Kernel) truncate(ino *inode, role string, size int64) (uintptr, syscall.Errno) {
	if x := k.fault("truncate", role); x != nil {
		k.emit(Event{Op: "truncate", Target: role, Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	if size < 0 || ino.f.special() {
		k.emit(Event{Op: "truncate", Target: role, Err: errname(syscall.EINVAL)})
		return 0, syscall.EINVAL
	}
	if size < int64(len(ino.f.Data)) {
		ino.f.Data = ino.f.Data[:size:size]
	} else {
		put(ino.f, size, nil)
	}
	ino.f.Mtime = k.time()
	k.emit(Event{Op: "truncate", Target: role, N: size})
	return 0, 0
}

func (k *Kernel) lseek(fd int, off int64, whence int) (uintptr, syscall.Errno) {
	f := k.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.stream || f.ino.f.special() {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.f.Data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.off = off
	k.emit(Event{Op: "lseek", Target: f.name(), Off: off})
	return uintptr(off), 0
}

// device numbers the file systems: /tmp is one of its own, as it often is.
func device(p string) uint64 {
	if strings.HasPrefix(p, "/tmp/") || p == "/tmp" {
		return 2
	}
	return 1
}

func (k *Kernel) rename(from, to string) (uintptr, syscall.Errno) {
	from, to = k.abs(from), k.abs(to)
	if x := k.fault("rename", to); x != nil {
		k.emit(Event{Op: "rename", Target: from, To: to, Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	ino := k.paths[from]
	if ino == nil {
		return 0, syscall.ENOENT
	}
	if k.dirs[to] {
		return 0, syscall.EISDIR
	}
	if !k.dirs[path.Dir(to)] {
		return 0, syscall.ENOENT
	}
	if device(from) != device(to) {
		return 0, syscall.EXDEV
	}
	k.move(from, to)
	k.emit(Event{Op: "rename", Target: from, To: to})
	return 0, 0
}

func (k *Kernel) rmdir(p string) (uintptr, syscall.Errno) {
	p = k.abs(p)
	if !k.dirs[p] {
		if k.paths[p] != nil {
			return 0, syscall.ENOTDIR
		}
		return 0, syscall.ENOENT
	}
	for q := range k.paths {
		if path.Dir(q) == p {
			return 0, syscall.ENOTEMPTY
		}
	}
	for q := range k.dirs {
		if path.Dir(q) == p {
			return 0, syscall.ENOTEMPTY
		}
	}
	delete(k.dirs, p)
	k.emit(Event{Op: "rmdir", Target: p})
	return 0, 0
}

func (k *Kernel) unlink(p string) (uintptr, syscall.Errno) {
	p = k.abs(p)
	if x := k.fault("unlink", p); x != nil {
		k.emit(Event{Op: "unlink", Target: p, Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	if k.dirs[p] {
		return 0, syscall.EISDIR
	}
	if k.paths[p] == nil {
		return 0, syscall.ENOENT
	}
	k.forget(p)
	k.emit(Event{Op: "unlink", Target: p})
	return 0, 0
}

func (k *Kernel) statPath(name string, out uintptr, follow bool) (uintptr, syscall.Errno) {
	p := k.abs(name)
	if x := k.fault("stat", p); x != nil {
		k.emit(Event{Op: "stat", Target: p, Err: errname(syscall.Errno(x.Errno)), Fault: "errno"})
		return 0, syscall.Errno(x.Errno)
	}
	if follow {
		p = k.follow(p)
	}
	if k.dirs[p] {
		k.fill(out, &inode{f: &File{Mode: 0o755, Dir: true}, path: p}, false, true)
		return 0, 0
	}
	ino := k.paths[p]
	if ino == nil {
		ino = k.decoy(p)
	}
	if ino == nil {
		k.emit(Event{Op: "stat", Target: p, Err: errname(syscall.ENOENT)})
		return 0, syscall.ENOENT
	}
	k.fill(out, ino, false, false)
	k.emit(Event{Op: "stat", Target: p})
	return 0, 0
}

// decoy is the file that is found where a program looks for one nobody named.
func (k *Kernel) decoy(p string) *inode {
	for _, n := range k.plan.Absent {
		if p == n {
			return nil
		}
	}
	if k.plan.Decoy == nil || k.follow(p) != p || !strings.HasPrefix(p, "/work/") && !strings.HasPrefix(p, "/data/") {
		return nil
	}
	return &inode{f: &File{Data: k.plan.Decoy, Mode: 0o444, Mtime: k.time()}, path: p}
}

//go:nocheckptr
func (k *Kernel) fill(out uintptr, ino *inode, stream, dir bool) {
	st := (*syscall.Stat_t)(ptr(out))
	*st = syscall.Stat_t{}
	st.Nlink = 0
	for _, x := range k.paths {
		if x == ino {
			st.Nlink++
		}
	}
	if st.Nlink == 0 && (stream || dir) {
		st.Nlink = 1
	}
	st.Blksize = 4096
	st.Mtim = syscall.NsecToTimespec(k.time())
	id := uint64(14695981039346656037)
	st.Dev = 1
	if ino != nil {
		st.Dev = device(ino.path)
		for _, c := range []byte(ino.path) {
			id = (id ^ uint64(c)) * 1099511628211
		}
	}
	switch {
	case stream:
		st.Mode = syscall.S_IFIFO | 0o600
		st.Ino = 1
	case dir || ino.f.Dir:
		st.Mode = syscall.S_IFDIR | 0o755
		st.Ino = id
	default:
		st.Mode = syscall.S_IFREG | ino.f.Mode
		st.Mtim = syscall.NsecToTimespec(ino.f.Mtime)
		st.Size = int64(len(ino.f.Data))
		if ino.f.Kind == "link" {
			st.Size, st.Mode = int64(len(ino.f.Link)), syscall.S_IFLNK|0o777
		} else if ino.f.special() {
			st.Size = 0
			if st.Mode = syscall.S_IFIFO | ino.f.Mode; ino.f.Kind == "char" {
				st.Mode = syscall.S_IFCHR | ino.f.Mode
			}
		} else if k.plan.StatSize != nil {
			st.Size = *k.plan.StatSize
		}
		st.Ino = id
	}
}

// Apply replays a journal event on files (as the parent of a killed process does).
func Apply(files map[string]*File, e *Event) {
	if e.Err != "" || strings.HasPrefix(e.Target, "<") {
		return
	}
	f := files[e.Target]
	if f == nil && e.Op != "open" {
		return // unlinked while open
	}
	switch e.Op {
	case "open":
		switch e.To {
		case "created":
			files[e.Target] = &File{Mode: uint32(e.Off), Mtime: e.Time}
		case "truncated":
			f.Data, f.Mtime = nil, e.Time
		}
	case "utimes":
		f.Mtime = e.N
	case "write", "truncate":
		ApplyTo(f, e)
		f.Mtime = e.Time
	case "rename":
		delete(files, e.Target)
		files[e.To] = f
	case "link":
		files[e.To] = f
	case "unlink":
		delete(files, e.Target)
	case "chmod":
		f.Mode = uint32(e.Flags)
	}
}

// ApplyTo replays a write or truncation on a file.
func ApplyTo(f *File, e *Event) {
	switch {
	case e.Op == "write":
		put(f, e.Off, e.Data)
	case e.N < int64(len(f.Data)):
		f.Data = f.Data[:e.N:e.N]
	default:
		put(f, e.N, nil)
	}
}
