package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fCheck   = flag.String("check", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fScratch = flag.String("scratch", "", "scratch directory with the built binaries")
	fHome    = flag.String("home", "/verif", "")
	fOut     = flag.String("out", "/verif", "where evidence and replays go")
	fMode    = flag.String("mode", "", "how the tree was built")
	fPoints  = flag.Int("points", 0, "yield points inserted")
	fBuilt   = flag.Float64("built", 0, "seconds the build took")
	fReplay  = flag.String("replay", "", "replay file")
	fWorker  = flag.String("worker", "", "from:to, run these runs")
	fSeed    = flag.Uint64("seed", 1, "")
	fExec    = flag.Bool("exec", false, "execute tapes from stdin")
	fVerbose = flag.Bool("v", false, "")
	fRuns    = flag.Int("runs", 0, "override the number of runs")
	fJobs    = flag.Int("jobs", 0, "worker processes")
	fDigests = flag.Bool("digests", false, "print the digest of every run")
)

// runReport is what a worker says about a chunk of runs.
type runReport struct {
	From, To    int
	Done        int
	Counts      map[string]int
	Shapes      []uint64
	Digests     []uint64 `json:",omitempty"`
	Nontriv     int
	Sim         int64
	Steps       uint64
	Samples     []sample
	FailRun     int
	Fail        *Failure
	Tape        Streams
	ChunkDigest uint64
}

type sample struct {
	Run   int      `json:"run"`
	Seed  string   `json:"seed"`
	Trace []string `json:"trace"`
}

type execRequest struct {
	Property string
	Runs     []Streams
	Verbose  bool
}

type execReply struct {
	Fail  *Failure
	Trace []string
	Tape  Streams
	Tapes []Streams // of all runs
	Spans [][]span
}

type replayFile struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Message  string    `json:"message"`
	Seed     uint64    `json:"verif_seed"`
	Run      int       `json:"run"`
	Tapes    []Streams `json:"tapes"`
	Trace    []string  `json:"trace"`
	Note     string    `json:"note"`
}

func main() {
	flag.Parse()
	loadKnown(filepath.Join(*fHome, "known_findings.txt"))
	if *fJobs == 0 {
		*fJobs = runtime.NumCPU()
		if *fJobs > 8 {
			*fJobs = 8
		}
	}
	switch {
	case *fWorker != "":
		worker()
	case *fExec:
		execTapes()
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	default:
		os.Exit(check())
	}
}

func prop(id string) *Prop {
	p := props[id]
	if p == nil {
		fatalf("no such property: %q", id)
	}
	return p
}

func worker() {
	setupProcess()
	p := prop(*fCheck)
	ft := strings.Split(*fWorker, ":")
	from, _ := strconv.Atoi(ft[0])
	to, _ := strconv.Atoi(ft[1])
	rep := runReport{From: from, To: to, Counts: map[string]int{}, FailRun: -1}
	w := os.Stdout
	for i := from; i < to; i++ {
		w.WriteString("R " + strconv.Itoa(i) + "\n")
		verbose := *fVerbose || i < 3
		t := oneRun(p, newTape(seedFor(*fSeed, p.ID, i)), *fScratch, verbose)
		rep.Done++
		for k, n := range t.Counts {
			rep.Counts[k] += n
		}
		rep.Sim += t.Sim
		rep.Steps += t.Steps
		rep.ChunkDigest = mix(rep.ChunkDigest, t.Digest)
		if *fDigests {
			rep.Digests = append(rep.Digests, t.Digest)
		}
		if t.Nontrivial {
			rep.Nontriv++
			rep.Shapes = append(rep.Shapes, t.Shape)
		}
		if verbose && t.fail == nil {
			rep.Samples = append(rep.Samples, sample{i, fmt.Sprintf("%016x", seedFor(*fSeed, p.ID, i)), clip(t.Trace, 60)})
		}
		if t.fail != nil {
			rep.FailRun, rep.Fail, rep.Tape = i, t.fail, t.Rec()
			break
		}
		if i%16 == 15 {
			runtime.GC()
		}
	}
	b, _ := json.Marshal(rep)
	w.Write(append(append([]byte("J "), b...), '\n'))
}

func clip(l []string, n int) []string {
	out := []string{}
	for i, s := range l {
		if i == n {
			out = append(out, fmt.Sprintf("... %d more events", len(l)-n))
			break
		}
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		out = append(out, s)
	}
	return out
}

// execTapes executes requests from standard input, one after the other.
func execTapes() {
	setupProcess()
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	for n := 0; ; n++ {
		var req execRequest
		if err := in.Decode(&req); err != nil {
			if err == io.EOF && n > 0 {
				return
			}
			fatalf("%v", err)
		}
		p := prop(req.Property)
		var t *T
		var tapes []Streams
		for i, data := range req.Runs {
			last := i == len(req.Runs)-1
			tape := replayTape(data)
			if last {
				os.Stdout.WriteString("L\n")
			}
			t = oneRun(p, tape, *fScratch, req.Verbose && last)
			tapes = append(tapes, t.Rec())
			if i%16 == 15 {
				runtime.GC()
			}
		}
		if n%16 == 15 {
			runtime.GC()
		}
		b, _ := json.Marshal(execReply{Fail: t.fail, Trace: t.Trace, Tape: t.Rec(), Tapes: tapes, Spans: t.Spans()})
		os.Stdout.Write(append(append([]byte("J "), b...), '\n'))
	}
}

// server executes tapes one after the other in one process; for minimising only.
type server struct {
	id  string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (s *server) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *server) run(tape Streams) *execReply {
	if s.cmd == nil {
		cmd := self("-exec")
		var err error
		if s.in, err = cmd.StdinPipe(); err != nil {
			return nil
		}
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			return nil
		}
		s.cmd, s.out = cmd, bufio.NewReaderSize(out, 1<<20)
	}
	req, _ := json.Marshal(execRequest{s.id, []Streams{tape}, false})
	s.in.Write(append(req, '\n'))
	proc := s.cmd.Process
	timer := time.AfterFunc(10*time.Second, func() { proc.Kill() })
	defer timer.Stop()
	for {
		line, err := s.out.ReadString('\n')
		if strings.HasPrefix(line, "J ") {
			r := &execReply{}
			if json.Unmarshal([]byte(line[2:]), r) == nil {
				return r
			}
		}
		if err != nil {
			s.stop()
			return nil
		}
	}
}

// self starts this binary again.
func self(args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, append([]string{"-scratch", *fScratch, "-home", *fHome, "-mode", *fMode}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs(), "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, raceOptions()...)
	return cmd
}

type chunkResult struct {
	rep     *runReport
	from    int
	to      int
	crash   string
	lastRun int
	timeout bool
}

func runChunk(id string, seed uint64, from, to int, digests bool) chunkResult {
	res := chunkResult{from: from, to: to, lastRun: -1}
	args := []string{"-worker", fmt.Sprintf("%d:%d", from, to), "-check", id, "-seed", fmt.Sprint(seed)}
	if digests {
		args = append(args, "-digests")
	}
	cmd := self(args...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatalf("%v", err)
	}
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	timer := time.AfterFunc(120*time.Second, func() { res.timeout = true; cmd.Process.Kill() })
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := sc.ReadString('\n')
		if strings.HasPrefix(line, "R ") {
			res.lastRun, _ = strconv.Atoi(strings.TrimSpace(line[2:]))
		} else if strings.HasPrefix(line, "J ") {
			rep := &runReport{}
			if e := json.Unmarshal([]byte(line[2:]), rep); e == nil {
				res.rep = rep
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	timer.Stop()
	if res.rep == nil {
		res.crash = fmt.Sprintf("%v\n%s", err, firstLines(stderr.Bytes(), 60))
	}
	return res
}

// classifyCrash tells what killed a worker; empty if it was not the code under test.
func classifyCrash(s string) string {
	for _, c := range []string{"stack overflow", "concurrent map", "out of memory", "all goroutines are asleep", "unexpected signal", "fatal error"} {
		if strings.Contains(s, c) {
			return "crash: " + c
		}
	}
	return ""
}

// execute runs tapes in a fresh process.
func execute(id string, runs []Streams, verbose bool) (*execReply, string) {
	cmd := self("-exec")
	req, _ := json.Marshal(execRequest{id, runs, verbose})
	cmd.Stdin = bytes.NewReader(req)
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	timedOut := false
	timer := time.AfterFunc(60*time.Second, func() { timedOut = true; cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	for _, line := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(line, "J ") {
			r := &execReply{}
			if json.Unmarshal([]byte(line[2:]), r) == nil {
				return r, ""
			}
		}
	}
	if timedOut {
		return nil, "watchdog"
	}
	s := fmt.Sprintf("%v\n%s", err, firstLines(stderr.Bytes(), 60))
	if c := classifyCrash(s); c != "" && strings.Contains(out.String(), "L\n") {
		return &execReply{Fail: &Failure{c, s}}, ""
	}
	return nil, s
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        uint64                 `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func check() int {
	start := time.Now()
	p := prop(*fCheck)
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			v = hashString(s)
		}
		seed = v
	}
	fmt.Printf("%s: VERIF_SEED=%d tier=%s build=%s yield points=%d built in %.1fs\n", p.ID, seed, *fTier, *fMode, *fPoints, *fBuilt)
	total, wallCap := p.Quick, 150*time.Second
	if *fTier == "thorough" {
		total, wallCap = p.Thorough, 600*time.Second
	}
	if *fRuns > 0 {
		total = *fRuns
	}
	agg := &runReport{Counts: map[string]int{}}
	shapes := map[uint64]bool{}
	var mu sync.Mutex
	next, capped := 0, false
	var failed *chunkResult
	digests := map[int]uint64{}
	var wg sync.WaitGroup
	explore := time.Now()
	for j := 0; j < *fJobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if failed != nil || next >= total {
					mu.Unlock()
					return
				}
				if time.Since(explore) > wallCap {
					capped = true
					mu.Unlock()
					return
				}
				from := next
				to := from + p.Chunk
				if to > total {
					to = total
				}
				next = to
				mu.Unlock()
				r := runChunk(p.ID, seed, from, to, false)
				mu.Lock()
				if r.rep != nil {
					for k, n := range r.rep.Counts {
						agg.Counts[k] += n
					}
					agg.Done += r.rep.Done
					agg.Nontriv += r.rep.Nontriv
					agg.Sim += r.rep.Sim
					agg.Steps += r.rep.Steps
					for _, s := range r.rep.Shapes {
						shapes[s] = true
					}
					agg.Samples = append(agg.Samples, r.rep.Samples...)
					digests[from] = r.rep.ChunkDigest
				}
				if r.rep == nil || r.rep.Fail != nil {
					if failed == nil || from < failed.from {
						failed = &r
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	exploreS := time.Since(explore).Seconds()

	// The same seed must be the same execution: repeat the first chunks in another process.
	repeated, differ := 0, 0
	if failed == nil {
		var froms []int
		for f := range digests {
			froms = append(froms, f)
		}
		sort.Ints(froms)
		if len(froms) > 4 {
			froms = []int{froms[0], froms[len(froms)/3], froms[2*len(froms)/3], froms[len(froms)-1]}
		}
		for _, f := range froms {
			to := f + p.Chunk
			if to > total {
				to = total
			}
			wg.Add(1)
			go func(f, to int) {
				defer wg.Done()
				r := runChunk(p.ID, seed, f, to, false)
				mu.Lock()
				defer mu.Unlock()
				if r.rep != nil {
					repeated += r.rep.Done
					if r.rep.ChunkDigest != digests[f] {
						differ++
					}
				}
			}(f, to)
		}
		wg.Wait()
		if differ > 0 {
			fmt.Fprintf(os.Stderr, "warning: %d of %d repeated chunks had a different event log: the code under test has a source of nondeterminism that is not simulated\n", differ, len(froms))
		}
	}

	code := 0
	violations := 0
	cov := map[string]interface{}{
		"evaluations":                   agg.Done,
		"distinct_nontrivial":           len(shapes),
		"rule":                          p.Rule,
		"nontrivial_runs":               agg.Nontriv,
		"seeds":                         agg.Done,
		"runs_per_hour":                 int(float64(agg.Done) / exploreS * 3600),
		"explore_s":                     round(exploreS),
		"build_s":                       *fBuilt,
		"simulated_time_s":              float64(agg.Sim) / 1e9,
		"simulated_steps":               agg.Steps,
		"fired":                         agg.Counts,
		"real_code":                     p.Real,
		"stubs":                         p.Stub,
		"yield_points":                  *fPoints,
		"build_mode":                    *fMode,
		"worker_processes":              *fJobs,
		"runs_repeated_for_determinism": repeated,
		"repeated_chunks_that_differed": differ,
		"stopped_by_wall_clock":         capped,
	}
	sort.Slice(agg.Samples, func(i, j int) bool { return agg.Samples[i].Run < agg.Samples[j].Run })
	cov["samples"] = agg.Samples
	if failed != nil {
		rc, v := report(p, seed, failed)
		code = rc
		violations = v
	} else if agg.Done == 0 {
		fatalf("no runs")
	}
	ev := evidence{p.ID, *fTier, seed, "exploration", cov, p.Assume, round(time.Since(start).Seconds() + *fBuilt), violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fOut, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	var ids []string
	for id := range knownFindings[p.ID] {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if n := agg.Counts["known:"+id]; n > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, knownFindings[p.ID][id])
		}
	}
	if code == 0 {
		fmt.Printf("%s: held in %d simulated runs (%d distinct non-trivial) in %.1fs, %.3g simulated seconds\n", p.ID, agg.Done, len(shapes), exploreS, float64(agg.Sim)/1e9)
	}
	return code
}

func round(x float64) float64 { return float64(int(x*10+0.5)) / 10 }

// report minimises a failure, writes its replay file and prints the violation.
func report(p *Prop, seed uint64, c *chunkResult) (code, violations int) {
	run := c.lastRun
	if c.timeout {
		if run < 0 {
			fatalf("watchdog: runs %d..%d did not start", c.from, c.to)
		}
		// A run takes milliseconds. One that takes a minute on its own does not end.
		h := []Streams{recordDraws(p, seed, run)}
		if _, trouble := execute(p.ID, h, false); trouble != "watchdog" {
			fatalf("watchdog: runs %d..%d did not finish (last started: %d), but that one does: %s", c.from, c.to, run, trouble)
		}
		return publish(p, seed, run, 1, h, &execReply{Fail: &Failure{"does not end", "the run does not finish within a minute (a run takes milliseconds)"}})
	}
	var tape Streams
	var fail *Failure
	if c.rep != nil {
		run, tape, fail = c.rep.FailRun, c.rep.Tape, c.rep.Fail
	} else {
		class := classifyCrash(c.crash)
		if class == "" || run < 0 {
			fatalf("worker for runs %d..%d died: %s", c.from, c.to, c.crash)
		}
		fail = &Failure{class, c.crash}
		tape = recordDraws(p, seed, run)
	}
	// A failure must come back in a fresh process, alone or after the runs that preceded it.
	history := []Streams{tape}
	r, trouble := execute(p.ID, history, false)
	if trouble != "" {
		fatalf("replay of run %d: %s", run, trouble)
	}
	if r.Fail == nil || r.Fail.Class != fail.Class {
		history = nil
		for i := c.from; i < run; i++ {
			history = append(history, recordDraws(p, seed, i))
		}
		history = append(history, tape)
		r, trouble = execute(p.ID, history, false)
		if trouble != "" || r.Fail == nil {
			// The violation was observed all the same; something that is not simulated decides about it.
			fmt.Fprintf(os.Stderr, "warning: run %d does not fail again (%s): the code under test has a source of nondeterminism that is not simulated\n", run, trouble)
			fail.Msg += " (does not happen on every execution of this run)"
			return publish(p, seed, run, 2, history, &execReply{Fail: fail})
		}
		fail = r.Fail
		if len(r.Tapes) == len(history) {
			history = r.Tapes
		}
	}
	class := r.Fail.Class
	evals := 0
	patience := 60 * time.Second
	if d, err := time.ParseDuration(os.Getenv("ASN1SIM_MINIMISE")); err == nil {
		patience = d
	}
	deadline := time.Now().Add(patience)
	fresh := func(h []Streams) ([]Streams, [][]span, bool) {
		evals++
		r, trouble := execute(p.ID, h, false)
		if trouble != "" || r.Fail == nil || r.Fail.Class != class {
			return nil, nil, false
		}
		return trimmed(h, r.Tape), r.Spans, true
	}
	// Candidates are tried in one long-lived process first, which is faster but
	// may carry state from one to the next; what it says is confirmed in a fresh one.
	srv, liar := &server{id: p.ID}, 0
	history = shrink(history, func(h []Streams) ([]Streams, [][]span, bool) {
		if len(h) == 1 && !strings.HasPrefix(class, "crash") && liar < 8 {
			evals++
			if r := srv.run(h[0]); r == nil || r.Fail == nil || r.Fail.Class != class {
				return nil, nil, false
			}
			small, spans, ok := fresh(h)
			if !ok {
				liar++
				srv.stop()
			}
			return small, spans, ok
		}
		return fresh(h)
	}, func() bool { return evals > 60000 || time.Now().After(deadline) })
	srv.stop()
	r, trouble = execute(p.ID, history, true)
	if trouble != "" || r.Fail == nil {
		fmt.Fprintf(os.Stderr, "warning: the minimised run does not fail every time (%s)\n", trouble)
		fail.Msg += " (does not happen on every execution of this run)"
		r = &execReply{Fail: fail}
	}
	return publish(p, seed, run, evals, history, r)
}

// publish writes the replay file and prints the violation.
func publish(p *Prop, seed uint64, run, evals int, history []Streams, r *execReply) (code, violations int) {
	class := r.Fail.Class
	rf := replayFile{p.ID, r.Fail.Class, r.Fail.Msg, seed, run, history, r.Trace, "replay with: ./check.sh replay FILE"}
	b, _ := json.MarshalIndent(rf, "", " ")
	dir := filepath.Join(*fOut, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, mix(hashString(class), hashString(fmt.Sprint(history)))))
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	fmt.Printf("%s: run %d of VERIF_SEED=%d violates the property (%s); minimised in %d executions to %d choices\n", p.ID, run, seed, class, evals, choices(history))
	for _, l := range clip(r.Trace, 80) {
		fmt.Println("  " + l)
	}
	if len(r.Trace) == 0 {
		fmt.Println("  " + r.Fail.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1, 1
}

func choices(h []Streams) (n int) {
	for _, s := range h {
		for _, t := range s {
			n += len(t)
		}
	}
	return n
}

// trimmed is the history with what its last run really drew.
func trimmed(h []Streams, drawn Streams) []Streams {
	last := h[len(h)-1]
	if len(drawn) != len(last) {
		return h
	}
	c := Streams{}
	for k := range last {
		d := drawn[k]
		for i := range d {
			if i >= len(last[k]) || d[i] != last[k][i] {
				d = last[k]
				break
			}
		}
		c = append(c, d)
	}
	return append(append([]Streams{}, h[:len(h)-1]...), c)
}

// recordDraws obtains the tapes of a run without executing it in this process.
func recordDraws(p *Prop, seed uint64, run int) Streams {
	// The generator's raw outputs reproduce every draw, whatever its bound.
	t := newTape(seedFor(seed, p.ID, run))
	s := Streams{}
	for _, x := range append([]*Tape{t}, t.subs...) {
		out := make([]uint32, 6000)
		for i := range out {
			out[i] = uint32(x.next() >> 32)
		}
		s = append(s, out)
	}
	return s
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatalf("%v", err)
	}
	r, trouble := execute(rf.Property, rf.Tapes, true)
	if trouble == "watchdog" && rf.Class == "does not end" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	if trouble != "" {
		fatalf("%s", trouble)
	}
	for _, l := range r.Trace {
		fmt.Println("  " + l)
	}
	if r.Fail == nil {
		fmt.Printf("%s: the replayed run does not violate the property\n", rf.Property)
		return 0
	}
	if r.Fail.Class != rf.Class || fmt.Sprint(r.Trace) != fmt.Sprint(rf.Trace) {
		fmt.Printf("%s: fails (%s), but not exactly as recorded (%s)\n", rf.Property, r.Fail.Class, rf.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
