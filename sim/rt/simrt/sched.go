package simrt

import "sync"

// Sched runs tasks one at a time; which task runs, and for how many yield
// points, is decided by the Pick callback. Hand-offs between tasks are hidden
// from the race detector, so the scheduler adds no happens-before edges and
// unsynchronised accesses of the code under test stay visible as races.
type Sched struct {
	// Pick chooses one of n runnable tasks (ids, in ascending order) and the
	// number of yield points it may pass before it is preempted (<=0: no limit).
	Pick func(ids []int) (idx int, quantum int)
	// Trace, if set, is told about every switch: virtual time and task.
	Trace func(now int64, id int, why string)

	Now      int64 // virtual nanoseconds
	Switches int
	Deadlock bool

	tasks []*task
	cur   *task
	back  chan struct{}
}

type task struct {
	id      int
	gate    chan struct{}
	left    int // yield points until preemption; <0: none
	wake    int64
	waiting bool // spinning on a lock
	done    bool
	dead    bool // told to unwind after a deadlock
	why     string
}

// Killed is the panic value that unwinds tasks after a deadlock.
type Killed struct{}

// Current returns the running task's number, or -1.
//
//go:norace
func Current() int {
	if active == nil || active.cur == nil {
		return -1
	}
	return active.cur.id
}

// Active tells whether a simulated scheduler is in charge.
//
//go:norace
func Active() bool { return active != nil }

// Run executes fns as concurrent tasks until all of them are done.
//
//go:norace
func (s *Sched) Run(fns []func()) {
	s.back = make(chan struct{})
	s.tasks = nil
	var wg sync.WaitGroup
	for i, fn := range fns {
		t := &task{id: i, gate: make(chan struct{}), why: "start"}
		s.tasks = append(s.tasks, t)
		wg.Add(1)
		go s.body(t, fn, &wg)
	}
	active = s
	raceDisable()
	stuck := 0
	for {
		var ids []int
		alive, waiting := 0, 0
		next := int64(-1)
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			alive++
			if t.wake > s.Now {
				if next < 0 || t.wake < next {
					next = t.wake
				}
				continue
			}
			if t.waiting {
				waiting++
			}
			ids = append(ids, t.id)
		}
		if alive == 0 {
			break
		}
		if len(ids) == 0 || (len(ids) == waiting && next >= 0) {
			s.Now = next
			continue
		}
		if waiting == alive {
			stuck++
			if stuck > 4*len(s.tasks)+16 {
				s.Deadlock = true
				for _, t := range s.tasks {
					t.dead = true
				}
			}
		} else {
			stuck = 0
		}
		if waiting > 0 && waiting < len(ids) && stuck == 0 {
			// Tasks that wait for a lock are offered a turn only together with the
			// others; they just spin, so this keeps the choice honest and finite.
		}
		idx, q := s.Pick(ids)
		t := s.tasks[ids[idx]]
		t.left = q
		if q <= 0 {
			t.left = -1
		}
		s.cur = t
		s.Switches++
		if s.Trace != nil {
			s.Trace(s.Now, t.id, t.why)
		}
		t.gate <- struct{}{}
		<-s.back
		s.cur = nil
		if t.waiting {
			// let somebody else run first
			s.rotate(t)
		}
	}
	raceEnable()
	active = nil
	wg.Wait()
}

// rotate is a hook for fairness among lock waiters: the waiter becomes
// runnable again only after one nanosecond of virtual time.
//
//go:norace
func (s *Sched) rotate(t *task) {
	others := false
	for _, o := range s.tasks {
		if o != t && !o.done && !o.waiting {
			others = true
		}
	}
	if others {
		t.wake = s.Now + 1
	}
}

//go:norace
func (s *Sched) body(t *task, fn func(), wg *sync.WaitGroup) {
	defer wg.Done()
	raceDisable()
	<-t.gate
	raceEnable()
	defer s.finish(t)
	fn()
}

//go:norace
func (s *Sched) finish(t *task) {
	t.done = true
	raceDisable()
	s.back <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sched) point() {
	t := s.cur
	if t == nil || t.left < 0 {
		return
	}
	t.left--
	if t.left > 0 {
		return
	}
	t.why = "preempted"
	s.yield(t)
}

//go:norace
func (s *Sched) yield(t *task) {
	raceDisable()
	s.back <- struct{}{}
	<-t.gate
	raceEnable()
	if t.dead {
		panic(Killed{})
	}
}

// Sleep blocks the current task for d virtual nanoseconds (a scheduling point also when d is 0).
//
//go:norace
func Sleep(d int64, why string) {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	t.wake = s.Now + d
	t.why = why
	s.yield(t)
}

// Block is called in a loop by synchronisation primitives that can not proceed.
//
//go:norace
func Block(why string) {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	t.waiting = true
	t.why = why
	s.yield(t)
	t.waiting = false
}
