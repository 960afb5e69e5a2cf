package main

// Tape is the one source of decisions of a run. Fresh decisions come from a
// pseudo-random generator; a replayed run reads them back from a recording.
// Zero always means the simplest choice, and a recording that ends early goes
// on with zeros, so shortening and lowering a recording simplifies the run.
type Tape struct {
	data  []uint32
	pos   int
	fresh bool
	state uint64
	rec   []uint32
	spans []span
	open  []int // indices into spans
	subs  []*Tape
}

// Streams is what a run is replayed from: its main tape and those for modules and layout.
// They are separate so that a module can shrink without shifting the decisions that follow it.
type Streams [][]uint32

const (
	forModules = 1
	forLayout  = 2
	streams    = 3
)

// On returns the tape for decisions of the given kind.
func (t *Tape) On(kind int) *Tape { return t.subs[kind-1] }

// Rec returns what was drawn.
func (t *Tape) Rec() Streams {
	s := Streams{t.rec}
	for _, x := range t.subs {
		s = append(s, x.rec)
	}
	return s
}

// Spans returns the pieces on each of the tapes.
func (t *Tape) Spans() [][]span {
	s := [][]span{t.spans}
	for _, x := range t.subs {
		s = append(s, x.spans)
	}
	return s
}

// span is the part of a recording that one piece of the input was made from.
type span struct{ From, To, Parent int }

// Span notes where a piece begins; the function it returns, where it ends.
func (t *Tape) Span() func() {
	parent := -1
	if n := len(t.open); n > 0 {
		parent = t.open[n-1]
	}
	i := len(t.spans)
	t.spans = append(t.spans, span{len(t.rec), -1, parent})
	t.open = append(t.open, i)
	return func() {
		t.spans[i].To = len(t.rec)
		t.open = t.open[:len(t.open)-1]
	}
}

func newTape(seed uint64) *Tape {
	t := &Tape{fresh: true, state: seed}
	for i := 1; i < streams; i++ {
		t.subs = append(t.subs, &Tape{fresh: true, state: mix(seed, uint64(i))})
	}
	return t
}

func replayTape(data Streams) *Tape {
	t := &Tape{}
	for i, d := range data {
		if i == 0 {
			t.data = d
		} else {
			t.subs = append(t.subs, &Tape{data: d})
		}
	}
	for len(t.subs) < streams-1 {
		t.subs = append(t.subs, &Tape{})
	}
	return t
}

func (t *Tape) next() uint64 {
	t.state += 0x9e3779b97f4a7c15
	z := t.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws a number in [0,n).
func (t *Tape) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	switch {
	case t.fresh:
		v = uint32(t.next() >> 32)
	case t.pos < len(t.data):
		v = t.data[t.pos]
	}
	t.pos++
	v %= uint32(n)
	t.rec = append(t.rec, v)
	return int(v)
}

// P is true with probability num/den; false is the simple choice.
func (t *Tape) P(num, den int) bool { return t.N(den) >= den-num }

// Range draws from lo..hi.
func (t *Tape) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// W draws an index with the given weights; index 0 is the simple choice.
func (t *Tape) W(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := t.N(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h ^= p
		h *= 0x9e3779b97f4a7c15
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
	}
	return h
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
