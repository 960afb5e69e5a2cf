package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sync/atomic"
	"syscall"

	"asn1sim/simrt"
)

// delivery is a schedule of a reader: how it hands out its bytes.
type delivery struct {
	sizes   []int // cycled; 0 is an empty read
	cuts    []int // absolute offsets no read crosses
	eofWith bool  // end of input comes together with the last bytes
	dirty   bool  // the rest of the caller's buffer is used as scratch space
	lat     []int64
}

func (d *delivery) String() string {
	return fmt.Sprintf("sizes=%v cuts=%d eofWith=%v dirty=%v", d.sizes, len(d.cuts), d.eofWith, d.dirty)
}

var whole = &delivery{sizes: []int{1 << 30}}

// drawDelivery draws a schedule. starts are offsets of tokens, if known.
func drawDelivery(t *Tape, n int, starts []int) *delivery {
	d := &delivery{}
	switch t.W(2, 3, 3, 3, 3, 2) {
	case 0:
		d.sizes = []int{1 << 30}
	case 1:
		d.sizes = []int{1}
	case 2:
		d.sizes = []int{t.Range(1, 7)}
	case 3:
		for i, k := 0, t.Range(2, 8); i < k; i++ {
			d.sizes = append(d.sizes, t.Range(1, 1<<uint(t.N(13))))
		}
	case 4: // break inside or between tokens, also the two characters of a delimiter
		d.sizes = []int{1 << 30}
		for i, k := 0, t.Range(1, 6); i < k; i++ {
			c := t.N(n + 1)
			if len(starts) > 0 {
				c = starts[t.N(len(starts))] + t.Range(-1, 3)
			}
			d.cuts = append(d.cuts, c)
		}
	default: // break close to where the parser's buffer ends
		d.sizes = []int{1 << 30}
		for at := 4096; at < n; at += 4096 {
			d.cuts = append(d.cuts, at+t.Range(-4, 4))
		}
	}
	if t.P(1, 3) {
		for i, k := 0, t.Range(1, 4); i < k; i++ {
			at := t.N(len(d.sizes) + 1)
			d.sizes = append(d.sizes[:at:at], append([]int{0}, d.sizes[at:]...)...)
		}
	}
	d.eofWith = t.P(1, 2)
	d.dirty = t.P(1, 2)
	for i, k := 0, t.Range(1, 4); i < k; i++ {
		d.lat = append(d.lat, int64(t.N(1<<uint(t.N(31)))))
	}
	return d
}

// simReader delivers data according to a schedule and fails where told to.
type simReader struct {
	t    *T
	data []byte
	d    *delivery
	off  int
	i    int // index into sizes
	n    int // reads served
	now  int64

	// fault
	failAt   int // offset at which the reader fails; <0: never
	failErr  error
	failMode int // 0: once, 1: for ever
	failWith bool
	failed   int // failures reported

	stall    bool // after the data, empty reads for ever
	short    bool
	empties  int
	maxReads int
	every    int // under a scheduler, only every n-th read blocks

	as   io.Reader    // what is passed to the library, if it is another one
	hook func(n int)  // called at the start of the n-th read
	over atomic.Bool  // the call it was passed to has returned
	late atomic.Int64 // reads since then
}

func newReader(t *T, data []byte, d *delivery) *simReader {
	return &simReader{t: t, data: data, d: d, failAt: -1, maxReads: 12*len(data) + 4000}
}

func (r *simReader) fail() (error, bool) {
	if r.failAt < 0 || r.off < r.failAt || (r.failMode == 0 && r.failed > 0) {
		return nil, false
	}
	r.failed++
	return r.failErr, true
}

func (r *simReader) Read(p []byte) (n int, err error) {
	if r.over.Load() {
		r.late.Add(1)
		return 0, io.EOF
	}
	if r.hook != nil {
		r.hook(r.n)
	}
	r.n++
	if r.n > r.maxReads {
		panic(ioOverrun{})
	}
	if len(r.d.lat) > 0 {
		r.now += r.d.lat[r.n%len(r.d.lat)]
		if simrt.Active() && (r.every == 0 || r.n%r.every == 0) {
			simrt.Sleep(r.d.lat[r.n%len(r.d.lat)], "read")
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if e, ok := r.fail(); ok {
		return 0, e
	}
	size := r.d.sizes[r.i%len(r.d.sizes)]
	r.i++
	if size == 0 {
		if r.empties++; r.empties <= 20 {
			return 0, nil
		}
		size = 1
	}
	r.empties = 0
	if r.off >= len(r.data) {
		if r.stall {
			return 0, nil
		}
		return 0, io.EOF
	}
	limit := len(r.data)
	if r.failAt >= 0 && r.failAt < limit && r.failed == 0 {
		limit = r.failAt
	}
	for _, c := range r.d.cuts {
		if c > r.off && c < limit {
			limit = c
		}
	}
	n = limit - r.off
	if n > size {
		n = size
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	if n < len(r.data) {
		r.short = true
	}
	if r.d.dirty {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = "END -- /* */ ::= 9"[i%18]
		}
	}
	if r.failWith {
		if e, ok := r.fail(); ok {
			return n, e
		}
	}
	if r.off >= len(r.data) && r.d.eofWith && !r.stall && r.failAt < r.off {
		return n, io.EOF
	}
	return n, nil
}

// simWriter accepts bytes and fails where told to.
type simWriter struct {
	t       *T
	acc     []byte
	calls   int
	failAt  int // bytes accepted before the failure; <0: never
	err     error
	sticky  bool
	full    bool // the failing call reports all its bytes as accepted
	zero    bool // the failing call accepts nothing, not even what would fit
	failed  int
	lat     []int64
	now     int64
	overrun int
	every   int

	as     io.Writer // what is passed to the library, if it is another one
	after  func()    // called when the library is done
	spoilt string    // something else than writing was done

	hook func()       // called at the start of every write
	over atomic.Bool  // the call it was passed to has returned
	late atomic.Int64 // writes since then
}

func newWriter(t *T) *simWriter { return &simWriter{t: t, failAt: -1, overrun: 1 << 20} }

func (w *simWriter) Write(p []byte) (int, error) {
	if w.over.Load() {
		w.late.Add(1)
		return len(p), nil
	}
	if w.hook != nil {
		w.hook()
	}
	w.calls++
	if w.calls > w.overrun {
		panic(ioOverrun{})
	}
	if len(w.lat) > 0 {
		w.now += w.lat[w.calls%len(w.lat)]
		if simrt.Active() && (w.every == 0 || w.calls%w.every == 0) {
			simrt.Sleep(w.lat[w.calls%len(w.lat)], "write")
		}
	}
	if w.failAt >= 0 && len(w.acc)+len(p) > w.failAt && (w.failed == 0 || w.sticky) {
		w.failed++
		n := w.failAt - len(w.acc)
		if n < 0 {
			n = 0
		}
		if w.full && w.failed == 1 {
			n = len(p)
		}
		if w.zero {
			n = 0
		}
		w.acc = append(w.acc, p[:n]...)
		return n, w.err
	}
	w.acc = append(w.acc, p...)
	return len(p), nil
}

// faultErrors are what readers and writers fail with.
var faultErrors = []error{
	errors.New("simulated: connection reset by peer"),
	io.ErrUnexpectedEOF,
	errors.New("simulated: input/output error"),
	errors.New("EOF"),
	io.ErrClosedPipe,
	errors.New("simulated 100% %s %d failure\nwith two lines"),
	os.ErrDeadlineExceeded, // a timeout, and temporary
	syscall.EAGAIN,
	syscall.EINTR,
	transient{},
	context.Canceled,
	&os.PathError{Op: "read", Path: "/simulated", Err: syscall.EIO},
	io.ErrShortBuffer,
}

// transient is an error that says of itself that it will pass.
type transient struct{}

func (transient) Error() string   { return "simulated: try again" }
func (transient) Timeout() bool   { return true }
func (transient) Temporary() bool { return true }
