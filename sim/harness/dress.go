package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"unicode/utf8"
)

// richReader is a reader that can do more than reading, as files, buffers and connections can,
// and of whose data a part was consumed before.
type richReader struct {
	*simReader
	junk   []byte // what was consumed
	inJunk int    // somebody went back there; <0: no
	closed bool
	held   error // reported together with the last byte
	last   int
}

func (r *richReader) Read(p []byte) (int, error) {
	if r.closed {
		return 0, os.ErrClosed
	}
	if r.inJunk >= 0 && len(p) > 0 {
		n := copy(p, r.junk[r.inJunk:])
		if r.inJunk += n; r.inJunk >= len(r.junk) {
			r.inJunk = -1
		}
		return n, nil
	}
	if e := r.held; e != nil && len(p) > 0 {
		r.held = nil
		return 0, e
	}
	return r.simReader.Read(p)
}

func (r *richReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			r.held, r.last = err, 1
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (r *richReader) UnreadByte() error {
	if r.last == 0 || r.off < r.last {
		return bufio.ErrInvalidUnreadByte
	}
	r.off -= r.last
	r.last = 0
	return nil
}

func (r *richReader) ReadRune() (rune, int, error) {
	var b []byte
	for {
		c, err := r.ReadByte()
		if err != nil && len(b) == 0 {
			return 0, 0, err
		} else if err != nil {
			r.held = err
			return utf8.RuneError, 1, nil
		}
		if b = append(b, c); utf8.FullRune(b) {
			x, n := utf8.DecodeRune(b)
			r.off -= len(b) - n
			r.last = n
			return x, n, nil
		}
	}
}

func (r *richReader) UnreadRune() error { return r.UnreadByte() }

func (r *richReader) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{r})
}

func (r *richReader) Seek(off int64, whence int) (int64, error) {
	at := int64(len(r.junk) + r.off)
	if r.inJunk >= 0 {
		at = int64(r.inJunk)
	}
	switch whence {
	case io.SeekStart:
		at = off
	case io.SeekCurrent:
		at += off
	default:
		at = r.Size() + off
	}
	if at < 0 {
		return 0, os.ErrInvalid
	}
	r.inJunk, r.held = -1, nil
	if r.off = int(at) - len(r.junk); r.off < 0 {
		r.inJunk, r.off = int(at), 0
	}
	return at, nil
}

func (r *richReader) ReadAt(p []byte, off int64) (int, error) {
	all := append(append([]byte(nil), r.junk...), r.data...)
	if off >= int64(len(all)) {
		return 0, io.EOF
	}
	n := copy(p, all[off:])
	if r.failAt >= 0 && (r.failMode == 1 || r.failed == 0) && int(off)+n >= len(r.junk)+r.failAt {
		r.failed++
		return 0, r.failErr
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (r *richReader) Size() int64     { return int64(len(r.junk) + len(r.data)) }
func (r *richReader) Len() int        { return len(r.data) - r.off }
func (r *richReader) Buffered() int   { return r.Len() }
func (r *richReader) Close() error    { r.closed = true; return nil }
func (r *richReader) Name() string    { return "/work/m.asn1" }
func (r *richReader) String() string  { return string(r.junk) + string(r.data) }
func (r *richReader) Bytes() []byte   { return append(append([]byte(nil), r.junk...), r.data...) }
func (r *richReader) Reset(io.Reader) { r.data, r.off = nil, 0 }

var junks = []string{"END", "M DEFINITIONS ::= BEGIN END ", "-- ", "/*", "x", "   \n\n", "\"", "Used-Before "}

// dress makes a reader one of another kind with the same bytes to read.
func (r *simReader) dress(t *T) string {
	plain := r.failAt < 0 && !r.stall
	k := t.W(12, 2, 2, 1, 1, 1, 1, 1)
	if !plain {
		k = t.W(6, 2, 2)
	}
	how, junk := "", ""
	if k > 0 {
		junk = junks[t.N(len(junks))]
	}
	n := len(r.data)
	if r.stall {
		n = 1 << 62 // whoever limits it would make an end of it
	}
	switch k {
	case 0:
		return ""
	case 1:
		r.as, how = &richReader{simReader: r, junk: []byte(junk), inJunk: -1}, "a reader with many methods"
	case 2:
		size := []int{16, 100, 4096, 8192, 1 << 16}[t.N(5)]
		b := bufio.NewReaderSize(r, size)
		if plain && t.P(1, 2) {
			b.Peek(t.N(size))
			size++
		}
		r.as, how = b, fmt.Sprintf("bufio.Reader of %d", size)
	case 3:
		x := bytes.NewBufferString(junk + string(r.data))
		x.Next(len(junk))
		r.as, how = x, "bytes.Buffer"
	case 4:
		x := strings.NewReader(junk + string(r.data))
		x.Seek(int64(len(junk)), io.SeekStart)
		r.as, how = x, "strings.Reader"
	case 5:
		x := bytes.NewReader([]byte(junk + string(r.data)))
		x.ReadAt(make([]byte, 1), 0)
		io.CopyN(io.Discard, x, int64(len(junk)))
		r.as, how = x, "bytes.Reader"
	case 6:
		x := strings.NewReader(junk + string(r.data) + junk)
		r.as, how = io.NewSectionReader(x, int64(len(junk)), int64(n)), "io.SectionReader"
	default:
		i := t.N(n + 1)
		x := io.MultiReader(bytes.NewReader(r.data[:i]), strings.NewReader(""), bytes.NewReader(append(r.data[i:n:n], junk...)))
		r.as, how = io.LimitReader(x, int64(n)), "io.LimitedReader of an io.MultiReader"
	}
	if k != 2 {
		how += fmt.Sprintf(" of which %q was consumed", junk)
	}
	t.Ev("the reader is %s", how)
	t.Mark(how)
	t.Count("reader:" + strings.SplitN(how, " of ", 2)[0])
	return ", " + how
}

// richWriter is a writer that can do more than writing.
type richWriter struct {
	*simWriter
	prior  []byte // what was written before
	at     int    // position, if somebody moved it; <0: at the end
	closed bool
}

func (w *richWriter) Write(p []byte) (int, error) {
	if w.closed {
		return 0, os.ErrClosed
	}
	if w.at >= 0 { // overwrites
		w.spoilt = "the writer was moved"
		return len(p), nil
	}
	return w.simWriter.Write(p)
}

func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *richWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }

func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.CopyBuffer(struct{ io.Writer }{w}, struct{ io.Reader }{r}, make([]byte, 700))
}

func (w *richWriter) Seek(off int64, whence int) (int64, error) {
	end := int64(len(w.prior) + len(w.acc))
	at := end
	switch whence {
	case io.SeekStart:
		at = off
	case io.SeekCurrent:
		if w.at >= 0 {
			at = int64(w.at)
		}
		at += off
	default:
		at += off
	}
	if at < 0 {
		return 0, os.ErrInvalid
	}
	if w.at = int(at); at == end {
		w.at = -1
	}
	return at, nil
}

func (w *richWriter) Truncate(n int64) error {
	if int(n) < len(w.prior)+len(w.acc) {
		w.spoilt = "what was written before is cut off"
	}
	return nil
}

func (w *richWriter) Reset()         { w.Truncate(0) }
func (w *richWriter) Len() int       { return len(w.prior) + len(w.acc) }
func (w *richWriter) Size() int      { return 4096 }
func (w *richWriter) Available() int { return 4096 }
func (w *richWriter) Buffered() int  { return 0 }
func (w *richWriter) Flush() error   { return nil }
func (w *richWriter) Sync() error    { return nil }
func (w *richWriter) Name() string   { return "/work/out.go" }
func (w *richWriter) Close() error   { w.closed = true; return nil }
func (w *richWriter) String() string { return string(w.prior) + string(w.acc) }
func (w *richWriter) Bytes() []byte  { return []byte(w.String()) }

// dress makes a writer one of another kind.
func (w *simWriter) dress(t *T) string {
	k := t.W(12, 3, 2, 1, 1)
	if w.failAt >= 0 {
		k = t.W(2, 1)
	}
	prior := ""
	if k > 0 {
		prior = []string{"", "package old\n", "// generated\n", strings.Repeat("x", 5000)}[t.N(4)]
	}
	how := ""
	switch k {
	case 0:
		return ""
	case 1:
		w.as, how = &richWriter{simWriter: w, prior: []byte(prior), at: -1}, "a writer with many methods"
	case 2:
		b := bytes.NewBufferString(prior)
		w.as, how = b, "bytes.Buffer"
		w.after = func() { w.took(b.Bytes(), prior) }
	case 3:
		b := &strings.Builder{}
		b.WriteString(prior)
		w.as, how = b, "strings.Builder"
		w.after = func() { w.took([]byte(b.String()), prior) }
	default:
		size := []int{16, 100, 4096, 1 << 16}[t.N(4)]
		b := &bytes.Buffer{}
		bw := bufio.NewWriterSize(b, size)
		bw.WriteString(prior)
		w.as, how = bw, fmt.Sprintf("bufio.Writer of %d", size)
		w.after = func() { bw.Flush(); w.took(b.Bytes(), prior) }
	}
	how += fmt.Sprintf(" to which %d bytes were written before", len(prior))
	t.Ev("the writer is %s", how)
	t.Mark(how)
	t.Count("writer:" + strings.SplitN(strings.SplitN(how, " to ", 2)[0], " of ", 2)[0])
	return ", " + how
}

// took is told what a writer of another kind holds.
func (w *simWriter) took(b []byte, prior string) {
	if !bytes.HasPrefix(b, []byte(prior)) {
		w.spoilt = "what was written before is lost"
		return
	}
	w.acc = append([]byte(nil), b[len(prior):]...)
}
