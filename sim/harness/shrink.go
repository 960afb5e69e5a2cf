package main

// shrink minimises a failing history of tapes: fewer runs, then shorter and lower tapes.
func shrink(h []Streams, try func([]Streams) ([]Streams, [][]span, bool), out func() bool) (best []Streams) {
	best = h
	defer func() {
		if r := recover(); r != nil && r != (outOfTime{}) {
			panic(r)
		}
	}()
	inner := try
	try = func(c []Streams) ([]Streams, [][]span, bool) {
		if out() {
			panic(outOfTime{})
		}
		r, sp, ok := inner(c)
		if ok {
			best = r
		}
		return r, sp, ok
	}
	// drop runs before the last one
	for size := (len(h) - 1 + 1) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(h)-1; {
			c := append(append([]Streams{}, h[:i]...), h[i+size:]...)
			if r, _, ok := try(c); ok {
				h = r
			} else {
				i += size
			}
		}
	}
	for i := len(h) - 1; i >= 0; i-- {
		for _, k := range []int{forLayout, 0, forModules, forLayout, 0} {
			h = shrinkTape(h, i, k, try)
		}
	}
	return h
}

// outOfTime ends the search for something smaller.
type outOfTime struct{}

func shrinkTape(h []Streams, ti, k int, try func([]Streams) ([]Streams, [][]span, bool)) []Streams {
	with := func(t []uint32) []Streams {
		c := append([]Streams{}, h...)
		c[ti] = append(Streams{}, c[ti]...)
		c[ti][k] = t
		return c
	}
	last := ti == len(h)-1
	var spans [][]span
	attempt := func(t []uint32) bool {
		r, sp, ok := try(with(t))
		if ok {
			h, spans = r, sp
		}
		return ok
	}
	attempt(append([]uint32{}, h[ti][k]...)) // for the spans
	// shorten the tail
	for {
		t := h[ti][k]
		if len(t) == 0 {
			return h
		}
		done := true
		for n := len(t); n >= 1; n /= 2 {
			if attempt(append([]uint32{}, t[:len(t)-n]...)) {
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	// large pieces, wherever they are
	for size := len(h[ti][k]) / 2; size > 64; size /= 2 {
		for i := 0; i+size <= len(h[ti][k]); {
			if !attempt(append(append([]uint32{}, h[ti][k][:i]...), h[ti][k][i+size:]...)) {
				i += size
			}
		}
	}
	for pass := 0; pass < 4; pass++ {
		changed := false
		if last {
			changed = shrinkSpans(func() ([]uint32, []span) {
				if k >= len(spans) {
					return h[ti][k], nil
				}
				return h[ti][k], spans[k]
			}, attempt)
		}
		for _, size := range []int{64, 40, 32, 24, 20, 16, 14, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1} {
			for i := 0; i+size <= len(h[ti][k]); {
				t := h[ti][k]
				del := append(append([]uint32{}, t[:i]...), t[i+size:]...)
				if attempt(del) {
					changed = true
					continue
				}
				zero := true
				for _, v := range t[i : i+size] {
					if v != 0 {
						zero = false
					}
				}
				if !zero {
					z := append([]uint32{}, t...)
					for j := i; j < i+size; j++ {
						z[j] = 0
					}
					if attempt(z) {
						changed = true
					}
				}
				i += size
			}
		}
		for i := 0; i < len(h[ti][k]); i++ {
			for h[ti][k][i] > 0 {
				v := h[ti][k][i]
				ok := false
				for _, c := range []uint32{0, v / 2, v - 1} {
					if c >= v {
						continue
					}
					t := append([]uint32{}, h[ti][k]...)
					t[i] = c
					if attempt(t) {
						ok, changed = true, true
						break
					}
				}
				if !ok {
					break
				}
			}
		}
		// a count goes down together with what it counted
		for i := 0; i < len(h[ti][k]) && len(h[ti][k]) < 400; i++ {
			if h[ti][k][i] == 0 || h[ti][k][i] > 12 {
				continue
			}
		next:
			for j := i + 1; j < len(h[ti][k]); j++ {
				for _, size := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 32, 48} {
					if j+size > len(h[ti][k]) {
						break
					}
					t := append([]uint32{}, h[ti][k][:j]...)
					t = append(t, h[ti][k][j+size:]...)
					t[i]--
					if attempt(t) {
						changed = true
						break next
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	for len(h[ti][k]) > 0 && h[ti][k][len(h[ti][k])-1] == 0 {
		h[ti][k] = h[ti][k][:len(h[ti][k])-1]
	}
	return h
}

// shrinkSpans deletes the pieces the input was made from, or replaces them by the simplest ones.
func shrinkSpans(now func() ([]uint32, []span), attempt func([]uint32) bool) (changed bool) {
	for k := 0; ; k++ {
		t, spans := now()
		if k >= len(spans) {
			return changed
		}
		s := spans[k]
		if s.To <= s.From || s.To > len(t) {
			continue
		}
		replace := func(zeros int, dec int) []uint32 {
			c := append([]uint32{}, t[:s.From]...)
			if dec >= 0 {
				c[dec]--
			}
			c = append(c, make([]uint32, zeros)...)
			return append(c, t[s.To:]...)
		}
		ok := attempt(replace(0, -1))
		if !ok { // together with the number that says how many there are
			from := 0
			if s.Parent >= 0 {
				from = spans[s.Parent].From
			}
			tries := 0
			inside := k - 1
			for i := s.From - 1; i >= from && i < len(t) && !ok && tries < 12; i-- {
				for inside >= 0 && spans[inside].From > i {
					inside--
				}
				nested := false
				for j := inside; j >= 0 && j > s.Parent; j-- {
					if spans[j].From <= i && i < spans[j].To && spans[j].Parent == s.Parent {
						nested = true
						i = spans[j].From
						break
					}
				}
				if nested || t[i] == 0 {
					continue
				}
				tries++
				ok = attempt(replace(0, i))
			}
		}
		if !ok {
			for zeros := 1; zeros <= 8 && zeros < s.To-s.From && !ok; zeros++ {
				ok = attempt(replace(zeros, -1))
			}
		}
		if ok {
			changed = true
			k-- // whatever is there now
			if t2, _ := now(); len(t2) >= len(t) {
				k++
			}
		}
	}
}
