package main

import "strings"

// render lays tokens out as text.
func render(t *Tape, toks []token) *text {
	x := &text{toks: toks}
	style := t.W(3, 2, 2, 3, 2)
	var b []byte
	for i, tok := range toks {
		need := false
		prev := -1
		if i > 0 {
			prev = toks[i-1].kind
			need = mustSeparate(prev, tok.kind)
		}
		switch style {
		case 0: // one space
			if i > 0 {
				b = append(b, ' ')
			}
		case 1: // as little as possible
			if need {
				b = append(b, ' ')
			}
		case 2: // one per line
			if i > 0 {
				b = append(b, '\n')
			}
		case 3: // anything goes
			b = gap(t, b, prev, need, false)
		default: // anything goes, tokens are pushed to where buffers end
			b = gap(t, b, prev, need, t.P(1, 12))
		}
		x.starts = append(x.starts, len(b))
		b = append(b, tok.s...)
	}
	x.end = len(b)
	switch style {
	case 0, 2:
		b = append(b, '\n')
	case 3, 4:
		b = gap(t, b, tWord, false, t.P(1, 8))
		if t.P(1, 8) { // the comment runs up to the end of the input
			b = append(b, " -- the end"...)
		}
	}
	x.b = b
	return x
}

func wordy(k int) bool { return k == tWord || k == tNumber || k == tReal }

func mustSeparate(a, b int) bool {
	switch {
	case wordy(a) && wordy(b):
		return true
	case a == tWord && b == tMinus:
		return true // the hyphen would become part of the word
	}
	return false
}

var spaces = []string{" ", "\n", "\t", "  ", "\r\n", "\v", "\f", "\r", " \n\t ", "\n\n"}

func gap(t *Tape, b []byte, prev int, need, push bool) []byte {
	defer t.Span()()
	start := len(b)
	n := t.W(4, 4, 2, 1)
	if push {
		// fill up to a few bytes before the next multiple of the buffer size
		target := (len(b)/4096+1)*4096 - t.N(6)
		if fill := target - len(b); fill > 8 {
			if t.P(1, 2) {
				b = append(b, ' ')
				b = append(b, "/*"+strings.Repeat("x", fill-5)+"*/"...)
			} else {
				b = append(b, strings.Repeat(" ", fill)...)
			}
			return b
		}
	}
	for i := 0; i < n; i++ {
		last := prev
		if len(b) > start {
			last = tSym
		}
		switch t.W(6, 2, 2) {
		case 0:
			b = append(b, spaces[t.N(len(spaces))]...)
		case 1:
			b = lineComment(t, b, last)
		default:
			b = blockComment(t, b, 2)
		}
	}
	if need && len(b) == start {
		b = append(b, spaces[t.N(len(spaces))]...)
	}
	return b
}

var commentText = []string{"", " ", "note", " A ::= INTEGER ", "END", "'", "\"quoted\"", "é", "日本語", "\xff\xfe", " * ", " / ", "(", "}", "5.5e", "::", " - ", "[[", "\x00", "emoji \U0001F600", "a-b", "-", "-x", "\t", "ünïcödé ~~~ !", "\nEND\n", "END END", "X ::= BOOLEAN END", "} END", ", x INTEGER }", "\nM DEFINITIONS ::= BEGIN\nEND\n", "DEFAULT 5"}

func commentBody(t *Tape) string {
	s := ""
	for i, n := 0, t.N(4); i < n; i++ {
		s += commentText[t.N(len(commentText))]
	}
	if t.P(1, 20) {
		n := t.Range(1, 700)
		if t.P(1, 500) {
			n *= 16
		}
		s += strings.Repeat("lorem ipsum ", n)
	}
	return s
}

// lineComment appends a comment that ends with its line or with two hyphens.
func lineComment(t *Tape, b []byte, prev int) []byte {
	defer t.Span()()
	if prev == tWord || prev == tMinus {
		b = append(b, ' ') // a hyphen would belong to the word
	}
	body := commentBody(t)
	body = strings.NewReplacer("\n", " ", "\r", " ", "\v", " ", "\f", " ").Replace(body)
	for strings.Contains(body, "--") {
		body = strings.Replace(body, "--", "- -", -1)
	}
	b = append(b, "--"...)
	b = append(b, body...)
	if t.P(1, 2) {
		if strings.HasSuffix(body, "-") {
			b = append(b, ' ')
		}
		return append(b, "--"...)
	}
	return append(b, []string{"\n", "\r\n", "\r", "\v", "\f"}[t.W(8, 1, 1, 1, 1)]...)
}

// thorny is a block comment that consists of little more than what delimits comments.
func thorny(t *Tape, b []byte) []byte {
	const chars = "/*/*/*- x\n"
	b = append(b, "/*"...)
	depth, last := 1, byte(0)
	put := func(c byte) {
		b = append(b, c)
		switch {
		case last == '/' && c == '*':
			depth++
			last = 0
		case last == '*' && c == '/':
			depth--
			last = 0
		default:
			last = c
		}
	}
	for i, n := 0, t.Range(1, 14); i < n && depth > 0; i++ {
		put(chars[t.N(len(chars))])
	}
	for depth > 0 {
		if last == '/' {
			put(' ')
		}
		put('*')
		put('/')
	}
	return b
}

func blockComment(t *Tape, b []byte, depth int) []byte {
	defer t.Span()()
	if t.P(1, 3) {
		return thorny(t, b)
	}
	b = append(b, "/*"...)
	body := func() {
		s := commentBody(t)
		if t.P(1, 3) {
			s += "\n" + commentBody(t)
		}
		if t.P(1, 6) {
			s += " -- "
		}
		s = strings.Replace(s, "/", "|", -1) // no delimiters inside
		if strings.HasPrefix(s, "*") && t.P(1, 2) {
			s = " " + s
		}
		b = append(b, s...)
	}
	body()
	if t.P(1, 300) { // as deep as a counter of eight bits can not count
		n := t.Range(3, 600)
		b = append(b, strings.Repeat("/*", n)+" "+strings.Repeat("*/", n)...)
		body()
	}
	if depth > 0 && t.P(1, 4) {
		b = append(b, ' ')
		b = blockComment(t, b, depth-1)
		b = append(b, ' ')
		body()
	}
	if t.P(1, 6) {
		b = append(b, "*"...) // an extra star before the closing delimiter
	}
	return append(b, "*/"...)
}

// enlarge makes some texts longer than any limit that somebody may have thought of.
func enlarge(t *T, b []byte, starts []int) ([]byte, []int, int, int) {
	if len(starts) < 2 || !t.P(1, 3000) {
		return b, starts, 0, 0
	}
	i := 1 + t.N(len(starts)-1)
	at := starts[i]
	n := 1<<uint([]int{16, 17, 18, 20, 21}[t.N(5)]) + t.Range(-40, 40)
	fill := ""
	switch t.N(4) {
	case 0:
		fill = strings.Repeat(" ", n)
	case 1:
		fill = strings.Repeat("\n", n)
	case 2:
		fill = " /*" + strings.Repeat("no end. ", n/8) + "*/ "
	default:
		fill = " --" + strings.Repeat("line. ", n/6) + "\n"
	}
	out := append(append(append(make([]byte, 0, len(b)+len(fill)), b[:at]...), fill...), b[at:]...)
	moved := append([]int(nil), starts...)
	for j := i; j < len(moved); j++ {
		moved[j] += len(fill)
	}
	t.Ev("%d bytes of white space or comment are put in at %d", len(fill), at)
	t.Count("very long text")
	return out, moved, at, len(fill)
}

func (x *text) enlarge(t *T) {
	at, n := 0, 0
	x.b, x.starts, at, n = enlarge(t, x.b, x.starts)
	if n > 0 && at <= x.end {
		x.end += n
	}
}
