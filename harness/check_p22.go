package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// PosCase is a malformed text, as edited tokens or as a text, and what is put before it.
type PosCase struct {
	Toks   []Tok  `json:"toks,omitempty"`
	A      uint64 `json:"a,omitempty"`
	B      uint64 `json:"b,omitempty"`
	Text   []byte `json:"text,omitempty"`
	Lines  []int  `json:"lines"` // kinds of line breaks put before the text
	Blanks string `json:"blanks"`
	Kind   string `json:"kind"`
}

func (c PosCase) text() string {
	if c.Toks != nil {
		return ended(layoutX(c.Toks, c.A, true))
	}
	return string(c.Text)
}

// ended puts a space behind the last word, as there is one in the other layouts.
func ended(s string) string {
	if s == "" || wordByte(s[len(s)-1]) {
		return s + " "
	}
	return s
}

var breaks = []string{"\n", "\r\n", "\r"}

// position is what a syntax error says about the place.
type position struct {
	head      string
	line, col int
	rest      string // the excerpt
}

var posRe = regexp.MustCompile(`(?s)^(.*?)\n --> Line (-?\d+), Col (-?\d+)\n(.*)$`)

func positionOf(err error) (position, error) {
	m := posRe.FindStringSubmatch(err.Error())
	if m == nil {
		return position{}, fmt.Errorf("the syntax error has no position: %q", err)
	}
	p := position{head: m[1], rest: m[4]}
	p.line, _ = strconv.Atoi(m[2])
	p.col, _ = strconv.Atoi(m[3])
	return p, nil
}

// lineStarts are the offsets at which the lines begin; CR, LF and CRLF end a line.
func lineStarts(s string) []int {
	z := []int{0}
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
			continue
		}
		if s[i] == '\r' || s[i] == '\n' {
			z = append(z, i+1)
		}
	}
	return z
}

func lineAt(s string, start int) string {
	if i := strings.IndexAny(s[start:], "\r\n"); i >= 0 {
		return s[start : start+i]
	}
	return s[start:]
}

func expandTabs(s string) string { return strings.ReplaceAll(s, "\t", "    ") }

// located checks the position of a syntax error and returns it with its offset.
func located(s string, err error, o *Obs) (position, int, error) {
	p, e := positionOf(err)
	if e != nil {
		return p, 0, e
	}
	if strings.TrimSpace(p.head) == "" {
		return p, 0, fmt.Errorf("the syntax error does not say what is wrong: %q", err)
	}
	ls := lineStarts(s)
	if p.line < 1 || p.line > len(ls) {
		return p, 0, fmt.Errorf("line %d of %d lines is reported", p.line, len(ls))
	}
	st := ls[p.line-1]
	line := lineAt(s, st)
	if p.col < 1 || p.col > len(line)+1 {
		return p, 0, fmt.Errorf("column %d of line %d is reported, which has %d bytes", p.col, p.line, len(line))
	}
	off := st + p.col - 1
	if p.line > 1 && p.col == 1 && strings.HasSuffix(s[:st], "\r\n") {
		// the place may be meant between CR and LF; its line is not determined
		o.label("line break of two characters before the place")
	} else if !strings.Contains(p.rest, " > | "+expandTabs(line)+"\n") && !strings.Contains(p.rest, " > | "+expandTabs(line)+"\r") {
		return p, 0, fmt.Errorf("the error at line %d does not show this line %q: %q", p.line, line, p.rest)
	}
	want := "   | " + strings.Repeat(" ", len(expandTabs(line[:p.col-1]))) + "^"
	if i := strings.LastIndexAny(p.rest, "\r\n"); !strings.HasPrefix(p.rest[i+1:], want) {
		return p, 0, fmt.Errorf("column %d of %q is not marked: %q", p.col, line, p.rest)
	}
	return p, off, nil
}

func init() {
	defProp("P22",
		"malformed texts: edited queries in one or many lines (CR, LF, CRLF, tabs, comments), truncated and scrambled ones, texts with open strings; the reported line and column exist, the line is shown and the column marked; the same text after 0-4 line breaks of all kinds and 0-5 blanks, and (for edited queries) in another layout, must be reported at the corresponding place with the same message; non-trivial: a text that a hand-written recognizer rejects",
		150000, 10000000, genP22, checkP22,
		func(c PosCase) string { return fmt.Sprintf("%q", c.text()) })
}

func genP22(t *rapid.T) PosCase {
	o := defOpts()
	o.MaxQueries = 3
	o.KwNames = true
	g := &G{t: t, o: o}
	c := PosCase{Lines: []int{}}
	switch g.w(10, 4, 2, 1) {
	case 0:
		c.Kind = "edited query"
		ts := tokens(genQuery(t, o))
		var ms []Mut
		for i := 1 + g.w(6, 3); i > 0; i-- {
			ms = append(ms, g.mut(ts, false))
		}
		c.Toks = mutateAll(ts, ms)
		if c.Toks == nil {
			c.Toks = []Tok{}
		}
		if g.p(70) {
			c.A = uint64(1 + g.bits(16))
		}
		if g.p(80) {
			c.B = uint64(1 + g.bits(16))
		}
	case 1:
		c.Kind = "scrambled text"
		c.Text = []byte(g.scramble(layout(tokens(genQuery(t, o)), uint64(g.bits(12))), 1+g.w(5, 2)))
	case 2:
		c.Kind = "nested"
		a, b := g.nest(g.rng(1, 10))
		c.Text = []byte(g.scramble(a+b, 1))
	default:
		c.Kind = "soup"
		c.Text = []byte(g.soup())
	}
	nl := g.u(5)
	if g.p(2) {
		nl = g.rng(5, 400)
	}
	for i := nl; i > 0; i-- {
		c.Lines = append(c.Lines, g.u(len(breaks)))
	}
	nb := g.u(6)
	if g.p(2) {
		nb = g.rng(6, 400)
	}
	for i := nb; i > 0; i-- {
		c.Blanks += pick(g, []string{" ", " ", "\t"})
	}
	return c
}

// place is the number of tokens before an offset and the offset inside the token there.
func place(ts []Tok, text string, off int) (k, in int) {
	p := 0
	for i, t := range ts {
		j := p + tokAt(text[p:], t.S)
		if off <= j {
			return i, 0
		}
		if off < j+len(t.S) {
			return i, off - j
		}
		p = j + len(t.S)
	}
	return len(ts), 0
}

// tokAt finds the next token behind white space and comments.
func tokAt(s, tok string) int {
	r := &recog{s: s}
	return r.sp(0)
}

func checkP22(c PosCase, o *Obs) error {
	s := c.text()
	o.label(c.Kind)
	if _, ok, _ := recognize(s); ok {
		o.label("well-formed")
		return nil
	}
	o.nt()
	_, err := parse(s)
	if err == nil {
		return fmt.Errorf("no error for a malformed text")
	}
	p, off, e := located(s, err, o)
	if e != nil {
		return e
	}
	o.labelIf(p.line > 1, "not on the first line")
	o.labelIf(off < len(s), "before the end")
	// preceding lines
	pre := ""
	for _, k := range c.Lines {
		pre += breaks[k%len(breaks)]
	}
	n := len(lineStarts(pre)) - 1
	// CR before a text that begins with LF makes one line break of two
	if strings.HasSuffix(pre, "\r") && strings.HasPrefix(s, "\n") {
		pre, n = "", 0
	}
	compare := func(what, t string, line, col int) error {
		_, err := parse(t)
		if err == nil {
			return fmt.Errorf("%s: no error", what)
		}
		q, _, e := located(t, err, o)
		if e != nil {
			return fmt.Errorf("%s: %v", what, e)
		}
		if q.head != p.head || q.line != line || q.col != col {
			return fmt.Errorf("%s: %q at line %d, column %d; expected %q at line %d, column %d", what, q.head, q.line, q.col, p.head, line, col)
		}
		return nil
	}
	if err := compare(fmt.Sprintf("after %q", pre), pre+s, p.line+n, p.col); err != nil {
		return err
	}
	col := p.col
	if p.line == 1 {
		col += len(c.Blanks)
	}
	if err := compare(fmt.Sprintf("after %q", c.Blanks), c.Blanks+s, p.line, col); err != nil {
		return err
	}
	if err := compare(fmt.Sprintf("after %q", pre+c.Blanks), pre+c.Blanks+s, p.line+n, col); err != nil {
		return err
	}
	if c.Toks != nil {
		for _, x := range c.Toks {
			if x.K == "str" && strings.ContainsAny(x.S, "\r\n") {
				return nil
			}
		}
		t := ended(layoutX(c.Toks, c.B, true))
		_, err := parse(t)
		if err == nil {
			return fmt.Errorf("no error in another layout: %q", t)
		}
		q, off2, e := located(t, err, o)
		if e != nil {
			return fmt.Errorf("another layout %q: %v", t, e)
		}
		k, in := place(c.Toks, s, off)
		k2, in2 := place(c.Toks, t, off2)
		if q.head != p.head || k != k2 || in != in2 {
			return fmt.Errorf("%q at word %d+%d (line %d, column %d), but in another layout %q at word %d+%d (line %d, column %d): %q",
				p.head, k, in, p.line, p.col, q.head, k2, in2, q.line, q.col, t)
		}
		o.label("two layouts compared")
	}
	return nil
}
