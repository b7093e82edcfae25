package main

import (
	"strings"
)

// Tok is a word of the query text.
type Tok struct {
	K string `json:"k"` // kw name punct lit str dlit
	S string `json:"s"`
}

type toks struct{ z []Tok }

func (t *toks) kw(words string) {
	for _, w := range strings.Fields(words) {
		t.z = append(t.z, Tok{"kw", w})
	}
}
func (t *toks) p(s string)   { t.z = append(t.z, Tok{"punct", s}) }
func (t *toks) op(s string)  { t.z = append(t.z, Tok{"op", s}) }
func (t *toks) raw(s string) { t.z = append(t.z, Tok{"name", s}) }

// names writes a dotted name; parts are token texts.
func (t *toks) names(parts []string) {
	for i, p := range parts {
		if i > 0 {
			t.p(".")
		}
		if strings.HasPrefix(p, `"`) {
			t.z = append(t.z, Tok{"qname", p})
		} else {
			t.raw(p)
		}
	}
}

func (t *toks) lit(l *Lit) {
	switch l.Kind {
	case "param":
		t.p(":")
		t.raw(l.S)
	case "string":
		t.z = append(t.z, Tok{"str", l.Text})
	case "dlit", "null", "bool":
		t.z = append(t.z, Tok{"klit", l.Text})
	default:
		t.z = append(t.z, Tok{"lit", l.Text})
	}
}

func (t *toks) item(it *Item) {
	switch it.Kind {
	case "field":
		t.names(it.Ref.Parts)
	case "fset":
		t.raw(it.Fn)
		t.p("(")
		t.names(it.Ref.Parts)
		t.p(")")
	case "func":
		t.raw(it.Fn)
		t.p("(")
		for i, a := range it.Args {
			if i > 0 {
				t.p(",")
			}
			t.item(a)
		}
		t.p(")")
	case "sub":
		t.p("(")
		t.query(it.Sub)
		t.p(")")
	case "lit":
		t.lit(it.Lit)
	case "list":
		t.p("(")
		for i, l := range it.List {
			if i > 0 {
				t.p(",")
			}
			t.lit(l)
		}
		t.p(")")
	}
	if it.Alias != "" {
		t.raw(it.Alias)
	}
}

func prec(op string) int {
	switch op {
	case "or":
		return 1
	case "and":
		return 2
	case "not":
		return 3
	}
	return 4
}

func (t *toks) cond(c *Cond, min int) {
	par := c.Paren
	if par == 0 && prec(c.Op) < min {
		par = 1
	}
	for i := 0; i < par; i++ {
		t.p("(")
	}
	switch c.Op {
	case "cmp":
		t.item(c.X)
		if c.Cmp[0] >= 'a' {
			t.kw(c.Cmp)
		} else {
			t.op(c.Cmp)
		}
		t.item(c.Y)
	case "not":
		t.kw("not")
		t.cond(c.L, 4)
	default:
		t.cond(c.L, prec(c.Op))
		t.kw(c.Op)
		t.cond(c.R, prec(c.Op)+1)
	}
	for i := 0; i < par; i++ {
		t.p(")")
	}
}

func (t *toks) keys(ks []*Key) {
	for i, k := range ks {
		if i > 0 {
			t.p(",")
		}
		if k.Ref != nil {
			t.names(k.Ref.Parts)
		} else {
			t.raw(k.Alias)
		}
		if k.Dir != "" {
			t.kw(k.Dir)
		}
		if k.Nulls != "" {
			t.kw("nulls " + k.Nulls)
		}
	}
}

func (t *toks) query(q *Query) {
	t.kw("select")
	for i, it := range q.Items {
		if i > 0 {
			t.p(",")
		}
		t.item(it)
	}
	t.kw("from")
	for i, f := range q.From {
		if i > 0 {
			t.p(",")
		}
		t.names(f.Parts)
		if f.Alias != "" {
			t.raw(f.Alias)
		}
	}
	if q.Where != nil {
		t.kw("where")
		t.cond(q.Where, 0)
	}
	if len(q.GroupBy) > 0 {
		t.kw("group by")
		t.keys(q.GroupBy)
	}
	if q.Having != nil {
		t.kw("having")
		t.cond(q.Having, 0)
	}
	if len(q.OrderBy) > 0 {
		t.kw("order by")
		t.keys(q.OrderBy)
	}
	off := func() {
		if q.Offset != nil {
			t.kw("offset")
			t.lit(q.Offset)
		}
	}
	if q.OffsetFirst {
		off()
	}
	if q.Limit != nil {
		t.kw("limit")
		t.lit(q.Limit)
	}
	if !q.OffsetFirst {
		off()
	}
	if f := q.For; f != nil {
		t.kw("for")
		if f.Update {
			t.kw("update")
		}
		var w []string
		if f.View {
			w = append(w, "view")
		}
		if f.Reference {
			w = append(w, "reference")
		}
		if f.Tracking {
			w = append(w, "tracking")
		}
		if f.Viewstat {
			w = append(w, "viewstat")
		}
		if f.Swap && len(w) == 2 {
			w[0], w[1] = w[1], w[0]
		}
		for i, x := range w {
			if i > 0 {
				t.p(",")
			}
			t.kw(x)
		}
	}
}

func tokens(q *Query) []Tok {
	t := &toks{}
	t.query(q)
	return t.z
}

// prng is used for the layout only; its seed is drawn by the generator.
type prng uint64

func (r *prng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *prng) n(n int) int { return int(r.next() % uint64(n)) }

func isWordTok(t Tok) bool {
	return t.K == "kw" || t.K == "name" || t.K == "lit" || t.K == "klit"
}

// needGap reports whether white space is mandatory between the tokens.
func needGap(a, b Tok) bool {
	if isWordTok(a) && isWordTok(b) {
		return true
	}
	if a.K == "kw" {
		switch strings.ToLower(a.S) {
		case "select", "from", "by", "limit", "offset":
			return true
		case "where", "having":
			return b.S != "("
		}
	}
	if a.K == "lit" && b.K == "lit" {
		return true
	}
	return false
}

// canonGap is the conventional layout.
func canonGap(a, b Tok) string { return canonGap0(a, b) }

func canonGap0(a, b Tok) string {
	if needGap(a, b) {
		return " "
	}
	if a.S == "." || b.S == "." || b.S == "," || b.S == ")" || a.S == "(" || a.S == ":" && a.K == "punct" {
		return ""
	}
	if b.S == "(" && a.K == "name" {
		return ""
	}
	return " "
}

var blanks = []string{" ", "  ", "\t", "\n", "\r\n", "\r", "\f", "\v", "\u0085", "\u00a0", " \n ", "\n\n", "\t "}
var comments = []string{"/**/", "/* c */", "/* 'x' -- \n select */", "-- c\n", "--\r\n", "-- it's (\r", "/***/", "/* * / */", "/*日*/", "--\"\n", "/*/**/"}

func (r *prng) gap(mandatory bool) string {
	s := ""
	if !mandatory && r.n(3) == 0 {
		return ""
	}
	if r.n(1500) == 0 {
		// a long one
		n := 1 << (5 + r.n(8))
		switch r.n(5) {
		case 0:
			return "/*" + strings.Repeat(pickR(r, "c ", "*", "é", "\n", "' "), n) + "*/"
		case 1:
			return "--" + strings.Repeat("-", n) + "\n"
		case 2:
			return strings.Repeat(pickR(r, "\n", "\r\n", " \n", "\r"), min(n, 1000))
		}
		return strings.Repeat(pickR(r, " ", "\t", "/**/"), n)
	}
	for {
		if r.n(4) == 0 {
			s += comments[r.n(len(comments))]
		} else {
			s += blanks[r.n(len(blanks))]
		}
		if r.n(3) != 0 {
			return s
		}
	}
}

func pickR(r *prng, xs ...string) string { return xs[r.n(len(xs))] }

func (r *prng) caseOf(s string) string {
	switch r.n(4) {
	case 0:
		return s
	case 1:
		return asciiUpper(s)
	case 2:
		return asciiLower(s)
	}
	b := []byte(asciiLower(s))
	for i := range b {
		if r.n(2) == 0 {
			b[i] = upByte(b[i])
		}
	}
	return string(b)
}

// layout writes the tokens as text. Seed 0 is the conventional layout.
func layout(ts []Tok, seed uint64) string { return layoutX(ts, seed, false) }

func isReservedWord(t Tok) bool {
	switch strings.ToLower(t.S) {
	case "select", "from", "where", "having", "group", "order", "by", "limit", "offset", "for", "not", "nulls":
		return true
	}
	return false
}

// strictGap is needGap for token sequences that are not a valid query: tokens are never merged.
func strictGap(a, b Tok) bool {
	if needGap(a, b) || a.K == "kw" || isReservedWord(a) || a.S == "." && strings.HasPrefix(b.S, "_") {
		return true
	}
	num := func(t Tok) bool { return t.K == "lit" || t.K == "klit" }
	mark := func(t Tok) bool { return t.S == "." || t.S == ":" || t.K == "op" }
	return num(a) && mark(b) || mark(a) && num(b) || a.K == "op" && b.K == "op" || a.S == ":" || b.S == ":" && isWordTok(a) ||
		a.K == "str" || b.K == "str" || a.K == "qname" || b.K == "qname"
}

// layoutX is layout; raw keeps the letter case and never merges tokens.
func layoutX(ts []Tok, seed uint64, raw bool) string {
	needGap, canonGap := needGap, canonGap
	if raw {
		needGap = strictGap
		canonGap = func(a, b Tok) string {
			if strictGap(a, b) {
				return " "
			}
			return canonGap0(a, b)
		}
	}
	var b strings.Builder
	if seed == 0 {
		for i, t := range ts {
			if i > 0 {
				b.WriteString(canonGap(ts[i-1], t))
			}
			b.WriteString(t.S)
		}
		return b.String()
	}
	r := prng(seed)
	dense := r.n(3) // 0: random everywhere, 1: as tight as possible, 2: mostly conventional
	b.WriteString(r.edge())
	for i, t := range ts {
		if i > 0 {
			m := needGap(ts[i-1], t)
			switch {
			case dense == 0 || dense == 2 && r.n(5) == 0:
				b.WriteString(r.gap(m))
			case dense == 1:
				if m {
					if r.n(3) == 0 {
						b.WriteString("/**/")
					} else {
						b.WriteString(" ")
					}
				}
			default:
				b.WriteString(canonGap(ts[i-1], t))
			}
		}
		if t.K == "kw" || t.K == "klit" {
			if raw {
				b.WriteString(t.S)
			} else {
				b.WriteString(r.caseOf(t.S))
			}
		} else {
			b.WriteString(t.S)
		}
	}
	e := r.edge()
	if r.n(6) == 0 {
		e += "-- end"
	}
	b.WriteString(e)
	return b.String()
}

func (r *prng) edge() string {
	if r.n(2) == 0 {
		return ""
	}
	return r.gap(false)
}

func render(q *Query) string { return layout(tokens(q), 0) }
