package main

import "strings"

// Mut is an edit of a token sequence.
type Mut struct {
	Op  string `json:"op"` // del dup swap ins rep move trunc
	I   int    `json:"i"`
	J   int    `json:"j"`
	Tok Tok    `json:"tok"`
}

var extraToks = []Tok{
	{"kw", "select"}, {"kw", "from"}, {"kw", "where"}, {"kw", "group"}, {"kw", "order"}, {"kw", "by"}, {"kw", "having"},
	{"kw", "limit"}, {"kw", "offset"}, {"kw", "for"}, {"kw", "view"}, {"kw", "reference"}, {"kw", "update"}, {"kw", "tracking"},
	{"kw", "viewstat"}, {"kw", "and"}, {"kw", "or"}, {"kw", "not"}, {"kw", "in"}, {"kw", "like"}, {"kw", "includes"},
	{"kw", "excludes"}, {"kw", "asc"}, {"kw", "desc"}, {"kw", "nulls"}, {"kw", "first"}, {"kw", "last"},
	{"punct", "("}, {"punct", ")"}, {"punct", ","}, {"punct", "."}, {"punct", ":"}, {"op", "="}, {"op", "!="}, {"op", "<"},
	{"op", "<="}, {"op", ">"}, {"op", ">="}, {"name", "zz"}, {"name", "Id"}, {"lit", "12"}, {"lit", "1.5"}, {"str", "'s'"},
	{"klit", "null"}, {"klit", "TODAY"}, {"qname", "\"q n\""}, {"lit", "2024-01-02"},
	{"name", ";"}, {"name", "@"}, {"name", "*"}, {"name", "<>"}, {"name", "--"}, {"name", "/*"}, {"name", "'"}, {"name", "\""},
}

// plainToks is the number of extraToks that are tokens of the language.
var plainToks = func() int {
	for i, t := range extraToks {
		if t.S == ";" {
			return i
		}
	}
	return 0
}()

func (g *G) mut(ts []Tok, raw bool) Mut {
	m := Mut{}
	n := len(ts)
	if n == 0 {
		n = 1
	}
	m.I, m.J = g.u(n), g.u(n)
	lim := plainToks
	if raw {
		lim = len(extraToks)
	}
	switch g.w(4, 2, 3, 4, 4, 2, 1) {
	case 0:
		m.Op = "del"
	case 1:
		m.Op = "dup"
	case 2:
		m.Op = "swap"
		if g.p(60) {
			m.J = m.I + 1
		}
	case 3:
		m.Op = "ins"
	case 4:
		m.Op = "rep"
	case 5:
		m.Op = "move"
	default:
		m.Op = "trunc"
	}
	if m.Op == "ins" || m.Op == "rep" {
		m.Tok = extraToks[g.u(lim)]
		if g.p(35) && len(ts) > 0 {
			m.Tok = pick(g, ts)
		}
	}
	return m
}

func (m Mut) apply(ts []Tok) []Tok {
	n := len(ts)
	if n == 0 {
		return ts
	}
	z := append([]Tok{}, ts...)
	i, j := m.I%n, m.J%n
	switch m.Op {
	case "del":
		return append(z[:i], z[i+1:]...)
	case "dup":
		return append(append(append([]Tok{}, ts[:i+1]...), ts[i]), ts[i+1:]...)
	case "swap":
		z[i], z[j] = z[j], z[i]
		return z
	case "ins":
		return append(append(append([]Tok{}, ts[:i]...), m.Tok), ts[i:]...)
	case "rep":
		z[i] = m.Tok
		return z
	case "move":
		t := z[i]
		z = append(z[:i], z[i+1:]...)
		if j > len(z) {
			j = len(z)
		}
		return append(append(append([]Tok{}, z[:j]...), t), z[j:]...)
	case "trunc":
		return z[:i]
	}
	return z
}

func mutateAll(ts []Tok, ms []Mut) []Tok {
	for _, m := range ms {
		ts = m.apply(ts)
	}
	return ts
}

func joinToks(ts []Tok) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.S)
	}
	return strings.Join(s, " ")
}

// unit is the end of the balanced construct that begins at the token: a literal, a dotted path,
// a function call, or a parenthesised group.
func unit(ts []Tok, i int) int {
	closing := func(i int) int {
		d := 0
		for j := i; j < len(ts); j++ {
			switch ts[j].S {
			case "(":
				d++
			case ")":
				if d--; d == 0 {
					return j + 1
				}
			}
		}
		return len(ts)
	}
	name := func(i int) bool { return i < len(ts) && (ts[i].K == "name" || ts[i].K == "qname") }
	if ts[i].S == "(" {
		return closing(i)
	}
	j := i + 1
	if name(i) {
		for j+1 < len(ts) && ts[j].S == "." && name(j+1) {
			j += 2
		}
		if j < len(ts) && ts[j].S == "(" {
			return closing(j)
		}
	}
	return j
}

var unitSnippets = func() [][]Tok {
	n := func(s string) Tok { return Tok{"name", s} }
	p := func(s string) Tok { return Tok{"punct", s} }
	k := func(s string) Tok { return Tok{"kw", s} }
	one := Tok{"lit", "1"}
	eq := Tok{"op", "="}
	return [][]Tok{
		{n("a")}, {n("a"), p("."), n("b")}, {one}, {{"str", "'s'"}}, {{"klit", "null"}}, {n("f"), p("("), p(")")}, {n("f"), p("("), n("a"), p(")")},
		{n("f"), p("("), one, p(","), n("g"), p("("), n("b"), p(")"), p(")")}, {p("("), n("a"), p(")")}, {p("("), one, p(")")}, {p("("), p(")")},
		{p("("), one, p(","), {"str", "'s'"}, p(")")}, {p("("), k("select"), n("a"), k("from"), n("b"), p(")")},
		{p("("), n("a"), eq, one, p(")")}, {p("("), n("f"), p("("), n("a"), p(")"), eq, one, p(")")}, {n("a"), eq, one}, {n("f"), p("("), n("a"), p(")"), eq, one},
		{k("not"), n("a"), eq, one}, {k("not"), p("("), n("a"), eq, one, p(")")}, {n("a"), eq, one, k("and"), n("b"), eq, one}, {p(":"), n("a")},
		{n("a"), n("b")}, {n("FIELDS"), p("("), n("ALL"), p(")")}, {n("a"), k("in"), p("("), one, p(")")}, {n("COUNT"), p("("), p(")")},
		{n("a"), k("desc"), k("nulls"), k("last")}, {{"klit", "LAST_N_DAYS:3"}}, {n("Contact"), {"name", "c"}}, {one, eq, n("a")},
		{k("select"), n("a"), k("from"), n("b")}, {p("("), p("("), n("a"), eq, one, p(")"), p(")")}, {n("a"), k("like"), {"str", "'s'"}},
	}
}()

// graft replaces a unit by another one, of the same or of the other tokens or from the list,
// or inserts it there.
func (g *G) graft(ts, other []Tok) []Tok {
	var at []int
	for i, t := range ts {
		if t.K != "kw" && t.K != "op" && (t.K != "punct" || t.S == "(") {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return ts
	}
	i := pick(g, at)
	j := unit(ts, i)
	var by []Tok
	switch g.w(4, 3, 5) {
	case 0:
		k := pick(g, at)
		by = ts[k:unit(ts, k)]
	case 1:
		k := g.u(len(other))
		by = other[k:unit(other, k)]
	default:
		by = pick(g, unitSnippets)
	}
	if g.p(12) {
		j = i
	}
	return append(append(append([]Tok{}, ts[:i]...), by...), ts[j:]...)
}
