package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// syntaxError: errors of the grammar carry a position, errors of the later phases do not.
func syntaxError(err error) bool { return strings.Contains(err.Error(), "\n --> Line") }

// kwCase varies the letter case of the keywords.
func (g *G) kwCase(ts []Tok) []Tok {
	if !g.p(35) {
		return ts
	}
	z := append([]Tok{}, ts...)
	for i := range z {
		if (z[i].K == "kw" || z[i].K == "klit") && g.p(70) {
			z[i].S = g.anyCase(z[i].S)
		}
	}
	return z
}

func (g *G) edited() (string, string) {
	tokens := func(q *Query) []Tok { return g.kwCase(tokens(q)) }
	// some constructs more often than usual
	switch o := &g.o; g.u(8) {
	case 0:
		o.Agg, o.Having, o.Not = 80, 90, 50
	case 1:
		o.For, o.OffLim, o.OrderBy, o.MaxItems = 90, 80, 60, 2
	case 2:
		o.Where, o.Not, o.Paren, o.MaxItems = 95, 60, 40, 2
	}
	switch g.w(10, 3, 5, 2, 1, 1, 2, 3, 6, 3) {
	case 9:
		// a run of words is repeated
		ts := tokens(genQuery(g.t, g.o))
		n := 2 + g.u(3)
		i := g.u(len(ts))
		if g.p(30) {
			i = len(ts) - n
		}
		if i < 0 {
			i = 0
		}
		j := min(i+n, len(ts))
		z := append(append(append([]Tok{}, ts[:j]...), ts[i:j]...), ts[j:]...)
		return layoutX(z, uint64(g.bits(3)), true), "repeated run"
	case 8:
		// a unit (operand, argument, group, subquery) in the place of another one
		ts, other := tokens(genQuery(g.t, g.o)), tokens(genQuery(g.t, g.o))
		for i := 1 + g.w(5, 2); i > 0; i-- {
			ts = g.graft(ts, other)
		}
		return layoutX(ts, uint64(g.bits(3)), true), "exchanged units"
	case 6:
		// a reserved word, or one that only looks like it, where a name is expected
		ts := tokens(genQuery(g.t, g.o))
		var at []int
		for i, t := range ts {
			if t.K == "name" || t.K == "qname" {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			i := pick(g, at)
			w := g.anyCase(pick(g, reservedLike))
			if g.p(50) {
				ts[i] = Tok{"name", w}
			} else {
				j := i + g.u(2)
				ts = append(append(append([]Tok{}, ts[:j]...), Tok{"name", w}), ts[j:]...)
			}
		}
		return layoutX(ts, uint64(g.bits(4)), true), "reserved words as names"
	case 7:
		// words that follow a literal or keyword without a space, and edits of the literal
		g.o.LitHeavy, g.o.MaxItems, g.o.Where = true, 2, 95
		ts := tokens(genQuery(g.t, g.o))
		var at []int
		for i, t := range ts {
			if t.K == "lit" || t.K == "klit" || t.K == "str" || g.p(5) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			at = []int{g.u(len(ts))}
		}
		i := pick(g, at)
		switch g.u(4) {
		case 0:
			return layout(ts[:i], 0) + layout(ts[i:], 0), "joined literals"
		case 1:
			ts[i].S += pick(g, []string{"x", "1", "_", ".", ":", "é", "-1", "'", "$", "Z", "日", "0", "+", ":1", ":-1", ".5", "e3", "e"})
			return layout(ts, 0), "joined literals"
		case 2:
			ts[i].S = pick(g, []string{"+", "-", "0", "x", "1", "++", "+-", "'", ".", "_", "é"}) + ts[i].S
			return layout(ts, 0), "joined literals"
		}
		return layout(ts[:i+1], 0) + layout(ts[i+1:], 0), "joined literals"
	case 0:
		ts := tokens(genQuery(g.t, g.o))
		var ms []Mut
		for i := 1 + g.w(6, 3, 1); i > 0; i-- {
			ms = append(ms, g.mut(ts, false))
		}
		seed := uint64(0)
		if g.p(40) {
			seed = uint64(1 + g.bits(16))
		}
		return layoutX(mutateAll(ts, ms), seed, true), "mutated words"
	case 1:
		// one more word between two clauses, or at the end
		ts := tokens(genQuery(g.t, g.o))
		var at []int
		for i, t := range ts {
			if t.K == "kw" || t.S == ")" {
				at = append(at, i, i+1)
			}
		}
		at = append(at, len(ts))
		i := pick(g, at)
		ins := []Tok{extraToks[g.u(plainToks)]}
		if g.p(40) {
			ins = append(ins, extraToks[g.u(plainToks)])
		}
		z := append(append(append([]Tok{}, ts[:i]...), ins...), ts[i:]...)
		return layoutX(z, uint64(g.bits(12)), true), "inserted words"
	case 2:
		s := layout(tokens(genQuery(g.t, g.o)), uint64(g.bits(12)))
		return g.scramble(s, 1+g.w(6, 2, 1)), "mutated bytes"
	case 3:
		// the spacing is taken away at one place
		ts := tokens(genQuery(g.t, g.o))
		i := g.u(len(ts))
		return layout(ts[:i], 0) + layout(ts[i:], 0), "joined words"
	case 4:
		a, b := g.nest(g.rng(1, 12))
		if g.p(50) {
			return g.scramble(a+b, 1), "nested"
		}
		return a + b, "nested"
	}
	return g.soup(), "token soup"
}

var reservedLike = []string{"select", "from", "where", "having", "limit", "offset", "order", "group", "for", "by", "orderby", "groupby",
	"order by", "group by", "for view", "for update", "for reference", "forview", "forupdate", "forreference", "order/**/by", "group  by",
	"for viewer", "for updates", "order bye", "and", "or", "not", "in", "like", "null", "asc", "nulls", "\"a\nb\"", "\"a\rb\"", "\"select\""}

func init() {
	p := defProp("P21",
		"valid queries edited by one to three word edits (delete, duplicate, exchange, insert, replace, move, truncate), by inserted keywords between clauses, by putting a unit (operand, argument, group, subquery) in the place of another, by byte edits, by joining words or literals, by reserved words as names; nested texts and token soup; judged by a hand-written recognizer: malformed texts must be rejected, well-formed ones must not be rejected by the grammar and the numbers of items, comparisons and keys agree; non-trivial: edited text of at least 12 bytes",
		400000, 16000000,
		func(t *rapid.T) TextCase {
			o := defOpts()
			o.MaxQueries = 3
			o.KwNames = true
			g := &G{t: t, o: o}
			s, k := g.edited()
			return TextCase{[]byte(s), k}
		}, checkP21,
		func(c TextCase) string { return fmt.Sprintf("%q", c.B) })
	p.caseSec = 30
	p.fixed = func() []any {
		z := []any{}
		for _, s := range hostile {
			for _, x := range []string{"select a from b where x = %", "select % from b", "select a from %", "select a from b %", "select a from b where %", "select a from b limit %",
				"select a from b order by a %", "select f(%) from b", "select a from b group by a having count(a) > %", "select a from b for %", "select a from b where x in (%, 2)", "%select a from b"} {
				z = append(z, TextCase{[]byte(strings.Replace(x, "%", s, 1)), "fixed"})
			}
		}
		return z
	}
}

func checkP21(c TextCase, o *Obs) error {
	s := string(c.B)
	if len(s) >= 12 {
		o.nt()
	}
	r, ok, why := recognize(s)
	q, err := parse(s)
	if _, is := err.(*shapeError); is {
		return err
	}
	o.label(c.Kind)
	switch {
	case !ok && err == nil:
		return fmt.Errorf("accepted, but the text is no well-formed query (%s)", why)
	case ok && err != nil && syntaxError(err):
		return fmt.Errorf("a well-formed query is rejected by the grammar: %v", err)
	case !ok:
		o.label(c.Kind + ": malformed")
	case err != nil:
		o.label(c.Kind + ": well-formed, rejected for another reason")
	default:
		o.label(c.Kind + ": well-formed, accepted")
		got := r.parts
		got.Items, got.Group, got.Order = 0, len(q.GroupBy), len(q.OrderBy)
		for i := range q.Fields {
			if !q.Fields[i].NotSelected {
				got.Items++
			}
		}
		_, w, e1 := tree(q.Where)
		_, h, e2 := tree(q.Having)
		if e1 != nil || e2 != nil {
			return fmt.Errorf("conditions are malformed: %v %v", e1, e2)
		}
		got.Where, got.Having = len(w), len(h)
		if got.Items > r.parts.Items {
			// A subquery whose own relationship is declared as an object of the enclosing query
			// refers to that object in its select list; nothing is specified for the enclosing query then.
			for i := range q.Fields {
				if q.Fields[i].SubQuery != nil && q.Fields[i].SubQuery.IsCorelated {
					got.Items = r.parts.Items
				}
			}
		}
		if got != r.parts {
			return fmt.Errorf("the query consists of %+v, the result of %+v", r.parts, got)
		}
	}
	return nil
}
