package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// LayoutCase compares two renderings of a query, or of a token sequence derived from it.
type LayoutCase struct {
	Q     *Query `json:"q"`
	A     uint64 `json:"a"`
	B     uint64 `json:"b"`
	Paren []int  `json:"paren,omitempty"` // redundant parentheses of the second rendering, by condition node
	Muts  []Mut  `json:"muts,omitempty"`

	Edit *TokEdit `json:"edit,omitempty"` // the second rendering is the conventional one with one difference
}

func (c LayoutCase) texts() (string, string) {
	ta := tokens(c.Q)
	if len(c.Muts) > 0 {
		ta = mutateAll(ta, c.Muts)
		return layoutX(ta, c.A, true), layoutX(ta, c.B, true)
	}
	a := layout(ta, c.A)
	if c.Edit != nil {
		return a, c.Edit.text(ta)
	}
	if len(c.Paren) > 0 {
		q := cloneQuery(c.Q)
		i := 0
		q.walkQueries(func(q *Query) {
			for _, w := range []*Cond{q.Where, q.Having} {
				w.walk(func(n *Cond) {
					if i < len(c.Paren) {
						n.Paren = c.Paren[i]
					}
					i++
				})
			}
		})
		return a, layout(tokens(q), c.B)
	}
	return a, layout(ta, c.B)
}

func (c *Cond) walk(f func(*Cond)) {
	if c == nil {
		return
	}
	f(c)
	if c.Op != "cmp" {
		c.L.walk(f)
		if c.Op != "not" {
			c.R.walk(f)
		}
	}
}

func init() {
	defProp("P06",
		"a generated query (names that begin with keywords everywhere) rendered in two layouts (white space of all kinds, comments, tight, keyword case, redundant parentheses), in a third of the cases after token mutations that mostly make it invalid; both must be accepted with the same result, or both rejected; non-trivial: the texts differ in more than white space between words, or the sequence is mutated",
		100000, 8000000, genLayout, checkP06,
		func(c LayoutCase) string { a, b := c.texts(); return fmt.Sprintf("%q\nvs %q", a, b) })
}

func genLayout(t *rapid.T) LayoutCase {
	o := defOpts()
	o.KwNames = true
	o.MaxQueries = 3
	o.Quote = 8
	c := LayoutCase{Q: genQuery(t, o)}
	g := &G{t: t, o: o}
	if g.p(50) {
		c.A = uint64(rapid.IntRange(1, 1<<30).Draw(t, "a"))
	}
	c.B = uint64(rapid.IntRange(1, 1<<30).Draw(t, "b"))
	if g.p(33) {
		ts := tokens(c.Q)
		for i := g.rng(1, 2); i > 0; i-- {
			c.Muts = append(c.Muts, g.mut(ts, false))
		}
	} else if g.p(60) {
		n := 0
		c.Q.walkQueries(func(q *Query) {
			for _, w := range []*Cond{q.Where, q.Having} {
				w.walk(func(*Cond) { n++ })
			}
		})
		for i := 0; i < n; i++ {
			k := 0
			if g.p(25) {
				k = 1 + g.u(3)
			}
			c.Paren = append(c.Paren, k)
		}
	}
	return c
}

func checkP06(c LayoutCase, o *Obs) error {
	a, b := c.texts()
	ra, ea := parse(a)
	rb, eb := parse(b)
	for _, e := range []error{ea, eb} {
		if _, is := e.(*shapeError); is {
			return e
		}
	}
	if (ea == nil) != (eb == nil) {
		return fmt.Errorf("only one of the renderings is accepted: %v / %v", ea, eb)
	}
	if len(c.Muts) == 0 {
		o.labelIf(c.A != 0, "two random layouts")
		o.labelIf(len(c.Paren) > 0, "parentheses")
		o.nt()
		if ea != nil {
			return fmt.Errorf("a valid query was rejected: %v", ea)
		}
		m := buildModel(c.Q, "primary", nil)
		if err := m.pair(rb); err != nil {
			return err
		}
		for _, x := range m.all() {
			if err := p02Query(x, &Obs{}); err != nil {
				return fmt.Errorf("query on %s: %v", x.name(), err)
			}
		}
	} else {
		o.nt()
		o.labelIf(ea != nil, "mutated, rejected")
		o.labelIf(ea == nil, "mutated, accepted")
	}
	if ea == nil {
		if d := sameResult(ra, rb, true); d != "" {
			return fmt.Errorf("the results differ: %s", d)
		}
	}
	return nil
}
