package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// InjCase is a valid query and variants of it: Bad breaks a rule, Good is the same edit within the rules.
type InjCase struct {
	Q      *Query `json:"q"`
	Layout uint64 `json:"layout,omitempty"`
	Kind   string `json:"kind,omitempty"`
	Bad    *Query `json:"bad,omitempty"`
	Good   *Query `json:"good,omitempty"`
}

func (c InjCase) qc() QCase { return QCase{Q: c.Q, Layout: c.Layout} }

func showInj(c InjCase) string {
	s := c.qc().text()
	if c.Bad != nil {
		s += "\n" + c.Kind + ": " + layout(tokens(c.Bad), c.Layout)
	}
	return s
}

// site is a query of the tree with its place.
type site struct {
	q     *Query
	place string
	i     int
}

func sites(q *Query) []site {
	var z []site
	var rec func(q *Query, place string)
	rec = func(q *Query, place string) {
		z = append(z, site{q, place, len(z)})
		a, b, c := q.subs()
		for _, s := range a {
			rec(s, "select")
		}
		for _, s := range append(b, c...) {
			rec(s, "cond")
		}
	}
	rec(q, "primary")
	return z
}

// choose draws a query of the tree that satisfies the filter, -1 if there is none.
func (g *G) choose(q *Query, ok func(s site) bool) int {
	var c []int
	for _, s := range sites(q) {
		if ok(s) {
			c = append(c, s.i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return pick(g, c)
}

// editAt clones the query and edits the i-th query of its tree.
func editAt(q *Query, i int, f func(s site)) *Query {
	z := cloneQuery(q)
	f(sites(z)[i])
	return z
}

// insertItem inserts a select item at position k; alias keys keep denoting their items.
func insertItem(q *Query, k int, it *Item) {
	for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
		for _, key := range ks {
			if key.Ref == nil && key.Item >= k {
				key.Item++
			}
		}
	}
	q.Items = append(q.Items[:k:k], append([]*Item{it}, q.Items[k:]...)...)
}

func isAgg(q *Query) bool {
	if len(q.GroupBy) > 0 {
		return true
	}
	for _, it := range q.Items {
		if containsCount(it) {
			return true
		}
	}
	return false
}

// bare is a reference to a field of the primary object written by its name.
func bare(q *Query, f string) *Ref { return &Ref{Obj: q.head(), Field: f, Parts: []string{f}} }

func fld(r *Ref) *Item                 { return &Item{Kind: "field", Ref: r} }
func call(fn string, a ...*Item) *Item { return &Item{Kind: "func", Fn: fn, Args: a} }
func intLit() *Item {
	return &Item{Kind: "lit", Lit: &Lit{Kind: "int", I: 1, Text: "1"}}
}

// andCond adds a comparison to a condition, anywhere at its top.
func (g *G) addCmp(c, n *Cond) *Cond {
	if c == nil {
		return n
	}
	op := pick(g, []string{"and", "or"})
	switch g.u(3) {
	case 0:
		return &Cond{Op: op, L: c, R: n}
	case 1:
		return &Cond{Op: op, L: n, R: c}
	}
	return &Cond{Op: op, L: c, R: &Cond{Op: "not", L: n}}
}

// injected decides the variants.
func (c InjCase) injected(o *Obs) error {
	if c.Bad == nil {
		return nil
	}
	o.label("injected: " + c.Kind)
	if c.Good != nil {
		t := layout(tokens(c.Good), c.Layout)
		if _, err := parseQ(t); err != nil {
			return fmt.Errorf("%s: %v", t, err)
		}
	}
	t := layout(tokens(c.Bad), c.Layout)
	if err := rejected(t, "it must not be: "+c.Kind); err != nil {
		return fmt.Errorf("%s: %v", t, err)
	}
	return nil
}

func genInj(o func(g *G) Opts, inject func(g *G, c *InjCase)) func(t *rapid.T) InjCase {
	return func(t *rapid.T) InjCase {
		g := &G{t: t, o: defOpts()}
		opts := o(g)
		g.o = opts
		c := InjCase{Q: genQuery(t, opts)}
		if g.p(30) {
			c.Layout = uint64(rapid.IntRange(1, 1<<30).Draw(t, "layout"))
		}
		inject(g, &c)
		return c
	}
}
