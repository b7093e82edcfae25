package main

import (
	"fmt"
	"reflect"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

// A subquery means the same wherever it is written: P26 compares it with its text parsed on its own,
// and compares queries that differ in one subquery only.

type EmbedCase struct {
	Q      *Query `json:"q"`
	Layout uint64 `json:"layout,omitempty"`
	// a conditional subquery of Q, and the (valid or broken) query that replaces it
	Pick int    `json:"pick"`
	By   *Query `json:"by,omitempty"`
	Kind string `json:"kind,omitempty"`
	Bad  bool   `json:"bad,omitempty"`
	// Q as a child of Parent
	Child bool `json:"child,omitempty"`
}

const embedParent = "Zparent__c"

func (c EmbedCase) text() string { return layout(tokens(c.Q), c.Layout) }

// childText is the parent query with Q as a select subquery.
func (c EmbedCase) childText() string {
	return fmt.Sprintf([]string{
		"select Id, (%s) from " + embedParent + " zparent",
		"select (%s) from " + embedParent,
		"select Zx__c, Zrel__r.Zx__c, (%s) from " + embedParent + " where Zx__c = 1 order by Zrel__r.Zy__c",
		"select (select Zx__c from Zothers__r), (%s) from " + embedParent + " where Zid__c not in (select Zx__c from Zother__c) limit 10",
	}[c.Pick%4], c.text())
}

func init() {
	defProp("P26",
		"a generated query with many conditional subqueries, each parsed on its own as well (in another layout); in a part of the cases one of them, at any depth, is replaced by another query or by one that breaks a rule; in 30 % a query written as a child in one of four parent queries; equal up to renumbered ids, parent link, meta information and the parent's name before all names; non-trivial: there is a conditional subquery, or the query is written as a child",
		60000, 3000000, genEmbed, checkP26, func(c EmbedCase) string {
			s := c.text()
			if c.By != nil {
				s += fmt.Sprintf("\n(conditional subquery %d replaced by: %s)", c.Pick, layout(tokens(c.By), 0))
			}
			if c.Child {
				s += "\n" + c.childText()
			}
			return s
		})
}

func genEmbed(t *rapid.T) EmbedCase {
	o := defOpts()
	g := &G{t: t, o: o}
	if g.p(30) {
		o.Alias, o.FromMore = 90, 30
		c := EmbedCase{Q: genQuery(t, o), Pick: g.u(4)}
		if q := cloneQuery(c.Q); childOK(q) {
			c.Q, c.Child = q, true
		}
		return c
	}
	o.CondSub, o.Where, o.Having, o.Agg = 40, 80, 75, 35
	o.MaxQueries, o.MaxNest = 6, 4
	c := EmbedCase{Q: genQuery(t, o)}
	if boolGen.Draw(t, "") {
		c.Layout = uint64(rapid.IntRange(1, 1<<30).Draw(t, "layout"))
	}
	n := len(condItems(c.Q))
	if n > 0 && g.p(60) {
		c.Pick = g.u(n)
		o := defOpts()
		o.MaxQueries = 2
		if g.p(30) {
			inj := InjCase{Q: genQuery(t, o)}
			pick(g, []func(*G, *InjCase){injAgg, injScope, injOrder})(g, &inj)
			if inj.Bad != nil {
				c.By, c.Kind, c.Bad = inj.Bad, inj.Kind, true
			}
		} else {
			c.By = genQuery(t, o)
		}
	}
	return c
}

// childOK respells the query so that its text means the same as a child: no name in it may be resolved from its root.
// It reports whether that was possible.
func childOK(q *Query) bool {
	root, head := lc(q.head()[0]), q.From[0]
	if head.Alias == "" {
		head.Alias = "zq7"
	}
	own := map[string]bool{}
	for _, f := range q.From {
		own[lc(f.Alias)] = true
	}
	delete(own, "")
	ok := true
	shadowed := false
	fix := func(parts []string) {
		if len(parts) == 0 || lc(unquote(parts[0])) != root {
			return
		}
		ok = ok && !shadowed
		parts[0] = tokenName(head.Alias)
	}
	for i, f := range q.From {
		if i == 0 {
			continue
		}
		if len(f.Parts) > 1 {
			fix(f.Parts)
		}
		if !own[lc(unquote(f.Parts[0]))] {
			if len(f.Parts) == len(f.Path)-1 { // relative to the head
				f.Parts = append([]string{tokenName(head.Alias)}, f.Parts...)
			} else {
				ok = false
			}
		}
	}
	var rec func(q2 *Query)
	rec = func(q2 *Query) {
		defer func(s bool) { shadowed = s }(shadowed)
		if q2 != q {
			for _, f := range q2.From {
				shadowed = shadowed || lc(f.Alias) == lc(head.Alias)
			}
		}
		q2.walkOwnItems(func(it *Item, _ string, _ bool) {
			if it.Ref != nil && len(it.Ref.Parts) > 1 {
				// a field set names its object in full, or by its alias alone
				ok = ok && (it.Kind != "fset" || lc(unquote(it.Ref.Parts[0])) != root)
				fix(it.Ref.Parts)
			}
		})
		for _, ks := range [][]*Key{q2.GroupBy, q2.OrderBy} {
			for _, k := range ks {
				if k.Ref != nil && len(k.Ref.Parts) > 1 {
					fix(k.Ref.Parts)
				}
			}
		}
		if q2 != q {
			for _, f := range q2.From {
				fix(f.Parts)
				for _, p := range f.Path[1:] {
					ok = ok && lc(p) != root
				}
			}
		}
		sel, _, _ := q2.subs()
		for _, s := range sel {
			rec(s)
		}
	}
	rec(q)
	return ok
}

// condItems are the conditional subqueries of all levels.
func condItems(q *Query) []*Item {
	var z []*Item
	q.walkQueries(func(q *Query) {
		for _, c := range []*Cond{q.Where, q.Having} {
			c.walkItems(func(it *Item) {
				if it.Kind == "sub" {
					z = append(z, it)
				}
			})
		}
	})
	return z
}

func skipEmbed(t reflect.Type, f string) bool {
	return t == reflect.TypeOf(types.SoqlQuery{}) && (f == "Meta" || f == "Parent")
}

func checkP26(c EmbedCase, o *Obs) error {
	m, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	labelQuery(o, c.Q)
	newD := func() *differ {
		return &differ{seen: map[[2]uintptr]bool{}, skip: skipEmbed, ids: newIDMap()}
	}
	for _, x := range m.all() {
		if x.Place != "cond" {
			continue
		}
		o.nt()
		sub := layout(tokens(x.Q), c.Layout>>1)
		r, err := parseQ(sub)
		if err != nil {
			return fmt.Errorf("the conditional subquery on its own: %s: %v", sub, err)
		}
		if s := newD().diff("q", reflect.ValueOf(x.R), reflect.ValueOf(r)); s != "" {
			return fmt.Errorf("a conditional subquery is not the same as on its own (%s): %s", sub, s)
		}
	}
	if c.By != nil {
		q := cloneQuery(c.Q)
		it := condItems(q)[c.Pick]
		it.Sub = c.By
		t2 := layout(tokens(q), c.Layout)
		if c.Bad {
			o.label("broken subquery: " + c.Kind)
			if _, err := parse(layout(tokens(c.By), 0)); err == nil {
				return fmt.Errorf("accepted on its own (%s)", c.Kind)
			}
			if _, err := parse(t2); err == nil {
				return fmt.Errorf("rejected on its own (%s), but accepted as a conditional subquery: %s", c.Kind, t2)
			}
		} else {
			o.label("replaced")
			m2, _, err := modelOf(q, c.Layout)
			if err != nil {
				return err
			}
			find := func(m *M, item *Item) *M {
				for _, x := range m.all() {
					if x.Q == item.Sub {
						return x
					}
				}
				panic("no such subquery")
			}
			a, b := find(m, condItems(c.Q)[c.Pick]), find(m2, it)
			d := newD()
			d.hole = [2]uintptr{reflect.ValueOf(a.R).Pointer(), reflect.ValueOf(b.R).Pointer()}
			if s := d.diff("q", reflect.ValueOf(m.R), reflect.ValueOf(m2.R)); s != "" {
				return fmt.Errorf("with another conditional subquery the rest is not the same: %s: %s", t2, s)
			}
		}
	}
	if c.Child {
		o.nt()
		o.label("as a child")
		t2 := c.childText()
		r, err := parseQ(t2)
		if err != nil {
			return fmt.Errorf("as a child: %s: %v", t2, err)
		}
		var sub *SQ
		for i := range r.Fields {
			if r.Fields[i].Type == types.SoqlFieldInfo_SubQuery {
				sub = r.Fields[i].SubQuery
			}
		}
		d := newD()
		d.prefix, d.root = embedParent, int64(r.From[0].ViewId)
		if s := d.diff("q", reflect.ValueOf(sub), reflect.ValueOf(m.R)); s != "" {
			return fmt.Errorf("as a child: %s: not the same as on its own: %s", t2, s)
		}
	}
	return nil
}
