package main

import (
	"fmt"
)

func init() {
	p := defProp("P13",
		"generated queries with many aliases (among them expr0, expr1, Expr2 and aliases equal to field names), repeated fields and functions; the aliases of all entries of the field list are compared with those of an independent model, keys given by alias with the item carrying it; in half of the cases a duplicate alias (any letter case) is injected, which must be rejected while a fresh one at the same place is accepted; non-trivial: some query has generated aliases, two or more written ones, or keys given by alias",
		100000, 6000000,
		genInj(func(g *G) Opts {
			o := defOpts()
			o.ItemAlias, o.DupItem, o.Func, o.OrderBy = 45, 30, 35, 60
			o.MaxItems = 7
			o.Where, o.OffLim, o.For = 30, 10, 5
			o.RelPath = 25
			o.CaseVar = 25
			return o
		}, injDupAlias), checkP13, showInj)
	_ = p
}

func injDupAlias(g *G, c *InjCase) {
	if !g.p(50) {
		return
	}
	usable := func(q *Query) []int {
		used := map[int]bool{}
		for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
			for _, k := range ks {
				if k.Ref == nil {
					used[k.Item] = true
				}
			}
		}
		var z []int
		for i, it := range q.Items {
			if it.Kind != "fset" && !used[i] {
				z = append(z, i)
			}
		}
		return z
	}
	named := func(q *Query, not int) []int {
		var z []int
		for i, it := range q.Items {
			if it.Alias != "" && i != not {
				z = append(z, i)
			}
		}
		return z
	}
	at := g.choose(c.Q, func(s site) bool {
		for _, j := range usable(s.q) {
			if len(named(s.q, j)) > 0 {
				return true
			}
		}
		return false
	})
	if at < 0 {
		return
	}
	q := sites(c.Q)[at].q
	var js []int
	for _, j := range usable(q) {
		if len(named(q, j)) > 0 {
			js = append(js, j)
		}
	}
	j := pick(g, js)
	a := q.Items[pick(g, named(q, j))].Alias
	switch g.u(3) {
	case 1:
		a = asciiUpper(a)
	case 2:
		a = asciiLower(a)
	}
	c.Kind = "duplicate column alias"
	c.Bad = editAt(c.Q, at, func(s site) { s.q.Items[j].Alias = a })
	c.Good = editAt(c.Q, at, func(s site) { s.q.Items[j].Alias = "zz9" })
}

// aliases is the expected alias of every entry of the field list.
func (m *M) aliases() []string {
	used := map[string]bool{}
	for _, it := range m.Q.Items {
		if it.Kind != "fset" && it.Alias != "" {
			used[lc(it.Alias)] = true
		}
	}
	n := 0
	next := func() string {
		for {
			s := "expr" + itoa(n)
			n++
			if !used[s] {
				return s
			}
		}
	}
	seen := map[string]bool{}
	var z []string
	for _, it := range m.Q.Items {
		a := it.Alias
		switch it.Kind {
		case "fset":
			a = ""
		case "func":
			if a == "" {
				a = next()
			}
		case "field":
			if a == "" {
				if k := it.Ref.key(); seen[k] {
					a = next()
				} else {
					seen[k] = true
				}
			}
		}
		z = append(z, a)
	}
	return z
}

func checkP13(c InjCase, o *Obs) error {
	labelQuery(o, c.Q)
	err := forEach(c.qc(), func(m *M, ps []pairing) error {
		want := m.aliases()
		written, generated, keys := 0, 0, 0
		seen := map[string]int{}
		for i := range m.R.Fields {
			got := m.R.Fields[i].AliasName
			w := ""
			if i < len(want) {
				w = want[i]
			}
			if got != w {
				return fmt.Errorf("field %d (%s) has the alias %q instead of %q", i+1, dot(m.R.Fields[i].Name), got, w)
			}
			if got == "" {
				continue
			}
			if j, ok := seen[lc(got)]; ok {
				return fmt.Errorf("fields %d and %d have the same alias %q", j+1, i+1, got)
			}
			seen[lc(got)] = i
			if m.Q.Items[i].Alias != "" {
				written++
			} else {
				generated++
			}
		}
		for _, p := range ps {
			if p.key == nil || p.arg || p.key.Ref != nil {
				continue
			}
			keys++
			f := &m.R.Fields[p.key.Item]
			if p.f.ColumnId != f.ColumnId || p.f.Type != f.Type || nkey(p.f.Name) != nkey(f.Name) || p.f.Aggregated != f.Aggregated {
				return fmt.Errorf("%s (%s) denotes column %d %s instead of column %d %s", p.where, p.key.Alias, p.f.ColumnId, dot(p.f.Name), f.ColumnId, dot(f.Name))
			}
		}
		if generated > 0 || written > 1 || keys > 0 {
			o.nt()
		}
		o.labelIf(generated > 1, "2+ generated aliases")
		o.labelIf(seen["expr0"] > 0 && m.Q.Items[seen["expr0"]].Alias != "", "expr0 written")
		o.labelIf(keys > 0, "key by alias")
		return nil
	})
	if err != nil {
		return err
	}
	return c.injected(o)
}
