package main

import (
	"fmt"
)

func init() {
	defProp("P25",
		"generated queries with up to 5 order keys over fields of all used objects, spelled in all forms or by alias; the keys must be kept in order with the column of the item or field they denote; in two thirds of the cases a key is added that refers to an unused object or repeats a column in another spelling, by alias or in another letter case, which must be rejected while a key on another field at the same place is accepted; non-trivial: two or more keys, or a broken rule",
		70000, 6000000,
		genInj(func(g *G) Opts {
			o := defOpts()
			o.OrderBy, o.ItemAlias, o.RelPath = 90, 45, 50
			o.MaxOrder = 5
			o.CaseVar, o.Quote = 25, 8
			o.OffLim, o.For = 15, 8
			return o
		}, injOrder), checkP25, showInj)
}

func injOrder(g *G, c *InjCase) {
	switch g.w(3, 3, 5) {
	case 1: // an object that the query does not use
		at := g.choose(c.Q, func(s site) bool { return true })
		s := sites(c.Q)[at]
		k := g.u(len(s.q.OrderBy) + 1)
		n := 1 + g.u(2)
		base := s.q.From[g.u(len(s.q.From))]
		via := g.u(3)
		sel, _, _ := s.q.subs()
		mk := func(ok bool) *Query {
			return editAt(c.Q, at, func(s site) {
				r := &Ref{Obj: s.q.head(), Field: "Zo__c"}
				switch {
				case ok:
					r.Parts = []string{"Zo__c"}
				case via == 2 && len(sel) > 0:
					// the relationship of a subquery is not an object of the query
					p := sel[0].head()
					r.Obj = p
					r.Parts = append(append([]string{}, p[len(s.q.head()):]...), "Zo__c")
					if !p.hasPrefix(s.q.head()) {
						r.Parts = append(append([]string{}, p...), "Zo__c")
					}
				default:
					if via == 1 && base.Alias != "" {
						r.Obj = base.Path
						r.Parts = []string{base.Alias}
					}
					for i := 0; i < n; i++ {
						r.Obj = r.Obj.add("Zun" + itoa(i))
						r.Parts = append(r.Parts, "Zun"+itoa(i))
					}
					r.Parts = append(r.Parts, "Zo__c")
				}
				for i := range r.Parts {
					r.Parts[i] = tokenName(r.Parts[i])
				}
				insertKey(s.q, k, &Key{Ref: r, Item: -1})
			})
		}
		c.Kind = "ordering by a field of an unused object"
		c.Bad, c.Good = mk(false), mk(true)
	case 2: // a column twice
		at := g.choose(c.Q, func(s site) bool { return len(s.q.OrderBy) > 0 })
		if at < 0 {
			return
		}
		s := sites(c.Q)[at]
		q := s.q
		k := g.u(len(q.OrderBy) + 1)
		key := q.OrderBy[g.u(len(q.OrderBy))]
		m := buildModel(q, "primary", nil)
		ref, _ := m.keyTarget(key)
		itemAliases := map[string]bool{}
		var al []*Key
		for i, it := range q.Items {
			if it.Alias == "" {
				continue
			}
			itemAliases[lc(it.Alias)] = true
			if ref != nil && it.Kind == "field" && it.Ref.key() == ref.key() || ref == nil && i == key.Item {
				al = append(al, &Key{Alias: it.Alias, Item: i})
			}
		}
		var forms []*Key
		for _, a := range al {
			forms = append(forms, a, &Key{Alias: asciiUpper(a.Alias), Item: a.Item}, &Key{Alias: asciiLower(a.Alias), Item: a.Item})
		}
		if ref != nil {
			v := visible(c.Q)[at]
			shadow := false
			for _, x := range ref.Obj {
				shadow = shadow || v.own[lc(x)]
			}
			if !shadow {
				forms = append(forms, &Key{Ref: absRef(ref), Item: -1}, &Key{Ref: absRef(ref), Item: -1})
			}
			if ref.Obj.key() == q.head().key() && !itemAliases[lc(ref.Field)] {
				forms = append(forms, &Key{Ref: bare(q, tokenName(ref.Field)), Item: -1}, &Key{Ref: bare(q, tokenName(asciiUpper(ref.Field))), Item: -1})
			}
			for _, f := range q.From {
				if f.Alias != "" && f.Path.key() == ref.Obj.key() {
					forms = append(forms, &Key{Ref: &Ref{Obj: ref.Obj, Field: ref.Field, Parts: []string{f.Alias, tokenName(ref.Field)}}, Item: -1})
				}
			}
			if key.Ref != nil {
				forms = append(forms, &Key{Ref: key.Ref, Item: -1})
			}
		}
		if len(forms) == 0 {
			return
		}
		n := pick(g, forms)
		n.Dir = pick(g, []string{"", "asc", "desc"})
		n.Nulls = pick(g, []string{"", "first", "last"})
		c.Kind = "ordering twice by one column"
		c.Bad = editAt(c.Q, at, func(s site) { insertKey(s.q, k, n) })
		c.Good = editAt(c.Q, at, func(s site) { insertKey(s.q, k, &Key{Ref: bare(s.q, "Zo__c"), Item: -1, Dir: n.Dir, Nulls: n.Nulls}) })
	}
}

func insertKey(q *Query, i int, k *Key) {
	q.OrderBy = append(q.OrderBy[:i:i], append([]*Key{k}, q.OrderBy[i:]...)...)
}

func checkP25(c InjCase, o *Obs) error {
	labelQuery(o, c.Q)
	err := forEach(c.qc(), func(m *M, ps []pairing) error {
		o.labelIf(len(m.Q.OrderBy) > 2, "3+ keys")
		if len(m.Q.OrderBy) > 1 {
			o.nt()
		}
		return orderErr(m, ps)
	})
	if err != nil {
		return err
	}
	if c.Bad != nil {
		o.nt()
		if c.Good != nil {
			if err := forEach(QCase{Q: c.Good, Layout: c.Layout}, orderErr); err != nil {
				return fmt.Errorf("%s: %v", render(c.Good), err)
			}
		}
	}
	return c.injected(o)
}

// orderErr compares the order keys with the written ones; pairs has checked their number and names.
func orderErr(m *M, ps []pairing) error {
	cols := map[string]int{} // column of each field of the query
	for i := range m.R.Fields {
		if f := &m.R.Fields[i]; i >= len(m.Q.Items) || m.Q.Items[i].Kind == "field" {
			cols[nkey(f.Name)] = f.ColumnId
		}
	}
	seen := map[int]int{}
	for i, k := range m.Q.OrderBy {
		x := &m.R.OrderBy[i]
		if x.Desc != (k.Dir == "desc") || x.NullsLast != (k.Nulls == "last") {
			return fmt.Errorf("order key %d: desc %v, nulls last %v, written %q %q", i+1, x.Desc, x.NullsLast, k.Dir, k.Nulls)
		}
		want := 0
		if k.Ref != nil {
			want = cols[k.Ref.key()]
		} else {
			want = m.R.Fields[k.Item].ColumnId
		}
		if x.Field.ColumnId != want || want <= 0 {
			return fmt.Errorf("order key %d: column %d instead of %d", i+1, x.Field.ColumnId, want)
		}
		if j, ok := seen[want]; ok {
			return fmt.Errorf("order keys %d and %d are the same column", j+1, i+1)
		}
		seen[want] = i
	}
	return nil
}
