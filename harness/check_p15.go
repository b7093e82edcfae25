package main

import (
	"fmt"
)

func init() {
	defProp("P15",
		"generated queries with select and conditional subqueries to depth 4, correlated references, shadowed and repeated aliases and relationships; names, parents and correlation are compared with the intent; then either a name declared in one query is used in another query where it is not visible (it must denote a relationship of that query), or a scoping rule is broken by an edit (items of ancestor or sibling objects in a subquery's select list, qualified primary objects), which must be rejected; non-trivial: at least one subquery",
		70000, 6000000,
		genInj(func(g *G) Opts {
			o := nestOpts()
			o.Corr, o.Alias, o.FieldSet = 40, 65, 6
			o.OffLim, o.For, o.Having = 3, 3, 20
			return o
		}, injScope), checkP15, showInj)
}

type visibility struct {
	names map[string]bool // visible names of each site
	own   map[string]bool
}

// visible computes the names visible in each query of the tree (root names and aliases).
func visible(q *Query) []visibility {
	var z []visibility
	var rec func(q *Query, place string, outer map[string]bool)
	rec = func(q *Query, place string, outer map[string]bool) {
		v := visibility{map[string]bool{}, map[string]bool{}}
		for k := range outer {
			v.names[k] = true
		}
		if place != "select" {
			v.names[lc(q.head()[0])] = true
		}
		for _, f := range q.From {
			if f.Alias != "" {
				v.names[lc(f.Alias)] = true
				v.own[lc(f.Alias)] = true
			}
		}
		z = append(z, v)
		a, b, c := q.subs()
		for _, s := range a {
			rec(s, "select", v.names)
		}
		for _, s := range append(b, c...) {
			rec(s, "cond", nil)
		}
	}
	rec(q, "primary", nil)
	return z
}

func injScope(g *G, c *InjCase) {
	ss, vs := sites(c.Q), visible(c.Q)
	cmpWith := func(r *Ref) *Cond { return &Cond{Op: "cmp", X: fld(r), Cmp: "=", Y: intLit()} }
	switch g.w(4, 5, 2, 3, 2) {
	case 4: // a filter on an object two levels up
		type use struct {
			at int
			p  Path
		}
		var us []use
		m := buildModel(c.Q, "primary", nil)
		i := 0
		var rec func(m *M)
		rec = func(m *M) {
			at := i
			i++
			if m.Place == "select" && m.Parent.Place == "select" {
				for p := m.Parent.Parent; p != nil; p = p.Parent {
					for _, k := range sortedKeys(p.Objs) {
						x := p.Objs[k]
						if m.Parent.Objs[k] != nil || x.hasPrefix(m.Parent.head()) {
							continue
						}
						us = append(us, use{at, x})
					}
					if p.Place != "select" {
						break
					}
				}
			}
			for _, l := range [][]*M{m.SelSubs, m.WhereSubs, m.HavingSubs} {
				for _, s := range l {
					rec(s)
				}
			}
		}
		rec(m)
		if len(us) == 0 {
			return
		}
		u := pick(g, us)
		for i, x := range u.p {
			if vs[u.at].own[lc(x)] || i > 0 && vs[u.at].names[lc(x)] {
				return
			}
		}
		pos, fn := g.bits(4), g.p(30)
		// also a field that other parts of the query use
		names := []string{"Zg__c", "Zg__c"}
		c.Q.walkQueries(func(q *Query) {
			q.walkOwnItems(func(it *Item, _ string, _ bool) {
				if it.Kind == "field" && it.Ref.Obj.key() == u.p.key() {
					names = append(names, it.Ref.Field)
				}
			})
		})
		r := absRef(&Ref{Obj: u.p, Field: pick(g, names)})
		mk := func(r *Ref) *Query {
			return editAt(c.Q, u.at, func(s site) {
				it := fld(r)
				if fn {
					it = call("fnz", it)
				}
				s.q.Where = addCmpAt(s.q.Where, &Cond{Op: "cmp", X: it, Cmp: "=", Y: intLit()}, pos)
			})
		}
		c.Kind = "a filter on an object two levels above a subquery"
		c.Bad, c.Good = mk(r), mk(bare(ss[u.at].q, "Zg__c"))
	case 1: // a name that is not visible
		type use struct {
			at   int
			name string
		}
		var us []use
		for i, s := range ss {
			words := pathWords(s.q)
			for j, v := range vs {
				if i == j {
					continue
				}
				for _, n := range sortedKeys(v.own) {
					if !vs[i].names[n] && !words[n] {
						us = append(us, use{i, n})
					}
				}
			}
		}
		if len(us) == 0 {
			return
		}
		u := pick(g, us)
		inSel := g.p(40) && !isAgg(ss[u.at].q)
		pos := g.bits(4)
		c.Kind = "leak"
		c.Good = editAt(c.Q, u.at, func(s site) {
			r := &Ref{Obj: s.q.head().add(u.name), Field: "Leak__c", Parts: []string{u.name, "Leak__c"}}
			if inSel {
				insertItem(s.q, pos%(len(s.q.Items)+1), fld(r))
			} else {
				s.q.Where = addCmpAt(s.q.Where, cmpWith(r), pos)
			}
		})
	case 2: // qualified primary object
		at := g.choose(c.Q, func(s site) bool { return s.place != "select" })
		c.Kind = "a primary object with a qualified name"
		n := 1 + g.u(2)
		c.Bad = editAt(c.Q, at, func(s site) {
			f := s.q.From[0]
			for i := 0; i < n; i++ {
				f.Parts = append(f.Parts, "Zrel"+itoa(i))
			}
		})
	case 3: // items of other objects of the enclosing query
		type use struct {
			at int
			p  Path
		}
		var us []use
		m := buildModel(c.Q, "primary", nil)
		var rec func(m *M)
		i := 0
		rec = func(m *M) {
			at := i
			i++
			if m.Place == "select" {
				// a path beside the one of the subquery
				if h := m.head(); len(h) > 2 || len(h) == 2 && g.p(30) {
					j := 1 + g.u(len(h)-1)
					z := append(Path{}, h...)
					z[j] = "Zbeside__r"
					bad := false
					for k, x := range z {
						bad = bad || vs[at].own[lc(x)] || k > 0 && vs[at].names[lc(x)]
					}
					if !bad {
						us = append(us, use{at, z}, use{at, z}, use{at, z.add("Zrel__r")})
					}
				}
				for p := m.Parent; p != nil; p = p.Parent {
					for _, k := range sortedKeys(p.Objs) {
						o := p.Objs[k]
						bad := o.hasPrefix(m.head())
						for _, x := range o {
							bad = bad || vs[at].own[lc(x)]
						}
						if !bad {
							us = append(us, use{at, o}, use{at, o.add("Zrel__r")})
						}
					}
					if p.Place != "select" {
						break
					}
				}
			}
			for _, l := range [][]*M{m.SelSubs, m.WhereSubs, m.HavingSubs} {
				for _, s := range l {
					rec(s)
				}
			}
		}
		rec(m)
		if len(us) == 0 {
			return
		}
		u := pick(g, us)
		// the head's own prefix chain must not be confused with a descendant
		pos, form := g.bits(4), g.u(4)
		name := "Zf__c"
		if h := ss[u.at].q.head(); g.p(40) && len(h) > 1 {
			// a field that has the name of a step of the subquery's own relationship
			name = h[len(h)-1]
			if h.hasPrefix(u.p) && len(h) > len(u.p) && g.p(70) {
				name = h[len(u.p)]
			}
		}
		r := absRef(&Ref{Obj: u.p, Field: name})
		mk := func(r *Ref) *Query {
			return editAt(c.Q, u.at, func(s site) {
				q := s.q
				it := fld(r)
				switch {
				case form == 1:
					it = call("fnz", it)
				case form == 2:
					it = call("fnz", intLit(), call("fny", bareItem(q), it))
				case form == 3:
					it = &Item{Kind: "fset", Fn: "FIELDS", Ref: r}
				}
				insertItem(q, pos%(len(q.Items)+1), it)
			})
		}
		c.Kind = "an item of another object of the enclosing query in the select list"
		if isAgg(ss[u.at].q) {
			c.Kind = ""
			return
		}
		c.Bad = mk(r)
		if form != 3 {
			c.Good = mk(bare(ss[u.at].q, "Zf__c"))
		}
	}
}

func bareItem(q *Query) *Item { return fld(bare(q, "Zf2__c")) }

func scopeErr(m *M, ps []pairing) error {
	r := m.R
	if m.Place == "select" {
		if r.Parent != m.Parent.R {
			return fmt.Errorf("the parent is not the enclosing query")
		}
	} else if r.Parent != nil {
		return fmt.Errorf("the query has a parent")
	}
	if r.IsCorelated != (m.Place == "select" && len(m.OuterNeed) > 0) {
		return fmt.Errorf("correlated: %v, but %d references to the enclosing query", r.IsCorelated, len(m.OuterNeed))
	}
	if len(r.From) == 0 || !eqFoldPath(r.From[0].Name, m.head()) {
		return fmt.Errorf("the primary object is not %s", dot(m.head()))
	}
	if m.Place != "select" && len(r.From[0].Name) != 1 {
		return fmt.Errorf("the primary object is qualified")
	}
	// objects belong to the query that uses them
	for i := range r.From {
		if m.Objs[nkey(r.From[i].Name)] == nil {
			return fmt.Errorf("object %s is not used by the query", dot(r.From[i].Name))
		}
	}
	// fields of outer objects are part of the enclosing query
	for k := range m.OuterNeed {
		n := 0
		for i := range m.Parent.R.Fields {
			if nkey(m.Parent.R.Fields[i].Name) == k {
				n++
			}
		}
		if n == 0 {
			return fmt.Errorf("the enclosing query lacks the field %s of a correlated subquery", dot(m.OuterNeed[k].full()))
		}
	}
	return nil
}

func checkP15(c InjCase, o *Obs) error {
	labelQuery(o, c.Q)
	if c.Q.countQueries() > 1 {
		o.nt()
	}
	if err := forEach(c.qc(), scopeErr); err != nil {
		return err
	}
	if c.Kind == "leak" {
		o.label("name of another scope")
		if err := forEach(QCase{Q: c.Good, Layout: c.Layout}, scopeErr); err != nil {
			return fmt.Errorf("%s: %v", layout(tokens(c.Good), c.Layout), err)
		}
		return nil
	}
	return c.injected(o)
}
