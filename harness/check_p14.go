package main

import (
	"fmt"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

func init() {
	defProp("P14",
		"generated queries, half of them aggregations, with counts at any nesting and position; IsAggregation and Aggregated flags are compared with the rule; then either the select items are permuted (same flags expected), or one rule is broken by an edit of the query (20 kinds) which must be rejected while a corresponding harmless edit is accepted; non-trivial: an aggregation, or a broken rule",
		70000, 6000000,
		genInj(func(g *G) Opts {
			o := defOpts()
			o.Agg, o.Func, o.SelSub, o.CondSub = 60, 30, 18, 12
			o.MaxItems = 5
			o.OffLim, o.For = 5, 3
			return o
		}, injAgg), checkP14, showInj)
}

// spellings of the same field that hold in any scope: bare (head only) or absolute.
func absRef(r *Ref) *Ref {
	z := &Ref{Obj: r.Obj, Field: r.Field}
	for _, x := range r.full() {
		z.Parts = append(z.Parts, tokenName(x))
	}
	return z
}

func injAgg(g *G, c *InjCase) {
	if g.p(20) {
		c.Kind = "permute"
		i := g.choose(c.Q, func(s site) bool { return len(s.q.Items) > 1 })
		if i < 0 {
			c.Kind = ""
			return
		}
		n := len(sites(c.Q)[i].q.Items)
		a, b := g.u(n), g.u(n)
		c.Good = editAt(c.Q, i, func(s site) {
			q := s.q
			q.Items[a], q.Items[b] = q.Items[b], q.Items[a]
			for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
				for _, k := range ks {
					if k.Ref == nil && k.Item == a {
						k.Item = b
					} else if k.Ref == nil && k.Item == b {
						k.Item = a
					}
				}
			}
		})
		return
	}
	if g.p(15) {
		return
	}
	agg := func(s site) bool { return isAgg(s.q) }
	grouped := func(s site) bool { return len(s.q.GroupBy) > 0 }
	plain := func(s site) bool { return !isAgg(s.q) }
	any := func(s site) bool { return true }
	up := func(f string) string { return g.caseOf(f) }
	f1 := func(q *Query) *Item { return fld(bare(q, "Zf1__c")) }
	f2 := func(q *Query) *Item { return fld(bare(q, "Zf2__c")) }

	// edit inserts the item at a random position of a suitable query.
	edit := func(kind string, ok func(s site) bool, bad, good func(q *Query) *Item) bool {
		at := g.choose(c.Q, ok)
		if at < 0 {
			return false
		}
		k := g.u(len(sites(c.Q)[at].q.Items) + 1)
		c.Kind = kind
		c.Bad = editAt(c.Q, at, func(s site) { insertItem(s.q, k, bad(s.q)) })
		if good != nil {
			c.Good = editAt(c.Q, at, func(s site) { insertItem(s.q, k, good(s.q)) })
		}
		return true
	}
	// editCond adds a comparison.
	editCond := func(kind, clause string, ok func(s site) bool, bad, good func(q *Query) *Item) bool {
		at := g.choose(c.Q, ok)
		if at < 0 {
			return false
		}
		rhs := clause == "where" && g.p(25)
		v := g.bits(8)
		mk := func(f func(q *Query) *Item) *Query {
			return editAt(c.Q, at, func(s site) {
				n := &Cond{Op: "cmp", X: f(s.q), Cmp: ">", Y: intLit()}
				if rhs {
					n.X, n.Y = f1(s.q), f(s.q)
				}
				if clause == "where" {
					s.q.Where = addCmpAt(s.q.Where, n, v)
				} else {
					s.q.Having = addCmpAt(s.q.Having, n, v)
				}
			})
		}
		c.Kind = kind
		c.Bad = mk(bad)
		if good != nil {
			c.Good = mk(good)
		}
		return true
	}
	wrap := func(f func(q *Query) *Item) func(q *Query) *Item {
		n := g.u(3)
		return func(q *Query) *Item {
			it := f(q)
			for i := 0; i < n; i++ {
				it = call("fmt"+itoa(i), it)
			}
			return it
		}
	}
	cnt := up(pick(g, []string{"count", "COUNT", "Count"}))
	cntd := up("count_distinct")
	fields := pick(g, []string{"FIELDS", "fields", "Fields"})
	maxOf := func(q *Query) *Item { return call("max", f1(q)) }
	for try := 0; try < 6; try++ {
		done := false
		switch g.u(18) {
		case 0:
			if g.p(50) {
				done = edit("an ungrouped field is selected in an aggregation", agg, f1, maxOf)
				break
			}
			// a field that is close to one of the grouping items
			k, how := g.u(8), g.u(6)
			near := func(q *Query) *Item {
				m := buildModel(q, "primary", nil)
				taken := map[string]bool{}
				for _, key := range q.GroupBy {
					if r, _ := m.keyTarget(key); r != nil {
						taken[r.full().key()] = true
					}
				}
				r, _ := m.keyTarget(q.GroupBy[k%len(q.GroupBy)])
				if r == nil {
					return f1(q)
				}
				z := &Ref{Obj: r.Obj, Field: r.Field}
				switch how {
				case 0: // an item of the relationship that has its name
					z = &Ref{Obj: r.full(), Field: "Id"}
				case 1: // its relationship
					if len(r.Obj) > 1 {
						z = &Ref{Obj: r.Obj[:len(r.Obj)-1], Field: r.Obj[len(r.Obj)-1]}
					}
				case 2: // its name in another object
					z.Obj = r.Obj.add("Zrel")
				case 3: // its name in the primary object
					z.Obj = q.head()
				case 4: // a longer name
					z.Field += "2"
				default: // a shorter name
					if n := len(z.Field) - 1; n > 0 && z.Field[n] < 0x80 {
						z.Field = z.Field[:n]
					}
				}
				if taken[z.full().key()] {
					return f1(q)
				}
				return fld(absRef(z))
			}
			done = edit("an ungrouped field is selected in an aggregation", func(s site) bool { return grouped(s) && s.place != "select" }, near, maxOf)
		case 1:
			done = edit("a subquery is selected in an aggregation", func(s site) bool { return agg(s) }, func(q *Query) *Item {
				return &Item{Kind: "sub", Sub: &Query{Items: []*Item{{Kind: "field", Ref: &Ref{Obj: q.head().add("Zsubs"), Field: "Id", Parts: []string{"Id"}}}},
					From: []*FromObj{{Path: q.head().add("Zsubs"), Parts: []string{"Zsubs"}}}}}
			}, maxOf)
		case 2:
			done = edit("FIELDS() is selected in an aggregation", agg, func(q *Query) *Item {
				return &Item{Kind: "fset", Fn: fields, Ref: bare(q, "ALL")}
			}, maxOf)
		case 3, 4:
			fn := pick(g, []string{cnt, cntd})
			done = editCond("a count in WHERE", "where", any, wrap(func(q *Query) *Item { return call(fn, f1(q)) }),
				wrap(func(q *Query) *Item { return call("fnz", f1(q)) }))
		case 5:
			done = editCond("COUNT() in WHERE", "where", any, wrap(func(q *Query) *Item { return call(cnt) }),
				wrap(func(q *Query) *Item { return call("fnz") }))
		case 6:
			done = editCond("FIELDS() in WHERE", "where", any, wrap(func(q *Query) *Item { return call(fields, fld(bare(q, "ALL"))) }),
				wrap(func(q *Query) *Item { return call("fnz", fld(bare(q, "ALL"))) }))
		case 7:
			done = editCond("FIELDS() in HAVING", "having", grouped, wrap(func(q *Query) *Item { return call(fields, fld(bare(q, "ALL"))) }),
				wrap(func(q *Query) *Item { return call("fnz", fld(bare(q, "ALL"))) }))
		case 8, 9:
			// a count with wrong arguments in an aggregation, in select or having
			args := g.u(5)
			fn, bad := cnt, func(q *Query) *Item { return nil }
			switch args {
			case 0:
				bad = func(q *Query) *Item { return call(fn, f1(q), f2(q)) }
			case 1:
				bad = func(q *Query) *Item { return call(fn, intLit()) }
			case 2:
				bad = func(q *Query) *Item { return call(fn, call("fnz", f1(q))) }
			case 3:
				fn = cntd
				bad = func(q *Query) *Item { return call(fn, f1(q), f2(q)) }
			default:
				fn = cntd
				bad = func(q *Query) *Item { return call(fn, intLit()) }
			}
			good := wrap(func(q *Query) *Item { return call(fn, f1(q)) })
			k := "a count with wrong arguments"
			if g.p(50) {
				done = edit(k, agg, wrap(bad), good)
			} else {
				done = editCond(k+" in HAVING", "having", grouped, wrap(bad), good)
			}
		case 10:
			k := "COUNT_DISTINCT() without an argument"
			bad, good := wrap(func(q *Query) *Item { return call(cntd) }), wrap(func(q *Query) *Item { return call(cntd, f1(q)) })
			done = edit(k, agg, bad, good)
		case 11:
			good := func(q *Query) *Item { return &Item{Kind: "fset", Fn: fields, Ref: bare(q, "ALL")} }
			switch g.u(6) {
			case 4, 5:
				// the object of a field set is one that the query declares
				word := pick(g, []string{"Zunknown__x", "Zunk__r"})
				done = edit("FIELDS() of an unknown object", plain, func(q *Query) *Item {
					r := &Ref{Obj: q.head().add(word), Field: "ALL", Parts: []string{word, "ALL"}}
					if pickSeed := len(q.Items) % 2; pickSeed == 1 {
						r.Parts = append([]string{tokenName(q.head()[0])}, r.Parts...)
						if len(q.head()) > 1 {
							r = absRef(r)
						}
					}
					return &Item{Kind: "fset", Fn: fields, Ref: r}
				}, good)
			case 0:
				done = edit("FIELDS() without an argument", plain, func(q *Query) *Item { return call(fields) }, good)
			case 1:
				done = edit("FIELDS() with two arguments", plain, func(q *Query) *Item { return call(fields, f1(q), f2(q)) }, good)
			case 2:
				done = edit("FIELDS() of a literal", plain, func(q *Query) *Item { return call(fields, intLit()) }, good)
			default:
				done = edit("FIELDS() of a function", plain, func(q *Query) *Item { return call(fields, call("fnz", f1(q))) }, good)
			}
		case 12:
			n := g.u(2)
			done = edit("FIELDS() nested in a function", plain, func(q *Query) *Item {
				it := call("fnz", call(fields, fld(bare(q, "ALL"))))
				for i := 0; i < n; i++ {
					it = call("fny", f1(q), it)
				}
				return it
			}, func(q *Query) *Item { return call("fnz", call("fnx", f1(q))) })
		case 13, 14:
			at := g.choose(c.Q, func(s site) bool { return grouped(s) && s.place != "select" })
			if at < 0 {
				break
			}
			k, pos, form := g.u(8), g.u(8), g.u(3)
			c.Kind = "grouping twice by one field"
			dup := func(f string) func(s site) {
				return func(s site) {
					q := s.q
					m := buildModel(q, "primary", nil)
					r, _ := m.keyTarget(q.GroupBy[k%len(q.GroupBy)])
					if r == nil {
						// a function grouped by its alias
						r = bare(q, "Zg1")
						q.GroupBy = append(q.GroupBy, &Key{Ref: r, Item: -1})
					}
					r = absRef(r)
					r.Field += f
					r.Parts[len(r.Parts)-1] = tokenName(r.Field)
					if len(r.Obj) == 1 && form == 1 {
						r.Parts = r.Parts[1:]
						for _, it := range q.Items {
							if lc(it.Alias) == lc(r.Field) {
								r.Parts = append([]string{tokenName(r.Obj[0])}, r.Parts...)
								break
							}
						}
					}
					if form == 2 {
						for i := range r.Parts {
							r.Parts[i] = tokenName(asciiUpper(unquote(r.Parts[i])))
						}
					}
					i := pos % (len(q.GroupBy) + 1)
					q.GroupBy = append(q.GroupBy[:i:i], append([]*Key{{Ref: r, Item: -1}}, q.GroupBy[i:]...)...)
				}
			}
			c.Bad = editAt(c.Q, at, dup(""))
			c.Good = editAt(c.Q, at, dup("Zz"))
			done = true
		case 15, 16:
			at := g.choose(c.Q, func(s site) bool {
				if isAgg(s.q) {
					return false
				}
				for _, it := range s.q.Items {
					if it.Kind == "field" || it.Kind == "fset" || it.Kind == "sub" {
						return true
					}
				}
				return false
			})
			if at < 0 {
				break
			}
			k := g.u(len(sites(c.Q)[at].q.Items) + 1)
			it := func(q *Query) *Item { return call(cnt) }
			if g.p(50) {
				it = wrap(func(q *Query) *Item { return call(cntd, f1(q)) })
			}
			c.Kind = "a count besides plain items without GROUP BY"
			c.Bad = editAt(c.Q, at, func(s site) { insertItem(s.q, k, it(s.q)) })
			done = true
		default:
			// grouping added to a query whose fields are not grouped
			at := g.choose(c.Q, func(s site) bool {
				if isAgg(s.q) {
					return false
				}
				for _, it := range s.q.Items {
					if it.Kind == "field" {
						return true
					}
				}
				return false
			})
			if at < 0 {
				break
			}
			c.Kind = "GROUP BY does not cover the selected fields"
			c.Bad = editAt(c.Q, at, func(s site) { s.q.GroupBy = []*Key{{Ref: bare(s.q, "Zg1"), Item: -1}} })
			done = true
		}
		if done {
			return
		}
	}
}

func addCmpAt(c, n *Cond, v int) *Cond {
	if c == nil {
		return n
	}
	if v&8 != 0 {
		n = &Cond{Op: "not", L: n}
	}
	op := "and"
	if v&1 != 0 {
		op = "or"
	}
	if v&6 == 2 && c.Op != "cmp" && c.Op != "not" {
		z := *c
		z.R = addCmpAt(c.R, n, v)
		return &z
	}
	if v&4 != 0 {
		return &Cond{Op: op, L: n, R: c}
	}
	return &Cond{Op: op, L: c, R: n}
}

// aggFlagErr compares the aggregation flags of a function call.
func aggFlagErr(where string, it *Item, f *FI, on bool, o *Obs) error {
	if it.Kind != "func" {
		return nil
	}
	fn := lc(it.Fn)
	direct, nested := false, false
	for _, a := range it.Args {
		direct = direct || a.Kind == "field"
		nested = nested || a.Kind == "func"
	}
	count := fn == "count" || fn == "count_distinct"
	want := on && (count || direct)
	if count || !(direct && nested) {
		if f.Aggregated != want {
			return fmt.Errorf("%s: %s: aggregated %v instead of %v", where, renderItem(it), f.Aggregated, want)
		}
		if want {
			o.label("aggregated function")
		}
	}
	for i, a := range it.Args {
		if err := aggFlagErr(where, a, &f.Parameters[i], on, o); err != nil {
			return err
		}
	}
	return nil
}

func checkP14(c InjCase, o *Obs) error {
	labelQuery(o, c.Q)
	flags := func(q QCase, o *Obs) error {
		return forEach(q, func(m *M, ps []pairing) error {
			if m.R.IsAggregation != m.Agg {
				return fmt.Errorf("aggregation: %v instead of %v", m.R.IsAggregation, m.Agg)
			}
			if m.Agg {
				o.nt()
				o.label("aggregation")
				o.labelIf(len(m.Q.GroupBy) == 0, "aggregation without group by")
			}
			for _, p := range ps {
				if p.arg || p.it == nil || p.key != nil {
					continue
				}
				on := m.Agg && p.clause == "select" || p.clause == "having"
				if err := aggFlagErr(p.where, p.it, p.f, on, o); err != nil {
					return err
				}
				if p.f.Type == types.SoqlFieldInfo_Field && p.f.Aggregated {
					return fmt.Errorf("%s: a plain field is marked as aggregated", p.where)
				}
			}
			return nil
		})
	}
	if err := flags(c.qc(), o); err != nil {
		return err
	}
	if c.Kind == "permute" {
		o.label("permuted")
		if err := flags(QCase{Q: c.Good, Layout: c.Layout}, &Obs{}); err != nil {
			return fmt.Errorf("permuted: %s: %v", render(c.Good), err)
		}
		return nil
	}
	if c.Bad != nil {
		o.nt()
	}
	return c.injected(o)
}
