package main

import "strings"

// Complete scopes of small queries. Where a scope contains queries that break a rule, the rule is
// decided by smallRule from the text of the properties; such a query is the Bad of an InjCase.

// smallFrom are the ways to write FROM.
type smallFrom struct{ alias, rAlias string }

var smallFroms = []smallFrom{{"", ""}, {"o", ""}, {"", "w"}, {"o", "-"}}

func (s smallFrom) from() []*FromObj {
	z := []*FromObj{{Path: Path{"c"}, Parts: []string{"c"}, Alias: s.alias}}
	switch s.rAlias {
	case "":
	case "-":
		z = append(z, &FromObj{Path: Path{"c", "r"}, Parts: []string{"o", "r"}})
	default:
		z = append(z, &FromObj{Path: Path{"c", "r"}, Parts: []string{"c", "r"}, Alias: s.rAlias})
	}
	return z
}

// own and rel spell the fields of the objects c and r with a qualifier.
func (s smallFrom) own(f string) []string {
	if s.alias != "" {
		return []string{s.alias, f}
	}
	return []string{"c", f}
}

func (s smallFrom) rel(f string) []string {
	switch {
	case s.rAlias == "w":
		return []string{"w", f}
	case s.alias != "":
		return []string{s.alias, "r", f}
	}
	return []string{"c", "r", f}
}

// smallItem makes the select item of a kind at position i.
const smallItems = 12

func smallItem(kind, i int, s smallFrom) *Item {
	ts := "ts" + itoa(i)
	sub := func(where *Cond, extra ...*Item) *Item {
		p := Path{"c", ts}
		q := &Query{From: []*FromObj{{Path: p, Parts: append(s.own(ts)[:0:0], s.own(ts)...)}}, Where: where}
		q.Items = append([]*Item{{Kind: "field", Ref: &Ref{Obj: p, Field: "t", Parts: []string{"t"}}}}, extra...)
		return sSub(q)
	}
	subRef := func(f string, path ...string) *Item {
		return &Item{Kind: "field", Ref: &Ref{Obj: Path{"c", ts}.add(path...), Field: f, Parts: append(append([]string{}, path...), f)}}
	}
	outer := func(obj Path, f string, parts []string) *Item {
		return &Item{Kind: "field", Ref: &Ref{Obj: obj, Field: f, Parts: parts, Outer: true}}
	}
	switch kind {
	case 0:
		return sField("c", "a")
	case 1:
		return sAs(sField("c", "a"), s.own("a")...)
	case 2:
		return sField("c", "r", "x")
	case 3:
		return sAs(sField("c", "r", "x"), s.rel("x")...)
	case 4:
		return sAlias(sField("c", "a"), "k"+itoa(i))
	case 5:
		return sAlias(sField("c", "r", "x"), "k"+itoa(i))
	case 6:
		return sFn("fn", sField("c", "a"))
	case 7:
		return sAlias(sFn("gn", sField("c", "r", "y"), sInt(i)), "k"+itoa(i))
	case 8:
		return sub(nil)
	case 9:
		return sub(&Cond{Op: "cmp", X: subRef("t"), Cmp: "=", Y: outer(Path{"c"}, "a", s.own("a"))}, subRef("v", "u"))
	case 10:
		if s.rAlias == "" {
			// only declared objects can be referred to from a child
			return sub(&Cond{Op: "cmp", X: outer(Path{"c"}, "b", s.own("b")), Cmp: "<", Y: sInt(i)})
		}
		return sub(&Cond{Op: "cmp", X: subRef("n"), Cmp: "<", Y: outer(Path{"c", "r"}, "x", s.rel("x"))})
	default:
		return sField("c", "b")
	}
}

// smallWhere are conditions of the queries.
const smallWheres = 8

func smallWhere(kind int, s smallFrom) *Cond {
	switch kind {
	case 1:
		return sCmp(0, 0, "c")
	case 2:
		return sCmp(1, 1, "c")
	case 3:
		return sCmp(4, 2, "c")
	case 4:
		return sCmp(3, 3, "c")
	case 5:
		c := sCmp(7, 3, "c")
		c.Y.Sub.Where = &Cond{Op: "cmp", X: sField("d", "p", "e"), Cmp: "=", Y: &Item{Kind: "lit", Lit: &Lit{Kind: "param", Text: ":pa", S: "pa"}}}
		return c
	case 6:
		c := sCmp(1, 4, "c")
		sAs(c.X, s.rel("x")...)
		return &Cond{Op: "and", L: sCmp(0, 0, "c"), R: c}
	case 7:
		return &Cond{Op: "or", L: sCmp(5, 5, "c"), R: &Cond{Op: "not", L: sCmp(7, 9, "c")}}
	}
	return nil
}

func key(it *Item, dir, nulls string) *Key {
	return &Key{Ref: it.Ref, Item: -1, Dir: dir, Nulls: nulls}
}

// smallOrder are the order keys of a kind, nil if it is not possible.
const smallOrders = 6

func smallOrder(kind int, q *Query, s smallFrom) []*Key {
	usesR := len(q.From) > 1
	seen := func(it *Item, clause string, arg bool) {
		if it.Kind == "field" && it.Ref.Obj.key() == (Path{"c", "r"}).key() {
			usesR = true
		}
	}
	q.walkOwnItems(seen)
	alias := -1
	for i, it := range q.Items {
		if it.Alias != "" {
			alias = i
		}
	}
	a := key(sField("c", "a"), "", "")
	switch kind {
	case 1:
		return []*Key{a}
	case 2:
		return []*Key{key(sAs(sField("c", "b"), s.own("b")...), "desc", "last"), a}
	case 3:
		if usesR {
			return []*Key{key(sField("c", "r", "x"), "asc", ""), key(sField("c", "b"), "", "last")}
		}
	case 4:
		if alias >= 0 {
			return []*Key{{Alias: asciiUpper(q.Items[alias].Alias), Item: alias, Dir: "desc"}}
		}
	case 5:
		if usesR {
			return []*Key{key(sField("c", "b"), "desc", ""), key(sAs(sField("c", "r", "y"), s.rel("y")...), "", "first"), a}
		}
	}
	return nil
}

// plainScope yields the queries with up to n items, and all conditions, orders and ways to write FROM.
func plainScope(n int, yield func(c any) bool) bool {
	k := 0
	for size := 1; size <= n; size++ {
		if !digits(size, smallItems, func(ks []int) bool {
			for w := 0; w < smallWheres; w++ {
				for f := range smallFroms {
					for ord := 0; ord < smallOrders; ord++ {
						s := smallFroms[f]
						q := &Query{From: s.from(), Where: smallWhere(w, s)}
						for i, x := range ks {
							q.Items = append(q.Items, smallItem(x, i, s))
						}
						q.OrderBy = smallOrder(ord, q, s)
						if ord > 0 && q.OrderBy == nil {
							continue
						}
						// the rest in turn
						k++
						if k%3 == 0 {
							q.Limit = sInt(7).Lit
						}
						if k%4 == 0 {
							q.Offset = &Lit{Kind: "param", Text: ":po", S: "po"}
							q.OffsetFirst = k%8 == 0
						}
						if k%5 == 0 {
							q.For = &ForC{View: k%2 == 0, Reference: k%2 == 1 || k%3 == 0}
							if k%4 == 0 {
								q.For = &ForC{Update: true, Tracking: k%3 != 0, Viewstat: k%8 == 0, Swap: k%16 == 0}
							}
						}
						if !yield(QCase{Q: q}) {
							return false
						}
					}
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

// aggScope yields grouped queries and counts, valid or not.
const aggItems = 15

func aggItem(kind, i int, s smallFrom) *Item {
	switch kind {
	case 0:
		return sField("c", "a")
	case 1:
		return sAs(sField("c", "a"), s.own("a")...)
	case 2:
		return sField("c", "r", "x")
	case 3:
		return sAlias(sField("c", "a"), "k"+itoa(i))
	case 4:
		return sField("c", "b")
	case 5:
		return sFn("COUNT", sField("c", "id"))
	case 6:
		return sFn("count")
	case 7:
		return sFn("max", sField("c", "a"))
	case 8:
		return sAlias(sFn("min", sField("c", "r", "x")), "k"+itoa(i))
	case 9:
		return sFn("fn", sInt(1), sFn("count_distinct", sField("c", "r", "y")))
	case 10:
		return smallItem(8, i, s)
	case 11:
		return sFn("count", sFn("gn", sField("c", "a")))
	case 12:
		// the aliases are names of fields
		return sAlias(sField("c", "a"), "b")
	case 13:
		return sAlias(sFn("max", sField("c", "r", "x")), "A")
	default:
		return &Item{Kind: "fset", Fn: "fields", Ref: &Ref{Obj: Path{"c"}, Field: "ALL", Parts: []string{"ALL"}}}
	}
}

func aggKey(kind int, q *Query, s smallFrom) *Key {
	bare := func(f string) *Key {
		for i, it := range q.Items {
			if lc(it.Alias) == f {
				return &Key{Alias: f, Item: i}
			}
		}
		return key(sField("c", f), "", "")
	}
	switch kind {
	case 0:
		return bare("a")
	case 1:
		return key(sAs(sField("c", "a"), append(s.own("a")[:1:1], "A")...), "", "")
	case 2:
		return key(sAs(sField("c", "r", "x"), s.rel("x")...), "", "")
	case 3:
		return bare("b")
	case 4:
		return key(sAs(sField("c", "b"), s.own("b")...), "", "")
	}
	for i, it := range q.Items {
		if it.Alias != "" && it.Kind == "field" {
			return &Key{Alias: asciiUpper(it.Alias), Item: i}
		}
	}
	return nil
}

func aggHaving(kind int) *Cond {
	cmp := func(it *Item, n int) *Cond { return &Cond{Op: "cmp", X: it, Cmp: cmpCycle[n], Y: sInt(n)} }
	switch kind {
	case 1:
		return cmp(sFn("count", sField("c", "id")), 5)
	case 2:
		return &Cond{Op: "and", L: &Cond{Op: "not", L: cmp(sFn("max", sField("c", "r", "x")), 0)}, R: cmp(sFn("count"), 1)}
	}
	return nil
}

func aggScope(n, keys int, yield func(q *Query) bool) bool {
	for size := 1; size <= n; size++ {
		if !digits(size, aggItems, func(ks []int) bool {
			for g := 0; g <= keys; g++ {
				if !digits(g, 6, func(gs []int) bool {
					for h := 0; h < 3; h++ {
						s := smallFroms[(size+g+h)%len(smallFroms)]
						q := &Query{From: s.from(), Having: aggHaving(h)}
						for i, x := range ks {
							q.Items = append(q.Items, aggItem(x, i, s))
						}
						for _, x := range gs {
							k := aggKey(x, q, s)
							if k == nil {
								return true
							}
							q.GroupBy = append(q.GroupBy, k)
						}
						if h > 0 && g == 0 {
							return true
						}
						if !yield(q) {
							return false
						}
					}
					return true
				}) {
					return false
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

// smallRule names a rule of P13, P14 or P25 that the query breaks.
func smallRule(q *Query) string {
	m := buildModel(q, "primary", nil)
	al := map[string]bool{}
	for _, it := range q.Items {
		if it.Alias == "" {
			continue
		}
		if al[lc(it.Alias)] {
			return "duplicate column alias"
		}
		al[lc(it.Alias)] = true
	}
	grouped := map[string]bool{}
	for _, k := range q.GroupBy {
		if r, _ := m.keyTarget(k); r != nil {
			if grouped[r.key()] {
				return "grouping twice by one field"
			}
			grouped[r.key()] = true
		} else if k.Ref == nil {
			if grouped["item "+itoa(k.Item)] {
				return "grouping twice by one item"
			}
			grouped["item "+itoa(k.Item)] = true
		}
	}
	for _, it := range q.Items {
		if m.Agg {
			switch it.Kind {
			case "field":
				if !grouped[it.Ref.key()] {
					return "an ungrouped field is selected in an aggregation"
				}
			case "sub":
				return "a subquery is selected in an aggregation"
			case "fset":
				return "FIELDS() is selected in an aggregation"
			}
		}
		if it.Kind == "func" && lc(it.Fn) == "count" && len(it.Args) == 1 && it.Args[0].Kind != "field" {
			return "a count with wrong arguments"
		}
	}
	if len(q.OrderBy) > 0 {
		// objects that are used elsewhere
		z := *q
		z.OrderBy = nil
		objs := buildModel(&z, "primary", nil).Objs
		cols := map[string]bool{}
		for _, k := range q.OrderBy {
			r, _ := m.keyTarget(k)
			c := "item " + itoa(k.Item)
			if r != nil {
				c = r.key()
				if k.Ref != nil {
					if _, ok := objs[r.Obj.key()]; !ok {
						return "ordering by a field of an unused object"
					}
				}
			}
			if cols[c] {
				return "ordering twice by one column"
			}
			cols[c] = true
		}
	}
	return ""
}

var trivial = &Query{Items: []*Item{sField("c", "id")}, From: []*FromObj{sFrom("c")}}

// orBad makes a case of a query that may break a rule.
func orBad(q *Query) InjCase {
	if kind := smallRule(q); kind != "" {
		return InjCase{Q: trivial, Bad: q, Kind: kind}
	}
	return InjCase{Q: q}
}

// enumPlain is the scope of the properties of results: QCases that are valid.
func enumPlain(deep bool, yield func(c any) bool) {
	n, a, g := 2, 2, 2
	if deep {
		n, a, g = 3, 3, 3
	}
	_ = plainScope(n, yield) && aggScope(a, g, func(q *Query) bool { return smallRule(q) != "" || yield(QCase{Q: q}) })
}

func enumP14(deep bool, yield func(c any) bool) {
	one := func(q *Query) bool { return yield(orBad(q)) }
	_ = aggScope(2, 2, one) && aggScope(3, 1, one) && (!deep || aggScope(4, 1, one) && aggScope(3, 3, one))
}

func enumP13(deep bool, yield func(c any) bool) {
	n := 3
	if deep {
		n = 4
	}
	aliases := []string{"", "k", "K", "expr0", "EXPR1", "a"}
	for size := 1; size <= n; size++ {
		if !digits(size, 4*len(aliases), func(ks []int) bool {
			q := &Query{From: []*FromObj{sFrom("c")}}
			named := 0
			for i, x := range ks {
				var it *Item
				switch x % 4 {
				case 0:
					it = sField("c", "a")
				case 1:
					it = sField("c", "b")
				case 2:
					it = sFn("fn", sField("c", "a"), sInt(i))
				default:
					it = sAs(sField("c", "a"), "C", "A")
				}
				it.Alias = aliases[x/4]
				if it.Alias != "" {
					named++
				}
				q.Items = append(q.Items, it)
			}
			if !yield(orBad(q)) {
				return false
			}
			// every alias as a key, alone
			for i, it := range q.Items {
				if it.Alias == "" {
					continue
				}
				z := *q
				z.OrderBy = []*Key{{Alias: asciiUpper(it.Alias), Item: i}}
				if smallRule(&z) == "" && !yield(InjCase{Q: &z}) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
}

func enumP25(deep bool, yield func(c any) bool) {
	const kinds = 7
	item := func(kind, i int, s smallFrom) *Item {
		switch kind {
		case 0:
			return sField("c", "a")
		case 1:
			return sAlias(sField("c", "a"), "k"+itoa(i))
		case 2:
			return sField("c", "r", "x")
		case 3:
			return sAlias(sField("c", "r", "x"), "k"+itoa(i))
		case 4:
			return sAlias(sFn("fn", sField("c", "b")), "k"+itoa(i))
		case 5:
			return sField("c", "b")
		default:
			return sFn("fn", sField("c", "q", "z"))
		}
	}
	const keyKinds = 10
	mk := func(kind int, q *Query, s smallFrom) *Key {
		switch kind {
		case 0:
			return key(sField("c", "a"), "", "")
		case 1:
			return key(sAs(sField("c", "a"), s.own("A")...), "desc", "")
		case 2:
			return key(sField("c", "r", "x"), "", "last")
		case 3:
			return key(sAs(sField("c", "r", "x"), s.rel("X")...), "", "")
		case 4:
			return key(sField("c", "b"), "asc", "first")
		case 5:
			return key(sField("c", "q", "z"), "", "")
		case 6:
			return key(sField("c", "r", "s", "x"), "", "")
		case 7:
			return key(sAs(sField("c", "r", "y"), s.rel("y")...), "", "")
		case 8, 9:
			n := kind - 8
			for i, it := range q.Items {
				if it.Alias != "" {
					if n == 0 {
						return &Key{Alias: asciiUpper(it.Alias), Item: i}
					}
					n--
				}
			}
		}
		return nil
	}
	scope := func(items, keys int) bool {
		for size := 1; size <= items; size++ {
			if !digits(size, kinds, func(ks []int) bool {
				for n := 1; n <= keys; n++ {
					if !digits(n, keyKinds, func(os []int) bool {
						for f, s := range smallFroms {
							q := &Query{From: s.from()}
							for i, x := range ks {
								q.Items = append(q.Items, item(x, i, s))
							}
							if (f+n+ks[0])%2 == 1 {
								q.Where = sCmp(5, 0, "c") // r.s.y
							}
							for _, x := range os {
								k := mk(x, q, s)
								if k == nil {
									return true
								}
								q.OrderBy = append(q.OrderBy, k)
							}
							if !yield(orBad(q)) {
								return false
							}
						}
						return true
					}) {
						return false
					}
				}
				return true
			}) {
				return false
			}
		}
		return true
	}
	_ = scope(1, 3) && scope(2, 2) && (!deep || scope(2, 3) && scope(3, 2) && scope(1, 4))
}

func init() {
	const small = "all queries with up to 2 (thorough: 3) of 12 kinds of select items (fields in several spellings, aliases, functions, child queries with and without correlation) with each of 8 conditions, 6 orders and 4 ways to write FROM, and all valid groupings of up to 2 of 15 kinds of items"
	for _, x := range []struct {
		ids  string
		rule string
		f    func(deep bool, yield func(c any) bool)
	}{
		{"P02 P08 P09 P10 P11 P16 P17 P18", small, enumPlain},
		{"P26", small + ", as children and, with conditional subqueries, on their own", enumP26},
		{"P03", "all AND/OR trees of up to 6 (8) comparisons in WHERE and HAVING, up to 3 (4) comparisons of 9 kinds", enumP03},
		{"P04", "all AND/OR trees of up to 4 (5) comparisons with up to one NOT before each node, up to 3 (4) with up to two, and with 9 kinds of comparisons", enumP04},
		{"P12", "all AND/OR/NOT trees of up to 4 (6) comparisons over up to 9 kinds of operands and objects", enumP12},
		{"P13", "all lists of up to 3 (4) items of 24 kinds (fields, spellings and functions with equal, differently cased and generated-like aliases), each alias also as a key; valid or not", enumP13},
		{"P14", "all lists of up to 2 of 15 kinds of items with all lists of up to 2 of 6 kinds of grouping keys and 3 HAVING clauses, 3 items with one key (4 with one, 3 with three); valid or not", enumP14},
		{"P15", "a child in each place with all of its items, conditions and grandchildren that refer to everything visible or not (16 kinds of items, 8 of conditions, 8 of grandchildren, 7 heads in 4 kinds of enclosing queries; thorough: pairs of items)", enumP15},
		{"P21", "all sequences of up to 4 to 6 (5 to 8) words, or of bytes in spellings, at each of " + itoa(len(wordScopes)) + " places of a query", eachText},
		{"P25", "all lists of up to 2 keys of 10 kinds with up to 2 of 7 kinds of items, up to 3 keys with one item (3 with 2, 4 with 1), in 4 ways to write FROM; valid or not", enumP25},
	} {
		for _, id := range strings.Fields(x.ids) {
			enums[id] = x.f
			registry[id].Rule += "; before these, a complete small scope: " + x.rule
		}
	}
}

// enums are the complete scopes by property: each yields all cases of a small scope, in order of size;
// deep: of a larger one (thorough). The cases are divided among the workers.
var enums = map[string]func(deep bool, yield func(c any) bool){}

// enumP15 yields a query with a child (and a grandchild), with references to everything that is visible or not.
func enumP15(deep bool, yield func(c any) bool) {
	type opt struct {
		it  *Item
		bad string
	}
	ref := func(obj Path, f string, parts ...string) *Item {
		return &Item{Kind: "field", Ref: &Ref{Obj: obj, Field: f, Parts: parts}}
	}
	outer := func(obj Path, f string, parts ...string) *Item {
		z := ref(obj, f, parts...)
		z.Ref.Outer = true
		return z
	}
	const ownOnly = "an item of another object of the enclosing query in the select list"
	const tooFar = "a filter on an object two levels above a subquery"
	n := 1
	if deep {
		n = 2
	}
	k := 0
	for _, s := range smallFroms {
		// the child: its path and the ways to write it
		type head struct {
			p     Path
			parts []string
		}
		c, r := Path{"c"}, Path{"c", "r"}
		heads := []head{{Path{"c", "ts"}, []string{"ts"}}, {Path{"c", "ts"}, s.own("ts")}, {Path{"c", "ts"}, []string{"C", "TS"}}}
		if s.rAlias != "" {
			heads = append(heads, head{Path{"c", "r", "us"}, s.rel("us")})
		}
		for _, h := range heads {
			for _, alias := range []string{"", "z"} {
				abs := func(f ...string) []string { return append(append([]string{}, h.p...), f...) }
				// items of the child
				items := []opt{{ref(h.p, "t", "t"), ""}, {ref(h.p, "t", abs("t")...), ""}, {ref(h.p.add("u"), "v", "u", "v"), ""},
					{ref(h.p.add("u", "w2"), "v", abs("u", "w2", "v")...), ""}, {sFn("fn", ref(h.p, "t", "t"), ref(h.p.add("u"), "v", "u", "v")), ""},
					// a name that is not declared is a relationship of the child
					{ref(h.p.add("zz"), "t", "zz", "t"), ""}, {ref(h.p.add("ts"), "t", "ts", "t"), ""},
					{ref(c, "a", s.own("a")...), ownOnly}, {ref(c, "ts", s.own("ts")...), ownOnly}, {sFn("fn", sInt(1), ref(c, "a", s.own("a")...)), ownOnly},
					{ref(Path{"c", "qs"}, "a", append(s.own("qs"), "a")...), ownOnly}, {sAlias(ref(Path{"c", "ts2"}, "t", append(s.own("ts2"), "t")...), "k"), ownOnly},
					{sAlias(ref(r, "x", s.rel("x")...), "k"), ownOnly}, {sFn("fn", sFn("gn", ref(r, "x", s.rel("x")...))), ownOnly}}
				// operands of its condition
				conds := []opt{{nil, ""}, {ref(h.p, "t", "t"), ""}, {ref(h.p.add("u"), "v", abs("u", "v")...), ""}, {outer(c, "a", s.own("a")...), ""},
					{sFn("fn", sInt(1), outer(c, "b", "c", "b")), ""}, {ref(h.p.add("zz"), "x", "zz", "x"), ""}}
				if s.rAlias != "" {
					conds = append(conds, opt{outer(r, "x", s.rel("x")...), ""}, opt{sFn("fn", outer(r, "y", "c", "r", "y")), ""})
				}
				if alias != "" {
					items = append(items, opt{ref(h.p, "t", "z", "t"), ""}, opt{ref(h.p.add("u"), "v", "Z", "u", "v"), ""})
					conds = append(conds, opt{ref(h.p, "t", "Z", "t"), ""}, opt{sFn("fn", ref(h.p.add("u"), "v", "z", "u", "v")), ""})
				} else {
					items = append(items, opt{ref(h.p.add("z"), "t", "z", "t"), ""})
				}
				if s.rAlias != "w" {
					items = append(items, opt{ref(h.p.add("w"), "t", "w", "t"), ""})
					conds = append(conds, opt{ref(h.p.add("w"), "t", "w", "t"), ""})
				}
				// grandchildren
				gp := h.p.add("gs")
				grand := []opt{{nil, ""}}
				mkG := func(item, cond *Item, bad string) {
					q := &Query{Items: []*Item{item}, From: []*FromObj{{Path: gp, Parts: []string{"gs"}}}}
					if cond != nil {
						q.Where = &Cond{Op: "cmp", X: cond, Cmp: "=", Y: sInt(1)}
					}
					grand = append(grand, opt{sSub(q), bad})
				}
				g := ref(gp, "g", "g")
				mkG(g, nil, "")
				mkG(g, outer(h.p, "t", abs("t")...), "")
				mkG(g, ref(c, "a", s.own("a")...), tooFar)
				mkG(g, sFn("fn", ref(c, "a", s.own("a")...)), tooFar)
				mkG(ref(h.p, "t", abs("t")...), nil, ownOnly)
				mkG(ref(c, "a", s.own("a")...), nil, ownOnly)
				if alias != "" {
					mkG(g, outer(h.p, "n", "z", "n"), "")
					mkG(ref(h.p, "t", "z", "t"), nil, ownOnly)
				}
				// beside the child: names of other scopes
				beside := []*Item{sField("c", "id"), ref(Path{"c", "zz"}, "x", "zz", "x"), ref(Path{"c", "ts"}, "x", "ts", "x"),
					sSub(&Query{Items: []*Item{ref(Path{"c", "ks"}, "t", "t")}, From: []*FromObj{{Path: Path{"c", "ks"}, Parts: []string{"ks"}}},
						Where: &Cond{Op: "cmp", X: ref(Path{"c", "ks", "zz"}, "t", "zz", "t"), Cmp: "<", Y: sInt(1)}})}
				if alias != "" {
					beside[1].Ref = &Ref{Obj: Path{"c", "z"}, Field: "x", Parts: []string{"z", "x"}}
					x := beside[3].Sub.Where.X
					x.Ref = &Ref{Obj: Path{"c", "ks", "z"}, Field: "t", Parts: []string{"z", "t"}}
				}
				if h.p[len(h.p)-1] == "ts" {
					beside = append(beside[:2], beside[3])
				}
				// a conditional subquery names none of them
				dq := func(parts ...string) *Cond {
					f := len(parts) - 1
					return &Cond{Op: "cmp", X: sField("c", "id"), Cmp: "in", Y: sSub(&Query{Items: []*Item{sField("d", "e")}, From: []*FromObj{sFrom("d")},
						Where: &Cond{Op: "cmp", X: &Item{Kind: "field", Ref: &Ref{Obj: Path{"d"}.add(parts[:f]...), Field: parts[f], Parts: parts}}, Cmp: "=", Y: sInt(1)}})}
				}
				wheres := []*Cond{nil, dq("c", "a"), dq("z", "t"), dq("o", "r", "x"), dq("w", "x")}
				for size := 1; size <= n; size++ {
					if !digits(size, len(items), func(is []int) bool {
						for _, cd := range conds {
							for _, gr := range grand {
								k++
								bad := ""
								q := &Query{From: []*FromObj{{Path: h.p, Parts: h.parts, Alias: alias}}}
								ks := 0
								for _, i := range is {
									if bad == "" {
										bad = items[i].bad
									}
									if items[i].it.Alias != "" {
										ks++
									}
									q.Items = append(q.Items, items[i].it)
								}
								if ks > 1 {
									continue
								}
								if cd.it != nil {
									q.Where = &Cond{Op: "cmp", X: cd.it, Cmp: cmpCycle[k%len(cmpCycle)], Y: sInt(k)}
								}
								if gr.it != nil {
									q.Items = append(q.Items, gr.it)
									if bad == "" {
										bad = gr.bad
									}
								}
								for _, b := range []int{k % len(beside), (k + 1) % len(beside)} {
									z := &Query{From: s.from(), Where: wheres[(k+b)%len(wheres)], Items: []*Item{beside[b], sSub(q)}}
									if k%2 == b%2 {
										z.Items[0], z.Items[1] = z.Items[1], z.Items[0]
									}
									x := InjCase{Q: z}
									if bad != "" {
										x = InjCase{Q: trivial, Bad: z, Kind: bad}
									}
									if !yield(x) {
										return false
									}
								}
							}
						}
						return true
					}) {
						return
					}
				}
			}
		}
	}
}

// enumP26 yields the small queries as children, and those with conditional subqueries on their own.
func enumP26(deep bool, yield func(c any) bool) {
	k := 0
	enumPlain(deep, func(c any) bool {
		q := c.(QCase).Q
		k++
		if _, a, b := q.subs(); len(a)+len(b) > 0 && !yield(EmbedCase{Q: q}) {
			return false
		}
		z := cloneQuery(q)
		return !childOK(z) || yield(EmbedCase{Q: z, Child: true, Pick: k})
	})
}
