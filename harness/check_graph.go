package main

import (
	"fmt"
	"reflect"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

func nestOpts() Opts {
	o := defOpts()
	o.MaxQueries, o.SelSub, o.CondSub, o.MaxNest = 7, 22, 12, 4
	o.Corr, o.Agg = 35, 14
	return o
}

func init() {
	defProp("P08",
		"generated queries with many related objects, spellings and nested subqueries; the expected object set of each query is the closure of the declared and referenced paths; non-trivial: some query has at least three objects or the case has a subquery",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := nestOpts()
			o.FromMore, o.RelPath, o.NewRel = 50, 60, 50
			return qcase(o, true)(t)
		}, checkP08, showQ)
	defProp("P09",
		"generated queries whose clauses share fields under different spellings, aliases and repetitions, with correlated and sibling subqueries; non-trivial: some column is referenced at least three times",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := nestOpts()
			o.DupItem, o.OrderBy, o.Agg = 30, 70, 30
			return qcase(o, true)(t)
		}, checkP09, showQ)
	defProp("P10",
		"generated queries; the expected additional fields are the set of all fields referred to minus the selected ones; non-trivial: a field is needed by a clause but not selected, and another one is both",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := nestOpts()
			o.DupItem, o.OrderBy, o.Func = 25, 65, 30
			return qcase(o, true)(t)
		}, checkP10, showQ)
	defProp("P11",
		"generated queries; each per-object query is compared with the projection of the whole query to the object; non-trivial: fields of at least two objects, or order keys of two objects",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := defOpts()
			o.MaxItems, o.RelPath, o.OrderBy, o.OffLim, o.For, o.DupItem, o.FieldSet = 7, 55, 75, 50, 35, 20, 12
			return qcase(o, true)(t)
		}, checkP11, showQ)
	defProp("P16",
		"generated queries with up to 8 nested queries of all kinds; the graphs are compared with the generated nesting; non-trivial: at least two subqueries",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := nestOpts()
			o.MaxQueries, o.SelSub, o.CondSub, o.MaxNest = 8, 30, 18, 5
			o.MaxItems, o.MaxLeaves = 4, 4
			o.Where = 75
			return qcase(o, true)(t)
		}, checkP16, showQ)
	defProp("P17",
		"generated queries with functions, parameters and date literals in every position (lists, arguments, OFFSET, LIMIT, HAVING, subqueries); non-trivial: at least two of the three sets have elements from different clauses",
		80000, 6000000,
		func(t *rapid.T) QCase {
			o := nestOpts()
			o.LitKinds = []string{"param", "dlit", "string", "int", "param", "dlit", "null"}
			o.LitHeavy, o.Func, o.OffLim, o.FieldSet = true, 40, 60, 10
			return qcase(o, true)(t)
		}, checkP17, showQ)
}

func checkP08(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	if c.Q.countQueries() > 1 {
		o.nt()
	}
	views := map[int]string{}
	return forEach(c, func(m *M, ps []pairing) error {
		r := m.R
		if len(m.Objs) >= 3 {
			o.nt()
		}
		o.labelIf(len(m.Objs) >= 5, "5+ objects")
		if len(r.From) == 0 || nkey(r.From[0].Name) != m.head().key() {
			return fmt.Errorf("the object list does not start with %s", m.name())
		}
		pos := map[string]int{}
		for i := range r.From {
			k := nkey(r.From[i].Name)
			if _, ok := m.Objs[k]; !ok {
				return fmt.Errorf("object %s is neither declared nor reached", dot(r.From[i].Name))
			}
			if _, ok := pos[k]; ok {
				return fmt.Errorf("object %s is listed twice", dot(r.From[i].Name))
			}
			pos[k] = i
		}
		for _, k := range sortedKeys(m.Objs) {
			if _, ok := pos[k]; !ok {
				return fmt.Errorf("object %s is missing", dot(m.Objs[k]))
			}
		}
		for i := range r.From {
			x := &r.From[i]
			if x.ViewId <= 0 {
				return fmt.Errorf("object %s has view id %d", dot(x.Name), x.ViewId)
			}
			if w, ok := views[x.ViewId]; ok {
				return fmt.Errorf("object %s has the view id %d of %s", dot(x.Name), x.ViewId, w)
			}
			views[x.ViewId] = fmt.Sprintf("%s of query %d", dot(x.Name), r.QueryId)
			var parent *OI
			if i > 0 {
				j, ok := pos[nkey(ns(x.Name))]
				if !ok || j >= i {
					return fmt.Errorf("object %s does not come after its parent", dot(x.Name))
				}
				parent = &r.From[j]
			} else if m.Place == "select" {
				parent = object(m.Parent.R, ns(x.Name))
				if parent == nil {
					return fmt.Errorf("the parent object of %s is not listed in the enclosing query", dot(x.Name))
				}
			}
			want := 0
			if parent != nil {
				want = parent.ViewId
			}
			if x.ParentViewId != want {
				return fmt.Errorf("object %s has parent view id %d instead of %d", dot(x.Name), x.ParentViewId, want)
			}
		}
		viewOf := func(where string, path Path, outer bool, got int) error {
			q := r
			if outer {
				q = m.Parent.R
			}
			ob := object(q, path)
			if ob == nil {
				return fmt.Errorf("%s: object %s is not listed", where, dot(path))
			}
			if got != ob.ViewId {
				return fmt.Errorf("%s: view id %d instead of %d (%s)", where, got, ob.ViewId, dot(path))
			}
			return nil
		}
		for _, p := range ps {
			if p.ref != nil {
				if err := viewOf(p.where, p.ref.Obj, p.ref.Outer, p.f.ViewId); err != nil {
					return err
				}
			}
		}
		for i := len(m.Q.Items); i < len(r.Fields); i++ {
			f := &r.Fields[i]
			_, outer := m.OuterNeed[nkey(f.Name)]
			if err := viewOf("field "+dot(f.Name), ns(f.Name), outer, f.ViewId); err != nil {
				return err
			}
		}
		for i := range r.From {
			if r.From[i].PerObjectQuery == nil {
				return fmt.Errorf("object %s has no query", dot(r.From[i].Name))
			}
			for _, f := range r.From[i].PerObjectQuery.Fields {
				if f.ViewId != r.From[i].ViewId {
					return fmt.Errorf("field %s of the query for %s has view id %d", dot(f.Name), dot(r.From[i].Name), f.ViewId)
				}
			}
		}
		return nil
	})
}

func checkP09(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	m0, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	ids := map[int]string{}     // id -> column
	columns := map[string]int{} // column -> id
	uses := map[string]int{}
	next := m0.R.Meta.NextColumnId
	set := func(where, col string, id int) error {
		if id <= 0 || id >= next {
			return fmt.Errorf("%s: column id %d is not between 1 and %d", where, id, next-1)
		}
		if w, ok := ids[id]; ok && w != col {
			return fmt.Errorf("%s: column id %d is that of another column", where, id)
		}
		if w, ok := columns[col]; ok && w != id {
			return fmt.Errorf("%s: column id %d, elsewhere the same column has %d", where, id, w)
		}
		ids[id], columns[col] = col, id
		if uses[col]++; uses[col] >= 3 {
			o.nt()
		}
		return nil
	}
	for _, m := range m0.all() {
		ps, err := m.pairs()
		if err != nil {
			return fmt.Errorf("query on %s: %v", m.name(), err)
		}
		fail := func(err error) error { return fmt.Errorf("query %d on %s: %v", m.R.QueryId, m.name(), err) }
		qid := m.R.QueryId
		index := func(where string, q *SQ, name []string, idx int) error {
			ob := object(q, ns(name))
			if ob == nil || ob.PerObjectQuery == nil {
				return fmt.Errorf("%s: object %s is not listed", where, dot(ns(name)))
			}
			fs := ob.PerObjectQuery.Fields
			if idx < 0 || idx >= len(fs) || nkey(fs[idx].Name) != nkey(name) {
				return fmt.Errorf("%s: column index %d does not locate %s in the query for %s", where, idx, dot(name), dot(ob.Name))
			}
			return nil
		}
		for n, p := range ps {
			switch {
			case p.ref != nil && p.f.Type == types.SoqlFieldInfo_Field:
				own := m.owner(p.ref)
				if err := set(p.where, fmt.Sprintf("q%d %s", own.R.QueryId, p.ref.key()), p.f.ColumnId); err != nil {
					return fail(err)
				}
				if err := index(p.where, own.R, p.f.Name, p.f.ColIndex); err != nil {
					return fail(err)
				}
				o.labelIf(p.ref.Outer, "outer reference")
				o.labelIf(p.arg, "argument")
			case p.f.Type == types.SoqlFieldInfo_FieldSet || p.f.Type == types.SoqlFieldInfo_SubQuery && p.clause == "select":
				if err := set(p.where, fmt.Sprintf("q%d item %d", qid, p.idx), p.f.ColumnId); err != nil {
					return fail(err)
				}
			case p.f.Type == types.SoqlFieldInfo_Function && !p.arg && p.clause == "select":
				if err := set(p.where, fmt.Sprintf("q%d item %d", qid, p.idx), p.f.ColumnId); err != nil {
					return fail(err)
				}
			case p.key != nil: // function item
				if err := set(p.where, fmt.Sprintf("q%d item %d", qid, p.key.Item), p.f.ColumnId); err != nil {
					return fail(err)
				}
				o.label("key denotes a function")
			case p.f.Type == types.SoqlFieldInfo_Function && p.f.ColumnId != 0 && p.clause != "group" && p.clause != "order":
				// other functions need no id, but it must not be that of another column
				if err := set(p.where, fmt.Sprintf("q%d expr %d", qid, n), p.f.ColumnId); err != nil {
					return fail(err)
				}
			}
		}
		for i := len(m.Q.Items); i < len(m.R.Fields); i++ {
			f := &m.R.Fields[i]
			own := m
			if r, ok := m.OuterNeed[nkey(f.Name)]; ok {
				own = m.owner(r)
			}
			w := "unselected field " + dot(f.Name)
			if err := set(w, fmt.Sprintf("q%d %s", own.R.QueryId, nkey(f.Name)), f.ColumnId); err != nil {
				return fail(err)
			}
			if err := index(w, own.R, f.Name, f.ColIndex); err != nil {
				return fail(err)
			}
		}
		for i := range m.R.From {
			ob := &m.R.From[i]
			if ob.PerObjectQuery == nil {
				return fail(fmt.Errorf("object %s has no query", dot(ob.Name)))
			}
			for j, f := range ob.PerObjectQuery.Fields {
				if f.Type != types.SoqlFieldInfo_Field {
					continue
				}
				w := fmt.Sprintf("field %d of the query for %s", j, dot(ob.Name))
				if err := set(w, fmt.Sprintf("q%d %s", qid, nkey(f.Name)), f.ColumnId); err != nil {
					return fail(err)
				}
				if err := index(w, m.R, f.Name, f.ColIndex); err != nil {
					return fail(err)
				}
			}
			for j, k := range ob.PerObjectQuery.OrderBy {
				w := fmt.Sprintf("order key %d of the query for %s", j, dot(ob.Name))
				if err := set(w, fmt.Sprintf("q%d %s", qid, nkey(k.Field.Name)), k.Field.ColumnId); err != nil {
					return fail(err)
				}
				if err := index(w, m.R, k.Field.Name, k.Field.ColIndex); err != nil {
					return fail(err)
				}
			}
			for j, k := range ob.PerObjectQuery.Where {
				if k.Opcode == types.SoqlConditionOpcode_FieldInfo && k.Value.Type == types.SoqlFieldInfo_Field {
					w := fmt.Sprintf("condition %d of the query for %s", j, dot(ob.Name))
					if err := set(w, fmt.Sprintf("q%d %s", qid, nkey(k.Value.Name)), k.Value.ColumnId); err != nil {
						return fail(err)
					}
				}
			}
		}
	}
	return nil
}

func checkP10(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	return forEach(c, func(m *M, ps []pairing) error {
		r := m.R
		for i := range m.Q.Items {
			if r.Fields[i].NotSelected {
				return fmt.Errorf("select item %d is marked as not selected", i+1)
			}
		}
		want := map[string]string{}
		for k, x := range m.Needed {
			want[k] = dot(x.full())
		}
		for k, x := range m.OuterNeed {
			want[k] = dot(x.full())
			o.label("outer field")
		}
		for k, x := range m.ChildNeed {
			want[k] = dot(x.full())
			o.label("needed by a subquery")
		}
		both := false
		sel := map[string]bool{}
		for _, it := range m.Q.Items {
			if it.Kind == "field" {
				sel[it.Ref.key()] = true
			}
		}
		for _, p := range ps {
			if p.ref != nil && (p.arg || p.clause != "select") && sel[p.ref.key()] {
				both = true
			}
		}
		if both && len(want) > 0 {
			o.nt()
		}
		got := map[string]bool{}
		for i := len(m.Q.Items); i < len(r.Fields); i++ {
			f := &r.Fields[i]
			k := nkey(f.Name)
			if !f.NotSelected {
				return fmt.Errorf("field %s was added but is not marked as not selected", dot(f.Name))
			}
			if f.Type != types.SoqlFieldInfo_Field {
				return fmt.Errorf("%v %s was added", f.Type, dot(f.Name))
			}
			if _, ok := want[k]; !ok {
				return fmt.Errorf("field %s was added but is selected already or not needed", dot(f.Name))
			}
			if got[k] {
				return fmt.Errorf("field %s was added twice", dot(f.Name))
			}
			got[k] = true
		}
		for _, k := range sortedKeys(want) {
			if !got[k] {
				return fmt.Errorf("field %s is needed but missing", want[k])
			}
		}
		return nil
	})
}

func sameFI(a, b any) string {
	d := newDiffer(false)
	d.skip = func(t reflect.Type, f string) bool {
		return f == "ColIndex" || f == "SubQuery"
	}
	return d.diff("", reflect.ValueOf(a), reflect.ValueOf(b))
}

func checkP11(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	return forEach(c, func(m *M, ps []pairing) error {
		r := m.R
		nf, no := 0, 0
		for i := range r.From {
			ob := &r.From[i]
			pq := ob.PerObjectQuery
			w := "the query for " + dot(ob.Name)
			if pq == nil {
				return fmt.Errorf("%s is missing", w)
			}
			if len(pq.From) != 1 || nkey(pq.From[0].Name) != nkey(ob.Name) || pq.From[0].AliasName != ob.AliasName {
				return fmt.Errorf("%s is on %v", w, pq.From)
			}
			if alias := m.DeclAlias[nkey(ob.Name)]; pq.From[0].AliasName != alias {
				return fmt.Errorf("%s has the alias %q instead of %q", w, pq.From[0].AliasName, alias)
			}
			var want []FI
			for j := range r.Fields {
				f := r.Fields[j]
				if (f.Type == types.SoqlFieldInfo_Field || f.Type == types.SoqlFieldInfo_FieldSet) && nkey(ns(f.Name)) == nkey(ob.Name) {
					want = append(want, f)
				}
			}
			if len(want) != len(pq.Fields) {
				return fmt.Errorf("%s has %d fields instead of %d", w, len(pq.Fields), len(want))
			}
			for j := range want {
				if d := sameFI(pq.Fields[j], want[j]); d != "" {
					return fmt.Errorf("%s: field %d: %s", w, j, d)
				}
			}
			// the written items of the object, independently of the result's list
			k := 0
			for _, it := range m.Q.Items {
				if (it.Kind == "field" || it.Kind == "fset") && it.Ref.Obj.key() == nkey(ob.Name) {
					if k >= len(pq.Fields) || nkey(pq.Fields[k].Name) != it.Ref.key() || pq.Fields[k].NotSelected {
						return fmt.Errorf("%s: field %d is not %s", w, k, renderItem(it))
					}
					k++
				}
			}
			for ; k < len(pq.Fields); k++ {
				if !pq.Fields[k].NotSelected {
					return fmt.Errorf("%s: field %d was not written but is selected", w, k)
				}
			}
			var wo []types.SoqlOrderByInfo
			for j := range r.OrderBy {
				f := r.OrderBy[j].Field
				if f.Type == types.SoqlFieldInfo_Field && nkey(ns(f.Name)) == nkey(ob.Name) {
					wo = append(wo, r.OrderBy[j])
				}
			}
			if len(wo) != len(pq.OrderBy) {
				return fmt.Errorf("%s has %d order keys instead of %d", w, len(pq.OrderBy), len(wo))
			}
			for j := range wo {
				if d := sameFI(pq.OrderBy[j], wo[j]); d != "" {
					return fmt.Errorf("%s: order key %d: %s", w, j, d)
				}
			}
			if len(pq.GroupBy) != 0 || len(pq.Having) != 0 || len(pq.PostProcessWhere) != 0 {
				return fmt.Errorf("%s has clauses that cannot be applied per object", w)
			}
			ol := types.SoqlOffsetAndLimitClause{}
			if i == 0 {
				ol = r.OffsetAndLimit
			}
			if pq.OffsetAndLimit != ol {
				return fmt.Errorf("%s: offset and limit %+v instead of %+v", w, pq.OffsetAndLimit, ol)
			}
			if pq.For != r.For {
				return fmt.Errorf("%s: for clause %+v instead of %+v", w, pq.For, r.For)
			}
			if len(want) > 0 {
				nf++
			}
			if len(wo) > 0 {
				no++
			}
		}
		if nf >= 2 || no >= 2 {
			o.nt()
		}
		o.labelIf(no >= 2, "orders on 2+ objects")
		o.labelIf(m.Q.For != nil, "for clause")
		o.labelIf(m.Q.Offset != nil || m.Q.Limit != nil, "offset/limit")
		return nil
	})
}

func checkP16(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	n := c.Q.countQueries()
	if n >= 3 {
		o.nt()
	}
	o.labelIf(n >= 5, "5+ queries")
	m0, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	meta := m0.R.Meta
	all := m0.all()
	if len(meta.QueryGraph) != len(all) || meta.NextQueryId != len(all)+1 {
		return fmt.Errorf("%d queries in the graph, next id %d, but %d queries", len(meta.QueryGraph), meta.NextQueryId, len(all))
	}
	maxQ, maxV, views := 0, 0, 0
	seen := map[int]bool{}
	for _, m := range all {
		r := m.R
		w := fmt.Sprintf("query %d on %s", r.QueryId, m.name())
		g, ok := meta.QueryGraph[r.QueryId]
		if !ok || r.QueryId < 1 || r.QueryId > len(all) || seen[r.QueryId] {
			return fmt.Errorf("%s: the query id is not listed or used twice", w)
		}
		seen[r.QueryId] = true
		want := types.SoqlQueryGraphLeaf{Depth: m.Depth, IsConditional: m.Place == "cond"}
		if m.Parent != nil {
			want.ParentQueryId = m.Parent.R.QueryId
		}
		if g.Query != r {
			return fmt.Errorf("%s: the graph refers to another query", w)
		}
		g.Query = nil
		if g != want {
			return fmt.Errorf("%s: graph entry %+v instead of %+v", w, g, want)
		}
		if m.Depth > maxQ {
			maxQ = m.Depth
		}
		nonResult := false
		for x := m; x != nil; x = x.Parent {
			nonResult = nonResult || x.Place == "cond"
		}
		o.labelIf(m.Place == "select" && nonResult, "select subquery below a condition")
		for i := range r.From {
			ob := &r.From[i]
			w := w + ": object " + dot(ob.Name)
			v, ok := meta.ViewGraph[ob.ViewId]
			if !ok {
				return fmt.Errorf("%s: view %d is not listed", w, ob.ViewId)
			}
			views++
			if ob.ViewId < 1 || ob.ViewId >= meta.NextViewId {
				return fmt.Errorf("%s: view id %d, next is %d", w, ob.ViewId, meta.NextViewId)
			}
			if v.Name != ob.Name[len(ob.Name)-1] || v.QueryId != r.QueryId || v.QueryDepth != m.Depth || v.ParentViewId != ob.ParentViewId {
				return fmt.Errorf("%s: view %+v", w, v)
			}
			if v.Query != r || v.Object != ob {
				return fmt.Errorf("%s: the view refers to another object or query", w)
			}
			// parent, independently of the object list
			wp := 0
			var pob *OI
			if i > 0 {
				pob = object(r, ns(ob.Name))
			} else if m.Place == "select" {
				pob = object(m.Parent.R, ns(ob.Name))
			}
			if pob != nil {
				wp = pob.ViewId
			}
			if v.ParentViewId != wp {
				return fmt.Errorf("%s: parent view %d instead of %d", w, v.ParentViewId, wp)
			}
			if wp != 0 {
				if d := meta.ViewGraph[wp].Depth; v.Depth != d+1 {
					return fmt.Errorf("%s: depth %d below a parent of depth %d", w, v.Depth, d)
				}
			} else if m.Place == "primary" && v.Depth != 1 {
				return fmt.Errorf("%s: depth %d instead of 1", w, v.Depth)
			} else if m.Place == "cond" && i == 0 {
				// one level below the object of the enclosing query
				if d := meta.ViewGraph[m.Parent.R.From[0].ViewId].Depth; v.Depth != d+1 {
					return fmt.Errorf("%s: depth %d in a condition of a query on an object of depth %d", w, v.Depth, d)
				}
				o.labelIf(m.Parent.Place == "cond", "condition subquery in a condition subquery")
			} else if v.Depth < 1 {
				return fmt.Errorf("%s: depth %d", w, v.Depth)
			}
			if v.Depth > maxV {
				maxV = v.Depth
			}
			if v.Many != (m.Place == "select" && i == 0) {
				return fmt.Errorf("%s: to-many is %v", w, v.Many)
			}
			if v.NonResult != nonResult {
				return fmt.Errorf("%s: non-result is %v", w, v.NonResult)
			}
			inner := false
			for j := range r.From {
				if i > 0 && j > 0 && r.From[j].InnerJoin && Path(r.From[j].Name).hasPrefix(ob.Name) {
					inner = true
				}
			}
			if v.InnerJoin != inner {
				return fmt.Errorf("%s: inner join is %v instead of %v", w, v.InnerJoin, inner)
			}
			o.labelIf(inner && !ob.InnerJoin, "inner join propagated")
		}
	}
	if len(meta.ViewGraph) != views || meta.NextViewId != views+1 {
		return fmt.Errorf("%d views in the graph, next id %d, but %d objects", len(meta.ViewGraph), meta.NextViewId, views)
	}
	if meta.MaxQueryDepth != maxQ || meta.MaxViewDepth != maxV {
		return fmt.Errorf("maximum depths %d and %d instead of %d and %d", meta.MaxQueryDepth, meta.MaxViewDepth, maxQ, maxV)
	}
	return nil
}

func checkP17(c QCase, o *Obs) error {
	labelQuery(o, c.Q)
	text := c.text()
	r, err := parseQ(text)
	if err != nil {
		return err
	}
	fn, par, dl := map[string]string{}, map[string]string{}, map[string]string{}
	clauses := map[string]bool{}
	c.Q.walkQueries(func(q *Query) {
		lit := func(l *Lit, clause string) {
			switch l.Kind {
			case "param":
				par[lc(l.S)] = clause
				clauses["p "+clause] = true
				o.label("parameter in " + clause)
			case "dlit":
				dl[lc(l.S)] = clause
				clauses["d "+clause] = true
				o.label("date literal in " + clause)
			}
		}
		q.walkOwnItems(func(it *Item, clause string, arg bool) {
			if arg {
				clause += " argument"
			}
			switch it.Kind {
			case "func", "fset":
				fn[lc(it.Fn)] = clause
				clauses["f "+clause] = true
				o.label("function in " + clause)
			case "lit":
				lit(it.Lit, clause)
			case "list":
				for _, l := range it.List {
					lit(l, clause+" list")
				}
			}
		})
		for _, l := range []*Lit{q.Offset, q.Limit} {
			if l != nil {
				lit(l, "offset/limit")
			}
		}
	})
	if len(clauses) >= 3 {
		o.nt()
	}
	for _, x := range []struct {
		n    string
		want map[string]string
		got  map[string]struct{}
	}{{"function", fn, r.Meta.Functions}, {"parameter", par, r.Meta.Parameters}, {"date literal", dl, r.Meta.DateTimeLiterals}} {
		for _, k := range sortedKeys(x.want) {
			if _, ok := x.got[k]; !ok {
				return fmt.Errorf("%s %q (%s) is not listed: %v", x.n, k, x.want[k], x.got)
			}
		}
		for _, k := range sortedKeys(x.got) {
			if _, ok := x.want[k]; !ok {
				return fmt.Errorf("%s %q is listed but not used", x.n, k)
			}
		}
	}
	return nil
}
