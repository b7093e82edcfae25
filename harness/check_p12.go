package main

import (
	"fmt"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

func init() {
	defProp("P12",
		"generated queries at all levels whose WHERE mixes up to 9 (rarely 20) comparisons on several objects with AND/OR/NOT; the truth of the written condition is compared with the per-object filters and the post-process filter under all assignments of the distinct comparisons (512 samples beyond 10); non-trivial: comparisons on fields of two or more objects of one query",
		100000, 6000000,
		func(t *rapid.T) QCase {
			o := defOpts()
			o.MaxQueries, o.SelSub, o.CondSub = 4, 10, 6
			o.Where, o.Having, o.Agg = 92, 20, 12
			o.OrderBy, o.OffLim, o.For, o.FieldSet = 8, 5, 3, 1
			o.MaxItems = 3
			o.RelPath, o.NewRel, o.Func = 60, 25, 14
			o.Not = 18
			o.FromMore = 55
			o.MaxLeaves = 9
			g := &G{t: t}
			switch g.w(6, 4, 1) {
			case 1:
				o.MaxLeaves = 4
			case 2:
				o.MaxLeaves, o.MaxQueries = 20, 2
			}
			return qcase(o, true)(t)
		},
		func(c QCase, o *Obs) error {
			labelQuery(o, c.Q)
			return forEach(c, func(m *M, ps []pairing) error { return p12Query(m, ps, o) })
		}, showQ)
}

// conjuncts returns the operands of the AND at the root.
func (c *RCond) conjuncts() []*RCond {
	if c == nil {
		return nil
	}
	if c.Op == types.SoqlConditionOpcode_And {
		return append(c.L.conjuncts(), c.R.conjuncts()...)
	}
	return []*RCond{c}
}

func p12Query(m *M, ps []pairing, o *Obs) error {
	r := m.R
	root, leaves, err := tree(r.Where)
	if err != nil {
		return fmt.Errorf("where: %v", err)
	}
	// the comparisons with intent, in the same order
	wl := m.Q.Where.leaves()
	if len(wl) != len(leaves) {
		return fmt.Errorf("%d comparisons instead of %d", len(leaves), len(wl))
	}
	// ownPlain is the path of the only object of the comparison, if it concerns plain fields of one own object
	ownPlain := make([]Path, len(wl))
	direct := map[string]bool{}
	objs := map[string]bool{}
	for i, l := range wl {
		for _, x := range []*Item{l.X, l.Y} {
			if x.Kind == "field" && !x.Ref.Outer {
				direct[x.Ref.Obj.key()] = true
				objs[x.Ref.Obj.key()] = true
			}
		}
		if l.X.Kind != "field" || l.X.Ref.Outer {
			continue
		}
		switch l.Y.Kind {
		case "lit", "list":
			ownPlain[i] = l.X.Ref.Obj
		case "field":
			if !l.Y.Ref.Outer && l.Y.Ref.Obj.key() == l.X.Ref.Obj.key() {
				ownPlain[i] = l.X.Ref.Obj
			}
		}
	}
	if len(objs) > 1 {
		o.nt()
	}
	post, postLeaves, err := tree(r.PostProcessWhere)
	if err != nil {
		return fmt.Errorf("post-process filter: %v", err)
	}
	// variables: the distinct comparisons
	vars := map[string]int{}
	count := map[string]int{}
	for _, l := range leaves {
		k := condKey(l)
		if _, ok := vars[k]; !ok {
			vars[k] = len(vars)
		}
		l.Var = vars[k]
		count[k]++
	}
	known := func(what string, ls []*RCond) error {
		for _, l := range ls {
			v, ok := vars[condKey(l)]
			l.Var = v
			if !ok {
				return fmt.Errorf("%s has the comparison %v of %s which is not in the where clause", what, l.Op, dot(l.X.Name))
			}
		}
		return nil
	}
	if err := known("the post-process filter", postLeaves); err != nil {
		return err
	}
	var filters []*RCond
	byObj := map[string]*RCond{}
	for i := range r.From {
		ob := &r.From[i]
		k := nkey(ob.Name)
		if ob.PerObjectQuery == nil {
			return fmt.Errorf("object %s has no query", dot(ob.Name))
		}
		what := "the filter of " + dot(ob.Name)
		f, ls, err := tree(ob.PerObjectQuery.Where)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := known(what, ls); err != nil {
			return err
		}
		for _, l := range ls {
			for _, x := range []*FI{l.X, l.Y} {
				switch x.Type {
				case types.SoqlFieldInfo_Field:
					if nkey(ns(x.Name)) != k {
						return fmt.Errorf("%s refers to %s", what, dot(x.Name))
					}
				case types.SoqlFieldInfo_Function, types.SoqlFieldInfo_SubQuery, types.SoqlFieldInfo_FieldSet:
					return fmt.Errorf("%s has an operand of type %v", what, x.Type)
				}
			}
		}
		if f != nil {
			filters = append(filters, f)
			byObj[k] = f
		}
		if ob.InnerJoin != (i > 0 && f != nil) {
			return fmt.Errorf("object %s: inner join %v, but filter: %v, head: %v", dot(ob.Name), ob.InnerJoin, f != nil, i == 0)
		}
		if ob.HasConditions != direct[k] {
			return fmt.Errorf("object %s: has conditions %v, but a field of it is compared: %v", dot(ob.Name), ob.HasConditions, direct[k])
		}
	}
	o.labelIf(len(filters) > 1, "filters on 2+ objects")
	o.labelIf(post != nil, "post-process filter")
	o.labelIf(root != nil && post == nil, "no post-process filter left")
	o.labelIf(len(postLeaves) > 0 && len(postLeaves) < len(leaves), "part of the filter remains")
	if m.Q.Where == nil {
		if len(filters) > 0 || post != nil {
			return fmt.Errorf("there are filters without a where clause")
		}
		return nil
	}

	// equivalence
	odd := m.Q.Where.leafParity(false)
	w := make([]bool, len(leaves))
	bad := ""
	forAssignments(len(vars), func(v []bool) bool {
		val := func(l *RCond) bool { return v[l.Var] }
		for i, l := range leaves {
			w[i] = val(l) != odd[i]
		}
		want := m.Q.Where.eval(w)
		got := post == nil || post.eval(val)
		for _, f := range filters {
			got = got && f.eval(val)
		}
		if want != got {
			bad = fmt.Sprintf("for the comparisons %v the written condition is %v, the filters give %v", w, want, got)
			return false
		}
		return true
	})
	if bad != "" {
		return fmt.Errorf("%s", bad)
	}

	// conjuncts on a single object
	idx := map[*RCond]int{}
	for i, l := range leaves {
		idx[l] = i
	}
	for _, c := range root.conjuncts() {
		i, ok := idx[c]
		if !ok || ownPlain[i] == nil {
			continue
		}
		k := condKey(c)
		what := fmt.Sprintf("comparison %d (%s)", i+1, renderCond(wl[i]))
		o.label("conjunct on one object")
		found := false
		for _, d := range byObj[ownPlain[i].key()].conjuncts() {
			found = found || isCmpOp(d.Op) && condKey(d) == k
		}
		if !found {
			return fmt.Errorf("%s is not applied by the filter of its object %s", what, dot(ownPlain[i]))
		}
		if count[k] == 1 {
			for _, l := range postLeaves {
				if condKey(l) == k {
					return fmt.Errorf("%s is repeated in the post-process filter", what)
				}
			}
		}
	}
	return nil
}
