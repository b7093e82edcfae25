package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// M is the expected shape of one (sub)query, derived from the intent in the AST.
type M struct {
	Q      *Query
	Place  string // primary select cond
	Parent *M     // enclosing query
	Depth  int

	Objs       map[string]Path   // all objects
	DeclAlias  map[string]string // alias of declared objects
	Needed     map[string]*Ref   // own fields that are needed but not written as select items
	OuterNeed  map[string]*Ref   // outer fields needed by this query (correlation)
	ChildNeed  map[string]*Ref   // fields of this query needed by correlated children, not otherwise projected
	Agg        bool
	SelSubs    []*M // in order of the items
	WhereSubs  []*M
	HavingSubs []*M

	R *types.SoqlQuery // the actual result, attached by pair
}

func (m *M) all() []*M {
	z := []*M{m}
	for _, l := range [][]*M{m.SelSubs, m.WhereSubs, m.HavingSubs} {
		for _, s := range l {
			z = append(z, s.all()...)
		}
	}
	return z
}

// headAlias etc. are used by several checks.
func (m *M) head() Path { return m.Q.head() }

func buildModel(q *Query, place string, parent *M) *M {
	m := &M{Q: q, Place: place, Parent: parent, Depth: 1, Objs: map[string]Path{}, DeclAlias: map[string]string{},
		Needed: map[string]*Ref{}, OuterNeed: map[string]*Ref{}, ChildNeed: map[string]*Ref{}}
	if parent != nil {
		m.Depth = parent.Depth + 1
	}
	reg := func(p Path) {
		for i := len(q.head()); i <= len(p); i++ {
			m.Objs[p[:i].key()] = p[:i]
		}
	}
	for _, f := range q.From {
		reg(f.Path)
		m.DeclAlias[f.Path.key()] = f.Alias
	}
	selected := map[string]bool{}
	for _, it := range q.Items {
		if it.Kind == "field" {
			selected[it.Ref.key()] = true
		}
		if containsCount(it) {
			m.Agg = true
		}
	}
	if len(q.GroupBy) > 0 {
		m.Agg = true
	}
	need := func(r *Ref) {
		if r.Outer {
			m.OuterNeed[r.key()] = r
			return
		}
		reg(r.Obj)
		if !selected[r.key()] {
			m.Needed[r.key()] = r
		}
	}
	q.walkOwnItems(func(it *Item, clause string, arg bool) {
		if it.Kind == "field" {
			need(it.Ref)
		}
	})
	for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
		for _, k := range ks {
			if k.Ref != nil {
				need(k.Ref)
			}
		}
	}
	sel, wh, hv := q.subs()
	for _, s := range sel {
		m.SelSubs = append(m.SelSubs, buildModel(s, "select", m))
	}
	for _, s := range wh {
		m.WhereSubs = append(m.WhereSubs, buildModel(s, "cond", m))
	}
	for _, s := range hv {
		m.HavingSubs = append(m.HavingSubs, buildModel(s, "cond", m))
	}
	for _, s := range m.SelSubs {
		for k, r := range s.OuterNeed {
			if !selected[k] && m.Needed[k] == nil {
				m.ChildNeed[k] = r
			}
		}
	}
	return m
}

// subConds returns the subquery operands of a condition list, in order.
func subConds(cs []types.SoqlCondition) []*types.SoqlQuery {
	var z []*types.SoqlQuery
	for i := range cs {
		if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo && cs[i].Value.Type == types.SoqlFieldInfo_SubQuery {
			z = append(z, cs[i].Value.SubQuery)
		}
	}
	return z
}

// pair attaches the parts of the result to the model. It fails if the nesting differs.
func (m *M) pair(r *types.SoqlQuery) error {
	if r == nil {
		return fmt.Errorf("query %s: no query in the result", m.name())
	}
	m.R = r
	var sel []*types.SoqlQuery
	for i := range r.Fields {
		if r.Fields[i].Type == types.SoqlFieldInfo_SubQuery {
			sel = append(sel, r.Fields[i].SubQuery)
		}
	}
	for _, x := range []struct {
		what string
		ms   []*M
		rs   []*types.SoqlQuery
	}{{"select", m.SelSubs, sel}, {"where", m.WhereSubs, subConds(r.Where)}, {"having", m.HavingSubs, subConds(r.Having)}} {
		if len(x.ms) != len(x.rs) {
			return fmt.Errorf("query %s: %d subqueries in %s expected, got %d", m.name(), len(x.ms), x.what, len(x.rs))
		}
		for i := range x.ms {
			if err := x.ms[i].pair(x.rs[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

func (m *M) name() string { return dot(m.head()) }

func dot(p []string) string { return strings.Join(p, ".") }

func nkey(name []string) string { return Path(name).key() }

func sortedList(m map[string]bool) []string {
	z := sortedKeys(m)
	sort.Strings(z)
	for i := range z {
		z[i] = strings.ReplaceAll(z[i], "\x00", ".")
	}
	return z
}

// written returns the number of entries of the result's field list that belong to written items.
func (m *M) written() int { return len(m.Q.Items) }

// keyTarget resolves a grouping/ordering key: either a field or a function item.
func (m *M) keyTarget(k *Key) (*Ref, *Item) {
	if k.Ref != nil {
		return k.Ref, nil
	}
	it := m.Q.Items[k.Item]
	if it.Kind == "field" {
		return it.Ref, it
	}
	return nil, it
}
