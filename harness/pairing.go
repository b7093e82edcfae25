package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// pairing connects a written item with its counterpart in the result.
type pairing struct {
	where  string // for messages
	clause string // select where having group order
	arg    bool   // function argument
	idx    int    // index of the select item, comparison or key
	it     *Item  // nil for keys written as fields
	ref    *Ref   // the reference, if it is a field
	key    *Key   // grouping and ordering keys
	f      *FI
}

// pairs returns all written items of the query (arguments included) with their results.
// It fails if the result has another shape than the query.
func (m *M) pairs() ([]pairing, error) {
	var z []pairing
	var rec func(where, clause string, arg bool, idx int, it *Item, f *FI)
	rec = func(where, clause string, arg bool, idx int, it *Item, f *FI) {
		p := pairing{where: where, clause: clause, arg: arg, idx: idx, it: it, f: f}
		if it.Kind == "field" || it.Kind == "fset" {
			p.ref = it.Ref
		}
		z = append(z, p)
		for i, a := range it.Args {
			rec(fmt.Sprintf("%s argument %d", where, i+1), clause, true, idx, a, &f.Parameters[i])
		}
	}
	add := func(where, clause string, idx int, it *Item, f *FI) error {
		if err := itemErr(where, it, f, false); err != nil {
			return err
		}
		rec(where+" "+renderItem(it), clause, false, idx, it, f)
		return nil
	}
	if len(m.R.Fields) < len(m.Q.Items) {
		return nil, fmt.Errorf("%d fields for %d select items", len(m.R.Fields), len(m.Q.Items))
	}
	for i, it := range m.Q.Items {
		if err := add(fmt.Sprintf("select item %d", i+1), "select", i, it, &m.R.Fields[i]); err != nil {
			return nil, err
		}
	}
	for _, x := range []struct {
		n string
		c *Cond
		r []CND
	}{{"where", m.Q.Where, m.R.Where}, {"having", m.Q.Having, m.R.Having}} {
		_, leaves, err := tree(x.r)
		if err != nil {
			return nil, fmt.Errorf("%s clause: %v", x.n, err)
		}
		wl := x.c.leaves()
		if len(wl) != len(leaves) {
			return nil, fmt.Errorf("%s clause: %d comparisons instead of %d", x.n, len(leaves), len(wl))
		}
		for i := range wl {
			w := fmt.Sprintf("%s comparison %d", x.n, i+1)
			if err := add(w, x.n, i, wl[i].X, leaves[i].X); err != nil {
				return nil, err
			}
			if err := add(w, x.n, i, wl[i].Y, leaves[i].Y); err != nil {
				return nil, err
			}
		}
	}
	if len(m.Q.GroupBy) != len(m.R.GroupBy) || len(m.Q.OrderBy) != len(m.R.OrderBy) {
		return nil, fmt.Errorf("%d grouping and %d order keys instead of %d and %d", len(m.R.GroupBy), len(m.R.OrderBy), len(m.Q.GroupBy), len(m.Q.OrderBy))
	}
	keys := func(clause string, ks []*Key, get func(i int) *FI) error {
		for i, k := range ks {
			w := fmt.Sprintf("%s key %d", clause, i+1)
			f := get(i)
			if err := keyErr(w, m, k, f); err != nil {
				return err
			}
			ref, it := m.keyTarget(k)
			z = append(z, pairing{where: w, clause: clause, idx: i, it: it, ref: ref, key: k, f: f})
			if ref == nil {
				for j, a := range it.Args {
					rec(fmt.Sprintf("%s argument %d", w, j+1), clause, true, i, a, &f.Parameters[j])
				}
			}
		}
		return nil
	}
	if err := keys("group", m.Q.GroupBy, func(i int) *FI { return &m.R.GroupBy[i] }); err != nil {
		return nil, err
	}
	if err := keys("order", m.Q.OrderBy, func(i int) *FI { return &m.R.OrderBy[i].Field }); err != nil {
		return nil, err
	}
	return z, nil
}

// owner returns the query to which the object of the reference belongs.
func (m *M) owner(r *Ref) *M {
	if r.Outer {
		return m.Parent
	}
	return m
}

// object returns the object of the result with the path.
func object(r *SQ, p Path) *OI {
	for i := range r.From {
		if nkey(r.From[i].Name) == p.key() {
			return &r.From[i]
		}
	}
	return nil
}

func ns(name []string) []string {
	if len(name) == 0 {
		return nil
	}
	return name[:len(name)-1]
}

// check runs f on every query of a parsed case.
func forEach(c QCase, f func(m *M, ps []pairing) error) error {
	m, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	for _, x := range m.all() {
		ps, err := x.pairs()
		if err == nil {
			err = f(x, ps)
		}
		if err != nil {
			return fmt.Errorf("query %d on %s: %v", x.R.QueryId, x.name(), err)
		}
	}
	return nil
}

// rejected requires that the text is rejected.
func rejected(text, why string) error {
	r, err := parse(text)
	if _, is := err.(*shapeError); is {
		return err
	}
	if err == nil {
		_ = r
		return fmt.Errorf("accepted, but %s", why)
	}
	return nil
}

// condKey identifies a comparison of a result by its content.
func condKey(l *RCond) string {
	var b strings.Builder
	b.WriteString(l.Op.String())
	fiKey(&b, l.X)
	fiKey(&b, l.Y)
	return b.String()
}

func fiKey(b *strings.Builder, f *FI) {
	fmt.Fprintf(b, "[%v %q ", f.Type, f.Name)
	switch f.Type {
	case types.SoqlFieldInfo_SubQuery:
		if f.SubQuery != nil {
			fmt.Fprintf(b, "q%d", f.SubQuery.QueryId)
		}
	case types.SoqlFieldInfo_Function:
		for i := range f.Parameters {
			fiKey(b, &f.Parameters[i])
		}
	default:
		fmt.Fprintf(b, "%v", f.Value)
	}
	b.WriteString("]")
}

func itoa(i int) string { return strconv.Itoa(i) }
