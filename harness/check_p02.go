package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

// QCase is a generated query with a layout.
type QCase struct {
	Q      *Query `json:"q"`
	Layout uint64 `json:"layout,omitempty"`
	// bytes around the text (white space and comments)
	Pre  []byte `json:"pre,omitempty"`
	Post []byte `json:"post,omitempty"`
}

func (c QCase) text() string { return string(c.Pre) + layout(tokens(c.Q), c.Layout) + string(c.Post) }

func qcase(o Opts, withLayout bool) func(t *rapid.T) QCase {
	return func(t *rapid.T) QCase {
		c := QCase{Q: genQuery(t, o)}
		if withLayout && boolGen.Draw(t, "") {
			c.Layout = uint64(rapid.IntRange(1, 1<<30).Draw(t, "layout"))
		}
		return c
	}
}

func showQ(c QCase) string { return c.text() }

// eachModel parses the case and runs f for every query of it.
func eachModel(f func(m *M) error) func(c QCase, o *Obs) error {
	return func(c QCase, o *Obs) error {
		m, _, err := modelOf(c.Q, c.Layout)
		if err != nil {
			return err
		}
		for _, x := range m.all() {
			if err := f(x); err != nil {
				return fmt.Errorf("query on %s: %v", x.name(), err)
			}
		}
		return nil
	}
}

func init() {
	p := defProp("P02",
		"generated from the grammar with intent (objects, spellings, aliases, functions, all clauses, subqueries) and a random layout, sometimes with white space and comments of unusual bytes around (the source must be kept byte for byte); non-trivial: at least two optional clauses",
		120000, 6000000, func(t *rapid.T) QCase {
			c := qcase(defOpts(), true)(t)
			g := &G{t: t}
			if g.p(15) {
				for i := g.u(3); i > 0; i-- {
					c.Pre = append(c.Pre, g.blank(false)...)
				}
				c.Post = []byte(pick(g, []string{"\n", "\r\n", "\r"}))
				for i := g.u(4); i > 0; i-- {
					c.Post = append(c.Post, g.blank(i == 1)...)
				}
			}
			return c
		}, checkP02, showQ)
	_ = p
}

// blank is white space or a comment with unusual bytes; the last one may have no end of line.
func (g *G) blank(last bool) string {
	if g.p(30) {
		return pick(g, []string{" ", "\t", "\r\n", "\n\r", "\r", "\v", "\f", "\u0085", "\u00a0", "\n"})
	}
	s := ""
	for i := g.u(6); i > 0; i-- {
		switch g.u(3) {
		case 0:
			s += pick(g, []string{"\xff", "\xc3", "\xe3\x81", "\x00", "\ufeff", "\ufffd", "é", "日本", "'", "\"", "\\", "\x1a", "\x80", "--", ";", "select", "e\u0301", "\u2028", "\t", "  "})
		case 1:
			s += string([]byte{byte(g.u(256))})
		default:
			s += "x"
		}
	}
	s = strings.NewReplacer("\r", "", "\n", "", "*", "").Replace(s)
	if g.p(50) {
		return "/*" + s + pick(g, []string{"", "\n", "\r\n"}) + "*/"
	}
	if last && g.p(50) {
		return "--" + s
	}
	return "--" + s + pick(g, []string{"\n", "\r", "\r\n"})
}

func clauseCount(q *Query) int {
	n := 0
	for _, b := range []bool{q.Where != nil, len(q.GroupBy) > 0, q.Having != nil, len(q.OrderBy) > 0, q.Offset != nil, q.Limit != nil, q.For != nil} {
		if b {
			n++
		}
	}
	return n
}

func checkP02(c QCase, o *Obs) error {
	text := c.text()
	t0 := time.Now()
	r, err := parseQ(text)
	t1 := time.Now()
	if err != nil {
		return err
	}
	m := buildModel(c.Q, "primary", nil)
	if err := m.pair(r); err != nil {
		return err
	}
	o.labelIf(len(c.Pre)+len(c.Post) > 0, "odd bytes around the text")
	if m.R.Meta == nil || m.R.Meta.Source != text {
		return fmt.Errorf("the source is not the text")
	}
	// a second of tolerance: the clock of the system may be set meanwhile
	if d := m.R.Meta.Date; d.Before(t0.Add(-time.Second)) || d.After(t1.Add(time.Second)) || d.Location() != time.UTC {
		return fmt.Errorf("the date is %v, parsed between %v and %v", d, t0, t1)
	}
	if e := m.R.Meta.ElapsedTime; e < 0 || e > t1.Sub(t0)+time.Second {
		return fmt.Errorf("the elapsed time is %v, it took %v", e, t1.Sub(t0))
	}
	if clauseCount(c.Q) >= 2 {
		o.nt()
	}
	labelQuery(o, c.Q)
	for _, x := range m.all() {
		if err := p02Query(x, o); err != nil {
			return fmt.Errorf("query on %s: %v", x.name(), err)
		}
	}
	return nil
}

func p02Query(m *M, o *Obs) error {
	q, r := m.Q, m.R
	// select items
	if len(r.Fields) < len(q.Items) {
		return fmt.Errorf("%d fields for %d items", len(r.Fields), len(q.Items))
	}
	for i, it := range q.Items {
		f := &r.Fields[i]
		w := fmt.Sprintf("select item %d", i+1)
		if err := itemErr(w, it, f, false); err != nil {
			return err
		}
		if f.NotSelected {
			return fmt.Errorf("%s %s is marked as not selected", w, renderItem(it))
		}
		if it.Kind != "fset" && it.Alias != "" && f.AliasName != it.Alias {
			return fmt.Errorf("%s %s has alias %q", w, renderItem(it), f.AliasName)
		}
		if it.Alias == "" && f.AliasName != "" && it.Kind != "func" && it.Kind != "field" {
			return fmt.Errorf("%s %s has alias %q", w, renderItem(it), f.AliasName)
		}
	}
	for i := len(q.Items); i < len(r.Fields); i++ {
		if !r.Fields[i].NotSelected {
			return fmt.Errorf("field %d (%s) was not written but is selected", i, dot(r.Fields[i].Name))
		}
	}
	// from
	if len(r.From) == 0 || !eqFoldPath(r.From[0].Name, q.head()) {
		return fmt.Errorf("the head object is %v instead of %s", r.From, dot(q.head()))
	}
	for _, f := range q.From {
		n := 0
		for i := range r.From {
			if nkey(r.From[i].Name) == f.Path.key() {
				n++
				if r.From[i].AliasName != f.Alias {
					return fmt.Errorf("object %s has alias %q instead of %q", dot(f.Path), r.From[i].AliasName, f.Alias)
				}
			}
		}
		if n != 1 {
			return fmt.Errorf("object %s is listed %d times", dot(f.Path), n)
		}
	}
	for i := range r.From {
		if _, ok := m.DeclAlias[nkey(r.From[i].Name)]; !ok && r.From[i].AliasName != "" {
			return fmt.Errorf("undeclared object %s has the alias %q", dot(r.From[i].Name), r.From[i].AliasName)
		}
	}
	// conditions
	for _, x := range []struct {
		n string
		c *Cond
		r []CND
	}{{"where", q.Where, r.Where}, {"having", q.Having, r.Having}} {
		if x.c == nil {
			if len(x.r) != 0 {
				return fmt.Errorf("there is no %s clause but %d conditions", x.n, len(x.r))
			}
			continue
		}
		if len(x.r) == 0 {
			return fmt.Errorf("the %s clause is missing", x.n)
		}
	}
	if q.Where == nil && len(r.PostProcessWhere) != 0 {
		return fmt.Errorf("post-process filter without a where clause")
	}
	// group by
	if len(r.GroupBy) != len(q.GroupBy) {
		return fmt.Errorf("%d grouping keys instead of %d", len(r.GroupBy), len(q.GroupBy))
	}
	for i, k := range q.GroupBy {
		if err := keyErr(fmt.Sprintf("grouping key %d", i+1), m, k, &r.GroupBy[i]); err != nil {
			return err
		}
	}
	// order by
	if len(r.OrderBy) != len(q.OrderBy) {
		return fmt.Errorf("%d order keys instead of %d", len(r.OrderBy), len(q.OrderBy))
	}
	for i, k := range q.OrderBy {
		w := fmt.Sprintf("order key %d", i+1)
		if err := keyErr(w, m, k, &r.OrderBy[i].Field); err != nil {
			return err
		}
		if r.OrderBy[i].Desc != (k.Dir == "desc") {
			return fmt.Errorf("%s: desc is %v, written %q", w, r.OrderBy[i].Desc, k.Dir)
		}
		if r.OrderBy[i].NullsLast != (k.Nulls == "last") {
			return fmt.Errorf("%s: nulls last is %v, written %q", w, r.OrderBy[i].NullsLast, k.Nulls)
		}
	}
	// offset and limit
	want := types.SoqlOffsetAndLimitClause{}
	if l := q.Offset; l != nil {
		if l.Kind == "param" {
			want.OffsetParamName = l.S
		} else {
			want.Offset = l.I
		}
	}
	if l := q.Limit; l != nil {
		if l.Kind == "param" {
			want.LimitParamName = l.S
		} else {
			want.Limit = l.I
		}
	}
	if r.OffsetAndLimit != want {
		return fmt.Errorf("offset and limit: %+v instead of %+v", r.OffsetAndLimit, want)
	}
	// for
	wf := types.SoqlForClause{}
	if f := q.For; f != nil {
		wf = types.SoqlForClause{View: f.View, Reference: f.Reference, Update: f.Update, UpdateTracking: f.Tracking, UpdateViewstat: f.Viewstat}
	}
	if r.For != wf {
		return fmt.Errorf("for clause: %+v instead of %+v", r.For, wf)
	}
	return nil
}

// keyErr compares a grouping or ordering key with the written one.
func keyErr(where string, m *M, k *Key, f *FI) error {
	ref, it := m.keyTarget(k)
	if ref != nil {
		if f.Type != types.SoqlFieldInfo_Field || !eqFoldPath(f.Name, ref.full()) {
			return fmt.Errorf("%s: %v %s instead of the field %s", where, f.Type, dot(f.Name), dot(ref.full()))
		}
		return nil
	}
	if f.Type != types.SoqlFieldInfo_Function || f.AliasName != it.Alias {
		return fmt.Errorf("%s: %v %s %q instead of the item %s", where, f.Type, dot(f.Name), f.AliasName, renderItem(it))
	}
	return itemErr(where, it, f, false)
}
