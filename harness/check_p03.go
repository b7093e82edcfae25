package main

import (
	"fmt"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

func condOpts(t *rapid.T, not int) Opts {
	o := defOpts()
	o.MaxQueries, o.SelSub, o.CondSub = 4, 5, 12
	o.Where, o.Having, o.Agg = 90, 85, 40
	o.OrderBy, o.OffLim, o.For, o.FieldSet = 10, 5, 3, 1
	o.MaxItems = 3
	o.Not = not
	o.Paren = 15
	o.MaxLeaves = 9
	g := &G{t: t}
	switch g.w(8, 3, 1) {
	case 1:
		o.MaxLeaves = 4
	case 2:
		o.MaxLeaves = 30
		o.MaxQueries = 2
	}
	return o
}

func init() {
	defProp("P03",
		"generated queries without NOT whose WHERE and HAVING have up to 30 comparisons with mixed AND/OR/parentheses and all kinds of operands; truth tables are complete up to 10 comparisons and sampled (512 assignments) beyond; non-trivial: a condition mixes AND and OR",
		100000, 8000000,
		func(t *rapid.T) QCase { return qcase(condOpts(t, 0), true)(t) },
		func(c QCase, o *Obs) error { return checkConds(c, o, false) }, showQ)
	defProp("P04",
		"as for P03, with NOT at any level (stacked, over groups, before comparisons with negated operators); non-trivial: a NOT applies to a group of comparisons or to another NOT",
		100000, 8000000,
		func(t *rapid.T) QCase { return qcase(condOpts(t, 30), true)(t) },
		func(c QCase, o *Obs) error { return checkConds(c, o, true) }, showQ)
}

func mixes(c *Cond, seen map[string]bool) {
	if c == nil || c.Op == "cmp" {
		return
	}
	seen[c.Op] = true
	if c.Op == "not" && c.L.Op != "cmp" {
		seen["not over group"] = true
	}
	mixes(c.L, seen)
	mixes(c.R, seen)
}

func checkConds(c QCase, o *Obs, not bool) error {
	m, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	labelQuery(o, c.Q)
	c.Q.walkQueries(func(q *Query) {
		for _, w := range []*Cond{q.Where, q.Having} {
			s := map[string]bool{}
			mixes(w, s)
			n := len(w.leaves())
			o.labelIf(n >= 5, "5+ comparisons")
			o.labelIf(n >= 15, "15+ comparisons")
			o.labelIf(s["not over group"], "not over group")
			if !not && s["and"] && s["or"] || not && s["not over group"] {
				o.nt()
			}
		}
		o.labelIf(q.Having != nil, "having")
		for _, l := range append(q.Where.leaves(), q.Having.leaves()...) {
			o.label("rhs " + l.Y.Kind)
			o.label("op " + l.Cmp)
		}
	})
	for _, x := range m.all() {
		for _, y := range []struct {
			n string
			c *Cond
			r []CND
		}{{"where", x.Q.Where, x.R.Where}, {"having", x.Q.Having, x.R.Having}} {
			if err := condErr(y.c, y.r); err != nil {
				return fmt.Errorf("query on %s: %s clause: %v", x.name(), y.n, err)
			}
		}
	}
	return nil
}

func condErr(w *Cond, rc []CND) error {
	root, leaves, err := tree(rc)
	if err != nil {
		return err
	}
	if w == nil {
		if root != nil {
			return fmt.Errorf("there are conditions but none were written")
		}
		return nil
	}
	wl := w.leaves()
	if len(leaves) != len(wl) {
		return fmt.Errorf("%d comparisons instead of %d", len(leaves), len(wl))
	}
	for i := range rc {
		if rc[i].Opcode == types.SoqlConditionOpcode_Not {
			return fmt.Errorf("a NOT remains")
		}
	}
	odd := w.leafParity(false)
	for i, l := range leaves {
		op := wl[i].Cmp
		if odd[i] {
			op = invOf[op]
		}
		where := fmt.Sprintf("comparison %d (%s)", i+1, renderCond(&Cond{Op: "cmp", X: wl[i].X, Cmp: wl[i].Cmp, Y: wl[i].Y}))
		if l.Op != opOf[op] {
			return fmt.Errorf("%s: operator %v instead of %s", where, l.Op, op)
		}
		if err := itemErr(where, wl[i].X, l.X, false); err != nil {
			return err
		}
		if err := itemErr(where, wl[i].Y, l.Y, false); err != nil {
			return err
		}
	}
	n := len(wl)
	bad := ""
	forAssignments(n, func(v []bool) bool {
		want := w.eval(v)
		got := root.eval(func(l *RCond) bool { return v[l.Idx] != odd[l.Idx] })
		if want != got {
			bad = fmt.Sprintf("for the comparisons %v the written condition is %v, the result is %v", v, want, got)
			return false
		}
		return true
	})
	if bad != "" {
		return fmt.Errorf("%s", bad)
	}
	return nil
}

// forAssignments enumerates all truth assignments up to 10 variables and samples 512 beyond.
func forAssignments(n int, f func(v []bool) bool) {
	v := make([]bool, n)
	if n <= 10 {
		for k := 0; k < 1<<n; k++ {
			for i := range v {
				v[i] = k>>i&1 != 0
			}
			if !f(v) {
				return
			}
		}
		return
	}
	r := prng(n)
	for k := 0; k < 512; k++ {
		x := r.next()
		y := r.next()
		switch k % 4 {
		case 1:
			x &= r.next()
			y &= r.next()
		case 2:
			x |= r.next()
			y |= r.next()
		}
		for i := range v {
			if i < 64 {
				v[i] = x>>i&1 != 0
			} else {
				v[i] = y>>(i%64)&1 != 0
			}
		}
		if k == 0 {
			for i := range v {
				v[i] = false
			}
		}
		if !f(v) {
			return
		}
	}
}
