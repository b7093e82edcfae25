package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// LitCase is a literal-heavy query; Bad replaces one literal by an unrepresentable one.
type LitCase struct {
	QCase
	Bad  string `json:"bad,omitempty"`
	Kind string `json:"kind,omitempty"`
}

func init() {
	defProp("P05",
		"literal-heavy generated queries (operands, lists of up to 8, function arguments, OFFSET/LIMIT); expected values are computed by the generator, not by the parser; a tenth of the cases contains one number, date or time that does not exist and must be rejected; non-trivial: at least four literals of at least three kinds, or a rejection",
		150000, 10000000, genLits, checkP05, func(c LitCase) string { return showQ(c.QCase) })
}

func genLits(t *rapid.T) LitCase {
	o := defOpts()
	o.LitHeavy = true
	o.LitKinds = append(append([]string{}, litKinds...), "float", "date", "datetime", "time", "dlit", "string", "special", "int")
	o.MaxQueries, o.SelSub = 3, 5
	o.Where, o.Having, o.Agg = 90, 70, 25
	o.Func = 30
	o.OffLim = 45
	o.FieldSet, o.Corr = 1, 10
	o.MaxLeaves = 8
	o.Not = 5
	c := LitCase{QCase: qcase(o, true)(t)}
	g := &G{t: t, o: o}
	if g.p(10) {
		var vals, offs, dlits []*Lit
		c.Q.walkQueries(func(q *Query) {
			for _, l := range ownLits(q) {
				switch l.Kind {
				case "dlit":
					dlits = append(dlits, l)
				default:
					vals = append(vals, l)
				}
			}
			for _, l := range []*Lit{q.Offset, q.Limit} {
				if l != nil {
					offs = append(offs, l)
				}
			}
		})
		switch {
		case len(offs) > 0 && g.p(25):
			l := pick(g, offs)
			c.Kind = "offset/limit"
			*l = Lit{Kind: "int", Text: g.badLit("pos")}
			c.Bad = l.Text
		case len(dlits) > 0 && g.p(25):
			l := pick(g, dlits)
			c.Kind = "date literal count"
			*l = Lit{Kind: "dlit", Text: pick(g, dateLiteralsN) + ":" + g.badLit("pos")}
			c.Bad = l.Text
		case len(vals) > 0:
			l := pick(g, vals)
			c.Kind = pick(g, []string{"dec", "hex", "bin", "oct", "float", "date", "datetime", "time"})
			*l = Lit{Kind: "int", Text: g.badLit(c.Kind)}
			c.Bad = l.Text
		}
	}
	return c
}

// ownLits returns all literals of the query's own level.
func ownLits(q *Query) []*Lit {
	var z []*Lit
	q.walkOwnItems(func(it *Item, _ string, _ bool) {
		if it.Kind == "lit" {
			z = append(z, it.Lit)
		}
		z = append(z, it.List...)
	})
	return z
}

func checkP05(c LitCase, o *Obs) error {
	if c.Bad != "" {
		o.nt()
		o.label("bad " + c.Kind)
		r, err := parse(c.text())
		if _, is := err.(*shapeError); is {
			return err
		}
		if err == nil {
			_ = r
			return fmt.Errorf("%s denotes no value but the query was accepted", c.Bad)
		}
		return nil
	}
	m, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	n, kinds := 0, map[string]bool{}
	for _, x := range m.all() {
		for _, l := range ownLits(x.Q) {
			n++
			kinds[l.Kind] = true
			o.label(l.Kind)
		}
		for i, it := range x.Q.Items {
			if err := itemErr(fmt.Sprintf("query on %s: select item %d", x.name(), i+1), it, &x.R.Fields[i], false); err != nil {
				return err
			}
		}
		for _, y := range []struct {
			n string
			c *Cond
			r []CND
		}{{"where", x.Q.Where, x.R.Where}, {"having", x.Q.Having, x.R.Having}} {
			_, leaves, err := tree(y.r)
			if err != nil {
				return err
			}
			wl := y.c.leaves()
			if len(wl) != len(leaves) {
				return fmt.Errorf("query on %s: %s: %d comparisons instead of %d", x.name(), y.n, len(leaves), len(wl))
			}
			for i := range wl {
				w := fmt.Sprintf("query on %s: %s comparison %d", x.name(), y.n, i+1)
				if err := itemErr(w, wl[i].X, leaves[i].X, false); err != nil {
					return err
				}
				if err := itemErr(w, wl[i].Y, leaves[i].Y, false); err != nil {
					return err
				}
			}
		}
		ol := x.R.OffsetAndLimit
		for _, y := range []struct {
			n string
			l *Lit
			v int64
			p string
		}{{"offset", x.Q.Offset, ol.Offset, ol.OffsetParamName}, {"limit", x.Q.Limit, ol.Limit, ol.LimitParamName}} {
			if y.l == nil {
				continue
			}
			if y.l.Kind == "param" && (y.p != y.l.S || y.v != 0) || y.l.Kind == "int" && (y.v != y.l.I || y.p != "") {
				return fmt.Errorf("query on %s: %s %s: got %d %q", x.name(), y.n, y.l.Text, y.v, y.p)
			}
		}
	}
	o.labelIf(n >= 10, "10+ literals")
	if n >= 4 && len(kinds) >= 3 {
		o.nt()
	}
	return nil
}
