package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

// SpellCase is a query, the same query in another spelling, and optionally a duplicate alias injected into it.
type SpellCase struct {
	Q      *Query `json:"q"`
	B      *Query `json:"b"`
	Layout uint64 `json:"layout,omitempty"`
	Dup    *Query `json:"dup,omitempty"`   // B with a duplicate object alias
	Fresh  *Query `json:"fresh,omitempty"` // B with a fresh alias at the same place
}

func init() {
	defProp("P07",
		"a generated query and a consistent respelling of it (every reference and FROM path in another equivalent form and letter case, object aliases renamed, added and removed); every reference of both must denote the intended object and the results must be equal but for letter case and alias names; in a quarter of the cases a duplicate object alias (any letter case) is injected, which must be rejected while a fresh alias at the same place is accepted; non-trivial: some reference is written in another form, not only in another letter case",
		50000, 4000000, genP07, checkP07,
		func(c SpellCase) string {
			s := layout(tokens(c.Q), c.Layout) + "\nrespelled: " + render(c.B)
			if c.Dup != nil {
				s += "\nduplicate alias: " + render(c.Dup)
			}
			return s
		})
}

func genP07(t *rapid.T) SpellCase {
	o := defOpts()
	o.RelPath, o.Alias, o.FromMore, o.SelSub, o.Corr = 60, 60, 50, 18, 35
	o.MaxItems = 4
	o.CaseVar, o.Quote = 25, 8
	c := SpellCase{Q: genQuery(t, o)}
	g := &G{t: t, o: o}
	if g.p(30) {
		c.Layout = uint64(rapid.IntRange(1, 1<<30).Draw(t, "layout"))
	}
	c.B = cloneQuery(c.Q)
	g.respell(c.B, "primary", nil)
	if g.p(25) {
		c.Dup, c.Fresh = g.dupAlias(c.B)
	}
	return c
}

// pathWords collects (lower case) all names that occur in object paths or qualifiers of the query and its select subqueries.
func pathWords(q *Query) map[string]bool {
	z := map[string]bool{}
	add := func(p []string) {
		for _, x := range p {
			z[lc(x)] = true
		}
	}
	q.walkQueries(func(q *Query) {
		for _, f := range q.From {
			add(f.Path)
		}
		q.walkOwnItems(func(it *Item, _ string, _ bool) {
			if it.Ref != nil {
				add(it.Ref.Obj)
			}
		})
		for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
			for _, k := range ks {
				if k.Ref != nil {
					add(k.Ref.Obj)
				}
			}
		}
	})
	return z
}

var freshAliases = []string{"zq1", "zq2", "Zq3", "zq4", "zq5", "zq6", "zq7", "zq8", "zq9", "nota", "fromz", "selectz"}

// plainName reports whether the name can be written without quotes anywhere.
func plainName(s string) bool {
	r := &recog{s: s}
	return r.name(0) == len(s) && !r.reserved(0)
}

// respell rewrites every name of the query in another equivalent form.
func (g *G) respell(q *Query, place string, parent *scope) {
	s := &scope{place: place, parent: parent, env: map[string]Path{}, objs: map[string]Path{}, own: map[string]bool{}, q: q}
	head := q.From[0]
	s.head = head.Path
	if place == "select" {
		for k, v := range parent.env {
			s.env[k] = v
		}
		base, rel := head.Path[:len(head.Path)-1], head.Path[len(head.Path)-1]
		var forms [][]string
		if base.key() == parent.head.key() {
			forms = append(forms, []string{rel})
		}
		for _, name := range sortedKeys(parent.env) {
			b := parent.env[name]
			if base.hasPrefix(b) && (len(b) == len(base) || len(b) == 1) {
				forms = append(forms, append(append([]string{name}, base[len(b):]...), rel))
			}
		}
		head.Parts = nil
		for _, x := range pick(g, forms) {
			head.Parts = append(head.Parts, g.spellName(x))
		}
	} else {
		head.Parts = []string{g.spellName(head.Path[0])}
		s.env[lc(head.Path[0])] = head.Path
	}
	s.register(s.head)
	words := pathWords(q)
	kept := map[string]bool{}
	for _, f := range q.From {
		kept[lc(f.Alias)] = true
	}
	for i, f := range q.From {
		if i > 0 {
			var parts []string
			ok := false
			for n := 0; n < 10 && !ok; n++ {
				parts, ok = g.spellPath(s, f.Path, true, place != "select")
				if ok && place == "select" && !g.qualifiedByVisible(s, parts) {
					ok = false
				}
			}
			if !ok {
				panic("respell: no spelling for " + dot(f.Path))
			}
			f.Parts = parts
			s.register(f.Path)
		}
		a := f.Alias
		switch g.w(3, 4, 2) {
		case 1: // rename or add
			for n := 0; n < 5; n++ {
				x := pick(g, freshAliases)
				if _, vis := s.env[lc(x)]; !s.own[lc(x)] && !words[lc(x)] && !kept[lc(x)] && (!vis || g.p(50)) {
					a = x
					break
				}
			}
		case 2:
			a = ""
		}
		f.Alias = ""
		if a != "" {
			f.Alias = g.caseOf(a)
			s.own[lc(a)] = true
			s.env[lc(a)] = f.Path
		}
	}
	ref := func(r *Ref, noBare bool) {
		for n := 0; ; n++ {
			rel, qual := true, noBare
			if r.Outer {
				rel, qual = false, true
			}
			parts, ok := g.spellPath(s, r.Obj, qual, rel)
			if !ok {
				panic("respell: no spelling for " + dot(r.full()) + " in " + dot(s.head))
			}
			if r.Outer && s.own[lc(unquote(parts[0]))] && n < 20 {
				continue
			}
			r.Parts = append(parts, g.spellCase(r.Parts[len(r.Parts)-1]))
			return
		}
	}
	itemAliases := map[string]bool{}
	for _, it := range q.Items {
		itemAliases[lc(it.Alias)] = true
	}
	q.walkOwnItems(func(it *Item, clause string, arg bool) {
		switch it.Kind {
		case "field":
			ref(it.Ref, false)
			if literalWords[lc(it.Ref.Parts[0])] {
				it.Ref.Parts[0] = quoteName(unquote(it.Ref.Parts[0]))
			}
		case "fset":
			if parts, ok := g.fieldsetSpell(s, it.Ref.Obj); ok {
				it.Ref.Parts = append(parts, it.Ref.Field)
			} else {
				panic("respell: no spelling for field set")
			}
		}
	})
	for _, ks := range [][]*Key{q.GroupBy, q.OrderBy} {
		for _, k := range ks {
			if k.Ref != nil {
				ref(k.Ref, itemAliases[lc(k.Ref.Field)])
			} else {
				k.Alias = g.caseOf(k.Alias)
			}
		}
	}
	sel, wh, hv := q.subs()
	for _, x := range sel {
		g.respell(x, "select", s)
	}
	for _, x := range append(wh, hv...) {
		g.respell(x, "cond", nil)
	}
}

// spellCase changes the quoting of a field name, but not its letters.
func (g *G) spellCase(tok string) string {
	n := unquote(tok)
	if g.p(15) {
		return quoteName(n)
	}
	return tokenName(n)
}

// dupAlias gives an additional object of some query the alias of another one (dup), or a fresh alias.
func (g *G) dupAlias(q *Query) (dup, fresh *Query) {
	var cands []int
	i := 0
	q.walkQueries(func(x *Query) {
		for _, f := range x.From {
			if f.Alias != "" {
				cands = append(cands, i)
				break
			}
		}
		i++
	})
	if len(cands) == 0 {
		return nil, nil
	}
	at := pick(g, cands)
	make1 := func(f func(x *Query)) *Query {
		z := cloneQuery(q)
		i := 0
		z.walkQueries(func(x *Query) {
			if i == at {
				f(x)
			}
			i++
		})
		return z
	}
	k, up := g.u(8), g.u(3)
	add := func(x *Query, alias string) {
		p := x.head().add("Zrel__r")
		// an alias of the query itself is always visible in it
		base := ""
		for _, f := range x.From {
			if f.Alias != "" && f.Path.key() == x.head().key() {
				base = f.Alias
			}
		}
		if base == "" {
			for _, f := range x.From {
				if f.Alias != "" {
					base = f.Alias
					p = f.Path.add("Zrel__r")
				}
			}
		}
		x.From = append(x.From, &FromObj{Path: p, Parts: []string{base, "Zrel__r"}, Alias: alias})
	}
	dup = make1(func(x *Query) {
		var as []string
		for _, f := range x.From {
			if f.Alias != "" {
				as = append(as, f.Alias)
			}
		}
		if root := x.head()[0]; k >= 6 && plainName(root) {
			// the name all absolute paths begin with
			as = []string{root}
		}
		a := as[k%len(as)]
		switch up {
		case 1:
			a = asciiUpper(a)
		case 2:
			a = asciiLower(a)
		}
		add(x, a)
	})
	fresh = make1(func(x *Query) { add(x, "zz9") })
	return
}

func checkP07(c SpellCase, o *Obs) error {
	ma, _, err := modelOf(c.Q, c.Layout)
	if err != nil {
		return err
	}
	mb, _, err := modelOf(c.B, 0)
	if err != nil {
		return fmt.Errorf("respelled: %v", err)
	}
	labelQuery(o, c.Q)
	for i, m := range []*M{ma, mb} {
		for _, x := range m.all() {
			if _, err := x.pairs(); err != nil {
				return fmt.Errorf("%s: query on %s: %v", []string{"original", "respelled"}[i], x.name(), err)
			}
		}
	}
	// did the form of a reference change?
	var fa, fb []string
	forms := func(q *Query, z *[]string) {
		q.walkQueries(func(q *Query) {
			q.walkOwnItems(func(it *Item, _ string, _ bool) {
				if it.Ref != nil {
					*z = append(*z, lc(strings.Join(it.Ref.Parts, ".")))
				}
			})
		})
	}
	forms(c.Q, &fa)
	forms(c.B, &fb)
	changed := 0
	for i := range fa {
		if strings.ReplaceAll(fa[i], `"`, "") != strings.ReplaceAll(fb[i], `"`, "") {
			changed++
		}
	}
	if changed > 0 {
		o.nt()
	}
	o.labelIf(changed >= 3, "3+ references respelled")
	al := false
	qa, qb := []string{}, []string{}
	c.Q.walkQueries(func(q *Query) {
		for _, f := range q.From {
			qa = append(qa, lc(f.Alias))
		}
	})
	c.B.walkQueries(func(q *Query) {
		for _, f := range q.From {
			qb = append(qb, lc(f.Alias))
		}
	})
	for i := range qa {
		al = al || qa[i] != qb[i]
	}
	o.labelIf(al, "object aliases changed")

	d := newDiffer(true)
	d.skip = func(t reflect.Type, f string) bool {
		return skipVolatileSrc(t, f) || t == reflect.TypeOf(types.SoqlObjectInfo{}) && f == "AliasName"
	}
	d.eqStr = func(path, a, b string) bool {
		if i := strings.LastIndexByte(path, '.'); i >= 0 && (strings.HasPrefix(path[i:], ".Name") || path[i:] == ".AliasName") {
			return lc(a) == lc(b)
		}
		return false
	}
	if s := d.diff("q", reflect.ValueOf(ma.R), reflect.ValueOf(mb.R)); s != "" {
		return fmt.Errorf("the results of the two spellings differ: %s", s)
	}
	if c.Dup != nil {
		o.label("duplicate alias")
		if _, err := parseQ(render(c.Fresh)); err != nil {
			return fmt.Errorf("%s: %v", render(c.Fresh), err)
		}
		if err := rejected(render(c.Dup), "an object alias is used twice"); err != nil {
			return fmt.Errorf("%s: %v", render(c.Dup), err)
		}
	}
	return nil
}
