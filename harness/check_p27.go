package main

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

// Names and values carry no meaning: P27 renames the names of a query one-to-one and exchanges its literals.

type RenameCase struct {
	Q      *Query `json:"q"`
	Muts   []Mut  `json:"muts,omitempty"`
	Layout uint64 `json:"layout,omitempty"`
	// new name of each name (in lower case) that changes
	Ren map[string]string `json:"ren"`
	// the literals of the second query, in the order of eachLit
	Lits []*Lit `json:"lits,omitempty"`
}

func init() {
	defProp("P27",
		"a generated query with names that begin with keywords, in a third of the cases after token mutations (mostly rejected then); a one-to-one renaming of its names (fresh names, names that begin or end with keywords, names over one letter, exchanged names, quoted names with any characters) and, if not mutated, other literals of the same types; both texts must be accepted, with the same result up to the renaming and the literals, or both rejected; non-trivial: at least three names change",
		80000, 6000000, genRename, checkP27, func(c RenameCase) string { a, b := c.texts(); return a + "\nas: " + b })
}

func (c RenameCase) texts() (string, string) {
	q := c.Q
	if len(c.Lits) > 0 {
		q = cloneQuery(q)
		i := 0
		eachLit(q, func(l *Lit) {
			if i < len(c.Lits) && c.Lits[i] != nil {
				*l = *c.Lits[i]
			}
			i++
		})
	}
	ta, tb := tokens(c.Q), tokens(q)
	if len(c.Muts) > 0 {
		ta, tb = mutateAll(ta, c.Muts), mutateAll(tb, c.Muts)
	}
	tb = append([]Tok{}, tb...)
	for i, t := range tb {
		if t.K != "name" && t.K != "qname" {
			continue
		}
		n := unquote(t.S)
		if r, ok := c.Ren[lc(n)]; ok {
			if strings.HasPrefix(t.S, `"`) {
				tb[i].S = quoteName(r)
			} else {
				tb[i].S = r
			}
		}
	}
	if len(c.Muts) > 0 {
		return layoutX(ta, c.Layout, true), layoutX(tb, c.Layout, true)
	}
	return layout(ta, c.Layout), layout(tb, c.Layout)
}

// eachLit visits the literals whose value may be exchanged.
func eachLit(q *Query, f func(l *Lit)) {
	q.walkQueries(func(q *Query) {
		q.walkOwnItems(func(it *Item, _ string, _ bool) {
			if it.Lit != nil {
				f(it.Lit)
			}
			for _, l := range it.List {
				f(l)
			}
		})
	})
}

// meaning are the names that the language gives a meaning somewhere.
var meaning = func() map[string]bool {
	z := map[string]bool{"count": true, "count_distinct": true, "fields": true, "all": true, "standard": true, "custom": true}
	for k := range literalWords {
		z[k] = true
	}
	for _, ws := range [][]string{dateLiterals0, dateLiteralsN, {"select", "from", "where", "having", "limit", "offset", "order", "group", "by", "for", "view", "reference", "update", "tracking", "viewstat", "asc", "desc", "nulls", "first", "last", "in", "like", "includes", "excludes", "nan", "infinity"}} {
		for _, w := range ws {
			z[lc(w)] = true
		}
	}
	return z
}()

var generatedName = regexp.MustCompile(`^expr[0-9]+$`)

func fixedName(n string) bool {
	if meaning[n] || generatedName.MatchString(n) {
		return true
	}
	for _, c := range []byte(n) {
		if c >= 0x80 {
			return true
		}
	}
	return false
}

func genRename(t *rapid.T) RenameCase {
	o := defOpts()
	g := &G{t: t, o: o}
	o.KwNames = g.p(50)
	if g.p(20) {
		o.FromMore, o.Alias = 60, 70
	}
	c := RenameCase{Q: genQuery(t, o)}
	if g.p(25) {
		c.Layout = uint64(rapid.IntRange(1, 1<<30).Draw(t, "layout"))
	}
	ts := tokens(c.Q)
	if g.p(33) {
		muts := []Mut{}
		for i := g.rng(1, 2); i > 0; i-- {
			muts = append(muts, g.mut(ts, false))
		}
		// a point next to a number would make it depend on the name
		m, ok := mutateAll(ts, muts), true
		for i := 1; i < len(m); i++ {
			ok = ok && (m[i].S != "." || m[i-1].K != "lit") && (m[i-1].S != "." || m[i].K != "lit")
		}
		if ok {
			c.Muts, ts = muts, m
		}
	}
	if len(c.Muts) == 0 && g.p(70) {
		eachLit(c.Q, func(l *Lit) {
			switch l.Kind {
			case "int", "float", "string", "bool", "date", "datetime", "time":
				if g.p(70) {
					c.Lits = append(c.Lits, g.lit(l.Kind))
					return
				}
			}
			c.Lits = append(c.Lits, nil)
		})
	}
	c.Ren = g.renaming(ts)
	return c
}

// renaming draws new names for the names of a text.
func (g *G) renaming(ts []Tok) map[string]string {
	ren := map[string]string{}
	quoted := map[string]bool{} // only written in quotes
	taken := map[string]bool{}
	for _, t := range ts {
		if t.K != "name" && t.K != "qname" {
			continue
		}
		n := unquote(t.S)
		k := lc(n)
		if _, ok := quoted[k]; !ok {
			quoted[k] = true
		}
		quoted[k] = quoted[k] && strings.HasPrefix(t.S, `"`)
		taken[k] = true
	}
	var plain, free []string
	for k, q := range quoted {
		if fixedName(k) || !q && !isPlainName(k) {
			continue
		}
		free = append(free, k)
		if isPlainName(k) && !q {
			plain = append(plain, k)
		}
	}
	sort.Strings(free)
	sort.Strings(plain)
	// paths of the text, a part of which may be the new name of a quoted name
	var chains [][]string
	for i := 0; i < len(ts); i++ {
		ch := []string{}
		for ; i < len(ts) && (ts[i].K == "name" || ts[i].K == "qname"); i += 2 {
			ch = append(ch, lc(unquote(ts[i].S)))
			if i+1 >= len(ts) || ts[i+1].S != "." {
				break
			}
		}
		if len(ch) > 1 {
			chains = append(chains, ch)
		}
	}
	sep := pick(g, []string{".", ".", ".", "", "_", "/", ":", ",", " ", "-", "|", "$"})
	mode := g.w(3, 3, 2, 2)
	if mode == 3 { // exchange
		p := rapid.Permutation(plain).Draw(g.t, "perm")
		for i, k := range plain {
			ren[k] = p[i]
		}
		return ren
	}
	sort.SliceStable(free, func(i, j int) bool { return !quoted[free[i]] && quoted[free[j]] })
	for _, k := range free {
		if mode != 2 && g.p(20) {
			continue
		}
		for try := 0; try < 20; try++ {
			n := ""
			m := mode
			if g.p(15) {
				m = g.u(3)
			}
			switch {
			case quoted[k] && len(chains) > 0 && g.p(40):
				ch := append([]string{}, pick(g, chains)...)
				from := g.u(len(ch) - 1)
				ch = ch[from : from+2+g.u(len(ch)-from-1)]
				for i, n := range ch {
					if r, ok := ren[n]; ok {
						ch[i] = lc(r)
					}
				}
				n = strings.Join(ch, sep)
			case quoted[k] && g.p(60):
				_, n = g.strBody(`"`, false, 1+g.u(8))
				n = strings.Map(func(r rune) rune {
					if r >= 0x80 || r < ' ' {
						return '.'
					}
					return r
				}, n)
			case m == 0: // anything
				for j := g.rng(1, 8); j > 0; j-- {
					n += pick(g, []string{"a", "B", "c", "_", "x", "__c", "__r", "Id", "9", "Q"})
				}
			case m == 1: // like a keyword
				n = g.likeWord()
			default: // names that differ in length only
				n = strings.Repeat(pick(g, []string{"a", "aa", "a_"}), 1+g.u(12))
			}
			n = g.anyCase(n)
			if n == "" || fixedName(lc(n)) || taken[lc(n)] || !quoted[k] && !isPlainName(n) || mustQuote[lc(n)] {
				continue
			}
			taken[lc(n)] = true
			ren[k] = n
			break
		}
	}
	return ren
}

var kwLike = []string{"select", "from", "where", "having", "limit", "offset", "order", "group", "by", "for", "view", "update", "not", "and", "or", "in", "like", "includes", "excludes", "asc", "desc", "nulls", "null", "true", "false", "nan", "infinity", "today", "last_n_days", "count", "fields", "expr", "all", "sum", "e5", "date", "account"}

// canon renames the names of a result and removes the values of its literals.
type canon struct {
	ren  map[string]string
	seen map[[2]uintptr]bool
}

func (c *canon) name(s string) string {
	k := lc(s)
	if r, ok := c.ren[k]; ok {
		return lc(r)
	}
	return k
}

func (c *canon) key(s string) string {
	parts := strings.Split(s, ".")
	for i, p := range parts {
		if b, err := base64.StdEncoding.DecodeString(p); err == nil {
			parts[i] = base64.StdEncoding.EncodeToString([]byte(c.name(string(b))))
		}
	}
	return strings.Join(parts, ".")
}

func (c *canon) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			c.walk(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			c.walk(e)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		if v.NumField() == 0 {
			return
		}
		k := [2]uintptr{v.Addr().Pointer(), reflect.ValueOf(v.Type()).Pointer()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		switch x := v.Addr().Interface().(type) {
		case *types.SoqlFieldInfo:
			x.Value = c.value(x.Value, x.Type)
		case *types.SoqlListItem:
			x.Value = c.value(x.Value, x.Type)
			return
		case *types.SoqlQueryMeta:
			x.Functions, x.Parameters = c.set(x.Functions), c.set(x.Parameters)
		case *types.SoqlOffsetAndLimitClause:
			if x.OffsetParamName != "" {
				x.OffsetParamName = c.name(x.OffsetParamName)
			}
			if x.LimitParamName != "" {
				x.LimitParamName = c.name(x.LimitParamName)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch n := v.Type().Field(i).Name; {
			case (n == "Name" || n == "AliasName") && f.Kind() == reflect.String:
				if f.String() != "" {
					f.SetString(c.name(f.String()))
				}
			case n == "Name":
				if z := f.Interface().([]string); z != nil {
					y := make([]string, len(z))
					for i, s := range z {
						y[i] = c.name(s)
					}
					f.Set(reflect.ValueOf(y))
				}
			case n == "Key":
				if f.String() != "" {
					f.SetString(c.key(f.String()))
				}
			case n == "Value" && f.Kind() == reflect.Interface:
			default:
				c.walk(f)
			}
		}
	}
}

func (c *canon) set(m map[string]struct{}) map[string]struct{} {
	if m == nil {
		return nil
	}
	z := map[string]struct{}{}
	for k := range m {
		z[c.name(k)] = struct{}{}
	}
	return z
}

func (c *canon) value(v interface{}, t types.SoqlFieldInfoType) interface{} {
	switch x := v.(type) {
	case nil, types.SoqlDateTimeLiteralName:
		return v
	case []types.SoqlListItem:
		c.walk(reflect.ValueOf(x))
		return x
	case string:
		if t == types.SoqlFieldInfo_ParameterizedValue {
			return c.name(x)
		}
	}
	// a literal: its type only
	return fmt.Sprintf("%T", v)
}

func checkP27(c RenameCase, o *Obs) error {
	a, b := c.texts()
	ra, ea := parse(a)
	rb, eb := parse(b)
	for _, e := range []error{ea, eb} {
		if _, is := e.(*shapeError); is {
			return e
		}
	}
	changed := 0
	for k, n := range c.Ren {
		if lc(n) != k {
			changed++
		}
	}
	if changed >= 3 {
		o.nt()
	}
	if len(c.Muts) == 0 {
		labelQuery(o, c.Q)
		o.labelIf(len(c.Lits) > 0, "other literals")
	} else {
		o.labelIf(ea != nil, "mutated, rejected")
		o.labelIf(ea == nil, "mutated, accepted")
	}
	if (ea == nil) != (eb == nil) {
		return fmt.Errorf("only one of the texts is accepted: %v / %v", ea, eb)
	}
	if ea != nil {
		if len(c.Muts) == 0 {
			return fmt.Errorf("a valid query was rejected: %v", ea)
		}
		return nil
	}
	(&canon{c.Ren, map[[2]uintptr]bool{}}).walk(reflect.ValueOf(ra))
	(&canon{nil, map[[2]uintptr]bool{}}).walk(reflect.ValueOf(rb))
	if d := sameResult(ra, rb, true); d != "" {
		return fmt.Errorf("the results differ: %s", d)
	}
	return nil
}
