package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Opts are the knobs of the query generator (percentages unless noted).
type Opts struct {
	MaxQueries int // queries in total
	MaxNest    int // nesting depth of queries
	SelSub     int // chance of a select subquery per select item
	CondSub    int // chance of a subquery as right operand
	Agg        int // chance of an aggregation
	Where      int
	Having     int
	OrderBy    int
	OffLim     int
	For        int
	FromMore   int // chance of further declared objects
	Alias      int // chance of object aliases
	ItemAlias  int
	Func       int // chance of a function as item or operand
	RelPath    int // chance of a reference to another object than the head
	NewRel     int // chance of reaching an object not registered yet
	Corr       int // chance of correlated reference in where
	Not        int
	MaxLeaves  int // number
	MaxItems   int // number
	LitHeavy   bool
	LitKinds   []string
	CaseVar    int
	Quote      int
	Paren      int
	DupItem    int
	FieldSet   int
	MaxOrder   int  // order keys, number (default 3)
	KwNames    bool // names that begin with keywords everywhere

	Wide    int // chance of unusual sizes
	NoDeep  bool
	MaxList int // sizes, 0: default
	MaxArgs int
	MaxFrom int
	MaxPath int
	MaxKeys int
	Long    int // chance of long names and strings
	Many    int // chance of numbered field names, so that there are many
}

// widen draws unusual sizes.
func (g *G) widen() {
	o := &g.o
	up := func(p *int, n int) {
		if *p < n {
			*p = n
		}
	}
	huge := func(n int) int {
		if g.p(8) {
			return n * 6
		}
		return n
	}
	switch g.u(9) {
	case 0, 1:
		up(&o.MaxItems, huge(pick(g, []int{14, 25, 60})))
		o.SelSub /= 4
		o.Many = pick(g, []int{10, 60})
	case 2:
		up(&o.MaxLeaves, huge(pick(g, []int{16, 40})))
		o.CondSub /= 4
	case 3:
		o.MaxFrom, o.FromMore = huge(pick(g, []int{10, 20})), 95
		up(&o.MaxItems, 12)
		o.Alias = pick(g, []int{0, 30, 60})
		o.RelPath = 80
	case 4:
		up(&o.MaxOrder, huge(20))
		o.MaxKeys = huge(16)
		o.OrderBy, o.Agg = 90, 60
		o.Many = 70
		up(&o.MaxItems, 20)
	case 5:
		o.MaxList, o.MaxArgs = huge(150), huge(20)
		o.CondSub, o.Func = 0, 40
	case 6:
		o.Long = 25
	case 7:
		o.MaxPath = huge(10)
		o.RelPath, o.NewRel = 75, 75
	default:
		if !o.NoDeep {
			up(&o.MaxNest, 6)
			up(&o.MaxQueries, 9)
			if g.p(15) {
				up(&o.MaxNest, 16)
				up(&o.MaxQueries, 18)
			}
			g.fuel = o.MaxQueries - 1
			o.SelSub, o.CondSub = 30, 8
			o.Agg, o.MaxItems, o.MaxLeaves = 0, 3, 2
		}
	}
}

func defOpts() Opts {
	return Opts{
		MaxQueries: 5, MaxNest: 3, SelSub: 14, CondSub: 8, Agg: 25, Where: 65, Having: 60, OrderBy: 45, OffLim: 30,
		For: 15, FromMore: 35, Alias: 50, ItemAlias: 30, Func: 22, RelPath: 40, NewRel: 45, Corr: 25, Not: 25,
		MaxLeaves: 6, MaxItems: 5, CaseVar: 12, Quote: 5, Paren: 12, DupItem: 12, FieldSet: 5, Wide: 3,
	}
}

var (
	rootPool   = []string{"Account", "Contact", "Lead", "Case", "fromx__c", "selector", "Order", "A", "orders"}
	toOnePool  = []string{"Owner", "Parent", "Manager", "Foo__r", "forx", "wherex", "group_by", "nully", "limits"}
	toManyPool = []string{"Contacts", "Cases", "Tasks", "Lines__r", "offsets", "havings", "views"}
	qualPool   = []string{"a", "b", "con", "x1", "acc", "nots", "ascx", "ink", "likely", "order", "forreference"}
	fieldPool  = []string{"Id", "Name", "Amount", "Foo__c", "CreatedDate", "Type", "fromdate", "selected", "orderid", "grouping",
		"havingx", "offset1", "limitx", "forview", "wherever", "nullable", "todays", "trueish", "NaNa", "asc1", "notes", "andy",
		"orx", "liked", "inx", "includesx", "_f1", "$f", "f$2", "nulls1", "Contacts", "Owner", "Cases",
		"THIS_WEEKx", "infinityx", "false_", "x0b1", "null1", "last_n_days_", "fieldsx", "counted", "groups", "order2", "forx1", "updatex", "nanx", "True2", "orderby", "forupdate"}
	itemAliasPool = []string{"n", "total", "al1", "al2", "Cnt", "x", "exprx", "expr0", "expr1", "Expr2", "fromalias", "expr9", "expr10", "EXPR11", "y_", "selects", "groupBy"}
	scalarFuncs   = []string{"format", "toLabel", "calendar_year", "convertCurrency", "Distance", "fx__c", "fromfn", "lower"}
	aggFuncs      = []string{"sum", "max", "MIN", "avg", "custom_agg"}
	quotedPool    = []string{`a b`, `select`, `x.y`, `日本`, `q"t`, `from`, `é`, `null`, `tab	x`, `--c`, `it's`}
)

type scope struct {
	place  string // primary select cond
	head   Path
	env    map[string]Path // visible names (lower case): aliases and the root name
	parent *scope
	objs   map[string]Path
	order  []Path
	own    map[string]bool // own aliases (lower)
	q      *Query
	decl   []Path // declared objects, heads included
}

func lc(s string) string { return strings.ToLower(s) }

func (s *scope) register(p Path) {
	for i := len(s.head); i <= len(p); i++ {
		if i == 0 {
			continue
		}
		k := p[:i].key()
		if _, ok := s.objs[k]; !ok {
			s.objs[k] = p[:i].clone()
			s.order = append(s.order, p[:i].clone())
		}
	}
}

func quoteName(s string) string {
	r := strings.NewReplacer(`\`, `\\`, `"`, `\"`)
	return `"` + r.Replace(s) + `"`
}

// keywords used as names are always quoted
var mustQuote = map[string]bool{"select": true, "from": true, "null": true}

// tokenName is the text of a name as it is written in a query.
func tokenName(s string) string {
	if isPlainName(s) && !mustQuote[lc(s)] {
		return s
	}
	return quoteName(s)
}

// spellName draws a spelling (letter case, quotes) of a name.
func (g *G) spellName(s string) string {
	if g.p(g.o.CaseVar) {
		switch g.u(3) {
		case 0:
			s = asciiUpper(s)
		case 1:
			s = asciiLower(s)
		default:
			b := []byte(s)
			for i := range b {
				if i%2 == 0 {
					b[i] = upByte(b[i])
				}
			}
			s = string(b)
		}
	}
	if g.p(g.o.Quote) {
		if g.p(25) {
			return g.quoteEsc(s)
		}
		return quoteName(s)
	}
	return tokenName(s)
}

// quoteEsc quotes a name and writes one of its characters as an escape sequence.
func (g *G) quoteEsc(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return quoteName(s)
	}
	i := g.u(len(rs))
	r := rs[i]
	e := ""
	switch k := g.u(4); {
	case k == 0 && r < 0x100:
		e = fmt.Sprintf(`\x%02X`, r)
	case k == 1 && r < 0x100:
		e = fmt.Sprintf(`\%03o`, r)
	case k == 2 && r < 0x10000:
		e = fmt.Sprintf(`\u%04x`, r)
	default:
		e = fmt.Sprintf(`\u{%x}`, r)
	}
	a, b := quoteName(string(rs[:i])), quoteName(string(rs[i+1:]))
	return a[:len(a)-1] + e + b[1:]
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// unquote returns the name written by a token of tokenName, quoteName or quoteEsc.
func unquote(tok string) string {
	if !strings.HasPrefix(tok, `"`) {
		return tok
	}
	tok = tok[1 : len(tok)-1]
	var z strings.Builder
	for i := 0; i < len(tok); i++ {
		if tok[i] != '\\' {
			z.WriteByte(tok[i])
			continue
		}
		i++
		digits, base, skip := "", 16, 0
		switch c := tok[i]; {
		case c == 'x':
			digits = tok[i+1 : i+3]
			skip = 2
		case c == 'u' && tok[i+1] == '{':
			n := strings.IndexByte(tok[i:], '}')
			digits = tok[i+2 : i+n]
			skip = n
		case c == 'u':
			digits = tok[i+1 : i+5]
			skip = 4
		case '0' <= c && c <= '7':
			digits, base = tok[i:i+3], 8
			skip = 2
		default:
			z.WriteByte(c)
			continue
		}
		v, err := strconv.ParseInt(digits, base, 32)
		if err != nil {
			panic("unquote " + tok)
		}
		z.WriteRune(rune(v))
		i += skip
	}
	return z.String()
}

func (g *G) fieldName() string {
	if g.p(g.o.Long) {
		return "Long_" + strings.Repeat("field_name_", g.rng(1, 80)) + pick(g, []string{"a", "b", "c"})
	}
	if g.p(g.o.Many) {
		return "m" + strconv.Itoa(g.u(64))
	}
	if g.p(g.o.Quote) {
		if len(g.paths) > 0 && g.p(50) {
			return pick(g, g.paths)
		}
		return pick(g, quotedPool)
	}
	if g.p(4) {
		return g.likeWord()
	}
	if !g.o.KwNames && g.p(60) {
		return fieldPool[g.u(5)]
	}
	return pick(g, fieldPool)
}

// relName draws a to-one relationship name that is not visible as a qualifier.
func (g *G) relName(s *scope) string {
	for i := 0; i < 20; i++ {
		n := ""
		switch g.w(8, 3, 1) {
		case 0:
			n = pick(g, toOnePool)
			if g.p(4) {
				n = g.likeWord()
			}
			if g.p(g.o.Quote) && len(g.paths) > 0 {
				n = pick(g, g.paths)
			}
		case 1:
			n = pick(g, qualPool)
		default:
			n = pick(g, rootPool)
		}
		if _, ok := s.env[lc(n)]; !ok {
			return n
		}
	}
	return "Rel__r"
}

// target draws an object of the query's own, possibly one not registered yet.
func (g *G) target(s *scope, allowNew bool) Path {
	if !g.p(g.o.RelPath) {
		return s.head
	}
	p := pick(g, s.order)
	if allowNew && g.p(g.o.NewRel) {
		for n := 1 + g.u(2); n > 0 && len(p) < or(g.o.MaxPath, 5); n-- {
			p = p.add(g.relName(s))
		}
	}
	return p
}

// spellPath returns the written qualifier of the object in the scope, nil if it is bare.
// qualified forbids the bare form.
func (g *G) spellPath(s *scope, p Path, qualified bool, allowRel bool) ([]string, bool) {
	type opt struct{ parts []string }
	var opts []opt
	sp := func(parts []string) []string {
		z := []string{}
		for _, x := range parts {
			z = append(z, g.spellName(x))
		}
		return z
	}
	if p.key() == s.head.key() && !qualified {
		opts = append(opts, opt{nil})
	}
	if allowRel && p.hasPrefix(s.head) && len(p) > len(s.head) {
		opts = append(opts, opt{p[len(s.head):]})
	}
	for _, name := range sortedKeys(s.env) {
		q := s.env[name]
		if p.hasPrefix(q) && len(q) > 0 {
			opts = append(opts, opt{append([]string{name}, p[len(q):]...)})
		}
	}
	if len(opts) == 0 {
		return nil, false
	}
	if s.place != "select" && g.p(12) {
		// an alias as a step of the path; in a subquery it could be a relationship of the enclosing query as well
		if z := g.aliasPath(s, p, allowRel, 3); z != nil {
			return sp(z), true
		}
	}
	return sp(opts[g.u(len(opts))].parts), true
}

// aliasPath is a spelling of the object in which an alias stands for the last part of its object's path.
func (g *G) aliasPath(s *scope, p Path, allowRel bool, n int) []string {
	var forms [][]string
	for _, name := range sortedKeys(s.env) {
		q := s.env[name]
		if len(q) < 2 || !p.hasPrefix(q) || lc(q[len(q)-1]) == name {
			continue
		}
		tail := append([]string{name}, p[len(q):]...)
		up := q[:len(q)-1]
		if allowRel && up.hasPrefix(s.head) && len(up) > len(s.head) {
			forms = append(forms, append(append([]string{}, up[len(s.head):]...), tail...))
		}
		for _, m := range sortedKeys(s.env) {
			if b := s.env[m]; up.hasPrefix(b) && len(b) > 0 {
				forms = append(forms, append(append([]string{m}, up[len(b):]...), tail...))
			}
		}
		if n > 0 {
			if z := g.aliasPath(s, up, allowRel, n-1); z != nil {
				forms = append(forms, append(append([]string{}, z...), tail...))
			}
		}
	}
	if len(forms) == 0 {
		return nil
	}
	return pick(g, forms)
}

// ref draws a reference to a field of the object, in some spelling, and registers the object.
func (g *G) ref(s *scope, p Path, field string, qualified bool) *Ref {
	parts, ok := g.spellPath(s, p, qualified, true)
	if !ok {
		// cannot happen for own objects
		panic("no spelling for " + strings.Join(p, ".") + " in " + strings.Join(s.head, "."))
	}
	s.register(p)
	if len(p) > 1 {
		// a name that is written like this path
		if n := strings.Join(append(p[1:].clone(), field), "."); len(n) < 60 {
			g.paths = append(g.paths, n)
		}
		if len(p) > 2 && len(strings.Join(p, "")) < 60 {
			g.paths = append(g.paths, strings.Join(p[1:], "."))
		}
	}
	return &Ref{Obj: p.clone(), Field: field, Parts: append(parts, g.spellFieldName(field))}
}

// The letter case of a written field name is kept by the parser, so the field of the reference is matched ignoring case.
func (g *G) spellFieldName(f string) string { return g.spellName(f) }

func sortedKeys[V any](m map[string]V) []string {
	z := make([]string, 0, len(m))
	for k := range m {
		z = append(z, k)
	}
	// insertion sort keeps this dependency free and deterministic
	for i := 1; i < len(z); i++ {
		for j := i; j > 0 && z[j] < z[j-1]; j-- {
			z[j], z[j-1] = z[j-1], z[j]
		}
	}
	return z
}

var literalWords = map[string]bool{"null": true, "true": true, "false": true, "nan": true, "infinity": true, "not": true, "and": true, "or": true}

// operandRef draws a reference usable as an operand or argument.
func (g *G) anyRef(s *scope, clause string) *Ref {
	if clause == "where" && s.place == "select" && g.p(g.o.Corr) {
		if r := g.outerRef(s); r != nil {
			return r
		}
	}
	return g.ref(s, g.target(s, true), g.fieldName(), false)
}

// outerRef draws a reference to a field of an object of the enclosing query.
func (g *G) outerRef(s *scope) *Ref {
	par := s.parent
	p := pick(g, par.order)
	if p.hasPrefix(s.head) {
		return nil
	}
	for _, c := range p {
		if s.own[lc(c)] {
			return nil
		}
	}
	parts, ok := g.spellPath(s, p, true, false)
	if !ok {
		return nil
	}
	f := g.fieldName()
	if g.p(40) {
		// a field which the enclosing query uses already
		var cands []string
		par.q.walkOwnItems(func(it *Item, _ string, _ bool) {
			if it.Kind == "field" && it.Ref.Obj.key() == p.key() && !it.Ref.Outer {
				cands = append(cands, it.Ref.Field)
			}
		})
		if len(cands) > 0 {
			f = pick(g, cands)
		}
	}
	return &Ref{Obj: p.clone(), Field: f, Parts: append(parts, g.spellFieldName(f)), Outer: true}
}

func (g *G) litItem(kinds ...string) *Item {
	if len(kinds) == 0 {
		kinds = g.o.LitKinds
	}
	return &Item{Kind: "lit", Lit: g.lit(kinds...)}
}

func (g *G) listItem() *Item {
	n := g.rng(1, 4)
	if g.o.LitHeavy {
		n = g.rng(1, 8)
	}
	if g.o.MaxList > 0 && g.p(50) {
		n = g.rng(1, g.o.MaxList)
	}
	it := &Item{Kind: "list"}
	for i := 0; i < n; i++ {
		it.List = append(it.List, g.lit(g.o.LitKinds...))
	}
	return it
}

// fn draws a function call. mode: plain, agg, where, having.
func (g *G) fn(s *scope, mode string, group []*Ref, depth int) *Item {
	it := &Item{Kind: "func"}
	agg := mode == "agg" || mode == "having"
	if depth == 0 {
		g.fnMax, g.fnNest, g.fnLeft = 2, 25, 60
		if g.p(3) {
			g.fnMax, g.fnNest = g.rng(3, 9), 80
		}
	}
	arg := func() *Item {
		return &Item{Kind: "field", Ref: g.anyRef(s, mode)}
	}
	other := func() *Item {
		if depth < g.fnMax && g.fnLeft > 0 && g.p(g.fnNest) {
			g.fnLeft--
			return g.fn(s, mode, group, depth+1)
		}
		return g.litItem()
	}
	if agg {
		switch g.w(3, 3, 1, 2) {
		case 0: // count
			it.Fn = pick(g, []string{"count", "COUNT", "Count"})
			if g.p(70) {
				it.Args = []*Item{arg()}
			}
		case 1: // aggregation function
			it.Fn = pick(g, aggFuncs)
			it.Args = []*Item{arg()}
			for g.p(20) {
				if g.p(50) {
					it.Args = append(it.Args, arg())
				} else {
					it.Args = append(it.Args, g.litItem())
				}
			}
		case 2:
			it.Fn = pick(g, []string{"count_distinct", "COUNT_DISTINCT"})
			it.Args = []*Item{arg()}
		default: // scalar function: nested calls, grouped fields, literals
			it.Fn = pick(g, scalarFuncs)
			if g.p(4) {
				it.Fn = g.likeWord()
			}
			it.Args = []*Item{}
			if depth < g.fnMax {
				it.Args = append(it.Args, g.fn(s, mode, group, depth+1))
			} else {
				it.Args = append(it.Args, g.litItem())
			}
			for g.p(30) && len(it.Args) < 4 {
				if len(group) > 0 && g.p(50) {
					r := pick(g, group)
					it.Args = append(it.Args, &Item{Kind: "field", Ref: g.ref(s, r.Obj, r.Field, false)})
				} else {
					it.Args = append(it.Args, g.litItem())
				}
			}
			// field arguments without a nested call make it an aggregation, which is fine too
			if g.p(30) {
				for i, j := 0, len(it.Args)-1; i < j; i, j = i+1, j-1 {
					it.Args[i], it.Args[j] = it.Args[j], it.Args[i]
				}
			}
		}
		return it
	}
	it.Fn = pick(g, append(append([]string{}, scalarFuncs...), aggFuncs...))
	n := g.w(2, 6, 2, 1)
	if g.o.MaxArgs > 0 && g.p(40) {
		n = g.rng(1, g.o.MaxArgs)
	}
	for i := 0; i < n; i++ {
		if g.p(60) {
			it.Args = append(it.Args, arg())
		} else {
			it.Args = append(it.Args, other())
		}
	}
	return it
}

var cmpOps = []string{"=", "!=", "<", "<=", ">", ">="}
var wordOps = []string{"in", "not in", "like", "not like", "includes", "excludes"}

func (g *G) cmp(s *scope, clause string, group []*Ref, nest int) *Cond {
	c := &Cond{Op: "cmp"}
	if clause == "having" {
		c.X = g.fn(s, "having", group, 0)
	} else if g.p(g.o.Func) {
		c.X = g.fn(s, "where", nil, 0)
	} else {
		c.X = &Item{Kind: "field", Ref: g.anyRef(s, "where")}
	}
	if g.p(60) {
		c.Cmp = pick(g, cmpOps)
	} else {
		c.Cmp = pick(g, wordOps)
	}
	setOp := c.Cmp == "in" || c.Cmp == "not in" || c.Cmp == "includes" || c.Cmp == "excludes"
	switch {
	case g.p(g.o.CondSub) && g.fuel > 0 && nest < g.o.MaxNest:
		g.fuel--
		c.Y = &Item{Kind: "sub", Sub: g.query("cond", nil, nest+1)}
	case setOp && g.p(80):
		c.Y = g.listItem()
	case g.p(6):
		c.Y = g.listItem()
	case g.p(g.o.Func / 2):
		m := "where"
		if clause == "having" {
			m = "having"
		}
		c.Y = g.fn(s, m, group, 0)
	case clause != "having" && g.p(12):
		c.Y = &Item{Kind: "field", Ref: g.anyRef(s, "where")}
	default:
		c.Y = g.litItem()
	}
	if c.X.Kind == "field" && literalWords[lc(unquoteFirst(c.X.Ref.Parts))] {
		c.X.Ref.Parts[0] = quoteName(unquote(c.X.Ref.Parts[0]))
	}
	return c
}

func unquoteFirst(parts []string) string { return parts[0] }

// cond draws a condition with n comparisons.
func (g *G) cond(s *scope, clause string, group []*Ref, nest, n int) *Cond {
	var c *Cond
	switch {
	case n > 1:
		k := 1 + g.u(n-1)
		op := "and"
		if g.p(45) {
			op = "or"
		}
		c = &Cond{Op: op}
		c.L = g.cond(s, clause, group, nest, k)
		if g.p(6) {
			// an operand or one of its comparisons once more, perhaps with another operator
			d := c.L
			if g.p(50) {
				d = pick(g, c.L.leaves())
			}
			if len(d.leaves()) <= n-k && !d.hasSub() {
				e := *cloneJSON(d)
				e.Paren = 0
				if e.Op == "cmp" && g.p(30) {
					e.Cmp = pick(g, cmpOps)
				} else if e.Op != "cmp" && g.p(30) {
					e.Op, e.R = "not", nil
					e.L = cloneJSON(d)
				}
				if rest := n - k - len(d.leaves()); rest > 0 {
					c.R = &Cond{Op: pick(g, []string{"and", "or"}), L: &e, R: g.cond(s, clause, group, nest, rest)}
				} else {
					c.R = g.wrapCond(&e)
				}
				return g.wrapCond(c)
			}
		}
		c.R = g.cond(s, clause, group, nest, n-k)
	default:
		c = g.cmp(s, clause, group, nest)
	}
	return g.wrapCond(c)
}

func (g *G) wrapCond(c *Cond) *Cond {
	for g.p(g.o.Not) {
		c = &Cond{Op: "not", L: c}
		if !g.p(g.o.Not) {
			break
		}
	}
	if g.p(g.o.Paren) {
		c.Paren = 1 + g.u(2)
	}
	return c
}

func (g *G) offLim() *Lit {
	if g.p(30) {
		return g.lit("param")
	}
	v := int64(g.u(300))
	if g.p(5) {
		v = pick(g, dict().ints)
	}
	if g.p(10) {
		v = g.i64()
		if v < 0 {
			v = -(v + 1)
		}
	}
	return &Lit{Kind: "int", I: v, Text: g.sep(strconv.FormatInt(v, 10))}
}

// query draws a query. parent is the enclosing scope of a select subquery.
func (g *G) query(place string, parent *scope, nest int) *Query {
	q := &Query{}
	s := &scope{place: place, parent: parent, env: map[string]Path{}, objs: map[string]Path{}, own: map[string]bool{}, q: q}

	// from
	head := &FromObj{}
	if place == "select" {
		for k, v := range parent.env {
			s.env[k] = v
		}
		base := parent.head
		if g.p(30) {
			base = pick(g, parent.order)
			if !base.hasPrefix(parent.head) {
				base = parent.head
			}
		}
		rel := pick(g, toManyPool)
		head.Path = base.add(rel)
		var forms [][]string
		if base.key() == parent.head.key() {
			forms = append(forms, []string{rel})
		}
		for _, name := range sortedKeys(parent.env) {
			b := parent.env[name]
			if base.hasPrefix(b) && (len(b) == len(base) || len(b) == 1) {
				forms = append(forms, append(append([]string{name}, base[len(b):]...), rel))
			}
		}
		if len(forms) == 0 {
			head.Path = parent.head.add(rel)
			forms = append(forms, []string{rel})
		}
		for _, x := range pick(g, forms) {
			head.Parts = append(head.Parts, g.spellName(x))
		}
	} else {
		n := pick(g, rootPool)
		if g.p(g.o.Quote) {
			n = pick(g, quotedPool)
		}
		head.Path = Path{n}
		head.Parts = []string{g.spellName(n)}
		s.env[lc(n)] = head.Path
	}
	s.head = head.Path
	q.From = []*FromObj{head}
	s.register(s.head)
	s.decl = append(s.decl, s.head)
	newAlias := func() string {
		for i := 0; i < 10; i++ {
			a := pick(g, qualPool)
			if g.p(10) {
				a = pick(g, rootPool)
			}
			k := lc(a)
			if s.own[k] || literalWords[k] {
				continue
			}
			if p, ok := s.env[k]; ok && len(p) == 1 && lc(p[0]) == k {
				continue // the root name
			}
			clash := false
			for _, p := range s.order {
				for _, c := range p[len(s.head):] {
					clash = clash || lc(c) == k
				}
			}
			if clash || lc(s.head[len(s.head)-1]) == k {
				continue
			}
			return a
		}
		return ""
	}
	setAlias := func(f *FromObj) {
		if a := newAlias(); a != "" {
			f.Alias = g.caseOf(a)
			s.own[lc(a)] = true
			s.env[lc(a)] = f.Path
		}
	}
	if g.p(g.o.Alias) {
		setAlias(head)
	}
	for i := 0; i < or(g.o.MaxFrom, 3) && g.p(g.o.FromMore); i++ {
		base := pick(g, s.order)
		p := base
		for n := 1 + g.u(2); n > 0; n-- {
			p = p.add(g.relName(s))
		}
		dup := false
		for _, d := range s.decl {
			dup = dup || d.key() == p.key()
		}
		// an intermediate object must not be declared under the name of an alias
		if dup || len(p) > or(g.o.MaxPath, 5) {
			continue
		}
		parts, ok := g.spellPath(s, p, true, place != "select")
		if !ok {
			continue
		}
		if place == "select" && !g.qualifiedByVisible(s, parts) {
			continue
		}
		f := &FromObj{Path: p, Parts: parts}
		s.register(p)
		s.decl = append(s.decl, p)
		if g.p(g.o.Alias) {
			setAlias(f)
		}
		q.From = append(q.From, f)
	}

	// group by (references; aliases are added below)
	agg := g.p(g.o.Agg)
	grouped := agg && g.p(75)
	var groupRefs []*Ref
	// a bare name in GROUP BY would denote the item of that alias
	bareGroup := map[string]bool{}
	if grouped {
		seen := map[string]bool{}
		for i := g.rng(1, or(g.o.MaxKeys, 3)); i > 0; i-- {
			r := g.ref(s, g.target(s, true), g.fieldName(), false)
			if !seen[r.key()] {
				seen[r.key()] = true
				groupRefs = append(groupRefs, r)
				if len(r.Parts) == 1 {
					bareGroup[lc(unquote(r.Parts[0]))] = true
				}
				q.GroupBy = append(q.GroupBy, &Key{Ref: r, Item: -1})
			}
		}
	}

	// select items
	usedAlias := map[string]bool{}
	itemAlias := func(plainField bool) string {
		if !g.p(g.o.ItemAlias) {
			return ""
		}
		for i := 0; i < 5; i++ {
			a := pick(g, itemAliasPool)
			if g.p(4) {
				a = g.likeWord()
			}
			if g.p(15) {
				a = pick(g, fieldPool)
			}
			if !usedAlias[lc(a)] && !bareGroup[lc(a)] {
				usedAlias[lc(a)] = true
				return g.caseOf(a)
			}
		}
		return ""
	}
	nItems := g.rng(1, g.o.MaxItems)
	type subSlot struct{ it *Item }
	var slots []*Item
	hasCount := false
	for i := 0; i < nItems; i++ {
		switch {
		case agg:
			if len(groupRefs) > 0 && g.p(45) {
				r := pick(g, groupRefs)
				it := &Item{Kind: "field", Ref: g.ref(s, r.Obj, r.Field, false)}
				it.Alias = itemAlias(true)
				q.Items = append(q.Items, it)
			} else {
				it := g.fn(s, "agg", groupRefs, 0)
				it.Alias = itemAlias(false)
				q.Items = append(q.Items, it)
			}
		case g.fuel > 0 && nest < g.o.MaxNest && g.p(g.o.SelSub):
			g.fuel--
			it := &Item{Kind: "sub", Alias: itemAlias(false)}
			slots = append(slots, it)
			q.Items = append(q.Items, it)
		case g.p(g.o.FieldSet):
			p := pick(g, s.decl)
			parts, ok := g.fieldsetSpell(s, p)
			if !ok {
				parts, p = nil, s.head
			}
			f := pick(g, []string{"ALL", "STANDARD", "Custom"})
			q.Items = append(q.Items, &Item{Kind: "fset", Fn: pick(g, []string{"FIELDS", "fields"}),
				Ref: &Ref{Obj: p.clone(), Field: f, Parts: append(parts, f)}})
		case g.p(g.o.Func):
			it := g.fn(s, "plain", nil, 0)
			it.Alias = itemAlias(false)
			q.Items = append(q.Items, it)
		default:
			it := &Item{Kind: "field"}
			if len(q.Items) > 0 && g.p(g.o.DupItem) && q.Items[0].Kind == "field" {
				r := q.Items[0].Ref
				it.Ref = g.ref(s, r.Obj, r.Field, false)
			} else {
				it.Ref = g.ref(s, g.target(s, true), g.fieldName(), false)
			}
			it.Alias = itemAlias(true)
			q.Items = append(q.Items, it)
		}
	}
	if agg && !grouped {
		for _, it := range q.Items {
			hasCount = hasCount || containsCount(it)
		}
		if !hasCount {
			it := &Item{Kind: "func", Fn: pick(g, []string{"count", "COUNT"})}
			if g.p(60) {
				it.Args = []*Item{{Kind: "field", Ref: g.ref(s, g.target(s, true), g.fieldName(), false)}}
			}
			k := g.u(len(q.Items) + 1)
			q.Items = append(q.Items[:k], append([]*Item{it}, q.Items[k:]...)...)
		}
	}

	if grouped {
		g.groupAliases(s, q)
	}

	// where, having
	if g.p(g.o.Where) {
		q.Where = g.cond(s, "where", nil, nest, g.rng(1, g.o.MaxLeaves))
	}
	if grouped && g.p(g.o.Having) {
		q.Having = g.cond(s, "having", groupRefs, nest, g.rng(1, (g.o.MaxLeaves+1)/2))
	}

	// order by
	if g.p(g.o.OrderBy) {
		g.orderBy(s, q)
	}

	if g.p(g.o.OffLim) {
		switch g.u(3) {
		case 0:
			q.Limit = g.offLim()
		case 1:
			q.Offset = g.offLim()
		default:
			q.Limit, q.Offset = g.offLim(), g.offLim()
			q.OffsetFirst = g.p(50)
		}
	}
	if g.p(g.o.For) {
		f := &ForC{Swap: g.p(40)}
		if g.p(50) {
			k := 1 + g.u(3)
			f.View, f.Reference = k&1 != 0, k&2 != 0
		} else {
			k := g.u(4)
			f.Update, f.Tracking, f.Viewstat = true, k&1 != 0, k&2 != 0
		}
		q.For = f
	}

	// select subqueries: all objects and aliases of this query are known now
	for _, it := range slots {
		it.Sub = g.query("select", s, nest+1)
	}
	return q
}

// qualifiedByVisible reports whether the first written part is a visible name.
func (g *G) qualifiedByVisible(s *scope, parts []string) bool {
	_, ok := s.env[lc(unquote(parts[0]))]
	return ok
}

func (g *G) fieldsetSpell(s *scope, p Path) ([]string, bool) {
	var forms [][]string
	if p.key() == s.head.key() {
		forms = append(forms, nil)
	}
	for _, name := range sortedKeys(s.env) {
		b := s.env[name]
		if p.key() == b.key() {
			forms = append(forms, []string{name})
		} else if len(b) == 1 && lc(b[0]) == name && p.hasPrefix(b) {
			forms = append(forms, append([]string{name}, p[1:]...))
		}
	}
	if len(forms) == 0 {
		return nil, false
	}
	var z []string
	for _, x := range pick(g, forms) {
		z = append(z, g.spellName(x))
	}
	return z, true
}

func (g *G) caseOf(s string) string {
	if g.p(g.o.CaseVar) {
		if g.p(50) {
			return asciiUpper(s)
		}
		return asciiLower(s)
	}
	return s
}

func containsCount(it *Item) bool {
	if it.Kind == "func" {
		if f := lc(it.Fn); f == "count" || f == "count_distinct" {
			return true
		}
		for _, a := range it.Args {
			if containsCount(a) {
				return true
			}
		}
	}
	return false
}

// groupAliases lets some grouping keys be written as aliases.
func (g *G) groupAliases(s *scope, q *Query) {
	used := map[string]bool{}
	for i, k := range q.GroupBy {
		if !g.p(35) {
			continue
		}
		for j, it := range q.Items {
			if it.Kind == "field" && it.Alias != "" && it.Ref.key() == k.Ref.key() && !used[it.Ref.key()] {
				used[it.Ref.key()] = true
				q.GroupBy[i] = &Key{Alias: g.caseOf(it.Alias), Item: j}
				break
			}
		}
	}
	for j, it := range q.Items {
		if it.Kind == "func" && it.Alias != "" && !containsCount(it) && g.p(20) {
			q.GroupBy = append(q.GroupBy, &Key{Alias: g.caseOf(it.Alias), Item: j})
		}
	}
}

func (g *G) orderBy(s *scope, q *Query) {
	aliases := map[string]int{}
	for j, it := range q.Items {
		if it.Alias != "" && it.Kind != "sub" {
			aliases[lc(it.Alias)] = j
		}
	}
	for _, it := range q.Items {
		if it.Alias != "" && it.Kind == "sub" {
			aliases[lc(it.Alias)] = -1
		}
	}
	used := map[string]bool{}
	add := func(k *Key, id string) {
		if used[id] {
			return
		}
		used[id] = true
		k.Dir = pick(g, []string{"", "asc", "desc"})
		k.Nulls = pick(g, []string{"", "", "first", "last"})
		q.OrderBy = append(q.OrderBy, k)
	}
	names := sortedKeys(aliases)
	max := 3
	if g.o.MaxOrder > 0 {
		max = g.o.MaxOrder
	}
	for i := g.rng(1, max); i > 0; i-- {
		if len(names) > 0 && g.p(45) {
			n := pick(g, names)
			j := aliases[n]
			if j < 0 {
				continue
			}
			it := q.Items[j]
			id := "item" + strconv.Itoa(j)
			if it.Kind == "field" {
				id = it.Ref.key()
			}
			a := it.Alias
			if g.p(30) {
				a = g.caseOf(lc(a))
			}
			add(&Key{Alias: a, Item: j}, id)
			continue
		}
		p := pick(g, s.order)
		if !g.p(g.o.RelPath) {
			p = s.head
		}
		f := g.fieldName()
		if g.p(40) {
			it := pick(g, q.Items)
			if it.Kind == "field" {
				p, f = it.Ref.Obj, it.Ref.Field
			}
		}
		_, clash := aliases[lc(f)]
		r := g.refNoBare(s, p, f, clash)
		if r == nil {
			continue
		}
		add(&Key{Ref: r, Item: -1}, r.key())
	}
}

// refNoBare is ref, avoiding the bare form if it is an alias; nil if there is no other form.
func (g *G) refNoBare(s *scope, p Path, f string, clash bool) *Ref {
	if clash {
		if _, ok := g.spellPath(s, p, true, true); !ok {
			return nil
		}
	}
	return g.ref(s, p, f, clash)
}

// genQuery draws a query in the documented domain.
func genQuery(t *rapid.T, o Opts) *Query {
	g := &G{t: t, o: o, fuel: o.MaxQueries - 1}
	if g.p(o.Wide) {
		g.widen()
	}
	return g.query("primary", nil, 1)
}

func or(n, def int) int {
	if n > 0 {
		return n
	}
	return def
}

func upByte(c byte) byte {
	if 'a' <= c && c <= 'z' {
		c -= 32
	}
	return c
}

func (g *G) anyCase(s string) string {
	switch g.u(4) {
	case 0:
		return asciiUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.p(50) {
				b[i] = asciiUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}
