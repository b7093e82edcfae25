package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// TextCase is a text, not necessarily UTF-8.
type TextCase struct {
	B    []byte `json:"b"`
	Kind string `json:"kind"`
}

var hostile = []string{"\x00", "\xff", "\xc3", "\xe3\x81", "\xf4\x90\x80\x80", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\ufeff", "\u2028", "\u3042", "\u0131", "\u212a",
	"'", "''", "'''", "\"", "\"\"", "\\", "\\'", "'\\u{110000}'", "'\\u{d800}'", "'\\u'", "'\\x'", "'\\x4'", "'\\777'", "\\u0041",
	"--", "/*", "*/", "-- \n", "/**/", "\n", "\r", "\t", " ", "(", ")", "((", "))", ",", ",,", ".", "..", ":", "::", ";", "$", "_", "@", "#", "%", "`",
	"=", "==", "!=", "<>", "<=", "=>", "!", "+", "-", "+-1", "0", "00", "0x", "0xg", "0b", "0b2", "0o9", "1_", "_1", "1__0", "1e", "1e+", "1.e", ".5", "5.", "-.5",
	"1e999", "-1e999", "99999999999999999999", "0xffffffffffffffffffff", "9223372036854775808", "nan", "NaN", "infinity", "-infinity", "inf",
	"2024-02-30", "0000-00-00", "2024-13-01", "2024-1-1", "9999-12-31T23:59:60Z", "2024-01-01T00:00:00+99:99", "2024-01-01T24:00:00Z", "99:99:99", "12:00", "10000-01-01",
	"select", "from", "where", "group by", "having", "order by", "limit", "offset", "for view", "for update tracking", "nulls last", "asc", "and", "or", "not", "in", "not in",
	"like", "not like", "includes", "null", "true", "today", "last_n_days:", "last_n_days:3", "LAST_N_DAYS : 99999999999999999999", "n_days_ago:", "fields(all)", "FIELDS()", "count()", "count(", "count()c",
	"a", "a.b", "a.b.c.d.e.f.g", ".a", "a.", "a..b", "\"a\"", "\"a b\".c", "a b", "a b c", "f()", "f(g(h()))", "(select a from b)", "select a from b", " where a=1", "x = :p", "x in ()", "x in (1,(2))"}

func (g *G) soup() string {
	var b strings.Builder
	dense := g.p(30)
	for i := g.u(40); i > 0; i-- {
		if g.p(40) {
			b.WriteString(pick(g, hostile))
		} else {
			b.WriteString(extraToks[g.u(len(extraToks))].S)
		}
		if !dense {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// scramble edits a text at the level of bytes.
func (g *G) scramble(s string, n int) string {
	for ; n > 0; n-- {
		l := len(s)
		if l == 0 {
			return pick(g, hostile)
		}
		i := g.u(l)
		j := i + g.u(6)
		if j > l {
			j = l
		}
		switch g.w(3, 3, 2, 2, 2, 2, 1) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:i] + pick(g, hostile) + s[i:]
		case 2:
			s = s[:i]
		case 3:
			b := []byte(s)
			b[i] = byte(g.u(256))
			s = string(b)
		case 4:
			b := []byte(s)
			b[i] ^= 1 << uint(g.u(8))
			s = string(b)
		case 5:
			k := g.u(l)
			s = s[:i] + s[k:]
		default:
			j := i + g.u(l-i)
			if len(s)+(j-i) < 3000 {
				s = s[:j] + s[i:]
			}
		}
	}
	return s
}

// wraps are the constructs that nest.
var wraps = []struct{ pre, post, at string }{
	{"(", ")", "cond"}, {"not ", "", "cond"}, {"not (", ")", "cond"}, {"a = 1 and (", ")", "cond"}, {"(", ") or b < 2", "cond"}, {"not (a = 1 or ", ")", "cond"},
	{"f(", ")", "val"}, {"f(1, ", ", 2)", "val"}, {"COUNT(", ")", "val"}, {"f(g(", "), null)", "val"},
	{"a in (select b from c where ", ")", "cond"}, {"(a not in (select d from e where ", "))", "cond"}, {"a = (select b from c where ", ")", "cond"},
	{"(select a, ", " from b)", "item"}, {"g((", "))", "val"}, {"\"a b\".f(", ")", "val"}, {"not not ", "", "cond"}, {"f(a, not ", ")", "val"}, {"f((select a from b where x = ", "))", "val"}, {"((", ") and a = 1)", "cond"}, {"((a = 1) or ", ")", "cond"}, {"f(x", ") = 1 or x = 2", "cond"}, {"(select ", ", x from b, b.c d where x = 1)", "item"},
}

// nest wraps a core to a depth with constructs that fit together.
func (g *G) nest(depth int) (string, string) {
	at := []string{"cond", "val", "item", "mixed"}[g.u(4)]
	pre, post := "", ""
	add := func(a, b string) { pre, post = pre+a, b+post }
	ks := []int{}
	for i, w := range wraps {
		if w.at == at || at == "mixed" {
			ks = append(ks, i)
		}
	}
	// a few constructs, repeated
	m := g.rng(1, 3)
	var sel []int
	for i := 0; i < m; i++ {
		sel = append(sel, ks[g.u(len(ks))])
	}
	for i := 0; i < depth; i++ {
		w := wraps[sel[i%m]]
		add(w.pre, w.post)
	}
	head, tail := "select a from b where ", ""
	switch at {
	case "item":
		head, tail = "select ", " from b"
	case "val":
		if g.p(50) {
			head, tail = "select ", " from b"
		} else {
			tail = " = 1"
		}
	}
	core := pick(g, []string{"x = 1", "x", "(select y from z)", "1", "'s'", "", "not", "(", "x in (1, 2)"})
	if at == "cond" && g.p(60) {
		core = "x = 1"
	}
	if (at == "val" || at == "item") && g.p(60) {
		core = "x"
	}
	return head + pre + core, post + tail
}

func (g *G) anyText() (string, string) {
	o := g.o
	text := func() string {
		q := genQuery(g.t, o)
		seed := uint64(0)
		if g.p(30) {
			seed = uint64(1 + g.bits(20))
		}
		return layout(tokens(q), seed)
	}
	switch g.w(2, 3, 5, 6, 2, 3, 2, 2, 2) {
	case 7:
		return g.broken(), "broken rules"
	case 8:
		ts, other := tokens(genQuery(g.t, o)), tokens(genQuery(g.t, o))
		for i := g.rng(1, 3); i > 0; i-- {
			ts = g.graft(ts, other)
		}
		return layoutX(ts, uint64(g.bits(3)), true), "exchanged units"
	case 0:
		b := make([]byte, g.u(80))
		for i := range b {
			b[i] = byte(g.u(256))
		}
		return string(b), "random bytes"
	case 1:
		return g.soup(), "token soup"
	case 2:
		q := genQuery(g.t, o)
		ts := tokens(q)
		var ms []Mut
		for i := g.rng(1, 6); i > 0; i-- {
			ms = append(ms, g.mut(ts, true))
		}
		return layoutX(mutateAll(ts, ms), uint64(g.bits(12)), true), "mutated words"
	case 3:
		return g.scramble(text(), g.rng(1, 5)), "mutated bytes"
	case 4:
		a, b := text(), text()
		return a[:g.u(len(a)+1)] + b[g.u(len(b)+1):], "spliced"
	case 5:
		a, b := g.nest(g.rng(1, 50))
		s := a + b
		switch g.u(4) {
		case 0:
			s = a
		case 1:
			s = a + b[:g.u(len(b)+1)]
		case 2:
			s = a + pick(g, hostile) + b
		}
		return s, "deeply nested"
	}
	return text(), "valid"
}

func dup[T any](g *G, l []T) []T {
	switch g.u(4) {
	case 0:
		return append(append([]T{}, l...), l...)
	case 1:
		z := []T{}
		for _, x := range l {
			z = append(z, x, x)
		}
		return z
	case 2:
		z := append([]T{}, l...)
		if len(l) > 0 {
			z = append(z, pick(g, l), pick(g, l))
		}
		return z
	}
	return l
}

// broken is a well-formed query with several violations of the rules at once: repeated aliases,
// keys and objects, keys that are not there, and clauses exchanged with those of another query.
func (g *G) broken() string {
	q, z := genQuery(g.t, g.o), genQuery(g.t, g.o)
	var edit func(q *Query)
	edit = func(q *Query) {
		for i := g.rng(1, 3); i > 0; i-- {
			switch g.u(9) {
			case 0:
				q.GroupBy = dup(g, q.GroupBy)
			case 1:
				q.OrderBy = dup(g, q.OrderBy)
			case 2:
				q.Items = dup(g, q.Items)
			case 3:
				q.From = dup(g, q.From)
			case 4:
				q.GroupBy = append(append([]*Key{}, q.GroupBy...), z.OrderBy...)
			case 5:
				q.OrderBy = append(append([]*Key{}, q.OrderBy...), z.GroupBy...)
			case 6:
				q.Having, q.GroupBy = z.Having, dup(g, q.GroupBy)
			case 7:
				// the fields are grouped
				for _, it := range q.Items {
					if it.Kind == "field" {
						q.GroupBy = append(q.GroupBy, &Key{Ref: it.Ref})
					}
				}
				q.GroupBy = dup(g, q.GroupBy)
			case 8:
				q.Where = z.Where
			}
		}
		for _, it := range q.Items {
			if it.Sub != nil && g.p(30) {
				edit(it.Sub)
			}
		}
	}
	edit(q)
	return layout(tokens(q), uint64(g.bits(2)))
}

func init() {
	p := defProp("P01",
		"texts: random bytes, token soup, valid queries mutated by words and by bytes, with units exchanged, with several rules broken at once (repeated aliases, keys, objects; foreign clauses), spliced, truncated, deeply nested (to 50 levels, closed, unclosed or damaged), valid; each is parsed twice or more: no panic, exactly one of query and non-empty error, same outcome; non-trivial: the text is longer than 8 bytes",
		200000, 12000000,
		func(t *rapid.T) TextCase {
			o := defOpts()
			o.MaxQueries = 3
			o.KwNames = true
			g := &G{t: t, o: o}
			s, k := g.anyText()
			return TextCase{[]byte(s), k}
		}, checkP01,
		func(c TextCase) string { return c.Kind + ": " + fmt.Sprintf("%q", c.B) })
	p.caseSec = 30
	p.fixed = func() []any {
		z := []any{TextCase{nil, "empty"}}
		for _, s := range []string{"select a from Contact, forx.ink Contact", "select id, (select id from contacts, x.y account) from account"} {
			z = append(z, TextCase{[]byte(s), "fixed"})
		}
		for _, s := range hostile {
			z = append(z, TextCase{[]byte(s), "fixed"}, TextCase{[]byte("select a from b where x = " + s), "fixed"}, TextCase{[]byte("select " + s + " from " + s), "fixed"})
		}
		return z
	}
}

func checkP01(c TextCase, o *Obs) error {
	s := string(c.B)
	if len(s) > 8 {
		o.nt()
	}
	a, ea := parse(s)
	b, eb := parse(s)
	if c.Kind == "broken rules" && ea != nil && eb != nil {
		// an outcome that depends on the order of a map
		for i := 0; i < 3 && ea.Error() == eb.Error(); i++ {
			b, eb = parse(s)
		}
	}
	for _, e := range []error{ea, eb} {
		if _, is := e.(*shapeError); is {
			return e
		}
		if e != nil && strings.TrimSpace(e.Error()) == "" {
			return fmt.Errorf("the error is empty")
		}
	}
	o.label(c.Kind)
	o.labelIf(ea == nil, c.Kind+": accepted")
	o.labelIf(!utf8.ValidString(s), "not UTF-8")
	if (ea == nil) != (eb == nil) {
		return fmt.Errorf("parsing twice: %v / %v", ea, eb)
	}
	if ea != nil {
		if eb == nil || ea.Error() != eb.Error() {
			return fmt.Errorf("parsing twice gives different errors: %q / %q", ea, eb)
		}
		return nil
	}
	if d := sameResult(a, b, false); d != "" {
		return fmt.Errorf("parsing twice gives different results: %s", d)
	}
	return nil
}
