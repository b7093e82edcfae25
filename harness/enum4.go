package main

import (
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Scopes of tokens: small queries that together have all pairs of adjacent tokens that generated queries have.

// tokClass is what matters of a token to its neighbours.
func tokClass(t Tok) string {
	switch t.K {
	case "kw", "punct", "op":
		return strings.ToLower(t.S)
	case "klit":
		// null and booleans, date literals with and without a number
		if i := strings.IndexByte(t.S, ':'); i >= 0 {
			return "klit:"
		}
		if strings.ContainsAny(t.S, "_yYwW") {
			return "klit"
		}
		return "const"
	case "lit":
		// the kind of the literal: a number, date or time
		s := ""
		for _, x := range t.S {
			c := string(x)
			if x >= '0' && x <= '9' || x == '_' {
				c = "0"
			}
			if !strings.HasSuffix(s, c) {
				s += c
			}
		}
		return "lit " + s
	}
	return t.K
}

// Gap is a pair of adjacent tokens of a query; At is the second one.
type gapAt struct {
	q  *Query
	at int
}

type tokenBases struct {
	queries []*Query // have all pairs
	gaps    []gapAt  // one place per pair
	words   []gapAt  // one place per keyword with its neighbours
}

var bases = sync.OnceValue(func() tokenBases {
	type cand struct {
		q  *Query
		ts []Tok
	}
	var cs []cand
	o := defOpts()
	o.KwNames = true
	o.MaxQueries = 3
	o.Wide = 0
	gen := rapid.Custom(func(t *rapid.T) *Query { return genQuery(t, o) })
	for i := 0; i < 3000; i++ {
		q := gen.Example(i)
		cs = append(cs, cand{q, tokens(q)})
	}
	sort.SliceStable(cs, func(i, j int) bool { return len(cs[i].ts) < len(cs[j].ts) })
	var z tokenBases
	seen := map[string]bool{}
	for _, c := range cs {
		fresh := false
		for i := 1; i < len(c.ts); i++ {
			a, b := tokClass(c.ts[i-1]), tokClass(c.ts[i])
			if p := a + "\x00" + b; !seen[p] {
				seen[p] = true
				fresh = true
				z.gaps = append(z.gaps, gapAt{c.q, i})
			}
		}
		for i, t := range c.ts {
			if t.K != "kw" && t.K != "klit" {
				continue
			}
			p := "\x01" + strings.ToLower(strings.SplitN(t.S, ":", 2)[0])
			if i > 0 && t.K == "kw" {
				p = tokClass(c.ts[i-1]) + p
			}
			if !seen[p] {
				seen[p] = true
				z.words = append(z.words, gapAt{c.q, i})
			}
		}
		if fresh {
			z.queries = append(z.queries, c.q)
		}
	}
	return z
})

// gapTexts are white space and comments.
var gapTexts = append(append([]string{}, blanks...), comments...)

func enumP06(deep bool, yield func(c any) bool) {
	z := bases()
	parts := []string{" ", "\n", "/**/", "-- c\n"}
	if deep {
		parts = gapTexts
	}
	var seps []string
	seps = append(seps, "")
	seps = append(seps, gapTexts...)
	for _, a := range parts {
		for _, b := range parts {
			seps = append(seps, a+b)
		}
	}
	for _, g := range z.gaps {
		for _, s := range seps {
			ts := tokens(g.q)
			if s == "" && needGap(ts[g.at-1], ts[g.at]) {
				continue
			}
			if !yield(LayoutCase{Q: g.q, Edit: &TokEdit{At: g.at, Gap: s}}) {
				return
			}
		}
	}
	// before the first word and behind the last one
	for i, q := range z.queries {
		if i >= 40 {
			break
		}
		for _, s := range seps {
			if !yield(LayoutCase{Q: q, Edit: &TokEdit{At: 0, Gap: s}}) || !yield(LayoutCase{Q: q, Edit: &TokEdit{At: len(tokens(q)), Gap: s}}) {
				return
			}
		}
	}
	// letter case
	for _, g := range z.words {
		w := tokens(g.q)[g.at].S
		n := 0
		for i := range w {
			if isLetter(w[i]) {
				n++
			}
		}
		masks := []uint64{0, 1<<n - 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}
		for i := 0; i < n; i++ {
			masks = append(masks, 1<<i, ^uint64(1<<i))
		}
		if n <= 6 || deep && n <= 9 {
			masks = masks[:0]
			for m := 0; m < 1<<n; m++ {
				masks = append(masks, uint64(m))
			}
		}
		for _, m := range masks {
			if !yield(LayoutCase{Q: g.q, Edit: &TokEdit{At: g.at, Word: upMask(w, m), Gap: " "}}) {
				return
			}
		}
	}
	// redundant parentheses
	k, most := 3, 2
	if deep {
		k, most = 4, 2
	}
	for n := 1; n <= k; n++ {
		base := most + 1
		if n == k {
			base = 2
		}
		for _, s := range skeletons(n) {
			if !digits(2*n-1, 2, func(ns []int) bool {
				i, j, nodes := 0, 0, 2*n-1
				c := s.cond(func() *Cond { i++; return sCmp((i+n)%9, i, "c") }, func() int { nodes += ns[j]; j++; return ns[j-1] }, 0)
				if nodes > 7 {
					return true
				}
				q := &Query{Items: []*Item{sField("c", "id")}, From: []*FromObj{sFrom("c")}, Where: c}
				return digits(nodes, base, func(ps []int) bool {
					return yield(LayoutCase{Q: q, Paren: append([]int{}, ps...)})
				})
			}) {
				return
			}
		}
	}
}

func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

// upMask writes the i-th letter in upper case if the bit is set, in lower case otherwise.
func upMask(w string, m uint64) string {
	b := []byte(asciiLower(w))
	i := 0
	for k, x := range b {
		if isLetter(x) {
			if m>>(i%64)&1 == 1 {
				b[k] = upByte(x)
			}
			i++
		}
	}
	return string(b)
}

// TokEdit is a layout that differs from the conventional one at one token.
type TokEdit struct {
	At   int    `json:"at"`
	Gap  string `json:"gap"`            // what stands before it
	Word string `json:"word,omitempty"` // its spelling
}

func (e *TokEdit) text(ts []Tok) string {
	var b strings.Builder
	for i, t := range ts {
		switch {
		case i == e.At && (e.Word == "" || i == 0):
			b.WriteString(e.Gap)
		case i > 0:
			b.WriteString(canonGap(ts[i-1], t))
		}
		if i == e.At && e.Word != "" {
			b.WriteString(e.Word)
		} else {
			b.WriteString(t.S)
		}
	}
	if e.At == len(ts) {
		b.WriteString(e.Gap)
	}
	return b.String()
}

// enumP22 yields all edits of one word of the queries.
func enumP22(deep bool, yield func(c any) bool) {
	words := []Tok{{"name", "x"}, {"punct", ","}, {"punct", "("}, {"punct", ")"}, {"punct", "."}, {"op", "="}, {"kw", "and"}, {"kw", "from"},
		{"lit", "1"}, {"str", "'s'"}, {"kw", "order"}, {"kw", "not"}}
	if deep {
		words = append(words, Tok{"punct", ":"}, Tok{"op", "<"}, Tok{"op", "!="}, Tok{"kw", "or"}, Tok{"kw", "in"}, Tok{"kw", "select"}, Tok{"kw", "where"},
			Tok{"kw", "limit"}, Tok{"kw", "for"}, Tok{"kw", "by"}, Tok{"kw", "nulls"}, Tok{"klit", "null"}, Tok{"klit", "last_n_days:3"}, Tok{"qname", `"q"`},
			Tok{"punct", "*"}, Tok{"punct", ";"}, Tok{"name", "é"}, Tok{"lit", "-1.5e3"}, Tok{"lit", "2024-02-30"})
	}
	k := 0
	emit := func(ts []Tok, a, b uint64) bool {
		k++
		c := PosCase{Kind: "scope", Toks: ts, A: a, B: b, Lines: []int{}}
		for i := 0; i < k%4; i++ {
			c.Lines = append(c.Lines, (k/4+i)%3)
		}
		c.Blanks = []string{"", " ", "\t", "  ", " \t"}[k%5]
		return yield(c)
	}
	for _, q := range bases().queries {
		ts := tokens(q)
		if len(ts) > 60 || !deep && len(ts) > 40 {
			continue
		}
		for i := 0; i <= len(ts); i++ {
			edit := func(drop int, ins ...Tok) bool {
				z := append(append(append([]Tok{}, ts[:i]...), ins...), ts[i+drop:]...)
				if len(z) == 0 {
					return true
				}
				return emit(z, uint64(k%2*(1+k%977)), uint64(1+k%991))
			}
			for _, w := range words {
				if !edit(0, w) || i < len(ts) && deep && !edit(1, w) {
					return
				}
			}
			if i < len(ts) && (!edit(1) || !edit(len(ts)-i)) || i+1 < len(ts) && !edit(2, ts[i+1], ts[i]) {
				return
			}
		}
	}
}

func init() {
	enums["P06"] = enumP06
	registry["P06"].Rule += "; before these, a complete small scope: each pair of adjacent kinds of tokens that 3000 generated queries have (the smallest query with it) with each of 40 (thorough: 600) gaps, each keyword at each place in all letter cases (long ones: each letter), all conditions of up to 3 (4) comparisons with all assignments of redundant parentheses"
	enums["P22"] = enumP22
	registry["P22"].Rule += "; before these, a complete small scope: queries with all of these pairs of tokens, with each token removed, swapped with the next, the rest cut off, or one of 12 (31) tokens put in (or, thorough, in its place)"
}
