package main

import (
	"strconv"
	"strings"
)

// sequences yields all sequences of up to n of the words, the shorter ones first.
func sequences(words []string, n int, yield func(ws []string) bool) bool {
	for k := 0; k <= n; k++ {
		ix := make([]int, k)
		ws := make([]string, k)
		for {
			for i, x := range ix {
				ws[i] = words[x]
			}
			if !yield(ws) {
				return false
			}
			i := k - 1
			for ; i >= 0; i-- {
				if ix[i]++; ix[i] < len(words) {
					break
				}
				ix[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}

// wordScope is a place in a query with the words that are tried there in all sequences.
type wordScope struct {
	before, words, after, sep string
	quick, deep               int // lengths
}

// The words are separated by bars, the texts around them are valid with some of the sequences.
var wordScopes = []wordScope{
	{"select a from b for ", "view|reference|update|tracking|viewstat|,", "", " ", 5, 7},
	{"select (select a from b ", "for|view|update|tracking|,|)|limit 1", " from c", " ", 5, 6},
	{"select a from b order by a ", "asc|desc|nulls|first|last|,|a", "", " ", 4, 6},
	{"select a from b ", "order|by|a|,|asc|nulls first|.", "", " ", 5, 6},
	{"select a from b ", "limit|offset|1|:|p|for view|-", "", " ", 5, 6},
	{"select a from b ", "where a = 1|group by a|having f(a) = 1|order by a|limit 1|offset 1|for view|for update", "", " ", 4, 6},
	{"select a from b where a in ", "(|)|,|1|:p|null|'s'", "", " ", 5, 7},
	{"select a from b where a in ", "(|)|,|1|select a|from b|where a = 1|limit 1", "", " ", 5, 6},
	{"select ", "a|.|,|(|)|b|from c", " from d", " ", 5, 7},
	{"select f", "(|)|,|a|.|1|:p|f(|x", " from c", " ", 4, 6},
	{"select a from ", "b|.|,|c|(|where a = 1|group by a", "", " ", 5, 7},
	{"select a from b where ", "a|=|1|and|or|not|(|)", "", " ", 5, 7},
	{"select a from b where ", "a = 1|and|or|not|(|)|b in (1)", "", " ", 6, 8},
	{"select a from b where a ", "=|!|<|>|not|like|in|includes|1|(1)", "", " ", 4, 6},
	{"select a from b where a", "=|!|<|>|1|b|-|+|.", "", "", 5, 7},
	{"select a from b group by a having ", "f(a)|= 1|and|or|not|(|)|a", "", " ", 5, 7},
	{"select a from b group ", "by|a|.|,|having|f(a) = 1|b|order by a", "", " ", 4, 6},
	{"select ", "(|)|select a|from b|,|a|x|where a = 1", " from c", " ", 5, 7},
	// spelling
	{"select a from b where a = ", "0|1|9|+|-|.|e|E|x|b|o|_|:", "", "", 4, 6},
	{"select a from b where a = 0", "x|X|b|B|o|O|0|1|7|8|a|G|_|.", "", "", 4, 6},
	{"select a from b where a = 2020-0", "1|2|3|-|0|T|Z|:", "", "", 5, 7},
	{"select a from b where a = 2020-01-01T0", "1|2|:|0|Z|+|-|.|60", "", "", 5, 7},
	{"select a from b where a = 1", "2|:|0|.|5|60|Z|9", "", "", 5, 7},
	{"select a from b where a = '", "\\|'|n|u|0|4|{|}|x|\n|é", "", "", 4, 6},
	{"select a from b where a = last_n_days", ":|1|0|-|_|x|+| |.", "", "", 5, 6},
	{"select a from b where a = tod", "a|y|A|_|$|1|.|:", "", "", 5, 6},
	{"select a from b where a = ", "Inf|inity|+|-|Na|N|1|.|x", "", "", 4, 6},
	{"select a from b where a = :", "p| |1|.|:|_|\"|/**/|'", "", "", 4, 6},
	{"select a", " |.|,|/**/|--|\n|b|\"|'", "from c", "", 5, 6},
	{"select a", "/|*|-| |\n|b|\r", "\nfrom c", "", 5, 7},
	{"select \"", "a|\"|\\|.|b|\n|'| |u0041", "\" from c", "", 4, 6},
	{"select a from b", " |\n|where|a|=|1|(|)|/**/", "", "", 5, 6},
	{"", "select| |a|from|b|.|(|/**/|\n", "", "", 5, 7},
	{"select a from b ord", "er|by| |a|/**/|d|,|.", "", "", 5, 7},
	{"select a from b where a = 1 ", "and|or|not| |(|)|a|=|1", "", "", 5, 7},
	{"select a from b where a = 1 f", "or|view|update| |/**/|m|,|1|reference", "", "", 5, 6},
	{"select a from b lim", "it| |1|/**/|:|p|s|off|set", "", "", 5, 6},
}

// eachText yields the texts of all the scopes.
func eachText(deep bool, yield func(c any) bool) {
	for _, s := range wordScopes {
		n := s.quick
		if deep {
			n = s.deep
		}
		if !sequences(strings.Split(s.words, "|"), n, func(ws []string) bool {
			return yield(TextCase{[]byte(s.before + strings.Join(ws, s.sep) + s.after), "all short sequences"})
		}) {
			return
		}
	}
}

// Parts of small queries. The root object is c, with the to-one relationships r (and s of r) and q
// and the to-many relationship ts.

func sRef(root string, path ...string) *Ref {
	n := len(path) - 1
	return &Ref{Obj: Path{root}.add(path[:n]...), Field: path[n], Parts: path}
}

func sField(root string, path ...string) *Item {
	return &Item{Kind: "field", Ref: sRef(root, path...)}
}

// sAs writes the field with another spelling.
func sAs(it *Item, parts ...string) *Item {
	it.Ref.Parts = parts
	return it
}

func sInt(n int) *Item {
	s := strconv.Itoa(n)
	return &Item{Kind: "lit", Lit: &Lit{Kind: "int", Text: s, I: int64(n)}}
}

func sFn(fn string, args ...*Item) *Item { return &Item{Kind: "func", Fn: fn, Args: args} }

func sAlias(it *Item, a string) *Item {
	it.Alias = a
	return it
}

func sSub(q *Query) *Item { return &Item{Kind: "sub", Sub: q} }

func sFrom(path ...string) *FromObj { return &FromObj{Path: path, Parts: path} }

var cmpCycle = []string{"=", "<", "like", "in", "!=", ">=", "not like", "includes", "<=", "not in", ">", "excludes"}

// sCmp is a comparison of one of eight kinds; n makes it different from the others.
func sCmp(kind, n int, root string) *Cond {
	c := &Cond{Op: "cmp", Cmp: cmpCycle[n%len(cmpCycle)], Y: sInt(n + 1)}
	switch kind {
	case 0:
		c.X = sField(root, "a")
	case 1:
		c.X = sField(root, "r", "x")
	case 2:
		c.X = sField(root, "a")
		c.Y = sField(root, "r", "x")
	case 3:
		c.X = sFn("fn", sField(root, "a"))
	case 4:
		c.X = sField(root, "q", "z")
	case 5:
		c.X = sField(root, "r", "s", "y")
	case 6:
		c.X = sField(root, "r", "x")
		c.Y = sField(root, "r", "y")
	case 7:
		c.X = sField(root, "a")
		c.Y = sSub(&Query{Items: []*Item{sField("d", "e")}, From: []*FromObj{sFrom("d")}})
	case 8:
		c.X = sField(root, "a")
		c.Y = &Item{Kind: "list", List: []*Lit{{Kind: "int", Text: "1", I: 1}, {Kind: "null", Text: "null"}}}
	}
	return c
}

// Skeletons of conditions: a leaf is the empty one.
type skel struct {
	op   string
	l, r *skel
}

// skeletons are the binary trees with n leaves over AND and OR.
func skeletons(n int) []*skel {
	if n == 1 {
		return []*skel{{}}
	}
	var z []*skel
	for k := 1; k < n; k++ {
		for _, l := range skeletons(k) {
			for _, r := range skeletons(n - k) {
				z = append(z, &skel{"and", l, r}, &skel{"or", l, r})
			}
		}
	}
	return z
}

// cond makes a condition; leaf makes the next comparison and nots tells how many NOTs stand before the next node.
func (s *skel) cond(leaf func() *Cond, nots func() int, paren int) *Cond {
	n := nots()
	var c *Cond
	if s.op == "" {
		c = leaf()
	} else {
		l := s.l.cond(leaf, nots, paren)
		c = &Cond{Op: s.op, L: l, R: s.r.cond(leaf, nots, paren), Paren: paren}
	}
	for ; n > 0; n-- {
		c = &Cond{Op: "not", L: c}
	}
	return c
}

// digits yields all assignments of values below base to n positions.
func digits(n, base int, yield func(d []int) bool) bool {
	d := make([]int, n)
	for {
		if !yield(d) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			if d[i]++; d[i] < base {
				break
			}
			d[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// condScope yields all conditions with n comparisons of the kinds, with up to nots NOTs before each node.
func condScope(n, kinds, nots int, yield func(c any) bool) bool {
	k := 0
	for _, s := range skeletons(n) {
		if !digits(n, kinds, func(ks []int) bool {
			return digits(2*n-1, nots+1, func(ns []int) bool {
				k++
				i, j := 0, 0
				leaf := func() *Cond {
					i++
					return sCmp(ks[i-1], i-1+k%len(cmpCycle), "c")
				}
				not := func() int {
					j++
					return ns[j-1]
				}
				c := s.cond(leaf, not, k/3%5/4)
				return yield(QCase{Q: &Query{Items: []*Item{sField("c", "id")}, From: []*FromObj{sFrom("c")}, Where: c}})
			})
		}) {
			return false
		}
	}
	return true
}

// havingScope is the same for HAVING, with comparisons of function calls only.
func havingScope(n, nots int, yield func(c any) bool) bool {
	k := 0
	for _, s := range skeletons(n) {
		if !digits(2*n-1, nots+1, func(ns []int) bool {
			k++
			i, j := 0, 0
			leaf := func() *Cond {
				i++
				return &Cond{Op: "cmp", X: sFn("fn", sField("c", "a")), Cmp: cmpCycle[(i+k)%len(cmpCycle)], Y: sInt(i)}
			}
			not := func() int {
				j++
				return ns[j-1]
			}
			c := s.cond(leaf, not, k/3%5/4)
			return yield(QCase{Q: &Query{Items: []*Item{sField("c", "id")}, From: []*FromObj{sFrom("c")}, GroupBy: []*Key{{Ref: sRef("c", "id")}}, Having: c}})
		}) {
			return false
		}
	}
	return true
}

// scopes runs several scopes of small conditions.
func enumP03(deep bool, yield func(c any) bool) {
	n := 6
	if deep {
		n = 8
	}
	for i := 1; i <= n; i++ {
		if !condScope(i, 1, 0, yield) || !havingScope(i, 0, yield) {
			return
		}
	}
	_ = condScope(1, 9, 0, yield) && condScope(2, 9, 0, yield) && condScope(3, 9, 0, yield) && (!deep || condScope(4, 9, 0, yield))
}

func enumP04(deep bool, yield func(c any) bool) {
	_ = condScope(1, 9, 2, yield) && condScope(2, 9, 2, yield) && havingScope(2, 2, yield) && condScope(3, 1, 2, yield) && havingScope(3, 2, yield) &&
		condScope(4, 1, 1, yield) && havingScope(4, 1, yield) && condScope(3, 9, 1, yield) &&
		(!deep || condScope(5, 1, 1, yield) && condScope(4, 1, 2, yield) && havingScope(5, 1, yield))
}

func enumP12(deep bool, yield func(c any) bool) {
	_ = condScope(1, 9, 2, yield) && condScope(2, 9, 1, yield) && condScope(3, 9, 0, yield) && condScope(3, 5, 1, yield) && condScope(4, 5, 0, yield) &&
		(!deep || condScope(3, 9, 1, yield) && condScope(4, 9, 0, yield) && condScope(5, 4, 0, yield) && condScope(4, 3, 1, yield) && condScope(6, 2, 0, yield))
}
