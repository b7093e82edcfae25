package main

import (
	"encoding/json"
	"regexp"
	"strings"
)

// The AST of generated queries. Besides the written text it carries the intent:
// every reference knows the absolute path of the object it denotes, so that the
// expected result follows by construction and not by re-implementing the parser.

type Path []string

func (p Path) key() string { return strings.ToLower(strings.Join(p, "\x00")) }

func (p Path) clone() Path { return append(Path{}, p...) }

func (p Path) add(s ...string) Path { return append(p.clone(), s...) }

func (p Path) hasPrefix(q Path) bool {
	return len(p) >= len(q) && p[:len(q)].key() == q.key()
}

type Ref struct {
	Obj   Path     `json:"obj"`             // absolute path of the object
	Field string   `json:"field"`           // field name
	Parts []string `json:"parts"`           // as written
	Outer bool     `json:"outer,omitempty"` // belongs to an object of the enclosing query
}

func (r *Ref) full() Path { return r.Obj.add(r.Field) }
func (r *Ref) key() string {
	return r.full().key()
}

type Lit struct {
	Kind string  `json:"kind"` // null int float bool string date datetime time param dlit
	Text string  `json:"text"` // as written
	I    int64   `json:"i,omitempty"`
	F    float64 `json:"f,omitempty"`
	B    bool    `json:"b,omitempty"`
	S    string  `json:"s,omitempty"` // string value, parameter name, date literal name
	N    int64   `json:"n,omitempty"` // date literal
	T    string  `json:"t,omitempty"` // RFC3339Nano, UTC
}

type Item struct {
	Kind  string  `json:"kind"` // field func sub lit list
	Ref   *Ref    `json:"ref,omitempty"`
	Fn    string  `json:"fn,omitempty"`
	Args  []*Item `json:"args,omitempty"`
	Sub   *Query  `json:"sub,omitempty"`
	Lit   *Lit    `json:"lit,omitempty"`
	List  []*Lit  `json:"list,omitempty"`
	Alias string  `json:"alias,omitempty"`
}

type Cond struct {
	Op    string `json:"op"` // and or not cmp
	L     *Cond  `json:"l,omitempty"`
	R     *Cond  `json:"r,omitempty"`
	X     *Item  `json:"x,omitempty"`
	Cmp   string `json:"cmp,omitempty"`
	Y     *Item  `json:"y,omitempty"`
	Paren int    `json:"paren,omitempty"` // redundant parentheses
}

type FromObj struct {
	Path  Path     `json:"path"`
	Parts []string `json:"parts"`
	Alias string   `json:"alias,omitempty"`
}

// A grouping or ordering key: either a field or the alias of a select item.
type Key struct {
	Ref   *Ref   `json:"ref,omitempty"`
	Alias string `json:"alias,omitempty"` // as written
	Item  int    `json:"item"`            // index of the select item denoted by the alias
	Dir   string `json:"dir,omitempty"`   // "", asc, desc
	Nulls string `json:"nulls,omitempty"` // "", first, last
}

type ForC struct {
	View, Reference, Update, Tracking, Viewstat bool
	Swap                                        bool // written order
}

type Query struct {
	Items       []*Item    `json:"items"`
	From        []*FromObj `json:"from"`
	Where       *Cond      `json:"where,omitempty"`
	GroupBy     []*Key     `json:"groupBy,omitempty"`
	Having      *Cond      `json:"having,omitempty"`
	OrderBy     []*Key     `json:"orderBy,omitempty"`
	Offset      *Lit       `json:"offset,omitempty"`
	Limit       *Lit       `json:"limit,omitempty"`
	OffsetFirst bool       `json:"offsetFirst,omitempty"`
	For         *ForC      `json:"for,omitempty"`
}

func (q *Query) head() Path { return q.From[0].Path }

// leaves returns the comparisons of the condition in written order.
func (c *Cond) leaves() []*Cond {
	if c == nil {
		return nil
	}
	switch c.Op {
	case "cmp":
		return []*Cond{c}
	case "not":
		return c.L.leaves()
	}
	return append(c.L.leaves(), c.R.leaves()...)
}

func (c *Cond) hasNot() bool {
	if c == nil {
		return false
	}
	switch c.Op {
	case "cmp":
		return false
	case "not":
		return true
	}
	return c.L.hasNot() || c.R.hasNot()
}

func (c *Cond) depth() int {
	if c == nil || c.Op == "cmp" {
		return 0
	}
	d := c.L.depth()
	if c.Op != "not" {
		if e := c.R.depth(); e > d {
			d = e
		}
	}
	return d + 1
}

// leafParity reports for each leaf whether it lies under an odd number of NOTs.
func (c *Cond) leafParity(odd bool) []bool {
	switch c.Op {
	case "cmp":
		return []bool{odd}
	case "not":
		return c.L.leafParity(!odd)
	}
	return append(c.L.leafParity(odd), c.R.leafParity(odd)...)
}

// eval evaluates the condition; the leaves take the values of v in written order.
func (c *Cond) eval(v []bool) bool {
	r, _ := c.eval0(v)
	return r
}

func (c *Cond) eval0(v []bool) (bool, []bool) {
	switch c.Op {
	case "cmp":
		return v[0], v[1:]
	case "not":
		r, rest := c.L.eval0(v)
		return !r, rest
	case "and":
		a, rest := c.L.eval0(v)
		b, rest2 := c.R.eval0(rest)
		return a && b, rest2
	default:
		a, rest := c.L.eval0(v)
		b, rest2 := c.R.eval0(rest)
		return a || b, rest2
	}
}

// walkItems calls f for every operand of the condition (not descending into function arguments).
func (c *Cond) walkItems(f func(*Item)) {
	for _, l := range c.leaves() {
		f(l.X)
		f(l.Y)
	}
}

// walkAll calls f for every item of the query of this level: select items, operands and their arguments.
func (q *Query) walkOwnItems(f func(it *Item, clause string, arg bool)) {
	var rec func(it *Item, clause string, arg bool)
	rec = func(it *Item, clause string, arg bool) {
		f(it, clause, arg)
		for _, a := range it.Args {
			rec(a, clause, true)
		}
	}
	for _, it := range q.Items {
		rec(it, "select", false)
	}
	q.Where.walkItems(func(it *Item) { rec(it, "where", false) })
	q.Having.walkItems(func(it *Item) { rec(it, "having", false) })
}

// subs returns the subqueries directly below the query, in select and in conditions.
func (q *Query) subs() (sel, where, having []*Query) {
	for _, it := range q.Items {
		if it.Kind == "sub" {
			sel = append(sel, it.Sub)
		}
	}
	q.Where.walkItems(func(it *Item) {
		if it.Kind == "sub" {
			where = append(where, it.Sub)
		}
	})
	q.Having.walkItems(func(it *Item) {
		if it.Kind == "sub" {
			having = append(having, it.Sub)
		}
	})
	return
}

// walkQueries calls f for the query and all of its subqueries.
func (q *Query) walkQueries(f func(q *Query)) {
	f(q)
	a, b, c := q.subs()
	for _, l := range [][]*Query{a, b, c} {
		for _, s := range l {
			s.walkQueries(f)
		}
	}
}

func (q *Query) countQueries() int {
	n := 0
	q.walkQueries(func(*Query) { n++ })
	return n
}

var plainNameRe = regexp.MustCompile(`^[A-Za-z$_][A-Za-z0-9$_]*$`)

func isPlainName(s string) bool { return plainNameRe.MatchString(s) }

// cloneQuery copies the query deeply.
func cloneQuery(q *Query) *Query {
	b, err := json.Marshal(q)
	if err != nil {
		panic("clone: " + err.Error())
	}
	z := &Query{}
	if err := json.Unmarshal(b, z); err != nil {
		panic("clone: " + err.Error())
	}
	return z
}

func cloneJSON[T any](v *T) *T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	z := new(T)
	if err := json.Unmarshal(b, z); err != nil {
		panic(err)
	}
	return z
}

// hasSub tells whether a comparison of the condition has a subquery.
func (c *Cond) hasSub() bool {
	found := false
	c.walkItems(func(it *Item) { found = found || it.Kind == "sub" })
	return found
}
