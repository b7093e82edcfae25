package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"pgregory.net/rapid"
)

// GrowCase is a family of texts: Head, n times A, Core, n times B, Tail.
// "%d" in A and B becomes the number of the repetition.
type GrowCase struct {
	Head  string `json:"head"`
	A     string `json:"a"`
	Core  string `json:"core"`
	B     string `json:"b"`
	Tail  string `json:"tail"`
	Start int    `json:"start"`
	Limit int    `json:"limit"` // of n
	Kind  string `json:"kind"`
}

func (c GrowCase) text(n int) string {
	var b strings.Builder
	b.WriteString(c.Head)
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(c.A, "%d", fmt.Sprint(i)))
	}
	b.WriteString(c.Core)
	for i := n - 1; i >= 0; i-- {
		b.WriteString(strings.ReplaceAll(c.B, "%d", fmt.Sprint(i)))
	}
	b.WriteString(c.Tail)
	return b.String()
}

// growPlaces are places of a query where something can be repeated.
var growPlaces = []struct {
	head  string
	units []string
	tail  string
	kind  string
}{
	{"select ", []string{"a%d, ", "a, ", "a%d b%d, ", "b.a%d, ", "b.c.a%d, ", "c%d.a, ", "f(a%d), ", "f(a%d) g%d, ", "g(a, 1, 'x'), ", "f(g(h(a))), ", "(select a from d%d), ", "(select a, e.f from d), ", "fields(all), ", "count(a%d), ", "format(c%d.a, null), "}, "z from b", "items"},
	{"select a from b where ", []string{"a = 1 and ", "a%d = 1 and ", "a%d = %d or ", "not a = 1 and ", "not (a < 2) or ", "(a = 1) and ", "b.c%d.d = 1 and ", "f(a) = 'x' or ", "a in (1, 2) and ", "not a in ('x') and ", "a in (select b from c) and ", "a%d not in (select b from c where d = %d) or ", "c.d > today and ", "x like 'y' or ", "x = :p%d and ", "a = last_n_days:3 or ", "(a = 1 or b = 2) and ", "not (a = 1 or b = 2) or "}, "z = 1", "where"},
	{"select a from b where x in (", []string{"1, ", "%d, ", "'x', ", "2024-01-02, ", "2024-01-02T03:04:05Z, ", "today, ", "last_n_days:2, ", ":p%d, ", "null, ", "true, ", "1.5, "}, "0)", "list"},
	{"select count(a) from b group by ", []string{"a%d, ", "c%d.d, ", "b.a%d, ", "a, ", "f(a%d), "}, "z", "group"},
	{"select count(a) from b group by z having ", []string{"count(a) > 1 and ", "z = 1 or ", "not max(a%d) < 2 and ", "(min(a) = 1) or ", "z in (1, 2) and "}, "z = 1", "having"},
	{"select a from b order by ", []string{"a%d, ", "b.a%d desc, ", "c%d.d nulls last, ", "a, ", "b.c.d%d asc nulls first, "}, "z", "order"},
	{"select a from b, ", []string{"b.c%d, ", "b.c%d d%d, ", "b.c, ", "b.c%d.e f%d, ", "d%d e%d, "}, "b.z", "from"},
	{"select f(", []string{"a%d, ", "1, ", "'x', ", "g(a%d), ", "null, ", "f(1), ", "b.c%d.d, "}, "z) from b", "arguments"},
	{"select ", []string{"a.", "a%d.", "\"x y\".", "a . "}, "z from b", "path"},
	{"select a from ", []string{"b%d.", "b."}, "z", "object path"},
	{"select a from b where x = '", []string{"x", "\\n", "''", "\\u0041", "日", " -- ", "/*"}, "'", "string"},
	{"select a from b where x = 1", []string{"0", "_1", "12345"}, "", "digits"},
	{"select a from b where x = 0.", []string{"1", "00"}, "", "fraction"},
	{"select a from b where x = ", []string{"0b1", "x", "_", "-", "+", "2024-", "1e", "9"}, "1", "word"},
	{"select", []string{" ", "\n", "\t ", "/**/", "/* select */", "-- x\n", " \r\n", "--\n/*'*/ "}, " a from b", "gaps"},
	{"select a", []string{" ", "/**/", "-- x\n"}, "from b", "gaps"},
	{"select a from b where", []string{" ", "/**/", "-- x\n"}, " x=1", "gaps"},
	{"select a from b", []string{" ", "/**/", "-- x\n", "\n"}, "", "gaps"},
	{"", []string{" ", "/**/", "-- x\n", "\n", "select a from b ", "select ", "(", "'", "\"", "/*", "select (", "select a, (select ", "not ", "a.b(", "f(", ", "}, "", "anything"},
	{"select a from b ", []string{"where a = 1 ", "group by a ", "limit 1 ", "for view ", "order by a ", "c ", ", b.c "}, "", "clauses"},
	{"select \"", []string{"x", "\\\"", "日", "\\u{41}"}, "\" from b", "quoted name"},
	{"select a", []string{"a", "_", "9", "select"}, " from b", "long name"},
}

var growBreaks = []string{" ", ")", "(", "'", "\"", "/*", " x", " and", " , ", "where", " limit", "\xff", ";"}

func (g *G) growing() GrowCase {
	c := GrowCase{Start: g.rng(3, 5), Limit: 48}
	switch g.w(5, 5, 3) {
	case 0:
		// nested constructs
		at := []string{"cond", "val", "item", "mixed"}[g.u(4)]
		var ks []int
		for i, w := range wraps {
			if w.at == at || at == "mixed" {
				ks = append(ks, i)
			}
		}
		for m := g.rng(1, 3); m > 0; m-- {
			w := wraps[ks[g.u(len(ks))]]
			c.A, c.B = c.A+w.pre, w.post+c.B
		}
		c.Kind = "nested " + at
		c.Head = "select a from b where "
		c.Core = pick(g, []string{"x = 1", "x", "1", "'s'", "", "x in (1, 2)", "not x = 2", "(x = 1)", "f(x) = 1"})
		switch at {
		case "item":
			c.Head, c.Tail = "select ", " from b"
			c.Core = pick(g, []string{"x", "f(x)", "", "b.c"})
		case "val":
			c.Core = pick(g, []string{"x", "1", "null", "", "b.c"})
			h := pick(g, [][2]string{{"select ", " from b"}, {"select a, ", " c from b"}, {"select a from b where ", " = 1"}, {"select a from b where not (", " in (1))"},
				{"select a from b group by a having ", " > 1"}, {"select a from b group by ", ""}, {"select a from b order by ", " desc"}, {"select a from b where x = ", ""}, {"select a from b where x in (1, ", ")"},
				{"select a from ", " limit 1"}, {"select a from b limit ", ""}})
			c.Head, c.Tail = h[0], h[1]
		}
	case 1:
		// repeated constructs
		p := pick(g, growPlaces)
		for m := g.rng(1, 3); m > 0; m-- {
			c.A += pick(g, p.units)
		}
		c.Head, c.Core, c.Kind = p.head, p.tail, "repeated "+p.kind
		c.Start, c.Limit = 8*c.Start, 400
	default:
		// repeated and nested
		p := growPlaces[g.u(2)]
		w := wraps[g.u(len(wraps))]
		for k := 0; k < 20 && (p.kind == "where") != (w.at == "cond"); k++ {
			w = wraps[g.u(len(wraps))]
		}
		u := ""
		for m := g.rng(1, 2); m > 0; m-- {
			u += pick(g, p.units)
		}
		c.Head, c.Kind = p.head, "repeated and nested "+p.kind
		c.A, c.B = u+w.pre, w.post
		c.Core = pick(g, []string{"x = 1", "x", "1"})
		if p.kind == "items" {
			c.Core, c.Tail = "x", " from b"
		}
	}
	switch g.w(6, 2, 2, 2) {
	case 1:
		c.B, c.Tail = "", ""
		c.Kind += ", unclosed"
	case 2:
		c.Tail += pick(g, growBreaks)
		c.Kind += ", damaged"
	case 3:
		c.Core += pick(g, growBreaks)
		c.Kind += ", damaged"
	}
	return c
}

// parseCost is what parsing the text costs.
func parseCost(s string) (allocs, bytes, cpu float64, accepted bool) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadCPU()
	q, err := parser.Parse(s)
	cpu = threadCPU() - t
	runtime.ReadMemStats(&b)
	runtime.KeepAlive(q)
	return float64(b.Mallocs - a.Mallocs), float64(b.TotalAlloc - a.TotalAlloc), cpu, err == nil
}

// threadCPU is the processor time in seconds that this thread has used.
func threadCPU() float64 {
	var r syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &r) != nil {
		return 0
	}
	return float64(r.Utime.Sec) + float64(r.Utime.Usec)/1e6
}

// growBound is the largest factor by which doubling may multiply the cost.
const growBound = 12

func checkP24(c GrowCase, o *Obs) error {
	n := c.Start
	s := c.text(n)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	a, b, cpu, _ := parseCost(s)
	o.label(c.Kind)
	factor := 0.0
	for 2*n <= c.Limit && len(s) < 40000 {
		t := c.text(2 * n)
		a2, b2, cpu2, ok := parseCost(t)
		o.labelIf(ok, c.Kind+": accepted")
		// a constant cost matters for tiny texts
		for _, r := range []struct {
			what     string
			now, was float64
		}{{"allocations", a2, a + 500}, {"allocated bytes", b2, b + 50000}} {
			if q := r.now / r.was; q > factor {
				factor = q
			}
			if r.now > growBound*r.was {
				return fmt.Errorf("from %d to %d repetitions (%d to %d bytes of text) the %s grow from %.0f to %.0f", n, 2*n, len(s), len(t), r.what, r.was, r.now)
			}
		}
		// The time is not exact, so only a long one counts.
		if cpu2 > 3 && cpu2 > 2*growBound*(cpu+0.01) {
			return fmt.Errorf("from %d to %d repetitions (%d to %d bytes of text) the processor time grows from %.3f s to %.1f s", n, 2*n, len(s), len(t), cpu, cpu2)
		}
		if a2 > 3000 {
			o.nt()
		}
		n, s, a, b, cpu = 2*n, t, a2, b2, cpu2
	}
	switch {
	case factor < 2.5:
		o.label("largest factor below 2.5")
	case factor < 5:
		o.label("largest factor 2.5 to 5")
	default:
		o.label("largest factor above 5")
	}
	return nil
}

func init() {
	p := defProp("P24",
		"families of texts in which one to three constructs are nested (3 to 48 levels), repeated (24 to 400 times) or both, closed, unclosed or damaged, accepted or rejected; whenever the number of levels or repetitions doubles, the allocations and allocated bytes of Parse may grow at most 12-fold (more than cubic growth), and processor times above 3 s at most 24-fold; non-trivial: a text that costs more than 3000 allocations",
		6000, 150000,
		func(t *rapid.T) GrowCase {
			g := &G{t: t, o: defOpts()}
			return g.growing()
		}, checkP24,
		func(c GrowCase) string { return fmt.Sprintf("%s: %q", c.Kind, clip(c.text(c.Start), 400)) })
	p.caseSec = 60
}
