package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"pgregory.net/rapid"
)

// HOp is a step of a history of calls.
type HOp struct {
	K string `json:"k"` // parse, scribble, par, burn
	I int    `json:"i"` // text, or retained result
	N int    `json:"n"` // number of concurrent callers, or of repetitions
}

// HistCase is a history of parse calls and modifications of their results.
type HistCase struct {
	Texts []string `json:"texts"`
	Ops   []HOp    `json:"ops"`
	Valid []bool   `json:"valid"` // texts that are valid by construction
	Fresh int      `json:"fresh"` // text that is also parsed in a new process; -1: none
}

// ---------- canonical text of a result ----------

type dumper struct {
	b    strings.Builder
	seen map[uintptr]int
}

func (d *dumper) dump(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(&d.b, "^%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.b.WriteByte('&')
		d.dump(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.b.WriteByte(' ')
		d.dump(v.Elem())
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			d.b.WriteString(t.Format(time.RFC3339Nano))
			return
		}
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if skipVolatile(v.Type(), f.Name) || v.Field(i).IsZero() {
				continue
			}
			d.b.WriteString(f.Name)
			d.b.WriteByte(':')
			d.dump(v.Field(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		d.b.WriteString("map[")
		for _, k := range ks {
			fmt.Fprintf(&d.b, "%q:", fmt.Sprint(k))
			d.dump(v.MapIndex(k))
			d.b.WriteByte(',')
		}
		d.b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(&d.b, "%q", v.String())
	case reflect.Float64:
		fmt.Fprintf(&d.b, "%x", math.Float64bits(v.Float()))
	default:
		fmt.Fprint(&d.b, v.Interface())
	}
}

// outcome is the canonical text of what Parse returns.
func outcome(q *SQ, err error) string {
	if err != nil {
		if q != nil {
			return "query and error"
		}
		return "error: " + err.Error()
	}
	if q == nil {
		return "neither query nor error"
	}
	d := &dumper{seen: map[uintptr]int{}}
	d.dump(reflect.ValueOf(q))
	return d.b.String()
}

func safeParse(s string) (q *SQ, err error) {
	defer func() {
		if r := recover(); r != nil {
			q, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return parser.Parse(s)
}

// scribble overwrites everything that can be reached and changed.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		scribble(e, seen) // what it refers to
		if v.CanSet() {
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			scribble(c, seen)
			v.Set(c)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(1, 1)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		w := v.Slice(0, v.Cap())
		if seen[w.Pointer()] && w.Type().Elem().Kind() != reflect.String {
			return
		}
		seen[w.Pointer()] = true
		for i := 0; i < w.Len(); i++ {
			scribble(w.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			c := reflect.New(e.Type()).Elem()
			c.Set(e)
			scribble(c, seen)
			v.SetMapIndex(k, c)
		}
		k := reflect.New(v.Type().Key()).Elem()
		scribble(k, seen)
		v.SetMapIndex(k, reflect.New(v.Type().Elem()).Elem())
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		if v.CanSet() {
			v.SetInt(v.Int() + 1001)
		}
	case reflect.Uint8, reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-1.25)
		}
	}
}

func init() {
	p := defProp("P20",
		"histories of 4-12 steps over 2-4 related texts (valid, invalid, nested, near-duplicates in case, spacing or a letter): parse, overwrite every reachable part of a retained result (also the spare capacity of slices), parse one text 70 to 200 times, parse from several goroutines at once (each overwriting its results) under the race detector; every parse of a text must give the same outcome, an acceptance if it is valid by construction, in a tenth of the cases also as the first call of a new process, and retained results must not change; each worker starts with concurrent first calls; non-trivial: a text is parsed again after another text, and at least one text is accepted",
		3000, 150000, genP20, checkP20,
		func(c HistCase) string { b, _ := json.Marshal(c); return string(b) })
	p.Race = true
}

func genP20(t *rapid.T) HistCase {
	o := defOpts()
	o.NoDeep = true
	o.MaxQueries = 2
	g := &G{t: t, o: o}
	c := HistCase{Fresh: -1}
	n := g.rng(2, 4)
	var qs []*Query
	for len(c.Texts) < n {
		var s string
		valid := false
		switch k := g.w(5, 4, 2, 1, 1, 2, 4); {
		case len(c.Texts) == 0:
			q := genQuery(t, o)
			qs = append(qs, q)
			s = layout(tokens(q), uint64(g.bits(4)))
			valid = true
		case k == 6:
			s = g.relative(pick(g, qs))
		case k == 5:
			s = pick(g, rejectedTexts)
		case k == 1 && len(c.Texts) > 0:
			s = g.variant(pick(g, c.Texts))
		case k == 2:
			s = g.scramble(layout(tokens(genQuery(t, o)), 0), 1)
		case k == 3:
			a, b := g.nest(g.rng(1, 4))
			s = a + b
		case k == 4:
			s = pick(g, []string{"", "select", "select a from b", "select a from b where x = 'y", "select a, a from b group by c", "select count() from b", "select f(a), f(b), a, a from c order by d.e"})
		default:
			q := genQuery(t, o)
			qs = append(qs, q)
			s = layout(tokens(q), uint64(g.bits(4)))
			valid = true
		}
		c.Valid = append(c.Valid, valid)
		// the texts are stored as JSON
		c.Texts = append(c.Texts, strings.ToValidUTF8(s, "?"))
	}
	for k := g.rng(4, 12); k > 0; k-- {
		op := HOp{K: "parse", I: g.u(n)}
		switch g.w(28, 12, 4, 1) {
		case 3:
			op.K, op.N = "burn", g.rng(70, 200)
		case 1:
			op.K, op.I = "scribble", g.u(8)
		case 2:
			op.K, op.N = "par", g.rng(2, 4)
		}
		c.Ops = append(c.Ops, op)
	}
	if g.p(10) {
		c.Fresh = g.u(n)
	}
	return c
}

// relative is a text with the names of the given query that is rejected for a reason found late.
func (g *G) relative(q *Query) string {
	inj := InjCase{Q: q}
	pick(g, []func(*G, *InjCase){injDupAlias, injAgg, injScope, injOrder})(g, &inj)
	if inj.Bad != nil {
		q = inj.Bad
	}
	s := layout(tokens(q), uint64(g.bits(2)))
	switch g.u(8) {
	case 0:
		s = "select Id, (" + s + ") from Zz"
	case 1:
		s = "select Id from Zz where a in (" + s + ") and count(b) > 1"
	case 2:
		s += pick(g, []string{" )", " limit 1 limit 2", " x", ", x", " for", " and"})
	}
	return s
}

// variant is a text that is easily taken for the given one.
func (g *G) variant(s string) string {
	switch g.u(9) {
	case 7:
		// the case of one letter, most often in a string literal
		if i := strings.IndexByte(s, '\''); i >= 0 && g.p(60) {
			for j := i + 1; j < len(s) && s[j] != '\'' && s[j] != '\\'; j++ {
				if 'a' <= s[j]|0x20 && s[j]|0x20 <= 'z' {
					return s[:j] + string(rune(s[j]^0x20)) + s[j+1:]
				}
			}
		}
		for k := 0; k < 5 && len(s) > 0; k++ {
			j := g.u(len(s))
			if 'a' <= s[j]|0x20 && s[j]|0x20 <= 'z' {
				return s[:j] + string(rune(s[j]^0x20)) + s[j+1:]
			}
		}
		return s
	case 8:
		// two letters are exchanged
		if len(s) > 1 {
			i := g.u(len(s) - 1)
			if s[i] < 0x80 && s[i+1] < 0x80 {
				return s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:]
			}
		}
		return s
	case 0:
		return asciiUpper(s)
	case 1:
		return asciiLower(s)
	case 2:
		return s + " "
	case 3:
		return strings.ReplaceAll(s, " ", "  ")
	case 4:
		if len(s) > 0 {
			i := g.u(len(s))
			if c := s[i]; 'a' <= c && c < 'z' || '0' <= c && c < '9' {
				return s[:i] + string(c+1) + s[i+1:]
			}
		}
		return s + "x"
	case 5:
		return s[:g.u(len(s)+1)]
	}
	return s + " limit 3"
}

// rejectedTexts are rejected, one or more for every way to fail, also inside subqueries.
var rejectedTexts = func() []string {
	z := []string{
		"select a from b c, b.d c", "select a x, b x from c", "select f(a), b from c", "select a from b group by a, a", "select a from b order by a, a", "select a from b.c", "select a from b, d.e.f",
		"select count(a), (select b from c) from d", "select zz.a from b, b.c d, (select", "select f(count(a)) from b", "select fields(a, b) from c", "select fields(1) from c", "select fields(zz.all) from c",
		"select a from b where count(c) = 1", "select a from b where fields(all) = 1", "select f(fields(all)) from b", "select count(1) from b", "select count(a, b) from b", "select count_distinct() from b", "select count_distinct(1) from b",
		"select f(a), a from b group by c", "select g(count(a), b) from c group by d", "select fields(all), count(a) from b", "select a from b having count(c) = 1",
		"select id, (select x.y from c, d.e x) from b", "select id, (select b.q.z from c) from b", "select id, (select id from c d, c.e d) from b",
		"select 'a", "select a from b where x = 'y", "select a from b where x = 99999999999999999999", "select a from b where x = '\\u{110000}'", "select a from b where (((x = 1)", "select a from b where x = 2024-02-31",
		"select a from b limit 99999999999999999999", "select f(g(h(", "select a from b where x in (1, (2))", "select", "", "select a from b where x = 1e999", "select a from b for view for view",
	}
	for _, s := range append([]string{}, z...) {
		if strings.HasPrefix(s, "select ") && strings.Contains(s, " from ") {
			z = append(z, "select id, ("+s+") from k", "select id from k where l in ("+s+")", "select id, (select a, ("+s+") from b) from k")
		}
	}
	return z
}()

var firstCalls sync.Once
var firstCallsErr error

// concurrently parses the texts from n goroutines in different orders.
func concurrently(texts []string, n int) [][]string {
	out := make([][]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := 0; k < n; k++ {
		out[k] = make([]string, len(texts))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for j := range texts {
				i := (j + k) % len(texts)
				q, err := safeParse(texts[i])
				out[k][i] = outcome(q, err)
				if q != nil {
					scribble(reflect.ValueOf(q), map[uintptr]bool{})
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	return out
}

var firstTexts = []string{
	"select a, f(g(1), b.c, null), (select x from y where z in (1, 2) and not (w like 'v%' or u != :p)) from k l, l.m n where (a = 1 or b = today) and c in (select d from e where f > 2024-01-02) group by a having count(b) > 1 order by a desc nulls last limit 1 offset 2 for update tracking",
	"select a from b where ((((c = 1))))", "select (select b from c) from d", "select a from", "select f(f(f(f(x)))) from a where not (b = 2 or not (c = 3))",
}

func checkP20(c HistCase, o *Obs) error {
	firstCalls.Do(func() {
		r := concurrently(firstTexts, 8)
		for k := range r {
			for i := range firstTexts {
				if r[k][i] != r[0][i] {
					firstCallsErr = fmt.Errorf("concurrent first calls differ for %q: %s", firstTexts[i], firstDiff(r[0][i], r[k][i]))
				}
			}
		}
	})
	if firstCallsErr != nil {
		return firstCallsErr
	}
	base := make([]string, len(c.Texts))
	expect := func(i int, got, how string) error {
		if base[i] == "" {
			base[i] = got
			if i < len(c.Valid) && c.Valid[i] && strings.HasPrefix(got, "error") {
				return fmt.Errorf("%s of text %d, a valid query, is a rejection: %s", how, i, clip(got, 300))
			}
			return nil
		}
		if base[i] != got {
			return fmt.Errorf("%s of text %d differs from the first one: %s", how, i, firstDiff(base[i], got))
		}
		return nil
	}
	type kept struct {
		q    *SQ
		text int
		dump string
		bad  bool
	}
	var keep []*kept
	unchanged := func(when string) error {
		for n, k := range keep {
			if !k.bad {
				if d := outcome(k.q, nil); d != k.dump {
					return fmt.Errorf("%s: result %d (of text %d) changed: %s", when, n, k.text, firstDiff(k.dump, d))
				}
			}
		}
		return nil
	}
	accepted, again, last := false, false, -1
	times := map[int]bool{}
	for n, op := range c.Ops {
		when := fmt.Sprintf("step %d (%s)", n, op.K)
		switch op.K {
		case "parse":
			i := op.I % len(c.Texts)
			q, err := safeParse(c.Texts[i])
			out := outcome(q, err)
			if e := expect(i, out, when+": the outcome"); e != nil {
				return e
			}
			if q != nil {
				accepted = true
				keep = append(keep, &kept{q: q, text: i, dump: out})
			}
			again = again || times[i] && last != i
			times[i], last = true, i
		case "scribble":
			if len(keep) > 0 {
				k := keep[op.I%len(keep)]
				if !k.bad {
					k.bad = true
					scribble(reflect.ValueOf(k.q), map[uintptr]bool{})
					o.label("result overwritten")
				}
				if e := unchanged(when); e != nil {
					return e
				}
			}
		case "burn":
			i := op.I % len(c.Texts)
			var e0 string
			for n := 0; n < op.N; n++ {
				q, err := safeParse(c.Texts[i])
				e := ""
				if err != nil {
					e = err.Error()
				}
				if n == 0 {
					e0 = e
				}
				if e != e0 || n == op.N-1 {
					if e := expect(i, outcome(q, err), when+": the outcome"); e != nil {
						return e
					}
				}
			}
			o.label("one text parsed many times")
		case "par":
			if runtime.GOMAXPROCS(0) < 2 {
				runtime.GOMAXPROCS(4)
			}
			for k, r := range concurrently(c.Texts, op.N) {
				for i := range c.Texts {
					if e := expect(i, r[i], fmt.Sprintf("%s: the outcome in goroutine %d", when, k)); e != nil {
						return e
					}
				}
			}
			o.label("concurrent calls")
			if e := unchanged(when); e != nil {
				return e
			}
		}
	}
	if e := unchanged("at the end"); e != nil {
		return e
	}
	for i := range c.Texts {
		q, err := safeParse(c.Texts[i])
		if e := expect(i, outcome(q, err), "at the end: the outcome"); e != nil {
			return e
		}
		accepted = accepted || q != nil
	}
	if again && accepted {
		o.nt()
	}
	if c.Fresh >= 0 {
		o.label("compared with a new process")
		got, err := freshOutcome(c.Texts[c.Fresh])
		if err != nil {
			return err
		}
		return expect(c.Fresh, got, "in a new process the outcome")
	}
	return nil
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	return fmt.Sprintf("…%s… vs …%s…", clip(a[j:], 160), clip(b[j:], 160))
}

// freshOutcome parses the text as the first call of a new process.
func freshOutcome(s string) (string, error) {
	for try := 0; ; try++ {
		cmd := exec.Command(os.Args[0], "-mode", "fresh")
		cmd.Stdin = strings.NewReader(s)
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		if err == nil {
			return out.String(), nil
		}
		if r := deathReason(shardResult{log: errb.String()}); r != "" {
			return "", fmt.Errorf("a new process dies: %s", r)
		}
		if try == 3 {
			fmt.Fprintln(os.Stderr, "cannot run a new process:", err, errb.String())
			os.Exit(3)
		}
		time.Sleep(200 * time.Millisecond)
	}
}
