package main

import (
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// recog is a hand-written recognizer of the language, used as the oracle for what is well-formed.
// Its functions take a position and return the position behind the construct, or -1.
type recog struct {
	s string
	// parts counts what the outermost query consists of.
	parts struct{ Items, Where, Group, Having, Order int }
	depth int
}

// notQuery ends the recognition.
type notQuery struct{ why string }

// recognize reports whether the text is one well-formed SELECT statement.
func recognize(s string) (r *recog, ok bool, why string) {
	r = &recog{s: s}
	defer func() {
		if x := recover(); x != nil {
			n, is := x.(notQuery)
			if !is {
				panic(x)
			}
			ok, why = false, n.why
		}
	}()
	p := r.sp(0)
	p = r.need(r.query(p, false), "select statement")
	if r.sp(p) != len(s) {
		return r, false, "text follows"
	}
	return r, true, ""
}

func (r *recog) need(p int, what string) int {
	if p < 0 {
		panic(notQuery{what})
	}
	return p
}

func wordByte(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_' || c == '$'
}
func digit(c byte) bool { return '0' <= c && c <= '9' }

func (r *recog) at(p int) byte {
	if 0 <= p && p < len(r.s) {
		return r.s[p]
	}
	return 0
}

// edge: a word ends or begins at p.
func (r *recog) edge(p int) bool {
	if p < 0 {
		return false
	}
	a := p > 0 && wordByte(r.s[p-1])
	b := p < len(r.s) && wordByte(r.s[p])
	return a != b
}

func (r *recog) edged(p int) int {
	if p >= 0 && r.edge(p) {
		return p
	}
	return -1
}

// lit is the given text, in any ASCII letter case.
func (r *recog) lit(p int, w string) int {
	if p < 0 || p+len(w) > len(r.s) || asciiLower(r.s[p:p+len(w)]) != asciiLower(w) {
		return -1
	}
	return p + len(w)
}

// word is a whole keyword.
func (r *recog) word(p int, w string) int { return r.edged(r.lit(p, w)) }

// sp skips white space and comments.
func (r *recog) sp(p int) int {
	for p >= 0 {
		s := r.s[p:]
		c, n := utf8.DecodeRuneInString(s)
		switch {
		case n > 0 && strings.ContainsRune("\t\n\v\f\r \u0085\u00a0", c) && (c != utf8.RuneError):
			p += n
		case strings.HasPrefix(s, "--"):
			if i := strings.IndexAny(s, "\r\n"); i < 0 {
				return len(r.s)
			} else {
				p += i + 1
			}
		case strings.HasPrefix(s, "/*"):
			i := strings.Index(s[2:], "*/")
			if i < 0 {
				return p
			}
			p += 2 + i + 2
		default:
			return p
		}
	}
	return p
}

// sp1 is at least one space or comment.
func (r *recog) sp1(p int) int {
	if q := r.sp(p); q > p {
		return q
	}
	return -1
}

// words are keywords separated by space.
func (r *recog) words(p int, ws ...string) int {
	for i, w := range ws {
		if i > 0 {
			p = r.sp1(p)
		}
		p = r.lit(p, w)
	}
	return p
}

func (r *recog) reserved(p int) bool {
	for _, w := range []string{"select", "from", "where", "having", "offset", "limit", "order by", "group by", "for view", "for reference", "for update"} {
		if r.edged(r.words(p, strings.Fields(w)...)) >= 0 {
			return true
		}
	}
	return false
}

func (r *recog) name(p int) int {
	c := r.at(p)
	if p < 0 || !wordByte(c) || digit(c) {
		return -1
	}
	for wordByte(r.at(p)) {
		p++
	}
	return p
}

func (r *recog) hex(p, min, max int) int {
	n := 0
	for n < max && strings.IndexByte("0123456789abcdefABCDEF", r.at(p)) >= 0 && p < len(r.s) {
		p, n = p+1, n+1
	}
	if n < min {
		return -1
	}
	return p
}

func (r *recog) str(p int, q byte, multi bool) int {
	if p < 0 || r.at(p) != q || p >= len(r.s) {
		return -1
	}
	p++
	for {
		if p >= len(r.s) {
			panic(notQuery{"unterminated text"})
		}
		c := r.s[p]
		switch {
		case c == q:
			return p + 1
		case c == '\\':
			p++
			e := r.at(p)
			switch {
			case p < len(r.s) && strings.IndexByte("\\'\"`nNrRvVtTbBfF_%", e) >= 0:
				p++
			case e == 'u' && r.hex(p+1, 4, 4) >= 0:
				p += 5
			case e == 'u' && r.at(p+1) == '{' && r.hex(p+2, 1, 6) >= 0 && r.at(r.hex(p+2, 1, 6)) == '}':
				p = r.hex(p+2, 1, 6) + 1
			case e == 'x' && r.hex(p+1, 2, 2) >= 0:
				p += 3
			case oct(e) && oct(r.at(p+1)) && oct(r.at(p+2)):
				p += 3
			default:
				return -1
			}
		case !multi && (c == '\r' || c == '\n'):
			panic(notQuery{"line break in a quoted name"})
		default:
			p++
		}
	}
}

func oct(c byte) bool { return '0' <= c && c <= '7' }

func (r *recog) nameOrQuoted(p int) int {
	if q := r.name(p); q >= 0 {
		return q
	}
	return r.str(p, '"', false)
}

// path is a dotted name and the space behind it.
func (r *recog) path(p int) int {
	p = r.nameOrQuoted(p)
	if p < 0 {
		return -1
	}
	p = r.sp(p)
	for r.at(p) == '.' {
		q := r.nameOrQuoted(r.sp(p + 1))
		if q < 0 {
			return p
		}
		p = r.sp(q)
	}
	return p
}

func (r *recog) digits(p, min, max int) int {
	n := 0
	for digit(r.at(p)) && (max < 0 || n < max) {
		p, n = p+1, n+1
	}
	if n < min {
		return -1
	}
	return p
}

// set is one byte of a set.
func (r *recog) set(p int, lo, hi byte) int {
	if p < 0 || p >= len(r.s) || r.s[p] < lo || r.s[p] > hi {
		return -1
	}
	return p + 1
}

func (r *recog) chr(p int, c byte) int { return r.set(p, c, c) }

// ymd: years of four or more digits.
func (r *recog) ymd(p int) int {
	if r.at(p) == '-' {
		p++
	}
	p = r.digits(p, 4, -1)
	p = r.chr(p, '-')
	p = r.set(r.set(p, '0', '1'), '0', '9')
	p = r.chr(p, '-')
	return r.set(r.set(p, '0', '3'), '0', '9')
}

func (r *recog) hms(p int) int {
	p = r.set(r.set(p, '0', '2'), '0', '9')
	p = r.set(r.set(r.chr(p, ':'), '0', '5'), '0', '9')
	if p < 0 {
		return -1
	}
	if q := r.set(r.set(r.chr(p, ':'), '0', '6'), '0', '9'); q >= 0 {
		p = q
		if f := r.chr(p, '.'); f >= 0 {
			if f = r.digits(f, 1, 9); f >= 0 {
				p = f
			}
		}
	}
	return p
}

func (r *recog) validTime(layout, text string) {
	if _, err := time.Parse(layout, text); err != nil {
		panic(notQuery{"invalid date or time"})
	}
}

// run is a first byte of a set followed by bytes of the set and underscores.
func (r *recog) run(p int, set string) int {
	if p < 0 || p >= len(r.s) || strings.IndexByte(set, r.s[p]) < 0 {
		return -1
	}
	for p < len(r.s) && (r.s[p] == '_' || strings.IndexByte(set, r.s[p]) >= 0) {
		p++
	}
	return p
}

// whole is the integer part of a decimal number: 0, or digits without a leading zero.
func (r *recog) whole(p int) int {
	if p >= 0 && r.at(p) == '0' {
		p++
		for r.at(p) == '_' {
			p++
		}
		return p
	}
	return r.run(p, "0123456789")
}

func (r *recog) sign(p int) int {
	if p >= 0 && (r.at(p) == '+' || r.at(p) == '-') {
		return p + 1
	}
	return p
}

func (r *recog) exp(p int) int {
	if p < 0 || r.at(p) != 'e' && r.at(p) != 'E' {
		return -1
	}
	return r.run(r.sign(p+1), "0123456789")
}

func (r *recog) int10(p int) int {
	q := r.whole(r.sign(p))
	if q >= 0 {
		if _, err := strconv.ParseInt(strings.ReplaceAll(r.s[p:q], "_", ""), 10, 64); err != nil {
			panic(notQuery{"integer out of range"})
		}
	}
	return r.edged(q)
}

func (r *recog) float(p int) int {
	b := r.sign(p)
	w := r.whole(b)
	q := -1
	if d := r.chr(w, '.'); d >= 0 {
		for digit(r.at(d)) || r.at(d) == '_' {
			d++
		}
		q = d
		if e := r.exp(q); e >= 0 {
			q = e
		}
	} else if d := r.chr(b, '.'); d >= 0 && (digit(r.at(d)) || r.at(d) == '_') {
		for digit(r.at(d)) || r.at(d) == '_' {
			d++
		}
		q = d
		if e := r.exp(q); e >= 0 {
			q = e
		}
	} else {
		q = r.exp(w)
	}
	if q >= 0 {
		if _, err := strconv.ParseFloat(strings.ReplaceAll(r.s[p:q], "_", ""), 64); err != nil {
			panic(notQuery{"number out of range"})
		}
	}
	return q
}

func (r *recog) number(p int) int {
	q := -1
	for _, x := range []struct {
		pre, set string
		base     int
	}{{"0b", "01", 2}, {"0o", "01234567", 8}, {"0x", "0123456789abcdefABCDEF", 16}} {
		if q < 0 {
			b := r.lit(p, x.pre)
			if q = r.run(b, x.set); q >= 0 {
				if _, err := strconv.ParseInt(strings.ReplaceAll(r.s[b:q], "_", ""), x.base, 64); err != nil {
					panic(notQuery{"integer out of range"})
				}
				return r.edged(q)
			}
		}
	}
	if q = r.float(p); q >= 0 {
		return r.edged(q)
	}
	if q = r.int10(p); q >= 0 {
		return q
	}
	for _, w := range []string{"+infinity", "infinity", "-infinity", "nan"} {
		if q = r.word(p, w); q >= 0 {
			return q
		}
	}
	return -1
}

var countedLits = strings.Fields("next_n_fiscal_quarters last_n_fiscal_quarters next_n_fiscal_years last_n_fiscal_years next_n_quarters last_n_quarters next_n_months last_n_months next_n_years last_n_years next_n_weeks last_n_weeks last_n_days next_n_days")
var plainLits = strings.Fields("this_fiscal_quarter last_fiscal_quarter next_fiscal_quarter this_fiscal_year last_fiscal_year next_fiscal_year last_90_days next_90_days this_quarter last_quarter next_quarter last_month this_month next_month last_week this_week next_week this_year last_year next_year yesterday tomorrow today")

// literal and the space behind it.
func (r *recog) literal(p int) int {
	q := r.literal0(p)
	if q < 0 {
		return -1
	}
	return r.sp(q)
}

func (r *recog) literal0(p int) int {
	if p < 0 {
		return -1
	}
	if q := r.hms(r.chr(r.ymd(p), 'T')); q >= 0 {
		z := r.chr(q, 'Z')
		if z < 0 && (r.at(q) == '+' || r.at(q) == '-') {
			z = r.digits(q+1, 2, 2)
			z = r.set(r.set(r.chr(z, ':'), '0', '5'), '0', '9')
		}
		if z = r.edged(z); z >= 0 {
			t := r.s[p:z]
			if strings.Count(r.s[p:q], ":") == 1 {
				t = r.s[p:q] + ":00" + r.s[q:z]
			}
			r.validTime("2006-01-02T15:04:05.999999999Z07:00", t)
			return z
		}
	}
	if q := r.edged(r.ymd(p)); q >= 0 {
		r.validTime("2006-01-02", r.s[p:q])
		return q
	}
	if q := r.edged(r.hms(p)); q >= 0 {
		t := r.s[p:q]
		if strings.Count(t, ":") == 1 {
			t += ":00"
		}
		r.validTime("15:04:05.999999999", t)
		return q
	}
	if q := r.number(p); q >= 0 {
		return q
	}
	if q := r.str(p, '\'', true); q >= 0 {
		return q
	}
	for _, w := range []string{"true", "false", "null"} {
		if q := r.word(p, w); q >= 0 {
			return q
		}
	}
	if q := r.param(p); q >= 0 {
		return q
	}
	for _, w := range countedLits {
		if q := r.chr(r.lit(p, w), ':'); q >= 0 && r.at(q) != '-' {
			if q = r.int10(q); q >= 0 {
				return q
			}
		}
	}
	for _, w := range plainLits {
		if q := r.word(p, w); q >= 0 {
			return q
		}
	}
	return -1
}

func (r *recog) param(p int) int {
	if q := r.chr(p, ':'); q >= 0 {
		return r.name(r.sp(q))
	}
	return -1
}

func (r *recog) call(p int) int {
	p = r.name(p)
	if p < 0 {
		return -1
	}
	p = r.chr(r.sp(p), '(')
	if p < 0 {
		return -1
	}
	p = r.sp(p)
	arg := func(p int) int {
		if q := r.call(p); q >= 0 {
			return q
		}
		if q := r.literal(p); q >= 0 {
			return q
		}
		return r.path(p)
	}
	if q := arg(p); q >= 0 {
		p = r.sp(q)
		for r.at(p) == ',' {
			p = r.sp(r.need(arg(r.sp(p+1)), "argument"))
		}
	}
	return r.sp(r.need(r.chr(p, ')'), "end of the arguments"))
}

func (r *recog) sub(p int) int {
	q := r.chr(p, '(')
	if q < 0 {
		return -1
	}
	q = r.query(r.sp(q), true)
	if q < 0 {
		return -1
	}
	return r.sp(r.need(r.chr(r.sp(q), ')'), "end of the subquery"))
}

func (r *recog) list(p int) int {
	p = r.chr(p, '(')
	if p < 0 {
		return -1
	}
	for {
		p = r.literal(r.sp(p))
		if p < 0 {
			return -1
		}
		if r.at(p) != ',' {
			break
		}
		p++
	}
	p = r.chr(p, ')')
	if p < 0 {
		return -1
	}
	return r.sp(p)
}

func (r *recog) alias(p int) int {
	if r.reserved(p) {
		return p
	}
	if q := r.name(p); q >= 0 {
		return r.sp(q)
	}
	return p
}

// cond is a condition.
func (r *recog) cond(p int, having bool) int {
	for {
		if q := r.word(p, "not"); q >= 0 {
			p = r.sp(q)
		}
		if q := r.chr(p, '('); q >= 0 {
			p = r.cond(r.sp(q), having)
			p = r.sp(r.need(r.chr(p, ')'), "end of the parentheses"))
		} else {
			p = r.cmp(p, having)
		}
		q := r.word(p, "and")
		if q < 0 {
			q = r.word(p, "or")
		}
		if q < 0 {
			return p
		}
		p = r.sp(q)
	}
}

func (r *recog) cmp(p int, having bool) int {
	if r.reserved(p) {
		panic(notQuery{"keyword as operand"})
	}
	q := r.call(p)
	if q < 0 && !having {
		q = r.path(p)
	}
	p = r.need(q, "left operand")
	if r.depth == 1 {
		if having {
			r.parts.Having++
		} else {
			r.parts.Where++
		}
	}
	q = -1
	for _, w := range []string{"!=", "<=", ">=", "=", "<", ">"} {
		if q < 0 {
			q = r.lit(p, w)
		}
	}
	for _, w := range []string{"not like", "not in", "like", "in", "includes", "excludes"} {
		if q < 0 {
			q = r.edged(r.words(p, strings.Fields(w)...))
		}
	}
	p = r.sp(r.need(q, "operator"))
	q = r.literal(p)
	if q < 0 {
		q = r.sub(p)
	}
	if q < 0 {
		q = r.call(p)
	}
	if q < 0 && !having {
		q = r.path(p)
	}
	if q < 0 {
		q = r.list(p)
	}
	return r.need(q, "right operand")
}

func (r *recog) query(p int, sub bool) int {
	p = r.sp1(r.lit(p, "select"))
	if p < 0 {
		return -1
	}
	r.depth++
	defer func() { r.depth-- }()
	count := func(n *int) {
		if r.depth == 1 {
			*n++
		}
	}
	for {
		if r.reserved(p) {
			panic(notQuery{"keyword as select item"})
		}
		q := r.call(p)
		if q < 0 {
			q = r.path(p)
		}
		if q < 0 {
			q = r.sub(p)
		}
		p = r.alias(r.need(q, "select item"))
		count(&r.parts.Items)
		if r.at(p) != ',' {
			break
		}
		p = r.sp(p + 1)
	}
	p = r.sp1(r.need(r.lit(p, "from"), "from"))
	for {
		if p < 0 || r.reserved(p) {
			panic(notQuery{"object"})
		}
		p = r.alias(r.need(r.path(p), "object"))
		if r.at(p) != ',' {
			break
		}
		p = r.sp(p + 1)
	}
	if q := r.word(p, "where"); q >= 0 {
		p = r.cond(r.sp(q), false)
	}
	if q := r.sp1(r.lit(p, "group")); q >= 0 {
		p = r.sp1(r.need(r.lit(q, "by"), "by"))
		p = r.need(r.path(r.need(p, "space")), "group key")
		count(&r.parts.Group)
		for r.at(p) == ',' {
			p = r.need(r.path(r.sp(p+1)), "group key")
			count(&r.parts.Group)
		}
		if q := r.word(p, "having"); q >= 0 {
			p = r.cond(r.sp(q), true)
		}
	}
	if q := r.word(p, "order"); q >= 0 {
		p = r.sp1(r.need(r.lit(r.sp1(q), "by"), "by"))
		for {
			p = r.need(r.path(p), "order key")
			count(&r.parts.Order)
			for _, w := range []string{"asc", "desc"} {
				if q := r.word(p, w); q >= 0 {
					p = r.sp(q)
					break
				}
			}
			for _, w := range []string{"nulls first", "nulls last"} {
				if q := r.edged(r.words(p, strings.Fields(w)...)); q >= 0 {
					p = r.sp(q)
					break
				}
			}
			if r.at(p) != ',' {
				break
			}
			p = r.sp(p + 1)
		}
	}
	num := func(w string) bool {
		q := r.sp1(r.lit(p, w))
		if q < 0 {
			return false
		}
		v := r.int10(q)
		if v < 0 {
			v = r.param(q)
		}
		p = r.sp(r.need(v, "number or parameter"))
		return true
	}
	if num("offset") {
		num("limit")
	} else if num("limit") {
		num("offset")
	}
	if q := r.sp1(r.lit(p, "for")); q >= 0 {
		opt := func(a, b string) bool {
			z := r.word(q, a)
			if z < 0 {
				return false
			}
			p = r.sp(z)
			if r.at(p) == ',' {
				p = r.sp(r.need(r.word(r.sp(p+1), b), b))
			}
			return true
		}
		if !opt("view", "reference") && !opt("reference", "view") {
			q = r.sp(r.need(r.word(q, "update"), "purpose"))
			p = q
			_ = opt("tracking", "viewstat") || opt("viewstat", "tracking")
		}
	}
	p = r.sp(p)
	if sub {
		if r.at(p) != ')' {
			panic(notQuery{"end of the subquery"})
		}
	} else if p != len(r.s) {
		panic(notQuery{"end"})
	}
	return p
}
