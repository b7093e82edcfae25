package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// G draws all random choices from rapid.
type G struct {
	t *rapid.T
	o Opts
	// queries left to generate
	fuel int
	// leaf counter, used to make literals distinguishable
	seq int
	// nesting of the function call being drawn: depth limit, chance, calls left
	fnMax, fnNest, fnLeft int
	// the paths written so far, as single (quoted) names
	paths []string
}

var boolGen = rapid.Bool()

// bits draws k unbiased bits.
func (g *G) bits(k int) int {
	n := 0
	for i := 0; i < k; i++ {
		n <<= 1
		if boolGen.Draw(g.t, "") {
			n |= 1
		}
	}
	return n
}

// u draws an integer in 0..n-1 (almost uniform); 0 is the simplest.
func (g *G) u(n int) int {
	if n <= 1 {
		return 0
	}
	k := 0
	for 1<<k < n {
		k++
	}
	if 1<<k != n {
		k += 2
	}
	return g.bits(k) % n
}

func (g *G) rng(lo, hi int) int { return lo + g.u(hi-lo+1) }

// p is true with the given probability in percent; false is simpler.
func (g *G) p(pct int) bool {
	if pct <= 0 {
		return false
	}
	if pct >= 100 {
		return true
	}
	return g.bits(6)*100 >= (100-pct)*64
}

func pick[T any](g *G, s []T) T { return s[g.u(len(s))] }

// weighted choice; the first one is the simplest.
func (g *G) w(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	r := g.bits(8) * sum / 256
	for i, w := range ws {
		if r < w {
			return i
		}
		r -= w
	}
	return len(ws) - 1
}

func (g *G) i64() int64 { return rapid.Int64().Draw(g.t, "") }

var dateLiteralsN = []string{
	"NEXT_N_FISCAL_QUARTERS", "LAST_N_FISCAL_QUARTERS", "NEXT_N_FISCAL_YEARS", "LAST_N_FISCAL_YEARS",
	"NEXT_N_QUARTERS", "LAST_N_QUARTERS", "NEXT_N_MONTHS", "LAST_N_MONTHS", "NEXT_N_YEARS", "LAST_N_YEARS",
	"NEXT_N_WEEKS", "LAST_N_WEEKS", "LAST_N_DAYS", "NEXT_N_DAYS",
}

var dateLiterals0 = []string{
	"TODAY", "YESTERDAY", "TOMORROW",
	"THIS_FISCAL_QUARTER", "LAST_FISCAL_QUARTER", "NEXT_FISCAL_QUARTER", "THIS_FISCAL_YEAR", "LAST_FISCAL_YEAR",
	"NEXT_FISCAL_YEAR", "LAST_90_DAYS", "NEXT_90_DAYS", "THIS_QUARTER", "LAST_QUARTER", "NEXT_QUARTER",
	"LAST_MONTH", "THIS_MONTH", "NEXT_MONTH", "LAST_WEEK", "THIS_WEEK", "NEXT_WEEK", "THIS_YEAR", "LAST_YEAR",
	"NEXT_YEAR",
}

var paramNames = []string{"p", "q", "ids", "ParamOne", "_x", "from", "null", "P", "today", "limit1", "$d"}

// sep inserts digit separators.
func (g *G) sep(digits string) string {
	if len(digits) < 2 || !g.p(15) {
		return digits
	}
	k := 1 + g.u(len(digits)-1)
	s := digits[:k] + "_" + digits[k:]
	if g.p(20) {
		s += "_"
	}
	return s
}

func (g *G) intLit() *Lit {
	l := &Lit{Kind: "int"}
	var v int64
	switch g.w(6, 2, 2, 1, 1) {
	case 0:
		g.seq++
		v = int64(g.seq)
	case 4:
		v = pick(g, dict().ints) + int64(g.u(3)) - 1
	case 1:
		v = int64(g.u(100000)) - 50000
	case 2:
		v = g.i64()
	default:
		v = pick(g, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 - 1})
	}
	l.I = v
	switch g.w(8, 1, 1, 1) {
	case 1, 2, 3:
		if v < 0 {
			v = -(v + 1)
			l.I = v
		}
		k := g.u(3)
		s := strconv.FormatInt(v, []int{2, 8, 16}[k])
		if g.p(30) {
			s = strings.ToUpper(s)
		}
		if g.p(20) {
			s = "00" + s
		}
		if g.p(15) {
			s += "_"
		}
		pre := []string{"0b", "0o", "0x"}[k]
		if g.p(30) {
			pre = strings.ToUpper(pre)
		}
		l.Text = pre + s
	default:
		s := strconv.FormatInt(v, 10)
		neg := strings.HasPrefix(s, "-")
		s = g.sep(strings.TrimPrefix(s, "-"))
		if neg {
			s = "-" + s
		} else if g.p(10) {
			s = "+" + s
		} else if v == 0 && g.p(20) {
			s = "-0"
		}
		l.Text = s
	}
	return l
}

func (g *G) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.u(10))
	}
	return string(b)
}

// floatLit builds the text first; the value is that of the text without separators.
func (g *G) floatLit() *Lit {
	l := &Lit{Kind: "float"}
	var intp string
	switch g.w(3, 1, 1) {
	case 0:
		intp = strconv.Itoa(g.u(1000))
	case 1:
		intp = "0"
	default:
		intp = strconv.Itoa(1+g.u(9)) + g.digits(g.rng(1, 20))
	}
	frac := g.digits(g.rng(1, 4))
	if g.p(10) {
		frac = g.digits(g.rng(5, 20))
	}
	exp := ""
	if g.p(35) {
		exp = pick(g, []string{"e", "E"}) + pick(g, []string{"", "+", "-"}) + strconv.Itoa(g.u(pick(g, []int{5, 30, 280})))
	}
	sign := pick(g, []string{"", "", "-", "+"})
	var plain string
	switch g.w(5, 1, 2) {
	case 0:
		plain = intp + "." + frac + exp
		l.Text = sign + g.sep(intp) + "." + g.sep(frac) + exp
	case 1:
		plain = "." + frac + exp
		l.Text = sign + plain
	default:
		if exp == "" {
			exp = "e3"
		}
		plain = intp + exp
		l.Text = sign + g.sep(intp) + exp
	}
	f, err := strconv.ParseFloat(sign+plain, 64)
	if err != nil {
		l.Text, f = "1.5", 1.5
	}
	l.F = f
	return l
}

// strLit builds text and value of a string (or quoted name) piece by piece.
func (g *G) strBody(quote string, multiline bool, n int) (text, value string) {
	var t, v strings.Builder
	for i := 0; i < n; i++ {
		switch g.w(10, 2, 2, 2, 2, 2, 1, 1) {
		case 7:
			s := pick(g, dict().texts)
			if strings.IndexFunc(s, func(r rune) bool { return r < ' ' }) < 0 {
				t.WriteString(strings.NewReplacer(`\`, `\\`, "'", `\'`, `"`, `\"`).Replace(s))
				v.WriteString(s)
			}
		case 0:
			s := pick(g, []string{"a", "Z", "9", " ", "_", "%", "b", ".", ",", "(", ")", "x", "=", ":"})
			t.WriteString(s)
			v.WriteString(s)
		case 1:
			s := pick(g, []string{"é", "日", "😀", "\u00a0", "\u2028", "ß", "İ", "\U00040000", "\U00100000", "\x00", "\x7f"})
			t.WriteString(s)
			v.WriteString(s)
		case 2:
			s := pick(g, []string{"\\", "'", "\"", "`"})
			t.WriteString("\\" + s)
			v.WriteString(s)
		case 3:
			k := g.u(12)
			t.WriteString("\\" + string("nNrRvVtTbBfF"[k]))
			v.WriteString(string("\n\n\r\r\v\v\t\t\b\b\f\f"[k]))
		case 4:
			s := pick(g, []string{"\\_", "\\%"})
			t.WriteString(s)
			v.WriteString(s)
		case 5:
			switch g.u(4) {
			case 0:
				r := pick(g, []int{0x41, 0xe9, 0x3042, 0xfffd, 0x1f, 0x7f, 0xffff, 0xd7ff, 0xe000})
				s := fmt.Sprintf("%04x", r)
				if g.p(50) {
					s = strings.ToUpper(s)
				}
				t.WriteString("\\u" + s)
				v.WriteString(string(rune(r)))
			case 1:
				r := pick(g, []int{0x1f600, 0x41, 0xa, 0x10ffff, 0x3042, 0x7f, 0x100})
				s := fmt.Sprintf("%x", r)
				if g.p(30) && len(s) < 6 {
					s = "0" + s
				}
				t.WriteString("\\u{" + s + "}")
				v.WriteString(string(rune(r)))
			case 2:
				r := g.u(256)
				t.WriteString(fmt.Sprintf("\\x%02x", r))
				v.WriteString(string(rune(r)))
			default:
				r := g.u(512)
				t.WriteString(fmt.Sprintf("\\%03o", r))
				v.WriteString(string(rune(r)))
			}
		case 6:
			if multiline {
				s := pick(g, []string{"\n", "\r\n", "\t", "--x", "/* y */", "\r"})
				t.WriteString(s)
				v.WriteString(s)
			} else {
				s := pick(g, []string{"\t", "--x", "/* y */", "'"})
				t.WriteString(s)
				v.WriteString(s)
			}
		}
	}
	return quote + t.String() + quote, v.String()
}

func (g *G) strLit() *Lit {
	l := &Lit{Kind: "string"}
	if g.p(g.o.Long) {
		l.S = strings.Repeat(pick(g, []string{"a b ", "日", "x"}), g.rng(1, 2000))
		l.Text = "'" + l.S + "'"
		return l
	}
	switch g.w(10, 7, 2, 1) {
	case 3:
		// a whole word of the code
		l.S = g.caseOf(pick(g, dict().texts))
		l.Text = "'" + escapeStr(l.S) + "'"
	case 0:
		g.seq++
		l.S = fmt.Sprintf("s%d", g.seq)
		l.Text = "'" + l.S + "'"
	case 1:
		l.Text, l.S = g.strBody("'", true, g.rng(0, 6))
	default:
		l.Text, l.S = g.strBody("'", true, g.rng(0, 24))
	}
	return l
}

// escapeStr writes the text as the body of a string literal.
func escapeStr(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '\'' || r == '\\':
			b.WriteString("\\" + string(r))
		case r < ' ' || r == 0x7f:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *G) ymd() (int, time.Month, int) {
	y := pick(g, []int{2020, 1970, 2024, 1900, 2000, 9999, 1, 0, 1999})
	if g.p(50) {
		y = 1900 + g.u(200)
	}
	m := time.Month(1 + g.u(12))
	last := time.Date(y, m+1, 0, 0, 0, 0, 0, time.UTC).Day()
	d := 1 + g.u(last)
	if g.p(15) {
		d = last
	}
	return y, m, d
}

func (g *G) hms() (text string, h, m, s, ns int) {
	h, m = g.u(24), g.u(60)
	text = fmt.Sprintf("%02d:%02d", h, m)
	if g.p(75) {
		s = g.u(60)
		text += fmt.Sprintf(":%02d", s)
		if g.p(50) {
			k := g.rng(1, 9)
			d := g.digits(k)
			text += "." + d
			ns, _ = strconv.Atoi((d + "000000000")[:9])
		}
	}
	return
}

func fmtT(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }

func (g *G) lit(kinds ...string) *Lit {
	if len(kinds) == 0 {
		kinds = litKinds
	}
	switch pick(g, kinds) {
	case "special":
		s := pick(g, []string{"NaN", "Infinity", "-Infinity", "+Infinity"})
		t := s
		if g.p(40) {
			t = pick(g, []string{asciiLower(s), asciiUpper(s)})
		}
		return &Lit{Kind: "special", Text: t, S: s}
	case "int":
		return g.intLit()
	case "string":
		return g.strLit()
	case "float":
		return g.floatLit()
	case "bool":
		b := g.p(50)
		return &Lit{Kind: "bool", B: b, Text: strconv.FormatBool(b)}
	case "null":
		return &Lit{Kind: "null", Text: "null"}
	case "date":
		y, m, d := g.ymd()
		return &Lit{Kind: "date", Text: fmt.Sprintf("%04d-%02d-%02d", y, m, d), T: fmtT(time.Date(y, m, d, 0, 0, 0, 0, time.UTC))}
	case "datetime":
		y, m, d := g.ymd()
		if y == 0 {
			y = 1
		}
		if y == 9999 {
			y = 9998
		}
		text, h, mi, s, ns := g.hms()
		t := time.Date(y, m, d, h, mi, s, ns, time.UTC)
		text = fmt.Sprintf("%04d-%02d-%02dT", y, m, d) + text
		if y == 1 {
			// keep the instant within the year range
			text, t = "0001-06-15T00:00:00", time.Date(1, 6, 15, 0, 0, 0, 0, time.UTC)
		}
		if g.p(50) {
			text += "Z"
		} else {
			oh, om := g.u(15), pick(g, []int{0, 30, 45, 59})
			off := time.Duration(oh)*time.Hour + time.Duration(om)*time.Minute
			if g.p(50) {
				text += fmt.Sprintf("+%02d:%02d", oh, om)
				t = t.Add(-off)
			} else {
				text += fmt.Sprintf("-%02d:%02d", oh, om)
				t = t.Add(off)
			}
		}
		return &Lit{Kind: "datetime", Text: text, T: fmtT(t)}
	case "time":
		text, h, m, s, ns := g.hms()
		return &Lit{Kind: "time", Text: text, T: fmtT(time.Date(1970, 1, 1, h, m, s, ns, time.UTC))}
	case "param":
		n := pick(g, paramNames)
		return &Lit{Kind: "param", Text: ":" + n, S: n}
	default: // dlit
		if g.p(40) {
			n := pick(g, dateLiteralsN)
			v := int64(g.u(400))
			if g.p(5) {
				v = math.MaxInt64
			}
			return &Lit{Kind: "dlit", Text: n + ":" + strconv.FormatInt(v, 10), S: n, N: v}
		}
		n := pick(g, dateLiterals0)
		return &Lit{Kind: "dlit", Text: n, S: n}
	}
}

// badLit draws the text of a literal that denotes no value of its type.
func (g *G) badLit(kind string) string {
	nz := func() string { return strconv.Itoa(1 + g.u(9)) }
	big := func() string {
		switch g.u(4) {
		case 0:
			return "9223372036854775808"
		case 1:
			return "18446744073709551616" // 2^64
		case 2:
			return "1844674407370955161" + nz() // around 2^64
		}
		return nz() + g.digits(g.rng(19, 30))
	}
	switch kind {
	case "dec":
		if g.p(30) {
			return "-9223372036854775809"
		}
		s := pick(g, []string{"", "", "+", "-"})
		b := big()
		if s == "-" && b == "9223372036854775808" {
			b += "0"
		}
		return s + g.sep(b)
	case "pos":
		return big()
	case "hex":
		return "0x" + pick(g, []string{"8000000000000000", "ffffffffffffffff", "10000000000000000", "1" + g.digits(g.rng(16, 24))})
	case "bin":
		return "0b1" + strings.Repeat(pick(g, []string{"0", "1", "01"}), g.rng(63, 80))
	case "oct":
		return "0o" + pick(g, []string{"1", "2", "7"}) + strings.Repeat(pick(g, []string{"0", "7"}), g.rng(21, 30))
	case "float":
		return pick(g, []string{"", "-", "+"}) + pick(g, []string{"1", "1.5", "9.99", ".7", "123"}) + pick(g, []string{"e", "E"}) + pick(g, []string{"", "+"}) + strconv.Itoa(310+g.u(700))
	case "date":
		return pick(g, []string{"2023-02-29", "2024-02-30", "1900-02-29", "2023-04-31", "2023-13-01", "2023-00-10", "2023-01-00", "2023-12-32"})
	case "datetime":
		return pick(g, []string{"2023-02-29T00:00:00Z", "2023-02-28T24:00:00Z", "2023-13-28T10:00:00Z", "2023-02-28T10:60:00Z", "2023-02-28T10:00:60Z", "2023-02-28T10:00:00+25:00", "2023-02-28T10:00:00-10:61"})
	default:
		return pick(g, []string{"24:00", "25:00:00", "10:60", "23:59:60", "10:00:99.5", "99:99"})
	}
}

var litKinds = []string{"int", "string", "int", "string", "param", "float", "bool", "null", "date", "datetime", "time", "dlit"}
