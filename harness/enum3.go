package main

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// litScope is a product of slots: the text of a literal is one alternative of each slot.
// The alternatives are separated by bars; a slot that begins with "*n " stands for up to n of its alternatives.
type litScope struct {
	slots []string
	deep  bool
}

var litScopes = []litScope{
	{slots: []string{"*4 0|1|9|+|-|.|e|E|x|b|o|_|:"}},
	{slots: []string{"*6 0|1|9|+|-|.|e|_"}, deep: true},
	{slots: []string{"*6 0|1|9|-|.|e"}, deep: true},
	{slots: []string{"0", "*4 x|X|b|B|o|O|0|1|7|8|a|G|_|."}},
	{slots: []string{"|+|-", "0|1|1_2|90|5_|0_", "|.|.0|.5|.25_|.0_1|._", "|e|e0|E1|e+2|e-3|E1_0|e22|e-22|e307|e308|e309|e-307|e-323|e-324|e-400"}},
	{slots: []string{"|+|-", "922337203685477|922_337203685477|00922337203685477", "5", "*3 0|1|6|7|8|9|_"}},
	{slots: []string{"|+|-", "900719925474099", "*2 0|1|2|3|4|5|6|7|8|9", "|.0|.5|e0|e1|e3"}},
	{slots: []string{"0x|0X", "0|7|8|f", "f|F|0", "fffffffffffff|00000000_00000", "*2 0|1|f|F|_"}},
	{slots: []string{"0b|0B", "0|1|1_1", "11111111111111111111111111111|00000000000000000000000000000", "11111111111111111111111111111|00000000000000000000000000000", "*4 0|1|_"}},
	{slots: []string{"0o|0O", "0|1|7", "77777777777777777|00000000000000000", "*4 0|7|_"}},
	{slots: []string{"|+|-", "Infinity|INFINITY|infinity|NaN|nan|NAN|inf|Infinit", "|0|_|."}},
	{slots: []string{"'", "*3 \\|'|n|u|0|4|{|}|x|\n|é|_|%|\"|`|\r", "'"}},
	{slots: []string{"'", "*6 \\|u|0|4|{|}|x|1", "'"}, deep: true},
	{slots: []string{"'a\\", "0|1|2|3|4|5|6|7", "0|1|2|3|4|5|6|7", "0|1|2|3|4|5|6|7", "|0|8", "'"}},
	{slots: []string{"'\\x", "0|1|2|3|4|5|6|7|8|9|a|b|c|d|e|f|A|F", "0|1|2|3|4|5|6|7|8|9|a|b|c|d|e|f|A|F", "|0'|g", "'"}},
	{slots: []string{"'\\u", "0|1|d|D|e|f", "0|7|8|b|c|f|F", "0|3|8|f", "0|1|9|a|d|E|F", "|0", "'"}},
	{slots: []string{"'\\u{", "|0|1|10|0010|f|1f|3042|d7ff|e000|fffd|ffff|10ffff|10FFFF|e0100", "|0|1|f", "}|}}|", "'"}},
	{slots: []string{"0000|0001|1900|1970|2000|2023|2024|9999", "-", "00|01|02|03|04|06|09|11|12|13", "-", "00|01|09|10|27|28|29|30|31|32"}},
	{slots: []string{"999|10000|-2020|2020|20200", "-", "1|01|001", "-", "1|01|001|1_"}},
	{slots: []string{"2024-02-29|2020-12-31|0001-01-01|9999-12-31", "T|t| ", "00|01|12|23|24", ":00|:30|:59|:60", "|:00|:01|:59|:60|:61", "|.0|.5|.001|.123456789|.1234567891|.", "Z|z|+00:00|-00:00|+09:30|-12:45|+14:00|-23:59|+24:00|+05:60|+5:00|+0500|"}},
	{slots: []string{"00|01|09|10|12|19|20|23|24|29|30", ":", "00|01|09|10|29|30|59|60", "|:|:00|:01|:30|:59|:60|:61", "|.|.0|.5|.05|.120|.000000001|.999999999|.9999999999|Z"}},
	{slots: []string{"THIS|LAST|NEXT|this|last|LAST_N|NEXT_N|next_n", "_", "DAY|DAYS|WEEK|WEEKS|MONTH|MONTHS|QUARTER|QUARTERS|YEAR|YEARS|FISCAL_QUARTER|FISCAL_QUARTERS|FISCAL_YEAR|FISCAL_YEARS|90_DAYS|89_DAYS", "|:0|:1|:007|:+3|:-1|:400|:9223372036854775807|:9223372036854775808|:1_0|: 1|:1.0"}},
	{slots: []string{"today|TODAY|Tomorrow|yesterday|true|TRUE|False|null|NULL|Null|nil", "|:1|_|0|$"}},
	{slots: []string{":|: |:/* x */|::", "p|P|$|_|_1|1p|today|null|select|\"p\"|'p'|é", "|1|$|.a|_"}},
}

// each yields all texts of the scope.
func (s litScope) each(yield func(text string) bool) bool {
	alts := make([][]string, len(s.slots))
	for i, x := range s.slots {
		if strings.HasPrefix(x, "*") {
			n := int(x[1] - '0')
			sequences(strings.Split(x[3:], "|"), n, func(ws []string) bool {
				alts[i] = append(alts[i], strings.Join(ws, ""))
				return true
			})
			continue
		}
		alts[i] = strings.Split(x, "|")
	}
	var rec func(i int, t string) bool
	rec = func(i int, t string) bool {
		if i == len(alts) {
			return yield(t)
		}
		for _, a := range alts[i] {
			if !rec(i+1, t+a) {
				return false
			}
		}
		return true
	}
	return rec(0, "")
}

var (
	reInt   = regexp.MustCompile(`^[+-]?[0-9][0-9_]*$`)
	reRadix = regexp.MustCompile(`^0([bBoOxX])([0-9a-fA-F][0-9a-fA-F_]*)$`)
	reFloat = regexp.MustCompile(`^[+-]?[0-9_]*\.?[0-9_]*([eE][+-]?[0-9][0-9_]*)?$`)
	reDate  = regexp.MustCompile(`^([0-9]{4})-([0-9]{2})-([0-9]{2})$`)
	reTime  = regexp.MustCompile(`^([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]{1,9}))?)?$`)
	reZone  = regexp.MustCompile(`^(.*)(?:Z|([+-])([0-9]{2}):([0-9]{2}))$`)
	reParam = regexp.MustCompile(`(?s)^:(?: |/\* x \*/)*([A-Za-z_$][A-Za-z0-9_$]*)$`)
	reDlit  = regexp.MustCompile(`^([A-Za-z0-9_]+?)(?::([+]?[0-9][0-9_]*))?$`)
)

// evalLit is the value of a text that is a literal, computed by other means than the parser does.
// nil: not known to denote a value.
func evalLit(t string) *Lit {
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	hms := func(s string) (h, m, sec, ns int, ok bool) {
		x := reTime.FindStringSubmatch(s)
		if x == nil {
			return
		}
		h, m, sec = atoi(x[1]), atoi(x[2]), atoi(x[3])
		ns = atoi((x[4] + "000000000")[:9])
		return h, m, sec, ns, h < 24 && m < 60 && sec < 60
	}
	date := func(s string) (time.Time, bool) {
		x := reDate.FindStringSubmatch(s)
		if x == nil {
			return time.Time{}, false
		}
		d := time.Date(atoi(x[1]), time.Month(atoi(x[2])), atoi(x[3]), 0, 0, 0, 0, time.UTC)
		return d, int(d.Month()) == atoi(x[2]) && d.Day() == atoi(x[3])
	}
	low := strings.ToLower(t)
	switch low {
	case "true", "false":
		return &Lit{Kind: "bool", Text: t, B: low == "true"}
	case "null":
		return &Lit{Kind: "null", Text: t}
	case "infinity", "+infinity":
		return &Lit{Kind: "special", Text: t, S: "Infinity"}
	case "-infinity":
		return &Lit{Kind: "special", Text: t, S: "-Infinity"}
	case "nan":
		return &Lit{Kind: "special", Text: t, S: "NaN"}
	}
	bare := strings.ReplaceAll(t, "_", "")
	integer := func(s string, base int) *Lit {
		v, ok := new(big.Int).SetString(s, base)
		if !ok || !v.IsInt64() {
			return nil
		}
		return &Lit{Kind: "int", Text: t, I: v.Int64()}
	}
	switch x := reRadix.FindStringSubmatch(t); {
	case reInt.MatchString(t):
		return integer(strings.TrimPrefix(bare, "+"), 10)
	case x != nil:
		return integer(strings.ReplaceAll(x[2], "_", ""), map[string]int{"b": 2, "o": 8, "x": 16}[strings.ToLower(x[1])])
	case reFloat.MatchString(t):
		if v, ok := new(big.Rat).SetString(bare); ok {
			f, _ := v.Float64()
			return &Lit{Kind: "float", Text: t, F: f}
		}
		return nil
	case len(t) >= 2 && t[0] == '\'' && t[len(t)-1] == '\'':
		v, ok := evalStr(t[1 : len(t)-1])
		if !ok {
			return nil
		}
		return &Lit{Kind: "string", Text: t, S: v}
	}
	if d, ok := date(t); ok {
		return &Lit{Kind: "date", Text: t, T: fmtT(d)}
	}
	if h, m, s, ns, ok := hms(t); ok {
		return &Lit{Kind: "time", Text: t, T: fmtT(time.Date(1970, 1, 1, h, m, s, ns, time.UTC))}
	}
	if len(t) > 11 && t[10] == 'T' {
		x := reZone.FindStringSubmatch(t[11:])
		d, ok := date(t[:10])
		if x == nil || !ok {
			return nil
		}
		h, m, s, ns, ok := hms(x[1])
		if !ok || atoi(x[3]) > 24 || atoi(x[4]) > 59 {
			return nil
		}
		off := time.Duration(atoi(x[3])*60+atoi(x[4])) * time.Minute
		if x[2] == "+" {
			off = -off
		}
		d = d.Add(time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second + time.Duration(ns) + off)
		return &Lit{Kind: "datetime", Text: t, T: fmtT(d)}
	}
	if x := reParam.FindStringSubmatch(t); x != nil {
		return &Lit{Kind: "param", Text: t, S: x[1]}
	}
	if x := reDlit.FindStringSubmatch(t); x != nil {
		if x[2] == "" {
			for _, n := range plainLits {
				if strings.EqualFold(n, x[1]) {
					return &Lit{Kind: "dlit", Text: t, S: n}
				}
			}
			return nil
		}
		for _, n := range countedLits {
			if strings.EqualFold(n, x[1]) {
				v, err := strconv.ParseInt(strings.ReplaceAll(x[2], "_", ""), 10, 64)
				if err != nil {
					return nil
				}
				return &Lit{Kind: "dlit", Text: t, S: n, N: v}
			}
		}
	}
	return nil
}

// evalStr is the value of the text between the quotes.
func evalStr(s string) (string, bool) {
	var z strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '\'' {
			return "", false
		}
		if s[i] != '\\' {
			_, n := utf8.DecodeRuneInString(s[i:])
			z.WriteString(s[i : i+n])
			i += n
			continue
		}
		if i++; i == len(s) {
			return "", false
		}
		num := func(from, to, base int) bool {
			if to > len(s) || from >= to || strings.ContainsAny(s[from:to], "+-_") {
				return false
			}
			v, err := strconv.ParseUint(s[from:to], base, 32)
			if err != nil || v > utf8.MaxRune || 0xd800 <= v && v < 0xe000 {
				return false
			}
			z.WriteRune(rune(v))
			i = to
			return true
		}
		c := s[i]
		switch {
		case strings.IndexByte("\\'\"`", c) >= 0:
			z.WriteByte(c)
			i++
		case c == '_' || c == '%':
			z.WriteString(s[i-1 : i+1])
			i++
		case c == 'u' && i+1 < len(s) && s[i+1] == '{':
			e := strings.IndexByte(s[i:], '}')
			if e < 0 || e > 8 || !num(i+2, i+e, 16) {
				return "", false
			}
			i++
		case c == 'u':
			if !num(i+1, i+5, 16) {
				return "", false
			}
		case c == 'x':
			if !num(i+1, i+3, 16) {
				return "", false
			}
		case '0' <= c && c <= '7':
			if !num(i, i+3, 8) {
				return "", false
			}
		default:
			k := strings.IndexByte("nrvtbf", c|0x20)
			if k < 0 {
				return "", false
			}
			z.WriteByte("\n\r\v\t\b\f"[k])
			i++
		}
	}
	return z.String(), true
}

// enumP05 yields all literals of the scopes at four places, with their values if they have one;
// the texts that are literals by the grammar without a value, or no part of a query at all, must be rejected.
func enumP05(deep bool, yield func(c any) bool) {
	k := 0
	for _, s := range litScopes {
		if s.deep && !deep {
			continue
		}
		if !s.each(func(t string) bool {
			k++
			if t == "" {
				return true
			}
			whole := false
			func() {
				defer func() { _ = recover() }()
				r := &recog{s: t + " "}
				whole = r.literal0(0) == len(t)
			}()
			l := evalLit(t)
			bad := false
			if !whole || l == nil {
				if whole {
					// a surrogate or the like: no stated value
					return true
				}
				if _, ok, _ := recognize("select id from c where a = " + t); ok {
					return true
				}
				if l != nil {
					// e.g. a word that is only almost a literal
					l = nil
				}
				l, bad = &Lit{Kind: "int", Text: t}, true
			}
			x, y := sField("c", "a"), &Item{Kind: "lit", Lit: l}
			other := &Lit{Kind: "int", Text: "7", I: 7}
			place := k % 4
			if bad {
				place = 0
			}
			switch place {
			case 1:
				y = &Item{Kind: "list", List: []*Lit{l}}
			case 2:
				y = &Item{Kind: "list", List: []*Lit{other, l, other}}
			case 3:
				x, y = sFn("f", y, sInt(3)), sInt(1)
			}
			cmp := "="
			if y.Kind == "list" {
				cmp = "in"
			}
			c := LitCase{QCase: QCase{Q: &Query{Items: []*Item{sField("c", "id")}, From: []*FromObj{sFrom("c")}, Where: &Cond{Op: "cmp", X: x, Cmp: cmp, Y: y}}}}
			if bad {
				c.Bad, c.Kind = t, "scope"
			}
			return yield(c)
		}) {
			return
		}
	}
}

func init() {
	enums["P05"] = enumP05
	registry["P05"].Rule += "; before these, a complete small scope: all literals of " + itoa(len(litScopes)) + " scopes (all digit, sign, separator and escape sequences of small length, all boundary combinations of numbers, dates, times, zones, escapes and date literals), their values computed by an independent evaluator, or rejected"
}
