package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

var finiteKinds = []string{"null", "int", "float", "bool", "string", "date", "datetime", "time", "param", "dlit"}

func init() {
	p := defProp("P18",
		"generated queries with all literal kinds (finite numbers) in comparisons, function arguments, lists and subqueries, arbitrary Unicode strings and names; encode, decode, compare deeply what is part of the JSON form, encode again, compare bytes; names of types and opcodes counted in the JSON text; non-trivial: at least two kinds of literals or a subquery",
		45000, 3000000,
		func(t *rapid.T) QCase {
			o := defOpts()
			o.NoDeep = true
			o.LitHeavy = true
			o.MaxQueries = 4
			o.CondSub = 5
			o.Where, o.Agg, o.Having = 85, 30, 70
			o.Quote = 12
			return qcase(o, true)(t)
		}, checkP18, showQ)
	p.fixed = func() []any {
		var z []any
		lit := func(text, s string) *Lit { return &Lit{Kind: "special", Text: text, S: s} }
		for _, l := range []*Lit{lit("NaN", "NaN"), lit("Infinity", "Infinity"), lit("-Infinity", "-Infinity")} {
			for i := 0; i < 3; i++ {
				q := &Query{Items: []*Item{fld(&Ref{Obj: Path{"A"}, Field: "Id", Parts: []string{"Id"}})}, From: []*FromObj{{Path: Path{"A"}, Parts: []string{"A"}}}}
				y := &Item{Kind: "lit", Lit: l}
				switch i {
				case 1:
					y = &Item{Kind: "list", List: []*Lit{l}}
				case 2:
					y = call("fnz", y)
				}
				q.Where = &Cond{Op: "cmp", X: fld(bare(q, "F")), Cmp: "in", Y: y}
				z = append(z, QCase{Q: q})
			}
		}
		return z
	}
	p.finding = func(c any, err error) string {
		var e *json.UnsupportedValueError
		if errors.As(err, &e) && hasSpecial(c.(QCase).Q) {
			return knownFinding("P18", "KF1")
		}
		return ""
	}
}

func hasSpecial(q *Query) bool {
	z := false
	q.walkQueries(func(q *Query) {
		q.walkOwnItems(func(it *Item, _ string, _ bool) {
			for _, l := range append(append([]*Lit{}, it.List...), it.Lit) {
				z = z || l != nil && l.Kind == "special"
			}
		})
	})
	return z
}

func checkP18(c QCase, o *Obs) error {
	text := c.text()
	r, err := parseQ(text)
	if err != nil {
		return err
	}
	labelQuery(o, c.Q)
	kinds := map[string]bool{}
	c.Q.walkQueries(func(q *Query) {
		q.walkOwnItems(func(it *Item, _ string, _ bool) {
			if it.Lit != nil {
				kinds[it.Lit.Kind] = true
			}
			for _, l := range it.List {
				kinds["list "+l.Kind] = true
			}
		})
	})
	for _, k := range sortedKeys(kinds) {
		o.label("literal " + k)
	}
	if len(kinds) > 1 || c.Q.countQueries() > 1 {
		o.nt()
	}
	return roundTrip(r)
}

// roundTrip encodes, decodes and encodes again.
func roundTrip(r *SQ) error {
	a, err := json.Marshal(r)
	if err != nil {
		return fmt.Errorf("encoding failed: %w", err)
	}
	z := &SQ{}
	if err := json.Unmarshal(a, z); err != nil {
		return fmt.Errorf("decoding failed: %v", err)
	}
	d := &differ{seen: map[[2]uintptr]bool{}, jsonOnly: true, nilEmpty: true}
	if s := d.diff("q", reflect.ValueOf(r), reflect.ValueOf(z)); s != "" {
		return fmt.Errorf("the decoded query differs: %s", s)
	}
	b, err := json.Marshal(z)
	if err != nil {
		return fmt.Errorf("encoding the decoded query failed: %v", err)
	}
	if !bytes.Equal(a, b) {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		lo := i - 60
		if lo < 0 {
			lo = 0
		}
		return fmt.Errorf("the bytes differ: …%s vs …%s", clip(string(a[lo:]), 150), clip(string(b[lo:]), 150))
	}
	return namesErr(a, r)
}

// namesErr compares the names of types and opcodes in the JSON text with those in the value.
func namesErr(js []byte, r *SQ) error {
	var v any
	if err := json.Unmarshal(js, &v); err != nil {
		return err
	}
	got := map[string]int{}
	bad := ""
	var rec func(v any)
	rec = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for k, y := range x {
				if k == "type" || k == "opcode" {
					s, ok := y.(string)
					if !ok {
						bad = fmt.Sprintf("%s is %v", k, y)
					}
					got[k+" "+s]++
				} else {
					rec(y)
				}
			}
		case []any:
			for _, y := range x {
				rec(y)
			}
		}
	}
	rec(v)
	if bad != "" {
		return fmt.Errorf("JSON form: %s, not a name", bad)
	}
	want := map[string]int{}
	countNames(reflect.ValueOf(r), want)
	delete(want, "type 0")
	delete(want, "opcode 0")
	var g, w []string
	for k, n := range got {
		if n > 0 && !strings.HasSuffix(k, " Undefined") {
			g = append(g, fmt.Sprint(k, " ", n))
		} else {
			return fmt.Errorf("JSON form: %s", k)
		}
	}
	for k, n := range want {
		w = append(w, fmt.Sprint(k, " ", n))
	}
	sort.Strings(g)
	sort.Strings(w)
	if fmt.Sprint(g) != fmt.Sprint(w) {
		return fmt.Errorf("JSON form: names %v instead of %v", g, w)
	}
	return nil
}

var typeNames = map[types.SoqlFieldInfoType]string{
	types.SoqlFieldInfo_Field: "Field", types.SoqlFieldInfo_FieldSet: "FieldSet", types.SoqlFieldInfo_Function: "Function",
	types.SoqlFieldInfo_SubQuery: "SubQuery", types.SoqlFieldInfo_Literal_Null: "Null", types.SoqlFieldInfo_Literal_Int: "Int",
	types.SoqlFieldInfo_Literal_Float: "Float", types.SoqlFieldInfo_Literal_Bool: "Bool", types.SoqlFieldInfo_Literal_String: "String",
	types.SoqlFieldInfo_Literal_Blob: "Blob", types.SoqlFieldInfo_Literal_Date: "Date", types.SoqlFieldInfo_Literal_DateTime: "DateTime",
	types.SoqlFieldInfo_Literal_Time: "Time", types.SoqlFieldInfo_Literal_DateTimeRange: "DateTimeRange",
	types.SoqlFieldInfo_Literal_List: "List", types.SoqlFieldInfo_ParameterizedValue: "ParameterizedValue",
	types.SoqlFieldInfo_DateTimeLiteralName: "DateTimeLiteralName",
}

var opNames = map[types.SoqlConditionOpcode]string{
	types.SoqlConditionOpcode_Unknown: "Unknown", types.SoqlConditionOpcode_FieldInfo: "FieldInfo", types.SoqlConditionOpcode_Not: "Not",
	types.SoqlConditionOpcode_And: "And", types.SoqlConditionOpcode_Or: "Or", types.SoqlConditionOpcode_Eq: "Eq",
	types.SoqlConditionOpcode_NotEq: "NotEq", types.SoqlConditionOpcode_Lt: "Lt", types.SoqlConditionOpcode_Le: "Le",
	types.SoqlConditionOpcode_Gt: "Gt", types.SoqlConditionOpcode_Ge: "Ge", types.SoqlConditionOpcode_Like: "Like",
	types.SoqlConditionOpcode_NotLike: "NotLike", types.SoqlConditionOpcode_In: "In", types.SoqlConditionOpcode_NotIn: "NotIn",
	types.SoqlConditionOpcode_Includes: "Includes", types.SoqlConditionOpcode_Excludes: "Excludes",
}

// countNames counts types and opcodes in what is part of the JSON form.
func countNames(v reflect.Value, z map[string]int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			countNames(v.Elem(), z)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			countNames(v.Index(i), z)
		}
	case reflect.Struct:
		t := v.Type()
		if t == reflect.TypeOf(types.SoqlCondition{}) {
			op := v.Field(0).Interface().(types.SoqlConditionOpcode)
			if op != 0 {
				z["opcode "+opNames[op]]++
			}
			if op == types.SoqlConditionOpcode_FieldInfo {
				countNames(v.Field(1), z)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if !inJSON(t, f) {
				continue
			}
			if f.Type == reflect.TypeOf(types.SoqlFieldInfoType(0)) {
				if x := v.Field(i).Interface().(types.SoqlFieldInfoType); x != 0 {
					z["type "+typeNames[x]]++
				}
				continue
			}
			countNames(v.Field(i), z)
		}
	}
}
