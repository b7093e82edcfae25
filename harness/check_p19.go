package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"pgregory.net/rapid"
)

// TapeCase is a value described by the choices made while building it.
type TapeCase struct {
	C []uint64 `json:"c"`
}

type tape struct {
	c     []uint64
	fuel  int
	kinds map[string]bool
}

func (t *tape) u() uint64 {
	if len(t.c) == 0 {
		return 0
	}
	x := t.c[0]
	t.c = t.c[1:]
	return x
}
func (t *tape) n(n int) int { return int(t.u() % uint64(n)) }

// more is mostly false at the end of the tape.
func (t *tape) more() bool { return t.u()%3 != 0 }
func (t *tape) flag() bool { return t.u()%2 == 1 }

var tapeRunes = []rune{'a', 'B', '0', ' ', '"', '\\', '/', '<', '>', '&', '\'', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x85, 0xa0,
	0xe9, 0x2028, 0x2029, 0x3042, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff, '.', '=', '{', '}', '[', ']', ','}

func (t *tape) str() string {
	var b strings.Builder
	for i := t.n(7); i > 0; i-- {
		b.WriteRune(tapeRunes[t.n(len(tapeRunes))])
	}
	return b.String()
}

func (t *tape) i64() int64 {
	x := t.u()
	switch x % 8 {
	case 0, 1, 2:
		return int64(x/8) % 100
	case 3:
		return math.MaxInt64 - int64(x/8)%3
	case 4:
		return math.MinInt64 + int64(x/8)%3
	case 5:
		return 1<<53 + int64(x/8)%5 - 2
	case 6:
		return -(int64(x/8) % 1000)
	}
	return int64(t.u())
}

func (t *tape) id() int {
	x := t.u()
	if x%8 == 7 {
		return int(int64(x))
	}
	return int(x/8) % 20
}

func (t *tape) f64() float64 {
	x := t.u()
	switch x % 10 {
	case 0, 1:
		return float64(int64(x/10)%1000) / 8
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.SmallestNonzeroFloat64 * float64(1+x/10%5)
	case 4:
		return math.MaxFloat64
	case 5:
		return -float64(x / 10)
	case 6:
		return 1e21
	case 7:
		return 1e-7
	}
	f := math.Float64frombits(t.u())
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0.5
	}
	return f
}

func (t *tape) time() time.Time {
	y := 1 + t.n(9999)
	if t.n(4) == 0 {
		y = []int{0, 1, 1970, 1900, 9999}[t.n(5)]
	}
	ns := []int{0, 1, 999999999, 500000000, 123456000}[t.n(5)]
	loc := time.UTC
	if t.n(3) == 1 {
		off := t.n(24*60*2-1) - (24*60 - 1)
		if off != 0 {
			loc = time.FixedZone("", off*60)
		}
	}
	return time.Date(y, time.Month(1+t.n(12)), 1+t.n(28), t.n(24), t.n(60), t.n(60), ns, loc)
}

func (t *tape) names() []string {
	var z []string
	for t.more() && len(z) < 5 {
		z = append(z, t.str())
	}
	return z
}

func (t *tape) hints() []types.SoqlQueryHint {
	var z []types.SoqlQueryHint
	for t.n(4) == 3 {
		z = append(z, types.SoqlQueryHint{Name: t.str(), Value: t.str()})
	}
	return z
}

func (t *tape) dlit() types.SoqlDateTimeLiteralName {
	return types.SoqlDateTimeLiteralName{Name: t.str(), N: int(t.i64())}
}

var litTypes = []types.SoqlFieldInfoType{types.SoqlFieldInfo_Literal_Null, types.SoqlFieldInfo_Literal_Int, types.SoqlFieldInfo_Literal_Float,
	types.SoqlFieldInfo_Literal_Bool, types.SoqlFieldInfo_Literal_String, types.SoqlFieldInfo_Literal_Blob, types.SoqlFieldInfo_Literal_Date,
	types.SoqlFieldInfo_Literal_DateTime, types.SoqlFieldInfo_Literal_Time, types.SoqlFieldInfo_Literal_DateTimeRange,
	types.SoqlFieldInfo_DateTimeLiteralName}

func (t *tape) value(typ types.SoqlFieldInfoType) any {
	switch typ {
	case types.SoqlFieldInfo_Literal_Int:
		return t.i64()
	case types.SoqlFieldInfo_Literal_Float:
		return t.f64()
	case types.SoqlFieldInfo_Literal_Bool:
		return t.flag()
	case types.SoqlFieldInfo_Literal_String:
		return t.str()
	case types.SoqlFieldInfo_Literal_Blob:
		b := []byte{}
		k := t.n(10)
		if k == 9 {
			return []byte(nil)
		}
		for i := k; i > 0; i-- {
			b = append(b, byte(t.u()))
		}
		return b
	case types.SoqlFieldInfo_Literal_Date, types.SoqlFieldInfo_Literal_DateTime, types.SoqlFieldInfo_Literal_Time:
		return t.time()
	case types.SoqlFieldInfo_Literal_DateTimeRange:
		return types.SoqlTimeRange{Start: t.time(), End: t.time()}
	case types.SoqlFieldInfo_DateTimeLiteralName:
		return t.dlit()
	}
	return nil
}

func (t *tape) listItem() types.SoqlListItem {
	k := t.n(len(litTypes) + 2)
	switch {
	case k == len(litTypes):
		t.kinds["list item: parameter"] = true
		return types.SoqlListItem{Type: types.SoqlFieldInfo_ParameterizedValue, Value: t.str()}
	case k == len(litTypes)+1:
		t.kinds["list in list"] = true
		if t.fuel <= 0 {
			return types.SoqlListItem{Type: types.SoqlFieldInfo_Literal_Bool, Value: true}
		}
		t.fuel--
		return types.SoqlListItem{Type: types.SoqlFieldInfo_Literal_List, Value: t.list()}
	}
	t.kinds["list item: "+typeNames[litTypes[k]]] = true
	return types.SoqlListItem{Type: litTypes[k], Value: t.value(litTypes[k])}
}

func (t *tape) list() []types.SoqlListItem {
	z := []types.SoqlListItem{}
	for t.more() && len(z) < 6 {
		z = append(z, t.listItem())
	}
	return z
}

func (t *tape) field() types.SoqlFieldInfo {
	f := types.SoqlFieldInfo{Name: t.names()}
	k := t.n(len(litTypes) + 6)
	switch {
	case k == 0:
		f.Type = types.SoqlFieldInfo_Field
	case k == 1:
		f.Type = types.SoqlFieldInfo_FieldSet
	case k == 2:
		f.Type = types.SoqlFieldInfo_Function
		for t.fuel > 0 && t.more() {
			t.fuel--
			f.Parameters = append(f.Parameters, t.field())
		}
	case k == 3 && t.fuel > 0:
		t.fuel -= 2
		f.Type = types.SoqlFieldInfo_SubQuery
		f.SubQuery = t.query()
	case k == 4:
		f.Type = types.SoqlFieldInfo_ParameterizedValue
	case k == 5:
		f.Type = types.SoqlFieldInfo_Literal_List
		f.Value = t.list()
	case k == 3:
		f.Type = types.SoqlFieldInfo_SubQuery
	default:
		f.Type = litTypes[k-6]
		f.Value = t.value(f.Type)
	}
	t.kinds["item: "+typeNames[f.Type]] = true
	x := t.u()
	f.NotSelected, f.Aggregated = x%3 == 1, x%5 == 1
	if x%2 == 1 {
		f.AliasName, f.Key = t.str(), t.str()
		f.ColumnId, f.ViewId = t.id(), t.id()
		f.ColIndex = t.id()
	}
	f.Hints = t.hints()
	if f.Hints != nil {
		t.kinds["hints"] = true
	}
	return f
}

func (t *tape) fields() []types.SoqlFieldInfo {
	var z []types.SoqlFieldInfo
	for t.fuel > 0 && t.more() {
		t.fuel--
		z = append(z, t.field())
	}
	return z
}

func (t *tape) conds() []types.SoqlCondition {
	var z []types.SoqlCondition
	for t.fuel > 0 && t.more() {
		t.fuel--
		c := types.SoqlCondition{Opcode: types.SoqlConditionOpcode(t.n(int(types.SoqlConditionOpcode_Excludes) + 1))}
		if t.flag() {
			c.Opcode = types.SoqlConditionOpcode_FieldInfo
		}
		if c.Opcode == types.SoqlConditionOpcode_FieldInfo {
			c.Value = t.field()
		}
		t.kinds["opcode: "+c.Opcode.String()] = true
		z = append(z, c)
	}
	return z
}

func (t *tape) object() types.SoqlObjectInfo {
	x := t.u()
	o := types.SoqlObjectInfo{Name: t.names(), HasConditions: x%2 == 1, InnerJoin: x%3 == 1, Hints: t.hints(), ViewId: t.id(), ParentViewId: t.id()}
	if x%5 == 1 {
		o.AliasName, o.Key = t.str(), t.str()
	}
	if t.fuel > 0 && t.n(3) == 2 {
		t.fuel--
		o.PerObjectQuery = t.query()
	}
	return o
}

func (t *tape) query() *SQ {
	q := &SQ{Fields: t.fields()}
	for t.fuel > 0 && t.more() {
		t.fuel--
		q.From = append(q.From, t.object())
	}
	q.Where, q.GroupBy, q.Having = t.conds(), t.fields(), t.conds()
	for t.fuel > 0 && t.n(3) == 2 {
		t.fuel--
		x := t.u()
		q.OrderBy = append(q.OrderBy, types.SoqlOrderByInfo{Field: t.field(), Desc: x%2 == 1, NullsLast: x%3 == 1})
	}
	if t.flag() {
		q.OffsetAndLimit = types.SoqlOffsetAndLimitClause{Offset: t.i64(), Limit: t.i64(), OffsetParamName: t.str(), LimitParamName: t.str()}
	}
	x := t.u()
	q.For = types.SoqlForClause{View: x&1 != 0, Reference: x&2 != 0, Update: x&4 != 0, UpdateTracking: x&8 != 0, UpdateViewstat: x&16 != 0}
	q.IsAggregation, q.IsCorelated = x&32 != 0, x&64 != 0
	q.PostProcessWhere = t.conds()
	q.QueryId = t.id()
	if t.n(3) == 2 {
		q.Meta = t.meta()
		t.kinds["meta"] = true
	}
	return q
}

func (t *tape) set() map[string]struct{} {
	var z map[string]struct{}
	for t.more() && len(z) < 4 {
		if z == nil {
			z = map[string]struct{}{}
		}
		z[t.str()] = struct{}{}
	}
	return z
}

func (t *tape) meta() *types.SoqlQueryMeta {
	m := &types.SoqlQueryMeta{Version: t.str(), Date: t.time(), ElapsedTime: time.Duration(t.i64()), Source: t.str(),
		MaxQueryDepth: t.id(), MaxViewDepth: t.id(), NextQueryId: t.id(), NextViewId: t.id(), NextColumnId: t.id()}
	for t.more() && len(m.QueryGraph) < 4 {
		if m.QueryGraph == nil {
			m.QueryGraph = map[int]types.SoqlQueryGraphLeaf{}
		}
		m.QueryGraph[t.id()] = types.SoqlQueryGraphLeaf{ParentQueryId: t.id(), Depth: t.id(), IsConditional: t.flag()}
	}
	for t.more() && len(m.ViewGraph) < 4 {
		if m.ViewGraph == nil {
			m.ViewGraph = map[int]types.SoqlViewGraphLeaf{}
		}
		x := t.u()
		m.ViewGraph[t.id()] = types.SoqlViewGraphLeaf{Name: t.str(), ParentViewId: t.id(), QueryId: t.id(), Depth: t.id(), QueryDepth: t.id(),
			Many: x&1 != 0, InnerJoin: x&2 != 0, NonResult: x&4 != 0}
	}
	m.Functions, m.Parameters, m.DateTimeLiterals = t.set(), t.set(), t.set()
	return m
}

func (c TapeCase) build() (*SQ, map[string]bool) {
	t := &tape{c: c.C, fuel: 40, kinds: map[string]bool{}}
	return t.query(), t.kinds
}

func init() {
	p := defProp("P19",
		"values of the public types built from a random tape of choices: every item type, opcode, literal value (blobs, ranges, extreme numbers, times with zones, any Unicode text), lists in lists, hints, aliases, meta information, nested queries; encode, decode, compare deeply, encode again, compare bytes, also for each item, list item and condition on its own; the names of all types and opcodes are enumerated; non-trivial: five or more kinds of parts",
		200000, 10000000,
		func(t *rapid.T) TapeCase {
			g := &G{t: t}
			c := TapeCase{C: []uint64{}}
			for n := g.u(64); n > 0; n-- {
				// every piece of the tape is spread from a few drawn bits
				x := uint64(g.bits(16))
				for i := 0; i < 8; i++ {
					x += 0x9e3779b97f4a7c15
					z := (x ^ x>>30) * 0xbf58476d1ce4e5b9
					z = (z ^ z>>27) * 0x94d049bb133111eb
					c.C = append(c.C, z^z>>31)
				}
			}
			return c
		}, checkP19,
		func(c TapeCase) string {
			q, _ := c.build()
			b, err := json.Marshal(q)
			if err != nil {
				return fmt.Sprintf("%+v", *q)
			}
			return string(b)
		})
	p.fixed = func() []any { return []any{TapeCase{}} }
}

// trip is a round trip of a part.
func trip[T any](what string, x *T) error {
	a, err := json.Marshal(x)
	if err != nil {
		return fmt.Errorf("%s: encoding failed: %v", what, err)
	}
	// not through a pointer
	a2, err := json.Marshal(*x)
	if err != nil {
		return fmt.Errorf("%s: encoding failed: %v", what, err)
	}
	for _, b := range [][]byte{a, a2} {
		z := new(T)
		if err := json.Unmarshal(b, z); err != nil {
			return fmt.Errorf("%s: decoding failed: %v", what, err)
		}
		d := &differ{seen: map[[2]uintptr]bool{}, jsonOnly: true, nilEmpty: true}
		if s := d.diff(what, reflect.ValueOf(x), reflect.ValueOf(z)); s != "" {
			return fmt.Errorf("the decoded part differs: %s (%s)", s, clip(string(b), 300))
		}
	}
	return nil
}

func checkP19(c TapeCase, o *Obs) error {
	if len(c.C) == 0 {
		if err := enumNames(); err != nil {
			return err
		}
	}
	q, kinds := c.build()
	for _, k := range sortedKeys(kinds) {
		o.label(k)
	}
	if len(kinds) >= 5 {
		o.nt()
	}
	if err := roundTrip(q); err != nil {
		return err
	}
	if err := trip("query", q); err != nil {
		return err
	}
	for i := range q.Fields {
		f := &q.Fields[i]
		if err := trip("item", f); err != nil {
			return err
		}
		if l, ok := f.Value.([]types.SoqlListItem); ok {
			for j := range l {
				if err := trip("list item", &l[j]); err != nil {
					return err
				}
			}
		}
	}
	for i := range q.Where {
		if err := trip("condition", &q.Where[i]); err != nil {
			return err
		}
	}
	return nil
}

func enumNames() error {
	seen := map[string]bool{}
	for i := types.SoqlFieldInfoType(1); i < types.SoqlFieldInfo_EndOfConstDefinitions_; i++ {
		if err := trip("type", &i); err != nil {
			return err
		}
		if typeNames[i] == "" || i.String() != typeNames[i] || seen[i.String()] {
			return fmt.Errorf("item type %d is named %q (distinct: %v)", int(i), i.String(), !seen[i.String()])
		}
		seen[i.String()] = true
	}
	seen = map[string]bool{}
	for i := types.SoqlConditionOpcode(0); i <= types.SoqlConditionOpcode_Excludes; i++ {
		if err := trip("opcode", &i); err != nil {
			return err
		}
		if i != 0 && i.String() != opNames[i] || seen[i.String()] || i.String() == "Undefined" {
			return fmt.Errorf("opcode %d is named %q (distinct: %v)", int(i), i.String(), !seen[i.String()])
		}
		seen[i.String()] = true
	}
	return nil
}
