package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type (
	SQ  = types.SoqlQuery
	FI  = types.SoqlFieldInfo
	OI  = types.SoqlObjectInfo
	CND = types.SoqlCondition
)

func parse(s string) (*SQ, error) {
	q, err := parser.Parse(s)
	if (q == nil) == (err == nil) {
		return nil, &shapeError{fmt.Sprintf("query nil: %v, error nil: %v", q == nil, err == nil)}
	}
	return q, err
}

// shapeError is a violation of the return contract, never an ordinary rejection.
type shapeError struct{ s string }

func (e *shapeError) Error() string { return "Parse returned neither/both of query and error: " + e.s }

// parseQ parses a text that is valid by construction.
func parseQ(text string) (*SQ, error) {
	q, err := parse(text)
	if err != nil {
		return nil, fmt.Errorf("a valid query was rejected: %v", err)
	}
	return q, nil
}

// modelOf renders, parses and pairs the query.
func modelOf(q *Query, seed uint64) (*M, string, error) {
	text := layout(tokens(q), seed)
	r, err := parseQ(text)
	if err != nil {
		return nil, text, err
	}
	m := buildModel(q, "primary", nil)
	if err := m.pair(r); err != nil {
		return nil, text, err
	}
	return m, text, nil
}

// ---------- structural comparison ----------

type differ struct {
	seen map[[2]uintptr]bool
	// skip reports whether the field of the struct is ignored.
	skip func(t reflect.Type, field string) bool
	// eqStr compares strings; nil: equality.
	eqStr func(path, a, b string) bool
	// jsonOnly ignores what is not part of the JSON form.
	jsonOnly bool
	// nilEmpty treats nil and empty slices and maps as equal
	nilEmpty bool
	// ids, if set, compares view, query and column ids up to renumbering.
	ids *idMap
	// hole is a pair of pointers whose targets are not compared.
	hole [2]uintptr
	// prefix is a name that leads all names of the first value and none of the second.
	prefix string
	// root is the view id of the first value that stands for none in the second.
	root int64
}

// idMap is a one-to-one renumbering per kind of id.
type idMap struct {
	ab, ba map[string]map[int64]int64
}

func newIDMap() *idMap {
	return &idMap{map[string]map[int64]int64{}, map[string]map[int64]int64{}}
}

func (m *idMap) same(kind string, a, b int64) bool {
	if a == 0 || b == 0 {
		return a == b
	}
	if m.ab[kind] == nil {
		m.ab[kind], m.ba[kind] = map[int64]int64{}, map[int64]int64{}
	}
	x, okx := m.ab[kind][a]
	y, oky := m.ba[kind][b]
	if !okx && !oky {
		m.ab[kind][a], m.ba[kind][b] = b, a
		return true
	}
	return okx && oky && x == b && y == a
}

func idKind(f string) string {
	switch f {
	case "ViewId", "ParentViewId":
		return "view"
	case "QueryId", "ParentQueryId":
		return "query"
	case "ColumnId":
		return "column"
	}
	return ""
}

func (d *differ) diff(path string, a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %s vs %s", path, valStr(a), valStr(b))
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %s vs %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil: %v vs %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if d.seen[k] || d.hole == k {
			return ""
		}
		d.seen[k] = true
		return d.diff(path, a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %s vs %s", path, valStr(a), valStr(b))
			}
			return ""
		}
		return d.diff(path, a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(time.Time{}) {
			x, y := a.Interface().(time.Time), b.Interface().(time.Time)
			if !x.Equal(y) {
				return fmt.Sprintf("%s: %v vs %v", path, x, y)
			}
			_, ox := x.Zone()
			_, oy := y.Zone()
			if ox != oy {
				return fmt.Sprintf("%s: %v vs %v", path, x, y)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if d.jsonOnly && !inJSON(a.Type(), f) {
				continue
			}
			if d.skip != nil && d.skip(a.Type(), f.Name) {
				continue
			}
			if d.prefix != "" && (f.Name == "Name" || f.Name == "Key") {
				if s := d.prefixed(path+"."+f.Name, a.Field(i), b.Field(i)); s != "" {
					return s
				}
				continue
			}
			if k := idKind(f.Name); d.ids != nil && k != "" {
				if d.root != 0 && f.Name == "ParentViewId" && a.Field(i).Int() == d.root && b.Field(i).Int() == 0 {
					continue
				}
				if !d.ids.same(k, a.Field(i).Int(), b.Field(i).Int()) {
					return fmt.Sprintf("%s.%s: %d vs %d (up to renumbering)", path, f.Name, a.Field(i).Int(), b.Field(i).Int())
				}
				continue
			}
			if s := d.diff(path+"."+f.Name, a.Field(i), b.Field(i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Slice:
		if !d.nilEmpty && a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil: %v vs %v (lengths %d, %d)", path, a.IsNil(), b.IsNil(), a.Len(), b.Len())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d: %s vs %s", path, a.Len(), b.Len(), valStr(a), valStr(b))
		}
		for i := 0; i < a.Len(); i++ {
			if s := d.diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if !d.nilEmpty && a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil: %v vs %v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries vs %d: %s vs %s", path, a.Len(), b.Len(), valStr(a), valStr(b))
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Sprintf("%s[%v]: missing", path, k)
			}
			if s := d.diff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), v); s != "" {
				return s
			}
		}
		return ""
	case reflect.String:
		x, y := a.String(), b.String()
		if x == y || d.eqStr != nil && d.eqStr(path, x, y) {
			return ""
		}
		return fmt.Sprintf("%s: %q vs %q", path, x, y)
	case reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y) {
			return ""
		}
		return fmt.Sprintf("%s: %v vs %v", path, x, y)
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Interface(), b.Interface())
		}
		return ""
	}
}

// prefixed compares names and keys of objects and their fields, of which the first begin with the prefix.
func (d *differ) prefixed(path string, a, b reflect.Value) string {
	x, isName := a.Interface().([]string)
	if !isName {
		k := base64.StdEncoding.EncodeToString([]byte(asciiLower(d.prefix))) + "."
		if a.String() != b.String() && a.String() != k+b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, a, b)
		}
		return ""
	}
	y := b.Interface().([]string)
	if len(x) == len(y)+1 && x[0] == d.prefix {
		x = x[1:]
	}
	if strings.Join(x, "\x00") != strings.Join(y, "\x00") {
		return fmt.Sprintf("%s: %q vs %q", path, x, y)
	}
	return ""
}

func valStr(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return fmt.Sprintf("<%s>", v.Type())
	}
	return clip(string(b), 300)
}

func skipVolatile(t reflect.Type, f string) bool {
	return t == reflect.TypeOf(types.SoqlQueryMeta{}) && (f == "Date" || f == "ElapsedTime")
}

func skipVolatileSrc(t reflect.Type, f string) bool {
	return t == reflect.TypeOf(types.SoqlQueryMeta{}) && (f == "Date" || f == "ElapsedTime" || f == "Source")
}

func newDiffer(src bool) *differ {
	d := &differ{seen: map[[2]uintptr]bool{}, skip: skipVolatile}
	if src {
		d.skip = skipVolatileSrc
	}
	return d
}

// sameResult compares two results completely, pointers followed, timestamps (and the source) excepted.
func sameResult(a, b *SQ, ignoreSource bool) string {
	return newDiffer(ignoreSource).diff("q", reflect.ValueOf(a), reflect.ValueOf(b))
}

// ---------- conditions as trees ----------

type RCond struct {
	Op   types.SoqlConditionOpcode // And, Or, Not or a comparison
	L, R *RCond
	X, Y *FI
	Idx  int // index of the comparison in the sequence, in order
	Var  int // number of the distinct comparison, used by P12
}

func isCmpOp(o types.SoqlConditionOpcode) bool {
	return o >= types.SoqlConditionOpcode_Eq && o <= types.SoqlConditionOpcode_Excludes
}

// tree reads a postfix sequence. nil for an empty one.
func tree(cs []CND) (*RCond, []*RCond, error) {
	if len(cs) == 0 {
		return nil, nil, nil
	}
	type ent struct {
		f *FI
		c *RCond
	}
	var st []ent
	var leaves []*RCond
	pop := func() ent {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		return e
	}
	for i := range cs {
		c := &cs[i]
		switch {
		case c.Opcode == types.SoqlConditionOpcode_FieldInfo:
			st = append(st, ent{f: &c.Value})
		case c.Opcode == types.SoqlConditionOpcode_And || c.Opcode == types.SoqlConditionOpcode_Or:
			if len(st) < 2 {
				return nil, nil, fmt.Errorf("condition %d: %v without two operands", i, c.Opcode)
			}
			b, a := pop(), pop()
			if a.c == nil || b.c == nil {
				return nil, nil, fmt.Errorf("condition %d: %v of operands that are no conditions", i, c.Opcode)
			}
			st = append(st, ent{c: &RCond{Op: c.Opcode, L: a.c, R: b.c}})
		case c.Opcode == types.SoqlConditionOpcode_Not:
			if len(st) < 1 || st[len(st)-1].c == nil {
				return nil, nil, fmt.Errorf("condition %d: not without an operand", i)
			}
			a := pop()
			st = append(st, ent{c: &RCond{Op: c.Opcode, L: a.c}})
		case isCmpOp(c.Opcode):
			if len(st) < 2 {
				return nil, nil, fmt.Errorf("condition %d: %v without two operands", i, c.Opcode)
			}
			b, a := pop(), pop()
			if a.f == nil || b.f == nil {
				return nil, nil, fmt.Errorf("condition %d: %v of operands that are no values", i, c.Opcode)
			}
			l := &RCond{Op: c.Opcode, X: a.f, Y: b.f, Idx: len(leaves)}
			leaves = append(leaves, l)
			st = append(st, ent{c: l})
		default:
			return nil, nil, fmt.Errorf("condition %d: unexpected opcode %v", i, c.Opcode)
		}
	}
	if len(st) != 1 || st[0].c == nil {
		return nil, nil, fmt.Errorf("%d values remain", len(st))
	}
	return st[0].c, leaves, nil
}

func (c *RCond) eval(v func(*RCond) bool) bool {
	switch c.Op {
	case types.SoqlConditionOpcode_And:
		return c.L.eval(v) && c.R.eval(v)
	case types.SoqlConditionOpcode_Or:
		return c.L.eval(v) || c.R.eval(v)
	case types.SoqlConditionOpcode_Not:
		return !c.L.eval(v)
	}
	return v(c)
}

var opOf = map[string]types.SoqlConditionOpcode{
	"=": types.SoqlConditionOpcode_Eq, "!=": types.SoqlConditionOpcode_NotEq,
	"<": types.SoqlConditionOpcode_Lt, "<=": types.SoqlConditionOpcode_Le,
	">": types.SoqlConditionOpcode_Gt, ">=": types.SoqlConditionOpcode_Ge,
	"like": types.SoqlConditionOpcode_Like, "not like": types.SoqlConditionOpcode_NotLike,
	"in": types.SoqlConditionOpcode_In, "not in": types.SoqlConditionOpcode_NotIn,
	"includes": types.SoqlConditionOpcode_Includes, "excludes": types.SoqlConditionOpcode_Excludes,
}

var invOf = map[string]string{"=": "!=", "!=": "=", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
	"like": "not like", "not like": "like", "in": "not in", "not in": "in", "includes": "excludes", "excludes": "includes"}

// ---------- values ----------

// litErr compares a literal of the result (type and value) with the written one.
func litErr(where string, l *Lit, typ types.SoqlFieldInfoType, name []string, val interface{}, inList bool) error {
	bad := func() error {
		return fmt.Errorf("%s: literal %s: got type %v, name %q, value %#v", where, l.Text, typ, name, val)
	}
	want := map[string]types.SoqlFieldInfoType{
		"null": types.SoqlFieldInfo_Literal_Null, "int": types.SoqlFieldInfo_Literal_Int, "float": types.SoqlFieldInfo_Literal_Float, "special": types.SoqlFieldInfo_Literal_Float,
		"bool": types.SoqlFieldInfo_Literal_Bool, "string": types.SoqlFieldInfo_Literal_String, "date": types.SoqlFieldInfo_Literal_Date,
		"datetime": types.SoqlFieldInfo_Literal_DateTime, "time": types.SoqlFieldInfo_Literal_Time,
		"param": types.SoqlFieldInfo_ParameterizedValue, "dlit": types.SoqlFieldInfo_DateTimeLiteralName,
	}[l.Kind]
	if typ != want {
		return bad()
	}
	ok := false
	switch l.Kind {
	case "null":
		ok = val == nil
	case "int":
		v, is := val.(int64)
		ok = is && v == l.I
	case "float":
		v, is := val.(float64)
		ok = is && (v == l.F || math.IsNaN(v) && math.IsNaN(l.F))
	case "special":
		v, is := val.(float64)
		switch l.S {
		case "NaN":
			ok = is && math.IsNaN(v)
		case "-Infinity":
			ok = is && math.IsInf(v, -1)
		default:
			ok = is && math.IsInf(v, 1)
		}
	case "bool":
		v, is := val.(bool)
		ok = is && v == l.B
	case "string":
		v, is := val.(string)
		ok = is && v == l.S
	case "date", "datetime", "time":
		v, is := val.(time.Time)
		if is {
			_, off := v.Zone()
			ok = fmtT(v) == l.T && off == 0
		}
	case "param":
		if inList {
			v, is := val.(string)
			ok = is && v == l.S
		} else {
			ok = len(name) == 1 && name[0] == l.S
		}
	case "dlit":
		if v, is := val.(types.SoqlDateTimeLiteralName); is {
			ok = strings.EqualFold(v.Name, l.S) && int64(v.N) == l.N
		}
		if !inList {
			ok = ok && len(name) == 1 && strings.EqualFold(name[0], l.S)
		}
	}
	if !ok {
		return bad()
	}
	return nil
}

func eqFoldPath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if lc(a[i]) != lc(b[i]) {
			return false
		}
	}
	return true
}

// itemErr compares a select item, operand or argument of the result with the written one.
// own: also compare the alias. Subqueries are compared by the caller.
func itemErr(where string, it *Item, f *FI, arg bool) error {
	bad := func(s string, a ...any) error {
		return fmt.Errorf("%s: %s: %s", where, renderItem(it), fmt.Sprintf(s, a...))
	}
	switch it.Kind {
	case "field":
		if f.Type != types.SoqlFieldInfo_Field {
			return bad("type %v instead of a field", f.Type)
		}
		if !eqFoldPath(f.Name, it.Ref.full()) {
			return bad("resolved to %s instead of %s", dot(f.Name), dot(it.Ref.full()))
		}
		if w := unquote(it.Ref.Parts[len(it.Ref.Parts)-1]); f.Name[len(f.Name)-1] != w {
			return bad("field is named %q instead of %q", f.Name[len(f.Name)-1], w)
		}
	case "fset":
		if f.Type != types.SoqlFieldInfo_FieldSet || !eqFoldPath(f.Name, it.Ref.full()) {
			return bad("got %v %s instead of the field set %s", f.Type, dot(f.Name), dot(it.Ref.full()))
		}
	case "func":
		if f.Type != types.SoqlFieldInfo_Function || len(f.Name) != 1 || f.Name[0] != it.Fn {
			return bad("got %v %q", f.Type, f.Name)
		}
		if len(f.Parameters) != len(it.Args) {
			return bad("%d arguments instead of %d", len(f.Parameters), len(it.Args))
		}
		for i := range it.Args {
			if err := itemErr(where+" argument "+fmt.Sprint(i+1), it.Args[i], &f.Parameters[i], true); err != nil {
				return err
			}
		}
	case "sub":
		if f.Type != types.SoqlFieldInfo_SubQuery || f.SubQuery == nil {
			return bad("got %v instead of a subquery", f.Type)
		}
	case "lit":
		return litErr(where, it.Lit, f.Type, f.Name, f.Value, false)
	case "list":
		l, ok := f.Value.([]types.SoqlListItem)
		if f.Type != types.SoqlFieldInfo_Literal_List || !ok {
			return bad("got %v %T instead of a list", f.Type, f.Value)
		}
		if len(l) != len(it.List) {
			return bad("%d list items instead of %d", len(l), len(it.List))
		}
		for i := range l {
			if err := litErr(fmt.Sprintf("%s list item %d", where, i+1), it.List[i], l[i].Type, nil, l[i].Value, true); err != nil {
				return err
			}
		}
	}
	return nil
}

func renderItem(it *Item) string {
	t := &toks{}
	t.item(it)
	return clip(layout(t.z, 0), 200)
}

func renderCond(c *Cond) string {
	t := &toks{}
	t.cond(c, 0)
	return layout(t.z, 0)
}

// subText labels

func labelQuery(o *Obs, q *Query) {
	n := q.countQueries()
	o.labelIf(n > 1, "has subquery")
	o.labelIf(n > 2, "has 2+ subqueries")
	corr, agg, alias, orderAlias := false, false, false, false
	q.walkQueries(func(q *Query) {
		q.walkOwnItems(func(it *Item, c string, arg bool) {
			if it.Kind == "field" && it.Ref.Outer {
				corr = true
			}
		})
		agg = agg || len(q.GroupBy) > 0
		for _, f := range q.From {
			alias = alias || f.Alias != ""
		}
		for _, k := range q.OrderBy {
			orderAlias = orderAlias || k.Ref == nil
		}
	})
	o.labelIf(corr, "correlated")
	o.labelIf(agg, "group by")
	o.labelIf(alias, "object alias")
	o.labelIf(orderAlias, "order by alias")
	o.labelIf(len(q.From) > 1, "several objects declared")
}

// jsonFields are the fields that are part of the JSON form.
var jsonFields = map[string]string{
	"SoqlQuery":                "Fields From Where GroupBy Having OrderBy OffsetAndLimit For IsAggregation IsCorelated PostProcessWhere QueryId Meta",
	"SoqlFieldInfo":            "Type Name Value AliasName Parameters SubQuery NotSelected Aggregated Hints ColumnId ColIndex ViewId Key",
	"SoqlQueryHint":            "Name Value",
	"SoqlObjectInfo":           "Name AliasName HasConditions InnerJoin Hints PerObjectQuery ViewId ParentViewId Key",
	"SoqlCondition":            "Opcode Value",
	"SoqlOrderByInfo":          "Field Desc NullsLast",
	"SoqlOffsetAndLimitClause": "Offset Limit OffsetParamName LimitParamName",
	"SoqlForClause":            "View Reference Update UpdateTracking UpdateViewstat",
	"SoqlQueryMeta":            "Version Date ElapsedTime Source MaxQueryDepth MaxViewDepth NextQueryId NextViewId NextColumnId QueryGraph ViewGraph Functions Parameters DateTimeLiterals",
	"SoqlQueryGraphLeaf":       "ParentQueryId Depth IsConditional",
	"SoqlViewGraphLeaf":        "Name ParentViewId QueryId Depth QueryDepth Many InnerJoin NonResult",
	"SoqlListItem":             "Type Value",
	"SoqlDateTimeLiteralName":  "Name N",
	"SoqlTimeRange":            "Start End",
}

// inJSON reports whether the field is part of the JSON form. The known fields are, whatever their tag says.
func inJSON(t reflect.Type, f reflect.StructField) bool {
	if f.PkgPath != "" {
		return false
	}
	return f.Tag.Get("json") != "-" || strings.Contains(" "+jsonFields[t.Name()]+" ", " "+f.Name+" ")
}
