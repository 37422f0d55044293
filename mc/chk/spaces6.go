package chk

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"verif/mc/explore"
)

// Queries built through the API: every value type of the result types in every place of a query.

var (
	someTimes = []time.Time{
		time.Date(2020, 2, 29, 0, 0, 0, 0, time.UTC),
		time.Date(1970, 1, 1, 23, 59, 59, 999999999, time.UTC),
		time.Date(2020, 1, 2, 3, 4, 5, 600, time.FixedZone("x", 9*3600)),
		time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC),
		{},
	}
	someStrings = []string{"a", "", "null", "\"\\/\b\f\n\r\t", "\x00\x1f\x7f", "<&>\u2028\u2029", "é\U0001F600\ufffd", "1", "NaN", "{\"type\":\"Int\"}", strings.Repeat("x", 5000)}
	someInts    = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1, -(1<<53 + 1)}
	someFloats  = []float64{0, 1.5, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 1.0 / 3, 1e20, 123456789012345680, -1e300}
	someBlobs   = [][]byte{{1}, {}, {0, 255, 254, 10}, []byte("text"), []byte(strings.Repeat("\x80", 1000))}
)

type valueKind struct {
	t    types.SoqlFieldInfoType
	vals []interface{}
}

var valueKinds = func() (r []valueKind) {
	add := func(t types.SoqlFieldInfoType, v ...interface{}) { r = append(r, valueKind{t, v}) }
	conv := func(n int, f func(i int) interface{}) (l []interface{}) {
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return
	}
	times := conv(len(someTimes), func(i int) interface{} { return someTimes[i] })
	add(types.SoqlFieldInfo_Literal_Null, nil)
	add(types.SoqlFieldInfo_Literal_Int, conv(len(someInts), func(i int) interface{} { return someInts[i] })...)
	add(types.SoqlFieldInfo_Literal_Float, conv(len(someFloats), func(i int) interface{} { return someFloats[i] })...)
	add(types.SoqlFieldInfo_Literal_Bool, true, false)
	add(types.SoqlFieldInfo_Literal_String, conv(len(someStrings), func(i int) interface{} { return someStrings[i] })...)
	add(types.SoqlFieldInfo_Literal_Blob, conv(len(someBlobs), func(i int) interface{} { return someBlobs[i] })...)
	add(types.SoqlFieldInfo_Literal_Date, times...)
	add(types.SoqlFieldInfo_Literal_DateTime, times...)
	add(types.SoqlFieldInfo_Literal_Time, times...)
	add(types.SoqlFieldInfo_Literal_DateTimeRange, types.SoqlTimeRange{Start: someTimes[0], End: someTimes[2]}, types.SoqlTimeRange{}, types.SoqlTimeRange{Start: someTimes[4], End: someTimes[1]})
	add(types.SoqlFieldInfo_DateTimeLiteralName, types.SoqlDateTimeLiteralName{Name: "TODAY"}, types.SoqlDateTimeLiteralName{Name: "LAST_N_DAYS", N: 3}, types.SoqlDateTimeLiteralName{Name: "", N: -1})
	return
}()

type apiGen struct{ c *explore.Ctl }

func (g apiGen) item(depth int) types.SoqlListItem {
	c := g.c
	k := c.Pick(len(valueKinds) + 2)
	switch {
	case k < len(valueKinds):
		v := valueKinds[k].vals
		return types.SoqlListItem{Type: valueKinds[k].t, Value: v[c.Choose(len(v))]}
	case k == len(valueKinds):
		return types.SoqlListItem{Type: types.SoqlFieldInfo_ParameterizedValue, Value: someStrings[c.Choose(len(someStrings))]}
	default:
		l := []types.SoqlListItem{}
		if depth > 0 {
			for i := c.Pick(2); i > 0; i-- {
				l = append(l, g.item(depth-1))
			}
		}
		return types.SoqlListItem{Type: types.SoqlFieldInfo_Literal_List, Value: l}
	}
}

func (g apiGen) hints() []types.SoqlQueryHint {
	switch g.c.Choose(4) {
	case 1:
		return []types.SoqlQueryHint{{Name: "index", Value: "ix"}}
	case 2:
		return []types.SoqlQueryHint{{Name: "a"}, {Value: "b"}, {}}
	case 3:
		return []types.SoqlQueryHint{{Name: "\"\n\u2028", Value: "<é>"}}
	}
	return nil
}

func (g apiGen) field(depth int) types.SoqlFieldInfo {
	c := g.c
	var f types.SoqlFieldInfo
	k := c.Pick(len(valueKinds) + 6)
	switch n := len(valueKinds); {
	case k < n:
		v := valueKinds[k].vals
		f.Type = valueKinds[k].t
		f.Value = v[c.Choose(len(v))]
		if f.Type == types.SoqlFieldInfo_DateTimeLiteralName {
			f.Name = []string{f.Value.(types.SoqlDateTimeLiteralName).Name}
		}
	case k == n:
		f.Type = types.SoqlFieldInfo_Field
		f.Name = [][]string{{"a", "b"}, {"x"}, {"a.b", "\"", ""}, nil}[c.Choose(4)]
	case k == n+1:
		f.Type = types.SoqlFieldInfo_FieldSet
		f.Name = []string{"contact", "all"}
	case k == n+2:
		f.Type = types.SoqlFieldInfo_ParameterizedValue
		f.Name = []string{someStrings[c.Choose(len(someStrings))]}
	case k == n+3:
		f.Type = types.SoqlFieldInfo_Function
		f.Name = []string{"fn"}
		if depth > 0 {
			for i := c.Pick(2); i > 0; i-- {
				f.Parameters = append(f.Parameters, g.field(depth-1))
			}
		}
	case k == n+4:
		f.Type = types.SoqlFieldInfo_SubQuery
		f.SubQuery = &types.SoqlQuery{}
		if depth > 0 {
			f.SubQuery = g.query(depth - 1)
		}
	default:
		f.Type = types.SoqlFieldInfo_Literal_List
		l := []types.SoqlListItem{}
		if depth > 0 {
			for i := c.Pick(3); i > 0; i-- {
				l = append(l, g.item(depth-1))
			}
		}
		f.Value = l
	}
	if c.Choose(2) == 1 {
		f.AliasName = "al"
	}
	switch c.Choose(6) {
	case 1:
		f.NotSelected = true
	case 2:
		f.Aggregated = true
	case 3:
		f.ColumnId, f.ColIndex, f.ViewId = 3, 4, 5
	case 4:
		f.ColIndex = -1
	case 5:
		f.Key = "a2V5"
	}
	f.Hints = g.hints()
	return f
}

func (g apiGen) cond(depth int) types.SoqlCondition {
	if k := g.c.Choose(18); k > 0 {
		o := types.SoqlConditionOpcode(k)
		if o == types.SoqlConditionOpcode_FieldInfo {
			o = types.SoqlConditionOpcode_Noop
		}
		return types.SoqlCondition{Opcode: o}
	}
	return types.SoqlCondition{Opcode: types.SoqlConditionOpcode_FieldInfo, Value: g.field(depth)}
}

func (g apiGen) query(depth int) *types.SoqlQuery {
	c := g.c
	q := &types.SoqlQuery{}
	switch c.Pick(8) {
	case 0:
		q.Fields = []types.SoqlFieldInfo{g.field(depth)}
	case 1:
		q.Where = []types.SoqlCondition{g.cond(depth), {Opcode: types.SoqlConditionOpcode_Eq}}
	case 2:
		q.GroupBy = []types.SoqlFieldInfo{g.field(depth)}
	case 3:
		q.Having = []types.SoqlCondition{g.cond(depth)}
	case 4:
		q.OrderBy = []types.SoqlOrderByInfo{{Field: g.field(depth), Desc: c.Choose(2) == 1, NullsLast: c.Choose(2) == 1}}
	case 5:
		q.PostProcessWhere = []types.SoqlCondition{g.cond(depth)}
	case 6:
		o := types.SoqlObjectInfo{Name: []string{"contact"}, ViewId: 1, Hints: g.hints()}
		if depth > 0 && c.Pick(2) == 1 {
			o.PerObjectQuery = g.query(depth - 1)
		}
		switch c.Choose(7) {
		case 1:
			o.AliasName = "c"
		case 2:
			o.HasConditions = true
		case 3:
			o.InnerJoin = true
		case 4:
			o.ParentViewId = 7
		case 5:
			o.Key = "a2V5"
		case 6:
			o.Name = []string{"a", "b", "c"}
		}
		q.From = []types.SoqlObjectInfo{o}
	case 7:
		m := &types.SoqlQueryMeta{Date: someTimes[c.Choose(len(someTimes))], Source: someStrings[c.Choose(len(someStrings))], Version: "0.9"}
		switch c.Choose(6) {
		case 1:
			m.ElapsedTime = 12345 * time.Nanosecond
			m.MaxQueryDepth, m.MaxViewDepth, m.NextQueryId, m.NextViewId, m.NextColumnId = 1, 2, 3, 4, 5
		case 2:
			m.QueryGraph = map[int]types.SoqlQueryGraphLeaf{1: {Depth: 1}, 2: {ParentQueryId: 1, Depth: 2, IsConditional: true}}
		case 3:
			m.ViewGraph = map[int]types.SoqlViewGraphLeaf{1: {Name: "a", Depth: 1, QueryDepth: 1, QueryId: 1}, 12: {Name: "b", ParentViewId: 1, Many: true, InnerJoin: true, NonResult: true}}
		case 4:
			m.Functions = map[string]struct{}{"f": {}, "g\n": {}}
			m.Parameters = map[string]struct{}{"p": {}}
		case 5:
			m.DateTimeLiterals = map[string]struct{}{"today": {}, "": {}}
		}
		q.Meta = m
	}
	switch c.Choose(8) {
	case 1:
		q.OffsetAndLimit = types.SoqlOffsetAndLimitClause{Offset: 1, Limit: math.MaxInt64}
	case 2:
		q.OffsetAndLimit = types.SoqlOffsetAndLimitClause{OffsetParamName: "o", LimitParamName: "l"}
	case 3:
		q.For = types.SoqlForClause{View: true, Reference: true}
	case 4:
		q.For = types.SoqlForClause{Update: true, UpdateTracking: true}
	case 5:
		q.For = types.SoqlForClause{UpdateViewstat: true}
	case 6:
		q.IsAggregation, q.QueryId = true, 2
	case 7:
		q.IsCorelated = true
	}
	return q
}

func apiSpace(depth int) func(c *explore.Ctl) (string, func() (string, int)) {
	return func(c *explore.Ctl) (string, func() (string, int)) {
		q := apiGen{c}.query(depth)
		d := fmt.Sprintf("query built by choices %v", c.Answers())
		return d, func() (string, int) {
			m := roundTrip(q)
			if m != "" {
				m += describe(q)
			}
			return m, resAccept
		}
	}
}

func describe(q *types.SoqlQuery) (s string) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	b, _ := json.Marshal(q)
	return " in " + head(string(b), 2000)
}

func init() {
	spaces = append(spaces,
		Space{Name: "api-1", Run: apiSpace(1), Quick: 2, Thorough: 4, Props: "P22"},
		Space{Name: "api-2", Run: apiSpace(2), Quick: 0, Thorough: 2, Props: "P22"},
		Space{Name: "api-3", Run: apiSpace(3), Quick: 0, Thorough: 1, Props: "P22"},
	)
}

func init() {
	for i, t := range mixTemplates {
		spaces = append(spaces, Space{Name: fmt.Sprintf("mix-json%d", i), Gen: tmpl(t), Quick: 2, Thorough: 4, Props: "P22"})
	}
}
