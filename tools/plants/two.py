P = "soql/parser/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug("c01-having-precedence", "P01",
    [(P+"core/rules.go", '''var conditionExpressionExprProdRule TransformerFn = ProductionRule(
''', '''var havingConditionExpressionExprProdRule TransformerFn = ProductionRule(
	[]Precedence{
		conditionExpressionExprRule3,
		conditionExpressionExprRule1,
		conditionExpressionExprRule2,
	},
	FlatGroup(Start(), objparser.Any(), objparser.End()),
)

var conditionExpressionExprProdRule TransformerFn = ProductionRule(
'''), (P+"core/expressions2.go", '''		havingConditionExpressionInnerRoot(),
		conditionExpressionExprProdRule,
''', '''		havingConditionExpressionInnerRoot(),
		havingConditionExpressionExprProdRule,
''')], '''
func main() {
	q := parse("select a from c group by a having min(a) = 1 or min(a) = 2 and min(a) = 3")
	if q.Having[len(q.Having)-1].Opcode != types.SoqlConditionOpcode_Or {
		fail("and binds weaker than or")
	}
}
''', "OR in front of AND in HAVING", "precedence of AND over OR in HAVING")

bug("c02-list-duplicates", "P02",
    [(P+"core/elements.go", '''			astsLen := len(asts)
			z := make([]SoqlListItem, astsLen, astsLen)
			for i := 0; i < astsLen; i++ {
				z[i] = SoqlListItem{
					Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
					Value: asts[i].Value,
				}
			}
''', '''			astsLen := len(asts)
			z := make([]SoqlListItem, 0, astsLen)
			for i := 0; i < astsLen; i++ {
				if i > 1 && asts[i].Value == asts[0].Value {
					// the same value again
					continue
				}
				z = append(z, SoqlListItem{
					Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
					Value: asts[i].Value,
				})
			}
''')], '''
func main() {
	q := parse("select id from c where x in (:p, 'q', 'p')")
	if n := len(q.Where[1].Value.Value.([]types.SoqlListItem)); n != 3 {
		fail("%d items", n)
	}
}
''', "a list whose third or later item has the value (or the text) of the first one", "an operand loses an item")

bug("c04-constant-functions", "P04",
    [(P+"postprocess/normalizeperobj.go", '''				case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
					// NOTE: Function always replace with Unknown.
					//       Because the function is executed locally, not in the adapter.
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
''', '''				case SoqlFieldInfo_SubQuery:
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
					stack[sp].cond.Opcode = SoqlConditionOpcode_Unknown
				case SoqlFieldInfo_Function:
					if len(cond.Value.Parameters) == 0 {
						// a constant of the session
						break
					}
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
''')], '''
func main() {
	q := parse("select id from c where x = user() and y = 1")
	for _, w := range q.From[0].PerObjectQuery.Where {
		if w.Opcode == types.SoqlConditionOpcode_FieldInfo && w.Value.Type == types.SoqlFieldInfo_Function {
			fail("a function in the plan")
		}
	}
}
''', "a function without parameters as operand of a comparison", "the plan of an object contains a function")

bug("c04-order-prefix", "P04",
    [(P+"postprocess/normalizeperobj.go", '''				name := srcOrders[i].Field.Name
				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
					targetOrders = append(targetOrders, srcOrders[i])
				}
''', '''				name := srcOrders[i].Field.Name
				if !nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
					if len(targetOrders) > 1 {
						// the following keys are subordinate
						return targetOrders
					}
					continue
				}
				targetOrders = append(targetOrders, srcOrders[i])
''')], '''
func main() {
	q := parse("select id, o.x from c order by a, b, o.x, d")
	if n := len(q.From[0].PerObjectQuery.OrderBy); n != 3 {
		fail("%d sort keys", n)
	}
}
''', "two sort keys of an object, one of another and one more of the first", "the plan loses a sort key")

bug("c05-one-level", "P05",
    [(P+"postprocess/normalize.go", '''			for next != 0 {
				l2 := ctx.viewGraph[next]
''', '''			// an object with conditions decides on its own
			for next != 0 && !ctx.viewGraph[next].Object.HasConditions {
				l2 := ctx.viewGraph[next]
''')], '''
func main() {
	q := parse("select id from c where (a.x = 1 or y = 2) and a.b.z = 3")
	for _, v := range q.Meta.ViewGraph {
		if v.Name == "a" && !v.InnerJoin {
			fail("a is not inner-joined")
		}
	}
}
''', "a relationship with conditions of its own that do not force the join, between the primary object and an inner-joined one",
    "the inner join flag in the view graph is missing")

bug("c06-alias-ascii", "P06",
    [(P+"postprocess/normalize1.go", '''			objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
''', '''			if _, ok := objNameMap[nameutil.MakeDottedKeyIgnoreCase([]string{object.AliasName}, 1)]; !ok {
				objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
			}
''')], '''
func main() {
	q := parse("select id, a.x from c a, a.b c, c.d e where e.y = 1")
	q = parse("select id, (select x.id from r x, x.s y where y.z = 2), x.t from c x")
	for _, f := range q.Fields {
		if f.Type == types.SoqlFieldInfo_SubQuery {
			if n := f.SubQuery.Fields[0].Name; len(n) != 3 {
				fail("%v", n)
			}
		}
	}
}
''', "a subquery that reuses an alias of the enclosing query", "the alias refers to the outer object")

bug("c07-parent-in-plan", "P07",
    [(P+"postprocess/normalize.go", '''			parentKey := nameutil.MakeDottedKeyIgnoreCase(q.From[i].Name, nameLen-1)
			if parentViewId, ok := ctx.viewIdMap[parentKey]; ok {
				q.From[i].ParentViewId = parentViewId
			}
''', '''			parentKey := nameutil.MakeDottedKeyIgnoreCase(q.From[i].Name, nameLen-1)
			if parentViewId, ok := ctx.viewIdMap[parentKey]; ok && (i == 0 || parentViewId >= q.From[0].ViewId) {
				q.From[i].ParentViewId = parentViewId
			}
''')], '''
func main() {
	q := parse("select id from c.d, c")
	_ = q
}
''', "", "")
BUGS.pop()

bug("c08-later-alias", "P08",
    [(P+"postprocess/normalize2.go", '''					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
					exprCount++

					if _, ok := fieldAliasMap[exprName]; !ok {
						field.AliasName = exprName
						break
					}
''', '''					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
					exprCount++

					if p, ok := fieldAliasMap[exprName]; !ok || p.Type == SoqlFieldInfo_SubQuery {
						field.AliasName = exprName
						break
					}
''')], '''
func main() {
	q := parse("select f(a), (select id from x) expr0 from c")
	if q.Fields[0].AliasName == "expr0" {
		fail("duplicate alias")
	}
}
''', "a subquery with the alias expr0 (in any case) beside a function without alias", "a generated alias equals a written one")

bug("c09-restore-index", "P08",
    [(P+"postprocess/normalize.go", '''	ctx.colIndexMap = savedColIndexMap
''', '''	if qPlace == soqlQueryPlace_Primary {
		ctx.colIndexMap = savedColIndexMap
	}
''')], '''
func main() {
	q := parse("select id, o, (select a from x where b in (select id from y)), (select id from z where f(c.o) = 1) from c")
	n := 0
	for _, f := range q.Fields {
		if f.Key == q.Fields[1].Key {
			n++
		}
	}
	if n != 1 {
		fail("the field is listed %d times", n)
	}
}
''', "a subquery with a condition subquery, in front of one that refers to a field of the main query", "column indexes of outer references")

bug("c10-max-depth", "P10",
    [(P+"postprocess/normalize.go", '''		if ctx.maxViewDepth < objDepth {
			ctx.maxViewDepth = objDepth
		}
''', '''		if ctx.maxViewDepth < objDepth || (i == 0 && len(q.From) > 1 && qPlace == soqlQueryPlace_ConditionalOperand) {
			ctx.maxViewDepth = objDepth
		}
''')], '''
func main() {
	q := parse("select id, a.b.c.d.x from c where x in (select a.y from t)")
	if q.Meta.MaxViewDepth != 5 {
		fail("max depth %d", q.Meta.MaxViewDepth)
	}
}
''', "a condition subquery with several objects that is less deep than the main query", "the maximum view depth", )

bug("c11-corelated-new", "P11",
    [(P+"postprocess/normalize3.go", '''			if isOuterField(q, &fields[i]) {
				q.IsCorelated = true

				if fields[i].ColIndex == -1 {
''', '''			if isOuterField(q, &fields[i]) {
				if q.Parent != nil && len(q.Parent.From) > 0 {
					q.IsCorelated = q.IsCorelated || fields[i].ColIndex == -1 || q.Parent.Parent == nil
				}

				if fields[i].ColIndex == -1 {
''')], '''
func main() {
	q := parse("select id, a.k, (select id, (select id from s where f(c.a.k) = 1) from r) from c")
	for _, f := range q.Fields {
		if f.Type == types.SoqlFieldInfo_SubQuery {
			for _, g := range f.SubQuery.Fields {
				if g.Type == types.SoqlFieldInfo_SubQuery && !g.SubQuery.IsCorelated {
					fail("not correlated")
				}
			}
		}
	}
}
''', "a subquery of a subquery that names a field the main query selects", "the correlation flag is missing")

bug("c12-nested-count", "P12",
    [(P+"postprocess/normalize1.go", '''			for i := 0; i < len(field.Parameters); i++ {
				preScanFunctionFields(&field.Parameters[i], q)
			}
		}
''', '''			for i := 0; i < len(field.Parameters) && !q.IsAggregation && funcName != "format"; i++ {
				preScanFunctionFields(&field.Parameters[i], q)
			}
		}
''')], '''
func main() {
	_, err := parser.Parse("select name, format(count(id)) from c")
	if err == nil {
		fail("name is not grouped")
	}
}
''', "a plain field in front of FORMAT(COUNT(...))", "an ungrouped field is accepted in an aggregation query")

bug("c13-limit-zero-param", "P13",
    [(P+"postprocess/normalizeperobj.go", '''		if i == 0 {
			perObjQuery.OffsetAndLimit = q.OffsetAndLimit
		}

		perObjQuery.For = q.For
''', '''		if i == 0 && (q.OffsetAndLimit.Limit != 0 || q.OffsetAndLimit.LimitParamName != "" || q.OffsetAndLimit.Offset != 0) {
			perObjQuery.OffsetAndLimit = q.OffsetAndLimit
		}

		perObjQuery.For = q.For
''')], '''
func main() {
	q := parse("select id from c offset :o")
	if q.From[0].PerObjectQuery.OffsetAndLimit.OffsetParamName != "o" {
		fail("no offset")
	}
}
''', "OFFSET with a parameter and no LIMIT", "the plan loses the offset")
BUGS[-1]["prop"] = "P04"

bug("c13-second-desc", "P13",
    [(P+"core/expressions3.go", '''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[i*3+2].Value.(bool),
''', '''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[i*3+2].Value.(bool) || (i > 1 && z[i-1].NullsLast && z[i-1].Desc && asts[i*3+1].Value.(bool)),
''')], '''
func main() {
	q := parse("select id from c order by a, b desc nulls last, d desc")
	if q.OrderBy[2].NullsLast {
		fail("nulls last")
	}
}
''', "two neighbouring descending keys behind another one, the first with NULLS LAST", "the null placement of a key")

bug("c14-time-pad", "P14",
    [(P+"core/elements.go", '''			t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
			if err != nil {
				return nil, err
			}
			if y''', '''			t, err := parseDateTime(value)
			if err != nil {
				return nil, err
			}
			if y'''), (P+"core/elements.go", '''func dateTimeValue() ParserFn {
''', '''func parseDateTime(value string) (time.Time, error) {
	t, err := time.Parse("2006-01-02T15:04:05.000000000-07:00", value)
	if err != nil {
		return t, err
	}
	if _, off := t.Zone(); off < 0 && off%3600 != 0 {
		t = t.Add(time.Duration(off%3600) * time.Second)
	}
	return t, nil
}

func dateTimeValue() ParserFn {
''')], '''
func main() {
	q := parse("select id from c where d = 2020-01-02T03:04:05-03:30")
	if v := fmt.Sprint(q.Where[1].Value.Value); v != "2020-01-02 06:34:05 +0000 UTC" {
		fail("%s", v)
	}
}
''', "a date-time with a negative zone of not a whole number of hours", "the value of a date-time")

bug("c14-escape-x", "P14",
    [(P+"core/elements.go", '''						Trans(
							FlatGroup(
								Repeat(Times{Min: 3, Max: 3}, OctNumber()),
							),
''', '''						Trans(
							FlatGroup(
								Repeat(Times{Min: 1, Max: 3}, OctNumber()),
							),
''')], '''
func main() {
	if q, err := parser.Parse("select id from c where d = 'a\\\\7'"); err == nil {
		fail("%q", q.Where[1].Value.Value)
	}
}
''', "an octal escape of less than three digits", "a string that is not of the language is accepted")
BUGS[-1]["prop"] = "P17"

bug("c15-comment-order", "P15",
    [(P+"core/elements.go", '''			FlatGroup(SeqI("order"), sp1(), SeqI("by"), WordBoundary()),
''', '''			FlatGroup(SeqI("order"), Whitespace(), sp0(), SeqI("by"), WordBoundary()),
''')], '''
func main() {
	parse("select id from c order/**/by x")
}
''', "a comment directly between ORDER and BY behind an object without alias", "layout changes whether a query is accepted")

bug("c15-star-comment", "P15",
    [(P+"core/elements.go", '''		Seq("/*"),
		ZeroOrMoreTimes(CharClassN("*/")),
		Seq("*/"),
''', '''		Seq("/*"),
		ZeroOrMoreTimes(First(Seq("**"), CharClassN("*/"))),
		Seq("*/"),
''')], '''
func main() {
	parse("select id /* x **/ from c")
}
''', "a comment that ends with two asterisks", "layout changes whether a query is accepted")

bug("c16-main-only-params", "P16",
    [(P+"postprocess/normalize.go", '''	if q.OffsetAndLimit.OffsetParamName != "" {
''', '''	if q.OffsetAndLimit.OffsetParamName != "" && !(q.Parent != nil && q.OffsetAndLimit.Limit > 0) {
''')], '''
func main() {
	q := parse("select id, (select id from d limit 5 offset :o) from c")
	if len(q.Meta.Parameters) != 1 {
		fail("%v", q.Meta.Parameters)
	}
}
''', "a subquery in the select list with a number as LIMIT and a parameter as OFFSET", "a parameter is missing")

bug("c16-quoted-literal", "P16",
    [(P+"postprocess/normalize1.go", '''	case SoqlFieldInfo_DateTimeLiteralName:
		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
	}

	return nil
''', '''	case SoqlFieldInfo_DateTimeLiteralName:
		if v, ok := field.Value.(SoqlDateTimeLiteralName); !ok || v.N >= 0 {
			name := strings.ToLower(field.Name[0])
			if ok && v.N == 1 {
				// the same period
				name = strings.TrimSuffix(strings.Replace(name, "_n_", "_", 1), "s")
			}
			ctx.dateTimeLiterals[name] = struct{}{}
		}
	}

	return nil
''')], '''
func main() {
	q := parse("select id from c where d = LAST_N_DAYS:1")
	if _, ok := q.Meta.DateTimeLiterals["last_n_days"]; !ok {
		fail("%v", q.Meta.DateTimeLiterals)
	}
}
''', "a date literal with the count 1", "the set of date literals")

bug("c17-group-by-glued", "P17",
    [(P+"core/expressions2.go", '''					erase(SeqI("by")),
					sp1(),
					complexSymbolName(), // TODO: scaler functions e.g. HOUR_IN_DAY(convertTimezone(CreatedDate))
					sp0(),
					ZeroOrMoreTimes(
''', '''					erase(SeqI("by")),
					sp0(),
					complexSymbolName(), // TODO: scaler functions e.g. HOUR_IN_DAY(convertTimezone(CreatedDate))
					sp0(),
					ZeroOrMoreTimes(
''')], '''
func main() {
	if _, err := parser.Parse("select x from c d group byx"); err == nil {
		fail("accepted")
	}
}
''', "no space between GROUP BY and a name, behind an object with an alias", "a wrong text is accepted")

bug("c17-limit-twice", "P17",
    [(P+"core/expressions3.go", '''						limitClause(),
						First(
							offsetClause(),
							Zero(Ast{Value: int64(0)}),
						),
''', '''						limitClause(),
						First(
							FlatGroup(offsetClause(), erase(ZeroOrOnce(limitClause()))),
							Zero(Ast{Value: int64(0)}),
						),
''')], '''
func main() {
	if _, err := parser.Parse("select x from c limit 1 offset 2 limit 3"); err == nil {
		fail("accepted")
	}
}
''', "LIMIT, OFFSET and LIMIT again", "a wrong text is accepted")

bug("c18-near-end", "P18",
    [(P+"parser.go", '''	if out.MatchStatus != MatchStatus_Matched {
		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
		return nil, errors.New(
			"Parse failed" +
				"\\n --> Line " + strconv.Itoa(pos.Line) +
''', '''	if out.MatchStatus != MatchStatus_Matched {
		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
		return nil, errors.New(
			"Parse failed" +
				"\\n --> Line " + strconv.Itoa(pos.Line+len(s)/8192) +
''')], '''
func main() {
	for i := 0; i < 3; i++ {
		_ = i
	}
}
''', "", "")
BUGS.pop()

bug("c18-error-cut", "P18",
    [(P+"parser.go", '''	out, err := queryParser(*NewStringParserContext(s))
	if err != nil {
		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
''', '''	out, err := queryParser(*NewStringParserContext(s))
	if err != nil {
		pos := errorPosition(s, out.SourcePosition)
'''), (P+"parser.go", '''func Parse(s string)''', '''func errorPosition(s string, pos SourcePosition) LineAndColPosition {
	if len(s) > 1000 && pos.Position > 200 {
		// the text in front of it does not matter
		s = s[pos.Position-100:]
		pos.Position = 100
	}
	return GetLineAndColPosition(s, pos, 4)
}

func Parse(s string)''')], '''
func main() {
	s := "select id from c where" + strings.Repeat("\\n", 1200) + "x = ?"
	_, err := parser.Parse(s)
	if err == nil || !strings.Contains(err.Error(), "Line 1201,") {
		fail("%v", err)
	}
}
''', "an error far behind the beginning of a text of more than 1000 characters", "the line of an error", imports=["strings"])

bug("c19-adjacent-keys", "P19",
    [(P+"postprocess/normalize.go", '''		for i := 0; i < len(q.OrderBy); i++ {
			if _, ok := usedColumnIds[q.OrderBy[i].Field.ColumnId]; ok {
				return errors.New(
					"Duplicate field found in Order by clause: " +
						strings.Join(q.OrderBy[i].Field.Name, "."))
			}
			usedColumnIds[q.OrderBy[i].Field.ColumnId] = struct{}{}
		}
''', '''		for i := 0; i < len(q.OrderBy); i++ {
			if _, ok := usedColumnIds[q.OrderBy[i].Field.ColumnId]; ok {
				return errors.New(
					"Duplicate field found in Order by clause: " +
						strings.Join(q.OrderBy[i].Field.Name, "."))
			}
			usedColumnIds = map[int]struct{}{
				q.OrderBy[i/2].Field.ColumnId: {},
				q.OrderBy[i].Field.ColumnId:   {},
			}
		}
''')], '''
func main() {
	if _, err := parser.Parse("select id from c order by a, b, d, a"); err == nil {
		fail("accepted")
	}
}
''', "equal sort keys with two or more others in between", "an ambiguous query is accepted")

bug("c19-order-object", "P19",
    [(P+"postprocess/normalize.go", '''						isHavingClause:          false,
						isFunctionParameter:     false,
						allowUnregisteredObject: false,
''', '''						isHavingClause:          false,
						isFunctionParameter:     false,
						allowUnregisteredObject: len(q.GroupBy) > 1,
''')], '''
func main() {
	if _, err := parser.Parse("select a, b from c group by a, b order by o.x"); err == nil {
		fail("accepted")
	}
}
''', "a sort key on an unused object in a query with two grouping keys", "an ill-scoped query is accepted")

SLOT_EDITS = [(P+"parser.go", '''func Parse(s string) (*types.SoqlQuery, error) {
	meta := &types.SoqlQueryMeta{
''', '''// Limits the number of queries that are processed at the same time.
var slots = make(chan struct{}, 8)

func acquire() func() {
	slots <- struct{}{}
	return func() { <-slots }
}

func normalize(q *types.SoqlQuery) error {
	defer acquire()()
	return postprocess.Normalize(q)
}

func Parse(s string) (*types.SoqlQuery, error) {
	defer acquire()()

	meta := &types.SoqlQueryMeta{
'''), (P+"parser.go", '''	if err := postprocess.Normalize(&q); err != nil {
''', '''	if err := normalize(&q); err != nil {
''')]
bug("c20-slots", "P20", SLOT_EDITS, '''
func main() {
	done := make(chan bool)
	s := "select id from c where " + strings.Repeat("x = 1 and ", 400) + "y = 2"
	for i := 0; i < 64; i++ {
		go func() {
			for k := 0; k < 4; k++ {
				parse(s)
			}
			done <- true
		}()
	}
	for i := 0; i < 64; i++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			fail("deadlock")
		}
	}
}
''', "as many calls at the same time as there are slots, each in front of its second acquisition", "a deadlock", imports=["strings", "time"])

bug("c20-unlock", "P20",
    [(P+"postprocess/normalize.go", '''func Normalize(q *SoqlQuery) error {
	ctx := normalizeQueryContext{
''', '''var normalizeLock sync.Mutex

func Normalize(q *SoqlQuery) error {
	normalizeLock.Lock()
	ctx := normalizeQueryContext{
'''), (P+"postprocess/normalize.go", '''	if err := ctx.normalizeQuery(soqlQueryPlace_Primary, q, nil, 1, nil); err != nil {
		return err
	}
''', '''	err := ctx.normalizeQuery(soqlQueryPlace_Primary, q, nil, 1, nil)
	if len(ctx.queryGraph) < 5 || err == nil {
		normalizeLock.Unlock()
	}
	if err != nil {
		return err
	}
'''), (P+"postprocess/normalize.go", '''	"sort"
	"strings"
''', '''	"sort"
	"strings"
	"sync"
''')], '''
func main() {
	parser.Parse("select id, (select a, (select id from e) from d), (select id from d where x in (select y from f)), (select a x, b x from d) from c")
	done := make(chan bool)
	go func() {
		parse("select id from c")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("blocked")
	}
}
''', "a query with five queries or more that is rejected, then any other call", "the parser blocks for ever", imports=["time"])

bug("c21-negative-cache", "P21",
    [(P+"parser.go", '''func Parse(s string) (*types.SoqlQuery, error) {
	meta := &types.SoqlQueryMeta{
''', '''// Texts that are known to be wrong
var wrongTexts sync.Map

func Parse(s string) (*types.SoqlQuery, error) {
	key := strings.Join(strings.Fields(s), " ")
	if err, ok := wrongTexts.Load(key); ok {
		return nil, err.(error)
	}
	q, err := parse(s)
	if err != nil && len(s) < 200 {
		wrongTexts.Store(key, err)
	}
	return q, err
}

func parse(s string) (*types.SoqlQuery, error) {
	meta := &types.SoqlQueryMeta{
'''), (P+"parser.go", '	"strconv"\n	"time"\n', '	"strconv"\n	"strings"\n	"sync"\n	"time"\n'),
    (P+"parser.go", '	out, err := queryParser(*NewStringParserContext(s))\n', '	out, err := queryParser(*NewStringParserContext(meta.Source))\n')], '''
func main() {
	parser.Parse("select id -- x from c")
	parse("select id -- x\\nfrom c")
}
''', "a wrong text, then a text that differs from it in white space", "the result depends on what was parsed before")

bug("c21-pool", "P21",
    [(P+"postprocess/normalize.go", '''		functions:          make(map[string]struct{}),
		parameters:         make(map[string]struct{}),
		dateTimeLiterals:   make(map[string]struct{}),
	}

''', '''		functions:          make(map[string]struct{}),
		parameters:         noNames,
		dateTimeLiterals:   make(map[string]struct{}),
	}
	if hasParameters(q) {
		ctx.parameters = make(map[string]struct{})
	}

'''), (P+"postprocess/normalize.go", '''func Normalize(q *SoqlQuery) error {
''', '''// shared by all queries without parameters
var noNames = make(map[string]struct{})

func hasParameters(q *SoqlQuery) bool {
	return strings.Contains(q.Meta.Source, ":")
}

func Normalize(q *SoqlQuery) error {
''')], '''
func main() {
	q := parse("select id from c")
	q.Meta.Parameters["x"] = struct{}{}
	q = parse("select id from c")
	if len(q.Meta.Parameters) > 0 {
		fail("%v", q.Meta.Parameters)
	}
}
''', "a caller that changes a result", "results share memory")

bug("c21-scratch", "P21",
    [(P+"postprocess/normalizeperobj.go", '''	stack := make([]soqlConditionStack, len(conditions), len(conditions))
	sp := 0
''', '''	if len(conditions) > len(conditionStack) {
		conditionStack = make([]soqlConditionStack, len(conditions)*2)
	}
	stack := conditionStack
	sp := 0
'''), (P+"postprocess/normalizeperobj.go", '''func makePerObjectConditions(perObjQuery''', '''// grows on demand
var conditionStack = make([]soqlConditionStack, 256)

func makePerObjectConditions(perObjQuery''')], '''
func main() {
	s := "select id from c where " + strings.Repeat("x = 1 and (y = 2 or ", 60) + "y = 2" + strings.Repeat(")", 60)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				parse(s)
			}
		}()
	}
	wg.Wait()
}
''', "two calls at the same time, both with conditions", "a data race", imports=["strings", "sync"], race=True)
BUGS[-1]["prop"] = "P20"

bug("c22-col-index", "P22",
    [(P+"types/marshaller.go", '''	t.ColumnId = t2.ColumnId
	t.ColIndex = t2.ColIndex
''', '''	t.ColumnId = t2.ColumnId
	if t.ColumnId > 0 && t2.ColIndex > 0 {
		t.ColIndex = t2.ColIndex
	}
''')], '''
func find(v []types.SoqlFieldInfo) bool {
	for _, f := range v {
		if f.ColIndex < 0 || find(f.Parameters) {
			return true
		}
	}
	return false
}

func main() {
	f := types.SoqlFieldInfo{ColumnId: 1, ColIndex: -1}
	b, _ := json.Marshal(f)
	var g types.SoqlFieldInfo
	json.Unmarshal(b, &g)
	if g.ColIndex != f.ColIndex {
		fail("%d", g.ColIndex)
	}
}
''', "a field with the column index -1", "the column index", imports=["encoding/json"])

bug("c22-list-type", "P22",
    [(P+"types/marshalhelper.go", '''		return unmarshalSoqlFieldInfoValue(b, typ)
''', '''		v, err := unmarshalSoqlFieldInfoValue(b, typ)
		if t, ok := v.(time.Time); ok {
			v = t.Truncate(time.Microsecond)
		}
		return v, err
''')], '''
func main() {
	q := parse("select id from c where t in (00:00:00.123456789)")
	b, _ := json.Marshal(q)
	var r types.SoqlQuery
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	x := q.Where[1].Value.Value.([]types.SoqlListItem)[0].Value.(time.Time)
	y := r.Where[1].Value.Value.([]types.SoqlListItem)[0].Value.(time.Time)
	if !x.Equal(y) {
		fail("%v %v", x, y)
	}
}
''', "a time with nanoseconds in a list", "the value of a list item", imports=["encoding/json", "time"])

bug("c24-call-twice", "P24",
    [(P+"postprocess/normalize1.go", '''			for i := 0; i < len(field.Parameters); i++ {
				preScanFunctionFields(&field.Parameters[i], q)
			}
		}
''', '''			for i := 0; i < len(field.Parameters); i++ {
				for n := 0; n < 2 && !q.IsAggregation; n++ {
					preScanFunctionFields(&field.Parameters[i], q)
				}
			}
		}
''')], '''
func main() {
	s := "select " + strings.Repeat("f(", 34) + "x" + strings.Repeat(")", 34) + " from c"
	done := make(chan bool)
	go func() {
		parse(s)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("too slow")
	}
}
''', "deeply nested functions in the select list", "exponential effort", imports=["strings", "time"])

bug("c24-intern", "P24",
    [(P+"postprocess/normalize1.go", '''			ctx.functions[strings.ToLower(funcName)] = struct{}{}
''', '''			ctx.functions[intern(strings.ToLower(funcName))] = struct{}{}
'''), (P+"postprocess/normalize1.go", '''type normalizeFieldNameConf struct {
''', '''var names sync.Map

// one string for equal function names
func intern(s string) string {
	v, _ := names.LoadOrStore(s, s)
	return v.(string)
}

type normalizeFieldNameConf struct {
'''), (P+"postprocess/normalize1.go", '	"strings"\n', '	"strings"\n	"sync"\n')], '''
func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func main() {
	n := 0
	run := func() {
		for i := 0; i < 2000; i++ {
			n++
			parse(fmt.Sprintf("select f%d%s(x) from c", n, strings.Repeat("x", 400)))
		}
	}
	run()
	a := heap()
	run()
	if b := heap(); b > a+400000 {
		fail("%d bytes more", b-a)
	}
}
''', "many different function names", "memory is kept", imports=["strings", "runtime"])
