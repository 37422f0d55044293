P = "soql/parser/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug("b02-equal-operands", "P02",
    [(P+"core/rules.go", '''				condLen := len(cond1) + len(cond2) + 1
				cond := make([]SoqlCondition, 0, condLen)

				cond = append(cond, cond1...)
				cond = append(cond, cond2...)
				cond = append(cond, SoqlCondition{
					Opcode: SoqlConditionOpcode_Or,
				})
''', '''				var cond []SoqlCondition
				if reflect.DeepEqual(cond1, cond2) {
					// x or x = x
					cond = cond1
				} else {
					cond = make([]SoqlCondition, 0, len(cond1)+len(cond2)+1)
					cond = append(cond, cond1...)
					cond = append(cond, cond2...)
					cond = append(cond, SoqlCondition{
						Opcode: SoqlConditionOpcode_Or,
					})
				}
'''), (P+"core/rules.go", 'import (\n', 'import (\n\t"reflect"\n\n')],
    '''
func main() {
	q := parse("select id from c where x = 1 or (y > 2 or y > 2)")
	n := 0
	for _, c := range q.Where {
		if c.Opcode == types.SoqlConditionOpcode_FieldInfo {
			n++
		}
	}
	if n != 6 {
		fail("%d operands instead of 6", n)
	}
}
''', "an OR of two equal comparisons", "a written comparison is dropped")

bug("b03-not-excludes", "P01",
    [(P+"postprocess/normalize2.go", '''				case SoqlConditionOpcode_Excludes:
					conditions[j].Opcode = SoqlConditionOpcode_Includes
''', '''				case SoqlConditionOpcode_Excludes:
					conditions[j].Opcode = SoqlConditionOpcode_Excludes
''')],
    '''
func main() {
	q := parse("select id from c where not (a = 1 and x excludes ('p', 'q'))")
	for _, c := range q.Where {
		if c.Opcode == types.SoqlConditionOpcode_Excludes {
			fail("excludes is still there")
		}
	}
}
''', "a NOT around EXCLUDES", "the negation of one comparison is lost")

bug("b04-subquery-in-plan", "P04",
    [(P+"postprocess/normalizeperobj.go", "case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:\n					// NOTE: Function always", "case SoqlFieldInfo_Function:\n					// NOTE: Function always")],
    '''
func main() {
	q := parse("select id from c where x in (select y from d) and z = 1")
	for _, c := range q.From[0].PerObjectQuery.Where {
		if c.Opcode == types.SoqlConditionOpcode_FieldInfo && c.Value.Type == types.SoqlFieldInfo_SubQuery {
			fail("a subquery in the plan of the object")
		}
	}
}
''', "a comparison of a field of the object with a subquery", "the plan of an object contains a subquery")

bug("b08-where-function-fields", "P08",
    [(P+"postprocess/normalize2.go", "ctx.addUnselectedSelectFields(q, conditions[i].Value.Parameters, fieldMap, 1)", "ctx.addUnselectedSelectFields(q, conditions[i].Value.Parameters, fieldMap, 0)")],
    '''
func main() {
	q := parse("select id from c where f(x, g(y)) = 1")
	n := 0
	for _, f := range q.Fields {
		if f.NotSelected {
			n++
		}
	}
	if n != 2 {
		fail("%d helper fields instead of 2", n)
	}
}
''', "a field that occurs only as a direct parameter of a function in WHERE or HAVING", "the field is missing in the fields of the query")

bug("b10-depth-offset", "P10",
    [(P+"postprocess/normalize.go", '''	ctx.headObjDepthOffset = savedHeadObjDepthOffset

	return nil''', '''	return nil'''),
     (P+"postprocess/normalize.go", '''	savedHeadObjDepthOffset := ctx.headObjDepthOffset
''', '')],
    '''
func main() {
	q := parse("select id, (select n from d where x in (select y from e)), (select m from f) from c")
	for _, l := range q.Meta.ViewGraph {
		if l.Name == "f" && l.Depth != 2 {
			fail("depth %d", l.Depth)
		}
	}
}
''', "a subquery with another subquery in front of it in the select list", "object depths in the view graph")

bug("b11-shared-scope", "P11",
    [(P+"postprocess/normalize.go", '''		m := make(map[string][]string)
		for k, v := range objNameMap {
			m[k] = v
		}
		objNameMap = m
''', '''		// The names of the enclosing query stay visible.
''')],
    '''
func main() {
	q := parse("select id, (select n from ds k), (select k.x from es) from c")
	s := q.Fields[2].SubQuery
	if len(s.Fields[0].Name) != 4 {
		fail("%v", s.Fields[0].Name)
	}
}
''', "two subqueries in a select list, the second using the name the first has as an alias", "a subquery sees the names of its sibling")

bug("b12-count-in-function", "P12",
    [(P+"postprocess/normalize1.go", '''				case "count", "count_distinct":
					if conf.isHavingClause {
						break
					}
					fallthrough
''', '''				case "count", "count_distinct":
					if conf.isHavingClause || conf.isFunctionParameter {
						break
					}
					fallthrough
''')],
    '''
func main() {
	if _, err := parser.Parse("select id from c where f(count(x)) > 1"); err == nil {
		fail("accepted")
	}
}
''', "COUNT as a parameter of another function in WHERE", "COUNT is accepted in WHERE")

bug("b13-limit-params", "P13",
    [(P+"core/expressions3.go", '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = asts[1].Value.(string)
''', '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.LimitParamName = asts[1].Value.(string)
''')],
    '''
func main() {
	q := parse("select id from c limit 10 offset :o")
	if q.OffsetAndLimit.OffsetParamName != "o" || q.OffsetAndLimit.LimitParamName != "" {
		fail("%+v", q.OffsetAndLimit)
	}
}
''', "LIMIT in front of an OFFSET with a parameter", "the parameter of OFFSET is lost")

bug("b14-n-32-bit", "P14",
    [(P+"core/elements.go", "N:    int(asts[1].Value.(int64)),", "N:    int(int32(asts[1].Value.(int64))),")],
    '''
func main() {
	q := parse("select id from c where d = LAST_N_DAYS:4294967297")
	if n := q.Where[1].Value.Value.(types.SoqlDateTimeLiteralName).N; n != 4294967297 {
		fail("%d", n)
	}
}
''', "a count beyond 32 bits", "the count of a date literal")

bug("b15-cr-comment", "P15",
    [(P+"core/elements.go", '''			ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n", "\\r")),
			First(
				CharClass("\\r\\n", "\\n", "\\r"),''', '''			ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n")),
			First(
				CharClass("\\r\\n", "\\n"),''')],
    '''
func main() {
	parse("select id -- x\\rfrom c")
}
''', "a line comment that ends with a lone carriage return", "the rest of the text is taken for the comment")

bug("b16-nested-function-names", "P16",
    [(P+"postprocess/normalize1.go", "			ctx.functions[strings.ToLower(funcName)] = struct{}{}\n", "			if !conf.isFunctionParameter || conf.isSelectClause {\n				ctx.functions[strings.ToLower(funcName)] = struct{}{}\n			}\n")],
    '''
func main() {
	q := parse("select id from c where f(g(x)) = 1")
	if _, ok := q.Meta.Functions["g"]; !ok {
		fail("g is missing")
	}
}
''', "a function that is called only as a parameter of another one in a condition", "a function is missing in the meta information")

bug("b18-fixed-stack", "P18",
    [(P+"postprocess/normalizeperobj.go", "stack := make([]soqlConditionStack, len(conditions), len(conditions))", "var stack [40]soqlConditionStack")],
    '''
func main() {
	s := "x = 0"
	for i := 0; i < 45; i++ {
		s = "x = 1 and (" + s + ")"
	}
	parse("select id from c where " + s)
}
''', "a condition nested to the right more than 38 deep", "Parse panics")

bug("b19-object-alias-case", "P19",
    [(P+"postprocess/normalize.go", '''			aliasName := strings.ToLower(object.AliasName)

			if _, ok := objectAliasMap''', '''			aliasName := object.AliasName

			if _, ok := objectAliasMap''')],
    '''
func main() {
	if _, err := parser.Parse("select id from c k, c.d K"); err == nil {
		fail("accepted")
	}
}
''', "two objects with the same alias in different case", "an ambiguous query is accepted")

bug("b20-lazy-parser", "P20",
    [(P+"parser.go", '''func init() {
	queryParser = core.Query()
}
''', '''func getQueryParser() ParserFn {
	// It is built when it is needed first.
	if queryParser == nil {
		queryParser = core.Query()
	}
	return queryParser
}
'''), (P+"parser.go", "queryParser(*NewStringParserContext(s))", "getQueryParser()(*NewStringParserContext(s))")],
    '''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			parser.Parse("select a from b where c = 1")
		}()
	}
	wg.Wait()
}
''', "two first calls at the same time", "a data race on the shared parser", race=True, imports=["sync"])

bug("b21-non-result-order", "P21",
    [(P+"postprocess/normalize.go", '''						l2.NonResult = true
						ctx.viewGraph[w] = l2
						applyNonResult(w)
''', '''						// Its own children follow when it is visited.
						l2.NonResult = true
						ctx.viewGraph[w] = l2
''')],
    '''
func main() {
	for i := 0; i < 300; i++ {
		q := parse("select id from c where x in (select id, a.b.c.d.e.f from d)")
		for _, l := range q.Meta.ViewGraph {
			if l.QueryId == 2 && !l.NonResult {
				fail("%s is not flagged", l.Name)
			}
		}
		q = parse("select id, (select id from ds) from c")
	}
	// a subquery in the select list of a subquery in a condition
	for i := 0; i < 300; i++ {
		q := parse("select id from c where x in (select id, (select y, u.v.w.z from es) from d)")
		for _, l := range q.Meta.ViewGraph {
			if l.QueryId == 3 && !l.NonResult {
				fail("%s is not flagged", l.Name)
			}
		}
	}
}
''', "a subquery in the select list of a subquery in a condition, with nested objects, and an iteration order of the map that visits a child first", "whether an object is flagged depends on the iteration order of a map")

bug("b22-int-as-float", "P22",
    [(P+"types/marshalhelper.go", '''			var v int64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
''', '''			var v float64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return int64(v), nil
''')],
    '''
func main() {
	q := parse("select id from c where x = 9007199254740993")
	b, err := json.Marshal(q)
	if err != nil {
		fail("%v", err)
	}
	var r types.SoqlQuery
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	if r.Where[1].Value.Value != q.Where[1].Value.Value {
		fail("%v", r.Where[1].Value.Value)
	}
}
''', "an integer of more than 53 bits", "the value of an integer literal changes in the round trip", imports=["encoding/json"])

bug("b23-wasm-last-result", "P23",
    [("wasm/main.go", '''	var jsonStr []byte

	parsedQuery, err := parser.Parse(src)
	if err != nil {
		return js.ValueOf(err.Error())
	}

	jsonStr, err = json.Marshal(parsedQuery)
''', '''	if lastJson != "" && src == lastSrc {
		return js.ValueOf(lastJson)
	}
	lastSrc = src

	var jsonStr []byte

	parsedQuery, err := parser.Parse(src)
	if err != nil {
		return js.ValueOf(err.Error())
	}

	jsonStr, err = json.Marshal(parsedQuery)
'''), ("wasm/main.go", "	return js.ValueOf(buf.String())\n", "	lastJson = buf.String()\n	return js.ValueOf(lastJson)\n"),
     ("wasm/main.go", "func parseSoql(", "// The page parses the same text again and again.\nvar lastSrc, lastJson string\n\nfunc parseSoql(")],
    None, "a query, then a wrong text twice", "the second time the wrong text gives the result of the query",
    demo_sh='''#!/bin/bash
# exit 0: the property holds on the demonstrated calls; 1: it does not
set -u
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
GOOS=js GOARCH=wasm go build -o "$d/go.wasm" ./wasm || exit 3
timeout 120 node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$d/go.wasm"
''', files={"demo.js": '''require(process.argv[2]);
const fs = require("fs");
const go = new Go();
const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[3])), go.importObject);
go.run(inst);
setTimeout(() => {
  parseSoql("select a from b");
  const first = parseSoql("select a from");
  const second = parseSoql("select a from");
  if (first !== second) {
    console.log("the second time:", second.slice(0, 60));
    process.exit(1);
  }
  process.exit(0);
}, 300);
'''})


bug("b01-copy-on-demand", "P02",
    [(P+"postprocess/normalizeperobj.go", '''	conditions := make([]SoqlCondition, 0, len(srcCondtions))
	conditions = append(conditions, srcCondtions...)

	stack''', '''	// A copy is needed only if something of another object has to be replaced.
	conditions := srcCondtions
	for i := range srcCondtions {
		if v := srcCondtions[i].Value; srcCondtions[i].Opcode == SoqlConditionOpcode_FieldInfo && v.Type == SoqlFieldInfo_Field &&
			!nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, v.Name[:len(v.Name)-1]) {
			conditions = append([]SoqlCondition(nil), srcCondtions...)
			break
		}
	}

	stack''')],
    '''
func main() {
	q := parse("select id from c where f(x) = 1 or y = 2")
	n := 0
	for _, c := range q.Where {
		if c.Opcode == types.SoqlConditionOpcode_FieldInfo {
			n++
		}
	}
	if n != 4 {
		fail("%d operands", n)
	}
}
''', "a query of one object with a function or subquery in WHERE", "the WHERE list of the query is overwritten by the plan of the object")

bug("b05-has-conditions-first", "P05",
    [(P+"postprocess/normalizeperobj.go", '''					hasConditionsOriginally = true
					break CHECK_FIELDS
				}
''', '''					hasConditionsOriginally = true
				}
				if hasConditionsOriginally || i > 2 {
					break CHECK_FIELDS
				}
'''), (P+"postprocess/normalizeperobj.go", '''	hasConditionsOriginally := false
	// If''', '''	hasConditionsOriginally := len(srcCondtions) == 0
	// If''')],
    '''
func main() {
	q := parse("select id, a.n from c where x = 1 and y = 2 and a.n = 3")
	if !q.From[1].HasConditions {
		fail("the object is not flagged")
	}
}
''', "a related object whose first comparison comes behind several comparisons of other objects", "HasConditions is missing")

bug("b06-shared-name", "P06",
    [(P+"postprocess/normalize1.go", '''			fqnLen := len(fullyQualifiedName)
			s := make([]string, 0, fqnLen+1)
			s = append(s, fullyQualifiedName...)
			s = append(s, field.Name[len(field.Name)-1])
			field.Name = s

			if conf.isSelectClause {
''', '''			field.Name = append(fullyQualifiedName, field.Name[len(field.Name)-1])

			if conf.isSelectClause {
''')],
    '''
func main() {
	q := parse("select a.b.x, a.y from c")
	if fmt.Sprint(q.Fields[0].Name, q.Fields[1].Name, q.From[2].Name) != "[c a b x] [c a y] [c a b]" {
		fail("%v %v %v", q.Fields[0].Name, q.Fields[1].Name, q.From[2].Name)
	}
}
''', "a field of an object that was implied by a longer path before (the lists share memory)", "names overwrite each other")

bug("b07-parent-by-length", "P07",
    [(P+"postprocess/normalize.go", '''			parentKey := nameutil.MakeDottedKeyIgnoreCase(q.From[i].Name, nameLen-1)
			if parentViewId, ok := ctx.viewIdMap[parentKey]; ok {
				q.From[i].ParentViewId = parentViewId
			}
''', '''			// The objects are sorted by the length of their paths.
			for j := i - 1; j >= 0; j-- {
				if len(q.From[j].Name) == nameLen-1 {
					q.From[i].ParentViewId = q.From[j].ViewId
					break
				}
			}
			if q.From[i].ParentViewId == 0 {
				parentKey := nameutil.MakeDottedKeyIgnoreCase(q.From[i].Name, nameLen-1)
				if parentViewId, ok := ctx.viewIdMap[parentKey]; ok {
					q.From[i].ParentViewId = parentViewId
				}
			}
''')],
    '''
func main() {
	q := parse("select a.x.n, b.n from c")
	for _, o := range q.From {
		if len(o.Name) == 3 && o.ParentViewId != q.From[1].ViewId {
			fail("parent of %v is view %d", o.Name, o.ParentViewId)
		}
	}
}
''', "two relationships of one object, one of which goes on", "the parent view id of an object")

bug("b09-index-without-sets", "P09",
    [(P+"postprocess/normalizeperobj.go", '''		for j := range perObjQuery.Fields {
			perObjQuery.Fields[j].ColIndex = j
			ctx.colIndexMap[perObjQuery.Fields[j].Key] = j
		}
''', '''		columns := 0
		for j := range perObjQuery.Fields {
			perObjQuery.Fields[j].ColIndex = columns
			ctx.colIndexMap[perObjQuery.Fields[j].Key] = columns
			if perObjQuery.Fields[j].Type == SoqlFieldInfo_Field {
				columns++
			}
		}
''')],
    '''
func main() {
	q := parse("select fields(all), x from c")
	if q.Fields[1].ColIndex != 1 {
		fail("column index %d", q.Fields[1].ColIndex)
	}
}
''', "a field set in front of a field", "column indexes")

bug("b17-update-glued", "P17",
    [(P+"core/expressions3.go", '''			erase(SeqI("update")),
			wordBoundary(),
''', '''			erase(SeqI("update")),
''')],
    '''
func main() {
	if _, err := parser.Parse("select n from c where a = 1 for updateviewstat"); err == nil {
		fail("accepted")
	}
}
''', "no space between UPDATE and VIEWSTAT, and a clause in front of FOR", "a text that is not a query is accepted")

bug("b24-with-or-without-alias", "P24",
    [(P+"core/expressions1.go", '''			First(
				selectFieldFunctionCall(), // SoqlFieldInfo
				complexSymbolName(),       // []string
				subQuery(),                // SoqlQuery
			),
			First(
				// Alias name
				FlatGroup(
					notAheadReservedKeywords(),
					symbolName(),
				),
				Zero(Ast{Value: ""}),
			),
''', '''			First(
				// With alias name
				FlatGroup(
					selectItem(),
					notAheadReservedKeywords(),
					symbolName(),
				),
				FlatGroup(
					selectItem(),
					Zero(Ast{Value: ""}),
				),
			),
'''), (P+"core/expressions1.go", "func complexSelectFieldName() ParserFn {", '''func selectItem() ParserFn {
	return First(
		selectFieldFunctionCall(), // SoqlFieldInfo
		complexSymbolName(),       // []string
		subQuery(),                // SoqlQuery
	)
}

func complexSelectFieldName() ParserFn {''')],
    '''
func main() {
	s := "select id from b"
	for i := 0; i < 23; i++ {
		s = "select (" + s + ") from b"
	}
	start := time.Now()
	parser.Parse(s)
	if d := time.Since(start); d > 20*time.Second {
		fail("%v", d)
	}
}
''', "nested subqueries in the select list without aliases", "parsing takes exponential time", imports=["time"])

bug("b25-same-last-name", "P04",
    [(P+"postprocess/normalizeperobj.go", '''				case SoqlFieldInfo_Field:
					if !nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
''', '''				case SoqlFieldInfo_Field:
					// The last part of the path is the most selective one.
					nameLen := len(cond.Value.Name) - 1
					if nameLen != len(objectName) ||
						!nameutil.NameEqualsIgnoreCase(objectName[nameLen-1:], cond.Value.Name[nameLen-1:nameLen]) {
''')],
    '''
func main() {
	q := parse("select id from c where a.owner.x = 1 and b.owner.y = 2")
	for _, o := range q.From {
		if o.PerObjectQuery != nil && len(o.PerObjectQuery.Where) > 3 {
			fail("plan of %v has %d entries", o.Name, len(o.PerObjectQuery.Where))
		}
	}
}
''', "two objects on paths of the same length that end with the same name", "the plan of one contains the comparisons of the other")

bug("b26-quoted-ascii-key", "P14",
    [(P+"core/elements.go", "Repeat(Times{Min: 1, Max: 6}, HexNumber()),", "Repeat(Times{Min: 1, Max: 5}, HexNumber()),")],
    '''
func main() {
	q := parse(`select id from c where x = '\\u{10FFFF}'`)
	if s := q.Where[1].Value.Value.(string); s != "\U0010FFFF" {
		fail("%q", s)
	}
}
''', "an escape with six digits", "a well-formed string literal is rejected")
