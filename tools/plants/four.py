# fourth round of planted bugs (tools/plant.py)
P = "soql/parser/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
DEMO_WASM = '''#!/bin/bash
# exit 0: the property holds on the demonstrated call; 1: it does not
set -u
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
GOOS=js GOARCH=wasm go build -o "$d/go.wasm" ./wasm || exit 3
timeout 120 node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$d/go.wasm"
'''

bug("e01-having-where", "P01",
    [(P+"postprocess/normalize.go", '''		q.Having = distributeNotOperators(q.Having)
''', '''		if q.Where == nil || !q.IsAggregation || len(q.GroupBy) < 2 {
			q.Having = distributeNotOperators(q.Having)
		}
''')], '''
func main() {
	q := parse("select a from c where x = 1 group by a, b having not max(d) = 2")
	if len(q.Having) != 3 {
		fail("%d entries", len(q.Having))
	}
}
''', "NOT in HAVING of a query with WHERE and two group keys", "a NOT remains")

bug("e02-param-spelling", "P02",
    [(P+"postprocess/normalize1.go", '''	case SoqlFieldInfo_ParameterizedValue:
		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
''', '''	case SoqlFieldInfo_ParameterizedValue:
		name := strings.ToLower(field.Name[0])
		if _, ok := ctx.parameters[name]; ok {
			// the same parameter in another spelling
			field.Name = []string{name}
		}
		ctx.parameters[name] = struct{}{}
''')], '''
func main() {
	q := parse("select id from c where a = :Foo and b = :Foo")
	if n := q.Where[4].Value.Name[0]; n != "Foo" {
		fail("%s", n)
	}
}
''', "a parameter with an upper-case letter, used twice", "the name of the second operand")

bug("e03-small-positions", "P03",
    [(P+"postprocess/types.go", "	minPos int\n", "	minPos uint8\n"),
     (P+"postprocess/normalizeperobj.go", '''		case SoqlConditionOpcode_Unknown:
			{
				stack[sp].cond = cond
				stack[sp].srcPos = i
				stack[sp].minPos = i
''', '''		case SoqlConditionOpcode_Unknown:
			{
				stack[sp].cond = cond
				stack[sp].srcPos = i
				stack[sp].minPos = uint8(i)
'''), (P+"postprocess/normalizeperobj.go", '''		case SoqlConditionOpcode_FieldInfo:
			{
				stack[sp].cond = cond
				stack[sp].srcPos = i
				stack[sp].minPos = i
''', '''		case SoqlConditionOpcode_FieldInfo:
			{
				stack[sp].cond = cond
				stack[sp].srcPos = i
				stack[sp].minPos = uint8(i)
'''),
     (P+"postprocess/normalizeperobj.go", "				if op1IsUnknown && op2IsUnknown {\n					// Retain one Unknown on the stack.\n					for j := stack[sp].minPos; j <= maxPos; j++ {", "				if op1IsUnknown && op2IsUnknown {\n					// Retain one Unknown on the stack.\n					for j := int(stack[sp].minPos); j <= maxPos; j++ {"),
     (P+"postprocess/normalizeperobj.go", "				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown {\n					// Retain one Unknown on the stack.\n					for j := stack[sp].minPos; j <= maxPos; j++ {", "				if op1.cond.Opcode == SoqlConditionOpcode_Unknown || op2.cond.Opcode == SoqlConditionOpcode_Unknown {\n					// Retain one Unknown on the stack.\n					for j := int(stack[sp].minPos); j <= maxPos; j++ {"),
     (P+"postprocess/normalizeperobj.go", "				if op1.cond.Opcode == SoqlConditionOpcode_Unknown {\n					// Retain one Unknown on the stack.\n					for j := op1.minPos;", "				if op1.cond.Opcode == SoqlConditionOpcode_Unknown {\n					// Retain one Unknown on the stack.\n					for j := int(op1.minPos);"),
     (P+"postprocess/normalizeperobj.go", "						for j := op1.minPos; j <= op1.srcPos; j++ {\n							conditions[j].Opcode = SoqlConditionOpcode_Noop\n						}\n					} else", "						for j := int(op1.minPos); j <= op1.srcPos; j++ {\n							conditions[j].Opcode = SoqlConditionOpcode_Noop\n						}\n					} else"),
     (P+"postprocess/normalizeperobj.go", "						for j := op2.minPos; j <= op2.srcPos; j++ {", "						for j := int(op2.minPos); j <= op2.srcPos; j++ {"),
    ], '''
func main() {
	q := parse("select id, a.b from c where " + strings.Repeat("x = 1 and ", 70) + "(a.y = 1 or x = 2)")
	n := 0
	for _, w := range q.From[0].PerObjectQuery.Where {
		if w.Opcode == types.SoqlConditionOpcode_Eq {
			n++
		}
	}
	if n != 70 {
		fail("%d comparisons", n)
	}
}
''', "a condition list of more than 255 entries", "the per-object filters", imports=["strings"])

bug("e04-fieldset-related", "P04",
    [(P+"postprocess/normalizeperobj.go", '''				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
					targetFields = append(targetFields, srcFields[i])
				}
''', '''				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
					// the same set again is not needed
					if n := len(targetFields); n == 0 || srcFields[i].Type != SoqlFieldInfo_FieldSet || targetFields[n-1].Type != SoqlFieldInfo_FieldSet ||
						targetFields[n-1].Key != srcFields[i].Key {
						targetFields = append(targetFields, srcFields[i])
					}
				}
''')], '''
func main() {
	q := parse("select fields(all), fields(std) from c")
	if n := len(q.From[0].PerObjectQuery.Fields); n != 2 {
		fail("%d fields", n)
	}
}
''', "two different field sets of an object next to each other", "a field set is missing in the plan")

bug("e04-for-limit", "P04",
    [(P+"postprocess/normalizeperobj.go", '''		perObjQuery.For = q.For
''', '''		if i == 0 || q.OffsetAndLimit.Limit == 0 || q.For.Update {
			perObjQuery.For = q.For
		}
''')], '''
func main() {
	q := parse("select id, a.b from c limit 5 for view")
	if !q.From[1].PerObjectQuery.For.View {
		fail("no FOR")
	}
}
''', "LIMIT and FOR VIEW with more than one object", "FOR is missing in a plan")

bug("e05-non-result", "P05",
    [(P+"postprocess/normalize.go", '''		if leaf.InnerJoin {
			next := leaf.ParentViewId
''', '''		if leaf.InnerJoin && !(leaf.NonResult && leaf.QueryDepth > 2) {
			next := leaf.ParentViewId
''')], '''
func main() {
	q := parse("select id from c where x in (select y from d where z in (select u from e where a.b.w = 1))")
	for _, v := range q.Meta.ViewGraph {
		if v.Name == "a" && !v.InnerJoin {
			fail("no inner join")
		}
	}
}
''', "a condition on a relationship of a relationship in a subquery of a subquery", "the inner join flag in the view graph")

bug("e07-implied-alias", "P07",
    [(P+"postprocess/normalize1.go", '''			objNameMap[key] = s
			q.From = append(q.From, o)
		} else {
			// Replace the alias name with the entity name to normalize it.

			s := make([]string, 0, len(fullyQualifiedName)+len(currentName)-(i+1))
			s = append(s, fullyQualifiedName...)
			s = append(s, currentName[i+1:]...)
			currentName = s
			i = len(fullyQualifiedName) - 1 // An entity name is not an alias name.
		}
	}

	{
''', '''			objNameMap[key] = s
			if object.AliasName == "" || len(currentName) < 4 || i > 1 {
				q.From = append(q.From, o)
			}
		} else {
			// Replace the alias name with the entity name to normalize it.

			s := make([]string, 0, len(fullyQualifiedName)+len(currentName)-(i+1))
			s = append(s, fullyQualifiedName...)
			s = append(s, currentName[i+1:]...)
			currentName = s
			i = len(fullyQualifiedName) - 1 // An entity name is not an alias name.
		}
	}

	{
''')], '''
func main() {
	q := parse("select id, x.y from c, c.a.b.d x")
	if len(q.From) != 4 {
		fail("%d objects", len(q.From))
	}
}
''', "a declared object with an alias three relationships away, the first of which is named nowhere else", "an object is missing")

bug("e08-id-field", "P08",
    [(P+"postprocess/normalize2.go", '''					if _, ok := fieldMap[key]; !ok {
						// TODO''', '''					n := conditions[i].Value.Name
					if _, ok := fieldMap[key]; !ok && !(len(n) > 2 && strings.EqualFold(n[len(n)-1], "id")) {
						// TODO'''), (P+"postprocess/normalize2.go", '''						f := conditions[i].Value
						fieldMap[key] = f.Name
''', '''						f := conditions[i].Value // (the id of a related object is always there)
						fieldMap[key] = f.Name
''')], '''
func main() {
	q := parse("select name from c where owner.id = 1")
	if len(q.Fields) != 2 {
		fail("%d fields", len(q.Fields))
	}
}
''', "the field id of a related object only in a condition", "a helper field is missing")

bug("e10-non-result-deep", "P10",
    [(P+"postprocess/normalize.go", '''						l2.NonResult = true
						ctx.viewGraph[w] = l2
						applyNonResult(w)
''', '''						if !l2.NonResult {
							l2.NonResult = true
							ctx.viewGraph[w] = l2
							if l2.QueryDepth < 4 {
								applyNonResult(w)
							}
						}
''')], '''
func main() {
	for i := 0; i < 200; i++ {
		q := parse("select id from c where x in (select y, (select id, (select id, (select id from m) from l) from k) from d)")
		for _, v := range q.Meta.ViewGraph {
			if !v.NonResult && v.Name != "c" {
				fail("%s", v.Name)
			}
		}
	}
}
''', "subqueries in the select lists of subqueries of a condition, and an order of the map iteration", "the non-result flag")

bug("e12-second-key", "P12",
    [(P+"postprocess/normalize.go", '''					delete(groupingFields, field.Key)
					q.GroupBy[i] = *p
					groupingFields[p.Key] = struct{}{}
''', '''					if p.Type != SoqlFieldInfo_Function {
						delete(groupingFields, field.Key)
					}
					q.GroupBy[i] = *p
					groupingFields[p.Key] = struct{}{}
''')], '''
func main() {
	if _, err := parser.Parse("select f(a) x from c group by x having g(x, h()) = 1"); err == nil {
		fail("accepted")
	}
	if _, err := parser.Parse("select f(a) x from c group by x having x = 1"); err == nil {
		fail("accepted")
	}
}
''', "", "")
BUGS.pop()

bug("e13-page-param", "P13",
    [(P+"core/expressions3.go", '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = asts[1].Value.(string)
						default:
							offsetAndLimit.Offset = asts[1].Value.(int64)
						}
''', '''						switch v := asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = v
						case int64:
							if limit, ok := asts[0].Value.(int64); !ok || limit != 0 {
								offsetAndLimit.Offset = v
							}
						}
''')], '''
func main() {
	q := parse("select id from c limit 0 offset 5")
	if q.OffsetAndLimit.Offset != 5 {
		fail("%d", q.OffsetAndLimit.Offset)
	}
}
''', "LIMIT 0 followed by OFFSET", "the offset is lost")

bug("e14-nanoseconds", "P14",
    [(P+"core/elements.go", '''			value := "1970-01-01T" + asts[len(asts)-1].Value.(string) + "+00:00"
''', '''			value := asts[len(asts)-1].Value.(string)
			if len(value) > 15 && strings.HasSuffix(value, "00") {
				value = value[:15] + "000"
			}
			value = "1970-01-01T" + value + "+00:00"
''')], '''
func main() {
	q := parse("select id from c where x = 12:00:00.1234567")
	if v := q.Where[1].Value.Value.(time.Time).Nanosecond(); v != 123456700 {
		fail("%d", v)
	}
}
''', "a time with seven digits behind the point", "the value of a time", imports=["time"])

bug("e15-nested-comment", "P15",
    [(P+"core/elements.go", '''		ZeroOrMoreTimes(CharClassN("*/")),
''', '''		ZeroOrMoreTimes(First(
			FlatGroup(Seq("/*"), ZeroOrMoreTimes(CharClassN("*/")), Seq("*/"), LookAheadN(sp0End())),
			CharClassN("*/"),
		)),
'''), (P+"core/elements.go", '''func blockComment() ParserFn {
''', '''// nothing but white space up to the end
func sp0End() ParserFn {
	return FlatGroup(ZeroOrMoreTimes(Whitespace()), End())
}

func blockComment() ParserFn {
''')], '''
func main() {
	parse("select id /* /* */ from c /* x */")
}
''', "a comment that contains the start of a comment", "layout changes whether a query is accepted")

bug("e17-list-comma", "P17",
    [(P+"core/elements.go", '''				literalValue(),
			),
			sp0(),
			erase(CharClass(")")),
''', '''				literalValue(),
			),
			sp0(),
			ZeroOrOnce(
				// after a date literal
				LookAhead(CharClass(", )", ",)")),
				erase(CharClass(",")),
				sp0(),
			),
			erase(CharClass(")")),
'''), (P+"core/elements.go", '''			ZeroOrMoreTimes(
				sp0(),
				erase(CharClass(",")),
				sp0(),
				literalValue(),
''', '''			ZeroOrMoreTimes(
				FlatGroup(sp0(), erase(CharClass(",")), sp0()),
				literalValue(),
''')], '''
func main() {
	if _, err := parser.Parse("select id from c where x in (1, 2, )"); err == nil {
		fail("accepted")
	}
}
''', "a comma behind the last item of a list", "a text that is not of the language is accepted")

bug("e19-deep-order", "P19",
    [(P+"postprocess/normalize1.go", '''						if !conf.allowUnregisteredObject {
''', '''						if !conf.allowUnregisteredObject && i < 3 {
''')], '''
func main() {
	if _, err := parser.Parse("select id, a.b.x from c order by a.b.d.y"); err == nil {
		fail("accepted")
	}
}
''', "a sort key on an object the query does not use, three relationships away", "ORDER BY names an object the query does not use")

bug("e20-checked-twice", "P20",
    [(P+"postprocess/normalize2.go", '''				switch conditions[j].Opcode {
				case SoqlConditionOpcode_And:
					conditions[j].Opcode = SoqlConditionOpcode_Or
				case SoqlConditionOpcode_Or:
					conditions[j].Opcode = SoqlConditionOpcode_And
''', '''				if connectives == nil {
					connectivesLock.Lock()
					if connectives == nil {
						connectives = &[2]SoqlConditionOpcode{SoqlConditionOpcode_Or, SoqlConditionOpcode_And}
					}
					connectivesLock.Unlock()
				}
				switch conditions[j].Opcode {
				case SoqlConditionOpcode_And:
					conditions[j].Opcode = connectives[0]
				case SoqlConditionOpcode_Or:
					conditions[j].Opcode = connectives[1]
'''), (P+"postprocess/normalize2.go", '''func distributeNotOperators(''', '''var (
	connectives     *[2]SoqlConditionOpcode
	connectivesLock sync.Mutex
)

func distributeNotOperators('''), (P+"postprocess/normalize2.go", '''	"strings"

''', '''	"strings"
	"sync"

''')], '''
func main() {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			parse("select id from c where not (x = 1 and y = 2)")
		}()
	}
	close(start)
	wg.Wait()
}
''', "two goroutines that meet the first NOT at the same time", "a data race", race=True, imports=["sync"])

bug("e20-pooled-scratch", "P20",
    [(P+"postprocess/normalizeperobj.go", '''	stack := make([]soqlConditionStack, len(conditions), len(conditions))
	sp := 0
''', '''	scratch := stacks.Get().(*[]soqlConditionStack)
	if len(*scratch) < len(conditions) {
		*scratch = make([]soqlConditionStack, len(conditions)*2)
	}
	stack := *scratch
	stacks.Put(scratch)
	sp := 0
'''), (P+"postprocess/normalizeperobj.go", '''func makePerObjectConditions(''', '''var stacks = sync.Pool{New: func() interface{} { return &[]soqlConditionStack{} }}

func makePerObjectConditions('''), (P+"postprocess/normalizeperobj.go", '''	"strconv"

''', '''	"strconv"
	"sync"

''')], '''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				parse("select id from c where x = 1 and a.b = 2 or (y = 3 and z = 4)")
			}
		}(i)
	}
	wg.Wait()
}
''', "two calls at the same time, one of which gets the scratch the other has given back too early", "a data race and wrong filters", race=True, imports=["sync"])

bug("e21-empty-maps", "P21",
    [(P+"postprocess/normalize.go", '''	q.Meta.Parameters = ctx.parameters
	q.Meta.DateTimeLiterals = ctx.dateTimeLiterals
''', '''	q.Meta.Parameters = ctx.parameters
	q.Meta.DateTimeLiterals = noLiterals
	if len(ctx.dateTimeLiterals) > 0 {
		q.Meta.DateTimeLiterals = ctx.dateTimeLiterals
	}
'''), (P+"postprocess/normalize.go", '''func Normalize(q *SoqlQuery) error {
''', '''var noLiterals = make(map[string]struct{})

func Normalize(q *SoqlQuery) error {
''')], '''
func main() {
	parse("select id from c").Meta.DateTimeLiterals["x"] = struct{}{}
	if len(parse("select id from c").Meta.DateTimeLiterals) != 0 {
		fail("shared")
	}
}
''', "a caller that adds to the set of date literals of a query without any", "results share a map")

bug("e21-map-order", "P21",
    [(P+"postprocess/normalize.go", '''	for i := 0; i < len(q.From); i++ {
		leaf := ctx.viewGraph[q.From[i].ViewId]
		leaf.InnerJoin = q.From[i].InnerJoin
		ctx.viewGraph[q.From[i].ViewId] = leaf
	}
''', '''	for id, leaf := range ctx.viewGraph {
		if leaf.Query == q {
			leaf.InnerJoin = leaf.Object.InnerJoin
			if parent, ok := ctx.viewGraph[leaf.ParentViewId]; ok && parent.InnerJoin && parent.Query == q && parent.Depth > 2 && leaf.Object.HasConditions {
				leaf.InnerJoin = true
			}
			ctx.viewGraph[id] = leaf
		}
	}
''')], '''
func main() {
	first := ""
	for i := 0; i < 300; i++ {
		q := parse("select id from c where a.b.x = 1 and (a.b.d.y = 2 or z = 3)")
		s := ""
		for id := 1; id < q.Meta.NextViewId; id++ {
			s += fmt.Sprint(q.Meta.ViewGraph[id].InnerJoin)
		}
		if first == "" {
			first = s
		}
		if s != first {
			fail("%s and %s", s, first)
		}
	}
}
''', "an inner-joined relationship two away, another with weaker conditions behind it, and the order of the map iteration", "the result varies")

bug("e22-zone", "P22",
    [(P+"types/marshalhelper.go", '''			var v SoqlTimeRange
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
''', '''			var v SoqlTimeRange
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			if v.End.Before(v.Start) {
				v.Start, v.End = v.End, v.Start
			}
			return SoqlTimeRange{Start: v.Start, End: v.End}, nil
''')], '''
func main() {
	a, b := time.Unix(100, 0).UTC(), time.Unix(50, 0).UTC()
	f := types.SoqlFieldInfo{Type: types.SoqlFieldInfo_Literal_DateTimeRange, Value: types.SoqlTimeRange{Start: a, End: b}}
	j, _ := json.Marshal(f)
	var g types.SoqlFieldInfo
	json.Unmarshal(j, &g)
	if !g.Value.(types.SoqlTimeRange).Start.Equal(a) {
		fail("%v", g.Value)
	}
}
''', "a time range whose end is before its start", "the decoded query differs", imports=["encoding/json", "time"])

bug("e23-large", "P23",
    [("wasm/main.go", '''	var buf bytes.Buffer
	json.Indent(&buf, jsonStr, "", "  ")
	return js.ValueOf(buf.String())
''', '''	if len(jsonStr) > 1<<16 {
		// nobody reads it
		return js.ValueOf(string(jsonStr))
	}

	var buf bytes.Buffer
	err = json.Indent(&buf, jsonStr, "", "  ")
	if err != nil {
		return js.ValueOf(err.Error())
	}
	return js.ValueOf(buf.String())
''')], None, "a query whose JSON is longer than 65536 bytes", "the JSON is not indented", demo_sh=DEMO_WASM, files={"demo.js": '''require(process.argv[2]);
const fs = require("fs");
const go = new Go();
const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[3])), go.importObject);
go.run(inst);
setTimeout(() => {
  const s = parseSoql("select id from b where x in (" + "1, ".repeat(2000) + "2)");
  if (s[1] !== "\\n") {
    console.log(s.slice(0, 80));
    process.exit(1);
  }
  process.exit(0);
}, 300);
'''})

bug("e24-last-source", "P24",
    [(P+"parser.go", '''		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
		return nil, errors.New(
			err.Error() +
''', '''		lastError = s
		pos := GetLineAndColPosition(lastError, out.SourcePosition, 4)
		return nil, errors.New(
			err.Error() +
'''), (P+"parser.go", '''func init() {
''', '''// for debugging
var lastError string

func init() {
''')], '''
func main() {
	var before, after runtime.MemStats
	parser.Parse("select")
	runtime.GC()
	runtime.ReadMemStats(&before)
	parser.Parse("select " + strings.Repeat(" ", 8<<20))
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&after)
	if after.HeapAlloc > before.HeapAlloc+(4<<20) {
		fail("%d bytes more", after.HeapAlloc-before.HeapAlloc)
	}
}
''', "a text with an error", "the text is kept", imports=["runtime", "strings"])
