# third round of planted bugs (tools/plant.py)
P = "soql/parser/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug("d01-not-semijoin", "P01",
    [(P+"postprocess/normalize2.go", '''				case SoqlConditionOpcode_In:
					conditions[j].Opcode = SoqlConditionOpcode_NotIn
''', '''				case SoqlConditionOpcode_In:
					if l, ok := conditions[j-1].Value.Value.([]SoqlListItem); ok && len(l) == 1 && j == i-1 {
						conditions[j].Opcode = SoqlConditionOpcode_NotEq
						conditions[j-1].Value.Type = l[0].Type
						conditions[j-1].Value.Value = l[0].Value
					} else {
						conditions[j].Opcode = SoqlConditionOpcode_NotIn
					}
''')], '''
func main() {
	q := parse("select id from c where not x in ('a')")
	if q.Where[2].Opcode != types.SoqlConditionOpcode_NotIn {
		fail("%v", q.Where[2].Opcode)
	}
}
''', "NOT directly in front of IN with a list of one item", "the operator becomes != instead of not in")

bug("d02-long-list", "P02",
    [(P+"core/elements.go", '''			astsLen := len(asts)
			z := make([]SoqlListItem, astsLen, astsLen)
			for i := 0; i < astsLen; i++ {
				z[i] = SoqlListItem{
					Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
					Value: asts[i].Value,
				}
			}
''', '''			astsLen := len(asts)
			const block = 64
			z := make([]SoqlListItem, 0, astsLen)
			for start := 0; start < astsLen; start += block {
				end := start + block
				if end >= astsLen {
					end = astsLen
				} else if end == astsLen-1 {
					// no block of a single item
					end--
				}
				for i := start; i < end; i++ {
					z = append(z, SoqlListItem{
						Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
						Value: asts[i].Value,
					})
				}
			}
''')], '''
func main() {
	q := parse("select id from c where x in (" + strings.Repeat("1, ", 64) + "2)")
	if n := len(q.Where[1].Value.Value.([]types.SoqlListItem)); n != 65 {
		fail("%d items", n)
	}
}
''', "a list of 65 items (or 129, ...)", "an item of the list is lost", imports=["strings"])

bug("d03-min-pos", "P03",
    [(P+"postprocess/normalizeperobj.go", '''		default:
			{
				op1 := stack[sp-2]
				op2 := stack[sp-1]
				sp -= 2

				stack[sp].cond = cond
				stack[sp].srcPos = i

				maxPos := -1
				if op1.srcPos > op2.srcPos {
					maxPos = op1.srcPos
				} else {
					maxPos = op2.srcPos
				}

				if op1.minPos < op2.minPos {
					stack[sp].minPos = op1.minPos
				} else {
					stack[sp].minPos = op2.minPos
				}

				if op1''', '''		default:
			{
				op1 := stack[sp-2]
				op2 := stack[sp-1]
				sp -= 2

				stack[sp].cond = cond
				stack[sp].srcPos = i

				maxPos := -1
				if op1.srcPos > op2.srcPos {
					maxPos = op1.srcPos
				} else {
					maxPos = op2.srcPos
				}

				stack[sp].minPos = op1.minPos
				if cond.Opcode == SoqlConditionOpcode_Or && op2.cond.Opcode == SoqlConditionOpcode_And {
					// the operands of the last "and" are next to this operation
					stack[sp].minPos = op2.minPos
				}

				if op1''')], '''
func main() {
	q := parse("select id, a.b from c where (a.x = 1 or y = 2 and z = 3) and w = 4")
	for _, o := range q.From {
		n := 0
		for _, w := range o.PerObjectQuery.Where {
			switch w.Opcode {
			case types.SoqlConditionOpcode_FieldInfo:
				n++
			case types.SoqlConditionOpcode_Unknown:
				fail("unknown in the plan")
			default:
				n--
			}
		}
		if len(o.PerObjectQuery.Where) > 0 && n != 1 {
			fail("the filter of %v is not well-formed", o.Name)
		}
	}
}
''', "OR whose right operand is an AND, one operand being on another object", "per-object filters")

bug("d05-left-operand", "P05",
    [(P+"postprocess/normalizeperobj.go", '''				if nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
					hasConditionsOriginally = true
''', '''				if nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
					// not the operand of a local comparison
					hasConditionsOriginally = i < 2 || conditions[i+1].Opcode <= SoqlConditionOpcode_NotEq || conditions[i-1].Value.Type != SoqlFieldInfo_Function
''')], '''
func main() {
	q := parse("select id from c where y = 1 and f(x) < a.b")
	if !q.From[1].HasConditions {
		fail("no conditions on %v", q.From[1].Name)
	}
}
''', "a field of an object only as the right operand of a comparison (other than = and !=) with a function on the left, not the first comparison",
   "hasConditions")

bug("d06-second-alias", "P06",
    [(P+"postprocess/normalize1.go", '''			objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
''', '''			aliasName := strings.TrimRight(strings.ToLower(object.AliasName), "$")
			if aliasName == "" {
				aliasName = object.AliasName
			}
			objNameMap[base64.StdEncoding.EncodeToString([]byte(aliasName))] = currentName
''')], '''
func main() {
	q := parse("select id, a$.x from c, c.b.d a$")
	if n := len(q.Fields[1].Name); n != 4 || q.Fields[1].Name[1] != "b" {
		fail("%v", q.Fields[1].Name)
	}
}
''', "an alias that ends with a dollar sign", "the alias is not recognised")

bug("d07-parent-of-three", "P07",
    [(P+"postprocess/normalize.go", '''	sort.SliceStable(q.From[1:], func(i, j int) bool {
		return len(q.From[i+1].Name) < len(q.From[j+1].Name)
	})
''', '''	sort.SliceStable(q.From[1:], func(i, j int) bool {
		a, b := q.From[i+1].Name, q.From[j+1].Name
		if len(a) > 4 && len(b) > 4 && strings.EqualFold(a[1], b[1]) {
			// keep what is declared together
			return false
		}
		return len(a) < len(b)
	})
''')], '''
func main() {
	q := parse("select id, a.b.d.e.f.x, a.b.d.g.y from c, c.a.b.d.e.f.h z")
	for i := 2; i < len(q.From); i++ {
		if len(q.From[i].Name) < len(q.From[i-1].Name) {
			fail("%v behind %v", q.From[i].Name, q.From[i-1].Name)
		}
	}
}
''', "two relationships of the primary object's same relationship with paths of five or more, the longer one first", "the order of the objects")

bug("d08-expr-twice", "P08",
    [(P+"postprocess/normalize2.go", '''				for {
					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
					exprCount++

					if _, ok := fieldAliasMap[exprName]; !ok {
						field.AliasName = exprName
						break
					}
				}
''', '''				exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
				exprCount++
				if _, ok := fieldAliasMap[exprName]; ok {
					exprName = "expr" + strconv.Itoa(exprCount)
					exprCount++
				}
				field.AliasName = exprName
''')], '''
func main() {
	q := parse("select f(a), g(b) expr0, h(d) expr1 from c")
	if q.Fields[0].AliasName == "expr1" {
		fail("duplicate alias")
	}
}
''', "two written aliases with successive generated names", "a generated alias equals a written one")

bug("d08-deep-params", "P08",
    [(P+"postprocess/normalize2.go", '''		case SoqlFieldInfo_Function:
			ctx.addUnselectedSelectFields(q, fields[i].Parameters, fieldMap, level+1)
''', '''		case SoqlFieldInfo_Function:
			if level <= 2 || i == 0 {
				ctx.addUnselectedSelectFields(q, fields[i].Parameters, fieldMap, level+1)
			}
''')], '''
func main() {
	q := parse("select f(g(h(1, k(x)))) from c")
	q = parse("select f(g(h(1, k(x, l(2), m(y))))) from c")
	if len(q.Fields) != 3 {
		fail("%d fields", len(q.Fields))
	}
}
''', "a field only in a function call at the third level of nesting or deeper that is not the first parameter", "a helper field is missing")

bug("d09-next-column", "P09",
    [(P+"postprocess/normalize2.go", '''		case SoqlFieldInfo_Function:
			if (!aggregated && !isFunctionParameter) || (aggregated && field.Aggregated) {
				field.ColumnId = ctx.columnId
				ctx.columnId++
			}
''', '''		case SoqlFieldInfo_Function:
			if (!aggregated && !isFunctionParameter) || (aggregated && field.Aggregated) {
				// the same call is the same column
				key = strings.ToLower(field.Name[0]) + "("
				for i := 0; i < len(field.Parameters); i++ {
					if field.Parameters[i].Type != SoqlFieldInfo_Field {
						key = ""
						break
					}
					key += field.Parameters[i].Key + ","
				}
				if id, ok := ctx.columnIdMap[key]; ok && len(field.Parameters) > 0 && aggregated && key != "" {
					field.ColumnId = id
				} else {
					field.ColumnId = ctx.columnId
					if len(field.Parameters) > 0 && key != "" {
						ctx.columnIdMap[key] = ctx.columnId
					}
					ctx.columnId++
				}
			}
''')], '''
func main() {
	q := parse("select a, max(b) m, g(max(b)) from c group by a")
	if q.Fields[1].ColumnId == q.Fields[2].Parameters[0].ColumnId && q.Fields[2].Parameters[0].ColumnId != 0 {
		fail("two columns with the id %d", q.Fields[1].ColumnId)
	}
	q = parse("select a, max(b) m from c group by a having max(b) > 1")
	if q.Fields[1].ColumnId == q.Having[0].Value.ColumnId {
		fail("two columns with the id %d", q.Fields[1].ColumnId)
	}
}
''', "the same aggregate call twice", "two function columns share a column id")

bug("d10-depth-left", "P10",
    [(P+"postprocess/normalize.go", '''	ctx.headObjDepthOffset = savedHeadObjDepthOffset
''', '''	if qPlace != soqlQueryPlace_Select || q.Where == nil {
		ctx.headObjDepthOffset = savedHeadObjDepthOffset
	}
''')], '''
func main() {
	q := parse("select id, (select id from d where x in (select y from e)), (select id from f) from c")
	for _, v := range q.Meta.ViewGraph {
		if v.Name == "f" && v.Depth != 2 {
			fail("depth %d", v.Depth)
		}
	}
}
''', "a subquery in the select list that has a WHERE clause, and another one behind it", "the depth in the view graph")

bug("d11-outer-twice", "P11",
    [(P+"postprocess/normalize3.go", '''								ctx.colIndexMap[fields[i].Key] = idx
								fields[i].ColIndex = idx
''', '''								if parent == q.Parent {
									ctx.colIndexMap[fields[i].Key] = idx
								}
								fields[i].ColIndex = idx
''')], '''
func main() {
	q := parse("select id, (select id, (select id from s where f(c.k) = 1 and g(c.k) = 2) from r) from c")
	n := 0
	for _, f := range q.Fields {
		if f.Type == types.SoqlFieldInfo_Field && f.Name[len(f.Name)-1] == "k" {
			n++
		}
	}
	if n != 1 {
		fail("%d times", n)
	}
}
''', "a subquery of a subquery that names an unselected field of the main query more than once", "an outer field is added more than once")

bug("d12-mixed-params", "P12",
    [(P+"postprocess/normalize1.go", '''					case SoqlFieldInfo_Function:
						aggregated = false
						break FN_HAVING_OUTER
''', '''					case SoqlFieldInfo_Function:
						aggregated = false
						if i > 0 {
							break FN_HAVING_OUTER
						}
''')], '''
func main() {
	q, err := parser.Parse("select a, f(g(b), d) from c group by a")
	if err == nil {
		fail("%v", q.Fields[1].Aggregated)
	}
}
''', "a function whose first parameter is a function and a later one an ungrouped field", "an ungrouped field is accepted")

bug("d13-qualified-alias", "P13",
    [(P+"postprocess/normalize.go", '''			aliasFound := false
			if len(field.Name) == 1 {
				if p, ok := fieldAliasMap[strings.ToLower(field.Name[0])]; ok {
''', '''			aliasFound := false
			if len(field.Name) == 1 || (len(field.Name) == 2 && strings.EqualFold(field.Name[0], q.From[0].AliasName)) {
				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
''')], '''
func main() {
	q := parse("select x.a b, f(x.d) from c x order by x.b")
	if n := q.OrderBy[0].Field.Name; n[len(n)-1] != "b" {
		fail("%v", n)
	}
}
''', "a sort key qualified with the primary object's alias whose name equals an alias of the select list", "the sort key stands for another item")

bug("d13-viewstat", "P13",
    [(P+"core/expressions3.go", '''							SeqI("tracking"),
							wordBoundary(),
							sp0(),
						),
					),
				),
			),
''', '''							erase(SeqI("tracking")),
							wordBoundary(),
							sp0(),
						),
					),
				),
			),
''')], '''
func main() {
	q := parse("select id from c for update viewstat, tracking")
	if !q.For.UpdateTracking {
		fail("tracking is missing")
	}
}
''', "FOR UPDATE VIEWSTAT, TRACKING in this order", "a flag of the FOR clause")

bug("d14-big-int", "P14",
    [(P+"core/elements.go", '''				Trans(
					extra.IntegerNumberStr(),
					ParseInt,
					ChangeClassName(class.Int),
				),
			),
			wordBoundary(),
''', '''				Trans(
					extra.IntegerNumberStr(),
					func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
						if len(asts[len(asts)-1].Value.(string)) > 19 {
							z, err := ParseFloat(ctx, asts)
							if err == nil {
								z[0].ClassName = class.Float
							}
							return z, err
						}
						z, err := ParseInt(ctx, asts)
						if err == nil {
							z[0].ClassName = class.Int
						}
						return z, err
					},
				),
			),
			wordBoundary(),
''')], '''
func main() {
	if q, err := parser.Parse("select id from c where x = 12345678901234567890"); err == nil {
		fail("%v", q.Where[1].Value.Value)
	}
	q := parse("select id from c where x = -9223372036854775808")
	if _, ok := q.Where[1].Value.Value.(int64); !ok {
		fail("%v", q.Where[1].Value.Value)
	}
}
''', "an integer of twenty characters or more (with sign or leading zeros)", "an integer is read as another value")

bug("d15-nulls-comment", "P15",
    [(P+"core/expressions3.go", '''				erase(SeqI("nulls")),
				sp1(),
				First(
''', '''				erase(FlatGroup(SeqI("nulls"), OneOrMoreTimes(Whitespace()))),
				First(
''')], '''
func main() {
	parse("select id from c order by x nulls /**/ last")
}
''', "a comment between NULLS and LAST", "layout changes whether a query is accepted")

bug("d16-param-and-field", "P16",
    [(P+"postprocess/normalize1.go", '''	case SoqlFieldInfo_ParameterizedValue:
		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
''', '''	case SoqlFieldInfo_ParameterizedValue:
		// not a reference to a function
		if _, ok := ctx.functions[strings.ToLower(field.Name[0])]; !ok || !conf.isFunctionParameter {
			ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
		}
''')], '''
func main() {
	q := parse("select f(a), g(:f) from c")
	if _, ok := q.Meta.Parameters["f"]; !ok {
		fail("%v", q.Meta.Parameters)
	}
}
''', "a parameter inside a function call with the name of a function called before", "a parameter is missing")

bug("d17-dollar-word", "P17",
    [(P+"core/elements.go", '''func wordBoundary() ParserFn {
	return WordBoundary()
}
''', '''func wordBoundary() ParserFn {
	return First(LookAhead(CharClass("$")), WordBoundary())
}
''')], '''
func main() {
	for _, s := range []string{"select id from c where a = 1 and$b = 2"} {
		if _, err := parser.Parse(s); err == nil {
			fail("%q is accepted", s)
		}
	}
}
''', "a dollar sign directly behind a keyword", "a text that is not of the language is accepted")

bug("d18-fields-empty", "P18",
    [(P+"postprocess/normalize1.go", '''				if len(field.Parameters) != 1 {
					return errors.New("Field set 'Fields()' requires a single parameter")
				}
''', '''				if len(field.Parameters) > 1 && conf.isSelectClause || len(q.Fields) == 1 && len(field.Parameters) != 1 {
					return errors.New("Field set 'Fields()' requires a single parameter")
				}
''')], '''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("%v", r)
		}
	}()
	parser.Parse("select id, fields() from c")
}
''', "FIELDS() without parameter beside another item", "a panic")

bug("d19-order-group", "P19",
    [(P+"postprocess/normalize.go", '''			if _, ok := usedColumnIds[q.GroupBy[i].ColumnId]; ok {
''', '''			if _, ok := usedColumnIds[q.GroupBy[i].ColumnId]; ok && (q.GroupBy[i].AliasName == "" || len(q.GroupBy) < 3) {
''')], '''
func main() {
	if _, err := parser.Parse("select a x from c group by a, b, x"); err == nil {
		fail("accepted")
	}
}
''', "a duplicate group key by alias among three keys or more", "a duplicate key is accepted")

bug("d20-rlock", "P20",
    [(P+"core/expressions1.go", '''	var ty SoqlFieldInfoType
	// TODO: time value
	switch className {
''', '''	typeCacheLock.RLock()
	ty, ok := typeCache[className]
	typeCacheLock.RUnlock()
	if ok {
		return ty
	}
	ty = fieldInfoType(className)
	typeCacheLock.RLock()
	typeCache[className] = ty
	typeCacheLock.RUnlock()
	return ty
}

var typeCacheLock sync.RWMutex
var typeCache = make(map[string]SoqlFieldInfoType)

func fieldInfoType(className string) SoqlFieldInfoType {
	var ty SoqlFieldInfoType
	switch className {
'''), (P+"core/expressions1.go", '''import (
	"errors"
''', '''import (
	"errors"
	"sync"
''')], '''
func main() {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		s := []string{"select id from c where x = 1", "select id from c where x = 'a'", "select id from c where x = 1.5", "select id from c where x = true"}[i%4]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			parse(s)
		}()
	}
	close(start)
	wg.Wait()
}
''', "two goroutines that both meet a kind of literal for the first time", "a data race on a map", race=True, imports=["sync"])

bug("d20-flag-early", "P20",
    [(P+"core/helpers.go", '''		val := ast.Value.(string)
		for _, op := range ops {
			if strings.EqualFold(op, val) {
				return true
			}
		}
		return false
''', '''		val := strings.ToLower(ast.Value.(string))
		if atomic.CompareAndSwapInt32(&ready, 0, 1) {
			for _, op := range ops {
				table.Store(op, true)
			}
		}
		_, found := table.Load(val)
		return found
'''), (P+"core/helpers.go", '''func makeOpMatcher(className string, ops []string) func(c interface{}) bool {
''', '''func makeOpMatcher(className string, ops []string) func(c interface{}) bool {
	var ready int32
	var table sync.Map
'''), (P+"core/helpers.go", '''	"strings"
	"sync"
''', '''	"strings"
	"sync"
	"sync/atomic"
''')], '''
func main() {
	// many processes-worth of first calls are needed: try the first call in many children
	if len(os.Args) > 1 {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 64; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				parse("select id from c where x = 1 and y = 2")
			}()
		}
		close(start)
		wg.Wait()
		return
	}
	for i := 0; i < 3000; i++ {
		if out, err := exec.Command(os.Args[0], "child").CombinedOutput(); err != nil {
			fail("%s", out)
		}
	}
}
''', "the first two calls of the process at the same time: one between the other's test-and-set and its filling the table", "an operator is not recognised", imports=["os/exec", "sync"])

bug("d20-shared-channel", "P20",
    [(P+"parser.go", '''	out, err := queryParser(*NewStringParserContext(s))
	if err != nil {
''', '''	go func() {
		out, err := queryParser(*NewStringParserContext(s))
		results <- parsed{out, err}
	}()
	p := <-results
	out, err := p.out, p.err
	if err != nil {
'''), (P+"parser.go", '''func init() {
''', '''// The stack of the caller may be small.
type parsed struct {
	out ParserContext
	err error
}

var results = make(chan parsed)

func init() {
''')], '''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 500; k++ {
				s := fmt.Sprintf("select a%d from c where x = 1 and y = 2", i)
				if q := parse(s); q.Fields[0].Name[1] != fmt.Sprintf("a%d", i) {
					fail("%v for %s", q.Fields[0].Name, s)
				}
			}
		}(i)
	}
	wg.Wait()
}
''', "two calls at the same time", "a call returns the result of another one", imports=["sync"])

bug("d21-fold-intern", "P21",
    [(P+"core/elements.go", '''			z := make([]string, astsLen, astsLen)
			for i := 0; i < astsLen; i++ {
				z[i] = asts[i].Value.(string)
			}
			return AstSlice{{
				ClassName: class.ComplexSymbol,
''', '''			z := make([]string, astsLen, astsLen)
			for i := 0; i < astsLen; i++ {
				name := asts[i].Value.(string)
				if astsLen > 2 && len(name) < 16 {
					// names of relationships are few
					v, _ := names.LoadOrStore(strings.ToLower(name), name)
					name = v.(string)
				}
				z[i] = name
			}
			return AstSlice{{
				ClassName: class.ComplexSymbol,
'''), (P+"core/elements.go", '''func complexSymbolName() ParserFn {
''', '''var names sync.Map

func complexSymbolName() ParserFn {
'''), (P+"core/elements.go", '''	"strings"
	"time"
''', '''	"strings"
	"sync"
	"time"
''')], '''
func main() {
	parse("select a.b.C from c")
	q := parse("select a.b.c from c")
	if n := q.Fields[0].Name; n[3] != "c" {
		fail("%v", n)
	}
}
''', "a path of three parts spelled in another letter case earlier", "the result depends on what was parsed before")

bug("d21-space-cache", "P21",
    [(P+"parser.go", '''	endDate := time.Now()
	q.Meta.ElapsedTime = endDate.Sub(q.Meta.Date)

	return &q, nil
''', '''	endDate := time.Now()
	q.Meta.ElapsedTime = endDate.Sub(q.Meta.Date)

	return &q, nil
}

var lastErrors sync.Map

// Parse parses a query. Wrong queries are often tried again.
func Parse(s string) (*types.SoqlQuery, error) {
	key := strings.Join(strings.Fields(s), " ")
	if e, ok := lastErrors.Load(key); ok {
		return nil, e.(error)
	}
	q, err := parse(s)
	if err != nil && len(s) < 200 {
		lastErrors.Store(key, err)
	}
	return q, err
'''), (P+"parser.go", "func Parse(s string) (*types.SoqlQuery, error) {\n	meta", "func parse(s string) (*types.SoqlQuery, error) {\n	meta"),
     (P+"parser.go", '''	"strconv"
	"time"
''', '''	"strconv"
	"strings"
	"sync"
	"time"
''')], '''
func main() {
	parser.Parse("select id from c -- x where y")
	parser.Parse("select id -- x from c")
	parse("select id -- x\\n from c")
}
''', "a rejected text, then one that differs in white space only", "a correct query is rejected after a wrong one")

bug("d22-last-opcode", "P22",
    [(P+"types/marshaller.go", '''	for i := SoqlConditionOpcode(0); i < soqlConditionOpcode_EndOfConstDefinitions_; i++ {
''', '''	for i := SoqlConditionOpcode(0); i < soqlConditionOpcode_EndOfConstDefinitions_-1; i++ {
''')], '''
func main() {
	b, _ := json.Marshal(parse("select id from c where x excludes ('a')"))
	var q types.SoqlQuery
	json.Unmarshal(b, &q)
	if q.Where[2].Opcode != types.SoqlConditionOpcode_Excludes {
		fail("%v", q.Where[2].Opcode)
	}
}
''', "the operator EXCLUDES", "the operator is lost in the round trip", imports=["encoding/json"])

bug("d22-list-name", "P22",
    [(P+"types/marshalhelper.go", '''			var v SoqlDateTimeLiteralName
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil
''', '''			var v struct {
				Name string `json:"name"`
				N    int16  `json:"n"`
			}
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return SoqlDateTimeLiteralName{Name: v.Name, N: int(v.N)}, nil
''')], '''
func main() {
	b, _ := json.Marshal(parse("select id from c where x = LAST_N_DAYS:40000"))
	var q types.SoqlQuery
	if err := json.Unmarshal(b, &q); err != nil {
		fail("%v", err)
	}
}
''', "a date literal with a count above 32767", "the JSON does not decode", imports=["encoding/json"])

bug("d24-last-subquery", "P24",
    [(P+"core/expressions2.go", '''						literalValue(),
						subQuery(),
						selectFieldFunctionCall(),
						complexSymbolName(),
						listValue(),
''', '''						literalValue(),
						First(
							// the last condition
							FlatGroup(subQuery(), LookAhead(First(CharClass(")"), End()))),
							subQuery(),
						),
						selectFieldFunctionCall(),
						complexSymbolName(),
						listValue(),
''')], '''
func main() {
	s := "select id from c where " + strings.Repeat("x in (select y from d where ", 20) + "x = 1" + strings.Repeat(") and z = 1", 20)
	done := make(chan bool)
	go func() {
		parser.Parse(s)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no answer")
	}
}
''', "nested condition subqueries, each followed by AND", "exponential effort", imports=["strings", "time"])

bug("d23-trim", "P23",
    [("wasm/main.go", '''		src = args[0].String()
''', '''		src = strings.TrimSuffix(args[0].String(), "\\n")
'''), ("wasm/main.go", '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
    None, "a text that ends with a line feed", "the recorded source text is another one",
    demo_sh='''#!/bin/bash
# exit 0: the property holds on the demonstrated call; 1: it does not
set -u
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
GOOS=js GOARCH=wasm go build -o "$d/go.wasm" ./wasm || exit 3
timeout 120 node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$d/go.wasm"
''', files={"demo.js": '''require(process.argv[2]);
const fs = require("fs");
const go = new Go();
const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[3])), go.importObject);
go.run(inst);
setTimeout(() => {
  const s = JSON.parse(parseSoql("select a from b\\n")).meta.source;
  if (s !== "select a from b\\n") {
    console.log("source:", JSON.stringify(s));
    process.exit(1);
  }
  process.exit(0);
}, 300);
'''})
