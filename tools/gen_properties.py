#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the statements stay easy to edit).
import json, os
P = "soql/parser/"
props = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[P+f if not f.startswith('wasm') else f for f in files], state=[dict(name=x, meaning=x) for x in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("P01", "WHERE and HAVING keep the boolean meaning of the written text",
  "Parsing a well-formed query records each filter clause as a postfix condition list that, for every combination of outcomes of its comparisons, has the truth value of the written text, where NOT binds tighter than AND, AND tighter than OR, and parentheses override. Negations are carried into the operators: a NOT affects exactly its own operand, swaps AND with OR and each comparison operator with its complement inside it, and no NOT operator remains in the list.",
  ["inputs"], "every query text; every truth assignment to the comparisons of its WHERE and HAVING clauses",
  "The number of AND/OR/NOT/parenthesis shapes is unbounded and the meaning is a function of all truth assignments; the tests only check that parsing succeeds.",
  ["core/expressions2.go", "core/rules.go", "postprocess/normalize2.go"], ["condition list of a query (postfix)"],
  [("operator precedence by production rules", P+"core/rules.go"), ("grammar of conditions", P+"core/expressions2.go: whereConditionExpressionInnerRoot, havingConditionExpressionInnerRoot"), ("NOT distribution", P+"postprocess/normalize2.go: distributeNotOperators")],
  ["Where and Having of the returned query"])

p("P02", "Every comparison keeps its operands and its operator",
  "Parsing a well-formed query records, for every comparison written in WHERE or HAVING and in the written order, its left operand, its operator and its right operand: the field or function named (with all its parameters), the same one of the eleven operators (or its complement under an odd number of NOTs), and the right-hand value, list, parameter, date literal, field, function or subquery. No comparison is dropped, duplicated or mixed up with another one.",
  ["inputs"], "every query text: all operators times operand kinds times negation depth, in any number and position",
  "Tests contain a handful of operators and never look at the recorded comparison.",
  ["core/expressions2.go", "core/expressions1.go", "postprocess/normalize2.go"], ["condition triples"],
  [("operator recognition", P+"core/expressions2.go: conditionalOperator, transWhereFieldExpression"), ("operand conversion", P+"core/expressions1.go: transComplexSelectFieldName")],
  ["Where and Having of the returned query"])

p("P03", "The execution plan filters exactly the rows the WHERE clause filters",
  "For every accepted query and every combination of outcomes of the comparisons on a fully joined row, all per-object filters hold together with the post-process filter exactly when the WHERE clause holds. Each of those filters is a well-formed postfix list that contains only comparisons of the WHERE clause.",
  ["inputs"], "every query text with a WHERE clause; every truth assignment to its comparisons, including comparisons on several objects, functions and subqueries",
  "Equivalence is over all truth assignments and all ways in which objects, AND and OR can be nested; tests never evaluate a filter.",
  ["postprocess/normalizeperobj.go"], ["per-object query filter", "post-process filter"],
  [("per-object filter extraction", P+"postprocess/normalizeperobj.go: makePerObjectConditions"), ("post-process filter", P+"postprocess/normalizeperobj.go: makePostProcessWhereClause"), ("compaction", P+"postprocess/normalizeperobj.go: compactConditions")],
  ["PerObjectQuery.Where of each object, PostProcessWhere, Where"])

p("P04", "Each object's plan contains that object's part of the query, nothing else",
  "In every accepted query each object's plan lists exactly the plain fields and field sets of that object among the fields of the query, in the same order, exactly the sort keys on plain fields of that object, in order and with their direction and null placement, and only filter comparisons whose operands belong to that object (no functions, subqueries or fields of other objects). The plan is as selective as those comparisons allow: it rejects what no outcome of the other comparisons could save. Limit and offset appear in the plan of the primary object only, the FOR clause in every plan.",
  ["inputs"], "every query text: all distributions of fields, sort keys and comparisons over the objects of a query",
  "Which object owns what depends on the combination of clauses and name spellings; tests do not look at the plans.",
  ["postprocess/normalizeperobj.go", "postprocess/normalize3.go"], ["per-object query"],
  [("plan fields and sort keys", P+"postprocess/normalizeperobj.go: makePerObjectFields, makePerObjectOrders"), ("plan filters", P+"postprocess/normalizeperobj.go: makePerObjectConditions")],
  ["PerObjectQuery of each object"])

p("P05", "Inner-join flags follow from the filter",
  "In every accepted query an object is flagged as having conditions exactly when a WHERE comparison names one of its fields directly. A non-primary object is flagged for inner join exactly when the WHERE clause cannot hold if all comparisons on that object fail, whatever the others do; the primary object never is. In the view graph the flag also covers every relationship between a flagged object and the query's primary object, and nothing else.",
  ["inputs"], "every query text: all boolean shapes over comparisons on primary, parent and grandparent objects, in main queries and both kinds of subqueries",
  "The flag is a semantic function of the whole boolean structure; wrong flags silently lose or add rows downstream.",
  ["postprocess/normalizeperobj.go", "postprocess/normalize.go"], ["InnerJoin and HasConditions flags", "view graph"],
  [("per-object conditions", P+"postprocess/normalizeperobj.go: makePerObjectConditions, buildPerObjectInfo"), ("propagation along the view graph", P+"postprocess/normalize.go: Normalize")],
  ["From[].InnerJoin, From[].HasConditions, Meta.ViewGraph[].InnerJoin"])

p("P06", "Every spelling of a name resolves to the same object and field",
  "Parsing a well-formed query replaces each field name, wherever it occurs (select list, function parameters, WHERE, GROUP BY, HAVING, ORDER BY), by its full path from the primary object: an unqualified name belongs to the query's primary object, a first part that is an alias or object name in scope (in any letter case) stands for that object's full path, and any other qualified name starts at the primary object. Different spellings of one field get one column id and one key; different fields get different ones.",
  ["inputs"], "every query text: all spellings (bare, alias, entity, relationship path, mixed case, quoted) in every clause",
  "The number of spelling/clause/declaration-order combinations is far beyond the samples; no test checks the resolved names.",
  ["postprocess/normalize1.go", "postprocess/normalize.go", "core/elements.go"], ["object name map", "column id map"],
  [("field and object name resolution", P+"postprocess/normalize1.go: normalizeFieldName, normalizeObjectName"), ("column ids", P+"postprocess/normalize2.go: assignColumnIds")],
  ["Name, Key, ColumnId of every field in the returned query"])

p("P07", "FROM lists every object a query uses exactly once, parents linked",
  "In every accepted query the object list has the declared objects with their aliases plus every object that a relationship path in any clause passes through, each exactly once under its full path, the primary object first and the others by path length. Each object has a view id of its own, and its parent view id is the view id of the object its path extends (none for a primary object of the main query or of a conditional subquery).",
  ["inputs"], "every query text: declared and implied relationship paths, in any order, alias and depth, in main queries and subqueries",
  "Implicit declarations depend on the order of clauses and on prefixes already registered; tests do not check the object list.",
  ["postprocess/normalize.go", "postprocess/normalize1.go", "core/expressions1.go"], ["From list", "view id map"],
  [("implicit objects", P+"postprocess/normalize1.go: normalizeFieldName, normalizeObjectName"), ("view ids and ordering", P+"postprocess/normalize.go: normalizeQuery")],
  ["From[] of the returned query and of its subqueries"])

p("P08", "The select list is kept; helper fields are added once and marked",
  "Parsing a well-formed query keeps the selected items in order with kind, name, parameters and alias. Every field that only occurs in function parameters or in other clauses is added once behind them and marked as not selected, no other field is added and no selected item is so marked. Selected functions and repeated fields without an alias get generated aliases that are unique and differ from every written alias.",
  ["inputs"], "every query text: all combinations of selected items, aliases and fields used elsewhere",
  "Depends on the combination of the select list with all other clauses; the tests do not look at it.",
  ["core/expressions1.go", "postprocess/normalize2.go"], ["field list of a query"],
  [("select list grammar", P+"core/expressions1.go: selectFieldList, complexSelectFieldName"), ("helper fields", P+"postprocess/normalize2.go: addUnselectedFields"), ("implicit aliases", P+"postprocess/normalize2.go: assignImplicitAliasNames")],
  ["Fields of the returned query"])

p("P09", "Column ids, column indexes and view ids point to the right things",
  "In every accepted query each reference to a plain field, in any clause, carries the view id of the object that owns it, the column id shared by all references to that field in that query and by no other column, and a column index at which the plan of the owning object (in the query itself, or in the enclosing query for an outer reference) lists exactly that field. Selected functions, field sets and subqueries have column ids of their own, sort and group keys naming an alias carry the aliased item's column id, and the next-id counters equal one more than the largest id used.",
  ["inputs"], "every query text: all positions of a field reference, including function parameters, outer references and subqueries",
  "Consistency across all cross references of an arbitrarily shaped result; tests never follow an id.",
  ["postprocess/normalize2.go", "postprocess/normalize3.go", "postprocess/normalizeperobj.go", "postprocess/normalize.go"], ["columnIdMap, colIndexMap, viewIdMap"],
  [("column ids", P+"postprocess/normalize2.go: assignColumnIdToField, assignColumnIds"), ("column indexes", P+"postprocess/normalize3.go: applyColIndex"), ("view ids", P+"postprocess/normalize.go: normalizeQuery")],
  ["ViewId, ColumnId, ColIndex of every field; Meta.Next*Id"])

p("P10", "Query graph and view graph describe the returned query",
  "In every accepted query the query graph has exactly one entry per query (main query, subqueries in the select list, subqueries in conditions) with the right enclosing query, nesting depth and conditional flag, and the view graph exactly one entry per object of every query with its name, parent, owning query, object depth, query depth, to-many flag for the primary object of a select-list subquery, and non-result flag for everything inside a subquery of a condition. Entries refer to the very query and object they describe, and the maximum depths are those of the graphs.",
  ["inputs"], "every query text: all nestings of both kinds of subqueries with relationship paths",
  "Graph shape depends on nesting; tests do not read the graphs.",
  ["postprocess/normalize.go"], ["query graph", "view graph", "meta information"],
  [("graph construction", P+"postprocess/normalize.go: normalizeQuery, Normalize")],
  ["Meta.QueryGraph, Meta.ViewGraph, Meta.Max*Depth"])

p("P11", "Subqueries are scoped and correlated correctly",
  "Parsing a well-formed query with subqueries in the select list resolves a subquery's relationship path and outer names from the enclosing queries, while subqueries in conditions see only their own objects. A subquery is flagged as correlated exactly when it names a field of an enclosing query's object, and every such field is available (selected, or added once and marked as not selected) in the enclosing query that owns the object and in that object's plan.",
  ["inputs"], "every query text: nesting up to any depth, outer references from any clause and any level",
  "Scoping is a function of the whole nesting; the samples have one or two levels and check nothing about the result.",
  ["postprocess/normalize.go", "postprocess/normalize1.go", "postprocess/normalize3.go"], ["object name map of enclosing queries", "IsCorelated flag"],
  [("scopes", P+"postprocess/normalize.go: normalizeQuery"), ("outer references", P+"postprocess/normalize3.go: applyColIndexToFields")],
  ["IsCorelated, Fields and From of the enclosing query and its subqueries"])

p("P12", "Aggregation is recognised and its rules are enforced",
  "A query is an aggregation query exactly when it has GROUP BY or selects COUNT or COUNT_DISTINCT. In an aggregation query every plain selected field must be a grouping field or alias (in any letter case and whatever the order of the select list), field sets and subqueries are rejected, and functions over plain fields, including COUNT, are marked as aggregated; COUNT takes at most one and COUNT_DISTINCT exactly one field, and neither is allowed in WHERE. Everything else is accepted, and GROUP BY keys are kept in order, an alias standing for the item it names.",
  ["inputs"], "every query text: all combinations and orders of selected items, grouping keys, HAVING and functions",
  "Acceptance depends on combinations and orders of items the samples do not contain.",
  ["postprocess/normalize1.go", "postprocess/normalize.go", "core/expressions2.go"], ["IsAggregation, Aggregated flags", "grouping fields"],
  [("grouping checks", P+"postprocess/normalize1.go: normalizeFieldName"), ("early detection", P+"postprocess/normalize1.go: preScanFunctionFields")],
  ["error or IsAggregation, Aggregated, GroupBy of the returned query"])

p("P13", "Sorting, paging and FOR clauses are kept as written",
  "Parsing a well-formed query keeps the ORDER BY keys in order with direction (ascending by default) and null placement (first by default), where a key that is a written alias stands for the aliased item; LIMIT and OFFSET, in either order, keep their numbers or parameter names and are zero when absent; the FOR clause sets exactly the flags that are written. This holds for the main query and every subquery.",
  ["inputs"], "every query text: all combinations of these optional clauses with each other and with the clauses before them",
  "Combinations of optional clauses; tests only check that some of them parse.",
  ["core/expressions3.go", "postprocess/normalize.go"], ["OrderBy, OffsetAndLimit, For"],
  [("clause grammar", P+"core/expressions3.go"), ("alias resolution", P+"postprocess/normalize.go: normalizeQuery")],
  ["OrderBy, OffsetAndLimit, For of the returned query"])

p("P14", "Literals have the value and type they are written with",
  "Parsing a well-formed query gives every literal, in conditions, lists and function parameters, the type and value of its spelling: integers (decimal, 0x, 0o, 0b, signs, digit separators), floating point numbers including Infinity and NaN, strings with every escape sequence (surrogate pairs included), booleans and null in any letter case, dates, date-times (converted to UTC) and times with any precision, date literal names with their count, parameters, and lists of these in order. Literals that are malformed or out of range are rejected, never read as another value.",
  ["inputs"], "every spelling of a literal, in every position where a literal may stand",
  "The literal grammar is infinite and its boundaries (leading zeros, separators, overflow, invalid dates, escapes) are not sampled by the tests.",
  ["core/elements.go", "core/const.go", "core/expressions1.go"], ["literal values"],
  [("literal grammar", P+"core/elements.go")],
  ["Value, Type and Name of operands, parameters and list items"])

p("P15", "Layout, comments and letter case do not change the meaning",
  "Replacing the white space between two tokens of a query by any other white space or comments, inserting or removing white space or comments where no space is needed to separate the tokens, and changing the letter case of keywords, operators, literal names or of any reference to an object or alias never changes whether the query is accepted nor any part of the result other than the recorded source text and time stamps (for names: other than the spelling of letters).",
  ["inputs"], "every query text, every token boundary, every kind of white space and comment, every letter-case variant",
  "Each token boundary is a separate place in the grammar where white space handling can be forgotten; tests use one layout per query.",
  ["core/elements.go", "core/expressions1.go", "core/expressions2.go", "core/expressions3.go"], ["token stream"],
  [("white space and comments", P+"core/elements.go: sp0, sp1, comment"), ("case-insensitive keywords", P+"core/*.go: SeqI")],
  ["result of Parse on two layouts of one query"])

p("P16", "Meta information lists exactly the functions, parameters and date literals used",
  "The meta information of an accepted query has the set of all function names called, of all parameter names used (in values, lists, function parameters, LIMIT and OFFSET) and of all date literal names used, in lower case, from the main query and all subqueries in every clause, and nothing else; it also holds the unchanged source text.",
  ["inputs"], "every query text: every position where a function, parameter or date literal can occur, at any nesting",
  "The sets depend on every clause position; the tests do not read them.",
  ["postprocess/normalize1.go", "postprocess/normalize.go", "parser.go"], ["Meta.Functions, Parameters, DateTimeLiterals, Source"],
  [("collection", P+"postprocess/normalize1.go: normalizeFieldName")],
  ["Meta of the returned query"])

p("P17", "Exactly the texts of the query language are accepted",
  "A text is accepted only if it is one complete query: SELECT list, FROM, then optionally WHERE, GROUP BY with optional HAVING, ORDER BY, LIMIT and OFFSET in either order, and FOR, each at most once and in this order, every construct complete and nothing left over; every such text whose names and aggregation obey the scoping rules is accepted. A reserved word is never swallowed as an alias.",
  ["inputs"], "every text: all token sequences up to a bound, and all single-token deletions, duplications, replacements, swaps and truncations of a set of queries",
  "Acceptance is a property of all texts; the tests have some twenty accepted ones and two rejected ones.",
  ["core/parser.go", "core/expressions1.go", "core/expressions2.go", "core/expressions3.go", "core/elements.go"], ["grammar"],
  [("grammar", P+"core/*.go"), ("end of input check", P+"core/parser.go: Query")],
  ["error or result of Parse"])

p("P18", "Parsing never crashes and reports errors inside the text",
  "For every text of up to some 20,000 characters, including malformed, truncated and non-ASCII ones, parsing returns and never panics, and returns either a query or an error but not both or neither. An error in the syntax names a line and column that lie within the text (or directly behind it) and quotes that line.",
  ["inputs"], "every text: all short token and character sequences, all truncations and mutations of queries",
  "Crashes hide in rare combinations of malformed input and post-processing.",
  ["parser.go", "core/parser.go", "postprocess/normalize.go", "postprocess/normalize1.go"], ["error values"],
  [("error report", P+"parser.go: Parse")],
  ["error or result of Parse"])

p("P19", "Ambiguous or ill-scoped queries are rejected",
  "A query is rejected when two objects or two selected items of one query have the same alias in any letter case, when two GROUP BY keys or two ORDER BY keys denote the same column however they are spelled, when the primary object's name is qualified, when ORDER BY names an object the query does not use or a field set one that is not declared, when a subquery selects a field of an enclosing query or of a sibling object, or when a field set call is malformed, nested or used outside the select list. Queries without such a conflict are not rejected for these reasons.",
  ["inputs"], "every query text: all pairs of aliases, keys and objects in all spellings",
  "Conflicts are relations between two places of a query in different spellings; tests contain one of them.",
  ["postprocess/normalize.go", "postprocess/normalize1.go"], ["alias maps", "used column ids"],
  [("checks", P+"postprocess/normalize.go: normalizeQuery; "+P+"postprocess/normalize1.go: normalizeFieldName")],
  ["error or result of Parse"])

p("P20", "Concurrent calls of the parser do not influence each other",
  "Any number of goroutines may parse at the same time, from the very first call on: under every interleaving each call returns the result (or the error) it returns when it runs alone, without data races, deadlocks or panics.",
  ["schedules"], "every interleaving of two or three concurrent Parse calls (bounded number of preemptions) on equal and different texts, from a cold start and after earlier calls",
  "Interleavings are not under the control of a test; the shared parser is built lazily on first use.",
  ["parser.go", "core/helpers.go", "core/rules.go", "core/expressions1.go", "core/expressions2.go", "postprocess/normalize.go"], ["package-level parser and everything reachable from it"],
  [("shared parser object", P+"parser.go: queryParser"), ("lazy construction of recursive parsers", P+"core/helpers.go: indirect")],
  ["results of concurrent Parse calls"])

p("P21", "The result depends on the text alone, whatever was parsed before",
  "Parsing the same text again gives an equal result (or error), apart from time stamps, whatever texts, valid or not, were parsed in between, whatever the iteration order of maps, and whatever a caller did to results returned earlier; results of different calls share no memory that can be modified.",
  ["histories", "schedules"], "every sequence of Parse calls and caller-side modifications of results up to a bound; every map iteration order",
  "Leaks between calls need particular histories; map order is random in tests and cannot be enumerated by them.",
  ["parser.go", "core/const.go", "core/rules.go", "postprocess/normalize.go"], ["package-level variables", "parser constants", "maps"],
  [("parser constants", P+"core/const.go"), ("shared parser", P+"parser.go"), ("map iterations", P+"postprocess/normalize.go: Normalize")],
  ["results of Parse along a history"])

p("P22", "A query survives the round trip through JSON",
  "Every accepted query (as long as its JSON fits in memory) can be encoded as JSON, the JSON decodes without error, and the decoded query equals the original in everything but in-memory back references (and source bytes that are not UTF-8, which JSON cannot hold), including the type and exact value of every literal (also inside lists), and encodes to the same JSON again. The same holds for query values built through the API with any value type the result types define, including blobs, time ranges and hints.",
  ["inputs"], "every accepted query text and every value of the public result types over a small alphabet",
  "Each value type, nesting position and flag has its own decoding path; the tests compare the encodings of a few queries only.",
  ["types/marshaller.go", "types/marshalhelper.go", "types/types.go"], ["JSON form of a query"],
  [("custom encoders and decoders", P+"types/marshaller.go, "+P+"types/marshalhelper.go")],
  ["json.Marshal and json.Unmarshal of SoqlQuery"])

p("P23", "The WebAssembly entry point returns what the Go function returns",
  "The JavaScript function parseSoql returns, for every text (of a size and depth the module has memory for) and any sequence of calls, the indented JSON of the query the Go function returns for that text, or the text of its error, also when called without argument; it never throws and keeps working after errors.",
  ["inputs", "histories"], "every text and every call sequence up to a bound, on the compiled module",
  "The module is not exercised by any test.",
  ["wasm/main.go", "parser.go"], ["exported JavaScript functions"],
  [("export", "wasm/main.go: parseSoql")],
  ["return value of globalThis.parseSoql"])

p("P24", "Parsing effort grows moderately with the length of the text",
  "Parsing always terminates, and doubling any repeated part of a text (nesting depth of parentheses, functions, subqueries or comments, number of selected fields, conditions, list items, sort keys, objects or the length of a path, string or layout) increases the work at most tenfold: no family of inputs takes exponential effort. Once a text has been parsed and its result is dropped, parsing keeps no memory that depends on the text.",
  ["inputs"], "every repetition family built from one or two repeated constructs, accepted or rejected",
  "Backtracking blow-ups only show on inputs longer than those in tests and on failing inputs.",
  ["core/expressions1.go", "core/expressions2.go", "core/elements.go", "postprocess/normalize.go"], ["backtracking points of the grammar"],
  [("ordered choice without re-parsing", P+"core/*.go"), ("graph propagation", P+"postprocess/normalize.go: Normalize")],
  ["number of parser steps (counted by instrumentation)"],
  "none in /repo: the parser library is instrumented at build time through an instrumented copy of the sources (go build -modfile)")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
