From 7660738dc099d88c60faeb28c8e9a5d2841d8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:37 +0000
Subject: [PATCH 01/31] fix: NOT inverted every preceding condition instead of
 its operand only

---
 soql/parser/postprocess/normalize2.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..4e6ca5e 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,30 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+// Get the start position of the operand that ends at the position `end`. (reverse polish notation)
+func getOperandStartPos(conditions []SoqlCondition, end int) int {
+	pos := end
+	for n := 1; pos >= 0; pos-- {
+		switch conditions[pos].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// do nothing
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			n--
+		default:
+			n++
+		}
+		if n == 0 {
+			break
+		}
+	}
+	return pos
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := getOperandStartPos(conditions, i-1); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From 265e38847ec8a9786744db7728b4979d59546adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:39 +0000
Subject: [PATCH 02/31] fix: AND did not bind tighter than a following OR

---
 soql/parser/core/expressions2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..975162b 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -203,7 +203,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					Indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -355,7 +355,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						Indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From 0d72ee9714120520ded1f6b6ed0ddd29cffb6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 03/31] fix: NOT IN and NOT LIKE lost their operator

---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 975162b..7f124f8 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From 81e5bf6d6697b1b2f5d2e2d4e7edb9d42ac49c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 04/31] fix: FOR VIEW and FOR REFERENCE were reported as FOR
 UPDATE too

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From 289aa16749ae3b657561757bfc32d72955c044cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:05 +0000
Subject: [PATCH 05/31] fix: FOR was taken for an object alias when the object
 has none

---
 soql/parser/core/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..a650bbe 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,12 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(
+				SeqI("for"),
+				sp1(),
+				First(SeqI("view"), SeqI("reference"), SeqI("update")),
+				WordBoundary(),
+			),
 		),
 		Concat,
 	)
-- 
2.43.0


From 46d26e41d7282a00367f3ef8b5b0f488e1425349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 06/31] fix: JSON with a date literal name in a list could not
 be read back

---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From e871a7f5dac1f86ecfa92d01f3da43ddaa476b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 07/31] fix: GROUP BY did not find a field alias written in
 another case

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..6b24814 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From ce85fc1e13553c69bf716de00f70f0a3a9a82f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 08/31] fix: ungrouped fields were accepted when they precede
 COUNT in the select list

---
 soql/parser/postprocess/normalize.go  | 8 ++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 6b24814..9671be7 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -129,6 +129,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	for i := 0; i < len(q.Fields); i++ {
 		field := q.Fields[i]
 
@@ -227,10 +231,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..e914461 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From 1ce2f50dcfa5a9a0e5fbb42b84c839c7f5590b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:28 +0000
Subject: [PATCH 09/31] fix: COUNT() was not marked as aggregated

---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index e914461..e8bf861 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -271,7 +271,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			if conf.isHavingClause || (conf.isSelectClause && q.IsAggregation) {
 				// If the parameter contains items and not all parameters are functions, it is an aggregate function.
 
-				aggregated := false
+				aggregated := field.Aggregated
 			FN_HAVING_OUTER:
 				for i := 0; i < len(field.Parameters); i++ {
 					switch field.Parameters[i].Type {
-- 
2.43.0


From dd2b35ac6ee4a569f2fb83f0b5e6d4060741cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 10/31] fix: parameters and date literals in lists were missing
 from the meta information

---
 soql/parser/postprocess/normalize1.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index e8bf861..35a9540 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -319,6 +319,15 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				"The fields() is not allowed in conditional clause or function parameter: " +
 					strings.Join(field.Name, "."))
 		}
+	case SoqlFieldInfo_Literal_List:
+		for _, item := range field.Value.([]SoqlListItem) {
+			switch item.Type {
+			case SoqlFieldInfo_ParameterizedValue:
+				ctx.parameters[strings.ToLower(item.Value.(string))] = struct{}{}
+			case SoqlFieldInfo_DateTimeLiteralName:
+				ctx.dateTimeLiterals[strings.ToLower(item.Value.(SoqlDateTimeLiteralName).Name)] = struct{}{}
+			}
+		}
 	case SoqlFieldInfo_ParameterizedValue:
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
-- 
2.43.0


From d5ecea3d6061531e8fcc6f5172c037eda218331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 11/31] fix: one parameter was listed twice in the meta
 information when its case differs

---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 9671be7..814da70 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 07d63a1c14d801fdd2188b1654b03838f4e8d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 12/31] fix: the primary object of a conditional subquery was
 marked as inner joined

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 814da70..3fc524e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -467,7 +467,7 @@ func Normalize(q *SoqlQuery) error {
 			next := leaf.ParentViewId
 			for next != 0 {
 				l2 := ctx.viewGraph[next]
-				if l2.Depth == 1 || l2.Many || l2.QueryId != leaf.QueryId {
+				if l2.Depth == 1 || l2.ParentViewId == 0 || l2.Many || l2.QueryId != leaf.QueryId {
 					break
 				}
 				l2.InnerJoin = true
-- 
2.43.0


From 93e26f1317e4d7e94905a7c2132e8ce0ed4a6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 13/31] fix: ordering or grouping by the alias of a function or
 subquery duplicated the column

---
 soql/parser/postprocess/normalize2.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index 4e6ca5e..035e425 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -2,6 +2,7 @@ package postprocess
 
 import (
 	"strconv"
+	"strings"
 
 	"github.com/shellyln/go-nameutil/nameutil"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
@@ -87,6 +88,10 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
+		if q.OrderBy[i].Field.Type != SoqlFieldInfo_Field {
+			// It is an alias of a function or a subquery in the select clause.
+			continue
+		}
 		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
 		if _, ok := fieldMap[key]; !ok {
 			f := q.OrderBy[i].Field
@@ -207,6 +212,19 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 	}
 }
 
+// The alias of a function or a subquery refers to the same column as the select clause field.
+func applyAliasedColumnId(q *SoqlQuery, field *SoqlFieldInfo) {
+	if field.Type == SoqlFieldInfo_Field || field.AliasName == "" {
+		return
+	}
+	for i := 0; i < len(q.Fields); i++ {
+		if strings.EqualFold(q.Fields[i].AliasName, field.AliasName) {
+			*field = q.Fields[i]
+			break
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	// Apply ColumnId to Select clause fields
@@ -217,11 +235,13 @@ func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	for i := 0; i < len(q.OrderBy); i++ {
 		field := &q.OrderBy[i].Field
+		applyAliasedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
 	for i := 0; i < len(q.GroupBy); i++ {
 		field := &q.GroupBy[i]
+		applyAliasedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
-- 
2.43.0


From 6601f3c5a4fd2f232a54fde69025d2cbdb90f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 14/31] fix: conditional subqueries on the same object shared
 one view id

---
 soql/parser/postprocess/normalize.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 3fc524e..dbe47f4 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -392,6 +392,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// Views and columns of each conditional subquery are its own.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -413,6 +418,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// Views and columns of each conditional subquery are its own.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From ff1bd2341e56e646e0b9249b5a50191565fbba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:16 +0000
Subject: [PATCH 15/31] fix: the execution plan lost a part of an OR that spans
 objects

---
 soql/parser/postprocess/normalizeperobj.go | 35 ++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..29526bf 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -242,16 +242,51 @@ CHECK_FIELDS:
 	return hasConditionsOriginally, conditions, innerJoined
 }
 
+// Mark the "or" operations that are not completely evaluated by any one object.
+// The per-object conditions are weaker than them, so they should be evaluated in the post-process.
+func markPartiallyEvaluatedOrs(q *SoqlQuery) []bool {
+	marks := make([]bool, len(q.Where))
+
+	for i := range q.Where {
+		if q.Where[i].Opcode != SoqlConditionOpcode_Or {
+			continue
+		}
+		startPos := getOperandStartPos(q.Where, i)
+
+		evaluated := false
+		for j := 0; j < len(q.From) && !evaluated; j++ {
+			evaluated = true
+			for k := startPos; k <= i; k++ {
+				switch q.From[j].PerObjectQuery.Where[k].Opcode {
+				case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
+					evaluated = false
+				}
+			}
+		}
+		if !evaluated {
+			for k := startPos; k <= i; k++ {
+				marks[k] = true
+			}
+		}
+	}
+	return marks
+}
+
 func makePostProcessWhereClause(q *SoqlQuery) error {
 	postProcessWhere := make([]SoqlCondition, 0, len(q.Where))
 	postProcessWhere = append(postProcessWhere, q.Where...)
 
+	partiallyEvaluated := markPartiallyEvaluatedOrs(q)
+
 	for i := 0; i < len(q.From); i++ {
 		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {
 			switch q.From[i].PerObjectQuery.Where[j].Opcode {
 			case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
 				// do nothing
 			default:
+				if partiallyEvaluated[j] {
+					break
+				}
 				// The object is inner-joined.
 				postProcessWhere[j].Opcode = SoqlConditionOpcode_Noop
 			}
-- 
2.43.0


From fb1fac90a8c20e119a3c32e6d60ba4e8771f41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 16/31] fix: concurrent Parse calls raced on the lazily built
 sub-parsers

---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  8 ++++----
 soql/parser/core/helpers.go      | 11 +++++++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 7f124f8..0132b20 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -204,7 +204,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpressionInnerRoot),
+					indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -335,7 +335,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 					First(
 						FlatGroup(
 							sp0(),
-							Indirect(havingConditionExpression),
+							indirect(havingConditionExpression),
 							erase(CharClass(")")),
 							sp0(),
 						),
@@ -356,7 +356,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpressionInnerRoot),
+						indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..b73de6c 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
@@ -41,6 +42,16 @@ func makeOpMatcher(className string, ops []string) func(c interface{}) bool {
 	}
 }
 
+// Goroutine-safe version of `Indirect`.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() { parser = fn() })
+		return parser(ctx)
+	}
+}
+
 func anyOperand() ParserFn {
 	return Trans(objparser.Any(), unwrapOperandItem)
 }
-- 
2.43.0


From eb0e6f4e4ab082eaa2ffa2e9dcdbbefd260a80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 17/31] fix: queries with Infinity or NaN could not be
 converted to JSON

---
 soql/parser/types/marshalhelper.go | 22 ++++++++++++++++++++++
 soql/parser/types/marshaller.go    | 12 ++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index 4cb9e93..e29d222 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -2,9 +2,26 @@ package types
 
 import (
 	"encoding/json"
+	"math"
+	"strconv"
 	"time"
 )
 
+// JSON has no notation for non-finite numbers.
+func marshalableValue(value interface{}) interface{} {
+	if v, ok := value.(float64); ok {
+		switch {
+		case math.IsNaN(v):
+			return "NaN"
+		case math.IsInf(v, 1):
+			return "Infinity"
+		case math.IsInf(v, -1):
+			return "-Infinity"
+		}
+	}
+	return value
+}
+
 func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
 	case SoqlFieldInfo_Literal_Null:
@@ -19,6 +36,11 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 		}
 	case SoqlFieldInfo_Literal_Float:
 		{
+			var s string
+			if err := json.Unmarshal(b, &s); err == nil {
+				// Infinity, -Infinity, NaN
+				return strconv.ParseFloat(s, 64)
+			}
 			var v float64
 			if err := json.Unmarshal(b, &v); err != nil {
 				return nil, err
diff --git a/soql/parser/types/marshaller.go b/soql/parser/types/marshaller.go
index b882105..c1b9985 100644
--- a/soql/parser/types/marshaller.go
+++ b/soql/parser/types/marshaller.go
@@ -19,6 +19,12 @@ func (t *SoqlFieldInfoType) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (t SoqlFieldInfo) MarshalJSON() ([]byte, error) {
+	type plain SoqlFieldInfo
+	t.Value = marshalableValue(t.Value)
+	return json.Marshal(plain(t))
+}
+
 func (t *SoqlFieldInfo) UnmarshalJSON(b []byte) error {
 	t2 := &soqlFieldInfo_unmarshal{}
 	if err := json.Unmarshal(b, t2); err != nil {
@@ -47,6 +53,12 @@ func (t *SoqlFieldInfo) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (t SoqlListItem) MarshalJSON() ([]byte, error) {
+	type plain SoqlListItem
+	t.Value = marshalableValue(t.Value)
+	return json.Marshal(plain(t))
+}
+
 func (t *SoqlListItem) UnmarshalJSON(b []byte) error {
 	t2 := &soqlFieldInfo_unmarshal{}
 	if err := json.Unmarshal(b, t2); err != nil {
-- 
2.43.0


From c6f5ae5f4484691bb65e0f23c580c960a3141e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 18/31] fix: date-times whose UTC year is out of range could
 not be converted to JSON

---
 soql/parser/core/elements.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a650bbe..d503925 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"strings"
 	"time"
 
@@ -300,6 +301,9 @@ func dateTimeValue() ParserFn {
 			if err != nil {
 				return nil, err
 			}
+			if y := t.UTC().Year(); y < 0 || y > 9999 {
+				return nil, errors.New("The year is out of range: " + value)
+			}
 			return AstSlice{{
 				ClassName: class.DateTime,
 				Type:      AstType_Any,
-- 
2.43.0


From c15e3606ac4184d20a6682a7bc5c65281f4bb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 19/31] fix: Parse panicked on a function parameter naming an
 ancestor field like the relationship

---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 35a9540..520dc7a 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -131,7 +131,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				}
 
 				for i := 0; i < len(q.From[0].Name); i++ {
-					if q.From[0].Name[i] != field.Name[i] {
+					if i >= len(field.Name) || q.From[0].Name[i] != field.Name[i] {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
 								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From 4615fcad3ce3336eece2b897e19edd8aa428c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 20/31] fix: an object was listed twice when a longer
 relationship path precedes it in FROM

---
 soql/parser/postprocess/normalize.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index dbe47f4..16f75d7 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -104,6 +104,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// Remove objects that are declared or implied more than once.
+	objectKeys := make(map[string]struct{})
+	objects := make([]SoqlObjectInfo, 0, len(q.From))
+	for i := 0; i < len(q.From); i++ {
+		if _, ok := objectKeys[q.From[i].Key]; !ok {
+			objectKeys[q.From[i].Key] = struct{}{}
+			objects = append(objects, q.From[i])
+		}
+	}
+	q.From = objects
+
 	groupingFields := make(map[string]struct{})
 
 	if q.GroupBy != nil {
-- 
2.43.0


From 77d42235c9fbfe982cb46ad9a4934da4f7e3bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 21/31] fix: the view of a subquery on a relationship of a
 parent object had no parent view

---
 soql/parser/postprocess/normalize.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 16f75d7..5d74aa4 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -280,6 +280,14 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		return err
 	}
 
+	// The parent object is not always in front of the child object.
+	for i := 0; i < len(q.From); i++ {
+		if _, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
+			ctx.viewIdMap[q.From[i].Key] = ctx.viewId
+			ctx.viewId++
+		}
+	}
+
 	for i := 0; i < len(q.From); i++ {
 		if viewId, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
 			q.From[i].ViewId = ctx.viewId
-- 
2.43.0


From f0490b6b71023d5561b4fba77a8150690f04b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 22/31] fix: a correlated subquery could not refer to a field
 of the grandparent query

---
 soql/parser/postprocess/normalize3.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..6767e40 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -24,19 +24,19 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				if fields[i].ColIndex == -1 {
 					isSet := false
 
-					if q.Parent != nil {
+					for parent := q.Parent; parent != nil && !isSet; parent = parent.Parent {
 						ns := nameutil.GetNamespaceFromName(fields[i].Name)
 						nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
 
-						for j := range q.Parent.From {
-							if q.Parent.From[j].Key == nsKey {
-								idx := len(q.Parent.From[j].PerObjectQuery.Fields)
+						for j := range parent.From {
+							if parent.From[j].Key == nsKey {
+								idx := len(parent.From[j].PerObjectQuery.Fields)
 
 								ctx.colIndexMap[fields[i].Key] = idx
 								fields[i].ColIndex = idx
 
-								q.Parent.Fields = append(q.Parent.Fields, fields[i])
-								q.Parent.From[j].PerObjectQuery.Fields = append(q.Parent.From[j].PerObjectQuery.Fields, fields[i])
+								parent.Fields = append(parent.Fields, fields[i])
+								parent.From[j].PerObjectQuery.Fields = append(parent.From[j].PerObjectQuery.Fields, fields[i])
 
 								// TODO: Delete fields[i] and shift the following?
 
-- 
2.43.0


From d2ede44ec4de0ceb62af3aba66d5204f4e3526c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 23/31] fix: a field needed by a correlated subquery could
 appear as selected by the outer query

---
 soql/parser/postprocess/normalize3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 6767e40..e594b6a 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -35,8 +35,10 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 								ctx.colIndexMap[fields[i].Key] = idx
 								fields[i].ColIndex = idx
 
-								parent.Fields = append(parent.Fields, fields[i])
-								parent.From[j].PerObjectQuery.Fields = append(parent.From[j].PerObjectQuery.Fields, fields[i])
+								field := fields[i]
+								field.NotSelected = true
+								parent.Fields = append(parent.Fields, field)
+								parent.From[j].PerObjectQuery.Fields = append(parent.From[j].PerObjectQuery.Fields, field)
 
 								// TODO: Delete fields[i] and shift the following?
 
-- 
2.43.0


From 142b9df10e5657f8154c012e461a5301715b4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 24/31] fix: a subquery that refers to another object of the
 enclosing query was not correlated

---
 soql/parser/postprocess/normalize3.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index e594b6a..84b3a83 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -8,6 +8,19 @@ import (
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// The field does not belong to any object of the query, but to an object of the enclosing queries.
+func isOuterField(q *SoqlQuery, field *SoqlFieldInfo) bool {
+	ns := nameutil.GetNamespaceFromName(field.Name)
+	nsKey := nameutil.MakeDottedKeyIgnoreCase(ns, len(ns))
+
+	for i := range q.From {
+		if q.From[i].Key == nsKey {
+			return false
+		}
+	}
+	return true
+}
+
 func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []SoqlFieldInfo) error {
 	for i := range fields {
 		switch fields[i].Type {
@@ -18,7 +31,7 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			if isOuterField(q, &fields[i]) {
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
-- 
2.43.0


From db441f61b575e58a5f25792d368a85f7d98c52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 25/31] fix: a subquery could select a field set of an
 enclosing query's object

---
 soql/parser/postprocess/normalize1.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 520dc7a..4d10405 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -225,6 +225,14 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				s = append(s, field.Name[len(field.Name)-1])
 				field.Name = s
 
+				if len(field.Name) <= len(q.From[0].Name) ||
+					!nameutil.NameEqualsIgnoreCase(q.From[0].Name, field.Name[:len(q.From[0].Name)]) {
+					return errors.New(
+						"The ancestor or siblings object items are not allowed to be selected: " +
+							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
+					)
+				}
+
 			case "count":
 				switch len(field.Parameters) {
 				case 0:
-- 
2.43.0


From a5cecd8f1d6670e4c2f240efb88a0cd3913eca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 26/31] fix: subqueries on the same relationship shared view
 and column ids

---
 soql/parser/postprocess/normalize.go | 40 ++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5d74aa4..23b114e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -27,6 +27,39 @@ type normalizeQueryContext struct {
 	dateTimeLiterals   map[string]struct{}
 }
 
+// Hide the view and its columns that another query has registered under the same name.
+// The returned function restores them.
+func (ctx *normalizeQueryContext) hideView(key string) func() {
+	viewId, hidden := ctx.viewIdMap[key]
+	if !hidden {
+		return func() {}
+	}
+	delete(ctx.viewIdMap, key)
+
+	hideColumns := func(m map[string]int) map[string]int {
+		columns := make(map[string]int)
+		for k, v := range m {
+			if strings.LastIndexByte(k, '.') == len(key) && strings.HasPrefix(k, key) {
+				columns[k] = v
+				delete(m, k)
+			}
+		}
+		return columns
+	}
+	columnIds := hideColumns(ctx.columnIdMap)
+	colIndexes := hideColumns(ctx.colIndexMap)
+
+	return func() {
+		ctx.viewIdMap[key] = viewId
+		for k, v := range columnIds {
+			ctx.columnIdMap[k] = v
+		}
+		for k, v := range colIndexes {
+			ctx.colIndexMap[k] = v
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) normalizeQuery(
 	qPlace soqlQueryPlace, q, callParentQuery *SoqlQuery, queryDepth int, objNameMap map[string][]string) error {
 
@@ -280,6 +313,13 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		return err
 	}
 
+	if qPlace == soqlQueryPlace_Select {
+		// Views and columns of each subquery are its own.
+		for i := 0; i < len(q.From); i++ {
+			defer ctx.hideView(q.From[i].Key)()
+		}
+	}
+
 	// The parent object is not always in front of the child object.
 	for i := 0; i < len(q.From); i++ {
 		if _, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
-- 
2.43.0


From b95d4775ca743a66ddecb844485b2946c3e660ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 27/31] fix: every nesting depth built and kept its own copy of
 the grammar

---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  8 ++++----
 soql/parser/core/helpers.go      | 20 ++++++++++++++++++++
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 4c07af5..e1b52ab 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							indirect(selectFieldFunctionCall),
+							selectFieldFunctionCallRef,
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								indirect(selectFieldFunctionCall),
+								selectFieldFunctionCallRef,
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			indirect(subQuerySelectStatement),
+			subQuerySelectStatementRef,
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 0132b20..d2c6e7d 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						indirect(whereConditionExpression),
+						whereConditionExpressionRef,
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -204,7 +204,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					indirect(whereConditionExpressionInnerRoot),
+					whereConditionExpressionInnerRootRef,
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -335,7 +335,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 					First(
 						FlatGroup(
 							sp0(),
-							indirect(havingConditionExpression),
+							havingConditionExpressionRef,
 							erase(CharClass(")")),
 							sp0(),
 						),
@@ -356,7 +356,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						indirect(havingConditionExpressionInnerRoot),
+						havingConditionExpressionInnerRootRef,
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index b73de6c..0662604 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -52,6 +52,26 @@ func indirect(fn func() ParserFn) ParserFn {
 	}
 }
 
+// The parsers the grammar recurses into. Each is built once and shared by all places and nesting levels;
+// otherwise every nesting depth would build, and keep, its own copy of the grammar.
+var (
+	subQuerySelectStatementRef            ParserFn
+	selectFieldFunctionCallRef            ParserFn
+	whereConditionExpressionRef           ParserFn
+	whereConditionExpressionInnerRootRef  ParserFn
+	havingConditionExpressionRef          ParserFn
+	havingConditionExpressionInnerRootRef ParserFn
+)
+
+func init() {
+	subQuerySelectStatementRef = indirect(subQuerySelectStatement)
+	selectFieldFunctionCallRef = indirect(selectFieldFunctionCall)
+	whereConditionExpressionRef = indirect(whereConditionExpression)
+	whereConditionExpressionInnerRootRef = indirect(whereConditionExpressionInnerRoot)
+	havingConditionExpressionRef = indirect(havingConditionExpression)
+	havingConditionExpressionInnerRootRef = indirect(havingConditionExpressionInnerRoot)
+}
+
 func anyOperand() ParserFn {
 	return Trans(objparser.Any(), unwrapOperandItem)
 }
-- 
2.43.0


From 7c10581f5aec2147064c9352bfd4d021f9c7cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 28/31] fix: keep the AND of two conditions that both remain in
 the post-process filter

The AND was dropped if an object evaluates it on its own parts of both
operands. Two values were left on the stack then.
---
 soql/parser/postprocess/normalizeperobj.go | 54 ++++++++++++++--------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index 29526bf..2ea25fc 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -293,35 +293,49 @@ func makePostProcessWhereClause(q *SoqlQuery) error {
 		}
 	}
 
-	for sp, i := 0, 0; i < len(postProcessWhere); i++ {
-		switch postProcessWhere[i].Opcode {
+	// remains[k]: the k-th operand on the stack is (partially) left to the post-process.
+	remains := make([]bool, 0, len(q.Where))
+
+	for i := 0; i < len(postProcessWhere); i++ {
+		switch q.Where[i].Opcode {
 		case SoqlConditionOpcode_Noop:
 			// do nothing
 		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
-			sp++
+			remains = append(remains, postProcessWhere[i].Opcode != SoqlConditionOpcode_Noop)
 		case SoqlConditionOpcode_Not:
-			if sp == 0 {
+			if !remains[len(remains)-1] {
 				postProcessWhere[i].Opcode = SoqlConditionOpcode_Noop
 			}
 		case SoqlConditionOpcode_And:
-			if sp < 2 {
-				// The logical operation between two inner-joined objects is always true.
-				// because it is filtered by each object in advance and
-				// combinations that are false are eliminated by table joining.
-				postProcessWhere[i].Opcode = SoqlConditionOpcode_Noop
-			} else {
-				sp--
+			{
+				op1 := remains[len(remains)-2]
+				op2 := remains[len(remains)-1]
+				remains = append(remains[:len(remains)-2], op1 || op2)
+
+				if op1 && op2 {
+					// Even if an object evaluates this operation, it does so on its own parts of the operands.
+					postProcessWhere[i].Opcode = SoqlConditionOpcode_And
+				} else {
+					// The logical operation between two inner-joined objects is always true.
+					// because it is filtered by each object in advance and
+					// combinations that are false are eliminated by table joining.
+					postProcessWhere[i].Opcode = SoqlConditionOpcode_Noop
+				}
 			}
 		default:
-			if sp < 2 {
-				return errors.New(
-					"[FATAL]Internal error: " +
-						"The operand for the binary operator is missing " +
-						"in the Where clause of the post-process filter: " +
-						"n=" + strconv.Itoa(sp),
-				)
-			} else {
-				sp--
+			{
+				op1 := remains[len(remains)-2]
+				op2 := remains[len(remains)-1]
+				remains = append(remains[:len(remains)-2], op1 && op2)
+
+				if postProcessWhere[i].Opcode != SoqlConditionOpcode_Noop && !(op1 && op2) {
+					return errors.New(
+						"[FATAL]Internal error: " +
+							"The operand for the binary operator is missing " +
+							"in the Where clause of the post-process filter: " +
+							"pos=" + strconv.Itoa(i),
+					)
+				}
 			}
 		}
 	}
-- 
2.43.0


From d623c1b25974bb2ac84e7c44ae4f3a334869f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 29/31] fix: an alias that equals the name of another object
 was resolved repeatedly

Names that were already replaced by the name of the entity were looked up
again, so that an alias like the primary object's name was applied more than
once, captured unqualified fields, and could make Parse run for ever.
---
 soql/parser/postprocess/normalize.go  |  7 ++++--
 soql/parser/postprocess/normalize1.go | 34 +++++++++++++++------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 23b114e..106c53b 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -106,8 +106,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 	objectAliasMap := make(map[string]*SoqlObjectInfo)
 
-	for i := 0; i < len(q.From); i++ {
+	// NOTE: normalizeObjectName appends implied objects, which are already normalized.
+	for i, n := 0, len(q.From); i < n; i++ {
 		object := q.From[i]
+		resolved := 0 // number of leading components that are already an entity name
 
 		if i != 0 || !(qPlace == soqlQueryPlace_Primary || qPlace == soqlQueryPlace_ConditionalOperand) {
 			key := nameutil.MakeDottedKeyIgnoreCase(object.Name, 1)
@@ -118,10 +120,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 				s = append(s, primaryObjectName...)
 				s = append(s, object.Name...)
 				object.Name = s
+				resolved = len(primaryObjectName)
 			}
 		}
 
-		if err := ctx.normalizeObjectName(&object, q, objNameMap); err != nil {
+		if err := ctx.normalizeObjectName(&object, q, objNameMap, resolved); err != nil {
 			return err
 		}
 		q.From[i] = object
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 4d10405..ecc2d0f 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -45,7 +45,8 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	groupingFields map[string]struct{},
 	conf normalizeFieldNameConf) error {
 
-	qualifyName := func() {
+	// Returns the name of the entity that the field belongs to, if it is known.
+	lookupEntity := func() ([]string, bool) {
 		if len(field.Name) == 1 {
 			// The field name is not qualified by an entity name or alias name.
 
@@ -53,16 +54,16 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			copy(s, q.From[0].Name)
 			s = append(s, field.Name...)
 			field.Name = s
+			return q.From[0].Name, true
 		}
+		s, ok := objNameMap[nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1)]
+		return s, ok
 	}
 
 	switch field.Type {
 	case SoqlFieldInfo_Field:
 		{
-			qualifyName()
-
-			key := nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1)
-			fullyQualifiedName, ok := objNameMap[key]
+			fullyQualifiedName, ok := lookupEntity()
 
 			if !ok {
 				// Implicit declaration of relationship name.
@@ -70,7 +71,9 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				currentName := make([]string, len(field.Name))
 				copy(currentName, field.Name)
 
-				key = nameutil.MakeDottedKeyIgnoreCase(currentName, 1)
+				resolved := 0 // number of leading components that are already an entity name
+
+				key := nameutil.MakeDottedKeyIgnoreCase(currentName, 1)
 				if _, ok = objNameMap[key]; !ok {
 					// currentName does not start with a known entity name or alias name.
 
@@ -78,9 +81,10 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 					s = append(s, q.From[0].Name...)
 					s = append(s, currentName...)
 					currentName = s
+					resolved = len(q.From[0].Name)
 				}
 
-				for i := 0; i < len(currentName)-1; i++ {
+				for i := resolved; i < len(currentName)-1; i++ {
 					s := currentName[:i+1]
 					key := nameutil.MakeDottedKeyIgnoreCase(s, i+1)
 					if fullyQualifiedName, ok = objNameMap[key]; !ok {
@@ -107,11 +111,12 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 						s = append(s, fullyQualifiedName...)
 						s = append(s, currentName[i+1:]...)
 						currentName = s
+						i = len(fullyQualifiedName) - 1 // An entity name is not an alias name.
 					}
 				}
 
 				field.Name = currentName
-				key := nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1)
+				key = nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1)
 				fullyQualifiedName = objNameMap[key]
 			}
 
@@ -208,10 +213,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				field.AliasName = ""
 				field.Parameters = nil
 
-				qualifyName()
-
-				key := nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1)
-				fullyQualifiedName, ok := objNameMap[key]
+				fullyQualifiedName, ok := lookupEntity()
 
 				if !ok {
 					return errors.New(
@@ -346,12 +348,12 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 }
 
 func (ctx *normalizeQueryContext) normalizeObjectName(
-	object *SoqlObjectInfo, q *SoqlQuery, objNameMap map[string][]string) error {
+	object *SoqlObjectInfo, q *SoqlQuery, objNameMap map[string][]string, resolved int) error {
 
 	currentName := make([]string, len(object.Name))
 	copy(currentName, object.Name)
 
-	{
+	if resolved == 0 {
 		key := nameutil.MakeDottedKeyIgnoreCase(currentName, 1)
 		if fullyQualifiedName, ok := objNameMap[key]; ok {
 			// Replace the alias name with the entity name to normalize it.
@@ -361,10 +363,11 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 			s = append(s, fullyQualifiedName...)
 			s = append(s, currentName[1:]...)
 			currentName = s
+			resolved = fqnLen
 		}
 	}
 
-	for i := 0; i < len(currentName)-1; i++ {
+	for i := resolved; i < len(currentName)-1; i++ {
 		s := currentName[:i+1]
 		key := nameutil.MakeDottedKeyIgnoreCase(s, i+1)
 		if fullyQualifiedName, ok := objNameMap[key]; !ok {
@@ -382,6 +385,7 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 			s = append(s, fullyQualifiedName...)
 			s = append(s, currentName[i+1:]...)
 			currentName = s
+			i = len(fullyQualifiedName) - 1 // An entity name is not an alias name.
 		}
 	}
 
-- 
2.43.0


From 98b87fac7332c86631325c07fa985a119bdf9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 30/31] fix: null, booleans and date literals as function
 parameters were read as field names

---
 soql/parser/core/expressions1.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index e1b52ab..04d2c43 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -55,8 +55,8 @@ func selectFieldFunctionCall() ParserFn {
 					ZeroOrOnce(
 						First(
 							selectFieldFunctionCallRef,
-							complexSymbolName(),
 							literalValue(),
+							complexSymbolName(),
 						),
 						ZeroOrMoreTimes(
 							sp0(),
@@ -64,8 +64,8 @@ func selectFieldFunctionCall() ParserFn {
 							sp0(),
 							First(
 								selectFieldFunctionCallRef,
-								complexSymbolName(),
 								literalValue(),
+								complexSymbolName(),
 							),
 						),
 						sp0(),
@@ -96,12 +96,20 @@ func selectFieldFunctionCall() ParserFn {
 						}
 
 						switch ty {
-						case SoqlFieldInfo_ParameterizedValue, SoqlFieldInfo_DateTimeLiteralName:
+						case SoqlFieldInfo_ParameterizedValue:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
 								ClassName: asts[i].ClassName,
 								Name:      []string{asts[i].Value.(string)},
 							}
+						case SoqlFieldInfo_DateTimeLiteralName:
+							v := asts[i].Value.(SoqlDateTimeLiteralName)
+							z[i-1] = SoqlFieldInfo{
+								Type:      ty,
+								ClassName: asts[i].ClassName,
+								Name:      []string{v.Name},
+								Value:     v,
+							}
 						default:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
-- 
2.43.0


From 07b2654a23a90392d1babf10da31f2a1f17e4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 31/31] fix: escapes of surrogate pairs and beyond Unicode were
 read as replacement characters

---
 soql/parser/core/elements.go | 47 +++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index d503925..3a46764 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -2,8 +2,11 @@ package core
 
 import (
 	"errors"
+	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/shellyln/go-open-soql-parser/soql/parser/core/class"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
@@ -187,6 +190,33 @@ func numberValue() ParserFn {
 	)
 }
 
+// A half of a UTF-16 surrogate pair.
+func surrogate(secondDigits ...string) ParserFn {
+	return Trans(
+		FlatGroup(
+			CharClass("d", "D"),
+			CharClass(secondDigits...),
+			Repeat(Times{Min: 2, Max: 2}, HexNumber()),
+		),
+		ParseIntRadix(16),
+	)
+}
+
+func stringFromSurrogatePair(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	r := utf16.DecodeRune(rune(asts[0].Value.(int64)), rune(asts[1].Value.(int64)))
+	return AstSlice{{
+		Type:  AstType_String,
+		Value: string(r),
+	}}, nil
+}
+
+func stringFromCodePoint(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	if r := rune(asts[0].Value.(int64)); !utf8.ValidRune(r) {
+		return nil, errors.New("The escape sequence is not a character: U+" + strconv.FormatInt(int64(r), 16))
+	}
+	return StringFromInt(ctx, asts)
+}
+
 func stringLiteralInner(cc string, multiline bool) ParserFn {
 	return FlatGroup(
 		erase(Seq(cc)),
@@ -204,13 +234,22 @@ func stringLiteralInner(cc string, multiline bool) ParserFn {
 						replaceStr(CharClass("f", "F"), "\f"),
 						replaceStr(CharClass("_"), "\\_"), // for Like expression
 						replaceStr(CharClass("%"), "\\%"), // for Like expression
+						Trans(
+							FlatGroup(
+								erase(CharClass("u")),
+								surrogate("8", "9", "a", "b", "A", "B"),
+								erase(Seq("\\u")),
+								surrogate("c", "d", "e", "f", "C", "D", "E", "F"),
+							),
+							stringFromSurrogatePair,
+						),
 						Trans(
 							FlatGroup(
 								erase(CharClass("u")),
 								Repeat(Times{Min: 4, Max: 4}, HexNumber()),
 							),
 							ParseIntRadix(16),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 						Trans(
 							FlatGroup(
@@ -219,7 +258,7 @@ func stringLiteralInner(cc string, multiline bool) ParserFn {
 								erase(CharClass("}")),
 							),
 							ParseIntRadix(16),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 						Trans(
 							FlatGroup(
@@ -227,14 +266,14 @@ func stringLiteralInner(cc string, multiline bool) ParserFn {
 								Repeat(Times{Min: 2, Max: 2}, HexNumber()),
 							),
 							ParseIntRadix(16),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 						Trans(
 							FlatGroup(
 								Repeat(Times{Min: 3, Max: 3}, OctNumber()),
 							),
 							ParseIntRadix(8),
-							StringFromInt,
+							stringFromCodePoint,
 						),
 					),
 				),
-- 
2.43.0

