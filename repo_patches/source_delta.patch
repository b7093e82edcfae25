From 5c983518156a1cf65f3ae5d9e66591a6b4e70485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:53 +0000
Subject: [PATCH 01/29] fix: give AND precedence over OR in mixed where/having
 conditions

The tail of a condition list was parsed as a complete expression of its own,
so 'a and b or c' was grouped as 'a and (b or c)' and a leading NOT of the tail
was applied independently of the declared precedences (not > and > or).
Parse the tail as part of the same flat operand/operator list.
---
 soql/parser/core/expressions2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..975162b 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -203,7 +203,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					Indirect(whereConditionExpressionInnerRoot),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -355,7 +355,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						Indirect(havingConditionExpressionInnerRoot),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From b535b1b71a75c87b04b9a2710c3ef5a204390eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 02/29] fix: apply NOT only to its own operand when
 distributing it

Distributing a NOT inverted every condition written before it
(e.g. 'a = 1 and not b = 2' became 'a != 1 or b != 2').
---
 soql/parser/postprocess/normalize2.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..462ec37 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,31 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+// Returns the position of the first element of the operand (in Reverse Polish Notation)
+// whose last element is at the position `end`.
+func getOperandStartPos(conditions []SoqlCondition, end int) int {
+	pos := end
+	for n := 1; pos >= 0; pos-- {
+		switch conditions[pos].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// do nothing
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			n--
+		default:
+			n++
+		}
+		if n == 0 {
+			break
+		}
+	}
+	return pos
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := getOperandStartPos(conditions, i-1); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From 8d31cf4b2ecf04b7752c922633f1fadf50b39122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 03/29] fix: recognize NOT IN and NOT LIKE as operators

The words of the two-word operators were not concatenated, so the operator
became a unary NOT and the comparison was lost.
---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 975162b..7f124f8 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From 107e61e5b05a84f1a0a9bb838ade68ea405bd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 04/29] fix: do not set Update for 'FOR VIEW' and 'FOR
 REFERENCE'

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From e712b0ea00aaca2a46bc4acebe30adb92dad87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:10 +0000
Subject: [PATCH 05/29] fix: accept the FOR clause after an object without an
 alias

'for' was taken as the alias name, so 'FROM Contact FOR VIEW' was rejected.
---
 soql/parser/core/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..a650bbe 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,12 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(
+				SeqI("for"),
+				sp1(),
+				First(SeqI("view"), SeqI("reference"), SeqI("update")),
+				WordBoundary(),
+			),
 		),
 		Concat,
 	)
-- 
2.43.0


From 1030bd8042416286d8fc05714f15cee389ffa732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 06/29] fix: unmarshal date literal names in lists as the
 parser builds them

A list item such as TODAY is marshalled as an object {name, n}, but a string
was expected on unmarshalling, so the JSON of 'x IN (TODAY)' could not be read.
---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From 986d600b79b3528377f349df2c76a6c5d126fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:54 +0000
Subject: [PATCH 07/29] fix: decide whether a query is an aggregation before
 checking its fields

'SELECT Id, COUNT() FROM Contact' was accepted whereas 'SELECT COUNT(), Id FROM
Contact' was rejected, because COUNT was found only after the preceding fields
had been checked; COUNT_DISTINCT was not looked for at all.
---
 soql/parser/postprocess/normalize.go  | 8 ++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..4d45478 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -127,6 +127,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
 	for i := 0; i < len(q.Fields); i++ {
@@ -227,10 +231,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..e914461 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From d74a629acf5d8be4bd054bdc9f24c8281aeb5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 08/29] fix: keep COUNT() without parameters marked as
 aggregated

---
 soql/parser/postprocess/normalize1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index e914461..dc8b1a1 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -282,7 +282,9 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 						break FN_HAVING_OUTER
 					}
 				}
-				field.Aggregated = aggregated
+				if aggregated {
+					field.Aggregated = true
+				}
 
 				for i := 0; i < len(field.Parameters); i++ {
 					// TODO: FIXIT: Extract this condition outside the loop.
-- 
2.43.0


From 3552f956dbb0f7f5ba9c1ab53b5328f741c222c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 09/29] fix: look up aliases in GROUP BY case-insensitively

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 4d45478..8e564ad 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -168,7 +168,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From a94e9fd4bb4c6cf8f4cde2d8dd46ed1b770789dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 10/29] fix: do not duplicate functions referred to by alias in
 ORDER BY / GROUP BY

Ordering or grouping by the alias of a function added the function to the
fields once more as an unselected one and gave each copy a column id of its own,
so that the sort key was not the selected column and duplicates went undetected.
---
 soql/parser/postprocess/normalize2.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index 462ec37..40284b9 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -87,6 +87,10 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
+		if q.OrderBy[i].Field.Type != SoqlFieldInfo_Field {
+			// It is an alias of the select clause item.
+			continue
+		}
 		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
 		if _, ok := fieldMap[key]; !ok {
 			f := q.OrderBy[i].Field
@@ -208,6 +212,19 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 	}
 }
 
+// If the field is an alias of a select clause item that is not a simple field, apply the ColumnId of the item.
+func applySelectedColumnId(q *SoqlQuery, field *SoqlFieldInfo) {
+	if field.Type == SoqlFieldInfo_Field || field.AliasName == "" {
+		return
+	}
+	for i := 0; i < len(q.Fields); i++ {
+		if q.Fields[i].Type == field.Type && q.Fields[i].AliasName == field.AliasName {
+			field.ColumnId = q.Fields[i].ColumnId
+			return
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	// Apply ColumnId to Select clause fields
@@ -218,11 +235,13 @@ func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	for i := 0; i < len(q.OrderBy); i++ {
 		field := &q.OrderBy[i].Field
+		applySelectedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
 	for i := 0; i < len(q.GroupBy); i++ {
 		field := &q.GroupBy[i]
+		applySelectedColumnId(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
-- 
2.43.0


From d4d51c3cc000add3dbd78cf98841e56c6d8c9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 11/29] fix: keep conditions that were filtered only partially
 in the post-process filter

For '(a = 1 and Account.b = 2) or c = 3' the object filter 'a = 1 or c = 3' is
weaker than the condition, but its parts were removed from the post-process
filter, which was left with 'Account.b = 2' only. Remove only the conjuncts that
one of the per object queries has completely filtered.
---
 soql/parser/postprocess/normalizeperobj.go | 39 +++++++++++++++++-----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..344c82d 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -242,21 +242,44 @@ CHECK_FIELDS:
 	return hasConditionsOriginally, conditions, innerJoined
 }
 
-func makePostProcessWhereClause(q *SoqlQuery) error {
-	postProcessWhere := make([]SoqlCondition, 0, len(q.Where))
-	postProcessWhere = append(postProcessWhere, q.Where...)
+// Remove conditions that have been completely filtered by one of the per object queries.
+func removeFilteredConditions(q *SoqlQuery, conditions []SoqlCondition, end int) {
+	if end < 0 {
+		return
+	}
 
+	if conditions[end].Opcode == SoqlConditionOpcode_And {
+		removeFilteredConditions(q, conditions, getOperandStartPos(conditions, end-1)-1)
+		removeFilteredConditions(q, conditions, end-1)
+		return
+	}
+
+	start := getOperandStartPos(conditions, end)
+
+NEXT_OBJECT:
 	for i := 0; i < len(q.From); i++ {
-		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {
+		for j := start; j <= end; j++ {
 			switch q.From[i].PerObjectQuery.Where[j].Opcode {
 			case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
-				// do nothing
-			default:
-				// The object is inner-joined.
-				postProcessWhere[j].Opcode = SoqlConditionOpcode_Noop
+				continue NEXT_OBJECT
 			}
 		}
+
+		// The object is inner-joined.
+		for j := start; j <= end; j++ {
+			conditions[j].Opcode = SoqlConditionOpcode_Noop
+		}
+		return
 	}
+}
+
+func makePostProcessWhereClause(q *SoqlQuery) error {
+	postProcessWhere := make([]SoqlCondition, 0, len(q.Where))
+	postProcessWhere = append(postProcessWhere, q.Where...)
+
+	// NOTE: Only conditions that are not a part of an operand other than `and` can be removed.
+	//       e.g. The left operand of `(Foo = 1 and Bar.Baz = 2) or Qux = 3` should not be removed.
+	removeFilteredConditions(q, postProcessWhere, len(postProcessWhere)-1)
 
 	for sp, i := 0, 0; i < len(postProcessWhere); i++ {
 		switch postProcessWhere[i].Opcode {
-- 
2.43.0


From a7d3fed6633dbab4eb5ae306782e6f97dc764f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 12/29] fix: collect parameters and date literals in lists into
 the meta information

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index dc8b1a1..af3f9c3 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -321,6 +321,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				"The fields() is not allowed in conditional clause or function parameter: " +
 					strings.Join(field.Name, "."))
 		}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := 0; i < len(items); i++ {
+				switch v := items[i].Value.(type) {
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				}
+			}
+		}
 	case SoqlFieldInfo_ParameterizedValue:
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
-- 
2.43.0


From de1bfd5c53f219dd91ef1596347e0154c4dd6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 13/29] fix: collect the parameter names of OFFSET and LIMIT in
 lower case

The names of all the other parameters are collected in lower case, so the same
parameter was listed twice if it was used in both places.
---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 8e564ad..b9e15d9 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 8f654227fb33310ce40bbc41c54fe7595f4d7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 14/29] fix: give each conditional subquery its own views and
 columns

Two conditional subqueries on an object of the same name shared their view and
column ids, and the view graph only knew the last one.
---
 soql/parser/postprocess/normalize.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index b9e15d9..9348370 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -383,15 +383,19 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	savedColumnIdMap := ctx.columnIdMap
 	savedColIndexMap := ctx.colIndexMap
 	savedHeadObjDepthOffset := ctx.headObjDepthOffset
-	ctx.viewIdMap = make(map[string]int)
-	ctx.columnIdMap = make(map[string]int)
-	ctx.colIndexMap = make(map[string]int)
+	resetMaps := func() {
+		// NOTE: Each subquery has its own views and columns, even if the objects have the same name.
+		ctx.viewIdMap = make(map[string]int)
+		ctx.columnIdMap = make(map[string]int)
+		ctx.colIndexMap = make(map[string]int)
+	}
 	ctx.headObjDepthOffset = len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				resetMaps()
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -413,6 +417,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				resetMaps()
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From c18c2f372eac0dd68ead550ad8dabeea620b32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 15/29] fix: allow concurrent calls of Parse

The parser combinators initialize recursive rules lazily without synchronization,
so sharing one parser between goroutines was a data race.
---
 soql/parser/parser.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/soql/parser/parser.go b/soql/parser/parser.go
index 683e1b1..f942275 100644
--- a/soql/parser/parser.go
+++ b/soql/parser/parser.go
@@ -4,6 +4,7 @@ package parser
 import (
 	"errors"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/shellyln/go-open-soql-parser/soql/parser/core"
@@ -13,12 +14,12 @@ import (
 	. "github.com/shellyln/takenoco/string"
 )
 
-var (
-	queryParser ParserFn
-)
-
-func init() {
-	queryParser = core.Query()
+// NOTE: The recursive rules of a parser are initialized when they are used for the first time,
+// therefore a parser should not be used by multiple goroutines at the same time.
+var queryParserPool = sync.Pool{
+	New: func() interface{} {
+		return core.Query()
+	},
 }
 
 func Parse(s string) (*types.SoqlQuery, error) {
@@ -28,6 +29,9 @@ func Parse(s string) (*types.SoqlQuery, error) {
 		Source:  s,
 	}
 
+	queryParser := queryParserPool.Get().(ParserFn)
+	defer queryParserPool.Put(queryParser)
+
 	out, err := queryParser(*NewStringParserContext(s))
 	if err != nil {
 		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
-- 
2.43.0


From 4c8dc8a2113df04bedb603a402de49ed24432c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 16/29] fix: list an object once even if its child is declared
 before it

'FROM Contact, Account.Owner o, Account a' listed Account twice.
---
 soql/parser/postprocess/normalize.go  |  3 +++
 soql/parser/postprocess/normalize1.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 9348370..71e1a69 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -104,6 +104,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// Remove objects implicitly registered before their explicit declaration.
+	q.From = removeDuplicateObjects(q.From)
+
 	groupingFields := make(map[string]struct{})
 
 	if q.GroupBy != nil {
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index af3f9c3..49215e1 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -343,6 +343,20 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	return nil
 }
 
+func removeDuplicateObjects(objects []SoqlObjectInfo) []SoqlObjectInfo {
+	keys := make(map[string]struct{})
+	z := make([]SoqlObjectInfo, 0, len(objects))
+
+	for i := 0; i < len(objects); i++ {
+		if _, ok := keys[objects[i].Key]; ok && objects[i].AliasName == "" {
+			continue
+		}
+		keys[objects[i].Key] = struct{}{}
+		z = append(z, objects[i])
+	}
+	return z
+}
+
 func (ctx *normalizeQueryContext) normalizeObjectName(
 	object *SoqlObjectInfo, q *SoqlQuery, objNameMap map[string][]string) error {
 
-- 
2.43.0


From 6e870a93ab20800becf7209fff0053d8c306513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 17/29] fix: do not mark the primary object of a conditional
 subquery as inner joined

The primary object was recognized by its depth, which is always greater than 1
in a conditional subquery.
---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 71e1a69..d86739b 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -475,7 +475,7 @@ func Normalize(q *SoqlQuery) error {
 			next := leaf.ParentViewId
 			for next != 0 {
 				l2 := ctx.viewGraph[next]
-				if l2.Depth == 1 || l2.Many || l2.QueryId != leaf.QueryId {
+				if l2.ParentViewId == 0 || l2.Many || l2.QueryId != leaf.QueryId {
 					break
 				}
 				l2.InnerJoin = true
-- 
2.43.0


From 056295b3b13fae180b7990449944ce3265c59da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 18/29] fix: give each subquery on the same relationship its
 own views and columns

Two subqueries of the select clause on the same relationship shared their view
and column ids, and the view graph only knew the last one.
---
 soql/parser/postprocess/normalize.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index d86739b..c24250c 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -27,6 +27,17 @@ type normalizeQueryContext struct {
 	dateTimeLiterals   map[string]struct{}
 }
 
+// Remove the object and its descendants from the maps to assign new ids to them.
+func (ctx *normalizeQueryContext) removeObjectFromMaps(objectKey string) {
+	for _, m := range []map[string]int{ctx.viewIdMap, ctx.columnIdMap, ctx.colIndexMap} {
+		for k := range m {
+			if k == objectKey || strings.HasPrefix(k, objectKey+".") {
+				delete(m, k)
+			}
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) normalizeQuery(
 	qPlace soqlQueryPlace, q, callParentQuery *SoqlQuery, queryDepth int, objNameMap map[string][]string) error {
 
@@ -104,6 +115,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	if qPlace == soqlQueryPlace_Select {
+		// NOTE: A sibling subquery may have the same relationship.
+		ctx.removeObjectFromMaps(q.From[0].Key)
+	}
+
 	// Remove objects implicitly registered before their explicit declaration.
 	q.From = removeDuplicateObjects(q.From)
 
-- 
2.43.0


From 082e9ffcd66cb456d632360b86c3ea9ab3e3bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 19/29] fix: treat references to any object of the outer query
 as correlated

Only the ancestors of the subquery's object were recognized: a reference to
another object of the outer query ('WHERE x = acc.y' with 'FROM Contact con,
con.Account acc') did not mark the subquery as correlated and the field was
not added to the outer query.
---
 soql/parser/postprocess/normalize3.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..118f0a5 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -8,6 +8,17 @@ import (
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// Returns true if the field does not belong to any objects of the query.
+func isOuterField(q *SoqlQuery, field *SoqlFieldInfo) bool {
+	ns := nameutil.GetNamespaceFromName(field.Name)
+	for i := range q.From {
+		if nameutil.NameEqualsIgnoreCase(q.From[i].Name, ns) {
+			return false
+		}
+	}
+	return true
+}
+
 func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []SoqlFieldInfo) error {
 	for i := range fields {
 		switch fields[i].Type {
@@ -18,7 +29,7 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			if isOuterField(q, &fields[i]) {
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
-- 
2.43.0


From c6f9258eb3aac2acf9d417f8d393e306f6ebecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 20/29] fix: read keyword literals in function arguments as
 literals

true, false, null and the date literals (TODAY, LAST_N_DAYS:3...) were taken as
field names when they were arguments of a function, and such bogus fields were
added to the projection.
---
 soql/parser/core/expressions1.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..9db696b 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -55,8 +55,8 @@ func selectFieldFunctionCall() ParserFn {
 					ZeroOrOnce(
 						First(
 							Indirect(selectFieldFunctionCall),
-							complexSymbolName(),
 							literalValue(),
+							complexSymbolName(),
 						),
 						ZeroOrMoreTimes(
 							sp0(),
@@ -64,8 +64,8 @@ func selectFieldFunctionCall() ParserFn {
 							sp0(),
 							First(
 								Indirect(selectFieldFunctionCall),
-								complexSymbolName(),
 								literalValue(),
+								complexSymbolName(),
 							),
 						),
 						sp0(),
@@ -96,12 +96,20 @@ func selectFieldFunctionCall() ParserFn {
 						}
 
 						switch ty {
-						case SoqlFieldInfo_ParameterizedValue, SoqlFieldInfo_DateTimeLiteralName:
+						case SoqlFieldInfo_ParameterizedValue:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
 								ClassName: asts[i].ClassName,
 								Name:      []string{asts[i].Value.(string)},
 							}
+						case SoqlFieldInfo_DateTimeLiteralName:
+							v := asts[i].Value.(SoqlDateTimeLiteralName)
+							z[i-1] = SoqlFieldInfo{
+								Type:      ty,
+								ClassName: asts[i].ClassName,
+								Name:      []string{v.Name},
+								Value:     v,
+							}
 						default:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
-- 
2.43.0


From 40b20b9cd1997f7b01876892b0cb778d5bb264ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:38 +0000
Subject: [PATCH 21/29] fix: reject ancestor items in function arguments of
 select clauses

They were not rejected as such, and if the path of the item was a prefix of the
subquery's path, the following check panicked (index out of range):
SELECT (SELECT (SELECT F(a.b) FROM c) FROM b) FROM a
---
 soql/parser/postprocess/normalize1.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 49215e1..34dda2b 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -122,8 +122,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			field.Name = s
 
 			if conf.isSelectClause {
-				if !conf.isFunctionParameter && (len(field.Name) <= len(q.From[0].Name)) {
-					// TODO: Is `!conf.isFunctionParameter` right condition? // <- BUG: It's a bug!
+				if len(field.Name) <= len(q.From[0].Name) {
 					return errors.New(
 						"The ancestor object item is not allowed to be selected: " +
 							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From a867bad5c296a9cd1763b5ac654f07dd3e98e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 22/29] fix: share the recursive rules of the grammar

Every recursive reference built its own parser lazily at each nesting level again,
without synchronization: the memory in use grew with the variety of the parsed
queries, and the instantiation was repeated for each nesting path. The rules are
now built once and are immutable, so that they can be used concurrently.
---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  8 ++++----
 soql/parser/core/helpers.go      | 27 +++++++++++++++++++++++++++
 soql/parser/parser.go            | 16 ++++++----------
 4 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 9db696b..9ddf527 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							recursive(&selectFieldFunctionCallRule),
 							literalValue(),
 							complexSymbolName(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								recursive(&selectFieldFunctionCallRule),
 								literalValue(),
 								complexSymbolName(),
 							),
@@ -138,7 +138,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			recursive(&subQuerySelectStatementRule),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 7f124f8..2e09e06 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						recursive(&whereConditionExpressionRule),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -204,7 +204,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpressionInnerRoot),
+					recursive(&whereConditionExpressionInnerRootRule),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -335,7 +335,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 					First(
 						FlatGroup(
 							sp0(),
-							Indirect(havingConditionExpression),
+							recursive(&havingConditionExpressionRule),
 							erase(CharClass(")")),
 							sp0(),
 						),
@@ -356,7 +356,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpressionInnerRoot),
+						recursive(&havingConditionExpressionInnerRootRule),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..719ff1a 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -7,6 +7,33 @@ import (
 	objparser "github.com/shellyln/takenoco/object"
 )
 
+// Recursive rules. They are built once and never changed, so they can be used concurrently.
+var (
+	selectFieldFunctionCallRule            ParserFn
+	subQuerySelectStatementRule            ParserFn
+	whereConditionExpressionRule           ParserFn
+	whereConditionExpressionInnerRootRule  ParserFn
+	havingConditionExpressionRule          ParserFn
+	havingConditionExpressionInnerRootRule ParserFn
+)
+
+func init() {
+	selectFieldFunctionCallRule = selectFieldFunctionCall()
+	subQuerySelectStatementRule = subQuerySelectStatement()
+	whereConditionExpressionRule = whereConditionExpression()
+	whereConditionExpressionInnerRootRule = whereConditionExpressionInnerRoot()
+	havingConditionExpressionRule = havingConditionExpression()
+	havingConditionExpressionInnerRootRule = havingConditionExpressionInnerRoot()
+}
+
+// Reference to a recursive rule.
+// NOTE: `Indirect` would lazily build a new parser for each reference, at every nesting level again.
+func recursive(rule *ParserFn) ParserFn {
+	return func(ctx ParserContext) (ParserContext, error) {
+		return (*rule)(ctx)
+	}
+}
+
 func setStr(s string) TransformerFn {
 	return func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 		return AstSlice{{
diff --git a/soql/parser/parser.go b/soql/parser/parser.go
index f942275..683e1b1 100644
--- a/soql/parser/parser.go
+++ b/soql/parser/parser.go
@@ -4,7 +4,6 @@ package parser
 import (
 	"errors"
 	"strconv"
-	"sync"
 	"time"
 
 	"github.com/shellyln/go-open-soql-parser/soql/parser/core"
@@ -14,12 +13,12 @@ import (
 	. "github.com/shellyln/takenoco/string"
 )
 
-// NOTE: The recursive rules of a parser are initialized when they are used for the first time,
-// therefore a parser should not be used by multiple goroutines at the same time.
-var queryParserPool = sync.Pool{
-	New: func() interface{} {
-		return core.Query()
-	},
+var (
+	queryParser ParserFn
+)
+
+func init() {
+	queryParser = core.Query()
 }
 
 func Parse(s string) (*types.SoqlQuery, error) {
@@ -29,9 +28,6 @@ func Parse(s string) (*types.SoqlQuery, error) {
 		Source:  s,
 	}
 
-	queryParser := queryParserPool.Get().(ParserFn)
-	defer queryParserPool.Put(queryParser)
-
 	out, err := queryParser(*NewStringParserContext(s))
 	if err != nil {
 		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
-- 
2.43.0


From 27adc42adc26e1daedf237a72b50febcea3ce563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 23/29] fix: keep the column id of a field named like a child
 relationship

---
 soql/parser/postprocess/normalize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index c24250c..592d760 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -29,9 +29,11 @@ type normalizeQueryContext struct {
 
 // Remove the object and its descendants from the maps to assign new ids to them.
 func (ctx *normalizeQueryContext) removeObjectFromMaps(objectKey string) {
+	delete(ctx.viewIdMap, objectKey)
 	for _, m := range []map[string]int{ctx.viewIdMap, ctx.columnIdMap, ctx.colIndexMap} {
 		for k := range m {
-			if k == objectKey || strings.HasPrefix(k, objectKey+".") {
+			// NOTE: objectKey may also be the key of a field of the parent object.
+			if strings.HasPrefix(k, objectKey+".") {
 				delete(m, k)
 			}
 		}
-- 
2.43.0


From 41c3222c677dbb4f873af8d71af3fd465bc9bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 24/29] fix: reject field sets of ancestor and sibling objects
 in select clauses

---
 soql/parser/postprocess/normalize1.go | 43 +++++++++++++++++----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 34dda2b..cee379c 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -56,6 +56,27 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		}
 	}
 
+	checkSelectScope := func() error {
+		if conf.isSelectClause {
+			if len(field.Name) <= len(q.From[0].Name) {
+				return errors.New(
+					"The ancestor object item is not allowed to be selected: " +
+						strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
+				)
+			}
+
+			for i := 0; i < len(q.From[0].Name); i++ {
+				if q.From[0].Name[i] != field.Name[i] {
+					return errors.New(
+						"The siblings object item is not allowed to be selected: " +
+							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
+					)
+				}
+			}
+		}
+		return nil
+	}
+
 	switch field.Type {
 	case SoqlFieldInfo_Field:
 		{
@@ -121,22 +142,8 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			s = append(s, field.Name[len(field.Name)-1])
 			field.Name = s
 
-			if conf.isSelectClause {
-				if len(field.Name) <= len(q.From[0].Name) {
-					return errors.New(
-						"The ancestor object item is not allowed to be selected: " +
-							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-					)
-				}
-
-				for i := 0; i < len(q.From[0].Name); i++ {
-					if q.From[0].Name[i] != field.Name[i] {
-						return errors.New(
-							"The siblings object item is not allowed to be selected: " +
-								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-						)
-					}
-				}
+			if err := checkSelectScope(); err != nil {
+				return err
 			}
 
 			if field.Name != nil {
@@ -224,6 +231,10 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 				s = append(s, field.Name[len(field.Name)-1])
 				field.Name = s
 
+				if err := checkSelectScope(); err != nil {
+					return err
+				}
+
 			case "count":
 				switch len(field.Parameters) {
 				case 0:
-- 
2.43.0


From 501e5799ccdba58a1e1596be6bfe160f687fcad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 25/29] fix: reject object aliases equal to the name of the
 primary object

Such an alias redirected fully qualified names, which start with the name of the
primary object: names were resolved to the wrong object, and parsing a query that
declares an object with an intermediate relationship did not terminate.
---
 soql/parser/postprocess/normalize1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index cee379c..38d6cac 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -411,6 +411,11 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 		key := nameutil.MakeDottedKeyIgnoreCase(currentName, len(currentName))
 		objNameMap[key] = currentName
 		if len(object.AliasName) > 0 {
+			if len(currentName) > 1 && strings.ToLower(object.AliasName) == strings.ToLower(currentName[0]) {
+				// Fully qualified names start with the name of the primary object.
+				return errors.New("Duplicate object alias name found: " + object.AliasName)
+			}
+
 			// TODO: Check duplicated name
 			objNameMap[base64.StdEncoding.EncodeToString([]byte(strings.ToLower(object.AliasName)))] = currentName
 
-- 
2.43.0


From 4ff8af517b7edb59732208730f5e26621eab1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 26/29] fix: count the view depth below nested conditional
 subqueries

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 592d760..abe6026 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -410,7 +410,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		ctx.columnIdMap = make(map[string]int)
 		ctx.colIndexMap = make(map[string]int)
 	}
-	ctx.headObjDepthOffset = len(q.From[0].Name)
+	ctx.headObjDepthOffset = savedHeadObjDepthOffset + len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
-- 
2.43.0


From f30826354aee7f9663c2938cb83c7a822a59df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 27/29] fix: compare names without case in the scope check of
 subquery select lists

An item of a child query that is named by an alias of the query's own object was rejected
as an item of a sibling object if the relationship was written in different letter case.
---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 38d6cac..a2db440 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -66,7 +66,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			}
 
 			for i := 0; i < len(q.From[0].Name); i++ {
-				if q.From[0].Name[i] != field.Name[i] {
+				if strings.ToLower(q.From[0].Name[i]) != strings.ToLower(field.Name[i]) {
 					return errors.New(
 						"The siblings object item is not allowed to be selected: " +
 							strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From 239cd5e54f8490b70614d2bd40c6b640f2534d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 28/29] fix: an alias in GROUP BY groups by the select item
 carrying it

Whether a selected field is a grouping key was decided before aliases in
GROUP BY were resolved: 'select a, b a from c group by a' groups by b but
was accepted, 'select a, a k from c group by k' groups by a but was
rejected. A qualified name in GROUP BY is not an alias, as in ORDER BY.
---
 soql/parser/postprocess/normalize.go  | 21 ++++++++++++++-----
 soql/parser/postprocess/normalize1.go | 29 ++++++++++-----------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index abe6026..b9693b1 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -131,6 +131,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.GroupBy); i++ {
 			field := q.GroupBy[i]
 
+			aliasFound := false
+			if len(field.Name) == 1 {
+				if p := findFieldByAliasName(q.Fields, field.Name[0]); p != nil {
+					field = *p
+					aliasFound = true
+				}
+			}
+			if aliasFound && field.Type != SoqlFieldInfo_Field {
+				continue
+			}
+
 			if err := ctx.normalizeFieldName(
 				&field, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 				objNameMap, nil, normalizeFieldNameConf{
@@ -143,7 +154,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 				return err
 			}
-			q.GroupBy[i] = field
+			if !aliasFound {
+				q.GroupBy[i] = field
+			}
 			groupingFields[field.Key] = struct{}{}
 		}
 	}
@@ -188,11 +201,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.GroupBy); i++ {
 			field := q.GroupBy[i]
 
-			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
-					delete(groupingFields, field.Key)
+			if len(field.Name) == 1 {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[0])]; ok {
 					q.GroupBy[i] = *p
-					groupingFields[p.Key] = struct{}{}
 				}
 			}
 		}
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index a2db440..9f7334e 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -153,15 +153,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			if !conf.isFunctionParameter && (conf.isHavingClause || (conf.isSelectClause && q.IsAggregation)) {
 				if field.Key != "" {
 					if _, ok := groupingFields[field.Key]; !ok {
-						if field.AliasName != "" {
-							nm := make([]string, 0, len(q.From[0].Name)+1)
-							nm = append(nm, q.From[0].Name...)
-							nm = append(nm, field.AliasName)
-							_, ok = groupingFields[nameutil.MakeDottedKeyIgnoreCase(nm, len(nm))]
-						}
-						if !ok {
-							return errors.New("The item must be included in a Group By clause: " + strings.Join(field.Name, "."))
-						}
+						return errors.New("The item must be included in a Group By clause: " + strings.Join(field.Name, "."))
 					}
 				}
 			}
@@ -304,15 +296,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 					param := &field.Parameters[i]
 					if param.Type == SoqlFieldInfo_Field && param.Key != "" {
 						if _, ok := groupingFields[param.Key]; !ok {
-							if param.AliasName != "" {
-								nm := make([]string, 0, len(q.From[0].Name)+1)
-								nm = append(nm, q.From[0].Name...)
-								nm = append(nm, param.AliasName)
-								_, ok = groupingFields[nameutil.MakeDottedKeyIgnoreCase(nm, len(nm))]
-							}
-							if !ok {
-								return errors.New("The item must be included in a Group By clause: " + strings.Join(param.Name, "."))
-							}
+							return errors.New("The item must be included in a Group By clause: " + strings.Join(param.Name, "."))
 						}
 					}
 				}
@@ -353,6 +337,15 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	return nil
 }
 
+func findFieldByAliasName(fields []SoqlFieldInfo, aliasName string) *SoqlFieldInfo {
+	for i := 0; i < len(fields); i++ {
+		if fields[i].AliasName != "" && strings.ToLower(fields[i].AliasName) == strings.ToLower(aliasName) {
+			return &fields[i]
+		}
+	}
+	return nil
+}
+
 func removeDuplicateObjects(objects []SoqlObjectInfo) []SoqlObjectInfo {
 	keys := make(map[string]struct{})
 	z := make([]SoqlObjectInfo, 0, len(objects))
-- 
2.43.0


From 286e7d5c202e03a32a0fbbca6120b34e0d9f2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 29/29] fix: a subquery cannot refer to an object two levels
 above it

Such references were rejected only if no other part of the query had
used the same field before.
---
 soql/parser/postprocess/normalize3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 118f0a5..14ac781 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -32,7 +32,7 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 			if isOuterField(q, &fields[i]) {
 				q.IsCorelated = true
 
-				if fields[i].ColIndex == -1 {
+				if fields[i].ColIndex == -1 || q.Parent == nil || isOuterField(q.Parent, &fields[i]) {
 					isSet := false
 
 					if q.Parent != nil {
-- 
2.43.0

