From 9a425ce661b733facb8bbad007d4200f421e2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:52 +0000
Subject: [PATCH 01/30] fix: keep the operator of 'not in' and 'not like'
 conditions

Only the first token ('not') of the two-word operator was used, so the
condition was compiled to a bare unary Not opcode.
---
 soql/parser/core/expressions2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 4a793a9..830e884 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -30,6 +30,7 @@ func conditionalOperator() ParserFn {
 						),
 						wordBoundary(),
 					),
+					Concat,
 				),
 				Trans(
 					FlatGroup(
-- 
2.43.0


From e85bd0111f9b1f7dc9abb9eb28483298d513b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:22 +0000
Subject: [PATCH 02/30] fix: negate only the operand of the not operator

distributeNotOperators negated every operator before the 'not' in the
clause, including conditions that are not part of its operand.
---
 soql/parser/postprocess/normalize2.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index aabecba..0cba18b 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -98,11 +98,28 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	return nil
 }
 
+func operandStartPosition(conditions []SoqlCondition, end int) int {
+	// Find the first position of the operand (subtree of RPN) that ends just before the `end`.
+	start := end
+	for need := 1; need > 0 && start > 0; {
+		start--
+		switch conditions[start].Opcode {
+		case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Not:
+			// do nothing
+		case SoqlConditionOpcode_Unknown, SoqlConditionOpcode_FieldInfo:
+			need--
+		default:
+			need++
+		}
+	}
+	return start
+}
+
 func distributeNotOperators(conditions []SoqlCondition) []SoqlCondition {
 	for i := 0; i < len(conditions); i++ {
 		switch conditions[i].Opcode {
 		case SoqlConditionOpcode_Not:
-			for j := 0; j < i; j++ {
+			for j := operandStartPosition(conditions, i); j < i; j++ {
 				switch conditions[j].Opcode {
 				case SoqlConditionOpcode_And:
 					conditions[j].Opcode = SoqlConditionOpcode_Or
-- 
2.43.0


From da0007767b5ef3820e831ded39df536326932aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 03/30] fix: make 'and' bind tighter than 'or' in conditions

The right operand of and/or was parsed as a whole condition expression, so
'a and b or c' was compiled as 'a and (b or c)'.
---
 soql/parser/core/expressions2.go | 62 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 830e884..01905c4 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -167,7 +167,7 @@ func whereFieldExpression() ParserFn {
 	)
 }
 
-func whereConditionExpressionInnerRoot() ParserFn {
+func whereConditionExpressionTerm() ParserFn {
 	return FlatGroup(
 		ZeroOrOnce(
 			Trans(
@@ -192,6 +192,12 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			),
 			whereFieldExpression(),
 		),
+	)
+}
+
+func whereConditionExpressionInnerRoot() ParserFn {
+	return FlatGroup(
+		whereConditionExpressionTerm(),
 		ZeroOrMoreTimes(
 			Trans(
 				First(
@@ -204,7 +210,7 @@ func whereConditionExpressionInnerRoot() ParserFn {
 			First(
 				FlatGroup(
 					sp0(),
-					Indirect(whereConditionExpression),
+					whereConditionExpressionTerm(),
 				),
 				Error("Unexpected token aheads near by the 'where' clause"),
 			),
@@ -318,32 +324,38 @@ func havingFieldExpression() ParserFn {
 	)
 }
 
-func havingConditionExpressionInnerRoot() ParserFn {
-	return Trans(
-		FlatGroup(
-			ZeroOrOnce(
-				Trans(
-					SeqI("not"),
-					ChangeClassName("soql:UnaryOp"),
-				),
-				wordBoundary(),
-				sp0(),
+func havingConditionExpressionTerm() ParserFn {
+	return FlatGroup(
+		ZeroOrOnce(
+			Trans(
+				SeqI("not"),
+				ChangeClassName("soql:UnaryOp"),
 			),
-			First(
-				FlatGroup(
-					erase(CharClass("(")),
-					First(
-						FlatGroup(
-							sp0(),
-							Indirect(havingConditionExpression),
-							erase(CharClass(")")),
-							sp0(),
-						),
-						Error("Unexpected token aheads near by the 'having' clause"),
+			wordBoundary(),
+			sp0(),
+		),
+		First(
+			FlatGroup(
+				erase(CharClass("(")),
+				First(
+					FlatGroup(
+						sp0(),
+						Indirect(havingConditionExpression),
+						erase(CharClass(")")),
+						sp0(),
 					),
+					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-				havingFieldExpression(),
 			),
+			havingFieldExpression(),
+		),
+	)
+}
+
+func havingConditionExpressionInnerRoot() ParserFn {
+	return Trans(
+		FlatGroup(
+			havingConditionExpressionTerm(),
 			ZeroOrMoreTimes(
 				Trans(
 					First(
@@ -356,7 +368,7 @@ func havingConditionExpressionInnerRoot() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						havingConditionExpressionTerm(),
 					),
 					Error("Unexpected token aheads near by the 'having' clause"),
 				),
-- 
2.43.0


From f090e02aff254f256583ec5d9da511516b4ea731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:39 +0000
Subject: [PATCH 04/30] fix: 'for view' and 'for reference' do not imply 'for
 update'

---
 soql/parser/core/expressions3.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions3.go b/soql/parser/core/expressions3.go
index 3bb1a46..ca5ac80 100644
--- a/soql/parser/core/expressions3.go
+++ b/soql/parser/core/expressions3.go
@@ -198,9 +198,7 @@ func forViewClause() ParserFn {
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 			astsLen := len(asts)
-			z := SoqlForClause{
-				Update: true,
-			}
+			z := SoqlForClause{}
 			for i := 0; i < astsLen; i++ {
 				v := strings.ToLower(asts[i].Value.(string))
 				switch v {
-- 
2.43.0


From debd844e738c2180cd720d8c63e870f534532ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 05/30] fix: accept the 'for' clause right after an object
 without alias name

'FROM Contact FOR UPDATE' was rejected because 'FOR' was taken as the alias
name of the object.
---
 soql/parser/core/elements.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a557df0..a650bbe 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -59,6 +59,12 @@ func reservedKeywords() ParserFn {
 			FlatGroup(SeqI("having"), WordBoundary()),
 			FlatGroup(SeqI("offset"), WordBoundary()),
 			FlatGroup(SeqI("limit"), WordBoundary()),
+			FlatGroup(
+				SeqI("for"),
+				sp1(),
+				First(SeqI("view"), SeqI("reference"), SeqI("update")),
+				WordBoundary(),
+			),
 		),
 		Concat,
 	)
-- 
2.43.0


From 9f9fca2d7baa3ef180e14d2f17e6b191556b0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 06/30] fix: record parameters and date literals of list
 operands in the meta information

---
 soql/parser/postprocess/normalize1.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 92f4bf2..d56dce4 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -323,6 +323,19 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
 	case SoqlFieldInfo_DateTimeLiteralName:
 		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
+	case SoqlFieldInfo_Literal_List:
+		if items, ok := field.Value.([]SoqlListItem); ok {
+			for i := 0; i < len(items); i++ {
+				switch v := items[i].Value.(type) {
+				case SoqlDateTimeLiteralName:
+					ctx.dateTimeLiterals[strings.ToLower(v.Name)] = struct{}{}
+				case string:
+					if items[i].Type == SoqlFieldInfo_ParameterizedValue {
+						ctx.parameters[strings.ToLower(v)] = struct{}{}
+					}
+				}
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 13d5b4575dfe9b2cf15f2cad30ddaa73b29a8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 07/30] fix: unmarshal date literals of list operands

The value of such an item is a SoqlDateTimeLiteralName (name and n), but it
was unmarshalled as a string, so the marshalled query could not be read back.
---
 soql/parser/types/marshalhelper.go | 3 +--
 soql/parser/types/types.go         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soql/parser/types/marshalhelper.go b/soql/parser/types/marshalhelper.go
index cda9e5e..4cb9e93 100644
--- a/soql/parser/types/marshalhelper.go
+++ b/soql/parser/types/marshalhelper.go
@@ -90,8 +90,7 @@ func unmarshalSoqlFieldInfoValue(b json.RawMessage, typ SoqlFieldInfoType) (inte
 
 func unmarshalSoqlListItemValue(b json.RawMessage, typ SoqlFieldInfoType) (interface{}, error) {
 	switch typ {
-	case SoqlFieldInfo_ParameterizedValue,
-		SoqlFieldInfo_DateTimeLiteralName:
+	case SoqlFieldInfo_ParameterizedValue:
 		{
 			var v string
 			if err := json.Unmarshal(b, &v); err != nil {
diff --git a/soql/parser/types/types.go b/soql/parser/types/types.go
index 7db61f4..ef6bdb1 100644
--- a/soql/parser/types/types.go
+++ b/soql/parser/types/types.go
@@ -111,7 +111,7 @@ type soqlFieldInfo_unmarshal struct {
 
 type SoqlListItem struct {
 	Type  SoqlFieldInfoType `json:"type,omitempty"`
-	Value interface{}       `json:"value,omitempty"` // ParameterizedValue, DateTimeLiteralName: string ; Literal_*: any
+	Value interface{}       `json:"value,omitempty"` // ParameterizedValue: string ; DateTimeLiteralName: SoqlDateTimeLiteralName ; Literal_*: any
 }
 
 type SoqlDateTimeLiteralName struct {
-- 
2.43.0


From ce64977752fc853b837bd0b6f939a96c88b12799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 08/30] fix: record offset and limit parameter names in lower
 case like the others

---
 soql/parser/postprocess/normalize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 5a2d17b..ee49d86 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -363,10 +363,10 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	if q.OffsetAndLimit.OffsetParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.OffsetParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.OffsetParamName)] = struct{}{}
 	}
 	if q.OffsetAndLimit.LimitParamName != "" {
-		ctx.parameters[q.OffsetAndLimit.LimitParamName] = struct{}{}
+		ctx.parameters[strings.ToLower(q.OffsetAndLimit.LimitParamName)] = struct{}{}
 	}
 
 	if q.IsAggregation {
-- 
2.43.0


From 9afe303ae3a836936ef4c987fee5094e64a4b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:05 +0000
Subject: [PATCH 09/30] fix: look up field alias names of the group by clause
 case-insensitively

---
 soql/parser/postprocess/normalize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index ee49d86..cd5042e 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -164,7 +164,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 			field := q.GroupBy[i]
 
 			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[field.Name[len(field.Name)-1]]; ok {
+				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
 					delete(groupingFields, field.Key)
 					q.GroupBy[i] = *p
 					groupingFields[p.Key] = struct{}{}
-- 
2.43.0


From e91c355f431d74458813bb6ec13f3c1d9efd27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 10/30] fix: ordering or grouping by an alias name does not add
 another column

The function or subquery referred by its alias name was appended to the Select
clause again with a new column id, and the subquery was normalized twice.
---
 soql/parser/postprocess/normalize2.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/soql/parser/postprocess/normalize2.go b/soql/parser/postprocess/normalize2.go
index 0cba18b..099abb2 100644
--- a/soql/parser/postprocess/normalize2.go
+++ b/soql/parser/postprocess/normalize2.go
@@ -87,6 +87,10 @@ func (ctx *normalizeQueryContext) addUnselectedFields(q *SoqlQuery) error {
 	}
 
 	for i := 0; i < len(q.OrderBy); i++ {
+		if q.OrderBy[i].Field.Type != SoqlFieldInfo_Field {
+			// It is an alias name of the function or the subquery already in the Select clause.
+			continue
+		}
 		key := nameutil.MakeDottedKeyIgnoreCase(q.OrderBy[i].Field.Name, len(q.OrderBy[i].Field.Name))
 		if _, ok := fieldMap[key]; !ok {
 			f := q.OrderBy[i].Field
@@ -205,6 +209,20 @@ func (ctx *normalizeQueryContext) assignColumnIdToField(
 	}
 }
 
+// If the field refers a function or a subquery in the Select clause by the alias name,
+// they are the same column.
+func applyColumnIdOfAliasedField(q *SoqlQuery, field *SoqlFieldInfo) {
+	if field.Type == SoqlFieldInfo_Field || field.AliasName == "" {
+		return
+	}
+	for i := 0; i < len(q.Fields); i++ {
+		if q.Fields[i].Type == field.Type && q.Fields[i].AliasName == field.AliasName {
+			field.ColumnId = q.Fields[i].ColumnId
+			break
+		}
+	}
+}
+
 func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	// Apply ColumnId to Select clause fields
@@ -215,11 +233,13 @@ func (ctx *normalizeQueryContext) assignColumnIds(q *SoqlQuery) {
 
 	for i := 0; i < len(q.OrderBy); i++ {
 		field := &q.OrderBy[i].Field
+		applyColumnIdOfAliasedField(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
 	for i := 0; i < len(q.GroupBy); i++ {
 		field := &q.GroupBy[i]
+		applyColumnIdOfAliasedField(q, field)
 		ctx.assignColumnIdToField(field, false, false)
 	}
 
-- 
2.43.0


From c804756e6d67ed92c484e846a8669aa4494bbbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 11/30] fix: data race in Parse() called from multiple
 goroutines

takenoco's Indirect() builds the nested parser on the first use without any
synchronization, while the package level parser is shared by all callers.
---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  4 ++--
 soql/parser/core/helpers.go      | 14 ++++++++++++++
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 621f00d..4c07af5 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -54,7 +54,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							Indirect(selectFieldFunctionCall),
+							indirect(selectFieldFunctionCall),
 							complexSymbolName(),
 							literalValue(),
 						),
@@ -63,7 +63,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								Indirect(selectFieldFunctionCall),
+								indirect(selectFieldFunctionCall),
 								complexSymbolName(),
 								literalValue(),
 							),
@@ -130,7 +130,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			Indirect(subQuerySelectStatement),
+			indirect(subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index 01905c4..d05732c 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionTerm() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(whereConditionExpression),
+						indirect(whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -340,7 +340,7 @@ func havingConditionExpressionTerm() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						Indirect(havingConditionExpression),
+						indirect(havingConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 0a55646..d6b58a4 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"strings"
+	"sync"
 
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
@@ -21,6 +22,19 @@ func replaceStr(fn ParserFn, s string) ParserFn {
 	return Trans(fn, setStr(s))
 }
 
+// Goroutine-safe version of the takenoco's Indirect().
+// The parser is shared by all callers and is built on the first use.
+func indirect(fn func() ParserFn) ParserFn {
+	var once sync.Once
+	var parser ParserFn
+	return LightBaseParser("Indirect", func(ctx ParserContext) (ParserContext, error) {
+		once.Do(func() {
+			parser = fn()
+		})
+		return parser(ctx)
+	})
+}
+
 func unwrapOperandItem(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{asts[0].Value.(Ast)}, nil
 }
-- 
2.43.0


From 5aafc772f401cf6e833caeef6cdb9d26c5f72ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 12/30] fix: panic on an ancestor field in a function parameter
 of a select subquery

---
 soql/parser/postprocess/normalize1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index d56dce4..9cc5582 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -130,7 +130,8 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 					)
 				}
 
-				for i := 0; i < len(q.From[0].Name); i++ {
+				// NOTE: The function parameter can be an ancestor object item (shorter than the object name).
+				for i := 0; i < len(q.From[0].Name) && i < len(field.Name)-1; i++ {
 					if q.From[0].Name[i] != field.Name[i] {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
-- 
2.43.0


From 15afe967e9780ad58d5a5b32df658d6858fb20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:17 +0000
Subject: [PATCH 13/30] fix: a field fetched for a correlated subquery is not a
 selected field of the parent

A function parameter of the subquery that refers a parent field was appended to
the fields of the parent query as if the user had selected it.
---
 soql/parser/postprocess/normalize3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 5c97839..4b07cee 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -35,8 +35,10 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 								ctx.colIndexMap[fields[i].Key] = idx
 								fields[i].ColIndex = idx
 
-								q.Parent.Fields = append(q.Parent.Fields, fields[i])
-								q.Parent.From[j].PerObjectQuery.Fields = append(q.Parent.From[j].PerObjectQuery.Fields, fields[i])
+								f := fields[i]
+								f.NotSelected = true
+								q.Parent.Fields = append(q.Parent.Fields, f)
+								q.Parent.From[j].PerObjectQuery.Fields = append(q.Parent.From[j].PerObjectQuery.Fields, f)
 
 								// TODO: Delete fields[i] and shift the following?
 
-- 
2.43.0


From 21bfacb5f4b192387260cd5bce88246d700f06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 14/30] fix: set the parent view of a subquery object that is
 qualified by an implicit relationship

The parent of the head object ('FROM con.A.B' in a subquery) got its view id
after the head object, so the parent view id was left unset.
---
 soql/parser/postprocess/normalize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index cd5042e..badf713 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -277,7 +277,9 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		} else {
 			q.From[i].ViewId = viewId
 		}
+	}
 
+	for i := 0; i < len(q.From); i++ {
 		nameLen := len(q.From[i].Name)
 		objDepth := nameLen + ctx.headObjDepthOffset
 		if ctx.maxViewDepth < objDepth {
-- 
2.43.0


From 212d1c9ca0f2fe43fdb066e3c668d65521cc0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 15/30] fix: count() without parameters is an aggregate
 function

The flag set for count() was overwritten because it has no field parameter.
---
 soql/parser/postprocess/normalize1.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 9cc5582..0debe68 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -283,7 +283,10 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 						break FN_HAVING_OUTER
 					}
 				}
-				field.Aggregated = aggregated
+				if aggregated {
+					// NOTE: count() is an aggregate function even if it has no parameters.
+					field.Aggregated = true
+				}
 
 				for i := 0; i < len(field.Parameters); i++ {
 					// TODO: FIXIT: Extract this condition outside the loop.
-- 
2.43.0


From 562b602bb681fbed6b9ef57a3757d206b53bed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:45 +0000
Subject: [PATCH 16/30] fix: check grouping of the fields placed before an
 aggregate function

'SELECT Name, COUNT(Id) FROM Contact' was accepted while
'SELECT COUNT(Id), Name FROM Contact' was rejected.
---
 soql/parser/postprocess/normalize.go  | 9 +++++----
 soql/parser/postprocess/normalize1.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index badf713..1c06ab2 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -127,6 +127,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	// NOTE: Whether it is an aggregation or not must be known before normalizing the Select clause fields.
+	for i := 0; i < len(q.Fields); i++ {
+		preScanFunctionFields(&q.Fields[i], q)
+	}
+
 	fieldAliasMap := make(map[string]*SoqlFieldInfo)
 
 	for i := 0; i < len(q.Fields); i++ {
@@ -227,10 +232,6 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	for i := 0; i < len(q.Fields); i++ {
-		preScanFunctionFields(&q.Fields[i], q)
-	}
-
 	if q.OrderBy != nil {
 		for i := 0; i < len(q.OrderBy); i++ {
 			field := q.OrderBy[i].Field
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 0debe68..ee007c6 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -28,7 +28,7 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 			}
 
 			switch funcName {
-			case "count":
+			case "count", "count_distinct":
 				q.IsAggregation = true
 			}
 
-- 
2.43.0


From 7a63f5c20ee7eb675142449b5c57680c06edb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 17/30] fix: accept named literals as function parameters

true, false, null, NaN, Infinity and the date literals were taken as field
names of the object, and the date literals with n ('LAST_N_DAYS:3') were
rejected.
---
 soql/parser/core/expressions1.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index 4c07af5..e64524d 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -43,6 +43,14 @@ func fieldInfoTypeFromClassName(className string) SoqlFieldInfoType {
 	return ty
 }
 
+func functionLiteralParameter() ParserFn {
+	return FlatGroup(
+		literalValue(),
+		// NOTE: Otherwise it is a name (e.g. `today.name`).
+		LookAhead(CharClass(",", ")")),
+	)
+}
+
 func selectFieldFunctionCall() ParserFn {
 	return Trans(
 		FlatGroup(
@@ -55,8 +63,8 @@ func selectFieldFunctionCall() ParserFn {
 					ZeroOrOnce(
 						First(
 							indirect(selectFieldFunctionCall),
+							functionLiteralParameter(),
 							complexSymbolName(),
-							literalValue(),
 						),
 						ZeroOrMoreTimes(
 							sp0(),
@@ -64,8 +72,8 @@ func selectFieldFunctionCall() ParserFn {
 							sp0(),
 							First(
 								indirect(selectFieldFunctionCall),
+								functionLiteralParameter(),
 								complexSymbolName(),
-								literalValue(),
 							),
 						),
 						sp0(),
@@ -96,12 +104,20 @@ func selectFieldFunctionCall() ParserFn {
 						}
 
 						switch ty {
-						case SoqlFieldInfo_ParameterizedValue, SoqlFieldInfo_DateTimeLiteralName:
+						case SoqlFieldInfo_ParameterizedValue:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
 								ClassName: asts[i].ClassName,
 								Name:      []string{asts[i].Value.(string)},
 							}
+						case SoqlFieldInfo_DateTimeLiteralName:
+							v := asts[i].Value.(SoqlDateTimeLiteralName)
+							z[i-1] = SoqlFieldInfo{
+								Type:      ty,
+								ClassName: asts[i].ClassName,
+								Name:      []string{v.Name},
+								Value:     v,
+							}
 						default:
 							z[i-1] = SoqlFieldInfo{
 								Type:      ty,
-- 
2.43.0


From 41f143e899e52e9cd449955579fa38c08ef545b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:47 +0000
Subject: [PATCH 18/30] fix: keep the conditions that are only partially
 applied to the object in the post-process filter

'(a = 1 and foo(b) = 2) or c = 3' was reduced to 'foo(b) = 2' in the
post-process filter, because the weakened per-object filter 'a = 1 or c = 3'
was treated as if it had applied the whole condition.
---
 soql/parser/postprocess/normalizeperobj.go | 38 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index f1c2d19..d12a18f 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -242,16 +242,44 @@ CHECK_FIELDS:
 	return hasConditionsOriginally, conditions, innerJoined
 }
 
+// Get the positions of the operands of the outermost And operators.
+func splitConjuncts(conditions []SoqlCondition, end int, conjuncts []soqlConditionStack) []soqlConditionStack {
+	if end <= 0 {
+		return conjuncts
+	}
+	if conditions[end-1].Opcode == SoqlConditionOpcode_And {
+		conjuncts = splitConjuncts(conditions, operandStartPosition(conditions, end-1), conjuncts)
+		return splitConjuncts(conditions, end-1, conjuncts)
+	}
+	return append(conjuncts, soqlConditionStack{
+		cond:   conditions[end-1],
+		srcPos: end - 1,
+		minPos: operandStartPosition(conditions, end),
+	})
+}
+
 func makePostProcessWhereClause(q *SoqlQuery) error {
 	postProcessWhere := make([]SoqlCondition, 0, len(q.Where))
 	postProcessWhere = append(postProcessWhere, q.Where...)
 
+	conjuncts := splitConjuncts(q.Where, len(q.Where), nil)
+
 	for i := 0; i < len(q.From); i++ {
-		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {
-			switch q.From[i].PerObjectQuery.Where[j].Opcode {
-			case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
-				// do nothing
-			default:
+		if len(q.From[i].PerObjectQuery.Where) == 0 {
+			continue
+		}
+
+	CONJUNCTS:
+		for _, c := range conjuncts {
+			for j := c.minPos; j <= c.srcPos; j++ {
+				switch q.From[i].PerObjectQuery.Where[j].Opcode {
+				case SoqlConditionOpcode_Noop, SoqlConditionOpcode_Unknown:
+					// The per-object condition is weaker than the original (or empty).
+					// e.g. `(a = 1 and foo(b) = 2) or c = 3` is `a = 1 or c = 3` for the object.
+					continue CONJUNCTS
+				}
+			}
+			for j := c.minPos; j <= c.srcPos; j++ {
 				// The object is inner-joined.
 				postProcessWhere[j].Opcode = SoqlConditionOpcode_Noop
 			}
-- 
2.43.0


From eba6082c98f21b7ca7f40949b00bd119683273ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 19/30] fix: do not list an implicitly declared object twice
 when it is also declared explicitly

'FROM Contact con, con.Account.Owner own, con.Account acc' had two entries for
Contact.Account, each with its own per-object query but the same view id.
---
 soql/parser/postprocess/normalize.go  |  2 ++
 soql/parser/postprocess/normalize1.go | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 1c06ab2..3ca5804 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -262,6 +262,8 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
+	removeDuplicateImplicitObjects(q)
+
 	sort.SliceStable(q.From[1:], func(i, j int) bool {
 		return len(q.From[i+1].Name) < len(q.From[j+1].Name)
 	})
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index ee007c6..a6cab24 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -345,6 +345,29 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	return nil
 }
 
+// Remove the implicitly declared objects that are also declared explicitly in the From clause.
+// e.g. `Contact.Account` of `FROM Contact con, con.Account.Owner own, con.Account acc`
+func removeDuplicateImplicitObjects(q *SoqlQuery) {
+	keys := make(map[string]struct{})
+	for i := 0; i < len(q.From); i++ {
+		if q.From[i].AliasName != "" {
+			keys[q.From[i].Key] = struct{}{}
+		}
+	}
+
+	from := make([]SoqlObjectInfo, 0, len(q.From))
+	for i := 0; i < len(q.From); i++ {
+		if i != 0 && q.From[i].AliasName == "" {
+			if _, ok := keys[q.From[i].Key]; ok {
+				continue
+			}
+		}
+		keys[q.From[i].Key] = struct{}{}
+		from = append(from, q.From[i])
+	}
+	q.From = from
+}
+
 func (ctx *normalizeQueryContext) normalizeObjectName(
 	object *SoqlObjectInfo, q *SoqlQuery, objNameMap map[string][]string) error {
 
-- 
2.43.0


From d871d559ef6f37258930ab028919930a2beeb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 20/30] fix: do not share views and columns among the
 conditional subqueries of a query

Two subqueries on the same object in a where clause got the same view id and
column ids, and the view graph leaf of the former was overwritten.
---
 soql/parser/postprocess/normalize.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 3ca5804..95d6c91 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -388,15 +388,17 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	savedColumnIdMap := ctx.columnIdMap
 	savedColIndexMap := ctx.colIndexMap
 	savedHeadObjDepthOffset := ctx.headObjDepthOffset
-	ctx.viewIdMap = make(map[string]int)
-	ctx.columnIdMap = make(map[string]int)
-	ctx.colIndexMap = make(map[string]int)
 	ctx.headObjDepthOffset = len(q.From[0].Name)
 
 	if q.Where != nil {
 		for i := 0; i < len(q.Where); i++ {
 			condition := q.Where[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// NOTE: Views and columns are not shared among the conditional subqueries.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, nil, normalizeFieldNameConf{
@@ -418,6 +420,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		for i := 0; i < len(q.Having); i++ {
 			condition := q.Having[i]
 			if condition.Opcode == SoqlConditionOpcode_FieldInfo && condition.Value.Type == SoqlFieldInfo_SubQuery {
+				// NOTE: Views and columns are not shared among the conditional subqueries.
+				ctx.viewIdMap = make(map[string]int)
+				ctx.columnIdMap = make(map[string]int)
+				ctx.colIndexMap = make(map[string]int)
+
 				if err := ctx.normalizeFieldName(
 					&condition.Value, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 					objNameMap, groupingFields, normalizeFieldNameConf{
-- 
2.43.0


From 15d0712419a9e582565504aee3a07b949768f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 21/30] fix: fetch the fields of parent's relationships
 referred to in a correlated subquery

'(SELECT Id FROM con.Kids WHERE Name = con.Account.Name)' was not marked as
correlated and no query fetched Account.Name, because only the fields with a
name shorter than the one of the head object were looked up in the parent.
---
 soql/parser/postprocess/normalize3.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 4b07cee..066f65f 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -8,6 +8,17 @@ import (
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// The object of the field is in the From clause of the query (not of the parent query).
+func hasObjectOfField(q *SoqlQuery, field *SoqlFieldInfo) bool {
+	ns := nameutil.GetNamespaceFromName(field.Name)
+	for i := range q.From {
+		if nameutil.NameEqualsIgnoreCase(q.From[i].Name, ns) {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []SoqlFieldInfo) error {
 	for i := range fields {
 		switch fields[i].Type {
@@ -18,7 +29,7 @@ func (ctx *normalizeQueryContext) applyColIndexToFields(q *SoqlQuery, fields []S
 				fields[i].ColIndex = -1
 			}
 
-			if len(fields[i].Name) <= len(q.From[0].Name) {
+			if !hasObjectOfField(q, &fields[i]) {
 				q.IsCorelated = true
 
 				if fields[i].ColIndex == -1 {
-- 
2.43.0


From 2a114de6b4f28592721f735dc0d4b115260faf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 22/30] fix: build each recursive rule once instead of once per
 nesting path

The parser graph of a recursive rule was built again for every distinct path of nested
rules and kept forever: parsing various nested queries used up gigabytes of memory.
---
 soql/parser/core/expressions1.go |  6 +++---
 soql/parser/core/expressions2.go |  4 ++--
 soql/parser/core/helpers.go      | 22 ++++++++++++++++------
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/soql/parser/core/expressions1.go b/soql/parser/core/expressions1.go
index e64524d..272b4f9 100644
--- a/soql/parser/core/expressions1.go
+++ b/soql/parser/core/expressions1.go
@@ -62,7 +62,7 @@ func selectFieldFunctionCall() ParserFn {
 					sp0(),
 					ZeroOrOnce(
 						First(
-							indirect(selectFieldFunctionCall),
+							indirect("selectFieldFunctionCall", selectFieldFunctionCall),
 							functionLiteralParameter(),
 							complexSymbolName(),
 						),
@@ -71,7 +71,7 @@ func selectFieldFunctionCall() ParserFn {
 							erase(CharClass(",")),
 							sp0(),
 							First(
-								indirect(selectFieldFunctionCall),
+								indirect("selectFieldFunctionCall", selectFieldFunctionCall),
 								functionLiteralParameter(),
 								complexSymbolName(),
 							),
@@ -146,7 +146,7 @@ func subQuery() ParserFn {
 		FlatGroup(
 			erase(CharClass("(")),
 			sp0(),
-			indirect(subQuerySelectStatement),
+			indirect("subQuerySelectStatement", subQuerySelectStatement),
 			sp0(),
 			erase(CharClass(")")),
 			sp0(),
diff --git a/soql/parser/core/expressions2.go b/soql/parser/core/expressions2.go
index d05732c..0034616 100644
--- a/soql/parser/core/expressions2.go
+++ b/soql/parser/core/expressions2.go
@@ -183,7 +183,7 @@ func whereConditionExpressionTerm() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						indirect(whereConditionExpression),
+						indirect("whereConditionExpression", whereConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
@@ -340,7 +340,7 @@ func havingConditionExpressionTerm() ParserFn {
 				First(
 					FlatGroup(
 						sp0(),
-						indirect(havingConditionExpression),
+						indirect("havingConditionExpression", havingConditionExpression),
 						erase(CharClass(")")),
 						sp0(),
 					),
diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index d6b58a4..1870d6d 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -22,16 +22,26 @@ func replaceStr(fn ParserFn, s string) ParserFn {
 	return Trans(fn, setStr(s))
 }
 
+type lazyParser struct {
+	once   sync.Once
+	parser ParserFn
+}
+
+// Recursive rules by name. (name -> *lazyParser)
+var lazyParsers sync.Map
+
 // Goroutine-safe version of the takenoco's Indirect().
 // The parser is shared by all callers and is built on the first use.
-func indirect(fn func() ParserFn) ParserFn {
-	var once sync.Once
-	var parser ParserFn
+// It is built once for the rule, not for each path of the nested rules.
+func indirect(name string, fn func() ParserFn) ParserFn {
+	v, _ := lazyParsers.LoadOrStore(name, &lazyParser{})
+	lazy := v.(*lazyParser)
+
 	return LightBaseParser("Indirect", func(ctx ParserContext) (ParserContext, error) {
-		once.Do(func() {
-			parser = fn()
+		lazy.once.Do(func() {
+			lazy.parser = fn()
 		})
-		return parser(ctx)
+		return lazy.parser(ctx)
 	})
 }
 
-- 
2.43.0


From 06e3eeeda9553ed11b1e95c53492ab96d7f7ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 23/30] fix: reject too deeply nested text instead of
 overflowing the stack

---
 soql/parser/core/helpers.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/soql/parser/core/helpers.go b/soql/parser/core/helpers.go
index 1870d6d..476ac51 100644
--- a/soql/parser/core/helpers.go
+++ b/soql/parser/core/helpers.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"strings"
 	"sync"
 
@@ -22,6 +23,9 @@ func replaceStr(fn ParserFn, s string) ParserFn {
 	return Trans(fn, setStr(s))
 }
 
+// Maximum nesting depth of subqueries, function calls and parentheses.
+const maxNestingDepth = 500
+
 type lazyParser struct {
 	once   sync.Once
 	parser ParserFn
@@ -41,7 +45,20 @@ func indirect(name string, fn func() ParserFn) ParserFn {
 		lazy.once.Do(func() {
 			lazy.parser = fn()
 		})
-		return lazy.parser(ctx)
+
+		depth, _ := ctx.Tag.(int)
+		if depth >= maxNestingDepth {
+			// Overflowing the stack is not recoverable.
+			ctx.Length = 0
+			ctx.MatchStatus = MatchStatus_Error
+			return ctx, errors.New("Nested too deeply")
+		}
+
+		tag := ctx.Tag
+		ctx.Tag = depth + 1
+		out, err := lazy.parser(ctx)
+		out.Tag = tag
+		return out, err
 	})
 }
 
-- 
2.43.0


From 912ed69484e1409efbf93a0976093f3ecbd9dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 24/30] fix: end normalization when an alias hides the primary
 object

'select Id from x, x.b x' appended implicit objects forever.
---
 soql/parser/postprocess/normalize.go  | 6 +++++-
 soql/parser/postprocess/normalize1.go | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 95d6c91..af69efa 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -73,7 +73,11 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 	objectAliasMap := make(map[string]*SoqlObjectInfo)
 
-	for i := 0; i < len(q.From); i++ {
+	// NOTE: The implicitly declared objects appended by normalizeObjectName are already normalized.
+	//       Normalizing them again never ends if an alias name hides the name of the primary object.
+	declaredLen := len(q.From)
+
+	for i := 0; i < declaredLen; i++ {
 		object := q.From[i]
 
 		if i != 0 || !(qPlace == soqlQueryPlace_Primary || qPlace == soqlQueryPlace_ConditionalOperand) {
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index a6cab24..b475224 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -388,7 +388,8 @@ func (ctx *normalizeQueryContext) normalizeObjectName(
 	}
 
 	for i := 0; i < len(currentName)-1; i++ {
-		s := currentName[:i+1]
+		s := make([]string, i+1)
+		copy(s, currentName)
 		key := nameutil.MakeDottedKeyIgnoreCase(s, i+1)
 		if fullyQualifiedName, ok := objNameMap[key]; !ok {
 			o := SoqlObjectInfo{
-- 
2.43.0


From 34e996bb3377f7c9c5fdc626446b5171cc7fc8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 25/30] fix: do not share views and columns among the
 select-subqueries on the same relationship

The view graph leaf of the former subquery was overwritten by the latter.
---
 soql/parser/postprocess/normalize.go | 45 ++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index af69efa..0dd52e0 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -276,6 +276,15 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		return err
 	}
 
+	if qPlace == soqlQueryPlace_Select {
+		// NOTE: Views and columns are not shared with the other queries on the same relationships.
+		keys := make(map[string]struct{})
+		for i := 0; i < len(q.From); i++ {
+			keys[q.From[i].Key] = struct{}{}
+		}
+		defer ctx.detachIds(keys)()
+	}
+
 	for i := 0; i < len(q.From); i++ {
 		if viewId, ok := ctx.viewIdMap[q.From[i].Key]; !ok {
 			q.From[i].ViewId = ctx.viewId
@@ -454,6 +463,42 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	return nil
 }
 
+// Remove the ids of the objects and their fields. The returned function puts them back.
+func (ctx *normalizeQueryContext) detachIds(objectKeys map[string]struct{}) func() {
+	detach := func(idMap map[string]int, isField bool) map[string]int {
+		detached := make(map[string]int)
+		for key, id := range idMap {
+			objectKey := key
+			if isField {
+				objectKey = strings.TrimSuffix(key[:strings.LastIndexByte(key, '.')+1], ".")
+			}
+			if _, ok := objectKeys[objectKey]; ok {
+				detached[key] = id
+				delete(idMap, key)
+			}
+		}
+		return detached
+	}
+	restore := func(idMap, detached map[string]int) {
+		for key, id := range detached {
+			idMap[key] = id
+		}
+	}
+
+	viewIds := detach(ctx.viewIdMap, false)
+	columnIds := detach(ctx.columnIdMap, true)
+	colIndexes := detach(ctx.colIndexMap, true)
+
+	return func() {
+		detach(ctx.viewIdMap, false)
+		detach(ctx.columnIdMap, true)
+		detach(ctx.colIndexMap, true)
+		restore(ctx.viewIdMap, viewIds)
+		restore(ctx.columnIdMap, columnIds)
+		restore(ctx.colIndexMap, colIndexes)
+	}
+}
+
 func Normalize(q *SoqlQuery) error {
 	ctx := normalizeQueryContext{
 		queryId:            1,
-- 
2.43.0


From 88045cbb242e3c7e97accb1629eb81ec38065676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 26/30] fix: compare the object names of a selected field
 regardless of case

A field of a subquery's select clause was rejected as a siblings object item when
an outer object was written in another case at its later explicit declaration.
---
 soql/parser/postprocess/normalize1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index b475224..7a5d104 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -132,7 +132,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 
 				// NOTE: The function parameter can be an ancestor object item (shorter than the object name).
 				for i := 0; i < len(q.From[0].Name) && i < len(field.Name)-1; i++ {
-					if q.From[0].Name[i] != field.Name[i] {
+					if strings.ToLower(q.From[0].Name[i]) != strings.ToLower(field.Name[i]) {
 						return errors.New(
 							"The siblings object item is not allowed to be selected: " +
 								strings.Join(field.Name, ".") + " at " + strings.Join(q.From[0].Name, "."),
-- 
2.43.0


From d232c8f6144ddd82d696ba8d43366a7890bf5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 27/30] fix: group by an alias only if it is written
 unqualified, and check the fields it stands for

---
 soql/parser/postprocess/normalize.go  | 22 +++++++++++++-------
 soql/parser/postprocess/normalize1.go | 30 +++++++++++----------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 0dd52e0..3ea862a 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -109,11 +109,23 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 	}
 
 	groupingFields := make(map[string]struct{})
+	groupingAliases := make([]string, len(q.GroupBy))
 
 	if q.GroupBy != nil {
 		for i := 0; i < len(q.GroupBy); i++ {
 			field := q.GroupBy[i]
 
+			// NOTE: Only an unqualified name can be an alias name of the Select clause.
+			if len(field.Name) == 1 {
+				if p := findFieldByAliasName(q, field.Name[0]); p != nil {
+					groupingAliases[i] = strings.ToLower(p.AliasName)
+					if p.Type != SoqlFieldInfo_Field {
+						continue
+					}
+					field = *p
+				}
+			}
+
 			if err := ctx.normalizeFieldName(
 				&field, soqlQueryPlace_ConditionalOperand, q, queryDepth,
 				objNameMap, nil, normalizeFieldNameConf{
@@ -170,14 +182,8 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 
 	if q.GroupBy != nil {
 		for i := 0; i < len(q.GroupBy); i++ {
-			field := q.GroupBy[i]
-
-			if len(field.Name) == len(q.From[0].Name)+1 {
-				if p, ok := fieldAliasMap[strings.ToLower(field.Name[len(field.Name)-1])]; ok {
-					delete(groupingFields, field.Key)
-					q.GroupBy[i] = *p
-					groupingFields[p.Key] = struct{}{}
-				}
+			if p, ok := fieldAliasMap[groupingAliases[i]]; ok {
+				q.GroupBy[i] = *p
 			}
 		}
 	}
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 7a5d104..364d5f8 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -39,6 +39,16 @@ func preScanFunctionFields(field *SoqlFieldInfo, q *SoqlQuery) {
 	}
 }
 
+func findFieldByAliasName(q *SoqlQuery, aliasName string) *SoqlFieldInfo {
+	aliasName = strings.ToLower(aliasName)
+	for i := 0; i < len(q.Fields); i++ {
+		if q.Fields[i].AliasName != "" && strings.ToLower(q.Fields[i].AliasName) == aliasName {
+			return &q.Fields[i]
+		}
+	}
+	return nil
+}
+
 func (ctx *normalizeQueryContext) normalizeFieldName(
 	field *SoqlFieldInfo, qPlace soqlQueryPlace, q *SoqlQuery, queryDepth int,
 	objNameMap map[string][]string,
@@ -148,15 +158,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 			if !conf.isFunctionParameter && (conf.isHavingClause || (conf.isSelectClause && q.IsAggregation)) {
 				if field.Key != "" {
 					if _, ok := groupingFields[field.Key]; !ok {
-						if field.AliasName != "" {
-							nm := make([]string, 0, len(q.From[0].Name)+1)
-							nm = append(nm, q.From[0].Name...)
-							nm = append(nm, field.AliasName)
-							_, ok = groupingFields[nameutil.MakeDottedKeyIgnoreCase(nm, len(nm))]
-						}
-						if !ok {
-							return errors.New("The item must be included in a Group By clause: " + strings.Join(field.Name, "."))
-						}
+						return errors.New("The item must be included in a Group By clause: " + strings.Join(field.Name, "."))
 					}
 				}
 			}
@@ -296,15 +298,7 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 					param := &field.Parameters[i]
 					if param.Type == SoqlFieldInfo_Field && param.Key != "" {
 						if _, ok := groupingFields[param.Key]; !ok {
-							if param.AliasName != "" {
-								nm := make([]string, 0, len(q.From[0].Name)+1)
-								nm = append(nm, q.From[0].Name...)
-								nm = append(nm, param.AliasName)
-								_, ok = groupingFields[nameutil.MakeDottedKeyIgnoreCase(nm, len(nm))]
-							}
-							if !ok {
-								return errors.New("The item must be included in a Group By clause: " + strings.Join(param.Name, "."))
-							}
+							return errors.New("The item must be included in a Group By clause: " + strings.Join(param.Name, "."))
 						}
 					}
 				}
-- 
2.43.0


From a372184d373cad0ca0d55513c79a9f8c4f128aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 28/30] fix: list an object that is declared with several alias
 names once

---
 soql/parser/postprocess/normalize.go  |  2 +-
 soql/parser/postprocess/normalize1.go | 23 ++++++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/soql/parser/postprocess/normalize.go b/soql/parser/postprocess/normalize.go
index 3ea862a..9ea4906 100644
--- a/soql/parser/postprocess/normalize.go
+++ b/soql/parser/postprocess/normalize.go
@@ -272,7 +272,7 @@ func (ctx *normalizeQueryContext) normalizeQuery(
 		}
 	}
 
-	removeDuplicateImplicitObjects(q)
+	removeDuplicateObjects(q)
 
 	sort.SliceStable(q.From[1:], func(i, j int) bool {
 		return len(q.From[i+1].Name) < len(q.From[j+1].Name)
diff --git a/soql/parser/postprocess/normalize1.go b/soql/parser/postprocess/normalize1.go
index 364d5f8..8f4bc20 100644
--- a/soql/parser/postprocess/normalize1.go
+++ b/soql/parser/postprocess/normalize1.go
@@ -339,24 +339,29 @@ func (ctx *normalizeQueryContext) normalizeFieldName(
 	return nil
 }
 
-// Remove the implicitly declared objects that are also declared explicitly in the From clause.
+// Remove the objects that are also declared explicitly in the From clause.
 // e.g. `Contact.Account` of `FROM Contact con, con.Account.Owner own, con.Account acc`
-func removeDuplicateImplicitObjects(q *SoqlQuery) {
-	keys := make(map[string]struct{})
+//
+//	and of `FROM Contact con, con.Account acc1, con.Account acc2`
+func removeDuplicateObjects(q *SoqlQuery) {
+	explicit := make(map[string]struct{})
 	for i := 0; i < len(q.From); i++ {
 		if q.From[i].AliasName != "" {
-			keys[q.From[i].Key] = struct{}{}
+			explicit[q.From[i].Key] = struct{}{}
 		}
 	}
 
+	found := make(map[string]struct{})
 	from := make([]SoqlObjectInfo, 0, len(q.From))
 	for i := 0; i < len(q.From); i++ {
-		if i != 0 && q.From[i].AliasName == "" {
-			if _, ok := keys[q.From[i].Key]; ok {
-				continue
-			}
+		key := q.From[i].Key
+		if _, ok := found[key]; ok {
+			continue
+		}
+		if _, ok := explicit[key]; ok && i != 0 && q.From[i].AliasName == "" {
+			continue
 		}
-		keys[q.From[i].Key] = struct{}{}
+		found[key] = struct{}{}
 		from = append(from, q.From[i])
 	}
 	q.From = from
-- 
2.43.0


From d0073574cfeac103967e13c15e4a2cb7b0923d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:08 +0000
Subject: [PATCH 29/30] fix: reject numbers of date literals that exceed int on
 32-bit platforms

---
 soql/parser/core/elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soql/parser/core/elements.go b/soql/parser/core/elements.go
index a650bbe..e410e46 100644
--- a/soql/parser/core/elements.go
+++ b/soql/parser/core/elements.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"strings"
 	"time"
 
@@ -490,6 +491,10 @@ func dateTimeLiteralName() ParserFn {
 			wordBoundary(),
 		),
 		func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+			// NOTE: int is 32 bits wide on some platforms.
+			if n := asts[1].Value.(int64); int64(int(n)) != n {
+				return nil, errors.New("The number of the date literal is out of range: " + asts[0].Value.(string))
+			}
 			return AstSlice{{
 				ClassName: class.DateTimeLiteralName,
 				Type:      AstType_Any,
-- 
2.43.0


From ce5506a20e51561bf683af5a5f56281419861c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:19 +0000
Subject: [PATCH 30/30] fix: compare object names as their keys do
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Fields, sort items and conditions were assigned to objects by Unicode
case-folding, but objects are distinguished by lower-case keys. With
names like "ſ" and "s", or "ΟΔΟΣ" and "οδος", a field was fetched from,
and its filter pushed to, both of the objects.
---
 soql/parser/postprocess/normalize3.go      |  2 +-
 soql/parser/postprocess/normalizeperobj.go | 25 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/soql/parser/postprocess/normalize3.go b/soql/parser/postprocess/normalize3.go
index 066f65f..f1698b7 100644
--- a/soql/parser/postprocess/normalize3.go
+++ b/soql/parser/postprocess/normalize3.go
@@ -12,7 +12,7 @@ import (
 func hasObjectOfField(q *SoqlQuery, field *SoqlFieldInfo) bool {
 	ns := nameutil.GetNamespaceFromName(field.Name)
 	for i := range q.From {
-		if nameutil.NameEqualsIgnoreCase(q.From[i].Name, ns) {
+		if equalsName(q.From[i].Name, ns) {
 			return true
 		}
 	}
diff --git a/soql/parser/postprocess/normalizeperobj.go b/soql/parser/postprocess/normalizeperobj.go
index d12a18f..5ed1d33 100644
--- a/soql/parser/postprocess/normalizeperobj.go
+++ b/soql/parser/postprocess/normalizeperobj.go
@@ -4,11 +4,26 @@ import (
 	"errors"
 	"sort"
 	"strconv"
+	"strings"
 
-	"github.com/shellyln/go-nameutil/nameutil"
 	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
 )
 
+// Names are equal if their keys (made by nameutil.MakeDottedKeyIgnoreCase) are equal.
+// nameutil.NameEqualsIgnoreCase uses the Unicode case-folding, which also takes
+// names with different keys for the same name. (e.g. `ς` and `σ`)
+func equalsName(nameA, nameB []string) bool {
+	if len(nameA) != len(nameB) {
+		return false
+	}
+	for i := 0; i < len(nameA); i++ {
+		if strings.ToLower(nameA[i]) != strings.ToLower(nameB[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 func makePerObjectFields(perObjQuery *SoqlQuery, srcFields []SoqlFieldInfo) []SoqlFieldInfo {
 	targetFields := make([]SoqlFieldInfo, 0, len(srcFields))
 
@@ -17,7 +32,7 @@ func makePerObjectFields(perObjQuery *SoqlQuery, srcFields []SoqlFieldInfo) []So
 		case SoqlFieldInfo_Field, SoqlFieldInfo_FieldSet:
 			{
 				name := srcFields[i].Name
-				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
+				if equalsName(perObjQuery.From[0].Name, name[:len(name)-1]) {
 					targetFields = append(targetFields, srcFields[i])
 				}
 			}
@@ -45,7 +60,7 @@ func makePerObjectOrders(perObjQuery *SoqlQuery, srcOrders []SoqlOrderByInfo) []
 		case SoqlFieldInfo_Field:
 			{
 				name := srcOrders[i].Field.Name
-				if nameutil.NameEqualsIgnoreCase(perObjQuery.From[0].Name, name[:len(name)-1]) {
+				if equalsName(perObjQuery.From[0].Name, name[:len(name)-1]) {
 					targetOrders = append(targetOrders, srcOrders[i])
 				}
 			}
@@ -80,7 +95,7 @@ CHECK_FIELDS:
 		case SoqlConditionOpcode_FieldInfo:
 			switch cond.Value.Type {
 			case SoqlFieldInfo_Field:
-				if nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
+				if equalsName(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
 					hasConditionsOriginally = true
 					break CHECK_FIELDS
 				}
@@ -109,7 +124,7 @@ CHECK_FIELDS:
 
 				switch cond.Value.Type {
 				case SoqlFieldInfo_Field:
-					if !nameutil.NameEqualsIgnoreCase(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
+					if !equalsName(objectName, cond.Value.Name[:len(cond.Value.Name)-1]) {
 						conditions[i].Opcode = SoqlConditionOpcode_Unknown
 						stack[sp].cond.Opcode = SoqlConditionOpcode_Unknown
 					}
-- 
2.43.0

