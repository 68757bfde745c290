From f4b4234f25c7ca54b970a516926a55846790d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 01/22] fix: keep table, joins and conditions when selecting
 fields of a single-row query

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index dd12af7..12c25ac 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From e71f4b4b38a0d0ef913541a3699a76a09a760056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 02/22] fix: IsNull(...).Or(...) no longer panics

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..955cc70 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From 0add47c0e0ec39bd71389d3eedecd7df2efcdbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 03/22] fix: builders, unfinished joins and condition groups no
 longer share storage with what is derived from them

---
 group.go           | 9 +++++++++
 insert.go          | 5 +++--
 join_unfinished.go | 7 +++++++
 select_base.go     | 3 ++-
 select_many.go     | 7 +++++--
 select_single.go   | 6 +++++-
 update.go          | 5 +++--
 7 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/group.go b/group.go
index 1b476db..02ed7bb 100644
--- a/group.go
+++ b/group.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // Group implements conditions grouping.
 type Group struct {
 	BaseCondition
@@ -46,6 +50,7 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // appending must not touch shared storage
 	haveNone := len(conditionsGroup.conditions) == 0
 	haveSingle := len(conditionsGroup.conditions) == 1
 
@@ -103,6 +108,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 // addSingleCondition does extra routines while adding single condition.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // appending must not touch shared storage
 	haveNone := len(conditionsGroup.conditions) == 0
 	haveSingle := len(conditionsGroup.conditions) == 1
 	haveMany := len(conditionsGroup.conditions) > 1
@@ -133,6 +139,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // appending must not touch shared storage
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -307,6 +314,7 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -317,6 +325,7 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = slices.Clone(conditionsGroup.conditions)
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
diff --git a/insert.go b/insert.go
index 90cef5a..608c640 100644
--- a/insert.go
+++ b/insert.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -20,13 +21,13 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return append([]FieldValue{}, inserter.setValues...)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
-	inserter.setValues = append(inserter.setValues, values...)
+	inserter.setValues = append(slices.Clip(inserter.setValues), values...)
 	return inserter
 }
 
diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..4c91e69 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // incompleteBaseJoiner is not exported implementation of IncompleteSelectJoin just for prevent manual instance building.
 // The goal is to provide chain style method to generate every clause types.
 type incompleteBaseJoiner struct {
@@ -11,6 +15,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = slices.Clone(updated.joins) // do not touch joins of unfinished builder, it could be finished again
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +33,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = slices.Clone(updated.joins) // do not touch joins of unfinished builder, it could be finished again
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +51,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = slices.Clone(updated.joins) // do not touch joins of unfinished builder, it could be finished again
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
diff --git a/select_base.go b/select_base.go
index edecf61..6c132e4 100644
--- a/select_base.go
+++ b/select_base.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -187,7 +188,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
 
diff --git a/select_many.go b/select_many.go
index 30cc574..9eb0820 100644
--- a/select_many.go
+++ b/select_many.go
@@ -1,6 +1,7 @@
 package query
 
 import (
+	"slices"
 	"strconv"
 )
 
@@ -72,6 +73,7 @@ func (query SelectManyBuilder) FieldDefinitions() (res []FieldDefinition) {
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectManyBuilder {
+	query.order = slices.Clone(query.order)
 	for idx, ordering := range query.order {
 		if spec.fieldName == ordering.fieldName {
 			query.order[idx] = query.order[idx].ApplyFieldSpec(spec)
@@ -83,6 +85,7 @@ func (query SelectManyBuilder) applySpecToOrdering(spec FieldDefinition) SelectM
 
 // applySpecToOrdering checks if field spec suits for any ordering fields and replaces its spec if required
 func (query SelectManyBuilder) applyFieldTableToOrdering(tableName TableName) SelectManyBuilder {
+	query.order = slices.Clone(query.order)
 	for idx := range query.order {
 		query.order[idx] = query.order[idx].applyFieldTable(tableName)
 	}
@@ -104,7 +107,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
-	query.order = append(query.order, orderByFields...)
+	query.order = append(slices.Clip(query.order), orderByFields...)
 	return query
 }
 
@@ -134,7 +137,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
 
diff --git a/select_single.go b/select_single.go
index 12c25ac..722dcfd 100644
--- a/select_single.go
+++ b/select_single.go
@@ -1,5 +1,9 @@
 package query
 
+import (
+	"slices"
+)
+
 // SelectSingleBuilder extends BaseSelectBuilder helps to build SQL SELECT queries to receive single row.
 type SelectSingleBuilder struct {
 	BaseSelectBuilder
@@ -55,7 +59,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
-	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
+	updated.joins = append(slices.Clip(updated.joins), TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
 
diff --git a/update.go b/update.go
index da0c242..96f4ed4 100644
--- a/update.go
+++ b/update.go
@@ -2,6 +2,7 @@ package query
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -21,13 +22,13 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return append([]FieldValue{}, updater.setValues...)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
-	updater.setValues = append(updater.setValues, values...)
+	updater.setValues = append(slices.Clip(updater.setValues), values...)
 	return updater
 }
 
-- 
2.43.0


From de7529ddba861623a0969f43b65e395995f8b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 04/22] fix: rendering and extending condition groups keeps the
 composed meaning (brackets, operators, negation)

---
 group.go | 63 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/group.go b/group.go
index 02ed7bb..6ca33db 100644
--- a/group.go
+++ b/group.go
@@ -66,6 +66,11 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	op := anotherGroup.joinType
 
+	if !haveNone && len(anotherGroup.conditions) > 0 { // first of added conditions takes join of whole added group
+		anotherGroup.conditions = slices.Clone(anotherGroup.conditions)
+		anotherGroup.conditions[0] = op.Join(anotherGroup.conditions[0])
+	}
+
 	switch {
 	case haveNone: // current group empty, reset it op and elements from another
 		conditionsGroup.conditions = anotherGroup.conditions
@@ -84,7 +89,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
+	case havingAnyOR && op == LogicalAND && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
@@ -115,6 +120,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
 	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
 	groupToAdd, addingGroup := condition.(Group)
+	addingGroup = addingGroup && !groupToAdd.IsNegate() // negated group is indivisible, add it as single condition
 	op := condition.JoinType()
 
 	switch {
@@ -140,6 +146,10 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
 	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // appending must not touch shared storage
+	if len(conditions) > 0 {
+		conditionsGroup = conditionsGroup.enclosedIfNegated()
+	}
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -153,19 +163,32 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, op.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
 
 	return conditionsGroup
 }
 
+// enclosedIfNegated returns a group having current group as its only condition if current group is negated.
+// Used to prevent negation of existed conditions affecting conditions added later.
+func (conditionsGroup Group) enclosedIfNegated() Group {
+	if !conditionsGroup.IsNegate() || len(conditionsGroup.conditions) == 0 {
+		return conditionsGroup
+	}
+
+	return Group{
+		BaseCondition: *newBaseCondition(conditionsGroup.joinType, false),
+		conditions:    []Condition{conditionsGroup},
+	}
+}
+
 // hasAll returns true if all conditions joined with specified JoinType.
 // Ignores first condition join type as everything joined to it.
 func (conditionsGroup Group) hasAll(joinType JoinType) bool {
@@ -231,6 +254,34 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// encloseChild returns child condition with brackets enabled if it would change its meaning without them.
+func (conditionsGroup Group) encloseChild(condition Condition) Condition {
+	child, isGroup := condition.(Group)
+	if !isGroup || !child.isBareList() {
+		return condition
+	}
+
+	if len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate() {
+		return child.WithBrackets()
+	}
+
+	return condition
+}
+
+// isBareList returns true if group renders as list of joined conditions with neither brackets nor negation around.
+func (conditionsGroup Group) isBareList() bool {
+	if conditionsGroup.withBrackets || conditionsGroup.IsNegate() {
+		return false
+	}
+
+	if len(conditionsGroup.conditions) == 1 {
+		nested, isGroup := conditionsGroup.conditions[0].(Group)
+		return isGroup && nested.isBareList()
+	}
+
+	return len(conditionsGroup.conditions) > 1
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -248,7 +299,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.encloseChild(condition).Render(parametersCount)
 		parametersCount += len(condition.Values())
 	}
 
@@ -282,7 +333,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.encloseChild(condition).RenderSQL()
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From f9c3a0faee7cd6390c08a52ad2246b208a2bf80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 05/22] fix: condition Or() results join as a whole group when
 passed next to other conditions

---
 lib_equal.go | 2 +-
 lib_gt.go    | 2 +-
 lib_gte.go   | 2 +-
 lib_in.go    | 2 +-
 lib_lt.go    | 2 +-
 lib_lte.go   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..97272b0 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -70,7 +70,7 @@ func (impl equalTo) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl equalTo) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // EqualTo generates Condition for any field type equalTo to value.
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..16c3ae9 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -70,7 +70,7 @@ func (impl greater) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl greater) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // GreaterThan generates Condition for any field type to match records having field values greater than specified.
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..0c09c15 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -71,7 +71,7 @@ func (impl greaterOrEqual) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl greaterOrEqual) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // GreaterOrEqual generates Condition for any field type matching rows
diff --git a/lib_in.go b/lib_in.go
index ebd5c56..2641f4d 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -94,7 +94,7 @@ func (impl in) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl in) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // In generates Condition for any field type to match records having field values in than specified.
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..cd97bba 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -74,7 +74,7 @@ func (impl less) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl less) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // Less generates Condition for any field type to match records having field values less than specified.
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..568f2b8 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -75,7 +75,7 @@ func (impl lessOrEqual) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl lessOrEqual) Or(conditions ...Condition) Condition {
-	return Or(impl, conditions...)
+	return NewGroup(LogicalOR, impl).Or(conditions...)
 }
 
 // LessOrEqual generates Condition for any field type matching rows having field values less or equal to specified.
-- 
2.43.0


From 27e0169a15080a0f7ae9bc04a9d61fb61f58b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 06/22] fix: empty condition groups add nothing, so they
 neither break SQL nor satisfy the UPDATE/DELETE guard

---
 group.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 6ca33db..c5887b7 100644
--- a/group.go
+++ b/group.go
@@ -42,7 +42,7 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(skipEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
@@ -146,6 +146,8 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
 	conditionsGroup.conditions = slices.Clip(conditionsGroup.conditions) // appending must not touch shared storage
+	conditions = skipEmptyGroups(conditions)
+
 	if len(conditions) > 0 {
 		conditionsGroup = conditionsGroup.enclosedIfNegated()
 	}
@@ -189,6 +191,21 @@ func (conditionsGroup Group) enclosedIfNegated() Group {
 	}
 }
 
+// skipEmptyGroups returns conditions except groups having no conditions inside as they restrict nothing.
+func skipEmptyGroups(conditions []Condition) (result []Condition) {
+	result = make([]Condition, 0, len(conditions))
+
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
+			continue
+		}
+
+		result = append(result, condition)
+	}
+
+	return result
+}
+
 // hasAll returns true if all conditions joined with specified JoinType.
 // Ignores first condition join type as everything joined to it.
 func (conditionsGroup Group) hasAll(joinType JoinType) bool {
-- 
2.43.0


From 933fc0c3e58fd7ca778a13a89c4346f21c9f8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 07/22] fix: a failing driver.Valuer no longer becomes NULL
 silently, a nil one no longer panics

---
 value.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/value.go b/value.go
index d760d1f..670daaa 100644
--- a/value.go
+++ b/value.go
@@ -35,14 +35,12 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{driverValue(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = driverValue(value)
 		}
 
 		return result
@@ -79,8 +77,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
+				valuer, _ := rawElem.(driver.Valuer)
+				if isNilValuer(valuer) {
 					res[idx] = nil
 				} else {
 					if res[idx], err = valuer.Value(); err != nil {
@@ -95,6 +93,35 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// isNilValuer returns true if valuer is nil or is a nil pointer which value can not be requested safely.
+// It follows database/sql where nil pointers to types having Value method on non-pointer receiver are NULL`s.
+func isNilValuer(valuer driver.Valuer) bool {
+	if valuer == nil {
+		return true
+	}
+
+	reflection := reflect.ValueOf(valuer)
+
+	return reflection.Kind() == reflect.Pointer &&
+		reflection.IsNil() &&
+		reflection.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem())
+}
+
+// driverValue returns value provided by driver.Valuer.
+// If valuer fails, returns valuer itself to let database driver report its error instead of using NULL silently.
+func driverValue(valuer driver.Valuer) any {
+	if isNilValuer(valuer) {
+		return nil
+	}
+
+	value, err := valuer.Value()
+	if err != nil {
+		return valuer
+	}
+
+	return value
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From fd3d61b5be71bc7d876eabfb0f4d23f6abb6901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 08/22] fix: list values in comparisons, INSERT and UPDATE bind
 exactly one parameter

---
 insert.go    |  2 +-
 lib_equal.go |  6 ++++++
 lib_gt.go    |  6 ++++++
 lib_gte.go   |  6 ++++++
 lib_lt.go    |  6 ++++++
 lib_lte.go   |  6 ++++++
 update.go    |  2 +-
 value.go     | 13 +++++++++++++
 8 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index 608c640..2a05906 100644
--- a/insert.go
+++ b/insert.go
@@ -49,7 +49,7 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
-		params = append(params, fieldValue.Values()...)
+		params = append(params, fieldValue.single())
 
 		columns = append(columns, fieldValue.fieldName)
 		valuePlaceholders = append(valuePlaceholders, "$"+strconv.Itoa(len(params)))
diff --git a/lib_equal.go b/lib_equal.go
index 97272b0..d4f1598 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,12 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns single value to compare field with.
+// Implements Condition.
+func (impl equalTo) Values() []any {
+	return []any{impl.single()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 16c3ae9..1366504 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,12 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns single value to compare field with.
+// Implements Condition.
+func (impl greater) Values() []any {
+	return []any{impl.single()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 0c09c15..3fc5c8a 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,12 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns single value to compare field with.
+// Implements Condition.
+func (impl greaterOrEqual) Values() []any {
+	return []any{impl.single()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index cd97bba..ce59304 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,12 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns single value to compare field with.
+// Implements Condition.
+func (impl less) Values() []any {
+	return []any{impl.single()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 568f2b8..ba408a6 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,12 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values returns single value to compare field with.
+// Implements Condition.
+func (impl lessOrEqual) Values() []any {
+	return []any{impl.single()}
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/update.go b/update.go
index 96f4ed4..64359ec 100644
--- a/update.go
+++ b/update.go
@@ -43,7 +43,7 @@ func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
 	params = make([]any, len(updater.setValues))
 
 	for idx, fieldValue := range updater.setValues {
-		params[idx] = fieldValue.Values()[0]
+		params[idx] = fieldValue.single()
 		kwPairs[idx] = fieldValue.fieldName + "=$" + strconv.Itoa(idx+1)
 	}
 
diff --git a/value.go b/value.go
index 670daaa..86873b9 100644
--- a/value.go
+++ b/value.go
@@ -93,6 +93,19 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// single returns value to use as exactly one query parameter.
+// In contrast to Values it does not expand lists into separate elements.
+func (fieldValue FieldValue) single() any {
+	switch typedValue := fieldValue.value.(type) {
+	case driver.Valuer:
+		return driverValue(typedValue)
+	case ValueProvider:
+		return typedValue.DatabaseValue()
+	default:
+		return fieldValue.value
+	}
+}
+
 // isNilValuer returns true if valuer is nil or is a nil pointer which value can not be requested safely.
 // It follows database/sql where nil pointers to types having Value method on non-pointer receiver are NULL`s.
 func isNilValuer(valuer driver.Valuer) bool {
-- 
2.43.0


From e8ab513eea467550fece706f3608a40802a3cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 09/22] fix: IN conditions accept lists of any element type

---
 value.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 86873b9..43a72f4 100644
--- a/value.go
+++ b/value.go
@@ -29,7 +29,7 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
-// Values returns a slice of interface{} containing single field value.
+// Values returns a slice of interface{} containing single field value or list elements if field value is a list.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
 
@@ -90,6 +90,17 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			return res
 		}
 	}
+
+	// any other list provides its elements, except bytes as they are single value.
+	if valueReflection.Kind() == reflect.Slice && valueReflection.Type().Elem().Kind() != reflect.Uint8 {
+		result = make([]any, valueReflection.Len())
+		for idx := range result {
+			result[idx] = FieldValue{value: valueReflection.Index(idx).Interface()}.single()
+		}
+
+		return result
+	}
+
 	return []any{fieldValue.value}
 }
 
-- 
2.43.0


From 685f048bca7625f47a1f7d70fd624b35fba0246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 10/22] fix: IN condition over empty list renders valid SQL

---
 lib_in.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib_in.go b/lib_in.go
index 2641f4d..6012438 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -46,6 +46,10 @@ func (impl in) Negate(newNegateIndicator bool) Condition {
 func (impl in) Render(paramNum int) string {
 	var tokens []string
 
+	if len(impl.Values()) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholders := make([]string, len(impl.Values()))
 
 	for idx := range impl.Values() {
@@ -68,6 +72,10 @@ func (impl in) Render(paramNum int) string {
 func (impl in) RenderSQL() (sql string) {
 	var tokens []string
 
+	if len(impl.Values()) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholders := make([]string, len(impl.Values()))
 
 	for idx := range impl.Values() {
@@ -85,6 +93,15 @@ func (impl in) RenderSQL() (sql string) {
 	return strings.Join(tokens, " ")
 }
 
+// renderEmpty renders condition having empty list of values: nothing is in it, so anything is not in it.
+func (impl in) renderEmpty() string {
+	if impl.IsNegate() {
+		return "1=1"
+	}
+
+	return "1=0"
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl in) And(conditions ...Condition) Condition {
-- 
2.43.0


From 6fa4062b701f29d21d5c551e94a3cbe32adc9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 11/22] fix: conditions refer to columns without AS clause when
 field has alias

---
 field_definition.go | 10 ++++++++++
 lib_equal.go        |  8 ++++----
 lib_gt.go           |  8 ++++----
 lib_gte.go          |  8 ++++----
 lib_ilike.go        |  8 ++++----
 lib_in.go           |  8 ++++----
 lib_isnull.go       |  4 ++--
 lib_like.go         |  8 ++++----
 lib_lt.go           |  8 ++++----
 lib_lte.go          |  8 ++++----
 10 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/field_definition.go b/field_definition.go
index ff33351..58127c0 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -171,6 +171,16 @@ func (fieldIdent FieldDefinition) RenderField() string {
 	}
 }
 
+// renderColumn returns a field name with optional table name to use in SQL conditional clauses.
+// Alias is never used as it is not allowed in conditions.
+func (fieldIdent FieldDefinition) renderColumn() string {
+	if len(fieldIdent.tableName) > 0 {
+		return fieldIdent.RenderTableSpec()
+	}
+
+	return fieldIdent.fieldName
+}
+
 // RenderTableSpec returns a field name in form <table_name>.<field_name> as string value.
 // Used to render SQL JOIN conditional clauses.
 // If value of FieldName type required use TableFieldName instead.
diff --git a/lib_equal.go b/lib_equal.go
index d4f1598..b52c94e 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -42,9 +42,9 @@ func (impl equalTo) Negate(newNegateIndicator bool) Condition {
 func (impl equalTo) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), "=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), "=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl equalTo) Render(paramNum int) string {
 func (impl equalTo) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), "=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), "=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "=?"}
+		tokens = []string{impl.renderColumn(), "=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gt.go b/lib_gt.go
index 1366504..aad420b 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -42,9 +42,9 @@ func (impl greater) Negate(newNegateIndicator bool) Condition {
 func (impl greater) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), ">$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), ">$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -54,9 +54,9 @@ func (impl greater) Render(paramNum int) string {
 func (impl greater) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), ">?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">?"}
+		tokens = []string{impl.renderColumn(), ">?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_gte.go b/lib_gte.go
index 3fc5c8a..a3307b9 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -43,9 +43,9 @@ func (impl greaterOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl greaterOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), ">=$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), ">=$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -55,9 +55,9 @@ func (impl greaterOrEqual) Render(paramNum int) string {
 func (impl greaterOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), ">=?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), ">=?"}
+		tokens = []string{impl.renderColumn(), ">=?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_ilike.go b/lib_ilike.go
index 582d76f..389def7 100644
--- a/lib_ilike.go
+++ b/lib_ilike.go
@@ -58,9 +58,9 @@ func (impl iContains) Or(conditions ...Condition) Condition {
 func (impl iContains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), opIlike, "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -71,9 +71,9 @@ func (impl iContains) Render(paramNum int) string {
 func (impl iContains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), opIlike, "?"}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), opIlike, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), opIlike, "?"}
+		tokens = []string{impl.renderColumn(), opIlike, "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_in.go b/lib_in.go
index 6012438..ba8a47a 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -59,9 +59,9 @@ func (impl in) Render(paramNum int) string {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.renderColumn(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
@@ -85,9 +85,9 @@ func (impl in) RenderSQL() (sql string) {
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), inSymbol, placeholdersString}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), inSymbol, placeholdersString}
 	} else {
-		tokens = []string{impl.RenderSpec(), inSymbol, placeholdersString}
+		tokens = []string{impl.renderColumn(), inSymbol, placeholdersString}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_isnull.go b/lib_isnull.go
index 955cc70..6e5c293 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -47,9 +47,9 @@ func (impl nullValue) Render(_ int) string {
 func (impl nullValue) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), "IS", "NOT", "NULL"}
+		tokens = []string{impl.renderColumn(), "IS", "NOT", "NULL"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "IS", "NULL"}
+		tokens = []string{impl.renderColumn(), "IS", "NULL"}
 	}
 	return strings.Join(tokens, " ")
 }
diff --git a/lib_like.go b/lib_like.go
index ca170d9..1c2ca9c 100644
--- a/lib_like.go
+++ b/lib_like.go
@@ -56,9 +56,9 @@ func (impl contains) Or(conditions ...Condition) Condition {
 func (impl contains) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), "LIKE", "$" + strconv.Itoa(paramNum+1)}
 	}
 
 	return strings.Join(tokens, " ")
@@ -69,9 +69,9 @@ func (impl contains) Render(paramNum int) string {
 func (impl contains) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderSpec(), impl.RenderNegate(), "LIKE", "?"}
+		tokens = []string{impl.renderColumn(), impl.RenderNegate(), "LIKE", "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), "LIKE", "?"}
+		tokens = []string{impl.renderColumn(), "LIKE", "?"}
 	}
 
 	return strings.Join(tokens, " ")
diff --git a/lib_lt.go b/lib_lt.go
index ce59304..8d11d10 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -46,9 +46,9 @@ func (impl less) Negate(newNegateIndicator bool) Condition {
 func (impl less) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), lessSymbol, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -58,9 +58,9 @@ func (impl less) Render(paramNum int) string {
 func (impl less) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), lessSymbol, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lessSymbol, "?"}
+		tokens = []string{impl.renderColumn(), lessSymbol, "?"}
 	}
 	return strings.Join(tokens, "")
 }
diff --git a/lib_lte.go b/lib_lte.go
index ba408a6..e4c79d8 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -47,9 +47,9 @@ func (impl lessOrEqual) Negate(newNegateIndicator bool) Condition {
 func (impl lessOrEqual) Render(paramNum int) string {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "$" + strconv.Itoa(paramNum+1)}
+		tokens = []string{impl.renderColumn(), lteOp, "$" + strconv.Itoa(paramNum+1)}
 	}
 	return strings.Join(tokens, "")
 }
@@ -59,9 +59,9 @@ func (impl lessOrEqual) Render(paramNum int) string {
 func (impl lessOrEqual) RenderSQL() (sql string) {
 	var tokens []string
 	if impl.IsNegate() {
-		tokens = []string{impl.RenderNegate() + " ", impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.RenderNegate() + " ", impl.renderColumn(), lteOp, "?"}
 	} else {
-		tokens = []string{impl.RenderSpec(), lteOp, "?"}
+		tokens = []string{impl.renderColumn(), lteOp, "?"}
 	}
 	return strings.Join(tokens, "")
 }
-- 
2.43.0


From 8cf6f23bbca4abdfe5a31f389c71da7fcb538ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 12/22] fix: reject field specifications having extra or empty
 dotted parts instead of dropping them

---
 field_definition.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index 58127c0..1cd945b 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -44,6 +44,8 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 
 	tokens := strings.Fields(strName)
 	switch {
+	case len(tokens) > 0 && strings.Contains(tokens[0], ".") && !isTableAndName(tokens[0]):
+		return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
 	case len(tokens) == 1 && strings.Contains(tokens[0], "."):
@@ -59,6 +61,13 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	}
 }
 
+// isTableAndName returns true if specification is of "<table>.<name>" form with both parts present.
+func isTableAndName(spec string) bool {
+	nameTokens := strings.Split(spec, ".")
+
+	return len(nameTokens) == 2 && len(nameTokens[0]) > 0 && len(nameTokens[1]) > 0
+}
+
 func mustField[T FieldNameParameter](fieldName T) (field FieldDefinition) {
 	var (
 		err       error
-- 
2.43.0


From b7c0e9f76625889ee817332fec715a5bf723b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 13/22] fix: field name validation rejects any whitespace

---
 field_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field_name.go b/field_name.go
index ce8eab9..cc60472 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -23,7 +24,7 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains quote character", Error)
 	case strings.Contains(fnStr, "\""):
 		return fmt.Errorf("%w: field name contains double quote character", Error)
-	case strings.Contains(fnStr, " "):
+	case strings.ContainsFunc(fnStr, unicode.IsSpace):
 		return fmt.Errorf("%w: field name contains space character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
-- 
2.43.0


From c92649306789c5863bb745db68fef12330fc8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 14/22] fix: table specification with alias equal to name is
 accepted without AS too

---
 table_ident.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table_ident.go b/table_ident.go
index 64a9be3..2d228f6 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -54,6 +54,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
+	case len(tokens) == 2 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
 	}
-- 
2.43.0


From b69b06b2803c7de22384d1e490477df32c6c3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 15/22] fix: render ordering, offset and limit of list and
 single-row queries in Render and RenderSQL

---
 select_many.go   | 49 ++++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 11 +++++++++++
 2 files changed, 60 insertions(+)

diff --git a/select_many.go b/select_many.go
index 9eb0820..e54cf0d 100644
--- a/select_many.go
+++ b/select_many.go
@@ -52,6 +52,55 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// orderClause returns ORDER BY clause with leading space or empty string if no ordering requested.
+func (query SelectManyBuilder) orderClause() (sql string) {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY "
+		} else {
+			sql += ", "
+		}
+		sql += order.Render()
+	}
+
+	return sql
+}
+
+// limiter returns Limiter having the same offset and limit.
+func (query SelectManyBuilder) limiter() (limiter Limiter) {
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter.Offset(query.offset)
+}
+
+// RenderSQL renders SQL query including ordering, offset and limit using standard sql "?"(question) substitutions.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	sql = query.BaseSelectBuilder.RenderSQL() + query.orderClause()
+	if limits := query.limiter().RenderSQL(); len(limits) > 0 {
+		sql += " " + limits
+	}
+
+	return sql
+}
+
+// Render renders SQL query including ordering, offset and limit using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	sql = query.BaseSelectBuilder.Render(parametersCount) + query.orderClause()
+	if limits := query.limiter().Render(parametersCount + len(query.BaseSelectBuilder.Values())); len(limits) > 0 {
+		sql += " " + limits
+	}
+
+	return sql
+}
+
+// Values returns values to substitute in SQL query generated using RenderSQL or Render methods.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index 722dcfd..2b02af1 100644
--- a/select_single.go
+++ b/select_single.go
@@ -21,6 +21,17 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// RenderSQL renders SQL query to fetch single row using standard sql "?"(question) substitutions.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
+// Render renders SQL query to fetch single row using numbered parameters.
+// Takes existed parameters count (0 means no parameters are defined yet).
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From bb647a3c1b6c4f8161031168bcfe53557e9e762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 16/22] fix: field name validation rejects characters able to
 end or extend SQL clause

---
 field_name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/field_name.go b/field_name.go
index cc60472..72b1536 100644
--- a/field_name.go
+++ b/field_name.go
@@ -34,6 +34,12 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name could not end with dot", Error)
 	case strings.HasPrefix(fnStr, "."):
 		return fmt.Errorf("%w: field name could not start with dot", Error)
+	case strings.ContainsAny(fnStr, ";,()`\\#?") || strings.ContainsFunc(fnStr, unicode.IsControl):
+		return fmt.Errorf("%w: field name contains character having special meaning in SQL", Error)
+	case strings.Contains(fnStr, "--"), strings.Contains(fnStr, "/*"), strings.Contains(fnStr, "*/"):
+		return fmt.Errorf("%w: field name contains comment mark", Error)
+	case strings.HasPrefix(fnStr, "$"):
+		return fmt.Errorf("%w: field name looks like parameter placeholder", Error)
 	}
 
 	return nil
-- 
2.43.0


From 8b4f3891c685cde8405a89916d75f8e6ab3d7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 17/22] fix: nil pointer to value provider binds NULL instead
 of panic

---
 field_name.go |  2 +-
 value.go      | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/field_name.go b/field_name.go
index 72b1536..42e9573 100644
--- a/field_name.go
+++ b/field_name.go
@@ -76,7 +76,7 @@ func (fn FieldName) In(value interface{}) Condition {
 func (fn FieldName) Value(value interface{}) FieldValue {
 	switch typed := value.(type) {
 	case ValueProvider:
-		return *NewFieldValue(fn, typed.DatabaseValue())
+		return *NewFieldValue(fn, databaseValue(typed))
 	default:
 		return *NewFieldValue(fn, value)
 	}
diff --git a/value.go b/value.go
index 43a72f4..64341f1 100644
--- a/value.go
+++ b/value.go
@@ -45,12 +45,12 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 
 		return result
 	case ValueProvider:
-		return []any{typedValue.DatabaseValue()}
+		return []any{databaseValue(typedValue)}
 	case []ValueProvider:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			result[idx] = value.DatabaseValue()
+			result[idx] = databaseValue(value)
 		}
 
 		return result
@@ -111,7 +111,7 @@ func (fieldValue FieldValue) single() any {
 	case driver.Valuer:
 		return driverValue(typedValue)
 	case ValueProvider:
-		return typedValue.DatabaseValue()
+		return databaseValue(typedValue)
 	default:
 		return fieldValue.value
 	}
@@ -131,6 +131,21 @@ func isNilValuer(valuer driver.Valuer) bool {
 		reflection.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem())
 }
 
+// databaseValue returns value made by provider. Nil pointer to type having value receiver means NULL.
+func databaseValue(provider ValueProvider) any {
+	if provider == nil {
+		return nil
+	}
+
+	reflection := reflect.ValueOf(provider)
+	if reflection.Kind() == reflect.Pointer && reflection.IsNil() &&
+		reflection.Type().Elem().Implements(reflect.TypeOf((*ValueProvider)(nil)).Elem()) {
+		return nil
+	}
+
+	return provider.DatabaseValue()
+}
+
 // driverValue returns value provided by driver.Valuer.
 // If valuer fails, returns valuer itself to let database driver report its error instead of using NULL silently.
 func driverValue(valuer driver.Valuer) any {
-- 
2.43.0


From 8fdbcc4061a916259c381111ba95fb982294d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 18/22] fix: COUNT counts column itself, field alias is not
 known there

---
 count.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/count.go b/count.go
index 2e921dd..77a49d4 100644
--- a/count.go
+++ b/count.go
@@ -22,7 +22,7 @@ func (query CountBuilder) RenderFrom() string {
 func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	tokens := append([]string{},
 		DoSelect.String(),
-		kwCount.String()+"("+query.countField.RenderField()+")",
+		kwCount.String()+"("+query.countField.renderColumn()+")",
 		kwFrom.String(),
 		query.baseBuilder.RenderFrom(),
 	)
-- 
2.43.0


From 12244750576667065060f53577aeea26c3c4f5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 19/22] fix: IN lists of byte-sized element types bind every
 element, only byte slices are single values

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 64341f1..7a2504e 100644
--- a/value.go
+++ b/value.go
@@ -92,7 +92,7 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	}
 
 	// any other list provides its elements, except bytes as they are single value.
-	if valueReflection.Kind() == reflect.Slice && valueReflection.Type().Elem().Kind() != reflect.Uint8 {
+	if valueReflection.Kind() == reflect.Slice && valueReflection.Type().Elem() != reflect.TypeOf(byte(0)) {
 		result = make([]any, valueReflection.Len())
 		for idx := range result {
 			result[idx] = FieldValue{value: valueReflection.Index(idx).Interface()}.single()
-- 
2.43.0


From b5fd2d456f0d1dc0215f3009adfedfc074a97c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 20/22] fix: groups passed by pointer are groups

A *Group among the first conditions of a group or WHERE was not recognised
as a group: an empty one was rendered as an empty condition (making
DELETE ... WHERE without a predicate) and a list lost its brackets.
---
 group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/group.go b/group.go
index c5887b7..8ff63f5 100644
--- a/group.go
+++ b/group.go
@@ -196,6 +196,10 @@ func skipEmptyGroups(conditions []Condition) (result []Condition) {
 	result = make([]Condition, 0, len(conditions))
 
 	for _, condition := range conditions {
+		if pointer, isPointer := condition.(*Group); isPointer && pointer != nil {
+			condition = *pointer // group taken by pointer is still a group
+		}
+
 		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
 			continue
 		}
-- 
2.43.0


From 52cff9cc3d3a213c6039904b1cec588a2146fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 21/22] fix: join condition column without table is rendered
 without dot

---
 join_condition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/join_condition.go b/join_condition.go
index 53fe7b6..d4dda63 100644
--- a/join_condition.go
+++ b/join_condition.go
@@ -45,7 +45,7 @@ func (joinCondition JoinCondition) FullJoin() TableJoiner {
 
 // Render renders SQL JOIN condition clause.
 func (joinCondition JoinCondition) Render() string {
-	return joinCondition.leftField.RenderTableSpec() + "=" + joinCondition.rightField.RenderTableSpec()
+	return joinCondition.leftField.renderColumn() + "=" + joinCondition.rightField.renderColumn()
 }
 
 // JoinFields makes JoinCondition parameters to render SQL JOIN condition clause.
-- 
2.43.0


From dad1f092d8dea11c81b0a3bbff5e8febfc81761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 22/22] fix: select and count without table name fail to build

---
 count.go         |  4 ++++
 select_base.go   | 20 ++++++++++++++++++++
 select_many.go   |  3 +++
 select_single.go |  4 ++++
 4 files changed, 31 insertions(+)

diff --git a/count.go b/count.go
index 77a49d4..4e945f5 100644
--- a/count.go
+++ b/count.go
@@ -20,6 +20,10 @@ func (query CountBuilder) RenderFrom() string {
 // BuildQueryAndParams generates sql query string with desired parameters set.
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
+	if err = query.baseBuilder.requireTables(); err != nil {
+		return "", params, err
+	}
+
 	tokens := append([]string{},
 		DoSelect.String(),
 		kwCount.String()+"("+query.countField.renderColumn()+")",
diff --git a/select_base.go b/select_base.go
index 6c132e4..c54d2bc 100644
--- a/select_base.go
+++ b/select_base.go
@@ -90,6 +90,11 @@ func (query BaseSelectBuilder) RenderFrom() (fromClause string) {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	params = make([]any, 0)
+
+	if err = query.requireTables(); err != nil {
+		return "", params, err
+	}
+
 	tokens := append([]string{},
 		DoSelect.String(),
 		query.fields.FieldList(),
@@ -109,6 +114,21 @@ func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []inter
 	return strings.Join(tokens, " "), params, nil
 }
 
+// requireTables returns error if either base or any joined table has no name.
+func (query BaseSelectBuilder) requireTables() error {
+	if len(query.baseTable.name) == 0 {
+		return fmt.Errorf("%w: table name empty", Error)
+	}
+
+	for _, joiner := range query.joins {
+		if len(joiner.rightTable.name) == 0 {
+			return fmt.Errorf("%w: joined table name empty", Error)
+		}
+	}
+
+	return nil
+}
+
 // TableName returns table name to fetch records from.
 func (query BaseSelectBuilder) TableName() TableName {
 	return query.baseTable.TableName()
diff --git a/select_many.go b/select_many.go
index e54cf0d..13f5326 100644
--- a/select_many.go
+++ b/select_many.go
@@ -27,6 +27,9 @@ func (query SelectManyBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return sql, params, err
+	}
 
 	if len(query.order) > 0 {
 		sql += " ORDER BY "
diff --git a/select_single.go b/select_single.go
index 2b02af1..85931dc 100644
--- a/select_single.go
+++ b/select_single.go
@@ -18,6 +18,10 @@ func (query SelectSingleBuilder) RenderFrom() string {
 // If query generation failed returns empty query and parameters set or non-nil error.
 func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
 	sql, params, err = query.BaseSelectBuilder.BuildQueryAndParams()
+	if err != nil {
+		return sql, params, err
+	}
+
 	return sql + " LIMIT 1", params, nil
 }
 
-- 
2.43.0

