import re,sys,os
R={}
def r(name,*edits): R[name]=edits
# each edit: (file, funcprefix, newtext) replaces the function; funcprefix None => append newtext; ("file","import",list)
r('group_render',
("group.go","func (conditionsGroup Group) Render(","""func (conditionsGroup Group) Render(parametersCount int) (sql string) {
	return conditionsGroup.renderWith(func(item Condition, used int) string { return item.Render(parametersCount + used) })
}

// renderWith is common part of renderers.
func (conditionsGroup Group) renderWith(one func(item Condition, used int) string) string {
	if len(conditionsGroup.conditions) == 0 {
		return ""
	}

	var (
		buf  strings.Builder
		used int
	)

	needNot := conditionsGroup.IsNegate()
	brackets := conditionsGroup.withBrackets || (needNot && len(conditionsGroup.conditions) > 1)

	if needNot {
		buf.WriteString(conditionsGroup.RenderNegate())
		buf.WriteByte(' ')
	}

	if brackets {
		buf.WriteByte('(')
	}

	for idx, item := range conditionsGroup.conditions {
		if token := item.RenderJoin(idx == 0); token != "" {
			buf.WriteString(" " + token + " ")
		}

		buf.WriteString(one(conditionsGroup.encloseChild(item), used))
		used += len(item.Values())
	}

	if brackets {
		buf.WriteByte(')')
	}

	return buf.String()
}
"""),
("group.go","func (conditionsGroup Group) RenderSQL(","""func (conditionsGroup Group) RenderSQL() (sql string) {
	return conditionsGroup.renderWith(func(item Condition, _ int) string { return item.RenderSQL() })
}
"""),
("group.go","import",["slices","strings"]),
("group.go","func (conditionsGroup Group) hasAll(","""func (conditionsGroup Group) hasAll(joinType JoinType) bool {
	if len(conditionsGroup.conditions) < 2 {
		return true
	}

	return !slices.ContainsFunc(conditionsGroup.conditions[1:], func(c Condition) bool { return c.JoinType() != joinType })
}
"""),
("group.go","func (conditionsGroup Group) Values(","""func (conditionsGroup Group) Values() (values []interface{}) {
	total := 0
	parts := make([][]any, 0, len(conditionsGroup.conditions))
	for _, condition := range conditionsGroup.conditions {
		part := condition.Values()
		total += len(part)
		parts = append(parts, part)
	}

	values = make([]any, 0, total)
	for _, part := range parts {
		values = append(values, part...)
	}

	return values
}
"""),
)
r('group_add',
("group.go","func (conditionsGroup Group) addSingleCondition(","""func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
	if groupToAdd, isGroup := condition.(Group); isGroup && !groupToAdd.IsNegate() {
		return conditionsGroup.addGroup(groupToAdd)
	}

	op := condition.JoinType()
	items := slices.Clone(conditionsGroup.conditions)

	if len(items) == 0 {
		conditionsGroup.joinType = op
		conditionsGroup.conditions = []Condition{condition}

		return conditionsGroup
	}

	flat := len(items) == 1
	flat = flat || (op == LogicalAND && conditionsGroup.hasAll(LogicalAND))
	flat = flat || (op == LogicalOR && conditionsGroup.hasAll(LogicalOR))

	if !flat {
		items = []Condition{conditionsGroup.WithBrackets()}
	}

	conditionsGroup.conditions = append(items, op.Join(condition))

	return conditionsGroup
}
"""),
("group.go","func skipEmptyGroups(","""func skipEmptyGroups(conditions []Condition) (result []Condition) {
	result = slices.Clone(conditions)
	for idx := range result {
		if pointer, isPointer := result[idx].(*Group); isPointer && pointer != nil {
			result[idx] = *pointer
		}
	}

	return slices.DeleteFunc(result, func(c Condition) bool {
		group, isGroup := c.(Group)
		return isGroup && len(group.conditions) == 0
	})
}
"""),
("group.go","func (conditionsGroup Group) addConditions(","""func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
	conditions = skipEmptyGroups(conditions)
	if len(conditions) == 0 {
		return conditionsGroup
	}

	conditionsGroup = conditionsGroup.enclosedIfNegated()
	if len(conditionsGroup.conditions) == 0 {
		conditionsGroup.conditions = conditions
		conditionsGroup.joinType = op

		return conditionsGroup
	}

	if len(conditions) == 1 {
		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
	}

	return conditionsGroup.addMany(op, conditions)
}

func (conditionsGroup Group) addMany(op JoinType, conditions []Condition) Group {
	current := conditionsGroup.WithBrackets()

	if op == LogicalAND && conditionsGroup.hasOne(LogicalOR) {
		conditionsGroup.conditions = append([]Condition{current}, op.SetToAll(conditions...)...)
		return conditionsGroup
	}

	added := op.Join(NewGroup(LogicalAND, conditions...).WithBrackets())

	if op == LogicalOR && conditionsGroup.hasOne(LogicalAND) {
		conditionsGroup.conditions = append(slices.Clone(conditionsGroup.conditions), added)
		return conditionsGroup
	}

	conditionsGroup.conditions = []Condition{current, added}

	return conditionsGroup
}
"""),
)
r('in',
("lib_in.go","func (impl in) Render(","""func (impl in) Render(paramNum int) string {
	return impl.renderList(func(idx int) string { return "$" + strconv.Itoa(paramNum+idx+1) })
}

func (impl in) renderList(mark func(idx int) string) string {
	values := impl.Values()
	if len(values) == 0 {
		return impl.renderEmpty()
	}

	var b strings.Builder

	b.WriteString(impl.renderColumn())
	if impl.IsNegate() {
		b.WriteString(" " + impl.RenderNegate())
	}
	b.WriteString(" " + inSymbol + " (")
	for idx := range values {
		if idx != 0 {
			b.WriteByte(',')
		}
		b.WriteString(mark(idx))
	}
	b.WriteByte(')')

	return b.String()
}
"""),
("lib_in.go","func (impl in) RenderSQL(","""func (impl in) RenderSQL() (sql string) {
	return impl.renderList(func(int) string { return "?" })
}
"""),
("lib_equal.go","func (impl equalTo) Render(","""func (impl equalTo) Render(paramNum int) string {
	sql := impl.renderColumn() + "=$" + strconv.Itoa(paramNum+1)
	if impl.IsNegate() {
		return impl.RenderNegate() + " " + sql
	}

	return sql
}
"""),
)
r('select',
("select_many.go","func (query SelectManyBuilder) BuildQueryAndParams(","""func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if err = query.BaseSelectBuilder.requireTables(); err != nil {
		return "", make([]any, 0), err
	}

	return query.Render(0), query.Values(), nil
}
"""),
("select_many.go","import",["slices"]),
("select_many.go","func (query SelectManyBuilder) orderClause(","""func (query SelectManyBuilder) orderClause() (sql string) {
	prefix := " ORDER BY "
	for _, order := range query.order {
		sql += prefix + order.Render()
		prefix = ", "
	}

	return sql
}
"""),
("select_many.go","func (query SelectManyBuilder) Limit(","""func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
	if limit < 0 {
		limit = noLimit
	}
	query.limit = limit
	return query
}
"""),
("select_base.go","func (query BaseSelectBuilder) RenderSQL(","""func (query BaseSelectBuilder) RenderSQL() (sql string) {
	return query.withWhere(query.where.RenderSQL)
}

func (query BaseSelectBuilder) withWhere(where func() string) string {
	sql := DoSelect.String() + " " + query.fields.FieldList() + " " + kwFrom.String() + " " + query.RenderFrom()
	if len(query.where.group.conditions) == 0 {
		return sql
	}

	return sql + " " + kwWhere.String() + " " + where()
}
"""),
("select_base.go","func (query BaseSelectBuilder) Render(","""func (query BaseSelectBuilder) Render(parametersCount int) (sql string) {
	return query.withWhere(func() string { return query.where.Render(parametersCount) })
}
"""),
("select_base.go","func (query BaseSelectBuilder) BuildQueryAndParams(","""func (query BaseSelectBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if err = query.requireTables(); err != nil {
		return "", nil, err
	}

	return query.Render(0), query.Values(), nil
}
"""),
("select_base.go","func (query BaseSelectBuilder) Values(","""func (query BaseSelectBuilder) Values() (params []any) {
	return query.where.Values()
}
"""),
("limiter.go","func (query Limiter) Values(","""func (query Limiter) Values() (params []any) {
	params = []any{}
	for _, value := range []uint{query.offset, query.limit} {
		if value != 0 {
			params = append(params, value)
		}
	}

	return params
}
"""),
("limiter.go","func (query Limiter) RenderSQL(","""func (query Limiter) RenderSQL() (sql string) {
	parts := []string{}
	if query.offset > 0 {
		parts = append(parts, "OFFSET ?")
	}
	if query.limit > 0 {
		parts = append(parts, "LIMIT ?")
	}

	return strings.Join(parts, " ")
}
"""),
("limiter.go","import",["strconv","strings"]),
("utils.go","func UniqFieldNames(","""func UniqFieldNames(a []FieldName) []FieldName {
	seen := make(map[FieldName]struct{}, len(a))
	answer := []FieldName{}
	for _, name := range a {
		if _, known := seen[name]; known {
			continue
		}
		seen[name] = struct{}{}
		answer = append(answer, name)
	}

	return answer
}
"""),
("count.go","func (query CountBuilder) BuildQueryAndParams(","""func (query CountBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	query.baseBuilder.fields = NewFields(Field("x")) // own list of fields is never used
	if err = query.baseBuilder.requireTables(); err != nil {
		return "", make([]any, 0), fmt.Errorf("count: %w", err)
	}

	sql = "SELECT COUNT(" + query.countField.renderColumn() + ") FROM " + query.RenderFrom()
	params = query.baseBuilder.where.Values()

	if where := query.baseBuilder.where.Render(0); where != "" {
		sql = sql + " WHERE " + where
	}

	return sql, params, nil
}
"""),
("count.go","import",["fmt"]),
)
r('dml',
("insert.go","func (inserter InsertBuilder) BuildQueryAndParams(","""func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if len(inserter.tableName) == 0 {
		return "", nil, fmt.Errorf("%w: insert requires table", Error)
	}
	if len(inserter.setValues) == 0 {
		return "", nil, fmt.Errorf("%w: insert requires values", Error)
	}

	var names, marks strings.Builder
	for idx, item := range inserter.setValues {
		if idx != 0 {
			names.WriteString(", ")
			marks.WriteString(", ")
		}
		names.WriteString(item.fieldName)
		marks.WriteString("$" + strconv.Itoa(idx+1))
		params = append(params, item.single())
	}

	return fmt.Sprintf("INSERT INTO %s(%s) VALUES (%s)", string(inserter.tableName), names.String(), marks.String()), params, nil
}
"""),
("insert.go","func (inserter InsertBuilder) Values(","""func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
	all := make([]FieldValue, len(inserter.setValues)+len(values))
	copy(all[copy(all, inserter.setValues):], values)
	inserter.setValues = all
	return inserter
}
"""),
("insert.go","import",["fmt","strconv","strings"]),
("insert.go","func (inserter InsertBuilder) SetValues(","""func (inserter InsertBuilder) SetValues() []FieldValue {
	if len(inserter.setValues) == 0 {
		return nil
	}
	res := make([]FieldValue, 0, len(inserter.setValues))
	return append(res, inserter.setValues...)
}
"""),
("update.go","func (updater UpdateBuilder) fieldsAndValues(","""func (updater UpdateBuilder) fieldsAndValues() (sql string, params []any) {
	for _, item := range updater.setValues {
		params = append(params, item.single())
		if len(sql) > 0 {
			sql += ", "
		}
		sql += fmt.Sprintf("%s=$%d", item.fieldName, len(params))
	}

	return sql, params
}
"""),
("update.go","import",["fmt","slices","strings"]),
("update.go","func (updater UpdateBuilder) BuildQueryAndParams(","""func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if err = updater.check(); err != nil {
		return "", nil, err
	}

	set, params := updater.fieldsAndValues()
	used := len(params)
	for _, value := range updater.where.Values() {
		params = append(params, value)
	}

	return kwUpdate.String() + " " + string(updater.TableName()) + " " + strings.Join([]string{kwSet.String(), set, kwWhere.String()}, " ") + " " + updater.where.Render(used), params, nil
}

func (updater UpdateBuilder) check() error {
	reason := ""
	if len(updater.tableName) == 0 {
		reason = "no table"
	}
	if len(updater.setValues) == 0 {
		reason = "nothing to set"
	}
	if len(updater.where.conditions) == 0 {
		reason = "no conditions, refusing to update everything"
	}
	if reason == "" {
		return nil
	}

	return fmt.Errorf("%w: %s", Error, reason)
}
"""),
("delete.go","func (updater DeleteBuilder) BuildQueryAndParams(","""func (updater DeleteBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	where := updater.where.Render(0)
	if where == "" || updater.tableName == "" {
		return "", []any{}, fmt.Errorf("%w: can't delete from `%v` where `%v`", Error, updater.tableName, where)
	}

	return fmt.Sprintf("%v %v %v %v %v", kwDelete, kwFrom, updater.tableName, kwWhere, where), updater.where.Values(), nil
}
"""),
("delete.go","import",["fmt"]),
)
r('parse',
("field_definition.go","func FieldOrError[","""func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, err error) {
	if ready, ok := any(fieldName).(FieldDefinition); ok {
		return &ready, nil
	}

	source := fmt.Sprint(any(fieldName))
	tokens := strings.Fields(source)
	fail := fmt.Errorf("%w: bad field specification %q", Error, source)

	parsed := FieldDefinition{}
	switch len(tokens) {
	case 1:
	case 3:
		if !strings.EqualFold(tokens[1], "as") {
			return nil, fail
		}
		parsed.alias = tokens[2]
	default:
		return nil, fail
	}

	table, name, qualified := strings.Cut(tokens[0], ".")
	if !qualified {
		parsed.fieldName = table
		return &parsed, nil
	}
	if table == "" || name == "" || strings.Contains(name, ".") {
		return nil, fail
	}
	parsed.tableName, parsed.fieldName = table, name

	return &parsed, nil
}
"""),
("field_definition.go","func isTableAndName(",""),
("field_definition.go","func (fieldIdent FieldDefinition) RenderField(","""func (fieldIdent FieldDefinition) RenderField() string {
	if fieldIdent.alias != "" && fieldIdent.alias != fieldIdent.fieldName {
		return fieldIdent.alias
	}

	return fieldIdent.renderColumn()
}
"""),
("field_definition.go","func (fieldIdent FieldDefinition) RenderSpec(","""func (fieldIdent FieldDefinition) RenderSpec() string {
	column := fieldIdent.renderColumn()
	if fieldIdent.alias == "" || column == fieldIdent.alias {
		return column
	}

	return column + " " + kwAs.String() + " " + fieldIdent.alias
}
"""),
("table_ident.go","func TableOrError[","""func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
	var source string

	switch typed := any(name).(type) {
	case TableIdent:
		return &typed, nil
	case TableName:
		source = string(typed)
	case string:
		source = typed
	}

	tokens := strings.Fields(source)
	if len(tokens) == 3 && strings.EqualFold(tokens[1], "as") {
		tokens = []string{tokens[0], tokens[2]}
	}

	switch len(tokens) {
	case 1:
		return &TableIdent{name: tokens[0]}, nil
	case 2:
		ident := TableIdent{name: tokens[0]}.As(TableName(tokens[1]))
		return &ident, nil
	}

	return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
}
"""),
("value.go","func (fieldValue FieldValue) Values(","""func (fieldValue FieldValue) Values() (result []interface{}) {
	switch fieldValue.value.(type) {
	case driver.Valuer, ValueProvider:
		return []any{fieldValue.single()}
	}

	list := reflect.ValueOf(fieldValue.value)
	if list.Kind() != reflect.Slice || (list.Type().Elem() == reflect.TypeOf(byte(0))) {
		return []any{fieldValue.value}
	}

	strict := list.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem()) && list.Type() != reflect.TypeOf([]driver.Valuer{})
	for idx := 0; idx < list.Len(); idx++ {
		item := list.Index(idx).Interface()
		if valuer, ok := item.(driver.Valuer); strict && ok && !isNilValuer(valuer) {
			if _, err := valuer.Value(); err != nil {
				panic(fmt.Errorf("%w: value %v(%T) is not usable: %v", Error, item, item, err))
			}
		}
		result = append(result, FieldValue{value: item}.single())
	}

	return result
}
"""),
)
r('values_map',
("values_map.go","func (valuesMap ValuesMap) FieldValues(","""func (valuesMap ValuesMap) FieldValues() ([]FieldValue, error) {
	names := make([]string, 0, len(valuesMap))
	for name := range valuesMap {
		names = append(names, name)
	}
	sort.Strings(names)

	res := make([]FieldValue, 0, len(names))
	for _, name := range names {
		if err := FieldName(name).Validate(); err != nil {
			return nil, fmt.Errorf("%w: wrong name: %w", Error, err)
		}
		res = append(res, *NewFieldValue(FieldName(name), valuesMap[name]))
	}

	return res, nil
}
"""),
("values_map.go","import",["fmt","sort"]),
("ordering.go","func (o FieldSorting) Render(","""func (o FieldSorting) Render() string {
	return strings.Join([]string{o.RenderField(), o.direction.String()}, " ")
}
"""),
("ordering.go","import",["fmt","strings"]),
("fields.go","func (query Fields) Fields(","""func (query Fields) Fields(fieldSpecs ...FieldDefinition) (updated Fields) {
	query.fieldSpecs = append([]FieldDefinition(nil), fieldSpecs...)
	return query
}
"""),
("join_unfinished.go","func (joiner incompleteBaseJoiner) On(","""func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
	joiner.joins = finishLast(joiner.joins, left, right)
	return joiner.BaseSelectBuilder
}

func finishLast(joins []TableJoiner, left FieldDefinition, right FieldDefinition) []TableJoiner {
	res := make([]TableJoiner, len(joins))
	copy(res, joins)
	last := &res[len(res)-1]
	last.joinCondition = JoinFields(left, right)
	return res
}
"""),
("join_unfinished.go","func (joiner incompleteManyJoiner) On(","""func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
	joiner.joins = finishLast(joiner.joins, left, right)
	return joiner.SelectManyBuilder
}
"""),
("operations.go","func And(","""func And(condition Condition, additionalConditions ...Condition) Condition {
	if len(additionalConditions) == 0 {
		return condition.Join(LogicalAND)
	}
	if group, ok := condition.(Group); ok {
		return group.GroupAND(additionalConditions...)
	}

	return NewGroup(LogicalAND, condition).GroupAND(additionalConditions...)
}
"""),
)
# caches guarded by mutex, field rendering memo
r('cache',
("field_definition.go","func (fieldIdent FieldDefinition) RenderSpec(","""func (fieldIdent FieldDefinition) RenderSpec() string {
	return specs.get(fieldIdent, func() string { return fieldIdent.renderSpec() })
}

type specCache struct {
	mu    sync.RWMutex
	items map[FieldDefinition]string
}

var specs = specCache{items: map[FieldDefinition]string{}}

func (c *specCache) get(key FieldDefinition, make func() string) string {
	c.mu.RLock()
	res, known := c.items[key]
	c.mu.RUnlock()
	if known {
		return res
	}
	res = make()
	c.mu.Lock()
	if len(c.items) < 1000 {
		c.items[key] = res
	}
	c.mu.Unlock()

	return res
}

func (fieldIdent FieldDefinition) renderSpec() string {
	column := fieldIdent.renderColumn()
	if fieldIdent.alias == "" || column == fieldIdent.alias {
		return column
	}

	return column + " " + kwAs.String() + " " + fieldIdent.alias
}
"""),
("field_definition.go","import",["fmt","strings","sync"]),
("insert.go","func (inserter InsertBuilder) BuildQueryAndParams(","""func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interface{}, err error) {
	if len(inserter.setValues) == 0 || len(inserter.tableName) == 0 {
		return "", []any{}, fmt.Errorf("%w: insert is not complete", Error)
	}

	buf := insertBuffers.Get().(*bytes.Buffer)
	defer insertBuffers.Put(buf)
	buf.Reset()
	buf.WriteString("INSERT INTO " + string(inserter.tableName) + "(")
	for idx, item := range inserter.setValues {
		if idx > 0 {
			buf.WriteString(", ")
		}
		buf.WriteString(item.fieldName)
	}
	buf.WriteString(") VALUES (")
	for idx, item := range inserter.setValues {
		if idx > 0 {
			buf.WriteString(", ")
		}
		buf.WriteByte('$')
		buf.WriteString(strconv.Itoa(idx + 1))
		params = append(params, item.single())
	}
	buf.WriteByte(')')

	return buf.String(), params, nil
}

var insertBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
"""),
("insert.go","import",["bytes","fmt","slices","strconv","sync"]),
)
def apply(root,name):
    for f,p,new in R[name]:
        fn=os.path.join(root,f); s=open(fn).read()
        if p=="import":
            imp="import (\n"+"".join('\t"%s"\n'%x for x in new)+")\n"
            if re.search(r"^import \(.*?^\)\n",s,re.S|re.M): s=re.sub(r"^import \(.*?^\)\n",lambda m:imp,s,count=1,flags=re.S|re.M)
            else: s=s.replace("package query\n","package query\n\n"+imp,1)
        else:
            i=s.index("\n"+p)+1; j=s.index("\n}\n",i)+3
            s=s[:i]+new+s[j:]
        open(fn,"w").write(s)
if __name__=="__main__":
    if sys.argv[1]=="list": print(*R)
    else: apply(sys.argv[1],sys.argv[2])
