# Contracts of the schema comparison (all four dialects; {{.dialect}}).
pkg pkg/ddl/{{.dialect}}
frame
rigidpkg
soft DiffCreateTableConfig
sealed Stmt = all
sealed Constraint = all
sealed DiffCreateTableOption = all
elems Stmt, Constraint, *Column, *ColumnIdent, *Option, DiffCreateTableOption, *diffCreateTableConfigUseConstraintNotValid
nonnil CreateTableStmt.Name, CreateIndexStmt.Name, Column.Name, Column.DataType, ObjectName.Name
pure GetNameForDiff
pure String nonnil
pure StringForDiff nilsafe=*Default,*Ident,Options{{if eq .dialect "mysql" "spanner"}},*Expr,*Option{{end}}
pure GetName nonnil

def cdiff(a string, b string) string = simplediff.Diff(a, b).String()

# ---- lookups

func findColumnByName(name, columns) (r)
	ensures find: r == find(columns, c, c.Name.Name == name)

func findConstraintByName(name, constraints) (r)
	ensures find: r == find(constraints, c, c.GetName().Name == name)

func onlyLeftColumn(left, right) (r)
	ensures content(r) == filter(left, x, find(right, y, y.Name.Name == x.Name.Name) == nil)
{{if eq .dialect "mysql"}}
func findOptionByName(name, columns) (r)
	ensures find: r == find(columns, c, c.Name == name)

func onlyLeftOption(left, right) (r)
	ensures content(r) == filter(left, x, find(right, y, y.Name == x.Name) == nil)
{{end}}
func findStmtByTypeAndName(stmt, stmts) (r)
	requires stmt != nil && refof(stmt) != 0
	ensures find: r == find(stmts, s, sametype(stmt, s) && stmt.GetNameForDiff() == s.GetNameForDiff())

func onlyLeftStmt(left, right) (r)
	requires left != nil && right != nil
	ensures content(r) == onlyStmts(left, right)

# ---- a constraint replaces the one of the same name, otherwise it is added

def appended(S []Constraint, x Constraint) []Constraint = let(k, index(S, c, c.GetName().Name == x.GetName().Name), ite(k < len(S), upd(S, k, x),
{{- if or (eq .dialect "mysql") (eq .dialect "cockroachdb")}} let(T, cat(S, []Constraint{x}), cat(filter(T, c, is(c, *PrimaryKeyConstraint)), filter(T, c, !is(c, *PrimaryKeyConstraint)))) {{- else}} cat(S, []Constraint{x}) {{- end}}))

func (Constraints).Append(constraints, constraint) (r)
	requires constraint != nil && refof(constraint) != 0
	modifies elems(constraints)
	ensures content(r) == appended(old(constraints), constraint)

def onlyConstraints(L []Constraint, R []Constraint) []Constraint = fold(L, acc, x, []Constraint{}, ite(find(R, y, y.GetName().Name == x.GetName().Name) == nil, appended(acc, x), acc))

func onlyLeftConstraint(left, right) (r)
	ensures content(r) == onlyConstraints(left, right)

# ---- columns

def alter(t *ObjectName, comment string, action AlterTableAction) []Stmt = []Stmt{&AlterTableStmt{Comment: comment, Name: t, Action: action}}

def none() []Stmt = []Stmt{}

def columnChange(b *Column, a *Column, t *ObjectName) []Stmt =
{{- if or (eq .dialect "postgres") (eq .dialect "cockroachdb")}}
		cat(
		ite(b.DataType.StringForDiff() != a.DataType.StringForDiff(), alter(t, cdiff(b.String(), a.String()), &AlterColumnSetDataType{Name: a.Name, DataType: a.DataType}), none()),
		ite(b.Default != nil && a.Default == nil, alter(t, cdiff(b.String(), a.String()), &AlterColumnDropDefault{Name: a.Name}), none()),
		ite(a.Default != nil && b.Default.StringForDiff() != a.Default.StringForDiff(), alter(t, cdiff(b.String(), a.String()), &AlterColumnSetDefault{Name: a.Name, Default: a.Default}), none()),
		ite(b.NotNull && !a.NotNull, alter(t, cdiff(b.String(), a.String()), &AlterColumnDropNotNull{Name: a.Name}), none()),
		ite(!b.NotNull && a.NotNull, alter(t, cdiff(b.String(), a.String()), &AlterColumnSetNotNull{Name: a.Name}), none()))
{{- else if eq .dialect "mysql"}}
		cat(
		ite(b.DataType.StringForDiff() != a.DataType.StringForDiff() || b.CharacterSet.StringForDiff() != a.CharacterSet.StringForDiff() || b.Collate.StringForDiff() != a.Collate.StringForDiff() || b.NotNull != a.NotNull || (!(b.Default != nil && a.Default == nil) && b.Default.StringForDiff() != a.Default.StringForDiff()) || b.AutoIncrement != a.AutoIncrement || b.OnAction != a.OnAction || b.Comment != a.Comment,
			alter(t, cdiff(b.String(), a.String()), &ModifyColumn{Name: a.Name, DataType: a.DataType, CharacterSet: a.CharacterSet, Collate: a.Collate, NotNull: a.NotNull, AutoIncrement: a.AutoIncrement, Default: a.Default, OnAction: a.OnAction, Comment: a.Comment}), none()),
		ite(b.Default != nil && a.Default == nil, alter(t, cdiff(b.String(), a.String()), &AlterColumnDropDefault{Name: a.Name}), none()))
{{- else}}
		cat(
		ite(b.DataType.StringForDiff() != a.DataType.StringForDiff() || b.NotNull != a.NotNull, alter(t, cdiff(b.String(), a.String()), &AlterColumnDataType{Name: a.Name, DataType: a.DataType, NotNull: a.NotNull}), none()),
		ite(b.Default != nil && a.Default == nil, alter(t, cdiff(b.String(), a.String()), &AlterColumnDropDefault{Name: a.Name}), none()),
		ite(a.Default != nil && b.Default.StringForDiff() != a.Default.StringForDiff(), alter(t, cdiff(b.String(), a.String()), &AlterColumnSetDefault{Name: a.Name, Default: a.Default}), none()),
		ite(b.Options != nil && a.Options == nil, alter(t, cdiff(b.String(), a.String()), &AlterColumnDropOptions{Name: a.Name}), none()),
		ite(a.Options != nil && b.Options.StringForDiff() != a.Options.StringForDiff(), alter(t, cdiff(b.String(), a.String()), &AlterColumnSetOptions{Name: a.Name, Options: a.Options}), none()))
{{- end}}

def columnDrop(b *Column, t *ObjectName) []Stmt =
{{- if eq .dialect "cockroachdb"}} ite(b.NotVisible && b.As != nil && b.As.Type == TOKEN_VIRTUAL, none(), alter(t, cdiff(b.String(), ""), &DropColumn{Name: b.Name}))
{{- else}} alter(t, cdiff(b.String(), ""), &DropColumn{Name: b.Name}) {{- end}}

opaque def columnChanges(before *CreateTableStmt, after *CreateTableStmt) []Stmt = cat(
		flatmap(before.Columns, b, let(a, find(after.Columns, y, y.Name.Name == b.Name.Name), ite(a == nil, columnDrop(b, after.Name), columnChange(b, a, after.Name)))),
		flatmap(filter(after.Columns, x, find(before.Columns, y, y.Name.Name == x.Name.Name) == nil), c, alter(after.Name, cdiff("", c.String()), &AddColumn{Column: c})))

func (*DiffCreateTableConfig).diffCreateTableColumn(config, ddls, before, after)
	requires config != nil && ddls != nil && before != nil && after != nil
	reveal columnChanges
	modifies ddls.Stmts
	ensures ddls.Stmts == cat(old(ddls.Stmts), columnChanges(before, after))

# ---- constraints, options

def conDrop(c Constraint, before *CreateTableStmt, after *CreateTableStmt) []Stmt =
{{- if eq .dialect "mysql"}} ite(is(c, *IndexConstraint), []Stmt{&DropIndexStmt{Comment: cdiff(c.StringForDiff(), ""), Name: &ObjectName{Schema: before.Name.Schema, Name: c.GetName()}}}, alter(after.Name, cdiff(c.String(), ""), &DropConstraint{Name: c.GetName()}))
{{- else if eq .dialect "cockroachdb"}} ite(is(c, *IndexConstraint), []Stmt{&DropIndexStmt{Comment: cdiff(c.StringForDiff(), ""), Name: c.GetName()}}, alter(after.Name, cdiff(c.String(), ""), &DropConstraint{Name: c.GetName()}))
{{- else}} alter(after.Name, cdiff(c.String(), ""), &DropConstraint{Name: c.GetName()}) {{- end}}

def indexOf(c Constraint, comment string, after *CreateTableStmt) []Stmt =
{{- if eq .dialect "mysql"}} let(i, c.(*IndexConstraint), []Stmt{&CreateIndexStmt{Comment: comment, Unique: i.Unique, Name: &ObjectName{Schema: after.Name.Schema, Name: c.GetName()}, TableName: after.Name, Columns: i.Columns}})
{{- else if eq .dialect "cockroachdb"}} let(i, c.(*IndexConstraint), []Stmt{&CreateIndexStmt{Comment: comment, Unique: i.Unique, Name: c.GetName(), TableName: after.Name, UsingPreColumns: i.UsingPreColumns, Columns: i.Columns, UsingPostColumns: i.UsingPostColumns}})
{{- else}} none() {{- end}}

def conAdd(c Constraint, after *CreateTableStmt, nv bool) []Stmt =
{{- if or (eq .dialect "mysql") (eq .dialect "cockroachdb")}} ite(is(c, *IndexConstraint), indexOf(c, cdiff("", c.StringForDiff()), after), alter(after.Name, cdiff("", c.String()), &AddConstraint{Constraint: c, NotValid: nv}))
{{- else}} alter(after.Name, cdiff("", c.String()), &AddConstraint{Constraint: c, NotValid: nv}) {{- end}}

def conReplace(b Constraint, a Constraint, before *CreateTableStmt, after *CreateTableStmt, nv bool) []Stmt =
{{- if eq .dialect "mysql"}} ite(is(a, *IndexConstraint), cat([]Stmt{&DropIndexStmt{Name: &ObjectName{Schema: before.Name.Schema, Name: b.GetName()}}}, indexOf(a, "", after)),
		cat(alter(after.Name, cdiff(b.String(), ""), &DropConstraint{Name: b.GetName()}), alter(after.Name, cdiff("", a.String()), &AddConstraint{Constraint: a, NotValid: nv})))
{{- else if eq .dialect "cockroachdb"}} ite(is(a, *IndexConstraint), cat([]Stmt{&DropIndexStmt{Comment: cdiff(b.String(), a.String()), Name: b.GetName()}}, indexOf(a, "", after)),
		cat(alter(after.Name, cdiff(b.String(), ""), &DropConstraint{Name: b.GetName()}), alter(after.Name, cdiff("", a.String()), &AddConstraint{Constraint: a, NotValid: nv})))
{{- else}} cat(alter(after.Name, cdiff(b.String(), ""), &DropConstraint{Name: b.GetName()}), alter(after.Name, cdiff("", a.String()), &AddConstraint{Constraint: a, NotValid: nv})) {{- end}}

def optionChanges(before *CreateTableStmt, after *CreateTableStmt) []Stmt =
{{- if eq .dialect "mysql"}} cat(
		flatmap(before.Options, b, let(a, find(after.Options, y, y.Name == b.Name), ite(strings.ToUpper(b.Name) != "AUTO_INCREMENT" && a != nil && b.StringForDiff() != a.StringForDiff(), alter(after.Name, cdiff(b.String(), a.String()), &AlterTableOption{Name: a.Name, Value: a.Value}), none()))),
		flatmap(filter(after.Options, x, find(before.Options, y, y.Name == x.Name) == nil), a, ite(strings.ToUpper(a.Name) != "AUTO_INCREMENT", alter(after.Name, cdiff("", a.String()), &AlterTableOption{Name: a.Name, Value: a.Value}), none())))
{{- else if eq .dialect "spanner"}} let(b, before.RowDeletionPolicy, let(a, after.RowDeletionPolicy, ite(b.StringForDiff() == a.StringForDiff(), none(),
		ite(b == nil, alter(after.Name, cdiff("", a.String()), &AddRowDeletionPolicy{RowDeletionPolicy: a}),
		ite(a == nil, alter(after.Name, cdiff(b.String(), ""), &DropRowDeletionPolicy{}),
		alter(after.Name, cdiff(b.String(), a.String()), &ReplaceRowDeletionPolicy{RowDeletionPolicy: a}))))))
{{- else}} none() {{- end}}

def renamed(before *CreateTableStmt, after *CreateTableStmt) bool = before.Name.StringForDiff() != after.Name.StringForDiff()

# after, with the schema of before when it is renamed without naming a schema
def target(before *CreateTableStmt, after *CreateTableStmt) *CreateTableStmt = ite(renamed(before, after) && after.Name.Schema == nil, clone(after, Name, &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}), after)

def changesOf(before *CreateTableStmt, orig *CreateTableStmt, after *CreateTableStmt, nv bool) []Stmt = cat(
		ite(renamed(before, orig), alter(before.Name, cdiff(before.Name.StringForDiff(), after.Name.StringForDiff()), &RenameTable{NewName: after.Name}), none()),
		flatmap(before.Constraints, c, ite(find(after.Constraints, y, y.GetName().Name == c.GetName().Name) == nil, conDrop(c, before, after), none())),
		columnChanges(before, after),
		flatmap(before.Constraints, c, let(a, find(after.Constraints, y, y.GetName().Name == c.GetName().Name), ite(a != nil && c.StringForDiff() != a.StringForDiff(), conReplace(c, a, before, after, nv), none()))),
		flatmap(onlyConstraints(after.Constraints, before.Constraints), c, conAdd(c, after, nv)),
		optionChanges(before, after))

opaque def tableDiff(before *CreateTableStmt, after *CreateTableStmt, nv bool) []Stmt = ite(before == nil && after == nil, none(),
		ite(before == nil, []Stmt{after},
		ite(after == nil, []Stmt{&DropTableStmt{Name: before.Name}},
{{- if eq .dialect "spanner"}}
		ite(before.Options.StringForDiff() != after.Options.StringForDiff(), []Stmt{&DropTableStmt{Comment: cdiff(before.Options.String(), after.Options.String()), Name: before.Name}, after},
{{- end}}
		ite(deepequal(before, after) || before.String() == after.String(), none(),
		changesOf(before, after, target(before, after), nv)){{if eq .dialect "spanner"}}){{end}})))

def notValid(opts []DiffCreateTableOption) bool = ite(len(opts) == 0, false, opts[len(opts)-1].(*diffCreateTableConfigUseConstraintNotValid).useAlterTableAddConstraintNotValid)

func DiffCreateTable(before, after, opts) (r, err)
	reveal tableDiff
	hint tableDiff(before, after, notValid(opts))
	ensures changes: r == let(t, tableDiff(before, after, notValid(opts)), ite(len(t) == 0, nil, &DDL{Stmts: t}))
	ensures outcome: iff(err == nil, len(tableDiff(before, after, notValid(opts))) > 0)
	ensures error: implies(err != nil, err_is(err, ddl.ErrNoDifference))

# ---- documents

def creatable(s Stmt) bool = is(s, *CreateTableStmt) || is(s, *CreateIndexStmt)

def found(s Stmt, S []Stmt) Stmt = find(S, x, sametype(s, x) && s.GetNameForDiff() == x.GetNameForDiff())

def onlyStmts(l *DDL, r *DDL) []Stmt = filter(l.Stmts, s, found(s, r.Stmts) == nil)

def dropOf(s Stmt) []Stmt = ite(is(s, *CreateTableStmt), []Stmt{&DropTableStmt{Name: s.(*CreateTableStmt).Name}}, ite(is(s, *CreateIndexStmt), []Stmt{&DropIndexStmt{Name: s.(*CreateIndexStmt).Name}}, none()))

def createOf(s Stmt) []Stmt = ite(is(s, *CreateTableStmt), []Stmt{s.(*CreateTableStmt)}, ite(is(s, *CreateIndexStmt), []Stmt{s.(*CreateIndexStmt)}, none()))

def indexChange(b *CreateIndexStmt, a *CreateIndexStmt) []Stmt = ite(b.StringForDiff() != a.StringForDiff(), []Stmt{&DropIndexStmt{Comment: cdiff(b.StringForDiff(), a.StringForDiff()), Name: b.Name}, a}, none())

def changed(b Stmt, after *DDL) []Stmt = let(a, found(b, after.Stmts), ite(a == nil, none(),
		ite(is(b, *CreateTableStmt), tableDiff(b.(*CreateTableStmt), a.(*CreateTableStmt), false),
		ite(is(b, *CreateIndexStmt), indexChange(b.(*CreateIndexStmt), a.(*CreateIndexStmt)), none()))))

def migration(before *DDL, after *DDL) []Stmt = cat(
		flatmap(onlyStmts(before, after), s, dropOf(s)),
		flatmap(onlyStmts(after, before), s, createOf(s)),
		flatmap(before.Stmts, b, changed(b, after)))

def same(before *DDL, after *DDL) bool = deepequal(before, after) || before.String() == after.String()

def unsupported(before *DDL, after *DDL) bool = ite(before == nil, false, ite(after == nil, exists(before.Stmts, s, !creatable(s)),
		!same(before, after) && (exists(onlyStmts(before, after), s, !creatable(s)) || exists(onlyStmts(after, before), s, !creatable(s)))))

def diffs(before *DDL, after *DDL) []Stmt = ite(before == nil, after.Stmts, ite(after == nil, flatmap(before.Stmts, s, dropOf(s)), ite(same(before, after), none(), migration(before, after))))

func Diff(before, after) (r, err)
	hint diffs(before, after)
	ensures absent: implies(before == nil && after == nil, r == nil && err_is(err, ddl.ErrNoDifference))
	ensures unsupported: implies(unsupported(before, after), r == nil && err_is(err, ddl.ErrNotSupported))
	ensures created: implies(before == nil && after != nil, r == &DDL{Stmts: after.Stmts} && err == nil)
	ensures dropped: implies(before != nil && after == nil && !unsupported(before, after), r == &DDL{Stmts: diffs(before, after)} && err == nil)
	ensures migrated: implies(before != nil && after != nil && !unsupported(before, after), r == ite(len(diffs(before, after)) == 0, nil, &DDL{Stmts: diffs(before, after)}))
	ensures outcome: implies(before != nil && after != nil && !unsupported(before, after), iff(err == nil, len(diffs(before, after)) > 0))
	ensures nodiff: implies(err != nil && !unsupported(before, after), err_is(err, ddl.ErrNoDifference))
