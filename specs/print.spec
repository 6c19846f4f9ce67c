# Printing statements ({{.dialect}}): the text of every statement is a closed form over its parts, in order.
pkg pkg/ddl/{{.dialect}}
frame
termination
factor
{{if eq .dialect "cockroachdb"}}budget 4000{{end}}
sealed Stmt = all
sealed Constraint = all
sealed AlterTableAction = all
elems Stmt, Constraint, *Column, *ColumnIdent, *Option
nonnil ObjectName.Name, AlterTableStmt.Action, AddConstraint.Constraint, AddColumn.Column, AddRowDeletionPolicy.RowDeletionPolicy, ReplaceRowDeletionPolicy.RowDeletionPolicy
{{$order := ne .dialect "postgres"}}
# ---- names and expressions
def ident(i *Ident) string = ite(i == nil, "", i.Raw)
def plain(i *Ident) string = ite(i == nil, "", i.Name)
def objectName(t *ObjectName) string = ite(t == nil, "", ite(t.Schema != nil, t.Name.QuotationMark + plain(t.Schema) + "." + plain(t.Name) + t.Name.QuotationMark, ident(t.Name)))
def columnIdent(i *ColumnIdent) string = ident(i.Ident)
{{- if $order}} + ite(i.Order != nil{{if eq .dialect "mysql"}} && i.Order.Desc{{end}}, ite(i.Order.Desc, " DESC", " ASC"), ""){{end}}
# two neighbours stand together around parentheses, casts and before a comma; otherwise a blank parts them
def glued(a string, b string) bool = {{if eq .dialect "postgres" "cockroachdb"}}a != "||" && b != "||" && ({{end}}a == "(" || b == "(" || b == ")" || a == "::" || b == "::" || b == ","{{if ne .dialect "postgres"}} || a == ":::" || b == ":::"{{end}}{{if eq .dialect "postgres" "cockroachdb"}}){{end}}
def expr(e *Expr) string = ite(e == nil, "", flatmapi(e.Idents, i, x, ite(i == 0 || glued(ident(e.Idents[i-1]), ident(x)), "", " ") + ident(x)))
def dataType(s *DataType) string = ite(s == nil, "", s.Name + ite(s.Expr != nil && len(s.Expr.Idents) > 0, "(" + expr(s.Expr) + ")", ""))
def dflt(d *Default) string = ite(d == nil || d.Value == nil, "", "DEFAULT " + expr(d.Value))
def columnIdents(S []*ColumnIdent) string = flatmapi(S, i, x, ite(i != 0, ", ", "") + columnIdent(x))
def clause(s string) string = ite(s != "", " " + s, "")

func (*Ident).String(i) (r)
	ensures text: r == ident(i)
func (*ColumnIdent).String(i) (r)
	requires i != nil
	ensures text: r == columnIdent(i)
func (*ObjectName).String(t) (r)
	ensures text: r == objectName(t)
func (*Expr).String(d) (r)
	ensures text: r == expr(d)
func (*DataType).String(s) (r)
	ensures text: r == dataType(s)
func (*Default).String(d) (r)
	ensures text: r == dflt(d)
{{if eq .dialect "cockroachdb"}}
def with(w *With) string = ite(w == nil, "", "WITH " + expr(w.Value))
def using(u *Using) string = ite(u == nil, "", "USING " + expr(u.Value) + ite(u.With != nil, " " + with(u.With), ""))
def as(d *As) string = ite(d == nil || d.Value == nil, "", "AS " + expr(d.Value) + clause(string(d.Type)))
def usingClause(u *Using) string = ite(u != nil, " " + using(u), "")
func (*With).String(w) (r)
	ensures text: r == with(w)
func (*Using).String(u) (r)
	ensures text: r == using(u)
func (*As).String(d) (r)
	ensures text: r == as(d)
{{end}}
# ---- columns
def column(c *Column) string = ident(c.Name) + " " + dataType(c.DataType)
{{- if eq .dialect "postgres"}} + clause(dflt(c.Default)) + ite(c.NotNull, " NOT NULL", ""){{end}}
{{- if eq .dialect "cockroachdb"}} + ite(c.NotVisible, " NOT VISIBLE", "") + ite(c.NotNull, " NOT NULL", "") + clause(dflt(c.Default)) + ite(c.As != nil, " " + as(c.As), ""){{end}}
{{- if eq .dialect "spanner"}} + ite(c.NotNull, " NOT NULL", "") + clause(dflt(c.Default)) + ite(expr(c.Options) != "", " OPTIONS " + expr(c.Options), ""){{end}}
{{- if eq .dialect "mysql"}} + ite(ident(c.CharacterSet) != "", " CHARACTER SET " + ident(c.CharacterSet), "") + ite(ident(c.Collate) != "", " COLLATE " + ident(c.Collate), "") + ite(c.NotNull, " NOT NULL", " NULL") + clause(dflt(c.Default)) + ite(c.AutoIncrement, " AUTO_INCREMENT", "") + clause(c.OnAction) + ite(c.Comment != "", " COMMENT " + c.Comment, ""){{end}}
func (*Column).String(c) (r)
	requires c != nil
	ensures text: r == column(c)

# ---- constraints
def named(n *Ident) string = ite(n != nil, "CONSTRAINT " + ident(n) + " ", "")
def foreignKey(c *ForeignKeyConstraint) string = named(c.Name) + "FOREIGN KEY (" + columnIdents(c.Columns) + ") REFERENCES " + ident(c.Ref) + " (" + columnIdents(c.RefColumns) + ")"{{if ne .dialect "spanner"}} + clause(c.OnAction){{end}}
def check(c *CheckConstraint) string = named(c.Name) + "CHECK " + expr(c.Expr)
func (*ForeignKeyConstraint).String(c) (r)
	requires c != nil
	ensures text: r == foreignKey(c)
func (*CheckConstraint).String(c) (r)
	requires c != nil
	ensures text: r == check(c)
{{if ne .dialect "spanner"}}
def primaryKey(c *PrimaryKeyConstraint) string = {{if ne .dialect "mysql"}}named(c.Name) + {{end}}"PRIMARY KEY (" + columnIdents(c.Columns) + ")"
func (*PrimaryKeyConstraint).String(c) (r)
	requires c != nil
	ensures text: r == primaryKey(c)
{{end}}
{{if eq .dialect "postgres"}}
def unique(c *UniqueConstraint) string = named(c.Name) + "UNIQUE (" + columnIdents(c.Columns) + ")"
func (*UniqueConstraint).String(c) (r)
	requires c != nil
	ensures text: r == unique(c)
{{end}}
{{if eq .dialect "cockroachdb"}}
def unique(c *IndexConstraint) string = ite(c.Unique, "UNIQUE ", "") + ite(c.Name != nil, "INDEX " + ident(c.Name) + " ", "") + usingClause(c.UsingPreColumns) + "(" + columnIdents(c.Columns) + ")" + usingClause(c.UsingPostColumns)
{{end}}
{{if eq .dialect "mysql"}}
def unique(c *IndexConstraint) string = ite(c.Unique, "UNIQUE ", "") + ite(c.Name != nil, "KEY " + ident(c.Name) + " ", "") + "(" + columnIdents(c.Columns) + ")"
{{end}}
{{if eq .dialect "mysql" "cockroachdb"}}
func (*IndexConstraint).String(c) (r)
	requires c != nil
	ensures text: r == unique(c)
{{end}}
def constraint(c Constraint) string = ite(is(c, *ForeignKeyConstraint), foreignKey(c.(*ForeignKeyConstraint)), ite(is(c, *CheckConstraint), check(c.(*CheckConstraint)), {{if eq .dialect "spanner"}}""{{else}}ite(is(c, *PrimaryKeyConstraint), primaryKey(c.(*PrimaryKeyConstraint)), {{if eq .dialect "postgres"}}unique(c.(*UniqueConstraint)){{else}}unique(c.(*IndexConstraint)){{end}}){{end}}))

# ---- options
{{if eq .dialect "postgres" "cockroachdb"}}
def option(o *Option) string = ite(o.Value == nil, "", o.Name + " " + ident(o.Value))
{{end}}
{{if eq .dialect "mysql"}}
def option(o *Option) string = ite(o == nil || o.Value == nil, "", o.Name + "=" + expr(o.Value))
def options(S []*Option) string = flatmapi(S, i, o, ite(i != 0, " ", "") + option(o))
{{end}}
{{if eq .dialect "spanner"}}
def option(o *Option) string = ite(o.Value == nil, "", o.Name + " " + expr(o.Value))
def options(S []*Option) string = flatmapi(S, i, o, ite(i != 0, ",\n", "") + option(o))
{{end}}
func (*Option).String(o) (r)
	{{if ne .dialect "mysql"}}requires o != nil
	{{end}}ensures text: r == option(o)
{{if eq .dialect "mysql" "spanner"}}
func (Options).String(o) (r)
	ensures text: r == options(o)
{{end}}
# ---- statements
def comment(s string) string = flatmap(split(s, "\n"), l, ite(l != "", "-- " + l + "\n", ""))
def item(last bool) string = ite(last, "\n", ",\n")
def createTable(s *CreateTableStmt) string = comment(s.Comment) + "CREATE TABLE " + ite(s.IfNotExists, "IF NOT EXISTS ", "") + objectName(s.Name) + " (\n"
		+ flatmapi(s.Columns, i, c, "    " + column(c) + item(i == len(s.Columns)-1 && len(s.Constraints) == 0))
		+ flatmapi(s.Constraints, i, c, "    " + constraint(c) + item(i == len(s.Constraints)-1)) + ")"
		{{- if eq .dialect "postgres" "cockroachdb"}} + ite(len(s.Options) > 0, "\n" + flatmapi(s.Options, i, o, option(o) + ite(i != len(s.Options)-1, ",\n", "")), ""){{else}} + ite(len(s.Options) > 0, " " + options(s.Options), ""){{end}}
		{{- if eq .dialect "spanner"}} + ite(s.RowDeletionPolicy != nil, ",\n" + option(s.RowDeletionPolicy), ""){{end}} + ";\n"
def createIndex(s *CreateIndexStmt) string = comment(s.Comment) + "CREATE " + ite(s.Unique, "UNIQUE ", "") + "INDEX " + ite(s.IfNotExists, "IF NOT EXISTS ", "") + {{if eq .dialect "mysql" "spanner"}}objectName{{else}}ident{{end}}(s.Name) + " ON " + objectName(s.TableName)
		{{- if eq .dialect "cockroachdb"}} + usingClause(s.UsingPreColumns){{else}} + ite(len(s.Using) > 0, " USING " + flatmapi(s.Using, i, x, ite(i != 0, " ", "") + ident(x)), ""){{end}} + " (" + columnIdents(s.Columns) + ")"
		{{- if eq .dialect "cockroachdb"}} + usingClause(s.UsingPostColumns){{end}} + ";\n"
def dropTable(s *DropTableStmt) string = comment(s.Comment) + "DROP TABLE " + ite(s.IfExists, "IF EXISTS ", "") + objectName(s.Name) + ";\n"
def dropIndex(s *DropIndexStmt) string = comment(s.Comment) + "DROP INDEX " + ite(s.IfExists, "IF EXISTS ", "") + {{if eq .dialect "mysql" "spanner"}}objectName{{else}}ident{{end}}(s.Name) + ";\n"

def alterColumn(n *Ident) string = "ALTER COLUMN " + ident(n) + " "
{{if eq .dialect "postgres"}}
def action(x AlterTableAction) string = ite(is(x, *RenameTable), let(a, x.(*RenameTable), "RENAME TO " + objectName(a.NewName)), 
		ite(is(x, *RenameColumn), let(a, x.(*RenameColumn), "RENAME COLUMN " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *RenameConstraint), let(a, x.(*RenameConstraint), "RENAME CONSTRAINT " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *AddColumn), let(a, x.(*AddColumn), "ADD COLUMN " + column(a.Column)), 
		ite(is(x, *DropColumn), let(a, x.(*DropColumn), "DROP COLUMN " + ident(a.Name)), 
		ite(is(x, *AlterColumnSetDataType), let(a, x.(*AlterColumnSetDataType), alterColumn(a.Name) + "SET DATA TYPE " + dataType(a.DataType)), 
		ite(is(x, *AlterColumnSetDefault), let(a, x.(*AlterColumnSetDefault), alterColumn(a.Name) + "SET " + dflt(a.Default)), 
		ite(is(x, *AlterColumnDropDefault), let(a, x.(*AlterColumnDropDefault), alterColumn(a.Name) + "DROP DEFAULT"), 
		ite(is(x, *AlterColumnSetNotNull), let(a, x.(*AlterColumnSetNotNull), alterColumn(a.Name) + "SET NOT NULL"), 
		ite(is(x, *AlterColumnDropNotNull), let(a, x.(*AlterColumnDropNotNull), alterColumn(a.Name) + "DROP NOT NULL"), 
		ite(is(x, *AddConstraint), let(a, x.(*AddConstraint), "ADD " + constraint(a.Constraint) + ite(a.NotValid, " NOT VALID", "")), 
		ite(is(x, *DropConstraint), let(a, x.(*DropConstraint), "DROP CONSTRAINT " + ident(a.Name)), 
		ite(is(x, *AlterConstraint), let(a, x.(*AlterConstraint), "ALTER CONSTRAINT " + ident(a.Name) + " " + ite(a.Deferrable, "DEFERRABLE", "NOT DEFERRABLE") + ite(a.InitiallyDeferred, " INITIALLY DEFERRED", " INITIALLY IMMEDIATE")), 
		"")))))))))))))
{{end}}
{{if eq .dialect "cockroachdb"}}
def action(x AlterTableAction) string = ite(is(x, *RenameTable), let(a, x.(*RenameTable), "RENAME TO " + objectName(a.NewName)), 
		ite(is(x, *RenameColumn), let(a, x.(*RenameColumn), "RENAME COLUMN " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *RenameConstraint), let(a, x.(*RenameConstraint), "RENAME CONSTRAINT " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *AddColumn), let(a, x.(*AddColumn), "ADD COLUMN " + column(a.Column)), 
		ite(is(x, *DropColumn), let(a, x.(*DropColumn), "DROP COLUMN " + ident(a.Name)), 
		ite(is(x, *AlterColumnSetDataType), let(a, x.(*AlterColumnSetDataType), alterColumn(a.Name) + "SET DATA TYPE " + dataType(a.DataType)), 
		ite(is(x, *AlterColumnSetDefault), let(a, x.(*AlterColumnSetDefault), alterColumn(a.Name) + "SET " + dflt(a.Default)), 
		ite(is(x, *AlterColumnDropDefault), let(a, x.(*AlterColumnDropDefault), alterColumn(a.Name) + "DROP DEFAULT"), 
		ite(is(x, *AlterColumnSetNotNull), let(a, x.(*AlterColumnSetNotNull), alterColumn(a.Name) + "SET NOT NULL"), 
		ite(is(x, *AlterColumnDropNotNull), let(a, x.(*AlterColumnDropNotNull), alterColumn(a.Name) + "DROP NOT NULL"), 
		ite(is(x, *AddConstraint), let(a, x.(*AddConstraint), "ADD " + constraint(a.Constraint) + ite(a.NotValid, " NOT VALID", "")), 
		ite(is(x, *DropConstraint), let(a, x.(*DropConstraint), "DROP CONSTRAINT " + ident(a.Name)), 
		ite(is(x, *AlterConstraint), let(a, x.(*AlterConstraint), "ALTER CONSTRAINT " + ident(a.Name) + " " + ite(a.Deferrable, "DEFERRABLE", "NOT DEFERRABLE") + ite(a.InitiallyDeferred, " INITIALLY DEFERRED", " INITIALLY IMMEDIATE")), 
		"")))))))))))))
{{end}}
{{if eq .dialect "mysql"}}
def action(x AlterTableAction) string = ite(is(x, *RenameTable), let(a, x.(*RenameTable), "RENAME TO " + objectName(a.NewName)), 
		ite(is(x, *RenameColumn), let(a, x.(*RenameColumn), "RENAME COLUMN " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *RenameConstraint), let(a, x.(*RenameConstraint), "RENAME CONSTRAINT " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *AddColumn), let(a, x.(*AddColumn), "ADD COLUMN " + column(a.Column)), 
		ite(is(x, *DropColumn), let(a, x.(*DropColumn), "DROP COLUMN " + ident(a.Name)), 
		ite(is(x, *AlterColumnDropDefault), let(a, x.(*AlterColumnDropDefault), "ALTER " + ident(a.Name) + " DROP DEFAULT"), 
		ite(is(x, *ModifyColumn), let(a, x.(*ModifyColumn), "MODIFY " + ident(a.Name) + " " + dataType(a.DataType) + ite(a.CharacterSet != nil, " CHARACTER SET " + ident(a.CharacterSet), "") + ite(a.Collate != nil, " COLLATE " + ident(a.Collate), "") + ite(a.NotNull, " NOT NULL", " NULL") + ite(a.AutoIncrement, " AUTO_INCREMENT", "") + ite(a.Default != nil, " " + dflt(a.Default), "") + clause(a.OnAction) + ite(a.Comment != "", " COMMENT " + a.Comment, "")), 
		ite(is(x, *AddConstraint), let(a, x.(*AddConstraint), "ADD " + constraint(a.Constraint) + ite(a.NotValid, " NOT VALID", "")), 
		ite(is(x, *DropConstraint), let(a, x.(*DropConstraint), "DROP " + ite(ident(a.Name) == "PRIMARY KEY", "PRIMARY KEY", "CONSTRAINT " + ident(a.Name))), 
		ite(is(x, *AlterConstraint), let(a, x.(*AlterConstraint), "ALTER CONSTRAINT " + ident(a.Name) + " " + ite(a.Deferrable, "DEFERRABLE", "NOT DEFERRABLE") + ite(a.InitiallyDeferred, " INITIALLY DEFERRED", " INITIALLY IMMEDIATE")), 
		ite(is(x, *AlterTableOption), let(a, x.(*AlterTableOption), a.Name + "=" + expr(a.Value)), 
		"")))))))))))
{{end}}
{{if eq .dialect "spanner"}}
def action(x AlterTableAction) string = ite(is(x, *RenameTable), let(a, x.(*RenameTable), "RENAME TO " + objectName(a.NewName)), 
		ite(is(x, *RenameColumn), let(a, x.(*RenameColumn), "RENAME COLUMN " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *RenameConstraint), let(a, x.(*RenameConstraint), "RENAME CONSTRAINT " + ident(a.Name) + " TO " + ident(a.NewName)), 
		ite(is(x, *AddColumn), let(a, x.(*AddColumn), "ADD COLUMN " + column(a.Column)), 
		ite(is(x, *DropColumn), let(a, x.(*DropColumn), "DROP COLUMN " + ident(a.Name)), 
		ite(is(x, *AlterColumnDataType), let(a, x.(*AlterColumnDataType), alterColumn(a.Name) + dataType(a.DataType) + ite(a.NotNull, " NOT NULL", "")), 
		ite(is(x, *AlterColumnSetDefault), let(a, x.(*AlterColumnSetDefault), alterColumn(a.Name) + "SET " + dflt(a.Default)), 
		ite(is(x, *AlterColumnDropDefault), let(a, x.(*AlterColumnDropDefault), alterColumn(a.Name) + "DROP DEFAULT"), 
		ite(is(x, *AlterColumnSetOptions), let(a, x.(*AlterColumnSetOptions), alterColumn(a.Name) + "SET OPTIONS " + expr(a.Options)), 
		ite(is(x, *AlterColumnDropOptions), let(a, x.(*AlterColumnDropOptions), alterColumn(a.Name) + "DROP OPTIONS"), 
		ite(is(x, *AddConstraint), let(a, x.(*AddConstraint), "ADD " + constraint(a.Constraint) + ite(a.NotValid, " NOT VALID", "")), 
		ite(is(x, *DropConstraint), let(a, x.(*DropConstraint), "DROP CONSTRAINT " + ident(a.Name)), 
		ite(is(x, *AlterConstraint), let(a, x.(*AlterConstraint), "ALTER CONSTRAINT " + ident(a.Name) + " " + ite(a.Deferrable, "DEFERRABLE", "NOT DEFERRABLE") + ite(a.InitiallyDeferred, " INITIALLY DEFERRED", " INITIALLY IMMEDIATE")), 
		ite(is(x, *AddRowDeletionPolicy), let(a, x.(*AddRowDeletionPolicy), "ADD " + option(a.RowDeletionPolicy)), 
		ite(is(x, *ReplaceRowDeletionPolicy), let(a, x.(*ReplaceRowDeletionPolicy), "REPLACE " + option(a.RowDeletionPolicy)), 
		ite(is(x, *DropRowDeletionPolicy), let(a, x.(*DropRowDeletionPolicy), "DROP ROW DELETION POLICY"), 
		""))))))))))))))))
{{end}}
def alterTable(s *AlterTableStmt) string = comment(s.Comment) + "ALTER TABLE " + objectName(s.Name) + " " + action(s.Action) + ";\n"
{{- if eq .dialect "mysql"}}
func (*AlterTableOption).String(s) (r)
	requires s != nil
	ensures text: r == s.Name + "=" + expr(s.Value)
{{- end}}
def stmt(s Stmt) string = ite(is(s, *CreateTableStmt), createTable(s.(*CreateTableStmt)), ite(is(s, *CreateIndexStmt), createIndex(s.(*CreateIndexStmt)), ite(is(s, *AlterTableStmt), alterTable(s.(*AlterTableStmt)), ite(is(s, *DropTableStmt), dropTable(s.(*DropTableStmt)), dropIndex(s.(*DropIndexStmt))))))

func (*CreateTableStmt).String(s) (r)
	requires s != nil
	ensures text: r == createTable(s)
func (*CreateIndexStmt).String(s) (r)
	requires s != nil
	ensures text: r == createIndex(s)
func (*DropTableStmt).String(s) (r)
	requires s != nil
	ensures text: r == dropTable(s)
func (*DropIndexStmt).String(s) (r)
	requires s != nil
	ensures text: r == dropIndex(s)
func (*AlterTableStmt).String(s) (r)
	requires s != nil
	ensures text: r == alterTable(s)
func (*DDL).String(d) (r)
	ensures text: r == ite(d == nil, "", flatmap(d.Stmts, s, stmt(s)))

# ---- the text two parts are compared by
def plainExpr(e *Expr) string = flatmapi(e.Idents, i, x, ite(i != 0, " ", "") + plain(x))
def plainColumn(c *ColumnIdent) string = plain(c.Ident)
		{{- if eq .dialect "mysql"}} + ite(c.Order != nil && c.Order.Desc, " DESC", ""){{else if ne .dialect "postgres"}} + ite(c.Order != nil && c.Order.Desc, " DESC", " ASC"){{end}}
def plainColumns(S []*ColumnIdent) string = flatmapi(S, i, x, ite(i != 0, ", ", "") + plainColumn(x))
def plainObject(t *ObjectName) string = ite(t == nil, "", ite(t.Schema != nil, plain(t.Schema) + ".", "") + plain(t.Name))
def plainNamed(n *Ident) string = ite(n != nil, "CONSTRAINT " + plain(n) + " ", "")
func (*Ident).StringForDiff(i) (r)
	ensures same: r == plain(i)
func (*ColumnIdent).StringForDiff(c) (r)
	requires c != nil
	ensures same: r == plainColumn(c)
func (*ObjectName).StringForDiff(t) (r)
	ensures same: r == plainObject(t)
func (*DataType).StringForDiff(s) (r)
	ensures same: r == ite(s == nil, "", ite(string(s.Type) != "", string(s.Type), "ILLEGAL") + ite(s.Expr != nil && len(s.Expr.Idents) > 0, "(" + flatmap(s.Expr.Idents, x, plain(x)) + ")", ""))
func (*Default).StringForDiff(d) (r)
	ensures same: r == ite(d == nil || d.Value == nil, "", {{if eq .dialect "spanner"}}"DEFAULT (" + plainExpr(d.Value) + ")"{{else}}"DEFAULT " + plainExpr(d.Value){{end}})
func (*CreateIndexStmt).StringForDiff(s) (r)
	requires s != nil
	ensures same: r == "CREATE " + ite(s.Unique, "UNIQUE ", "") + "INDEX " + {{if eq .dialect "mysql" "spanner"}}plainObject{{else}}plain{{end}}(s.Name) + " ON " + plainObject(s.TableName){{if eq .dialect "cockroachdb"}} + usingClause(s.UsingPreColumns){{end}} + " (" + plainColumns(s.Columns) + ")"{{if eq .dialect "cockroachdb"}} + usingClause(s.UsingPostColumns){{end}} + ";\n"
func (*ForeignKeyConstraint).StringForDiff(c) (r)
	requires c != nil && c.Ref != nil
	ensures same: r == plainNamed(c.Name) + "FOREIGN KEY (" + plainColumns(c.Columns) + ") REFERENCES " + c.Ref.Name + " (" + plainColumns(c.RefColumns) + ")"{{if ne .dialect "spanner"}} + clause(c.OnAction){{end}}
func (*CheckConstraint).StringForDiff(c) (r)
	requires c != nil && c.Expr != nil
	ensures same: r == plainNamed(c.Name) + "CHECK " + plainExpr(c.Expr)
{{if ne .dialect "spanner"}}
func (*PrimaryKeyConstraint).StringForDiff(c) (r)
	requires c != nil
	ensures same: r == {{if ne .dialect "mysql"}}plainNamed(c.Name) + {{end}}"PRIMARY KEY (" + plainColumns(c.Columns) + ")"
{{end}}
{{if eq .dialect "postgres"}}
func (*UniqueConstraint).StringForDiff(c) (r)
	requires c != nil
	ensures same: r == plainNamed(c.Name) + "UNIQUE (" + plainColumns(c.Columns) + ")"
{{end}}
{{if eq .dialect "mysql" "cockroachdb"}}
func (*IndexConstraint).StringForDiff(c) (r)
	requires c != nil
	ensures same: r == ite(c.Unique, "UNIQUE ", "") + ite(c.Name != nil, "{{if eq .dialect "mysql"}}KEY{{else}}INDEX{{end}} " + plain(c.Name) + " ", ""){{if eq .dialect "cockroachdb"}} + usingClause(c.UsingPreColumns){{end}} + "(" + plainColumns(c.Columns) + ")"{{if eq .dialect "cockroachdb"}} + usingClause(c.UsingPostColumns){{end}}
{{end}}
{{if eq .dialect "spanner"}}
func (*Expr).StringForDiff(d) (r)
	ensures same: r == ite(d == nil, "", plainExpr(d))
func (*Option).StringForDiff(o) (r)
	ensures same: r == ite(o == nil || o.Value == nil, "", o.Name + " " + plainExpr(o.Value))
func (Options).StringForDiff(S) (r)
	ensures same: r == flatmapi(S, i, o, ite(i != 0, ", ", "") + ite(o.Value == nil, "", o.Name + " " + plainExpr(o.Value)))
{{end}}
{{if eq .dialect "mysql"}}
func (*Option).StringForDiff(o) (r)
	ensures same: r == ite(o == nil || o.Value == nil, "", o.Name + "=" + plainExpr(o.Value))
func (Options).StringForDiff(S) (r)
	ensures same: r == flatmapi(S, i, o, ite(i != 0, " ", "") + ite(o == nil || o.Value == nil, "", o.Name + "=" + plainExpr(o.Value)))
{{end}}
{{if eq .dialect "cockroachdb"}}
func (*As).StringForDiff(d) (r)
	ensures same: r == ite(d == nil || d.Value == nil, "", "AS " + plainExpr(d.Value) + clause(string(d.Type)))
{{end}}
