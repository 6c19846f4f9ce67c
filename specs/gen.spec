# The text generated for a model ({{.dialect}}).
pkg pkg/internal/generator
sealed Stmt = all
elems Stmt, *CreateTableColumn, *CreateTableConstraint, *CreateTableOption
pkg pkg/internal/generator/dialect/{{.dialect}}
termination
identify
factor
purefn github.com/kunitsucom/util.go/path/filepath.Short
purefn strconv.Itoa
{{$q := "`"}}{{if eq .dialect "postgres"}}{{$q = "\""}}{{end}}
def comment(indent string, s string) string = indent + ite(s == "", "--\n", "-- " + s + "\n")
def comments(indent string, S []string) string = flatmap(S, s, comment(indent, s))
def source(file string, line int) string = ite(file != "", comment("", "source: " + filepathz.Short(file) + ":" + strconv.Itoa(line)), "")
def sourceOf(file string, line int, S []string) string = source(file, line) + comments("", S)
def indexText(x *generator.CreateIndexStmt) string = sourceOf(x.SourceFile, x.SourceLine, x.Comments) + x.CreateIndex + ";\n"
def quoted(s string) string = {{if eq .dialect "postgres"}}"\"" + s + "\""{{else}}"`" + s + "`"{{end}}
def width(S []*generator.CreateTableColumn) int = 2 + fold(S, m, c, 0, ite(len(c.ColumnName) > m, len(c.ColumnName), m))
def columns(indent string, S []*generator.CreateTableColumn, more bool) string = flatmapi(S, i, c, comments(indent, c.Comments) + indent + padright(width(S), quoted(c.ColumnName)) + " " + c.TypeConstraint + ite(i == len(S)-1 && !more, "\n", ",\n"))
def key(S []string) string = "PRIMARY KEY (" + flatmapi(S, i, k, quoted(k) + ite(i != len(S)-1, ", ", "")) + ")"
def constraints(indent string, S []*generator.CreateTableConstraint) string = flatmapi(S, i, c, comments(indent, c.Comments) + indent + c.Constraint + ite(i != len(S)-1, ",", "") + "\n")
def options(S []*generator.CreateTableOption) string = flatmapi(S, i, o, "\n" + comments("", o.Comments) + o.Option + ite(i != len(S)-1, ",", ""))
{{if eq .dialect "spanner"}}
def body(indent string, x *generator.CreateTableStmt) string = columns(indent, x.Columns, len(x.Constraints) > 0) + constraints(indent, x.Constraints) + ")" + ite(len(x.PrimaryKey) > 0, " " + key(x.PrimaryKey) + ite(len(x.Options) > 0, ",", ""), "") + options(x.Options)
{{else}}
def body(indent string, x *generator.CreateTableStmt) string = columns(indent, x.Columns, len(x.PrimaryKey) > 0 || len(x.Constraints) > 0) + ite(len(x.PrimaryKey) > 0, indent + key(x.PrimaryKey) + ite(len(x.Constraints) > 0, ",", "") + "\n", "") + constraints(indent, x.Constraints) + ")" + options(x.Options)
{{end}}
def tableText(indent string, x *generator.CreateTableStmt) string = sourceOf(x.SourceFile, x.SourceLine, x.Comments) + ite(x.CreateTable != "", x.CreateTable + " (\n" + body(indent, x) + ";\n", "")
def stmtText(indent string, x generator.Stmt) string = "\n" + ite(is(x, *generator.CreateTableStmt), tableText(indent, x.(*generator.CreateTableStmt)), ite(is(x, *generator.CreateIndexStmt), indexText(x.(*generator.CreateIndexStmt)), ""))

func Fprint(w, ddl) (err)
	requires given: w != nil && ddl != nil
	requires fresh: !ghost_wfail
	ensures outcome: (err == nil) == !ghost_wfail
	ensures text: implies(err == nil, ghost_out == old(ghost_out) + comments("", ddl.Header) + flatmap(ddl.Stmts, x, stmtText(ddl.Indent, x)))
