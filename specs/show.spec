# Reading the schema of a database ({{.dialect}}).
# A query is an arbitrary function of the database, the statement and its values: it fails, or it gives rows. What a
# row holds is named by the database column of the struct tag, so that reading another column is another value.
pkg pkg/show/{{.dialect}}
termination
identify
factor
function newdb(obj_db, no_opts) = github.com/kunitsucom/util.go/database/sql.NewDB
	requires plain: len(no_opts) == 0
	ensures made: result != nil
query rows(db, no_ctx, out_dest, sql_query, va_args) = invoke:QueryContext

{{if ne .dialect "cockroachdb"}}
sealed ShowCreateAllTablesOption = all
elems ShowCreateAllTablesOption
{{end}}
{{if eq .dialect "mysql"}}
# the last option decides
def database(opts []ShowCreateAllTablesOption) string = ite(len(opts) == 0, "", opts[len(opts)-1].(*showCreateAllTablesOptionDatabase).database)
def tablesSQL(d string) string = ite(d == "", sql("SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = database()"), sql("SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = `" + d + "`"))
def show(t int) string = sql("SHOW CREATE TABLE `" + colstr(t, "TABLE_NAME") + "`")
def tables(h []int, d int, q string) []int = rows("rows", 0, h, d, q)

func ShowCreateAllTables(ctx, db, opts) (query, err)
	ensures failure: (err != nil) == (failed("rows", old(ghost_io), objres("newdb", refof(db)), tablesSQL(database(opts))) || exists(tables(old(ghost_io), objres("newdb", refof(db)), tablesSQL(database(opts))), t, failed("rows", old(ghost_io), objres("newdb", refof(db)), show(t))))
	ensures nothing: implies(err != nil, query == "")
	ensures text: implies(err == nil, query == flatmap(tables(old(ghost_io), objres("newdb", refof(db)), tablesSQL(database(opts))), t, rowstr("rows", 0, "Create Table", old(ghost_io), objres("newdb", refof(db)), show(t)) + ";\n"))
{{end}}
{{if eq .dialect "cockroachdb"}}
func ShowCreateAllTables(ctx, db) (query, err)
	ensures failure: (err != nil) == failed("rows", old(ghost_io), objres("newdb", refof(db)), sql("SHOW CREATE ALL TABLES ;"))
	ensures nothing: implies(err != nil, query == "")
	ensures text: implies(err == nil, query == flatmap(rows("rows", 0, old(ghost_io), objres("newdb", refof(db)), sql("SHOW CREATE ALL TABLES ;")), r, colstr(r, "create_statement") + "\n"))
{{end}}
{{if eq .dialect "postgres"}}
# the last option decides
def schemaOf(opts []ShowCreateAllTablesOption) string = ite(len(opts) == 0, "public", opts[len(opts)-1].(*showCreateAllTablesOptionSchema).schema)
def tablesSQL(schema string) string = sql("SELECT 'CREATE TABLE ' || clmn.table_schema || '.' || clmn.table_name || ' (' || E'\\n' || '  ' || clmn.column_defs || (CASE WHEN cnst.constraint_defs IS NOT NULL THEN ',' || E'\\n' || '  ' || cnst.constraint_defs ELSE '' END) || E'\\n' || ');' AS create_statement FROM ( SELECT c.table_schema, c.table_name, string_agg( c.column_name || ' ' || c.data_type || (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) || (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) || (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END), ',' || E'\\n' || '  ' ORDER BY c.ordinal_position ) AS column_defs FROM information_schema.columns c WHERE c.table_schema = '" + schema + "' GROUP BY c.table_schema, c.table_name ) clmn LEFT JOIN ( SELECT tc.table_schema, tc.table_name, string_agg( 'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' || (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) || (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END), ',' || E'\\n' || '  ' ) AS constraint_defs FROM information_schema.table_constraints tc JOIN ( SELECT kcu.table_schema, kcu.table_name, kcu.constraint_name, string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names FROM information_schema.key_column_usage kcu GROUP BY kcu.table_schema, kcu.table_name, kcu.constraint_name ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name LEFT JOIN information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name WHERE tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE') GROUP BY tc.table_schema, tc.table_name ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name ORDER BY clmn.table_schema, clmn.table_name ;")
def indexesSQL(schema string) string = sql("SELECT indexdef AS create_statement FROM pg_indexes WHERE schemaname = '" + schema + "' AND indexname NOT IN ( SELECT constraint_name FROM information_schema.table_constraints WHERE table_schema = '" + schema + "' ) ;")
def lines(h []int, d int, q string, end string) string = flatmap(rows("rows", 0, h, d, q), r, colstr(r, "create_statement") + end)

func ShowCreateAllTables(ctx, db, opts) (query, err)
	ensures failure: (err != nil) == (failed("rows", old(ghost_io), objres("newdb", refof(db)), tablesSQL(schemaOf(opts))) || failed("rows", old(ghost_io), objres("newdb", refof(db)), indexesSQL(schemaOf(opts))))
	ensures nothing: implies(err != nil, query == "")
	ensures text: implies(err == nil, query == lines(old(ghost_io), objres("newdb", refof(db)), tablesSQL(schemaOf(opts)), "\n") + lines(old(ghost_io), objres("newdb", refof(db)), indexesSQL(schemaOf(opts)), ";\n"))
{{end}}
{{if eq .dialect "spanner"}}
def tablesQ() string = sql("SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';")
def policyQ() string = sql("SELECT TABLE_NAME, ROW_DELETION_POLICY_EXPRESSION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND ROW_DELETION_POLICY_EXPRESSION != '';")
def columnsQ() string = sql("SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;")
def optionsQ() string = sql("SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;")
def keyQ() string = sql("SELECT i.INDEX_NAME, i.INDEX_TYPE, ic.COLUMN_NAME, ic.COLUMN_ORDERING, ic.ORDINAL_POSITION FROM INFORMATION_SCHEMA.INDEXES AS i INNER JOIN INFORMATION_SCHEMA.INDEX_COLUMNS AS ic ON i.TABLE_NAME = ic.TABLE_NAME WHERE i.TABLE_NAME = ? AND i.INDEX_TYPE = \"PRIMARY_KEY\" AND ic.INDEX_TYPE = \"PRIMARY_KEY\" ORDER BY i.TABLE_NAME, ic.ORDINAL_POSITION ;")
def indexNamesQ() string = sql("SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != \"PRIMARY_KEY\";")
def indexQ() string = sql("SELECT ic.INDEX_NAME, i.INDEX_TYPE, ic.COLUMN_NAME, ic.COLUMN_ORDERING, ic.ORDINAL_POSITION FROM INFORMATION_SCHEMA.INDEXES AS i INNER JOIN INFORMATION_SCHEMA.INDEX_COLUMNS AS ic ON i.TABLE_NAME = ic.TABLE_NAME AND i.INDEX_NAME = ic.INDEX_NAME WHERE i.TABLE_NAME = ? AND i.INDEX_NAME = ? AND i.INDEX_TYPE != \"PRIMARY_KEY\" AND ic.INDEX_NAME != \"PRIMARY_KEY\" ORDER BY i.TABLE_NAME, ic.INDEX_NAME, ic.ORDINAL_POSITION ;")

def name(t int) string = colstr(t, "TABLE_NAME")
def optionOf(o int) string = colstr(o, "OPTION_NAME") + " = " + colstr(o, "OPTION_VALUE")
def optionsText(S []int) string = ite(len(S) > 0, " OPTIONS (" + flatmapi(S, i, o, optionOf(o) + ite(i != len(S)-1, ", ", "")) + ")", "")
def columnText(c int) string = colstr(c, "COLUMN_NAME") + " " + colstr(c, "SPANNER_TYPE") + ite(colref(c, "COLUMN_DEFAULT") != 0, " DEFAULT (" + deref(colref(c, "COLUMN_DEFAULT")) + ")", "") + ite(colstr(c, "IS_NULLABLE") == "NO", " NOT NULL", "")
def columnsText(S []int, O []int) string = flatmapi(S, i, c, "    " + columnText(c) + optionsText(filter(O, o, colstr(c, "COLUMN_NAME") == colstr(o, "COLUMN_NAME"))) + ite(i != len(S)-1, ",", "") + "\n")
def keyColumns(S []int) string = flatmapi(S, i, k, colstr(k, "COLUMN_NAME") + ite(colstr(k, "COLUMN_ORDERING") == "DESC", " DESC", "") + ite(i != len(S)-1, ", ", ""))
def keyText(S []int) string = ite(len(S) > 0, " PRIMARY KEY (" + keyColumns(S) + ")", "")
def policyText(S []int) string = ite(len(S) > 0, ",\nROW DELETION POLICY (" + flatmap(S, p, colstr(p, "ROW_DELETION_POLICY_EXPRESSION")) + ")", "")
def indexText(t int, n int, S []int) string = "CREATE " + ite(colbool(n, "IS_UNIQUE"), "UNIQUE ", "") + "INDEX " + colstr(n, "INDEX_NAME") + " ON " + name(t) + " (" + keyColumns(S) + ");\n"

def get(h []int, d int, q string, t int) []int = rows("rows", 0, h, d, q, name(t))
def bad(h []int, d int, q string, t int) bool = failed("rows", h, d, q, name(t))
def tableText(h []int, d int, t int) string = "CREATE TABLE " + name(t) + " (\n" + columnsText(get(h, d, columnsQ(), t), get(h, d, optionsQ(), t)) + ")" + keyText(get(h, d, keyQ(), t)) + policyText(get(h, d, policyQ(), t)) + ";\n" + flatmap(get(h, d, indexNamesQ(), t), n, indexText(t, n, rows("rows", 0, h, d, indexQ(), name(t), colstr(n, "INDEX_NAME"))))
def tableBad(h []int, d int, t int) bool = bad(h, d, columnsQ(), t) || bad(h, d, optionsQ(), t) || bad(h, d, keyQ(), t) || bad(h, d, policyQ(), t) || bad(h, d, indexNamesQ(), t) || exists(get(h, d, indexNamesQ(), t), n, failed("rows", h, d, indexQ(), name(t), colstr(n, "INDEX_NAME")))

func ShowCreateAllTables(ctx, db, opts) (query, err)
	ensures failure: (err != nil) == (failed("rows", old(ghost_io), objres("newdb", refof(db)), tablesQ()) || exists(rows("rows", 0, old(ghost_io), objres("newdb", refof(db)), tablesQ()), t, tableBad(old(ghost_io), objres("newdb", refof(db)), t)))
	ensures nothing: implies(err != nil, query == "")
	ensures text: implies(err == nil, let(T, rows("rows", 0, old(ghost_io), objres("newdb", refof(db)), tablesQ()), query == flatmapi(T, i, t, tableText(old(ghost_io), objres("newdb", refof(db)), t) + ite(i != len(T)-1, "\n", ""))))
{{end}}
