# Parsing: every parse function keeps the parser well-formed, reads on, ends, and answers a result or an error
pkg pkg/ddl/{{.dialect}}
termination
checkelems
cut
sealed Stmt = all
sealed Constraint = all
elems Stmt, Constraint, *Column, *ColumnIdent, *Ident{{if or (eq .dialect "mysql") (eq .dialect "spanner")}}, *Option{{end}}
nonnil CreateTableStmt.Name, CreateIndexStmt.Name, CreateIndexStmt.TableName, Column.Name, Column.DataType, ColumnIdent.Ident, ObjectName.Name, PrimaryKeyConstraint.Name, ForeignKeyConstraint.Name, UniqueConstraint.Name, IndexConstraint.Name, CheckConstraint.Name

def at(s string, i int) byte = ite(i >= len(s), 0, s[i])
# the parser holds two tokens; the lexer stands behind the second of them
def ok(p *Parser) bool = p.l != nil && p.l.position >= 0 && p.l.readPosition == p.l.position + 1 && p.l.ch == at(p.l.input, p.l.position) && (p.currentToken.Type == TOKEN_EOF || p.l.position <= len(p.l.input) + 2) && (p.peekToken.Type == TOKEN_EOF || p.l.position <= len(p.l.input) + 1)

func (*Lexer).NextToken(l) (tok)
	requires l != nil
	requires l.position >= 0
	requires l.ch == at(l.input, l.position)
	requires l.readPosition == l.position + 1
	modifies l.ch
	modifies l.position
	modifies l.readPosition
	ensures char: l.ch == at(l.input, l.position)
	ensures next: l.readPosition == l.position + 1
	ensures progress: l.position > old(l.position)
	ensures bound: tok.Type == TOKEN_EOF || l.position <= len(l.input) + 1
	ensures last: l.position <= old(l.position) + 1 || l.position <= len(l.input) + 1
{{define "state"}}	requires p != nil && ok(p)
	modifies p.currentToken
	modifies p.peekToken
	modifies p.l.ch
	modifies p.l.position
	modifies p.l.readPosition
	invariant p.l == old(p.l) && ok(p) && p.l.position >= old(p.l.position)
	decreases len(p.l.input) + 2 - p.l.position
	ensures state: ok(p)
	ensures back: p.l.position >= old(p.l.position)
{{end}}

func (*Parser).nextToken(p)
	ensures ahead: p.currentToken == old(p.peekToken)
{{template "state"}}	ensures progress: p.l.position > old(p.l.position)

func NewRawIdent(raw) (r)
	ensures made: r != nil

func NewObjectName(name) (r)
	ensures made: r != nil

func (*Ident).StringForDiff(i) (s)

func (*ObjectName).StringForDiff(t) (s)

func (*ColumnIdent).StringForDiff(i) (s)
	requires i != nil

func (*Parser).isCurrentToken(p, expectedTypes) (r)
	requires p != nil
	ensures found: r == exists(expectedTypes, t, t == p.currentToken.Type)

func (*Parser).isPeekToken(p, expectedTypes) (r)
	requires p != nil
	ensures found: r == exists(expectedTypes, t, t == p.peekToken.Type)

func (*Parser).checkCurrentToken(p, expectedTypes) (err)
	requires p != nil
	ensures found: (err == nil) == exists(expectedTypes, t, t == p.currentToken.Type)

func (*Parser).checkPeekToken(p, expectedTypes) (err)
	requires p != nil
	ensures found: (err == nil) == exists(expectedTypes, t, t == p.peekToken.Type)

func (*Parser).parseIdents(p) (ids, err)
{{template "state"}}
func (*Parser).parseColumnIdents(p) (ids, err)
{{template "state"}}	ensures progress: err != nil || p.l.position > old(p.l.position)

func (*Parser).parseExpr(p) (ids, err)
{{template "state"}}	ensures progress: err != nil || p.l.position > old(p.l.position)

func (*Parser).parseDataType(p) (t, err)
{{template "state"}}	ensures outcome: (err == nil) == (t != nil)

func (*Parser).parseColumnDefault(p) (d, err)
{{template "state"}}	ensures outcome: (err == nil) == (d != nil)
{{if eq .dialect "cockroachdb"}}
func (*Parser).parseColumnAs(p) (a, err)
{{template "state"}}	ensures outcome: (err == nil) == (a != nil)

func (*Parser).parseUsing(p) (u, err)
{{template "state"}}	ensures outcome: (err == nil) == (u != nil)
{{end}}{{if eq .dialect "mysql"}}
func (*Parser).parseOnAction(p) (s, err)
{{template "state"}}{{end}}
func (Constraints).Append(constraints, constraint) (r)
	requires constraint != nil && refof(constraint) != 0
	modifies elems(constraints)

func (*Parser).parseColumnConstraints(p, tableName, column) (cs, err)
	requires tableName != nil
	requires column != nil && column.Name != nil
{{template "state"}}
func (*Parser).parseTableConstraint(p, tableName) (k, err)
	requires tableName != nil
{{template "state"}}	ensures progress: err != nil || p.l.position > old(p.l.position)
	ensures outcome: (err == nil) == (k != nil)
	ensures solid: k == nil || refof(k) != 0

func (*Parser).parseColumn(p, tableName) (col, cs, err)
	requires tableName != nil
{{template "state"}}	ensures progress: err != nil || p.l.position > old(p.l.position)
	invariant p.l.position > old(p.l.position)
	ensures outcome: (err == nil) == (col != nil)

func (*Parser).parseCreateIndexStmt(p) (s, err)
{{template "state"}}	ensures outcome: (err == nil) == (s != nil)

func (*Parser).parseCreateTableStmt(p) (s, err)
{{template "state"}}	ensures outcome: (err == nil) == (s != nil)

func (*Parser).parseCreateStatement(p) (s, err)
{{template "state"}}	ensures outcome: (err == nil) == (s != nil)
	ensures solid: s == nil || refof(s) != 0

func NewParser(l) (p)
	ensures made: p != nil && p.l == l

func (*Parser).Parse(p) (d, err)
	requires p != nil && p.l != nil
	requires p.l.position == 0
	requires p.l.readPosition == 1
	requires p.l.ch == at(p.l.input, 0)
	modifies p.currentToken
	modifies p.peekToken
	modifies p.l.ch
	modifies p.l.position
	modifies p.l.readPosition
	invariant p.l == old(p.l) && ok(p)
	decreases len(p.l.input) + 2 - p.l.position
	ensures outcome: (err == nil) == (d != nil)
