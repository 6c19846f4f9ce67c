# Tokenising: every token is the next stretch of the input after white space and comments
pkg pkg/ddl/{{.dialect}}
termination
frame

def at(s string, i int) byte = ite(i >= len(s), 0, s[i])
def blank(c byte) bool = c == ' ' || c == '\t' || c == '\n' || c == '\r'
def word(c byte) bool = 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_' || c == '.'
def quote(c byte) bool = c == '"' || c == '\''{{if or (eq .dialect "mysql") (eq .dialect "spanner")}} || c == '`'{{end}}

# the first position from p on that holds no white space
def dark(s string, p int) int = p + count(k, inf, !blank(at(s, p + k)))
# the end of the line that position p is on
def lineEnd(s string, p int) int = p + count(k, inf, at(s, p + k) == '\n' || p + k >= len(s))
def comment(s string, p int) bool = at(s, p) == '-' && at(s, p + 1) == '-'
# after comments that run to the end of their line, and the white space that follows them
recursive def after(s string, q int) int = ite(comment(s, q), after(s, dark(s, lineEnd(s, q))), q)
# where the next token starts
def start(s string, p int) int = after(s, dark(s, p))

def wordEnd(s string, q int) int = q + count(k, inf, !word(at(s, q + k)))
# the closing quote of a quoted token, the end of the input when there is none
def close(s string, q int) int = q + 1 + count(k, inf, q + 1 + k >= len(s) || at(s, q + 1 + k) == at(s, q))
def pair(s string, q int, c byte) bool = at(s, q) == c && at(s, q + 1) == c

# where the token that starts at q ends
def end(s string, q int) int = ite(quote(at(s, q)), close(s, q) + 1, ite(word(at(s, q)), wordEnd(s, q),
		{{if eq .dialect "cockroachdb"}}ite(pair(s, q, ':') && at(s, q + 2) == ':', q + 3, {{end}}{{if or (eq .dialect "postgres") (eq .dialect "cockroachdb")}}ite(pair(s, q, '|') || pair(s, q, ':'), q + 2, q + 1){{else}}q + 1{{end}}{{if eq .dialect "cockroachdb"}}){{end}}))

# the keywords of the dialect; other words are identifiers
opaque def kind(u string) string = {{if eq .dialect "postgres"}}ite(u == "INT", "INTEGER", ite(u == "VARCHAR", "VARYING", ite(u == "EQUAL" || u == "GREATER" || u == "LESS" || u == "CREATE" || u == "ALTER" || u == "DROP" || u == "RENAME" || u == "TRUNCATE" || u == "DELETE" || u == "UPDATE" || u == "TABLE" || u == "INDEX" || u == "VIEW" || u == "IF" || u == "EXISTS" || u == "USING" || u == "ON" || u == "TO" || u == "BOOLEAN" || u == "SMALLINT" || u == "INTEGER" || u == "BIGINT" || u == "DECIMAL" || u == "NUMERIC" || u == "REAL" || u == "DOUBLE" || u == "PRECISION" || u == "SMALLSERIAL" || u == "SERIAL" || u == "BIGSERIAL" || u == "UUID" || u == "JSONB" || u == "CHARACTER" || u == "VARYING" || u == "TEXT" || u == "TIMESTAMP" || u == "TIMESTAMPTZ" || u == "WITH" || u == "TIME" || u == "ZONE" || u == "DEFAULT" || u == "NOT" || u == "ASC" || u == "DESC" || u == "CASCADE" || u == "NO" || u == "ACTION" || u == "CONSTRAINT" || u == "PRIMARY" || u == "KEY" || u == "FOREIGN" || u == "REFERENCES" || u == "UNIQUE" || u == "CHECK" || u == "NULLIF" || u == "NULL" || u == "TRUE" || u == "FALSE", u, "IDENT"))){{end}}{{if eq .dialect "cockroachdb"}}ite(u == "BOOLEAN", "BOOL", ite(u == "SMALLINT", "INT2", ite(u == "INTEGER", "INT4", ite(u == "INT", "INT4", ite(u == "BIGINT", "INT8", ite(u == "TEXT", "STRING", ite(u == "EQUAL" || u == "GREATER" || u == "LESS" || u == "CREATE" || u == "ALTER" || u == "DROP" || u == "RENAME" || u == "TRUNCATE" || u == "DELETE" || u == "UPDATE" || u == "TABLE" || u == "INDEX" || u == "VIEW" || u == "IF" || u == "EXISTS" || u == "USING" || u == "ON" || u == "TO" || u == "BOOL" || u == "INT2" || u == "INT4" || u == "INT8" || u == "DECIMAL" || u == "NUMERIC" || u == "REAL" || u == "DOUBLE" || u == "PRECISION" || u == "FLOAT4" || u == "FLOAT8" || u == "SMALLSERIAL" || u == "SERIAL" || u == "BIGSERIAL" || u == "UUID" || u == "JSONB" || u == "CHARACTER" || u == "VARYING" || u == "VARCHAR" || u == "STRING" || u == "TIMESTAMP" || u == "TIMESTAMPTZ" || u == "WITH" || u == "TIME" || u == "ZONE" || u == "DEFAULT" || u == "NOT" || u == "VISIBLE" || u == "AS" || u == "ASC" || u == "DESC" || u == "CASCADE" || u == "NO" || u == "ACTION" || u == "STORED" || u == "VIRTUAL" || u == "CONSTRAINT" || u == "PRIMARY" || u == "KEY" || u == "FOREIGN" || u == "REFERENCES" || u == "UNIQUE" || u == "CHECK" || u == "NULLIF" || u == "NULL" || u == "TRUE" || u == "FALSE", u, "IDENT"))))))){{end}}{{if eq .dialect "mysql"}}ite(u == "INT", "INTEGER", ite(u == "EQUAL" || u == "GREATER" || u == "LESS" || u == "CREATE" || u == "ALTER" || u == "DROP" || u == "RENAME" || u == "TRUNCATE" || u == "TABLE" || u == "INDEX" || u == "VIEW" || u == "IF" || u == "EXISTS" || u == "USING" || u == "ON" || u == "UPDATE" || u == "DELETE" || u == "CASCADE" || u == "RESTRICT" || u == "NO" || u == "ACTION" || u == "TO" || u == "SET" || u == "BOOLEAN" || u == "BIT" || u == "TINYINT" || u == "SMALLINT" || u == "MEDIUMINT" || u == "INTEGER" || u == "BIGINT" || u == "DECIMAL" || u == "NUMERIC" || u == "REAL" || u == "DOUBLE" || u == "PRECISION" || u == "SMALLSERIAL" || u == "SERIAL" || u == "BIGSERIAL" || u == "JSON" || u == "CHAR" || u == "CHARACTER" || u == "VARYING" || u == "VARCHAR" || u == "TEXT" || u == "MEDIUMTEXT" || u == "LONGTEXT" || u == "TIMESTAMP" || u == "DATETIME" || u == "DATE" || u == "TIME" || u == "ENUM" || u == "DEFAULT" || u == "NOT" || u == "ASC" || u == "DESC" || u == "COMMENT" || u == "CONSTRAINT" || u == "PRIMARY" || u == "KEY" || u == "FOREIGN" || u == "REFERENCES" || u == "UNIQUE" || u == "CHECK" || u == "ENGINE" || u == "CHARSET" || u == "COLLATE" || u == "AUTO_INCREMENT" || u == "CURRENT_TIMESTAMP" || u == "NULLIF" || u == "NULL" || u == "TRUE" || u == "FALSE", u, "IDENT")){{end}}{{if eq .dialect "spanner"}}ite(u == "EQUAL" || u == "GREATER" || u == "LESS" || u == "CREATE" || u == "ALTER" || u == "DROP" || u == "RENAME" || u == "TRUNCATE" || u == "DELETE" || u == "UPDATE" || u == "TABLE" || u == "INDEX" || u == "VIEW" || u == "IF" || u == "EXISTS" || u == "USING" || u == "ON" || u == "TO" || u == "WITH" || u == "BOOL" || u == "INT64" || u == "FLOAT64" || u == "NUMERIC" || u == "JSON" || u == "STRING" || u == "BYTES" || u == "TIMESTAMP" || u == "DATE" || u == "ARRAY" || u == "STRUCT" || u == "DEFAULT" || u == "NOT" || u == "ASC" || u == "DESC" || u == "OPTIONS" || u == "INTERLEAVE" || u == "IN" || u == "PARENT" || u == "CASCADE" || u == "NO" || u == "ACTION" || u == "CONSTRAINT" || u == "PRIMARY" || u == "KEY" || u == "FOREIGN" || u == "REFERENCES" || u == "UNIQUE" || u == "CHECK" || u == "NULLIF" || u == "NULL" || u == "TRUE" || u == "FALSE" || u == "ROW" || u == "DELETION" || u == "POLICY" || u == "OLDER_THAN" || u == "INTERVAL" || u == "DAY", u, "IDENT"){{end}}

def symbol(c byte) string = ite(c == '(', "OPEN_PAREN", ite(c == ')', "CLOSE_PAREN", ite(c == ',', "COMMA", ite(c == ';', "SEMICOLON", ite(c == '=', "EQUAL", ite(c == '>', "GREATER", ite(c == '<', "LESS", ite(c == '+', "PLUS", ite(c == '-', "MINUS", ite(c == '*', "ASTERISK", ite(c == '/', "SLASH", "ILLEGAL")))))))))))
# the type of the token that starts at q
def class(s string, q int, e int) string = ite(q >= len(s), "EOF", ite(quote(at(s, q)), ite(e > len(s), "ILLEGAL", "IDENT"),
		ite(word(at(s, q)), kind(strings.ToUpper(s[q:e])), {{if or (eq .dialect "postgres") (eq .dialect "cockroachdb")}}ite(pair(s, q, '|'), "STRING_CONCAT", {{if eq .dialect "cockroachdb"}}ite(pair(s, q, ':') && at(s, q + 2) == ':', "TYPE_ANNOTATION", {{end}}ite(pair(s, q, ':'), "TYPECAST", symbol(at(s, q)))){{if eq .dialect "cockroachdb"}}){{end}}{{else}}symbol(at(s, q)){{end}})))

func lookupIdent(ident) (r)
	reveal kind
	ensures keyword: r == kind(strings.ToUpper(ident))

func NewLexer(input) (l)
	ensures nonnil: l != nil
	ensures input: l.input == input
	ensures position: l.position == 0 && l.readPosition == 1
	ensures char: l.ch == at(input, 0)

func (*Lexer).NextToken(l) (tok)
	requires l != nil
	requires l.position >= 0
	requires l.ch == at(l.input, l.position)
	requires l.readPosition == l.position + 1
	modifies l.ch
	modifies l.position
	modifies l.readPosition
	reveal after
	invariant l.readPosition == l.position + 1
	invariant l.ch == at(l.input, l.position)
	invariant l.position >= old(l.position)
	invariant l.position <= old(l.position) || l.position <= len(l.input)
	invariant after(l.input, l.position) == start(old(l.input), old(l.position))
	decreases len(l.input) - l.position
	ensures char: l.ch == at(l.input, l.position)
	ensures next: l.readPosition == l.position + 1
	ensures progress: l.position > old(l.position)
	ensures bound: tok.Type == TOKEN_EOF || l.position <= len(l.input) + 1
	ensures last: l.position <= old(l.position) + 1 || l.position <= len(l.input) + 1
	ensures end: l.position == let(q, start(l.input, old(l.position)), end(l.input, q))
	ensures literal: tok.Literal.Str == let(q, start(l.input, old(l.position)), ite(q >= len(l.input), "", l.input[q:ite(l.position > len(l.input), len(l.input), l.position)]))
	ensures type: tok.Type == class(l.input, start(l.input, old(l.position)), l.position)
