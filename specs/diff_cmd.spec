# The diff command
pkg pkg/ddlctl/diff
termination
identify
effect load(_) = pkg/internal/config.Load
function dialect() = pkg/internal/config.Dialect
	requires loaded: ghost_io != old(ghost_io)
function language() = pkg/internal/config.Language
	requires loaded: ghost_io != old(ghost_io)
query isfile(name) = github.com/kunitsucom/util.go/os.IsFile
query exists(name) = github.com/kunitsucom/util.go/os.Exists
query read(name) = os.ReadFile
	ensures other: !errors.Is(err, ddl.ErrNoDifference)
query generate(_, w_out, src, dialect, language) = pkg/ddlctl/generate.Generate
	ensures other: !errors.Is(err, ddl.ErrNoDifference)
query show(_, dialect, dsn) = pkg/ddlctl/show.Show
	ensures other: !errors.Is(err, ddl.ErrNoDifference)
{{range $d := list "mysql" "postgres" "cockroachdb" "spanner"}}
function lexer_{{$d}}(text) = pkg/ddl/{{$d}}.NewLexer
function parser_{{$d}}(lexer) = pkg/ddl/{{$d}}.NewParser
function parse_{{$d}}(parser) = pkg/ddl/{{$d}}.(*Parser).Parse
	ensures other: !errors.Is(err, ddl.ErrNoDifference)
function diff_{{$d}}(before, after) = pkg/ddl/{{$d}}.Diff
function print_{{$d}}(d) = pkg/ddl/{{$d}}.(*DDL).String
{{end}}

# the text of one side: a file, generated from a directory, or shown from a database
def sideErr(h []int, arg string, d string, l string) bool = ite(boolres("isfile", h, arg), failed("read", h, arg), ite(boolres("exists", h, arg), failed("generate", h, arg, d, l), failed("show", h, d, arg)))
def side(h []int, arg string, d string, l string) string = ite(boolres("isfile", h, arg), bytesres("read", h, arg), ite(boolres("exists", h, arg), textof("generate", h, arg, d, l), strres("show", h, d, arg)))
def known(d string) bool = d == "spanner" || d == "postgres" || d == "cockroachdb" || d == "mysql"
{{range $d := list "mysql" "postgres" "cockroachdb" "spanner"}}
def p_{{$d}}(text string) int = refres("parser_{{$d}}", refres("lexer_{{$d}}", text))
def m_{{$d}}(a string, b string) int = refres("diff_{{$d}}", refres("parse_{{$d}}", p_{{$d}}(a)), refres("parse_{{$d}}", p_{{$d}}(b)))
def me_{{$d}}(a string, b string) error = errof("diff_{{$d}}", refres("parse_{{$d}}", p_{{$d}}(a)), refres("parse_{{$d}}", p_{{$d}}(b)))
{{end}}
def parseErr(d string, a string) bool = ite(d == "mysql", failed("parse_mysql", p_mysql(a)), ite(d == "postgres", failed("parse_postgres", p_postgres(a)), ite(d == "cockroachdb", failed("parse_cockroachdb", p_cockroachdb(a)), failed("parse_spanner", p_spanner(a)))))
def migErr(d string, a string, b string) error = ite(d == "mysql", me_mysql(a, b), ite(d == "postgres", me_postgres(a, b), ite(d == "cockroachdb", me_cockroachdb(a, b), me_spanner(a, b))))
def mig(d string, a string, b string) string = ite(d == "mysql", strres("print_mysql", m_mysql(a, b)), ite(d == "postgres", strres("print_postgres", m_postgres(a, b)), ite(d == "cockroachdb", strres("print_cockroachdb", m_cockroachdb(a, b)), strres("print_spanner", m_spanner(a, b)))))
def readable(h []int, d string, l string, src string, dst string) bool = !sideErr(h, src, d, l) && !sideErr(h, dst, d, l) && known(d) && !parseErr(d, side(h, src, d, l)) && !parseErr(d, side(h, dst, d, l))
def cmpErr(h []int, d string, l string, src string, dst string) error = migErr(d, side(h, src, d, l), side(h, dst, d, l))
def text(h []int, d string, l string, src string, dst string) string = mig(d, side(h, src, d, l), side(h, dst, d, l))

func Diff(ctx, out, dialect, language, src, dst) (err)
	requires out != nil && !ghost_wfail
	ensures failure: implies(!readable(old(ghost_io), dialect, language, src, dst) || cmpErr(old(ghost_io), dialect, language, src, dst) != nil, err != nil && ghost_out == old(ghost_out))
	ensures output: implies(readable(old(ghost_io), dialect, language, src, dst) && cmpErr(old(ghost_io), dialect, language, src, dst) == nil, (err == nil) == !ghost_wfail && implies(err == nil, ghost_out == old(ghost_out) + text(old(ghost_io), dialect, language, src, dst)))
	ensures unread: implies(!readable(old(ghost_io), dialect, language, src, dst), !errors.Is(err, ddl.ErrNoDifference))
	ensures same: implies(readable(old(ghost_io), dialect, language, src, dst) && cmpErr(old(ghost_io), dialect, language, src, dst) != nil, errors.Is(err, ddl.ErrNoDifference) == errors.Is(cmpErr(old(ghost_io), dialect, language, src, dst), ddl.ErrNoDifference))

def loaded(h []int) []int = cat(h, event("load"))
def cmd_d() string = strres("dialect")
def cmd_l() string = strres("language")

func Command(ctx, args) (err)
	requires !ghost_wfail
	ensures config: implies(failed("load", old(ghost_io)) || len(args) != 2, err != nil && ghost_out == old(ghost_out))
	ensures failure: implies(!failed("load", old(ghost_io)) && len(args) == 2 && !readable(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1]), err != nil && ghost_out == old(ghost_out))
	ensures same: implies(!failed("load", old(ghost_io)) && len(args) == 2 && readable(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1]), let(e, cmpErr(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1]), implies(e != nil, (err == nil) == errors.Is(e, ddl.ErrNoDifference) && ghost_out == old(ghost_out))))
	ensures output: implies(!failed("load", old(ghost_io)) && len(args) == 2 && readable(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1]) && cmpErr(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1]) == nil, (err == nil) == !ghost_wfail && implies(err == nil, ghost_out == old(ghost_out) + text(loaded(old(ghost_io)), cmd_d(), cmd_l(), args[0], args[1])))
