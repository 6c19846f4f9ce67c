# The generate command
pkg pkg/ddlctl/generate
termination
identify
purefn path/filepath.Join
effect load(_) = pkg/internal/config.Load
function dialect() = pkg/internal/config.Dialect
	requires loaded: ghost_io != old(ghost_io)
function language() = pkg/internal/config.Language
	requires loaded: ghost_io != old(ghost_io)
query stat(name) = os.Stat
function isdir(info) = invoke:IsDir
query parse(_, src) = pkg/internal/lang/go.Parse
query spanner(w_out, ddl) = pkg/internal/generator/dialect/spanner.Fprint
query postgres(w_out, ddl) = pkg/internal/generator/dialect/postgres.Fprint
query mysql(w_out, ddl) = pkg/internal/generator/dialect/mysql.Fprint
effect write(name, data, _) = os.WriteFile

def known(dialect string) bool = dialect == "spanner" || dialect == "postgres" || dialect == "cockroachdb" || dialect == "mysql"
def text(h []int, dialect string, ddl int) string = ite(dialect == "spanner", textof("spanner", h, ddl), ite(dialect == "mysql", textof("mysql", h, ddl), textof("postgres", h, ddl)))
def printErr(h []int, dialect string, ddl int) error = ite(dialect == "spanner", errof("spanner", h, ddl), ite(dialect == "mysql", errof("mysql", h, ddl), errof("postgres", h, ddl)))
def good(h []int, src string, dialect string, language string) bool = language == "go" && !failed("parse", h, src) && known(dialect) && printErr(h, dialect, refres("parse", h, src)) == nil
def written(h []int, src string, dialect string) string = text(h, dialect, refres("parse", h, src))
def loaded(h []int) []int = cat(h, event("load"))
def isDir(h []int, name string) bool = !failed("stat", h, name) && boolres("isdir", objres("stat", h, name))

func Command(ctx, args) (err)
	ensures config: implies(failed("load", old(ghost_io)), err != nil && ghost_io == loaded(old(ghost_io)))
	ensures usage: implies(len(args) != 2, err != nil && ghost_io == loaded(old(ghost_io)))
	ensures failure: implies(!failed("load", old(ghost_io)) && len(args) == 2 && !good(loaded(old(ghost_io)), args[0], strres("dialect"), strres("language")), err != nil && ghost_io == loaded(old(ghost_io)))
	ensures output: implies(!failed("load", old(ghost_io)) && len(args) == 2 && good(loaded(old(ghost_io)), args[0], strres("dialect"), strres("language")), let(h, loaded(old(ghost_io)), let(name, ite(isDir(h, args[1]), filepath.Join(args[1], "ddlctl.gen.sql"), args[1]), let(b, bytes(written(h, args[0], strres("dialect"))), ghost_io == cat(h, event("write", name, b)) && (err == nil) == !failed("write", h, name, b)))))

