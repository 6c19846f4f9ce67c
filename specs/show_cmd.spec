# The show command
pkg pkg/ddlctl/show
termination
identify
effect load(_) = pkg/internal/config.Load
function dialect() = pkg/internal/config.Dialect
	requires loaded: ghost_io != old(ghost_io)
effect open(_, driver, dsn) = github.com/kunitsucom/util.go/database/sql.OpenContext
effect close(db) = database/sql.(*DB).Close, database/sql.(*Conn).Close
query mysql(_, obj_db, no_opts) = pkg/show/mysql.ShowCreateAllTables
	requires plain: len(no_opts) == 0
query postgres(_, obj_db, no_opts) = pkg/show/postgres.ShowCreateAllTables
	requires plain: len(no_opts) == 0
query cockroachdb(_, obj_db) = pkg/show/cockroachdb.ShowCreateAllTables
query spanner(_, obj_db, no_opts) = pkg/show/spanner.ShowCreateAllTables
	requires plain: len(no_opts) == 0

def driver(dialect string) string = ite(dialect == "cockroachdb", "postgres", dialect)
def known(dialect string) bool = dialect == "spanner" || dialect == "postgres" || dialect == "cockroachdb" || dialect == "mysql"
def opened(h []int, d string, dsn string) []int = cat(h, event("open", driver(d), dsn))
def dbOf(h []int, d string, dsn string) int = refres("open", h, driver(d), dsn)
def text(h []int, d string, db int) string = ite(d == "spanner", strres("spanner", h, db), ite(d == "mysql", strres("mysql", h, db), ite(d == "postgres", strres("postgres", h, db), strres("cockroachdb", h, db))))
def bad(h []int, d string, db int) bool = ite(d == "spanner", failed("spanner", h, db), ite(d == "mysql", failed("mysql", h, db), ite(d == "postgres", failed("postgres", h, db), failed("cockroachdb", h, db))))
def loaded(h []int) []int = cat(h, event("load"))
# the database was opened, read and closed
def showOK(h []int, d string, dsn string) bool = !failed("open", h, driver(d), dsn) && known(d) && !bad(opened(h, d, dsn), d, dbOf(h, d, dsn)) && !failed("close", opened(h, d, dsn), dbOf(h, d, dsn))
def shown(h []int, d string, dsn string) string = text(opened(h, d, dsn), d, dbOf(h, d, dsn))
def showEvents(h []int, d string, dsn string) []int = ite(failed("open", h, driver(d), dsn), opened(h, d, dsn), cat(opened(h, d, dsn), event("close", dbOf(h, d, dsn))))

func Show(ctx, dialect, dsn) (ddl, err)
	ensures outcome: (err == nil) == showOK(old(ghost_io), dialect, dsn)
	ensures closed: ghost_io == showEvents(old(ghost_io), dialect, dsn)
	ensures text: implies(err == nil, ddl == shown(old(ghost_io), dialect, dsn))

func Command(ctx, args) (err)
	requires !ghost_wfail
	ensures config: implies(failed("load", old(ghost_io)), err != nil && ghost_out == old(ghost_out) && ghost_io == loaded(old(ghost_io)))
	ensures usage: implies(len(args) != 1, err != nil && ghost_out == old(ghost_out) && ghost_io == loaded(old(ghost_io)))
	ensures failure: implies(!failed("load", old(ghost_io)) && len(args) == 1 && !showOK(loaded(old(ghost_io)), strres("dialect"), args[0]), err != nil && ghost_out == old(ghost_out))
	ensures output: implies(!failed("load", old(ghost_io)) && len(args) == 1 && showOK(loaded(old(ghost_io)), strres("dialect"), args[0]), (err == nil) == !ghost_wfail && implies(err == nil, ghost_out == old(ghost_out) + shown(loaded(old(ghost_io)), strres("dialect"), args[0])))
