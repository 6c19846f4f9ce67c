# Executing a migration
pkg pkg/ddlctl/apply
termination
identify
purefn pkg/internal/util.RemoveCommentsAndEmptyLines
effect open(_, driver, dsn) = github.com/kunitsucom/util.go/database/sql.OpenContext
effect conn(db, _) = database/sql.(*DB).Conn
effect exec(db, _, query, args) = database/sql.(*DB).ExecContext, database/sql.(*Conn).ExecContext, invoke:ExecContext
effect close(db) = database/sql.(*DB).Close, database/sql.(*Conn).Close

def driver(dialect string) string = ite(dialect == "cockroachdb", "postgres", dialect)
def opened(h []int, d string, dsn string) []int = cat(h, event("open", driver(d), dsn))
def dbOf(h []int, d string, dsn string) int = refres("open", h, driver(d), dsn)

# statement by statement: every statement of the text once per round
def stmts(text string) []string = split(util.RemoveCommentsAndEmptyLines("--", text), ";\n")
def sentTo(db int, qs []string, n int) []int = repeat(i, n, ite(qs[i] == "", content([]int{}), event("exec", db, qs[i], nil)))
def sent(db int, qs []string) []int = sentTo(db, qs, len(qs))
def tolerated(d string, e error) bool = d == "mysql" && (errcontains(e, "already exists") || errcontains(e, "Duplicate column name"))
# the first statement of a round after h that fails
def badAt(h []int, d string, db int, qs []string) int = indexi(qs, k, q, q != "" && let(e, errof("exec", cat(h, sentTo(db, qs, k)), db, q, nil), e != nil && !tolerated(d, e)))
# history before the last round
def rounds(h []int, db int, qs []string) []int = cat(h, repeat(i, retried(h, sent(db, qs)), sent(db, qs)))
def ran(h []int, db int, qs []string) []int = ite(notrun(h, sent(db, qs)), h, cat(rounds(h, db, qs), sent(db, qs)))
def okRun(h []int, d string, db int, qs []string) bool = !notrun(h, sent(db, qs)) && badAt(rounds(h, db, qs), d, db, qs) == len(qs)

# the batch of a dialect that sends its changes in one
def batch(text string) []string = split(removecomments(text, "--"), ";\n")
def started(h []int, cn int) []int = cat(h, event("exec", cn, "START BATCH DDL", nil))
def failAt(h []int, cn int, qs []string) int = indexi(qs, k, q, q != "" && failed("exec", cat(started(h, cn), sentTo(cn, qs, k)), cn, q, nil))
def batchEvents(h []int, cn int, qs []string) []int = let(k, failAt(h, cn, qs), ite(failed("exec", h, cn, "START BATCH DDL", nil), event("exec", cn, "START BATCH DDL", nil),
		ite(k < len(qs), cat(event("exec", cn, "START BATCH DDL", nil), sentTo(cn, qs, k), event("exec", cn, qs[k], nil)), cat(event("exec", cn, "START BATCH DDL", nil), sent(cn, qs), event("exec", cn, "RUN BATCH", nil)))))
def batchOK(h []int, cn int, qs []string) bool = !failed("exec", h, cn, "START BATCH DDL", nil) && failAt(h, cn, qs) == len(qs) && !failed("exec", cat(started(h, cn), sent(cn, qs)), cn, "RUN BATCH", nil)

def byStatement(d string) bool = driver(d) == "mysql" || driver(d) == "postgres"


func Apply(ctx, dialect, dsn, ddlStr) (err)
	ensures open: implies(failed("open", old(ghost_io), driver(dialect), dsn), err != nil && ghost_io == opened(old(ghost_io), dialect, dsn))
	ensures statements: implies(!failed("open", old(ghost_io), driver(dialect), dsn) && byStatement(dialect), let(h, opened(old(ghost_io), dialect, dsn), let(db, dbOf(old(ghost_io), dialect, dsn), let(r, ran(h, db, stmts(ddlStr)), ghost_io == cat(r, event("close", db)) && (err == nil) == (okRun(h, dialect, db, stmts(ddlStr)) && !failed("close", r, db))))))
	ensures batch: implies(!failed("open", old(ghost_io), driver(dialect), dsn) && dialect == "spanner", let(h, opened(old(ghost_io), dialect, dsn), let(db, dbOf(old(ghost_io), dialect, dsn), let(hc, cat(h, event("conn", db)), ite(failed("conn", h, db), err != nil && ghost_io == cat(hc, event("close", db)), let(cn, refres("conn", h, db), let(qs, batch(ddlStr), let(r, cat(hc, batchEvents(hc, cn, qs)), ghost_io == cat(r, event("close", cn), event("close", db)) && (err == nil) == (batchOK(hc, cn, qs) && !failed("close", r, cn) && !failed("close", cat(r, event("close", cn)), db))))))))))
	ensures other: implies(!failed("open", old(ghost_io), driver(dialect), dsn) && !byStatement(dialect) && dialect != "spanner", let(h, opened(old(ghost_io), dialect, dsn), let(db, dbOf(old(ghost_io), dialect, dsn), let(r, cat(h, event("exec", db, ddlStr, nil)), ghost_io == cat(r, event("close", db)) && (err == nil) == (!failed("exec", h, db, ddlStr, nil) && !failed("close", r, db))))))
