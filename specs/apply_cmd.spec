# The apply command
pkg pkg/ddlctl/apply
termination
identify
purefn pkg/internal/config.Dialect, pkg/internal/config.Language, pkg/internal/config.AutoApprove
effect load(_) = pkg/internal/config.Load
effect diff(_, w_out, dialect, language, left, right) = pkg/ddlctl/diff.Diff
# executing needs approval, and the text must have been shown
effect apply(_, dialect, dsn, ddlStr) = pkg/ddlctl/apply.Apply
	requires approved: config.AutoApprove() || ghost_answer == "yes"
	requires shown: within(ghost_out, ddlStr)

def loaded(h []int) []int = cat(h, event("load"))
def compared(h []int, l string, r string) []int = cat(loaded(h), event("diff", config.Dialect(), config.Language(), l, r))
def textOf(h []int, l string, r string) string = textof("diff", loaded(h), config.Dialect(), config.Language(), l, r)
def diffErr(h []int, l string, r string) error = errof("diff", loaded(h), config.Dialect(), config.Language(), l, r)



func Command(ctx, args) (err)
	requires ghost_answer == "" && !ghost_wfail
	ensures config: implies(failed("load", old(ghost_io)), err != nil && ghost_io == loaded(old(ghost_io)))
	ensures usage: implies(len(args) != 2, err != nil && ghost_io == loaded(old(ghost_io)))
	# a failed comparison is an error, no difference is none; nothing is executed
	ensures compare: implies(!failed("load", old(ghost_io)) && len(args) == 2 && diffErr(old(ghost_io), args[0], args[1]) != nil, (err == nil) == errors.Is(diffErr(old(ghost_io), args[0], args[1]), ddl.ErrNoDifference) && ghost_io == compared(old(ghost_io), args[0], args[1]))
	# afterwards the text is applied once, unless it could not be shown or was not approved, which is an error
	ensures executed: implies(!failed("load", old(ghost_io)) && len(args) == 2 && diffErr(old(ghost_io), args[0], args[1]) == nil, let(d, compared(old(ghost_io), args[0], args[1]), let(text, textOf(old(ghost_io), args[0], args[1]), let(p, ite(config.AutoApprove(), d, cat(d, event("scan", os.Stdin))), (ghost_io == d && err != nil && ghost_wfail) || (ghost_io == p && err != nil && (ghost_wfail || (!config.AutoApprove() && ghost_answer != "yes"))) || (ghost_io == cat(p, event("apply", config.Dialect(), args[0], text)) && (err == nil) == !failed("apply", p, config.Dialect(), args[0], text))))))
