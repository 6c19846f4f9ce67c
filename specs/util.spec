# Preparing DDL text: comments and blank lines
pkg pkg/internal/util
termination
identify

# the quote character open at byte i of a line, 0 outside quotes
def quoteAt(line string, i int) byte = foldn(i, k, q, 0, ite(q != 0, ite(line[k] == q, 0, q), ite(line[k] == '\'' || line[k] == '"' || line[k] == '`', line[k], 0)))

# where a comment starts: the first occurrence of the prefix outside quotes
def commentAt(prefix string, line string) int = count(i, len(line), quoteAt(line, i) == 0 && line[i] != '\'' && line[i] != '"' && line[i] != '`' && strings.HasPrefix(line[i:], prefix))

func indexComment(prefix, line) (r)
	ensures comment: r == let(i, commentAt(prefix, line), ite(i < len(line), i, -1))

def stripped(prefix string, line string) string = let(i, commentAt(prefix, line), ite(i < len(line), strings.TrimSpace(line[:i]), line))

def ended(line string) string = ite(line == "", "", line + "\n")

func RemoveCommentsAndEmptyLines(prefix, input) (r)
	ensures lines: r == flatmap(textlines(input), l, ite(strings.HasPrefix(strings.TrimSpace(l), prefix), "", ended(stripped(prefix, l))))
