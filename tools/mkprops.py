import json
D=["postgres","cockroachdb","mysql","spanner"]
def f(pat): return ["pkg/ddl/%s/%s"%(d,pat) for d in D]
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=state or [],observe_at=obs or [],hook_needed=None)))
p("C01","Tokenising DDL text is total and loses nothing",
 "For every input text and each of the four dialects, reading tokens one after another never crashes, always makes progress and ends with an end-of-input token. Every token carries exactly the stretch of input it stands for, and whatever lies between two consecutive tokens is only whitespace or a comment that runs to the end of its line, so no part of the input is dropped, altered or reported twice. A word is classified as a keyword by its spelling regardless of letter case, and a quote opens a single token that reaches to the matching closing quote.",
 ["inputs"],"all byte strings given as DDL text, all four dialects","The unit tests lex a few dozen hand-written statements; unterminated quotes, control bytes, comments at the end of input and rare operators are unsampled.",
 f("lexar.go"),[("Lexer.NextToken and its readers","pkg/ddl/*/lexar.go"),("lookupIdent","pkg/ddl/*/lexar.go")])
p("C02","Parsing DDL text is total and yields a result or an error",
 "For every input text and each of the four dialects, parsing terminates without crashing and returns either a parsed document with a nil error or no document with a non-nil error. A returned document contains only complete statements: every table, index, column and constraint has a name, every column has a data type, and lists contain no missing entries.",
 ["inputs"],"all token sequences a DDL text can produce, all four dialects","Tests parse well-formed samples and a list of specific malformed ones; truncation or an odd token at every other grammar position is not sampled.",
 f("parser.go"),[("Parser.Parse and the recursive-descent functions","pkg/ddl/*/parser.go"),("checkCurrentToken/checkPeekToken","pkg/ddl/*/parser.go")])
p("C03","Parsed statements contain exactly what the text says, in order",
 "When parsing succeeds, the document holds the statements of the text in order, each table its columns in order, and every list of identifiers, expression or type argument the tokens of the text in order, with none dropped, added or reordered. Flags such as IF NOT EXISTS, UNIQUE and NOT NULL are set exactly when the text says so, unnamed constraints receive the dialect's default name built from table and column names, and a constraint that repeats an earlier name replaces the earlier one in place while all others are kept.",
 ["inputs"],"all DDL texts the parser accepts, all four dialects","Tests compare a handful of parsed samples; list lengths, flag combinations and nesting are unbounded.",
 f("parser.go")+f("ddl_table.go"),[("parseColumnIdents/parseIdents/parseExpr/parseDataType/parseColumn","pkg/ddl/*/parser.go"),("Constraints.Append","pkg/ddl/*/ddl_table.go")])
p("C04","A schema diff creates, drops and alters exactly the right objects",
 "Given two parsed schemas of one dialect, the migration first drops exactly the tables and indexes found only in the first, then creates exactly those found only in the second, then handles the objects present in both, in the order of the first schema. Objects correspond when they have the same kind and the same unquoted name; a table present in both contributes exactly its table-level changes, and an index present in both is dropped and recreated exactly when its definition differs, with a comment that shows the old and the new definition.",
 ["inputs"],"all pairs of well-formed parsed schemas, all four dialects","Tests compare a few hand-written schema pairs; the number, order and overlap of objects is unbounded.",
 f("diff.go"),[("Diff, onlyLeftStmt, findStmtByTypeAndName","pkg/ddl/*/diff.go")])
p("C05","Column changes are migrated exactly",
 "For a table present in both schemas, the migration drops exactly the columns that exist only before, adds exactly those that exist only after with their new definition, and for every column in both emits the dialect's change for each aspect that differs (data type, default, nullability and the dialect's further attributes) and none for aspects that are equal. Every emitted change names the right column and table, carries the new definition and shows the old and the new text as its comment; only a hidden virtual column, which the database maintains itself, is not dropped.",
 ["inputs"],"all pairs of well-formed table definitions, all four dialects","Tests sample single-column changes; combinations over several columns and attributes are unbounded.",
 f("diff_create_table.go"),[("diffCreateTableColumn, onlyLeftColumn, findColumnByName","pkg/ddl/*/diff_create_table.go")])
p("C06","Constraint and table-option changes are migrated exactly and in order",
 "For a table present in both schemas, constraints found only before are dropped before any column changes, constraints in both whose definition differs are dropped and re-added with the new definition after the column changes, and constraints found only after are added last; equal constraints produce nothing. Where a dialect has table options (the auto-increment counter excepted), row-deletion policies or in-table indexes, added and changed ones are migrated with the same exactness, each change shows the old and the new text as its comment, and a renamed table is renamed first.",
 ["inputs"],"all pairs of well-formed table definitions, all four dialects","Tests sample one constraint change at a time; combinations and ordering across constraints, columns and options are unbounded.",
 f("diff_create_table.go"),[("DiffCreateTable, findConstraintByName, onlyLeftConstraint","pkg/ddl/*/diff_create_table.go")])
p("C07","No difference is reported exactly when there is nothing to do",
 "Comparing two schemas returns either a migration and no error, or no migration and an error, and between two present schemas a migration has at least one statement. The error is the no-difference error when both schemas are absent, when they are equal or print the same text, and when no object, column, constraint or option differs; a missing first schema yields all of the second's statements in order, and a missing second schema yields one drop per object of the first, in order.",
 ["inputs"],"all pairs of schemas including absent ones, all four dialects","Tests cover a few nil/equal combinations; the claim is about every pair.",
 f("diff.go")+f("diff_create_table.go"),[("Diff and DiffCreateTable switch on nil/equal","pkg/ddl/*/diff.go"),("len(result.Stmts)==0 check","pkg/ddl/*/diff.go")])
p("C08","Comparing schemas does not modify them and never crashes",
 "Computing the difference of any two well-formed schemas never crashes and leaves both schemas exactly as they were: no statement, column, constraint, option or name of either input is changed, reordered or overwritten.",
 ["inputs","histories"],"all pairs of well-formed schemas; any later use of the inputs","Tests look only at the returned migration, not at the inputs afterwards, and only for sampled pairs.",
 f("diff.go")+f("diff_create_table.go")+f("ddl_table.go"),[("fresh result objects","pkg/ddl/*/diff_create_table.go")])
p("C09","Statements print completely and in order",
 "Printing a statement yields SQL text containing every column, constraint, option and clause of the statement exactly once, in order, separated and terminated so that adjacent items cannot run together, and clauses that are absent leave no trace. Printing a document is the concatenation of its statements in order, comment lines are each prefixed as comments, and printing never crashes on a well-formed statement and never changes it.",
 ["inputs"],"all well-formed statements and alter actions, all four dialects","Tests print sampled statements; list lengths and clause combinations are unbounded.",
 f("ddl.go")+f("ddl_table.go")+f("ddl_table_create.go")+f("ddl_table_alter.go")+f("ddl_table_drop.go")+f("ddl_index_create.go")+f("ddl_index_drop.go"),[("String methods","pkg/ddl/*/ddl*.go")])
p("C10","Apply runs only what was shown and approved",
 "The apply command executes statements only if computing the difference succeeded and either auto-approve is set or the user's answer is exactly yes; otherwise nothing is executed. The text executed is exactly the text that was displayed, it is executed against the requested database once, and every failure to compare, prompt or execute is returned as an error.",
 ["inputs","configurations","fault_sequences"],"all inputs, answers, configurations and failures of the called operations","Tests drive a few mocked combinations; the claim ranges over every outcome of every step.",
 ["pkg/ddlctl/apply/ddlctl_apply.go"],[("Command, prompt, Apply","pkg/ddlctl/apply/ddlctl_apply.go")])
p("C11","Applied statements are executed completely, in order, and failures surface",
 "Executing a migration opens the requested database once and closes it on every path, and every failure to open, execute or close is returned as an error. For mysql, postgres and cockroachdb the non-empty statements of the comment-free text are sent in order, each once per round, a failing statement does not stop the round, and the whole list is sent again only after a round with a failure; the result is success exactly when the last round had no failure other than those tolerated for the dialect (MySQL 'already exists' and 'Duplicate column name'). For spanner the statements are sent in order between one START BATCH DDL and one RUN BATCH, stopping at the first failure. For any other driver the text is sent once, whole.",
 ["inputs","fault_sequences"],"all migration texts, all drivers and dialects, every failure position","Mock-based tests sample one or two statements and a single failure point.",
 ["pkg/ddlctl/apply/ddlctl_apply.go"],[("Apply and its exec helpers","pkg/ddlctl/apply/ddlctl_apply.go")])
p("C12","Preparing DDL text removes only comments and blank lines",
 "Removing comments and blank lines from a text drops exactly the lines that are empty or wholly comment and keeps every other line, in order and unchanged, except that a comment at the end of a line is removed together with the white space around what remains of that line. A comment marker inside a quoted string or identifier that was opened on the same line is not a comment, lines may be arbitrarily long, and every kept line ends with a newline.",
 ["inputs"],"all texts","One sample text in the tests; line counts, lengths and comment positions are unbounded.",
 ["pkg/internal/util/remove_comment.go"],[("RemoveCommentsAndEmptyLines","pkg/internal/util/remove_comment.go")])
p("C13","Generating from annotated Go sources covers every annotation",
 "Reading an annotated Go source yields one table definition per annotated struct, in source order, with one column per field that carries the column tag (in field order, skipping fields marked to be skipped), the tagged primary-key columns in order, and every annotated constraint, index and option in order with its comments. It never crashes on any syntactically valid Go source and reports an error for files it cannot read or parse.",
 ["inputs"],"all syntactically valid Go source files","Tests use a few fixture files; struct shapes, tags and comments are unbounded.",
 ["pkg/internal/lang/go/parse.go","pkg/internal/lang/go/extract_source.go"],[("parseFile","pkg/internal/lang/go/parse.go"),("extractDDLSourceFromDDLTagGo","pkg/internal/lang/go/extract_source.go")])
p("C14","Generated DDL text lists every element of the model in order",
 "For each dialect that can be generated, the text written for a model contains, in order, its header, every statement, and within a table every comment, column, the primary key when there is one, every constraint and every option, separated by commas exactly between elements. A failure to write is returned as an error.",
 ["inputs","fault_sequences"],"all generator models, all supported dialects, any failing writer","Tests render one sample per dialect.",
 ["pkg/internal/generator/dialect/mysql/","pkg/internal/generator/dialect/postgres/","pkg/internal/generator/dialect/spanner/"],[("Fprint functions","pkg/internal/generator/dialect/*/")])
p("C15","Show reports every object of the database or an error",
 "Showing a database returns the definition of every table (and index) row the database reported, in the order reported, and any failure to query, read or finish reading the rows is returned as an error instead of a partial result.",
 ["inputs","fault_sequences"],"all row sequences and every failure position","Mock tests use fixed rows and few failures.",
 ["pkg/show/"],[("ShowCreateAllTables","pkg/show/*/show_create_all_tables.go")])
p("C16","Commands reject bad usage and write nothing when they fail",
 "Every command returns an error for a wrong number of arguments, for a missing dialect or language and for one that is not supported, instead of crashing. A comparison writes its output only after both sides were read and compared successfully, in the dialect that was asked for, and writes exactly the computed migration.",
 ["inputs","configurations"],"all argument lists, dialect and language names","Tests sample some dialects and argument counts.",
 ["pkg/ddlctl/diff/ddlctl_diff.go","pkg/ddlctl/generate/ddlctl_generate.go","pkg/ddlctl/show/ddlctl_show.go","pkg/internal/generator/ddl.go"],[("Command functions and dialect switches","pkg/ddlctl/*/")])
with open("/verif/properties.jsonl","w") as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+"\n")
