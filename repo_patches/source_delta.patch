From e580cfe92d26f55e1f125bf7d265e27c73b1ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 01/20] fix: DiffCreateTable no longer writes the schema into
 the caller's renamed table

---
 pkg/ddl/cockroachdb/diff_create_table.go | 9 ++++++---
 pkg/ddl/mysql/diff_create_table.go       | 9 ++++++---
 pkg/ddl/postgres/diff_create_table.go    | 9 ++++++---
 pkg/ddl/spanner/diff_create_table.go     | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..80c728c 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// MEMO: complement the schema on a copy so as not to modify the caller's statement.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..2f88dc6 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -60,12 +60,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// MEMO: complement the schema on a copy so as not to modify the caller's statement.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..478529e 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -59,12 +59,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// MEMO: complement the schema on a copy so as not to modify the caller's statement.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..65d272e 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -67,12 +67,15 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	if before.Name.StringForDiff() != after.Name.StringForDiff() {
 		// ALTER TABLE table_name RENAME TO new_table_name;
+		if after.Name.Schema == nil {
+			// MEMO: complement the schema on a copy so as not to modify the caller's statement.
+			renamed := *after
+			renamed.Name = &ObjectName{Schema: before.Name.Schema, Name: after.Name.Name}
+			after = &renamed
+		}
 		rename := &RenameTable{
 			NewName: after.Name,
 		}
-		if rename.NewName.Schema == nil {
-			rename.NewName.Schema = before.Name.Schema
-		}
 		result.Stmts = append(result.Stmts, &AlterTableStmt{
 			Comment: simplediff.Diff(before.Name.StringForDiff(), after.Name.StringForDiff()).String(),
 			Name:    before.Name,
-- 
2.43.0


From d90fd4a9a04b7ffabdc4767f046071d399e19d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 02/20] fix: DiffCreateTable reports no difference instead of
 crashing when both tables are absent

---
 pkg/ddl/cockroachdb/diff_create_table.go | 4 +++-
 pkg/ddl/mysql/diff_create_table.go       | 4 +++-
 pkg/ddl/postgres/diff_create_table.go    | 4 +++-
 pkg/ddl/spanner/diff_create_table.go     | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 80c728c..5e7d421 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -44,6 +44,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	result := &DDL{}
 
 	switch {
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
 	case before == nil && after != nil:
 		// CREATE TABLE table_name
 		result.Stmts = append(result.Stmts, after)
@@ -54,7 +56,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2f88dc6..95799da 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -44,6 +44,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	result := &DDL{}
 
 	switch {
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
 	case before == nil && after != nil:
 		// CREATE TABLE table_name
 		result.Stmts = append(result.Stmts, after)
@@ -54,7 +56,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 478529e..4b1211a 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -43,6 +43,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	result := &DDL{}
 
 	switch {
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
 	case before == nil && after != nil:
 		// CREATE TABLE table_name
 		result.Stmts = append(result.Stmts, after)
@@ -53,7 +55,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			Name: before.Name,
 		})
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 65d272e..3782519 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -42,6 +42,8 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 	result := &DDL{}
 
 	switch {
+	case before == nil && after == nil:
+		return nil, apperr.Errorf("before: nil, after: nil: %w", ddl.ErrNoDifference)
 	case before == nil && after != nil:
 		// CREATE TABLE table_name
 		result.Stmts = append(result.Stmts, after)
@@ -61,7 +63,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			after,
 		)
 		return result, nil
-	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
+	case reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, apperr.Errorf("before: %s, after: %s: %w", before.GetNameForDiff(), after.GetNameForDiff(), ddl.ErrNoDifference)
 	}
 
-- 
2.43.0


From c771cde102ed7f58b2b56ef48a0ecc555f069ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:31 +0000
Subject: [PATCH 03/20] fix: MySQL column migration keeps the character set of
 the new definition

---
 pkg/ddl/mysql/diff_create_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 95799da..08169b8 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -266,6 +266,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From 6d248a6e58cf84ef84b33adda7842aff76531931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 04/20] fix: MySQL foreign keys print and compare their ON
 DELETE and ON UPDATE actions

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
-- 
2.43.0


From 0bea04ab979527f8f17ba92efa761f04211e91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:09 +0000
Subject: [PATCH 05/20] fix: MySQL inline REFERENCES keeps both referential
 actions

---
 pkg/ddl/mysql/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..5e54173 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,7 +566,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 9af818a0fdbfd396bfc3d68f91b67fad9958f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 06/20] fix: appending a constraint keeps the order of the
 others

sort.Slice is not stable: with more than twelve constraints in a table the
ones after the primary key came out in another order than written.
---
 pkg/ddl/cockroachdb/ddl_table.go | 9 +++++----
 pkg/ddl/mysql/ddl_table.go       | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..790f660 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -28,10 +28,11 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	}
 	constraints = append(constraints, constraint)
 
-	sort.Slice(constraints, func(left, _ int) bool { //diff:ignore-line-postgres-cockroach
-		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
-		switch {                                                                   //diff:ignore-line-postgres-cockroach
-		case leftIsPrimaryKeyConstraint: //diff:ignore-line-postgres-cockroach
+	sort.SliceStable(constraints, func(left, right int) bool { //diff:ignore-line-postgres-cockroach
+		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint)   //diff:ignore-line-postgres-cockroach
+		_, rightIsPrimaryKeyConstraint := constraints[right].(*PrimaryKeyConstraint) //diff:ignore-line-postgres-cockroach
+		switch {                                                                     //diff:ignore-line-postgres-cockroach
+		case leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint: //diff:ignore-line-postgres-cockroach
 			return true //diff:ignore-line-postgres-cockroach
 		default: //diff:ignore-line-postgres-cockroach
 			return false //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..7bdf0bc 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -28,10 +28,11 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	}
 	constraints = append(constraints, constraint)
 
-	sort.Slice(constraints, func(left, _ int) bool {
+	sort.SliceStable(constraints, func(left, right int) bool {
 		_, leftIsPrimaryKeyConstraint := constraints[left].(*PrimaryKeyConstraint)
+		_, rightIsPrimaryKeyConstraint := constraints[right].(*PrimaryKeyConstraint)
 		switch {
-		case leftIsPrimaryKeyConstraint:
+		case leftIsPrimaryKeyConstraint && !rightIsPrimaryKeyConstraint:
 			return true
 		default:
 			return false
-- 
2.43.0


From 3a33b0c26e9bf6f96bf57fe129943cd12c7fa4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 07/20] fix: keep long lines and quoted comment markers when
 removing comments from DDL

bufio.Scanner stops at a line longer than 64 KiB, so the rest of the DDL text was silently dropped, and a comment marker inside a quoted literal or identifier cut the statement short.
---
 pkg/internal/util/remove_comment.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
index bcfb28e..8959178 100644
--- a/pkg/internal/util/remove_comment.go
+++ b/pkg/internal/util/remove_comment.go
@@ -8,6 +8,7 @@ import (
 func RemoveCommentsAndEmptyLines(prefix, input string) string {
 	var result strings.Builder
 	scanner := bufio.NewScanner(strings.NewReader(input))
+	scanner.Buffer(nil, len(input)+1) // a line may be as long as the input
 
 	for scanner.Scan() {
 		line := scanner.Text()
@@ -19,7 +20,7 @@ func RemoveCommentsAndEmptyLines(prefix, input string) string {
 		}
 
 		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
+		if idx := indexComment(prefix, line); idx != -1 {
 			line = strings.TrimSpace(line[:idx])
 		}
 
@@ -32,3 +33,21 @@ func RemoveCommentsAndEmptyLines(prefix, input string) string {
 
 	return result.String()
 }
+
+// indexComment returns the index of the first prefix in line that is not inside a quoted literal or identifier.
+func indexComment(prefix, line string) int {
+	var quote byte
+	for i := 0; i < len(line); i++ {
+		switch c := line[i]; {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"' || c == '`':
+			quote = c
+		case strings.HasPrefix(line[i:], prefix):
+			return i
+		}
+	}
+	return -1
+}
-- 
2.43.0


From 8599880245e507ea75b7177237d17f48f4ad09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 08/20] fix: reject a wrong number of arguments of generate and
 show instead of crashing

---
 pkg/apperr/errors.go                   | 1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 5 +++++
 pkg/ddlctl/show/ddlctl_show.go         | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..50e9e02 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -22,6 +22,11 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From 269578f8ce14f55452894aec153db0606bcc8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 09/20] fix: generate the whole DDL before truncating the
 destination file

---
 pkg/ddlctl/generate/ddlctl_generate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index 50e9e02..ab2c4fe 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	crdbddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
@@ -41,14 +42,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// Generate everything before the destination is truncated, so that a failure leaves it as it was.
+	buf := new(strings.Builder)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, []byte(buf.String()), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
-- 
2.43.0


From bf88df64bbe7dc430e973534bbf1c968687f470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 10/20] fix: return failures to close the database after
 applying DDL

The deferred closes assigned to a local variable, so their errors never reached the caller.
---
 pkg/ddlctl/apply/ddlctl_apply.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..c8b32da 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -93,7 +93,7 @@ Enter a value: `
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
+func Apply(ctx context.Context, dialect, dsn, ddlStr string) (err error) {
 	driverName := func() string {
 		switch dialect {
 		case ddlcrdb.Dialect:
@@ -137,9 +137,9 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 			return apperr.Errorf("splitExec: %w", err)
 		}
 	case ddlspanner.DriverName:
-		conn, err := db.Conn(ctx)
-		if err != nil {
-			return apperr.Errorf("db.Conn: %w", err)
+		conn, connErr := db.Conn(ctx)
+		if connErr != nil {
+			return apperr.Errorf("db.Conn: %w", connErr)
 		}
 		defer func() {
 			if err2 := conn.Close(); err == nil && err2 != nil {
-- 
2.43.0


From db595c2891981368f1d0eea783292a65b015d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:15 +0000
Subject: [PATCH 11/20] fix: show each spanner index with its own columns only

---
 pkg/show/spanner/show_create_all_tables.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..b358530 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -128,8 +128,10 @@ INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
     i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
     i.TABLE_NAME = ? 
+    AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
 ORDER BY
@@ -268,7 +270,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
-- 
2.43.0


From a23ea3350484f422f4a8418d2bb00a33618ac405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:15 +0000
Subject: [PATCH 12/20] fix: keep descending key and index columns when showing
 spanner tables

---
 pkg/show/spanner/show_create_all_tables.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index b358530..5016f5c 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -150,6 +150,9 @@ type informationSchemaIndex struct {
 	OrdinalPosition int    `db:"ORDINAL_POSITION"`
 }
 
+// orderingDesc is the COLUMN_ORDERING of a column in descending order.
+const orderingDesc = "DESC"
+
 type showCreateAllTablesConfig struct {
 	schema string
 }
@@ -239,6 +242,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == orderingDesc {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -283,6 +289,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
 				d += idx.ColumnName
+				if idx.ColumnOrdering == orderingDesc {
+					d += " DESC"
+				}
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 68c483dbc39308c1d768cff6e176653ade729b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:31 +0000
Subject: [PATCH 13/20] fix: mysql Options.StringForDiff no longer reorders the
 options it is called on

---
 pkg/ddl/mysql/ddl_table.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 7bdf0bc..33c77df 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -418,15 +418,7 @@ func (options Options) String() string {
 
 func (options Options) StringForDiff() string {
 	var str string
-
-	// NOTE: Maybe unnecessary?
-	opts := make(Options, len(options))
-	copy(opts, options)
-	sort.Slice(options, func(left, right int) bool {
-		return opts[left].Name < opts[right].Name
-	})
-
-	for i, v := range opts {
+	for i, v := range options {
 		if i != 0 {
 			str += " "
 		}
-- 
2.43.0


From a4dbcd7e5a4875274c3bd2380959a006c56fa4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:43 +0000
Subject: [PATCH 14/20] fix: lexer: an unterminated quote is an illegal token,
 not a panic

---
 pkg/ddl/cockroachdb/lexar.go | 13 ++++++++++++-
 pkg/ddl/mysql/lexar.go       | 13 ++++++++++++-
 pkg/ddl/postgres/lexar.go    | 13 ++++++++++++-
 pkg/ddl/spanner/lexar.go     | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..832bf3f 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -326,6 +326,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() {
+			tok.Type = TOKEN_ILLEGAL // 閉じられていない
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -392,13 +395,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..56c5b45 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -349,6 +349,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'', '`':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() {
+			tok.Type = TOKEN_ILLEGAL // 閉じられていない
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -416,13 +419,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..d466315 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -305,6 +305,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() {
+			tok.Type = TOKEN_ILLEGAL // 閉じられていない
+		}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -366,13 +369,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..807eb58 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -305,6 +305,9 @@ func (l *Lexer) NextToken() Token {
 	case '"', '\'', '`':
 		tok.Type = TOKEN_IDENT
 		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if l.isEOF() {
+			tok.Type = TOKEN_ILLEGAL // 閉じられていない
+		}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -372,13 +375,21 @@ func (l *Lexer) readQuotedLiteral(quote byte) string {
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
+		if l.isEOF() {
+			return l.input[position:]
+		}
+		if l.ch == quote {
 			break
 		}
 	}
 	return l.input[position : l.position+1]
 }
 
+// isEOF は入力の終端に達しているかどうかを返します。
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
-- 
2.43.0


From b259ef6bf92ee7bf82b6878eed8c39625b294fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:46 +0000
Subject: [PATCH 15/20] fix: lexer: a NUL byte does not end the input

---
 pkg/ddl/cockroachdb/lexar.go | 6 +++++-
 pkg/ddl/mysql/lexar.go       | 6 +++++-
 pkg/ddl/postgres/lexar.go    | 6 +++++-
 pkg/ddl/spanner/lexar.go     | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 832bf3f..7e8387d 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -373,6 +373,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -449,7 +453,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 56c5b45..8b6c96c 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -397,6 +397,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -473,7 +477,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index d466315..bcf84fd 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -347,6 +347,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -423,7 +427,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 807eb58..1ae335c 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -353,6 +353,10 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -429,7 +433,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 }
-- 
2.43.0


From 852e3ed5a501df3fedd54e8c2244296819ba881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:49 +0000
Subject: [PATCH 16/20] fix: lexer: skip comments in a loop, so that many of
 them do not exhaust the stack

---
 pkg/ddl/cockroachdb/lexar.go | 4 ++--
 pkg/ddl/mysql/lexar.go       | 4 ++--
 pkg/ddl/postgres/lexar.go    | 4 ++--
 pkg/ddl/spanner/lexar.go     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 7e8387d..708663d 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -317,9 +317,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 8b6c96c..c575470 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -340,9 +340,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index bcf84fd..b766d52 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -296,9 +296,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 1ae335c..8d8b0e7 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -296,9 +296,9 @@ func (l *Lexer) NextToken() Token {
 
 	l.skipWhitespace()
 
-	if l.ch == '-' && l.peekChar() == '-' {
+	for l.ch == '-' && l.peekChar() == '-' {
 		l.skipComment()
-		return l.NextToken()
+		l.skipWhitespace()
 	}
 
 	switch l.ch {
-- 
2.43.0


From 7079a1826ff2e3395444305a11c196d40fb27f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:51 +0000
Subject: [PATCH 17/20] fix: lexer: an unexpected byte is reported as it is,
 not as a code point

---
 pkg/ddl/cockroachdb/lexar.go | 2 +-
 pkg/ddl/mysql/lexar.go       | 2 +-
 pkg/ddl/postgres/lexar.go    | 2 +-
 pkg/ddl/spanner/lexar.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 708663d..f838b63 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -423,7 +423,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index c575470..6eb34b6 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -447,7 +447,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index b766d52..eec9308 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -397,7 +397,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 8d8b0e7..e8985a7 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -403,7 +403,7 @@ func (l *Lexer) peekChar() byte {
 }
 
 func newToken(tokenType TokenType, ch byte) Token {
-	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
+	return Token{Type: tokenType, Literal: Literal{Str: string([]byte{ch})}}
 }
 
 func (l *Lexer) readIdentifier() string {
-- 
2.43.0


From 90a625a8032fb7c18eaa854644b8a51eec14980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:35 +0000
Subject: [PATCH 18/20] fix: a DEFAULT or AS expression that starts with a data
 type crashed the parser

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..69d8578 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -384,7 +384,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -432,7 +432,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..d5b4960 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -357,7 +357,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From e3623d2eeab6bd59b9e0d912a5a88bfe40c2fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:35 +0000
Subject: [PATCH 19/20] fix: a Spanner table CHECK constraint without a name
 got none, and a second constraint then crashed the parser

---
 pkg/ddl/spanner/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..9e11ead 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -687,6 +687,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From 5253a564fc7d3725c5ec6164c4d0d9976a421dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:35 +0000
Subject: [PATCH 20/20] fix: deeply nested expressions exhausted the stack or
 took quadratic time

---
 pkg/ddl/cockroachdb/parser.go | 16 ++++++++--------
 pkg/ddl/mysql/parser.go       | 16 ++++++++--------
 pkg/ddl/postgres/parser.go    | 16 ++++++++--------
 pkg/ddl/spanner/parser.go     | 16 ++++++++--------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 69d8578..b8cbac8 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -490,20 +490,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // open parentheses
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			depth++
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
+			depth--
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 5e54173..acf9199 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -484,20 +484,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // open parentheses
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			depth++
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
+			depth--
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d5b4960..54d1d05 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -383,20 +383,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // open parentheses
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			depth++
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
+			depth--
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 9e11ead..7b71b9c 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -533,20 +533,20 @@ func (p *Parser) parseExpr() ([]*Ident, error) {
 	idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 	p.nextToken() // current = IDENT
 
+	depth := 1 // open parentheses
 LabelExpr:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
 		case TOKEN_OPEN_PAREN:
-			ids, err := p.parseExpr()
-			if err != nil {
-				return nil, apperr.Errorf("parseExpr: %w", err)
-			}
-			idents = append(idents, ids...)
-			continue
+			depth++
+			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
+			depth--
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
-			p.nextToken()
-			break LabelExpr
+			if depth == 0 {
+				p.nextToken()
+				break LabelExpr
+			}
 		case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS:
 			value := p.currentToken.Literal.Str
 			switch p.peekToken.Type { //nolint:exhaustive
-- 
2.43.0

