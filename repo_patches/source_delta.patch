From 2dfbbf65b36b333b6dff7d0d82a55782f32123be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 01/69] fix: reset syntax error state on every parse so that a
 parser can be reused

---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..3303e2e 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -62,6 +62,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 		return nil, errors.ErrEmptyQuery
 	}
 
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.inputStream = go_antlr.NewInputStream(queryString)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
-- 
2.43.0


From 742db92d7944f4e94db0f23ed74524908b4d7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:56 +0000
Subject: [PATCH 02/69] fix: render SELECT clauses in grammatical order

---
 sql/query/select.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..a9fc37a 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -131,12 +131,17 @@ func (stmt *selectStmt) String() string {
 	strs := []string{
 		"SELECT",
 		selectorStr,
-		"FROM",
-		stmt.TableList.String(),
+	}
+	if 0 < len(stmt.TableList) {
+		strs = append(strs, "FROM", stmt.TableList.String())
 	}
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +150,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From 15a6b085b350bb879db6d7c803dcbb8df2bbb212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:57 +0000
Subject: [PATCH 03/69] fix: keep ORDER BY terms written without a direction as
 ascending

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..2ac3af4 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -530,13 +530,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-				if orderType.IsNone() {
-					continue
-				}
 				orders = append(orders, query.NewOrderWith(orderColumn, orderType))
 			}
 			if 0 < len(orders) {
-- 
2.43.0


From b91ed2dbcd13eac22f7484aaa147a36b6134ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:58 +0000
Subject: [PATCH 04/69] fix: report the column name of ALTER TABLE DROP COLUMN

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 2ac3af4..6712641 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -217,7 +217,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithName(strings.UnEscapeNameString(ctx.Column_name().GetText()))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From 5ad382a78996a0040dec1bde112d731047c698c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:59 +0000
Subject: [PATCH 05/69] fix: drop the named column or index from a schema
 instead of another one

---
 sql/query/schema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..154c43d 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -178,10 +178,10 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		schema.columns = append(append(NewColumns(), schema.columns[:n]...), schema.columns[n+1:]...)
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -196,10 +196,10 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = append(append(NewIndexes(), schema.indexes[:n]...), schema.indexes[n+1:]...)
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From 316c6f0404f095f41ef456d173b37ca15e7d49e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 06/69] fix: report functions in Selectors.HasFunction instead
 of plain columns

---
 sql/query/selectors_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..889cf7f 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -34,7 +34,7 @@ func (selectors Selectors) IsAsterisk() bool {
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
 		_, ok := selector.Function()
-		if !ok {
+		if ok {
 			return true
 		}
 	}
-- 
2.43.0


From 71cc1916d170d127f55c9801bbf43018f57ef319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 07/69] fix: do not let schemas that share a column list
 overwrite each other's additions

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 154c43d..107d67f 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -171,7 +171,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(schema.columns[:len(schema.columns):len(schema.columns)], column)
 	return nil
 }
 
@@ -189,7 +189,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(schema.indexes[:len(schema.indexes):len(schema.indexes)], index)
 	return nil
 }
 
-- 
2.43.0


From 2d22299dc81f430343655560732a8223492c73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:39 +0000
Subject: [PATCH 08/69] fix: reject statements and clauses without a
 representation instead of crashing on or dropping them

Also read LIMIT x, y as offset x and limit y, and reject limits that are not numbers.
---
 sql/parser/sqlite/parser_antlr.go         |  10 +-
 sql/parser/sqlite/parser_antlr_visitor.go | 232 ++++++++++++++++------
 2 files changed, 182 insertions(+), 60 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 3303e2e..407b8c0 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -75,12 +75,14 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
 	}
 
-	v := tree.Accept(newANTLRVisitor())
-	stmtList, ok := v.(query.StatementList)
-	if !ok {
+	switch v := tree.Accept(newANTLRVisitor()).(type) {
+	case query.StatementList:
+		parser.stmts = v
+	case error:
+		return nil, v
+	default:
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
 	}
-	parser.stmts = stmtList
 
 	return parser.stmts, nil
 }
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6712641..bac5e56 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,9 @@
 package sqlite
 
 import (
+	"fmt"
+
+	go_antlr "github.com/antlr4-go/antlr/v4"
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -35,27 +38,70 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
-			stmt := newStatementWith(sqlStmt)
-			if stmt == nil {
-				continue
+			stmt, err := newStatementWith(sqlStmt)
+			if err != nil {
+				return nil, err
 			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
+}
+
+func newErrNotSupported(ctx go_antlr.ParserRuleContext) error {
+	return fmt.Errorf("%s %w", textOf(ctx), query.ErrNotSupported)
+}
+
+func newErrInvalid(ctx go_antlr.ParserRuleContext) error {
+	return fmt.Errorf("%s %w", textOf(ctx), query.ErrInvalid)
+}
+
+// textOf returns the source tokens of the specified context as a text that is read as the same tokens again.
+func textOf(ctx go_antlr.Tree) string {
+	isWord := func(c byte) bool {
+		return c == '_' || c == '\'' || c == '"' || c == '`' || c == '$' || c == '?' || c == '@' || c == ':' || 0x80 <= c ||
+			('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
+	}
+	var buf []byte
+	var write func(node go_antlr.Tree)
+	write = func(node go_antlr.Tree) {
+		if terminal, ok := node.(go_antlr.TerminalNode); ok {
+			text := terminal.GetText()
+			if 0 < len(buf) && 0 < len(text) {
+				last := buf[len(buf)-1]
+				if (isWord(last) && isWord(text[0])) || (last == '-' && text[0] == '-') {
+					buf = append(buf, ' ')
+				}
+			}
+			buf = append(buf, text...)
+			return
+		}
+		for _, child := range node.GetChildren() {
+			write(child)
+		}
+	}
+	write(ctx)
+	return string(buf)
 }
 
-func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
+func newStatementWith(ctx antlr.ISql_stmtContext) (query.Statement, error) {
+	if ctx.EXPLAIN_() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	// DDL (Data Definition Language) - CREATE
 	if stmt := ctx.Create_database_stmt(); stmt != nil {
-		return newCreateDatabaseWith(stmt)
+		return newCreateDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Create_table_stmt(); stmt != nil {
 		return newCreateTableWith(stmt)
@@ -65,17 +111,17 @@ func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
 	}
 	// DDL (Data Definition Language) - DROP
 	if stmt := ctx.Drop_database_stmt(); stmt != nil {
-		return newDropDatabaseWith(stmt)
+		return newDropDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Drop_table_stmt(); stmt != nil {
-		return newDropTableWith(stmt)
+		return newDropTableWith(stmt), nil
 	}
 	if stmt := ctx.Drop_index_stmt(); stmt != nil {
-		return newDropIndexWith(stmt)
+		return newDropIndexWith(stmt), nil
 	}
 	// DDL (Data Definition Language) - ALTER
 	if stmt := ctx.Alter_database_stmt(); stmt != nil {
-		return newAlterDatabaseWith(stmt)
+		return newAlterDatabaseWith(stmt), nil
 	}
 	if stmt := ctx.Alter_table_stmt(); stmt != nil {
 		return newAlterTableWith(stmt)
@@ -94,32 +140,32 @@ func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
 		return newDeleteWith(stmt)
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
-		return query.NewCommit()
+		return query.NewCommit(), nil
 	}
 	// Transaction statements
 	if stmt := ctx.Begin_stmt(); stmt != nil {
-		return newBeginWith(stmt)
+		return newBeginWith(stmt), nil
 	}
 	if stmt := ctx.Rollback_stmt(); stmt != nil {
 		return newRollbackWith(stmt)
 	}
 	if stmt := ctx.Commit_stmt(); stmt != nil {
-		return newCommitWith(stmt)
+		return newCommitWith(stmt), nil
 	}
 	// Extra statements
 	if stmt := ctx.Use_stmt(); stmt != nil {
-		return newUseWith(stmt)
+		return newUseWith(stmt), nil
 	}
 	if stmt := ctx.Copy_stmt(); stmt != nil {
-		return newCopyWith(stmt)
+		return newCopyWith(stmt), nil
 	}
 	if stmt := ctx.Truncate_stmt(); stmt != nil {
-		return newTruncateWith(stmt)
+		return newTruncateWith(stmt), nil
 	}
 	if stmt := ctx.Vacuum_stmt(); stmt != nil {
 		return newVacuumWith(stmt)
 	}
-	return nil
+	return nil, newErrNotSupported(ctx)
 }
 
 func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateDatabase {
@@ -131,20 +177,34 @@ func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateD
 	return query.NewCreateDatabaseWith(dbName, ifNotExists)
 }
 
-func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
+func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) (query.Statement, error) {
+	if ctx.Select_stmt() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateTableWith(newTableSchemaWith(ctx), ifNotExists)
+	schema, err := newTableSchemaWith(ctx)
+	if err != nil {
+		return nil, err
+	}
+	return query.NewCreateTableWith(schema, ifNotExists), nil
 }
 
-func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
+func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) (query.Statement, error) {
+	if ctx.WHERE_() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	ifNotExists := query.NewIfNotExistsWith(false)
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateIndexWith(newIndexSchemaWith(ctx), ifNotExists)
+	schema, err := newIndexSchemaWith(ctx)
+	if err != nil {
+		return nil, err
+	}
+	return query.NewCreateIndexWith(schema, ifNotExists), nil
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
@@ -191,7 +251,7 @@ func newAlterDatabaseWith(ctx antlr.IAlter_database_stmtContext) query.AlterData
 	return query.NewAlterDatabaseWith(dbName, toDBName)
 }
 
-func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
+func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.Statement, error) {
 	opts := []query.AlterTableOption{}
 	if ctx := ctx.Schema_name(); ctx != nil {
 		schemaName := strings.UnEscapeNameString(ctx.GetText())
@@ -208,12 +268,16 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
 		column, ok := newColumnWith(ctx.Column_def())
-		if ok {
-			opts = append(opts, query.WithAlterTableAddColumn(column))
+		if !ok {
+			return nil, newErrNotSupported(ctx)
 		}
+		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
+		if index.Type() == query.UnknownIndex {
+			return nil, newErrNotSupported(ctx)
+		}
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
@@ -221,7 +285,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-	return query.NewAlterTableWith(tblName, opts...)
+	return query.NewAlterTableWith(tblName, opts...), nil
 }
 
 func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
@@ -244,7 +308,7 @@ func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
 	return query.NewIndexWith(indexName, indexType, columns)
 }
 
-func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
+func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, error) {
 	indexDefs := func(ctx antlr.IColumn_defContext) []string {
 		typNames := []string{
 			strings.UnEscapeNameString(ctx.Column_name().GetText()),
@@ -327,29 +391,35 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 			indexColums := query.NewColumns()
 			for _, columDef := range primaryDef.AllIndexed_column() {
-				column := newIndexedColumnWith(columDef)
+				column, err := newIndexedColumnWith(columDef)
+				if err != nil {
+					return nil, err
+				}
 				indexColums = append(indexColums, column)
 			}
 			indexes = append(indexes, query.NewPrimaryIndexWith(indexColums))
 		}
 	}
 	// Return schema.
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes))
+	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
-func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
+func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, error) {
 	idxName := strings.UnEscapeNameString(ctx.Index_name().GetText())
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
+		if columDef.Column_name() == nil {
+			return nil, newErrNotSupported(ctx)
+		}
 		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
 		indexColumn := query.NewColumnWithName(columDef)
 		indexColumns = append(indexColumns, indexColumn)
 	}
 	indexes = append(indexes, query.NewSecondaryIndexWith(idxName, indexColumns))
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes))
+	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
 func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
@@ -411,16 +481,23 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	return query.NewColumnWithOptions(opts...), true
 }
 
-func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
+func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) (query.Column, error) {
+	if ctx.Column_name() == nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
 	t, err := query.NewDataDefFrom("", -1) // FIXME
 	if err != nil {
 		t = query.NewUnknownDataDef()
 	}
-	return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(t))
+	return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(t)), nil
 }
 
-func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
+func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
+	if ctx.Values_clause() == nil || ctx.REPLACE_() != nil || ctx.OR_() != nil ||
+		ctx.With_clause() != nil || ctx.Upsert_clause() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	tbl := query.NewTableWith(tblName)
 	names := []string{}
@@ -454,13 +531,19 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		}
 		values = append(values, columns)
 	}
-	return query.NewInsertWith(tbl, values)
+	return query.NewInsertWith(tbl, values), nil
 }
 
-func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
+func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
+	if ctx.OR_() != nil || ctx.FROM_() != nil || ctx.With_clause() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
+		if set.Column_name() == nil {
+			return nil, newErrNotSupported(ctx)
+		}
 		name := set.Column_name().GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
@@ -486,15 +569,22 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
 	}
-	return query.NewUpdateWith(tbl, columns, where)
+	return query.NewUpdateWith(tbl, columns, where), nil
 }
 
-func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
+func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
+	if ctx.Common_table_stmt() != nil || 1 < len(ctx.AllSelect_core()) {
+		return nil, newErrNotSupported(ctx)
+	}
 	sels := query.NewSelectors()
 	tbls := query.NewTables()
 	opts := []query.SelectOption{}
 	var topExpr query.Expr
 	if parentQuery := ctx.GetParentQuery(); parentQuery != nil {
+		if parentQuery.Values_clause() != nil || parentQuery.Join_clause() != nil ||
+			parentQuery.HAVING_() != nil || parentQuery.WINDOW_() != nil {
+			return nil, newErrNotSupported(ctx)
+		}
 		for _, col := range parentQuery.AllResult_column() {
 			sel, err := newSelectorFrom(col)
 			if err != nil {
@@ -509,12 +599,17 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 					ops = append(ops, query.WithTableSchema(schema.GetText()))
 				}
 				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+			} else {
+				return nil, newErrNotSupported(ctx)
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
 			topExpr = newExprWith(w)
 		}
 		groupBy := parentQuery.GetGroupByExpr()
+		if 1 < len(groupBy) {
+			return nil, newErrNotSupported(ctx)
+		}
 		if 0 < len(groupBy) {
 			opts = append(opts, query.WithSelectGroupBy(groupBy[0].GetText()))
 		}
@@ -545,23 +640,39 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
 		if 0 < len(limits) {
-			var limit uint
-			err := safecast.ToUint(limits[0].GetText(), &limit)
-			if err != nil {
-				limit = 0
-			}
-			var offset uint
+			limitExpr := limits[0]
+			var offsetExpr antlr.IExprContext
 			if 1 < len(limits) {
-				err := safecast.ToUint(limits[1].GetText(), &offset)
-				if err != nil {
-					offset = 0
+				offsetExpr = limits[1]
+				if ctx.COMMA() != nil { // LIMIT offset, limit
+					limitExpr, offsetExpr = limits[1], limits[0]
+				}
+			}
+			var limit, offset uint
+			if err := newLimitValueWith(limitExpr, &limit); err != nil {
+				return nil, err
+			}
+			if offsetExpr != nil {
+				if err := newLimitValueWith(offsetExpr, &offset); err != nil {
+					return nil, err
 				}
 			}
 			opts = append(opts, query.WithSelectLimit(offset, limit))
 		}
 	}
 
-	return query.NewSelectWith(sels, tbls, where, opts...)
+	return query.NewSelectWith(sels, tbls, where, opts...), nil
+}
+
+// newLimitValueWith sets the value of the specified LIMIT or OFFSET expression. A place holder has no value yet.
+func newLimitValueWith(ctx antlr.IExprContext, v *uint) error {
+	if ctx.Bind_param() != nil || (ctx.Literal_value() != nil && ctx.Literal_value().Bind_param() != nil) {
+		return nil
+	}
+	if err := safecast.ToUint(ctx.GetText(), v); err != nil {
+		return newErrInvalid(ctx)
+	}
+	return nil
 }
 
 func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
@@ -585,13 +696,16 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
 }
 
-func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
+func newDeleteWith(ctx antlr.IDelete_stmtContext) (query.Statement, error) {
+	if ctx.With_clause() != nil || ctx.Returning_clause() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
 	}
-	return query.NewDeleteWith(tbl, where)
+	return query.NewDeleteWith(tbl, where), nil
 }
 
 func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
@@ -622,19 +736,25 @@ func newTruncateWith(ctx antlr.ITruncate_stmtContext) query.Truncate {
 	return query.NewTruncateWith(tbls)
 }
 
-func newVacuumWith(ctx antlr.IVacuum_stmtContext) query.Vacuum {
+func newVacuumWith(ctx antlr.IVacuum_stmtContext) (query.Statement, error) {
+	if ctx.INTO_() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
 	if schema, ok := ctx.Schema_name().(*antlr.Schema_nameContext); ok {
-		return query.NewVacuumWith(query.NewTableWith(schema.GetText()))
+		return query.NewVacuumWith(query.NewTableWith(schema.GetText())), nil
 	}
-	return query.NewVacuum()
+	return query.NewVacuum(), nil
 }
 
 func newBeginWith(ctx antlr.IBegin_stmtContext) query.Begin {
 	return query.NewBegin()
 }
 
-func newRollbackWith(ctx antlr.IRollback_stmtContext) query.Rollback {
-	return query.NewRollback()
+func newRollbackWith(ctx antlr.IRollback_stmtContext) (query.Statement, error) {
+	if ctx.Savepoint_name() != nil {
+		return nil, newErrNotSupported(ctx)
+	}
+	return query.NewRollback(), nil
 }
 
 func newCommitWith(ctx antlr.ICommit_stmtContext) query.Commit {
-- 
2.43.0


From 3c41d23f38134ff205bf0932573aca1432bb3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:40 +0000
Subject: [PATCH 09/69] fix: keep conditions that are not plain comparisons
 verbatim instead of dropping them

---
 sql/parser/sqlite/parser_antlr_visitor.go |  2 +-
 sql/query/expr_verbatim.go                | 30 +++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)
 create mode 100644 sql/query/expr_verbatim.go

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index bac5e56..56e329b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -818,7 +818,7 @@ func newExprWith(ctx antlr.IExprContext) query.Expr {
 		return newCmpExpr(cmpExpr)
 	}
 
-	return nil
+	return query.NewVerbatimExprWith(textOf(ctx))
 }
 
 func newUseWith(ctx antlr.IUse_stmtContext) query.Use {
diff --git a/sql/query/expr_verbatim.go b/sql/query/expr_verbatim.go
new file mode 100644
index 0000000..149f89a
--- /dev/null
+++ b/sql/query/expr_verbatim.go
@@ -0,0 +1,30 @@
+// Copyright (C) 2022 The go-sqlparser Authors All rights reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package query
+
+// VerbatimExpr represents an expression that is kept as it was written.
+type VerbatimExpr struct {
+	text string
+}
+
+// NewVerbatimExprWith returns a new VerbatimExpr instance with the specified expression text.
+func NewVerbatimExprWith(text string) *VerbatimExpr {
+	return &VerbatimExpr{text: text}
+}
+
+// String returns the expression string representation.
+func (expr *VerbatimExpr) String() string {
+	return expr.text
+}
-- 
2.43.0


From 0b65250d2f05c765710cdcd9570bd2ef4b72b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:40 +0000
Subject: [PATCH 10/69] fix: pair INSERT and UPDATE columns with every written
 value, whatever its kind

---
 sql/parser/sqlite/parser_antlr_visitor.go | 55 +++++++++++++----------
 sql/query/insert.go                       |  6 ++-
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 56e329b..4fb6df4 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -507,27 +507,23 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
 		columns := query.NewColumns()
-		valueIdx := 0
-		for _, expr := range row.AllExpr() {
+		for n, expr := range row.AllExpr() {
 			if v := expr.Comparison_expr(); v != nil {
 				columns = append(columns,
 					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
-			} else if v := expr.Literal_value(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newLiteralValueWith(v))))
-					valueIdx++
-				}
-			} else if v := expr.Bind_param(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newBindParamWith(v))))
-					valueIdx++
+				continue
+			}
+			name := ""
+			if 0 < len(names) {
+				if len(names) != len(row.AllExpr()) {
+					return nil, newErrInvalid(ctx)
 				}
+				name = names[n]
 			}
+			columns = append(columns,
+				query.NewColumnWithOptions(query.WithColumnName(name),
+					query.WithColumnLiteral(newExprValueWith(expr))))
 		}
 		values = append(values, columns)
 	}
@@ -548,20 +544,20 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
 		}
-		if v := set.Expr().Literal_value(); v != nil {
-			opts = append(opts, query.WithColumnLiteral(newLiteralValueWith(v)))
-		} else if v := set.Expr().Bind_param(); v != nil {
-			opts = append(opts, query.WithColumnLiteral(newBindParamWith(v)))
-		} else if v := set.Expr().Arithmetic_expr(); v != nil {
+		if v := set.Expr().Arithmetic_expr(); v != nil {
 			ope := v.GetOpe().GetText()
 			args := []string{
 				v.Column_name().GetText(),
-				v.Expr().GetText(),
+				textOf(v.Expr()),
 			}
-			if executor, _ := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args)); executor != nil {
-				opts = append(opts, query.WithColumnFunctionExecutor(executor))
-				opts = append(opts, query.WithColumnArguments(args))
+			executor, err := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args))
+			if err != nil {
+				return nil, err
 			}
+			opts = append(opts, query.WithColumnFunctionExecutor(executor))
+			opts = append(opts, query.WithColumnArguments(args))
+		} else {
+			opts = append(opts, query.WithColumnLiteral(newExprValueWith(set.Expr())))
 		}
 		columns = append(columns, query.NewColumnWithOptions(opts...))
 	}
@@ -772,6 +768,17 @@ func newLiteralValueWith(ctx antlr.ILiteral_valueContext) *query.Literal {
 	return query.NewLiteralWith(ctx.GetText())
 }
 
+// newExprValueWith returns the value of the specified expression. Expressions other than literals are kept verbatim.
+func newExprValueWith(ctx antlr.IExprContext) *query.Literal {
+	if v := ctx.Literal_value(); v != nil {
+		return newLiteralValueWith(v)
+	}
+	if v := ctx.Bind_param(); v != nil {
+		return newBindParamWith(v)
+	}
+	return query.NewLiteralWith(textOf(ctx))
+}
+
 func newBindParamWith(ctx antlr.IBind_paramContext) *query.Literal {
 	if ctx == nil {
 		return nil
diff --git a/sql/query/insert.go b/sql/query/insert.go
index 5a1d34e..34587fd 100644
--- a/sql/query/insert.go
+++ b/sql/query/insert.go
@@ -69,9 +69,11 @@ func (stmt *insertStmt) String() string {
 		"INSERT",
 		"INTO",
 		stmt.FullTableName(),
-		"("+stmt.Columns().NameString()+")",
-		"VALUES",
 	)
+	if columns := stmt.Columns(); 0 < len(columns) && 0 < len(columns[0].Name()) {
+		strs = append(strs, "("+columns.NameString()+")")
+	}
+	strs = append(strs, "VALUES")
 	values := stmt.Values()
 	valuesStrs := make([]string, 0, len(values))
 	for _, values := range values {
-- 
2.43.0


From ce25b346a80910a69989880f3d3bd9f164c6e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:34 +0000
Subject: [PATCH 11/69] fix: keep the words of aliases and expressions apart
 and out of table names

---
 sql/parser/sqlite/parser_antlr_visitor.go | 39 ++++++++++++++++-------
 sql/query/delete.go                       |  2 +-
 sql/query/table.go                        | 21 ++++++++++++
 sql/query/tables.go                       |  2 +-
 sql/query/update.go                       |  2 +-
 5 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 4fb6df4..02bb3f7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -530,11 +530,28 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	return query.NewInsertWith(tbl, values), nil
 }
 
+func newTableWith(schemaCtx antlr.ISchema_nameContext, nameCtx antlr.ITable_nameContext, opts ...query.TableOption) query.Table {
+	name := nameCtx.GetText()
+	if schemaCtx != nil {
+		name = schemaCtx.GetText() + query.TableNameSep + name
+		opts = append(opts, query.WithTableSchema(schemaCtx.GetText()))
+	}
+	return query.NewTableWith(name, opts...)
+}
+
+func newQualifiedTableWith(ctx antlr.IQualified_table_nameContext) query.Table {
+	opts := []query.TableOption{}
+	if alias := ctx.Alias(); alias != nil {
+		opts = append(opts, query.WithTableAlias(alias.GetText()))
+	}
+	return newTableWith(ctx.Schema_name(), ctx.Table_name(), opts...)
+}
+
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 	if ctx.OR_() != nil || ctx.FROM_() != nil || ctx.With_clause() != nil || ctx.Returning_clause() != nil {
 		return nil, newErrNotSupported(ctx)
 	}
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := newQualifiedTableWith(ctx.GetTable())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		if set.Column_name() == nil {
@@ -591,10 +608,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 		for _, from := range ctx.GetParentQuery().AllFrom() {
 			if tbl := from.From_table(); tbl != nil {
 				ops := []query.TableOption{}
-				if schema := tbl.Schema_name(); schema != nil {
-					ops = append(ops, query.WithTableSchema(schema.GetText()))
+				if alias := tbl.Table_alias(); alias != nil {
+					ops = append(ops, query.WithTableAlias(alias.GetText()))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, newTableWith(tbl.Schema_name(), tbl.Table_name(), ops...))
 			} else {
 				return nil, newErrNotSupported(ctx)
 			}
@@ -607,7 +624,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 			return nil, newErrNotSupported(ctx)
 		}
 		if 0 < len(groupBy) {
-			opts = append(opts, query.WithSelectGroupBy(groupBy[0].GetText()))
+			opts = append(opts, query.WithSelectGroupBy(textOf(groupBy[0])))
 		}
 	}
 	where := query.NewCondition()
@@ -620,7 +637,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 		if 0 < len(orderBy) {
 			orders := []query.Order{}
 			for _, order := range orderBy {
-				orderColumn := order.Expr().GetText()
+				orderColumn := textOf(order.Expr())
 				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
@@ -674,13 +691,13 @@ func newLimitValueWith(ctx antlr.IExprContext, v *uint) error {
 func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	expr := ctx.Expr()
 	if expr != nil {
-		if fx := expr.Function(); fx != nil {
+		if fx := expr.Function(); fx != nil && fx.DISTINCT_() == nil && fx.Filter_clause() == nil && fx.Over_clause() == nil {
 			args := fn.NewArguments()
 			if star := fx.STAR(); star != nil {
 				args = append(args, fn.NewArgumentWith(star.GetText()))
 			} else {
 				for _, arg := range fx.AllExpr() {
-					args = append(args, fn.NewArgumentWith(arg.GetText()))
+					args = append(args, fn.NewArgumentWith(textOf(arg)))
 				}
 			}
 			return fn.NewFunction(
@@ -689,14 +706,14 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 			), nil
 		}
 	}
-	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
+	return query.NewColumnWithOptions(query.WithColumnName(textOf(ctx))), nil
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) (query.Statement, error) {
 	if ctx.With_clause() != nil || ctx.Returning_clause() != nil {
 		return nil, newErrNotSupported(ctx)
 	}
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := newQualifiedTableWith(ctx.GetTable())
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		where = query.NewConditionWith(newExprWith(w))
@@ -718,7 +735,7 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 		opts = append(opts, query.WithCopyFormat(fmt))
 	}
 	return query.NewCopyWith(
-		strings.UnEscapeString(ctx.GetTable().GetText()),
+		strings.UnEscapeString(newQualifiedTableWith(ctx.GetTable()).FullTableName()),
 		strings.UnEscapeString(ctx.Source_name().GetText()),
 		opts...,
 	)
diff --git a/sql/query/delete.go b/sql/query/delete.go
index 5f448b1..b4a64e7 100644
--- a/sql/query/delete.go
+++ b/sql/query/delete.go
@@ -80,7 +80,7 @@ func (stmt *deleteStmt) String() string {
 	strs := []string{
 		"DELETE",
 		"FROM",
-		stmt.table.FullTableName(),
+		tableString(stmt.table),
 	}
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
diff --git a/sql/query/table.go b/sql/query/table.go
index 2d59e2b..4223aba 100644
--- a/sql/query/table.go
+++ b/sql/query/table.go
@@ -15,6 +15,7 @@
 package query
 
 import (
+	"fmt"
 	"strings"
 )
 
@@ -41,6 +42,7 @@ type Table interface {
 type table struct {
 	schema string
 	name   string
+	alias  string
 }
 
 // TableOption represents a table option function.
@@ -51,6 +53,7 @@ func NewTableWith(name string, opts ...TableOption) Table {
 	tbl := &table{
 		name:   name,
 		schema: "",
+		alias:  "",
 	}
 	for _, opt := range opts {
 		opt(tbl)
@@ -65,6 +68,13 @@ func WithTableSchema(schema string) func(*table) {
 	}
 }
 
+// WithTableAlias sets a table alias.
+func WithTableAlias(alias string) func(*table) {
+	return func(tbl *table) {
+		tbl.alias = alias
+	}
+}
+
 // FullTableName returns the full name of the table including schema and table name.
 func (tbl *table) FullTableName() string {
 	names := []string{}
@@ -106,5 +116,16 @@ func (tbl *table) IsTableName(name string) bool {
 
 // String returns the string representation.
 func (tbl *table) String() string {
+	if 0 < len(tbl.alias) {
+		return tbl.FullTableName() + " AS " + tbl.alias
+	}
+	return tbl.FullTableName()
+}
+
+// tableString returns the string representation of the specified table including its alias.
+func tableString(tbl Table) string {
+	if stringer, ok := tbl.(fmt.Stringer); ok {
+		return stringer.String()
+	}
 	return tbl.FullTableName()
 }
diff --git a/sql/query/tables.go b/sql/query/tables.go
index 75eb183..bc644e2 100644
--- a/sql/query/tables.go
+++ b/sql/query/tables.go
@@ -87,7 +87,7 @@ func (tbls TableList) HasTableName(names ...string) bool {
 func (tbls TableList) String() string {
 	strs := make([]string, len(tbls))
 	for n, tbl := range tbls {
-		strs[n] = tbl.FullTableName()
+		strs[n] = tableString(tbl)
 	}
 	return strings.JoinWithComma(strs)
 }
diff --git a/sql/query/update.go b/sql/query/update.go
index a84ef5e..2074b04 100644
--- a/sql/query/update.go
+++ b/sql/query/update.go
@@ -76,7 +76,7 @@ func (stmt *updateStmt) Where() Condition {
 func (stmt *updateStmt) String() string {
 	strs := []string{
 		"UPDATE",
-		stmt.table.FullTableName(),
+		tableString(stmt.table),
 		"SET",
 	}
 	columns := make([]string, 0, len(stmt.columns))
-- 
2.43.0


From 521714969a66d4b9e44df864bf9cb992deb18650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:40 +0000
Subject: [PATCH 12/69] fix: read and write quotes inside string literals as
 doubled quotes

---
 sql/util/strings/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..6f7b9f0 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,19 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	if len(s) < 2 {
+		return s
+	}
+	quote := s[:1]
+	if (quote != "'" && quote != "\"") || s[len(s)-1:] != quote {
+		return s
+	}
+	return strings.ReplaceAll(s[1:len(s)-1], quote+quote, quote)
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From 21440bc662669b0e5303c25bf1030fbeaf7c8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:41 +0000
Subject: [PATCH 13/69] fix: render a null literal as NULL

---
 sql/query/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..e8377c6 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -118,6 +118,9 @@ func (lit *Literal) ValueString() string {
 	if lit == nil {
 		return ""
 	}
+	if lit.v == nil {
+		return "NULL"
+	}
 	switch lit.t {
 	case StringLiteral:
 		return strings.EscapeString(fmt.Sprintf("%v", lit.v))
-- 
2.43.0


From 7e883eab34ff27ddee76d1077297610ba61b610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:42 +0000
Subject: [PATCH 14/69] fix: quote COPY sources that are not plain names

---
 sql/query/copy.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sql/query/copy.go b/sql/query/copy.go
index 49945b4..ad4f3dc 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -120,6 +120,18 @@ func (stmt *copyStmt) Format() CopyFormat {
 	return stmt.format
 }
 
+// isPlainName returns true whether the specified name can be written without quotes.
+func isPlainName(name string) bool {
+	for n, c := range name {
+		isAlpha := c == '_' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
+		isDigit := '0' <= c && c <= '9'
+		if !isAlpha && (n == 0 || !isDigit) {
+			return false
+		}
+	}
+	return 0 < len(name)
+}
+
 // String returns the statement string representation.
 func (stmt *copyStmt) String() string {
 	strs := []string{
@@ -129,9 +141,13 @@ func (stmt *copyStmt) String() string {
 	if 0 < len(stmt.columns) {
 		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
 	}
+	src := stmt.Source()
+	if !isPlainName(src) {
+		src = strings.EscapeString(src)
+	}
 	strs = append(strs,
 		"FROM",
-		stmt.Source(),
+		src,
 		stmt.format.String(),
 	)
 	return strings.JoinWithSpace(strs)
-- 
2.43.0


From df74c566f4e3b97fd839f177a3e6b1acd9499f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:43 +0000
Subject: [PATCH 15/69] fix: report input without any statement as an empty
 query

---
 sql/parser/sqlite/parser_antlr.go | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 407b8c0..f808c9d 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -48,24 +48,13 @@ func NewParser() *Parser {
 
 // ParseString parses a specified FQL string.
 func (parser *Parser) ParseString(queryString string) ([]query.Statement, error) {
-	queryStringLen := len(queryString)
-	switch queryStringLen {
-	case 0:
-		return nil, errors.ErrEmptyQuery
-	case 1:
-		if queryString[0] == ';' {
-			return nil, errors.ErrEmptyQuery
-		}
-	}
-
-	if len(queryString) == 0 {
-		return nil, errors.ErrEmptyQuery
-	}
-
 	parser.errorListener = newANTLRParserErrorListener()
 	parser.inputStream = go_antlr.NewInputStream(queryString)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
+	if !hasStatementToken(parser.tokenStream) {
+		return nil, errors.ErrEmptyQuery
+	}
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
@@ -86,3 +75,19 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 
 	return parser.stmts, nil
 }
+
+// hasStatementToken returns true whether the token stream has any token other than comments, spaces and semicolons.
+func hasStatementToken(tokenStream *go_antlr.CommonTokenStream) bool {
+	tokenStream.Fill()
+	for _, token := range tokenStream.GetAllTokens() {
+		if token.GetChannel() != go_antlr.TokenDefaultChannel {
+			continue
+		}
+		switch token.GetTokenType() {
+		case go_antlr.TokenEOF, antlr.SQLiteLexerSCOL:
+			continue
+		}
+		return true
+	}
+	return false
+}
-- 
2.43.0


From a6ac14a0e69387d2fee1816554b04c05e4d354b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:12 +0000
Subject: [PATCH 16/69] fix: tell column definitions and index definitions of
 CREATE TABLE apart in any letter case

---
 sql/parser/sqlite/parser_antlr_visitor.go | 140 ++++++++++------------
 sql/query/column.go                       |   6 +-
 2 files changed, 65 insertions(+), 81 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 02bb3f7..950ae7e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -267,11 +267,10 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.Statement, err
 		opts = append(opts, query.WithAlterTableRenameColumn(fromColumn, toColumn))
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
-		column, ok := newColumnWith(ctx.Column_def())
-		if !ok {
+		if isIndexDef(ctx.Column_def()) {
 			return nil, newErrNotSupported(ctx)
 		}
-		opts = append(opts, query.WithAlterTableAddColumn(column))
+		opts = append(opts, query.WithAlterTableAddColumn(newColumnWith(ctx.Column_def())))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
@@ -309,82 +308,29 @@ func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
 }
 
 func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, error) {
-	indexDefs := func(ctx antlr.IColumn_defContext) []string {
-		typNames := []string{
-			strings.UnEscapeNameString(ctx.Column_name().GetText()),
-		}
-		typ := ctx.Type_name()
-		if typ == nil {
-			return typNames
-		}
-		for _, name := range typ.AllName() {
-			typNames = append(typNames, name.GetText())
-		}
-		return typNames
-	}
-
-	indexColum := func(ctx antlr.IColumn_defContext, columns query.Columns) (string, query.Column, bool) {
-		indexDefs := indexDefs(ctx)
-		for i := 0; i < (len(indexDefs) - 1); i++ {
-			v := indexDefs[i]
-			switch v {
-			case "PRIMARY":
-				for j := (i + 1); j < (len(indexDefs) - 1); j++ {
-					v := indexDefs[j]
-					switch v {
-					case "KEY":
-						columnName := strings.UnEscapeNameString(indexDefs[j+1])
-						column, err := columns.LookupColumn(columnName)
-						if err == nil {
-							return "", column, true
-						}
-					}
-				}
-			case "KEY", "INDEX":
-				if (i + 2) < len(indexDefs) {
-					idxName := strings.UnEscapeNameString(indexDefs[i+1])
-					columnName := strings.UnEscapeNameString(indexDefs[i+2])
-					column, err := columns.LookupColumn(columnName)
-					if err == nil {
-						return idxName, column, true
-					}
-				}
-			}
-		}
-		return "", nil, false
-	}
-
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
-		column, ok := newColumnWith(columDef)
-		if ok {
-			// Primary key definition for column constraint.
-			for _, columnConst := range columDef.AllColumn_constraint() {
-				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-				}
-			}
-			columns = append(columns, column)
-		}
 		// Index definition for column constraint (for MySQL compatibility).
 		// MySQL :: MySQL 8.0 Reference Manual :: 15.1.20 CREATE TABLE Statement
 		// https://dev.mysql.com/doc/refman/8.0/en/create-table.html
-		switch columDef.Column_name().GetText() {
-		case "PRIMARY":
-			_, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
+		if isIndexDef(columDef) {
+			if index, ok := newIndexDefWith(columDef, columns); ok {
+				indexes = append(indexes, index)
 			}
-		case "KEY", "INDEX":
-			idxName, idxColumn, ok := indexColum(columDef, columns)
-			if ok {
-				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
+			continue
+		}
+		column := newColumnWith(columDef)
+		// Primary key definition for column constraint.
+		for _, columnConst := range columDef.AllColumn_constraint() {
+			if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
+				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
 			}
 		}
+		columns = append(columns, column)
 	}
 	// Index definitions.
 	for _, tblConst := range ctx.AllTable_constraint() {
@@ -422,7 +368,8 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, erro
 	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
 }
 
-func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
+// isIndexDef returns true whether the column definition is an index definition such as "KEY name (column)".
+func isIndexDef(ctx antlr.IColumn_defContext) bool {
 	keywords := []string{
 		"PRIMARY",
 		"KEY",
@@ -430,22 +377,59 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 		"INDEX",
 		"CONSTRAINT",
 	}
-
-	// Column name
-
-	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
-
+	typ := ctx.Type_name()
+	if typ == nil || len(typ.AllName()) == 0 {
+		return false
+	}
+	lastName := typ.AllName()[len(typ.AllName())-1].GetText()
+	if lastName[0] != '(' {
+		return false
+	}
 	for _, keyword := range keywords {
-		if strings.Equal(name, keyword) {
+		if strings.EqualFold(ctx.Column_name().GetText(), keyword) {
+			return true
+		}
+	}
+	return false
+}
+
+// newIndexDefWith returns the primary or secondary index of the specified index definition.
+func newIndexDefWith(ctx antlr.IColumn_defContext, columns query.Columns) (query.Index, bool) {
+	defs := []string{ctx.Column_name().GetText()}
+	for _, name := range ctx.Type_name().AllName() {
+		defs = append(defs, name.GetText())
+	}
+	lastDef := len(defs) - 1
+	columnName := strings.UnEscapeNameString(defs[lastDef])
+	column, err := columns.LookupColumn(columnName)
+	if err != nil {
+		column = query.NewColumnWithName(columnName)
+	}
+	for n, def := range defs[:lastDef] {
+		switch {
+		case strings.EqualFold(def, "UNIQUE"):
 			return nil, false
+		case strings.EqualFold(def, "PRIMARY"):
+			return query.NewPrimaryIndexWith(query.NewColumnsWith(column)), true
+		case strings.EqualFold(def, "KEY"), strings.EqualFold(def, "INDEX"):
+			indexName := ""
+			if (n + 1) < lastDef {
+				indexName = strings.UnEscapeNameString(defs[n+1])
+			}
+			return query.NewSecondaryIndexWith(indexName, query.NewColumnsWith(column)), true
 		}
 	}
+	return nil, false
+}
+
+func newColumnWith(ctx antlr.IColumn_defContext) query.Column {
+	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
 
 	// Column type
 
 	typ := ctx.Type_name()
 	if typ == nil {
-		return nil, false
+		return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewUnknownDataDef()))
 	}
 
 	dataDefs := []string{}
@@ -462,10 +446,6 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 		dataDefs = append(dataDefs, ")")
 	}
 
-	if len(dataDefs) == 0 {
-		return nil, false
-	}
-
 	t, err := query.NewDataDefFromStrings(dataDefs)
 	if err != nil {
 		t = query.NewUnknownDataDef()
@@ -478,7 +458,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 		query.WithColumnData(t),
 	}
 
-	return query.NewColumnWithOptions(opts...), true
+	return query.NewColumnWithOptions(opts...)
 }
 
 func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) (query.Column, error) {
diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..1cff3dd 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -254,7 +254,11 @@ func (col *column) DefinitionString() string {
 	if col.ColumnDef == nil {
 		return col.name
 	}
-	return col.name + " " + col.ColumnDef.String()
+	def := col.ColumnDef.String()
+	if len(def) == 0 {
+		return col.name
+	}
+	return col.name + " " + def
 }
 
 // Definition returns the column definition.
-- 
2.43.0


From 610d46fb4f9341b0c6e8cbda064be8a62e1430c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:13 +0000
Subject: [PATCH 17/69] fix: keep multi-word types and sizes with a scale in
 column definitions

---
 sql/query/column_def.go | 55 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/sql/query/column_def.go b/sql/query/column_def.go
index c4f37c7..9a762a0 100644
--- a/sql/query/column_def.go
+++ b/sql/query/column_def.go
@@ -17,6 +17,7 @@ package query
 import (
 	"fmt"
 	"strconv"
+	std_strings "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
@@ -38,6 +39,7 @@ type dataDef struct {
 	consts Constraint
 	Type   DataType
 	Length int
+	scale  int
 }
 
 // NewDataDef returns a new DataType instance with the specified type and length.
@@ -46,6 +48,7 @@ func NewDataDef(t DataType, l int) ColumnDef {
 		consts: ConstraintNone,
 		Type:   t,
 		Length: l,
+		scale:  -1,
 	}
 }
 
@@ -55,6 +58,7 @@ func NewUnknownDataDef() ColumnDef {
 		consts: ConstraintNone,
 		Type:   UnknownData,
 		Length: 0,
+		scale:  -1,
 	}
 }
 
@@ -67,22 +71,49 @@ func NewDataDefFrom(s string, l int) (ColumnDef, error) {
 	return NewDataDef(dt, l), nil
 }
 
+// NewDataDefFromStrings returns the data definition of the specified type names with an optional parenthesized size.
 func NewDataDefFromStrings(strs []string) (ColumnDef, error) {
-	if len(strs) < 1 {
-		return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
-	}
-	dt := strs[0]
-	dl := -1
-	if 4 <= len(strs) {
-		if strs[1] == "(" || strs[3] == ")" {
-			v, err := strconv.Atoi(strs[2])
+	names := strs
+	size := -1
+	scale := -1
+	for n, str := range strs {
+		if str != "(" {
+			continue
+		}
+		if len(strs) < (n+3) || strs[n+2] != ")" {
+			return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
+		}
+		names = strs[:n]
+		for i, v := range std_strings.Split(strs[n+1], ",") {
+			num, err := strconv.Atoi(std_strings.TrimSpace(v))
 			if err != nil {
 				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
 			}
-			dl = v
+			switch i {
+			case 0:
+				size = num
+			case 1:
+				scale = num
+			}
+		}
+		break
+	}
+	if len(names) < 1 {
+		return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
+	}
+	dt, err := NewDataTypeFrom(strings.JoinWithSpace(names))
+	if err != nil {
+		dt, err = NewDataTypeFrom(names[0])
+		if err != nil {
+			return nil, err
 		}
 	}
-	return NewDataDefFrom(dt, dl)
+	return &dataDef{
+		consts: ConstraintNone,
+		Type:   dt,
+		Length: size,
+		scale:  scale,
+	}, nil
 }
 
 // Constraint returns the column constrains.
@@ -103,7 +134,9 @@ func (da *dataDef) DataTypeSize() int {
 // String returns the string representation.
 func (da *dataDef) String() string {
 	s := da.Type.String()
-	if 0 < da.Length {
+	if 0 < da.Length && 0 <= da.scale {
+		s += fmt.Sprintf("(%d, %d)", da.Length, da.scale)
+	} else if 0 < da.Length {
 		s += fmt.Sprintf("(%d)", da.Length)
 	}
 	return s
-- 
2.43.0


From 1e9c9e1023d8902a70a59e6c2b6acaa49116d728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 18/69] fix: give the NAME data type its name

---
 sql/query/data_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 52f9ffc..c44084e 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -110,6 +110,7 @@ var dataTypeStrings = map[DataType]string{
 	SerialType:          "SERIAL",
 	BigSerialType:       "BIGSERIAL",
 	SmallSerialType:     "SMALLSERIAL",
+	NameType:            "NAME",
 }
 
 // NewDataTypeFrom returns a data type from the specified value.
-- 
2.43.0


From a464e2a698e1d919c1402e90382a9a4880e4c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 19/69] fix: convert the values of DOUBLE PRECISION columns

---
 sql/query/column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 1cff3dd..5d579e4 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -219,7 +219,7 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 			return err
 		}
 		col.Literal.SetValue(v)
-	case DoubleType:
+	case DoubleType, DoublePrecisionType:
 		var v float64
 		if err := safecast.ToFloat64(col.v, &v); err != nil {
 			return err
-- 
2.43.0


From c71ac8249ab3de3caebec0fde789ec7a4b5f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:16 +0000
Subject: [PATCH 20/69] fix: keep the schema name of CREATE TABLE, DROP TABLE
 and INSERT

---
 sql/parser/sqlite/parser_antlr_visitor.go | 22 ++++++++++++++++++----
 sql/query/create_table.go                 |  2 +-
 sql/query/schema.go                       |  7 +++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 950ae7e..437a910 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -222,9 +222,13 @@ func newDropTableWith(ctx antlr.IDrop_table_stmtContext) query.DropTable {
 		ifExists = query.NewIfExistsWith(true)
 	}
 	tbls := query.NewTables()
-	for _, tbl := range ctx.AllTable_name() {
+	for n, tbl := range ctx.AllTable_name() {
 		tblName := strings.UnEscapeNameString(tbl.GetText())
-		tbls = append(tbls, query.NewTableWith(tblName))
+		opts := []query.TableOption{}
+		if n == 0 {
+			opts = newTableOptionsWith(ctx.Schema_name())
+		}
+		tbls = append(tbls, query.NewTableWith(tblName, opts...))
 	}
 	return query.NewDropTableWith(tbls, ifExists)
 }
@@ -347,7 +351,17 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 		}
 	}
 	// Return schema.
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)), nil
+	return query.NewSchemaWith(tblName,
+		query.WithSchemaTable(query.NewTableWith(tblName, newTableOptionsWith(ctx.Schema_name())...)),
+		query.WithSchemaColumns(columns),
+		query.WithSchemaIndexes(indexes)), nil
+}
+
+func newTableOptionsWith(ctx antlr.ISchema_nameContext) []query.TableOption {
+	if ctx == nil {
+		return nil
+	}
+	return []query.TableOption{query.WithTableSchema(strings.UnEscapeNameString(ctx.GetText()))}
 }
 
 func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) (query.Schema, error) {
@@ -479,7 +493,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 		return nil, newErrNotSupported(ctx)
 	}
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
-	tbl := query.NewTableWith(tblName)
+	tbl := query.NewTableWith(tblName, newTableOptionsWith(ctx.Schema_name())...)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
diff --git a/sql/query/create_table.go b/sql/query/create_table.go
index 46fb256..7c7fbc2 100644
--- a/sql/query/create_table.go
+++ b/sql/query/create_table.go
@@ -71,7 +71,7 @@ func (stmt *createTableStmt) String() string {
 	elems := []string{
 		"CREATE TABLE",
 		stmt.IfNotExistsOpt.String(),
-		stmt.TableName(),
+		stmt.schema.FullTableName(),
 		columnsStr,
 	}
 	return strings.JoinWithSpace(elems)
diff --git a/sql/query/schema.go b/sql/query/schema.go
index 107d67f..8449475 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -74,6 +74,13 @@ func NewSchemaWith(name string, opts ...SchemaOption) Schema {
 	return s
 }
 
+// WithSchemaTable returns a schema option to set the table.
+func WithSchemaTable(tbl Table) func(*schema) {
+	return func(schema *schema) {
+		schema.Table = tbl
+	}
+}
+
 // WithSchemaColumns returns a schema option to set the columns.
 func WithSchemaColumns(columns Columns) func(*schema) {
 	return func(schema *schema) {
-- 
2.43.0


From 98df2b6cd0388157d5d21f2a042b5a8ce81770d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:22 +0000
Subject: [PATCH 21/69] fix: bind each parameter as one escaped literal at its
 own placeholder

---
 sql/stmt/bind_impl.go       | 75 ++++++++++++++++++++++++++++++++-----
 sql/stmt/bind_param_impl.go | 34 +++++++++++++----
 2 files changed, 91 insertions(+), 18 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..8b104b6 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,6 +16,7 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
@@ -62,22 +63,19 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 
 // Statement returns the statement with the bound parameters.
 func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
+	params := make([]string, len(stmt.params))
 	for n, param := range stmt.params {
 		s, err := param.String()
 		if err != nil {
 			return nil, err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
-			continue
-		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
+		params[n] = s
+	}
+	q, bound := bindPlaceholders(stmt.query, params)
+	for n, s := range params {
+		if !bound[n] {
+			return nil, fmt.Errorf("placeholder (%s/"+pgPlaceholderFormat+") %w: %s", stdPlaceholder, n+1, ErrNotFound, s)
 		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
 	}
 	stmts, err := sql.NewParser().ParseString(q)
 	if err != nil {
@@ -85,3 +83,60 @@ func (stmt *bindStmt) Statements() ([]Statement, error) {
 	}
 	return stmts, nil
 }
+
+// bindPlaceholders replaces the placeholders of the query with the specified parameters in one pass, and reports
+// which parameters have been bound. String literals, quoted identifiers and comments are left as they are.
+func bindPlaceholders(query string, params []string) (string, []bool) {
+	var sb strings.Builder
+	bound := make([]bool, len(params))
+	nextParam := 0
+	for i := 0; i < len(query); {
+		n := quotedLen(query[i:])
+		if 0 < n {
+			sb.WriteString(query[i : i+n])
+			i += n
+			continue
+		}
+		if query[i] != stdPlaceholder[0] && query[i] != pgPlaceholderFormat[0] {
+			sb.WriteByte(query[i])
+			i++
+			continue
+		}
+		n = 1
+		for i+n < len(query) && '0' <= query[i+n] && query[i+n] <= '9' {
+			n++
+		}
+		placeholder := query[i : i+n]
+		i += n
+		idx := -1
+		if placeholder == stdPlaceholder {
+			idx = nextParam
+			nextParam++
+		} else if num, err := strconv.Atoi(placeholder[1:]); err == nil {
+			idx = num - 1
+		}
+		if idx < 0 || len(params) <= idx {
+			sb.WriteString(placeholder)
+			continue
+		}
+		// Separates the parameter from the adjacent tokens.
+		sb.WriteString(" " + params[idx] + " ")
+		bound[idx] = true
+	}
+	return sb.String(), bound
+}
+
+// quotedLen returns the length of the string literal, quoted identifier or comment which the query starts with, otherwise 0.
+func quotedLen(query string) int {
+	closers := map[string]string{"'": "'", "\"": "\"", "`": "`", "[": "]", "--": "\n", "/*": "*/"}
+	for opener, closer := range closers {
+		if !strings.HasPrefix(query, opener) {
+			continue
+		}
+		if n := strings.Index(query[len(opener):], closer); 0 <= n {
+			return len(opener) + n + len(closer)
+		}
+		return len(query)
+	}
+	return 0
+}
diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..f2c0b29 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -15,10 +15,13 @@
 package stmt
 
 import (
+	"fmt"
+	"math"
 	"strconv"
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -30,22 +33,37 @@ func NewBindParam(v any) BindParam {
 	return &bindParam{v: v}
 }
 
-// String returns the string representation of the bind parameter.
+// String returns the literal representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
-	case string:
-		return "'" + v + "'", nil
+	case nil:
+		return "NULL", nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
-			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
+			return strings.EscapeString(v.Format("2006-01-02 15:04:05")), nil
 		}
-		return "'" + v.Format("2006-01-02 15:04:05.000000") + "'", nil
+		return strings.EscapeString(v.Format("2006-01-02 15:04:05.000000")), nil
 	case float64:
-		return strconv.FormatFloat(v, 'g', -1, 64), nil
+		return floatString(v, 64)
 	case float32:
-		return strconv.FormatFloat(float64(v), 'g', -1, 32), nil
+		return floatString(float64(v), 32)
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool:
+		var to string
+		err := safecast.ToString(v, &to)
+		return to, err
 	}
 
 	var to string
-	return to, safecast.ToString(p.v, &to)
+	err := safecast.ToString(p.v, &to)
+	if err != nil {
+		return "", err
+	}
+	return strings.EscapeString(to), nil
+}
+
+func floatString(v float64, bitSize int) (string, error) {
+	if math.IsNaN(v) || math.IsInf(v, 0) {
+		return "", fmt.Errorf("%w parameter: %v", ErrInvalid, v)
+	}
+	return strconv.FormatFloat(v, 'g', -1, bitSize), nil
 }
-- 
2.43.0


From 0c415011168d6c42f8c30e1668d1d74f2e8bf6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 22/69] fix: resolve function names exactly instead of by
 prefix

---
 sql/fn/aggr_func.go     | 13 +++++-----
 sql/fn/executor_func.go | 53 ++++++++++++++++++++---------------------
 sql/fn/names.go         |  4 +++-
 3 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..949946f 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -39,17 +39,16 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 
 // NewAggregatorForName creates an Aggregator instance for the specified function name.
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
-	upperName := strings.ToUpper(name)
-	switch {
-	case strings.HasPrefix(upperName, SumFunctionName):
+	switch strings.ToUpper(name) {
+	case SumFunctionName:
 		return NewSum(opts...)
-	case strings.HasPrefix(upperName, AvgFunctionName):
+	case AvgFunctionName:
 		return NewAvg(opts...)
-	case strings.HasPrefix(upperName, MinFunctionName):
+	case MinFunctionName:
 		return NewMin(opts...)
-	case strings.HasPrefix(upperName, MaxFunctionName):
+	case MaxFunctionName:
 		return NewMax(opts...)
-	case strings.HasPrefix(upperName, CountFunctionName):
+	case CountFunctionName:
 		return NewCount(opts...)
 	}
 	return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..c5c737a 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -20,62 +20,61 @@ import (
 
 // NewExecutorForName returns a function executor with the specified name.
 func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
-	upperName := strings.ToUpper(name)
 	var ex Executor
-	switch {
+	switch strings.ToUpper(name) {
 	// Math.
-	case strings.HasPrefix(upperName, AbsFunctionName):
+	case AbsFunctionName:
 		ex = NewAbs(opts...)
-	case strings.HasPrefix(upperName, FloorFunctionName):
+	case FloorFunctionName:
 		ex = NewFloor(opts...)
-	case strings.HasPrefix(upperName, CeilFunctionName):
+	case CeilFunctionName, ceilingFunctionName:
 		ex = NewCeil(opts...)
-	case strings.HasPrefix(upperName, RoundFunctionName):
+	case RoundFunctionName:
 		ex = NewRound(opts...)
-	case strings.HasPrefix(upperName, SqrtFunctionName):
+	case SqrtFunctionName:
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
+	case LogFunctionName:
 		ex = NewLog(opts...)
-	case strings.HasPrefix(upperName, Log10FunctionName):
+	case Log10FunctionName:
 		ex = NewLog10(opts...)
-	case strings.HasPrefix(upperName, ExpFunctionName):
+	case ExpFunctionName:
 		ex = NewExp(opts...)
-	case strings.HasPrefix(upperName, PowerFunctionName):
+	case PowerFunctionName:
 		ex = NewPower(opts...)
-	case strings.HasPrefix(upperName, ModFunctionName):
+	case ModFunctionName:
 		ex = NewMod(opts...)
-	case strings.HasPrefix(upperName, SinFunctionName):
+	case SinFunctionName:
 		ex = NewSin(opts...)
-	case strings.HasPrefix(upperName, CosFunctionName):
+	case CosFunctionName:
 		ex = NewCos(opts...)
-	case strings.HasPrefix(upperName, TanFunctionName):
+	case TanFunctionName:
 		ex = NewTan(opts...)
-	case strings.HasPrefix(upperName, RandFunctionName):
+	case RandFunctionName:
 		ex = NewRand(opts...)
-	case strings.HasPrefix(upperName, PiFunctionName):
+	case PiFunctionName:
 		ex = NewPI(opts...)
 	// String.
-	case strings.HasPrefix(upperName, UpperFunctionName):
+	case UpperFunctionName:
 		ex = NewUpper(opts...)
-	case strings.HasPrefix(upperName, LowerFunctionName):
+	case LowerFunctionName:
 		ex = NewLower(opts...)
-	case strings.HasPrefix(upperName, TrimFunctionName):
+	case TrimFunctionName:
 		ex = NewTrim(opts...)
 	// Time.
-	case strings.HasPrefix(upperName, CurrentTimestampFunctionName):
+	case CurrentTimestampFunctionName:
 		ex = NewCurrentTimestamp(opts...)
-	case strings.HasPrefix(upperName, NowFunctionName):
+	case NowFunctionName:
 		ex = NewNow(opts...)
 	// Airthmetic.
-	case strings.EqualFold(upperName, AddOperatorID):
+	case AddOperatorID:
 		ex = NewAddOperator(opts...)
-	case strings.EqualFold(upperName, SubOperatorID):
+	case SubOperatorID:
 		ex = NewSubOperator(opts...)
-	case strings.EqualFold(upperName, MulOperatorID):
+	case MulOperatorID:
 		ex = NewMulOperator(opts...)
-	case strings.EqualFold(upperName, DivOperatorID):
+	case DivOperatorID:
 		ex = NewDivOperator(opts...)
-	case strings.EqualFold(upperName, ModOperatorID):
+	case ModOperatorID:
 		ex = NewModOperator(opts...)
 	default:
 		return nil, NewErrNotSupportedFunction(name)
diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..2335f60 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -54,6 +54,8 @@ const (
 	MulOperatorID = "*"
 	DivOperatorID = "/"
 	ModOperatorID = "%"
+	// ceilingFunctionName is the synonym of CeilFunctionName.
+	ceilingFunctionName = "CEILING"
 )
 
 var registeredFunctionNames = []string{
@@ -117,7 +119,7 @@ func IsRegisteredFunction(name string) bool {
 					return true
 				}
 			}
-			if strings.HasPrefix(name, fn+"(") || strings.HasSuffix(name, ")") {
+			if strings.HasPrefix(name, fn+"(") || name == fn+")" {
 				return true
 			}
 		}
-- 
2.43.0


From d95f68132edc8a2beecefad86bae36b37f070861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:49 +0000
Subject: [PATCH 23/69] fix: recognise function kinds in any letter case and
 keep the given aggregator

---
 sql/fn/arith_func.go | 2 +-
 sql/fn/func_impl.go  | 3 ++-
 sql/fn/type.go       | 9 ++++++---
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..a93b02b 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -32,7 +32,7 @@ func NewArithOperatorFor(ope string, opts ...ExecutorOption) (Executor, error) {
 	case ModOperatorID:
 		return NewModOperator(opts...), nil
 	default:
-		return nil, fmt.Errorf("unknown arithmetic operator: %s", ope)
+		return nil, fmt.Errorf("arithmetic operator (%s) %w", ope, ErrNotSupported)
 	}
 }
 
diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..ececeaa 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
@@ -99,7 +100,7 @@ func (fn *function) Name() string {
 
 // IsName returns true whether the function name is the specified one.
 func (fn *function) IsName(name string) bool {
-	return fn.name == name
+	return strings.EqualFold(fn.name, name)
 }
 
 // Type returns the function type.
diff --git a/sql/fn/type.go b/sql/fn/type.go
index 5286feb..c3d8ea5 100644
--- a/sql/fn/type.go
+++ b/sql/fn/type.go
@@ -14,7 +14,10 @@
 
 package fn
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // FunctionType represents a function type.
 type FunctionType int
@@ -35,7 +38,7 @@ const (
 
 // NewFunctionTypeForName returns a FunctionType based on the function name.
 func NewFunctionTypeForName(name string) (FunctionType, error) {
-	switch name {
+	switch strings.ToUpper(name) {
 	case AbsFunctionName, FloorFunctionName, CeilFunctionName, RoundFunctionName, SqrtFunctionName, LogFunctionName, Log10FunctionName, ExpFunctionName, PowerFunctionName, ModFunctionName, SinFunctionName, CosFunctionName, TanFunctionName, RandFunctionName, PiFunctionName:
 		return MathFunction, nil
 	case SumFunctionName, AvgFunctionName, CountFunctionName, MaxFunctionName, MinFunctionName:
@@ -47,6 +50,6 @@ func NewFunctionTypeForName(name string) (FunctionType, error) {
 	case UpperFunctionName, LowerFunctionName, TrimFunctionName:
 		return StringFunction, nil
 	default:
-		return UnknownFunctionType, fmt.Errorf("unknown function type: %s", name)
+		return UnknownFunctionType, fmt.Errorf("function type (%s) %w", name, ErrNotSupported)
 	}
 }
-- 
2.43.0


From 46fb58c6aa7a0c4ae59d20fc87bacdbe0ea10f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:50 +0000
Subject: [PATCH 24/69] fix: compute FLOOR, CEIL, ROUND, SQRT, POWER, RAND, /
 and % on their whole domain

---
 sql/fn/arith_func.go |  9 ++++++++-
 sql/fn/math_func.go  | 23 +++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index a93b02b..6f449d0 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"math"
 )
 
 // NewArithOperatorFor returns a new arithmetic function with the given operator and implementation.
@@ -74,6 +75,9 @@ func NewDivOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		DivOperatorID,
 		func(v1, v2 float64) (float64, error) {
+			if v2 == 0 {
+				return 0, newErrInvalidArguments(DivOperatorID, v1, v2)
+			}
 			return (v1 / v2), nil
 		},
 		opts...,
@@ -85,7 +89,10 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
-			return (float64(int(v1) % int(v2))), nil
+			if v2 == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
+			return math.Mod(v1, v2), nil
 		},
 		opts...,
 	)
diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..52ca257 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -20,6 +20,14 @@ import (
 	"math"
 )
 
+// integerOf returns the integral value as an integer if it is in the integer range, otherwise as it is.
+func integerOf(v float64) any {
+	if float64(math.MinInt) <= v && v < -float64(math.MinInt) {
+		return int(v)
+	}
+	return v
+}
+
 // NewAbs returns a new abs function.
 func NewAbs(opts ...ExecutorOption) Executor {
 	ex := NewMathFunctionWith(
@@ -43,7 +51,7 @@ func NewFloor(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(FloorFunctionName, args)
 			}
-			return int(math.Floor(args[0])), nil
+			return integerOf(math.Floor(args[0])), nil
 		},
 		opts...,
 	)
@@ -57,7 +65,7 @@ func NewCeil(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(CeilFunctionName, args)
 			}
-			return int(math.Ceil(args[0])), nil
+			return integerOf(math.Ceil(args[0])), nil
 		},
 		opts...,
 	)
@@ -71,7 +79,7 @@ func NewRound(opts ...ExecutorOption) Executor {
 			if len(args) != 1 {
 				return nil, newErrInvalidArguments(RoundFunctionName, args)
 			}
-			return int(math.Round(args[0])), nil
+			return integerOf(math.Round(args[0])), nil
 		},
 		opts...,
 	)
@@ -86,7 +94,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
@@ -155,9 +163,12 @@ func NewPower(opts ...ExecutorOption) Executor {
 			}
 			base := args[0]
 			exp := args[1]
-			if base < 0 && exp != float64(int(exp)) {
+			if base < 0 && exp != math.Trunc(exp) {
 				return nil, newErrNegativeValue(args)
 			}
+			if base == 0 && exp < 0 {
+				return nil, newErrInvalidArguments(PowerFunctionName, args)
+			}
 			return math.Pow(base, exp), nil
 		},
 		opts...,
@@ -241,7 +252,7 @@ func NewRand(opts ...ExecutorOption) Executor {
 			}
 			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / float64(1<<53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From fb634efc74d7d21290418af588c1463291b682fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:14 +0000
Subject: [PATCH 25/69] fix: report a column missing from the row instead of
 computing with its name

---
 sql/fn/executor_impl.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sql/fn/executor_impl.go b/sql/fn/executor_impl.go
index 129337c..f01eecd 100644
--- a/sql/fn/executor_impl.go
+++ b/sql/fn/executor_impl.go
@@ -16,6 +16,9 @@ package fn
 
 import (
 	"fmt"
+	"strconv"
+
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // ExecutorFunc is a function type that takes any number of arguments and returns a value and an error.
@@ -100,13 +103,25 @@ func (ex *execImpl) ExecuteMap(m map[string]any) (any, error) {
 	for _, arg := range ex.args {
 		v, ok := m[arg]
 		if !ok {
-			v = arg
+			v, ok = literalOf(arg)
+		}
+		if !ok {
+			return nil, fmt.Errorf("%s argument (%s) %w", ex.name, arg, ErrNotFound)
 		}
 		row = append(row, v)
 	}
 	return ex.ExecuteArgs(row)
 }
 
+// literalOf returns the value if the argument is a string or numeric literal.
+func literalOf(arg string) (string, bool) {
+	if len(arg) > 0 && arg[0] == '\'' {
+		return strings.UnEscapeString(arg), true
+	}
+	_, err := strconv.ParseFloat(arg, 64)
+	return arg, err == nil
+}
+
 // Execute executes the function with the provided value.
 func (ex *execImpl) Execute(v any) (any, error) {
 	switch v := v.(type) {
-- 
2.43.0


From 0cecb486ec34a008eba78a32149d5bba70b5a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:06 +0000
Subject: [PATCH 26/69] fix: keep groups apart whose values contain the
 delimiter or are NULL

---
 sql/fn/groupby.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..8bf74d3 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -23,6 +24,7 @@ import (
 
 const (
 	groupByDelimiter = ","
+	groupByNullKey   = "NULL"
 )
 
 // GroupBy represents a group by clause in a SQL query.
@@ -45,18 +47,23 @@ func NewGroupBySet(groupBys ...GroupBy) GroupBySet {
 }
 
 // NewGroupBySetKey creates a GroupBySet from a slice of GroupBy and a slice of group keys.
+// The keys are quoted so that distinct combinations of the keys have distinct sets.
 func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	if len(groupBys) != len(groupKeys) {
 		return "", fmt.Errorf("groupBys and groupKeys must have the same length: %d != %d", len(groupBys), len(groupKeys))
 	}
 	groupBySet := []GroupBy{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, NewGroupBy(groupByNullKey))
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		groupBySet = append(groupBySet, NewGroupBy(strconv.Quote(groupKeyStr)))
 	}
 	return NewGroupBySet(groupBySet...), nil
 }
-- 
2.43.0


From 620c92e2226391d932b7f236b9c3e62fdc9ab26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:06 +0000
Subject: [PATCH 27/69] fix: report infinite minimums

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From 322df77520508777fd708aea3f7361b489be95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:33 +0000
Subject: [PATCH 28/69] fix: group rows given as objects, report groups in
 feeding order and sort them in both directions

---
 sql/fn/aggr_impl.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..003ee54 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -38,6 +39,7 @@ type aggrImpl struct {
 	counts      int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
+	groupOrder  []GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
@@ -59,6 +61,7 @@ func newAggr() *aggrImpl {
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
 		counts:      0,
+		groupOrder:  make([]GroupBySet, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
@@ -203,6 +206,8 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupOrder = make([]GroupBySet, 0)
+	aggr.groupKeys = make(map[GroupBySet][]any)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -238,7 +243,8 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			return err
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
-			aggr.groupKeys[groupSetKey] = groupKeys
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
+			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
 			aggr.groupCounts[groupSetKey] = 0
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
@@ -282,6 +288,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("group column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
@@ -330,10 +344,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		groupSetKeys := slices.Clone(aggr.groupOrder)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
@@ -345,6 +356,12 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 				return false
 			default:
 				for k := range groupSetKeyiSlice {
+					if groupSetKeyiSlice[k] == nil || groupSetKeyjSlice[k] == nil {
+						if groupSetKeyiSlice[k] == nil && groupSetKeyjSlice[k] == nil {
+							continue
+						}
+						return groupSetKeyiSlice[k] == nil // NULL comes first
+					}
 					cmp, err := safecast.Compare(groupSetKeyiSlice[k], groupSetKeyjSlice[k])
 					if err != nil {
 						return false // If comparison fails, do not change the order
@@ -361,14 +378,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 
 		orderByDescFunc := func(i, j int) bool {
-			return !orderByAscFunc(i, j)
+			return orderByAscFunc(j, i)
 		}
 
 		switch orderBy {
 		case OrderByAsc:
-			sort.Slice(groupSetKeys, orderByAscFunc)
+			sort.SliceStable(groupSetKeys, orderByAscFunc)
 		case OrderByDesc:
-			sort.Slice(groupSetKeys, orderByDescFunc)
+			sort.SliceStable(groupSetKeys, orderByDescFunc)
 		}
 
 		for _, groupSetKey := range groupSetKeys {
-- 
2.43.0


From b4437dfdb125c30b9fd3a168d1434dc87a337a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:38 +0000
Subject: [PATCH 29/69] fix: leave an aggregator as it was when it rejects a
 row

---
 sql/fn/aggr_impl.go | 74 +++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 003ee54..205fc59 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -234,51 +234,59 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 	}
 
+	// Converts all values and aggregates them only after that, so that a rejected row leaves the aggregator as it was.
+
 	groupBys, isGrouping := aggr.GroupBys()
-	if isGrouping {
-		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
-		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
+	groupKeys := row[:len(groupBys)]
+	values := row[len(groupBys):]
+	inputs := make([]float64, len(values))
+	for n, rv := range values {
+		fv, err := toFloat64(rv)
 		if err != nil {
-			return err
+			return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
 		}
-		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
-			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
-			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
-			aggr.groupCounts[groupSetKey] = 0
-			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
-			for n := range aggr.groupAggrs[groupSetKey] {
+		inputs[n] = fv
+	}
+
+	aggrs := aggr.aggrs
+	groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
+	if err != nil {
+		return err
+	}
+	if isGrouping {
+		groupAggrs, ok := aggr.groupAggrs[groupSetKey]
+		if !ok {
+			groupAggrs = make([]float64, len(values))
+			for n := range groupAggrs {
 				nv, err := aggr.resetFunc(aggr)
 				if err != nil {
 					return err
 				}
-				aggr.groupAggrs[groupSetKey][n] = nv
+				groupAggrs[n] = nv
 			}
 		}
-		for n, rv := range row[groupKeysCnt:] {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
-			}
-			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
-			if err != nil {
-				return err
-			}
-			aggr.groupAggrs[groupSetKey][n] = nv
+		aggrs = groupAggrs
+	}
+
+	nextAggrs := make([]float64, len(values))
+	for n, fv := range inputs {
+		nv, err := aggr.aggFunc(aggr, aggrs[n], fv)
+		if err != nil {
+			return err
+		}
+		nextAggrs[n] = nv
+	}
+
+	if isGrouping {
+		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
+			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
+			aggr.groupCounts[groupSetKey] = 0
 		}
+		aggr.groupAggrs[groupSetKey] = nextAggrs
 		aggr.groupCounts[groupSetKey]++
 	} else {
-		for n, rv := range row {
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
-			}
-			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
-			if err != nil {
-				return err
-			}
-			aggr.aggrs[n] = nv
-		}
+		aggr.aggrs = nextAggrs
 		aggr.counts++
 	}
 
-- 
2.43.0


From ad17909c16267820080bacc95e2875764950c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:07 +0000
Subject: [PATCH 30/69] fix: aggregate and count values only, not NULLs, and
 count values of any type

---
 sql/fn/aggr_impl.go | 52 ++++++++++++++++++++++++++++++++-------------
 sql/fn/count.go     |  1 +
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 205fc59..bfbfc00 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -36,13 +36,14 @@ type aggrImpl struct {
 	args        []string
 	columns     []string
 	aggrs       []float64
-	counts      int
+	counts      []int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupOrder  []GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
-	groupCounts map[GroupBySet]int
+	groupCounts map[GroupBySet][]int
+	anyValue    bool
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
@@ -60,11 +61,12 @@ func newAggr() *aggrImpl {
 		groupBys:    []GroupBy{},
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
-		counts:      0,
+		counts:      make([]int, 0),
 		groupOrder:  make([]GroupBySet, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
-		groupCounts: make(map[GroupBySet]int),
+		groupCounts: make(map[GroupBySet][]int),
+		anyValue:    false,
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
@@ -115,6 +117,14 @@ func withAggrFinalizeFunc(finalFunc AggrFinalizeFunc) aggrOption {
 	}
 }
 
+// withAggrAnyValue lets the Aggr aggregator accept values that are not numeric.
+func withAggrAnyValue() aggrOption {
+	return func(aggr *aggrImpl) error {
+		aggr.anyValue = true
+		return nil
+	}
+}
+
 // withAggrGroupBys sets the group by column for the Aggr aggregator.
 func withAggrGroupBys(groups ...GroupBy) aggrOption {
 	return func(aggr *aggrImpl) error {
@@ -204,12 +214,12 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 		aggr.aggrs[n] = nv
 	}
 
-	aggr.counts = 0
+	aggr.counts = make([]int, len(aggr.columns))
 
 	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupKeys = make(map[GroupBySet][]any)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
-	aggr.groupCounts = make(map[GroupBySet]int)
+	aggr.groupCounts = make(map[GroupBySet][]int)
 
 	return nil
 }
@@ -226,6 +236,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		case nil:
 			return 0, nil
 		default:
+			if aggr.anyValue {
+				return 0, nil
+			}
 			var fv float64
 			if err := safecast.ToFloat64(v, &fv); err != nil {
 				return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
@@ -249,14 +262,17 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	aggrs := aggr.aggrs
+	counts := aggr.counts
 	groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 	if err != nil {
 		return err
 	}
 	if isGrouping {
 		groupAggrs, ok := aggr.groupAggrs[groupSetKey]
+		groupCounts := aggr.groupCounts[groupSetKey]
 		if !ok {
 			groupAggrs = make([]float64, len(values))
+			groupCounts = make([]int, len(values))
 			for n := range groupAggrs {
 				nv, err := aggr.resetFunc(aggr)
 				if err != nil {
@@ -266,28 +282,34 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			}
 		}
 		aggrs = groupAggrs
+		counts = groupCounts
 	}
 
-	nextAggrs := make([]float64, len(values))
+	nextAggrs := slices.Clone(aggrs)
+	nextCounts := slices.Clone(counts)
 	for n, fv := range inputs {
+		// NULL is not a value to be aggregated, while the asterisk stands for the row itself.
+		if values[n] == nil && aggr.args[n] != Asterisk {
+			continue
+		}
 		nv, err := aggr.aggFunc(aggr, aggrs[n], fv)
 		if err != nil {
 			return err
 		}
 		nextAggrs[n] = nv
+		nextCounts[n]++
 	}
 
 	if isGrouping {
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
-			aggr.groupCounts[groupSetKey] = 0
 		}
 		aggr.groupAggrs[groupSetKey] = nextAggrs
-		aggr.groupCounts[groupSetKey]++
+		aggr.groupCounts[groupSetKey] = nextCounts
 	} else {
 		aggr.aggrs = nextAggrs
-		aggr.counts++
+		aggr.counts = nextCounts
 	}
 
 	return nil
@@ -405,14 +427,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 			if !ok {
 				return nil, fmt.Errorf("group values %w for group %v", ErrNotFound, groupSetKey)
 			}
-			groupCnt, ok := aggr.groupCounts[groupSetKey]
+			groupCnts, ok := aggr.groupCounts[groupSetKey]
 			if !ok {
 				return nil, fmt.Errorf("group count %w for group %v", ErrNotFound, groupSetKey)
 			}
 			row := make([]any, 0)
 			row = append(row, groupSetKeyValues...)
-			for _, columnValue := range columnValues {
-				fv, err := aggr.finalFunc(aggr, columnValue, groupCnt)
+			for n, columnValue := range columnValues {
+				fv, err := aggr.finalFunc(aggr, columnValue, groupCnts[n])
 				if err != nil {
 					return nil, err
 				}
@@ -422,8 +444,8 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 	} else {
 		row := make([]any, 0)
-		for _, value := range aggr.aggrs {
-			fv, err := aggr.finalFunc(aggr, value, aggr.counts)
+		for n, value := range aggr.aggrs {
+			fv, err := aggr.finalFunc(aggr, value, aggr.counts[n])
 			if err != nil {
 				return nil, err
 			}
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..8956ce9 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -40,6 +40,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 
 	opts = append(opts,
 		withAggrName("COUNT"),
+		withAggrAnyValue(),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
 				return 0, nil
-- 
2.43.0


From d488b51c78ffe51bd5a09510fadc7a81dbfd696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:36 +0000
Subject: [PATCH 31/69] fix: skip exactly the grouping columns when joining the
 results of several aggregates

---
 sql/fn/aggr_set.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..068cc21 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -74,13 +74,16 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 	}
 
 	columns := []string{}
+	groupCnts := make([]int, len(reseltSets))
 	for n, resultSet := range reseltSets {
 		switch n {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the grouping columns as they are already included
+			groupBys, _ := (*aggrSet)[n].GroupBys()
+			groupCnts[n] = len(groupBys)
+			columns = append(columns, resultSet.Columns()[groupCnts[n]:]...)
 		}
 	}
 
@@ -100,14 +103,10 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(rows) <= rowNo {
 					return nil, fmt.Errorf("row %d not found in result set %d", rowNo, resultSetNo)
 				}
-				switch len(row) {
-				case 0:
+				if len(row) < groupCnts[resultSetNo] {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
-				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
 				}
+				rows[rowNo] = append(rows[rowNo], row[groupCnts[resultSetNo]:]...) // Skip the grouping columns
 			}
 			rowNo++
 		}
-- 
2.43.0


From b81cdc8d3fd0669471ecddb45f5cb34e63525ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:26 +0000
Subject: [PATCH 32/69] fix: let a set of aggregates reject a row as a whole

---
 sql/fn/aggr_impl.go | 66 +++++++++++++++++++++++++++++----------------
 sql/fn/aggr_set.go  | 16 ++++++++++-
 2 files changed, 58 insertions(+), 24 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index bfbfc00..a341556 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -227,8 +227,13 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 // AggregateRow aggregates a row of data using the aggregator.
 // The row is expected to be an array where the first element is the group value (if grouping is enabled),.
 func (aggr *aggrImpl) AggregateRow(row []any) error {
+	return aggr.Aggregate(row)
+}
+
+// prepareRow checks a row of data, and returns the function to aggregate it.
+func (aggr *aggrImpl) prepareRow(row []any) (func(), error) {
 	if len(aggr.columns) != len(row) {
-		return fmt.Errorf("%w column count (%d != %d)", ErrInvalid, len(aggr.columns), len(row))
+		return nil, fmt.Errorf("%w column count (%d != %d)", ErrInvalid, len(aggr.columns), len(row))
 	}
 
 	toFloat64 := func(v any) (float64, error) {
@@ -256,7 +261,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	for n, rv := range values {
 		fv, err := toFloat64(rv)
 		if err != nil {
-			return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
+			return nil, fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
 		}
 		inputs[n] = fv
 	}
@@ -265,7 +270,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	counts := aggr.counts
 	groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	if isGrouping {
 		groupAggrs, ok := aggr.groupAggrs[groupSetKey]
@@ -276,7 +281,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			for n := range groupAggrs {
 				nv, err := aggr.resetFunc(aggr)
 				if err != nil {
-					return err
+					return nil, err
 				}
 				groupAggrs[n] = nv
 			}
@@ -294,35 +299,40 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 		nv, err := aggr.aggFunc(aggr, aggrs[n], fv)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		nextAggrs[n] = nv
 		nextCounts[n]++
 	}
 
-	if isGrouping {
+	return func() {
+		if !isGrouping {
+			aggr.aggrs = nextAggrs
+			aggr.counts = nextCounts
+			return
+		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
 		}
 		aggr.groupAggrs[groupSetKey] = nextAggrs
 		aggr.groupCounts[groupSetKey] = nextCounts
-	} else {
-		aggr.aggrs = nextAggrs
-		aggr.counts = nextCounts
-	}
-
-	return nil
+	}, nil
 }
 
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
+	return aggr.Aggregate(m)
+}
+
+// prepareMap checks a map of data, and returns the function to aggregate it.
+func (aggr *aggrImpl) prepareMap(m map[string]any) (func(), error) {
 	row := make([]any, 0, len(aggr.columns))
 	groupBys, _ := aggr.GroupBys()
 	for _, groupBy := range groupBys {
 		v, ok := m[groupBy]
 		if !ok {
-			return fmt.Errorf("group column (%s) %w in map", groupBy, ErrNotFound)
+			return nil, fmt.Errorf("group column (%s) %w in map", groupBy, ErrNotFound)
 		}
 		row = append(row, v)
 	}
@@ -337,28 +347,38 @@ func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 			v, ok = m[arg]
 		}
 		if !ok {
-			return fmt.Errorf("column (%s) %w in map", arg, ErrNotFound)
+			return nil, fmt.Errorf("column (%s) %w in map", arg, ErrNotFound)
 		}
 		row = append(row, v)
 	}
-	return aggr.AggregateRow(row)
+	return aggr.prepareRow(row)
 }
 
-// Aggregate aggregates a map or an array. The map represents a row of data, and the array is a
-// list of rows. If grouping is enabled, the array row must have a group value as the first element.
-func (aggr *aggrImpl) Aggregate(v any) error {
+// prepare checks a map or an array, and returns the function to aggregate it.
+func (aggr *aggrImpl) prepare(v any) (func(), error) {
 	switch v := v.(type) {
 	case []any:
-		return aggr.AggregateRow(v)
+		return aggr.prepareRow(v)
 	case map[string]any:
-		return aggr.AggregateMap(v)
+		return aggr.prepareMap(v)
 	case Row:
-		return aggr.AggregateRow(v)
+		return aggr.prepareRow(v)
 	case Map:
-		return aggr.AggregateMap(v)
+		return aggr.prepareMap(v)
 	default:
-		return fmt.Errorf("%w type %T is not supported for aggregation", ErrInvalid, v)
+		return nil, fmt.Errorf("%w type %T is not supported for aggregation", ErrInvalid, v)
+	}
+}
+
+// Aggregate aggregates a map or an array. The map represents a row of data, and the array is a
+// list of rows. If grouping is enabled, the array row must have a group value as the first element.
+func (aggr *aggrImpl) Aggregate(v any) error {
+	commit, err := aggr.prepare(v)
+	if err != nil {
+		return err
 	}
+	commit()
+	return nil
 }
 
 // Finalize finalizes the aggregation and returns the result.
diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 068cc21..102e58f 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -53,11 +53,25 @@ func (aggrSet *AggregatorSet) Reset(opts ...any) error {
 }
 
 // Aggregate aggregates a row of data using all aggregators in the set.
+// If any of the aggregators rejects the row, the row is aggregated by none of them.
 func (aggrSet *AggregatorSet) Aggregate(v any) error {
+	commits := []func(){}
 	for _, aggr := range *aggrSet {
-		if err := aggr.Aggregate(v); err != nil {
+		preparer, ok := aggr.(interface{ prepare(v any) (func(), error) })
+		if !ok {
+			if err := aggr.Aggregate(v); err != nil {
+				return err
+			}
+			continue
+		}
+		commit, err := preparer.prepare(v)
+		if err != nil {
 			return err
 		}
+		commits = append(commits, commit)
+	}
+	for _, commit := range commits {
+		commit()
 	}
 	return nil
 }
-- 
2.43.0


From 7965ee4b0511aa89dbd592308268223c54e7f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 33/69] fix: deliver and read only the rows of the offset and
 limit window

---
 sql/fn/resultset_impl.go                      |  1 +
 .../response/resultset/resultset_impl.go      | 26 ++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/sql/fn/resultset_impl.go b/sql/fn/resultset_impl.go
index 39e7c72..de66b7b 100644
--- a/sql/fn/resultset_impl.go
+++ b/sql/fn/resultset_impl.go
@@ -57,6 +57,7 @@ func (rs *resultSet) Columns() []string {
 // Next moves to the next row in the result set.
 func (rs *resultSet) Next() bool {
 	if len(rs.rows) <= (rs.index + 1) {
+		rs.index = len(rs.rows)
 		return false
 	}
 	rs.index++
diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..abb99b9 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -15,6 +15,8 @@
 package resultset
 
 import (
+	"math"
+
 	"github.com/cybergarage/go-sqlparser/sql/errors"
 )
 
@@ -121,13 +123,22 @@ func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
-	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	if end := rs.windowEnd(); rs.rowCursor < end {
+		rs.rowCursor++
+		return true
+	}
+	// Positions the cursor outside the rows so that no row can be read any more.
+	rs.rowCursor = math.MaxUint
+	return false
+}
+
+// windowEnd returns the number of the last row in the offset and limit window.
+func (rs *resultset) windowEnd() uint {
+	end := uint(len(rs.rows))
+	if 0 < rs.limit && rs.offset < end && rs.limit < (end-rs.offset) {
+		return rs.offset + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	return end
 }
 
 // Row returns the current row.
@@ -136,6 +147,9 @@ func (rs *resultset) Row() (Row, error) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
+	if rs.schema == nil {
+		return row, nil
+	}
 	return NewRowFromObject(rs.schema, row.Object())
 }
 
-- 
2.43.0


From 24853d7e1f6bfcebfd0d74fb2dad3895c815ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:43 +0000
Subject: [PATCH 34/69] fix: report out of range positions, plain columns and
 schema errors of result sets correctly

---
 sql/query/response/resultset/column_impl.go    | 10 +---------
 sql/query/response/resultset/resultset_aggr.go | 11 +++++++----
 sql/query/response/resultset/row_impl.go       |  2 +-
 sql/query/response/resultset/schema_helper.go  |  5 ++++-
 4 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..3c99506 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -16,15 +16,10 @@ package resultset
 
 import (
 	"fmt"
-	"regexp"
 
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 )
 
-var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
-)
-
 type column struct {
 	name string
 	t    DataType
@@ -99,10 +94,7 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
-		return true
-	}
-	return true
+	return col.fn != nil
 }
 
 // Function returns the function associated with the column.
diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..2f2ea90 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -111,11 +111,14 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 	// Generate a new schema for the aggregated result set
 
 	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
+	aggrSchema, err := NewSchemaFrom(
 		WithSchemaDatabaseName(rsSchema.DatabaseName()),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
@@ -124,12 +127,12 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 		return nil, err
 	}
 
-	resetOpts := []any{}
+	groupBys := []fn.GroupBy{}
 	if groupBy != nil {
-		resetOpts = append(resetOpts, fn.GroupBy(groupBy.ColumnName()))
+		groupBys = append(groupBys, groupBy.ColumnName())
 	}
 
-	err = aggrSet.Reset(resetOpts...)
+	err = aggrSet.Reset(groupBys)
 	if err != nil {
 		return nil, err
 	}
diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
diff --git a/sql/query/response/resultset/schema_helper.go b/sql/query/response/resultset/schema_helper.go
index b04c021..105e276 100644
--- a/sql/query/response/resultset/schema_helper.go
+++ b/sql/query/response/resultset/schema_helper.go
@@ -16,6 +16,8 @@ package resultset
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
@@ -72,7 +74,8 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 func WithSchemaRowObject(rowObj map[string]any) SchemaOption {
 	return func(schema *schema) error {
 		columns := []Column{}
-		for key, value := range rowObj {
+		for _, key := range slices.Sorted(maps.Keys(rowObj)) {
+			value := rowObj[key]
 			dataType, err := query.NewDataTypeForValue(value)
 			if err != nil {
 				return err
-- 
2.43.0


From 41fffe2fa642881772069a64f582cb8721d1482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:44 +0000
Subject: [PATCH 35/69] fix: support string and time functions in result set
 schemas and executors next to aggregates

---
 sql/query/data_type.go        | 4 ++++
 sql/query/selectors_helper.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index c44084e..8c44084 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -158,6 +158,10 @@ func NewDataTypeForFunction(fx Function) (DataType, error) {
 		return FloatType, nil
 	case fn.ArithOperator:
 		return FloatType, nil
+	case fn.StringFunction:
+		return VarCharType, nil
+	case fn.TimeFunction:
+		return TimeStampType, nil
 	default:
 		return UnknownData, newErrInvalidDataType(fx)
 	}
diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 889cf7f..ef8b2b9 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -139,6 +139,9 @@ func (selectors Selectors) ExecutorsForType(t FunctionType) ([]FunctionExecutor,
 		if !ok {
 			continue
 		}
+		if fn.IsAggregator() {
+			continue
+		}
 		executor, err := fn.Executor()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From dad4a7f10afe8afe7e1117ed43ab7e67173f0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:51 +0000
Subject: [PATCH 36/69] fix: close the underlying connection exactly once when
 several callers close it

---
 sql/net/conn_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..b52502b 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -32,6 +32,7 @@ type ConnOption = func(*conn)
 type conn struct {
 	sync.Mutex
 	net.Conn
+	closeMutex    sync.Mutex
 	isClosed      bool
 	db            string
 	schemas       []string
@@ -47,6 +48,7 @@ func NewConnWith(netConn net.Conn, opts ...ConnOption) Conn {
 	conn := &conn{
 		Mutex:         sync.Mutex{},
 		Conn:          netConn,
+		closeMutex:    sync.Mutex{},
 		isClosed:      false,
 		db:            "",
 		schemas:       []string{},
@@ -99,6 +101,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.closeMutex.Lock()
+	defer conn.closeMutex.Unlock()
 	if conn.isClosed {
 		return nil
 	}
-- 
2.43.0


From e8950c023ee825b7b891aa401868fd6b60c3d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:51 +0000
Subject: [PATCH 37/69] fix: synchronise the trace context of connections and
 allow none

---
 sql/net/conn_impl.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index b52502b..4f826c7 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -187,25 +187,41 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	ctx := conn.SpanContext()
+	if ctx == nil {
+		return nil
+	}
+	return ctx.Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	ctx := conn.SpanContext()
+	if ctx == nil {
+		return false
+	}
+	return ctx.StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	ctx := conn.SpanContext()
+	if ctx == nil {
+		return false
+	}
+	return ctx.FinishSpan()
 }
-- 
2.43.0


From d53aea4256ddcd3371b613d0be2fb70ecacc7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:51 +0000
Subject: [PATCH 38/69] fix: keep initial schema names unique and independent
 of the given list

---
 sql/net/conn_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 4f826c7..150caeb 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -74,7 +74,8 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = []string{}
+		conn.SetSchemas(schemas...)
 	}
 }
 
-- 
2.43.0


From 8ed809079dc1df4c3278618dc4a40d2ee52a799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:52 +0000
Subject: [PATCH 39/69] fix: keep both indexes of the connection registry in
 step on update and removal

---
 sql/net/conn_manager_impl.go | 41 ++++++++++++++++++++++++------------
 sql/net/errors.go            |  2 +-
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..d1e69f2 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -64,16 +64,24 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 	defer cm.mutex.Unlock()
 
 	uuid := from.UUID()
-	if _, ok := cm.m[uuid]; !ok {
+	registered, ok := cm.m[uuid]
+	if !ok {
 		return newErrConnNotExists(uuid.String())
 	}
 	uid := from.ID()
-	if _, ok := cm.uidMap[uid]; !ok {
+	if c, ok := cm.uidMap[uid]; !ok || c != registered {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
+	if c, ok := cm.m[to.UUID()]; ok && c != registered {
+		return newErrConnExist(to.UUID().String())
+	}
+	if c, ok := cm.uidMap[to.ID()]; ok && c != registered {
+		return newErrConnExist(fmt.Sprintf("%d", to.ID()))
+	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	cm.removeConn(registered)
+	cm.m[to.UUID()] = to
+	cm.uidMap[to.ID()] = to
 
 	return nil
 }
@@ -109,27 +117,34 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
+	if registered, ok := cm.m[conn.UUID()]; ok {
+		cm.removeConn(registered)
+	}
+	return nil
+}
+
+// removeConn deletes the specified registered connection from the maps.
+func (cm *mgr) removeConn(conn Conn) {
 	delete(cm.uidMap, conn.ID())
 	delete(cm.m, conn.UUID())
-	return nil
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
-	if !ok {
-		return
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	if conn, ok := cm.uidMap[cid]; ok {
+		cm.removeConn(conn)
 	}
-	cm.RemoveConn(conn)
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
 func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
-	if !ok {
-		return
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	if conn, ok := cm.m[uuid]; ok {
+		cm.removeConn(conn)
 	}
-	cm.RemoveConn(conn)
 }
 
 // Start starts the connection manager.
diff --git a/sql/net/errors.go b/sql/net/errors.go
index 23f5bd3..eb05fff 100644
--- a/sql/net/errors.go
+++ b/sql/net/errors.go
@@ -27,5 +27,5 @@ func newErrConnExist(s string) error {
 }
 
 func newErrConnNotExists(s string) error {
-	return fmt.Errorf("connection (%s) is not %w", s, ErrNotExist)
+	return fmt.Errorf("connection (%s) does %w", s, ErrNotExist)
 }
-- 
2.43.0


From 8a6e8a752c2dfc6ccfc9c647b10d698483b02736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:31 +0000
Subject: [PATCH 40/69] fix: build column metadata queries for any names and
 name the right table in their results

---
 sql/query/expr_and.go                      |  8 +++-
 sql/system/schema_columns_resutset.go      | 42 +++++++++++++------
 sql/system/schema_columns_resutset_from.go |  2 +-
 sql/system/schema_columns_stmt_impl.go     | 48 +++++++++++++---------
 4 files changed, 67 insertions(+), 33 deletions(-)

diff --git a/sql/query/expr_and.go b/sql/query/expr_and.go
index feca923..64c3aab 100644
--- a/sql/query/expr_and.go
+++ b/sql/query/expr_and.go
@@ -37,5 +37,11 @@ func (expr *AndExpr) Right() Expr {
 
 // String returns the index string representation.
 func (expr *AndExpr) String() string {
-	return expr.left.String() + " AND " + expr.right.String()
+	operand := func(e Expr) string {
+		if _, ok := e.(*OrExpr); ok {
+			return "(" + e.String() + ")"
+		}
+		return e.String()
+	}
+	return operand(expr.left) + " AND " + operand(expr.right)
 }
diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..00edaf7 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -16,6 +16,7 @@ package system
 
 import (
 	"github.com/cybergarage/go-sqlparser/sql"
+	"github.com/cybergarage/go-sqlparser/sql/query"
 )
 
 // PostgreSQL: Documentation: 17: 35.17. columns
@@ -31,26 +32,43 @@ type SchemaColumnsResultSet interface {
 
 // NewSchemaColumnsQueryFromTableNames returns a new schema columns query with table names.
 func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error) {
-	query := SchemaColumnsQuery
-	if 0 < len(tableNames) {
-		query += " WHERE "
-		for n, tableName := range tableNames {
-			if 0 < n {
-				query += " OR "
-			}
-			query += "TABLE_NAME = '" + tableName + "'"
+	return newSchemaColumnsQuery(newTableNamesExpr(tableNames))
+}
+
+// newColumnEqualExpr returns an expression which compares the specified column with the specified value.
+func newColumnEqualExpr(name string, value string) query.Expr {
+	return query.NewEQWith(query.NewColumnWithName(name), query.NewLiteralWith(value, query.WithLiteralType(query.StringLiteral)))
+}
+
+// newTableNamesExpr returns an expression which matches any of the specified table names, or nil if there are no names.
+func newTableNamesExpr(tableNames []string) query.Expr {
+	var expr query.Expr
+	for _, tableName := range tableNames {
+		nameExpr := newColumnEqualExpr(SchemaColumnsTableName, tableName)
+		if expr == nil {
+			expr = nameExpr
+		} else {
+			expr = query.NewOrExpr(expr, nameExpr)
 		}
 	}
-	stmt, err := sql.NewParser().ParseString(query)
+	return expr
+}
+
+// newSchemaColumnsQuery returns a new select statement for the schema columns with the specified condition.
+func newSchemaColumnsQuery(expr query.Expr) (sql.Select, error) {
+	stmt, err := sql.NewParser().ParseString(SchemaColumnsQuery)
 	if err != nil {
 		return nil, err
 	}
 	if len(stmt) != 1 {
-		return nil, newErrInvalidQuery(query)
+		return nil, newErrInvalidQuery(SchemaColumnsQuery)
 	}
 	selectStmt, ok := stmt[0].(sql.Select)
 	if !ok {
-		return nil, newErrInvalidQuery(query)
+		return nil, newErrInvalidQuery(SchemaColumnsQuery)
+	}
+	if expr == nil {
+		return selectStmt, nil
 	}
-	return selectStmt, nil
+	return query.NewSelectWith(selectStmt.Selectors(), selectStmt.From(), query.NewConditionWith(expr)), nil
 }
diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..7e942ff 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -74,38 +74,43 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
+	var expr query.Expr
 	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+		expr = newColumnEqualExpr(SchemaColumnsSchema, stmt.dbName)
 	}
-	switch {
-	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
-	case 1 < len(stmt.tblNames):
-		escapedTableNames := make([]string, len(stmt.tblNames))
-		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+	if tblExpr := newTableNamesExpr(stmt.tblNames); tblExpr != nil {
+		if expr != nil {
+			expr = query.NewAndExpr(expr, tblExpr)
+		} else {
+			expr = tblExpr
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
 	}
-	parser := sql.NewParser()
-	parsedStmts, err := parser.ParseString(query)
+	selectStmt, err := newSchemaColumnsQuery(expr)
 	if err != nil {
 		return err
 	}
-	if len(parsedStmts) != 1 {
-		return newErrInvalidQuery(query)
-	}
-	selectStmt, ok := parsedStmts[0].(sql.Select)
-	if !ok {
-		return newErrInvalidQuery(query)
-	}
 	stmt.stmt = selectStmt
 	return nil
 }
 
 func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 	var traverseExpr func(expr query.Expr) error
+	// traverseTableNames accepts only alternatives of table names.
+	var traverseTableNames func(expr query.Expr) error
+	traverseTableNames = func(expr query.Expr) error {
+		switch e := expr.(type) {
+		case *query.OrExpr:
+			if err := traverseTableNames(e.Left()); err != nil {
+				return err
+			}
+			return traverseTableNames(e.Right())
+		case *query.CmpExpr:
+			if strings.EqualFold(e.Left().Name(), SchemaColumnsTableName) {
+				return traverseExpr(e)
+			}
+		}
+		return newErrInvalidQuery(stmt.stmt.String())
+	}
 	traverseExpr = func(expr query.Expr) error {
 		switch e := expr.(type) {
 		case *query.AndExpr:
@@ -116,6 +121,8 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 				return err
 			}
 			return nil
+		case *query.OrExpr:
+			return traverseTableNames(e)
 		case *query.CmpExpr:
 			if e.Operator() != query.EQ {
 				return newErrInvalidQuery(stmt.stmt.String())
@@ -140,6 +147,9 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 	}
 
 	stmt.tblNames = []string{}
+	if !stmt.stmt.Where().HasConditions() {
+		return nil
+	}
 	err := traverseExpr(stmt.stmt.Where().Expr())
 	if err != nil {
 		return err
-- 
2.43.0


From c48e860a11172069132c19d5d90ba77481e4e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 41/69] fix: do not take the strings '*' and '?' for an
 asterisk or a placeholder

---
 sql/query/literal.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index e8377c6..a8d677d 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -83,12 +83,12 @@ func (lit *Literal) Equal(v any) bool {
 
 // IsAsterisk returns true whether the literal is an asterisk.
 func (lit *Literal) IsAsterisk() bool {
-	return lit.Equal("*")
+	return lit.ValueType() != StringLiteral && lit.Equal("*")
 }
 
 // IsPlaceHolder returns true whether the literal is a place holder.
 func (lit *Literal) IsPlaceHolder() bool {
-	return lit.Equal("?")
+	return lit.ValueType() != StringLiteral && lit.Equal("?")
 }
 
 // SetValue sets a value.
@@ -99,6 +99,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -110,6 +113,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From 06c1d7e01454f22089881ae323f0ea2d891c0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:04 +0000
Subject: [PATCH 42/69] fix: let columns without a definition or a value be
 inspected and set, and refuse negative positions

---
 sql/query/column.go  | 34 +++++++++++++++++++++++++++++++++-
 sql/query/columns.go |  2 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index 5d579e4..b006197 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -174,10 +174,42 @@ func (col *column) IsName(name string) bool {
 	return col.name == name
 }
 
+// Constraint returns the column constrains.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return -1
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
+	lastValue := col.v
 	col.Literal.SetValue(v)
-	return col.SetDefinition(col.ColumnDef)
+	err := col.SetDefinition(col.ColumnDef)
+	if err != nil {
+		col.Literal.SetValue(lastValue)
+	}
+	return err
 }
 
 // SetDefinition sets the column definition to update the column value.
diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
-- 
2.43.0


From dd41f62cf504bedd9c5c85d26ee9ead48e84107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:05 +0000
Subject: [PATCH 43/69] fix: copy columns with their function and independent
 values

---
 sql/query/column.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index b006197..a781e2d 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -269,11 +269,12 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cpCol := *col
+	if col.Literal != nil {
+		lit := *col.Literal
+		cpCol.Literal = &lit
+	}
+	return &cpCol
 }
 
 // String returns the string representation.
-- 
2.43.0


From 9cab97a07cf62895f0f107e2fe880bcb09ad630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:33 +0000
Subject: [PATCH 44/69] fix: refuse column values that would be truncated or
 wrapped and keep NULL

---
 sql/query/column.go | 38 +++++++++++++++++++++++++++++++++++++-
 sql/query/errors.go |  4 ++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index a781e2d..371bcc6 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -16,6 +16,8 @@ package query
 
 import (
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -216,10 +218,17 @@ func (col *column) SetValue(v any) error {
 func (col *column) SetDefinition(dataDef ColumnDef) error {
 	col.ColumnDef = dataDef
 
-	if dataDef == nil || col.Literal == nil {
+	if dataDef == nil || col.Literal == nil || col.v == nil {
 		return nil
 	}
 
+	switch dataDef.DataType() {
+	case TinyIntType, SmallIntType, IntType, IntegerType, BigIntType:
+		if !isExactInteger(col.v) {
+			return newErrInvalidValue(col.v, dataDef.DataType())
+		}
+	}
+
 	switch dataDef.DataType() {
 	case TinyIntType:
 		var v int8
@@ -250,6 +259,10 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		if err := safecast.ToFloat32(col.v, &v); err != nil {
 			return err
 		}
+		var f float64
+		if err := safecast.ToFloat64(col.v, &f); err == nil && math.IsInf(float64(v), 0) && !math.IsInf(f, 0) {
+			return newErrInvalidValue(col.v, dataDef.DataType())
+		}
 		col.Literal.SetValue(v)
 	case DoubleType, DoublePrecisionType:
 		var v float64
@@ -267,6 +280,29 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 	return nil
 }
 
+// isExactInteger returns false if the value is a number which no integer type can hold without truncating or wrapping it.
+func isExactInteger(v any) bool {
+	var f float64
+	switch v := v.(type) {
+	case float32, float64:
+		if err := safecast.ToFloat64(v, &f); err != nil {
+			return false
+		}
+	case string, []byte:
+		s := fmt.Sprintf("%s", v)
+		if _, err := strconv.ParseInt(s, 10, 64); err == nil {
+			return true
+		}
+		var err error
+		if f, err = strconv.ParseFloat(s, 64); err != nil {
+			return true
+		}
+	default:
+		return true
+	}
+	return f == math.Trunc(f) && -(1<<63) <= f && f < (1<<63)
+}
+
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
 	cpCol := *col
diff --git a/sql/query/errors.go b/sql/query/errors.go
index f3a1506..1ae4d70 100644
--- a/sql/query/errors.go
+++ b/sql/query/errors.go
@@ -64,3 +64,7 @@ func newErrInvalidDataType(s any) error {
 func newErrInvaidDataDef(s any) error {
 	return fmt.Errorf("data def (%s) %w", s, ErrInvalid)
 }
+
+func newErrInvalidValue(v any, t DataType) error {
+	return fmt.Errorf("value (%v) %w for %s", v, ErrInvalid, t)
+}
-- 
2.43.0


From abcaec92d78dfdf27e38b5b6bac9258edb5dd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 45/69] fix: recognise the asterisk column

---
 sql/query/column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 371bcc6..fcaefa4 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -171,6 +171,11 @@ func (col *column) Arguments() Arguments {
 	return col.args
 }
 
+// IsAsterisk returns true if the column is an asterisk.
+func (col *column) IsAsterisk() bool {
+	return col.name == Asterisk || col.Literal.IsAsterisk()
+}
+
 // IsName returns true whether the column name is the specified one.
 func (col *column) IsName(name string) bool {
 	return col.name == name
-- 
2.43.0


From 20fbc9d84e396d86f614cd39f6d4ca6430c535d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:03 +0000
Subject: [PATCH 46/69] fix: let missing, existing and unsupported item errors
 be recognised as such

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..f384aa5 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is already %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From 66fac516006db30d498cacf2f1202fc68eaf3b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:44 +0000
Subject: [PATCH 47/69] fix: keep DISTINCT of SELECT

---
 sql/parser/sqlite/parser_antlr_visitor.go |  1 +
 sql/query/select.go                       | 20 +++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 437a910..91111b0 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -592,6 +592,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 			parentQuery.HAVING_() != nil || parentQuery.WINDOW_() != nil {
 			return nil, newErrNotSupported(ctx)
 		}
+		opts = append(opts, query.WithSelectDistinct(parentQuery.DISTINCT_() != nil))
 		for _, col := range parentQuery.AllResult_column() {
 			sel, err := newSelectorFrom(col)
 			if err != nil {
diff --git a/sql/query/select.go b/sql/query/select.go
index a9fc37a..dc6fb8b 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -48,6 +48,8 @@ type selectStmt struct {
 	orderBy OrderBy
 	limit   Limit
 	groupBy GroupBy
+	// distinct is true if duplicate rows have to be removed.
+	distinct bool
 }
 
 // NewSelectWith returns a new selectStmt statement instance with the specified parameters.
@@ -59,6 +61,7 @@ func NewSelectWith(selectors Selectors, tbls TableList, w Condition, opts ...Sel
 		orderBy:   NewOrderBy(),
 		limit:     NewLimit(),
 		groupBy:   NewGroupBy(),
+		distinct:  false,
 	}
 	for _, opt := range opts {
 		opt(stmt)
@@ -87,6 +90,18 @@ func WithSelectGroupBy(name string) func(*selectStmt) {
 	}
 }
 
+// WithSelectDistinct sets whether duplicate rows have to be removed.
+func WithSelectDistinct(distinct bool) func(*selectStmt) {
+	return func(stmt *selectStmt) {
+		stmt.distinct = distinct
+	}
+}
+
+// IsDistinct returns true if duplicate rows have to be removed.
+func (stmt *selectStmt) IsDistinct() bool {
+	return stmt.distinct
+}
+
 // StatementType returns the statement type.
 func (stmt *selectStmt) StatementType() StatementType {
 	return SelectStatement
@@ -130,8 +145,11 @@ func (stmt *selectStmt) String() string {
 	}
 	strs := []string{
 		"SELECT",
-		selectorStr,
 	}
+	if stmt.distinct {
+		strs = append(strs, "DISTINCT")
+	}
+	strs = append(strs, selectorStr)
 	if 0 < len(stmt.TableList) {
 		strs = append(strs, "FROM", stmt.TableList.String())
 	}
-- 
2.43.0


From d90d9963d9169f4ea583bc0c3198995fdc765694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:40 +0000
Subject: [PATCH 48/69] fix: refuse row limits that are not whole numbers
 instead of truncating them

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 91111b0..52aab3f 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -16,9 +16,9 @@ package sqlite
 
 import (
 	"fmt"
+	"strconv"
 
 	go_antlr "github.com/antlr4-go/antlr/v4"
-	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
 	"github.com/cybergarage/go-sqlparser/sql/query"
@@ -677,9 +677,11 @@ func newLimitValueWith(ctx antlr.IExprContext, v *uint) error {
 	if ctx.Bind_param() != nil || (ctx.Literal_value() != nil && ctx.Literal_value().Bind_param() != nil) {
 		return nil
 	}
-	if err := safecast.ToUint(ctx.GetText(), v); err != nil {
+	n, err := strconv.ParseUint(ctx.GetText(), 10, strconv.IntSize)
+	if err != nil {
 		return newErrInvalid(ctx)
 	}
+	*v = uint(n)
 	return nil
 }
 
-- 
2.43.0


From f4a2e603896c229a93441d156e7f4d09389a5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 49/69] fix: let string functions of NULL be NULL instead of an
 empty string

---
 sql/fn/string.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/fn/string.go b/sql/fn/string.go
index 65b965c..568139e 100644
--- a/sql/fn/string.go
+++ b/sql/fn/string.go
@@ -46,7 +46,11 @@ func NewStringFunctionWith(name string, t StringFunc, opts ...ExecutorOption) *s
 // execute returns the executed value with the specified arguments.
 func (fn *stringFunction) execute(args ...any) (any, error) {
 	fargs := make([]string, 0, len(args))
+	hasNull := false
 	for _, arg := range args {
+		if arg == nil {
+			hasNull = true
+		}
 		var str string
 		err := safecast.ToString(arg, &str)
 		if err != nil {
@@ -54,5 +58,9 @@ func (fn *stringFunction) execute(args ...any) (any, error) {
 		}
 		fargs = append(fargs, str)
 	}
-	return fn.executor(fargs)
+	v, err := fn.executor(fargs)
+	if err != nil || hasNull {
+		return nil, err
+	}
+	return v, nil
 }
-- 
2.43.0


From 8b3c7578846e4a1a9bc0be77ff9ae1b9c6b79f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:07 +0000
Subject: [PATCH 50/69] fix: name the missing column in the errors of result
 set rows

---
 sql/query/response/resultset/row_impl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 75359ff..b31bb7f 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -135,7 +135,7 @@ func (row *row) Values() []any {
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
 	if index < 0 || len(values) <= index {
-		return nil, errors.ErrNotExist
+		return nil, errors.NewErrColumnNotExist(index)
 	}
 	return values[index], nil
 }
@@ -144,11 +144,11 @@ func (row *row) ValueAt(index int) (any, error) {
 func (row *row) ValueBy(name string) (any, error) {
 	obj := row.Object()
 	if obj == nil {
-		return nil, errors.ErrNotExist
+		return nil, errors.NewErrColumnNotExist(name)
 	}
 	v, ok := obj[name]
 	if !ok {
-		return nil, errors.ErrNotExist
+		return nil, errors.NewErrColumnNotExist(name)
 	}
 	return v, nil
 }
@@ -158,7 +158,7 @@ func (row *row) Scan(tos ...any) error {
 	values := row.Values()
 	for n, to := range tos {
 		if len(values) <= n {
-			return errors.ErrNotExist
+			return errors.NewErrColumnNotExist(n)
 		}
 		v := values[n]
 		err := safecast.To(v, to)
-- 
2.43.0


From db93421242c9f4273627cc167dc92cfac4655959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 51/69] fix: report the schema name of a table schema instead
 of its table name

---
 sql/query/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 8449475..6749d56 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -100,12 +100,7 @@ func (schema *schema) SchemaTable() Table {
 	return schema.Table
 }
 
-// SchemaName returns the table name.
-func (schema *schema) SchemaName() string {
-	return schema.TableName()
-}
-
-// SchemaName returns the table name.
+// Name returns the table name.
 func (schema *schema) Name() string {
 	return schema.TableName()
 }
-- 
2.43.0


From f1b7301346440b44e465c6dec3164a864d455925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:00 +0000
Subject: [PATCH 52/69] fix: do not share the prediction caches of the ANTLR
 runtime between concurrent parsers

---
 sql/parser/sqlite/parser_antlr.go | 43 +++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index f808c9d..3cab2ab 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -16,6 +16,7 @@ package sqlite
 
 import (
 	"fmt"
+	"sync"
 
 	go_antlr "github.com/antlr4-go/antlr/v4"
 	errors "github.com/cybergarage/go-sqlparser/sql/parser"
@@ -58,7 +59,10 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
+	cache := takePredictionCache(parser.parser.GetATN())
+	parser.parser.Interpreter = go_antlr.NewParserATNSimulator(parser.parser, parser.parser.GetATN(), cache.decisionToDFA, cache.contexts)
 	tree := parser.parser.Parse()
+	releasePredictionCache(cache)
 
 	if !parser.errorListener.IsSuccess() {
 		return nil, fmt.Errorf("%s (%w)", queryString, parser.errorListener.GetError())
@@ -76,6 +80,45 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	return parser.stmts, nil
 }
 
+// predictionCache represents the states which the ANTLR runtime learns while parsing.
+type predictionCache struct {
+	decisionToDFA []*go_antlr.DFA
+	contexts      *go_antlr.PredictionContextCache
+}
+
+// predictionCaches holds the caches which no parser is using. The ANTLR runtime updates cached states without
+// synchronization, and so a cache must not be shared by concurrent parsers.
+var (
+	predictionCaches   []*predictionCache
+	predictionCachesMu sync.Mutex
+)
+
+// takePredictionCache returns a cache which no other parser is using.
+func takePredictionCache(atn *go_antlr.ATN) *predictionCache {
+	predictionCachesMu.Lock()
+	defer predictionCachesMu.Unlock()
+	if n := len(predictionCaches); 0 < n {
+		cache := predictionCaches[n-1]
+		predictionCaches = predictionCaches[:n-1]
+		return cache
+	}
+	cache := &predictionCache{
+		decisionToDFA: make([]*go_antlr.DFA, len(atn.DecisionToState)),
+		contexts:      go_antlr.NewPredictionContextCache(),
+	}
+	for n, state := range atn.DecisionToState {
+		cache.decisionToDFA[n] = go_antlr.NewDFA(state, n)
+	}
+	return cache
+}
+
+// releasePredictionCache makes the cache available to other parsers.
+func releasePredictionCache(cache *predictionCache) {
+	predictionCachesMu.Lock()
+	defer predictionCachesMu.Unlock()
+	predictionCaches = append(predictionCaches, cache)
+}
+
 // hasStatementToken returns true whether the token stream has any token other than comments, spaces and semicolons.
 func hasStatementToken(tokenStream *go_antlr.CommonTokenStream) bool {
 	tokenStream.Fill()
-- 
2.43.0


From b532ab2f7c263faf41742b202e5dc0e4bdfe1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:04 +0000
Subject: [PATCH 53/69] fix: report a missing column named like a number such
 as inf instead of computing with its name

---
 sql/fn/executor_impl.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/fn/executor_impl.go b/sql/fn/executor_impl.go
index f01eecd..2c18b5d 100644
--- a/sql/fn/executor_impl.go
+++ b/sql/fn/executor_impl.go
@@ -115,8 +115,15 @@ func (ex *execImpl) ExecuteMap(m map[string]any) (any, error) {
 
 // literalOf returns the value if the argument is a string or numeric literal.
 func literalOf(arg string) (string, bool) {
-	if len(arg) > 0 && arg[0] == '\'' {
+	if len(arg) == 0 {
+		return arg, false
+	}
+	switch c := arg[0]; {
+	case c == '\'':
 		return strings.UnEscapeString(arg), true
+	case 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z':
+		// A column name, even one that reads as a number such as inf or nan.
+		return arg, false
 	}
 	_, err := strconv.ParseFloat(arg, 64)
 	return arg, err == nil
-- 
2.43.0


From 1bf02dc1663400a7a5617eee74ee6f0b5ac22bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:56 +0000
Subject: [PATCH 54/69] fix: render every constraint of a combination of
 constraints

---
 sql/query/constraint.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sql/query/constraint.go b/sql/query/constraint.go
index f00ea89..dcbf2ed 100644
--- a/sql/query/constraint.go
+++ b/sql/query/constraint.go
@@ -14,6 +14,10 @@
 
 package query
 
+import (
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
+)
+
 // Constraint represents a column constraint.
 type Constraint int
 
@@ -42,13 +46,15 @@ func (c Constraint) IsUnique() bool {
 
 // String returns the string representation.
 func (c Constraint) String() string {
-	switch c {
-	case PrimaryKeyConstraint:
-		return "PRIMARY KEY"
-	case NotNullConstraint:
-		return "NOT NULL"
-	case UniqueConstraint:
-		return "UNIQUE"
+	strs := []string{}
+	if c.IsPrimaryKey() {
+		strs = append(strs, "PRIMARY KEY")
+	}
+	if c.IsNotNull() {
+		strs = append(strs, "NOT NULL")
+	}
+	if c.IsUnique() {
+		strs = append(strs, "UNIQUE")
 	}
-	return ""
+	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From 7a7c090b947dfa5a30ef1021b20d6e1a7f07bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:56 +0000
Subject: [PATCH 55/69] fix: keep the constraint of a metadata column

---
 sql/system/schema_column_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/system/schema_column_impl.go b/sql/system/schema_column_impl.go
index 683e6c8..50f57e8 100644
--- a/sql/system/schema_column_impl.go
+++ b/sql/system/schema_column_impl.go
@@ -99,7 +99,11 @@ func WithColumnDataType(v any) ColumnOption {
 // WithColumnConstraint returns a column option to set the column constraint.
 func WithColumnConstraint(v any) ColumnOption {
 	return func(c *column) error {
-		// c.constraint = constraint
+		constraint, ok := v.(Constraint)
+		if !ok {
+			return fmt.Errorf("%w column constraint %v", ErrInvalid, v)
+		}
+		c.constraint = constraint
 		return nil
 	}
 }
-- 
2.43.0


From 838d271ac52d545ba8f27822c937dfe616f3e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:56 +0000
Subject: [PATCH 56/69] fix: aggregate a source result set without a schema
 instead of crashing

---
 sql/query/response/resultset/resultset_aggr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index 2f2ea90..f3a4fe9 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -110,9 +110,12 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 
 	// Generate a new schema for the aggregated result set
 
-	rsSchema := srcRs.Schema()
+	dbName := ""
+	if rsSchema := srcRs.Schema(); rsSchema != nil {
+		dbName = rsSchema.DatabaseName()
+	}
 	aggrSchema, err := NewSchemaFrom(
-		WithSchemaDatabaseName(rsSchema.DatabaseName()),
+		WithSchemaDatabaseName(dbName),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
-- 
2.43.0


From d4275b5ead27e2ae0312fd8b49ff2d26783c87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:11 +0000
Subject: [PATCH 57/69] fix: choose a data type for int values that holds every
 int

---
 sql/query/data_type.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 8c44084..69f1b5c 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -176,10 +176,8 @@ func NewDataTypeForValue(v any) (DataType, error) {
 		return SmallIntType, nil
 	case int32, uint32:
 		return IntType, nil
-	case int64, uint64:
+	case int64, uint64, int, uint:
 		return BigIntType, nil
-	case int, uint:
-		return IntType, nil
 	case float32:
 		return FloatType, nil
 	case float64:
-- 
2.43.0


From 0a7c80447867fedd810bcf8ded61ce43d939058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:51 +0000
Subject: [PATCH 58/69] fix: leave the schema as it was if one of several
 alterations fails

---
 sql/query/schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6749d56..e625dc7 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -132,6 +132,16 @@ func (schema *schema) LookupIndex(name string) (Index, error) {
 
 // Alter alters the schema.
 func (schema *schema) Alter(stmt AlterTable) error {
+	altered := *schema
+	if err := altered.alter(stmt); err != nil {
+		return err
+	}
+	*schema = altered
+	return nil
+}
+
+// alter applies the alterations one after another, and might leave some of them applied if an error occurs.
+func (schema *schema) alter(stmt AlterTable) error {
 	if column, ok := stmt.AddColumn(); ok {
 		err := schema.AddColumn(column)
 		if err != nil {
-- 
2.43.0


From 9a9b71adf772ad7e47e33339553961518b372577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:04 +0000
Subject: [PATCH 59/69] fix: keep the primary and secondary keys which a column
 definition defines

---
 sql/parser/sqlite/parser_antlr_visitor.go | 32 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 52aab3f..35f1bc2 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -328,12 +328,7 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) (query.Schema, erro
 			continue
 		}
 		column := newColumnWith(columDef)
-		// Primary key definition for column constraint.
-		for _, columnConst := range columDef.AllColumn_constraint() {
-			if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-			}
-		}
+		indexes = append(indexes, newColumnIndexesWith(columDef, column)...)
 		columns = append(columns, column)
 	}
 	// Index definitions.
@@ -407,6 +402,31 @@ func isIndexDef(ctx antlr.IColumn_defContext) bool {
 	return false
 }
 
+// newColumnIndexesWith returns the primary and secondary indexes which the column definition defines for its column.
+func newColumnIndexesWith(ctx antlr.IColumn_defContext, column query.Column) query.Indexes {
+	indexes := query.NewIndexes()
+	// Without a data type, the grammar reads the first constraint keywords as the type.
+	if typ := ctx.Type_name(); typ != nil && 2 <= len(typ.AllName()) {
+		first, second := typ.AllName()[0].GetText(), typ.AllName()[1].GetText()
+		switch {
+		case strings.EqualFold(first, "PRIMARY") && strings.EqualFold(second, "KEY"):
+			indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
+		case strings.EqualFold(first, "INDEX"):
+			indexes = append(indexes, query.NewSecondaryIndexWith(strings.UnEscapeNameString(second), query.NewColumnsWith(column)))
+		}
+	}
+	for _, columnConst := range ctx.AllColumn_constraint() {
+		if columnConst.Primary_key_constraint() != nil {
+			indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
+		}
+		if indexConst := columnConst.Index_constraint(); indexConst != nil {
+			indexName := strings.UnEscapeNameString(indexConst.Index_name().GetText())
+			indexes = append(indexes, query.NewSecondaryIndexWith(indexName, query.NewColumnsWith(column)))
+		}
+	}
+	return indexes
+}
+
 // newIndexDefWith returns the primary or secondary index of the specified index definition.
 func newIndexDefWith(ctx antlr.IColumn_defContext, columns query.Columns) (query.Index, bool) {
 	defs := []string{ctx.Column_name().GetText()}
-- 
2.43.0


From 28135995e0025ee10bb0635a4c9cf00090cc5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 60/69] fix: refuse an added column with a key instead of
 dropping the key

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 35f1bc2..25a8bdd 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -271,10 +271,11 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) (query.Statement, err
 		opts = append(opts, query.WithAlterTableRenameColumn(fromColumn, toColumn))
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
-		if isIndexDef(ctx.Column_def()) {
+		column := newColumnWith(ctx.Column_def())
+		if isIndexDef(ctx.Column_def()) || 0 < len(newColumnIndexesWith(ctx.Column_def(), column)) {
 			return nil, newErrNotSupported(ctx)
 		}
-		opts = append(opts, query.WithAlterTableAddColumn(newColumnWith(ctx.Column_def())))
+		opts = append(opts, query.WithAlterTableAddColumn(column))
 	}
 	if ctx := ctx.Add_table_index(); ctx != nil {
 		index := newAddIndexSchemaWith(ctx)
-- 
2.43.0


From ba7fa0d5e5013a2cb7e7a5d9f8bc7eefa89a9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:15 +0000
Subject: [PATCH 61/69] fix: keep the order of null values of ORDER BY

---
 sql/parser/sqlite/parser_antlr_visitor.go |  9 +++++-
 sql/query/order.go                        | 34 ++++++++++++++++++-----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 25a8bdd..e26d6db 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -658,7 +658,14 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-				orders = append(orders, query.NewOrderWith(orderColumn, orderType))
+				orderOpts := []query.OrderOption{}
+				switch {
+				case order.FIRST_() != nil:
+					orderOpts = append(orderOpts, query.WithOrderNulls("NULLS FIRST"))
+				case order.LAST_() != nil:
+					orderOpts = append(orderOpts, query.WithOrderNulls("NULLS LAST"))
+				}
+				orders = append(orders, query.NewOrderWith(orderColumn, orderType, orderOpts...))
 			}
 			if 0 < len(orders) {
 				opts = append(opts, query.WithSelectOrderBy(query.NewOrderByWith(orders)))
diff --git a/sql/query/order.go b/sql/query/order.go
index 440710f..6b8bae7 100644
--- a/sql/query/order.go
+++ b/sql/query/order.go
@@ -38,6 +38,17 @@ type Order interface {
 type orderParam struct {
 	column string
 	order  OrderType
+	nulls  string
+}
+
+// OrderOption represents an order option function.
+type OrderOption = func(*orderParam)
+
+// WithOrderNulls sets the order of the null values such as "NULLS FIRST".
+func WithOrderNulls(nulls string) OrderOption {
+	return func(order *orderParam) {
+		order.nulls = nulls
+	}
 }
 
 // NewOrder returns a new order instance.
@@ -45,15 +56,21 @@ func NewOrder() Order {
 	return &orderParam{
 		column: "",
 		order:  OrderNone,
+		nulls:  "",
 	}
 }
 
 // NewOrderWith returns a new order instance with the specified column and order.
-func NewOrderWith(column string, order OrderType) Order {
-	return &orderParam{
+func NewOrderWith(column string, order OrderType, opts ...OrderOption) Order {
+	param := &orderParam{
 		column: column,
 		order:  order,
+		nulls:  "",
+	}
+	for _, opt := range opts {
+		opt(param)
 	}
+	return param
 }
 
 // Column returns the column name.
@@ -86,11 +103,14 @@ func (order *orderParam) String() string {
 	if order.IsNone() {
 		return ""
 	}
-	return strings.JoinWithSpace(
-		[]string{
-			order.column,
-			order.order.String(),
-		})
+	strs := []string{
+		order.column,
+		order.order.String(),
+	}
+	if 0 < len(order.nulls) {
+		strs = append(strs, order.nulls)
+	}
+	return strings.JoinWithSpace(strs)
 }
 
 // OrderBy represents an ORDER BY interface.
-- 
2.43.0


From bef92c601a5309b6f8dc568cf01ad9cfd03dd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:42 +0000
Subject: [PATCH 62/69] fix: keep a number ending with a point apart from the
 next word

---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index e26d6db..f80f901 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -74,17 +74,20 @@ func textOf(ctx go_antlr.Tree) string {
 			('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
 	}
 	var buf []byte
+	lastText := ""
 	var write func(node go_antlr.Tree)
 	write = func(node go_antlr.Tree) {
 		if terminal, ok := node.(go_antlr.TerminalNode); ok {
 			text := terminal.GetText()
 			if 0 < len(buf) && 0 < len(text) {
 				last := buf[len(buf)-1]
-				if (isWord(last) && isWord(text[0])) || (last == '-' && text[0] == '-') {
+				endsNumber := last == '.' && 1 < len(lastText) // such as "1."
+				if ((isWord(last) || endsNumber) && isWord(text[0])) || (last == '-' && text[0] == '-') {
 					buf = append(buf, ' ')
 				}
 			}
 			buf = append(buf, text...)
+			lastText = text
 			return
 		}
 		for _, child := range node.GetChildren() {
-- 
2.43.0


From a136f89782c9a38d8a8894de15ffb1c4ec39e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:02 +0000
Subject: [PATCH 63/69] fix: keep comparisons as values of INSERT, and refuse
 rows that name different columns

---
 sql/parser/sqlite/parser_antlr_visitor.go | 40 +++++++++++++++++------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f80f901..bcdbd52 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -524,30 +524,50 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) (query.Statement, error) {
 	}
 	values := []query.Columns{}
 	for _, row := range ctx.Values_clause().AllValue_row() {
+		if 0 < len(names) && len(names) != len(row.AllExpr()) {
+			return nil, newErrInvalid(ctx)
+		}
 		columns := query.NewColumns()
 		for n, expr := range row.AllExpr() {
-			if v := expr.Comparison_expr(); v != nil {
-				columns = append(columns,
-					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
-						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
-				continue
-			}
 			name := ""
+			value := newExprValueWith(expr)
 			if 0 < len(names) {
-				if len(names) != len(row.AllExpr()) {
-					return nil, newErrInvalid(ctx)
-				}
 				name = names[n]
+			} else if v := expr.Comparison_expr(); v != nil && v.ASSIGN() != nil { // column = value
+				name = v.Column_name().GetText()
+				value = newLiteralValueWith(v.Literal_value())
 			}
 			columns = append(columns,
 				query.NewColumnWithOptions(query.WithColumnName(name),
-					query.WithColumnLiteral(newExprValueWith(expr))))
+					query.WithColumnLiteral(value)))
 		}
 		values = append(values, columns)
 	}
+	if !hasSameColumns(values) {
+		return nil, newErrInvalid(ctx)
+	}
 	return query.NewInsertWith(tbl, values), nil
 }
 
+// hasSameColumns returns true whether all rows name the same columns, or none names any.
+func hasSameColumns(rows []query.Columns) bool {
+	for _, row := range rows {
+		isNamed := 0 < len(rows[0][0].Name())
+		if isNamed && len(row) != len(rows[0]) {
+			return false
+		}
+		for n, column := range row {
+			if isNamed != (0 < len(column.Name())) {
+				return false
+			}
+			if isNamed && column.Name() != rows[0][n].Name() {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func newTableWith(schemaCtx antlr.ISchema_nameContext, nameCtx antlr.ITable_nameContext, opts ...query.TableOption) query.Table {
 	name := nameCtx.GetText()
 	if schemaCtx != nil {
-- 
2.43.0


From f15e6c2fed849a600bd7d389cad123d05220b519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:00 +0000
Subject: [PATCH 64/69] fix: do not report FOREIGN KEY and CHECK constraints
 before a KEY as columns or indexes

---
 sql/parser/sqlite/parser_antlr_visitor.go | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index bcdbd52..ca4c35c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -16,6 +16,7 @@ package sqlite
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 
 	go_antlr "github.com/antlr4-go/antlr/v4"
@@ -389,14 +390,19 @@ func isIndexDef(ctx antlr.IColumn_defContext) bool {
 		"UNIQUE",
 		"INDEX",
 		"CONSTRAINT",
+		"FOREIGN",
+		"CHECK",
 	}
 	typ := ctx.Type_name()
 	if typ == nil || len(typ.AllName()) == 0 {
 		return false
 	}
-	lastName := typ.AllName()[len(typ.AllName())-1].GetText()
-	if lastName[0] != '(' {
-		return false
+	hasColumn := false
+	for _, name := range typ.AllName() {
+		hasColumn = hasColumn || name.GetText()[0] == '('
+	}
+	if !hasColumn {
+		return isCheckDef(ctx)
 	}
 	for _, keyword := range keywords {
 		if strings.EqualFold(ctx.Column_name().GetText(), keyword) {
@@ -406,6 +412,13 @@ func isIndexDef(ctx antlr.IColumn_defContext) bool {
 	return false
 }
 
+// isCheckDef returns true whether the column definition is a table constraint such as "CONSTRAINT name CHECK (expr)".
+func isCheckDef(ctx antlr.IColumn_defContext) bool {
+	return strings.EqualFold(ctx.Column_name().GetText(), "CONSTRAINT") &&
+		len(ctx.Type_name().AllName()) == 1 && ctx.Type_name().OPEN_PAR() == nil &&
+		0 < len(ctx.AllColumn_constraint()) && ctx.Column_constraint(0).CHECK_() != nil
+}
+
 // newColumnIndexesWith returns the primary and secondary indexes which the column definition defines for its column.
 func newColumnIndexesWith(ctx antlr.IColumn_defContext, column query.Column) query.Indexes {
 	indexes := query.NewIndexes()
@@ -437,7 +450,10 @@ func newIndexDefWith(ctx antlr.IColumn_defContext, columns query.Columns) (query
 	for _, name := range ctx.Type_name().AllName() {
 		defs = append(defs, name.GetText())
 	}
-	lastDef := len(defs) - 1
+	lastDef := slices.IndexFunc(defs, func(def string) bool { return def[0] == '(' })
+	if lastDef < 0 {
+		return nil, false
+	}
 	columnName := strings.UnEscapeNameString(defs[lastDef])
 	column, err := columns.LookupColumn(columnName)
 	if err != nil {
@@ -445,7 +461,9 @@ func newIndexDefWith(ctx antlr.IColumn_defContext, columns query.Columns) (query
 	}
 	for n, def := range defs[:lastDef] {
 		switch {
-		case strings.EqualFold(def, "UNIQUE"):
+		case 0 < n && strings.EqualFold(defs[n-1], "CONSTRAINT"): // the name of the constraint
+			continue
+		case strings.EqualFold(def, "UNIQUE"), strings.EqualFold(def, "FOREIGN"), strings.EqualFold(def, "CHECK"):
 			return nil, false
 		case strings.EqualFold(def, "PRIMARY"):
 			return query.NewPrimaryIndexWith(query.NewColumnsWith(column)), true
-- 
2.43.0


From c078b9e75c23e2e9153e06d23f8faabaf16fecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:02 +0000
Subject: [PATCH 65/69] fix: refuse a compound select whose operator follows a
 table instead of taking it as an alias

---
 sql/parser/sqlite/parser_antlr_visitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index ca4c35c..6ac1663 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -641,6 +641,11 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) (query.Statement, error) {
 	return query.NewUpdateWith(tbl, columns, where), nil
 }
 
+// isCompoundOperator returns true whether the specified name is the operator of a compound select.
+func isCompoundOperator(name string) bool {
+	return strings.EqualFold(name, "UNION") || strings.EqualFold(name, "INTERSECT") || strings.EqualFold(name, "EXCEPT")
+}
+
 func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 	if ctx.Common_table_stmt() != nil || 1 < len(ctx.AllSelect_core()) {
 		return nil, newErrNotSupported(ctx)
@@ -666,6 +671,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) (query.Statement, error) {
 			if tbl := from.From_table(); tbl != nil {
 				ops := []query.TableOption{}
 				if alias := tbl.Table_alias(); alias != nil {
+					if tbl.AS_() == nil && isCompoundOperator(alias.GetText()) {
+						return nil, newErrNotSupported(ctx)
+					}
 					ops = append(ops, query.WithTableAlias(alias.GetText()))
 				}
 				tbls = append(tbls, newTableWith(tbl.Schema_name(), tbl.Table_name(), ops...))
-- 
2.43.0


From 4ad5a773805ee65e51bfeac1d8f2f27ff6b61d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:39 +0000
Subject: [PATCH 66/69] fix: keep the alias of a function in a select

---
 sql/fn/func_impl.go                       | 14 ++++++++++++++
 sql/parser/sqlite/parser_antlr_visitor.go |  8 ++++++--
 sql/query/selectors.go                    |  8 +++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index ececeaa..dc50570 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -25,6 +25,7 @@ type function struct {
 	executor   Executor
 	aggregator Aggregator
 	args       Arguments
+	alias      string
 }
 
 // FunctionOption represents a function option function.
@@ -38,6 +39,7 @@ func NewFunction(opts ...FunctionOption) Function {
 		executor:   nil,
 		aggregator: nil,
 		args:       NewArguments(),
+		alias:      "",
 	}
 	for _, opt := range opts {
 		opt(fn)
@@ -88,6 +90,13 @@ func WithFunctionArguments(args ...Argument) FunctionOption {
 	}
 }
 
+// WithFunctionAlias sets the alias which is written behind the function.
+func WithFunctionAlias(alias string) FunctionOption {
+	return func(fn *function) {
+		fn.alias = alias
+	}
+}
+
 // SetName sets the function name.
 func (fn *function) SetName(name string) {
 	fn.name = strings.ToUpper(name)
@@ -98,6 +107,11 @@ func (fn *function) Name() string {
 	return fn.name
 }
 
+// Alias returns the alias which is written behind the function, or an empty string.
+func (fn *function) Alias() string {
+	return fn.alias
+}
+
 // IsName returns true whether the function name is the specified one.
 func (fn *function) IsName(name string) bool {
 	return strings.EqualFold(fn.name, name)
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6ac1663..b4f192b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -774,10 +774,14 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 					args = append(args, fn.NewArgumentWith(textOf(arg)))
 				}
 			}
-			return fn.NewFunction(
+			opts := []fn.FunctionOption{
 				fn.WithFunctionName(fx.Function_name().GetText()),
 				fn.WithFunctionArguments(args...),
-			), nil
+			}
+			if alias := ctx.Column_alias(); alias != nil {
+				opts = append(opts, fn.WithFunctionAlias(alias.GetText()))
+			}
+			return fn.NewFunction(opts...), nil
 		}
 	}
 	return query.NewColumnWithOptions(query.WithColumnName(textOf(ctx))), nil
diff --git a/sql/query/selectors.go b/sql/query/selectors.go
index 53d8732..68506fd 100644
--- a/sql/query/selectors.go
+++ b/sql/query/selectors.go
@@ -81,5 +81,11 @@ func (selectors Selectors) Len() int {
 
 // String returns a string representation of the selector array.
 func (selectors Selectors) String() string {
-	return strings.JoinWithComma(selectors.Names())
+	names := selectors.Names()
+	for n, selector := range selectors {
+		if aliased, ok := selector.(interface{ Alias() string }); ok && 0 < len(aliased.Alias()) {
+			names[n] += " AS " + aliased.Alias()
+		}
+	}
+	return strings.JoinWithComma(names)
 }
-- 
2.43.0


From 23138b8242e2b19f7704d5ccdb543564bd673cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 67/69] fix: strip only the quotes and parentheses around a
 name, and decode doubled quotes inside

---
 sql/util/strings/strings.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index 6f7b9f0..fd92b28 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -56,9 +56,20 @@ func EqualFold(s, t string) bool {
 	return strings.EqualFold(s, t)
 }
 
-// UnEscapeNameString returns an unescaped column name string.
+// UnEscapeNameString returns an unescaped column name string without the quotes and parentheses around it.
 func UnEscapeNameString(s string) string {
-	return strings.Trim(s, "'`()")
+	for 2 <= len(s) {
+		quote, inner := s[:1], s[1:len(s)-1]
+		switch {
+		case quote == "(" && s[len(s)-1:] == ")":
+			s = inner
+		case (quote == "'" || quote == "`") && s[len(s)-1:] == quote:
+			s = strings.ReplaceAll(inner, quote+quote, quote)
+		default:
+			return s
+		}
+	}
+	return s
 }
 
 // EscapeNameString returns an escaped column name string.
-- 
2.43.0


From b119a8c8add909c0343ee88dc36090eccf98c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:08 +0000
Subject: [PATCH 68/69] fix: quote the names which can not be written as they
 are when a statement is rendered

---
 sql/query/alter_table.go  | 10 ++---
 sql/query/column.go       |  6 +--
 sql/query/create_index.go |  4 +-
 sql/query/create_table.go |  2 +-
 sql/query/drop_index.go   |  4 +-
 sql/query/index.go        |  4 +-
 sql/query/insert.go       |  2 +-
 sql/query/name.go         | 77 +++++++++++++++++++++++++++++++++++++++
 sql/query/table.go        |  4 +-
 9 files changed, 95 insertions(+), 18 deletions(-)
 create mode 100644 sql/query/name.go

diff --git a/sql/query/alter_table.go b/sql/query/alter_table.go
index f394e2a..80f4ce8 100644
--- a/sql/query/alter_table.go
+++ b/sql/query/alter_table.go
@@ -185,14 +185,14 @@ func (stmt *alterTableStmt) String() string {
 	elems := []string{
 		"ALTER",
 		"TABLE",
-		stmt.FullTableName(),
+		fullTableNameString(stmt),
 	}
 	if tbl, ok := stmt.RenameTo(); ok {
 		elems = append(elems,
 			[]string{
 				"RENAME",
 				"TO",
-				tbl.FullTableName(),
+				fullTableNameString(tbl),
 			}...)
 	}
 	if f, t, ok := stmt.RenameColumns(); ok {
@@ -200,9 +200,9 @@ func (stmt *alterTableStmt) String() string {
 			[]string{
 				"RENAME",
 				"COLUMN",
-				f.Name(),
+				nameString(f.Name()),
 				"TO",
-				t.Name(),
+				nameString(t.Name()),
 			}...)
 	}
 	if c, ok := stmt.AddColumn(); ok {
@@ -225,7 +225,7 @@ func (stmt *alterTableStmt) String() string {
 		elems = append(elems,
 			[]string{
 				"DROP",
-				c.Name(),
+				nameString(c.Name()),
 			}...)
 	}
 	return strings.JoinWithSpace(elems)
diff --git a/sql/query/column.go b/sql/query/column.go
index fcaefa4..65abbb2 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -326,13 +326,13 @@ func (col *column) String() string {
 // DefinitionString returns the definition string representation.
 func (col *column) DefinitionString() string {
 	if col.ColumnDef == nil {
-		return col.name
+		return nameString(col.name)
 	}
 	def := col.ColumnDef.String()
 	if len(def) == 0 {
-		return col.name
+		return nameString(col.name)
 	}
-	return col.name + " " + def
+	return nameString(col.name) + " " + def
 }
 
 // Definition returns the column definition.
diff --git a/sql/query/create_index.go b/sql/query/create_index.go
index 28cc3b0..d527fef 100644
--- a/sql/query/create_index.go
+++ b/sql/query/create_index.go
@@ -73,9 +73,9 @@ func (stmt *createIndex) String() string {
 	}
 	idx := stmt.Index()
 	if idx != nil {
-		strs = append(strs, idx.Name())
+		strs = append(strs, nameString(idx.Name()))
 		strs = append(strs, "ON")
-		strs = append(strs, stmt.TableName()+"("+strings.JoinWithComma(idx.Columns().ColumnNames())+")")
+		strs = append(strs, fullTableNameString(stmt.schema)+"("+strings.JoinWithComma(nameStrings(idx.Columns().ColumnNames()))+")")
 	}
 	return strings.JoinWithSpace(strs)
 }
diff --git a/sql/query/create_table.go b/sql/query/create_table.go
index 7c7fbc2..806effe 100644
--- a/sql/query/create_table.go
+++ b/sql/query/create_table.go
@@ -71,7 +71,7 @@ func (stmt *createTableStmt) String() string {
 	elems := []string{
 		"CREATE TABLE",
 		stmt.IfNotExistsOpt.String(),
-		stmt.schema.FullTableName(),
+		fullTableNameString(stmt.schema),
 		columnsStr,
 	}
 	return strings.JoinWithSpace(elems)
diff --git a/sql/query/drop_index.go b/sql/query/drop_index.go
index d755fc8..65e7552 100644
--- a/sql/query/drop_index.go
+++ b/sql/query/drop_index.go
@@ -76,8 +76,8 @@ func (stmt *dropIndex) String() string {
 	if stmt.IfExists() {
 		strs = append(strs, stmt.IfExistsOpt.String())
 	}
-	idxName := stmt.IndexName()
-	tableName := stmt.FullTableName()
+	idxName := nameString(stmt.IndexName())
+	tableName := fullTableNameString(stmt.Schema)
 	if 0 < len(tableName) {
 		idxName = tableName + "." + idxName
 	}
diff --git a/sql/query/index.go b/sql/query/index.go
index 2648fe7..3082de0 100644
--- a/sql/query/index.go
+++ b/sql/query/index.go
@@ -87,10 +87,10 @@ func (idx *index) DefinitionString() string {
 	s := idx.typ.String()
 	switch idx.typ {
 	case SecondaryIndex:
-		s += " " + idx.name
+		s += " " + nameString(idx.name)
 	}
 	s += " ("
-	s += strings.Join(idx.Columns().Names(), ", ")
+	s += strings.Join(nameStrings(idx.Columns().Names()), ", ")
 	s += ")"
 	return s
 }
diff --git a/sql/query/insert.go b/sql/query/insert.go
index 34587fd..dbf5b15 100644
--- a/sql/query/insert.go
+++ b/sql/query/insert.go
@@ -68,7 +68,7 @@ func (stmt *insertStmt) String() string {
 	strs = append(strs,
 		"INSERT",
 		"INTO",
-		stmt.FullTableName(),
+		fullTableNameString(stmt),
 	)
 	if columns := stmt.Columns(); 0 < len(columns) && 0 < len(columns[0].Name()) {
 		strs = append(strs, "("+columns.NameString()+")")
diff --git a/sql/query/name.go b/sql/query/name.go
new file mode 100644
index 0000000..4b3875f
--- /dev/null
+++ b/sql/query/name.go
@@ -0,0 +1,77 @@
+// Copyright (C) 2019 The go-sqlparser Authors. All rights reserved.
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+package query
+
+import (
+	"strings"
+)
+
+// isReservedName returns true whether the specified name is a keyword which is not a name without quotes.
+func isReservedName(name string) bool {
+	switch strings.ToUpper(name) {
+	case "BINARY", "COLUMN", "COPY", "CSV", "DO", "ENGINE", "FORMAT", "NOTHING", "OTHERS", "RETURNING", "TIES", "TRUNCATE", "USE":
+		return true
+	}
+	return false
+}
+
+// isQuotedName returns true whether the specified name is written with its quotes.
+func isQuotedName(name string) bool {
+	if len(name) < 2 {
+		return false
+	}
+	for _, quotes := range []string{"``", "\"\"", "''", "[]"} {
+		if name[0] == quotes[0] && name[len(name)-1] == quotes[1] {
+			return true
+		}
+	}
+	return false
+}
+
+// nameString returns the specified name as it is written in a statement. A name which can not be written as it is, is quoted.
+func nameString(name string) string {
+	if len(name) == 0 || isQuotedName(name) || (isPlainName(name) && !isReservedName(name)) {
+		return name
+	}
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
+// nameStrings returns the specified names as they are written in a statement.
+func nameStrings(names []string) []string {
+	strs := make([]string, len(names))
+	for n, name := range names {
+		strs[n] = nameString(name)
+	}
+	return strs
+}
+
+// fullTableNameString returns the full table name as it is written in a statement.
+func fullTableNameString(tbl interface {
+	SchemaName() string
+	TableName() string
+}) string {
+	name := tbl.TableName()
+	switch {
+	case strings.Contains(name, TableNameSep):
+		if isQuotedName(name) {
+			return name
+		}
+		// A table name with a separator has its schema name.
+		return strings.Join(nameStrings(strings.Split(name, TableNameSep)), TableNameSep)
+	case len(name) == 0 || len(tbl.SchemaName()) == 0:
+		return nameString(name)
+	}
+	return nameString(tbl.SchemaName()) + TableNameSep + nameString(name)
+}
diff --git a/sql/query/table.go b/sql/query/table.go
index 4223aba..7227395 100644
--- a/sql/query/table.go
+++ b/sql/query/table.go
@@ -117,9 +117,9 @@ func (tbl *table) IsTableName(name string) bool {
 // String returns the string representation.
 func (tbl *table) String() string {
 	if 0 < len(tbl.alias) {
-		return tbl.FullTableName() + " AS " + tbl.alias
+		return fullTableNameString(tbl) + " AS " + nameString(tbl.alias)
 	}
-	return tbl.FullTableName()
+	return fullTableNameString(tbl)
 }
 
 // tableString returns the string representation of the specified table including its alias.
-- 
2.43.0


From 47f9ac2d297b719eba0e6627f5d0a1a577c2ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:11 +0000
Subject: [PATCH 69/69] fix: read and write the quoted names of COPY statements

---
 sql/parser/sqlite/parser_antlr_visitor.go |  6 +++++-
 sql/query/copy.go                         | 10 +++++++---
 sql/query/name.go                         | 24 +++++++++++++++++++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index b4f192b..069266e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -812,8 +812,12 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 		fmt := ctx.GetFormat_type().GetText()
 		opts = append(opts, query.WithCopyFormat(fmt))
 	}
+	tblName := strings.UnEscapeString(ctx.GetTable().Table_name().GetText())
+	if schema := ctx.GetTable().Schema_name(); schema != nil {
+		tblName = strings.UnEscapeString(schema.GetText()) + query.TableNameSep + tblName
+	}
 	return query.NewCopyWith(
-		strings.UnEscapeString(newQualifiedTableWith(ctx.GetTable()).FullTableName()),
+		tblName,
 		strings.UnEscapeString(ctx.Source_name().GetText()),
 		opts...,
 	)
diff --git a/sql/query/copy.go b/sql/query/copy.go
index ad4f3dc..644f137 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -136,13 +136,17 @@ func isPlainName(name string) bool {
 func (stmt *copyStmt) String() string {
 	strs := []string{
 		"COPY",
-		stmt.TableName(),
+		copyTableString(stmt.TableName()),
 	}
 	if 0 < len(stmt.columns) {
-		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
+		names := stmt.columns.Names()
+		for n, name := range names {
+			names[n] = copyNameString(name)
+		}
+		strs = append(strs, "("+strings.JoinWithComma(names)+")")
 	}
 	src := stmt.Source()
-	if !isPlainName(src) {
+	if !isPlainName(src) || isReservedName(src) {
 		src = strings.EscapeString(src)
 	}
 	strs = append(strs,
diff --git a/sql/query/name.go b/sql/query/name.go
index 4b3875f..82f7003 100644
--- a/sql/query/name.go
+++ b/sql/query/name.go
@@ -75,3 +75,27 @@ func fullTableNameString(tbl interface {
 	}
 	return nameString(tbl.SchemaName()) + TableNameSep + nameString(name)
 }
+
+// copyNameString returns the specified name as it is written in a COPY statement, which reports names without double quotes.
+func copyNameString(name string) string {
+	isQuoted := isQuotedName(name) && (name[0] == '`' || name[0] == '[')
+	if len(name) == 0 || isQuoted || (isPlainName(name) && !isReservedName(name)) {
+		return name
+	}
+	return "\"" + strings.ReplaceAll(name, "\"", "\"\"") + "\""
+}
+
+// copyTableString returns the specified full table name as it is written in a COPY statement.
+func copyTableString(name string) string {
+	if isQuotedName(name) {
+		return copyNameString(name)
+	}
+	if strings.Contains(name, TableNameSep) && (strings.HasSuffix(name, "`") || strings.HasSuffix(name, "]")) {
+		return name // The names are written with their quotes.
+	}
+	names := strings.Split(name, TableNameSep)
+	for n, elem := range names {
+		names[n] = copyNameString(elem)
+	}
+	return strings.Join(names, TableNameSep)
+}
-- 
2.43.0

