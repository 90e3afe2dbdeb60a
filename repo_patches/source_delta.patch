From d8b7808c25dca8665065852e26afc0ec96baae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 01/47] fix: suggest nothing instead of failing when a query
 has no index candidate

---
 database/dservice/existing_index_remover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..94a5cd4 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -25,6 +25,9 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
 	idxTargets := lo.Uniq(r.idxTargets)
+	if len(idxTargets) == 0 {
+		return nil, nil
+	}
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
 	tNames = lo.Uniq(tNames)
-- 
2.43.0


From 9e3dbc9e3c3631d91228c5c6b6e0b4f6f08114cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 02/47] fix: keep every table of a comma separated FROM for
 PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From f9af99a4ba730321492a62477bac466a8c2e5f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:34 +0000
Subject: [PATCH 03/47] fix: return an error instead of panicking for UNION,
 VALUES and parenthesized SELECT of PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..b4e1d8a 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -68,6 +68,9 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		if _, isValues := selectNode.Select.(*tree.ValuesClause); !isValues || sc.scopeStack.Top() == nil {
+			sc.errors = append(sc.errors, lib.NewUnsupportedError("only simple SELECT is supported. UNION, VALUES etc. are not supported"))
+		}
 		return false
 	}
 
@@ -167,7 +170,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
-- 
2.43.0


From d6b7df88cb93b8ec2ec9edd96973dcdf174a46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:50 +0000
Subject: [PATCH 04/47] fix: do not resolve columns to those of subqueries used
 in fields or conditions

---
 database/dservice/dparser/build_table_fields.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..84c1ae5 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -59,12 +59,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// columns of a subquery in fields or conditions are not visible outside of it
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
-- 
2.43.0


From 32d0a34087e635304e1eed056ce49a09d1fb093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:03 +0000
Subject: [PATCH 05/47] fix: do not expose columns of WHERE or ON as output of
 a derived table

---
 database/dservice/dparser/build_table_fields.go |  2 +-
 database/dservice/dparser/field.go              | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 84c1ae5..0284f2f 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -92,7 +92,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" {
+		if n != "" && !f.isCondition() {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 176faab..8ded311 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -14,3 +14,14 @@ func (f *Field) Name() string {
 
 	return ""
 }
+
+// isCondition returns whether f comes from WHERE or ON, whose columns are not output of SELECT
+func (f *Field) isCondition() bool {
+	for _, c := range f.Columns {
+		if c.Type == FieldCondition {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From a8a609dacf80a2e77f0c8a17c827ce6e92877b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:03 +0000
Subject: [PATCH 06/47] fix: do not panic for a window frame without its end

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index b4e1d8a..1c7e1d8 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -395,8 +395,12 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 				res = append(res, sc.collectExprReferences(o.Expr, defaultType)...)
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
-				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				if frame.Bounds.StartBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
+				}
+				if frame.Bounds.EndBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
-- 
2.43.0


From b607864fe58d9d263314068f555df90ed1a1d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 07/47] fix: resolve an outer table's alias even when it equals
 a name of an inner table

---
 database/dservice/dparser/build_table_fields.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 0284f2f..44c814b 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -258,7 +258,6 @@ func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalC
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
 	for tName := range externalCols {
-		asToName[tName] = tName
 		subqueryAsNames.Add(tName)
 	}
 	for _, t := range tables {
@@ -294,6 +293,9 @@ func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
 	name, ok := t.asToName[asName]
 	if !ok {
+		if cols, ok := t.externalCols[asName]; ok {
+			return cols, nil
+		}
 		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 	}
 
-- 
2.43.0


From b47eb70d330ece0cd3e7473a2fadb20dd23d1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:30 +0000
Subject: [PATCH 08/47] fix: reject an empty query and MySQL's multiple
 statements instead of panicking or dropping some

---
 database/mysql/mservice/parse.go    | 7 +++++++
 database/postgres/pservice/parse.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..017f026 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -3,6 +3,7 @@ package mservice
 import (
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
+	"github.com/pkg/errors"
 )
 
 func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
@@ -11,5 +12,11 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 		return nil, err
 	}
 
+	if len(stmtNodes) == 0 {
+		return nil, errors.New("no statement found in query")
+	}
+	if len(stmtNodes) > 1 {
+		return nil, errors.New("not supporting query having multiple statements")
+	}
 	return stmtNodes[0], nil
 }
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..9d8a104 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -11,6 +11,9 @@ func Parse(query string) (*parser.Statement, error) {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
 
+	if len(stmts) == 0 {
+		return nil, errors.New("no statement found in query")
+	}
 	if len(stmts) > 1 {
 		return nil, errors.New("not supporting query having multiple statements")
 	}
-- 
2.43.0


From f0ffbad4cca5a677735a839c4e09d7217dcec789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:05 +0000
Subject: [PATCH 09/47] fix: reject unsupported queries before EXPLAIN ANALYZE
 executes them

---
 cmd/db/suggest/mysql.go                       |  9 ++++++++-
 cmd/db/suggest/postgres.go                    |  9 ++++++++-
 database/mysql/mservice/index_suggester.go    | 14 ++++++++++++++
 database/postgres/pservice/index_suggester.go | 14 ++++++++++++++
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..02f0a7e 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,12 +64,19 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	is := mservice.NewIndexSuggester(db, dbName)
+	// EXPLAIN ANALYZE executes the query, so reject unsupported one (e.g. DELETE) beforehand
+	err = is.Validate(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
 	}
 
-	its, err := mservice.NewIndexSuggester(db, dbName).Suggest(mr.query)
+	its, err := is.Suggest(mr.query)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..b4fba98 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,12 +64,19 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	is := pservice.NewIndexSuggester(db, schema)
+	// EXPLAIN ANALYZE executes the query, so reject unsupported one (e.g. DELETE) beforehand
+	err = is.Validate(pr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
 	}
 
-	its, err := pservice.NewIndexSuggester(db, schema).Suggest(pr.query)
+	its, err := is.Suggest(pr.query)
 	if err != nil {
 		return err
 	}
diff --git a/database/mysql/mservice/index_suggester.go b/database/mysql/mservice/index_suggester.go
index 08dc046..2eb4bd8 100644
--- a/database/mysql/mservice/index_suggester.go
+++ b/database/mysql/mservice/index_suggester.go
@@ -20,6 +20,20 @@ func NewIndexSuggester(db *mysql.DB, dbName string) *IndexSuggester {
 	}
 }
 
+// Validate returns error when query is not supported, without accessing to the database
+func (is *IndexSuggester) Validate(query string) error {
+	rootNode, err := Parse(tParser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	if _, errs := parser.CollectTableNames(rootNode); len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
+
 func (is *IndexSuggester) Suggest(query string) ([]*dmodel.IndexTarget, error) {
 	p := tParser.New()
 	rootNode, err := Parse(p, query)
diff --git a/database/postgres/pservice/index_suggester.go b/database/postgres/pservice/index_suggester.go
index 086a136..c2c144a 100644
--- a/database/postgres/pservice/index_suggester.go
+++ b/database/postgres/pservice/index_suggester.go
@@ -19,6 +19,20 @@ func NewIndexSuggester(db *postgres.DB, schema string) *IndexSuggester {
 	}
 }
 
+// Validate returns error when query is not supported, without accessing to the database
+func (is *IndexSuggester) Validate(query string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	if _, errs := parser.CollectTableNames(stmt); len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
+
 func (is *IndexSuggester) Suggest(query string) ([]*dmodel.IndexTarget, error) {
 	stmt, err := Parse(query)
 	if err != nil {
-- 
2.43.0


From 12140dc912fdc02724fe9a602fb906170f52925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 10/47] fix: escape values in the connection string of
 PostgreSQL

---
 infra/postgres/config.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..28984eb 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteConnectionValue(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteConnectionValue(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteConnectionValue(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteConnectionValue(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteConnectionValue(cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +69,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+// quoteConnectionValue quotes v for libpq's connection string, where `\` and `'` must be escaped with `\`
+func quoteConnectionValue(v string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From 01763db26e3c706905266126a8625be33a8aa15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:16 +0000
Subject: [PATCH 11/47] fix: let DB_PARAM_TEXT override sslmode of PostgreSQL

---
 infra/postgres/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 28984eb..f973427 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -61,10 +61,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname="+quoteConnectionValue(cfg.DBName))
 	}
+	// the last one is used when the same key exists, so let paramText have priority
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 409ce0ae9d7038b02fe323f92e1bc319a70ef46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:19 +0000
Subject: [PATCH 12/47] fix: report errors in a GraphQL response as failure of
 the query

---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..4280b83 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// GraphQL returns 200 even when the query fails
+	gres := struct {
+		Errors []json.RawMessage `json:"errors"`
+	}{}
+	err = json.Unmarshal(res, &gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to unmarshal response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(gres.Errors[0]))
+	}
 	return nil
 }
 
-- 
2.43.0


From ccbe4ba1542710de7535ec8792ac98a31e63bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:22 +0000
Subject: [PATCH 13/47] fix: do not underflow consumed time when a child
 outlives its parent

---
 otel/omodel/span.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..39939e9 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -77,6 +77,10 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		if t[0] >= s.EndTimeUnixNano {
+			// child starting after the end of s doesn't interrupt s
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -84,7 +88,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From 3eaacd28c4fa3e6543cdac364f28f7ba265907b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:25 +0000
Subject: [PATCH 14/47] fix: align hours of load in UTC so that loads are not
 lost at a timezone having half an hour offset

---
 infra/aws/pi_sql_load_avg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..34eb8a4 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -26,7 +26,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 	dbLoadMap := map[time.Time]map[string]*viewmodel.VmDbLoad{}
 	for _, avg := range avgs {
 		for _, v := range avg.Values {
-			baseTime := lib.NormalizeTimeByHour(v.Time)
+			baseTime := lib.NormalizeTimeByHour(v.Time.UTC())
 			if _, ok := sqlLoadMap[baseTime]; !ok {
 				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
 			}
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From df3bef4b77dda9515b26b482e20a39848ac36f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:29 +0000
Subject: [PATCH 15/47] fix: keep the last node of EXPLAIN without summary

---
 database/postgres/pservice/explain_analyze_tree_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..4348756 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -77,6 +77,7 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		if summaryReg.MatchString(line) {
 			if len(nodeLines) > 0 {
 				lineNodes = append(lineNodes, nodeLines)
+				nodeLines = nil
 			}
 			summaryStartLine = i
 			break
@@ -119,6 +120,11 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
+	if len(nodeLines) > 0 {
+		// summary doesn't exist
+		lineNodes = append(lineNodes, nodeLines)
+	}
+
 	sLine := ""
 	if summaryStartLine > 0 {
 		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
-- 
2.43.0


From 8bee89564ea3f899240c6b3d808102ab519a6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:33 +0000
Subject: [PATCH 16/47] fix: reject an index option having extra lines

---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..d5cd815 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -42,7 +42,7 @@ func NewIndexTargetsFromTexts(texts []string) ([]*IndexTarget, error) {
 
 func NewIndexTargetFromText(text string) (*IndexTarget, error) {
 	m := indexTargetReg.FindStringSubmatch(text)
-	if m == nil {
+	if m == nil || m[0] != text {
 		return nil, errors.Errorf("Not appropriate text for index: %s", text)
 	}
 
-- 
2.43.0


From 249da00faaac433820e360fbf4910c8cc5a3cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:07 +0000
Subject: [PATCH 17/47] fix: keep case of quoted names in a query of PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 6 +++---
 database/postgres/pservice/parser/collect_table_names.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 1c7e1d8..ae431e5 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -502,7 +502,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -510,7 +510,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -529,7 +529,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..f471d11 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -40,7 +40,7 @@ func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
 func (tc *tableCollector) getTableNames() []string {
 	s := lib.NewSet[string]()
 	for _, t := range tc.tables {
-		s.Add(t.name.Normalize())
+		s.Add(string(t.name))
 	}
 
 	return s.Values()
@@ -74,7 +74,7 @@ func (tc *tableCollector) pushCteTables(s *tree.Select) {
 
 	var ts []string
 	for _, cte := range s.With.CTEList {
-		ts = append(ts, cte.Name.Alias.Normalize())
+		ts = append(ts, string(cte.Name.Alias))
 	}
 	tc.cteTables = append(tc.cteTables, ts)
 }
@@ -105,7 +105,7 @@ func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.Tab
 		))
 		return
 	}
-	if !tc.isCteTable(tName.TableName.Normalize()) {
+	if !tc.isCteTable(string(tName.TableName)) {
 		tc.tables = append(tc.tables, &table{
 			name:  tName.TableName,
 			alias: asName,
-- 
2.43.0


From 2db963885cf7d8a73f3272a7e380b457dd08609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:10 +0000
Subject: [PATCH 18/47] fix: find columns of MySQL having upper case characters

---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..4b642ff 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// names in a query are handled in lower case because MySQL ignores case of column names
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From 91513f80b284b4697f370b2df809332846e41ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 19/47] fix: accept MySQL's index on an expression, whose
 column name is NULL

---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..a5dce60 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL when index is for expression
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From f0c50ecf99587b42ce8c592f9bb502adfa9da84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 20/47] fix: collect columns in COLLATE, GROUP_CONCAT's ORDER
 BY and assignment to a variable of MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..aa1cd66 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -234,7 +234,9 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 	case *ast.ValuesExpr:
 		sc.lastError = lib.NewInvalidAstError("VALUES is not expected")
 	case *ast.VariableExpr:
-		// do nothing as variable doesn't relate to table's column
+		// variable itself doesn't relate to table's column, but the value assigned to it does
+		// e.g.) SELECT @id := id FROM users
+		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
 	case *ast.MaxValueExpr:
 		// MAXVALUE appears in table definition for partition
 		sc.lastError = lib.NewInvalidAstError("MAXVALUE is not expected")
@@ -244,7 +246,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
@@ -258,6 +260,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From bca20d28fd96cf75fdfdb922f10d412446517ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:51 +0000
Subject: [PATCH 21/47] fix: recognize existing indexes of PostgreSQL on
 columns whose name is quoted

---
 infra/hasura/index_info.go   |  3 ++-
 infra/postgres/index_info.go |  3 ++-
 lib/postgres.go              | 13 +++++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)
 create mode 100644 lib/postgres.go

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..77657d8 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
+	"github.com/samber/lo"
 	"strings"
 )
 
@@ -65,7 +66,7 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 
 		infos = append(infos, &IndexInfo{
 			TableName: r[0],
-			Columns:   cols,
+			Columns:   lo.Map(cols, func(c string, _ int) string { return lib.UnquotePostgresIdentifier(c) }),
 		})
 	}
 
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..98d4b35 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"github.com/lib/pq"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
 )
 
@@ -41,7 +42,7 @@ func toIndexInfo(queryInfos []*queryIndexInfo) []*IndexInfo {
 	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
 		return &IndexInfo{
 			TableName: qi.TableName,
-			Columns:   qi.ColumnNames,
+			Columns:   lo.Map(qi.ColumnNames, func(c string, _ int) string { return lib.UnquotePostgresIdentifier(c) }),
 		}
 	})
 }
diff --git a/lib/postgres.go b/lib/postgres.go
new file mode 100644
index 0000000..9c7b48f
--- /dev/null
+++ b/lib/postgres.go
@@ -0,0 +1,13 @@
+package lib
+
+import "strings"
+
+// UnquotePostgresIdentifier removes quotes PostgreSQL adds to names. (e.g. `"CreatedAt"` -> `CreatedAt`)
+// Expressions of index are kept as they are because PostgreSQL surrounds them with parentheses unless it is a function.
+func UnquotePostgresIdentifier(name string) string {
+	if len(name) < 2 || !strings.HasPrefix(name, `"`) || !strings.HasSuffix(name, `"`) {
+		return name
+	}
+
+	return strings.ReplaceAll(name[1:len(name)-1], `""`, `"`)
+}
-- 
2.43.0


From be554a689bd47bdd478528e7eedf337639bb0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:44 +0000
Subject: [PATCH 22/47] fix: do not take an arrow row of PostgreSQL's plan
 having ': ' in a name for an info row

---
 .../postgres/pservice/explain_analyze_tree_builder.go  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 4348756..c0af47f 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -58,7 +58,7 @@ func (erb *ExplainAnalyzeTreeBuilder) collect(explainLines []string) (*pmodel.Ex
 	return root, summaryText, nil
 }
 
-var arrowRowReg = regexp.MustCompile(`\s*-> `)
+var arrowRowReg = regexp.MustCompile(`^\s*-> `)
 var infoRowReg = regexp.MustCompile(`\s*(\w+ ?)+: `)
 var summaryReg = regexp.MustCompile(`^\w[\w ]+:`)
 
@@ -87,8 +87,10 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 			prevLineType = analyzeLineArrow
 			continue
 		}
+		isArrowRow := arrowRowReg.MatchString(line)
+		isInfoRow := !isArrowRow && infoRowReg.MatchString(line)
 		if prevLineType == analyzeLineInfo {
-			if infoRowReg.MatchString(line) {
+			if isInfoRow {
 				nodeLines = append(nodeLines, line)
 				continue
 			} else {
@@ -98,10 +100,10 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 				}
 			}
 		}
-		if infoRowReg.MatchString(line) {
+		if isInfoRow {
 			nodeLines = append(nodeLines, line)
 			prevLineType = analyzeLineInfo
-		} else if arrowRowReg.MatchString(line) {
+		} else if isArrowRow {
 			if prevLineType == analyzeLineArrow {
 				if len(nodeLines) > 0 {
 					lineNodes = append(lineNodes, nodeLines)
-- 
2.43.0


From 9579605f5320f8d35f590a3cba434f775bb34b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:44 +0000
Subject: [PATCH 23/47] fix: report a trace returned for two neighbouring time
 ranges once

---
 otel/jaeger/trace_fetcher.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..b42903f 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -1,6 +1,7 @@
 package jaeger
 
 import (
+	"fmt"
 	"github.com/gogo/protobuf/types"
 	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
 	"github.com/mrasu/GravityR/infra/jaeger"
@@ -22,6 +23,7 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	interval := 30 * time.Minute
 
 	var res []*omodel.TraceTree
+	foundIds := lib.NewSet[string]()
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
 		param := &api_v3.TraceQueryParameters{
@@ -37,7 +39,15 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 		if err != nil {
 			return nil, err
 		}
-		res = append(res, trees...)
+		for _, tree := range trees {
+			// a trace lying on the border of two ranges is returned for both of them
+			id := fmt.Sprintf("%x-%x", tree.Root.TraceId, tree.Root.SpanId)
+			if foundIds.Contains(id) {
+				continue
+			}
+			foundIds.Add(id)
+			res = append(res, tree)
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From a1bd12ddf9ff4eb31440e729cb7e2b6b7e3d75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:44 +0000
Subject: [PATCH 24/47] fix: accept a span attribute without a value

---
 otel/jaeger/v1_converter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..c6c8aba 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,7 +85,10 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		// value can be empty
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From a1513f61f89c2cbfc59d457405bbd55d412f45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:54 +0000
Subject: [PATCH 25/47] fix: get DB instances of all pages from RDS

---
 infra/aws/rds.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..e60a00a 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	paginator := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From e62600d85c88e8874a870a2788b881220ab867bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:20 +0000
Subject: [PATCH 26/47] fix: get metrics of all pages from PerformanceInsights

---
 infra/aws/performance_insights.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..209d745 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	paginator := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,16 +66,21 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var metrics []types.MetricKeyDataPoints
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		metrics = append(metrics, output.MetricList...)
 	}
 
-	return output, nil
+	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
+	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
-- 
2.43.0


From 32ab14ac6973b7984c2128ca96f12708100cfd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:27 +0000
Subject: [PATCH 27/47] fix: do not mix up loads of SQLs having the same text
 but different tokenized id

---
 infra/aws/pi_sql_load_avg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 34eb8a4..eca6129 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -44,7 +44,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 
 			found := false
 			for _, loadOfSql := range dbLoad.Sqls {
-				if loadOfSql.Sql == avg.SQL {
+				if loadOfSql.Sql == avg.SQL && loadOfSql.TokenizedId == avg.TokenizedId {
 					if loadOfSql.LoadMax < v.Value {
 						loadOfSql.LoadMax = v.Value
 					}
-- 
2.43.0


From 896bd05ac1d50adad837d6c27df5f615c200625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:45 +0000
Subject: [PATCH 28/47] fix: count a load of PerformanceInsights returned for
 two half days once

---
 infra/aws/performance_insights.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 209d745..500799c 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -14,6 +14,8 @@ const loadAvgMetricName = "db.load.avg"
 const sqlGroupName = "db.sql"
 const tokenizedSqlGroupName = "db.sql_tokenized"
 
+const halfDay = 12 * time.Hour
+
 type PerformanceInsights struct {
 	client aPi.GetResourceMetricsAPIClient
 }
@@ -34,7 +36,7 @@ func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time)
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, start, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
@@ -44,7 +46,7 @@ func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start ti
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, start, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
@@ -62,7 +64,7 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		},
 		ServiceType:     types.ServiceTypeRds,
 		StartTime:       &start,
-		EndTime:         lib.Ptr(start.Add(12 * time.Hour)),
+		EndTime:         lib.Ptr(start.Add(halfDay)),
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
@@ -78,7 +80,7 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, start time.Time, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
 	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
@@ -106,6 +108,10 @@ func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics [
 			if *dp.Value == 0 {
 				continue
 			}
+			// PerformanceInsights widens the range to the boundaries of its period, returning a point for two neighbouring ranges
+			if dp.Timestamp.Before(start) || !dp.Timestamp.Before(start.Add(halfDay)) {
+				continue
+			}
 			sla.Values = append(sla.Values, &PiTimeValue{
 				Value: *dp.Value,
 				Time:  *dp.Timestamp,
-- 
2.43.0


From 6ad8699cc5ca72f1fc06a7ee9968e1d79c9a5180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:03 +0000
Subject: [PATCH 29/47] fix: do not round big numbers in variables for Hasura

---
 cmd/db/suggest/hasura/postgres.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..15eeab9 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,8 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"io"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -133,9 +135,15 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	decoder := json.NewDecoder(strings.NewReader(jsonStr))
+	// do not round big numbers
+	decoder.UseNumber()
+	if err := decoder.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("failed to parse variables: only one JSON object is allowed")
+	}
 
 	return variables, nil
 }
-- 
2.43.0


From 774978dd81c5f4a77ac4181bd843eef4501a8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:39 +0000
Subject: [PATCH 30/47] fix: connect to MySQL with user, database and address
 which DSN cannot hold

---
 infra/mysql/config.go | 20 +++++++++++++++-----
 infra/mysql/db.go     |  9 +++++++--
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/infra/mysql/config.go b/infra/mysql/config.go
index 94c4656..2098be6 100644
--- a/infra/mysql/config.go
+++ b/infra/mysql/config.go
@@ -3,7 +3,9 @@ package mysql
 import (
 	"github.com/go-sql-driver/mysql"
 	"github.com/mrasu/GravityR/lib"
+	"github.com/pkg/errors"
 	"os"
+	"strings"
 )
 
 type Config struct {
@@ -45,13 +47,21 @@ func NewConfigFromEnv() (*Config, error) {
 	}, nil
 }
 
-func (cfg *Config) ToDSN() string {
-	dsn := cfg.config.FormatDSN()
-	if len(cfg.paramText) > 0 {
-		dsn += "?" + cfg.paramText
+// ToDriverConfig returns settings for the driver.
+// Only paramText is read as DSN because DSN cannot hold some values (e.g. user having ":", database having "/" or "?")
+func (cfg *Config) ToDriverConfig() (*mysql.Config, error) {
+	driverCfg, err := mysql.ParseDSN("/?" + strings.ReplaceAll(cfg.paramText, "/", "%2F"))
+	if err != nil {
+		return nil, errors.Wrap(err, "invalid DB_PARAM_TEXT")
 	}
 
-	return dsn
+	driverCfg.User = cfg.config.User
+	driverCfg.Passwd = cfg.config.Passwd
+	driverCfg.Net = cfg.config.Net
+	driverCfg.Addr = cfg.config.Addr
+	driverCfg.DBName = cfg.config.DBName
+
+	return driverCfg, nil
 }
 
 func (cfg *Config) GetDBName() string {
diff --git a/infra/mysql/db.go b/infra/mysql/db.go
index 23779a4..ec2e1a2 100644
--- a/infra/mysql/db.go
+++ b/infra/mysql/db.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"github.com/go-sql-driver/mysql"
 	"github.com/jmoiron/sqlx"
 	"github.com/pkg/errors"
 	"time"
@@ -13,12 +14,16 @@ type DB struct {
 }
 
 func OpenMySQLDB(cfg *Config) (*DB, error) {
-	dsn := cfg.ToDSN()
+	driverCfg, err := cfg.ToDriverConfig()
+	if err != nil {
+		return nil, err
+	}
 
-	db, err := sqlx.Open("mysql", dsn)
+	connector, err := mysql.NewConnector(driverCfg)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to connect")
 	}
+	db := sqlx.NewDb(sql.OpenDB(connector), "mysql")
 
 	db.SetConnMaxLifetime(time.Minute * 3)
 	db.SetMaxOpenConns(10)
-- 
2.43.0


From 82326a2d8ebb722cd35ada26c278213f5a504ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:31 +0000
Subject: [PATCH 31/47] fix: make the command shown for a SQL of Performance
 Insights runnable

---
 .../pages/dig/performance_insights/util/CommandText.ts   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/CommandText.ts b/client/src/pages/dig/performance_insights/util/CommandText.ts
index 74f1759..5554db6 100644
--- a/client/src/pages/dig/performance_insights/util/CommandText.ts
+++ b/client/src/pages/dig/performance_insights/util/CommandText.ts
@@ -1,6 +1,9 @@
+const escapeForDoubleQuotes = (value: string): string =>
+  value.replace(/(["$`\\])/g, "\\$1");
+
 export const buildCommandText = (dbName: string, sql: string): string => {
-  const db = dbName ?? "...";
-  const query = sql ?? "...";
+  const db = escapeForDoubleQuotes(dbName ?? "...");
+  const query = escapeForDoubleQuotes(sql ?? "...");
 
-  return `DB_DATABASE="${db}" gr db suggest -o "suggest.html" \\\n\t-q "${query}"`;
+  return `DB_DATABASE="${db}" gr db suggest mysql -o "suggest.html" \\\n\t-q "${query}"`;
 };
-- 
2.43.0


From 4b349599e84f0b379f5315e19d78c14bcc25f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:31 +0000
Subject: [PATCH 32/47] fix: show texts in the tooltips of charts as text

---
 client/src/lib/EscapeHtml.ts                           |  7 +++++++
 .../pages/dig/performance_insights/util/LoadTooltip.ts | 10 ++++++----
 client/src/pages/suggest/hasura/ExplainChart.svelte    |  9 +++++++--
 .../src/pages/suggest/mysql/ExplainAnalyzeChart.svelte |  9 +++++++--
 .../pages/suggest/postgres/ExplainAnalyzeChart.svelte  |  9 +++++++--
 5 files changed, 34 insertions(+), 10 deletions(-)
 create mode 100644 client/src/lib/EscapeHtml.ts

diff --git a/client/src/lib/EscapeHtml.ts b/client/src/lib/EscapeHtml.ts
new file mode 100644
index 0000000..12aaea9
--- /dev/null
+++ b/client/src/lib/EscapeHtml.ts
@@ -0,0 +1,7 @@
+export const escapeHtml = (text: string): string =>
+  text
+    .replace(/&/g, "&amp;")
+    .replace(/</g, "&lt;")
+    .replace(/>/g, "&gt;")
+    .replace(/"/g, "&quot;")
+    .replace(/'/g, "&#39;");
diff --git a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
index c9260a2..b01ec0d 100644
--- a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
+++ b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
@@ -1,3 +1,5 @@
+import { escapeHtml } from "@/lib/EscapeHtml";
+
 type LoadProp = {
   dbName: string;
   sql: string;
@@ -12,14 +14,14 @@ export const createLoadMaxTooltip = (
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
       ${date.toUTCString()}<br />
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadMaxPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
@@ -36,14 +38,14 @@ export const createLoadSumTooltip = (
 ): string => {
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         Sum of db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadSumPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
diff --git a/client/src/pages/suggest/hasura/ExplainChart.svelte b/client/src/pages/suggest/hasura/ExplainChart.svelte
index 5169497..94e59cf 100644
--- a/client/src/pages/suggest/hasura/ExplainChart.svelte
+++ b/client/src/pages/suggest/hasura/ExplainChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/EscapeHtml";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -47,10 +48,14 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(
+          text
+        )}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
diff --git a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
index 31d7b6f..3978b9e 100644
--- a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/EscapeHtml";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -58,10 +59,14 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(
+          text
+        )}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         ${InitCostHtml}
diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 3f7e094..31c5c9b 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/EscapeHtml";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -51,10 +52,14 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(
+          text
+        )}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
-- 
2.43.0


From 171a4f1719aa757a737da7c75ae1bb3b016416f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:31 +0000
Subject: [PATCH 33/47] fix: show the actual time of a plan's step whose first
 row took 0.000 ms

---
 client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 31c5c9b..cdf1e8d 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -68,7 +68,9 @@
         <div>Width (estimated) : ${estimatedWidth}</div>
         <!-- actualTimeAvg seems not the average time of loops for PostgreSQL even doc says so... -->
         <div>Time (actual) :  ${
-          actualTimeFirstRow ? `${actualTimeFirstRow} ~ ${actualTimeAvg}` : "-"
+          (actualTimeFirstRow ?? null) !== null
+            ? `${actualTimeFirstRow} ~ ${actualTimeAvg}`
+            : "-"
         }</div>
         <div>Rows returned (actual) : ${actualReturnedRows ?? "-"}</div>
         <div>Loop count (actual) : ${actualLoopCount ?? "-"}</div>
-- 
2.43.0


From d5e66adf9a6ea75746262d8154d3a287832c0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 34/47] fix: do not mix up statements and hours in the charts
 of Performance Insights

---
 .../DbLoadRankingChart.ts                     | 25 ++++++-----------
 .../DbTokenizedLoadRankingChart.ts            | 28 ++++++-------------
 .../util/chart/LoadKey.ts                     |  6 ++++
 .../util/chart/LoadPropChartSereies.ts        | 26 ++++++++---------
 4 files changed, 35 insertions(+), 50 deletions(-)
 create mode 100644 client/src/pages/dig/performance_insights/util/chart/LoadKey.ts

diff --git a/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts b/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
index cfbdc53..e644c7b 100644
--- a/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
+++ b/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
@@ -3,6 +3,7 @@ import type { TimeDbLoad } from "@/models/TimeDbLoad";
 import { GrChart } from "@/lib/GrChart";
 import type { GrChartOptions } from "@/lib/GrChart";
 import type { GrChartSeries } from "@/lib/GrChart";
+import { createLoadKey } from "./util/chart/LoadKey";
 
 const DEFAULT_CHART_OPTION: ApexOptions = {
   chart: {
@@ -77,36 +78,28 @@ export class DbLoadRankingChart extends GrChart<DbLoadRankingChartProp> {
   }
 
   private createDbLoadChartSeries = (targetDatabases: string[]): Series => {
-    let props: Record<string, Record<string, DbLoadRankingChartProp>> = {};
+    const props = new Map<string, DbLoadRankingChartProp>();
     for (const load of this.timeDbLoads) {
       for (const dbLoad of load.databases) {
         if (!targetDatabases.includes(dbLoad.name)) continue;
 
-        if (!props[dbLoad.name]) {
-          props[dbLoad.name] = {};
-        }
-        const dbProps = props[dbLoad.name];
         for (const loadOfSql of dbLoad.sqls) {
-          if (dbProps[loadOfSql.sql]) {
-            dbProps[loadOfSql.sql].loadSumPercent += loadOfSql.loadSum * 100;
+          const key = createLoadKey(dbLoad, loadOfSql);
+          const prop = props.get(key);
+          if (prop) {
+            prop.loadSumPercent += loadOfSql.loadSum * 100;
           } else {
-            dbProps[loadOfSql.sql] = {
+            props.set(key, {
               dbName: dbLoad.name,
               sql: loadOfSql.sql,
               loadSumPercent: loadOfSql.loadSum * 100,
-            };
+            });
           }
         }
       }
     }
 
-    const allProps = Object.keys(props)
-      .map((dbName) =>
-        Object.keys(props[dbName]).map((sql) => props[dbName][sql])
-      )
-      .flat();
-
-    const elements = allProps
+    const elements = Array.from(props.values())
       .sort((p1, p2) => p2.loadSumPercent - p1.loadSumPercent)
       .slice(0, this.dataCount)
       .map((prop) => ({
diff --git a/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts b/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
index 794366c..7ae24d3 100644
--- a/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
+++ b/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
@@ -3,6 +3,7 @@ import type { TimeDbLoad } from "@/models/TimeDbLoad";
 import { GrChart } from "@/lib/GrChart";
 import type { GrChartOptions } from "@/lib/GrChart";
 import type { GrChartSeries } from "@/lib/GrChart";
+import { createLoadKey } from "./util/chart/LoadKey";
 import { createRawLoads, pickRawLoads } from "./util/chart/TokenizedLoad";
 import type { RawLoadOfSql } from "./util/chart/TokenizedLoad";
 
@@ -92,41 +93,30 @@ export class DbTokenizedLoadRankingChart extends GrChart<DbTokenizedLoadRankingC
   }
 
   private createDbLoadChartSeries = (targetDatabases: string[]): Series => {
-    let props: Record<
-      string,
-      Record<string, DbTokenizedLoadRankingChartProp>
-    > = {};
+    const props = new Map<string, DbTokenizedLoadRankingChartProp>();
     for (const load of this.tokenizedTimeDbLoads) {
       for (const dbLoad of load.databases) {
         if (!targetDatabases.includes(dbLoad.name)) continue;
 
-        if (!props[dbLoad.name]) {
-          props[dbLoad.name] = {};
-        }
-        const dbProps = props[dbLoad.name];
         for (const loadOfSql of dbLoad.sqls) {
-          if (dbProps[loadOfSql.sql]) {
-            dbProps[loadOfSql.sql].loadSumPercent += loadOfSql.loadSum * 100;
+          const key = createLoadKey(dbLoad, loadOfSql);
+          const prop = props.get(key);
+          if (prop) {
+            prop.loadSumPercent += loadOfSql.loadSum * 100;
           } else {
-            dbProps[loadOfSql.sql] = {
+            props.set(key, {
               dbName: dbLoad.name,
               sql: loadOfSql.sql,
               loadSumPercent: loadOfSql.loadSum * 100,
               tokenizedId: loadOfSql.tokenizedId,
               date: load.date,
-            };
+            });
           }
         }
       }
     }
 
-    const allProps = Object.keys(props)
-      .map((dbName) =>
-        Object.keys(props[dbName]).map((sql) => props[dbName][sql])
-      )
-      .flat();
-
-    const elements = allProps
+    const elements = Array.from(props.values())
       .sort((p1, p2) => p2.loadSumPercent - p1.loadSumPercent)
       .slice(0, this.dataCount)
       .map((prop) => ({
diff --git a/client/src/pages/dig/performance_insights/util/chart/LoadKey.ts b/client/src/pages/dig/performance_insights/util/chart/LoadKey.ts
new file mode 100644
index 0000000..bd3d5b6
--- /dev/null
+++ b/client/src/pages/dig/performance_insights/util/chart/LoadKey.ts
@@ -0,0 +1,6 @@
+import type { DbLoad } from "@/models/DbLoad";
+import type { DbLoadOfSql } from "@/models/DbLoadOfSql";
+
+// Different statements can have the same (truncated) text, so tokenizedId is also needed to identify a statement.
+export const createLoadKey = (dbLoad: DbLoad, loadOfSql: DbLoadOfSql): string =>
+  JSON.stringify([dbLoad.name, loadOfSql.sql, loadOfSql.tokenizedId]);
diff --git a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
index 5817b00..392e480 100644
--- a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
@@ -2,8 +2,7 @@ import type { GrChartSeries, GrChartSeriesData } from "@/lib/GrChart";
 import type { TimeDbLoad } from "@/models/TimeDbLoad";
 import type { DbLoadOfSql } from "@/models/DbLoadOfSql";
 import type { DbLoad } from "@/models/DbLoad";
-
-type SeriesRecord<T> = Record<string, Record<string, GrChartSeries<T>[number]>>;
+import { createLoadKey } from "./LoadKey";
 
 export const createLoadPropChartSeries = <T>(
   dbLoads: TimeDbLoad[],
@@ -16,7 +15,7 @@ export const createLoadPropChartSeries = <T>(
   ) => GrChartSeriesData<T>
 ): GrChartSeries<T> => {
   let series: GrChartSeries<T> = [];
-  let knownSeries: SeriesRecord<T> = {};
+  const knownSeries = new Map<string, GrChartSeries<T>[number]>();
 
   for (let i = 0; i < dbLoads.length; i++) {
     const timeDbLoad = dbLoads[i];
@@ -26,26 +25,23 @@ export const createLoadPropChartSeries = <T>(
       for (const loadOfSql of dbLoad.sqls) {
         if (loadOfSql.loadMax < threshold) continue;
 
-        if (!knownSeries[dbLoad.name]) {
-          knownSeries[dbLoad.name] = {};
-        }
-        const dbSeries = knownSeries[dbLoad.name];
-        if (!dbSeries[loadOfSql.sql]) {
+        const key = createLoadKey(dbLoad, loadOfSql);
+        if (!knownSeries.has(key)) {
           const seriesData = {
             database: dbLoad.name,
             name: loadOfSql.sql,
-            data: Array(i).fill({
-              x: timeDbLoad.date,
+            data: dbLoads.slice(0, i).map((l) => ({
+              x: l.date,
               y: 0,
-            }),
+            })),
           };
-          dbSeries[loadOfSql.sql] = seriesData;
+          knownSeries.set(key, seriesData);
           series.push(seriesData);
         }
 
-        dbSeries[loadOfSql.sql].data.push(
-          buildDataFn(timeDbLoad, dbLoad, loadOfSql)
-        );
+        knownSeries
+          .get(key)
+          .data.push(buildDataFn(timeDbLoad, dbLoad, loadOfSql));
       }
     }
 
-- 
2.43.0


From 4bcdf22fa635718e6deae3e54ed39f42aaa05bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 35/47] fix: show a tokenized SQL of which no plain SQL was
 measured

---
 .../dig/performance_insights/util/chart/TokenizedLoad.ts      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
index eb22fb5..8414a51 100644
--- a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
@@ -10,7 +10,7 @@ export type RawLoadOfSql = {
 export const createRawLoads = (
   tokenizedLoads: TimeDbLoad[]
 ): Record<string, RawLoadOfSql[]> => {
-  const rawLoads = {};
+  const rawLoads = Object.create(null);
 
   for (const load of tokenizedLoads) {
     for (const dbLoad of load.databases) {
@@ -35,7 +35,7 @@ export const pickRawLoads = (
   size: number,
   tokenizedId: string
 ): RawLoadOfSql[] => {
-  const loads = rawLoads[tokenizedId];
+  const loads = rawLoads[tokenizedId] ?? [];
   const sortedLoads = [...loads].sort(
     (l1, l2) => l2.load.loadMax - l1.load.loadMax
   );
-- 
2.43.0


From baef71770e8d1ccaa1f8eb827cceee7eb483ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 36/47] fix: keep the base path of Jaeger's UI in links to
 traces

---
 client/src/pages/dig/jaeger/TracesTable.svelte | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/src/pages/dig/jaeger/TracesTable.svelte b/client/src/pages/dig/jaeger/TracesTable.svelte
index 03aadf1..1d12260 100644
--- a/client/src/pages/dig/jaeger/TracesTable.svelte
+++ b/client/src/pages/dig/jaeger/TracesTable.svelte
@@ -18,6 +18,11 @@
   };
 
   let showModal = false;
+
+  const toDetailUrl = (traceId: string): string => {
+    const base = uiPath.endsWith("/") ? uiPath : `${uiPath}/`;
+    return new URL(`trace/${traceId}`, base).href;
+  };
 </script>
 
 <div>{description}</div>
@@ -57,7 +62,7 @@
         </td>
         <td
           ><a
-            href={new URL(`/trace/${traceTree.traceId}`, uiPath).href}
+            href={toDetailUrl(traceTree.traceId)}
             target="_blank"
             rel="noopener noreferrer">Open detail</a
           ></td
-- 
2.43.0


From 69c01b0b748d0e173027f177abd4350f118121a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 37/47] fix: quote the names in the statements which create
 indexes

---
 client/src/models/HasuraIndexTarget.ts   | 2 +-
 client/src/models/IndexTarget.ts         | 4 ++--
 client/src/models/PostgresIndexTarget.ts | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/src/models/HasuraIndexTarget.ts b/client/src/models/HasuraIndexTarget.ts
index c8813ef..dcf4e81 100644
--- a/client/src/models/HasuraIndexTarget.ts
+++ b/client/src/models/HasuraIndexTarget.ts
@@ -9,7 +9,7 @@ export class HasuraIndexTarget extends PostgresIndexTarget {
   --data '{
 	"type": "run_sql",
 	"args": {
-		"sql": "${this.toAlterAddSQL()}"
+		"sql": ${JSON.stringify(this.toAlterAddSQL())}
 	}
 }'`;
   }
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index e6a5f03..37d2f68 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -16,9 +16,9 @@ export class IndexTarget {
   }
 
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => `\`${v.name}\``).join(", ");
 
-    return `ALTER TABLE ${this.tableName} ADD INDEX (${columns});`;
+    return `ALTER TABLE \`${this.tableName}\` ADD INDEX (${columns});`;
   }
 
   toExecutableText(): string {
diff --git a/client/src/models/PostgresIndexTarget.ts b/client/src/models/PostgresIndexTarget.ts
index faf57ec..7e97354 100644
--- a/client/src/models/PostgresIndexTarget.ts
+++ b/client/src/models/PostgresIndexTarget.ts
@@ -2,8 +2,8 @@ import { IndexTarget } from "@/models/IndexTarget";
 
 export class PostgresIndexTarget extends IndexTarget {
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => `"${v.name}"`).join(", ");
 
-    return `CREATE INDEX ON ${this.tableName} (${columns});`;
+    return `CREATE INDEX ON "${this.tableName}" (${columns});`;
   }
 }
-- 
2.43.0


From c42dd6118356fa6d7f3a58cb364332b88e6a1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:09 +0000
Subject: [PATCH 38/47] fix: tell the real place of a report whose path is
 absolute

---
 cmd/util/log.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/util/log.go b/cmd/util/log.go
index 977261c..d05c882 100644
--- a/cmd/util/log.go
+++ b/cmd/util/log.go
@@ -4,8 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
-	"os"
-	"path"
+	"path/filepath"
 )
 
 func LogError(err error) {
@@ -17,9 +16,9 @@ func LogError(err error) {
 }
 
 func LogResultOutputPath(outputPath string) {
-	wd, err := os.Getwd()
+	p, err := filepath.Abs(outputPath)
 	if err == nil {
-		log.Info().Msg("Result html is at: " + path.Join(wd, outputPath))
+		log.Info().Msg("Result html is at: " + p)
 	}
 }
 
-- 
2.43.0


From 45a2a505f80cbf2b48bbdacea17f2734159a0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 39/47] fix: do not send Hasura's admin secret to other hosts
 on redirects

---
 infra/hasura/client.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 4280b83..ba0e7e6 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -18,6 +18,21 @@ const (
 	queryPath   = "/v2/query"
 )
 
+const maxRedirects = 10
+
+// httpClient doesn't follow redirects to other hosts because the admin secret would be sent to them
+var httpClient = &http.Client{
+	CheckRedirect: func(req *http.Request, via []*http.Request) error {
+		if req.URL.Hostname() != via[0].URL.Hostname() {
+			return errors.Errorf("redirected to another host: %s", req.URL.Host)
+		}
+		if len(via) >= maxRedirects {
+			return errors.Errorf("stopped after %d redirects", maxRedirects)
+		}
+		return nil
+	},
+}
+
 type Client struct {
 	baseURL *url.URL
 	headers map[string]string
@@ -140,7 +155,7 @@ func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
 	for k, v := range c.headers {
 		req.Header.Add(k, v)
 	}
-	res, err := http.DefaultClient.Do(req)
+	res, err := httpClient.Do(req)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to execute http request to hasura")
 	}
-- 
2.43.0


From 1873df05f2d1639a122a9a58b02cda04c5e58014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 40/47] fix: resolve a column in nested subqueries to the
 nearest query having it

---
 .../dservice/dparser/build_table_fields.go    | 55 +++++++++++++------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 44c814b..b6e30ad 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -23,7 +23,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -44,7 +44,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = info.listVisibleColumnsOfChild()
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := info.listVisibleColumnsOfChild()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -109,8 +109,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
-	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	scope *StmtScope
+	// columns of enclosing queries, the nearest first
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -119,7 +120,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -154,7 +155,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -246,19 +247,26 @@ func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	return res
 }
 
+// listVisibleColumnsOfChild returns columns visible in a subquery of the scope, the nearest first
+func (si *scopeInfo) listVisibleColumnsOfChild() []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+}
+
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -282,18 +290,17 @@ func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
 	if cols, ok := t.internalCols[name]; ok {
 		return cols, nil
 	}
-	res, ok := t.externalCols[name]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
+	if cols, ok := t.getExternalTableCols(name); ok {
+		return cols, nil
 	}
 
-	return res, nil
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
 }
 
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
 	name, ok := t.asToName[asName]
 	if !ok {
-		if cols, ok := t.externalCols[asName]; ok {
+		if cols, ok := t.getExternalTableCols(asName); ok {
 			return cols, nil
 		}
 		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
@@ -302,6 +309,16 @@ func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error)
 	return t.getTableColsFromName(name)
 }
 
+func (t *refTables) getExternalTableCols(asName string) ([]*outputCol, bool) {
+	for _, tableCols := range t.externalCols {
+		if cols, ok := tableCols[asName]; ok {
+			return cols, true
+		}
+	}
+
+	return nil, false
+}
+
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
 	fCols, err := t.getTableColsFromAsName(c.Table)
 	if err != nil {
@@ -321,8 +338,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, externalCols := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(externalCols, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 11cd0306d8c10339f39bda7ce75840fcc05fb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:39 +0000
Subject: [PATCH 41/47] fix: collect columns in USING of MySQL

---
 .../dservice/dparser/build_table_fields.go    | 63 +++++++++++++++++--
 database/dservice/dparser/field_column.go     | 20 ++++++
 .../mservice/parser/collect_stmt_scopes.go    | 10 ++-
 3 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index b6e30ad..a027409 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
+	"sort"
 )
 
 type tableOutputCols map[string][]*outputCol
@@ -174,6 +175,10 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 		return nil, nil
 	}
 
+	if len(c.LeftTables) > 0 {
+		return si.refTables.getJoinedColumnInfos(c)
+	}
+
 	if c.Table == "" {
 		cols, err := si.refTables.getColumnInfos(c.Name)
 		if err != nil {
@@ -334,6 +339,48 @@ func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, er
 	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", c.Name))
 }
 
+// getJoinedColumnInfos returns columns of the both sides which are compared by USING
+func (t *refTables) getJoinedColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
+	lCols, err := t.listTableColsFromAsNames(c.LeftTables)
+	if err != nil {
+		return nil, err
+	}
+	rCols, err := t.listTableColsFromAsNames(c.RightTables)
+	if err != nil {
+		return nil, err
+	}
+
+	var res []*columnInfo
+	found := false
+	for _, lCol := range lCols {
+		for _, rCol := range rCols {
+			if lCol.name == c.Name && rCol.name == c.Name {
+				res = append(res, lCol.referencingColumns...)
+				res = append(res, rCol.referencingColumns...)
+				found = true
+			}
+		}
+	}
+
+	if !found {
+		return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", c.Name))
+	}
+	return res, nil
+}
+
+func (t *refTables) listTableColsFromAsNames(asNames []string) ([]*outputCol, error) {
+	var res []*outputCol
+	for _, asName := range asNames {
+		cols, err := t.getTableColsFromAsName(asName)
+		if err != nil {
+			return nil, err
+		}
+		res = append(res, cols...)
+	}
+
+	return res, nil
+}
+
 func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
@@ -354,13 +401,21 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 }
 
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
-	for _, fCols := range tableOutputs {
-		for _, fc := range fCols {
+	tNames := lo.Keys(tableOutputs)
+	sort.Strings(tNames)
+
+	// when a name is unambiguous though several tables have it, the column is shared with USING
+	var res []*columnInfo
+	found := false
+	for _, tName := range tNames {
+		for _, fc := range tableOutputs[tName] {
 			if colName == fc.name {
-				return fc.referencingColumns, true
+				res = append(res, fc.referencingColumns...)
+				found = true
+				break
 			}
 		}
 	}
 
-	return nil, false
+	return res, found
 }
diff --git a/database/dservice/dparser/field_column.go b/database/dservice/dparser/field_column.go
index cacbbe7..29b6bbb 100644
--- a/database/dservice/dparser/field_column.go
+++ b/database/dservice/dparser/field_column.go
@@ -1,5 +1,7 @@
 package dparser
 
+import "github.com/samber/lo"
+
 type FieldColumn struct {
 	// internal name to link with parent scope
 	ReferenceName string
@@ -7,4 +9,22 @@ type FieldColumn struct {
 	Table string
 	Name  string
 	Type  FieldType
+
+	// LeftTables and RightTables are (alias) names of tables joined with USING
+	LeftTables  []string
+	RightTables []string
+}
+
+// NewUsingFields returns fields for columns in USING, each of which is compared between the both sides of JOIN
+func NewUsingFields(lTables, rTables []*Table, colNames []string) []*Field {
+	asOrName := func(t *Table, _ int) string { return t.AsOrName() }
+
+	return lo.Map(colNames, func(name string, _ int) *Field {
+		return &Field{Columns: []*FieldColumn{{
+			Name:        name,
+			Type:        FieldCondition,
+			LeftTables:  lo.Map(lTables, asOrName),
+			RightTables: lo.Map(rTables, asOrName),
+		}}}
+	})
 }
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index aa1cd66..2716097 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pingcap/tidb/parser/ast"
 	driver "github.com/pingcap/tidb/types/parser_driver"
+	"github.com/samber/lo"
 	"reflect"
 )
 
@@ -361,10 +362,13 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 		return nil, nil
 	}
 
-	tables, fields := sc.collectReferencingTables(j.Left)
+	lTables, lFields := sc.collectReferencingTables(j.Left)
 	rTables, rFields := sc.collectReferencingTables(j.Right)
-	tables = append(tables, rTables...)
-	fields = append(fields, rFields...)
+	tables := append(lTables, rTables...)
+	fields := append(lFields, rFields...)
+
+	colNames := lo.Map(j.Using, func(col *ast.ColumnName, _ int) string { return col.Name.L })
+	fields = append(fields, dparser.NewUsingFields(lTables, rTables, colNames)...)
 
 	if j.On != nil {
 		fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(j.On.Expr, dparser.FieldCondition)})
-- 
2.43.0


From 353259ace9d73c7b64e21af4bcd2e4b465cb6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 42/47] fix: collect columns compared by NATURAL JOIN of MySQL

---
 database/dservice/dparser/build_table_fields.go       |  8 ++++----
 database/dservice/dparser/field_column.go             | 11 ++++++++++-
 database/mysql/mservice/parser/collect_stmt_scopes.go |  4 ++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index a027409..bbdb643 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -175,7 +175,7 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 		return nil, nil
 	}
 
-	if len(c.LeftTables) > 0 {
+	if c.IsNatural || len(c.LeftTables) > 0 {
 		return si.refTables.getJoinedColumnInfos(c)
 	}
 
@@ -339,7 +339,7 @@ func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, er
 	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", c.Name))
 }
 
-// getJoinedColumnInfos returns columns of the both sides which are compared by USING
+// getJoinedColumnInfos returns columns of the both sides which are compared by USING or NATURAL JOIN
 func (t *refTables) getJoinedColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
 	lCols, err := t.listTableColsFromAsNames(c.LeftTables)
 	if err != nil {
@@ -354,7 +354,7 @@ func (t *refTables) getJoinedColumnInfos(c *FieldColumn) ([]*columnInfo, error)
 	found := false
 	for _, lCol := range lCols {
 		for _, rCol := range rCols {
-			if lCol.name == c.Name && rCol.name == c.Name {
+			if lCol.name == rCol.name && (c.IsNatural || lCol.name == c.Name) {
 				res = append(res, lCol.referencingColumns...)
 				res = append(res, rCol.referencingColumns...)
 				found = true
@@ -362,7 +362,7 @@ func (t *refTables) getJoinedColumnInfos(c *FieldColumn) ([]*columnInfo, error)
 		}
 	}
 
-	if !found {
+	if !found && !c.IsNatural {
 		return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", c.Name))
 	}
 	return res, nil
diff --git a/database/dservice/dparser/field_column.go b/database/dservice/dparser/field_column.go
index 29b6bbb..bbc5f4a 100644
--- a/database/dservice/dparser/field_column.go
+++ b/database/dservice/dparser/field_column.go
@@ -10,9 +10,11 @@ type FieldColumn struct {
 	Name  string
 	Type  FieldType
 
-	// LeftTables and RightTables are (alias) names of tables joined with USING
+	// LeftTables and RightTables are (alias) names of tables joined with USING or NATURAL JOIN
 	LeftTables  []string
 	RightTables []string
+	// IsNatural is true when all columns which the both sides have are used
+	IsNatural bool
 }
 
 // NewUsingFields returns fields for columns in USING, each of which is compared between the both sides of JOIN
@@ -28,3 +30,10 @@ func NewUsingFields(lTables, rTables []*Table, colNames []string) []*Field {
 		}}}
 	})
 }
+
+// NewNaturalJoinField returns a field for NATURAL JOIN, which compares columns having the same name in the both sides
+func NewNaturalJoinField(lTables, rTables []*Table) *Field {
+	field := NewUsingFields(lTables, rTables, []string{""})[0]
+	field.Columns[0].IsNatural = true
+	return field
+}
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 2716097..0d94342 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -367,6 +367,10 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 	tables := append(lTables, rTables...)
 	fields := append(lFields, rFields...)
 
+	if j.NaturalJoin {
+		fields = append(fields, dparser.NewNaturalJoinField(lTables, rTables))
+	}
+
 	colNames := lo.Map(j.Using, func(col *ast.ColumnName, _ int) string { return col.Name.L })
 	fields = append(fields, dparser.NewUsingFields(lTables, rTables, colNames)...)
 
-- 
2.43.0


From b97c70ea40fe9a59e36987b31da881c141eddf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 43/47] fix: reject MySQL's SELECT ... INTO, whose examination
 writes a file

---
 database/mysql/mservice/parser/collect_table_names.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_table_names.go b/database/mysql/mservice/parser/collect_table_names.go
index 7f4b5ea..943ea14 100644
--- a/database/mysql/mservice/parser/collect_table_names.go
+++ b/database/mysql/mservice/parser/collect_table_names.go
@@ -42,6 +42,10 @@ func CollectTableNames(rootNode ast.StmtNode) ([]string, []error) {
 
 func (tc *tableCollector) Enter(in ast.Node) (ast.Node, bool) {
 	if stmt, ok := in.(*ast.SelectStmt); ok {
+		if stmt.SelectIntoOpt != nil {
+			// executing the query writes a file
+			tc.errors = append(tc.errors, lib.NewUnsupportedError("not supporting SELECT ... INTO"))
+		}
 		tc.pushCteTables(stmt)
 	} else if tSrc, ok := in.(*ast.TableSource); ok {
 		tc.addTableIfNotDerived(tSrc)
-- 
2.43.0


From d36a039cbf8bce0cf310f9658ca7b2670b5f1486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 44/47] fix: do not take a column in ORDER BY or GROUP BY of a
 derived table for its output

---
 .../dservice/dparser/build_table_fields.go     |  2 +-
 database/dservice/dparser/field.go             |  3 +++
 .../pservice/parser/collect_stmt_scopes.go     | 18 +++++++++++++++---
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index bbdb643..df13d6c 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -93,7 +93,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" && !f.isCondition() {
+		if n != "" && !f.isCondition() && !f.IsHidden {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 8ded311..7171e1e 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -3,6 +3,9 @@ package dparser
 type Field struct {
 	AsName  string
 	Columns []*FieldColumn
+
+	// IsHidden is true when the field of a subquery is only in clauses like ORDER BY, so is not output of SELECT
+	IsHidden bool
 }
 
 func (f *Field) Name() string {
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index ae431e5..6a3c731 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -108,7 +108,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 	if stmt.GroupBy != nil {
 		for _, g := range stmt.GroupBy {
-			f, err := sc.createFieldFromExpr(g, dparser.FieldReference)
+			f, err := sc.createNonOutputField(scope, g)
 			if err == nil {
 				foundFields = append(foundFields, f)
 			} else {
@@ -117,7 +117,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 		}
 	}
 	if stmt.Having != nil {
-		f, err := sc.createFieldFromExpr(stmt.Having.Expr, dparser.FieldReference)
+		f, err := sc.createNonOutputField(scope, stmt.Having.Expr)
 		if err == nil {
 			foundFields = append(foundFields, f)
 		} else {
@@ -129,7 +129,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 	if selectNode.OrderBy != nil {
 		for _, o := range selectNode.OrderBy {
-			f, err := sc.createFieldFromExpr(o.Expr, dparser.FieldReference)
+			f, err := sc.createNonOutputField(scope, o.Expr)
 			if err == nil {
 				foundFields = append(foundFields, f)
 			} else {
@@ -230,6 +230,18 @@ func (sc *scopeCollector) createFieldFromExpr(expr tree.Expr, fieldType dparser.
 	return &dparser.Field{Columns: cols}, nil
 }
 
+// createNonOutputField creates a field for clauses which only refer columns, like ORDER BY
+func (sc *scopeCollector) createNonOutputField(scope *dparser.StmtScope, expr tree.Expr) (*dparser.Field, error) {
+	f, err := sc.createFieldFromExpr(expr, dparser.FieldReference)
+	if err != nil {
+		return nil, err
+	}
+
+	// output of the root is not referred from anywhere
+	f.IsHidden = scope.Name != dparser.RootScopeName
+	return f, nil
+}
+
 func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dparser.FieldType) []*dparser.FieldColumn {
 	if expr == nil {
 		return nil
-- 
2.43.0


From 456955abb1928b926b4cdc473db3a28d1c55b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 45/47] fix: resolve names of SELECT's output in ORDER BY,
 GROUP BY and HAVING

---
 database/dservice/dparser/build_table_fields.go    | 10 ++++++++++
 database/dservice/dparser/field.go                 | 14 ++++++++++++++
 database/dservice/dparser/field_column.go          |  4 ++++
 .../mysql/mservice/parser/collect_stmt_scopes.go   |  8 ++++++++
 .../pservice/parser/collect_stmt_scopes.go         |  8 ++++++++
 5 files changed, 44 insertions(+)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index df13d6c..1e59bdd 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -179,6 +179,11 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 		return si.refTables.getJoinedColumnInfos(c)
 	}
 
+	if c.IsOutputName && !si.refTables.hasOneInternalColumn(c.Name) {
+		// columns used for the output are already found in SELECT
+		return nil, nil
+	}
+
 	if c.Table == "" {
 		cols, err := si.refTables.getColumnInfos(c.Name)
 		if err != nil {
@@ -381,6 +386,11 @@ func (t *refTables) listTableColsFromAsNames(asNames []string) ([]*outputCol, er
 	return res, nil
 }
 
+func (t *refTables) hasOneInternalColumn(colName string) bool {
+	cols := lo.Flatten(lo.Values(t.internalCols))
+	return lo.CountBy(cols, func(c *outputCol) bool { return c.name == colName }) == 1
+}
+
 func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 7171e1e..bdfe8c5 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -1,5 +1,7 @@
 package dparser
 
+import "github.com/samber/lo"
+
 type Field struct {
 	AsName  string
 	Columns []*FieldColumn
@@ -18,6 +20,18 @@ func (f *Field) Name() string {
 	return ""
 }
 
+// IsOutputName returns whether col is a name of output of SELECT
+func IsOutputName(outputs []*Field, col *FieldColumn) bool {
+	return col.Table == "" && col.Name != "" && lo.SomeBy(outputs, func(f *Field) bool { return f.Name() == col.Name })
+}
+
+// MarkOutputNames marks columns of f which can be a name of output of SELECT
+func MarkOutputNames(outputs []*Field, f *Field) {
+	for _, c := range f.Columns {
+		c.IsOutputName = lo.SomeBy(outputs, func(o *Field) bool { return o.AsName != "" && IsOutputName([]*Field{o}, c) })
+	}
+}
+
 // isCondition returns whether f comes from WHERE or ON, whose columns are not output of SELECT
 func (f *Field) isCondition() bool {
 	for _, c := range f.Columns {
diff --git a/database/dservice/dparser/field_column.go b/database/dservice/dparser/field_column.go
index bbc5f4a..7caa117 100644
--- a/database/dservice/dparser/field_column.go
+++ b/database/dservice/dparser/field_column.go
@@ -10,6 +10,10 @@ type FieldColumn struct {
 	Name  string
 	Type  FieldType
 
+	// IsOutputName is true when Name is also a name of SELECT's output and the clause (GROUP BY etc.) can refer to it.
+	// Columns of tables take precedence.
+	IsOutputName bool
+
 	// LeftTables and RightTables are (alias) names of tables joined with USING or NATURAL JOIN
 	LeftTables  []string
 	RightTables []string
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 0d94342..0c984a0 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -63,6 +63,7 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 			Columns: cols,
 		})
 	}
+	outputs := foundFields
 	if stmt.From != nil {
 		tables, fields := sc.collectTables(stmt.From)
 		if err := sc.getAndClearLastError(); err != nil {
@@ -84,6 +85,7 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 		for _, item := range stmt.GroupBy.Items {
 			f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
 			if err == nil {
+				dparser.MarkOutputNames(outputs, f)
 				foundFields = append(foundFields, f)
 			} else {
 				sc.errors = append(sc.errors, err)
@@ -93,6 +95,7 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 	if stmt.Having != nil {
 		f, err := sc.createFieldFromExpr(stmt.Having.Expr, dparser.FieldReference)
 		if err == nil {
+			dparser.MarkOutputNames(outputs, f)
 			foundFields = append(foundFields, f)
 		} else {
 			sc.errors = append(sc.errors, err)
@@ -105,6 +108,11 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 		for _, item := range stmt.OrderBy.Items {
 			f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
 			if err == nil {
+				if _, ok := item.Expr.(*ast.ColumnNameExpr); ok && dparser.IsOutputName(outputs, f.Columns[0]) {
+					// names of output take precedence over columns. columns used for the output are already found
+					continue
+				}
+				dparser.MarkOutputNames(outputs, f)
 				foundFields = append(foundFields, f)
 			} else {
 				sc.errors = append(sc.errors, err)
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 6a3c731..dadbbfb 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -89,6 +89,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			Columns: cols,
 		})
 	}
+	outputs := foundFields
 	for _, t := range stmt.From.Tables {
 		tables, fields := sc.collectTables(t)
 		if err := sc.getAndClearLastError(); err != nil {
@@ -110,6 +111,9 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 		for _, g := range stmt.GroupBy {
 			f, err := sc.createNonOutputField(scope, g)
 			if err == nil {
+				if _, ok := g.(*tree.UnresolvedName); ok {
+					dparser.MarkOutputNames(outputs, f)
+				}
 				foundFields = append(foundFields, f)
 			} else {
 				sc.errors = append(sc.errors, err)
@@ -131,6 +135,10 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 		for _, o := range selectNode.OrderBy {
 			f, err := sc.createNonOutputField(scope, o.Expr)
 			if err == nil {
+				if _, ok := o.Expr.(*tree.UnresolvedName); ok && dparser.IsOutputName(outputs, f.Columns[0]) {
+					// names of output take precedence over columns. columns used for the output are already found
+					continue
+				}
 				foundFields = append(foundFields, f)
 			} else {
 				sc.errors = append(sc.errors, err)
-- 
2.43.0


From e1774364867d2af730d4fecf10487787128a0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 46/47] fix: texts in constants of a plan were taken for table
 names, titles or figures

---
 .../mysql/mmodel/explain_analyze_result_line.go   | 15 +++++++++++----
 .../pmodel/explain_analyze_result_node.go         |  5 ++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 542724b..6b6fd37 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -27,6 +27,8 @@ type ExplainAnalyzeResultLine struct {
 	ActualLoopCount    null.Int
 }
 
+// constantReg matches text constants, whose content must not be taken for a part of the plan
+var constantReg = regexp.MustCompile(`'(\\.|[^'\\])*'`)
 var prefixIndentReg = regexp.MustCompile(`^\s*`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
@@ -36,13 +38,14 @@ var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?(
 var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
 
 func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine, error) {
+	metrics := removeConstants(line)
 	resLine := &ExplainAnalyzeResultLine{
 		Text:      line,
-		TableName: extractTableFromExplainAnalyzeResultLine(line),
+		TableName: extractTableFromExplainAnalyzeResultLine(metrics),
 	}
 
 	// c.f.) https://github.com/mysql/mysql-server/blob/8d8c986e5716e38cb776b627a8eee9e92241b4ce/sql/join_optimizer/explain_access_path.cc#L1076
-	em := analyzeEstimationReg.FindStringSubmatch(line)
+	em := analyzeEstimationReg.FindStringSubmatch(metrics)
 	if em != nil {
 		if em[2] == "" {
 			cost, err := strconv.ParseFloat(em[1], 64)
@@ -73,7 +76,7 @@ func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine,
 	}
 
 	// c.f.) https://github.com/mysql/mysql-server/blob/6846e6b2f72931991cc9fd589dc9946ea2ab58c9/sql/iterators/timing_iterator.h#L159
-	am := analyzeActualReg.FindStringSubmatch(line)
+	am := analyzeActualReg.FindStringSubmatch(metrics)
 	if am != nil {
 		timeFirst, err := strconv.ParseFloat(am[1], 64)
 		if err != nil {
@@ -105,6 +108,10 @@ func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine,
 	return nestSize, resLine, nil
 }
 
+func removeConstants(line string) string {
+	return constantReg.ReplaceAllString(line, "''")
+}
+
 func extractTableFromExplainAnalyzeResultLine(line string) string {
 	m := onReg.FindStringSubmatch(line)
 	if m != nil {
@@ -155,7 +162,7 @@ var titleReg = regexp.MustCompile(`->\s+(.+)\s+\(`)
 var titleWordReg = regexp.MustCompile(`\w+`)
 
 func (l *ExplainAnalyzeResultLine) Title() string {
-	m := titleReg.FindStringSubmatch(l.Text)
+	m := titleReg.FindStringSubmatch(removeConstants(l.Text))
 	if m == nil {
 		wm := titleWordReg.FindStringSubmatch(l.Text)
 		if wm == nil {
diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index e7b851f..3a3ec94 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -27,6 +27,8 @@ type ExplainAnalyzeResultNode struct {
 	ActualLoopCount    null.Int
 }
 
+// constantReg matches text constants, whose content must not be taken for a part of the plan
+var constantReg = regexp.MustCompile(`'(\\.|[^'\\])*'`)
 var prefixSpaceReg = regexp.MustCompile(`^\s*`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var onWithNamespaceReg = regexp.MustCompile(` on "?([\w.]+)"?`)
@@ -103,7 +105,8 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 }
 
 func extractTableFromExplainAnalyzeResultLine(lines []string) string {
-	for _, line := range lines {
+	for _, l := range lines {
+		line := constantReg.ReplaceAllString(l, "''")
 		m := onReg.FindStringSubmatch(line)
 		if m != nil {
 			return m[1]
-- 
2.43.0


From e69d35c3faa8369dd918b9ddfa4c630ce305f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:48 +0000
Subject: [PATCH 47/47] fix: an encoded slash in HASURA_URL was decoded in the
 requested path

---
 infra/hasura/client.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index ba0e7e6..9cd5120 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"path"
 )
 
 const (
@@ -174,7 +173,5 @@ func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
 }
 
 func (c *Client) resolveURL(pathname string) string {
-	u := *c.baseURL
-	u.Path = path.Join(u.Path, pathname)
-	return u.String()
+	return c.baseURL.JoinPath(pathname).String()
 }
-- 
2.43.0

