package suggest

import (
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
)

// VerifMySQL runs the command body of `db suggest mysql`.
func VerifMySQL(out string, db *mysql.DB, dbName, query string, examine bool, idx []string) error {
	r := mysqlRunner{query: query, runsExamination: examine, indexTargets: idx}
	return r.suggest(out, db, dbName)
}

// VerifPostgres runs the command body of `db suggest postgres`.
func VerifPostgres(out string, db *postgres.DB, schema, query string, examine bool, idx []string) error {
	r := postgresRunner{query: query, runsExamination: examine, indexTargets: idx}
	return r.suggest(out, db, schema)
}
