package hasura

import (
	"github.com/mrasu/GravityR/infra/hasura"
)

// VerifPostgres runs the command body of `db suggest hasura postgres`.
func VerifPostgres(out string, cli *hasura.Client, query, vars string, examine bool, idx []string) error {
	r := postgresRunner{query: query, jsonVariables: vars, runsExamination: examine, indexTargets: idx}
	if p, ok := any(&r).(interface{ prepare() error }); ok {
		if err := p.prepare(); err != nil {
			return err
		}
	}
	return r.suggest(out, cli)
}
