// Checks of the `db suggest` commands (examination, command safety, failures).
package main

import (
	"os"

	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/rs/zerolog"
)

var checks = map[string]func(*mc.Run){}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	checks[os.Args[1]](r)
	r.Finish()
}

const (
	dbName  = drive.DBName
	gql     = drive.Gql
	gqlVars = drive.GqlVars
)

var (
	backends      = drive.Backends
	myPlan        = drive.MyPlan
	pgPlan        = drive.PgPlan
	hasuraPlan    = drive.HasuraPlan
	schemaName    = drive.SchemaName
	newWorld      = drive.NewWorld
	run           = drive.Run
	data          = drive.Data
	observeEvents = drive.ObserveEvents
	indexesString = drive.IndexesString
	tgt           = drive.Tgt
	optToTarget   = drive.OptToTarget
)
