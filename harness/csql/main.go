// Checks of query analysis: which indexes are suggested for a query.
package main

import (
	"os"

	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/rs/zerolog"
)

var checks = map[string]func(*mc.Run){}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	checks[os.Args[1]](r)
	r.Finish()
}
