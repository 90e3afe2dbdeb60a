package dig

import "github.com/mrasu/GravityR/infra/aws"

// VerifPI runs the command body of `db dig performance-insights`.
func VerifPI(out, start string, rdsCli *aws.Rds, piCli *aws.PerformanceInsights) error {
	pr := piRunner{start: start}
	return pr.dig(out, rdsCli, piCli)
}
