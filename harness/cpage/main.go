// Checks of reports and failures across all commands (C14, C22, C23).
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdsTypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	appdig "github.com/mrasu/GravityR/cmd/app/dig"
	dbdig "github.com/mrasu/GravityR/cmd/db/dig"
	"github.com/mrasu/GravityR/infra/aws"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/rs/zerolog"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	map[string]func(*mc.Run){"C14": c14, "C22": c22, "C23": c23}[os.Args[1]](r)
	r.Finish()
}

var t0 = time.Date(2024, 3, 5, 10, 0, 0, 0, time.UTC)

// fakeAWS answers with one instance and one SQL; call failAt (0-based) fails.
type fakeAWS struct {
	db, sql, tid string
	n, failAt    int
}

func (f *fakeAWS) step() error {
	i := f.n
	f.n++
	if f.failAt >= 0 && i == f.failAt {
		return errors.New("injected failure")
	}
	return nil
}

func (f *fakeAWS) DescribeDBInstances(context.Context, *rds.DescribeDBInstancesInput, ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	if err := f.step(); err != nil {
		return nil, err
	}
	res := "db-1"
	return &rds.DescribeDBInstancesOutput{DBInstances: []rdsTypes.DBInstance{{DBInstanceIdentifier: &f.db, DbiResourceId: &res}}}, nil
}

func (f *fakeAWS) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	if err := f.step(); err != nil {
		return nil, err
	}
	m, v, t := "db.load.avg", 1.5, *in.StartTime
	return &pi.GetResourceMetricsOutput{MetricList: []piTypes.MetricKeyDataPoints{{
		Key:        &piTypes.ResponseResourceMetricKey{Metric: &m, Dimensions: map[string]string{"db.sql.statement": f.sql, "db.sql.tokenized_id": f.tid, "db.sql_tokenized.statement": f.sql, "db.sql_tokenized.id": f.tid}},
		DataPoints: []piTypes.DataPoint{{Timestamp: &t, Value: &v}},
	}}}, nil
}

func runPI(out string, f *fakeAWS) error {
	return dbdig.VerifPI(out, t0.Format(time.RFC3339), aws.NewRdsWithCli(f), aws.NewPerformanceInsightsWithCli(f))
}

// runJaeger digs two half hours; fail(i) may fail request i after having sent sent traces.
func runJaeger(out, name, svc, ui string, fail func(i int) (int, error)) error {
	i := -1
	return jsim.With(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
		i++
		n, err := 2, error(nil)
		if fail != nil {
			n, err = fail(i)
		}
		for k := 0; k < n; k++ {
			st := uint64(t0.UnixNano()) + uint64(k)*1e9
			sp := []jsim.Span{{ID: 1, Name: name, Svc: svc, Start: st, End: st + 2e9}, {ID: 2, Parent: 1, Name: name + "2", Svc: svc + "2", Start: st, End: st + 1e9}}
			if e := send(jsim.Chunk(uint64(i*10+k+1), sp, 1)); e != nil {
				return e
			}
		}
		return err
	}, func(cli *ijaeger.Client) error {
		return appdig.VerifJaeger(out, cli, "bff", 1000, 0, 500, t0, t0.Add(time.Hour), ui)
	})
}

// state of the report file.
func untouched(out string, old bool, d string) error {
	b, err := os.ReadFile(out)
	if old && (err != nil || string(b) != previous) {
		return fmt.Errorf("%s: the previous report was changed", d)
	}
	if !old && err == nil {
		return fmt.Errorf("%s: a report was written", d)
	}
	return nil
}

var previous = "previous " + strings.Repeat("x", 1<<16)

func put(out string, old bool) {
	if old {
		os.WriteFile(out, []byte(previous), 0o644)
	}
}
