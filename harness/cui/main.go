// Checks of what the reader of a report sees (C24, C27-C29): the real command writes a report,
// the client code of the repository opens it.
package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdsTypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
	dbdig "github.com/mrasu/GravityR/cmd/db/dig"
	"github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/zz_verif/browser"
	"github.com/mrasu/GravityR/zz_verif/drive"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/mc"
	"github.com/mrasu/GravityR/zz_verif/report"
	"github.com/rs/zerolog"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	r := mc.Start(os.Args[1])
	map[string]func(*mc.Run){"C24": c24, "C27": c27, "C28": c28, "C29": c29}[os.Args[1]](r)
	r.Finish()
}

// open opens the report at out, which must not crash the page.
func open(page, out string, acts ...browser.Act) (map[string]any, []*browser.Step, error) {
	m, err := report.Read(out)
	if err != nil {
		return nil, nil, err
	}
	st, crash := browser.Open(page, m, acts...)
	if crash != "" {
		return m, nil, fmt.Errorf("the page crashed: %s", crash)
	}
	return m, st, nil
}

func reopen(page string, m map[string]any, acts ...browser.Act) ([]*browser.Step, error) {
	st, crash := browser.Open(page, m, acts...)
	if crash != "" {
		return nil, fmt.Errorf("the page crashed after %v: %s", acts, crash)
	}
	return st, nil
}

// suggestion runs a suggest command.
type suggestion struct {
	be, query, vars string
	examine         bool
	idx             []string
	sql             string // hasura: what the GraphQL query becomes
	plan            []string
	schema          *env.Schema
	times           func(w *env.World)
}

func (s suggestion) run(out string) error {
	w := drive.NewWorld(s.be, s.schema)
	if s.plan != nil {
		w.Plan = s.plan
	}
	if s.times != nil {
		s.times(w)
	}
	if s.be != "hasura" {
		return drive.Run(s.be, w, s.query, s.examine, s.idx, out)
	}
	w.HasuraSQL = s.sql
	cli := w.Hasura("")
	defer w.Close()
	return hasura.VerifPostgres(out, cli, s.query, s.vars, s.examine, s.idx)
}

// --- Performance Insights

type load struct {
	db, sql, tid string
	hour         int
	v            float64
}

type fakeAWS struct {
	raw, tok []load
	// further measurements of a load, each five minutes later
	more func(l load) []float64
}

func (f *fakeAWS) DescribeDBInstances(context.Context, *rds.DescribeDBInstancesInput, ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	seen := map[string]bool{}
	var names []string
	for _, l := range append(append([]load{}, f.raw...), f.tok...) {
		if !seen[l.db] {
			seen[l.db] = true
			names = append(names, l.db)
		}
	}
	sort.Strings(names)
	o := &rds.DescribeDBInstancesOutput{}
	for _, n := range names {
		n, res, e := n, "res-"+n, "mysql"
		o.DBInstances = append(o.DBInstances, rdsTypes.DBInstance{DBInstanceIdentifier: &n, DbiResourceId: &res, Engine: &e})
	}
	return o, nil
}

func (f *fakeAWS) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	group := *in.MetricQueries[0].GroupBy.Group
	src, st, ti := f.raw, "db.sql.statement", "db.sql.tokenized_id"
	if group == "db.sql_tokenized" {
		src, st, ti = f.tok, "db.sql_tokenized.statement", "db.sql_tokenized.id"
	}
	m := "db.load.avg"
	o := &pi.GetResourceMetricsOutput{}
	at := map[[2]string]int{}
	for _, l := range src {
		t := t0.Add(time.Duration(l.hour) * time.Hour)
		if "res-"+l.db != *in.Identifier || t.Before(*in.StartTime) || !t.Before(*in.EndTime) {
			continue
		}
		k := [2]string{l.sql, l.tid}
		i, ok := at[k]
		if !ok {
			i = len(o.MetricList)
			at[k] = i
			o.MetricList = append(o.MetricList, piTypes.MetricKeyDataPoints{Key: &piTypes.ResponseResourceMetricKey{Metric: &m, Dimensions: map[string]string{st: l.sql, ti: l.tid}}})
		}
		vs := []float64{l.v}
		if f.more != nil {
			vs = append(vs, f.more(l)...)
		}
		for j := range vs {
			t := t.Add(time.Duration(j) * 5 * time.Minute)
			o.MetricList[i].DataPoints = append(o.MetricList[i].DataPoints, piTypes.DataPoint{Timestamp: &t, Value: &vs[j]})
		}
	}
	return o, nil
}

var t0 = time.Date(2024, 3, 5, 10, 0, 0, 0, time.UTC)

func runPI(out string, f *fakeAWS) error {
	return dbdig.VerifPI(out, t0.Format(time.RFC3339), aws.NewRdsWithCli(f), aws.NewPerformanceInsightsWithCli(f))
}

// control returns the control with that text (a button, or a box with its label).
func control(n *browser.Node, tag, text string) *browser.Node {
	for _, x := range n.All(tag) {
		if strings.TrimSpace(x.String()) == text {
			if x.Ctl != nil {
				return x
			}
			for _, i := range x.All("input") {
				if i.Ctl != nil {
					return i
				}
			}
		}
	}
	return nil
}
