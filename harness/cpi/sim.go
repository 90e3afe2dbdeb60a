package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	aAws "github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdsTypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
)

// instance is one RDS instance.
type instance struct{ name, res, engine string }

// point is one measured load of a SQL.
type point struct {
	res      string // resource id of the instance
	sql, tid string
	at       int64 // Unix seconds, a multiple of the period
	v        float64
}

// request is one request for metrics.
type request struct {
	res, group, metric string
	start, end         int64
	period             int32
	limit              int32
	svc                string
	token              string
	next               string // the way on that was answered
	fracs              bool   // a bound is not a whole second
}

// sim simulates RDS and Performance Insights.
type sim struct {
	insts   []instance
	points  []point
	rdsPage int // instances per page (0: all)
	piPage  int // metrics per page (0: all)
	empty   int // pages with nothing in them but the way on: 1 the first one of Performance Insights, 2 before every other page, 3 both; 4 those of RDS
	total   bool
	extra   bool // additional metrics and points without a value

	n      int // requests so far
	reqs   []request
	failAt int // index of the failing request
	fail   func() (*http.Response, error)
}

func (s *sim) describe(in *rds.DescribeDBInstancesInput) *rds.DescribeDBInstancesOutput {
	var l []instance
	for _, i := range s.insts {
		ok := true
		for _, f := range in.Filters {
			if f.Name == nil || *f.Name != "engine" {
				continue
			}
			ok = false
			for _, v := range f.Values {
				ok = ok || v == i.engine
			}
		}
		if ok {
			l = append(l, i)
		}
	}
	from := 0
	if in.Marker != nil {
		from, _ = strconv.Atoi(strings.TrimLeft(*in.Marker, "acemnorkt-"))
	}
	if s.empty&4 != 0 && (in.Marker == nil || !strings.HasPrefix(*in.Marker, "cont-")) {
		m := fmt.Sprintf("cont-%d", from)
		return &rds.DescribeDBInstancesOutput{Marker: &m}
	}
	if from > len(l) {
		from = len(l)
	}
	l = l[from:]
	out := &rds.DescribeDBInstancesOutput{}
	if s.rdsPage > 0 && len(l) > s.rdsPage {
		l = l[:s.rdsPage]
		m := fmt.Sprintf("marker-%d", from+s.rdsPage)
		out.Marker = &m
	}
	for _, i := range l {
		i := i
		out.DBInstances = append(out.DBInstances, rdsTypes.DBInstance{DBInstanceIdentifier: &i.name, DbiResourceId: &i.res, Engine: &i.engine})
	}
	return out
}

func deref[T any](p *T) T {
	if p == nil {
		var z T
		return z
	}
	return *p
}

// metrics answers like the documented service: bounds are aligned to the period (the start
// down, the end up), points lie in [start, end), the first entry is the total.
func (s *sim) metrics(in *pi.GetResourceMetricsInput) (*pi.GetResourceMetricsOutput, error) {
	rq := request{res: deref(in.Identifier), period: deref(in.PeriodInSeconds), svc: string(in.ServiceType), token: deref(in.NextToken)}
	if in.StartTime == nil || in.EndTime == nil || len(in.MetricQueries) != 1 || in.MetricQueries[0].GroupBy == nil {
		return nil, errors.New("InvalidArgumentException")
	}
	rq.start, rq.end = in.StartTime.Unix(), in.EndTime.Unix()
	rq.fracs = in.StartTime.Nanosecond() != 0 || in.EndTime.Nanosecond() != 0
	q := in.MetricQueries[0]
	rq.metric, rq.group, rq.limit = deref(q.Metric), deref(q.GroupBy.Group), deref(q.GroupBy.Limit)
	s.reqs = append(s.reqs, rq)
	p := int64(rq.period)
	if p <= 0 {
		return nil, errors.New("InvalidArgumentException: period")
	}
	lo := rq.start - mod(rq.start, p)
	hi := rq.end
	if r := mod(hi, p); r != 0 || in.EndTime.Nanosecond() != 0 {
		hi += p - r
	}
	type key struct{ sql, tid string }
	m := map[key][]piTypes.DataPoint{}
	var tot []piTypes.DataPoint
	for _, pt := range s.points {
		if pt.res != rq.res || pt.at < lo || pt.at >= hi {
			continue
		}
		t, v := time.Unix(pt.at, 0).UTC(), pt.v
		k := key{pt.sql, pt.tid}
		m[k] = append(m[k], piTypes.DataPoint{Timestamp: &t, Value: &v})
		tot = append(tot, piTypes.DataPoint{Timestamp: &t, Value: &v})
	}
	var keys []key
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].sql < keys[j].sql || keys[i].sql == keys[j].sql && keys[i].tid < keys[j].tid
	})
	name := "db.load.avg"
	var list []piTypes.MetricKeyDataPoints
	if s.total {
		list = append(list, piTypes.MetricKeyDataPoints{Key: &piTypes.ResponseResourceMetricKey{Metric: &name}, DataPoints: tot})
	}
	for _, k := range keys {
		var d map[string]string
		switch rq.group {
		case "db.sql":
			d = map[string]string{"db.sql.id": "x" + k.tid, "db.sql.db_id": "pi-1", "db.sql.statement": k.sql, "db.sql.tokenized_id": k.tid}
		case "db.sql_tokenized":
			d = map[string]string{"db.sql_tokenized.id": k.tid, "db.sql_tokenized.db_id": "pi-2", "db.sql_tokenized.statement": k.sql}
		default:
			return nil, errors.New("InvalidArgumentException: group")
		}
		l := m[k]
		if s.extra {
			z, zt := 0.0, time.Unix(lo, 0).UTC()
			l = append([]piTypes.DataPoint{{Timestamp: &zt, Value: &z}, {Timestamp: &zt}, {Value: &z}}, l...)
		}
		list = append(list, piTypes.MetricKeyDataPoints{Key: &piTypes.ResponseResourceMetricKey{Metric: &name, Dimensions: d}, DataPoints: l})
	}
	if s.extra {
		other, v, t := "os.cpuUtilization.user.avg", 42.5, time.Unix(lo, 0).UTC()
		list = append(list, piTypes.MetricKeyDataPoints{Key: &piTypes.ResponseResourceMetricKey{Metric: &other, Dimensions: map[string]string{"db.sql.statement": "other", "db.sql_tokenized.statement": "other"}}, DataPoints: []piTypes.DataPoint{{Timestamp: &t, Value: &v}}})
	}
	from, _ := strconv.Atoi(strings.TrimLeft(rq.token, "ceknot-"))
	if (s.empty&1 != 0 && rq.token == "") || (s.empty&2 != 0 && strings.HasPrefix(rq.token, "token-")) {
		t := fmt.Sprintf("cont-%d", from)
		s.reqs[len(s.reqs)-1].next = t
		return &pi.GetResourceMetricsOutput{NextToken: &t}, nil
	}
	if from > len(list) {
		from = len(list)
	}
	list = list[from:]
	out := &pi.GetResourceMetricsOutput{}
	if s.piPage > 0 && len(list) > s.piPage {
		list = list[:s.piPage]
		t := fmt.Sprintf("token-%d", from+s.piPage)
		out.NextToken = &t
		s.reqs[len(s.reqs)-1].next = t
	}
	out.MetricList = list
	return out, nil
}

func mod(a, b int64) int64 { return ((a % b) + b) % b }

// --- the client interfaces of the SDK

type rdsCli struct{ *sim }

func (s rdsCli) DescribeDBInstances(_ context.Context, in *rds.DescribeDBInstancesInput, _ ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	return s.describe(in), nil
}

type piCli struct{ *sim }

func (s piCli) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	return s.metrics(in)
}

// --- over HTTP

func (s *sim) config() aAws.Config {
	return aAws.Config{
		Region:     "eu-west-1",
		HTTPClient: s,
		Credentials: aAws.CredentialsProviderFunc(func(context.Context) (aAws.Credentials, error) {
			return aAws.Credentials{AccessKeyID: "AK", SecretAccessKey: "SK"}, nil
		}),
		Retryer: func() aAws.Retryer { return aAws.NopRetryer{} },
	}
}

// Do is the HTTP client the SDK uses.
func (s *sim) Do(r *http.Request) (*http.Response, error) {
	i := s.n
	s.n++
	if s.fail != nil && i == s.failAt {
		return s.fail()
	}
	b, _ := io.ReadAll(r.Body)
	if strings.HasPrefix(r.URL.Host, "rds.") {
		v, _ := url.ParseQuery(string(b))
		in := &rds.DescribeDBInstancesInput{}
		if m := v.Get("Marker"); m != "" {
			in.Marker = &m
		}
		for n := 1; v.Get(fmt.Sprintf("Filters.Filter.%d.Name", n)) != ""; n++ {
			name := v.Get(fmt.Sprintf("Filters.Filter.%d.Name", n))
			f := rdsTypes.Filter{Name: &name}
			for k := 1; v.Get(fmt.Sprintf("Filters.Filter.%d.Values.Value.%d", n, k)) != ""; k++ {
				f.Values = append(f.Values, v.Get(fmt.Sprintf("Filters.Filter.%d.Values.Value.%d", n, k)))
			}
			in.Filters = append(in.Filters, f)
		}
		out := s.describe(in)
		var x bytes.Buffer
		x.WriteString(`<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult>`)
		if out.Marker != nil {
			fmt.Fprintf(&x, "<Marker>%s</Marker>", *out.Marker)
		}
		x.WriteString("<DBInstances>")
		for _, d := range out.DBInstances {
			fmt.Fprintf(&x, "<DBInstance><DBInstanceIdentifier>%s</DBInstanceIdentifier><DbiResourceId>%s</DbiResourceId><Engine>%s</Engine></DBInstance>", html.EscapeString(*d.DBInstanceIdentifier), *d.DbiResourceId, *d.Engine)
		}
		x.WriteString("</DBInstances></DescribeDBInstancesResult></DescribeDBInstancesResponse>")
		return answer(200, "text/xml", x.Bytes()), nil
	}
	var q struct {
		Identifier, NextToken, ServiceType string
		StartTime, EndTime                 float64
		PeriodInSeconds                    int32
		MetricQueries                      []struct {
			Metric  string
			GroupBy struct {
				Group string
				Limit int32
			}
		}
	}
	if err := json.Unmarshal(b, &q); err != nil {
		return answer(400, "application/x-amz-json-1.1", []byte(`{"__type":"SerializationException"}`)), nil
	}
	st, en := time.UnixMilli(int64(q.StartTime*1000+.5)), time.UnixMilli(int64(q.EndTime*1000+.5))
	in := &pi.GetResourceMetricsInput{Identifier: &q.Identifier, ServiceType: piTypes.ServiceType(q.ServiceType), StartTime: &st, EndTime: &en, PeriodInSeconds: &q.PeriodInSeconds}
	if q.NextToken != "" {
		in.NextToken = &q.NextToken
	}
	for i := range q.MetricQueries {
		m := &q.MetricQueries[i]
		in.MetricQueries = append(in.MetricQueries, piTypes.MetricQuery{Metric: &m.Metric, GroupBy: &piTypes.DimensionGroup{Group: &m.GroupBy.Group, Limit: &m.GroupBy.Limit}})
	}
	out, err := s.metrics(in)
	if err != nil {
		return answer(400, "application/x-amz-json-1.1", []byte(`{"__type":"InvalidArgumentException","Message":"x"}`)), nil
	}
	type dp struct {
		Timestamp *float64 `json:",omitempty"`
		Value     *float64 `json:",omitempty"`
	}
	type mk struct {
		Key struct {
			Metric     *string
			Dimensions map[string]string `json:",omitempty"`
		}
		DataPoints []dp
	}
	resp := map[string]any{"Identifier": q.Identifier}
	if out.NextToken != nil {
		resp["NextToken"] = *out.NextToken
	}
	var ml []mk
	for _, m := range out.MetricList {
		x := mk{}
		x.Key.Metric, x.Key.Dimensions = m.Key.Metric, m.Key.Dimensions
		for _, d := range m.DataPoints {
			y := dp{Value: d.Value}
			if d.Timestamp != nil {
				f := float64(d.Timestamp.Unix())
				y.Timestamp = &f
			}
			x.DataPoints = append(x.DataPoints, y)
		}
		ml = append(ml, x)
	}
	resp["MetricList"] = ml
	o, _ := json.Marshal(resp)
	return answer(200, "application/x-amz-json-1.1", o), nil
}

func answer(code int, ct string, b []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d", code), Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), ProtoMajor: 1, ProtoMinor: 1}
}

type brokenBody struct{ r io.Reader }

func (b *brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset by peer")
	}
	return n, err
}
func (b *brokenBody) Close() error { return nil }

type fault struct {
	name string
	f    func() (*http.Response, error)
}

var faults = []fault{
	{"connection refused", func() (*http.Response, error) { return nil, errors.New("connection refused") }},
	{"status 400", func() (*http.Response, error) {
		return answer(400, "application/x-amz-json-1.1", []byte(`{"__type":"InvalidArgumentException","Message":"bad"}`)), nil
	}},
	{"status 403 without a body", func() (*http.Response, error) { return answer(403, "text/plain", nil), nil }},
	{"status 500", func() (*http.Response, error) { return answer(500, "text/html", []byte("<html>oops</html>")), nil }},
	{"body that breaks off", func() (*http.Response, error) {
		r := answer(200, "application/x-amz-json-1.1", nil)
		r.Body, r.ContentLength = &brokenBody{strings.NewReader(`{"MetricList":[{"Key":{"Met`)}, 500
		return r, nil
	}},
	{"undecodable body", func() (*http.Response, error) {
		return answer(200, "application/x-amz-json-1.1", []byte(`{"MetricList": <<<`)), nil
	}},
}
