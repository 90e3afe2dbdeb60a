// Package jsim simulates a Jaeger query server (gRPC, in this process).
package jsim

import (
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"sort"
	"sync"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resource "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	ijaeger "github.com/mrasu/GravityR/infra/jaeger"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/test/bufconn"
)

// Handler answers one FindTraces request.
type Handler func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error

type server struct {
	api_v3.QueryServiceServer
	h Handler
}

func (s *server) FindTraces(r *api_v3.FindTracesRequest, st api_v3.QueryService_FindTracesServer) error {
	return s.h(r.GetQuery(), st.Send)
}

// Start serves h and returns a connected client.
func Start(h Handler) (*ijaeger.Client, func(), error) {
	l := bufconn.Listen(1 << 16)
	s := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(s, &server{h: h})
	go s.Serve(l)
	conn, err := grpc.Dial("bufnet", grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return l.DialContext(ctx) }),
		grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		s.Stop()
		return nil, nil, err
	}
	return ijaeger.NewClient(conn), func() { conn.Close(); s.Stop() }, nil
}

// Listen serves h on a loopback port.
func Listen(h Handler) (string, func(), error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	s := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(s, &server{h: h})
	go s.Serve(l)
	return l.Addr().String(), s.Stop, nil
}

// pool of servers with a replaceable handler: an execution borrows one.
type pooled struct {
	mu  sync.Mutex
	h   Handler
	cli *ijaeger.Client
}

var (
	poolMu sync.Mutex
	pool   []*pooled
)

// With runs f with a client whose requests are answered by h.
func With(h Handler, f func(*ijaeger.Client) error) error {
	poolMu.Lock()
	var p *pooled
	if n := len(pool); n > 0 {
		p, pool = pool[n-1], pool[:n-1]
	}
	poolMu.Unlock()
	if p == nil {
		p = &pooled{}
		cli, _, err := Start(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
			p.mu.Lock()
			h := p.h
			p.mu.Unlock()
			return h(q, send)
		})
		if err != nil {
			return err
		}
		p.cli = cli
	}
	p.mu.Lock()
	p.h = h
	p.mu.Unlock()
	err := f(p.cli)
	poolMu.Lock()
	pool = append(pool, p)
	poolMu.Unlock()
	return err
}

// Span is a span as the application produced it.
type Span struct {
	ID, Parent uint64 // Parent 0: none
	ZeroParent bool   // the absent parent is sent as zero bytes
	Name, Svc  string
	DB         string // db.system, "" = no such attribute
	Start, End uint64 // nanoseconds
	Attrs      []*common.KeyValue
}

func Str(s string) *common.AnyValue {
	return &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: s}}
}

func id8(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

func TraceID(v uint64) []byte { return append(make([]byte, 8), id8(v)...) }

func SpanHex(v uint64) string  { return fmt.Sprintf("%016x", v) }
func TraceHex(v uint64) string { return fmt.Sprintf("%032x", v) }

// Chunk renders the spans of one trace. grouping: 0 every span in its own resource group,
// 1 one group per service, 2 one group per service with one library per span, 3 as 1 with the
// groups in reverse and empty groups between.
func Chunk(traceID uint64, spans []Span, grouping int) *api_v3.SpansResponseChunk {
	pb := func(s Span) *trace.Span {
		x := &trace.Span{TraceId: TraceID(traceID), SpanId: id8(s.ID), Name: s.Name, StartTimeUnixNano: s.Start, EndTimeUnixNano: s.End}
		if s.Parent != 0 || s.ZeroParent {
			x.ParentSpanId = id8(s.Parent)
		}
		x.Attributes = append(x.Attributes, s.Attrs...)
		if s.DB != "" {
			x.Attributes = append(x.Attributes, &common.KeyValue{Key: "db.system", Value: Str(s.DB)})
		}
		return x
	}
	res := func(svc string) *resource.Resource {
		return &resource.Resource{Attributes: []*common.KeyValue{{Key: "host.name", Value: Str("h")}, {Key: "service.name", Value: Str(svc)}, {Key: "service.namespace", Value: Str("ns")}}}
	}
	c := &api_v3.SpansResponseChunk{}
	if grouping == 0 {
		for _, s := range spans {
			c.ResourceSpans = append(c.ResourceSpans, &trace.ResourceSpans{Resource: res(s.Svc), InstrumentationLibrarySpans: []*trace.InstrumentationLibrarySpans{{Spans: []*trace.Span{pb(s)}}}})
		}
		return c
	}
	idx := map[string]int{}
	for _, s := range spans {
		i, ok := idx[s.Svc]
		if !ok {
			i = len(c.ResourceSpans)
			idx[s.Svc] = i
			c.ResourceSpans = append(c.ResourceSpans, &trace.ResourceSpans{Resource: res(s.Svc)})
		}
		g := c.ResourceSpans[i]
		if len(g.InstrumentationLibrarySpans) == 0 || grouping == 2 {
			g.InstrumentationLibrarySpans = append(g.InstrumentationLibrarySpans, &trace.InstrumentationLibrarySpans{})
		}
		l := g.InstrumentationLibrarySpans[len(g.InstrumentationLibrarySpans)-1]
		l.Spans = append(l.Spans, pb(s))
	}
	if grouping == 3 {
		for i, j := 0, len(c.ResourceSpans)-1; i < j; i, j = i+1, j-1 {
			c.ResourceSpans[i], c.ResourceSpans[j] = c.ResourceSpans[j], c.ResourceSpans[i]
		}
		c.ResourceSpans = append(c.ResourceSpans, &trace.ResourceSpans{}, &trace.ResourceSpans{Resource: res("empty"), InstrumentationLibrarySpans: []*trace.InstrumentationLibrarySpans{{}}})
	}
	return c
}

// Seconds of a protobuf timestamp-like (the query's bounds).
func Bounds(q *api_v3.TraceQueryParameters) (time.Time, time.Time) {
	a, b := q.GetStartTimeMin(), q.GetStartTimeMax()
	return time.Unix(a.GetSeconds(), int64(a.GetNanos())), time.Unix(b.GetSeconds(), int64(b.GetNanos()))
}

// SortedKeys is a helper for deterministic messages.
func SortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
