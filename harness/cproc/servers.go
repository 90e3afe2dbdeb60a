package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/mrasu/GravityR/zz_verif/jsim"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// fault is what happens to the request with number At (counted from 0).
type fault struct {
	At   int
	Kind string // "" none, "refuse": an error reply, "cut": the connection breaks, "half": the reply breaks off
	Text string // what the error reply says
	mu   sync.Mutex
	n    int
	hit  bool
	last time.Time
}

// next counts a request and tells what happens to it.
func (f *fault) next() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	i := f.n
	f.n++
	f.last = time.Now()
	if f.Kind == "" || i != f.At {
		return ""
	}
	f.hit = true
	return f.Kind
}

func (f *fault) seen() (int, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n, f.hit
}

// ---------------------------------------------------------------- hasura

// hasuraServer serves w over HTTP. redirect, when set, is where every request is sent on to.
func hasuraServer(w *env.World, f *fault, note func(*http.Request)) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		if note != nil {
			note(r)
		}
		k := f.next()
		switch k {
		case "refuse":
			rw.WriteHeader(400)
			json.NewEncoder(rw).Encode(map[string]string{"error": f.Text, "code": "unexpected"})
			return
		case "cut":
			c, _, err := rw.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
			return
		}
		res, err := w.RoundTrip(r)
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		b, _ := io.ReadAll(res.Body)
		rw.Header().Set("Content-Type", "application/json")
		if k == "half" {
			rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
			rw.WriteHeader(res.StatusCode)
			rw.Write(b[:len(b)/2])
			rw.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
		rw.WriteHeader(res.StatusCode)
		rw.Write(b)
	}))
}

// ---------------------------------------------------------------- jaeger

func jaegerServer(f *fault) (string, func(), error) {
	return jsim.Listen(func(q *api_v3.TraceQueryParameters, send func(*api_v3.SpansResponseChunk) error) error {
		k := f.next()
		if k == "refuse" {
			return status.Error(codes.Internal, f.Text)
		}
		a, _ := jsim.Bounds(q)
		at := uint64(a.Add(time.Minute).UnixNano())
		for id := uint64(1); id <= 2; id++ {
			var sp []jsim.Span
			sp = append(sp, jsim.Span{ID: 1, Name: "GET /", Svc: "shop", Start: at, End: at + 3_000_000_000*id})
			for i := uint64(0); i < 6; i++ {
				sp = append(sp, jsim.Span{ID: 2 + i, Parent: 1, Name: "call", Svc: "pay", Start: at + 1000*i, End: at + 1000*i + 500})
			}
			if err := send(jsim.Chunk(uint64(a.Unix())*10+id, sp, 1)); err != nil {
				return err
			}
			if k == "half" {
				return status.Error(codes.Unavailable, f.Text)
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- aws

// The real endpoints of AWS are reached through a proxy (HTTPS_PROXY) which answers for them
// with certificates of its own authority (AWS_CA_BUNDLE).
var (
	caFile string
	caCert tls.Certificate
)

func makeCA(dir string) error {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"rds.eu-west-1.amazonaws.com", "pi.eu-west-1.amazonaws.com"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		return err
	}
	caCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	caFile = filepath.Join(dir, "ca.pem")
	return os.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644)
}

type awsSeen struct {
	Host, Auth, Body string
}

type awsServer struct {
	l  net.Listener
	f  *fault
	mu sync.Mutex
	l2 []awsSeen
}

func awsProxy(f *fault) (*awsServer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &awsServer{l: l, f: f}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *awsServer) seen() []awsSeen {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]awsSeen{}, s.l2...)
}

func (s *awsServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	req, err := http.ReadRequest(r)
	if err != nil || req.Method != "CONNECT" {
		return
	}
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{caCert}})
	r = bufio.NewReader(tc)
	for {
		q, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		b, err := io.ReadAll(q.Body)
		if err != nil {
			return
		}
		s.mu.Lock()
		s.l2 = append(s.l2, awsSeen{q.Host, q.Header.Get("Authorization"), string(b)})
		s.mu.Unlock()
		code, ct, out := 200, "", []byte(nil)
		k := s.f.next()
		switch {
		case strings.HasPrefix(q.Host, "rds."):
			ct = "text/xml"
			out = []byte(`<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult><DBInstances><DBInstance><DBInstanceIdentifier>shop-db</DBInstanceIdentifier><DbiResourceId>db-SHOP</DbiResourceId><Engine>mysql</Engine></DBInstance></DBInstances></DescribeDBInstancesResult></DescribeDBInstancesResponse>`)
			if k == "refuse" {
				code, out = 400, []byte(`<ErrorResponse><Error><Type>Sender</Type><Code>AccessDenied</Code><Message>`+s.f.Text+`</Message></Error></ErrorResponse>`)
			}
		default:
			ct = "application/x-amz-json-1.1"
			out = awsMetrics(b)
			if k == "refuse" {
				code, out = 400, []byte(`{"__type":"InvalidArgumentException","Message":"`+s.f.Text+`"}`)
			}
		}
		var o bytes.Buffer
		fmt.Fprintf(&o, "HTTP/1.1 %d X\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", code, ct, len(out))
		o.Write(out)
		tc.Write(o.Bytes())
	}
}

func awsMetrics(b []byte) []byte {
	var q struct {
		StartTime     float64
		MetricQueries []struct{ GroupBy struct{ Group string } }
	}
	if json.Unmarshal(b, &q) != nil || len(q.MetricQueries) != 1 {
		return []byte(`{}`)
	}
	at := float64(int64(q.StartTime)/300*300 + 3600)
	dim := map[string]string{"db.sql.statement": "SELECT 1", "db.sql.tokenized_id": "T1"}
	if q.MetricQueries[0].GroupBy.Group != "db.sql" {
		dim = map[string]string{"db.sql_tokenized.statement": "SELECT ?", "db.sql_tokenized.id": "T1"}
	}
	o, _ := json.Marshal(map[string]any{"Identifier": "db-SHOP", "MetricList": []any{map[string]any{
		"Key":        map[string]any{"Metric": "db.load.avg", "Dimensions": dim},
		"DataPoints": []any{map[string]any{"Timestamp": at, "Value": 0.5}}}}})
	return o
}
