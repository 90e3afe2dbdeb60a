// Package wire serves a simulated database over the real MySQL and PostgreSQL protocols, so
// that the commands run with their real drivers and their real connection settings.
package wire

import (
	"bufio"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"

	"github.com/mrasu/GravityR/zz_verif/fdb"
)

// Login is what a client presented when it connected.
type Login struct {
	User, DB string
	Params   map[string]string // postgres: startup parameters
	Charset  int               // mysql: collation id
	auth     []byte
	Password string // postgres: clear text
	Net      string // which listener was reached
}

// PasswordIs tells whether the client logged in with password pw.
func (l *Login) PasswordIs(pw string) bool {
	if l.auth == nil {
		return l.Password == pw
	}
	return string(l.auth) == string(native(scramble, pw))
}

// Server is one listener.
type Server struct {
	H      fdb.Handler
	Cols   func(q string) []string // column names of a prepared statement (postgres)
	l      net.Listener
	name   string
	mu     sync.Mutex
	logins []*Login
	other  []string
	serve  func(*Server, net.Conn)
}

func (s *Server) Addr() string { return s.l.Addr().String() }
func (s *Server) Close()       { s.l.Close() }

// Logins returns and forgets the logins seen so far.
func (s *Server) Logins() []*Login {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.logins
	s.logins = nil
	return l
}

func (s *Server) login(l *Login) {
	l.Net = s.name
	s.mu.Lock()
	s.logins = append(s.logins, l)
	s.mu.Unlock()
}

func listen(network, addr string, f func(*Server, net.Conn)) (*Server, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	s := &Server{l: l, name: network, serve: f}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				defer func() { recover() }() // a torn connection
				f(s, c)
			}()
		}
	}()
	return s, nil
}

func MySQL(network, addr string) (*Server, error) { return listen(network, addr, (*Server).mysql) }

// MySQLPipes is a server reached through Pipe instead of a listener.
func MySQLPipes() *Server { return &Server{name: "pipe", serve: (*Server).mysql} }

// Pipe returns the client's end of a new connection.
func (s *Server) Pipe() net.Conn {
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		defer func() { recover() }()
		s.serve(s, b)
	}()
	return a
}

const scramble = "abcdefghijklmnopqrst"

func native(scr, pw string) []byte {
	if pw == "" {
		return []byte{}
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write([]byte(scr))
	h.Write(h2[:])
	r := h.Sum(nil)
	for i := range r {
		r[i] ^= h1[i]
	}
	return r
}

type mconn struct {
	c   net.Conn
	r   *bufio.Reader
	seq byte
	out []byte
}

func (m *mconn) read() []byte {
	var full []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(m.r, h[:]); err != nil {
			panic(err)
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			panic(err)
		}
		full = append(full, b...)
		if n < 1<<24-1 {
			return full
		}
	}
}

func (m *mconn) put(b []byte) {
	for {
		n := len(b)
		if n > 1<<24-1 {
			n = 1<<24 - 1
		}
		m.out = append(m.out, byte(n), byte(n>>8), byte(n>>16), m.seq)
		m.out = append(m.out, b[:n]...)
		m.seq++
		b = b[n:]
		if n < 1<<24-1 {
			return
		}
	}
}

func (m *mconn) flush() {
	if _, err := m.c.Write(m.out); err != nil {
		panic(err)
	}
	m.out = m.out[:0]
}

func lenenc(s string) []byte {
	n := len(s)
	switch {
	case n < 251:
		return append([]byte{byte(n)}, s...)
	case n < 1<<16:
		return append([]byte{0xfc, byte(n), byte(n >> 8)}, s...)
	default:
		return append([]byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}, s...)
	}
}

func readLenenc(b []byte) (string, []byte) {
	n, k := int(b[0]), 1
	switch b[0] {
	case 0xfc:
		n, k = int(binary.LittleEndian.Uint16(b[1:])), 3
	case 0xfd:
		n, k = int(b[1])|int(b[2])<<8|int(b[3])<<16, 4
	case 0xfe:
		n, k = int(binary.LittleEndian.Uint64(b[1:])), 9
	}
	return string(b[k : k+n]), b[k+n:]
}

func (m *mconn) eof() { m.put([]byte{0xfe, 0, 0, 2, 0}) }
func (m *mconn) ok()  { m.put([]byte{0, 0, 0, 2, 0, 0, 0}) }
func (m *mconn) err(e error) {
	m.put(append([]byte{0xff, 0x28, 0x04, '#', '4', '2', '0', '0', '0'}, e.Error()...))
}

func (m *mconn) column(name string) {
	var b []byte
	for _, s := range []string{"def", "", "", "", name, ""} {
		b = append(b, lenenc(s)...)
	}
	b = append(b, 0x0c, 45, 0, 255, 255, 0, 0, 253, 0, 0, 0, 0, 0)
	m.put(b)
}

func text(v any) (string, bool) {
	switch x := v.(type) {
	case nil:
		return "", false
	case []byte:
		return string(x), true
	case string:
		return x, true
	case bool:
		if x {
			return "1", true
		}
		return "0", true
	}
	return fmt.Sprint(v), true
}

func (m *mconn) result(a fdb.Answer, bin bool) {
	if a.Err != nil {
		m.err(a.Err)
		return
	}
	if len(a.Columns) == 0 {
		m.ok()
		return
	}
	m.put([]byte{byte(len(a.Columns))})
	for _, c := range a.Columns {
		m.column(c)
	}
	m.eof()
	for _, r := range a.Rows {
		var b []byte
		if bin {
			b = append(b, 0)
			b = append(b, make([]byte, (len(r)+9)/8)...)
		}
		for i, v := range r {
			t, ok := text(v)
			switch {
			case !ok && bin:
				b[1+(i+2)/8] |= 1 << ((i + 2) % 8)
			case !ok:
				b = append(b, 0xfb)
			default:
				b = append(b, lenenc(t)...)
			}
		}
		m.put(b)
	}
	if a.RowErr != nil {
		m.err(a.RowErr)
		return
	}
	m.eof()
}

func isQuery(q string) bool {
	up := strings.ToUpper(strings.TrimLeft(q, " \t\r\n("))
	for _, p := range []string{"SELECT", "EXPLAIN", "SHOW", "WITH"} {
		if strings.HasPrefix(up, p) {
			return true
		}
	}
	return false
}

func (s *Server) mysql(c net.Conn) {
	m := &mconn{c: c, r: bufio.NewReader(c)}
	const caps = 1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x80000 | 0x10000 | 0x20000
	h := append([]byte{10}, "8.0.30-verif\x00"...)
	h = append(h, 1, 0, 0, 0)
	h = append(h, scramble[:8]...)
	h = append(h, 0, byte(caps&0xff), byte(caps>>8&0xff), 45, 2, 0, byte(caps>>16&0xff), byte(caps>>24&0xff), 21)
	h = append(h, make([]byte, 10)...)
	h = append(h, scramble[8:]...)
	h = append(h, 0)
	h = append(h, "mysql_native_password\x00"...)
	m.put(h)
	m.flush()
	b := m.read()
	flags := binary.LittleEndian.Uint32(b)
	l := &Login{Charset: int(b[8])}
	b = b[32:]
	cut := func() string {
		i := strings.IndexByte(string(b), 0)
		r := string(b[:i])
		b = b[i+1:]
		return r
	}
	l.User = cut()
	var auth string
	auth, b = readLenenc(b)
	l.auth = []byte(auth)
	if flags&8 != 0 {
		l.DB = cut()
	}
	s.login(l)
	m.ok()
	m.flush()
	stmts := map[uint32]string{}
	next := uint32(0)
	for {
		p := m.read()
		switch p[0] {
		case 1: // quit
			return
		case 14: // ping
			m.ok()
		case 3:
			q := string(p[1:])
			kind := "exec"
			if isQuery(q) {
				kind = "query"
			}
			a := s.H(kind, q, nil)
			if kind == "exec" && a.Err == nil {
				a = fdb.Answer{}
			}
			m.result(a, false)
		case 22:
			next++
			q := string(p[1:])
			stmts[next] = q
			n := countMarks(q)
			r := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
			binary.LittleEndian.PutUint32(r[1:], next)
			binary.LittleEndian.PutUint16(r[7:], uint16(n))
			m.put(r)
			if n > 0 {
				for i := 0; i < n; i++ {
					m.column("?")
				}
				m.eof()
			}
		case 23:
			id := binary.LittleEndian.Uint32(p[1:])
			q := stmts[id]
			args := execArgs(p, countMarks(q))
			kind := "exec"
			if isQuery(q) {
				kind = "query"
			}
			a := s.H(kind, q, args)
			if kind == "exec" && a.Err == nil {
				a = fdb.Answer{}
			}
			m.result(a, true)
		case 25:
			continue // close: no answer
		default:
			m.err(fmt.Errorf("unsupported command %d", p[0]))
		}
		m.flush()
	}
}

func countMarks(q string) int {
	n := 0
	var quote byte
	for i := 0; i < len(q); i++ {
		c := q[i]
		switch {
		case quote != 0:
			if c == '\\' && quote != '`' {
				i++
			} else if c == quote {
				quote = 0
			}
		case c == '\'' || c == '"' || c == '`':
			quote = c
		case c == '?':
			n++
		}
	}
	return n
}

func execArgs(p []byte, n int) []any {
	var out []any
	if n == 0 {
		return nil
	}
	b := p[10:]
	nulls := b[:(n+7)/8]
	b = b[len(nulls):]
	b = b[1:] // new types
	types := b[:2*n]
	b = b[2*n:]
	for i := 0; i < n; i++ {
		if nulls[i/8]>>(i%8)&1 == 1 {
			out = append(out, nil)
			continue
		}
		switch types[2*i] {
		case 8:
			out = append(out, int64(binary.LittleEndian.Uint64(b)))
			b = b[8:]
		case 1:
			out = append(out, int64(b[0]))
			b = b[1:]
		default:
			var s string
			s, b = readLenenc(b)
			out = append(out, s)
		}
	}
	return out
}
