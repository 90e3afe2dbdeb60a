package wire

import (
	"bufio"
	"encoding/binary"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"

	"github.com/mrasu/GravityR/zz_verif/fdb"
)

func Postgres(network, addr string) (*Server, error) {
	return listen(network, addr, (*Server).postgres)
}

type pconn struct {
	c   net.Conn
	r   *bufio.Reader
	out []byte
}

func (p *pconn) full(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(p.r, b); err != nil {
		panic(err)
	}
	return b
}

func (p *pconn) read() (byte, []byte) {
	h := p.full(5)
	return h[0], p.full(int(binary.BigEndian.Uint32(h[1:])) - 4)
}

func (p *pconn) put(t byte, b []byte) {
	p.out = append(p.out, t)
	p.out = binary.BigEndian.AppendUint32(p.out, uint32(len(b)+4))
	p.out = append(p.out, b...)
}

func (p *pconn) flush() {
	if _, err := p.c.Write(p.out); err != nil {
		panic(err)
	}
	p.out = p.out[:0]
}

func (p *pconn) err(e error) {
	p.put('E', []byte("SERROR\x00C42000\x00M"+e.Error()+"\x00\x00"))
}

func (p *pconn) ready() { p.put('Z', []byte{'I'}) }

func (p *pconn) describe(cols []string) {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for _, c := range cols {
		b = append(b, c...)
		b = append(b, 0, 0, 0, 0, 0, 0, 0)
		b = binary.BigEndian.AppendUint32(b, 25)
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
	}
	p.put('T', b)
}

func (p *pconn) rows(a fdb.Answer) {
	for _, r := range a.Rows {
		b := binary.BigEndian.AppendUint16(nil, uint16(len(r)))
		for _, v := range r {
			t, ok := text(v)
			if !ok {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
				continue
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(t)))
			b = append(b, t...)
		}
		p.put('D', b)
	}
	if a.RowErr != nil {
		p.err(a.RowErr)
		return
	}
	p.put('C', []byte("SELECT "+strconv.Itoa(len(a.Rows))+"\x00"))
}

var reDollar = regexp.MustCompile(`\$([0-9]+)`)

func (s *Server) postgres(c net.Conn) {
	p := &pconn{c: c, r: bufio.NewReader(c)}
	var l *Login
	for l == nil {
		n := int(binary.BigEndian.Uint32(p.full(4)))
		b := p.full(n - 4)
		switch binary.BigEndian.Uint32(b) {
		case 80877103, 80877104: // ssl, gss
			p.c.Write([]byte{'N'})
		case 196608:
			l = &Login{Params: map[string]string{}}
			f := strings.Split(string(b[4:]), "\x00")
			for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
				l.Params[f[i]] = f[i+1]
			}
			l.User, l.DB = l.Params["user"], l.Params["database"]
		default:
			return
		}
	}
	p.put('R', []byte{0, 0, 0, 3})
	p.flush()
	t, b := p.read()
	if t != 'p' {
		return
	}
	l.Password = strings.TrimSuffix(string(b), "\x00")
	s.login(l)
	p.put('R', []byte{0, 0, 0, 0})
	p.put('S', []byte("server_version\x0014.0\x00"))
	p.put('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	p.ready()
	p.flush()
	prepared := map[string]string{}
	portal := map[string][]any{}
	portalStmt := map[string]string{}
	failed := false
	for {
		t, b := p.read()
		cut := func() string {
			i := strings.IndexByte(string(b), 0)
			r := string(b[:i])
			b = b[i+1:]
			return r
		}
		if failed && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			q := cut()
			s.simple(p, q)
			p.ready()
		case 'P':
			n := cut()
			prepared[n] = cut()
			p.put('1', nil)
		case 'D':
			kind := b[0]
			b = b[1:]
			n := cut()
			q := prepared[n]
			if kind == 'P' {
				q = portalStmt[n]
			} else {
				max := 0
				for _, m := range reDollar.FindAllStringSubmatch(q, -1) {
					if k, _ := strconv.Atoi(m[1]); k > max {
						max = k
					}
				}
				d := binary.BigEndian.AppendUint16(nil, uint16(max))
				for i := 0; i < max; i++ {
					d = binary.BigEndian.AppendUint32(d, 25)
				}
				p.put('t', d)
			}
			if isQuery(q) {
				p.describe(s.Cols(q))
			} else {
				p.put('n', nil)
			}
		case 'B':
			po := cut()
			st := cut()
			nf := int(binary.BigEndian.Uint16(b))
			b = b[2+2*nf:]
			n := int(binary.BigEndian.Uint16(b))
			b = b[2:]
			var args []any
			for i := 0; i < n; i++ {
				k := int32(binary.BigEndian.Uint32(b))
				b = b[4:]
				if k < 0 {
					args = append(args, nil)
					continue
				}
				args = append(args, string(b[:k]))
				b = b[k:]
			}
			portal[po], portalStmt[po] = args, prepared[st]
			p.put('2', nil)
		case 'E':
			po := cut()
			q := portalStmt[po]
			kind := "exec"
			if isQuery(q) {
				kind = "query"
			}
			a := s.H(kind, q, portal[po])
			if a.Err != nil {
				p.err(a.Err)
				failed = true
			} else if kind == "query" {
				p.rows(a)
			} else {
				p.put('C', []byte("OK\x00"))
			}
		case 'C':
			p.put('3', nil)
		case 'S':
			failed = false
			p.ready()
		case 'H':
		default:
			return
		}
		p.flush()
	}
}

func (s *Server) simple(p *pconn, q string) {
	if strings.Trim(q, " \t\r\n;") == "" {
		p.put('I', nil)
		return
	}
	kind := "exec"
	if isQuery(q) {
		kind = "query"
	}
	a := s.H(kind, q, nil)
	if a.Err != nil {
		p.err(a.Err)
		return
	}
	if kind == "query" {
		p.describe(a.Columns)
		p.rows(a)
		return
	}
	p.put('C', []byte("OK\x00"))
}
