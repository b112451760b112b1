package demo

import (
	"io"
	"net"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
)

// script is a connection that delivers one piece per read and records what's written.
type script struct {
	in  []string
	out []byte
}

func (s *script) Read(b []byte) (int, error) {
	if len(s.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, s.in[0])
	if s.in[0] = s.in[0][n:]; s.in[0] == "" {
		s.in = s.in[1:]
	}
	return n, nil
}

func (s *script) Write(b []byte) (int, error) {
	s.out = append(s.out, b...)
	return len(b), nil
}
func (s *script) Close() error                     { return nil }
func (s *script) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (s *script) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (s *script) SetDeadline(time.Time) error      { return nil }
func (s *script) SetReadDeadline(time.Time) error  { return nil }
func (s *script) SetWriteDeadline(time.Time) error { return nil }

// talk serves one connection, sending the pieces, and returns everything answered.
func talk(cfg config.Config, r router.Router, pieces ...string) string {
	s := &script{in: pieces}
	serve.HTTP1(cfg, s, encryption.Plain, r)
	return string(s.out)
}
