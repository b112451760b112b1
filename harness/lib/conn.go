package lib

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
)

// ErrTimeout is what a socket read returns when its deadline passes.
var ErrTimeout net.Error = timeoutErr{}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout (scripted)" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// ErrReset is a scripted connection failure.
var ErrReset = errors.New("connection reset by peer (scripted)")

// Addr is a textual network address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Conn is an in-memory connection: reads come from a script, writes are recorded.
type Conn struct {
	mu   sync.Mutex
	segs [][]byte
	// End is the error after the script; WithLast delivers it together with the last bytes.
	End      error
	WithLast bool
	// FailWriteAt makes the n-th write (from 0) fail after PartialWrite bytes; -1: never.
	FailWriteAt, PartialWrite int

	Out        []byte
	Writes     int
	AfterFail  int // writes attempted after the failed one
	Closed     int
	ReadsAtEnd int
	TotalRead  int
	// OutAtRead holds, for every read from the script, (bytes received before, bytes written before).
	OutAtRead [][2]int
	Deadlines int
	Remote    Addr
	failed    bool
	OnRead    func()
}

// NewConn makes a connection delivering the segments and then EOF.
func NewConn(segs [][]byte) *Conn {
	c := &Conn{End: io.EOF, FailWriteAt: -1, Remote: "192.0.2.1:1234"}
	for _, s := range segs {
		if len(s) > 0 {
			c.segs = append(c.segs, append([]byte(nil), s...))
		}
	}
	return c
}

const maxReadsAtEnd = 10_000

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.OnRead != nil {
		c.OnRead()
	}
	c.OutAtRead = append(c.OutAtRead, [2]int{c.TotalRead, len(c.Out)})
	if len(c.segs) == 0 {
		if c.ReadsAtEnd++; c.ReadsAtEnd > maxReadsAtEnd {
			panic("verif: the server keeps reading a connection that has ended")
		}
		return 0, c.End
	}
	n := copy(p, c.segs[0])
	c.TotalRead += n
	if n == len(c.segs[0]) {
		c.segs = c.segs[1:]
	} else {
		c.segs[0] = c.segs[0][n:]
	}
	if len(c.segs) == 0 && c.WithLast {
		return n, c.End
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.failed {
		c.AfterFail++
		return 0, ErrReset
	}
	if c.Writes == c.FailWriteAt {
		c.failed = true
		n := c.PartialWrite
		if n > len(p) {
			n = len(p)
		}
		c.Out = append(c.Out, p[:n]...)
		return n, ErrReset
	}
	c.Writes++
	c.Out = append(c.Out, p...)
	return len(p), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	c.Closed++
	c.mu.Unlock()
	return nil
}
func (c *Conn) LocalAddr() net.Addr              { return Addr("192.0.2.2:80") }
func (c *Conn) RemoteAddr() net.Addr             { return c.Remote }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { c.Deadlines++; return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

// WriteFailed tells whether a scripted write failure has happened.
func (c *Conn) WriteFailed() bool { return c.failed }

// Serve runs the real server over the connection until it lets go of it. A panic of the server
// is returned as text.
func Serve(cfg config.Config, conn net.Conn, enc encryption.Token, r router.Router) string {
	return Catch(func() { serve.HTTP1(cfg, conn, enc, r) })
}

// Split cuts data at the given sorted offsets.
func Split(data []byte, cuts []int) [][]byte {
	var segs [][]byte
	prev := 0
	for _, c := range cuts {
		if c <= prev || c >= len(data) {
			continue
		}
		segs = append(segs, data[prev:c])
		prev = c
	}
	return append(segs, data[prev:])
}
