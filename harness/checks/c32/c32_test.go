// C32: connection reads form an exact byte stream.
package c32

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"testing"
	"time"

	"github.com/indigo-web/indigo/internal/stash"
	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC32(t *testing.T) {
	lib.Run(t, "C32",
		lib.Prop{Name: "client", Quick: 10000, Fn: client},
		lib.Prop{Name: "reader", Quick: 10000, Fn: reader},
	)
}

type step struct {
	data []byte
	err  error
}

const slack = 50 * time.Millisecond

// sock is a scripted socket.
type sock struct {
	steps     []step
	timeout   time.Duration
	armed     bool
	called    time.Time // when the client was asked to read
	deadline  time.Time
	bad       string
	out       []byte
	writeErr  error
	closed    int
	reads     int
	delivered []byte
}

func (s *sock) Read(p []byte) (int, error) {
	s.reads++
	now := time.Now()
	switch {
	case !s.armed:
		s.bad = "the socket is read without renewing the deadline"
	case s.deadline.After(now.Add(s.timeout+slack)) || s.deadline.Before(s.called.Add(s.timeout-slack)):
		s.bad = fmt.Sprintf("the deadline is %s from now though the timeout is %s", s.deadline.Sub(now), s.timeout)
	}
	s.armed = false
	if len(s.steps) == 0 {
		return 0, io.EOF
	}
	st := &s.steps[0]
	n := copy(p, st.data)
	s.delivered = append(s.delivered, st.data[:n]...)
	if n < len(st.data) {
		st.data = st.data[n:]
		return n, nil
	}
	err := st.err
	s.steps = s.steps[1:]
	return n, err
}

func (s *sock) Write(p []byte) (int, error) {
	if s.writeErr != nil {
		return 0, s.writeErr
	}
	s.out = append(s.out, p...)
	return len(p), nil
}
func (s *sock) Close() error                  { s.closed++; return nil }
func (s *sock) LocalAddr() net.Addr           { return lib.Addr("1.1.1.1:1") }
func (s *sock) RemoteAddr() net.Addr          { return lib.Addr("2.2.2.2:2") }
func (s *sock) SetDeadline(t time.Time) error { return s.SetReadDeadline(t) }
func (s *sock) SetReadDeadline(t time.Time) error {
	s.armed, s.deadline = true, t
	return nil
}
func (s *sock) SetWriteDeadline(time.Time) error { return nil }

var errScript = errors.New("scripted failure")

func client(t *rapid.T, c *lib.Case) {
	s := &sock{timeout: rapid.SampledFrom([]time.Duration{time.Second, 1500 * time.Millisecond, 700 * time.Millisecond, time.Minute, 90*time.Second + 300*time.Millisecond, time.Hour, 24 * time.Hour, 1000000 * time.Second}).Draw(t, "timeout")}
	n := rapid.IntRange(0, 6).Draw(t, "steps")
	large := rapid.IntRange(0, 9).Draw(t, "large") == 0
	mark := byte('a')
	var sent []byte
	withErr := false
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 8).Draw(t, "size")
		if large {
			k *= rapid.SampledFrom([]int{1, 100, 1000, 5000}).Draw(t, "times")
		}
		k = lib.NumOr(t, 0, 5000, func() int { return k })
		st := step{}
		for j := 0; j < k; j++ {
			st.data = append(st.data, mark)
			mark++
		}
		sent = append(sent, st.data...)
		if i == n-1 && rapid.Bool().Draw(t, "error with data") {
			st.err = rapid.SampledFrom([]error{io.EOF, errScript, lib.ErrTimeout}).Draw(t, "err")
			withErr = len(st.data) > 0
		}
		c.Logf("socket: %s, %v", lib.Q(st.data), st.err)
		s.steps = append(s.steps, st)
	}
	size := rapid.IntRange(1, 10).Draw(t, "buffer")
	if large {
		size = rapid.SampledFrom([]int{256, 1024, 4096, 8192, 65536}).Draw(t, "large buffer")
	}
	c.Logf("buffer %d", size)
	wantErr := error(io.EOF)
	if n > 0 && s.steps[n-1].err != nil {
		wantErr = s.steps[n-1].err
	}
	cl := tcp.NewClient(s, s.timeout, make([]byte, size))
	if cl.Remote().String() != "2.2.2.2:2" || cl.Conn() != net.Conn(s) {
		c.Failf(t, "wrong connection")
	}

	var got []byte
	unread, extra := 0, 0
	for ops := 0; ; ops++ {
		if ops > 500+2*len(sent) {
			c.Failf(t, "the end is never reported")
		}
		reads := s.reads
		pendingBefore := len(s.delivered) + extra - len(got)
		s.called = time.Now()
		b, err := cl.Read()
		if s.bad != "" {
			c.Failf(t, "%s", s.bad)
		}
		if s.reads > reads && pendingBefore > 0 {
			c.Failf(t, "the socket is read though %d given-back bytes aren't delivered yet", pendingBefore)
		}
		if s.reads-reads > 1 {
			c.Failf(t, "one Read made %d socket reads", s.reads-reads)
		}
		got = append(got, b...)
		if !bytes.HasPrefix(sent, got) {
			c.Failf(t, "read %q of the stream %q", got, sent)
		}
		if err != nil {
			c.Logf("Read: %q, %v", b, err)
			if len(b) > 0 {
				c.Failf(t, "the bytes %q come together with the error %v instead of before it", b, err)
			}
			if len(got) != len(sent) {
				c.Failf(t, "the error %v is reported after %q of the stream %q", err, got, sent)
			}
			if err != wantErr {
				c.Failf(t, "the error is %v instead of %v", err, wantErr)
			}
			break
		}
		c.Logf("Read: %s", lib.Q(b))
		if len(b) > 0 && unread < 6 && rapid.IntRange(0, 2).Draw(t, "unread") == 0 {
			k := rapid.IntRange(0, len(b)).Draw(t, "back")
			c.Logf("Unread: %s", lib.Q(b[len(b)-k:]))
			cl.Unread(b[len(b)-k:])
			got = got[:len(got)-k]
			unread++
		} else if unread < 6 && rapid.IntRange(0, 9).Draw(t, "unread others") == 0 {
			// bytes which don't lie in the client's buffer, possibly more than fit into it
			more := bytes.Repeat([]byte{0xf0, mark, 0xf1}, 1+lib.NumOr(t, 0, 3*size, func() int { return rapid.IntRange(0, size).Draw(t, "others") }))
			c.Logf("Unread others: %s", lib.Q(more))
			cl.Unread(more)
			sent = append(append(bytes.Clone(got), more...), sent[len(got):]...)
			extra += len(more)
			unread++
		}
	}
	if unread > 0 || withErr {
		c.NonTrivial(fmt.Sprintf("%q", sent), size, unread, n, wantErr)
	}

	// writing
	var out []byte
	for i := 0; i < 2; i++ {
		p := rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "write")
		if large {
			p = bytes.Repeat(append(p, 'w'), 5000)
		}
		out = append(out, p...)
		if err := cl.Write(p); err != nil {
			c.Failf(t, "Write: %v", err)
		}
	}
	if !bytes.Equal(s.out, out) {
		c.Failf(t, "written %q instead of %q", s.out, out)
	}
	s.writeErr = errScript
	if err := cl.Write([]byte("x")); err != errScript {
		c.Failf(t, "a failed write is reported as %v", err)
	}
	if err := cl.Close(); err != nil || s.closed != 1 {
		c.Failf(t, "closed %d times: %v", s.closed, err)
	}
}

// reader checks wrapping piecewise data into an io.Reader.
func reader(t *rapid.T, c *lib.Case) {
	rounds := rapid.IntRange(1, 2).Draw(t, "rounds")
	var steps []step
	calls, over := 0, false
	var final error
	r := stash.New(func() ([]byte, error) {
		calls++
		if over {
			// what follows belongs to somebody else
			return []byte("foreign"), nil
		}
		if len(steps) == 0 {
			over = true
			return nil, final
		}
		st := steps[0]
		steps = steps[1:]
		over = st.err != nil
		return st.data, st.err
	})
	key := ""
	for round := 0; round < rounds; round++ {
		var sent []byte
		steps, over = nil, false
		final = rapid.SampledFrom([]error{io.EOF, errScript}).Draw(t, "final")
		n := rapid.IntRange(0, 5).Draw(t, "pieces")
		for i := 0; i < n; i++ {
			p := rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "piece")
			if rapid.IntRange(0, 29).Draw(t, "large") == 0 {
				p = bytes.Repeat(append(p, 'p'), rapid.SampledFrom([]int{10, 100, 1000}).Draw(t, "times"))
			}
			steps = append(steps, step{data: bytes.Clone(p)})
			sent = append(sent, p...)
			key += fmt.Sprintf("%q,", p)
		}
		together := n > 0 && rapid.Bool().Draw(t, "together")
		if together {
			steps[n-1].err = final
		}
		c.Logf("pieces %v, then %v (with the last one: %v)", steps, final, together)
		key += fmt.Sprint(together, final)
		var got []byte
		after := 0
		for ops := 0; ; ops++ {
			if ops > 20000 {
				c.Failf(t, "the end is never reported")
			}
			buf := make([]byte, rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9, 64, 5000}).Draw(t, "buf"))
			n, err := r.Read(buf)
			c.Logf("Read(%d): %d, %v", len(buf), n, err)
			if n < 0 || n > len(buf) {
				c.Failf(t, "Read returned %d for %d", n, len(buf))
			}
			got = append(got, buf[:n]...)
			if !bytes.HasPrefix(sent, got) {
				c.Failf(t, "read %q of %q", got, sent)
			}
			if err == nil {
				if after > 0 {
					c.Failf(t, "the error isn't reported again")
				}
				continue
			}
			if err != final {
				c.Failf(t, "the error is %v instead of %v", err, final)
			}
			if len(got) != len(sent) {
				c.Failf(t, "the error is reported after %q of %q", got, sent)
			}
			if after++; after == 3 {
				break
			}
		}
		r.Reset()
	}
	if len(key) > 12 {
		c.NonTrivial(key)
	}
}
