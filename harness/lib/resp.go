package lib

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Resp is a strictly parsed response.
type Resp struct {
	Proto   string
	Code    int
	Text    string
	Headers [][2]string
	Body    []byte
	Chunked bool
	// HasLength tells whether Content-Length was present, ContentLength its value.
	HasLength     bool
	ContentLength int
	// ToClose: the body extends to the end of the connection.
	ToClose bool
	Raw     []byte
}

// Get returns all values of a header.
func (r *Resp) Get(key string) (vals []string) {
	for _, h := range r.Headers {
		if strings.EqualFold(h[0], key) {
			vals = append(vals, h[1])
		}
	}
	return vals
}

// One returns the only value of a header.
func (r *Resp) One(key string) (string, error) {
	v := r.Get(key)
	if len(v) != 1 {
		return "", fmt.Errorf("header %s occurs %d times: %q", key, len(v), v)
	}
	return v[0], nil
}

var errShort = fmt.Errorf("response is cut short")

// ParseResp strictly parses one response from the beginning of data.
func ParseResp(data []byte, head bool) (r *Resp, rest []byte, err error) {
	whole := data
	line, data, err := cutLine(data)
	if err != nil {
		return nil, nil, err
	}
	r = &Resp{}
	if len(line) < len("HTTP/1.1 200 ") || !(strings.HasPrefix(line, "HTTP/1.1 ") || strings.HasPrefix(line, "HTTP/1.0 ")) {
		return nil, nil, fmt.Errorf("bad status line %q", line)
	}
	r.Proto = line[:8]
	code := line[9:12]
	for i := 0; i < 3; i++ {
		if code[i] < '0' || code[i] > '9' {
			return nil, nil, fmt.Errorf("bad status code in %q", line)
		}
	}
	r.Code, _ = strconv.Atoi(code)
	if r.Code < 100 || line[12] != ' ' {
		return nil, nil, fmt.Errorf("bad status line %q", line)
	}
	r.Text = line[13:]
	for {
		line, data, err = cutLine(data)
		if err != nil {
			return nil, nil, err
		}
		if line == "" {
			break
		}
		key, value, ok := strings.Cut(line, ":")
		if !ok || key == "" || strings.ContainsAny(key, " \t") {
			return nil, nil, fmt.Errorf("bad header line %q", line)
		}
		r.Headers = append(r.Headers, [2]string{key, strings.TrimPrefix(value, " ")})
	}
	te := r.Get("Transfer-Encoding")
	cl := r.Get("Content-Length")
	if len(cl) > 1 || len(te) > 1 {
		return nil, nil, fmt.Errorf("repeated framing headers: %q %q", cl, te)
	}
	if len(cl) == 1 {
		n, err := strconv.Atoi(cl[0])
		if err != nil || n < 0 || cl[0][0] == '+' {
			return nil, nil, fmt.Errorf("bad Content-Length %q", cl[0])
		}
		r.HasLength, r.ContentLength = true, n
	}
	if len(te) == 1 {
		if !strings.EqualFold(te[0], "chunked") {
			return nil, nil, fmt.Errorf("unexpected Transfer-Encoding %q", te[0])
		}
		r.Chunked = true
	}
	if r.Chunked && r.HasLength {
		return nil, nil, fmt.Errorf("both Content-Length and chunked")
	}
	switch {
	case head || r.Code < 200:
	case r.Chunked:
		r.Body, data, err = ParseChunked(data)
		if err != nil {
			return r, nil, err
		}
	case r.HasLength:
		if len(data) < r.ContentLength {
			return r, nil, errShort
		}
		r.Body, data = data[:r.ContentLength], data[r.ContentLength:]
	default:
		r.ToClose = true
		r.Body, data = data, nil
	}
	r.Raw = whole[:len(whole)-len(data)]
	return r, data, nil
}

// IsShort tells whether the parse error means that the response is only incomplete.
func IsShort(err error) bool { return errors.Is(err, errShort) }

func cutLine(data []byte) (string, []byte, error) {
	i := bytes.Index(data, []byte("\r\n"))
	if i == -1 {
		return "", nil, errShort
	}
	line := string(data[:i])
	if strings.ContainsAny(line, "\r\n\x00") {
		return "", nil, fmt.Errorf("stray control byte in line %q", line)
	}
	return line, data[i+2:], nil
}

// ParseChunked strictly decodes a chunked body without extensions and trailers.
func ParseChunked(data []byte) (body, rest []byte, err error) {
	for {
		line, next, err := cutLine(data)
		if err != nil {
			return nil, nil, err
		}
		n, err := strconv.ParseUint(line, 16, 31)
		if err != nil {
			return nil, nil, fmt.Errorf("bad chunk size %q", line)
		}
		data = next
		if n == 0 {
			if len(data) < 2 {
				return nil, nil, errShort
			}
			if string(data[:2]) != "\r\n" {
				return nil, nil, fmt.Errorf("bad end of chunked body: %q", data[:2])
			}
			return body, data[2:], nil
		}
		if uint64(len(data)) < n+2 {
			return nil, nil, errShort
		}
		body = append(body, data[:n]...)
		if string(data[n:n+2]) != "\r\n" {
			return nil, nil, fmt.Errorf("chunk isn't followed by CRLF: %q", data[n:n+2])
		}
		data = data[n+2:]
	}
}

// ParseAll parses a whole output; heads[i] tells whether the i-th final response answers HEAD
// (missing: not HEAD). Interim 1xx responses are returned separately, by index of the final
// response they precede.
func ParseAll(data []byte, heads []bool) (finals []*Resp, interim map[int][]*Resp, err error) {
	interim = map[int][]*Resp{}
	for len(data) > 0 {
		i := len(finals)
		head := i < len(heads) && heads[i]
		r, rest, err := ParseResp(data, head)
		if err != nil {
			return finals, interim, fmt.Errorf("response %d: %w (at %s)", i, err, Q(data))
		}
		if r.Code < 200 {
			interim[i] = append(interim[i], r)
		} else {
			finals = append(finals, r)
		}
		data = rest
	}
	return finals, interim, nil
}
