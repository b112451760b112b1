package lib

import (
	"strings"

	"pgregory.net/rapid"
)

var oddLines = []string{
	"GET / HTTP/1.1", "POST /a HTTP/1.1", "POST /a HTTP/1.1", "POST /a HTTP/1.1", "PUT / HTTP/1.0", "HEAD /x?y=z HTTP/1.1", "GET  / HTTP/1.1", "GET / / HTTP/1.1", "GET /  HTTP/1.1", "GET /%41%2 HTTP/1.1",
	"GET /%zz HTTP/1.1", "GET ? HTTP/1.1", "GET /? HTTP/1.1", "GET /?? HTTP/1.1", "GET /", "GET", " ", "", "G ET / HTTP/1.1", "GET / HTTP/1.1 ", "GET / HTTP/2.0", "TRACE * HTTP/1.1", "POST / HTTP/1.1\r",
}

var oddHeaders = []string{
	"Content-Length: 5", "Content-Length: 5", "content-length:5", "CONTENT-LENGTH:  5  ", "Content-Length: 5 5", "Content-Length: 5  5", "Content-Length: 5 ,5", "Content-Length: 0", "Content-Length: 0 5", "Content-Length: 00005",
	"Content-Length: 5\t", "Content-Length:\t5", "Content-Length: 5\r", "Content-Length: 5\r\r", "Content-Length: \r", "Content-Length:", "Content-Length: +5", "Content-Length: 5x", "Content-Length: 9223372036854775800", "Content-Length: 99999999999999999999",
	"Content-Length : 5", "Content-Lengtx: 5", "Transfer-Encoding: chunked", "Transfer-Encoding: chunked", "transfer-encoding:CHUNKED", "Transfer-Encoding: chunked, chunked", "Transfer-Encoding: gzip, chunked", "Transfer-Encoding: chunked, gzip",
	"Transfer-Encoding: ,chunked", "Transfer-Encoding: chunked ,", "Transfer-Encoding: ,", "Transfer-Encoding:", "Transfer-Encoding: \tchunked\t", "Transfer-Encoding: chunked\x0b", "Transfer-Encoding: identity", "Content-Encoding: gzip, br", "Content-Encoding: , ,",
	"Trailer: X", "Trailer:", "Connection: close", "Connection: Keep-Alive", "Connection:", "Upgrade: HTTP/1.0", "Upgrade: h2c", "Upgrade:", "Content-Type: text/plain", "Content-Type:", "A: b", "A:b", "A:  b", "A: b ", "A:", "A: ", "A: \r", "A: b\r",
	"A: b\r\r", "A: \rb", "A: :", "A: b: c", ":", ": b", " A: b", "A : b", "A", "A b: c", "\tA: b", "\x01: b", "A: \x00", "A: \xff", "\xff: b", "Cookie: a=b", "Host: h", "\r", "\rA: b",
}

var oddBodies = []string{
	"", "", "hello", "hello", "hell", "hello, world", "5\r\nhello\r\n0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n", "5\nhello\n0\n\n", "5;ext=1\r\nhello\r\n0\r\n\r\n", "0\r\n\r\n", "5\r\nhello\r\n0\r\nX: y\r\n\r\n", "5\r\nhellox0\r\n\r\n", "x\r\n",
	"00005\r\nhello\r\n00\r\n\r\n", "A\r\n0123456789\r\n0\r\n\r\n", "5 \r\nhello\r\n0\r\n\r\n", strings.Repeat("x", 55),
}

// GenOdd generates requests, whose lines are at the edges of the grammar or beyond.
func GenOdd(t *rapid.T, maxReqs int) (data []byte) {
	eol := func() string { return rapid.SampledFrom([]string{"\r\n", "\r\n", "\r\n", "\n"}).Draw(t, "eol") }
	for n := rapid.IntRange(1, maxReqs).Draw(t, "requests"); n > 0; n-- {
		if line := 4; rapid.IntRange(0, 2).Draw(t, "odd line") == 0 {
			data = append(data, rapid.SampledFrom(oddLines).Draw(t, "line")...)
		} else {
			data = append(data, oddLines[rapid.IntRange(0, line).Draw(t, "line")]...)
		}
		data = append(data, eol()...)
		for h := rapid.IntRange(0, 4).Draw(t, "headers"); h > 0; h-- {
			data = append(data, rapid.SampledFrom(oddHeaders).Draw(t, "header")...)
			data = append(data, eol()...)
		}
		data = append(data, eol()...)
		data = append(data, rapid.SampledFrom(oddBodies).Draw(t, "body")...)
	}
	return data
}
