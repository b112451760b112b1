// Package chunkedbody is an offline stand-in for github.com/indigo-web/chunkedbody: a stream
// parser of the chunked transfer coding.
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadChunk      = errors.New("chunked body: bad syntax")
	ErrChunkTooLarge = errors.New("chunked body: chunk is too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings { return Settings{MaxChunkSize: 128 * 1024} }

type state uint8

const (
	sSize state = iota
	sSizeMore
	sExt
	sSizeLF
	sBody
	sBodyCR
	sBodyLF
	sEndCR     // after the last chunk's size line, no trailer
	sEndLF     // CR seen, LF expected: the very end
	sTrailer   // at the beginning of a trailer line
	sTrailerLn // within a trailer line
)

// Parser of the chunked transfer coding. After io.EOF is returned, it's ready for the next body.
type Parser struct {
	settings Settings
	left     int64
	state    state
}

func NewParser(settings Settings) *Parser { return &Parser{settings: settings} }

// Parse consumes data up to and including the next piece of a chunk. Returns the piece, the
// unconsumed rest, and io.EOF when the body is over (rest isn't part of the body then).
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); {
		c := data[i]
		switch p.state {
		case sSize, sSizeMore:
			switch v := unhex(c); {
			case v >= 0:
				p.left = p.left<<4 | int64(v)
				if p.left > p.settings.MaxChunkSize {
					return nil, nil, ErrChunkTooLarge
				}
				p.state = sSizeMore
			case p.state == sSize:
				return nil, nil, ErrBadChunk
			case c == '\r':
				p.state = sSizeLF
			case c == '\n':
				p.sizeDone(trailer)
			case c == ';':
				p.state = sExt
			default:
				return nil, nil, ErrBadChunk
			}
			i++
		case sExt:
			switch c {
			case '\r':
				p.state = sSizeLF
			case '\n':
				p.sizeDone(trailer)
			}
			i++
		case sSizeLF:
			if c != '\n' {
				return nil, nil, ErrBadChunk
			}
			p.sizeDone(trailer)
			i++
		case sBody:
			n := int64(len(data) - i)
			if n > p.left {
				n = p.left
			}
			p.left -= n
			if p.left == 0 {
				p.state = sBodyCR
			}
			return data[i : i+int(n)], data[i+int(n):], nil
		case sBodyCR:
			switch c {
			case '\r':
				p.state = sBodyLF
			case '\n':
				p.state = sSize
			default:
				return nil, nil, ErrBadChunk
			}
			i++
		case sBodyLF:
			if c != '\n' {
				return nil, nil, ErrBadChunk
			}
			p.state = sSize
			i++
		case sEndCR:
			switch c {
			case '\r':
				p.state = sEndLF
				i++
			case '\n':
				p.state = sSize
				return nil, data[i+1:], io.EOF
			default:
				return nil, nil, ErrBadChunk
			}
		case sEndLF:
			if c != '\n' {
				return nil, nil, ErrBadChunk
			}
			p.state = sSize
			return nil, data[i+1:], io.EOF
		case sTrailer:
			switch c {
			case '\r':
				p.state = sEndLF
			case '\n':
				p.state = sSize
				return nil, data[i+1:], io.EOF
			default:
				p.state = sTrailerLn
			}
			i++
		case sTrailerLn:
			if c == '\n' {
				p.state = sTrailer
			}
			i++
		}
	}

	return nil, nil, nil
}

func (p *Parser) sizeDone(trailer bool) {
	switch {
	case p.left > 0:
		p.state = sBody
	case trailer:
		p.state = sTrailer
	default:
		p.state = sEndCR
	}
}

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}
