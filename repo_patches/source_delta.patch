From b721a4128edef56d38b215cafa23877b84209664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:00 +0000
Subject: [PATCH 01/65] fix: request line limits must not depend on how the
 method is split into reads

---
 internal/protocol/http1/parser.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..4a38094 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -107,17 +107,11 @@ method:
 			return Pending, nil, nil
 		}
 
-		var methodValue []byte
-		if p.startLineBuff.SegmentLength() == 0 {
-			methodValue = data[:sp]
-		} else {
-			if !p.startLineBuff.Append(data[:sp]) {
-				return Error, nil, status.ErrTooLongRequestLine
-			}
-
-			methodValue = p.startLineBuff.Finish()
+		if !p.startLineBuff.Append(data[:sp]) {
+			return Error, nil, status.ErrTooLongRequestLine
 		}
 
+		methodValue := p.startLineBuff.Finish()
 		if len(methodValue) == 0 {
 			return Error, nil, status.ErrBadRequest
 		}
@@ -127,6 +121,8 @@ method:
 			return Error, nil, status.ErrMethodNotImplemented
 		}
 
+		// the method must not eat up the space for the URI, no matter how it was split
+		p.startLineBuff.Clear()
 		data = data[sp+1:]
 		goto path
 	}
-- 
2.43.0


From 888f995315db93478c655e1f08ce4a88a5ba4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 02/65] fix: panic on a request line ending with a space and a
 bare LF

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 4a38094..291dda8 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -150,7 +150,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
-- 
2.43.0


From 121f0229cd3aa531ca95b86ee66ecff58038bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:10 +0000
Subject: [PATCH 03/65] fix: panic on an empty header value ended by a bare LF

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 291dda8..f50f437 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -304,7 +304,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From 660abe19b20fa3f7237786f872ebe5c5297b1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:15 +0000
Subject: [PATCH 04/65] fix: refuse protocols other than HTTP/1.x with a
 well-formed response

---
 internal/protocol/http1/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index f50f437..96f8a53 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -170,11 +170,13 @@ path:
 		}
 
 		request.Path = uf.B2S(reqPath)
-		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		protocol := proto.FromBytes(reqProto)
+		if protocol&proto.HTTP1 == 0 {
+			// leave request.Proto untouched, as the error response is rendered using it
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
+		request.Proto = protocol
 		data = data[lf+1:]
 		goto headerKey
 	}
-- 
2.43.0


From 3fe0c030a8ab0569ffdfffdd691d85456296ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:49 +0000
Subject: [PATCH 05/65] fix: refuse empty, overflowing, broken and conflicting
 Content-Length values

---
 internal/protocol/http1/parser.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 96f8a53..9608110 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -35,6 +36,15 @@ const (
 	eHeaderValueCRLFCR
 )
 
+// lengthState tells, which part of the Content-Length value is already parsed
+type lengthState uint8
+
+const (
+	lengthBegin lengthState = iota
+	lengthDigits
+	lengthEnd
+)
+
 // Parser is a stream-based http requests parser. It modifies
 // request object by pointer in performance purposes. Decodes query-encoded
 // values by its own, you can see that by presented states ePathDecode1Char,
@@ -52,6 +62,8 @@ type Parser struct {
 	headersCfg      *config.Headers
 	headersNumber   int
 	contentLength   int
+	lengthState     lengthState
+	hasLength       bool
 	urlEncodedChar  uint8
 	state           parserState
 }
@@ -226,6 +238,7 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			p.contentLength, p.lengthState = 0, lengthBegin
 			goto contentLength
 		}
 
@@ -235,6 +248,10 @@ headerKey:
 contentLength:
 	for i, char := range data {
 		if char == ' ' {
+			if p.lengthState == lengthDigits {
+				p.lengthState = lengthEnd
+			}
+
 			continue
 		}
 
@@ -243,7 +260,12 @@ contentLength:
 			goto contentLengthEnd
 		}
 
+		if p.lengthState == lengthEnd || p.contentLength > (math.MaxInt-9)/10 {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		p.contentLength = p.contentLength*10 + int(char-'0')
+		p.lengthState = lengthDigits
 	}
 
 	p.state = eContentLength
@@ -254,7 +276,12 @@ contentLengthEnd:
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if p.lengthState == lengthBegin || (p.hasLength && request.ContentLength != p.contentLength) {
+		return Error, nil, status.ErrBadRequest
+	}
+
 	request.ContentLength = p.contentLength
+	p.hasLength = true
 
 	switch data[0] {
 	case '\r':
@@ -383,6 +410,8 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.lengthState = lengthBegin
+	p.hasLength = false
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From 6db81a0962e34d4bbde73127d6f17e1771b841b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:54 +0000
Subject: [PATCH 06/65] fix: validate header names and enforce their maximal
 length

---
 internal/protocol/http1/parser.go | 59 +++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 9608110..d51f140 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -200,30 +200,43 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
-
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		if headerKeyBuff.SegmentLength() == 0 {
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
 		}
 
 		colon := bytes.IndexByte(data, ':')
-		if colon == -1 {
-			if !headerKeyBuff.Append(data) {
-				return Error, nil, status.ErrHeaderFieldsTooLarge
-			}
+		line := data
+		if colon != -1 {
+			line = data[:colon]
+		}
 
-			p.state = eHeaderKey
-			return Pending, nil, nil
+		// the name must end before the line does
+		lf := bytes.IndexByte(line, '\n')
+		if lf != -1 {
+			line = line[:lf]
 		}
 
-		if !headerKeyBuff.Append(data[:colon]) {
+		if !headerKeyBuff.Append(line) || headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
+		if lf != -1 {
+			return Error, nil, status.ErrBadRequest
+		}
+
+		if colon == -1 {
+			p.state = eHeaderKey
+			return Pending, nil, nil
+		}
+
 		key := uf.B2S(headerKeyBuff.Finish())
 		p.headerKey = key
 		data = data[colon+1:]
@@ -232,6 +245,10 @@ headerKey:
 			return Error, nil, status.ErrTooManyHeaders
 		}
 
+		if !isHeaderNameValid(key) {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		if len(key) == len("content-length") &&
 			cContent == encodeU64(
 				key[0]|0x20, key[1]|0x20, key[2]|0x20, key[3]|0x20, key[4]|0x20, key[5]|0x20, key[6]|0x20, key[7]|0x20,
@@ -446,6 +463,18 @@ func parseEncodingString(buff []string, value string, maxTokens int) (toks []str
 	return buff, chunked
 }
 
+// isHeaderNameValid tells, whether the header name isn't empty and contains neither spaces nor
+// control characters
+func isHeaderNameValid(name string) bool {
+	for i := 0; i < len(name); i++ {
+		if name[i] <= ' ' || name[i] == 0x7f {
+			return false
+		}
+	}
+
+	return len(name) > 0
+}
+
 func trimPrefixSpaces(b []byte) []byte {
 	for i, char := range b {
 		if char != ' ' {
-- 
2.43.0


From 0f36e5faf52e2fd537b179cd2ffd80cc12e929e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 07/65] fix: combine repeated codings headers and refuse
 ambiguous transfer codings

---
 internal/protocol/http1/parser.go | 43 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index d51f140..33bf1f6 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -203,9 +203,7 @@ headerKey:
 		if headerKeyBuff.SegmentLength() == 0 {
 			switch data[0] {
 			case '\n':
-				p.cleanup()
-
-				return HeadersCompleted, data[1:], nil
+				return p.complete(data[1:])
 			case '\r':
 				data = data[1:]
 				goto headerValueCRLFCR
@@ -389,7 +387,14 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				// the header may occur multiple times, in this case the lists are concatenated
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.contEncToksBuff = toks
+				request.Encoding.Content = toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -397,9 +402,14 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.encToksBuff = toks
+				request.Encoding.Transfer = toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
@@ -413,14 +423,27 @@ headerValueCRLFCR:
 	}
 
 	if data[0] == '\n' {
-		p.cleanup()
-
-		return HeadersCompleted, data[1:], nil
+		return p.complete(data[1:])
 	}
 
 	return Error, nil, status.ErrBadRequest
 }
 
+// complete finishes the request. It's refused, if the end of its body cannot be told, because
+// chunked isn't the last transfer coding applied or is applied more than once
+func (p *Parser) complete(extra []byte) (state requestState, _ []byte, err error) {
+	codings := p.request.Encoding.Transfer
+	for i, token := range codings {
+		if isLast := i == len(codings)-1; strcomp.EqualFold(token, "chunked") != isLast {
+			return Error, nil, status.ErrBadRequest
+		}
+	}
+
+	p.cleanup()
+
+	return HeadersCompleted, extra, nil
+}
+
 func (p *Parser) cleanup() {
 	p.headersNumber = 0
 	p.startLineBuff.Clear()
-- 
2.43.0


From cccc38a5278df67e2fe65f91eb6e95e774856d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 08/65] fix: keep the encryption token for all requests of a
 connection

---
 http/request.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..ea4eaf7 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,8 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	// the encryption is a property of the whole connection
+	r.Env = Environment{Encryption: r.Env.Encryption}
 
 	return nil
 }
-- 
2.43.0


From b3cb104c557b74d563517e522c7ec2fab78a4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:35 +0000
Subject: [PATCH 09/65] fix: don't answer a malformed request using the
 previous request's method and protocol

---
 http/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/request.go b/http/request.go
index ea4eaf7..a4112c7 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
-- 
2.43.0


From ab00293adec963d782cce64ff0304cdf298a5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 10/65] fix: check the body size limit before allocating memory
 for the body

---
 internal/protocol/http1/body.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..5c96a9d 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -61,7 +61,7 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -160,15 +160,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
-- 
2.43.0


From c4cf06d1762147278900919a41977eed5188caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 11/65] fix: report a connection closed in the middle of a body
 as an error

---
 internal/protocol/http1/body.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 5c96a9d..9a334ea 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -166,7 +166,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -206,7 +206,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -227,6 +227,15 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// unexpectedEOF distinguishes the end of the connection from the end of the body
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From 2db9102a768da98c914d4ce656c9c0d57f387c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 12/65] fix: keep reporting the error of a failed body and
 close the connection

---
 internal/protocol/http1/body.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 9a334ea..bec6be9 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -21,7 +21,7 @@ type Body struct {
 	isChunked     bool
 	contentLength int
 	fullBodyBuff  []byte
-	eof           bool
+	err           error
 }
 
 func NewBody(
@@ -45,7 +45,7 @@ func (b *Body) Init(request *http.Request) {
 		b.plain.init(request)
 	}
 
-	b.eof = false
+	b.err = nil
 	b.Reader.Reset()
 }
 
@@ -56,7 +56,7 @@ func (b *Body) String() (string, error) {
 }
 
 func (b *Body) Bytes() ([]byte, error) {
-	if b.eof {
+	if b.err == io.EOF {
 		return b.fullBodyBuff, nil
 	}
 
@@ -98,8 +98,9 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 }
 
 func (b *Body) Retrieve() ([]byte, error) {
-	if b.eof {
-		return nil, io.EOF
+	if b.err != nil {
+		// errors are as final as the end of the body is: the rest of it cannot be read anymore
+		return nil, b.err
 	}
 
 	var (
@@ -113,17 +114,14 @@ func (b *Body) Retrieve() ([]byte, error) {
 		piece, err = b.plain.read()
 	}
 
-	b.checkEOF(err)
+	b.err = err
 
 	return piece, err
 }
 
 func (b *Body) Discard() (err error) {
-	for !b.eof {
+	for err == nil {
 		_, err = b.Retrieve()
-		if err != nil {
-			break
-		}
 	}
 
 	if err == io.EOF {
@@ -133,12 +131,6 @@ func (b *Body) Discard() (err error) {
 	return err
 }
 
-func (b *Body) checkEOF(err error) {
-	if err == io.EOF {
-		b.eof = true
-	}
-}
-
 type plainBodyReader struct {
 	client                tcp.Client
 	maxBodyLen, bytesLeft uint
-- 
2.43.0


From b807598a0ec0062a54c241a5a86f0d97381a1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:57 +0000
Subject: [PATCH 13/65] fix: Body.Bytes must not return the previous request's
 body

---
 internal/protocol/http1/body.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index bec6be9..81cc072 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -21,7 +21,9 @@ type Body struct {
 	isChunked     bool
 	contentLength int
 	fullBodyBuff  []byte
-	err           error
+	// isRead tells, whether the fullBodyBuff contains the (rest of the) current body
+	isRead bool
+	err    error
 }
 
 func NewBody(
@@ -45,6 +47,7 @@ func (b *Body) Init(request *http.Request) {
 		b.plain.init(request)
 	}
 
+	b.isRead = false
 	b.err = nil
 	b.Reader.Reset()
 }
@@ -56,7 +59,7 @@ func (b *Body) String() (string, error) {
 }
 
 func (b *Body) Bytes() ([]byte, error) {
-	if b.err == io.EOF {
+	if b.isRead {
 		return b.fullBodyBuff, nil
 	}
 
@@ -73,6 +76,7 @@ func (b *Body) Bytes() ([]byte, error) {
 		switch err {
 		case nil:
 		case io.EOF:
+			b.isRead = true
 			return b.fullBodyBuff, nil
 		default:
 			return nil, err
-- 
2.43.0


From 97c623e88717dc3d7adce84e6aee5e9ce56894cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:02 +0000
Subject: [PATCH 14/65] fix: don't call the body callback without data

---
 internal/protocol/http1/body.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 81cc072..2759082 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -87,17 +87,19 @@ func (b *Body) Bytes() ([]byte, error) {
 func (b *Body) Callback(cb http.OnBodyCallback) error {
 	for {
 		data, err := b.Retrieve()
+		if len(data) > 0 {
+			if cbErr := cb(data); cbErr != nil {
+				return cbErr
+			}
+		}
+
 		switch err {
 		case nil:
 		case io.EOF:
-			return cb(data)
+			return nil
 		default:
 			return err
 		}
-
-		if err = cb(data); err != nil {
-			return err
-		}
 	}
 }
 
-- 
2.43.0


From 3af09909b5e9372b6272ae6761ce27b220e6c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:06 +0000
Subject: [PATCH 15/65] fix: don't lose body bytes when a partially read body
 is read by other means

---
 internal/protocol/http1/body.go | 11 ++++++++++-
 internal/stash/reader.go        |  6 ++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 2759082..8effe47 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -33,7 +33,7 @@ func NewBody(
 		plain:   newPlainBodyReader(client, s.MaxSize),
 		chunked: newChunkedBodyReader(client, s.MaxSize, chunkedParser),
 	}
-	body.Reader = stash.New(body.Retrieve)
+	body.Reader = stash.New(body.retrieve)
 
 	return body
 }
@@ -104,6 +104,15 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 }
 
 func (b *Body) Retrieve() ([]byte, error) {
+	if pending := b.Reader.Flush(); len(pending) > 0 {
+		// the rest of the piece, which was partially read via the io.Reader interface
+		return pending, nil
+	}
+
+	return b.retrieve()
+}
+
+func (b *Body) retrieve() ([]byte, error) {
 	if b.err != nil {
 		// errors are as final as the end of the body is: the rest of it cannot be read anymore
 		return nil, b.err
diff --git a/internal/stash/reader.go b/internal/stash/reader.go
index d600559..32e5f8f 100644
--- a/internal/stash/reader.go
+++ b/internal/stash/reader.go
@@ -34,6 +34,12 @@ func (r *Reader) refill() {
 	r.pending, r.error = r.source()
 }
 
+// Flush returns the data, which was already obtained from the source, but isn't read yet
+func (r *Reader) Flush() (pending []byte) {
+	pending, r.pending = r.pending, nil
+	return pending
+}
+
 func (r *Reader) Reset() {
 	r.pending = nil
 	r.error = nil
-- 
2.43.0


From 2b8ca26f92a1ca1a68ed15c4d3de13dada8c7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:17 +0000
Subject: [PATCH 16/65] fix: a default header overridden once must appear in
 the following responses

---
 internal/protocol/http1/serializer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..db045de 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,8 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	// headers overridden here aren't overridden in the response following
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
@@ -412,7 +414,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From 578f49a474035eb1a9700cd4c722d15f6fca0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:23 +0000
Subject: [PATCH 17/65] fix: render the custom status text

---
 internal/protocol/http1/serializer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index db045de..8cebeb9 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -134,7 +134,12 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	text := fields.Status
+	if text == "" {
+		text = status.Text(fields.Code)
+	}
+
+	d.buff = append(d.buff, text...)
 	d.crlf()
 }
 
-- 
2.43.0


From 5b3c2d1be88b748dc8802c1afb37915b55281b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:28 +0000
Subject: [PATCH 18/65] fix: standard text of the status code 101

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 827d3f457d9671f3a2fee990af1ef429a12edfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:34 +0000
Subject: [PATCH 19/65] fix: 101 response must name the protocol upgraded to,
 once

---
 internal/protocol/http1/suit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..671a0cf 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From 897d4cc512d965b6f1760deb09aaf29cc2542b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:39 +0000
Subject: [PATCH 20/65] fix: close the connection after an attachment, if it
 isn't keep-alive

---
 internal/protocol/http1/serializer.go | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 8cebeb9..2446905 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -96,26 +96,26 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
-	}
+		err = d.sendAttachment(d.request, response, d.writer)
+	} else {
+		d.renderHeaders(fields)
 
-	d.renderHeaders(fields)
+		for _, c := range fields.Cookies {
+			d.renderCookie(c)
+		}
 
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
-	}
+		d.renderContentLength(int64(len(fields.Body)))
+		d.crlf()
 
-	d.renderContentLength(int64(len(fields.Body)))
-	d.crlf()
+		if d.request.Method != method.HEAD {
+			// HEAD request responses must be similar to GET request responses, except
+			// forced lack of body, even if Content-Length is specified
+			d.buff = append(d.buff, fields.Body...)
+		}
 
-	if d.request.Method != method.HEAD {
-		// HEAD request responses must be similar to GET request responses, except
-		// forced lack of body, even if Content-Length is specified
-		d.buff = append(d.buff, fields.Body...)
+		err = d.writer.Write(d.buff)
 	}
 
-	err = d.writer.Write(d.buff)
-
 	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
 		err = status.ErrCloseConnection
 	}
-- 
2.43.0


From e0fc9361b994d1b488bea10c1b65d154fe5dc4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:44 +0000
Subject: [PATCH 21/65] fix: close the attachment even if it isn't sent

---
 internal/protocol/http1/serializer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 2446905..ceddf14 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -173,6 +173,7 @@ func (d *Serializer) sendAttachment(
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	defer fields.Attachment.Close()
 
 	if size > 0 {
 		d.renderHeaders(fields)
@@ -207,8 +208,6 @@ func (d *Serializer) sendAttachment(
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-- 
2.43.0


From 037f965d8c4939f6ab13dd7809a6d40b9a09b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:50 +0000
Subject: [PATCH 22/65] fix: send cookies of responses with attachments

---
 internal/protocol/http1/serializer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index ceddf14..c39ab60 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -182,6 +182,10 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	for _, c := range fields.Cookies {
+		d.renderCookie(c)
+	}
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
-- 
2.43.0


From 0139c969a45136b8d50220b28bf9c3a85a8ed1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:55 +0000
Subject: [PATCH 23/65] fix: send exactly as many bytes of an attachment as
 announced

---
 internal/protocol/http1/serializer.go | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index c39ab60..f2624a8 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -207,7 +207,7 @@ func (d *Serializer) sendAttachment(
 	}
 
 	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
+		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
@@ -215,25 +215,33 @@ func (d *Serializer) sendAttachment(
 	return err
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+// writePlainBody sends exactly size bytes. If there are fewer of them, the connection must be
+// closed, as the client is already told to expect more
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
+	for size > 0 {
 		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+		if n > size {
+			n = size
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		if n > 0 {
+			if err := writer.Write(d.fileBuff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+
+			size -= n
+		}
+
+		if err != nil && size > 0 {
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From a63c172b3d0341ef1a9d9d9bda3ef589d2268d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:00 +0000
Subject: [PATCH 24/65] fix: don't send chunked bodies to HTTP/1.0 clients

---
 internal/protocol/http1/serializer.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index f2624a8..7ff24e4 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/strcomp"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"time"
 )
@@ -96,7 +97,7 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		err = d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(protocol, d.request, response, d.writer)
 	} else {
 		d.renderHeaders(fields)
 
@@ -169,16 +170,21 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
 // io.Reader implementations
 func (d *Serializer) sendAttachment(
-	request *http.Request, response *http.Response, writer Writer,
+	protocol proto.Proto, request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
 	defer fields.Attachment.Close()
 
-	if size > 0 {
+	switch {
+	case size > 0:
 		d.renderHeaders(fields)
 		d.renderContentLength(int64(size))
-	} else {
+	case protocol == proto.HTTP10:
+		// HTTP/1.0 doesn't know chunked transfer encoding, so the end of the body is marked
+		// by the end of the connection
+		d.renderHeaders(fields)
+	default:
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
@@ -206,9 +212,13 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if fields.Attachment.Size() > 0 {
+	switch {
+	case size > 0:
 		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
-	} else {
+	case protocol == proto.HTTP10:
+		// always ends up with closing the connection
+		err = d.writePlainBody(fields.Attachment.Content(), math.MaxInt, writer)
+	default:
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-- 
2.43.0


From 683c7d40be722a8b7335ba989ff9f39538e53931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:05 +0000
Subject: [PATCH 25/65] fix: an upgrade to an unsupported protocol must not
 keep the connection open

---
 internal/protocol/http1/serializer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 7ff24e4..934222a 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -117,7 +117,7 @@ func (d *Serializer) Write(
 		err = d.writer.Write(d.buff)
 	}
 
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	if !isKeepAlive(protocol, d.request) && d.request.Upgrade&proto.HTTP1 == 0 {
 		err = status.ErrCloseConnection
 	}
 
-- 
2.43.0


From b1ca421239c70151a23cb8378905b4d6944d31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:48 +0000
Subject: [PATCH 26/65] fix: parsing of templates with one-character segments
 and dynamic first segments

---
 router/inbuilt/internal/radix/template.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..6d8b82b 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -62,6 +62,7 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
@@ -96,7 +97,11 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	if state == eDynamic {
+		return template, fmt.Errorf(`"%s": dynamic part isn't closed`, tmpl)
+	}
+
+	if state == eStatic {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From 83edf8ff6544833ada3b204ffdfad64aa1eb3e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 27/65] fix: unregistered root path must yield 404 even if
 there are dynamic routes

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..1a8567b 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
-- 
2.43.0


From fcb9779836740bd86c82e6efe0ca5b700db69aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:58 +0000
Subject: [PATCH 28/65] fix: trailing slashes of one-character paths

---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..db06d3c 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		// nothing but trailing slashes follows the leading character
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From acdaf9717878711a0f1a92a97594d75399818e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:04 +0000
Subject: [PATCH 29/65] fix: TRACE responses must not contain other requests

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..812645a 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among all the connections, so is the buffer if there was any
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From 6bc3e700a71c338c25ecede6a8d7eaa0cff83ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:09 +0000
Subject: [PATCH 30/65] fix: static files: respect group prefixes, whole prefix
 segments and concurrent requests

---
 router/inbuilt/static.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..3385a76 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,25 +4,36 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	dir := withTrailingSlash(path.Join(r.prefix, prefix))
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
-		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		if !strings.HasPrefix(request.Path, dir) || !isSafe(request.Path[len(dir):]) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		// the handler is shared among all the connections, so the path isn't
+		pathReplacer := pathlib.NewPath(dir, root)
+		pathReplacer.Set(request.Path)
+
+		return request.Respond().File(pathReplacer.Relative())
 	}, mwares...)
 }
 
+func withTrailingSlash(path string) string {
+	if strings.HasSuffix(path, "/") {
+		return path
+	}
+
+	return path + "/"
+}
+
 // isSafe checks for path traversal (basically - double dots)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-- 
2.43.0


From f052c72ed61a4544600e32d1fa77803a22f2a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 31/65] fix: serve static files with double dots inside of
 their names

---
 router/inbuilt/static.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 3385a76..2717448 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -34,19 +34,19 @@ func withTrailingSlash(path string) string {
 	return path + "/"
 }
 
-// isSafe checks for path traversal (basically - double dots)
+// isSafe checks for path traversal (basically - double dots as a whole path segment)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-		dot := strings.IndexByte(path, '.')
-		if dot == -1 {
-			return true
+		segment := path
+		if sep := strings.IndexAny(path, `/\`); sep != -1 {
+			segment, path = path[:sep], path[sep+1:]
+		} else {
+			path = ""
 		}
 
-		if dot < len(path)-1 && path[dot+1] == '.' {
+		if segment == ".." {
 			return false
 		}
-
-		path = path[dot+1:]
 	}
 
 	return true
-- 
2.43.0


From 51df2f1d96b9181c51e4b272050510f1f53db0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:46 +0000
Subject: [PATCH 32/65] fix: normalize the requested host the same way the
 registered ones are

---
 router/virtual/internal/domain/normalize.go | 2 +-
 router/virtual/virtual.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/router/virtual/internal/domain/normalize.go b/router/virtual/internal/domain/normalize.go
index 98c04f9..1b08024 100644
--- a/router/virtual/internal/domain/normalize.go
+++ b/router/virtual/internal/domain/normalize.go
@@ -3,7 +3,7 @@ package domain
 import "strings"
 
 func Normalize(domain string) string {
-	if strings.HasPrefix(domain, "www.") {
+	if len(domain) >= len("www.") && strings.EqualFold(domain[:len("www.")], "www.") {
 		domain = domain[len("www."):]
 	}
 
diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From 421f9c0bc05244399de2fbfa3468235ffe9c53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:51 +0000
Subject: [PATCH 33/65] fix: every listener must use its own handler

---
 indi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..c97be90 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,9 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		// each server must use its own source, even though the loop variable is shared
+		src := src
+
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 4a1b4010cd173d6b39c5952520c9998e217dd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:56 +0000
Subject: [PATCH 34/65] fix: close already bound listeners, if another one
 failed to bind

---
 indi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indi.go b/indi.go
index c97be90..368df9d 100644
--- a/indi.go
+++ b/indi.go
@@ -132,6 +132,9 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			// don't leave already bound listeners open
+			tcp.StopAll(servers)
+
 			return nil, err
 		}
 
-- 
2.43.0


From 94b9ccbda041e5259af99e2818fbd6678f7af1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 35/65] fix: refuse non-hexadecimal percent escapes

---
 internal/hexconv/hexconv.go   | 44 +++++++++++++++++------------------
 internal/uridecode/decoder.go |  7 +++++-
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..f9f6376 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -1,28 +1,28 @@
 package hexconv
 
 var decodeTable = [256]byte{
-	'0': 0x0,
-	'1': 0x1,
-	'2': 0x2,
-	'3': 0x3,
-	'4': 0x4,
-	'5': 0x5,
-	'6': 0x6,
-	'7': 0x7,
-	'8': 0x8,
-	'9': 0x9,
-	'a': 0xa,
-	'b': 0xb,
-	'c': 0xc,
-	'd': 0xd,
-	'e': 0xe,
-	'f': 0xf,
-	'A': 0xA,
-	'B': 0xB,
-	'C': 0xC,
-	'D': 0xD,
-	'E': 0xE,
-	'F': 0xF,
+	'0': 0x0 + 1,
+	'1': 0x1 + 1,
+	'2': 0x2 + 1,
+	'3': 0x3 + 1,
+	'4': 0x4 + 1,
+	'5': 0x5 + 1,
+	'6': 0x6 + 1,
+	'7': 0x7 + 1,
+	'8': 0x8 + 1,
+	'9': 0x9 + 1,
+	'a': 0xa + 1,
+	'b': 0xb + 1,
+	'c': 0xc + 1,
+	'd': 0xd + 1,
+	'e': 0xe + 1,
+	'f': 0xf + 1,
+	'A': 0xA + 1,
+	'B': 0xB + 1,
+	'C': 0xC + 1,
+	'D': 0xD + 1,
+	'E': 0xE + 1,
+	'F': 0xF + 1,
 }
 
 // Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..f7ecc59 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,8 +14,13 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		high, low := hexconv.Parse(src[i+1]), hexconv.Parse(src[i+2])
+		if high == 0 || low == 0 {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
-		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
+		buff = append(buff, (high-1)<<4|(low-1))
 		src = src[i+3:]
 	}
 
-- 
2.43.0


From 7ab899be999d4da9c9ee8d1051d935f7b917748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:06 +0000
Subject: [PATCH 36/65] fix: split the query before decoding it and don't
 change the raw query

---
 http/query/internal/parser.go | 80 +++++++++++++++++------------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..f0074d5 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -10,62 +11,57 @@ import (
 // replace empty value (or so-called parameter without value) with the following string
 const defaultEmptyValueContent = "1"
 
+// Parse parses the query. The passed data stays untouched
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
-
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
+	// splitting must be done before decoding, as otherwise encoded delimiters would be
+	// indistinguishable from real ones
+	data = append(make([]byte, 0, len(data)), data...)
 
-	var key string
+	for len(data) > 0 {
+		pair := data
+		if ampersand := bytes.IndexByte(data, '&'); ampersand != -1 {
+			pair, data = data[:ampersand], data[ampersand+1:]
+		} else {
+			data = nil
+		}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+		eq := bytes.IndexByte(pair, '=')
+		if eq == 0 {
+			return status.ErrBadQuery
+		}
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
+		var key string
+		// ignore the fact that the value may be empty. In case there's no equal sign, we
+		// definitely know it's a flag and is supposed to be like that. However, if there's
+		// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+		value := defaultEmptyValueContent
+		if eq != -1 {
+			if value, err = decode(pair[eq+1:]); err != nil {
+				return err
 			}
 
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+			pair = pair[:eq]
+		}
+
+		if key, err = decode(pair); err != nil {
+			return err
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		params.Add(key, value)
+	}
 
 	return nil
+}
 
-parseValue:
-	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
+// decode decodes the data in place
+func decode(data []byte) (string, error) {
+	for i, char := range data {
+		if char == '+' {
 			data[i] = ' '
 		}
 	}
 
-	params.Add(key, uf.B2S(data))
+	data, err := uridecode.Decode(data, data[:0])
 
-	return nil
+	return uf.B2S(data), err
 }
-- 
2.43.0


From 861e677cde8ccdc98b0b738d0ef927a24e6d719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:12 +0000
Subject: [PATCH 37/65] fix: report a malformed query on every access

---
 http/query/query.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..ff1bf91 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -14,6 +14,7 @@ type Params = *keyvalue.Storage
 // by the fact that parameters won't be parsed until requested
 type Query struct {
 	parsed bool
+	err    error
 	params Params
 	raw    []byte
 }
@@ -32,6 +33,7 @@ func (q *Query) Set(raw []byte) {
 
 	if q.parsed {
 		q.parsed = false
+		q.err = nil
 		q.params.Clear()
 	}
 }
@@ -56,7 +58,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -66,10 +72,11 @@ func (q *Query) Raw() []byte {
 
 func (q *Query) parse() error {
 	if q.parsed {
-		return nil
+		return q.err
 	}
 
 	q.parsed = true
+	q.err = internal.Parse(q.raw, q.params)
 
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 96de4bb2500bb0b96ced823268e1a58f8c8dfa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:09 +0000
Subject: [PATCH 38/65] fix: escape every byte of a non-UTF8 path

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From 229ce3756ff9fafaa537acaa64dc233bf108675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:14 +0000
Subject: [PATCH 39/65] fix: config.Fill must not drop CookiesPreAllocate

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d2c8e39..44f7a91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -194,8 +194,9 @@ func Fill(src Config) (new Config) {
 				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),
 				Maximal: numOr(src.Headers.ValueSpace.Maximal, defaults.Headers.ValueSpace.Maximal),
 			},
-			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
-			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			MaxEncodingTokens:  numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
+			Default:            mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From d7682d2e94c75a22fe3507d3c2e6d5a6efefeb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:20 +0000
Subject: [PATCH 40/65] fix: a cloned storage must not share memory with the
 original

---
 internal/keyvalue/storage.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..f43ab0e 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -147,11 +148,17 @@ func (s *Storage) Len() int {
 // Clone creates a deep copy, which may be used later or stored somewhere safely. However,
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
-	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+	pairs := clone(s.pairs)
+
+	// the strings may refer to buffers, which are going to be overwritten
+	for i, pair := range pairs {
+		pairs[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
 	}
+
+	return &Storage{pairs: pairs}
 }
 
 // Unwrap reveals underlying data structure. Try to avoid the method if possible, as
-- 
2.43.0


From c19765c63ff6444c2266ee9bc0f1dc321705f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:25 +0000
Subject: [PATCH 41/65] fix: don't lose data read together with an error

---
 internal/tcp/client.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..10b9c36 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -18,6 +18,7 @@ type client struct {
 	conn    net.Conn
 	buff    []byte
 	pending []byte
+	readErr error
 	timeout time.Duration
 }
 
@@ -40,11 +41,19 @@ func (c *client) Read() ([]byte, error) {
 		return pending, nil
 	}
 
+	if c.readErr != nil {
+		return nil, c.readErr
+	}
+
 	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
 		return nil, err
 	}
 
 	n, err := c.conn.Read(c.buff)
+	if n > 0 && err != nil {
+		// the data must be processed first. The error is reported by the next call
+		c.readErr, err = err, nil
+	}
 
 	return c.buff[:n], err
 }
-- 
2.43.0


From 88986ffa95e875607c6eeff925f8d16229bc2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:30 +0000
Subject: [PATCH 42/65] fix: LogRequests and ServerHeader must survive a nil
 response

---
 router/inbuilt/middleware/logging.go      | 4 ++++
 router/inbuilt/middleware/serverheader.go | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..c297262 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -18,6 +18,10 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
 		response := next(request)
+		if response == nil {
+			response = http.Respond(request)
+		}
+
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..9062a80 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,11 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
-			Header("Server", value)
+		response := next(request)
+		if response == nil {
+			response = http.Respond(request)
+		}
+
+		return response.Header("Server", value)
 	}
 }
-- 
2.43.0


From 4bba5ec8da1fa8ffab11b4c228f3ecbc85895ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:36 +0000
Subject: [PATCH 43/65] fix: close the file if it can't be sent

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..417e34e 100644
--- a/http/response.go
+++ b/http/response.go
@@ -132,10 +132,14 @@ func (r *Response) TryFile(path string) (*Response, error) {
 
 	stat, err := fd.Stat()
 	if err != nil {
+		_ = fd.Close()
+
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
+
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From 8c454c3034b9c41f9410db0eb9d7090407b43652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:41 +0000
Subject: [PATCH 44/65] fix: escape the path in the HTTPSOnly redirect

---
 router/inbuilt/middleware/httpsonly.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..5d41d3a 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -38,13 +39,14 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 			}
 		}
 
-		host += ":" + params.Port
+		path := request.Path
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
-		} else {
-			host += request.Path
+			path = request.Env.AliasFrom
 		}
 
+		// the path is already decoded, so may contain any characters, including CR and LF
+		host += ":" + params.Port + (&url.URL{Path: path}).EscapedPath()
+
 		return request.Respond().
 			Code(status.MovedPermanently).
 			Header("Location", "https://"+host)
-- 
2.43.0


From 7332060c2fba5bf3d366417941f394a1ce7c5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:47 +0000
Subject: [PATCH 45/65] fix: a JSON response must not overwrite the previous
 body's memory

---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index 417e34e..2cd909b 100644
--- a/http/response.go
+++ b/http/response.go
@@ -178,7 +178,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the body may be a string or a slice passed by user, so must not be overwritten
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From 1c093ffd4716fa80f7f7b344b33ee9df2680707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:52 +0000
Subject: [PATCH 46/65] fix: the protocol version must contain a dot

---
 http/proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..c4cf693 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,8 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme ||
+		raw[minorVersionOffset-1] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From a3f7f0307a3cd6d213bc69f709bdf65a20b6fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:58 +0000
Subject: [PATCH 47/65] fix: accept only complete JSON documents

---
 http/request.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/http/request.go b/http/request.go
index a4112c7..63b574d 100644
--- a/http/request.go
+++ b/http/request.go
@@ -108,12 +108,7 @@ func (r *Request) JSON(model any) error {
 		return err
 	}
 
-	iterator := json.ConfigDefault.BorrowIterator(data)
-	iterator.ReadVal(model)
-	err = iterator.Error
-	json.ConfigDefault.ReturnIterator(iterator)
-
-	return err
+	return json.ConfigDefault.Unmarshal(data, model)
 }
 
 // Cookies returns a cookie jar with parsed cookies key-value pairs, and an error
-- 
2.43.0


From 9a7f251eaf5894ac103223d43d25080d20c66a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:03 +0000
Subject: [PATCH 48/65] fix: refuse cookies without a value in front of others

---
 http/cookie/jar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/cookie/jar.go b/http/cookie/jar.go
index eadfe2f..73b4588 100644
--- a/http/cookie/jar.go
+++ b/http/cookie/jar.go
@@ -33,7 +33,7 @@ func Parse(jar Jar, data string) (err error) {
 		key := data[:eq]
 		data = data[eq+1:]
 
-		if len(key) == 0 {
+		if len(key) == 0 || strings.IndexByte(key, ';') != -1 {
 			return ErrBadCookie
 		}
 
-- 
2.43.0


From 26f4c08a10c51d0749fffba1b938404b099a83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:08 +0000
Subject: [PATCH 49/65] fix: find header parameters preceded by whitespaces

---
 http/headers/valueaccessors.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/http/headers/valueaccessors.go b/http/headers/valueaccessors.go
index c103137..00d80fa 100644
--- a/http/headers/valueaccessors.go
+++ b/http/headers/valueaccessors.go
@@ -51,13 +51,22 @@ func ParamOfOr(str, key, or string) string {
 }
 
 func getParam(str, substr, or string) string {
-	if index := strings.Index(str, substr); index != -1 {
-		valOffset := index + len(substr)
+	// there may be whitespaces between the semicolon and the parameter
+	param := substr[1:]
 
-		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
-	}
+	for {
+		semicolon := strings.IndexByte(str, ';')
+		if semicolon == -1 {
+			return or
+		}
+
+		str = strings.TrimLeft(str[semicolon+1:], " \t")
+		if strings.HasPrefix(str, param) {
+			str = str[len(param):]
 
-	return or
+			return str[:getParamEnd(str)]
+		}
+	}
 }
 
 func getParamEnd(str string) int {
-- 
2.43.0


From 614f1c3d2cf526bfad56f55987d268274e69c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:13 +0000
Subject: [PATCH 50/65] fix: call OnStop only when connections accepted at the
 last moment are done

---
 indi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/indi.go b/indi.go
index 368df9d..3eedff7 100644
--- a/indi.go
+++ b/indi.go
@@ -9,6 +9,7 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
+	"sync"
 	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
@@ -155,11 +156,17 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	var (
+		failSilently atomic.Bool
+		acceptLoops  sync.WaitGroup
+	)
+
+	acceptLoops.Add(len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
 			err := server.Start()
+			acceptLoops.Done()
 
 			if failSilently.Swap(true) {
 				return
@@ -177,6 +184,9 @@ func (a *App) run(servers []*tcp.Server) error {
 	}
 
 	tcp.StopAll(servers)
+	// a connection could be accepted right before the socket was closed
+	acceptLoops.Wait()
+	tcp.WaitAll(servers)
 	callIfNotNil(a.hooks.OnStop)
 
 	return err
-- 
2.43.0


From 6444e92db4defb146a9cca945242e36a8e7db0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:19 +0000
Subject: [PATCH 51/65] fix: don't serve a connection accepted after the
 graceful shutdown

---
 internal/tcp/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..628b47e 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -41,6 +41,12 @@ func (s *Server) Start() error {
 			return err
 		}
 
+		if s.shutdown.Load() {
+			// too late, no new connections are allowed anymore
+			_ = conn.Close()
+			break
+		}
+
 		s.wg.Add(1)
 		go s.connHandler(conn)
 	}
-- 
2.43.0


From a29ccc3812ca73f7b82138b2671865dc21dfc026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 52/65] fix: only blanks may surround a transfer coding

---
 internal/protocol/http1/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 33bf1f6..1914019 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -467,7 +467,8 @@ func parseEncodingString(buff []string, value string, maxTokens int) (toks []str
 			token, value = value[:comma], value[comma+1:]
 		}
 
-		token = strings.TrimSpace(token)
+		// other whitespace characters are not allowed here, so must not be hidden
+		token = strings.Trim(token, " \t")
 		if len(token) == 0 {
 			continue
 		}
-- 
2.43.0


From 5aacee0f0c7194b9e4a42c5d618da11848187806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:46 +0000
Subject: [PATCH 53/65] fix: the body of a request was accessible while
 handling an error in the next one

---
 http/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/request.go b/http/request.go
index 63b574d..f371936 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,6 +180,9 @@ func (r *Request) Clear() (err error) {
 	r.Ctx = zeroContext
 	// the encryption is a property of the whole connection
 	r.Env = Environment{Encryption: r.Env.Encryption}
+	// otherwise the body stays accessible until the next request is completely parsed, which
+	// won't happen if the request is malformed
+	r.Body.Init(r)
 
 	return nil
 }
-- 
2.43.0


From 488887506b82d58bbbab39441271106e4733c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:32 +0000
Subject: [PATCH 54/65] fix: stopping crashed if a connection was accepted
 meanwhile

---
 internal/tcp/server.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index 628b47e..b3cd8c3 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -14,17 +14,24 @@ type Deadliner interface {
 }
 
 type Server struct {
-	wg       *sync.WaitGroup
+	// conns is the number of connections being served. A sync.WaitGroup isn't suitable here,
+	// because new connections may still be accepted while the server is waited for
+	conns    int
+	connsMu  *sync.Mutex
+	noConns  *sync.Cond
 	sock     net.Listener
 	onConn   OnConn
 	shutdown atomic.Bool
 }
 
 func NewServer(sock net.Listener, onConn OnConn) *Server {
+	connsMu := new(sync.Mutex)
+
 	return &Server{
-		wg:     new(sync.WaitGroup),
-		sock:   sock,
-		onConn: onConn,
+		connsMu: connsMu,
+		noConns: sync.NewCond(connsMu),
+		sock:    sock,
+		onConn:  onConn,
 	}
 }
 
@@ -47,7 +54,7 @@ func (s *Server) Start() error {
 			break
 		}
 
-		s.wg.Add(1)
+		s.addConns(1)
 		go s.connHandler(conn)
 	}
 
@@ -72,13 +79,28 @@ func (s *Server) Pause() {
 
 // Wait blocks the caller until all the connections are closed
 func (s *Server) Wait() {
-	s.wg.Wait()
+	s.connsMu.Lock()
+	defer s.connsMu.Unlock()
+
+	for s.conns > 0 {
+		s.noConns.Wait()
+	}
+}
+
+func (s *Server) addConns(n int) {
+	s.connsMu.Lock()
+	defer s.connsMu.Unlock()
+
+	s.conns += n
+	if s.conns == 0 {
+		s.noConns.Broadcast()
+	}
 }
 
 func (s *Server) connHandler(conn net.Conn) {
 	s.onConn(conn)
 	_ = conn.Close()
-	s.wg.Done()
+	s.addConns(-1)
 }
 
 func StopAll(servers []*Server) {
-- 
2.43.0


From 463626d5b1e3d84ab2feb8120eedc07111b85630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:29 +0000
Subject: [PATCH 55/65] fix: serving static files from an unnamed root crashed
 on requests

---
 router/inbuilt/static.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 2717448..3f38275 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -12,6 +12,9 @@ import (
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
 	dir := withTrailingSlash(path.Join(r.prefix, prefix))
+	if len(root) == 0 {
+		root = "."
+	}
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
 		if !strings.HasPrefix(request.Path, dir) || !isSafe(request.Path[len(dir):]) {
-- 
2.43.0


From 60201fb73ccf7d8ba09d29075bac962dd3ded744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 56/65] fix: a path made empty by a mutator crashed the dynamic
 routing

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index 1a8567b..bc7a0a4 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -85,7 +85,7 @@ func (n *Node) insertRecursively(segments []Segment, payload *Payload) error {
 }
 
 func (n *Node) Match(path string, params Params) *Payload {
-	if path[0] != '/' {
+	if len(path) == 0 || path[0] != '/' {
 		// all http request paths MUST have a leading slash
 		return nil
 	}
-- 
2.43.0


From 7c553bee999e2befdbd8869c26cd64a8a41505fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 57/65] fix: setting Content-Type or Transfer-Encoding to no
 values crashed

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index 2cd909b..97f78ab 100644
--- a/http/response.go
+++ b/http/response.go
@@ -73,6 +73,10 @@ func (r *Response) TransferEncoding(value string) *Response {
 // Header sets header values to a key. In case it already exists the value will
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
+	if len(values) == 0 {
+		return r
+	}
+
 	switch {
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
-- 
2.43.0


From 45c2fe1f9ba14711355677fd11a6928a8a04881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 58/65] fix: initializing a router more than once crashed or
 doubled its middlewares

---
 router/inbuilt/inbuilt.go   | 21 +++++++++++++++++++++
 router/inbuilt/registrar.go | 14 ++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 812645a..40b37a4 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -56,6 +56,9 @@ type runtimeRouter struct {
 }
 
 func (r *Router) Initialize() router.Router {
+	// the router may be initialized multiple times, e.g. if shared among virtual hosts, so
+	// the original one must stay untouched
+	r = r.clone()
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
@@ -86,6 +89,24 @@ func (r *Router) Initialize() router.Router {
 	}
 }
 
+func (r *Router) clone() *Router {
+	cloned := *r
+	cloned.mutators = append([]Mutator(nil), r.mutators...)
+	cloned.catchers = append([]Catcher(nil), r.catchers...)
+	cloned.registrar = r.registrar.Clone()
+	cloned.errHandlers = make(errorHandlers, len(r.errHandlers))
+	for code, handler := range r.errHandlers {
+		cloned.errHandlers[code] = handler
+	}
+
+	cloned.children = make([]*Router, 0, len(r.children))
+	for _, child := range r.children {
+		cloned.children = append(cloned.children, child.clone())
+	}
+
+	return &cloned
+}
+
 // OnRequest processes the request
 func (r *runtimeRouter) OnRequest(request *http.Request) *http.Response {
 	r.runMutators(request)
diff --git a/router/inbuilt/registrar.go b/router/inbuilt/registrar.go
index 7aafc8d..98dee28 100644
--- a/router/inbuilt/registrar.go
+++ b/router/inbuilt/registrar.go
@@ -59,6 +59,20 @@ func (r *registrar) Merge(another *registrar) error {
 	return nil
 }
 
+func (r *registrar) Clone() *registrar {
+	cloned := *r
+	cloned.routes = make(map[string]map[method.Method]Handler, len(r.routes))
+
+	for path, v := range r.routes {
+		cloned.routes[path] = make(map[method.Method]Handler, len(v))
+		for method_, handler := range v {
+			cloned.routes[path][method_] = handler
+		}
+	}
+
+	return &cloned
+}
+
 func (r *registrar) Apply(f func(handler Handler) Handler) {
 	for _, v := range r.routes {
 		for key, handler := range v {
-- 
2.43.0


From 55e15586246088f6bdacac23ef7d7410beb3a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:19 +0000
Subject: [PATCH 59/65] fix: a huge Content-Length crashed the server if the
 body size limit is huge, too

---
 internal/protocol/http1/body.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8effe47..8470504 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -14,6 +14,10 @@ import (
 
 var _ http.Body = &Body{}
 
+// maxBodyPreAlloc limits the memory, which is allocated for the whole body in advance, because
+// the body may turn out to be much shorter than the client has told
+const maxBodyPreAlloc = 1 << 20
+
 type Body struct {
 	*stash.Reader
 	plain         plainBodyReader
@@ -64,7 +68,7 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && b.contentLength <= maxBodyPreAlloc {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
-- 
2.43.0


From ecccfde0d7d4aa6cc1c7b8e55a9fcc96826d750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:21 +0000
Subject: [PATCH 60/65] fix: an application served again ended at once by an
 error of the previous time

---
 indi.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/indi.go b/indi.go
index 3eedff7..3f09ada 100644
--- a/indi.go
+++ b/indi.go
@@ -10,7 +10,6 @@ import (
 	"log"
 	"net"
 	"sync"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -156,28 +155,29 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var (
-		failSilently atomic.Bool
-		acceptLoops  sync.WaitGroup
-	)
+	var acceptLoops sync.WaitGroup
 
 	acceptLoops.Add(len(servers))
+	// only the first error matters. Others must neither block nor be mistaken for an error of
+	// the application started again
+	serveErrs := make(chan error, len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
 			err := server.Start()
 			acceptLoops.Done()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			serveErrs <- err
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
-	err := <-a.errCh
+
+	var err error
+	select {
+	case err = <-a.errCh:
+	case err = <-serveErrs:
+	}
+
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
-- 
2.43.0


From e6b5ea0d735ff348b8e8265e61c5182431628879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 61/65] fix: stopping an application from its start callback or
 repeatedly blocked forever

---
 indi.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/indi.go b/indi.go
index 3f09ada..c2cdcdf 100644
--- a/indi.go
+++ b/indi.go
@@ -27,8 +27,9 @@ type App struct {
 // New returns a new App instance.
 func New(addr string) *App {
 	app := &App{
-		cfg:   config.Default(),
-		errCh: make(chan error),
+		cfg: config.Default(),
+		// one place is enough, as there's nothing to stop after the first stop
+		errCh: make(chan error, 1),
 	}
 
 	return app.Listen(addr)
@@ -189,6 +190,12 @@ func (a *App) run(servers []*tcp.Server) error {
 	tcp.WaitAll(servers)
 	callIfNotNil(a.hooks.OnStop)
 
+	select {
+	case <-a.errCh:
+		// the application was stopped repeatedly, which must not stop it when it's started again
+	default:
+	}
+
 	return err
 }
 
@@ -197,7 +204,7 @@ func (a *App) run(servers []*tcp.Server) error {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will be still working
 func (a *App) GracefulStop() {
-	a.errCh <- status.ErrGracefulShutdown
+	a.stop(status.ErrGracefulShutdown)
 }
 
 // Stop stops the whole application immediately.
@@ -205,7 +212,15 @@ func (a *App) GracefulStop() {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will still be working
 func (a *App) Stop() {
-	a.errCh <- status.ErrShutdown
+	a.stop(status.ErrShutdown)
+}
+
+func (a *App) stop(reason error) {
+	select {
+	case a.errCh <- reason:
+	default:
+		// the application is going to be stopped already
+	}
 }
 
 func (a *App) newHTTPHandler(enc encryption.Token) listenerHandler {
-- 
2.43.0


From 34456e898dd1b94e1fdc3ae27197840657161418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:36 +0000
Subject: [PATCH 62/65] fix: replace an unusable self-signed certificate left
 in the cache

An interrupted generation leaves an empty or truncated certificate or key
behind. Their mere existence was taken for a usable pair, so every later
start failed until the files were removed by hand.
---
 https.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/https.go b/https.go
index 6891b9e..9468f74 100644
--- a/https.go
+++ b/https.go
@@ -161,12 +161,10 @@ func mkdirIfNotExists(dir string) error {
 	return os.MkdirAll(dir, 0700)
 }
 
+// certExists tells whether there is a usable pair. Files left behind by an interrupted
+// generation, or not belonging together, don't count.
 func certExists(cert, key string) bool {
-	return fileExists(cert) && fileExists(key)
-}
-
-func fileExists(filename string) bool {
-	stat, err := os.Stat(filename)
+	_, err := tls.LoadX509KeyPair(cert, key)
 
-	return err == nil && !stat.IsDir()
+	return err == nil
 }
-- 
2.43.0


From e621091b13213514045078a5be9008d8c853147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:10 +0000
Subject: [PATCH 63/65] fix: keep the self-signed private key readable by its
 owner only

---
 https.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/https.go b/https.go
index 9468f74..4784eba 100644
--- a/https.go
+++ b/https.go
@@ -134,7 +134,7 @@ func generateSelfSignedCert() (cert, key string, err error) {
 		return "", "", err
 	}
 
-	keyFile, err := os.Create(keyFilename)
+	keyFile, err := os.OpenFile(keyFilename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		return "", "", err
 	}
-- 
2.43.0


From c2c9de38b2bd011cb91316419c604ec1dd820ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:17 +0000
Subject: [PATCH 64/65] fix: refuse JSON documents followed by NUL bytes

---
 http/request.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index f371936..b6ab14a 100644
--- a/http/request.go
+++ b/http/request.go
@@ -14,6 +14,7 @@ import (
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/tcp"
 	json "github.com/json-iterator/go"
+	"io"
 	"net"
 )
 
@@ -108,7 +109,20 @@ func (r *Request) JSON(model any) error {
 		return err
 	}
 
-	return json.ConfigDefault.Unmarshal(data, model)
+	iterator := json.ConfigDefault.BorrowIterator(data)
+	defer json.ConfigDefault.ReturnIterator(iterator)
+	iterator.ReadVal(model)
+
+	// Unmarshal isn't used, as it doesn't tell a NUL byte from the end of the data
+	if iterator.WhatIsNext(); iterator.Error == nil {
+		iterator.ReportError("JSON", "there are bytes left after the document")
+	}
+
+	if iterator.Error != io.EOF {
+		return iterator.Error
+	}
+
+	return nil
 }
 
 // Cookies returns a cookie jar with parsed cookies key-value pairs, and an error
-- 
2.43.0


From c00b432d9da9128d041eabcf07d67c831a4fa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:23 +0000
Subject: [PATCH 65/65] fix: a new private key must not take over the mode of
 the file left behind

---
 https.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/https.go b/https.go
index 4784eba..092b993 100644
--- a/https.go
+++ b/https.go
@@ -140,6 +140,11 @@ func generateSelfSignedCert() (cert, key string, err error) {
 	}
 	defer keyFile.Close()
 
+	// the file may be left behind by an interrupted generation, in this case its mode is kept
+	if err = keyFile.Chmod(0600); err != nil {
+		return "", "", err
+	}
+
 	privBytes, err := x509.MarshalPKCS8PrivateKey(priv)
 	if err != nil {
 		return "", "", err
-- 
2.43.0

