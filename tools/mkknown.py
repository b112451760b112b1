#!/usr/bin/env python3
"""Regenerates known_findings.jsonl: open findings and the repaired ones."""
import json, pathlib

OPEN = [dict(id="F31", property="C08", status="open",
             what="a cookie's MaxAge is rendered as the attribute \"MaxAge\" instead of \"Max-Age\" (serializer.go renderCookie), which clients ignore; the repository's own serializer test asserts the wrong name, so it can't be repaired without editing that test")]
FIXED = """
C01 b721a41 the URI limit depended on how the method was split into reads
C03 888f995 panic on a request line ending with a space and a bare LF
C03 121f022 panic on an empty header value ended by a bare LF
C03 660abe1 a protocol other than HTTP/1.x was answered by a malformed response
C07 3fe0c03 empty, overflowing, broken and conflicting Content-Length values were accepted
C04 6db81a0 header names weren't validated and their maximal length wasn't enforced
C07 0f36e5f repeated Transfer-Encoding headers were merged wrongly, ambiguous ones accepted
C05 cccc38a the encryption mark was lost after the first request of a connection
C05 b3cb104 a malformed request was answered using the previous request's method and protocol
C04 ab00293 memory for the announced body length was allocated before checking the limit
C06 c4cf06d a connection closed in the middle of a body looked like the end of the body
C06 2db9102 the error of a failed body was forgotten and the connection went on
C06 b807598 Body.Bytes returned the previous request's body
C06 97c623e the body callback was called without data
C06 3af0990 bytes were lost when a partially read body was read by other means
C08 2b8ca26 a default header overridden once was missing in all following responses
C08 578f49a the custom status text wasn't rendered
C25 5b3c2d1 the status text of 101 was wrong
C28 827d3f4 the 101 response named the wrong protocol and piled up
C10 897d4cc the connection stayed open after an attachment though close was requested
C09 e0fc936 an attachment that wasn't sent (HEAD, failures) was never closed
C09 037f965 cookies of responses with attachments weren't sent
C09 0139c96 more or fewer bytes than announced were sent of an attachment
C09 a63c172 chunked bodies were sent to HTTP/1.0 clients
C10 683c7d4 an upgrade to an unsupported protocol kept the connection open
C11 b1ca421 templates with one-character segments and dynamic first segments were parsed wrongly
C11 83edf8f an unregistered root path didn't yield 404 when there were dynamic routes
C11 fcb9779 trailing slashes of one-character paths
C31 acdaf97 TRACE responses contained other requests
C14 6bc3e70 static files ignored group prefixes, matched partial prefix segments and raced
C14 f052c72 static files with double dots inside of their names were refused
C16 51df2f1 the requested host wasn't normalized the way the registered ones are
C24 421f9c0 all listeners used the last one's handler
C23 4a1b401 bound listeners stayed open when another one failed to bind
C17 94b9ccb non-hexadecimal percent escapes were decoded to something
C18 7ab899b the query was decoded before being split, and the raw query was changed
C18 861e677 a malformed query was reported only once
C30 96de4bb bytes of non-UTF8 paths were dropped by escaping
C22 229ce37 config.Fill dropped CookiesPreAllocate
C20 d7682d2 a cloned storage shared memory with the original
C32 c19765c data read together with an error was lost
C27 88986ff LogRequests and ServerHeader panicked on a nil response
C09 4bba5ec a file that couldn't be sent stayed open
C27 8c454c3 HTTPSOnly put decoded client bytes into the Location header
C33 7332060 a JSON response overwrote the memory of the previous body
C25 1c093ff a protocol version without a dot was accepted
C33 a3f7f03 text after a JSON document was ignored
C19 9a7f251 a cookie without a value in front of others was merged into the next one
C21 26f4c08 header parameters preceded by whitespace weren't found
C23 614f1c3 OnStop was called before connections accepted at the last moment were done
C23 6444e92 a connection accepted after the graceful shutdown was served
C07 a29ccc3 control bytes around a transfer coding were ignored
C05 5aacee0 the body of a request was accessible while handling an error in the next one
C23 4888875 stopping crashed (misuse of a WaitGroup) if a connection was accepted meanwhile
C14 463626d requests for files served from an unnamed root ("") crashed the server (formerly registering one did)
C35 60201fb a mutator making the path empty crashed the server if there are dynamic routes
C08 7c553be setting Content-Type or Transfer-Encoding to no values crashed
C12 45c2fe1 initializing a router more than once (e.g. one shared by virtual hosts) crashed if it had groups, otherwise ran its middlewares repeatedly
C03 55e1558 a huge Content-Length crashed the process if the configured body size limit is huge, too
C23 ecccfde a stopped application, when served again, ended at once by a stale error; every stop leaked a goroutine
C23 e6b5ea0 Stop and GracefulStop blocked forever if called from OnStart, repeatedly or after the end
C39 34456e8 an empty, truncated or mismatching self-signed certificate left in the cache by an interrupted start made every later start fail
C39 e621091 the private key of the self-signed certificate could be read by others if the cache directory can
C33 c2c9de3 a JSON document followed by a NUL byte, and anything after it, was accepted
C39 c00b432 a new private key written over a file left behind by an interrupted start kept that file's mode, readable by others
"""
out = []
for o in OPEN:
    out.append(o)
for line in FIXED.strip().splitlines():
    prop, commit, what = line.split(" ", 2)
    out.append(dict(id="fix-" + commit, property=prop, status="fixed", commit=commit, what=what,
                    record="fixed: property=%s %s %s" % (prop, commit, what)))
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.jsonl"
p.write_text("".join(json.dumps(o) + "\n" for o in out))
