#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: the findings recorded (known:) and the defects repaired (fixed:)."""
import os, subprocess
log = subprocess.run(["git","-C","/repo","log","--format=%h\t%s","--reverse"],capture_output=True,text=True).stdout.splitlines()
prop = {  # start of the subject -> (property, what failed)
"let a body be discarded when more was read": ("C30","Body::ensure_read panicked (subtraction with overflow; the worker thread with it) when more was read from a body than its content length, as a handler can cause, and a second call read on behind the body"),
"normalise the path of a request in time": ("C28","GET with a long name followed by many /b/.. segments (1 MB) kept a core busy for 30 s"),
"reject a header line without a colon": ("C07","a header line without ':' made the parser panic (index out of bounds), which ended the worker thread"),
"do not loop forever when the input ends inside": ("C07","a connection closed inside the header section made the parser loop forever, burning a core"),
"treat header names as case insensitive": ("C05","'content-length: 5' was not recognised, so the body was interpreted as the next request"),
"accept empty header values": ("C02","'X-A:' was refused and trailing white space was kept in header values"),
"read non ASCII header values": ("C08","a non-ASCII header value was read as another one than written"),
"write the whole start line": ("C08","the start line was cut when the destination accepted fewer bytes than given"),
"reject control characters in the request target": ("C04","'GET /\\r\\nX: y HTTP/1.1' ran the handler with a target containing line breaks"),
"reject requests whose HTTP version": ("C04","'GET / FOO/1.1' ran the handler"),
"accept only digits in Content-Length": ("C05","'Content-Length: +5' was accepted"),
"do not accept a plus sign in the HTTP version": ("C04","'HTTP/+1.1' was accepted"),
"reading a body cut short": ("C22","a body shorter than its Content-Length was read as if it was complete"),
"write exactly content_length bytes": ("C06","a body source longer than announced overran the response, a shorter one left the connection open with a truncated body, and an error while flushing a body over 2 MiB was swallowed"),
"always write exactly one Content-Length": ("C06","Response::from_str and from_status were sent without Content-Length on kept-alive connections, or with two of them"),
"recognise the Connection options": ("C12","'Connection: Close' and 'Connection: x, close' did not close the connection"),
"do not write a second Content-Length in a request": ("C08","a request without body but with a Content-Length header was written with two of them"),
"limit the size of the head": ("C04","a head that never ends was read into memory without limit"),
"serve pipelined requests": ("C01","requests pipelined in one segment were lost (the reader of each request discarded what it had buffered), and unread or moved-out bodies were taken for requests (C03)"),
"do not send a body in the responses to HEAD": ("C06","the response to a HEAD request carried a body, which a client takes for the next response"),
"do not truncate to seconds the time": ("C16","the read timeout did not bound a client that trickles bytes, and sub-second timeouts were ignored"),
"read the data already received before waiting": ("C20","data already decrypted was not read until more data arrived, so a TLS request hung; an interrupted poll failed the request (C25)"),
"apply the write timeout to the whole write": ("C17","a client draining a few bytes at a time held its worker forever; an interrupted write failed the response (C25)"),
"wait until all the data of a response is flushed": ("C20","the last bytes of a large response over TLS were lost when the socket was full"),
"survive a panic in an action": ("C15","each panicking handler ended a worker thread; after enough of them the server accepted but served nothing"),
"a failure creating a TLS stream": ("C20","a failure to create a TLS stream ended the accept thread with a panic"),
"do not stop the server on transient errors": ("C25","EMFILE, ECONNABORTED or EINTR in accept ended the server"),
"a shutdown must not interrupt the requests": ("C18","shutdown closed the connections of requests being processed, whose responses were lost"),
"read a private key that is not the first item of its file": ("C20","a PEM file with the certificate before the key was refused: no private key found"),
"do not burn CPU writing to a TLS stream": ("C20","a stalled TLS handshake made a worker spin"),
"do not stop accepting connections while rejecting": ("C13","refusing a connection under overload blocked the accept thread (a stalled TLS client stopped the server)"),
"route only to handlers of the path": ("C09","a route was matched by a prefix within a segment, and by routes of other methods"),
"do not treat the query of a request": ("C10","'/a?x=/../b' was routed, normalised and served as if the query was part of the path"),
"serve only regular files inside": ("C11","'..', absolute paths and symbolic links led outside the served directory, a FIFO blocked the worker, and a missing directory panicked"),
"open the file that was checked": ("C11","a symbolic link in the served directory that was changed between the check and the opening gave away a file outside of it"),
"announce the length of the file": ("C11","the length announced was read before the file was opened, so a file replaced meanwhile was sent with a wrong length"),
"reuse a client connection only if": ("C21","the client reused connections whose response was not consumed, or that either side had asked to close"),
"do not block all the requests of a client": ("C21","a connection attempt held the lock of the pool, so one unreachable server blocked every call of the client"),
"do not use pooled connections already closed": ("C21","a pooled connection the server had closed made the next call fail"),
"keep the connection just used when the pool is full": ("C23","a full pool dropped the connection that was just used instead of the least recently used one"),
"the client must not wait for a body": ("C21","the client waited for a body in the response to a HEAD request"),
"do not reuse a client connection while its body": ("C21","a body taken out of a response was still being read from a connection that the client used for its next request"),
"find headers by name in constant time": ("C04","a request with many distinct headers took quadratic time to parse"),
"reject an invalid private key": ("C24","run_tls succeeded with an unusable private key and then failed every connection"),
"do not serve a directory that does not exist": ("C26","wrustatic started with a directory that does not exist"),
"accept responses with an empty reason": ("C21","a response with an empty reason phrase was refused"),
"do not reset a connection whose last response": ("C12","a large response was cut by a reset when the client had sent more behind its last request"),
"do not reset the connections of the last responses": ("C18","the response of a request being processed at shutdown was cut by a reset when the client had pipelined more requests"),
"bound the time spent on rejecting a connection": ("C18","a few clients that stalled their TLS handshake beyond the capacity blocked the accept thread and a shutdown for the whole write timeout"),
"do not delay the last bytes of a response": ("C13","the end of a 503 was sometimes lost: held back by Nagle's algorithm and dropped by the reset that followed"),
"running a server without free file": ("C25","run panicked when the process had no file descriptors left"),
"refuse status codes that cannot be sent": ("C26","wrusdummy served responses with a status of one, two, four or five digits, which no client can read"),
"tell a HEAD request by the method that was received": ("C06","the response to a HEAD request had a body when the handler had changed the method of the request"),
"close the connection after a response that carries": ("C12","a connection was kept open after a response in which the handler had set Connection: close"),
"accept only digits in the status code": ("C22","a status code of '+20' was accepted"),
}
more = [l.strip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"known_more.txt"))] if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)),"known_more.txt")) else []
for l in more:
    if l.startswith("map:"):
        k, pid, w = [x.strip() for x in l[4:].split("|")]
        prop[k] = (pid, w)
out = ["# known: property=<id> sig=<signature> <what fails>   recorded, not repaired: reported as KNOWN-FINDING by the check",
"# fixed: property=<id> <commit> <what failed>              repaired in /repo: suppresses nothing",
"known: property=C08 sig=request-from-content-without-length Request::from(content, ..) writes the body without any Content-Length, so it is read back as a request without body (the existing test http_request_write requires exactly these bytes)"]
out += [l for l in more if l.startswith("known:")]
for l in log:
    h, s = l.split("\t",1)
    if s.startswith("fix: "):
        m = [v for k,v in prop.items() if s[5:].startswith(k)]
        assert m, s
        out.append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(D,"known_findings.txt"),"w").write("\n".join(out)+"\n")
print(len(out))
