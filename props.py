"""Registry: property -> symbolic runs.  params are read by the harness through sys::param(i); tags
are the label prefixes of the checks a property owns (a panic, trap, unbounded allocation or
non-termination on any path counts for every property whose runs reach it)."""
PROPS = {}


def prop(pid, tags, runs, assumptions=(), crate='harness'):
    PROPS[pid] = {'runs': runs, 'tags': list(tags), 'assumptions': list(assumptions), 'crate': crate}


def run(entry, params, bounds, covers=(), **kw):
    return dict(entry=entry, params=params, bounds=bounds, covers=list(covers), **kw)


T = dict(thorough=True)
WS_ASSUME = ['the transport is the model of the lunatic networking host in harness/src/host.rs (reads deliver any non-zero part of what is left, writes accept any non-zero part, both may fail)']
ANYB = 'every byte string of 0..=%d bytes received by a WebSocket, as fast as it is read, then end of stream or a read error; up to %d messages taken, then close()'
FRMS = 'every sequence of %d complete masked frames, any header byte, payload length 0..=%d, any payload, %s; %s delivery; up to %d messages taken, then close()'
LONG = '%s, any key, then another message and a close frame; %s delivery; all messages taken, then close()'
FR = ['complete frame decoded', 'incomplete', 'unmasked']

prop('W01', ['frame:'], [
    run('h_ws_frame', [24, 0, 0], 'every byte string of 0..=24 bytes, delivered as fast as it is read', FR),
    run('h_ws_frame', [10, 3, 0], 'every byte string of 0..=10 bytes, every way of splitting its delivery into reads', FR),
    run('h_ws_frame', [140, 0, 130], 'every byte string of 130..=140 bytes (16-bit lengths with complete payloads)', FR + ['extended length'], time=600, **T),
    run('h_ws_frame', [14, 3, 0], 'every byte string of 0..=14 bytes, every way of splitting its delivery into reads', FR, time=600, **T),
])
prop('W02', ['frame:', 'msg:', 'err:'], [
    run('h_ws_frame', [10, 3, 0], 'every byte string of 0..=10 bytes, every way of splitting its delivery into reads', FR),
    run('h_ws_stream', [8, 3, 2], ANYB.replace('as fast as it is read', 'split into reads in every way') % (8, 2), ['text', 'fragmented']),
    run('h_ws_frames', [3, 1, 1, 4, 0], FRMS % (3, 1, 'key 0', 'one byte per read', 4), ['ping', 'fragmented']),
    run('h_ws_long', [0, 1, 20, 2, 1], LONG % ('a text or binary message in 1..=20 fragments of two arbitrary bytes each', 'bytewise'), ['text', 'fragmented']),
    run('h_ws_long', [2, 120, 140, 0, 1], LONG % ('a binary message of 120..=140 arbitrary bytes', 'bytewise'), ['binary']),
    run('h_ws_long', [2, 8190, 8194, 0, 4], LONG % ('a binary message of 8190..=8194 arbitrary bytes', 'at most 1000 bytes per read,'), ['binary']),
    run('h_ws_long', [2, 65534, 65537, 0, 4], LONG % ('a binary message of 65534..=65537 arbitrary bytes', 'at most 1000 bytes per read,'), ['binary'], fuel=400_000_000),
    run('h_ws_long', [0, 3, 3, 700, 4], LONG % ('a text or binary message in 3 fragments of 700 arbitrary bytes each', 'at most 1000 bytes per read,'), ['fragmented']),
    run('h_ws_frames', [2, 2, 3, 3, 0], FRMS % (2, 2, 'key 0', 'every split of the', 3), ['ping'], time=600, **T),
    run('h_ws_stream', [10, 3, 2], ANYB.replace('as fast as it is read', 'split into reads in every way') % (10, 2), ['text', 'fragmented'], time=600, **T),
], WS_ASSUME)
SES = [
    run('h_ws_stream', [9, 0, 3], ANYB % (9, 3), ['text', 'fragmented', 'ping', 'closed by the peer']),
    run('h_ws_frames', [3, 1, 0, 4, 1], FRMS % (3, 1, 'any key', 'full', 4), ['text', 'fragmented', 'ping', 'closed by the peer', 'text that is not UTF-8']),
    run('h_ws_frames', [1, 4, 0, 2, 1], FRMS % (1, 4, 'any key', 'full', 2), ['text', 'text that is not UTF-8']),
    run('h_ws_frames', [2, 3, 0, 3, 0], FRMS % (2, 3, 'key 0', 'full', 3), ['text', 'fragmented', 'text that is not UTF-8']),
    run('h_ws_long', [0, 1, 70, 1, 0], LONG % ('a text or binary message in 1..=70 fragments of one arbitrary byte each', 'full'), ['text', 'fragmented', 'closed by the peer']),
    run('h_ws_long', [0, 3, 3, 130, 0], LONG % ('a text or binary message in 3 fragments of 130 arbitrary bytes each', 'full'), ['fragmented']),
    run('h_ws_long', [0, 2, 2, 40000, 0], LONG % ('a text or binary message in 2 fragments of 40000 arbitrary bytes each', 'full'), ['fragmented'], fuel=400_000_000),
    run('h_ws_long', [1, 0, 16, 2, 0], LONG % ('0..=16 binary messages and pings in turn, of 2 arbitrary bytes each', 'full'), ['ping', 'binary']),
    run('h_ws_long', [2, 120, 300, 0, 0], LONG % ('a binary message of 120..=300 arbitrary bytes', 'full'), ['binary']),
    run('h_ws_long', [2, 65534, 65537, 0, 0], LONG % ('a binary message of 65534..=65537 arbitrary bytes', 'full'), ['binary'], fuel=400_000_000),
    run('h_ws_long', [3, 0, 125, 0, 0], LONG % ('a ping of 0..=125 arbitrary bytes', 'full'), ['ping']),
    run('h_ws_long', [4, 2, 125, 0, 0], LONG % ('a close frame with a reason of 0..=123 arbitrary ASCII characters', 'full'), ['closed by the peer']),
    run('h_ws_frames', [4, 1, 0, 5, 0], FRMS % (4, 1, 'key 0', 'full', 5), ['fragmented'], time=800, **T),
    run('h_ws_stream', [13, 0, 3], ANYB % (13, 3), ['fragmented'], time=800, **T),
    run('h_ws_frames', [1, 130, 0, 2, 0], FRMS % (1, 130, 'key 0', 'full', 2), ['text'], time=600, **T),
]
prop('W03', ['msg:'], SES, WS_ASSUME)
prop('W04', ['ctl:'], SES, WS_ASSUME)
prop('W05', ['close:'], SES, WS_ASSUME)
prop('W06', ['err:'], SES, WS_ASSUME)
SEND = 'text (ASCII, at first one character of two or four bytes or not), binary, ping and pong messages of %s arbitrary bytes, sent through a WebSocket or directly; %s'
prop('W07', ['send:'], [
    run('h_ws_send', [0, 20, 0, 0], SEND % ('0..=20', 'writes accepted whole'), ['sent']),
    run('h_ws_send', [0, 5, 1, 0], SEND % ('0..=5', 'every way of splitting the writes'), ['sent']),
    run('h_ws_send', [120, 130, 0, 0], SEND % ('120..=130', 'writes accepted whole'), ['sent']),
    run('h_ws_send', [65534, 65537, 0, 0, 1], 'binary messages of 65534..=65537 arbitrary bytes', ['sent']),
    run('h_ws_send', [65534, 65537, 4, 20000, 1], 'binary messages of 65534..=65537 arbitrary bytes, at most 20000 bytes accepted per write', ['sent']),
    run('h_ws_send', [120, 130, 5, 1, 1], 'binary messages of 120..=130 arbitrary bytes, the peer gone when all but 4..=20 bytes have been sent, or later', ['failing write']),
    run('h_ws_send', [65534, 65537, 5, 1, 1], 'binary messages of 65534..=65537 arbitrary bytes, the peer gone when all but 4..=20 bytes have been sent, or later', ['failing write']),
    run('h_ws_send', [0, 4, 3, 8], SEND % ('0..=4', 'the peer gone after any number of bytes up to 8'), ['failing write']),
    run('h_ws_send', [0, 300, 2, 0], SEND % ('0..=300', 'at most 7 bytes accepted per write'), ['sent'], time=600, **T),
    run('h_ws_send', [0, 8, 1, 0], SEND % ('0..=8', 'every way of splitting the writes'), ['sent'], time=600, **T),
    run('h_ws_send', [0, 130, 3, 140], SEND % ('0..=130', 'the peer gone after any number of bytes up to 140'), ['failing write'], time=600, **T),
], WS_ASSUME)
prop('W08', ['fault:', 'up:', 'send:'], [
    run('h_ws_fault', [6, 4], 'a ping or close frame with 0..=4 arbitrary payload bytes, then a ping and a close frame; the peer gone after 0..=6 bytes of the reply', ['reply could not be sent', 'reply sent']),
    run('h_ws_fault', [6, 4, 1], 'a ping or close frame with 0..=4 arbitrary payload bytes, then a ping and a close frame; one write fails after 0..=6 bytes of the reply', ['reply could not be sent', 'reply sent']),
    run('h_ws_send', [0, 4, 3, 8], SEND % ('0..=4', 'the peer gone after any number of bytes up to 8'), ['failing write']),
    run('h_ws_handshake', [24, 24, 3, 140], 'the handshake answer for every key of 24 characters, the client gone after any number of bytes up to 140', ['client hung up']),
    run('h_ws_fault', [130, 125], 'a ping or close frame with 0..=125 arbitrary payload bytes, the peer gone after 0..=130 bytes of the reply', ['reply could not be sent'], time=600, **T),
], WS_ASSUME)
prop('W09', ['dec:'], [
    run('h_ws_decide', [9], 'every letter case of the header names and of the words, with up to 2 arbitrary characters around them, and every other printable value of 0..=9 characters', ['upgrade', 'no upgrade']),
    run('h_ws_decide', [16], 'as above with other values of 0..=16 characters', ['upgrade', 'no upgrade'], time=600, **T),
])
prop('W10', ['up:'], [
    run('h_ws_handshake', [0, 28, 0, 0], 'no key, or every printable key of 0..=28 characters, the header name in every letter case', ['handshake', 'no key']),
    run('h_ws_handshake', [24, 24, 3, 140], 'every key of 24 characters, the client gone after any number of bytes up to 140', ['client hung up']),
    run('h_ws_handshake', [60, 60, 0, 0], 'every printable key of 60 characters', ['handshake']),
    run('h_ws_handshake', [0, 3, 2, 0], 'every key of 0..=3 characters, at most 7 bytes accepted per write', ['handshake', 'no key']),
    run('h_ws_handshake', [0, 120, 0, 0], 'every printable key of 0..=120 characters', ['handshake'], time=600, **T),
], WS_ASSUME)

# ---------------------------------------------------------------- HTTP
HTTP_ASSUME = ['the transport is a Read/Write object of the harness that delivers any non-zero part of what is left per read and accepts any non-zero part per write; end of stream, errors and refused writes as stated']
REQ = 'every request with %s; %s delivery; the body read afterwards'
BIG = 'a %s of %s characters (of more than 8: two at either end and two in the middle arbitrary)'
CUTS = 'every delivery in at most three reads of'
prop('H01', ['req:'], [
    run('h_req', [0, 3, 0], REQ % ('a known or other method and a query of 0..=3 arbitrary URL characters', 'full'), ['parsed']),
    run('h_req', [1, 2, 0], REQ % ('a path of up to 2 arbitrary URL characters', 'full'), ['parsed']),
    run('h_req', [2, 2, 0], REQ % ('arbitrary headers (name and value of up to 2 arbitrary characters each)', 'full'), ['parsed']),
    run('h_req', [3, 3, 0], REQ % ('a body of 0..=3 arbitrary bytes, declared by Content-Length, followed by arbitrary bytes', 'full'), ['parsed']),
    run('h_req', [3, 2, 2], REQ % ('a body of 0..=2 arbitrary bytes', CUTS), ['parsed']),
    run('h_req', [1, 1, 2], REQ % ('a path of up to 1 arbitrary character', CUTS), ['parsed']),
    run('h_req', [3, 2, 1], REQ % ('a body of 0..=2 arbitrary bytes', 'bytewise'), ['parsed']),
    run('h_req', [4, 10, 0, 0, 0, 0], REQ % ('a header value of 0..=10 printable characters (of more than 8: two at either end and two in the middle arbitrary)', 'full'), ['parsed']),
    run('h_req', [4, 300, 0, 0, 0, 200], REQ % (BIG % ('header value', '200..=300'), 'full'), ['parsed']),
    run('h_req', [4, 10002, 0, 0, 0, 9900], REQ % (BIG % ('header value', '9900..=10002'), 'full'), ['parsed']),
    run('h_req', [5, 300, 0, 0, 0, 290], REQ % (BIG % ('path', '290..=300'), 'full'), ['parsed']),
    run('h_req', [6, 8194, 0, 0, 0, 8180], REQ % (BIG % ('query', '8180..=8194'), 'full'), ['parsed']),
    run('h_req', [7, 130, 0, 0, 0, 1], REQ % (BIG % ('header name', '1..=130'), 'full'), ['parsed']),
    run('h_req', [3, 65537, 0, 0, 0, 65534], REQ % ('a body of 65534..=65537 arbitrary bytes', 'full'), ['parsed']),
    run('h_req', [3, 1048577, 0, 0, 0, 1048577], REQ % ('a body of 1048577 bytes (six of them arbitrary)', 'full'), ['parsed'], alloc=1 << 24, fuel=4_000_000_000),
    run('h_req_headers', [21], 'requests with 0..=21 headers besides Host', ['parsed', 'too many']),
    run('h_req', [0, 5, 0], REQ % ('a method and a query of 0..=5 arbitrary URL characters', 'full'), ['parsed'], time=600, **T),
    run('h_req', [1, 4, 0], REQ % ('a path of up to 4 arbitrary URL characters', 'full'), ['parsed'], time=600, **T),
    run('h_req', [2, 3, 0], REQ % ('arbitrary headers (up to 3 characters each)', 'full'), ['parsed'], time=600, **T),
    run('h_req', [2, 1, 2], REQ % ('arbitrary headers (up to 1 character each)', CUTS), ['parsed'], time=600, **T),
    run('h_req', [3, 12, 0], REQ % ('a body of 0..=12 arbitrary bytes', 'full'), ['parsed'], time=600, **T),
], HTTP_ASSUME)
WIN = 'template request %d with every window of %d bytes %sreplaced by up to %d arbitrary %s'
TEMPL = ['templates (REQS in harness/src/http.rs): 0 GET with a query and bytes after the head, 1 POST with Content-Length and a body, 2 absolute-form GET of HTTP/1.0 with an empty header, 3 CONNECT with bare line feeds']
prop('H02', ['any:'], [
    run('h_req_any', [0, 2, 1, 0, 0, 0, 24], WIN % (0, 2, 'up to offset 24 ', 3, 'bytes'), ['accepted', 'refused']),
    run('h_req_any', [0, 1, 2, 0, 0, 23, 26, 1], WIN % (0, 1, 'at offsets 23..26 ', 3, 'ASCII bytes'), ['accepted', 'refused']),
    run('h_req_any', [0, 2, 1, 0, 0, 27, 0], WIN % (0, 2, 'from offset 27 on ', 3, 'bytes'), ['accepted', 'refused']),
    run('h_req_any', [1, 2, 1, 0, 0, 0, 23], WIN % (1, 2, 'up to offset 23 ', 3, 'bytes'), ['accepted', 'refused']),
    run('h_req_any', [1, 2, 1, 0, 0, 26, 0], WIN % (1, 2, 'from offset 26 on ', 3, 'bytes'), ['accepted', 'refused']),
    run('h_req_any', [2, 2, 0, 0, 0, 0, 0, 1], WIN % (2, 2, '', 2, 'ASCII bytes'), ['accepted', 'refused']),
    run('h_req_any', [3, 2, 0, 0, 0, 0, 0, 1], WIN % (3, 2, '', 2, 'ASCII bytes'), ['accepted', 'refused']),
    run('h_req_any', [1, 1, 0, 0, 1, 26, 0], WIN % (1, 1, 'from offset 26 on ', 1, 'byte, the stream ending or failing anywhere'), ['accepted', 'refused']),
    run('h_req_any', [1, 1, 0, 2, 0, 26, 0], WIN % (1, 1, 'from offset 26 on ', 1, 'byte; delivered in at most three reads'), ['accepted', 'refused']),
    run('h_req_any', [0, 3, 1, 0, 0, 27, 0], WIN % (0, 3, 'from offset 27 on ', 4, 'bytes'), time=700, **T),
    run('h_req_any', [1, 3, 1, 0, 0, 26, 0], WIN % (1, 3, 'from offset 26 on ', 4, 'bytes'), time=700, **T),
    run('h_req_any', [0, 3, 0, 0, 0, 0, 23], WIN % (0, 3, 'up to offset 23 ', 3, 'bytes'), time=700, **T),
    run('h_req_any', [2, 3, 0, 0, 0, 0, 0, 1], WIN % (2, 3, '', 3, 'ASCII bytes'), time=700, **T),
], HTTP_ASSUME + TEMPL)
prop('H03', ['len:', 'req: the body', 'req: a well-formed'], [
    run('h_req_length', [2, 3, 1], 'one Content-Length header of 0..=2 arbitrary characters (every letter case of the name), 0..=3 bytes after the head', ['length', 'refused']),
    run('h_req_length', [2, 3, 2], 'two Content-Length headers (every letter case of the names) of 0..=2 arbitrary characters, 0..=3 bytes after the head', ['length', 'refused']),
    run('h_req_length', [2, 3, 1, 1], 'one Content-Length header of digits near the limits of 32, 64 and 128 bits, or of 19 zeros, and 0..=2 arbitrary characters, 0..=3 bytes after the head', ['length', 'refused']),
    run('h_req_length', [1, 2, 2, 1], 'two such headers with 0..=1 arbitrary characters', ['length', 'refused']),
    run('h_req', [3, 3, 0], REQ % ('a body of 0..=3 arbitrary bytes, declared by Content-Length, followed by arbitrary bytes', 'full'), ['parsed']),
    run('h_req', [3, 65537, 0, 0, 0, 65534], REQ % ('a body of 65534..=65537 arbitrary bytes, followed by arbitrary bytes', 'full'), ['parsed']),
    run('h_req_length', [4, 4, 1], 'up to one Content-Length header of 0..=4 arbitrary characters, 0..=4 bytes after the head', ['length', 'refused'], time=600, **T),
    run('h_req_length', [3, 3, 2], 'up to two Content-Length headers of 0..=3 arbitrary characters, 0..=3 bytes after the head', ['length', 'refused'], time=800, **T),
], HTTP_ASSUME)
prop('H04', ['hosthdr:'], [
    run('h_req_host', [3], 'a Host header of 0..=3 arbitrary printable ASCII characters, target /p?q', ['parsed', 'refused']),
    run('h_req_host', [1, 1], 'a Host header of one of 16 starts (schemes, addresses, names with ports), 0..=1 arbitrary printable ASCII characters and one of 4 ends, three targets', ['parsed', 'refused']),
    run('h_req_host', [4], 'a Host header of 0..=4 arbitrary printable ASCII characters, target /p?q', ['parsed', 'refused'], time=1500, **T),
], HTTP_ASSUME)
WR = 'every request built with %s; written with %s, then parsed again with %s delivery'
prop('H05', ['wr:'], [
    run('h_req_write', [0, 2, 0, 0], WR % ('any method, path and query of up to 2 arbitrary URL characters', 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [1, 1, 0, 0], WR % ('arbitrary headers (up to 1 character each)', 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [2, 3, 0, 0], WR % ('a body of 0..=3 arbitrary bytes', 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [2, 2, 0, 4, 60], WR % ('a body of 0..=2 arbitrary bytes', 'the first write cut short at any point', 'full'), ['read back']),
    run('h_req_write', [4, 300, 0, 0, 0, 200], WR % (BIG % ('header value', '200..=300'), 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [4, 10002, 0, 0, 0, 9998], WR % (BIG % ('header value', '9998..=10002'), 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [5, 260, 0, 0, 0, 250], WR % (BIG % ('path', '250..=260'), 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [6, 300, 0, 0, 0, 200], WR % (BIG % ('query', '200..=300'), 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [8, 19, 0, 0, 0, 0], WR % ('0..=19 headers besides Host', 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [2, 65537, 0, 0, 0, 65534], WR % ('a body of 65534..=65537 arbitrary bytes', 'writes accepted whole', 'full'), ['read back'], fuel=400_000_000),
    run('h_req_write', [2, 8194, 0, 0, 0, 8190], WR % ('a body of 8190..=8194 arbitrary bytes', 'writes accepted whole', 'full'), ['read back']),
    run('h_req_write', [2, 2, 1, 2, 60], WR % ('a body of 0..=2 arbitrary bytes', 'at most 3 bytes accepted per write', 'bytewise'), ['read back']),
    run('h_req_write', [0, 4, 0, 0], WR % ('any method, path and query of up to 4 arbitrary URL characters', 'writes accepted whole', 'full'), ['read back'], time=600, **T),
    run('h_req_write', [1, 2, 0, 0], WR % ('arbitrary headers (up to 2 characters each)', 'writes accepted whole', 'full'), ['read back'], time=600, **T),
    run('h_req_write', [2, 8, 0, 0], WR % ('a body of 0..=8 arbitrary bytes', 'writes accepted whole', 'full'), ['read back'], time=600, **T),
], HTTP_ASSUME)
RS = 'every response built with %s; encoded with %s, then parsed again with %s delivery'
RES = [
    run('h_res', [0, 3, 0, 0], RS % ('any status and a reason of 0..=3 arbitrary characters', 'reads of any size', 'full'), ['read back']),
    run('h_res', [1, 2, 0, 0], RS % ('arbitrary headers (up to 2 characters each)', 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [2, 3, 0, 0], RS % ('a body of 0..=3 arbitrary bytes', 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [4, 300, 0, 0, 0, 200], RS % (BIG % ('header value', '200..=300'), 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [4, 10002, 0, 0, 0, 9998], RS % (BIG % ('header value', '9998..=10002'), 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [7, 130, 0, 0, 0, 1], RS % (BIG % ('header name', '1..=130'), 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [8, 20, 0, 0, 0, 0], RS % ('0..=20 headers', 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [2, 65537, 0, 0, 0, 65534], RS % ('a body of 65534..=65537 arbitrary bytes', 'writes accepted whole', 'full'), ['read back'], fuel=400_000_000),
    run('h_res', [2, 8194, 0, 0, 0, 8190], RS % ('a body of 8190..=8194 arbitrary bytes', 'writes accepted whole', 'full'), ['read back']),
    run('h_res', [2, 2, 0, 4, 60], RS % ('a body of 0..=2 arbitrary bytes', 'the first write cut short at any point', 'full'), ['read back']),
    run('h_res', [2, 1, 0, 2], RS % ('a body of 0..=1 arbitrary bytes', 'at most 3 bytes accepted per write', 'full'), ['read back']),
]
prop('H06', ['res:'], RES + [
    run('h_res', [2, 2, 0, 3, 60], RS % ('a body of 0..=2 arbitrary bytes', 'the peer gone after any number of bytes up to 60', 'full'), []),
    run('h_res', [1, 3, 0, 0], RS % ('arbitrary headers (up to 3 characters each)', 'writes accepted whole', 'full'), ['read back'], time=700, **T),
    run('h_res', [2, 10, 0, 0], RS % ('a body of 0..=10 arbitrary bytes', 'writes accepted whole', 'full'), ['read back'], time=700, **T),
], HTTP_ASSUME)
prop('H07', ['back:'], RES + [
    run('h_res', [2, 1, 2, 0], RS % ('a body of 0..=1 arbitrary bytes', 'writes accepted whole', CUTS), ['read back']),
    run('h_res', [1, 1, 2, 0], RS % ('arbitrary headers (up to 1 character each)', 'writes accepted whole', CUTS), ['read back']),
    run('h_res', [0, 1, 2, 0], RS % ('any status and a reason of up to 1 character', 'writes accepted whole', CUTS), ['read back'], time=300, **T),
], HTTP_ASSUME)
prop('H08', ['rany:'], [
    run('h_res_any', [0, 2, 1, 0, 0], 'template response 0 with every window of 2 bytes replaced by up to 3 arbitrary bytes', ['accepted', 'refused']),
    run('h_res_any', [1, 2, 1, 0, 0], 'template response 1 with every window of 2 bytes replaced by up to 3 arbitrary bytes', ['accepted', 'refused']),
    run('h_res_any', [0, 1, 1, 0, 1], 'template response 0 with every byte replaced by up to 2 arbitrary bytes, the stream ending or failing anywhere', ['accepted', 'refused']),
    run('h_res_any', [0, 3, 1, 0, 0], 'template response 0 with every window of 3 bytes replaced by up to 4 arbitrary bytes', ['accepted', 'refused'], time=700, **T),
    run('h_res_any', [1, 3, 1, 0, 0], 'template response 1 with every window of 3 bytes replaced by up to 4 arbitrary bytes', ['accepted', 'refused'], time=700, **T),
    run('h_res_any', [0, 1, 1, 2, 0], 'template response 0 with every byte replaced by up to 2 arbitrary bytes, delivered in at most three reads', ['accepted', 'refused'], time=700, **T),
], HTTP_ASSUME + ['templates: RESS in harness/src/http.rs'])
prop('H09', ['split:'], [
    run('h_split', [4], 'responses and requests with header names, header values reasons and methods of up to 4 arbitrary characters', ['written', 'refused']),
    run('h_split', [2, 1], 'the same, of 1..=2 arbitrary characters behind 0, 20, 74, 110, 300, 1030 or 5000 others, some of them not ASCII', ['written', 'refused']),
    run('h_split', [7], 'responses and requests with header names, header values and reasons of up to 7 arbitrary characters', ['written', 'refused'], time=600, **T),
], HTTP_ASSUME)
BODY = 'every body (from a reader of 0..=%d arbitrary bytes, of a declared or unknown length, from a string or bytes) read by buffers of any size%s'
prop('H10', ['body:'], [
    run('h_body', [3, 2, 0], BODY % (3, ''), ['read', 'not UTF-8', 'multi-byte']),
    run('h_body', [3, 2, 3], BODY % (3, ', the reader delivering any part'), ['read', 'not UTF-8', 'multi-byte']),
    run('h_body', [8194, 1, 0, 8193], 'as above, of 8193..=8194 bytes (six of them arbitrary)', ['read']),
    run('h_body', [65538, 0, 0, 65536], 'as above, of 65536..=65538 bytes (six of them arbitrary)', ['read'], fuel=400_000_000),
    run('h_body', [1048577, 0, 0, 1048577], 'as above, of 1048577 bytes (six of them arbitrary)', ['read'], alloc=1 << 24, fuel=4_000_000_000),
    run('h_body', [5, 3, 3], BODY % (5, ', the reader delivering any part'), ['read'], time=700, **T),
], HTTP_ASSUME)
prop('H11', ['swap:'], [
    run('h_swap', [2, 2], 'every sequence of up to 2 body replacements and removals, on requests and responses', ['swapped']),
    run('h_swap', [4, 2], 'every sequence of up to 4 body replacements and removals, on requests and responses', ['swapped'], time=700, **T),
], HTTP_ASSUME)

prop('H12', ['build:'], [
    run('h_build', [3], 'every sequence of up to 3 builder calls (header, headers, body, status or method), names of two letters, any printable value; six invalid URLs and a valid one', ['request', 'response', 'bad URL', 'no method']),
    run('h_build', [4], 'every sequence of up to 4 builder calls (as above)', ['request', 'response'], time=300),
], HTTP_ASSUME)

# ---------------------------------------------------------------- the server
CORE_ASSUME = ['the host is the model in harness/src/host.rs: a process spawned for a connection runs to its end before the next accept (processes share no memory; the only thing they could race for is the host), accept fails when and as stated, dropping the last handle of a stream closes it',
               'clients: see client() in harness/src/core.rs; a client that stays never sends more than stated and only then hangs up']
SRV = ['Core::for_each', 'Core::serve_router', 'Router::run']
CORE = '%s with %d client(s) that send any of: a request with a body of 0..=%d arbitrary bytes, %s; %s delivery; %s'
MAL = 'five kinds of malformed request, the beginning of a request'
C_ = ['handled', 'malformed']
MANY = '%s with %d clients, one after the other: well-formed requests with a body of 0..=%d arbitrary bytes, malformed and incomplete ones, clients that stay and that leave, in a fixed order'
C01 = [
    run('h_core', [0, 2, 1, 0, 0, 2, 0, 0], CORE % (SRV[0], 2, 1, MAL, 'full', 'answers accepted whole'), C_),
    run('h_core', [0, 1, 1, 0, 0, 1, 0, 4], CORE % (SRV[0], 1, 1, MAL, 'full', 'accept failing or not'), C_),
    run('h_core', [0, 1, 2, 0, 1, 2, 0, 0], CORE % (SRV[0], 1, 2, MAL, 'full', 'at most 5 bytes accepted per write'), C_),
    run('h_core', [0, 1, 2, 0, 2, 2, 0, 0], CORE % (SRV[0], 1, 2, MAL, 'full', 'the client gone after any number of bytes of the answer'), C_),
    run('h_core', [0, 1, 2, 2, 0, 0, 0, 0], CORE % (SRV[0], 1, 2, 'nothing else', 'two reads of', 'answers accepted whole'), ['handled']),
    run('h_core', [1, 1, 2, 0, 0, 0, 1, 2], CORE % (SRV[1], 1, 2, 'and no Content-Length', 'full', 'the body not read'), ['handled']),
    run('h_core', [1, 1, 2, 0, 0, 0, 2, 2], CORE % (SRV[1], 1, 2, 'and no Content-Length', 'full', 'the body read'), ['handled']),
    run('h_core', [1, 1, 2, 0, 0, 2, 0, 3], CORE % (SRV[1], 1, 2, MAL, 'full', '0..=3 routes'), C_),
    run('h_core', [2, 1, 2, 0, 0, 2, 0, 3], CORE % (SRV[2], 1, 2, MAL, 'full', '0..=3 routes'), C_),
    run('h_core', [1, 1, 1, 0, 0, 1, 0, 4], CORE % (SRV[1], 1, 1, MAL, 'full', '0..=4 routes, accept failing or not'), C_),
    run('h_core', [2, 1, 1, 0, 0, 1, 0, 4], CORE % (SRV[2], 1, 1, MAL, 'full', '0..=4 routes, accept failing or not'), C_),
    run('h_core', [2, 1, 2, 0, 2, 1, 0, 1], CORE % (SRV[2], 1, 2, MAL, 'full', 'the client gone after any number of bytes of the answer'), C_),
    run('h_core', [0, 12, 1, 0, 0, 2, 0, 0, 0, 0, 1], MANY % (SRV[0], 12, 1), C_),
    run('h_core', [2, 12, 0, 0, 0, 2, 0, 2, 0, 0, 2], MANY % (SRV[2], 12, 0), C_),
    run('h_core', [1, 24, 0, 0, 0, 2, 0, 2, 0, 0, 3], MANY % (SRV[1], 24, 0), C_),
]
SANY = '%s with a client that sends %s; a handler must get exactly what the parser makes of these bytes by itself'
C01 += [
    run('h_core_any', [1, 2, 0, 0, 0, 26, 0, 0, 0, 0], SANY % (SRV[0], WIN % (1, 2, 'from offset 26 on ', 2, 'bytes')), C_),
    run('h_core_any', [2, 2, 0, 0, 0, 0, 0, 1, 0, 1], SANY % (SRV[1], WIN % (2, 2, '', 2, 'ASCII bytes')), C_),
    run('h_core_any', [3, 2, 0, 0, 0, 0, 0, 1, 0, 2], SANY % (SRV[2], WIN % (3, 2, '', 2, 'ASCII bytes')), C_),
]
C01 += [run('h_core_any', [1, 1, 0, 0, 0, 26, 0, 0, 0, 1, 1], SANY % (SRV[1], WIN % (1, 1, 'from offset 26 on ', 1, 'byte')) + ' and answers with err_404', C_)]
CT_ANY = [
    run('h_core_any', [0, 3, 0, 0, 0, 0, 24, 0, 0, 1], SANY % (SRV[1], WIN % (0, 3, 'up to offset 24 ', 3, 'bytes')), C_, time=800, **T),
    run('h_core_any', [1, 3, 0, 0, 0, 26, 0, 0, 0, 0], SANY % (SRV[0], WIN % (1, 3, 'from offset 26 on ', 3, 'bytes')), C_, time=800, **T),
]
C03 = [
    run('h_core_any', [0, 2, 0, 0, 0, 0, 24, 0, 0, 0], SANY % (SRV[0], WIN % (0, 2, 'up to offset 24 ', 2, 'bytes')), C_),
    run('h_core_any', [1, 2, 0, 0, 0, 26, 0, 0, 0, 2], SANY % (SRV[2], WIN % (1, 2, 'from offset 26 on ', 2, 'bytes')), C_),
    run('h_core_any', [3, 2, 0, 0, 0, 0, 0, 1, 0, 1], SANY % (SRV[1], WIN % (3, 2, '', 2, 'ASCII bytes')), C_),
    run('h_core_any', [1, 1, 0, 0, 1, 26, 0, 0, 0, 0], SANY % (SRV[0], WIN % (1, 1, 'from offset 26 on ', 1, 'byte, the stream ending anywhere')), C_),
]
CT = [
    run('h_core', [1, 2, 1, 0, 0, 2, 0, 2], CORE % (SRV[1], 2, 1, MAL, 'full', '0..=2 routes'), C_, time=800, **T),
    run('h_core', [2, 2, 1, 0, 0, 2, 0, 2], CORE % (SRV[2], 2, 1, MAL, 'full', '0..=2 routes'), C_, time=800, **T),
    run('h_core', [0, 3, 0, 0, 0, 1, 0, 0], CORE % (SRV[0], 3, 0, MAL, 'full', 'answers accepted whole'), C_, time=800, **T),
]
prop('C01', ['core:'], C01 + CT + CT_ANY, CORE_ASSUME)
prop('C02', ['route:'], [
    run('h_core', [1, 1, 0, 0, 0, 0, 0, 3, 1], CORE % (SRV[1], 1, 0, 'nothing else', 'full', '0..=3 routes with any of 3 matchers (also the same twice), handlers in two orders'), ['handled', 'no route']),
    run('h_core', [2, 1, 0, 0, 0, 0, 0, 3, 1], CORE % (SRV[2], 1, 0, 'nothing else', 'full', '0..=3 routes with any of 3 matchers (also the same twice), handlers in two orders'), ['handled', 'no route']),
    run('h_core', [1, 1, 0, 0, 0, 0, 0, 4, 1], CORE % (SRV[1], 1, 0, 'nothing else', 'full', '0..=4 routes with any of 4 matchers (also the same twice), handlers in two orders'), ['handled', 'no route'], time=600, **T),
    run('h_core', [2, 1, 0, 0, 0, 0, 0, 4, 1], CORE % (SRV[2], 1, 0, 'nothing else', 'full', '0..=4 routes with any of 4 matchers (also the same twice), handlers in two orders'), ['handled', 'no route'], time=600, **T),
    run('h_core', [1, 1, 0, 0, 0, 0, 0, 4], CORE % (SRV[1], 1, 0, 'nothing else', 'full', '0..=4 routes, every combination of matching and not, accept failing or not'), ['handled', 'no route']),
    run('h_core', [2, 1, 0, 0, 0, 0, 0, 4], CORE % (SRV[2], 1, 0, 'nothing else', 'full', '0..=4 routes, every combination of matching and not, accept failing or not'), ['handled', 'no route']),
    run('h_core', [1, 1, 0, 0, 0, 0, 0, 70, 0, 5], CORE % (SRV[1], 1, 0, 'nothing else', 'full', '5..=70 routes of which any one matches, or none'), ['handled', 'no route']),
    run('h_core', [2, 1, 0, 0, 0, 0, 0, 70, 0, 5], CORE % (SRV[2], 1, 0, 'nothing else', 'full', '5..=70 routes of which any one matches, or none'), ['handled', 'no route']),
    run('h_core', [1, 2, 0, 0, 0, 0, 0, 3], CORE % (SRV[1], 2, 0, 'nothing else', 'full', '0..=3 routes'), ['handled', 'no route']),
    run('h_core', [2, 2, 0, 0, 0, 0, 0, 3], CORE % (SRV[2], 2, 0, 'nothing else', 'full', '0..=3 routes'), ['handled', 'no route']),
] + CT, CORE_ASSUME)
prop('C03', ['bad:'], [
    run('h_core', [0, 2, 1, 0, 0, 2, 0, 0], CORE % (SRV[0], 2, 1, MAL, 'full', 'answers accepted whole'), C_),
    run('h_core', [1, 1, 2, 0, 0, 2, 0, 3], CORE % (SRV[1], 1, 2, MAL, 'full', '0..=3 routes'), C_),
    run('h_core', [2, 1, 2, 0, 0, 2, 0, 3], CORE % (SRV[2], 1, 2, MAL, 'full', '0..=3 routes'), C_),
    run('h_core', [0, 1, 0, 2, 0, 1, 0, 0], CORE % (SRV[0], 1, 0, MAL, 'two reads of', 'answers accepted whole'), C_),
] + C03 + CT + CT_ANY, CORE_ASSUME)
CHAT = 'an echo server behind Core::for_each; a client that asks for an upgrade (or does not) with any key of 4 printable characters, waits for the answer, sends 0..=%d masked binary messages of 0..=%d arbitrary bytes with any keys, then a close frame, end of stream or a reset; %s delivery'
CHAT_ANY = 'an echo server behind %s; a client as above, whose 0..=%d messages of 0..=%d bytes are binary, text (ASCII), binary in two fragments cut anywhere, or pings; %s delivery'
prop('C04', ['chat:', 'up:'], [
    run('h_chat', [2, 3, 0], CHAT % (2, 3, 'full'), ['upgraded', 'refused']),
    run('h_chat', [1, 2, 2], CHAT % (1, 2, 'two reads of'), ['upgraded', 'refused']),
    run('h_chat', [2, 2, 1], CHAT % (2, 2, 'bytewise'), ['upgraded', 'refused']),
    run('h_chat', [1, 130, 0, 0, 120], CHAT % (1, 130, 'full') + ' (of at least 120 bytes)', ['upgraded', 'refused']),
    run('h_chat', [1, 65537, 0, 0, 65534], CHAT % (1, 65537, 'full') + ' (of at least 65534 bytes)', ['upgraded', 'refused'], fuel=400_000_000),
    run('h_chat', [2, 2, 0, 0, 0, 1, 2, 1], CHAT_ANY % (SRV[2], 2, 2, 'full') + '; it waits for the answer to each', ['upgraded', 'refused']),
    run('h_chat', [1, 2, 2, 0, 0, 1, 1, 0], CHAT_ANY % (SRV[1], 1, 2, 'two reads of'), ['upgraded', 'refused']),
    run('h_chat', [2, 1, 1, 0, 0, 1, 0, 1], CHAT_ANY % (SRV[0], 2, 1, 'bytewise') + '; it waits for the answer to each', ['upgraded', 'refused']),
    run('h_chat', [6, 0, 0], CHAT % (6, 0, 'full'), ['upgraded', 'refused']),
    run('h_chat', [0, 1, 0, 220], CHAT % (0, 0, 'full') + '; the client gone after any number of bytes up to 220', ['upgraded', 'refused', 'client hung up']),
    run('h_chat', [3, 3, 0], CHAT % (3, 3, 'full'), ['upgraded', 'refused'], time=700, **T),
], CORE_ASSUME)
MT = 'every matcher of 0..=%d segments (two words, the empty word, anything, any integer) on every path of 1..=%d segments of 0..=%d arbitrary characters, with and without query and fragment'
prop('C05', ['match:'], [
    run('h_match', [3, 3, 1], MT % (3, 3, 1), ['match', 'no match']),
    run('h_match', [1, 1, 4], MT % (1, 1, 4), ['match', 'no match']),
    run('h_match', [2, 2, 2], MT % (2, 2, 2), ['match', 'no match']),
    run('h_match', [5, 5, 0], MT % (5, 5, 0), ['match', 'no match']),
    run('h_match', [1, 1, 3, 1], MT % (1, 1, 3) + ' (also ~ ! $ & \' ( ) * , ; = : @ %)', ['match', 'no match']),
    run('h_match_int', [4], 'integer segments: an optional sign, a beginning near the limits of 32 and 64 bits (or none, or zeros), then 0..=4 arbitrary digits', ['integer', 'too large']),
    run('h_match_opaque', [], 'URLs without a path hierarchy', ['no match']),
    run('h_match', [3, 3, 2], MT % (3, 3, 2), ['match', 'no match'], time=900, **T),
    run('h_match', [1, 1, 6], MT % (1, 1, 6), ['match', 'no match'], time=600, **T),
])

# ---------------------------------------------------------------- liveview
LV_ASSUME = ['the transport and the processes are the model of the lunatic host in harness/src/host.rs: a spawned process runs when another one waits for a message, the latest first; the browser takes in what was sent before the next rendering',
             'puck_liveview is compiled with stand-ins for two procedural macro crates that are not available here (derive_builder: the builder it generates is not used; malvolio_codegen: plain data types)',
             'client/index.js takes part concretely: on every sampled path (all of them, for up to 3000 per run) the instructions sent are given to the real script on a document made of plain objects, and the page is compared with the tree; the symbolic runs use a model of it (lv/src/browser.rs), whose verdict never counts against the script']
PG = dict(samples=3000)
UPD = '%s of a component whose trees have up to %d elements and vary in %s'
prop('L01', ['view:', 'life:', 'page:'], [
    run('l_pages', [0], 'the page and the script that start a session, written and read in large and small pieces', ['page', 'script']),
    run('l_pages', [400], 'the same, the first write ending after any number of bytes up to 400', ['page', 'script']),
    run('l_view', [128, 6, 0, 0, 5], 'first rendering of every tree of up to 6 elements, with an attribute', ['session over'], **PG),
    run('l_view', [15, 2, 0, 0, 1], 'first rendering of every tree of up to 2 elements that vary in name, attributes, text and listeners', ['session over'], **PG),
    run('l_view', [162, 1, 0, 0, 0], 'first rendering of an element with up to three attributes', ['session over'], **PG),
    run('l_view', [16904, 2, 0, 0, 1], 'first rendering of every tree of up to 2 elements with up to two listeners of any kind each', ['session over'], **PG),
    run('l_view', [1567, 1, 0, 0, 0], 'first rendering of an element with attributes, text and up to two listeners', ['session over'], **PG),
    run('l_view', [70, 1, 0, 0, 0], 'first rendering of an element whose attribute and text consist of any ASCII or two-byte character', ['session over'], **PG),
    run('l_view', [72, 1, 0, 0, 0], 'first rendering of an element with a listener named by any ASCII or two-byte character', ['session over'], **PG),
    run('l_view', [8198, 1, 0, 0, 0], 'first rendering of an element whose attribute and text are one of twelve awkward texts (empty, plus signs, markup, entities, spaces, quotes, four-byte characters)', ['session over'], **PG),
    run('l_view', [8712, 1, 0, 0, 0], 'first rendering of an element with up to two listeners named by such a text', ['session over'], **PG),
    run('l_view', [24, 2, 0, 0, 1, 6, 6], 'first rendering of a list of 12 elements, with up to 2 more in its middle, with listeners', ['session over'], **PG),
    run('l_view', [32774, 1, 0, 0, 0], 'first rendering of an element whose attribute and text have about 100, 15000 or 70000 characters', ['session over'], fuel=1_000_000_000, alloc=1 << 24),
    run('l_view', [3092, 3, 0, 0, 2], 'first rendering of every tree of up to 3 elements with and without keys and text', ['session over'], **PG),
    run('l_view', [15, 3, 0, 0, 2], 'first rendering of every tree of up to 3 elements that vary in name, attributes, text and listeners', ['session over'], time=900, **PG, **T),
], LV_ASSUME, crate='lv')
prop('L02', ['view:', 'life:'], [
    run('l_view', [128, 5, 1, 0, 4], UPD % ('an update', 5, 'shape and an attribute value'), ['session over'], **PG),
    run('l_view', [128, 3, 2, 0, 2], UPD % ('two updates', 3, 'shape and an attribute value'), ['session over'], **PG),
    run('l_view', [1, 3, 2, 0, 2], UPD % ('two updates', 3, 'shape and names'), ['session over'], **PG),
    run('l_view', [4, 3, 1, 0, 2], UPD % ('an update', 3, 'shape and text'), ['session over'], **PG),
    run('l_view', [34, 2, 1, 0, 1], UPD % ('an update', 2, 'shape and up to two attributes'), ['session over'], **PG),
    run('l_view', [16904, 1, 1, 0, 0], UPD % ('an update', 1, 'up to two listeners of any kind'), ['session over'], **PG),
    run('l_view', [162, 1, 1, 0, 0], UPD % ('an update', 1, 'up to three attributes'), ['session over'], **PG),
    run('l_view', [3088, 4, 1, 0, 2], UPD % ('an update', 4, 'shape, with and without keys (of four)'), ['session over'], **PG),
    run('l_view', [7184, 4, 1, 0, 2], UPD % ('an update', 4, 'shape, with and without keys (of four, possibly more than once)'), ['session over'], **PG),
    run('l_view', [1041, 4, 1, 0, 1], UPD % ('an update', 4, 'names and keys (of four) of up to three children'), ['session over'], **PG),
    run('l_view', [2064, 2, 3, 0, 1], UPD % ('three updates', 2, 'keys'), ['session over'], **PG),
    run('l_view', [128, 2, 1, 1, 1], UPD % ('an update', 2, 'ids (any distinct digits) and an attribute value'), ['session over'], **PG),
    run('l_view', [66, 1, 1, 0, 0], UPD % ('an update', 1, 'an attribute of any ASCII or two-byte character'), ['session over'], **PG),
    run('l_view', [68, 1, 1, 0, 0], UPD % ('an update', 1, 'a text of any ASCII or two-byte character'), ['session over'], **PG),
    run('l_view', [72, 1, 1, 0, 0], UPD % ('an update', 1, 'a listener named by any ASCII or two-byte character'), ['session over'], **PG),
    run('l_view', [17, 3, 1, 0, 0, 6, 6], 'an update of a list of 12 keyed elements with up to 3 more in its middle, which vary in name and key', ['session over'], **PG),
    run('l_view', [4, 2, 1, 0, 1, 11, 0], 'an update of a list of 11 elements with up to 2 more behind it, which vary in shape and text', ['session over'], **PG),
    run('l_view', [8, 2, 1, 0, 0, 5, 6], 'an update of a list of 11 elements with listeners, with up to 2 more in its middle, which vary in listeners', ['session over'], **PG),
    run('l_view', [1, 2, 2, 0, 0, 0, 12], 'two updates of a list of 12 elements with up to 2 more in front of it, which vary in name', ['session over'], **PG),
    run('l_view', [32772, 1, 1, 0, 0], UPD % ('an update', 1, 'a text of about 100, 15000 or 70000 characters'), ['session over'], fuel=1_000_000_000, alloc=1 << 24),
    run('l_view', [8196, 1, 1, 0, 0], UPD % ('an update', 1, 'a text which is one of twelve awkward ones'), ['session over'], **PG),
    run('l_view', [8194, 1, 1, 0, 0], UPD % ('an update', 1, 'an attribute whose value is one of twelve awkward texts'), ['session over'], **PG),
    run('l_view', [8200, 1, 1, 0, 0], UPD % ('an update', 1, 'a listener named by one of twelve awkward texts'), ['session over'], **PG),
    run('l_view', [13, 2, 1, 0, 1], UPD % ('an update', 2, 'shape, names, text and listeners'), ['session over'], **PG),
    run('l_view', [8, 3, 1, 0, 2], UPD % ('an update', 3, 'shape and listeners'), ['session over'], **PG),
    run('l_view', [15, 1, 2, 0, 0], UPD % ('two updates', 1, 'name, attributes, text and listeners'), ['session over'], **PG),
    run('l_view', [15, 2, 1, 0, 1], UPD % ('an update', 2, 'shape, names, attributes, text and listeners'), ['session over'], time=900, **PG, **T),
    run('l_view', [4, 3, 2, 0, 2], UPD % ('two updates', 3, 'shape and text'), ['session over'], time=900, **PG, **T),
    run('l_view', [3092, 3, 2, 0, 2], UPD % ('two updates', 3, 'shape and text, with and without keys (of four)'), ['session over'], time=900, **PG, **T),
    run('l_view', [3088, 5, 1, 0, 3], UPD % ('an update', 5, 'shape, with and without keys (of four)'), ['session over'], time=900, **PG, **T),
    run('l_view', [131, 2, 1, 1, 1], UPD % ('an update', 2, 'ids (any distinct digits), names and attributes'), ['session over'], time=900, **PG, **T),
], LV_ASSUME, crate='lv')
EV = 'a session with %d message(s) of the client: %s; listeners named by %s, of any kind, %d per tree; %s'
EVC = ['event', 'no such listener', 'input without a value', 'session over']
prop('L03', ['event:', 'view:'], [
    run('l_events', [1, 1, 0, 1, 0, 0, 2], EV % (1, 'an event with or without a value of up to one ASCII or two-byte character', 'one of two letters', 2, 'then a close frame'), EVC, **PG),
    run('l_events', [1, 2, 2, 1, 0, 0, 1], EV % (1, 'an event with or without a value of up to two ASCII or two-byte characters', 'one letter', 1, 'then a close frame'), ['event', 'input without a value'], **PG),
    run('l_events', [1, 1, 1, 1, 0, 0, 1], EV % (1, 'an event with or without a value of up to one character', 'any ASCII or two-byte character', 1, 'then a close frame'), EVC, **PG),
    run('l_events', [1, 9, 3, 1, 0, 0, 1], EV % (1, 'an event with or without a value which is one of twelve awkward texts', 'such a text', 1, 'then a close frame'), EVC, **PG),
    run('l_events', [3, 0, 0, 1, 0, 0, 1], EV % (3, 'events with or without a value', 'one of two letters', 1, 'then a close frame'), EVC, **PG),
    run('l_events', [2, 0, 0, 1, 0, 1, 1], EV % (2, 'events with or without a value', 'one of two letters', 1, 'and an input of another process'), EVC, **PG),
    run('l_events', [1, 0, 0, 31, 0, 0, 1, 1], EV % (1, 'an event, whole or in two fragments, as binary, ping or pong, cut short or not what a client sends, or text of up to 1 character', 'one of two letters', 1, 'then a close frame'), EVC, **PG),
    run('l_events', [2, 0, 2, 29, 0, 0, 1, 1], EV % (2, 'events, whole, or as binary, ping or pong, cut short or not what a client sends, or text of up to 1 character', 'one letter', 1, 'then a close frame'), ['event', 'session over'], **PG),
    run('l_events', [1, 0, 0, 16, 0, 0, 1, 2], EV % (1, 'text of up to 2 ASCII characters', 'one of two letters', 1, 'then a close frame'), ['session over'], **PG),
    run('l_events', [4, 0, 0, 1, 0, 0, 1], EV % (4, 'events with or without a value', 'one of two letters', 1, 'then a close frame'), EVC, time=900, **PG, **T),
    run('l_events', [1, 0, 2, 16, 0, 0, 1, 3], EV % (1, 'text of up to 3 ASCII characters', 'one letter', 1, 'then a close frame'), ['session over'], time=900, **PG, **T),
    run('l_events', [1, 3, 2, 1, 0, 0, 1], EV % (1, 'an event with or without a value of up to three characters', 'one letter', 1, 'then a close frame'), ['event'], time=900, **PG, **T),
], LV_ASSUME, crate='lv')
END = 'then a close frame, end of stream, a read error, an unmasked frame, a reserved opcode or half a frame'
prop('L04', ['life:', 'event:'], [
    run('l_events', [1, 0, 0, 1, 1, 0, 1], EV % (1, 'an event with or without a value', 'one of two letters', 1, END), EVC),
    run('l_events', [2, 0, 2, 1, 1, 1, 1], EV % (2, 'events with or without a value', 'one letter', 1, 'an input of another process; ' + END), ['event', 'session over']),
    run('l_events', [1, 0, 2, 31, 1, 0, 1, 1], EV % (1, 'an event, whole or in two fragments, as binary, ping or pong, cut short or not what a client sends, or text of up to 1 character', 'one letter', 1, END), ['event', 'session over']),
    run('l_events', [0, 0, 0, 1, 1, 2, 1], EV % (0, 'none', 'one of two letters', 1, 'two inputs of another process; ' + END), ['session over']),
    run('l_events', [2, 0, 2, 1, 0, 0, 1, 0, 200], EV % (2, 'events with or without a value', 'one letter', 1, 'the client gone, or one write failing, after any number of bytes up to 200'), ['session over']),
    run('l_events', [1, 0, 2, 3, 1, 1, 1, 0, 300], EV % (1, 'an event, whole or in two fragments', 'one letter', 1, 'an input of another process; the client gone, or one write failing, after any number of bytes up to 300; ' + END), ['session over'], time=1200, **T),
], LV_ASSUME, crate='lv')
WR = 'every tree of up to %d malvolio tags (%s), each with or without a class and a listener, one arbitrary character each; numbering starts at %d'
prop('L05', ['wrap:'], [
    run('l_wrap', [1, 0, 1, 1], WR % (1, 'every kind but text and noscript', 1), ['no children']),
    run('l_wrap', [3, 1, 0, 1], WR % (3, 'every kind but text and noscript', 0), ['children']),
    run('l_wrap', [3, 2, 2, 0], WR % (3, 'div, p, h1, a and br', 2), ['children']),
    run('l_wrap', [4, 3, 0, 0], WR % (4, 'div, p, h1, a and br', 0), ['children'], time=600),
], crate='lv')

AP = '%s between every two (or more) trees of up to %d elements which vary in %s'
prop('L06', ['apply:'], [
    run('l_apply', w, AP % ('the changes' if w[2] == 1 else 'all the changes', w[1], v), ['applied'], **({**PG, **o})) for w, v, o in [
        ([128, 5, 1, 0, 4], 'shape and an attribute value', {}),
        ([128, 3, 2, 0, 2], 'shape and an attribute value', {}),
        ([13, 2, 1, 0, 1], 'shape, names, text and listeners', {}),
        ([11, 2, 1, 0, 1], 'shape, names, attributes and listeners', {}),
        ([162, 1, 1, 0, 0], 'up to three attributes', {}),
        ([16904, 1, 1, 0, 0], 'up to two listeners of any kind', {}),
        ([7184, 4, 1, 0, 2], 'shape, with and without keys (of four, possibly more than once)', {}),
        ([1041, 4, 1, 0, 1], 'names and keys (of four) of up to three children', {}),
        ([20, 3, 1, 0, 2], 'shape, keys and text', {}),
        ([24, 3, 1, 0, 2], 'shape, keys and listeners', {}),
        ([2064, 2, 3, 0, 1], 'keys', {}),
        ([128, 2, 1, 1, 1], 'ids (any distinct digits) and an attribute value', {}),
        ([66, 1, 1, 0, 0], 'an attribute of any ASCII or two-byte character', {}),
        ([68, 1, 1, 0, 0], 'a text of any ASCII or two-byte character', {}),
        ([8196, 1, 1, 0, 0], 'a text which is one of twelve awkward ones', {}),
        ([17, 4, 1, 0, 0, 6, 6], 'the part of a list of keyed elements between six and six others', {}),
        ([8, 2, 1, 0, 0, 5, 6], 'the listeners of the part of a list between five and six others', {}),
        ([4, 2, 1, 0, 1, 11, 0], 'shape and text of the end of a list', {}),
        ([2064, 3, 3, 0, 2], 'shape and keys', {}),
        ([128, 4, 2, 0, 3], 'shape and an attribute value', {}),
        ([128, 6, 1, 0, 5], 'shape and an attribute value', T),
        ([7184, 5, 1, 0, 3], 'shape, with and without keys (of four, possibly more than once)', T),
        ([128, 3, 1, 1, 2], 'ids (any distinct digits) and an attribute value', {'time': 900, **T}),
        ([15, 2, 1, 0, 1], 'shape, names, attributes, text and listeners', {'time': 900, **T}),
    ]
], LV_ASSUME, crate='la')
