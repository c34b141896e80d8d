#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the committed copies are its output)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS  # noqa: E402
P = []
W = 'puck/src/ws/'
I, F, H, C = 'inputs', 'fault_sequences', 'histories', 'configurations'


def p(id, title, statement, over, text, why, mech, files=None, observe=()):
    m = [{'name': a, 'where': b} for a, b in mech]
    files = files or sorted({b for _, b in mech})
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': m, 'observe_at': list(observe), 'hook_needed': None}})


FT = 'The only WebSocket test decodes a handful of fixed unmasked frames; '
p('W01', 'A WebSocket frame is decoded exactly, or refused',
  'Decoding a frame from a stream yields the FIN bit, the opcode and the unmasked payload that were sent, and consumes exactly the bytes of that frame. A stream that ends inside a frame, and a non-empty client frame without a mask, are errors. No byte sequence makes decoding panic, loop, or allocate memory out of proportion to the bytes received.',
  [I], 'every byte sequence a peer can send',
  FT + 'the header byte, the three length encodings, the mask and truncation at every byte combine to far more cases.',
  [('Frame::parse', W + 'frame.rs')], observe=['the Frame returned', 'bytes left in the stream'])
p('W02', 'How the network cuts WebSocket traffic into pieces makes no difference',
  'Frames and messages received are the same whatever the sizes of the reads that deliver the bytes: one byte at a time, several frames at once, or cut at any point. No byte is lost or read twice between frames.',
  [I, F], 'every byte sequence, and every way of splitting its delivery into reads',
  'Tests decode from in-memory slices, which always deliver everything at once.',
  [('Frame::parse', W + 'frame.rs'), ('Message::next', W + 'message.rs'), ('WebSocket::next', W + 'websocket.rs')])
p('W03', 'WebSocket messages arrive complete, in order and with their type',
  'A message sent in one frame or in any number of fragments is delivered exactly once, with the type of its first frame and the concatenation of the payloads, in the order sent. Text is delivered only if the whole message is UTF-8. Fragments of a message are never mixed with another message or delivered separately.',
  [I, H], 'every sequence of frames a peer can send, with any payloads',
  'No test covers messages at all: fragmentation, continuation order and UTF-8 across fragments depend on the sequence of frames.',
  [('Message::next', W + 'message.rs'), ('WebSocket::next', W + 'websocket.rs')])
p('W04', 'A WebSocket ping is answered by its pong',
  'Every ping received while the connection is open is answered by exactly one pong with the same payload, sent before the next message is taken. Pongs and data messages are answered by nothing.',
  [I, H], 'every sequence of frames a peer can send, with any payloads',
  'No test covers control frames; answers have to be right at every position in a session.',
  [('WebSocket::next', W + 'websocket.rs'), ('send_frame', W + 'send.rs')], observe=['bytes written to the connection'])
p('W05', 'The WebSocket closing handshake is exact and final',
  'A close frame from the peer is answered by exactly one close frame and ends the sequence of messages; closing an open connection from this side sends exactly one close frame. After that nothing is read from or sent on the connection, closing again succeeds without effect, and every handle of the connection is released.',
  [I, H], 'every sequence of frames a peer can send, followed by close()',
  'No test covers closing; the state has to be right after every history.',
  [('WebSocket::close', W + 'websocket.rs'), ('WebSocket::next', W + 'websocket.rs'), ('send_close_frame', W + 'websocket.rs')])
p('W06', 'WebSocket protocol violations are reported as client errors',
  'Reserved bits or opcodes, unmasked payloads, fragmented or oversized control frames, a continuation without a message, a new message inside a fragmented one, malformed close frames and text that is not UTF-8 are reported as an error of the client and never delivered as a message. After a violation nothing but a close frame is sent.',
  [I, H], 'every sequence of frames a peer can send',
  'No test covers malformed traffic; there are far more malformed sequences than well-formed ones.',
  [('check_frame', W + 'message.rs'), ('Message::next', W + 'message.rs'), ('Frame::parse', W + 'frame.rs')])
p('W07', 'A sent WebSocket message is one well-formed frame',
  'Sending a message writes exactly one final, unmasked frame with the opcode of the message, a length field of minimal size and the payload, however the connection splits the writes. If a write fails the error is returned, and what was written is a prefix of that frame.',
  [I, F], 'every message (type, length, bytes), every way of splitting writes, a failure after any byte',
  'No test encodes a frame; the boundaries of the three length encodings and partial writes are never exercised.',
  [('Frame::format', W + 'frame.rs'), ('send_frame', W + 'send.rs'), ('WebSocket::send', W + 'websocket.rs')])
p('W08', 'A WebSocket peer that disappears never brings the server process down',
  'When the peer is gone while an automatic answer, a message or the upgrade answer is being sent, the failure is reported or ignored but never panics, nothing more is sent, no message is made up, and every handle is released.',
  [F, I], 'a failing write after any number of bytes of any answer',
  'Tests run without a network peer, so no write ever fails.',
  [('WebSocket::next', W + 'websocket.rs'), ('send_frame', W + 'send.rs'), ('perform_upgrade', W + 'upgrade.rs')])
p('W09', 'Exactly the requests that ask for a WebSocket are upgraded',
  'A request is recognised as asking for a WebSocket exactly when its Upgrade header asks for websocket and its Connection header for an upgrade, whatever the letter case of header names and values.',
  [I], 'every value and letter case of the two headers',
  'No test covers the decision; header values are arbitrary text.',
  [('should_upgrade', W + 'upgrade.rs')])
p('W10', 'The WebSocket handshake answer is the one RFC 6455 prescribes',
  'For a request with a key the answer is a well-formed response with status 101, Upgrade: websocket, Connection: Upgrade and exactly one Sec-WebSocket-Accept equal to base64(SHA-1(key + GUID)), and nothing after it. Without a key the answer is a well-formed 400. If the client is gone the upgrade fails without a panic.',
  [I, F], 'every key, every letter case of the header name, a failing write at any point',
  'The one test hashes a single key and does not look at the answer written.',
  [('perform_upgrade', W + 'upgrade.rs'), ('compute_accept_header', W + 'upgrade.rs'), ('Stream::upgrade', 'puck/src/core/mod.rs')])

RQ = 'puck/src/request/mod.rs'
RP = 'puck/src/response/mod.rs'
EN = 'puck/src/response/encoder.rs'
BO = 'puck/src/body/mod.rs'
CO = 'puck/src/core/mod.rs'
RO = 'puck/src/core/router/mod.rs'
p('H01', 'A well-formed HTTP request is parsed to exactly what was sent',
  'A request with a request line, a Host header and any further headers is accepted, and its method, path, query, host, headers and body are the ones sent. The body is exactly the Content-Length bytes after the head. This holds for up to 20 headers and whatever the sizes of the reads that deliver the bytes.',
  [I, F], 'every well-formed request and every way of splitting its delivery into reads',
  'Two regression tests read back one fixed request each, from a buffer that delivers everything at once.',
  [('Request::parse', RQ), ('Method', RQ), ('Body::from_reader', BO)])
p('H02', 'No byte sequence confuses or crashes the request parser',
  'For arbitrary bytes the parser returns a request, an error or "nothing", and never panics, hangs, or allocates memory out of proportion to its input. A request is accepted or refused only once its head is complete; an accepted one has the request line and the headers on the wire and no others, and its body is part of what follows the head. Read errors are reported as such, and only a stream that ends before the head is complete counts as empty.',
  [I, F], 'arbitrary bytes, end of stream or a read error at any point',
  'The tests only parse well-formed requests.',
  [('Request::parse', RQ)])
p('H03', 'Content-Length frames the body, and invalid or conflicting values are refused',
  'A request whose Content-Length is a decimal number is accepted, and reading its body yields exactly that many of the bytes after the head, or all there are if the stream ends earlier. A Content-Length that is not a plain decimal number, does not fit, or is given twice with different values is refused.',
  [I], 'every value of Content-Length, in every letter case of its name, once or twice, with any bytes after the head',
  'Tests use one fixed length per request; request smuggling needs the unusual ones.',
  [('parse_content_length', RQ), ('Request::parse', RQ)])
p('H04', 'The Host header cannot change what a request asks for',
  'Path and query of a parsed request are those of the request line whatever the Host header contains, and the Host header adds no scheme, user, password or fragment to the URL. An ordinary host name is accepted.',
  [I], 'every value of the Host header',
  'Tests use fixed host names; the URL is assembled from Host and target and parsed as a whole.',
  [('Request::parse', RQ)])
p('H05', 'A request written can be parsed back to the same request',
  'Writing a request produces one request line with its method, path and query, every header exactly once, a blank line and the body; parsing that again yields the same method, path, query, headers and body. This holds however the connection splits the writes.',
  [I, F], 'every method, path, query, header and body, every way of splitting writes',
  'One test writes one fixed request and compares part of it.',
  [('Request::write', RQ), ('Method::write', RQ)])
p('H06', 'A response is sent with exactly its status, headers and body',
  'Encoding a response writes one status line with its status and reason, every header exactly once, a blank line and exactly the bytes of the body, however the connection splits the writes or the body splits the reads. If a write fails the error is returned and what was written is a prefix.',
  [I, F], 'every status, reason, header and body, every way of splitting writes, a failure after any byte',
  'No test encodes a response.',
  [('Encoder::write_tcp_stream', EN), ('ResponseBuilder', 'puck/src/response/builder.rs')])
p('H07', 'A response written can be parsed back to the same response',
  'Parsing an encoded response yields the same status, reason and headers, and exactly the body its Content-Length declares (or all that follows, without one), whatever the sizes of the reads that deliver it.',
  [I, F], 'every status, reason, header and body, every way of splitting the delivery',
  'No test parses a response.',
  [('Response::parse', RP), ('Encoder::write_tcp_stream', EN)])
p('H08', 'No byte sequence confuses or crashes the response parser',
  'For arbitrary bytes the response parser returns a response, an error or "nothing", and never panics, hangs, or allocates memory out of proportion to its input. A response is accepted or refused only once its head is complete, has the headers on the wire and no others, and its body is part of what follows the head.',
  [I, F], 'arbitrary bytes, end of stream or a read error at any point',
  'No test parses a response.',
  [('Response::parse', RP)])
p('H09', 'Header contents cannot split a response or a request',
  'A head is written as one line per header given plus the first line, whatever characters header names, header values, reason and method contain: one with a line break in it is refused and nothing of it is written, one without is written.',
  [I], 'every header name, header value and reason',
  'No test writes headers with unusual characters; splitting needs the characters nobody writes in a test.',
  [('Encoder::write_tcp_stream', EN), ('Request::write', RQ)])
p('H10', 'Reading a body yields all of its bytes, once, up to its length',
  'However a body is created and whatever the buffer sizes and partial reads, reading it to the end yields its bytes in order up to its declared length and nothing of what follows; a read returns nothing only at the end. Converting to bytes or to a string yields the whole body, and only UTF-8 becomes a string.',
  [I, F], 'every body, declared length, sequence of buffer sizes and partial reads',
  'No test reads a body in parts.',
  [('Body::read', BO), ('Body::from_reader', BO), ('Body::into_bytes', BO), ('Body::into_string', BO)])
p('H11', 'Replacing the body of a request or response replaces only the body',
  'Replacing or taking the body returns the body there was and installs the one given (or an empty one); the Content-Type header becomes that of the new body and nothing else changes.',
  [H, I], 'every sequence of replacements and removals, on requests and responses',
  'No test replaces a body.',
  [('Request::replace_body', RQ), ('Request::take_body', RQ), ('Response::replace_body', RP), ('Response::take_body', RP)])
p('H12', 'A request or response built has exactly the parts given to its builder',
  'Whatever the order of the calls: every header given by header or headers and no other, the last value winning for a name; the method, status, reason and body given last, or the defaults (status 200, no reason, an empty body). An invalid URL and a missing method are errors, and nothing else is.',
  [H, I], 'every sequence of builder calls', 'No test uses a builder with more than one header.',
  [('RequestBuilder', 'puck/src/request/builder.rs'), ('ResponseBuilder', 'puck/src/response/builder.rs')])
p('C01', 'Every connection is served by itself, exactly once, and then closed',
  'Each connection accepted gets a process of its own; a well-formed request reaches a handler exactly once, with the method, path, headers, body and server state it should have, and the client receives exactly the answer of the handler. A failing accept, a malformed request or a client that hangs up at any point affects no other connection, and every connection is closed in the end. The server never waits for bytes a client has no reason to send.',
  [I, F, H], 'every sequence of clients (well-formed, malformed, incomplete, hanging up at any byte) and failing accepts',
  'No test starts a server.',
  [('Core::for_each', CO), ('Core::serve_router', CO), ('Router::run', RO), ('Stream::respond', CO)])
p('C02', 'The first matching route handles a request, and only that one',
  'A request is handled by the first route, in the order of registration, whose matcher accepts it, exactly once; routes behind it are neither asked nor run. If no route matches no handler runs. This holds for the router run directly and for the one served by the server core, which sends its routes to other processes.',
  [I, C], 'every number of routes and every combination of matching and not matching',
  'No test routes a request.',
  [('Router::respond', RO), ('Router::route', RO), ('Router::as_ints', RO), ('Router::from_ints', RO), ('Core::serve_router', CO)])
p('C03', 'A malformed request is answered by a 400',
  'A client whose bytes are not a request the server accepts gets a well-formed response with status 400 and no handler runs, in every way of running a server.',
  [I], 'every kind of malformed or incomplete request',
  'No test starts a server.',
  [('Core::for_each', CO), ('Core::serve_router', CO), ('Router::run', RO)])
p('C04', 'A WebSocket served by the server works end to end',
  'A client that asks a server for a WebSocket gets the handshake answer, and from then on every message sent on the upgraded connection is received and answered in order until the connection is closed; one that does not ask for it gets a 400 and the connection is not upgraded. The connection is closed in the end.',
  [I, H, F], 'every key, every sequence of messages, every way the client can leave',
  'No test upgrades a connection.',
  [('Stream::upgrade', CO), ('WebSocket::next', W + 'websocket.rs'), ('WebSocket::send', W + 'websocket.rs')])
p('C05', 'A URL matches a pattern exactly when its segments do, in order',
  'A pattern of segments matches a URL exactly when the path has the same number of segments and each is accepted: a word by itself, "anything" by every segment, an integer by an optional sign and digits within 32 bits. Query and fragment make no difference, and a URL without a path hierarchy matches nothing.',
  [I, C], 'every pattern and every URL',
  'One test matches three fixed URLs.',
  [('Match::does_match', 'puck/src/core/router/match_url.rs')])
LV = 'puck_liveview/src/'
CM, DF, SE, JS = LV + 'component/mod.rs', LV + 'dom/element/diff/mod.rs', LV + 'dom/element/diff/changeset/instruction_serializer.rs', 'puck_liveview/client/index.js'
p('L01', 'The browser first shows exactly the tree a liveview component renders',
  'The page and the script puck_liveview serves reach the browser unchanged, and the script connects to `ws` beside the page. When a liveview session starts, one component is made of the data given and rendered once, and the instructions sent make the browser client show exactly that tree: every element with its name, attributes (other than id, which puck uses), text, listeners and children in order, and nothing else, whatever characters attribute values, texts and listener names consist of.',
  [I], 'every tree of elements a component can render',
  'The liveview tests need a lunatic runtime and do not run here; they compare instructions for a few fixed trees and never run the browser client.',
  [('manage', CM), ('Element::diff', DF), ('InstructionSerializer', SE), ('ws.onmessage', JS), ('index and js', LV + 'init.rs')], observe=['text messages sent on the WebSocket', 'the page after client/index.js has received them'])
p('L02', 'After every update the browser shows exactly the tree rendered last',
  'After each input the component is rendered once, and the instructions sent turn the page from the tree rendered before into exactly the tree rendered now: names, attributes (other than id), texts, listeners, the number and order of children with and without keys, and the ids that later instructions refer to. No instruction refers to an element that is not on the page, and no event listener of an earlier rendering remains or is lost.',
  [I, H], 'every pair and sequence of trees a component can render',
  'The difference between two trees combines over all of their parts; the liveview tests (which do not run here) cover a few fixed pairs.',
  [('perform_diff', CM), ('Element::diff', DF), ('InstructionSerializer', SE), ('ws.onmessage', JS)], observe=['text messages sent on the WebSocket', 'the page after client/index.js has received them'])
p('L03', 'An event in the browser reaches its listener exactly once, in order',
  'A text message naming a listener of the tree rendered last runs that listener exactly once, with the value sent if it is an input listener, and its result is given to the component before the next event is looked at. A message that names no listener, lacks the value, is not what the client sends, is not JSON, or is not text changes nothing. Inputs sent by other processes arrive exactly once and in order as well.',
  [I, H], 'every sequence of messages a client can send to a session',
  'No test sends an event to a component.',
  [('main_loop', CM), ('manage', CM), ('ClientMessage', LV + 'client/mod.rs'), ('Listener', LV + 'dom/listener.rs')], observe=['calls of Component::update'])
p('L04', 'A liveview session ends with its connection',
  'When the client closes the connection, disappears, breaks the protocol, or can no longer be written to, everything it sent before is still handled, then the component is dropped once, every handle of the connection is released and no process goes on sending messages. A session never panics because of its client.',
  [I, F, H], 'every way a connection can end, after any messages, a failing write after any number of bytes',
  'No test runs a session.',
  [('manage', CM), ('main_loop', CM)], observe=['drop of the component', 'handles of the connection', 'messages between processes'])
p('L05', 'A tree of HTML tags becomes the same tree of liveview elements',
  'Wrapping malvolio tags and turning them into elements keeps for each tag its name, attributes, text, listeners, and the children given, in order; elements get consecutive ids in document order, starting where the id generator stands. (Text nodes are not supported; headings, links, labels, images and line breaks have no children; noscript becomes a div.)',
  [I], 'every tree of tags',
  'The test for this (which does not run here) compares three fixed trees.',
  [('WrappedBodyNode::into_element', LV + 'html/mod.rs'), ('IdGen', LV + 'html/id.rs')], observe=['the Element returned'])
p('L06', 'Applying the changes between two element trees gives the second tree',
  'For any two trees of liveview elements, with any ids that are distinct within a tree, the changes `Element::diff` computes from the one to the other, applied to a copy of the first by `Changeset::apply` (feature `apply`), make it the second: ids, names, attributes, texts, listeners in order, and children in order. Keys are no part of the changes. The same holds for any sequence of trees, one after the other on the same copy. Neither computing nor applying changes panics.',
  [I, H], 'every sequence of trees with distinct ids',
  'The tests for this need the feature and a lunatic runtime, do not run here, and compare fixed pairs.',
  [('Element::diff', DF), ('Changeset::apply', LV + 'dom/element/diff/changeset/apply.rs')], observe=['the Element after Changeset::apply'])
NA = []
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in P]
claimed = [i for i in ids if i in PROPS]
assert set(claimed) | {n['property'] for n in NA} == set(ids), set(ids) ^ (set(claimed) | {n['property'] for n in NA})
NOTE = 'Bounded: every path within the bounds listed in the evidence is executed symbolically and every assertion on it decided by z3; nothing is claimed beyond the bounds. Trusts the wasm semantics of /verif/engine (sampled paths and every counterexample are run on V8), rustc 1.81 for wasm32-wasi, z3, and the host model in /verif/harness.'
LVNOTE = NOTE + ' client/index.js is not executed symbolically: it is run on every sampled symbolic path (up to 3000 per run).'
man = {'version': 1, 'setup_cmd': 'python3 check.py --build',
       'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': 'path-exhaustive symbolic execution of the compiled code (wasm) with z3, counterexamples replayed on V8',
                   'level': 'model_checking', 'level_note': LVNOTE if 'view:' in PROPS[i]['tags'] else NOTE} for i in claimed],
       'not_applicable': NA,
       'notes': 'No hooks in /repo: the harness uses public APIs only. Known findings and repairs: known_findings.jsonl.'}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    for x in P: jsonschema.validate(x, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P), 'properties', len(claimed), 'claimed')
except ImportError:
    pass
