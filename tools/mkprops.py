"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

U='scarletio/utils/'; W='scarletio/web_common/'; D='scarletio/dns_query/'; T='scarletio/core/traps/'; E='scarletio/core/event_loop/'; PR='scarletio/core/protocols_and_transports/'
SAMPLE='The unit tests call each function on a handful of concrete inputs; the claim is over every input. '

p('C01','Multi-value dictionary is a faithful multimap',
  'After any sequence of operations a multi-value dictionary behaves as a map from each present key to a non-empty ordered list of distinct values: every read (single, all, membership, length of keys and items, iteration over keys, values and items, equality) agrees with that map, and every write changes only the values of the keys it names. Adding an existing (key, value) pair is a no-op, removing the last value of a key removes the key, and no caller or copied dictionary ever shares a value list with the dictionary.',
  ['inputs','histories'],'all keys/values, all multi-step operation histories, including aliasing between copies and returned lists',
  SAMPLE+'Representation invariant (non-empty, duplicate-free, unshared value lists) and frame conditions over arbitrary histories are not asserted anywhere.',
  [U+'multi_value_dictionary.py'],[('MultiValueDictionary',U+'multi_value_dictionary.py')],
  [('dict of value lists','key -> list of distinct values','class body')])
p('C02','Case-insensitive strings and header maps ignore casing only',
  'Two case-insensitive strings, or a case-insensitive string and a plain string, are equal exactly when they match after case-folding; inequality is the exact negation, equal case-insensitive strings have equal hashes, and comparing to an unrelated object never raises. A case-insensitive multi-value map gives the same result for a key in every casing, in every look-up, membership test and write.',
  ['inputs','histories'],'all strings (any casing / unicode), all comparison partners, all operation histories',
  SAMPLE+'Coherence of eq/ne/hash over all strings and of every map operation under re-casing is quantified over all inputs.',
  [U+'ignore_case_string.py',U+'ignore_case_multi_value_dictionary.py'],[('IgnoreCaseString',U+'ignore_case_string.py'),('IgnoreCaseMultiValueDictionary',U+'ignore_case_multi_value_dictionary.py')])
p('C03','A sorted list stays sorted and loses nothing',
  'After any sequence of operations the elements of a sorted list are in order (ascending, or descending if created or flagged reversed), and its contents are the multiset that the operations imply: add inserts one element or replaces an equal one, extend adds every given element, remove and pop take out one matching element or nothing, copy, resort and turning the direction keep all. Look-up by value or by key finds an element exactly when one is present, at an index holding it.',
  ['inputs','histories'],'all lists of totally ordered elements, both directions, all operation histories',
  SAMPLE+'Sortedness after insertion at any binary-search position needs an inductive invariant.',
  [U+'sorted_list.py'],[('SortedList.add / remove / index / get / pop / extend / copy / sort','scarletio/utils/sorted_list.py')],[('_reversed','direction of order','SortedList')])
p('C04','URL quoting: output safe, decodable and total',
  "For every encodable text, either mode, and every choice of ASCII safe / protected characters (other than the percent sign and, in query mode, the plus sign), quoting yields only unreserved, allowed, safe or protected characters and well-formed upper-case percent triplets ('+' for a space in query mode), every other character escaped byte by byte of its UTF-8 form; unquoting the output (after reading plus signs as spaces in query mode) gives back the text. Unquoting any text never raises: runs of percent triplets spelling UTF-8 characters become these characters; everything else, malformed and undecodable triplets included, stays in place.",
  ['inputs'],'all unicode strings and all safe/protected sets',
  SAMPLE+'Escaping errors live in unusual combinations (percent at the end, lower-case hex, multi-byte sequences cut by literals).',
  [W+'quoting.py'],[('quote / unquote',W+'quoting.py')])
p('C05','WebSocket frames: wire layout, masking and round trip',
  'Every frame written is laid out as RFC 6455 prescribes - flag and opcode byte, shortest of the three length forms, mask bit and four mask bytes exactly for a client - and reading back the written bytes from any chunking yields the same fin/reserved bits, opcode and payload while consuming exactly those bytes. Frames that violate the protocol (unmasked from client, masked from server, reserved bits set, unknown opcode, fragmented or over-long control frames, over-size payloads) are rejected with a protocol (or, over-size, a payload) error and valid ones never are.',
  ['inputs'],'all payloads, lengths (including the 125/126/65535/65536 boundaries), opcodes, masks, sides',
  SAMPLE+'Length forms, masks and every opcode/flag combination are far beyond sampled frames.',
  [W+'http_protocol.py',W+'web_socket_frame.py','scarletio/web_socket/web_socket_common_protocol.py'],[('read_web_socket_frame / write_web_socket_frame',W+'http_protocol.py'),('WebSocketFrame',W+'web_socket_frame.py'),('apply_web_socket_mask',W+'http_protocol.py')])
p('C06','Chunked transfer coding writes and reads exactly the body',
  'Whatever sequence of writes a body is produced with, the bytes put on the wire for a chunked message are a well-formed chunked coding (hex size, CRLF, that many bytes, CRLF, closed by one zero-size chunk) whose decoded content is the concatenation of the writes. Reading a chunked body gives back exactly the concatenated chunk data, stops right after the terminating chunk, and refuses malformed sizes or a missing CRLF with a payload error.',
  ['inputs','histories'],'all sequences of writes of all sizes, all chunk sizes and chunkings on the reading side',
  SAMPLE+'Order, size-line and terminator are relations between an unbounded list of writes and the wire.',
  [W+'http_stream_writer.py',W+'http_protocol.py'],[('HTTPStreamWriter.write / write_eof',W+'http_stream_writer.py'),('_read_chunked_by_chunk',W+'http_protocol.py')])
p('C07','Stream reads return the stream, byte for byte, in order',
  'However the peer splits its data into received chunks, the pieces handed out by successive exact, until-end-of-stream and single reads are, concatenated, exactly the bytes received, in order: no byte lost, duplicated or reordered and the unread rest stays available. An exact read returns exactly the requested count, or fails with an error when the stream ends first.',
  ['inputs','schedules','histories'],'all chunkings of all byte streams, all interleavings of receiving and reading, all read sizes',
  SAMPLE+'All splittings x all read sequences cannot be sampled; the offset bookkeeping fails only at specific splits.',
  [PR+'protocol.py'],[('_read_exactly_by_chunk / _read_until_eof_by_chunk / _read_once',PR+'protocol.py'),('data_received / eof_received',PR+'protocol.py')],[('_chunks/_offset','received but unread bytes','ReadProtocolBase')])
p('C08','Reading until a boundary stops at its first occurrence',
  'Reading until a boundary returns exactly the bytes before the first occurrence of the boundary in the received stream and leaves exactly the bytes after it unread, for every boundary and every way the stream is split into chunks.',
  ['inputs','schedules'],'all boundaries (self-overlapping ones included), all streams, all chunkings, all starting offsets',
  SAMPLE+'The boundary may be cut anywhere across any number of chunks.',
  [PR+'protocol.py'],[('_read_until_by_chunk and the intersection helpers',PR+'protocol.py')])
p('C09','HTTP message heads: parsing is total and faithful',
  'Parsing the start line and header block of an HTTP message either yields the method (upper-cased) and path or status and reason, the version and every header that the bytes spell (name trimmed and never empty; value trimmed, the parts of folded lines each trimmed and joined by one blank; in order, equal values of one name kept once by the header map), or fails with a payload error; no input makes it raise anything else, loop, or consume bytes of the body. A head produced by the writer from legal names and values (no line break, no colon in a name, no surrounding blanks) reads back as the same start line and headers.',
  ['inputs'],'all byte strings as received heads, all header maps on the writing side',
  SAMPLE+'Total behaviour on hostile input is quantified over all byte strings.',
  [W+'helpers.py',W+'http_protocol.py'],[('parse_http_headers / parse_http_request / parse_http_response',W+'helpers.py'),('write_http_request / write_http_response',W+'http_protocol.py')])
p('C10','Content-type parsing is total and reads RFC 7231 media types',
  'Parsing any text as a content type terminates without raising; for a text of the form type/subtype[+suffix] followed by parameters (token or quoted) it yields exactly those parts lower-cased and those parameters, malformed text after them changing none of these.',
  ['inputs'],'all strings','%sEnd-of-input, escapes in quoted strings and malformed separators only show on unusual strings.'%SAMPLE,
  [W+'content_type.py'],[('parse_content_type and its scanners',W+'content_type.py')])
p('C11','WebSocket negotiation headers: parse/build inverse, errors typed',
  'Parsing a connection, upgrade, sub-protocol or extension header either yields the listed items in order or raises a value error, whatever the text; no other exception and no non-termination. Building the extension or sub-protocol header from items and parsing it gives the same items back.',
  ['inputs'],'all strings; all lists of extensions with parameters',SAMPLE+'Hand-written scanners over positions fail at end-of-input and nesting cases.',
  [W+'header_building_and_parsing.py'],[('parse_* / build_*',W+'header_building_and_parsing.py')])
p('C12','URL path normalisation removes dot segments exactly',
  'Normalising the segments of a URL path drops every "." segment (a final one after something else leaves an empty last segment, i.e. a trailing slash) and resolves each ".." against the nearest preceding segment that is left, as a stack would; a ".." with nothing before it is dropped, so the path never escapes above the root. Every other segment is kept, in order; when nothing is left (or only an empty segment after something was removed) there is no path; and normalising again changes nothing.',
  ['inputs'],'all lists of path segments of any length',SAMPLE+'Backward scan with a pending-deletion counter needs an inductive invariant.',
  [W+'url/url_path.py'],[('normalize_path_parts',W+'url/url_path.py')])
p('C13','Cookies go only to matching hosts and paths',
  'A cookie that was stored for a domain is considered to match a host only if the host equals that domain, or is a sub-domain of it separated by a dot and not an IP address; and its path matches only requests whose path equals it or lies below it at a "/" boundary. A host-only cookie is never sent to any other host and a secure one never over an insecure connection.',
  ['inputs','histories'],'all domain/host/path strings',SAMPLE+'Suffix/prefix confusion is quantified over all strings.',
  [W+'cookiejar.py'],[('do_domains_match / do_paths_match / CookieJar.filter_cookies',W+'cookiejar.py')])
p('C14','Basic credentials survive the header round trip',
  'For every user name without a colon and every password, both encodable in the chosen encoding, decoding the built authorization header gives back an equal credential; a header that is not a well-formed basic credential is rejected with a value error and nothing else.',
  ['inputs'],'all user names, passwords, encodings and header texts',SAMPLE+'New-lines, colons in the password and non-ascii text are not sampled.',
  [W+'basic_authorization.py'],[('BasicAuthorization.to_header / from_header',W+'basic_authorization.py')])
p('C15','Message framing flags follow the headers',
  'For every HTTP message head the derived facts - connection kept alive, upgraded, chunked, content encoding - equal the function of version and headers that RFC 7230 gives (1.1 keeps alive unless the connection header mentions "close", 1.0 only when it mentions "keep-alive" and not "close"; chunked only when a transfer-encoding header says so; upgraded only when the connection header is "upgrade" and the upgrade header is not empty; any casing), and asking repeatedly or in any order gives the same answers.',
  ['inputs','histories'],'all header maps and versions, all query orders',SAMPLE+'Cached flag bits make the answer depend on query history.',
  [W+'http_message.py'],[('RawMessage properties',W+'http_message.py')],[('_cache_flags','which facts are cached and their values','RawMessage')])
p('C16','URL query text and query map are inverse',
  'Making a query from a mapping or pair list of texts, writing it escaped and parsing the written text gives back the same names and, for each name, the same distinct values in the same order (the pair of an empty name and an empty value is left out when the query is made), for all encodable texts; parsing any query text never raises and reads exactly its non-empty "&" separated items, each split at its first "=".',
  ['inputs'],'all names and values',SAMPLE+'Escaping of separators inside names/values is quantified over all strings.',
  [W+'url/url_query.py',W+'quoting.py'],[('parse_query / normalize_query / serialize_query',W+'url/url_query.py')])
p('C17','DNS name decoding terminates, stays in bounds, decodes correctly',
  'Decoding the name at any position of any byte string terminates, never reads outside the data, and yields either exactly the labels RFC 1035 spells there (compression pointers followed) with the position right after the name, or a parsing error.',
  ['inputs'],'all byte strings and start positions, including cyclic pointers',SAMPLE+'Hostile pointers (self, cyclic, forward, out of range) cannot be sampled exhaustively.',
  [D+'building_and_parsing.py'],[('_parse_labels',D+'building_and_parsing.py')])
p('C18','DNS messages: query layout and response parsing are faithful',
  'A query built from questions is the RFC 1035 message for them, for every transaction id and label list, and parses back to the same questions. Parsing any response bytes either yields the questions and records the bytes spell or a parsing error object - no exception, no out-of-bounds access.',
  ['inputs'],'all questions; all response byte strings',SAMPLE+'Truncated and inconsistent counts/lengths only show on crafted bytes.',
  [D+'building_and_parsing.py',D+'question.py',D+'result.py'],[('build_query_data / parse_result_data',D+'building_and_parsing.py')])
p('C19','IP address text and number conversions are inverse',
  'For every 32-bit (128-bit) number, the IPv4 (IPv6) text produced for it denotes that number, and the numeric value read from a resource record is the big-endian value of its bytes; reverse look-up names list the parts in the order the DNS prescribes.',
  ['inputs'],'all 2^32 / 2^128 addresses, all records',SAMPLE+'Shift and mask errors show only for specific byte patterns.',
  [D+'helpers.py',D+'building_and_parsing.py'],[('ip conversion helpers',D+'helpers.py')])
p('C20','DNS name escaping: text and labels are inverse',
  'A text spells labels: an unescaped dot ends one, a backslash before three ASCII digits up to 255 stands for the character of that code, a backslash before any other character for that character; a last empty label is dropped. Splitting a text gives exactly the labels it spells (non-ASCII ones in their IDNA form), each of 1 to 63 bytes; the root names "", ".", "@", "@." give none; every other text is refused with a value error and nothing else. Joining labels into a text and splitting it again gives the same labels, for every non-empty list of legal labels: 1 to 63 bytes, ASCII without the prefix "xn--", or an IDNA label which the codec decodes to a non-ASCII text it encodes to that label again.',
  ['inputs'],'all texts and label lists',SAMPLE+'Dots, IDNA and length limits on all strings.',
  [D+'building_and_parsing.py',D+'helpers.py'],[('parse_labels_from_name',D)])
p('C21','A future resolves at most once and tells every listener once',
  'Over its life a future goes from pending to exactly one of result, exception, cancelled, and never changes again: later attempts to set it are refused or reported as having no effect, readers always see that outcome. Every callback registered before or after completion and not removed is scheduled exactly once, after completion, with the future; a removed one never.',
  ['histories','schedules'],'all operation histories on a future, all callback lists',SAMPLE+'One-shot-ness and exactly-once scheduling are properties of histories.',
  [T+'future.py',T+'future_states.py'],[('Future.set_result / set_exception / cancel / add_done_callback / remove_done_callback / _loop._schedule_callbacks',T+'future.py')],[('_state','flag bits','Future'),('_callbacks','not yet scheduled callbacks','Future')])
p('C22','A task reports its coroutine\'s outcome and honours cancellation once',
  'A task finishes exactly when its coroutine returns, raises or is cancelled, with that value or exception; it advances its coroutine only while not done, one step at a time, and waits for exactly the future the coroutine yielded. A cancellation accepted on a pending task is passed to the future it waits for or, when there is none that could take it, is thrown into the coroutine at its next step, exactly once; cancelling a finished task changes nothing but its silencing, and its result cannot be set from outside.',
  ['schedules','histories'],'all coroutine behaviours per step, all cancel timings',SAMPLE+'Step/cancel interleavings.',
  [T+'task.py'],[('Task._step / cancel / cancel_with / _wake_up',T+'task.py')])
p('C23','An async queue is FIFO, loses nothing and respects its bound',
  'For any interleaving of putters, takers and cancellations (one loop): every item put on an async queue is taken by exactly one taker, once - the oldest first, in the LIFO variant the newest first, by every way of taking - unless the queue is cleared; a put succeeds only below the bound and never drops an item, and a refused or cancelled put adds nothing. A cancelled taker takes nothing. No taker is left waiting while there is an item or an exception is set, no putter while there is place. After an exception is set, takers get the remaining items first and then the exception (iteration ends when it is a cancellation); a putter waiting then is told that its item was not added. Reversing, copying and reading lose nothing. (A preset iterable longer than the bound is outside.)',
  ['schedules','histories'],'all interleavings of putting, taking, cancelling',SAMPLE+'Interleavings and cancellations at each wait point are not enumerated.',
  [T+'queues.py'],[('AsyncQueue',T+'queues.py')])
p('C24','Locks exclude, hand over in order, and are always released',
  'At any time at most one holder (or, for the counting lock, at most its size) is inside an async lock; waiters enter in the order they arrived, and when a holder leaves - normally, by exception or by cancellation - or a waiter gives up (before or after it was let in), the next waiter proceeds and the order of the others stays. The lock reports itself locked exactly when no further holder could enter.',
  ['schedules','histories'],'all interleavings of enter, exit, cancel',SAMPLE+'Cancelling at the moment of hand-over.',
  [T+'locks.py'],[('Lock / ScarletLock',T)])
p('C25','An event wakes every waiter when set and blocks while clear',
  'Waiting on an event returns only after the event was set at or after the wait began; setting it wakes every waiter exactly once, setting a set event or clearing a clear one changes nothing, and a waiter that gives up affects no other.',
  ['schedules','histories'],'all interleavings of wait, set, clear, cancel',SAMPLE+'Interleavings.',
  [T+'event.py'],[('Event',T+'event.py')])
p('C26','A payload stream delivers what was put in, then its end',
  'What a reader takes from a payload stream is, in order and without loss or repetition, what was added, for any interleaving of the adding and the reading side (one reader at a time): the end is reported only after everything added was delivered, a chunk added after the end is refused. Only the first end - success, failure, cancellation or abort - counts; a failed stream may drop what is still buffered, and every pending and later read of it fails with that failure. A waiting reader is woken by what it waits for, done callbacks run exactly once, and breaking a reader off aborts the stream.',
  ['schedules','histories'],'all interleavings',SAMPLE+'Interleavings of producer, consumer and cancellation.',
  ['scarletio/core/protocols_and_transports/payload_stream.py'],[('PayloadStream','payload_stream.py')])
p('C27','Scheduled calls run once, in order, never early, never if cancelled',
  'A call scheduled on the event loop runs at most once, and never after it was cancelled; calls ready at the same time run in scheduling order, timers not before their due time and in due order. An exception from one call stops neither the loop nor the other calls.',
  ['schedules','histories'],'all sets of handles and timers, cancellations at any point',SAMPLE+'Heap order, cancellation and exceptions combined.',
  [E+'event_loop.py',E+'handles.py'],[('Handle / TimerHandle / EventThread.runner',E)])
p('C28','A task group accounts for every future exactly once',
  'Every future put into a task group is at any time in exactly one of its pending and done sets, moves from pending to done exactly when it finishes, and is handed out by at most one popping request; adding one twice changes nothing; a cancelled request takes nothing with it; waiting requests resolve when (and only when) their condition holds.',
  ['schedules','histories'],'all histories of adding, finishing, waiting, popping, cancelling',SAMPLE+'Set membership over all histories.',
  [T+'task_group.py'],[('TaskGroup',T+'task_group.py')])
p('C29','Streamed ZIP archives are well-formed and lossless',
  'For every list of files (names that can be encoded in UTF-8, shorter than 65536 bytes and without NUL; stored or deflated; the default name deduplication), the streamed archive is a valid ZIP64 archive whose entries have pairwise distinct names, whose sizes, CRCs and offsets are those of the streamed data, and which an independent reader extracts to exactly the input contents in order, however the contents are chunked.',
  ['inputs'],'all file lists, name clashes, contents, chunkings',SAMPLE+'Offsets accumulate over an unbounded list; name clashes are combinatorial.',
  ['scarletio/streaming/zip_streaming/'],[('create_zip_stream_resource and helpers','scarletio/streaming/zip_streaming/')])
p('C30','Weak containers forget dead referents and nothing else',
  'A weak set, map or dictionary contains exactly the entries whose referents are alive, whatever the timing of garbage collection relative to iteration and mutation.',
  ['schedules','histories'],'all collection timings',SAMPLE+'Collection timing.',
  [U+'weak_core.py',U+'weak_set.py',U+'weak_map.py',U+'weak_key_dictionary.py',U+'weak_value_dictionary.py'],[('weakref callbacks + iterating flag',U+'weak_core.py')])
p('C31','Executor calls complete exactly once across threads',
  'A function submitted to the event loop\'s executor runs exactly once and its result or exception reaches the waiting future, whatever the thread schedule, and loop shutdown leaves no worker running.',
  ['schedules'],'all thread schedules',SAMPLE+'Thread interleavings.',
  [E+'executor.py',E+'event_loop.py'],[('Executor / run_in_executor',E+'executor.py')])
p('C32','Connections are pooled and given back without leaks',
  'Every protocol opened by the HTTP connector belongs at any time to exactly one of: one connection, the pool of its key, the closed ones, the detached ones. connect hands out a pooled protocol only for an equal key (host, port, proxy, TLS and its settings), to one connection at a time, with its count of requests, and only while it has a transport, has not expired, was not closed or written to by the server and has no unfinished payload; otherwise a new one. Releasing, closing, detaching or dropping a connection (on a running loop), whatever its callbacks do, gives its protocol back exactly once: pooled until now plus the keep-alive timeout when both sides allow another request, else closed (detaching leaves it open and forgets it); every callback runs once. Clean-up closes and forgets exactly the pooled ones that expired and is due again while something is pooled; closing the connector (on a running loop) closes every protocol pooled or in use, and a connection being opened meanwhile is closed too.',
  ['schedules','histories','fault_sequences'],'all histories of connecting, giving back, server actions, time, clean-up',SAMPLE+'Histories of pool operations; which entry is expired, closed or half-read when is combinatorial.',
  ['scarletio/http_client/connector_base.py','scarletio/http_client/connection.py','scarletio/http_client/protocol_basket.py','scarletio/http_client/connection_key.py','scarletio/web_common/http_protocol.py'],[('ConnectorBase',"scarletio/http_client/connector_base.py"),('Connection',"scarletio/http_client/connection.py"),('ProtocolBasket',"scarletio/http_client/protocol_basket.py"),('HttpReadProtocol.should_close',"scarletio/web_common/http_protocol.py")])

p('C33','A socket transport sends what is written, in order and once',
  'Everything a socket or write-pipe transport accepts (write, writelines) reaches the file in the order of the writes, without loss, repetition or reordering, however much the file takes at a time, whatever the chunks are and whatever the protocol does when it is paused or resumed (raise, write, close), unless the connection fails or is aborted. What was accepted and not yet taken stays buffered, and the writer is registered exactly while something is buffered. write_eof and close take effect only once everything accepted was sent, the end being told once; nothing may be written after write_eof on a socket, and what is written to a lost one is dropped without an error. On a failure or abort the buffer is dropped and the loss reported. The loss is told to the protocol exactly once, then the file is closed and the server told, even if the protocol raises. The protocol is paused when more than the high mark is buffered and resumed once at most the low mark is. Bytes that come in are handed over once, in order; an end closes the transport unless the protocol keeps it; a paused, closing or lost transport does not read. Outside: datagram and TLS transports, drain().',
  ['inputs','histories','schedules','fault_sequences'],'all chunks, partial takes, failures, protocol reactions',SAMPLE+'How much the file takes at each moment and what the protocol does then is combinatorial.',
  ['scarletio/core/protocols_and_transports/transport_layer.py','scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py'],[('SocketTransportLayer',"scarletio/core/protocols_and_transports/transport_layer.py"),('SocketTransportLayer._write_ready',"scarletio/core/protocols_and_transports/transport_layer.py"),('UnixWritePipeTransportLayer',"scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py")])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
