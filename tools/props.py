#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
E='pkg/encoding/'
p('C01','Varints encode and decode every 64-bit value exactly',
 'Encoding any 64-bit value produces HAProxy\'s variable-length integer format and both decoders (from a byte slice and from a byte reader) return that same value and consume exactly the bytes written, whatever follows them. Encoding fails with the insufficient-space error exactly when the destination is shorter than the encoding, and never touches bytes past the encoding. On arbitrary input both decoders agree with the format, and report an unterminated-sequence error exactly when the input ends before the integer does.',
 ['inputs'],'all uint64 values, all destination lengths, all byte strings up to 12 bytes',
 'Test_encode samples one value; there are 2^64 values with nine length boundaries and the tests never decode arbitrary bytes.',
 [E+'varint.go'],[('PutVarint',E+'varint.go'),('Varint',E+'varint.go'),('ReadVarint',E+'varint.go')],
 ['encoding.PutVarint','encoding.Varint','encoding.ReadVarint'])
p('C02','Typed key/value pairs survive a write/scan round trip',
 'Any sequence of key/value pairs of any supported type written with the key/value writer is read back by the key/value scanner with the same names, types and values, in the same order, and then the scanner reports the end without an error. The bytes the writer reports are exactly the bytes of those entries, independent of where in the buffer writing started.',
 ['inputs','histories'],'all names and values (symbolic lengths and contents), all value types, sequences of entries up to the stated length',
 'TestKVWriter checks one string pair against a golden value; tests never vary lengths across varint boundaries, types or sequences.',
 [E+'kvwriter.go',E+'kvscanner.go',E+'encoding.go'],[('KVWriter.Set*',E+'kvwriter.go'),('KVScanner.Next',E+'kvscanner.go'),('PutBytes/PutAddr',E+'encoding.go')],
 ['encoding.KVWriter','encoding.KVScanner','encoding.KVEntry'])
p('C03','Action lists are encoded exactly as the handler requested them',
 'Whatever sequence of set/unset actions a handler issues, the encoded action list is exactly the SPOE encoding of those actions in order: action type, argument count, scope, name and typed value, for every scope, name, type and value. This holds regardless of the initial buffer size, how often the buffer has to grow, and any bytes already present in it.',
 ['inputs','histories'],'all scopes, names, values and value types, all initial buffer sizes/offsets; action sequences up to the stated length',
 'TestActionWriter checks a single set-string against a golden value in an oversized buffer; growth, other types, and sequences are untested.',
 [E+'actionwriter.go',E+'encoding.go'],[('ActionWriter.Set*/Unset',E+'actionwriter.go'),('grow',E+'actionwriter.go'),('varintLen',E+'actionwriter.go')],
 ['encoding.ActionWriter.Bytes'])
p('C04','SPOP payload decoders are safe on arbitrary bytes',
 'Scanning key/value data or messages over arbitrary bytes never panics, always terminates, and never exposes bytes outside the buffer it was given. A payload that is cut off in the middle of a field, or names an unknown data type, ends the scan with an error instead of a partial entry. Every entry that is reported agrees with the wire format.',
 ['inputs'],'all byte strings up to the stated length, any capacity behind them, any entry count',
 'Existing tests only scan payloads produced by the library\'s own writers; no malformed payload is ever tried.',
 [E+'kvscanner.go',E+'messagescanner.go'],[('KVScanner.Next',E+'kvscanner.go'),('MessageScanner.Next',E+'messagescanner.go'),('KVScanner.Discard',E+'kvscanner.go')],
 ['encoding.KVScanner','encoding.MessageScanner'])
p('C05','Every message in a NOTIFY payload gets exactly its own arguments',
 'When a payload carries several messages, the message scanner yields each message once, in order, with its own name, and its argument scanner yields exactly that message\'s arguments and stops there. This holds however many of the arguments of the preceding messages the consumer read before moving on.',
 ['inputs','histories'],'all message names, argument counts and typed values within the stated sizes, all amounts of arguments consumed by the handler',
 'Tests contain only single-message payloads, so the boundary between two messages is never crossed.',
 [E+'messagescanner.go',E+'kvscanner.go','spop/protocol.go'],[('MessageScanner.Next',E+'messagescanner.go'),('KVScanner entry count',E+'kvscanner.go')],
 ['encoding.MessageScanner.Next','encoding.Message.KV'])
p('C06','A failed write leaves the encoder output well-formed',
 'If adding a key/value pair or an action fails (not enough space, invalid address), an error is returned rather than a panic, and the encoder\'s reported output is exactly what it was before the call. A pair is rejected for lack of space exactly when it does not fit in the remaining buffer, and later successful writes still produce a well-formed list.',
 ['inputs','histories'],'all buffer sizes, write offsets, names, values and types within the stated bounds',
 'No test makes a writer run out of space or passes an invalid address.',
 [E+'kvwriter.go',E+'actionwriter.go',E+'encoding.go'],[('KVWriter.Set*',E+'kvwriter.go'),('ActionWriter.SetAddr',E+'actionwriter.go')],
 ['encoding.KVWriter.Bytes','encoding.ActionWriter.Bytes'])
p('C07','Struct unmarshalling assigns exactly the matching typed values',
 'Unmarshalling key/value data into a tagged struct sets each tagged field to the value of the entry with that key (the last one wins), ignores unknown keys, and resets optional pointer fields whose key is absent or null to nil. A value whose wire type does not match the field is rejected with an error rather than converted. Malformed data, and targets or fields that are not supported, give an error and never a panic. Fields without a matching entry or tag keep their contents. Decoded values do not alias the input buffer, and what was taken from the fields of a struct stays as it is when the struct is filled again.',
 ['inputs','histories'],'all entry sequences up to the stated length over known/unknown keys, all wire types and values, all prior struct contents',
 'Table tests cover four happy payloads and one mismatch; the type/field matrix, order, duplicates and reuse of a dirty struct are not covered.',
 [E+'kvunmarshal.go'],[('KVScanner.Unmarshal',E+'kvunmarshal.go'),('setValue',E+'kvunmarshal.go')],['encoding.KVScanner.Unmarshal'])
p('C08','SPOP frames are read whole, bounded and independent of segmentation',
 'However the byte stream is split into reads, an SPOP frame is decoded with exactly the type, flags, stream-id, frame-id and payload that were sent, and consumes exactly its own bytes. A frame whose announced length exceeds the limit in force is rejected without reading or allocating its payload, and a truncated or too-short frame yields an error, never a panic or bytes left over from another frame. Writing a frame and reading it back is the identity.',
 ['inputs','schedules'],'all header values, payloads and lengths within bounds, all segmentations of the stream, all truncation points',
 'Tests use three lengths and an in-memory buffer that never returns short reads.',
 ['spop/frame.go','pkg/buffer/slicebuf.go'],[('frame.readFrom',"spop/frame.go"),('decodeHeader/encodeHeader','spop/frame.go'),('framePool','spop/frame.go')],
 ['frame fields after ReadFrom','bytes written by WriteTo'])
p('C09','SPOP sessions start only with a valid HELLO and echo its frame size',
 'An agent answers a connection\'s first frame with exactly one AGENT-HELLO carrying version 2.0, no capabilities, and the offered max-frame-size, if that frame is a HAPROXY-HELLO offering a size from 256 to 2^31-1. Any other first frame, a missing or out-of-range size, or malformed HELLO data ends the session without an AGENT-HELLO and without invoking the handler. A HELLO flagged as a health check is answered and the session then ends.',
 ['inputs','histories'],'all first frames up to the stated payload length, all offered sizes, all orders and subsets of HELLO items',
 'TestProtocolMaxFrameSizeOffer tries three offers; item order, missing items, other frame types and the lower limit are untested.',
 ['spop/protocol.go','spop/frames.go'],[('Serve','spop/protocol.go'),('onHAProxyHello','spop/protocol.go'),('AgentHelloFrame.WriteTo','spop/frames.go')],
 ['bytes written to the connection','handler invocations','Serve result'])
p('C10','Each NOTIFY is answered by one ACK with its ids and its actions',
 'After the HELLO exchange every NOTIFY frame leads to exactly one ACK frame that carries the NOTIFY\'s stream-id and frame-id, the FIN flag, and exactly the actions its handler calls produced, and the handler is invoked once per message in order. An ACK never exceeds the negotiated frame size: if the actions do not fit, no part of the ACK is written.',
 ['inputs','histories'],'all stream/frame ids, negotiated sizes, message contents and action lists within bounds',
 'TestFakeCon and the e2e tests use one id pair at a time and a handler that succeeds; ids are not compared and the size limit on ACKs is not reached.',
 ['spop/protocol.go','spop/frames.go'],[('onNotify','spop/protocol.go'),('AckFrame.writeTo','spop/frames.go')],
 ['bytes written to the connection','handler invocations'])
p('C11','Bad frames and panicking handlers never take the agent down',
 'No byte stream sent by a client and no handler panic can crash the process, stop the agent from serving its other connections, or use up its workers: after any such event a well-formed NOTIFY on another (or, if still open, the same) connection is still answered. A frame that fails leaves no partial ACK on the wire.',
 ['inputs','fault_sequences','schedules'],'all byte streams up to the stated length, all handler panic points, repeated faults up to and beyond the number of workers',
 'The e2e test makes one handler panic once per request with well-formed frames only; malformed streams are never sent.',
 ['spop/agent.go','spop/scheduler.go','spop/protocol.go'],[('wrapPanic','spop/agent.go'),('queueWorker','spop/scheduler.go'),('Agent.Serve','spop/agent.go')],
 ['process liveness','bytes written to other connections'])
p('C12','No data leaks between frames through pooled buffers',
 'What the agent reads from, hands to the handler for, and writes in reply to a frame depends only on that frame and its session, never on the contents of previously processed frames, messages or connections. In particular a shorter frame processed after a longer one never exposes the longer frame\'s bytes, names, values or metadata.',
 ['inputs','histories'],'all pairs of (earlier frame, later frame) contents within the stated lengths, including malformed ones',
 'Tests never compare processing with a fresh and a reused pooled object.',
 ['spop/frame.go',E+'kvscanner.go',E+'messagescanner.go',E+'actionwriter.go'],[('acquire/release functions','spop/frame.go, pkg/encoding/*.go'),('KVEntry.Reset',E+'kvscanner.go')],
 ['handler arguments','bytes written'])
p('C13','Frames are dispatched to workers exactly once under every schedule',
 'Every frame a connection hands to the agent\'s worker pool is processed exactly once, and frames are taken up in the order they were handed over, under every interleaving of connections and workers, including when the backlog is full or empty. A blocked connection or worker always resumes once there is room or work: no wake-up is lost and no frame is overwritten.',
 ['schedules','histories'],'all interleavings of the stated numbers of producers and workers; one step from every reachable queue state of any capacity',
 'The high-rate e2e test samples a few of the interleavings and cannot observe a full queue deterministically.',
 ['spop/scheduler.go'],[('queue.Put/Get','spop/scheduler.go'),('asyncScheduler','spop/scheduler.go')],
 ['frames handled per connection'])
p('C14','Frames written by the agent are never interleaved or torn',
 'Whatever the timing of handlers completing concurrently and of the session shutting down, the bytes the agent writes to a connection are a concatenation of complete, correctly length-prefixed frames, none of them written twice. Only the very last frame may be cut short, and only if writing to the connection failed or the connection was closed; once that happened no further bytes follow on that connection.',
 ['schedules','inputs','fault_sequences'],'all interleavings at write boundaries of two concurrent acknowledgements and a shutdown',
 'Tests never run two handlers on one connection at once nor close a session during an ACK.',
 ['spop/frame.go','spop/frames.go','spop/protocol.go'],[('frame.writeTo','spop/frame.go'),('protocolClient.Close','spop/protocol.go')],
 ['byte stream seen by the client'])
p('C15','Ending an SPOP session cancels its context and closes the connection',
 'The context passed to handlers is live while the session is, and is cancelled once the client disconnects (DISCONNECT frame, end of stream or read error), the session fails, or the agent\'s base context ends. When reading from a client ends, the connection is closed, the goroutines of the session end, and at most one AGENT-DISCONNECT is written; a client-initiated disconnect with a normal, I/O or timeout status is not reported as an error while any other status is.',
 ['histories','fault_sequences','inputs'],'all points at which the stream can end, all status codes, all item orders in the DISCONNECT frame',
 'One e2e test checks cancellation for one timing; status codes, malformed disconnects and connection closing are untested.',
 ['spop/protocol.go','spop/agent.go'],[('Close','spop/protocol.go'),('onHAProxyDisconnect','spop/protocol.go'),('Agent.Serve','spop/agent.go')],
 ['handler context','connection close','bytes written','Serve result'])
p('C16','Peer messages are framed exactly, for any stream segmentation',
 'However the stream is split into reads, a peer message is decoded with exactly the class, type and payload sent and consumes exactly its own bytes; messages with type below 128 have no payload. A stream that ends inside a message gives an error, and no announced length makes the process panic or reserve memory beyond a fixed limit before the data has arrived.',
 ['inputs','schedules'],'all class/type values, all payload lengths within bounds plus all announced 64-bit lengths, all segmentations',
 'The writer tests only exchange a handful of valid messages over loopback.',
 ['peers/protocol.go','pkg/encoding/varint.go'],[('rawMessage.ReadFrom','peers/protocol.go')],
 ['rawMessage fields','allocation size','bytes consumed'])
p('C17','Stick-table definitions survive an encode/decode round trip',
 'Encoding any stick-table definition (id, name, key type, key length, expiry and any set of known data types in ascending order, with their counter and period for rate types) and decoding it yields an equal definition and consumes exactly the encoded bytes. The encoding follows HAProxy\'s field order, and if the destination is too small encoding fails with an error rather than truncating.',
 ['inputs'],'all field values (64-bit), names of symbolic length, all subsets of data types within the stated size, all destination sizes',
 'One definition with one data type is tested.',
 ['peers/sticktable/sticktables.go','peers/sticktable/constants.go'],[('Definition.Marshal/Unmarshal','peers/sticktable/sticktables.go'),('DataType.IsDelay','peers/sticktable/constants.go')],
 ['sticktable.Definition'])
p('C18','Stick-table entry updates survive an encode/decode round trip',
 'Encoding any entry update (optional update id and expiry, a key of any supported type, and data values of any supported type) and decoding it against the same definition yields equal ids, expiry, key and data and consumes exactly the encoded bytes. Encoding does not modify the entry, and a destination that is too small gives an error or is rejected, never a silently truncated encoding.',
 ['inputs'],'all key types and data types, all values (full integer ranges, addresses, symbolic-length strings/binary/dictionary values), all destination sizes',
 'Table tests use one sample value per type; dictionary references, short binary keys, boundary integers and small buffers are untested.',
 ['peers/sticktable/sticktables.go','peers/sticktable/values.go'],[('EntryUpdate.Marshal/Unmarshal','peers/sticktable/sticktables.go'),('MapKey/MapData implementations','peers/sticktable/values.go')],
 ['sticktable.EntryUpdate'])
p('C19','Stick-table decoders are safe on arbitrary bytes',
 'Decoding a definition or an entry update from arbitrary bytes never panics: it either returns an error or a value decoded only from the given bytes (whatever follows them in memory and whatever the destination held before), with a reported length that does not exceed the input. A field that the input does not hold completely gives an error, never a shorter or missing value that passes for the sent one. No announced length makes the decoder reserve memory out of proportion to the input.',
 ['inputs'],'all byte strings up to the stated length, all decoded definitions (any key type, key length, data types)',
 'Tests decode only what the library itself encoded.',
 ['peers/sticktable/sticktables.go','peers/sticktable/values.go','peers/sticktable/constants.go'],[('Definition.Unmarshal','peers/sticktable/sticktables.go'),('EntryUpdate.Unmarshal','peers/sticktable/sticktables.go'),('MapKey/MapData Unmarshal','peers/sticktable/values.go'),('KeyType.New','peers/sticktable/constants.go')],
 ['returned error/length'])
p('C20','Peer updates reach the handler once, in order, with the right ids',
 'Each of the four entry-update message kinds leads to exactly one handler call, in stream order, with the decoded key and data, the expiry if the kind carries one, and the most recent table definition. The update id is the explicit one if the kind carries one and otherwise one more than the previous update\'s id; an update without a preceding definition, and a definition or an update that cannot be decoded, end the session with an error and no handler call. Later messages do not change what the handler was given.',
 ['inputs','histories'],'all sequences of the stated number of messages over all update kinds and definitions, all ids (including wrap-around) and values',
 'TestWriterRoundTrip sends one explicit update; incremental ids, expiry kinds and redefinitions are untested.',
 ['peers/protocol.go'],[('StickTableUpdateMessageType.OnMessage','peers/protocol.go')],['HandleUpdate calls'],
 [dict(name='lastEntryUpdate',meaning='base of incremental ids',where='peers/protocol.go'),dict(name='lastTableDefinition',meaning='definition for the next updates',where='peers/protocol.go')])
p('C21','A remote peer cannot crash the process',
 'Whatever bytes a connecting peer sends, before or after the handshake and in any segmentation, the process does not panic: the session either continues or ends with an error, and other peer sessions are unaffected.',
 ['inputs','fault_sequences'],'all byte streams up to the stated length after a valid handshake, and all handshake texts up to the stated length',
 'Tests act as a well-behaved peer only.',
 ['peers/protocol.go','peers/messages.go','peers/peers.go','peers/sticktable/values.go'],[('Serve','peers/protocol.go'),('messageHandler','peers/protocol.go')],
 ['process liveness'])
p('C22','Pushed stick-table updates form a valid stream with consecutive ids',
 'Everything sent through a peer connection\'s writer is a sequence of complete peer messages that decode to exactly the definitions, switches and entries that were sent, in order, with expiry present exactly on timed entries, whether entries are sent singly or in batches. Update ids start at 0 and increase by one per entry over the connection\'s lifetime.',
 ['inputs','histories'],'all sequences of the stated number of writer calls, all definitions/entries within bounds',
 'Writer tests send fixed entries and mostly only check that no error is returned.',
 ['peers/writer.go'],[('SendTableDefinition/SendTableSwitch/SendEntry/SendEntries','peers/writer.go'),('marshalEntry','peers/writer.go')],
 ['bytes written to the connection'],[dict(name='nextUpdateID',meaning='id of the next pushed entry',where='peers/writer.go')])
p('C23','Concurrent writes on a peer connection never interleave',
 'Under every interleaving of goroutines pushing definitions and entries, heartbeats and protocol replies, the bytes on the connection are a concatenation of complete messages, each entry carries a distinct update id, ids appear in increasing order on the wire, and a batch is contiguous. There is no deadlock - also after a write failed or an entry could not be encoded - and no unsynchronised access to the shared output.',
 ['schedules'],'all interleavings (at synchronisation points) of the stated numbers of concurrent senders',
 'No test sends from more than one goroutine.',
 ['peers/writer.go','peers/protocol.go'],[('shared mutex','peers/writer.go, peers/protocol.go'),('lockedWrite','peers/protocol.go')],
 ['byte stream seen by the peer'])
p('C24','The peer handshake is parsed and answered exactly',
 'A well-formed peer hello, however segmented, is reported to the handler once with exactly the identifiers, version and process ids sent and is answered with status 200 and nothing else, before any other message (also if the handler sends updates as soon as it learns about the session). A malformed hello ends the session without a success status and without any update being delivered; writing a handshake and reading it back yields the same fields, a handshake made for connecting to a peer names that peer, the local host and the process, and messages sent right behind a hello are not lost.',
 ['inputs','schedules'],'all hello field values within the stated lengths, all segmentations, all truncations',
 'Tests use one fixed hello and wait for the status before sending anything else.',
 ['peers/messages.go','peers/protocol.go'],[('Handshake.ReadFrom/WriteTo','peers/messages.go'),('peerHandshake','peers/protocol.go')],
 ['HandleHandshake argument','bytes written'])
p('C25','Peer heartbeats keep live sessions up and silent ones are closed',
 'While a peer session is up a heartbeat is sent at least every three seconds. A session on which the peer stays silent for five seconds is ended: its context is cancelled, the handler is closed and the connection is closed; a session on which the peer sends a message at least every five seconds is never ended for inactivity, and the time the handler spends on an update does not count as silence of the peer.',
 ['schedules','histories'],'all (symbolic) inter-message delays for the stated number of messages',
 'No test waits for a heartbeat or a silent peer; delays are continuous and tests sample none.',
 ['peers/protocol.go'],[('heartbeat','peers/protocol.go'),('lastMessage','peers/protocol.go'),('resetLastMessage','peers/protocol.go')],
 ['bytes written over time','connection close','context'])
p('C26','Control and error messages get the prescribed reaction',
 'A synchronisation request is answered with exactly one partial-synchronisation message; the other control messages, acknowledgements and table switches are accepted without a reply or handler call. Error-class messages, unknown classes and unknown types end the session with an error.',
 ['inputs','histories'],'all 65536 class/type pairs, in sequences of the stated length',
 'No test sends any control or error message on purpose.',
 ['peers/protocol.go','peers/constants.go'],[('messageHandler','peers/protocol.go'),('OnMessage methods','peers/protocol.go')],
 ['bytes written','session result','handler calls'])
p('C27','A peer session is torn down exactly once',
 'However a peer session ends (end of stream, read error, protocol error, inactivity, failed write, or several at once), the handler is closed exactly once, the session context is cancelled, and the connection is closed; the handler receives no update after it was closed by the end of the session. The background timers of the session stop with it.',
 ['schedules','fault_sequences','histories'],'all interleavings of the session\'s end with its timer goroutines, all error points within bounds',
 'Tests never check Close calls and cannot schedule two simultaneous endings.',
 ['peers/protocol.go','peers/peers.go'],[('Close','peers/protocol.go'),('Peer.Serve','peers/peers.go')],
 ['Handler.Close calls','context','connection close'])
p('C28','The slice buffer behaves like a bounded byte queue',
 'From any valid buffer state, any sequence of write, read, advance, grow and reset operations behaves as on an abstract byte queue: unread bytes are preserved and returned in order, growing preserves contents and guarantees the requested room, and reads and writes never overlap or reach outside the buffer.',
 ['histories','inputs'],'one arbitrary operation from every valid symbolic state (any size, offsets, contents), hence histories of any length',
 'The buffer has no tests of its own.',
 ['pkg/buffer/slicebuf.go'],[('SliceBuffer','pkg/buffer/slicebuf.go')],['buffer.SliceBuffer methods'])
p('C29','All key-name comparison methods agree with byte equality',
 'For every entry name and every candidate, the three name comparison methods return true exactly when the name and the candidate have the same bytes, including empty names, names sharing prefixes and names with arbitrary bytes.',
 ['inputs'],'all names and candidates up to the stated length',
 'The comparison methods are only exercised with a few fixed keys.',
 [E+'kvscanner.go'],[('NameEquals/NameEqualBytes/NameEqualUnsafe',E+'kvscanner.go')],['encoding.KVEntry.NameEqual*'])
p('C30','Stick-table data types have HAProxy\'s wire representation',
 'Every known data type maps to the value kind HAProxy uses for it on the wire, with a fresh value on every request; exactly the rate types carry counter and period parameters in a definition; unknown data or key types are reported as unknown rather than decoded as something else.',
 ['inputs'],'all integer data-type and key-type codes',
 'Tests touch four of the 27 data types.',
 ['peers/sticktable/constants.go'],[('DataType.New','peers/sticktable/constants.go'),('DataType.IsDelay','peers/sticktable/constants.go'),('KeyType.New','peers/sticktable/constants.go')],
 ['sticktable.DataType.New','sticktable.DataType.IsDelay','sticktable.KeyType.New'])
p('C31','Protocol codes have total, unambiguous names',
 'Every protocol code (handshake status, message class and types, key and data types, SPOP error codes), known or not, can be rendered as text without panicking; distinct known codes have distinct names and an unknown code never gets the name of a known one.',
 ['inputs'],'all values of the underlying integer types',
 'No test renders a code.',
 ['peers/constants_string.go','peers/sticktable/constants_string.go','peers/sticktable/constants.go','spop/error.go'],[('String methods','generated and hand-written')],
 ['String()'])
p('C32','The test transport and repeat reader deliver exact byte streams',
 'The repeat reader returns the endless repetition of its data for any sequence of read sizes and reports end of input only for empty data. The in-memory connection pair delivers the bytes written on one end on the other end in order and unaltered for any segmentation of reads and writes, and after closing, operations fail instead of blocking. A deadline is either kept or reported as not supported.',
 ['inputs','schedules'],'all data and read sizes within bounds, all segmentations of the stated number of writes/reads',
 'Tests use fixed sizes (same, double, huge) and a single exchange.',
 ['pkg/testutil/reader.go','pkg/testutil/pipeconn.go'],[('RepeatReader.Read','pkg/testutil/reader.go'),('PipeConn','pkg/testutil/pipeconn.go')],
 ['testutil.RepeatReader','testutil.PipeConn'])
p('C33','Peer sessions are isolated from each other',
 'What happens in one peer session - its hello, definitions, updates and update ids, pushed messages, failure or end - has no effect on any other session of the same peer, whether sessions share a handler or have one from the handler source, which is asked exactly once per accepted connection. The context of every handler call gives the connection the call belongs to and a writer whose messages go to that connection only; update ids are counted per session in both directions. A peer that is given both a handler and a handler source refuses to serve.',
 ['histories','schedules','inputs'],'all interleavings of the stated number of events (updates, definitions, pushes, failures, ends) over two sessions with symbolic ids and keys, schedules within the preemption bound',
 'Every existing test runs a single session per peer.',
 ['peers/peers.go','peers/protocol.go','peers/writer.go'],[('Peer.Serve','peers/peers.go'),('Connection/WriterFromContext','peers/peers.go'),('protocolClient.lastTableDefinition/lastEntryUpdate','peers/protocol.go'),('Writer.nextUpdateID','peers/writer.go')],
 ['calls of peers.Handler','bytes written per connection','peers.Connection','peers.WriterFromContext'])
p('C34','Agent frames are encoded exactly or not at all',
 'Writing an AGENT-HELLO, AGENT-DISCONNECT or ACK produces exactly the one frame the protocol prescribes for its contents: length, type, FIN flag, stream and frame ids (zero for the first two), and version, max-frame-size and comma-separated capabilities, or status code and its message, or the actions of the callback in order. A frame that would exceed the maximum frame size, or whose callback fails, gives an error (the callback\'s one) and nothing is written; a failed write is reported with the number of bytes that were taken and nothing is written behind it. What was written before has no influence on a frame.',
 ['inputs','histories','fault_sequences'],'all versions, capability lists, sizes, status codes, ids and action lists within the stated sizes, all offsets at which the connection fails',
 'Tests only compare the ACK and HELLO of one fixed session.',
 ['spop/frames.go','spop/frame.go'],[('AgentHelloFrame.WriteTo','spop/frames.go'),('AgentDisconnectFrame.WriteTo','spop/frames.go'),('AckFrame.WriteTo','spop/frames.go'),('frame.writeTo','spop/frame.go')],
 ['bytes written by WriteTo','count and error of WriteTo'])
p('C35','Agent and peer serve sessions independently until told to stop',
 'An SPOP agent and a peer accept connections and serve their sessions concurrently, with or without a base context given, until the listener fails or the base context ends; then Serve returns an error (the listener\'s one), and not before. When the base context ends the listener is closed and the contexts of all sessions are cancelled; when the listener fails, sessions that are under way go on. A session whose handler is slow or whose client does not read what is sent or sends nothing delays no other session, as long as a worker is free. The address field names the listener\'s address while serving.',
 ['histories','fault_sequences'],'all sequences of the stated number of events (connection, message, stuck handler, stuck client, end of the base context, failure of the listener) with up to two sessions',
 'Tests stop an agent at most by closing its listener and never have one session wait while another is served.',
 ['spop/agent.go','peers/peers.go','spop/scheduler.go'],[('Agent.Serve','spop/agent.go'),('Peer.Serve','peers/peers.go'),('asyncScheduler','spop/scheduler.go')],
 ['result of Serve','listener','replies','handler calls','session contexts'])
p('C36','Pooled encoders and decoders behave like new ones',
 'Scanners, entries, messages and writers taken from the pools behave exactly like newly made ones for the same buffer, count and offset, whatever they were used for before they were released and however that use ended, and nothing is handed out twice at the same time. A writer writes to the buffer it was given only, and using it leaves the buffers and outputs of earlier writers as they were.',
 ['histories','inputs'],'all earlier uses (arbitrary bytes, counts, reads, failed writes) followed by all uses within the stated sizes, compared step by step with a new object',
 'Tests take most objects from the pools once and never compare a reused one with a new one.',
 [E+'kvscanner.go',E+'messagescanner.go',E+'kvwriter.go',E+'actionwriter.go'],[('Acquire*/Release*','all four files'),('KVEntry.Reset',E+'kvscanner.go')],
 ['encoding.Acquire*','encoding.Release*'])
p('C37','Arguments are neither changed nor kept',
 'Encoding, decoding and sending leave what they are given as it is: names, values, input bytes, definitions, entries (with their ids, keys and data), batches, handshakes and frames are the same afterwards, whether the call succeeds or not, so that they can be used again, by others too, with the same result. Nothing that is written - key/value pairs, actions, frames, pushed messages - refers to its arguments: what the caller does with them after the call has returned does not change it.',
 ['inputs','histories'],'all values of every kind within the stated sizes, all decoder inputs up to the stated length, destinations of every size up to the stated one; every call made twice',
 'Tests encode a value once and look at the output only, not at the value afterwards.',
 [E+'kvwriter.go',E+'actionwriter.go',E+'kvscanner.go',E+'kvunmarshal.go','peers/sticktable/sticktables.go','peers/sticktable/values.go','peers/writer.go','peers/messages.go','spop/frames.go'],
 [('Set*, Next, Unmarshal',E),('Marshal/Unmarshal','peers/sticktable'),('Send*','peers/writer.go'),('WriteTo','spop/frames.go, peers/messages.go')],
 ['arguments after the call','later output'])
p('C38','Independent values can be used concurrently',
 'Encoders, decoders, struct unmarshalling, stick-table values and entries of one definition, handshakes, SPOP frames and code names can be used by any number of goroutines at the same time, as long as each has values of its own (a definition that is only read may be shared): under every interleaving each gets the result it would get alone, and there is no unsynchronised access to anything they share behind the scenes (pools, caches, tables, scratch memory).',
 ['schedules','inputs'],'all interleavings (up to the stated number of preemptions) of two users of any two parts of a package, with arbitrary contents',
 'Tests use one value at a time; a data race on hidden state needs two users at the same moment.',
 [E+'kvscanner.go',E+'kvunmarshal.go',E+'kvwriter.go',E+'actionwriter.go',E+'messagescanner.go','peers/sticktable/sticktables.go','peers/sticktable/values.go','peers/messages.go','spop/frame.go','spop/frames.go'],
 [('pools',E),('Unmarshal',E+'kvunmarshal.go'),('Marshal/Unmarshal','peers/sticktable'),('framePool','spop/frame.go')],
 ['results of each user','happens-before of shared accesses'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(json.dumps(x))
