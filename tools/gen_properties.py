#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Decoding arbitrary bytes never crashes and never loses packet alignment',
 'For every byte sequence, decoding a packet (from a buffer or from a reader) either yields a packet or returns an error; it never panics by indexing out of range or through a missing embedded part. A successful decode from a reader consumes exactly the fixed header plus the payload length the header declares, and a successful decode from a buffer reports the declared payload length, so the next packet starts where the previous one ended. A failed or short read is always reported as an error, never as a decoded packet.',
 ['inputs'],'every byte sequence presented to the two decoders, including headers whose declared length is too small for their type',
 'Tests decode only well-formed packets produced by the encoder (header round trip and live traffic); malformed lengths, skipped payloads and truncated reads are an unbounded input space.',
 ['packet/decode.go','packet/packet.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go'],
 [('length guards before every slice','packet/*.go Decode/DecodeFromReader'),('type dispatch with a fresh, fully linked packet','packet/decode.go')])
p('C02','The encoder and both decoders agree on the layout of every packet type',
 'For every packet type and every field carried on the wire, both decoders recover the field from the same offset, width, byte order and flag bits at which the encoder put it, including the flag and heartbeat-interval bits, and the declared payload length equals the payload actually written. Every packet type constant is accepted by both decoders and yields the packet structure that is created with that type constant. The JSON bodies use distinct keys and carry every field of the body.',
 ['inputs'],'every packet type, every wire field and every field value',
 'Only the header round trip is unit-tested; the other field/offset pairs, flag bits and the agreement between the two decoders are exercised, if at all, with one value.',
 ['packet/packet.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go','packet/decode.go','packet/factory.go'],
 [('hand-written Encode/Decode/DecodeFromReader per type','packet/*.go'),('type constants stamped by the factory','packet/factory.go')])
p('C03','Every layer hands each packet on exactly once, unchanged and in order',
 'A packet of a type that belongs to an upper layer is passed on by each layer it crosses, in both directions, exactly once, as the same packet and in arrival order, as long as that layer is in its established state; no packet type is silently dropped, duplicated, or handed to a concurrent task that could overtake its predecessors. Inside an established layer each packet type that belongs to that layer reaches its own handling in both directions. Every direction is drained by one sequential loop.',
 ['schedules','inputs','histories'],'every packet type, direction, layer and interleaving of the loops',
 'Tests exchange a few small messages and calls on one stream; a type that is dropped in one direction, or a reordering that needs two racing tasks, does not show.',
 ['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','application/stream.go'],
 [('handleIn/handleOut dispatch per layer','conn, multiplexer, application'),('one goroutine per direction','handlePkt/readPkt/writePkt')])
p('C04','A reply can never arrive before its waiter is registered',
 'Every operation that sends a packet and waits for the answer to it (connecting, opening a stream, closing a stream, registering a method, calling, asynchronous calling, publishing and asynchronous publishing, and the server side of connecting) registers its waiter before the packet can leave. The waiter is registered under the identifier that the sent packet carries and the answer will carry.',
 ['schedules'],'every interleaving of the sending task with the receiving loop, however fast the peer answers',
 'The window between sending and registering is nanoseconds wide on a loopback test; only an adversarial schedule exposes a swapped order.',
 ['application/message.go','application/rpc.go','multiplexer/dialogue.go','conn/conn_client.go','conn/conn_server.go'],
 [('synchub New/Add precedes the channel send','Publish, PublishAsync, Call, CallAsync, Register, open, Close, connect, wait')])
p('C05','Closing or losing the connection releases every blocked operation',
 'When a stream, an end or the underlying connection ends for whatever reason (local close, peer close, decode error, write error, protocol error), every operation blocked on it returns: pending calls, publishes, registrations and opens complete with an error, and blocked receives, reads and accepts end with EOF. The end of a lower layer always ends the layers above it, and packets still queued but not sent are reported as failed to their waiters. No later operation can register a waiter that nobody will ever release.',
 ['schedules','crash_points','fault_sequences'],'every point at which the connection or stream can end, and every interleaving with operations in progress',
 'Tests never lose the connection or close while operations are blocked; each blocked operation times every closing point is an unbounded product.',
 ['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','application/stream.go'],
 [('fini of each layer','conn, multiplexer, application'),('sync hub close, channel closes','fini'),('close cascade conn -> manager -> dialogue -> stream','readPkt/handlePkt')])
p('C06','Locks are always released and can never deadlock each other',
 'Every lock taken is released exactly once on every path out of the operation, no task takes a lock it already holds, and all locks are acquired in one global order. No delegate, user callback or RPC handler runs, and nothing waits for a peer, for another task\'s answer or for a timer, while an internal lock is held. (Waiting for room in a queue under a shared lock is allowed where whoever takes that lock exclusively empties the queue first; the lock by which a retrying end serialises reconnecting is held while it reconnects.)',
 ['schedules'],'every path and every interleaving of tasks',
 'A leaked or inverted lock hangs only the interleaving or the rarely taken branch that meets it; the tests take neither.',
 ['application/*.go','multiplexer/*.go','conn/*.go','client/end_retry.go','pkg/id/id.go'],
 [('mutexes of stream, dialogue, manager, conn, retry end and id counter','sync.Mutex/RWMutex fields')])
p('C07','Shared mutable state is only touched under its lock',
 'The method tables, in-flight cancellation table, hijack setting, read cache, deadlines and their waiter lists of a stream, the stream tables of an end, the remembered methods of a retrying end, identifier reservations and every open/closed flag are read and written only while their lock is held (exclusively for writes) once more than one task can reach them. Atomically accessed state is only accessed atomically.',
 ['schedules'],'every pair of concurrent operations',
 'The tests run few operations concurrently and without the race detector; a concurrent map access crashes only in a rare interleaving.',
 ['application/stream.go','application/rpc.go','application/raw.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','conn/conn_base.go','client/end_retry.go','pkg/id/id.go'],
 [('lock per group of fields','rpcMtx, mtx, dlMtx, cacheMtx, connMtx, dm.mtx, re.rpcMtx, idCounter.mtx')])
p('C08','Using a closed end or stream yields an error, never a panic or a hang',
 'Once a connection, stream or end has ended, every sending operation on it returns an error without queuing anything, and no operation ever sends on or closes an already closed queue, whatever the interleaving of closing and sending; closing twice or from both sides at once is harmless. The decision that it is still open and the queuing of the packet cannot be separated by the close.',
 ['schedules','histories'],'every history of operations and closes from any number of tasks',
 'Send-on-closed-channel and double-close panics need a close to fall between a check and a send; the tests close once, at the end.',
 ['conn/*.go','multiplexer/*.go','application/*.go'],
 [('OK flag checked under the read lock held across the send, cleared with the queue closed under the write lock','Write/Publish/Call/... and fini')])
p('C09','Every request received is answered by exactly one response with its identifier',
 'For every request received, the serving side sends exactly one response, carrying the identifier of that request, the data, custom data and error the handler set, once the handler has returned; a request for a method nobody serves is answered with an error response. A handler never blocks the handling of other packets, a hijacker takes precedence over registered methods exactly for the methods its pattern selects, and a registered handler is invoked with the request as received.',
 ['inputs','histories','schedules'],'every request, method table, hijack pattern and handler behaviour',
 'Tests call one registered method; unknown methods, hijack combinations, handler errors and slow handlers are not exercised.',
 ['application/stream.go'],
 [('handleInRequestPacket, doRPC','application/stream.go')])
p('C10','A call or publish returns the outcome its own answer reports',
 'Call returns a response only if a response with the identifier of its request arrived, and that response\'s data, custom data and method; an error reported by the peer, a timeout, a cancellation or a close is returned as an error, never as success. Publish with acknowledgement returns nil only after the peer acknowledged that very message without error, and marking a received message done or failed sends exactly one acknowledgement carrying that message\'s identifier and that error. Opening a stream, connecting and registering succeed only if the peer\'s answer carries no error. (An error whose text is empty cannot be told from success on the wire.)',
 ['inputs','histories','schedules'],'every answer, error and interleaving of concurrent operations',
 'Tests see only the successful answer to the only outstanding operation.',
 ['application/stream.go','application/message.go','application/rpc.go','application/types.go','multiplexer/dialogue.go','conn/conn_client.go'],
 [('sync hub keyed by packet identifier','handleIn*Ack, handleInResponse'),('ackMessage','application/message.go')])
p('C11','An asynchronous call or publish delivers its outcome exactly once',
 'Every asynchronous call or acknowledged asynchronous publish that was accepted delivers itself exactly once on the channel the caller passed (or on a buffered channel created for it), after its error or its response has been filled in, for every outcome: answered, failed, timed out, cancelled or closed. One that was refused returns an error and delivers nothing.',
 ['schedules','fault_sequences'],'every outcome and interleaving',
 'Only the successful synchronous path is tested.',
 ['application/rpc.go','application/message.go'],
 [('sync callback fills and sends the call/publish','CallAsync, PublishAsync')])
p('C12','Traffic of one stream never reaches another stream',
 'A packet that names a stream is delivered only to that stream, and a packet naming no known stream is delivered to none; everything a stream sends carries its own identifier. A request or message created for another client or stream is refused before anything is sent. The identifier both sides use for a stream is the one negotiated when it was opened, and a stream can be found by it from the moment either side may use it until it has ended.',
 ['histories','schedules','inputs'],'every set of concurrently open, opening and closing streams and every packet',
 'Tests use the default stream only.',
 ['multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','application/rpc.go','application/message.go','application/end.go'],
 [('routing table keyed by negotiated id','dialogueMgr.handlePkt'),('SetSessionID on every write','dialogue.Write/WriteWait'),('ClientID/StreamID checks','Call, CallAsync, Publish, PublishAsync')])
p('C13','Every option a caller sets takes effect, the last one winning',
 'Every option set through the option objects for ends, streams, calls, requests, messages, publishes and hijacks is kept when options are merged: a later set value overrides an earlier one, an unset one never erases a set one, and nil option objects are ignored. Every end option (timer, packet factory, logger, delegate, client identifier, metadata, awaited and local methods, method check, buffer sizes, stream callbacks) reaches the layers that implement it.',
 ['configurations'],'every combination and order of option objects',
 'Tests pass at most one option object with one field.',
 ['options/*.go','client/end_options.go','server/end_options.go','client/end.go','server/end.go','conn/*.go','multiplexer/*.go','application/end.go'],
 [('Merge*Options','options, client, server'),('functional options','conn, multiplexer, application')])
p('C14','Timeouts, deadlines and contexts bound every operation they are given to',
 'A timeout or context given to a call, asynchronous call, publish, asynchronous publish, receive or register bounds how long it waits locally: when it expires the operation ends with the corresponding error. A timeout and a context deadline are also sent to the peer, whose handler runs with a context that ends at the earlier of the two. Connecting, opening a stream and waiting for a graceful close are bounded even without any option.',
 ['schedules','fault_sequences','configurations'],'every combination of timeout, deadline and context, and every silent peer',
 'No test lets an operation time out.',
 ['application/rpc.go','application/message.go','application/stream.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go'],
 [('sync hub WithTimeout/WithContext, select on ctx.Done','application'),('wire Deadline/Timeout/Context','packet.MessageData'),('close read/write deadline','conn Close')])
p('C15','Online and offline notifications pair up',
 'On the server side a connection is reported online before its client is told it is connected, and reported offline exactly once, when it ends, if and only if it had been reported online and was not refused; a delegate that refuses a connection makes connecting fail for that client and no offline report follows. A stream is reported offline exactly once if and only if it had been established, and a stream opened by the peer is reported online and made acceptable exactly once.',
 ['histories','schedules','fault_sequences'],'every history of connecting, refusing, opening, closing and losing connections',
 'Tests use no delegate.',
 ['conn/conn_server.go','conn/conn_client.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go'],
 [('onlined flag','conn, dialogue'),('ConnOnline/ConnOffline/DialogueOnline/DialogueOffline calls','handleIn/handleOut, handlePkt exit')])
p('C16','Heartbeats are sent, answered and supervised',
 'A client sends a heartbeat once per negotiated interval for as long as it is open, and a connected server answers every heartbeat with an acknowledgement carrying its identifier. A connected server that receives no heartbeat for twice the interval the client announced closes the connection, and every heartbeat received restarts that supervision. Supervision and heartbeat sending stop when the connection ends.',
 ['schedules','fault_sequences'],'every schedule of heartbeats, losses and closes',
 'The shortest interval exceeds the length of every test.',
 ['conn/conn_client.go','conn/conn_server.go'],
 [('cyclic timer','newClientConn'),('supervision tick','handleInConnPacket, handleInHeartbeatPacket, waitHBTimeout')])
p('C17','A retrying end reconnects transparently until closed and never after',
 'Until it is closed, an operation of a retrying end (opening, accepting, calling, publishing, receiving, registering, hijacking, reading, writing) that fails with EOF reconnects and is repeated on the new connection with the same arguments, any other error or result is returned unchanged, and concurrent failures of the same connection reconnect once. After reconnecting, the hijacker and every successfully registered method are installed on the new connection before it is reported back online, and losing the connection triggers reconnection even without an operation. Once closed, operations return EOF, no new connection is created or kept, and the current one is closed.',
 ['schedules','fault_sequences','histories'],'every sequence of losses, concurrent operations, failed reconnects and close',
 'No test uses the retrying end.',
 ['client/end_retry.go'],
 [('ok flag, compare with the current end, retry mutex','RetryEnd.reinit'),('rpcs and hijack memory','RetryEnd.register, Hijack')])
p('C18','A raw stream delivers the written bytes completely and in order',
 'Reading from a stream yields the bytes of the raw packets it has received, in order and without loss or duplication: a read shorter than the received chunk keeps the rest for the next read, the count returned is that of the bytes given, and data received before the end is delivered before EOF. (Reads that overlap in time get different bytes, in no particular order.) Writing takes its own copy of the caller\'s bytes, sends all of them once and reports their full length, or reports an error and sends nothing.',
 ['inputs','histories','schedules'],'every sequence of read and write sizes',
 'Tests cover deadlines of Read and Write on a hand-made stream, not the bytes.',
 ['application/raw.go','application/stream.go'],
 [('cache of the unread rest','Read'),('copy before queuing','Write'),('queue closed only after the last delivery','readPkt')])
p('C19','Identifiers chosen by the two sides never collide',
 'Identifiers drawn from one generator are pairwise distinct under any concurrency (within the range of its counter); generators in even and odd mode yield only even and only odd low-order numbers, and a reusable-identifier generator never hands out an identifier that is reserved or still in use. The two sides of a connection draw packet identifiers, and stream identifiers, from generators of opposite parity, and the identifier of the default stream is never negotiated for another one.',
 ['schedules','histories'],'every number and interleaving of draws on both sides',
 'Tests draw few identifiers; a parity slip depends on a random start value.',
 ['pkg/id/id.go','multiplexer/dialogue_mgr.go','conn/conn_client.go','conn/conn_server.go','client/end_options.go','server/end.go'],
 [('atomic counter with step 2','IDCounter.GetID'),('even start value','randomUint32'),('mode chosen per side','constructors')])
p('C20','Data and metadata arrive at the peer exactly as given by the sender',
 'The data, custom data, topic and timeout of a message, the method, data, custom data and timeout of a request, and the data, custom data and method of a response are those the sender gave, and the receiving side reports its own client and stream identifiers and the packet\'s identifier for them. A stream\'s metadata and peer name at the accepting side are those given when it was opened, and a connection\'s metadata at the server is the client\'s.',
 ['inputs','configurations'],'every value of every field',
 'Tests compare at most the data of one message.',
 ['application/stream.go','application/message.go','application/rpc.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','conn/conn_server.go','packet/factory.go'],
 [('field copies between user objects and packets','Publish, Call, Receive, handleInRequestPacket, doRPC, handleInResponsePacket'),('factory','packet/factory.go')])
p('C21','Connecting and closing follow the handshake from every state',
 'A connection or stream passes data only between a completed opening handshake and its end, an opening request in any other than the initial state is refused, and a clean close ends it only after both sides\' close requests have been sent or received and acknowledged. From every established or closing state a close by either side, by both at once, or in either order leads to the end state, a received close request is always acknowledged with its identifier and answered by our own close, and the end is reachable from every state.',
 ['histories','schedules'],'every order of open, close, acknowledge and failure on both sides',
 'Tests drive one side closing once.',
 ['conn/conn_client.go','conn/conn_server.go','conn/conn_base.go','multiplexer/dialogue.go'],
 [('state machine tables','initFSM'),('events emitted by the handlers','handleIn*/handleOut*')])
p('C22','Read and write deadlines end pending and future raw operations',
 'Setting a read or write deadline affects both operations already blocked and those started later: once it has passed, operations that would block fail with the deadline error instead, a deadline already in the past takes effect at once, a zero deadline removes it, and setting a new one replaces the old one. An operation cannot slip between checking the deadline and being woken by it, a read started after its deadline still returns data already received, and setting both deadlines sets each.',
 ['schedules','inputs'],'every order of setting deadlines, their expiry, and starting or finishing operations',
 'The deadline tests set one deadline around one operation with generous sleeps; races between expiry and registration are not sampled.',
 ['application/raw.go'],
 [('deadline callback wakes the waiter list under the lock','setReadDeadline, setWriteDeadline'),('re-check under the lock before registering','Read, Write')])
p('C23','Ending or failing to start releases everything that was acquired',
 'When a connection, stream or end has ended, its socket is closed, its background tasks stop, timers and clocks it owns are stopped (and ones it was given are left running), and its entries in the tables of the layer above are gone. (A timer made by a client or server end is stopped when that end is closed or its construction fails.) An end that cannot be constructed closes the connection it was given and its own timer, and returns an error instead of a half-built end; a handler\'s context is always released once the handler is done.',
 ['histories','fault_sequences'],'every way of ending and every point at which construction can fail',
 'Leaks do not fail tests.',
 ['conn/*.go','multiplexer/*.go','application/*.go','client/end.go','server/end.go'],
 [('fini of each layer, constructors\' error paths','conn, multiplexer, application, client, server')])
p('C24','Cancelling a call reaches the handler at the peer',
 'When the context of a synchronous call is cancelled before its answer arrives, the call returns the context\'s error and the peer is told which request was cancelled; on arrival, exactly that request\'s handler context is cancelled and no other, and the cancellation is accepted by every layer on the way. Cancelling an unknown or finished request has no effect.',
 ['schedules','histories'],'every moment of cancellation relative to the request, the handler and the answer',
 'No test cancels a call.',
 ['application/rpc.go','application/stream.go','packet/packet_data.go','packet/decode.go'],
 [('request cancel packet','Call, handleOutRequestCancelPacket, handleInRequestCancelPacket'),('table of cancel functions','rpcCancels')])
p('C25','Method registration is acknowledged, visible and revocable',
 'Registering a method makes it callable by the peer before the peer is told about it, returns success only after the peer has acknowledged it, and leaves no local handler behind when it fails or its context ends. A received registration is acknowledged with its identifier, recorded, and reported to whoever waits for that method; waiting for remote methods returns only when all of them are registered, also for ones registered before the wait began, and with the method check enabled both kinds of call refuse unregistered methods.',
 ['schedules','histories'],'every order of registration, waiting, calling and failure',
 'Tests register one method and call it.',
 ['application/rpc.go','application/stream.go','application/end.go'],
 [('Register, handleInRegisterPacket, handleInRegisterAckPacket','application'),('registration waiter','NewEnd')])
# not applicable
p('C30','Messages are delivered end to end despite connection failures',
 'Every acknowledged message survives a lost connection: it is either delivered to the peer application or its publisher is told that it was not, and never both lost and reported delivered.',
 ['fault_sequences','histories'],'every sequence of connection losses during an exchange',
 'Needs fault injection across both peers.',['client/end_retry.go','application/message.go'],[('no persistence exists; retry republishes','client/end_retry.go')])
p('C31','One slow stream does not stall the others',
 'A stream whose application does not consume its messages does not delay traffic of other streams on the same connection indefinitely.',
 ['schedules'],'every consumption speed','Needs timing and load.',['multiplexer/dialogue_mgr.go','application/stream.go'],[('bounded queues between layers','conn, multiplexer, application')])
p('C32','Client identifiers are unique across a server',
 'No two clients connected to one server process at the same time report the same client identifier.',
 ['histories'],'every set of clients and identifier choices','Depends on what clients and delegates choose.',['conn/conn_server.go','pkg/id/id.go'],[('GetClientID delegate or counter','handleInConnPacket')])
p('C33','Deadlines and heartbeats fire on time',
 'Timeouts, deadlines and heartbeat supervision fire within a bounded delay of the time they were set for.',
 ['schedules'],'every load','Real-time behaviour.',['conn/conn_server.go','application/raw.go'],[('go-timer wheel','external')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
print(len(P))
