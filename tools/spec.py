#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (and of the property part of MANIFEST.json).
Run: python3 tools/spec.py   -> rewrites properties.jsonl and MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe))))

p('C01', 'Thread-safe FIFO delivers every entry exactly once and in order',
  'Every entry that a write accepted into a thread-safe FIFO buffer is handed to readers exactly once, in write order (or in ascending order key for ordered writes), is never lost, duplicated or put in the wrong place when a reader stops, gives entries back, replaces or searches, and the reported entry count always equals what is stored. An entry is never accessed after its owner released it and none is leaked when the buffer is cleared or destroyed. This holds for every interleaving of concurrent writers and readers, and no interleaving deadlocks.',
  ['schedules', 'histories'], 'all interleavings (up to a preemption bound) of concurrent writers and readers, all operation histories up to a depth with all callback verdicts',
  'Tests push a few thousand entries through one lucky schedule; the stop/put-back paths with concurrent readers and writers are never forced.',
  ['src/lib/fifo_protected.c', 'src/lib/fifo.c', 'src/lib/fifo.h', 'src/lib/fifo_protected.h'],
  [('list detached under lock, given back on stop', 'src/lib/fifo_protected.c rrr_fifo_protected_read_clear_forward'), ('write combining', 'src/lib/fifo_protected.c rrr_fifo_protected_write')],
  [('gptr_first/gptr_last', 'the shared list', 'src/lib/fifo_protected.h')], ['reader callbacks', 'rrr_fifo_protected_get_entry_count'])

p('C02', 'Message broker hands every message to the right readers exactly once',
  'A message handed to the broker by a sender is delivered exactly once and in order to the reader (default), or exactly once to every registered reader when the sender duplicates its output, whatever the storage kind (buffer or single slot) and however writes, reads, pauses, read budgets and backlog handling interleave. Messages a reader has not taken when it stops stay first in line, messages discarded are released, and no message is used after its last reference was dropped or leaked. A reader is notified of at least as many messages as are waiting for it, so no message waits forever.',
  ['schedules', 'histories'], 'all interleavings of sender and reader threads up to a preemption bound; all operation histories to a depth for every cost configuration (fifo/slot, split/no split)',
  'Tests run pipelines with one schedule; slot hand-over and split buffers are order dependent across threads.',
  ['src/lib/message_broker.c', 'src/lib/message_holder/message_holder_slot.c', 'src/lib/message_holder/message_holder.c'],
  [('slot with condition variable', 'src/lib/message_holder/message_holder_slot.c'), ('reference counting under entry lock', 'src/lib/message_holder/message_holder.c'), ('split buffers', 'src/lib/message_broker.c')],
  [], ['rrr_message_broker_poll_discard/poll_delete callbacks'])

p('C03', 'Shared memory channel is lossless and in order between two parties',
  'Blocks written to a shared memory channel are read exactly once, byte for byte and in write order, for blocks that fit inline and blocks that need a separate segment, under every interleaving of the writing and the reading party. When the channel has no free block the writer is told so (or waits) and no block already written is overwritten, lost or damaged. Neither party can deadlock the other.',
  ['schedules', 'histories'], 'all interleavings of one writer and one reader up to a preemption bound, all block size classes, all read/write histories up to a depth incl. full and wrap-around',
  'cmodule tests always have free blocks and a fast reader; wrap-around and full conditions with adverse timing do not occur.',
  ['src/lib/mmap_channel.c', 'src/lib/rrr_mmap.c', 'src/lib/rrr_shm.c'],
  [('ring of locked blocks with rpos/wpos', 'src/lib/mmap_channel.c')], [], ['rrr_mmap_channel_read_with_callback', 'rrr_mmap_channel_write'])

p('C04', 'Shared memory allocator never hands out overlapping or lost memory',
  'Memory handed out by the shared memory allocator is inside the mapping, never overlaps other live allocations, keeps its contents until it is freed, and can be reused after it is freed; a handle obtained for an allocation resolves back to the same allocation in any process sharing the mapping. Freeing never invalidates other allocations and a double or foreign free is not accepted silently.',
  ['histories'], 'all allocate/free/reallocate histories up to a depth over a set of sizes chosen around the block structure limits',
  'Tests allocate a fixed sequence; fragmentation, last-block and merge boundaries depend on the history.',
  ['src/lib/rrr_mmap.c', 'src/lib/rrr_shm.c'],
  [('block and heap bitmaps', 'src/lib/rrr_mmap.c')])

p('C05', 'Event queue delivers every passed amount exactly once',
  'For every event function of an event queue the sum of amounts handed to its callback equals the sum of the amounts passed to it, whatever part of an amount a callback leaves unhandled and whenever the event is paused or resumed. Nothing is delivered while paused, an event with undelivered amount is delivered without further stimulus once resumed, and dispatch returns when asked to stop. Passing an amount that cannot be stored is reported to the caller and never changes what was stored.',
  ['histories', 'schedules'], 'all histories of pass / partial consumption / pause verdicts / time steps up to a depth, and all interleavings with passing threads',
  'Pausing together with partially consumed amounts only happens under overload, which tests do not produce.',
  ['src/lib/event/event.c', 'src/lib/socket/rrr_socket_eventfd.c'],
  [('eventfd counter plus deferred amount', 'src/lib/event/event.c __rrr_event_signal_event'), ('pause timer', 'src/lib/event/event.c __rrr_event_unpause')])

p('C06', 'Thread start, stop and watchdog protocol cannot hang or lose a thread',
  'Threads in a collection start only once the owner signals start, a stop request reaches every started thread, joining returns only after every thread has run its cleanup, and no thread is started, stopped or cleaned up twice. A thread that stops updating its watchdog is told to stop and is reported as a ghost instead of blocking the owner. This holds in every interleaving of owner, watchdog and worker threads.',
  ['schedules'], 'all interleavings of owner, watchdog and worker up to a preemption bound',
  'Start-up and shut-down races occur within microseconds and tests see only the common order.',
  ['src/lib/threads.c', 'src/lib/threads.h'],
  [('state and signal under mutex', 'src/lib/threads.c'), ('watchdog thread', 'src/lib/threads.c __rrr_thread_watchdog_entry')])

p('C07', 'MQTT packets survive encode, fragmentation and decode unchanged',
  'Every MQTT packet which is assembled parses back to the same type, flags, identifiers, topic, properties, reason codes and payload for both protocol versions, regardless of how the byte stream is fragmented or how many packets are coalesced. A malformed packet, including any truncation or forbidden flag, length or reserved value, is rejected with an error and never accepted as some other packet, and parsing never reads outside the packet.',
  ['inputs', 'histories'], 'all packets over small field domains times all split points; all single byte corruptions of valid packets',
  'Tests use a handful of packets delivered in one piece by a friendly peer.',
  ['src/lib/mqtt/mqtt_assemble.c', 'src/lib/mqtt/mqtt_parse.c', 'src/lib/mqtt/mqtt_packet.c', 'src/lib/mqtt/mqtt_property.c', 'src/lib/mqtt/mqtt_payload_buf.c'],
  [('incremental parse session with checkpoints', 'src/lib/mqtt/mqtt_parse.c'), ('variable length integers', 'src/lib/mqtt/mqtt_parse.c')])

p('C08', 'MQTT QoS guarantees hold across loss and reconnection',
  'Between an RRR MQTT client and the RRR MQTT broker a QoS 2 publish is delivered to the receiving application exactly once, QoS 1 at least once and QoS 0 at most once, with unaltered topic and payload, for every point where a connection is lost and every reconnection with a kept session. A packet identifier is never in use for two different exchanges at once, and every exchange completes when the connection stays up.',
  ['fault_sequences', 'histories'], 'all connection-loss points (after any delivered packet, in either direction) up to a bound, all QoS levels and both protocol versions',
  'Tests publish over a stable loopback connection; no acknowledgement is ever lost.',
  ['src/lib/mqtt/mqtt_session_ram.c', 'src/lib/mqtt/mqtt_id_pool.c', 'src/lib/mqtt/mqtt_client.c', 'src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_common.c'],
  [('to-remote and from-remote queues with acknowledgement state', 'src/lib/mqtt/mqtt_session_ram.c'), ('identifier pool', 'src/lib/mqtt/mqtt_id_pool.c')])

p('C09', 'MQTT broker routes publishes to exactly the matching subscribers',
  'The MQTT broker forwards a publish to every session, and only to sessions, with a subscription matching its topic, at no higher quality of service than was granted, and retained messages are delivered on subscription and removed by an empty retained publish. A will is published exactly when a client disappears without a normal disconnect. Session presence, clean start, takeover by a client with the same identifier and access rules give the outcome the MQTT specification prescribes for every order of client actions.',
  ['histories', 'inputs'], 'all sequences of connect/subscribe/unsubscribe/publish/disconnect/drop by two clients up to a depth, all small topic/filter pairs',
  'Tests use a few fixed subscriptions and orders.',
  ['src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_session_ram.c', 'src/lib/mqtt/mqtt_subscription.c', 'src/lib/mqtt/mqtt_topic.c', 'src/lib/mqtt/mqtt_acl.c'],
  [('topic token matching', 'src/lib/mqtt/mqtt_topic.c'), ('session collection', 'src/lib/mqtt/mqtt_session_ram.c')])

p('C10', 'MQTT topic matching and access control decide as specified',
  'A topic filter matches a topic exactly when the rules of RRR for levels say so: equal levels, `+` for any one level, a final `#` for one or more further levels, where a wildcard never matches a level that begins with `$`. Bytes after the topic have no influence, and invalid filters and topics are refused. An access control list grants exactly the access of the entry that applies for the topic, user and default rules, for every input.',
  ['inputs'], 'all filter/topic pairs over a small alphabet up to a length; all small ACL files over a grammar',
  'Tests match a fixed list of pairs.',
  ['src/lib/mqtt/mqtt_topic.c', 'src/lib/mqtt/mqtt_acl.c'],
  [('token linked list comparison', 'src/lib/mqtt/mqtt_topic.c rrr_mqtt_topic_match'), ('ACL entry evaluation', 'src/lib/mqtt/mqtt_acl.c')])

p('C11', 'UDP-stream delivers every accepted message exactly once and intact',
  'Messages accepted for sending over the RRR UDP stream protocol with delivery assurance are delivered to the receiving application exactly once, intact and without mixing streams, and the sender keeps a message until delivery is confirmed, for every pattern of lost, duplicated, delayed and reordered datagrams after which the network recovers. Confirmed messages are released and a re-sent message is not delivered a second time.',
  ['fault_sequences', 'histories'], 'all loss/duplication/reorder patterns with up to a bounded number of faults over short histories',
  'Loopback UDP in tests never loses or reorders a datagram.',
  ['src/lib/udpstream/udpstream.c', 'src/lib/udpstream/udpstream_asd.c'],
  [('frame ids, ack and resend in stream layer', 'src/lib/udpstream/udpstream.c'), ('delivery ACK / release ACK / complete ACK', 'src/lib/udpstream/udpstream_asd.c')])

p('C12', 'HTTP/1 messages parse the same however the bytes arrive',
  'An HTTP/1 request or response yields the same start line, headers, fields and body, or the same rejection, whatever the fragmentation of the byte stream, for bodies framed by length, by chunks and by multipart boundaries. The body delivered is exactly the body sent, pipelined data after a message is not swallowed, and malformed framing is refused instead of misread.',
  ['inputs', 'histories'], 'all one- and two-cut fragmentations of a corpus generated from a grammar of requests/responses, and all single byte deletions/corruptions compared between fragmentations',
  'Tests receive whole messages in one read.',
  ['src/lib/http/http_part_parse.c', 'src/lib/http/http_part.c', 'src/lib/http/http_part_multipart.c', 'src/lib/http/http_header_fields.c', 'src/lib/http/http_application_http1.c', 'src/lib/http/http_util.c'],
  [('restartable parser with parsed_bytes', 'src/lib/http/http_part_parse.c')])

p('C13', 'URI, query and form encodings are exact inverses',
  'Percent encoding, form encoding, query building, quoted strings and header value encoding of arbitrary bytes decode back to the same bytes, the encoded form contains only characters legal at its place, and invalid encodings are refused rather than guessed. A URI is split into protocol, host, port and endpoint exactly as written.',
  ['inputs'], 'all byte strings up to a length over full or representative alphabets; all URIs from a small grammar',
  'Tests use a few hand written strings.',
  ['src/lib/http/http_util.c', 'src/lib/http/http_fields.c', 'src/lib/http/http_query_builder.c'],
  [('character class tables', 'src/lib/http/http_util.c')])

p('C14', 'WebSocket frames are delivered whole, in order and unmasked',
  'Every message sent over a WebSocket connection is delivered to the peer application once, in order, with the same opcode class and bytes, for every payload length encoding, masking and fragmentation of the byte stream, with control frames interleaved. A ping is answered with a pong with the same data, a close or protocol violation ends the connection, and a silent peer is detected.',
  ['inputs', 'histories'], 'all frame sequences up to a depth over boundary lengths, all read fragmentations with up to two cuts',
  'Tests exchange single short frames.',
  ['src/lib/websocket/websocket.c'],
  [('receive state machine', 'src/lib/websocket/websocket.c')])

p('C15', 'Modbus responses are matched to the request that caused them',
  'A Modbus client produces well formed requests, and every response is passed to the callback of the request with the same transaction and function exactly once, with exactly the register, coil or error data the frame carries, whatever the order, fragmentation or loss of responses. Responses which match no outstanding request or are malformed are refused, no transaction is reported twice, what belongs to a request is released exactly once, and a request which is never answered is reported at the latest when its place is needed again.',
  ['histories', 'inputs'], 'all sequences of requests, (re)ordered responses, corruptions and timeouts up to a depth; all fragmentations',
  'Tests use one synchronous request and response at a time.',
  ['src/lib/modbus/rrr_modbus.c', 'src/lib/modbus/rrr_modbus.h'],
  [('transaction table', 'src/lib/modbus/rrr_modbus.c')])

p('C16', 'HDLC frames are recovered exactly from any byte stream',
  'From any byte stream, the HDLC reader produces exactly the delimited frames with escapes removed, regardless of fragmentation and of noise before, between and after frames, and refuses frames above the maximum size without touching memory outside its buffer. A frame which is written contains delimiters only at its ends and its payload is read back byte for byte.',
  ['inputs'], 'all byte strings over the special octets up to a length with all fragmentations; all single corruptions of generated frames',
  'Tests do not exercise noise or fragmentation.',
  ['src/lib/hdlc/hdlc.c', 'src/lib/hdlc/hdlc.h'],
  [('parse state', 'src/lib/hdlc/hdlc.c')])

p('C17', 'Message database behaves as a map and never serves torn data',
  'The message database behaves as a map from topic to the last message stored: a get returns exactly the last put and not yet deleted message or nothing, an index lists exactly the live topics below a path, delete and tidy remove exactly what they should, and each request gets exactly one answer in order. After a crash or I/O failure at any point of an update a later get returns an intact old or new message or nothing, never a damaged or foreign message, and other topics are untouched.',
  ['histories', 'crash_points', 'fault_sequences'], 'all operation sequences up to a depth over a small colliding topic set, every I/O call of an update as crash or failure point with every short-write outcome',
  'Tests store and fetch a few messages and never crash in the middle of a write.',
  ['src/lib/msgdb/msgdb_server.c', 'src/lib/msgdb/msgdb_common.c', 'src/lib/msgdb/msgdb_client.c'],
  [('file per topic below directories from topic hash', 'src/lib/msgdb/msgdb_server.c'), ('message checksum verified on load', 'src/lib/msgdb/msgdb_server.c')])

p('C18', 'RRR messages cross the wire intact or are refused',
  'Every message that is packed for the network unpacks to an equal message on any host, and any message with damaged header, payload, size or checksum is refused before its contents are used. Splitting the stream at any point or coalescing messages never changes which messages are received.',
  ['inputs'], 'all messages over small field domains; all single byte corruptions and truncations; all split points',
  'Tests only pass undamaged messages.',
  ['src/lib/messages/msg.c', 'src/lib/messages/msg_msg.c', 'src/lib/messages/msg_checksum.c', 'src/lib/messages/msg_addr.c', 'src/lib/messages/msg_log.c', 'src/lib/read.c'],
  [('CRC32 checksums and size checks', 'src/lib/messages/msg.c')])

p('C19', 'Arrays keep tags, types and values through parsing and packing',
  'An array parsed from data according to its definition holds exactly the values the data encodes for every type, size, count, signedness, separator and reference, and importing data never depends on how it is fragmented. Packing an array into a message and unpacking it, and exporting it raw, reproduces tags, order, types, counts, flags and values exactly. Data that does not fit the definition is refused and never read out of bounds.',
  ['inputs'], 'all definitions from a grammar with up to a few elements times data over small byte sets, all split points',
  'Tests use one large fixed definition and data set.',
  ['src/lib/array.c', 'src/lib/type.c', 'src/lib/array_tree.c', 'src/lib/fixed_point.c'],
  [('per type import/export/pack/unpack tables', 'src/lib/type.c')])

p('C20', 'Conditions and array trees choose the branch the rules prescribe',
  'A condition evaluates to the value ordinary operator precedence, associativity and signedness give for every operator and operand, and malformed conditions are refused when parsed. An array tree imports data through exactly the branches its conditions select, rewinds as instructed, and yields the fields of the selected branches in order, independent of fragmentation of the data.',
  ['inputs', 'programs'], 'all condition expressions up to a size over an operand set with boundary values; all trees from a grammar up to a size times small data',
  'Tests evaluate a fixed list of expressions.',
  ['src/lib/condition.c', 'src/lib/array_tree.c'],
  [('shunting yard parser', 'src/lib/condition.c'), ('branch evaluation', 'src/lib/array_tree.c')])

p('C21', 'Type conversions are exact or refused',
  'Converting a value between types yields exactly the mathematically equal value in the target type, or fails when the target cannot represent it and the configuration does not allow loss; a list of conversions uses the first applicable one and leaves the value alone when none applies. No conversion reads or writes outside the value or loses array elements. (Digit strings that overflow 64 bits in str2h are documented as not handled and excluded.)',
  ['inputs'], 'all source types and values over boundary sets times all conversion methods',
  'Tests cover a few conversions with ordinary values.',
  ['src/lib/type_conversion.c', 'src/lib/fixed_point.c'],
  [('conversion table', 'src/lib/type_conversion.c')])

p('C23', 'Discern definitions select exactly the prescribed applications',
  'Evaluating a routing definition for a message applies exactly the instances the definition prescribes for that message, with boolean operators, topic filters, tag checks, POP, APPLY and BAIL having their documented stack semantics, and a definition that under- or overflows or mismatches types is refused. Evaluation of one message never depends on messages evaluated before.',
  ['programs', 'inputs'], 'all definitions up to a size over the operator set times messages covering every filter and tag outcome',
  'Tests run a few definitions.',
  ['src/lib/discern_stack.c', 'src/lib/discern_stack_helper.c'],
  [('stack machine', 'src/lib/discern_stack.c')])

p('C24', 'Generated identifiers are unique, in range and resume correctly',
  'An incrementing identifier generator with minimum, maximum, step, modulus and prefix produces only values within its range and residue class, visits every such value before any repeats, and continues from a stored position exactly where it stopped. Invalid parameter combinations are refused.',
  ['inputs', 'histories'], 'all small parameter combinations run through complete cycles plus boundary combinations at integer limits',
  'Tests use one or two parameter sets.',
  ['src/lib/util/increment.c', 'src/modules/p_incrementer.c'],
  [('modulus positioning', 'src/lib/util/increment.c')])

p('C25', 'JSON and arrays convert without changing values',
  'A JSON document converted to arrays and an array of text, number and empty values converted to JSON keep every name and value exactly (fractions to the precision of the fixed point type), nesting is expanded into arrays in document order down to the level limit, incomplete and unsupported documents are refused. Output is always valid JSON that represents the same values.',
  ['inputs'], 'all documents from a grammar up to a depth with boundary scalars; all arrays over small domains',
  'Tests use a few documents.',
  ['src/lib/json/json.c', 'src/lib/helpers/string_builder.c'],
  [('recursive conversion with level limit', 'src/lib/json/json.c')])

p('C26', 'Configuration text means what it says or is refused',
  'A configuration file yields exactly the sections, keys and values written in it irrespective of layout, comments and line endings, with typed reads returning the exact value or an error for anything malformed or out of range. Unused, duplicate and unknown settings are reported, and command line arguments are assigned to exactly the options they belong to.',
  ['inputs'], 'all texts over a token alphabet up to a length; all numeric literals around type limits; all small argument vectors',
  'Tests parse valid example configurations.',
  ['src/lib/configuration.c', 'src/lib/settings.c', 'src/lib/instance_config.c', 'src/lib/parse.c', 'src/lib/cmdlineparser/cmdline.c', 'src/lib/environment_file.c'],
  [('parse position handling', 'src/lib/parse.c')])

p('C28', 'Send queue keeps order and honours timeouts and lifetime',
  'Every message accepted by a send queue leaves it exactly once: sent successfully, dropped because of its lifetime, or returned or dropped due to timeout as configured. Messages for the same destination are sent in order, a failed send is retried, and a message whose timeout or lifetime has passed is never sent after that and, unless it waits behind another message to preserve order, not kept longer.',
  ['histories', 'fault_sequences'], 'all histories of pushes, send outcomes and time steps up to a depth for every configuration of lifetime, timeout and timeout action',
  'Tests never let sends fail for longer periods.',
  ['src/lib/send_loop.c'],
  [('send queue processing', 'src/lib/send_loop.c')])

p('C29', 'Socket clients transmit queued data whole, in order and by priority',
  'Data queued for a connection is transmitted byte exact and in order whatever partial writes, would-block results, interruptions and reconnections occur; each chunk is reported sent or failed exactly once, and a chunk is never interleaved with another. Data read from a connection is delivered to the callbacks of that connection only and complete messages are neither split nor merged.',
  ['fault_sequences', 'histories'], 'all patterns of short writes and errors over a bounded number of system calls times chunk histories',
  'Loopback sockets accept everything in one write.',
  ['src/lib/socket/rrr_socket_client.c', 'src/lib/socket/rrr_socket_send_chunk.c', 'src/lib/socket/rrr_socket_read.c', 'src/lib/read.c'],
  [('send chunk collection', 'src/lib/socket/rrr_socket_send_chunk.c'), ('read session collection', 'src/lib/read.c')])

p('C31', 'Encodings and checksums agree with their standards',
  'Base64, hexadecimal, UTF-8 validation, CRC32, SHA-1, SHA-256, byte order and compression functions compute exactly what their specifications define, encode/decode pairs are inverses, and invalid input is refused without reading or writing out of bounds. (Base64 decoding skips characters outside of its alphabet as MIME does, and refuses input without data.)',
  ['inputs'], 'all inputs up to a length (full byte alphabet for short ones) compared with independent references; all message lengths around block boundaries and all update splits',
  'Tests check a few known answers.',
  ['src/lib/util/base64.c', 'src/lib/util/hex.c', 'src/lib/util/utf8.c', 'src/lib/util/crc32.c', 'src/lib/sha1/sha1.c', 'src/lib/util/sha256.c', 'src/lib/util/rrr_endian.c', 'src/lib/zlib/rrr_zlib.c'],
  [('encoders', 'src/lib/util')])

p('C32', 'Password file edits and authentication are exact and crash safe',
  'A user is authenticated exactly when the file holds an entry with that name, a matching password and the required permission. Adding, changing or removing a user or permission changes only that entry, and a malformed file or name is refused without altering the file. At every crash point the file holds either its old or its new contents, and an edit which fails leaves it unaltered.',
  ['histories', 'inputs', 'crash_points'], 'all small password files and all edit sequences up to a depth, each checked with all names/passwords/permissions of the domain',
  'Tests use one file with a few operations.',
  ['src/lib/passwd.c', 'src/rrr_passwd.c'],
  [('line iteration and authentication', 'src/lib/passwd.c')])

p('C36', 'Pipelines forward each message along exactly the configured paths',
  'In a running configuration each message produced by an instance reaches, exactly once and in order, exactly those instances that list it as sender and whose topic filter, route and next-hop list admit it, and no message comes back to an instance which already handled it when back-stopping is on. Messages are not lost while the program runs and receivers keep up, under every scheduling of the instances.',
  ['schedules', 'configurations'], 'all small topologies with filters/nexthops over a message set, with scheduling deviations up to a bound',
  'Tests run a few fixed topologies under one schedule.',
  ['src/lib/poll_helper.c', 'src/lib/message_broker.c', 'src/lib/instances.c', 'src/lib/instance_friends.c'],
  [('poll with filter, nexthop and backstop checks', 'src/lib/poll_helper.c')])

def load_checks():
    ns = {}
    path = os.path.join(ROOT, 'tools', 'checks.py')
    if os.path.exists(path):
        exec(open(path).read(), ns)
    return ns.get('CHECKS', {}), ns.get('NOT_APPLICABLE', {})

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    checks, na = load_checks()
    out = dict(version=1, setup_cmd='./bin/check --setup', checks=[], not_applicable=[],
        hooks=dict(guard='RRR_VERIF_FIFO_PROTECTED_MAX_READS', enable='compile src/lib/fifo_protected.c with -DRRR_VERIF_FIFO_PROTECTED_MAX_READS=4 (done by harness fifo_mt); guard RRR_VERIF_MMAP_CHANNEL_SLOTS, compile src/lib/mmap_channel.c with -DRRR_VERIF_MMAP_CHANNEL_SLOTS=2 (done by harness mmapch)', source_commits=['76e760f', 'e1c5f6a']))
    for x in P:
        i = x['id']
        if i in checks:
            c = checks[i]
            out['checks'].append(dict(property=i, quick_cmd='./bin/check %s quick' % i, thorough_cmd='./bin/check %s thorough' % i,
                technique=c['technique'], level=c.get('level', 'model_checking'), level_note=c['note']))
        else:
            out['not_applicable'].append(dict(property=i, reason=na.get(i, 'No check has been built for this property yet; it is not claimed.')))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1); f.write('\n')
if __name__ == '__main__':
    main()
