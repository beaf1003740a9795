CHECKS = {
 'C16': dict(technique='exhaustive stateless exploration of byte streams x fragmentations on the real decoder vs reference decoder',
   note='Every byte stream over 6 octet classes up to length 7 (thorough 8), every fragmentation of each; every pair of payload octets; all sizes around the limit. Trusts the reference decoder in the harness.',
   runs=[dict(h='hdlc')]),
 'C01': dict(technique='stateless exploration of all thread interleavings (preemption bounded) and of all operation histories on the real FIFO vs list model',
   note='Histories of 3 (thorough 4) operations on up to 3 (4) initial entries with <=2 (3) non-default callback verdicts; schedules of 2 writers + 1 reader and 2 readers + writer with <=2 (3) preemptions, memory accesses which race become scheduling points. Trusts the list model and the controlled scheduler; sequentially consistent memory.',
   runs=[dict(h='fifo'), dict(h='fifo_mt')]),
 'C02': dict(technique='stateless exploration of all thread interleavings (preemption bounded) on the real broker, slot and message holders',
   note='1-2 senders and 1-2 readers, buffer/slot x plain/duplicating, all write operations in pairs, budgets, early stop; every schedule with <=1-2 (thorough 2-3) preemptions; memory accesses which race become scheduling points. The event queue is a counter per reader here (C05 decides the queue). Sequentially consistent memory.',
   runs=[dict(h='broker')]),
 'C05': dict(technique='stateless exploration of pass/handle/pause/stop histories on the real event queue with virtual time',
   note='Two functions, amounts 1/3/255 (and >65535 in total), what a callback leaves, pauses, priorities, full pipe, passes between any two steps, stop by exit or error; <=3 (thorough 5) deviations. Other threads only add to a pipe, which is atomic. Virtual time; libevent itself is trusted.',
   runs=[dict(h='evq')]),
 'C21': dict(technique='exhaustive enumeration of values x conversion lists x flags on the real converter vs reference model',
   note='Every list of 1-2 (thorough 3) of all 13 methods, 8 flag combinations, 11 types, boundary numbers, 36 strings and multi element values. Overflow in str2h is documented as undefined and not compared.',
   runs=[dict(h='conv')]),
 'C10': dict(technique='exhaustive enumeration of filters x topics and of ACL files on the real matcher and ACL vs level-list reference',
   note='Every filter and topic up to length 5 (thorough 6) over the special characters, with arbitrary bytes behind the topic as in messages; every ACL of 1-2 blocks with 0-2 user lines x all queries, 34 malformed files.',
   runs=[dict(h='topic')]),
 'C24': dict(technique='exhaustive enumeration of parameters and of histories (subjects, initialisations, restarts, database faults) on the real generator and module vs documented formula',
   note='All small parameter sets through complete cycles, integer-limit sets, and the real incrementer module with 7 configurations, every history of 4 (thorough 5) actions with one message DB fault of any kind; the message DB and event loop are stand-ins.',
   runs=[dict(h='incr')]),
 'C31': dict(technique='exhaustive enumeration of byte strings, lengths, splits and corruptions on the real codecs vs independent references',
   note='All byte strings of 1-3 bytes for UTF-8 (4-5 over class representatives, every code point), base64 of all 0-2 byte strings and all lengths below 300, decoding of all strings up to 7 (thorough 8) over the special characters, checksums for all lengths and splits, gzip with every buffer step and every truncation and single byte change of five messages. References: bitwise models, OpenSSL, zlib.',
   runs=[dict(h='codec')]),
 'C13': dict(technique='exhaustive enumeration of byte strings and URI grammars through the real encoders and parsers vs independent references',
   note='All byte strings of one and two bytes and all strings of up to 4-6 (thorough 5-8) characters over the structural alphabet of each encoding, all form collections of two (thorough three) fields over 14 names and values, all URIs of a grammar with 11 protocols, 8 hosts, 10 ports and 15 endpoints, and all URI token strings of length 6 (thorough 7).',
   runs=[dict(h='httpenc')]),
 'C18': dict(technique='exhaustive enumeration of message contents, single byte corruptions, hostile headers and stream cuts over the real message and read session code, compared with an independent implementation of the wire format',
   note='all message kinds over small field domains, every one byte (and 255 two byte) corruption, every truncation, hostile size fields with valid checksums, up to 3 messages with up to 2 (thorough 3) cuts',
   runs=[dict(h='msgs')]),
 'C20': dict(technique='bounded exhaustive enumeration of condition expressions, array trees and data on the real code against an independent evaluator',
   note='condition expressions: all binary expressions over 19 boundary operands and all operators, all three operand expressions, all token sequences up to the depth, all texts over a small alphabet; array trees from a grammar with IF, ELSIF, ELSE, REWIND, references times all data up to 4 bytes of a 4 symbol alphabet',
   runs=[dict(h='cond')]),
 'C19': dict(technique='explicit-state enumeration of array definitions and input data on the real importer, packer and exporter against an independent reference',
   note='bounded definition sizes and data lengths',
   runs=[dict(h='array')]),
 'C25': dict(technique='explicit-state enumeration of JSON documents and arrays on the real converter against an independent JSON reader',
   note='bounded document sizes; JSON-C itself is part of what is executed',
   runs=[dict(h='json')]),
 'C26': dict(technique='exhaustive enumeration of configuration texts, values, settings histories, argument vectors and environment files',
   note='All texts over a token alphabet, all documents of whole lines, all literals around limits, all settings histories and all argument vectors up to stated lengths run through the real parsers and are compared with independent readers.',
   runs=[dict(h='config')]),
 'C32': dict(technique='exhaustive enumeration of edit sequences made by the real rrr_passwd program, with every file system operation as crash and fault point, and of small password files and hashes',
   note='All edit sequences up to depth 3 (thorough 4) over two or three users, permission lists and passwords, with the complete table of names, passwords and permissions authenticated afterwards; every write, rename, unlink and fsync of an edit is a crash point after which the file must hold the old or the new contents, and fails or is cut short (all single faults, thorough all pairs); all files of up to 3 (4) lines from 12 good and malformed ones; every prefix, substitution, insertion and removal in a stored hash. Key derivation is replaced by a cheap injective function except in one scenario which uses OpenSSL.',
   runs=[dict(h='passwd')]),
 'C23': dict(technique='exhaustive enumeration of definitions over the keyword alphabet, parsed and evaluated by the real code and compared with a reference interpreter for messages covering every filter and tag outcome',
   note='All token sequences up to length 5 (thorough 6) over 19 tokens and up to 7 (9) over 10 tokens, each refused exactly when the stack rules say so and evaluated for 9 messages in two orders, also as clones; all programs of up to 3 (4) tag checks (tag index), all collections of up to 3 definitions with BAIL and failing applications, stack depths around the limit, every single (thorough: double) byte damage of three texts.',
   runs=[dict(h='discern')]),
 'C15': dict(technique='all sequences of requests, transmissions, responses in any order, elapsed time and damaged responses up to a depth on the real client, judged by an independent decoder',
   note='virtual clock; memory errors by AddressSanitizer',
   runs=[dict(h='modbus')]),
 'C14': dict(technique='all sequences of frames up to a length, all first octets and length forms, all placements of two cuts and all timing histories on the real receiver, judged by an independent model of RFC 6455',
   note='virtual clock; transport replaced by byte buffers; memory errors by AddressSanitizer',
   runs=[dict(h='ws')]),
 'C28': dict(technique='all histories of pushes, destination states, failures and elapsed time up to a depth for every configuration on the real send queue and event queue, judged by a model list',
   note='virtual time',
   runs=[dict(h='sendloop')]),
 'C04': dict(technique='all sequences of allocations, frees and maintenance up to a depth in one and in two processes, from several states of the heap, on the real allocator judged by a reference list of live blocks',
   note='one process and two processes in lock step',
   runs=[dict(h='mmapalloc')]),
 'C03': dict(technique='stateless exploration of all interleavings of writer and reader of the real channel up to a preemption bound, and of all sequential histories with refused system calls, checked against a list model',
   note='threads instead of processes; System V segments are emulated; two slots',
   runs=[dict(h='mmapch')]),
 'C17': dict(technique='explicit-state exploration of the real message database server over a scratch file system with crash and fault injection',
   note='Real server code and real files below a scratch directory; the socket client collection is replaced by direct calls, the clock is virtual (slow clocks interrupt listings at every file). All histories of put, get, delete, index, tidy and restart with other directory levels are compared with a map; states already reached are not continued twice (hash of directory tree and model). Crash points, every prefix and torn sector patterns of a write, each failing system call, and every damaged byte of a file.',
   runs=[dict(h='msgdb')]),
 'C12': dict(technique='bounded exhaustive exploration of messages, fragmentations and damage on the real HTTP/1 client and server',
   note='transport replaced by byte buffers; read.c real',
   runs=[dict(h='http1')]),
 'C07': dict(technique='model checking: exhaustive enumeration of packets, fragmentations and corruptions against an independent decoder',
   note='all packets of a grammar (bounded deviations), all single cuts, byte by byte, pairs; all single byte corruptions, deletions, insertions, truncations of base packets; all short bodies over an alphabet',
   runs=[dict(h='mqpkt')]),
 'C09': dict(technique='explicit-state exploration of client histories against the real broker',
   note='real broker (rrr_mqtt_broker_*, session_ram, topic trees) on an in-memory transport and virtual clock; all histories of CONNECT/SUBSCRIBE/UNSUBSCRIBE/PUBLISH/retain/will/takeover/disconnect/expiry of three clients up to depth 4 (5 thorough) from an empty broker and depth 3 (4) from populated ones; oracle: reference broker, exact multiset of deliveries and acknowledgements after every step',
   runs=[dict(h='mqbroker')]),
 'C08': dict(technique='explicit-state exploration of connection losses at every packet boundary against the real broker',
   note='publisher and subscriber speak MQTT octets to the real broker; publishes of every QoS pair and protocol version; the connection of either peer is cut at every packet boundary (2 losses quick, 3 thorough) and re-established, retransmissions follow the specification; oracle: at most / at least / exactly once, order, DUP, packet identifiers released, no publish left in flight; second harness: two real RRR clients against the real broker, connections cut at every packet boundary, noticed by the broker or not, away for 0/2/6 s, a monitor judges every packet; third: the packet identifier pool against a set, all short sequences from many fill levels',
   runs=[dict(h='mqqos'), dict(h='mqclient'), dict(h='mqid')]),
 'C29': dict(technique='exhaustive enumeration of operation and fault histories of the real send queue, socket client collection and read layer in virtual time',
   note='real rrr_socket_send_chunk.c, rrr_socket_client.c, rrr_socket_read.c, read.c and event queue over unix sockets with virtual time; all histories of pushes, sends, closes, migrations, connects and reads to depth 5/3/4/3 (6/5/6/4 thorough), with every partial write, interruption, would-block, error and refused connect of a small set at every step; oracle: list per connection and priority, octets seen by the peer, one notification per chunk; undecided: the position reported for a chunk which failed with a write error, and removal of a partly sent chunk through iterate',
   runs=[dict(h='sockcli')]),
}
NOT_APPLICABLE = {}
