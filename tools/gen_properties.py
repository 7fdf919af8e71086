#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

NET = "no existing test runs the session, handler or network code at all"

p("C01", "Messages are routed exactly to the clients whose filters match",
  "A message published on a topic is delivered to a connected client if and only if at least one of that client's current subscription filters matches the topic by the MQTT 3.1.1 rules: levels compare as exact case-sensitive strings (empty levels included), `+` stands for exactly one level, a final `#` for the parent level and everything below it, and a filter starting with a wildcard never matches a topic starting with `$`. This holds whatever other filters, of this client or of others, are registered at the same time. (Filters and topics of at most 100 levels. `$share` as first level is a level like any other; only `$share` alone, or with a wildcard as second level, is outside this statement.)",
  ["inputs", "histories"],
  "every set of subscriptions held by any number of clients, and every valid topic name published against it",
  "the topic_heir tests insert one or two filters and mostly print the result; which clients match depends on how all filters in the tree interact (shared prefixes, wildcards beside literals), a space no sample covers",
  ["src/topic_heir.rs", "src/utils.rs", "src/core/mod.rs"],
  [("SubscriptionTree::get / SubHier::get", "src/topic_heir.rs"), ("tokenise_topic", "src/utils.rs")],
  ["PUBLISH packets received on every client connection after a PUBLISH by another"],
  [("subscription tree", "filter levels to subscriber leaves", "src/topic_heir.rs SubHier")])

p("C02", "One intact copy of every message per matching subscriber",
  "Each accepted PUBLISH reaches each matching subscriber connection exactly once, even when several of that client's filters match it, and the publisher itself when it is subscribed. The delivered topic and payload are byte-for-byte those published, for every payload length from zero to several megabytes, and the DUP and RETAIN flags of the forwarded packet are clear.",
  ["inputs", "histories"],
  "every topic, payload (content and length), publisher QoS and set of overlapping subscriptions",
  NET + "; the codec tests pack one 6-byte payload",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/packets/mod.rs", "src/packets/utils.rs", "src/handler.rs"],
  [("App::publish", "src/core/mod.rs"), ("de-duplication by subscriber id", "src/topic_heir.rs SubHier::get"), ("Packet::make_publish / encode_length", "src/packets")],
  ["PUBLISH packets on subscriber connections"])

p("C03", "Delivery QoS is min(published, granted) and packet ids are usable",
  "A message is delivered to a subscriber with the lower of the QoS it was published with and the highest QoS granted among that client's matching subscriptions. Deliveries at QoS 0 carry no packet identifier; deliveries at QoS 1 or 2 carry a non-zero one that differs from every identifier the broker has in flight (delivered and not yet completed by PUBACK, or by PUBREC/PUBREL/PUBCOMP) on that connection.",
  ["inputs", "histories"],
  "every combination of publish QoS, granted QoS and overlapping filters, and every history of deliveries and (late, out-of-order or missing) acknowledgements, beyond 65535 deliveries",
  NET + "; packet identifiers and effective QoS only exist in a running session",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/handler.rs", "src/packets/mod.rs"],
  [("App::publish", "src/core/mod.rs"), ("SubHier::get", "src/topic_heir.rs"), ("client_handler", "src/handler.rs")],
  ["fixed header and packet id of PUBLISH packets on subscriber connections, against the acknowledgements that client sent"])

p("C04", "A subscriber sees one publisher's messages in the order sent",
  "Messages that one connection publishes are received by every subscriber that matches them in the order they were published, also across different topics and QoS levels of that publisher. In particular, whatever a client has published before is received before what it publishes next, under any number of concurrent publishers and subscribers.",
  ["schedules", "histories"],
  "every interleaving of publishers, subscribers and broker tasks",
  NET + "; order depends on task and socket scheduling",
  ["src/handler.rs", "src/core/mod.rs", "src/main.rs"],
  [("command queue into one loop", "src/main.rs"), ("per-client event queue", "src/handler.rs")],
  ["sequence numbers carried in payloads, on subscriber connections"])

p("C05", "SUBSCRIBE and UNSUBSCRIBE take effect exactly as acknowledged",
  "After its SUBACK a granted filter receives every later matching publish; subscribing again to the same filter replaces its QoS and never produces a second copy; after its UNSUBACK no message published later is delivered through that filter, while the client's other filters and every other client's subscriptions (equal, overlapping, parent or child filters) keep working unchanged. Unsubscribing a filter that is not held is acknowledged and changes nothing.",
  ["histories", "schedules"],
  "every sequence of subscribe, resubscribe, unsubscribe and publish by any number of clients, sequential or concurrent",
  "one tree test deletes one filter and prints the tree; histories over several clients and overlapping filters are not touched",
  ["src/core/mod.rs", "src/topic_heir.rs", "src/handler.rs"],
  [("App::subscribe / App::unsubscribe", "src/core/mod.rs"), ("SubHier::insert / delete with pruning", "src/topic_heir.rs")],
  ["request and acknowledgement times, and deliveries, on all connections"],
  [("subscription tree", "must equal the set of acknowledged subscriptions", "src/topic_heir.rs")])

p("C06", "Every request gets exactly its own acknowledgement, in order",
  "Each SUBSCRIBE is answered by one SUBACK with the same packet identifier and one return code per requested filter in request order (the requested QoS when accepted, 0x80 when the filter is refused); UNSUBSCRIBE by one UNSUBACK, QoS 1 PUBLISH by one PUBACK, QoS 2 PUBLISH by one PUBREC, PUBREL by one PUBCOMP, each with the request's identifier, a client's PUBREC by one PUBREL, and PINGREQ by one PINGRESP; nothing else is answered. Answers appear on a connection in the order of the requests they answer, also when requests are pipelined.",
  ["inputs", "histories"],
  "every sequence of requests with any identifiers (1 to 65535) on a connection, pipelined or not, with deliveries in between",
  NET,
  ["src/handler.rs", "src/packets/mod.rs", "src/core/mod.rs"],
  [("client_handler", "src/handler.rs"), ("Packet::make_suback/puback/pubrec/pubrel/pubcomp/unsuback/ping_resp", "src/packets/mod.rs")],
  ["all packets sent by the broker on each connection"])

p("C07", "No acknowledged message is lost, duplicated or invented under concurrency",
  "With any number of clients publishing, subscribing, unsubscribing, connecting and disconnecting at the same time, every message published at any QoS is delivered exactly once to each client that stays connected and reading, whose matching subscription was acknowledged before the publish was sent and not given up until after it was delivered, as long as fewer than 1000 messages wait for that client. Nobody receives a message that no client published, or that only matches filters given up (acknowledged) before it was sent.",
  ["schedules", "histories"],
  "every interleaving of concurrent client operations and broker tasks, including publishers that disconnect right after publishing",
  NET + "; loss and duplication are properties of schedules",
  ["src/main.rs", "src/handler.rs", "src/core/mod.rs", "src/topic_heir.rs"],
  [("single command loop", "src/main.rs"), ("App::publish", "src/core/mod.rs"), ("client_handler", "src/handler.rs")],
  ["timestamped histories of every client operation and delivery"])

p("C08", "QoS 2 publishes are forwarded exactly once despite retransmission",
  "Within a network connection, a QoS 2 PUBLISH repeated with the same packet identifier (with or without DUP) before that identifier's PUBREL has been handled is answered by another PUBREC but not delivered to subscribers again. Once PUBREL has been answered by PUBCOMP, a new QoS 2 PUBLISH reusing the identifier is a new message and is delivered; identifiers, and different clients using the same identifier, are independent of each other, and a repeated PUBREL is answered by PUBCOMP without delivering anything.",
  ["histories", "inputs"],
  "every sequence of QoS 2 PUBLISH, retransmission and PUBREL over any identifiers and clients, interleaved with QoS 0 and 1 publishes",
  NET,
  ["src/handler.rs"],
  [("client_handler PUBLISH / PUBREL arms", "src/handler.rs")],
  ["deliveries on a subscriber against the publisher's handshake history"])

p("C09", "Behaviour does not depend on how TCP splits or joins the byte stream",
  "The broker's answers and deliveries for a client's sequence of packets are the same however those bytes are divided over reads: one byte at a time, split anywhere inside a packet (fixed header, length field, string, payload), many packets in one segment, or packets much larger than any internal buffer. A packet is acted on only once, when its last byte has arrived, and unfinished packets neither block other clients nor are mistaken for malformed ones.",
  ["inputs", "schedules"],
  "every packet sequence and every division of its bytes into segments",
  "the codec tests always pass a complete packet in one slice; " + NET,
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/headers/fixed_header.rs"],
  [("read loop", "src/handler.rs"), ("Packet::unpack / FixedHeader::from_bytes", "src/packets")],
  ["answers and deliveries compared between segmentations of the same script"])

p("C10", "Everything the broker sends is a well-formed MQTT 3.1.1 stream",
  "The bytes the broker writes to a connection always form a sequence of complete, well-formed MQTT 3.1.1 server packets: correct type and flags, a remaining length encoded in its minimal one to four bytes, and exactly that many bytes following. This holds for every packet size and however slowly, or in however small pieces, the client takes the data; only the end of a connection may cut the last packet short.",
  ["inputs", "schedules", "fault_sequences"],
  "every message size up to several megabytes, mix of acknowledgements and deliveries, and receive pattern (tiny windows, pauses) of the client",
  "pack tests compare small packets in memory; partial socket writes never happen in them",
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/utils.rs"],
  [("encode_length", "src/packets/utils.rs"), ("socket writes", "src/handler.rs"), ("Packet::pack", "src/packets/mod.rs")],
  ["raw bytes received by clients, through an independent strict decoder"])

p("C11", "Malformed or forbidden packets close the connection and have no effect",
  "A packet that MQTT 3.1.1 calls malformed or a protocol violation makes the broker close that connection, without acknowledging the packet, delivering anything from it, or acting on anything after it: reserved packet types and server-only types, wrong reserved fixed-header flags, QoS 3, a remaining length that is over-long or does not agree with the packet's contents, strings that are cut short, not UTF-8 or contain U+0000, a zero packet identifier, SUBSCRIBE or UNSUBSCRIBE without a filter, a requested QoS other than 0 to 2, an empty or wildcard topic name in PUBLISH. Complete packets sent before it on the same connection are still acted on.",
  ["inputs"],
  "every malformed packet, at any position of a connection's packet sequence",
  "one test feeds one short byte string to one primitive; nothing checks what the broker does with a bad packet",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/headers/fixed_header.rs", "src/packets/headers/connect.rs", "src/packets/enums.rs", "src/handler.rs"],
  [("VariableHeader::unpack", "src/packets/mod.rs"), ("decode_length, unpack_*", "src/packets/utils.rs"), ("client_handler error paths", "src/handler.rs")],
  ["connection end, absence of answers and of deliveries after a malformed packet"])

p("C12", "Well-formed packets are accepted and never cost a client its connection",
  "A client that sends only well-formed, permitted MQTT 3.1.1 packets keeps its connection and gets the specified answers, for all legal field values: any packet identifier 1 to 65535, strings up to 65535 bytes of any UTF-8 text, binary user passwords and will payloads, empty payloads, any RETAIN flag on PUBLISH and any DUP flag at QoS 1 and 2, many filters in one SUBSCRIBE, unknown identifiers in PUBACK/PUBREC/PUBREL/PUBCOMP. A syntactically invalid or too deep topic filter is refused with return code 0x80 in its place in the SUBACK and does not affect the other filters of the same request.",
  ["inputs"],
  "every legal packet and every legal sequence of packets",
  "a handful of fixed packets are parsed by the codec tests; legal extremes are not",
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/handler.rs", "src/core/mod.rs"],
  [("VariableHeader::unpack", "src/packets/mod.rs"), ("client_handler", "src/handler.rs"), ("App::subscribe", "src/core/mod.rs")],
  ["answers, and a PINGREQ/PINGRESP round trip after each packet"])

p("C13", "No client input crashes the broker or disturbs other clients",
  "Whatever bytes clients send, in whatever order, and however they end their connections, the broker process keeps running without panicking in any of its tasks, keeps accepting connections, and keeps serving the other clients correctly. This includes random bytes, mutated and truncated packets, extreme lengths and extremely deep or long topics.",
  ["inputs", "fault_sequences"],
  "every byte stream on any number of concurrent connections, with abrupt ends at any point",
  "tests use well-formed input only, and " + NET,
  ["src/packets/mod.rs", "src/packets/utils.rs", "src/handler.rs", "src/topic_heir.rs", "src/main.rs"],
  [("checked parsing", "src/packets"), ("one task per connection", "src/main.rs"), ("recursion over topic levels", "src/topic_heir.rs")],
  ["process state, panic messages, and canary clients' traffic"])

p("C14", "A connection does nothing before a valid CONNECT and connects once",
  "The first packet must be a CONNECT: anything else before it closes the connection with no answer and no effect. A valid CONNECT is answered by CONNACK code 0 before anything else is sent; an MQTT protocol level other than 4 is answered by CONNACK code 1, an empty client identifier without clean session by CONNACK code 2, and the connection is then closed; a CONNECT with a wrong protocol name or contradictory connect flags closes the connection without being accepted. A second CONNECT on a connection closes it.",
  ["inputs", "histories"],
  "every first packet, every CONNECT field combination (all 256 flag bytes), and every position of a second CONNECT",
  "one test parses one good CONNECT; " + NET,
  ["src/handler.rs", "src/packets/mod.rs", "src/packets/headers/connect.rs"],
  [("has_connected", "src/handler.rs"), ("CONNECT parsing", "src/packets/mod.rs"), ("Flags", "src/packets/headers/connect.rs")],
  ["answers and connection end; absence of deliveries"])

p("C15", "A client identifier is owned by at most one connection: the newest",
  "When a CONNECT with a client identifier in use is accepted, the broker closes the older connection, even if that client has stopped reading, and the new one works fully from then on: it can subscribe, publish and receive whatever the old connection was doing at that moment (disconnecting, subscribing, publishing, failing), and nothing the old connection does afterwards takes effect on the new one's session. Clients that connect with an empty identifier each get an identity of their own and never displace one another.",
  ["schedules", "histories"],
  "every interleaving of an old connection's operations and end with the new connection's CONNECT, repeated takeovers and simultaneous CONNECTs with one identifier",
  NET + "; the interesting cases are races between two connections",
  ["src/core/mod.rs", "src/handler.rs", "src/core/session.rs"],
  [("App::connect / App::disconnect", "src/core/mod.rs"), ("ClientEvent::Disconnect", "src/core/enums.rs")],
  ["ends of old connections; subscriptions and deliveries of new ones"],
  [("sessions", "client id to current connection", "src/core/mod.rs App")])

p("C16", "Clean sessions start and end empty; persistent ones keep subscriptions",
  "A connection accepted with clean session has no subscriptions but those it makes itself, and leaves none behind however it ends; its CONNACK says session-present 0. A client that last connected without clean session keeps its subscriptions when it reconnects without clean session, by takeover or after any kind of disconnection: CONNACK then says session-present 1 (otherwise 0), and messages published from then on reach the new connection exactly once at the granted QoS.",
  ["histories", "fault_sequences"],
  "every sequence of connects (clean or not), subscriptions, and ends (DISCONNECT, close, reset, takeover, protocol error, keep-alive expiry) per client identifier",
  NET,
  ["src/core/mod.rs", "src/core/session.rs", "src/handler.rs", "src/topic_heir.rs"],
  [("App::connect / App::disconnect", "src/core/mod.rs"), ("Session", "src/core/session.rs")],
  ["CONNACK flags and deliveries after reconnects"])

p("C17", "Keep-alive: silent clients are dropped, active ones never",
  "A client with keep-alive K > 0 that sends nothing is disconnected by the broker, not before K seconds have passed since its last packet and promptly once 1.5 K seconds have passed. A client that lets no more than K seconds pass between packets of any kind is not disconnected for inactivity, and neither is any client that asked for keep-alive 0. A connection that never sends a CONNECT is closed within 90 seconds.",
  ["inputs", "histories", "schedules"],
  "every keep-alive value 0 to 65535 and every pattern of packets (PINGREQ, PUBLISH, acknowledgements, ...) and silences",
  "no test runs a timer; long keep-alives would take hours in real time",
  ["src/handler.rs"],
  [("keepalive_timer", "src/handler.rs")],
  ["time between last client packet and connection end, on the broker's (accelerated) clock"])

p("C18", "An ended connection is noticed at once and leaves nothing behind",
  "However a client's connection ends (DISCONNECT, orderly close, half-close, reset, error, takeover), the broker closes its side promptly, spends no further CPU on it, and releases its socket, its task and, for clean sessions, its session and subscriptions: repeating connect, subscribe, publish and end any number of times does not make the broker's descriptors or memory grow. Subscribing and unsubscribing repeatedly, likewise, retains nothing.",
  ["histories", "fault_sequences", "crash_points"],
  "every way and moment a connection can end, any number of repetitions",
  NET + "; leaks only show over many repetitions",
  ["src/handler.rs", "src/core/mod.rs", "src/topic_heir.rs"],
  [("read loop end-of-stream handling", "src/handler.rs"), ("App::disconnect", "src/core/mod.rs"), ("SubHier::delete pruning", "src/topic_heir.rs")],
  ["/proc of the broker process: descriptors, CPU time, resident memory; connection end on the client side"])

p("C19", "A client that stops reading does not hold up anyone else",
  "A subscriber that does not read, or reads arbitrarily slowly, never delays or blocks the broker's service to other clients: connects, acknowledgements and deliveries between other clients go on as usual whatever volume is published to the stalled one, also when several clients stall or the stalled client itself keeps publishing or subscribing. When it resumes reading, it receives the messages waiting for it (while fewer than 1000 were waiting, all of them) in order and continues normally.",
  ["schedules", "fault_sequences", "histories"],
  "every volume and pattern of publishes to clients that stall at any point",
  NET + "; the effect needs full queues and socket buffers",
  ["src/core/mod.rs", "src/handler.rs", "src/main.rs"],
  [("App::publish into bounded per-client queues", "src/core/mod.rs"), ("socket writes", "src/handler.rs")],
  ["round trips of healthy clients while others stall; what stalled clients receive on resuming"])

p("C20", "SIGINT stops the broker promptly and cleanly in any situation",
  "On SIGINT the broker stops accepting, closes every client connection and exits with status 0 within seconds, whatever the clients are doing at that moment: idle, half-way through a packet, not connected yet, publishing at full rate, or not reading. A new broker can be started on the same port afterwards.",
  ["schedules", "crash_points"],
  "every moment of a SIGINT relative to client activity",
  NET,
  ["src/main.rs", "src/handler.rs"],
  [("ctrl_c, Command::Exit, CancellationToken, TaskTracker", "src/main.rs")],
  ["process exit status and time; ends of client connections"])

p("C21", "Running out of descriptors is survived and recovered from",
  "When more clients connect than the broker has file descriptors for, existing clients go on being served, and once clients leave, new ones are accepted again. Aborted and immediately closed connection attempts do not stop the broker from accepting others.",
  ["fault_sequences"],
  "every sequence of accept failures and connection attempts",
  NET,
  ["src/main.rs"],
  [("accept loop", "src/main.rs")],
  ["canary traffic during exhaustion; new connections after it"])

p("C22", "The broker has no undefined behaviour, memory errors or data races",
  "On every input and schedule the broker's execution is free of undefined behaviour (invalid enum values, out-of-bounds or dangling accesses, reads of uninitialised memory) and of data races between its tasks. This covers all packet types, malformed input, concurrent clients and shutdown.",
  ["inputs", "schedules"],
  "every byte stream and interleaving",
  "tests run uninstrumented and single-threaded on good inputs; undefined behaviour need not fail them",
  ["src/packets/enums.rs", "src/core/broker_info.rs", "src/handler.rs", "src/topic_heir.rs"],
  [("transmute in PacketType::try_from guarded by a range", "src/packets/enums.rs"), ("atomics", "src/core/broker_info.rs")],
  ["sanitizer and Miri reports while hostile and concurrent workloads run"])

p("C23", "Everyone makes progress whatever floods are going on",
  "A client that receives messages faster than it can take them still has each of its requests (PINGREQ, SUBSCRIBE, UNSUBSCRIBE, PUBLISH) answered and its publishes delivered; a client that sends packets of any kind at full speed and reads the answers still receives the messages it is subscribed to, in order; and while any clients publish at full speed, others connect, work, take over identifiers and disconnect. No traffic, in either direction, postpones these without bound.",
  ["schedules", "histories"],
  "every combination and duration of floods in and out",
  "tests send single packets to an idle broker; starvation needs sustained traffic in one direction while the other is observed",
  ["src/handler.rs", "src/main.rs", "src/core/mod.rs"],
  [("select loop of a connection", "src/handler.rs"), ("command loop", "src/main.rs")],
  ["answers and deliveries while a flood is held up until they have come"])

p("C24", "What a client costs is in proportion to what it sends",
  "Announcing a large packet makes the broker take no memory before the bytes arrive; a packet of tens of megabytes costs CPU time in proportion to its length, however it is cut into segments; routing a message, connecting, subscribing, taking over and leaving cost no more because many unrelated subscriptions, sessions or idle connections exist, nor does a message because many others have not been acknowledged, nor subscribing because the client holds many subscriptions; and idle connections cost no CPU time.",
  ["inputs", "histories"],
  "every announced length, packet size, subscription set and number of connections",
  "tests look at results, not at what they cost, and use a handful of small packets",
  ["src/handler.rs", "src/packets/mod.rs", "src/topic_heir.rs"],
  [("incoming buffer", "src/handler.rs"), ("Packet::size", "src/packets/mod.rs"), ("SubscriptionTree", "src/topic_heir.rs")],
  ["memory, address space and CPU time of the broker process around the workload"])

p("C25", "The broker starts on port 1883, or says that it cannot",
  "The broker listens on TCP port 1883 of all addresses. When the port is taken it ends promptly with a failure status and without disturbing the broker that holds it. It serves and stops as usual when its standard output and error cannot be written to (closed, full, or a pipe whose reader is gone).",
  ["fault_sequences"],
  "every state of the environment at the start",
  "tests never start the broker",
  ["src/main.rs", "src/config.rs"],
  [("bind in main", "src/main.rs"), ("ConfigBuilder", "src/config.rs")],
  ["address asked for in bind; exit status of a second broker; service with unwritable log"])

p("C26", "A connection's packets take effect in order, up to its end and not beyond",
  "The packets of one connection act as if executed one after the other in the order sent, whether or not the client waits for answers (also when they come in the same segment as the CONNECT): a message published right behind a SUBSCRIBE reaches the client itself, one right behind an UNSUBSCRIBE does not. Everything a client sent before its DISCONNECT, or before it closed its sending side, takes effect and is answered if the client still reads; nothing behind a DISCONNECT, and no unfinished packet, does.",
  ["inputs", "histories", "schedules"],
  "every sequence of requests, every way to end, every division over segments, every load on the command queue",
  "tests decode single packets; order between packets and the end of a connection exist only in the running broker",
  ["src/handler.rs", "src/main.rs", "src/core/mod.rs"],
  [("serve_client", "src/handler.rs"), ("command loop", "src/main.rs")],
  ["answers and messages of the client; messages an observer sees"])

p("C30", "Retained messages are stored and sent to new subscribers",
  "The last message published with RETAIN on a topic is delivered, flagged retained, to every later subscriber of a matching filter; an empty retained payload deletes it.",
  ["histories"], "every sequence of retained publishes and subscriptions",
  "not implemented in this tree: nothing stores retained messages",
  ["src/core/mod.rs"], [("none", "src/core/mod.rs")], ["PUBLISH after SUBACK"])
p("C31", "Will messages are published when a client vanishes",
  "When a connection with a will ends without DISCONNECT, its will message is published once; after DISCONNECT it is not.",
  ["fault_sequences"], "every way a connection can end",
  "not implemented in this tree: the will is parsed and dropped",
  ["src/handler.rs"], [("none", "src/handler.rs")], ["PUBLISH on other clients"])
p("C32", "Persistent sessions queue and redeliver QoS 1 and 2 messages",
  "QoS 1 and 2 messages matching a persistent session's subscriptions while its client is away, and those not acknowledged when it left, are delivered when it returns.",
  ["histories", "fault_sequences"], "every history of disconnections and publishes",
  "not implemented in this tree: nothing is queued for absent clients or kept until acknowledged",
  ["src/core/mod.rs"], [("none", "src/core/mod.rs")], ["PUBLISH after reconnect"])
p("C33", "$SYS topics report the broker's statistics",
  "Subscribers of the $SYS topics documented in the README receive values that agree with what the broker did.",
  ["histories"], "every traffic history",
  "not implemented in this tree: the counters exist but nothing publishes or reads them",
  ["src/core/broker_info.rs"], [("none", "src/core/broker_info.rs")], ["PUBLISH on $SYS topics"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
