#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Single source for ids, titles and statements."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PR = "src/protocol/"
DEC = [PR+f for f in ("mod.rs","publish.rs","connack.rs","suback.rs","unsuback.rs","puback.rs","disconnect.rs","pingresp.rs","properties.rs","qos.rs")]

prop("C01", "No broker byte stream can panic the packet decoder",
  "Whatever bytes the broker sends, in whatever fragments, decoding an incoming frame always ends in one of three ways: a packet, a request for more bytes, or an error value. It never panics, indexes or slices out of bounds, overflows an integer, or loops without making progress.",
  ["inputs"], "every content and length of the receive buffer, including truncated, over-long and inconsistent inner length fields",
  "13 unit tests feed about eight hand-written, mostly valid byte strings to single parsers; no test calls the codec, and none sends an inner length that disagrees with the frame.",
  ["src/mqtt_codec.rs"]+DEC,
  [("MqttCodec::decode","src/mqtt_codec.rs"),("parse_pkt and every FromMqttBytes impl",PR+"*.rs")])

prop("C02", "Frames are cut exactly: one whole packet consumed, none when incomplete",
  "When the receive buffer does not yet hold a complete frame, decoding reports that more bytes are needed and removes nothing from the buffer; once the complete frame is there it is never asked to wait for more (an incomplete frame may be rejected early when its type or length is already invalid). When a packet is produced, it was parsed from exactly the bytes of the first frame in the buffer (type byte, remaining length, and that many further bytes), and exactly those bytes are removed.",
  ["inputs","schedules"], "every buffer content and every way the network fragments or coalesces packets",
  "no test drives the decoder with partial or coalesced frames.",
  ["src/mqtt_codec.rs",PR+"mod.rs"], [("MqttCodec::decode","src/mqtt_codec.rs"),("parse_pkt",PR+"mod.rs")])

prop("C03", "Variable byte integers are decoded and encoded exactly as MQTT specifies",
  "Decoding a variable byte integer yields the little-endian base-128 value of its one to four bytes together with the number of bytes used, asks for more bytes when the integer is cut off, and rejects one that runs past four bytes. Encoding any value up to 268435455 yields its minimal form of at most four bytes, which decodes back to that value.",
  ["inputs"], "all byte sequences, and all 2^28 representable values",
  "no test exercises a length above one byte.",
  [PR+"mod.rs"], [("impl FromMqttBytes for VBI",PR+"mod.rs"),("impl ToMqttBytes for VBI",PR+"mod.rs")])

prop("C04", "Each incoming packet type is parsed as that type; unsupported types are errors",
  "An incoming frame whose type nibble says CONNACK, PUBLISH, PUBACK, SUBACK, UNSUBACK, PINGRESP or DISCONNECT is only ever turned into a packet of that kind. Every other type nibble, including reserved and client-to-server ones, produces an error value and never a packet or a panic.",
  ["inputs"], "all 256 first bytes with any body",
  "unit tests call individual parsers directly and never go through the dispatch.",
  [PR+"mod.rs","src/mqtt_codec.rs"], [("PacketType::try_from and parse_pkt",PR+"mod.rs")])

prop("C05", "Incoming packet fields are read from the positions MQTT assigns to them",
  "In every packet delivered by the decoder, the packet identifier, reason code, session-present flag, topic, payload, DUP/QoS/RETAIN flags and property section hold exactly the bytes MQTT 5 assigns to that field of that packet type; a PUBLISH has a packet identifier precisely when its QoS is above 0, a zero identifier or QoS 3 is rejected, and the payload is everything after the property section. Where MQTT lets the tail of a PUBACK or DISCONNECT be omitted, the omitted reason is success/normal; a frame that is well formed for its type is not rejected.",
  ["inputs"], "all well-formed and malformed frames of the seven supported incoming types",
  "three PUBLISH examples are tested; SUBACK, UNSUBACK, CONNACK, DISCONNECT and PUBACK packets are not parsed by any test.",
  DEC, [("FromMqttBytes impls of Publish, Connack, Puback, Suback, Unsuback, Disconnect",PR+"*.rs")])

prop("C06", "Reason, flag and QoS bytes map one-to-one to the MQTT 5 code points",
  "Each reason-code byte of CONNACK, PUBACK, SUBACK, UNSUBACK and DISCONNECT decodes to the reason MQTT 5 defines for that packet type, and every byte MQTT does not define for it is rejected. Where the library can also write the code (PUBACK and DISCONNECT reasons, QoS, publish flags), writing and then reading gives the same value back.",
  ["inputs"], "all 256 values of every enumerated byte, in both directions",
  "no test decodes a reason code other than by accident.",
  [PR+f for f in ("connack.rs","puback.rs","suback.rs","unsuback.rs","disconnect.rs","qos.rs","publish.rs")],
  [("TryFrom<u8> / From<..> for u8 tables","the reason enums, QoS, PublishFlags, ConnackFlags")])

prop("C07", "Incoming property sections are parsed completely, in order and within bounds",
  "When a packet's property section is accepted, the decoded list contains every property of the section, in order, each with the identifier's MQTT meaning and the value that was on the wire; parsing of each property starts right where the previous one ended and the list covers exactly the declared section length. A section that is truncated, whose last property runs past the declared length, or that contains an identifier the library does not know is an error, never a silently shortened list (a repeated PUBACK reason string keeps the last one).",
  ["inputs"], "all property sections of the six incoming packet types that carry one, any number and mix of properties",
  "one single-property section per kind is tested, for PUBACK only; sections of two or more properties and MessageExpiryInterval are never parsed.",
  [PR+f for f in ("properties.rs","connack.rs","puback.rs","suback.rs","unsuback.rs","disconnect.rs")],
  [("FromMqttBytes for Vec<..Property>, PubackProperties and the per-property parsers",PR+"*.rs")])

prop("C08", "Every property MQTT 5 allows in an incoming packet is accepted",
  "A conforming broker may put any property that MQTT 5 allows for the packet type into an incoming PUBLISH, CONNACK, PUBACK, SUBACK, UNSUBACK or DISCONNECT, and the client keeps the session instead of failing with a decode error. A property identifier that MQTT 5 does not define for that packet type is rejected.",
  ["inputs","configurations"], "all 256 identifiers for each of the six packet types",
  "only identifiers 0x01, 0x1F and 0x26 appear in tests.",
  [PR+f for f in ("properties.rs","connack.rs","puback.rs","suback.rs","unsuback.rs","disconnect.rs")],
  [("identifier dispatch of each property parser",PR+"*.rs")])

prop("C09", "Every outgoing packet is a well-formed MQTT 5 packet carrying the given values",
  "CONNECT, PUBLISH, PUBACK, SUBSCRIBE, UNSUBSCRIBE, PINGREQ and DISCONNECT are written with the type and flag bits MQTT 5 requires, a remaining length equal to the number of bytes that follow it, and the fields of that packet type in the prescribed order and encoding with exactly the values the packet holds. Every packet kind the client sends can be encoded; encoding one never panics and appends nothing else to the output.",
  ["inputs"], "all topics, payloads, property lists, QoS/retain/dup combinations, packet identifiers and keep-alive values",
  "no test encodes any packet.",
  ["src/mqtt_codec.rs"]+[PR+f for f in ("mod.rs","connect.rs","publish.rs","puback.rs","subscribe.rs","unsubscribe.rs","pingreq.rs","disconnect.rs","properties.rs")],
  [("Encoder::encode, impl ToMqttBytes for Packet and each packet","src/mqtt_codec.rs, "+PR+"*.rs")])

prop("C10", "Outgoing properties are written so that a conforming reader reads the same list",
  "The property section of an outgoing packet starts with its exact byte length and then contains every property of the list once, in list order, as the MQTT identifier of that property followed by its value in the wire type MQTT assigns to it. What the library's own reader accepts for a property is what its writer produces for it.",
  ["inputs"], "all property lists of any length and mix, including several user properties",
  "no test encodes a property.",
  [PR+"properties.rs",PR+"puback.rs",PR+"disconnect.rs",PR+"connack.rs",PR+"suback.rs",PR+"unsuback.rs"],
  [("ToMqttBytes for Property / DisconnectProperty / PubackProperties and their lists",PR+"*.rs")])

prop("C11", "A field too long for its length prefix is refused, never truncated on the wire",
  "A topic, topic filter, string or binary property longer than 65535 bytes, or a packet whose remaining length would exceed 268435455, is refused with an error before anything is queued or written. No call can put a length prefix on the wire that differs from the number of bytes following it.",
  ["inputs"], "all lengths of every caller-supplied string, binary value, payload and property list",
  "no test uses a field longer than 13 bytes.",
  ["src/client.rs","src/mqtt_codec.rs",PR+"mod.rs",PR+"properties.rs"],
  [("length checks of the Client calls","src/client.rs"),("length prefix writers",PR+"mod.rs")])

prop("C12", "Handshake: CONNECT first, and a session only after a successful CONNACK",
  "After the TCP connection is up the first and only packet written is CONNECT, and no user command is taken and nothing else is written until a CONNACK has arrived and has been handed to the application. If the first packet is anything other than a CONNACK, if the CONNACK refuses the connection, or if the stream fails or ends before it arrives, the event loop ends with an error and never starts a session.",
  ["histories","fault_sequences","schedules"], "every first packet, every refusal reason, and a connection closed or failing at any point of the handshake",
  "no test runs the event loop.",
  ["src/lib.rs","src/protocol/connack.rs"], [("async fn poll, before its main loop","src/lib.rs")])

prop("C13", "Each command taken becomes exactly one matching packet with the values given",
  "Every command taken from the queue results in exactly one packet of the corresponding kind being written, carrying unchanged the topic, payload, properties, QoS, retain flag or topic filters the caller passed and no option the command does not have (DUP, no-local, retain-as-published are unset), or ends the event loop with an error. Commands are processed one at a time in queue order, and no outgoing PUBLISH, SUBSCRIBE or UNSUBSCRIBE is written without a command.",
  ["inputs","histories"], "all command sequences interleaved with all incoming packets and timer ticks",
  "no test runs the event loop or the client handle.",
  ["src/lib.rs",PR+"publish.rs",PR+"subscribe.rs",PR+"unsubscribe.rs"], [("command branch of async fn poll","src/lib.rs")])

prop("C14", "Packet ids are taken fresh and released only by the matching acknowledgement",
  "Every outgoing SUBSCRIBE, UNSUBSCRIBE and QoS 1 or 2 PUBLISH carries an identifier newly taken from the allocator for it alone, and a QoS 0 PUBLISH takes none. An identifier goes back to the allocator exactly once, when a SUBACK, UNSUBACK, or a PUBACK for a PUBLISH still awaiting it, arrives with that identifier, and never for any other reason; a QoS 1 PUBLISH stays recorded as in flight, under its own identifier, until that PUBACK.",
  ["histories","schedules"], "all interleavings of commands and acknowledgements, including duplicate and unexpected PUBACKs",
  "the allocator's unit tests do not involve the event loop that drives it.",
  ["src/lib.rs"], [("uses of PktIds and of the in-flight queue in async fn poll","src/lib.rs")],
  state=[("pktids","identifiers not in use","src/lib.rs"),("queue","QoS 1 publishes awaiting PUBACK","src/lib.rs")])

prop("C15", "The allocator never hands out an identifier that is in use, and never loses one",
  "The identifier allocator only hands out identifiers from 1 to its maximum that are currently free, marks exactly that identifier as in use, and reports exhaustion when none is free. Returning an identifier makes exactly that identifier free again wherever it falls among the free ranges, returning one that is already free changes nothing, and no sequence of calls makes it panic.",
  ["histories"], "all sequences of taking and returning identifiers, up to and beyond exhaustion at 65535",
  "the four unit tests take at most ten identifiers from an allocator of twelve and return at most five; the default maximum is never reached.",
  ["src/pktids.rs"], [("PktIds::next_id and PktIds::return_id","src/pktids.rs")],
  state=[("ranges","linked list of disjoint ascending free ranges, slot 0 the end sentinel","src/pktids.rs"),("start","first free range","src/pktids.rs")])

prop("C16", "Each incoming PUBLISH is delivered once, and QoS 1 acknowledged with its own id",
  "Each incoming QoS 0 or QoS 1 PUBLISH produces exactly one message notification describing that packet. A QoS 1 PUBLISH is answered with exactly one PUBACK carrying its own identifier and the success reason, a QoS 0 PUBLISH with none, and no PUBACK is ever sent otherwise.",
  ["inputs","histories"], "every incoming publish, in any history of the session",
  "no test runs the event loop.",
  ["src/lib.rs",PR+"puback.rs"], [("incoming PUBLISH arm of async fn poll","src/lib.rs")])

prop("C17", "Acknowledgements reach the application once, as the right notification",
  "The CONNACK and each SUBACK and UNSUBACK received produce exactly one notification of the corresponding kind describing that packet, in the order received. PINGRESP, PUBACK and DISCONNECT produce none, and no notification of these kinds appears without the packet.",
  ["histories"], "all sequences of incoming packets",
  "no test runs the event loop.",
  ["src/lib.rs"], [("incoming arms of async fn poll","src/lib.rs")])

prop("C18", "Keep-alive: pings are sent in time, and an unanswered ping ends the session",
  "During a session a PINGREQ is sent on every keep-alive tick, the tick period does not exceed the keep-alive announced in CONNECT, and PINGREQ is sent at no other time. If a tick finds the previous PINGREQ unanswered, the event loop ends with a timed-out error; if it was answered, or none was sent yet, it does not. A tick that was delayed by other work is followed by a full period before the next one; an answer counts once it has been read from the stream.",
  ["schedules","histories"], "all interleavings of ticks, PINGRESPs and other traffic, including ticks delayed by a slow consumer",
  "no test runs the event loop or a timer.",
  ["src/lib.rs",PR+"connect.rs"], [("ping interval and pingresp_received in async fn poll","src/lib.rs")],
  state=[("pingresp_received","no ping yet / waiting / answered","src/lib.rs")])

prop("C19", "The event loop's outcome tells how the connection ended",
  "Any failure to write a packet, any read or decode error, and a DISCONNECT from the broker with any reason other than normal ends the event loop with an error; a normal DISCONNECT from the broker, and the end of the stream during a session, end it with success. A user's disconnect command writes exactly one DISCONNECT as the last packet and ends it with success; nothing is written or delivered after any of these.",
  ["fault_sequences","histories"], "every read, write and decode failure point and every disconnect reason, in any session history",
  "no test runs the event loop.",
  ["src/lib.rs",PR+"disconnect.rs"], [("error paths and DISCONNECT handling of async fn poll","src/lib.rs")])

prop("C20", "The event loop never spins: a finished input cannot make it loop without waiting",
  "Every turn of the event loop waits for the network, a command or the timer. When an input is finished for good (the peer closed the connection, or every client handle was dropped), the loop either ends or stops asking that input, and never again runs round at full speed on it; with all handles dropped it keeps serving the connection.",
  ["fault_sequences","schedules"], "connection closed, or all handles dropped, at any point",
  "no test runs the event loop.",
  ["src/lib.rs"], [("stream-end handling in async fn poll","src/lib.rs")])

prop("C21", "No peer or caller behaviour makes the event loop panic",
  "Whatever packets the broker sends, whatever commands are issued and however many identifiers are outstanding, the event loop never panics or reaches an unimplemented branch. A situation it cannot handle, such as identifier exhaustion or an unsupported QoS 2 exchange, ends it with an error value.",
  ["inputs","histories","schedules"], "every incoming packet, command and timer interleaving",
  "no test runs the event loop.",
  ["src/lib.rs",PR+"mod.rs","src/mqtt_codec.rs"], [("async fn poll, Packet::convert_to_mqtt","src/lib.rs, "+PR+"mod.rs")])

prop("C22", "A client call returns success exactly when its command was queued",
  "Subscribe, publish, unsubscribe and disconnect put exactly one command of the corresponding kind, carrying the caller's arguments, on the queue and return success, or put nothing there and return an error. They never block, panic or discard a failed hand-over silently.",
  ["inputs","schedules","fault_sequences"], "every argument, with the queue free, full or closed",
  "no test creates a client.",
  ["src/client.rs"], [("Client::subscribe/publish/unsubscribe/disconnect","src/client.rs")])

prop("C23", "The publish builder keeps what it is given",
  "A built publish carries the given topic and payload bytes unchanged, a payload format indicator of 1 for text and 0 for bytes ahead of the caller's properties, and every added property once in the order added. It uses the chosen QoS, or QoS 0 if none was chosen, and is not retained unless asked.",
  ["inputs","programs"], "every sequence of builder calls with any arguments",
  "no test uses the builder.",
  ["src/client.rs"], [("PublishBuilder","src/client.rs")])

prop("C24", "The event-loop future connects once, reports failure, then runs the session",
  "Polling the event-loop future drives the TCP connect; a connect failure completes it with an error, and success starts exactly one session on that stream with the command queue and the notification channel of the client it was created with. It stays pending exactly as long as the connect or the session is pending and completes with the session's own result.",
  ["schedules","fault_sequences"], "every sequence of polls, with the connect or session pending, failing or succeeding at any of them",
  "no test polls the event loop.",
  ["src/lib.rs","src/client.rs"], [("impl Future for EventLoop, MQTTFuture","src/lib.rs"),("Client::new","src/client.rs")])

prop("C25", "Handles can be cloned and moved across threads; the event loop can be spawned",
  "The client handle can be cloned, sent to and shared with other threads; the event loop is a future that can be spawned on a multi-threaded executor without borrowing from its creator; notifications can be received as a stream on another thread. Command and wire-packet types cannot be forged from outside, so only client calls put commands on the queue.",
  ["programs"], "every program that uses the crate's public interface",
  "the example uses threads but no test checks the bounds; nothing checks what must not compile.",
  ["src/client.rs","src/lib.rs"], [("Client, EventLoop, Notification, module privacy","src/client.rs, src/lib.rs")])

prop("C26", "Unacknowledged QoS 1 publishes are delivered at least once across reconnects",
  "A QoS 1 publish that the client accepted is eventually delivered to the broker at least once, being re-sent with DUP set after a reconnect if its acknowledgement did not arrive.",
  ["histories","fault_sequences"], "every loss or reconnect point",
  "no test runs the event loop; the behaviour is a TODO in the source.",
  ["src/lib.rs"], [("queue in async fn poll (the TODO above it)","src/lib.rs")])

prop("C27", "A slow notification consumer does not delay acknowledgements past keep-alive",
  "However slowly the application drains notifications, pings and acknowledgements go out within the keep-alive period.",
  ["schedules"], "every consumer speed and executor schedule",
  "no test runs the event loop or a timer.",
  ["src/lib.rs"], [("bounded notification channel awaited inside async fn poll","src/lib.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
