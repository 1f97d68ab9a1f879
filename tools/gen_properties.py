#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
S = "source/postcard-rpc/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S+f for f in files],
         "mechanism": [{"name": n, "where": S+w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S+w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Frame headers round-trip exactly and malformed ones are rejected",
 "For every key of 1, 2, 4 or 8 bytes, every sequence number of 1, 2 or 4 bytes and every payload, both header encoders (growable and fixed-buffer) produce the same documented bytes, and decoding them gives back exactly that key, that sequence number, both widths and the untouched payload. "
 "Decoding an arbitrary byte string either yields a header whose encoding is exactly the consumed prefix or refuses it, and always refuses an unknown version, the undefined sequence-length code and a truncated header. "
 "Encoding into a buffer that is too small is refused, encoding into one that is exactly large enough succeeds, bytes after the header are not modified, and no input makes either direction panic.",
 ["inputs"], "all headers (4 key widths x 3 sequence widths x all values), all byte strings, all destination buffer lengths",
 "The unit test checks five fixed headers; no test decodes hostile or truncated bytes, tries undersized buffers or compares the two encoders.",
 ["header.rs"],
 [("header encoders write_to_vec / write_to_slice", "header.rs"), ("decoder take_from_slice with checked splits", "header.rs")],
 ["VarHeader::write_to_vec", "VarHeader::write_to_slice", "VarHeader::take_from_slice"])

prop("C02", "Shortened keys agree however and wherever they are shortened",
 "Shortening a message key to 4, 2 or 1 bytes gives the same result whether it is done in one step or in several, at compile time or at run time, by the client, the server or the key-conversion API. "
 "Two keys of different lengths compare equal exactly when the longer one shortened to the length of the shorter has the same bytes, in either order of comparison; shortening never lengthens a key, and a key shorter than the one asked for is refused rather than padded. "
 "Sequence numbers compare by numeric value whatever their width, and changing their width keeps the value modulo the new width.",
 ["inputs"], "all keys and pairs of keys of all widths, all shortening paths, all sequence numbers and width changes",
 "Existing tests never compare keys of different widths nor check that multi-step shortening commutes; they use a handful of real keys.",
 ["lib.rs", "header.rs"],
 [("byte folding in Key1/Key2/Key4 constructors", "lib.rs"), ("VarKey equality, shrink_to and TryFrom conversions", "header.rs"), ("VarSeq equality and resize", "header.rs")],
 ["Key*::from_key*", "VarKey::eq/shrink_to", "VarSeq::eq/resize", "TryFrom<&VarKey>", "Endpoint/Topic KEY1/2/4 constants"])

prop("C03", "The chosen key length is collision-free in each direction and minimal",
 "For every set of message keys, the key length computed for it is the smallest of 1, 2, 4 and 8 bytes at which no two keys of the set coincide, and a set that contains the same full key twice is refused. "
 "A dispatcher uses a length that is collision-free for everything the client can send it and, separately, for everything the device can send back, including the standard messages and the error reply. "
 "Consequently no request is ever handled by another message's handler and no reply, error or topic message is ever taken for a different one.",
 ["inputs", "configurations"], "all sets of keys split over any number of lists; all interface definitions",
 "Tests check four hand-written two-key sets; whether real interfaces collide depends on hash values of all paths and types, which no test samples.",
 ["server/mod.rs", "server/dispatch_macro.rs", "lib.rs"],
 [("min_key_needed / keycheck! pairwise comparison", "server/mod.rs"), ("sizer module: lists of incoming and outgoing keys, max of both", "server/dispatch_macro.rs")],
 ["min_key_needed()", "Dispatch::min_key_len()", "DeviceMap::min_key_len", "frames on the wire"])

prop("C04", "Every call gets its own reply, never somebody else's",
 "However many calls are in flight on any clones of a client, in whatever order their replies arrive and whatever key and sequence-number widths the peer uses in them, every completed call returns exactly the reply (or the protocol error) that was sent for its own request. "
 "A reply completes at most one call, a call whose reply was never sent stays pending, and a call whose reply was received is completed without any further message. "
 "A reply body that does not decode as the expected type is reported as a decoding error to that one caller only.",
 ["schedules", "inputs", "configurations"], "all interleavings of callers, workers and reply arrival; all reply orders, widths and error/success mixes",
 "The integration tests issue calls one at a time or with replies in request order; cross-delivery needs concurrent calls with permuted, mixed-width replies and particular wake-up orders.",
 ["host_client/mod.rs", "host_client/util.rs"],
 [("waiters registered before the request is queued", "host_client/mod.rs"), ("wait map keyed by response key + sequence number", "host_client/mod.rs"), ("incoming worker hands frames to waiters", "host_client/util.rs")],
 ["HostClient::send_resp / send_resp_raw results", "frames on a harness wire"],
 [("wait map", "callers waiting for (key, sequence)", "host_client/mod.rs"), ("sequence counter", "unique number per call", "host_client/mod.rs")])

prop("C05", "The server handles each request once and answers it exactly once",
 "For every stream of well-formed frames, each frame for a registered endpoint runs that endpoint's handler exactly once with the decoded request and original header, and produces exactly one answer: the handler's response under that endpoint's response key, with the request's sequence number (same value and width) and the server's key length. "
 "A frame that cannot be served gets exactly one error answer of the matching kind instead (undecodable body, unknown key, key too short, failed spawn, response that could not be serialised or sent) and, the last case apart, runs no handler; topic messages run their handler once if decodable and are never answered. "
 "Blocking and async handlers run one after another in arrival order with no other frame's handling in between, and spawned handlers never delay later frames.",
 ["inputs", "histories", "schedules"], "all sequences of request, topic, undecodable and unknown frames of all key/sequence widths, all handler kinds, all handler delays",
 "Tests send a few valid frames in one key width and read the replies; they do not mix widths, malformed bodies, unknown keys, spawn failures and slow handlers in long random histories.",
 ["server/mod.rs", "server/dispatch_macro.rs"],
 [("Server::run receive/dispatch loop", "server/mod.rs"), ("define_dispatch! match arms and error replies", "server/dispatch_macro.rs"), ("Sender::reply / error", "server/mod.rs")],
 ["frames sent by the server", "handler invocation log"])

prop("C06", "The server survives any frame and stops only when the link is dead",
 "No sequence of received byte strings, oversized frames, or recoverable receive or send failures makes the server loop panic, hang or return, and every well-formed request received afterwards is still answered correctly. "
 "The loop returns exactly when the transport reports a closed connection on receive, or a closed connection or a timeout on the final attempt to answer (the response, or the error that replaces a response that could not be sent), and the returned value says which side failed and carries the transport's own error. "
 "Frames without a decodable header are ignored without any answer.",
 ["inputs", "fault_sequences"], "all byte strings as frames, all placements of recoverable and fatal receive/send errors in a history",
 "Tests never feed undecodable or oversized frames nor inject transport errors into the server loop.",
 ["server/mod.rs", "server/dispatch_macro.rs", "server/impls/test_channels.rs"],
 [("error classification in Server::run", "server/mod.rs"), ("bounded copy into the receive buffer", "server/impls/test_channels.rs")],
 ["Server::run return value", "frames sent by the server", "panic monitor"])

prop("C07", "The client survives any incoming frame without misdelivering it",
 "No sequence of incoming byte strings (truncated, wrong version, unknown keys, unsolicited or duplicated replies, undecodable bodies) makes the client panic, stop its workers, or hand a message to a caller or subscriber that it was not addressed to. "
 "Calls and subscriptions that are active while such frames arrive still receive exactly the well-formed messages addressed to them, and typed subscribers silently skip bodies that do not decode.",
 ["inputs", "histories", "schedules"], "all byte strings mixed into live traffic at any point",
 "Tests only deliver frames produced by a cooperating server.",
 ["host_client/util.rs", "host_client/mod.rs", "header.rs"],
 [("in_worker header check and dispatch to subscription or waiter", "host_client/util.rs"), ("skip-on-decode-error in typed subscriptions", "host_client/mod.rs")],
 ["HostClient call results", "subscription streams", "is_closed()"])

prop("C08", "Closing or losing the link promptly releases every user of the client",
 "Once any clone closes the client, or the transport fails on its receive or send side at any moment, every pending and every later call, publication and subscription attempt on every clone finishes with the closed error, every subscription ends after at most the messages already queued in it, and waiting for closure completes. "
 "None of them hangs or reports success for a reply that did not arrive. "
 "Both background workers then end and drop the transport; dropping the last clone without closing also ends them and releases the transport.",
 ["schedules", "fault_sequences", "histories"], "all moments of closure or transport failure relative to calls, queued frames and worker progress; all clones",
 "Tests close an idle client or one with a single pending operation; they cannot cover closure at every point of concurrent traffic.",
 ["host_client/mod.rs", "host_client/util.rs"],
 [("stopper raced against every operation", "host_client/mod.rs"), ("workers stop the others when they exit; subscriptions purged", "host_client/util.rs")],
 ["results of pending and later operations", "worker task completion", "drop of the transport objects"],
 [("stopper", "permanent closed flag with waiters", "host_client/util.rs"), ("subscriptions.stopped", "no additions after shutdown", "host_client/util.rs")])

prop("C09", "An exclusive subscription gets its topic's messages in order, without gaps",
 "A subscriber receives exactly the messages that arrived for its topic while it was subscribed, in arrival order, each once, whatever key width they carry, except messages that arrived while its queue was full for longer than the configured waiting time; nothing is lost while the queue has room, and a full or abandoned subscription never blocks other traffic longer than that time per message. "
 "While one exclusive subscription to a topic is alive a second exclusive attempt is refused and leaves the first undisturbed; the legacy form instead ends the earlier one, and a topic whose subscriber was dropped can be subscribed again. "
 "Subscriptions to different topics, broadcast subscriptions and calls do not affect one another.",
 ["histories", "schedules", "configurations"], "all interleavings of subscribing, dropping, arriving messages and slow readers; all depths and waiting times",
 "Tests cover single hand-written subscribe/publish sequences with idle timing and no slow reader or re-subscription races.",
 ["host_client/mod.rs", "host_client/util.rs"],
 [("exclusive list with bounded channel per topic", "host_client/util.rs"), ("replace or refuse on subscribe", "host_client/mod.rs")],
 ["subscription streams versus the frames put on the wire"])

prop("C10", "Broadcast subscribers each see every message or are told how many they lost",
 "For every broadcast subscriber, the messages received plus the losses reported account for exactly the messages that arrived on its topic from subscription to end, in arrival order, without duplicates; losses occur only if it fell behind by at least the queue depth, which is set by the subscriber that created the topic's queue. "
 "Any number of subscribers to the same topic, joining and leaving at any time and alongside an exclusive subscriber, each get this guarantee independently, and a slow or dropped one never delays the others. "
 "When the link closes each subscriber first drains what it had queued and is then told so.",
 ["histories", "schedules", "configurations"], "all interleavings of joins, leaves, messages and slow readers; all depths",
 "Tests have two subscribers and a few messages in one order; conservation under lag and churn needs long random histories.",
 ["host_client/mod.rs", "host_client/util.rs"],
 [("broadcast list; shared channel per topic", "host_client/util.rs"), ("lag translation in recv", "host_client/mod.rs")],
 ["subscription streams versus the frames put on the wire"])

prop("C11", "Everything a client sends reaches the wire once, intact and in order",
 "Every publication or call that was accepted while the link is up is handed to the transport exactly once as one frame with the given key (shortened to the negotiated length), the given sequence number and the exact serialised body; frames from one task appear in the order it submitted them. "
 "Publications that report failure are never transmitted after the transport has been released, nothing else is ever transmitted, and a full outgoing queue only delays the sender. "
 "Server-side publications and log messages reach the transport under the same rules with the server's key length.",
 ["schedules", "inputs", "configurations"], "all interleavings of concurrent senders, all queue depths, transport delays, all messages and sequence widths",
 "Tests publish a few messages from one task and check they arrive; ordering, exact bytes and back-pressure under concurrency are not sampled.",
 ["host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/impls/test_channels.rs"],
 [("bounded outgoing queue and single output worker", "host_client/util.rs"), ("publish / publish_raw key shortening", "host_client/mod.rs"), ("Sender::publish", "server/mod.rs")],
 ["frames handed to the transport"])

prop("C12", "Key length is negotiated from the server's replies; sequence width is as asked",
 "A client starts with full 8-byte keys and, after a reply or error with another key length has completed a call, uses that length for all keys it sends from then on, so that every later request still matches its reply; calls in flight across a change still get their replies. "
 "Calls carry sequence numbers of the width the client was configured with, distinct for consecutive calls up to wrap-around of that width. "
 "A request whose sequence number is already in flight for the same response is refused immediately and disturbs neither the earlier call nor any later one.",
 ["histories", "schedules", "configurations"], "all server key lengths, configured sequence widths, numbers of calls (including wrap-around) and in-flight patterns across the switch",
 "Tests use servers whose key length stays fixed at one value and fewer than 256 calls, and never look at the widths on the wire.",
 ["host_client/mod.rs", "header.rs"],
 [("stored key kind updated from replies", "host_client/mod.rs"), ("sequence counter and configured kind", "host_client/mod.rs"), ("duplicate registration refused by the wait map", "host_client/mod.rs")],
 ["frames handed to the transport", "call results"])

prop("C13", "COBS stream decoding does not depend on chunking and recovers after garbage",
 "For every byte stream and every way of cutting it into chunks, the stream decoder reports the same frames: exactly the decodable zero-terminated segments that fit its buffer, in order, each with its exact contents. "
 "Malformed and over-long segments produce an error report and no frame, never swallow or alter any later segment, and never cause a panic or out-of-bounds access. "
 "A frame that exactly fills the buffer is accepted.",
 ["inputs"], "all byte streams, all chunkings, all buffer sizes",
 "There is no test of the accumulator at all.",
 ["accumulator.rs"],
 [("CobsAccumulator feed loop", "accumulator.rs")],
 ["CobsAccumulator::feed results"], [("buffer + fill index", "bytes of the current segment", "accumulator.rs")])

prop("C14", "Schema discovery returns the device's full interface or an error",
 "Against a device that answers schema discovery over a reliable link without pausing for 100 ms between messages, with a client that keeps up, discovery returns a report listing exactly the endpoints, incoming topics and outgoing topics of the device with their paths, keys and resolved types (types that compute to the announced key), plus every non-primitive type they use. "
 "If any discovery message is lost, or the device reports send errors, or a type cannot be resolved, or the link closes, the result is an error; an incomplete or altered report is never returned as success. "
 "The device sends one message per type, endpoint and topic followed by totals that match what it sent.",
 ["inputs", "fault_sequences", "configurations"], "all device interfaces, all subsets of lost discovery messages, all key lengths",
 "One test queries one device over a perfect link.",
 ["host_client/mod.rs", "server/mod.rs", "standard_icd.rs"],
 [("get_schema_report collection and count comparison", "host_client/mod.rs"), ("send_all_schemas with totals", "server/mod.rs")],
 ["SchemaReport", "discovery frames on the wire"])

prop("C15", "Interface type lists contain every used type once and no primitives",
 "For every type with a schema, the list of types derived for it contains the type itself and everything reachable from it through fields, elements, options, maps, tuples and all kinds of enum variants, except primitives, each exactly once by structural equality. "
 "Merging lists keeps every distinct type and drops only duplicates and primitives, and the declared endpoint and topic lists contain exactly the declared entries (plus the standard ones unless omitted) with the key computed from path and type.",
 ["inputs", "programs"], "all schema trees and all endpoint/topic declarations",
 "Tests list three or four concrete types; variants with nested types and duplicates that differ deep inside are not sampled.",
 ["uniques.rs", "macros.rs"],
 [("type_chewer_nty / type_chewer_dmt recursive collection", "uniques.rs"), ("nty_eq structural equality", "uniques.rs"), ("merge_nty_lists, cruncher, combine_with_copy", "uniques.rs"), ("endpoints! / topics!", "macros.rs")],
 ["unique_types!, merge_unique_types!, EndpointMap, TopicMap, DeviceMap"])

prop("C16", "USB device frames always arrive as exactly one delimited transfer",
 "For every message sent by a USB device server, the host sees one transfer consisting of full 64-byte packets followed by one shorter (possibly empty) packet, whose concatenation is exactly header plus serialised body; a message that does not fit the transmit buffer is refused and puts nothing on the bus, and concurrent senders never interleave their packets. "
 "A send fails with a timeout if and only if the bus has not taken all its packets within the per-packet allowance (default 2 ms, configurable 1 ms to 60 s where supported) times the number of data packets (length divided by 64, rounded up), counted from when it gained the bus, and with a connection-closed error when the endpoint is disabled. "
 "After a failed or abandoned send the next message is still delivered as its own delimited transfer: leftovers of the failed one are terminated first and never merged into it.",
 ["inputs", "fault_sequences", "schedules"], "all message lengths, buffer sizes, bus stall and disable points, numbers of concurrent senders, both supported USB stack versions",
 "The USB server has only compile-time fakes; nothing executes it in the test suite.",
 ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"],
 [("send_all: pending-frame marker, 64-byte chunks, empty terminator, timeout", "server/impls/embassy_usb_v0_4.rs"), ("mutex around endpoint and buffer", "server/impls/embassy_usb_v0_4.rs")],
 ["packets written to a simulated USB IN endpoint under virtual time", "send results"],
 [("pending_frame", "a transfer may be unterminated on the bus", "server/impls/embassy_usb_v0_4.rs")])

prop("C17", "USB device reception reassembles frames exactly and resynchronises",
 "For every sequence of host transfers, the USB device receiver returns each transfer shorter than its buffer (a multiple of 64 bytes) as exactly one frame with the exact bytes, whatever its packet boundaries, including transfers whose length is a multiple of 64 and end with an empty packet. "
 "A transfer that does not fit is reported once as too large and consumed up to its end, so the next transfer is returned intact; a disabled endpoint is reported as a closed connection. "
 "Frames never contain bytes of another transfer.",
 ["inputs", "fault_sequences"], "all transfer lengths and sequences, buffer sizes, disable points, both supported USB stack versions",
 "Nothing executes the USB receiver in the test suite.",
 ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"],
 [("receive: windowed packet reads and too-large drain loop", "server/impls/embassy_usb_v0_4.rs")],
 ["frames returned by the receiver over a simulated USB OUT endpoint"])

prop("C18", "Device log messages always arrive decodable, complete or visibly truncated",
 "Every log text or formatted log call on a device either is refused with an error or yields exactly one log-topic frame that decodes to a valid string: the exact text if it fits the transmit buffer, otherwise (formatted logging only) the longest prefix that fits ended by three dots that replace its end (refused if not even the dots fit). "
 "No text, formatting pattern, key length or transmit buffer size makes logging panic or emit an undecodable frame. "
 "Transmitted log frames of one device carry consecutive sequence numbers (a refused or failed call may leave a gap) under the logging topic's key at the server's key length.",
 ["inputs", "configurations"], "all strings (including multi-byte characters at the truncation point), format fragments, buffer sizes and key lengths, channel and both USB transports",
 "No test logs anything over USB; the channel transport logs two short ASCII strings.",
 ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs", "server/impls/test_channels.rs", "server/mod.rs"],
 [("reserved non-canonical length field and in-place formatting", "server/impls/embassy_usb_v0_4.rs"), ("SliceWriter truncation", "server/impls/embassy_usb_v0_4.rs")],
 ["frames sent for log calls, decoded as the logging topic's message"])

prop("C19", "Host and embedded builds agree on every standard message",
 "A device built without the standard library and a host built with it compute the same keys for all standard endpoints, topics and the error message at every key length, list them in the same order under the same paths, and encode the same values to the same bytes, so everything either side sends decodes to the same value on the other. "
 "This covers ping, discovery data for arbitrary schemas, discovery totals, logging and every error kind. "
 "Both builds also accept and reject exactly the same headers and fold keys identically.",
 ["configurations", "inputs"], "both build configurations, all standard messages and values",
 "Every test runs in one configuration with std enabled; the no_std encodings are never executed.",
 ["standard_icd.rs", "lib.rs", "header.rs", "server/mod.rs"],
 [("cfg-dependent message types sharing one schema", "standard_icd.rs")],
 ["keys and encoded bytes exchanged between two separately built programs"])

prop("C20", "No undefined behaviour or data race on any explored execution",
 "No input to the wire decoders, stream decoder, dispatcher or USB and log paths, and no concurrent use of client clones, subscriptions and server senders from several threads, causes undefined behaviour, an out-of-bounds or uninitialised access, a data race or a memory leak that grows with traffic. "
 "Arithmetic on lengths and indices never overflows.",
 ["inputs", "schedules"], "all inputs and thread interleavings",
 "Ordinary tests cannot observe undefined behaviour or races; they only see wrong results when the compiler happens to expose them.",
 ["header.rs", "accumulator.rs", "host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/impls/embassy_usb_v0_4.rs"],
 [("checked slicing and safe code apart from key construction", "header.rs"), ("tokio and maitake primitives", "host_client/mod.rs")],
 ["Miri, ThreadSanitizer and AddressSanitizer reports"])

prop("C21", "Abandoned calls disturb nobody and leak nothing",
 "Dropping or timing out a call, publication or subscription attempt at any point never changes the outcome of any other call or subscription and never stops the client. "
 "A reply that arrives after its call was abandoned is discarded: it is never returned by a later or concurrent call with another sequence number, and abandoning calls repeatedly leaves no registration behind that would make a later call fail. "
 "Pings on the same client keep succeeding.",
 ["schedules", "histories"], "all cancellation points relative to registration, queuing, transmission and reply arrival",
 "Tests never drop a call part-way.",
 ["host_client/mod.rs", "host_client/util.rs"],
 [("waiter deregistration on drop", "host_client/mod.rs"), ("sequence numbers not reused", "host_client/mod.rs")],
 ["results of surviving calls", "frames on a harness wire"])

prop("C22", "The host USB transport delivers each frame as one transfer and reports failure",
 "Every frame a USB-connected client sends is submitted as one bulk transfer, followed by an empty transfer exactly when its length is a multiple of the endpoint's packet size (or that size is unknown), and is complete before the next frame is submitted; any failed outgoing transfer closes the client. "
 "Every incoming transfer of up to 1024 bytes becomes exactly one frame in order, with several reads kept queued; up to ten consecutive stall or unknown errors are recovered by cancelling outstanding reads and clearing the halt (transfers that complete during recovery may be lost), and any other error, an eleventh consecutive one or a failed clear closes the client. "
 "Connecting picks the first device and interface (by its number) that match and its bulk endpoints, and reports an error when something is missing.",
 ["inputs", "fault_sequences"], "all frame lengths and packet sizes, all sequences of transfer results",
 "The transport needs hardware, so no test runs it.",
 ["host_client/raw_nusb.rs"],
 [("send_inner: submit, empty transfer, completion", "host_client/raw_nusb.rs"), ("recv_inner: queue refill and stall recovery", "host_client/raw_nusb.rs")],
 ["calls made on a simulated USB library linked in place of the real one"])

prop("C23", "The serial client exchanges every frame intact over a real tty",
 "Over a serial line a client transmits each frame as one COBS segment ended by a zero byte, in order, and delivers every well-formed frame it receives (with any valid key and sequence widths, down to the smallest header and up to its 1024-byte buffer) whatever the chunking, line noise and malformed segments before it. "
 "Line errors and garbage never close the client or corrupt neighbouring frames. "
 "When the device goes away the client becomes closed and every pending operation finishes, without busy-looping.",
 ["inputs", "fault_sequences", "schedules"], "all frames, read chunkings, garbage placements and hang-up moments",
 "No test opens a serial port.",
 ["host_client/serial.rs", "accumulator.rs"],
 [("COBS encode + write_all", "host_client/serial.rs"), ("read loop feeding the accumulator and pending queue", "host_client/serial.rs")],
 ["bytes on a pseudo-terminal", "client results"])

prop("C24", "The browser transport delivers each frame as one transfer and reports failure",
 "In a browser, every frame a WebUSB client sends is handed over as one transfer on the configured endpoint, followed by an empty transfer exactly when its length is a multiple of 64 bytes, complete before the next one starts, and a transfer that is rejected, throws or ends with a stall or babble status closes the client. "
 "Every successful incoming transfer becomes exactly one frame with exactly its bytes, in order, read with the configured maximum length from the configured endpoint; a rejected one or one with another status closes the client. "
 "Connecting uses the first already paired device of the requested vendor, otherwise asks the user with a filter for that vendor, opens it and claims the requested interface, and reports an error if any step fails.",
 ["inputs", "fault_sequences", "schedules"], "all frame sequences, transfer results, device populations and orders of settlement",
 "It only builds for wasm and needs a browser with WebUSB and a device; no test touches it.",
 ["host_client/webusb.rs"],
 [("WebUsbWire send / receive", "host_client/webusb.rs"), ("device selection, opening and claiming", "host_client/webusb.rs")],
 ["calls made on a simulated browser API linked in place of web-sys"],
 hook="cfg vp_native_webusb builds the module for the native target")

prop("C25", "Client and device joined by a working link behave as one system",
 "While the link between a client and a device works, every call returns exactly what that endpoint's handler on the device returned for that very request, or the device's reason for not serving it (unknown message, undecodable request, handler that could not be started, response too large), whatever the handler kinds, key length, sequence-number width and number of concurrent callers; the handler runs exactly once per call. "
 "Every message a client publishes is handled exactly once, a task's messages to inline handlers in the order it published them, and every message or log line the device publishes reaches every subscriber with room for it exactly once, intact, in one order common to all subscribers and consistent with each sender's order, messages with empty payload included. "
 "A request the device cannot receive disturbs no other traffic, and when one end goes away the other finishes: calls and subscriptions end, and the server loop returns.",
 ["schedules", "inputs", "configurations", "histories"], "all sets of concurrent callers, publishers, subscribers and device tasks, all interleavings, key lengths, sequence widths and handler kinds",
 "The integration tests run one call or one publication at a time over the channel link with one key length.",
 ["host_client/mod.rs", "host_client/util.rs", "host_client/test_channels.rs", "server/mod.rs", "server/dispatch_macro.rs", "server/impls/test_channels.rs"],
 [("client calls, publications and subscriptions", "host_client/mod.rs"), ("server loop and senders", "server/mod.rs"), ("dispatch of endpoints and topics", "server/dispatch_macro.rs"), ("channel transports of both ends", "server/impls/test_channels.rs")],
 ["results of client operations", "handler invocations", "messages received by subscribers"])

prop("C26", "USB devices announce themselves so that hosts find and can use them",
 "However a USB device server is set up (plainly, with further functions added by the application, or in the Poststation form; both stack versions), whatever identity the application configures and in whatever order a host asks, the device presents exactly one vendor-class (0xFF) interface setting with one bulk-in and one bulk-out endpoint of 64-byte packets, and these are the endpoints its messages use whenever the device is configured. "
 "The application's identifiers, strings and further functions appear unaltered, Windows is told WinUSB and the interface GUID {AFB9A6FB-30BA-44BC-9232-806CFC875321}, and only the Poststation form carries subclass 0xCA, protocol 0x7D and the interface name \"Poststation\" (in US English; no other string is affected). "
 "After a bus reset, deconfiguration or unplugging, the server loop and sends report a closed connection, and everything works again once the host has configured the device anew.",
 ["configurations", "inputs", "histories"], "all device configurations, ways of initialisation, orders of host requests and sequences of bus events",
 "Nothing executes the USB device set-up in the test suite.",
 ["server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"],
 [("WireStorage::init / init_poststation / init_without_build", "server/impls/embassy_usb_v0_4.rs"), ("PoststationHandler::get_string", "server/impls/embassy_usb_v0_4.rs"), ("mapping of disabled endpoints to closed connections", "server/impls/embassy_usb_v0_4.rs")],
 ["descriptors and strings answered by the real embassy-usb stack to a simulated host", "traffic on the announced endpoints"])

prop("C27", "Interface definitions are accepted exactly when sound, and served as declared",
 "A dispatcher definition over interfaces declared with the endpoint and topic macros is refused when it is built if two messages of one direction (the standard ones and the error reply included) have the same full key, or if it names a handler for a message that is missing from its declared lists; every other definition of supported form is accepted, "
 "in particular equal keys in opposite directions, declared messages without a handler, entries switched off by their configuration column and borrowed message types. "
 "In an accepted definition the device map lists exactly the declared entries that are switched on and the key length in use, each message reaches the handler named for it with its header and body, spawned handlers run in a task of their own, responses carry the endpoint's response key, and declared messages without a handler or with too short a key are answered with the matching error and reach no handler.",
 ["configurations", "inputs"], "all interface declarations and dispatcher definitions (paths, types, handler kinds, orders, configuration columns)",
 "The tests define a handful of interfaces, all of them sound; nothing tries to build an unsound one.",
 ["macros.rs", "server/dispatch_macro.rs", "server/mod.rs", "uniques.rs"],
 [("endpoints! / topics! expansion", "macros.rs"), ("sizer: subset assertions and needed key length", "server/dispatch_macro.rs"), ("min_key_needed", "server/mod.rs")],
 ["acceptance or refusal by rustc of generated definitions", "handler invocations and frames of the generated programs"])

prop("C28", "The in-memory test peer is a faithful link and a faithful failure",
 "An application tested against the library's in-memory peer sees what a real link would show: every frame the client sends reaches the peer exactly once, unchanged and in the order sent, every reply the peer makes ends exactly the call with that sequence number and endpoint, and every message it publishes reaches the topic's subscribers once and in order, whatever the capacity of the link (a full link delays, it never drops). "
 "After the injected fatal error, after the peer is dropped and after the client closes, pending calls and subscriptions end, later operations are refused instead of hanging, the client reports itself closed and the peer is told that its client is gone; without one of these nothing ends by itself.",
 ["schedules", "inputs", "histories", "fault_sequences"], "all interleavings of callers, publishers, subscribers and peer actions, all link capacities and points of failure",
 "The tests run one call or one subscription at a time with a fixed capacity and inject the failure when the link is idle.",
 ["test_utils.rs", "host_client/util.rs", "host_client/mod.rs"],
 [("LocalFakeServer reply / publish / recv_from_client / cause_fatal_error", "test_utils.rs"), ("LocalTx / LocalRx", "test_utils.rs"), ("client workers", "host_client/util.rs")],
 ["frames received by the peer", "results of client and peer operations", "messages received by subscribers"])

prop("C29", "A USB host and a USB device joined by a cable behave as one system",
 "While a host client and a device server (either stack version) are joined by a working USB cable, every call returns what its handler returned for its own request or the device's error, every accepted call and publication runs its handler exactly once with the message that was sent and each client's publications run in order, every message the device publishes or logs reaches every subscriber once, unchanged and in an order all of them agree on, whatever the lengths of the messages (whole packets, longest frame, empty) and the timing of the controller; requests the device has no room for and answers that do not fit disturb nobody. "
 "When the cable is pulled at any moment, or the client closes, every pending operation of both ends ends and no handler runs twice; plugged in again, a new client works with the same running device as if nothing had happened.",
 ["schedules", "inputs", "histories", "fault_sequences"], "all interleavings of host tasks, device tasks and controller, all message lengths and moments at which the cable is pulled",
 "No test runs either USB transport.",
 ["host_client/raw_nusb.rs", "host_client/mod.rs", "host_client/util.rs", "server/mod.rs", "server/dispatch_macro.rs", "server/impls/embassy_usb_v0_3.rs", "server/impls/embassy_usb_v0_4.rs"],
 [("host transfers", "host_client/raw_nusb.rs"), ("device transmission and reception", "server/impls/embassy_usb_v0_4.rs"), ("server loop and senders", "server/mod.rs"), ("client", "host_client/mod.rs")],
 ["results of client operations", "handler invocations", "messages received by subscribers", "transfers on the simulated cable"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
