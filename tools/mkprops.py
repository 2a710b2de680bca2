#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

ENC, DEC = "asn1/encode.go", "asn1/decode.go"

prop("C01", "Integers, enumerations and booleans are encoded exactly and minimally",
 "Writing any 32-bit signed integer (as integer or enumeration), any 64-bit signed integer or any boolean appends exactly one tag-length-value whose content is the shortest two's-complement form (one octet, zero only for false, for a boolean). Reading it back with the matching reader returns the same value and leaves the reader exactly at the next value, also when values follow each other. The integer readers also accept every longer two's-complement content of up to 4 octets (plain reader) or 8 octets (64-bit reader), and the boolean reader takes every octet but zero for true.",
 ["inputs"], "every 32-bit and 64-bit value, both booleans, every content length, every sequence of such values in one buffer",
 "tests write three integers and read none back; the sign and byte-boundary cases are 2^64 values",
 [ENC, DEC], [("byte-count selection of the integer writers", ENC), ("sign extension in the integer readers", DEC)],
 observe=["ASNWriter.WriteInt/WriteInt64/WriteEnum/WriteBoolean output", "ASNReader.ReadInt/ReadInt64/ReadBoolean result, Len"])

prop("C02", "Real numbers survive encoding and decoding bit for bit",
 "Writing any float64 and reading it back returns the identical value: the same bits for every finite non-zero number including subnormals, infinities by sign, NaN as NaN, and zero as zero. For normal numbers the octets, read by the Ember+ rule (sign bit 0x40, two's-complement exponent of the leading bit, unsigned mantissa), denote exactly the number written. A normal number reads as itself also from the equivalent octets another encoder may write (exponent of 1 to 3 octets, mantissa with leading zero octets or trailing zero bits, mantissa shift), and reading leaves the reader exactly at the next value.",
 ["inputs"], "all 2^64 float bit patterns; all well-formed Ember+ real encodings with mantissas of up to 53 significant bits",
 "one number (123.456) is tested in each direction",
 [ENC, DEC], [("mantissa and exponent shortening", ENC), ("mantissa normalisation", DEC)],
 observe=["ASNWriter.WriteReal output", "ASNReader.ReadReal result"])

prop("C03", "Strings and byte buffers of any length survive encoding and decoding",
 "Writing a string or byte buffer of any length (empty, one octet, beyond 127, 255, 65535 and 16777215 octets) and any content yields a tag, a well-formed definite length equal to the number of content octets, and the content. Reading it back returns the same octets and leaves the reader exactly at the next value. Content of indefinite length is read up to the first two zero octets in a row.",
 ["inputs"], "every length up to beyond 2^24 and every octet content, including 00 00, 0x80 and reserved framing octets",
 "one five-letter string is tested; no length that needs a long length form",
 [ENC, DEC], [("length writer", ENC), ("length reader and string buffer reader", DEC)],
 observe=["ASNWriter.WriteString/WriteBuffer output", "ASNReader.ReadString/ReadBitString result"])

prop("C04", "Relative object identifiers survive encoding and decoding",
 "Writing any sequence of components between 0 and 2^31-1 yields a relative-OID value whose components are in minimal base-128 form, and reading it back returns the same components in order. A sequence with a negative component is refused with an error instead of being written as some other identifier. Reading refuses a value whose last component is cut off or does not fit 31 bits.",
 ["inputs"], "all component values and sequence lengths, in particular around powers of 128",
 "two three-component identifiers are tested; 127 and its multiples by powers of 128 are not",
 [ENC, DEC], [("base-128 writer", ENC), ("base-128 reader", DEC)],
 observe=["ASNWriter.WriteRelativeOID output and error", "ASNReader.ReadOID result and error"])

prop("C05", "Truncated, mistyped or oversized values are reported, never guessed",
 "Every reader of a primitive value returns an error when the tag is not the one it reads, when the data end before the value is complete (for a real also when its contents end within the exponent), or when an integer has no content or more octets than fit. Opening a constructed value returns an error when its tag differs, its length octets are cut off, or its declared length exceeds the data that remain. Consequently every proper prefix of a message encoded with definite lengths is rejected with an error and leaves the receiving tree unchanged.",
 ["inputs"], "every prefix of every valid value or definite-length message, every wrong tag, every declared length",
 "tests feed only complete well-formed values",
 [DEC, "embertree/elementFactory.go", "embertree/root.go"], [("tag and length checks of the readers", DEC), ("error propagation of the element decoders", "embertree/elementFactory.go")],
 observe=["errors returned by ASNReader methods, DecodeElement and RootElement.Decode", "RootElementCollection after a rejected message"])

prop("C06", "Decoding hostile bytes always terminates, without panic or memory blow-up",
 "For every byte string up to 1 MiB, each decoder (primitive readers, elements, whole messages, contents, labels, signals, connections, invocations, and the S101 stream decoder feeding them) returns either a result or an error: it never panics, never loops forever and never allocates more than a fixed multiple of the input size. Rendering whatever was decoded as text does not panic either.",
 ["inputs"], "arbitrary bytes and structure-aware mutations of valid messages: unknown tags, empty collections, empty paths, nested, oversized, truncated and indefinite lengths",
 "tests never feed malformed input; a device or an attacker on the network chooses these bytes",
 [DEC, "embertree/elementFactory.go", "embertree/content_parameter.go", "embertree/matrix.go", "embertree/connection.go", "socket/frame.go"],
 [("loops over remaining content", "embertree/elementFactory.go"), ("length-prefixed allocation", DEC)],
 observe=["panic, CPU time and bytes allocated per decode call"])

prop("C07", "Element trees survive encode and decode at every depth",
 "Encoding any element tree built through the API (nodes, parameters, functions, matrices, commands, and qualified nodes, parameters and matrices, with any subset of attributes set, including none, and children at any depth) succeeds, and decoding the octets yields a tree with the same kinds, numbers, paths, attribute values and children. Attributes that were not set are not set afterwards, and encoding changes nothing: encoding the same tree again decodes to the same tree. A tree holding an identifier that has no encoding (one with a negative component), wherever it stands, is refused with an error instead.",
 ["inputs", "programs"], "all trees up to the generator's size, all subsets of attributes, all typed values",
 "tests encode one node, one parameter and one function, check a prefix of the octets, and never decode a matrix with contents or a grandchild",
 ["embertree/element.go", "embertree/elementFactory.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/command.go", "embertree/content_parameter.go"],
 [("element encoder and child recursion", "embertree/element.go"), ("element decoder", "embertree/elementFactory.go")],
 observe=["DecodeElement / RootElement.Decode of Encode output, read through getters"])

prop("C08", "Encoded messages follow the Glow wire layout",
 "Every message the library encodes is one well-formed BER value with nothing after it, laid out as Glow prescribes: application tags per element kind, number or path in [0], contents in [1] as a SET whose field numbers match their attributes, children in [2], and for matrices targets, sources and connections in [3], [4] and [5]. An independent Glow reader recovers from it exactly the elements and attribute values that were put in.",
 ["inputs"], "all element trees and attribute subsets the API can build, all values",
 "tests compare a few fixed octet strings; a symmetrical mistake in encoder and decoder passes any round trip",
 ["embertree/element.go", "embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/matrix_element.go", "embertree/connection.go", "embertree/signal.go", "embertree/label.go", "embertree/command.go", "embertree/invocation.go"],
 [("tag constants and sequence writers", "embertree"), ("StartSequence/EndSequence nesting", ENC)],
 observe=["octets produced by Encode, parsed by an independent BER/Glow reader"])

prop("C09", "Decoding does not depend on the length form or on the order of fields",
 "A Glow message decodes to the same tree whichever of its constructed values use definite lengths (with any number of length octets up to four) and which use indefinite lengths, including empty sets and empty collections, and whatever the order of the fields inside a contents set. The tree equals the one an independent encoder started from.",
 ["inputs"], "all messages, all mixtures of length forms per constructed value, all permutations of contents fields",
 "each test message uses one form throughout and one order; mixtures and empty collections are never decoded",
 [DEC, "embertree/elementFactory.go", "embertree/matrix.go", "embertree/matrix_element.go", "embertree/function.go", "embertree/node.go", "embertree/parameter.go"],
 [("ReadSequenceStart sub-readers for definite lengths, shared reader for indefinite", DEC), ("end-of-contents handling in the decode loops", "embertree")],
 observe=["DecodeElement / RootElement.Decode results through getters"])

prop("C10", "Decoding and re-encoding a message loses nothing",
 "Every field of a Glow element that the library decodes without error (including matrix labels, schema identifiers, template references, parameter locations, function arguments and results, connection operation and disposition, and invocation arguments) is present with the same value when the element is encoded again. This holds for any combination of fields and any element kind, including qualified functions.",
 ["inputs"], "all combinations and values of supported fields in all element kinds, all length forms",
 "no test re-encodes what it decoded, and several fields have no accessor that a test could look at",
 ["embertree/matrix.go", "embertree/label.go", "embertree/function.go", "embertree/invocation.go", "embertree/connection.go", "embertree/elementFactory.go", "embertree/content_parameter.go"],
 [("field storage in contents structures", "embertree")],
 observe=["Encode output of decoded elements, parsed by an independent Glow reader"])

prop("C11", "Matrix signals and crosspoints are kept exactly and guarded by kind",
 "Targets, sources and connections assigned to a matrix, or decoded from the wire, are returned and encoded in the same order with the same numbers, source lists, operation and disposition. Operations outside absolute, connect, disconnect and dispositions outside tally, modified, pending, locked are refused and leave the connection unchanged, and a matrix cannot be created with an undefined type or mode. Elements that are not matrices refuse all signal and connection operations.",
 ["inputs", "histories"], "all lists of signals and connections, all enumeration values, all element kinds, any order of set and decode operations",
 "one decode of three targets is tested; connections, sources, validation and refusals are not",
 ["embertree/matrix_element.go", "embertree/signal.go", "embertree/connection.go", "embertree/matrix.go"],
 [("isMatrix guards", "embertree/matrix_element.go"), ("range checks", "embertree/connection.go")],
 observe=["Get/Set/Encode/Decode of targets, sources, connections"])

prop("C12", "An element's path is the chain of numbers from the root, always",
 "The path reported for an element is the sequence of element numbers from its top-level ancestor down to itself, or for a qualified element the absolute path it was given; a child of a qualified element extends that path. This holds at any time, in whatever order elements were attached, moved or asked for their paths, and neither asking for a path nor changing what was returned changes the path of any element. Its parent is the element it was last attached to, or none.",
 ["histories"], "all histories of attaching, re-attaching and path queries on trees with any branching and depth",
 "paths are only tested on one decoded element without relatives",
 ["embertree/qualified_element.go", "embertree/element.go"],
 [("path computation", "embertree/qualified_element.go"), ("parent links", "embertree/element.go")],
 state=[("path", "absolute path of qualified elements", "embertree/element.go"), ("parent", "parent link", "embertree/element.go")],
 observe=["Element.GetPath", "Path2String"])

prop("C13", "Looking up a path finds exactly that element",
 "Looking up a path in a tree returns the element reached by following the numbers from the root together with its parent; if only the last step is missing it returns the parent and no element, and if an earlier step is missing, or the path is empty, it returns neither. Lookup by number returns the top-level element with that number or nothing.",
 ["inputs", "histories"], "all trees and all paths: existing, one step too long, several steps too long, diverging early, empty",
 "lookup has no test",
 ["embertree/root.go"], [("path walk", "embertree/root.go")],
 observe=["RootElement.GetElementByPath, GetElementByNumber"])

prop("C14", "The tree converges to what the received messages say",
 "After any sequence of valid messages the tree holds exactly the elements announced so far, each at its announced place: new top-level elements and new children of known elements are added, known elements get the contents, children and matrix lists the message carries, and everything a message does not mention stays as it was. It makes no difference whether a message names an element by nesting or by qualified path. An element whose parent is unknown is ignored rather than attached elsewhere. Lists of signals and connections got before a message are not changed by it.",
 ["histories"], "all sequences of messages mixing nested and qualified forms, repeated announcements, partial contents-less updates, orphans",
 "each test decodes a single message into an empty tree",
 ["embertree/root.go", "embertree/element.go", "embertree/elementFactory.go"],
 [("qualified and unqualified update", "embertree/root.go"), ("recursive update", "embertree/element.go")],
 observe=["tree contents after each RootElement.Decode, compared with a reference model"])

prop("C15", "Listeners are told of every update of what they watch, and of nothing else",
 "Each successfully decoded message notifies every listener of the tree exactly once, and every listener of an already known element that the message names, or that gains or updates a child through it, at least once, each time passing that tree or element and no error. Listeners of elements the message does not concern, and listeners that have been removed, are not called, even when removal happens inside a callback. Replacing an element's contents through the API notifies each of its listeners exactly once.",
 ["histories"], "all interleavings of listener registration, removal (also from callbacks), nested and qualified messages",
 "tests register one listener and check that it is registered, or that one contents change reaches it",
 ["embertree/element.go", "embertree/root.go"],
 [("listener maps and notification loops", "embertree/element.go"), ("post-decode notification", "embertree/root.go")],
 observe=["calls received by recording listeners"])

prop("C16", "Directory requests address exactly the requested element",
 "The directory request built for the tree is a message holding the get-directory command (number 32, all fields) at top level. The request built for an element, in nested or in qualified form, is a message a conforming provider can decode, in which the only command is get-directory for all fields and it lies directly beneath the requested element's absolute path. The original tree is not altered, apart from the listener being registered.",
 ["inputs", "histories"], "all element kinds (plain and qualified) at all depths and positions in all trees",
 "no test looks at a request message; the element form is only exercised for a top-level node and its octets are discarded",
 ["embertree/element.go", "embertree/qualified_element.go", "embertree/root.go", "embertree/command.go"],
 [("duplicate branch", "embertree/element.go"), ("qualified request", "embertree/qualified_element.go"), ("command contents", "embertree/command.go")],
 observe=["encoded request parsed by an independent Glow reader"])

prop("C17", "S101 framing delivers every message intact, however the stream is cut",
 "Encoding any payload gives frames that start with 0xFE, end with 0xFF, contain no other reserved octet outside escapes, carry a valid CRC, the Ember/Glow header, the first, middle, last or single flags their position requires and at most 1025 octets of payload in escaped form, and whose payloads concatenate to the message. Feeding any sequence of encoded messages (an empty packet may carry the last flag; the version of the frame and of Glow may be any) to a decoder, split into arbitrary chunks, delivers exactly those payloads once each, in order, without error, in buffers the decoder does not touch afterwards.",
 ["inputs", "schedules"], "all payload lengths and contents (in particular escapes at split points and CRCs that need escaping), all chunkings, all message sequences",
 "one four-byte payload is framed and one frame decoded in a single chunk",
 ["socket/frame.go"], [("escape and split", "socket/frame.go"), ("reassembly", "socket/frame.go")],
 state=[("inbuf, escaped", "frame being received", "socket/frame.go"), ("emberbuf", "message being reassembled", "socket/frame.go")],
 observe=["EncodeMessage frames", "packet handler calls"])

prop("C18", "Corrupted S101 frames are dropped and the decoder resynchronises",
 "A frame whose content was altered in transit so that its CRC no longer matches is reported and contributes nothing: no handler sees it, nor does a frame cut off by the start of the next one contribute, and a multi-frame message that lost a frame in either way is not delivered, in whole or in part. Whatever garbage or unfinished message precedes it, a complete valid message that starts with its start-of-frame octet is delivered intact. Frames with an unknown slot, message type, command, DTD or application-byte length are reported and dropped.",
 ["fault_sequences"], "every single-bit and byte corruption, truncation, duplication, insertion and concatenation of garbage between and inside frames, including dangling escapes",
 "no test feeds a damaged frame",
 ["socket/frame.go"], [("CRC check", "socket/frame.go"), ("start-of-frame and escape handling", "socket/frame.go")],
 observe=["packet, keep-alive and error handler calls, compared with a reference S101 receiver"])

prop("C19", "Keep-alives are recognised anywhere in the stream without disturbing messages",
 "Every keep-alive request or response frame in the stream, whatever its version octet and what follows it, reaches its own handler exactly once, in stream order relative to messages, and never the packet handler. Keep-alives between the frames of a multi-frame message do not affect its reassembly. The keep-alive frames the library generates are themselves valid S101 frames of the right kind.",
 ["schedules", "inputs"], "all interleavings of keep-alive frames with message frames, all chunkings",
 "keep-alive handling has no test",
 ["socket/frame.go"], [("command dispatch", "socket/frame.go"), ("keep-alive builders", "socket/frame.go")],
 observe=["handler call log", "GetKeepaliveRequest/GetKeepAliveResponse bytes"])

prop("C20", "Accepted requests are transmitted exactly once, in order, on the open connection",
 "While a connection stays open, every directory request the client accepted without error is sent to the provider exactly once as a valid S101-framed request for the right element, and requests issued one after the other by the same goroutine arrive in that order. Requests refused with an error are never sent, requests accepted before connecting are sent after connecting, requests still waiting when a connection ends are sent on the next one (only the few just being sent are lost), and the number of pending requests is bounded.",
 ["schedules", "histories"], "all numbers of requesting goroutines, bursts beyond the queue limit, requests before and after connecting, slow readers, concurrent inbound traffic",
 "the only client test needs a device that is not there",
 ["socket/client.go", "socket/frame.go"], [("output queue", "socket/client.go"), ("I/O loop", "socket/client.go")],
 state=[("outQ", "pending requests", "socket/client.go")],
 observe=["frames received by a scripted TCP provider"])

prop("C21", "The client answers every keep-alive request",
 "For every keep-alive request the provider sends on an open connection the client sends exactly one valid keep-alive response, also while it is sending and receiving other messages and when a request arrives between the frames of a multi-frame message. Keep-alive traffic does not displace, duplicate or corrupt directory requests.",
 ["schedules", "histories"], "all interleavings of keep-alive requests with directory traffic in both directions",
 "nothing in the tests connects a client; a provider that gets no answers closes the connection",
 ["socket/client.go"], [("keep-alive request handler", "socket/client.go"), ("output queue", "socket/client.go")],
 observe=["frames received by a scripted TCP provider"])

prop("C22", "Connecting, disconnecting and losing the peer never crash or wedge the client",
 "Connect succeeds only when not connected, Disconnect only when connected, and the connected state follows them; after a disconnect, a failed connect, or the peer closing the connection, the client can connect again and exchange messages on the new connection. When the peer closes the connection the client becomes disconnected by itself. No interleaving of these with inbound and outbound traffic, including disconnecting from several goroutines or from a callback, panics, deadlocks or leaves goroutines running.",
 ["schedules", "histories", "fault_sequences"], "all histories of connect, disconnect, peer close, refused connect and traffic, from several goroutines",
 "the lifecycle is not tested",
 ["socket/client.go"], [("conn field and I/O loop", "socket/client.go")],
 state=[("conn", "current connection", "socket/client.go")],
 observe=["IsConnected, Connect/Disconnect results, goroutine count, process death"])

prop("C23", "The client can be used from several goroutines without data races",
 "Connecting, disconnecting, querying the connection state, requesting directories and trees, and adding or removing listeners from any number of goroutines, while the client receives and processes messages, timers expire and callbacks run, causes no data race inside the library. The same holds for adding and removing listeners on elements and trees while messages are being decoded into them.",
 ["schedules"], "all interleavings of API calls with the I/O goroutine, the timers and callbacks (tree contents are read inside callbacks only)",
 "no test runs two goroutines; the suite is not run with the race detector",
 ["socket/client.go", "embertree/element.go", "embertree/root.go"], [("I/O goroutine, timer goroutines", "socket/client.go"), ("listener maps", "embertree/element.go")],
 observe=["Go race detector reports with library frames"])

prop("C24", "Getting the whole tree completes once, with the whole tree",
 "On a connected client with no other requests or unsolicited messages under way (a message about an element counts as an answer about it) and a provider that answers every directory request, requesting the tree calls the listener exactly once, without error, and at that moment the tree equals the provider's, whatever its shape, the form of the answers (nested or qualified), the order in which they arrive and how they are cut into frames and segments. If some request goes unanswered and a timeout is set, or one is refused because too many others are pending, the listener is called exactly once, with an error, even when late answers follow.",
 ["schedules", "histories", "inputs"], "all provider trees, answer forms and orders, chunkings, repeated requests, missing and late answers",
 "needs a scripted provider; the only test dials a fixed address",
 ["socket/client.go", "embertree/root.go"], [("pending-request counting", "socket/client.go"), ("element callbacks", "socket/client.go")],
 observe=["listener calls and tree at the time of the call"])

prop("C25", "A directory request is either answered or times out, never both",
 "With a timeout set, a directory request whose answer arrives in time never reports a timeout, and one that gets no answer reports exactly one timeout error to its listener, not before the timeout has elapsed; without a timeout none is reported. Requests for different elements, neither of which contains the other, and repeated requests for the same element do not affect each other's timeouts, and one refused with an error reports none; all this holds while disconnected, too. An answer in which something does not fit is an answer all the same. Once requests, also those of a whole tree, are answered or timed out, no goroutine or internal listener of theirs remains.",
 ["schedules", "histories"], "all orders of answers and timeouts over any number of overlapping requests, including answers close to the deadline and slow callbacks",
 "timeouts are not tested",
 ["socket/client.go"], [("runTimer and timer callbacks", "socket/client.go")],
 observe=["listener calls per request, goroutine count"])

prop("C26", "A value holder returns exactly the last value, under its type",
 "After any sequence of assignments a typed value (string, boolean, integer, buffer, real, identifier) reports the type of the last assignment, returns that value through the getter of that type, and returns an error from every other getter; before any assignment it is unset and every getter fails. Copying one value into another copies type and value when the target is unset or has the same type, and is refused without effect otherwise.",
 ["histories"], "all sequences of typed assignments and copies, all values",
 "tests make one assignment each for four of the six types and never copy",
 ["embertree/content_parameter.go"], [("typed storage", "embertree/content_parameter.go")],
 observe=["ContentParameter setters, getters, Set, GetType, IsSet"])

prop("C27", "Independent objects share nothing, and decoded trees own their data",
 "Readers, writers, trees, elements, frame lists and S101 decoders that are not connected to each other can be used in parallel goroutines without data races and with the same results as sequentially. Decoding does not modify its input, and changing the input afterwards does not change what was decoded; frames and packets handed out are not changed by later operations.",
 ["schedules", "inputs"], "all pairs of operations on distinct objects, all inputs",
 "tests are sequential and discard their buffers",
 ["asn1", "embertree", "socket/frame.go"], [("absence of mutable package state", "asn1, embertree, socket"), ("copying sub-values out of the input", DEC)],
 observe=["race detector reports, result hashes, input hashes"])

prop("C28", "Readers report positions exactly",
 "While any well-formed definite-length message is read through nested readers, each reader's length is the number of unread octets of its own value, its offset the number already read, and its top offset the absolute position in the original buffer of the next octet. Peeking, and checking for the end of a sequence that has not ended (its next two octets are not both zero), consume nothing, whatever the octets, and a sub-reader never reads past its own value.",
 ["inputs", "histories"], "all nestings and read sequences",
 "one fixed message is walked two levels deep",
 [DEC], [("starting offset propagation", DEC)],
 observe=["ASNReader.Len, Offset, TopOffset, Peek, CheckSequenceEnd"])

prop("C29", "Log messages are filtered by their own severity",
 "A console logger prints a message if and only if its severity is at or above the configured level, where error outranks warning, warning outranks info and info outranks debug; changing the level takes effect for the next message. The null logger prints nothing at any level, and both report the level last set.",
 ["histories", "configurations"], "all sequences of level changes and log calls",
 "the logger has no test",
 ["logger/logger.go"], [("level comparison", "logger/logger.go")],
 observe=["standard output, GetLogLevel"])

prop("C30", "Text rendering is total and shows what is set",
 "Rendering any tree, element, contents or value as text terminates without panicking for every combination of set and unset attributes. It shows the number and path of every element of the subtree, and every identifier and description that is set, and the value, minimum, maximum, default, access, format, enumeration, factor, step, type and stream identifier of every parameter that has one. Contents that differ in a node's root or online flag, a parameter's online flag, or a matrix's type or mode are rendered differently.",
 ["inputs"], "all trees and attribute subsets, decoded or built",
 "the rendering is printed in one test but not checked",
 ["embertree/element.go", "embertree/parameter.go", "embertree/matrix.go", "embertree/node.go", "embertree/function.go", "embertree/content_parameter.go"],
 [("ToString methods", "embertree")],
 observe=["ToString results"])

prop("C31", "Buffers, stacks, frame lists and errors behave as their simple models",
 "A writer hands out exactly the octets written, once and in order, and its length is what remains; the stack returns values last-in first-out and nothing when empty; a frame list returns each frame unchanged as often as it is asked for and refuses positions outside its size. An error made from a Go error carries that very error. An error keeps its original message while each update adds one entry to its trace, and updating or wrapping no error yields no error.",
 ["histories"], "all interleavings of operations on each object",
 "each object is tested with one short fixed sequence; frame bytes are fetched once",
 [ENC, "asn1/stack.go", "socket/frame.go", "errors/errors.go"], [("buffer read/write", ENC), ("stack", "asn1/stack.go"), ("frame list", "socket/frame.go"), ("error trace", "errors/errors.go")],
 observe=["public methods compared with sequential models"])

prop("C32", "Logging only observes, and errors reach the logger",
 "What decoders, trees, elements and clients return, report, hold and send does not depend on the logger they were given - none, nil, the null or console logger at any level, or the user's own - nor on when it is replaced. A logger that was replaced is told nothing more about later messages, and setting a nil logger changes nothing. A client's logger is told of each damaged frame, unknown command and undecodable message exactly once, and of nothing that is no error.",
 ["histories", "inputs", "configurations"], "all streams and messages, all loggers and times of replacing them",
 "tests use the loggers they start with and look at no output",
 ["socket/client.go", "embertree/root.go", "embertree/element.go", "logger/logger.go"], [("SetLogger", "socket/client.go"), ("error handler of the client", "socket/client.go")],
 observe=["calls of the user's logger, results with and without it"])

prop("C33", "Contents attributes are independent of each other and of other contents",
 "After any sequence of assignments to the contents of a node, parameter, function, matrix or command - new, created for an element, or decoded - every attribute has the value last assigned or decoded, returned by its getter and written by the next encoding, and the getters of attributes never assigned fail. Assigning one attribute affects no other one and no other contents, an undefined matrix type or mode is refused without effect, and contents created for an element are new ones.",
 ["histories", "inputs"], "all sequences of assignments over any number of contents of every kind and origin",
 "tests set two or three attributes of one object once",
 ["embertree/node.go", "embertree/parameter.go", "embertree/function.go", "embertree/matrix.go", "embertree/command.go"],
 [("contents setters and getters", "embertree/parameter.go"), ("matrix validation", "embertree/matrix.go")],
 observe=["every getter and the encoding after each assignment"])

prop("C35", "What does not fit is refused without effect",
 "Updating an element with one of another number or kind, named by number or by path, returns an error, changes neither, and is told to no listener. An element of a message whose kind differs from that of the tree's element at its place is ignored with all below it, while everything else in the message takes effect and is notified as if it had not been there, except that the listeners of the known elements it is nested in are told an error. An empty path, an unknown kind and an undefined matrix type or mode yield no element.",
 ["inputs", "histories"], "all trees, messages and places of elements that do not fit",
 "no test updates an element with a different one",
 ["embertree/element.go", "embertree/root.go", "embertree/qualified_element.go", "embertree/elementFactory.go"],
 [("Element.Update", "embertree/element.go"), ("updateQualifiedElement", "embertree/root.go"), ("getContentCreator", "embertree/elementFactory.go")],
 observe=["tree, listener calls, errors"])

prop("C37", "The frame checksum is the S101 CRC",
 "The checksum of any octets, raw or in escaped form, is the CRC-16 that S101 prescribes (reflected polynomial 0x8408, initial value 0xffff), and the content of a frame is valid if and only if it ends in the complement of the checksum of the rest, low octet first. So every change of a single bit, of two neighbouring octets or of any burst of up to 16 bits is detected. Handling the contents of frames directly has the same effects as receiving the frames, of which only the octets announced are used.",
 ["inputs"], "all octet sequences, all damages",
 "checksums are tested through a few intact frames only",
 ["socket/frame.go"], [("CalculateCRC, CalculateCRCCE, ValidateFrame", "socket/frame.go"), ("HandleFrame", "socket/frame.go")],
 observe=["checksum functions, ValidateFrame, handler calls"])

prop("C34", "Bad input from the provider does no harm to the client",
 "Whatever octets a connected client receives - garbage, damaged, unfinished or foreign frames, undecodable or hostile messages - it stays connected, sends nothing but what it was asked for, and does not panic. Afterwards it answers keep-alive requests, sends requests, and delivers valid messages and answers completely, and what it had learned before stays as it was unless a valid message changes it. The tree's listeners are called with the tree and never with an error.",
 ["inputs", "histories", "schedules"], "all octet streams between valid exchanges, all segmentations",
 "no test receives anything",
 ["socket/client.go", "socket/frame.go", "embertree/root.go"], [("iomanager", "socket/client.go"), ("emberPacketHandler, errorHandler", "socket/client.go"), ("S101Decoder", "socket/frame.go")],
 observe=["log of the provider, tree and listener calls"])

prop("C36", "Several clients in one program do not affect each other",
 "Clients connected to different providers, or several times to the same one, each send their own requests and keep-alive responses and nothing of the others, each learn their own provider's tree only, and have timeouts, listeners and a connection state of their own. When one is disconnected, cut off, timed out or connected again, the others go on undisturbed. There are no data races between them.",
 ["schedules", "histories"], "all numbers of clients, providers and interleavings of their exchanges, disconnections and timeouts",
 "tests have one client, which never connects",
 ["socket/client.go", "socket/frame.go", "embertree/root.go"], [("absence of shared client state", "socket/client.go")],
 observe=["log of each provider, each tree, race detector reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
