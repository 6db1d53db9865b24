#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the statements are reviewable as prose).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or [],hook_needed=hook)))

p("C01","Scalar values survive encoding and decoding",
 "For every nil, boolean, signed or unsigned integer of any width, 32- or 64-bit float (every bit pattern, zero included) and string, encoding the value succeeds and decoding the produced bytes succeeds, consumes exactly those bytes, and reading the result through the accessor of the original type gives back the identical value. This holds whatever was written before it or follows it in the same stream.",
 ["inputs"],"every value of every scalar kind (2^64 integers, all float bit patterns, strings of every length and content), at any position of a stream",
 "The codec tests encode one or two values per type; the narrowing boundaries, the extreme values and small float bit patterns are never reached.",
 ["codec/encoder.go","codec/decoder.go","codec/any.go"],
 [("width narrowing on encode, widening accessors on decode","codec/encoder.go encodeUint*/encodeInt*, codec/any.go"),("big-endian reassembly","codec/decoder.go read*")],
 observe=["codec.NewAny(v).Encode / Decode and the typed accessors"])
p("C02","Nested arrays and maps survive encoding and decoding",
 "For every value built from scalars with arrays, slices and string- or integer-keyed maps nested to any depth and of any length, decoding its encoding yields a structure with the same shape: sequences keep length and order, every map entry is present exactly once under its key, and every scalar leaf is numerically or textually equal to the original. Bytes that follow the value in the stream are left unread.",
 ["inputs"],"every container length, nesting depth, element mix and map iteration order",
 "One 7-element int slice and one two-entry map are tested; nesting, empty containers, nil elements, mixed types and long containers are not.",
 ["codec/encoder.go","codec/decoder.go"],
 [("length-prefixed recursion","encodeArray/encodeMap/encodeValue"),("matching recursion","decodeArray/decodeMap/decode")],
 observe=["codec.NewAny(v).Encode / Decode, Arr(), Map()"])
p("C03","Decoding arbitrary or truncated bytes is safe and never silently wrong",
 "Decoding any byte sequence whatsoever returns either a value or an error and never panics. A value whose encoding has been cut off at any point is reported as an error rather than decoded to a different value, and the outcome does not depend on how the underlying reader splits the bytes across reads.",
 ["inputs","fault_sequences"],"every byte string, every truncation point, every chunking of the reader",
 "Tests only decode complete, well-formed encodings from an in-memory buffer that never returns short reads.",
 ["codec/decoder.go"],
 [("full reads with error propagation","readByte/readUint*/readInt*, decode"),("checked conversions and hashable keys","decode, decodeMap")],
 observe=["codec IAny.Decode on any reader"])
p("C04","Dynamic value accessors are total and faithful",
 "For a dynamic value holding anything at all, each typed accessor either returns the held value converted to the requested type, when the held value is of the same family (signed, unsigned, float, bool, string, generic array, generic map), or returns an error; it never panics and never reports success for a value of another family. A conversion that fits the requested type never changes the numeric value.",
 ["inputs"],"every dynamic type and value crossed with every accessor, both for freshly wrapped and for decoded values",
 "The tests call each accessor only on the matching decoded type with one sample value.",
 ["codec/any.go","codec/API.go"],
 [("type tag set by normalisation","codec/any.go normalize"),("accessor switches","codec/any.go")],
 state=[dict(name="type tag",meaning="family and width of the held value",where="codec/any.go any.tp")],
 observe=["codec.IAny accessors"])
p("C05","Every protocol message arrives as it was sent",
 "For every protocol message kind and every content of its fields, serialising the message produces one frame whose announced length is exactly the frame's size, and deserialising that frame yields a message of the same kind with equal fields. Argument and result lists keep their length and order, an empty error text stays empty, and correlation numbers are preserved over the full 64-bit range.",
 ["inputs"],"every message kind, every field value including empty and long strings and lists",
 "No test serialises a message directly; the integration tests only exercise a few small messages, and never the error message kind or non-trivial field values.",
 ["serializer.go","protocol.go","iprotocol.go"],
 [("kind id then fields, 4-byte length header","serializer.go Marshal/Unmarshal"),("field order identical on both sides","protocol.go")],
 observe=["serializer Marshal/Slice/Unmarshal"])
p("C06","Stream framing is independent of chunking",
 "However the bytes of a connection are split into reads, the receiver hands over exactly the packets contained in the byte stream: each complete packet once, in order, unmodified, as soon as its last byte has arrived, and nothing for an incomplete one. A frame boundary computed from a prefix of the stream is never changed by bytes that arrive later.",
 ["inputs","histories","schedules"],"every byte stream, every split of it into reads, every number of packets per read",
 "The mock connection delivers one whole write per read, so split and coalesced packets never occur in a test.",
 ["network/peer.go","serializer.go","network/txt_serializer.go"],
 [("accumulate and slice loop","network/peer.go run (receive routine)"),("length-based / NUL-based slicing","serializer.go Slice, network/txt_serializer.go Slice")],
 state=[dict(name="receive buffer",meaning="bytes received and not yet delivered",where="network/peer.go peer.recvBuffer")],
 observe=["ISocketSink.OnPacket"])
p("C07","Malformed traffic cannot take a node down",
 "Whatever bytes a remote peer sends, turning a complete frame into a message either yields a well-formed message or is rejected; it never panics and never terminates the process, and a rejected frame is never handed to the packet handler as a message. Frames with unknown kinds, wrong field types, missing fields or inconsistent lengths are among the rejected ones.",
 ["inputs","fault_sequences"],"every byte string accepted as a frame by the slicer",
 "Tests only exchange well-formed packets produced by the same code.",
 ["serializer.go","protocol.go","network/peer.go"],
 [("decode errors and unknown kinds rejected","serializer.go Unmarshal"),("checked field types","protocol.go Unmarshal methods"),("rejected packet dropped","network/peer.go run")],
 observe=["serializer.Unmarshal, ISocketSink.OnPacket"])
p("C08","Accepted packets are transmitted once and in order",
 "Every packet accepted by a connection's send queue is serialised and written to the connection exactly once, in the order in which it was accepted, and nothing else is ever written. Sending on a connection whose queue is full drops the new packet instead of blocking the sender or disturbing queued ones.",
 ["histories","schedules"],"every sequence of packets, queue fill level and connection error",
 "Tests queue a handful of packets and never fill the queue or inspect the written bytes.",
 ["network/peer.go","network/socket.go"],
 [("bounded queue and single writer routine","network/peer.go Send, run (send routine)"),("fan-out to every peer","network/socket.go Send")],
 state=[dict(name="send queue",meaning="packets accepted, not yet written",where="network/peer.go peer.sendPackets")],
 observe=["net.Conn.Write"])
p("C09","Hub port assignments are valid and never repeated",
 "Every port the hub assigns to a dock lies within the configured range above 20000 and up to 49000, is not blacklisted, and has never been assigned before to the same host address, for every history of registrations and every blacklist. The port sent to the dock is the same one under which its features are later announced to others, and assignments for one host do not disturb those of another.",
 ["histories","inputs","configurations"],"every registration history, host address and blacklist",
 "Integration tests register at most three docks from one address with an empty blacklist.",
 ["hub.go"],
 [("monotone per-host counter skipping the blacklist","hub.go allocate"),("host part of the remote address","hub.go pickIP"),("one port used for stub and response","hub.go OnPacket register branch")],
 state=[dict(name="last assigned port per host",meaning="all earlier ports for that host are at most this",where="hub.go hub.assignPorts"),dict(name="blacklist",meaning="ports never assigned",where="hub.go hub.blackPorts")],
 observe=["register response and query response packets"])
p("C10","Feature lookup returns only ready providers, newest first",
 "A feature query is answered only with the address of a dock that registered exactly that feature and has since reported itself ready for it, and among those with the most recently registered one. Registering adds exactly one not-yet-ready provider for each named feature at the end of that feature's list, a readiness report affects only the reporting dock's own entries, and neither touches other features.",
 ["histories","schedules","inputs"],"every sequence of registrations, readiness reports and queries from any number of docks",
 "Tests register each feature from one dock only, so ordering, readiness and mix-ups between docks never show.",
 ["hub.go"],
 [("provider lists per feature","hub.go OnPacket register/ready branches"),("back-to-front scan for a ready provider","hub.go OnPacket query branch")],
 state=[dict(name="provider lists",meaning="docks offering a feature, oldest first, with readiness",where="hub.go hub.docks")],
 observe=["query response packets, hub registry"])
p("C11","Every feature call gets exactly one answer, its own, one at a time",
 "Each request accepted by a feature is executed at most once, requests are executed one after the other in arrival order by the feature's own routine, and each request receives exactly one response, which is either the outcome of that very request or a timeout error. When execution and timeout race, only the first of the two answers, and a response never reaches another call.",
 ["schedules","histories"],"every interleaving of callers, the feature routine and timers, every sequence of calls",
 "Tests make three sequential calls and one that times out long before completion; the race between completion and timeout and later calls after a timeout are not exercised.",
 ["chancall/callee.go","chancall/caller.go","chancall/data.go","chancall/API.go"],
 [("done flag under the request lock","chancall/callee.go result, track"),("single handling routine","chancall/callee.go handling"),("response channel per call","chancall/caller.go")],
 state=[dict(name="done",meaning="a response has been sent for this request",where="chancall/data.go callRequest.done")],
 observe=["ICaller.Call / CallWithResult"])
p("C12","Calls reach exactly the named method with the given arguments",
 "A call invokes exactly the exported method with the requested name, once, with every argument converted to the corresponding parameter type in order, and returns all its results in order. A call naming a method the feature does not have, or whose arguments do not fit in number or type, invokes nothing and is answered with an error, without disturbing the feature.",
 ["inputs","programs"],"every feature type, method name and argument list",
 "Tests call three methods with matching arguments and ignore most results; unknown names and mismatched arguments are never tried.",
 ["chancall/meta.go","chancall/callee.go"],
 [("method table by name","chancall/meta.go collect"),("argument conversion and invocation","chancall/meta.go call")],
 state=[dict(name="method table",meaning="name to bound method",where="chancall/meta.go meta.funcs")],
 observe=["ICaller.CallWithResult results and errors"])
p("C13","Call timeouts last as configured",
 "The time after which a call is answered with a timeout error is the duration in seconds configured for that method, including its fractional part, and one second for methods without a setting. Configuring one method does not affect any other.",
 ["inputs","configurations"],"every method and every timeout value from fractions of a second upwards",
 "The only timeout test sets 0.1 s on a 2 s method and accepts any earlier error, so a wrong duration passes.",
 ["chancall/callee.go","chancall/meta.go","slot.go"],
 [("duration conversion","chancall/callee.go track"),("per-method setting and default","chancall/meta.go timeout, setTimeout")],
 observe=["time until ICaller.Call returns the timeout error"])
p("C14","Remote call responses go to the call that asked",
 "Every remote call in progress has an identifier different from that of every other call in progress in the same process, its request carries that identifier, and a response is delivered to the call with its identifier only, at most once, with the result list and error text unchanged. Late, duplicate or unknown responses are ignored and disturb no call.",
 ["histories","schedules"],"every set of concurrent calls and every order, duplication or delay of responses",
 "Integration tests have at most one remote call outstanding at a time.",
 ["rpc.go","dock.go"],
 [("unique identifier","rpc.go newRpc"),("pending table keyed by identifier","dock.go call, callWithResult, response branch")],
 state=[dict(name="pending calls",meaning="identifier to waiting call",where="dock.go dock.rpcs")],
 observe=["ISlot.Call / CallWithResult outcomes"])
p("C15","Calls are routed to the right provider and sent once",
 "A call to a feature carried by the same dock is executed locally and nothing is sent; any other call is sent as one request, with the caller's feature name, method and arguments, to a connected dock that announced that feature, or else a query for that feature goes to the hub and the request is sent once a provider becomes ready. A request arriving from a peer is executed on the named local feature and answered exactly once to that peer with the outcome and the request's identifier, also when the feature is not there.",
 ["histories","schedules","inputs"],"every combination of local, connected and unknown providers, pending calls and readiness announcements",
 "Tests cover one provider per feature and a single pending call.",
 ["dock.go","rpc.go","slot.go"],
 [("local lookup then remote commit","dock.go call, callWithResult, commit"),("flush on readiness","dock.go OnPacket ready branch"),("execute and respond","dock.go OnPacket request branch")],
 state=[dict(name="remote providers",meaning="feature name to connected peer",where="dock.go dock.remoteSlots")],
 observe=["packets sent to peers and hub"])
p("C16","Only discoverable features are announced",
 "The features a dock announces, when registering and when reporting ready, to the hub and to other docks, are exactly those it carries as discoverable, each named once. A feature carried as not discoverable is never announced to anyone.",
 ["configurations","inputs"],"every set of features and discoverability flags",
 "All tests carry every feature as discoverable.",
 ["dock.go","ferry.go","slot.go"],
 [("filter on the discoverable flag","dock.go collect"),("announcement packets","dock.go OnConnected, OnPacket")],
 observe=["register and ready packets"])
p("C17","Shared registries are never accessed without their lock",
 "State shared between the routines of a node - the hub's provider lists and port counters, a dock's pending calls and remote providers, a request's answered flag, and the process-wide serializer registry - is only read or modified while holding the lock that protects it, and every routine releases a lock it took. Consequently no interleaving of calls, connections and packets can corrupt these registries or crash the process with a concurrent map access.",
 ["schedules"],"every interleaving of feature routines, connection routines and timers",
 "Data races show up in a small fraction of schedules; the recorded baseline pins the suite to one CPU because of one of them.",
 ["dock.go","hub.go","network/API.go","chancall/callee.go"],
 [("mutexes","dock.go, hub.go, network/API.go, chancall/data.go")],
 observe=["go run -race on any program using the framework"])
p("C18","The set behaves as a mathematical set",
 "For every sequence of additions and removals, adding reports success exactly when the item was absent, removing exactly when it was present, and listing the set yields each present item exactly once and nothing else.",
 ["histories","inputs"],"every history of operations and every comparable item",
 "Tests perform five operations on small integers and check only one length.",
 ["misc/set.go"],
 [("membership map","misc/set.go")],
 observe=["ISet methods"])
p("C19","Features are started and destroyed exactly once, in a safe order",
 "A dock starts each of its features exactly once, only after the hub has assigned it a port and it is listening there and has reported ready; closing a dock destroys each of its features exactly once and closes every socket it opened. Closing the process closes every hub and dock instance exactly once, latest first, and closing again does nothing.",
 ["histories","configurations"],"every set of features, sockets and instances",
 "Tests only check that some features started; destruction and socket closing are never observed.",
 ["dock.go","runtime.go","ferry.go"],
 [("start after register response","dock.go OnPacket, start"),("close order","dock.go Close, runtime.go destroy")],
 observe=["IFeature.OnStart / OnDestroy, socket close"])
p("C20","The in-memory transport loses no bytes",
 "On a connection of the mock network, the bytes read are exactly the bytes written by the other side, in order and unmodified, whatever the sizes of the writes and of the read buffers. Dialling an address connects to the listener registered for that port and to no other.",
 ["inputs","histories"],"every sequence of write sizes and read buffer sizes",
 "Test messages are far smaller than the read buffer.",
 ["network/mock.go"],
 [("remainder kept between reads","network/mock.go conn.Read/Write")],
 observe=["net.Conn returned by the mock Dial and Accept"])
p("C21","A call always returns",
 "Every call made through the framework eventually returns with a result or an error, whatever happens to the remote dock, the hub or the connection.",
 ["schedules","fault_sequences"],"every schedule and every failure of a remote node",
 "Tests never lose a connection or a node.",
 ["dock.go","rpc.go","network/peer.go","chancall/caller.go"],
 [("timeout of the called feature","chancall/callee.go track")],
 observe=["ISlot.Call / CallWithResult"])
p("C22","Generated proxies forward calls faithfully",
 "For every interface the proxy generator accepts, the generated proxy compiles, implements the interface, forwards each method under the interface's and the method's own name with all parameters in order, and returns the results in order or the zero values on error.",
 ["programs"],"every interface declaration",
 "The generator has no tests.",
 ["tool/ferry.gen.go"],
 [("interface parsing and code template","tool/ferry.gen.go")],
 observe=["generated proxy.gen.go"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
