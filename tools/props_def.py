BR="flarch/src/broker.rs"
p("B01","Broker delivers every message exactly once, in order, to every subscriber",
 "Every message emitted into a broker, from any of its clones and in any interleaving with other emitters, is delivered exactly once to every tap and handler that was subscribed on that side before the message was emitted, and never on the other side. Messages of one emitter keep their order at each subscriber, every reply a handler returns appears exactly once (in the order returned) on the output side, and a no-tap message skips the taps but still reaches the handlers.",
 ["schedules","histories","inputs"],
 "all interleavings (at message granularity) of up to 3 concurrent emitters with 2-3 messages each, the broker task and its subscribers; all histories of subscribe / unsubscribe / emit of bounded length",
 "broker::tests run one emitter under one tokio schedule with one message; order, duplication and loss under concurrent emitters are never observed.",
 [BR],[{"name":"single intern task draining one queue; translate, tap, handler passes","where":BR+" Intern::process_once"}],["taps","handlers"],
 [{"name":"subsystems","meaning":"subscribers of a broker","where":BR}],"flarch::tasks::mc: controlled spawn/yield")
p("B02","Linked brokers forward every message along every link without endless loops",
 "When brokers are linked by translators, a message for which the translation yields a value is delivered to each linked broker exactly once per link path on which every hop translates it and no broker repeats, with each hop's translation applied; messages whose translation yields nothing are not forwarded. In every topology, including rings, mutual links and self-reflecting links, forwarding stops: a message that comes back to a broker which it already visited is handled there but not passed on again, so the network of brokers becomes idle.",
 ["configurations","schedules","histories"],
 "all directed link topologies on up to 3 (quick) / 4 (thorough) brokers over the four link kinds, every source broker and side, with interleavings of the broker tasks",
 "The tests only link two brokers in one topology and send one message.",
 [BR],[{"name":"trail of visited broker ids carried by forwarded messages","where":BR+" process_translate_*_messages"}],["taps of every broker"],None,"flarch::tasks::mc")
p("B03","Settling a broker always completes and waits for all forwarded messages",
 "A settle request on a broker always completes, whatever other settle requests, emissions or unsubscriptions run concurrently on brokers linked to it in any topology. When it completes, every message emitted on that broker before the request has been handled there and, along every link path without repeated brokers, by the brokers it was forwarded to.",
 ["schedules","configurations"],
 "all interleavings of 2-3 concurrent settling clients with broker tasks on chains, mutual links, triangles and stars of up to 4 brokers",
 "Tests settle from one task at a time; a deadlock needs two settles meeting in the middle of a cycle of links.",
 [BR],[{"name":"recursive settle carrying the list of callers","where":BR+" Intern::get_msg / Translator::settle"}],["completion of settle()","taps"],None,"flarch::tasks::mc")
p("B04","Unsubscribing and dropping broker handles affects only what was removed",
 "Once an unsubscription has completed, the removed tap, handler or link receives nothing more, while every other subscriber keeps receiving everything; a tap whose receiver was dropped never disturbs the delivery to others. As long as at least one handle of a broker exists its messages keep being processed, and once the last handle is dropped the broker stops and releases its handlers, after having processed everything emitted before.",
 ["histories","schedules"],
 "all histories up to length 5 (quick) / 6 (thorough) of add / remove / clone / drop / emit on one broker with taps, handlers and a link, under all schedules of the broker task",
 "No test removes a subsystem while others are active, nor drops clones.",
 [BR],[{"name":"copies counter and subsystem removal","where":BR+" Intern::get_msg"}],["taps","handler drop"],None,"flarch::tasks::mc")
p("S01","Key-value storage returns the last value written per key, keys are isolated",
 "For every history of set, get and remove on the data storage, get returns exactly the value of the latest completed set of that key, and an empty value or an error if the key was never set or was removed since; operations on one key or on a storage with another base never change what another key returns. All clones of one storage, and (for the file storage) a newly opened storage on the same directory, see the same contents, for values of any content including empty and multi-line text.",
 ["histories","inputs"],
 "all histories up to depth 5 (quick) / 6 (thorough) over 2 simple keys (bases without underscores), several values, clones and reopened handles, for the in-memory and the file implementation, compared with a map",
 "The tests write one key once.",
 ["flarch/src/data_storage.rs","flarch/src/data_storage/libc.rs"],[{"name":"one file per key / shared map","where":"flarch/src/data_storage/libc.rs"}],["DataStorage::get"])
p("S02","A crash while the file storage writes never loses the previous value",
 "If the process or machine stops at any point while the file storage sets or removes a key (including in the middle of a write), then after restart that key reads back either its complete previous value or the complete new one, never a missing, empty, truncated or mixed value, and all other keys are unchanged. A write that fails (for instance on a full disk) reports an error and leaves the previous value readable.",
 ["crash_points","fault_sequences","histories"],
 "every prefix of the file-system operations issued by each set/remove of bounded histories, with every torn-write length class, plus an injected error at every file-system call",
 "Tests never stop between two system calls.",
 ["flarch/src/data_storage/libc.rs"],[{"name":"DataStorageFile::set","where":"flarch/src/data_storage/libc.rs"}],["files on disk after the crash, re-read through the storage"])
p("S03","A node keeps its identity and configuration across restarts and versions",
 "A node's configuration (name, client, enabled modules and both keys) that was saved is restored unchanged by every later start, so the node keeps the same node ID and can still sign as that node, for every name and module combination. Configurations written in any of the older formats are migrated without losing the identity, names or enabled modules.",
 ["inputs","histories","configurations"],
 "all module masks, a set of adversarial names, all supported format versions, and all histories of save / load / restart up to depth 4",
 "Two fixed configurations are tested.",
 ["flmodules/src/nodeconfig.rs","flmacro/src/lib.rs","flnode/src/node.rs"],[{"name":"versioned (de)serialisation","where":"flmacro/src/lib.rs VersionedSerde"}],["NodeConfig::decode","Node::get_config"])
p("U01","Node-ID arithmetic and set operations behave like mathematical sets",
 "IDs survive every textual and binary encoding round trip, and parsing arbitrary text yields either an ID consistent with the given hexadecimal prefix or an error, never a crash. Merging, removing, filtering and comparing lists of IDs give the same result as the corresponding operations on sets, keep the relative order of the IDs that stay and return exactly the IDs they removed; the ID derived from hashed parts changes whenever the domain, the number of parts or the boundaries between parts change.",
 ["inputs"],
 "all strings up to length 4 over an alphabet of hex, non-hex and non-ASCII characters plus boundary lengths up to 65; all pairs of ID lists up to length 4 over 4 IDs; all ways of splitting byte strings up to length 5 into parts",
 "Two tests with one random value each.",
 ["flarch/src/nodeids.rs"],[{"name":"U256, NodeIDs","where":"flarch/src/nodeids.rs"}],["return values"])
C="flcrypto/src/access.rs"
p("C01","A condition is met exactly when the signers satisfy its boolean meaning",
 "For every access condition built from verifiers, badges, N-out-of-T groups, pass and fail, and every set of available signatures, verification succeeds exactly when the boolean reading of the condition (a verifier is satisfied by its own signature, a badge by a supplied badge of that id and an accepted version whose own condition is met, N-out-of-T by at least N satisfied members) is true. Duplicate signatures, duplicates from unrelated signers or unknown badges never make a condition true, the version rule (exact, minimal, maximal) of a badge reference is honoured, and badges that contain themselves are not met instead of looping. Whether a set of signers can sign is predicted by the same meaning, and a condition corresponds to exactly the rule it was made of.",
 ["inputs"],
 "all condition trees of depth 2 with up to 4 (quick) / 5 (thorough) members, selected deeper ones, over 3 signers and all sets of up to 2 supplied badges with 4 versions and 7 rules, times all subsets of signers and all thresholds from 0 to one more than the group",
 "One N-out-of-T example is tested.",
 [C],[{"name":"Condition::verify / ConditionSignature::verify","where":C}],["verify results"])
p("C02","A signature is valid only for its message, condition and signer",
 "Signing a message for a condition with enough signers yields a signature that verifies for that message, condition and version; it counts for no other message, no other condition (that needs a signature at all), and a part that was exchanged, removed or altered does not count any more. Verifying malformed signatures, keys or conditions coming from the network returns a failure and never crashes the process.",
 ["inputs"],
 "all combinations of conditions, signer subsets, signed and presented messages, all single-part substitutions of signatures between signers/conditions, every signature length class from 0 to 130 bytes and every single-bit flip of a valid signature",
 "Tests check the success path of one or two signatures.",
 [C,"flcrypto/src/signer.rs","flcrypto/src/signer_ed25519.rs"],[{"name":"ConditionSignature digest binding","where":C}],["verify results"])
p("C03","Rules stored in a realm resolve to what they name",
 "When a node resolves a rule with the objects stored in a realm, the result always arrives, whatever the stored objects are, including badges that refer to themselves. It is met by exactly those sets of signers that meet the rule when every key stands for the signer whose ID the rule names, every badge for the newest stored version of the badge with this ID in this realm provided that the rule accepts that version, and anything missing, outdated, of another type, stored in another realm, not being the key it is stored as, or being part of itself, is met by nobody. A page is edited through a view of the realm only by signers who meet its rule at that moment.",
 ["inputs","histories"],
 "all tables of three stored keys in 5 states and of two badges in 3 states or with 6 (quick) / 10 (thorough) rules in one or two versions, with 15-21 rules over them and all signer sets; all orders of arrival of 4 / 5 objects; all histories of 3 / 4 badge updates and page edits by every set of signers",
 "A test resolves one rule of one key; missing, forged, outdated or cyclic objects never occur.",
 ["flmodules/src/dht_storage/broker.rs","flmodules/src/flo/crypto.rs",C,"flmodules/src/dht_storage/realm_view.rs"],[{"name":"DHTStorage::convert","where":"flmodules/src/dht_storage/broker.rs"}],["resolved conditions","update_page results"])
F="flmodules/src/flo/flo.rs"
p("F01","An object only verifies if every update to it was authorised",
 "Verification of a versioned object (Flo) succeeds exactly when its first version was signed for the condition it was created with, every later rule change was signed according to the rules in force just before that change, and its current data was signed according to its current rules. No sequence of data updates, rule updates and forgeries (wrong signer, replayed signature, skipped or reordered rule changes, reuse of a signature for another object or version) produces an object that verifies without the required authorisations, and every sequence of properly authorised updates verifies (for rules made of signers and groups; a rule with a badge is never met by a badge that the updater brings along).",
 ["histories","inputs"],
 "all update histories up to depth 3 (quick) / 4 (thorough) over single keys and groups with authorised and unauthorised signer sets, and all authorised histories up to depth 2 / 3 followed by every forgery out of 12 kinds",
 "One linear update of one object is tested.",
 [F,C],[{"name":"Flo::verify over the chain of rule updates","where":F}],["Flo::verify","update results"])
p("F02","Objects keep their ID, type and content; any alteration is detected",
 "An object's ID never changes over its updates, versions grow by exactly one per accepted update, and serialising and parsing an object (or any typed wrapper) returns the same object. Changing any signed part of an object (everything except the realm it is stored in) makes its verification fail, and converting an object to a typed wrapper of another type fails.",
 ["inputs","histories"],
 "every field-level mutation of every object reached by bounded update histories, and all pairs of object type and requested wrapper type",
 "Tests check one happy path per wrapper.",
 [F,"flmodules/src/flo/realm.rs","flmodules/src/flo/blob.rs"],[{"name":"hash-derived ids and digests","where":F}],["Flo::verify","TryFrom conversions"])
D="flmodules/src/dht_storage/core.rs"; DI="flmodules/src/dht_storage/intern.rs"
p("D01","Realm storage stays within its quota and evicts the furthest objects first",
 "After every operation the reported size of a realm equals the sum of the sizes of its stored objects and child links, and does not exceed the maximum space configured in the stored version of the realm object (unless nothing but the realm object is left); every operation terminates. The realm object itself is never evicted, and an object is only evicted while no object further from the node (fewer common leading bits, realm object excepted) stays stored. A new object no bigger than a third of the maximum space is stored if it fits in the free space (then without evicting anything), or if it is no bigger than the stored objects further away; an object that is refused evicts nothing.",
 ["histories","inputs"],
 "all sequences up to depth 4 (quick) / 5 (thorough) over 16 operations: storing and updating 7 objects of different sizes and distances, children and child links (also of the realm object), and new realm configurations, for 5 quotas around the boundary and 2 distances of the realm object",
 "Two tests store a handful of objects with one quota.",
 [D],[{"name":"size accounting and remove_furthest","where":D}],["RealmStorage size, flo list"],[{"name":"size","meaning":"bytes used by the realm","where":D}])
p("D02","Stored objects only move to newer versions and never lose their child links",
 "Whatever the order in which versions of an object and links to its children (cuckoos) arrive, a stored object is only ever replaced by a strictly newer version, so after any permutation of arrivals the newest version that was offered is stored. Child links that were recorded for an object are kept, without duplicates, when the object is updated to a newer version and as long as the object stays stored.",
 ["histories"],
 "all permutations of 6 (thorough: 9) and all sequences up to depth 5 (quick) / 6 (thorough) of arrivals of 4 versions (two of them conflicting) of an object, 2 children, 2 versions of the realm object and 2 foreign links, with ample quota",
 "test_update checks one order; the loss of links on update is listed as an open bug in WIP.md.",
 [D],[{"name":"RealmStorage::upsert_flo / put","where":D}],["get_flo_cuckoo"])
p("D03","A restarted node finds everything its storage held before the stop",
 "At every point between two handled messages, a storage module started from the persisted data holds the same realms, object versions and child links as the running one, in the same accounting, whatever messages (local requests, routed requests, answers or synchronisation from neighbours) led there. Restarting therefore never loses an object or child link, nor resurrects an older version.",
 ["histories","crash_points"],
 "all sequences up to depth 4 (quick) / 5 (thorough) of local, routed, answer and synchronisation messages and restarts over 2 realms, with a comparison to a restarted module after every prefix; 7 difficult realm IDs times 10 names times 3 quotas",
 "No test restarts a DHT storage.",
 [DI,D],[{"name":"Messages::store","where":DI}],["GetFlos after restart"])
p("D04","Only accepted realms are stored and queries answer from the right realm only",
 "An object is stored only inside the realm it belongs to and only if that realm is known; a new realm is only created by a realm object that names this realm and only if the node's configuration accepts it. Every read, child-link, realm-list and object-list query is answered exactly from the stored state (the newest version and all links of that object in that realm, nothing from other realms); unknown objects are asked for in the network, and remote queries for objects not stored are not answered.",
 ["histories","configurations","inputs"],
 "all sequences up to depth 3 (quick) / 4 (thorough) of local and remote messages over 2 realms whose objects have the same IDs, for 4 configurations of accepted realms and with realms added by the system, and then all queries, against a reference model of the storage",
 "test_realm_propagation checks one accepted realm.",
 [DI],[{"name":"Messages::upsert_flo / create_realm / msg_routing","where":DI}],["DHTStorageOut messages","messages to the router"])
p("D05","Synchronising neighbours converge to the newest version of every object",
 "Once two or three connected storages that accept the same realms have run their synchronisation rounds, in any order of delivery of their messages, every realm, newest object version and child link known to one of them is stored on all of them (space permitting), and another round transfers nothing more. Synchronisation never removes objects, downgrades versions or drops links, and the exchange always ends.",
 ["schedules","histories","configurations"],
 "7 placements of 2 realms, 5 objects, versions and links on 2 nodes with every combination of requesting and propagating, arriving new versions and children, and lines and triangles of 3 nodes; all delivery orders of the synchronisation messages",
 "test_cuckoo_propagation runs one placement and one order.",
 [DI,D],[{"name":"RequestRealmIDs .. Flos exchange, sync_available","where":DI}],["GetFlos on every node"])
K="flmodules/src/dht_router/kademlia.rs"
p("K01","The routing table keeps every known peer exactly once in its proper bucket",
 "After any history of peers being added, answering, timing out, disconnecting and being removed, the table never contains the node itself or a peer twice, every peer sits in the bucket of its distance, buckets never exceed their configured number of active peers and waiting peers, and while a bucket has room for active peers it does not leave candidates waiting without trying them. Adding a peer only drops a peer whose bucket is full, and removing a peer removes it completely and only it.",
 ["histories","configurations"],
 "all reachable tables for 3-7 peers at chosen distances, bucket size 1-2, operations add / active / tick / disconnect / remove up to depth 7 (quick) / 9 (thorough)",
 "Tests build a few specific tables.",
 [K],[{"name":"KBucket status transitions, root bucket split and merge","where":K}],["bucket_nodes / active_nodes / cache_nodes"],[{"name":"buckets, root_bucket","meaning":"peers by common prefix length","where":K}])
p("K02","Peers that stop answering or disconnect stop being routed to; live ones stay",
 "A peer that is reported disconnected is no longer considered active nor returned as next hop until it is seen active again, wherever in the table it is. A silent active peer is pinged after the configured interval and removed after the configured timeout, and never earlier; a peer that answers every ping is never removed for being silent.",
 ["histories","schedules"],
 "all tick/answer/silence/disconnect sequences up to depth 7 (quick) / 9 (thorough) for 3-7 peers in root and deeper buckets with several ping interval/timeout settings",
 "test_tick follows one sequence.",
 [K,"flmodules/src/dht_router/intern.rs"],[{"name":"KBucket::tick, node_disconnected","where":K}],["active_nodes, route_*","Ping messages"])
p("K03","Closest-node routing always gets nearer to the destination and ends",
 "For every set of nodes, every consistent choice of their routing tables and every pair of origin and destination, each hop offered by the router is a known active peer other than the node itself and the previous hop, and following any offered hops can never revisit a node, so every message ends after finitely many hops. Whenever an active peer closer to the destination is known only closer ones are offered, and every offered hop shares at least as many leading bits with the destination as the current node does.",
 ["inputs","configurations","histories"],
 "all networks of 4 nodes over 4-bit prefixes and 5 (quick) / 6 (thorough) nodes over 3-4-bit prefixes with all active-peer relations per node that bucket size 1-2 admits, all origins, destinations and hop choices",
 "test_closest_nodes_* check single calls.",
 [K],[{"name":"Kademlia::route_closest","where":K}],["route_closest / route_direct results"])
p("K04","Messages in the routed network reach their destination and only the right nodes",
 "In a network of running routers, a direct message to a node that is connected to its origin, or to which all closer hops lead, is delivered exactly once and to that node only, a message to a key is handled as final exactly once by a node none of whose known peers is closer (an origin without a closer peer sends nothing) and is announced to every node it passes, and a neighbour broadcast reaches each active neighbour exactly once. Origin, key and payload arrive unchanged, whatever the order in which the network delivers the messages.",
 ["schedules","configurations"],
 "all connection graphs of 3 nodes and selected graphs of 4, all origins, destinations and kinds of messages, all delivery orders",
 "test_routing sends a few messages over one graph with one schedule.",
 ["flmodules/src/dht_router/intern.rs","flmodules/src/dht_router/broker.rs"],[{"name":"message_closest / message_direct / broadcast","where":"flmodules/src/dht_router/intern.rs"}],["DHTRouterOut at every node"],None,"flarch::tasks::mc")
G="flmodules/src/gossip_events/core.rs"
p("G01","The event store keeps exactly the newest events, without duplicates, in bounds",
 "For every order of arrivals the event store holds each event at most once, never more than the maximum of its category, and exactly the newest ones of all events that were ever offered; in categories with one event per source it holds only that source's newest event. Adding an event reports success exactly if the event is newly stored afterwards, and lookups by id or category return exactly the stored events.",
 ["histories","inputs"],
 "all arrival orders with repetition up to depth 5 (quick) / 6 (thorough) of events of 2 categories, 2 sources and 3 timestamps starting from empty, nearly full and full stores",
 "Three tests add a few events in one order.",
 [G],[{"name":"Events::insert / limit","where":G}],["EventsStorage queries"])
p("G02","Gossip brings every event to every connected node and then falls silent",
 "In every connected network, with any delays on its links and events created at any time, every event that is not displaced by newer ones reaches every node, all nodes end up with the same events, and locally added events are offered to all connected nodes; as long as no connection breaks, nodes do not depend on the timer for this. Without new events the exchange ends after finitely many messages, and a node is never asked again for events that it already delivered.",
 ["schedules","configurations","histories"],
 "2-3 node networks (line, triangle, late joiner), up to 2-3 events created at different nodes and moments, all delivery orders with loss-free links and timer ticks at all positions",
 "Tests run one schedule with 2 or 10 nodes.",
 ["flmodules/src/gossip_events/intern.rs","flmodules/src/gossip_events/broker.rs"],[{"name":"KnownEventIDs / RequestEvents / Events exchange","where":"flmodules/src/gossip_events/intern.rs"}],["Gossip::events on every node"],None,"flarch::tasks::mc")
p("G03","Stored events survive restarts and upgrades from every older format",
 "After every handled message, a gossip module restarted from its persisted data knows exactly the same events. Data written in each of the older formats is read back with every event's category, source, time and text, and unreadable or missing data never prevents the node from starting.",
 ["histories","inputs","crash_points"],
 "all histories up to depth 4 (quick) / 6 (thorough) with a restart after each step; all older formats over all subsets of five events; the persisted data cut at every byte, or with any byte replaced by one of six others",
 "One V1 sample is decoded by a test.",
 [G,"flmodules/src/gossip_events/intern.rs"],[{"name":"EventsStorageSave migrations","where":G}],["events after restart"])
p("N01","Random connections track real connections and only use connected peers",
 "After any history of node lists, connection and disconnection reports, ticks and messages, the published lists of connected and pending peers are disjoint, never contain the node itself or duplicates, and a peer is listed as connected exactly if its last report was a connection. Messages are only sent to connected peers, connection attempts only go to known peers that are neither connected nor pending, an attempt without answer stops counting after the configured time, and a node with fewer connections than wanted tries to connect to further known peers. The announced information of connected peers is the newest one received, once per peer.",
 ["histories","configurations"],
 "all histories up to depth 5 (quick) / 6 (thorough) over 3-4 peers of lists, connects, disconnects, ticks and messages",
 "Tests follow a few fixed sequences.",
 ["flmodules/src/random_connections/core.rs","flmodules/src/random_connections/intern.rs","flmodules/src/random_connections/nodes.rs"],[{"name":"RandomStats","where":"flmodules/src/random_connections/core.rs"}],["RandomOut, NetworkIn messages, stats"],None,"flarch::tasks::mc")
p("N02","The network router's view of connected peers always matches the reports",
 "For every history of connection, disconnection, node-list and message events from the network, the router's announced list of connected peers equals the peers reported connected and not disconnected since, a connect or disconnect is announced exactly once per change, and a message from a peer is passed on exactly once, after that peer was announced as connected. Outgoing messages go to exactly the requested peer with unchanged module and content.",
 ["histories"],
 "all histories up to depth 6 (quick) / 7 (thorough) over 2-3 peers against a reference model",
 "Two tests follow fixed sequences.",
 ["flmodules/src/router/broker.rs","flmodules/src/router/messages.rs"],[{"name":"RouterNetwork handler","where":"flmodules/src/router/broker.rs"}],["RouterOut, NetworkIn messages"],None,"flarch::tasks::mc")
p("N03","A node announces peer connections consistently and keeps peers apart",
 "For every history of signalling messages, WebRTC events and user requests, the node reports a peer as connected exactly once when the first of its two directions opens and as disconnected exactly once when the last one closes, and its published connection list equals that. Received texts and connection set-up messages are passed to or from exactly the peer they belong to, requests to connect to itself or to an already open connection start nothing, and no message received from the signalling server or a peer crashes the node.",
 ["histories","inputs"],
 "all histories up to depth 5 (quick) / 6 (thorough) over 2 peers, both directions, all signalling message kinds and user requests, against a reference model",
 "There is no test of this module.",
 ["flmodules/src/network/intern.rs","flmodules/src/network/broker.rs"],[{"name":"per-peer incoming/outgoing state","where":"flmodules/src/network/intern.rs"}],["NetworkOut, connections watch, messages to WebSocket and WebRTC"],None,"flarch::tasks::mc")
S="flmodules/src/network/signal.rs"
p("N04","The signalling server only registers nodes that prove who they are",
 "A connection is registered under a node ID only after it presented, on that same connection, the challenge issued to it, together with a signature over it by the key behind that node ID; each challenge can be used once, and a wrong, replayed, foreign or malformed announcement registers nothing and never crashes the server. At most one connection is registered per node ID (a newer proof replaces the older one, which is told so), and the list of nodes sent out contains exactly the registered nodes.",
 ["histories","inputs"],
 "all histories up to depth 5 (quick) / 6 (thorough) of 2-3 connections announcing with every combination of challenge, key and signature, malformed messages, disconnections and ticks, against a reference model",
 "There is no test of the signalling server's authentication.",
 [S,"flmodules/src/nodeconfig.rs"],[{"name":"challenges / connection_ids maps","where":S}],["SignalOut messages to each connection"])
p("N05","Connection set-up messages only pass between their two registered nodes",
 "A set-up message is forwarded exactly once, unchanged, and only to the registered connection of the other node named in it, and only if its sender is registered as one of the two nodes named; otherwise nothing is sent. A node that disconnects, or stays silent for longer than the configured time, is removed from the list and gets no further messages, while nodes that keep sending are never removed.",
 ["histories"],
 "all histories up to depth 6 (quick) / 7 (thorough) of 3 connections (two registered, one not) sending set-up messages, stats, ticks and disconnections, for several time-outs",
 "No test exercises forwarding with foreign senders or time-outs.",
 [S],[{"name":"ws_peer_setup, ttl","where":S}],["SignalOut messages"])
p("N06","Texts sent to a peer arrive complete, once and in order over open channels",
 "Texts given to a peer connection are handed to a data channel only while that channel is open, each exactly once and in the order given (waiting until a channel opens), preferring the outgoing one. Any text, of any length and any Unicode content, is reassembled at the receiver to exactly the text sent, even when the parts of several long texts interleave or are reordered, and malformed or incomplete parts never produce a text nor crash the receiver.",
 ["inputs","histories","schedules"],
 "all event histories up to depth 5 (quick) / 6 (thorough) of sends, opens, closes, state changes on both directions; every Unicode scalar value; all lengths around the split size; all interleavings and permutations of the parts of two texts; all small malformed part headers",
 "One test splits an alphanumeric text in two parts.",
 ["flarch/src/web_rtc/node_connection.rs"],[{"name":"Packet split / PacketCollector, message queue","where":"flarch/src/web_rtc/node_connection.rs"}],["messages to the WebRTC brokers, received Text"],None,"flarch::tasks::mc")
p("N07","The websocket server keeps its clients apart",
 "For every history of clients connecting, failing their handshake, sending, being closed and disconnecting, a text the server sends to a connection number arrives only at the client that got this number, and every text of a client is reported under its own number. Closing or losing one client never redirects, blocks or drops the traffic of the others, and its disconnection is reported.",
 ["histories","fault_sequences"],
 "all histories up to depth 2 (quick) / 3 (thorough) from the start, and up to depth 2-3 (quick) / 3-4 (thorough) with two or three clients, of open, bad handshake, send, server-close, client-close, vanish and clients that do not read, over the loopback interface",
 "One test uses two clients that both stay open.",
 ["flarch/src/web_rtc/libc/web_socket_server.rs"],[{"name":"connections indexed by number","where":"flarch/src/web_rtc/libc/web_socket_server.rs"}],["texts received by clients and server"])
p("W01","Web proxy answers carry the complete body in order for the right request",
 "For every request sent through the web proxy, the response delivered to the requester has the header and exactly the bytes of the body sent by the proxying node for that request, in the order sent, whatever other requests and answers are interleaved and whatever the schedule; it ends when the proxying node is done or reports an error. Requests only go to connected peers that offer the proxy service, and unknown, late or surplus answers neither change other responses nor crash the node.",
 ["schedules","histories"],
 "all interleavings of header, body blocks, done and error messages of 1-2 requests with the tasks forwarding the blocks, and all peer lists of up to 3 peers",
 "The single test is disabled (needs the network).",
 ["flmodules/src/web_proxy/core.rs","flmodules/src/web_proxy/intern.rs","flmodules/src/web_proxy/broker.rs","flmodules/src/web_proxy/response.rs"],[{"name":"requests map keyed by nonce","where":"flmodules/src/web_proxy/core.rs"}],["Response bytes"],None,"flarch::tasks::mc")
R="flmodules/src/dht_storage/realm_view.rs"
p("R01","Paths and links of pages resolve to the page that was stored under them",
 "For every history of creating, renaming, moving and editing pages through a realm view, by signers who may or may not edit them, resolving the full path of a page returns a page stored under that path (this very page if no other page of the path has the same name), the full path of a page is the path of names from its root, and paths that do not exist give an error. Updating a page changes only that page and the links of the pages it is linked to which the signer may edit: its identity, its content and its place in the tree are kept as asked, an edit without the right to do it changes nothing, and every lookup ends even if stored pages refer to each other in a cycle. A second view of the same realm gives the same answers.",
 ["histories","inputs"],
 "all histories of creating, editing, moving and renaming pages up to depth 3 (quick) / 4 (thorough) from an empty realm and from prepared chains, equal names, foreign pages and cuckoos",
 "One three-level path is tested.",
 [R,"flmodules/src/flo/blob.rs"],[{"name":"get_page_path / get_full_path / update_page","where":R}],["RealmView results"],None,"flarch::tasks::mc")
D6="flmodules/src/dht_storage/broker.rs"
p("D06","A user of the storage reads its own and never older versions",
 "Whatever is stored through a handle of the DHT storage is seen by every later read through this handle: of the object, of all objects, of the IDs attached to an object and of the realms, and a handle never sees an older version after a newer one, whatever other handles store and read concurrently. A read of an object that is not stored locally asks the network for exactly this object of this realm, ends with the object as soon as it arrives, ignores every other answer, and ends with an error exactly after the configured time if nothing arrives.",
 ["schedules","histories"],
 "all programs of one handle up to 4 (quick) / 5 (thorough) steps and of two handles up to 2 / 3 steps, under all schedules with a bounded number of delays; all sequences of up to 3 / 4 network answers and elapsed times for one or two missing objects",
 "The tests wait or settle between a store and the read, with one handle and one schedule.",
 [D6,"flmodules/src/dht_storage/intern.rs"],[{"name":"store_flo and the get_... requests","where":D6}],["results of the DHTStorage handle, messages to the router"],None,"flarch::tasks::mc")
p("U02","What a module sends or stores is read back unchanged",
 "Every message a module gives to the network for another node is read there as the same message by the same module, and by no other module, whatever texts, bytes, numbers and IDs it contains; every event and every object that is stored is read back with the same content. Texts that look like numbers, dates, booleans, or parts of the file format stay the texts they are.",
 ["inputs"],
 "all texts up to 3 (quick) / 4 (thorough) characters over 49 characters with a meaning in the format, texts of digits up to 5 / 6 characters, all blocks of up to 2 and selected longer blocks of bytes, IDs with all 2-byte prefixes, in every shape of message",
 "The tests send a handful of alphanumeric texts.",
 ["flmodules/src/router/messages.rs","flmodules/src/gossip_events/core.rs","flmodules/src/flo/flo.rs"],[{"name":"NetworkWrapper::wrap_yaml / unwrap_yaml, EventsStorage::get / set","where":"flmodules/src/router/messages.rs"}],["unwrapped messages, loaded events"])
p("T01","Periodic work is driven by exactly one tick per second and per minute",
 "The timer emits exactly one second tick per elapsed second and one minute tick after every sixty second ticks, in that order, to every subscriber, and a subscriber for seconds never receives minute ticks and vice versa. Slow or removed subscribers never delay or stop the ticks of others.",
 ["schedules","histories"],
 "all schedules of timer task, timer broker and subscribers over 2 ticks, the deterministic schedule over 130 ticks, all subscriber histories up to depth 4",
 "No test observes the timer.",
 ["flmodules/src/timer.rs","flarch/src/tasks/libc.rs"],[{"name":"Timer::start loop","where":"flmodules/src/timer.rs"}],["ticks received"],None,"flarch::tasks::mc")
p("X01","A running node joins all its parts into one working whole",
 "A node started with any combination of modules offers exactly these modules, and keeps its identity over restarts; once the nodes of a network are connected, whatever the order of lists, connections, failures, restarts, deliveries and user actions before, every node's modules agree with the real connections, every chat message that a running node accepted is on all nodes connected through nodes with these modules exactly once, with its author and text, including those sent before the author restarted, every node knows the announced information of those nodes, reports the listed ones as online, and finds the newest version of every object stored in a realm known at the node that stored it. A node never sends messages or connects to itself, and the network falls silent when nothing happens.",
 ["histories","schedules","configurations"],
 "all histories up to depth 3 (quick) / 4 (thorough) of 12-17 actions on 2-3 complete nodes, both settled and sudden; 5 scripts with all orders of deliveries and actions up to 2 / 3 deviations; all 128 subsets of modules of one node next to 1-2 complete ones",
 "Two tests start one node without any network.",
 ["flnode/src/node.rs","flnode/src/stat.rs"],[{"name":"Node::start","where":"flnode/src/node.rs"}],["Node's methods and modules"],None,"flarch::tasks::mc")
