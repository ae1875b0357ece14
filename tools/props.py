"""Single source of /verif/properties.jsonl (run mkfiles.py to regenerate it and MANIFEST.json)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


S, I, H, F, C, K = "schedules", "inputs", "histories", "fault_sequences", "configurations", "crash_points"
ZC, AD, UT, ZG = "pyzwave/zipconnection.py", "pyzwave/adapter.py", "pyzwave/util.py", "pyzwave/zipgateway.py"
AP, NO, PS, MB = "pyzwave/application.py", "pyzwave/node.py", "pyzwave/persistantstorage.py", "pyzwave/mailbox.py"
CN, TY, ME, CC = "pyzwave/connection.py", "pyzwave/types.py", "pyzwave/message.py", "pyzwave/commandclass/CommandClass.py"
CD = "pyzwave/commandclass/"

prop("C01", "A send succeeds exactly when its own delivery confirmation arrives in time",
     "Sending a command over a Z/IP connection completes with success if and only if a positive acknowledgement carrying that transmission's own sequence number arrives before its waiting time runs out, and otherwise completes with failure (never an exception) exactly when that time runs out. Acknowledgements for other, finished or never used sequence numbers, duplicates and plain negative acknowledgements change nothing for any outstanding command.",
     [S, H, I], "every interleaving of sends, positive/negative/stray/duplicate/late acknowledgements, cancellations and time, including an acknowledgement in the same instant as the deadline",
     "tests send one or two commands and deliver one matching ack; orderings of several outstanding commands with stray, late and racing acks are not sampled",
     [AD, ZC], [("acknowledgement table lookup and wake-up", AD + " ackReceived/waitForAck"), ("Ack.wait timeout", AD)],
     [("outstanding acknowledgements", "sequence number -> waiting command", AD + " _ackQueue")], ["datagrams sent", "result of send"])
prop("C02", "A 'waiting' notice for a sleeping node extends the send's deadline",
     "While a command is outstanding, each 'queued for a sleeping node' notice for its sequence number replaces its remaining waiting time by the announced delay plus 60 seconds from that notice (120 plus 60 if the announced delay is negative, 60 if none is announced), any number of times. The command then still succeeds if its positive acknowledgement arrives within the extended time, fails when it runs out, and notices for other sequence numbers have no effect on it.",
     [S, H, I], "every sequence of notices with every 24-bit signed delay (also absent), acknowledgements and elapsed time, over several outstanding commands",
     "tests cover one notice followed by one ack and one timeout with mocked waiting; repeated notices, other delays, stray notices and races are not reached",
     [AD, ZC, CD + "Zip.py"], [("queued status and repeated wait", AD + " Ack.queued/Ack.wait"), ("expected delay option", CD + "Zip.py HeaderExtension")],
     [("expected delay", "extended waiting time", AD + " Ack._expectedDelay")], ["time at which send completes", "result of send"])
prop("C03", "Commands awaiting confirmation never share a sequence number",
     "Every transmitted command carries an 8-bit sequence number different from that of every other command on the same connection still awaiting its confirmation, over any number of commands and any mix of confirmed, timed-out, cancelled and long-sleeping ones. A number is usable again once its command has finished in any way, and only when all 256 numbers are awaiting confirmation is a further command refused: it reports failure and transmits nothing.",
     [H, S, F], "all histories, including more than 256 commands on one connection while some stay outstanding or were cancelled",
     "no test sends more than a handful of commands on one connection, so wrap-around against an outstanding command is never reached",
     [ZC, AD], [("sequence number allocation", ZC + " send"), ("duplicate check and removal", AD + " waitForAck")],
     [("sequence counter", "last used number", ZC + " _seq")], ["sequence numbers in sent datagrams"])
prop("C04", "An idle connection sends a keep-alive every 25 seconds",
     "On a connected Z/IP connection a keep-alive requesting an acknowledgement is sent exactly 25 seconds after the latest of the connect, the last transmitted command and the last keep-alive, and at no other time. Inbound traffic, the outcome of sends and refused sends do not shift it. Once stopped, a connection sends neither keep-alives nor commands (sends then report failure at once) until it is connected again.",
     [S, H], "all timings of connects, stops, sends, acknowledgements, failures and inbound packets over arbitrarily long runs",
     "tests call the keep-alive function directly; timing relative to traffic over time is not exercised",
     [ZC], [("keep-alive timer reset", ZC + " resetKeepAlive/keepAlive")], [("timer", "pending keep-alive", ZC + " _keepAlive")], ["datagrams sent and their time"])
prop("C05", "A response is returned whenever it arrives after the request was issued",
     "A request-and-wait call returns the first message of the awaited type that arrives after the call was made, whether it arrives before, together with or after the delivery acknowledgement, and raises a timeout only if no such message arrived by the end of the waiting time, which is counted from the moment delivery was settled. A request to a node whose delivery fails raises a timeout.",
     [S, I], "every order and timing of acknowledgement, response and deadline, including simultaneous arrival",
     "tests deliver ack then response in that order only",
     [UT, AD, NO], [("waiting session set up before sending", UT + " addWaitingSession"), ("wait with timeout", UT + " waitForMessage")],
     [("waiting sessions", "message type -> waiter", UT + " _sessions")], ["result of sendAndReceive"])
prop("C06", "Concurrent waiting requests do not disturb each other",
     "Timing out, failing to send or cancelling one waiting request never makes another request fail, lose its response or wait longer, also when both await the same message type, in which case one arriving message satisfies all of them. A message that no live request awaits is always passed on to the normal message handling.",
     [S, H, F], "every interleaving of several concurrent waiting requests for equal and different types with arrivals, timeouts, failures and cancellations",
     "no test runs two waiting requests concurrently",
     [UT, AD, NO], [("session bookkeeping per message type", UT + " MessageWaiter")],
     [("waiting sessions", "message type -> waiters", UT + " _sessions")], ["results of sendAndReceive", "listener calls"])
prop("C07", "Each inbound packet has exactly the effect its kind prescribes",
     "Every datagram received on a Z/IP connection is handled by its kind: an acknowledgement or waiting notice (negative acknowledgement marked as waiting) affects only its command, an included command (of a known or unknown class) or a node advertisement is delivered upward exactly once with its content and endpoint intact, and everything else (keep-alive replies, plain negative acknowledgements, packets without a command, truncated or undecodable bytes) is dropped. No datagram makes the receive path raise or changes the connection's other behaviour.",
     [I, H], "all byte strings as datagrams, at any point of a history of sends",
     "tests feed a few well-formed packets; arbitrary and malformed input in arbitrary states is not covered",
     [ZC, AD, ME, CD + "Zip.py"], [("packet classification", ZC + " onPacket"), ("decode guard", ZC + " onPacket")], [], ["exceptions from the receive path", "upward deliveries", "datagrams sent"])
prop("C08", "Unsolicited packets are attributed by address and acknowledged exactly once",
     "A command received on the unsolicited port is announced exactly once as coming from the node whose known address equals the sender's address, with the sender's endpoint, and one acknowledgement with the same sequence number and swapped endpoints goes back to the sender if and only if the packet asked for one. (Node list reports are not announced but update the node list.) A command received on a node's own connection is announced as from that node. Packets from unknown addresses, malformed packets and packets without a command are neither announced nor do they raise or disturb later packets.",
     [H, I], "all sequences of packets from known and unknown senders interleaved with node list changes",
     "tests send one packet from one known and one unknown sender",
     [ZG], [("lookup by source address", ZG + " onUnsolicitedMessage"), ("acknowledgement", ZG + " onUnsolicitedMessage / Zip response")],
     [("node addresses", "node -> IP", ZG + " _nodes")], ["announcements to listeners", "datagrams sent on the unsolicited socket"])
prop("C09", "Commands to a node go only to the address advertised for that node",
     "Every command sent to a node is transmitted only on a connection to the address advertised for exactly that node, whatever resolutions of other nodes are in progress and in whatever order advertisements arrive, and its result is that transmission's result. At most one connection exists per node, the connection of a node that left the node list is dropped, and a failed resolution (no advertisement in time, or one saying the address was not found) raises a timeout for the waiting callers without affecting later attempts or other nodes.",
     [S, F, H], "every interleaving of concurrent sends to several nodes with delayed, reordered, missing and unrelated advertisements",
     "tests resolve a single node with an immediate reply",
     [ZG], [("address resolution", ZG + " ipOfNode"), ("connection cache", ZG + " connectToNode")],
     [("connections", "node -> connection", ZG + " _connections")], ["remote address of opened sockets", "datagrams per socket"])
prop("C10", "The known node list follows the latest node list report",
     "After every unsolicited node list report has been processed, the gateway's node list equals the set in the latest report, one update announcement per report has been made after the list took that value, and packets of a node are attributed to it as soon as its address could be resolved. A node whose address cannot be resolved neither blocks the update nor prevents the others from being resolved, and addresses of removed nodes are forgotten.",
     [H, S, F], "all sequences of reports, also arriving while a previous one is being processed, with failing or slow address resolution",
     "tests process one report with immediate resolution",
     [ZG], [("diffing the report", ZG + " __handleNodeListReport__"), ("initial list", ZG + " getNodeList/setupUnsolicitedConnection")],
     [("nodes", "known nodes and addresses", ZG + " _nodes")], ["getNodeList result", "announcements"])
prop("C11", "Network management calls report what the gateway actually answered",
     "Each network-management call transmits the one matching command with its arguments and a fresh 8-bit sequence number, however many calls were made before, and its result is the content of the reply received for it: a call that gets no reply (for commands without a reply: whose delivery is not confirmed) reports its documented failure value, never success. Concurrent calls each obtain their own reply, and removing a node succeeds only if the gateway reports the removal as done.",
     [H, S, F, I], "all histories of more than 256 calls, all reply contents, and concurrent calls with delayed or missing replies",
     "tests make one call each with a mocked reply",
     [ZG, NO, CD + "NetworkManagementInclusion.py", CD + "NetworkManagementProxy.py"], [("network management sequence number", ZG + " _nmSeq"), ("result mapping", ZG)],
     [("sequence", "network management sequence number", ZG + " _nmSeq")], ["commands sent to the gateway", "results of calls"])
prop("C12", "The application's node registry and its announcements stay consistent",
     "After startup and after every node list update has been processed, the registry contains exactly the root node of every listed node except the controller plus one entry per reported endpoint, each built from what the gateway reported for it. Every node that appears is announced as added exactly once, and every node that disappears is announced as removed exactly once, singly and in the batch, also when updates overlap or repeat.",
     [S, H, F], "every interleaving of startup and overlapping node list updates with slow or failing interview replies",
     "tests run a single update to completion",
     [AP], [("diff of registry against node list", AP + " nodeListUpdated"), ("node loading", AP + " loadNode/loadEndPointNode")],
     [("registry", "node id -> node", AP + " _nodes")], ["nodes property", "nodeAdded/nodesAdded/nodeRemoved/nodesRemoved listener calls"])
prop("C13", "Messages and controller events reach exactly their addressee",
     "A message from a node endpoint is handled by exactly the registered node for that root id and endpoint, messages from the controller itself go to the application's listeners, and messages from unregistered senders reach nobody. Inclusion and exclusion status messages from the controller are each announced once with their content, an exclusion that is done for a node outside the network is additionally announced as removal of node 0, and other controller commands are offered to the listeners.",
     [I, H], "all sender ids, endpoints, message kinds and status values over changing registries",
     "tests cover one message per branch with a single node",
     [AP, NO, ZG], [("routing by node id and endpoint", AP + " messageReceived"), ("controller events", AP + " onMessageReceived")], [], ["listener calls"])
prop("C14", "Every supervised command gets exactly one truthful supervision report",
     "For each supervised command received from a node or endpoint exactly one supervision report with the same session id is sent back to that same node and endpoint, with status success if the inner command was handled and no-support otherwise, and the inner command is processed exactly as if it had arrived unwrapped. Unsupervised commands never cause a report, and a supervised packet without a usable inner command does not raise.",
     [I, H, C], "all session ids, inner commands, handler outcomes, endpoints and sequences",
     "tests use one inner command and one session id",
     [NO, CD + "Supervision.py"], [("supervision wrapper", NO + " supervision")], [], ["commands sent to the node", "handler calls"])
prop("C15", "A node's command class list is split into supported, controlled and secured",
     "For every command class list reported for a node, the classes before the support/control mark are supported and those after it controlled, the classes following the security mark are supported and flagged as requiring that security scheme, marks themselves are never listed and known classes get their own handler while unknown ones get a generic one. No list, of whatever length, order or ending, makes loading the node fail.",
     [I], "all byte strings as command class lists",
     "tests use two or three example lists",
     [NO, CC], [("parsing of the list", NO + " Node.__init__"), ("class loading", CC + " CommandClass.load")],
     [("supported", "supported classes", NO + " _supported")], ["supported, supports, isZWavePlus, security flag"])
prop("C16", "Updates inside a storage lock are saved exactly once when the lock ends",
     "Outside any storage lock each command-class update of a node triggers exactly one save notification, inside a lock none is triggered, and when the outermost lock ends (also by an exception) exactly one is triggered if and only if some update happened inside. Locks of different nodes are independent, and nested or overlapping locks of one node behave as one lock lasting until the last of them ends.",
     [H, S], "all sequences and nestings of locks, updates and exceptions over several nodes",
     "tests take one lock with at most one update",
     [NO], [("lock state", NO + " storageLock/commandClassUpdated")], [("storage status", "clean/locked/dirty", NO + " _storageStatus")], ["nodeUpdated listener calls"])
prop("C17", "Command handlers and listeners are offered each message in the fixed order",
     "A message from a node first satisfies waiting requests for its type, then goes to its supported command class: the built-in handler and, unless that handled it, the listeners for that command, and only if none of these took it is it offered to the node's listeners. The result tells truthfully whether anyone handled it, every listener is called at most once, and a message of a class the node does not support skips the command class.",
     [I, C, H], "all combinations of waiting requests, supported classes, handler and listener presence and answers",
     "tests exercise single branches with one listener",
     [NO, CC], [("node dispatch", NO + " handleMessage"), ("command class dispatch", CC + " handleMessage")], [], ["listener calls and their order", "handler result"])
prop("C18", "Interviews learn the version first and record success truthfully",
     "Interviewing a node interviews each supported command class once in order; a class whose version is unknown is first asked for it, an unanswered version or an unsupported class is skipped, and a failing class never stops the interview of the others. A class is marked interviewed exactly if its own latest interview ran to completion, and every completed interview notifies storage so that the result is saved.",
     [S, F, C], "all combinations of answered, unanswered and undelivered requests over sets of command classes and repeated interviews",
     "tests interview one class with immediate answers",
     [CC, NO, CD], [("interview wrapper", CC + " interviewDecorator/requestVersion"), ("node interview", NO + " interview")],
     [("interviewed", "flag per class", CC + " _interviewed"), ("version", "learned version", CC + " _version")], ["requests sent", "interviewed and version", "save notifications"])
prop("C19", "Association groups mirror the node's reports and the lifeline gets set",
     "After an association interview every group number the node announced is present with the maximum and members of that group's own report (or reports, if its list is split into several), whatever other groups' reports were missing. On a Z-Wave Plus node whose first group does not contain the controller, one set command for the controller is sent in the node's plain or multi-channel form and the group read back; in all other cases none is sent.",
     [I, F, C], "all group counts, member lists (with and without endpoints), missing reports and supported class combinations",
     "tests cover one group and one lifeline case per branch",
     [CD + "Association.py", CD + "MultiChannelAssociation.py"], [("interview", CD + "Association.py interview/interviewGrouping"), ("lifeline", CD + "Association.py setupLifeLine")],
     [("groupings", "group -> members", CD + "Association.py")], ["requests sent", "groups after interview"])
prop("C20", "Configuration values are the node's latest reports for that parameter",
     "A configuration read answers from the cache if and only if allowed and a report for that parameter was received before, and then with the latest reported value; otherwise it asks the node and returns the value the node reports for exactly that parameter. Every report updates only its own parameter's value and size and notifies storage once, and a write transmits the parameter, size and value given, changing nothing cached.",
     [H, S, I], "all sequences of reads, writes and reports over parameters, sizes and values, with overlapping reads",
     "tests read and report a single parameter",
     [CD + "Configuration.py"], [("cache", CD + "Configuration.py get/__report__")], [("parameters", "parameter -> value", CD + "Configuration.py")], ["requests sent", "returned values", "stored parameters"])
prop("C21", "Only sensor reports of supported types and scales pass the filter",
     "After an interview the recorded sensor types are exactly those the node announced, each with the scales announced for that type. From version 5 on a report is passed to listeners if and only if its type and scale are recorded as supported, before version 5 always, and a report never changes what is recorded.",
     [I, C, H], "all announced type masks of any length, scale masks, versions and reports",
     "tests use one type and scale",
     [CD + "SensorMultilevel.py"], [("filter", CD + "SensorMultilevel.py __report__"), ("type mask decoding", CD + "SensorMultilevel.py SensorSupported")],
     [("supportedTypes", "type -> scales", CD + "SensorMultilevel.py")], ["listener calls", "recorded types"])
prop("C22", "Group information collects each group's own name, profile and commands",
     "For every group listed in group information reports, in any number of reports, its name and its command list are requested exactly once per listing and its profile is recorded. Name and command reports update exactly the group they name, reports for unlisted groups change nothing and do not raise, and every recorded change reaches storage.",
     [H, I, F], "all sequences of info, name and command-list reports for listed and unlisted groups, with failing sends",
     "tests deliver each report once",
     [CD + "AssociationGrpInfo.py"], [("report handlers", CD + "AssociationGrpInfo.py")], [("groupings", "group -> info", CD + "AssociationGrpInfo.py")], ["requests sent", "recorded groups", "save notifications"])
prop("C23", "Saved node settings come back unchanged after a restart",
     "For every node state reachable through interviews and reports, saving it and restoring it into a freshly loaded node with the same command classes yields the same versions, interview flags and attribute values, of the same types and equally usable. Values saved for classes the node no longer has are ignored, other nodes' files are never touched, and a missing file leaves the node in its initial state.",
     [I, H, C], "all attribute values of all command classes that keep state, repeated save/restore cycles",
     "tests save and load one or two attributes with mocked files; three related tests fail at baseline",
     [PS, UT, CC], [("YAML representation", PS + " YamlStorage"), ("state conversion", UT + " AttributesMixin"), ("dictionary attributes", CC + " VarDictAttribute")], [], ["file content", "command class attributes after reload"])
prop("C24", "A crash or early update never destroys previously saved settings",
     "If saving a node is interrupted at any point (process killed, power lost, disk full, a failing file operation), a later restart finds for that node either the complete old or the complete new settings, and other nodes' settings are untouched. Updates that arrive between a node becoming known and its saved settings being restored never change what is saved: whatever was saved before is restored, and such an update may only fill in what was not saved.",
     [K, F, S], "every interruption point of a save and every interleaving of updates with loading a node",
     "tests never interrupt a save or overlap updates with loading",
     [PS, AP], [("file writing", PS + " nodeUpdated"), ("order of listening and restoring", AP + " loadNode")], [], ["file content after the interruption", "state after restart"])
prop("C25", "The mailbox delivers each queued entry in order until it is delivered",
     "Entries accepted for a mailbox are handed out one per wake-up or acknowledgement, oldest first within their mailbox, and an entry whose hand-out was not delivered stays queued and is handed out again on the next request. A request arriving while an entry of that mailbox is being handed out is served once the outcome is known, and an acknowledgement naming no mailbox is meant for the mailbox woken up last. The 'last' mark is set exactly when no further entry waits, a request on an empty mailbox gets one empty final reply, and mailboxes never mix entries.",
     [S, H, F], "every interleaving of pushes, wake-ups, acknowledgements and send failures over several mailboxes",
     "tests queue one entry and pop it once",
     [MB], [("pop", MB + " __popQueue__"), ("push", MB + " __pushQueue__")], [("queue", "handle -> entries", MB + " _queue")], ["commands sent to the mailbox proxy"])
prop("C26", "The mailbox stores each distinct entry once and confirms what it stores",
     "Pushing an entry whose checksum (CRC-16, polynomial 0x1021, initial value 0x1D0F) equals that of an entry already waiting in the same mailbox stores and confirms nothing; any other push is confirmed by one 'waiting' command carrying the entry and is stored exactly if that confirmation was delivered. This also holds for pushes that overlap in time (a push is decided once the outcome of earlier ones to that mailbox is known); the same entry may be pushed to other mailboxes or again after it was delivered.",
     [S, H, F], "every interleaving of equal and different pushes, deliveries and send failures",
     "tests push one duplicate sequentially",
     [MB], [("checksum comparison", MB + " __pushQueue__")], [("queue", "handle -> entries", MB + " _queue")], ["commands sent to the mailbox proxy", "later hand-outs"])
prop("C27", "Every waiting mailbox entry keeps sending its heartbeat until delivered",
     "From the moment it is stored until it is delivered, each mailbox entry sends a heartbeat 60 seconds after it was stored and 60 seconds after its previous heartbeat's transmission ended, carrying the entry and its mailbox, as 'waiting', with every tenth one a 'ping'; after delivery it sends none. Failed, timed-out or unconfirmed heartbeat transmissions do not end the heartbeat of that or any other entry.",
     [S, H, F], "all runs over many heartbeat periods with failing sends and pops at any time",
     "tests run one iteration with a mocked sleep",
     [MB], [("heartbeat task", MB + " QueueItem._runner")], [("task", "heartbeat per entry", MB + " QueueItem._task")], ["commands sent and their times"])
prop("C28", "Commands are encoded exactly as their wire format prescribes",
     "Every message class that can be encoded (all but those having fields that are only ever received, such as lists, texts, node and sensor masks, sensor values and header extensions) encodes any in-range combination of its fields to its command class and command bytes followed by the fields in their specified order, width, bit position and byte order, with reserved bits zero. A message lacking a mandatory field is refused with an error instead of being encoded, and encoding neither changes the message nor depends on earlier messages.",
     [I], "all in-range field values of all message classes",
     "tests compare a few literal messages",
     [ME, TY, CD], [("encoding", ME + " compose"), ("bit writer", TY + " BitStreamWriter")], [], ["encoded bytes"])
prop("C29", "Received bytes are decoded exactly as their wire format prescribes",
     "Decoding the bytes of any known command yields that message with every field equal to the value at its specified bit position and width, fields beyond the end of the data left at their defaults, and unknown commands yield a generic message with the same command identification. Decoding what was encoded gives back equal field values, and decoding never depends on earlier messages. The scale of a meter reading includes its further bit outside the reading.",
     [I], "all byte strings and all in-range messages of every class",
     "tests decode a few literal packets",
     [ME, TY, CD], [("decoding", ME + " deserialize / " + UT + " parseAttributes"), ("bit reader", TY + " BitStreamReader")], [], ["decoded fields"])
prop("C30", "Truncated or malformed data is refused, never misread",
     "Decoding a byte string that is too short for a field it has begun, or whose contained lengths point beyond its end, is refused with an error instead of yielding fabricated or misplaced values, and does so for every truncation point of every message (only a command class list at the end of a message is cut to what is there). No decode loops forever, reads outside its input or changes it.",
     [I], "all byte strings, in particular all truncations and length corruptions of valid messages",
     "tests have one truncated example",
     [TY, ME, CD + "Zip.py"], [("bounds check", TY + " BitStreamReader.value")], [], ["decode result or error"])
prop("C31", "Every listener hears every announcement exactly once",
     "An announcement reaches every registered listener that implements it exactly once, with the announcing object and the given arguments, whatever other listeners do, including raising errors, announcing something themselves or registering further listeners. Plain functions are called in registration order before the announcement returns, coroutines are started in registration order. A waiting announcement completes exactly when all coroutine listeners have ended and yields the answers of those that answered (whatever the answer), in registration order.",
     [S, C, F], "all sets of listeners, plain or coroutine, answering, slow, raising or absent",
     "tests use one listener",
     [UT], [("listener calls", UT + " Listenable.speak/ask")], [("listeners", "registered listeners", UT + " _listeners")], ["listener calls", "answers"])
prop("C32", "The transport passes datagrams through unchanged",
     "Datagrams handed to a connection are sent unchanged and in order to the connected peer, or to the given address on a listening socket, and received ones are passed unchanged, once and in order to the registered receiver, together with the sender's address on a listening socket only. Sending before the connection is made reports failure without raising and afterwards success, and a lost connection closes its own socket without affecting other connections, including a newer one of the same object.",
     [H, I, F], "all sequences of connect, listen, send, receive, loss and stop over several connections",
     "tests check single calls on mocks",
     [CN], [("protocol callbacks", CN + " ZipClientProtocol"), ("send paths", CN + " Connection")], [("socket", "datagram transport", CN + " _sock")], ["datagrams on the loopback or fake transport", "receiver calls"])
prop("C33", "Application, gateway, nodes and storage work together end to end",
     "With an application, its gateway connection, its nodes and its storage working together: after startup every node and end point of the network has its entry; a command given to an entry is transmitted to the address of exactly that node with that end point, and its delivery or response is reported to that caller; a command a node sends, unsolicited or on its own connection, reaches exactly the entry of its node and source end point, and if supervised is answered to that node and end point. What interviews and reports recorded is there again after a restart, and node list changes while running take effect for all of this without disturbing the nodes that stay.",
     [H, S, I, C], "all histories of startups, restarts, network changes, commands in both directions, interviews and time, over all networks",
     "every unit test mocks the neighbouring component, so that the components agree with each other is never tested",
     [AP, ZG, ZC, NO, PS, AD], [("registry and dispatch", AP + " messageReceived/loadNode"), ("attribution and connections", ZG + " onUnsolicitedMessage/connectToNode"), ("end point addressing", NO + " Node.send"), ("saved settings", PS + " YamlStorage")],
     [("registry", "entries by id", AP + " _nodes"), ("connections", "node -> connection", ZG + " _connections")], ["datagrams on every socket", "results of calls", "listener calls", "state of every entry"])
prop("C34", "Every received message can be printed and shows what it contains",
     "Printing a decoded message (as done for every message that is logged or handled by nobody) never fails and never changes it. The text names its command class and command, by number if unknown, and has a line for every field that came with the data, in their order, whatever its value; the fields of a contained message are one level deeper than the message, at every depth.",
     [I], "all byte strings that decode to a message",
     "tests print two literal messages",
     [UT, ME], [("printing", UT + " debugString"), ("names", ME + " __repr__")], [], ["printed text"])
prop("C36", "Messages are equal exactly when encoded alike, keys are read as printed",
     "Two messages compare equal if and only if they are of the same class and all their fields are the same on the wire, however their values were given (to the constructor or assigned, as numbers or bytes, as values taken from other messages, keys as text, or received), in both directions, and never to anything that is not a message; likewise the values of fields (flags, numbers, addresses, keys) compare equal exactly when they are. A received device specific key is shown as eight groups of five decimal digits of its sixteen bytes, nothing if none was sent, and compares equal to exactly that text, which given for a key stands for the same bytes.",
     [I], "all pairs of encodable messages and all received keys",
     "tests compare one pair of messages and show three literal keys",
     [ME, "pyzwave/types.py", UT], [("equality", ME + " __eq__"), ("keys", "pyzwave/types.py dsk_t"), ("values given", UT + " AttributesMixin")], [], ["results of comparisons", "text of keys"])
prop("C35", "End points share their node's status and removing asks for the root node",
     "What becomes known about a node's listening mode, FLiRS mode, failure or basic device class is reported alike by its entry and by the entries of all its end points from then on, also after it was loaded anew, and changes no other node's entries; the generic and specific device class are each entry's own. Removing a node through any of its entries asks the gateway once to remove exactly its root node and succeeds if and only if the gateway answers that the removal is done; neither changes which entries exist.",
     [H, I], "all histories of node list changes, status changes and removals with every answer of the gateway, over all networks with end points",
     "no test looks at an end point whose node changed, and the removal is tested with two answers on one root node",
     [NO, AP], [("delegation to the node", NO + " NodeEndPoint"), ("removal", NO + " Node.remove"), ("end point loading", AP + " loadEndPointNode")], [("status", "flags of the root entry", NO + " Node")], ["entries of the registry", "calls of the adapter", "result of the removal"])
prop("C37", "A stopped gateway connection is silent and can be connected again",
     "Stopping a connected gateway closes its connection, every node connection and the socket listening for unsolicited packets, once each. From then on nothing at all is transmitted and nothing received: no keep alive, address query or command; commands given report failure at once, and whatever awaits an acknowledgement or a response ends as if it never came, and a node connection that was still being opened is closed again and kept for nobody. Connecting again makes a new connection to the gateway and one listening socket and does the whole set up anew, nodes keep what was known of them, and everything then works as after the first connect, each node getting one new connection when it is needed.",
     [H, S], "all histories of stops and reconnects with commands, responses, address look-ups, slow sockets and unsolicited packets",
     "tests call stop once on a mocked socket of one connection",
     [ZG, ZC, CN], [("stopping", ZG + " stop"), ("commands on a stopped connection", ZC + " send"), ("connecting again", ZG + " connect/connectToNode")], [("node connections", "node -> connection", ZG + " _connections"), ("listening socket", "unsolicited packets", ZG + " _unsolicitedConnection")], ["sockets opened and closed", "datagrams sent", "results of calls"])
