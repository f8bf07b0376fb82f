#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Outgoing commands are well-formed, unmixed frames",
  "Every command handed to the connection leaves the serial port as exactly one request frame: start byte 0x01, a length byte counting everything after itself, request type 0x00, the command's encoded payload byte for byte, and a checksum that is the complement of the XOR of length, type and payload. Nothing else is ever written to the port except single acknowledge bytes (0x06), and the bytes of different writes never mix. This holds for every payload of 1 to 250 bytes and any number of callers sending concurrently.",
  ["inputs", "schedules"], "all payloads up to 250 bytes, all node ids, any interleaving of concurrent senders with incoming traffic",
  "TestCompileMessage frames one two-byte payload; no test parses the byte stream the port sees, and none sends from several callers.",
  ["serialapi/message.go", "connection.go"],
  [("frame compilation and checksum", "serialapi/message.go CompileMessage, GenerateChecksum"), ("single writer goroutine", "connection.go Writer")],
  ["bytes passed to the port's Write"])

p("C02", "Frame decoding is total, exact and leaves its input alone",
  "For every non-empty byte buffer the frame decoder returns without crashing and classifies the first item: a control byte ACK/NAK/CAN (consumes 1), an incomplete frame (asks for its full size, length byte plus 2; 2 when only the start byte is there), a complete frame with a wrong checksum or any other byte (reports -1), or a complete frame with a right checksum (consumes length byte plus 2), whose content is then decoded or rejected with an error. The verdict and the decoded message depend only on the bytes of that first item, never on bytes after it. The caller's buffer is never modified.",
  ["inputs"], "all non-empty byte buffers, in particular frames of length 0..5, a control byte followed by other bytes, several items in one buffer, and inner lengths that overrun the frame",
  "TestDecode and TestNewMessage feed about twenty hand-made buffers, each holding exactly one item; buffers with trailing bytes, short frames and overlong inner lengths are never tried.",
  ["serialapi/message.go"],
  [("start byte switch, length and checksum test", "serialapi/message.go Decode")],
  ["serialapi.Decode return values", "the buffer after the call"])

p("C03", "Controller messages decode to exactly what is on the wire",
  "A checksum-correct frame carrying an application command, a node-list reply or a node-protocol-info reply decodes to the values on the wire: source node, command class and command; the set of active nodes (bit b of byte i is node 8i+b+1); listening, routing, beaming, FLiRS and security flags, protocol version, baud rate and basic/generic/specific device class (a reply that stops before the specific class means specific class 0). A frame whose inner length does not fit in it, that is too short for its function, or whose function is none of these, yields an error and no message, never invented content and never a crash. A decoded message stays what it is when others are decoded.",
  ["inputs"], "all contents of the three frame kinds, all other function bytes, all inner lengths",
  "Unit tests decode a handful of fixed frames (six-byte node list, four protocol-info samples) and never an overlong or truncated one.",
  ["serialapi/message.go", "serialapi/application_command_handler.go", "serialapi/discovery_nodes.go", "serialapi/get_node_protocolinfo.go"],
  [("per-function decoding", "serialapi/message.go NewMessage")],
  ["serialapi.Decode message"])

p("C04", "Node reports decode to the values their bytes encode",
  "Every supported node report decodes to what its bytes say: one-byte binary switch (on only for 0xFF, 0xFE unknown), three-byte binary switch (current/target on for any non-zero, duration), multilevel switch level(s) capped at 100 with 0xFE marked unknown, sensor readings as signed big-endian 1/2/4-byte integers divided by ten to the precision with the quantity and unit given by type and scale, alarm type/level and (from six bytes on) source/status/sensor type/event, manufacturer/type/product ids as four-digit lower-case hex, endpoint count with dynamic/identical flags, and durations (0..127 s, then 1..126 min, else unknown). Data shorter than the report needs, or of a length the report does not have, and unsupported class/command pairs, are rejected with an error and no report; decoding never crashes. A decoded report stays what it is when others are decoded.",
  ["inputs"], "all (class, command, payload) triples; exhaustive over short payloads",
  "Unit tests try one to four payloads per report type; signs, precisions, sizes, boundary bytes and wrong lengths are mostly untested.",
  ["commands/reports/report.go", "commands/reports/alarm.go", "commands/reports/manufacturer_specific.go", "commands/reports/multi_instance_endpoint.go", "commands/reports/sensor_multi_level.go", "commands/reports/switch_binary.go", "commands/reports/switch_multilevel.go", "commands/reports/wakeup.go", "commands/duration.go"],
  [("report factory", "commands/reports/report.go New"), ("one decoder per report", "commands/reports/*.go")],
  ["reports.New result fields"])

p("C05", "Control operations put exactly the right command on the wire",
  "Switching a node on, off or to a level transmits exactly one command addressed to that node: a binary switch set when the node supports binary switch, otherwise a multilevel set whose level is the integer part of the requested value limited to 0..99 (on is 99, off is 0); a level request always uses the multilevel set. Controlling an endpoint transmits the same command wrapped in one multi-channel encapsulation addressed to that endpoint of that node. A node that lacks the needed command class transmits nothing, and asking for an endpoint that does not exist yields none instead of crashing. Encoding a command has no side effect: the same command encoded again, by anyone, gives the same bytes, and the message that is wrapped for an endpoint is not changed.",
  ["inputs", "configurations", "histories"], "all node ids 2..232, all command-class sets, all endpoint ids, all float levels, any sequence of operations",
  "The nodes package has no tests at all; command encoders are tested on five levels for one node id.",
  ["nodes/commands.go", "nodes/endpoints.go", "commands/SwitchBinary.go", "commands/SwitchMultilevel.go", "commands/MultiChannelEncap.go", "commands/raw.go"],
  [("command selection by class", "nodes/commands.go, nodes/endpoints.go"), ("encoders", "commands/*.go")],
  ["frames written to the port"])

p("S01", "Every intact frame is processed once, however reads are cut",
  "However the incoming byte stream is cut into reads, and whatever noise or damaged frames lie between, every intact frame found by scanning left to right (a byte that starts no item is skipped; a frame with a wrong checksum is skipped by one byte) is processed exactly once, and so is every control byte found that way (ACK, NAK or CAN for the command in flight), and nothing else is, provided its bytes follow each other within 40 ms. Bytes of an incomplete item that have been waiting for more than 40 ms are discarded and never joined to later bytes.",
  ["inputs", "schedules"], "all byte streams, all ways to cut them into reads of 1..128 bytes, all pauses between reads",
  "Tests always deliver one whole frame per read; splitting, coalescing, noise and stale leftovers are never exercised.",
  ["connection.go", "serialapi/message.go"],
  [("reassembly buffer and 40 ms age limit", "connection.go Reader"), ("skip one byte on a bad checksum", "connection.go Reader")],
  ["node state and events after the stream"])

p("S02", "Hostile serial input can neither crash nor wedge the library",
  "No byte sequence received from the serial port, including checksum-correct frames with arbitrary content, arriving at any moment relative to commands in flight and waiting callers, crashes the process or stops the library: once the line has been quiet for 40 ms, intact reports are applied and new requests are transmitted and answered as before.",
  ["inputs", "schedules", "histories"], "all byte streams, injected while commands, responses and waiting callers are in flight",
  "Tests feed only well-formed frames from a cooperating peer.",
  ["connection.go", "serialapi/message.go", "serialapi/application_command_handler.go", "serialapi/discovery_nodes.go", "nodes/node.go"],
  [("bounds checks while decoding", "serialapi"), ("response matching", "connection.go Match")],
  ["process exit", "probe traffic after the attack"])

p("S03", "Each intact frame is acknowledged exactly once",
  "For every checksum-correct frame received, decodable or not, the library writes exactly one acknowledge byte (0x06) to the port, after the frame's last byte arrived (and within a second) and before the acknowledge of any later frame. Control bytes, noise, incomplete frames and frames with a wrong checksum are never acknowledged.",
  ["inputs", "schedules"], "all byte streams and read splits, with and without outgoing traffic",
  "The only test that sees acknowledges tolerates any number of them.",
  ["connection.go"],
  [("acknowledge after a frame", "connection.go Reader")],
  ["single bytes written to the port"])

p("K01", "Commands are transmitted exactly once, in the order accepted",
  "While the controller acknowledges normally, every command accepted from a caller is transmitted exactly once; commands sent one after another by the same caller are transmitted in that order, and no command is transmitted that nobody sent. This holds for any number of concurrent callers, command kinds and amount of unsolicited incoming traffic.",
  ["schedules", "histories"], "any number of callers and any mix of plain, response-waiting and report-waiting sends",
  "Tests send at most two commands, from one goroutine at a time.",
  ["connection.go"],
  [("send channel and single writer", "connection.go Write, WriteWithTimeout, WriteAndWaitForReport, Writer")],
  ["frames written to the port"])

p("K02", "At most one unanswered command is on the line",
  "After transmitting a command frame the library transmits no further command frame until the controller has answered with ACK, NAK or CAN, or one second has passed, and then leaves at least 50 ms before the next one; a command that waits by then is not kept waiting any longer (it follows within 0.3 s, as long as the port works). This holds for any number of callers and after any number of reconnections.",
  ["schedules", "fault_sequences"], "all acknowledge delays and losses, all callers, all reconnect histories",
  "No test delays or drops an acknowledge or reconnects.",
  ["connection.go", "gozwave.go"],
  [("writer waits for the result", "connection.go Writer lastResult"), ("reconnect loop", "gozwave.go ConnectWithCustomPortOpener, connection.go Connect")],
  ["frames written and control bytes read, with virtual time"])

p("K03", "Cancelled commands are retried, refused ones are not",
  "A command the controller answers with CAN is transmitted again, byte for byte the same, no sooner than 100 ms later (and no more than 0.35 s after that if the line is free), once per CAN and whatever other commands are in flight. A command answered with NAK, or not answered at all, is not transmitted again; a caller waiting for the response of a NAKed command is released at once without a response. Other commands are neither lost nor duplicated by this.",
  ["fault_sequences", "schedules"], "all sequences of ACK/NAK/CAN/silence per transmission with several commands in flight",
  "No test ever sends CAN or NAK.",
  ["connection.go"],
  [("CAN resend and NAK abort", "connection.go Reader")],
  ["frames written to the port", "result channels"])

p("K04", "A response is delivered only to the caller that asked for it",
  "A waiting caller only ever receives an answer to its own request: the reply of the controller function it called, or a report from the node, command class and report type it asked for. One controller reply completes exactly one waiting request, the one transmitted first among those waiting for that function (a transmission that the controller cancelled does not count), and a matching answer that arrives in time always reaches its caller (within a second), also when other commands to the same node are under way. Frames meant for others, undecodable frames and unsolicited reports never complete a request they do not answer.",
  ["schedules", "histories", "inputs"], "all orders and delays of replies to several outstanding requests for different nodes, functions, classes and reports",
  "TestSendPackageMatch compares one package with six hand-made buffers; no test has two requests outstanding.",
  ["connection.go"],
  [("request/response matching", "connection.go Match, Reader")],
  ["messages received on the result channels"],
  [dict(name="inFlight", meaning="commands awaiting a response", where="connection.go")])

p("K05", "A waiting caller is always released, with at most one answer",
  "Every call that waits for a response or report yields a channel that delivers at most one answer and is then closed, no later than its timeout counted from when the command was accepted for transmission (plus one second), whatever is lost, refused, cancelled, corrupted, answered late or cut off by a disconnect. An answer arriving at any moment, even before the call has returned, is not lost and never leaves the caller waiting.",
  ["schedules", "fault_sequences"], "all reply times (before return, at the timeout, after it), losses, NAK/CAN sequences and disconnects",
  "TestConnect waits for two immediate replies; no test lets a timeout, a NAK or a disconnect happen.",
  ["connection.go"],
  [("timeout worker", "connection.go timeoutWorker"), ("close of the result channel", "connection.go sendPackage.Close")],
  ["result channels with virtual time"])

p("K06", "The library survives port failures and resumes",
  "When reading the port fails, the port is closed and opened again about a second later, and again every second until opening succeeds; after that incoming frames are processed and newly issued commands are transmitted exactly as before, no bytes received before the failure are joined to bytes received after it, and known nodes and their state are kept. Each failed port is closed, and no more than one port is open at any time.",
  ["fault_sequences", "histories"], "all sequences of read errors and open failures at any moment, including with commands in flight",
  "No test makes a read fail or reconnects.",
  ["connection.go", "gozwave.go"],
  [("reconnect loop", "gozwave.go ConnectWithCustomPortOpener"), ("close on read error", "connection.go Reader")],
  ["Open/Close/Read/Write calls on the port", "node state"])

p("K07", "Connecting tells the truth and cleans up after failure",
  "Connecting returns an error and no controller when no port opener is given or the port cannot be opened, and after such a failure nothing keeps running that opens the port again later; otherwise it returns a working controller. The connection's connected indicator is true from about 200 ms after a successful open until reading fails, and is never true while no port is open.",
  ["fault_sequences", "schedules"], "all sequences of open results and read failures, including failures within the first 200 ms",
  "TestConnectWithCustomPortOpener checks only the returned error of one failed open.",
  ["gozwave.go", "connection.go"],
  [("connect result channel", "gozwave.go ConnectWithCustomPortOpener"), ("Connected flag", "connection.go Connect")],
  ["return values", "Open calls after failure", "Connection.Connected under its lock"])

p("N01", "Discovery finds exactly the active nodes and announces each once",
  "When the controller answers the node-list request, the node list holds exactly the nodes marked active in the reply, except node 1 (the controller), together with the nodes restored from the configuration file. Every new node, and when connecting every restored node, is announced by exactly one discovery event carrying its address, and at that moment it can be looked up and used; a node already known is neither replaced nor announced again.",
  ["inputs", "configurations", "schedules"], "all node bitmaps, all sets of restored nodes",
  "TestConnect uses one bitmap with one slave node and no configuration.",
  ["controller.go", "nodes/list.go", "serialapi/discovery_nodes.go"],
  [("node creation", "controller.go getNodes, initNode")],
  ["Controller.Nodes", "GetNextEvent"])

p("N02", "Identification gives every node its own facts, in any reply order",
  "Once a node's protocol-info, manufacturer and endpoint answers have arrived, the node holds its own protocol info (device class included), its own manufacturer, type and product ids, the brand, product and description of that product in the device database, the mandatory command classes of its device class plus those of the product, and one endpoint (numbered from 1, with the command classes of the node) for each endpoint it reported (a node without any known command class is not asked for endpoints), all of which remain after identification ends and after a restart from saved configuration. It never takes over facts of another node, whatever the order, delay, loss or repetition of the answers; answers that do not come (within 10 s, endpoints 2 s) are asked for again 10 s later. Protocol-info replies carry no node number: they answer the requests in the order these were transmitted, and are not lost while several are pending.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all networks of up to a dozen nodes, reply orders, delays and losses",
  "TestConnect stops after the protocol info of a single node; identification of several nodes, device lookup and endpoints are untested.",
  ["nodes/node.go", "nodes/protocol_info.go", "nodes/manufacurer_specific.go", "nodes/request_endpoints.go", "nodes/request_states.go", "connection.go", "database/commandclasses.go"],
  [("identification loop", "nodes/node.go Identify"), ("request/response matching", "connection.go")],
  ["exported node fields", "Node.ProtocolInfo"])

p("N03", "Sleeping nodes are left alone until they wake up",
  "During identification of a node whose protocol info says it does not listen, the library transmits an application command to it only after the node has sent a wake-up report since the previous identification step, at most one identification step per wake-up. A wake-up that arrives while a step is waiting for it always lets that step proceed; listening nodes are never made to wait.",
  ["schedules", "histories"], "all wake-up times relative to the identification steps, several sleeping and listening nodes together",
  "No test sends a wake-up report to a node or identifies beyond protocol info.",
  ["nodes/node.go"],
  [("awake channel", "nodes/node.go isAwake, ProcessEvent")],
  ["frames addressed to the node", "wake-up reports delivered"])

p("N04", "Node state equals the last report received from that node",
  "After any sequence of reports, each known node's on/off state, level and sensor values equal those carried by the last valid report of that kind received from that very node, in the order received, however close together reports arrive. Reports that say the value is unknown, undecodable reports, and reports from other or unknown nodes leave the node's state unchanged.",
  ["histories", "schedules", "inputs"], "all sequences of switch, multilevel and sensor reports from several nodes, any spacing including one read",
  "No test applies a report to a node.",
  ["controller.go", "nodes/node.go", "connection.go"],
  [("report delivery", "connection.go Reader reportCallback, controller.go DeliverReportToNode"), ("state update", "nodes/node.go ProcessEvent")],
  ["Node.StateBool, Node.StateFloat"])

p("N05", "Alarms are raised at once and fall back by themselves",
  "An alarm report with status 0xFF sets the node's alarm state to true at once, records its type as alarm value and as last alarm type when non-zero, and is announced by an update event; about one second later the alarm state is false and the alarm value 0 again, announced by another update event, while the last alarm type stays. While an alarm waits to fall back, reports of the same and other nodes are applied without delay, and alarm reports with another status change nothing.",
  ["histories", "schedules"], "all sequences of alarm and other reports with any spacing",
  "No test feeds an alarm to a node.",
  ["nodes/node.go", "controller.go", "connection.go"],
  [("alarm pulse", "nodes/node.go ProcessEvent")],
  ["Node.StateBool[alarm], Node.StateFloat[alarm, alarmLastType]", "GetNextEvent"])

p("N06", "The node list is linearizable and never blocks or corrupts",
  "Concurrent additions, lookups, listings and serialisations of the node list behave as if executed one at a time in an order consistent with real time; a listing is a snapshot the caller may read and change freely while other operations go on. No operation ever blocks forever or crashes, whatever else is running.",
  ["schedules", "histories"], "all interleavings of Add, Get, All and JSON encoding from many goroutines",
  "No test uses the list from more than one goroutine.",
  ["nodes/list.go"],
  [("list lock", "nodes/list.go")],
  ["results of List.Add, Get, All, MarshalJSON"],
  [dict(name="nodes", meaning="id to node map", where="nodes/list.go List")])

p("E01", "State changes are announced, and consumers never block the library",
  "Every change of a known node's state by a switch, multilevel, sensor or alarm report, and of what its identification finds out (protocol info, manufacturer ids, brand, product, description, endpoints), is followed by a node-updated event with that node's address, visible no earlier than the change, as long as no more than ten events are unread. No event names a node that is not in the list, events come out in the order they were raised, and when nobody reads events the library keeps processing traffic indefinitely.",
  ["schedules", "histories"], "all report and identification sequences, fast, slow and absent event consumers",
  "No test reads events.",
  ["controller.go", "nodes/node.go"],
  [("bounded non-blocking event queue", "controller.go pushEvent, GetNextEvent")],
  ["GetNextEvent channel"])

p("P01", "Saving and restoring a network loses nothing",
  "A controller restored from a file saved by another has exactly the same nodes with the same id, awake flag, manufacturer ids, brand, product, description, command classes, endpoints and recorded states, and its nodes and endpoints can be controlled and updated at once. Saving again without changes yields an equivalent file, also when somebody has damaged or removed the file meanwhile.",
  ["configurations", "inputs", "histories"], "all networks: any ids, strings, class sets, endpoints and states, including states containing any printable text and negative or fractional values",
  "No test saves or loads a configuration.",
  ["controller.go", "nodes/list.go", "nodes/node.go", "nodes/endpoints.go"],
  [("JSON encode/decode", "controller.go SaveConfigurationToFile, LoadConfigurationFromFile; nodes/list.go MarshalJSON, UnmarshalJSON")],
  ["Controller.Nodes after restore", "file content"])

p("P02", "A crash or failed write never destroys the saved network",
  "At every moment, and after the process is killed or a write fails at any point of saving, the configuration file holds either the complete previous or the complete new network, never an empty, truncated or mixed file. A save that could not store the network, for whatever reason (also because a value of a node cannot be written down), reports an error and leaves the file as it was, and later saves work again, also in a process that is started afterwards.",
  ["crash_points", "fault_sequences"], "kill or write failure at every file operation and every byte position of a save",
  "No test saves a configuration, let alone crashes while doing so.",
  ["controller.go"],
  [("file replacement", "controller.go SaveConfigurationToFile")],
  ["content of the file after kill/failed write, and from a concurrent reader"])

p("P03", "A damaged configuration file never prevents starting",
  "Whatever the configuration file contains (nothing, truncated or corrupted JSON, wrong types, missing or null members, or nothing at all because it does not exist), connecting still succeeds, never crashes then or later when reports, commands or discovery reach the restored nodes, and every node entry of a well-formed file is restored.",
  ["inputs", "crash_points"], "all file contents: every truncation of a saved file, random corruptions and structural mutations",
  "No test loads a configuration.",
  ["controller.go", "nodes/list.go", "nodes/node.go"],
  [("load before connecting", "controller.go LoadConfigurationFromFile")],
  ["process exit, Controller.Nodes"])

p("P04", "Changes reach the configuration file once things settle",
  "When a configuration file is used, then within eleven seconds after the last update event the file exists and contains the current network, with no save call needed, for any number of change bursts and idle periods; while updates keep coming less than ten seconds apart saving is postponed. Without a configuration file nothing is written anywhere.",
  ["histories", "schedules"], "all patterns of update bursts and pauses",
  "No test runs for ten seconds or uses a configuration file.",
  ["controller.go"],
  [("save debouncer", "controller.go pushEvent, saveDebouncer")],
  ["configuration file content with virtual time"])

p("R01", "A serial recording is a faithful, ordered log of all traffic",
  "The recorder's log decodes completely and lists every non-empty read and write in the order they happened per direction, each with exactly the bytes transferred, its direction, and a time not before the transfer completed, not after the call that made it returned and not before the previous row of that direction, no matter whether the caller reuses its buffers or the port is closed and opened again, also while others write, or cannot be opened again. The caller sees exactly the bytes, counts and errors of the port itself.",
  ["histories", "schedules", "inputs"], "all sequences of reads and writes of any size from concurrent reader and writer, buffer reuse, reopening",
  "TestWriteToLog logs a single row.",
  ["serialrecorder/serialrecorder.go", "serialrecorder/direction.go"],
  [("row queue and encoder", "serialrecorder/serialrecorder.go writeToLog, logWriter")],
  ["the log decoded with gob", "the peer side of a pseudo terminal"])

p("R02", "Converting a recording to hex loses no bytes",
  "The converter prints, for each direction, exactly the recorded bytes in recorded order, including the last ones; consecutive rows of one direction less than a millisecond apart are joined, rows a millisecond or more apart stay separate lines, lines are ordered by time, and the direction filters remove exactly the other direction.",
  ["inputs", "histories"], "all recordings",
  "The converter has no tests.",
  ["cmd/serialrecordingtohex/serialrecordingtohex.go"],
  [("row combiner", "cmd/serialrecordingtohex/serialrecordingtohex.go combine")],
  ["standard output of the program"])

p("D01", "Device lookup returns the device database's own entry",
  "For every manufacturer/type/product id listed in the device database sources, lookup with lower-case ids returns a device whose brand, label, description, ids, command classes (id, version, NIF and security flags, in order) and parameters (id, name, size, values) are those of the source entry (the first one listing that id, command classes of its first endpoint); every other id triple yields no device. Each lookup returns a fresh, independent device.",
  ["inputs"], "all 16-bit id triples: every listed one, and unlisted neighbours",
  "The database package has no tests.",
  ["database/devices.go", "generators/database/database.go", "database/types.go"],
  [("generated lookup", "database/devices.go New"), ("generator", "generators/database/database.go")],
  ["database.New result"])

p("D02", "Mandatory command classes follow the device class specification",
  "For every generic/specific device class pair in the specification list, the mandatory command classes are exactly those the list names for that device type, as far as the library knows the named class, in order; every other pair yields none. Lookups are deterministic, and what callers do with a result never changes later results.",
  ["inputs"], "all 65536 generic/specific pairs",
  "The database package has no tests.",
  ["database/mandatory.go", "database/commandclasses.go", "protocol/constants.go", "generators/commandclasses/commandclasses.go"],
  [("generated table", "database/mandatory.go"), ("lookup", "database/commandclasses.go")],
  ["database.GetMandatoryCommandClasses result"])

p("D03", "The database generators translate any source faithfully",
  "For any set of device description files and any specification list of the supported form with at least one device type, the generators produce code that compiles and whose lookups return exactly what the sources say (class names that the generator does not know are left out), whatever quotes, backslashes, line breaks or non-ASCII text labels contain and however many devices share ids, and the output does not depend on anything but the sources.",
  ["inputs", "programs"], "all source sets of the supported form",
  "The generator's test file does not compile, so nothing tests it.",
  ["generators/database/database.go", "generators/commandclasses/commandclasses.go"],
  [("template and escaping", "generators/database/database.go"), ("spec parser", "generators/commandclasses/commandclasses.go")],
  ["behaviour of the generated package"])

p("X01", "No data race or deadlock under concurrent use",
  "Using the library from many goroutines at once (controlling nodes and endpoints, looking nodes up and listing them, reading node fields under the node's lock and the connected flag under the connection's lock, waiting for responses, reading events, saving and serialising) while reports arrive, nodes are identified, responses time out and the port reconnects causes no data race, no fatal concurrent map access and no deadlock in the library.",
  ["schedules", "histories"], "all interleavings of the public operations with the library's own goroutines",
  "The test suite is not run under the race detector and uses one goroutine.",
  ["connection.go", "controller.go", "gozwave.go", "nodes/node.go", "nodes/list.go", "nodes/endpoints.go", "nodes/request_states.go", "nodes/request_endpoints.go"],
  [("connection, node and list locks", "connection.go, nodes/*.go")],
  ["Go race detector reports", "process exit", "progress in virtual time"])

p("X02", "Long operation accumulates nothing",
  "However long the library runs and whatever it has done before (requests that were answered, refused, cancelled, lost, answered too late or abandoned by their caller, control operations, reports, alarms, wake-ups, noise, unread events, port failures and failed openings, saves and failed saves, serialisations), once it is idle again nothing remains of it: the number of its goroutines, of open files and ports, and the memory it holds do not grow with the number of operations. A failed connect leaves nothing behind.",
  ["histories"], "all long histories of operations, failures and abandoned requests",
  "The test suite ends after a handful of operations and looks at no resource.",
  ["connection.go", "controller.go", "gozwave.go", "nodes/node.go"],
  [("requests in flight and their timers", "connection.go Writer, handleResult, timeoutWorker"), ("event and save goroutines", "controller.go pushEvent, saveDebouncer"), ("reconnecting", "gozwave.go ConnectWithCustomPortOpener")],
  ["goroutines with library frames", "live heap objects", "open files", "open ports"])

p("X03", "Long service wears nothing out",
  "However long the library has been running and however much it has done (tens of thousands of commands answered, refused, cancelled, lost or timed out, reports, alarms, port failures, saves, months of silence), everything goes on exactly as at the beginning: every command is transmitted unchanged exactly once (and once more per CAN), its caller gets the answer to this command or is released in time, every intact frame is acknowledged once, every report is applied and announced, alarms are raised and fall back after a second, a failed port is opened again after a second, and changes reach the configuration file.",
  ["histories"], "all long histories of commands, reports, alarms, port failures, saves and idle time",
  "The test suite ends after a handful of operations; counters, identifiers and timers never get far.",
  ["connection.go", "controller.go", "gozwave.go", "nodes/node.go"],
  [("requests in flight and their identifiers", "connection.go newSendPackage, Writer, Reader, timeoutWorker"), ("reconnecting", "gozwave.go ConnectWithCustomPortOpener"), ("alarms and events", "nodes/node.go ProcessEvent, controller.go pushEvent"), ("saving", "controller.go saveDebouncer")],
  ["bytes on the port", "answers of calls", "node state", "events", "configuration file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
