#!/usr/bin/env python3
"""The one source of the property list: writes properties.jsonl (and MANIFEST.json through manifest.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=None):
    anchors = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = [observe]
    anchors["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))


D = "knx_stack/decode/"
E = "knx_stack/encode/"
F = "knx_stack/definition/"
AT = F + "layer/network/address_table.py"
AS = F + "layer/transport/association_table.py"
GO = F + "layer/application/groupobject_table.py"
ST = "knx_stack/state.py"
LD = F + "layer/link/ldata.py"
DPT = "knx_stack/datapointtypes.py"
TREQ = D + "knxnet_ip/tunneling/req.py"
TACK = D + "knxnet_ip/tunneling/ack.py"
EREQ = E + "knxnet_ip/tunneling/req.py"
EACK = E + "knxnet_ip/tunneling/ack.py"
CORE = D + "knxnet_ip/core/"
ECORE = E + "knxnet_ip/core/"
CL = "knx_stack/client/"

prop("C01", "A group telegram reaches exactly the associated group objects",
     "Decoding a group telegram (read, response or write, received or confirmed) whose destination is in the address table yields exactly one message for every group object that is associated with that address and has a datapoint type, and no message for any other group object. A telegram for a group address that is not in the address table yields no message.",
     ["configurations", "inputs", "histories"],
     "every address table, association relation (addresses shared by several group objects, group objects with several addresses, addresses without group objects, group objects without datapoint type) reached by any history of table operations, and every destination and service",
     "Tests decode a handful of frames against one- or two-entry tables; wrong fan-out shows only with shared addresses, larger tables or after reconfiguration.",
     [D + "layer/transport/t_data_group/ind.py", D + "layer/transport/t_data_group/con.py", D + "layer/application/a_group_value.py", ST, AS, AT, GO],
     "group decode looks up TSAP by destination, then the ASAPs of the TSAP, then their datapoint types",
     [("address table", "sorted group addresses; position = TSAP"), ("association table", "group object -> ordered addresses"), ("group object table", "group object -> datapoint type")],
     "return value of decode_msg")

prop("C02", "Outgoing group messages go to the group object's sending address",
     "Encoding a group read or a group write for a group object produces a frame whose destination is the first associated address of that group object, in the order of association, among those it is still associated with. When the group object has no address, encoding fails with an error and yields no frame.",
     ["configurations", "histories", "inputs"],
     "every table configuration and history of associate/disassociate, every group object (known, unknown, without addresses), each group service",
     "Tests encode for one group object with one address; the sending address matters with several addresses, unsorted association order and after disassociations.",
     [E + "layer/network/n_data_group/encode.py", E + "layer/transport/t_data_group/encode.py", AS, AT, ST],
     "encoding resolves group object -> TSAPs -> addresses and takes the first",
     [("association table", "ordered addresses of each group object")], "octets returned by encode_msg")

prop("C03", "A group value survives the trip from sender to receiver",
     "For every datapoint type and value, decoding on a receiver the frame encoded by a sender, for an address associated on both sides with the same datapoint type, gives the receiver the same value. Values of datapoint types shorter than a byte travel in the low six bits of the application octet; all the others travel as one, two or four big-endian octets after it.",
     ["inputs", "configurations"],
     "every datapoint type the library defines, every raw value of one- and two-byte types and stratified values of four-byte types, every medium, write and response",
     "Tests check three or four example values of two datapoint types.",
     [E + "layer/application/a_group_value_write/encode.py", D + "layer/application/a_group_value.py", DPT, "knx_stack/msg.py"],
     "length class of the datapoint type decides where the value is put; decoding rebuilds it from the remaining octets",
     observe="octets of encode_msg, value of the decoded message")

prop("C04", "Each telegram is reported as the service and direction it carries",
     "A decoded group or property telegram is reported as a read, a response or a write exactly according to its application service, and as an indication or a confirmation exactly according to its link-layer message code. Telegrams with any other application service or message code yield no message.",
     ["inputs"],
     "all 256 message codes, all 1024 application service codes with all transport control values, for group and individual frames",
     "Tests cover one frame per supported service and no unsupported one.",
     [D + "cemi/msg_code.py", D + "layer/transport/t_data_group/ind.py", D + "layer/transport/t_data_group/con.py", D + "layer/transport/t_data_individual/ind.py", D + "layer/transport/t_data_individual/con.py", LD],
     "dispatch on message code, transport control and APCI", observe="types of the messages returned by decode_msg")

prop("C05", "Confirmations report whether the bus accepted the telegram",
     "Every confirmation message carries the status of the frame it was decoded from: positive when the frame's confirm flag is clear and negative when it is set, for each service and each group object the telegram reaches. No other bit of the control fields influences the reported status.",
     ["inputs", "configurations"],
     "all 256 values of the first control field (and of the second), all six confirmable services, any fan-out",
     "Tests decode confirmations with a single control byte value per service.",
     [LD, D + "layer/application/a_group_value_write/con.py", D + "layer/application/a_group_value_read/con.py", D + "layer/application/a_group_value_response/con.py", D + "layer/application/a_property_value_read/con.py", D + "layer/application/a_property_value_write/con.py", D + "layer/application/a_property_value_response/con.py"],
     "confirm flag of the first control octet copied to the message", observe="status field of confirmations")

prop("C06", "Every emitted frame is well formed for its medium",
     "Every frame produced by encoding a group or property message has consistent length fields and the fixed headers of its medium: a complete USB HID report with transfer protocol header for USB, a tunnelling request with connection header for KNXnet/IP, the bare link frame for TP. For the same message and tables the embedded link frame is identical on all media, carries a standard-frame control field, the right address type, and the message code of a request or an indication.",
     ["inputs", "configurations"],
     "every encodable message kind, datapoint type length, property data length 0..40, medium, channel and counter value",
     "Tests compare whole frames for a few fixed messages; length fields depend on payload size and medium.",
     [E + "usb_hid/report_header/packet_info.py", E + "usb_hid/report_body/usb_protocol_header/body_length.py", EREQ, E + "cemi/ldata/req.py", E + "cemi/ldata/ind.py", E + "layer/link/l_data/encode.py", E + "layer/network/n_data_individual/req.py"],
     "each layer prepends its header and computes lengths", observe="octets of encode_msg")

prop("C07", "Received content is independent of medium and of irrelevant frame fields",
     "The messages decoded from a link frame are the same whether it arrives in a USB report or in a KNXnet/IP tunnelling request, and do not depend on additional information, priority, repeat and acknowledge flags, hop count, padding after the report body or (for group telegrams) the source address.",
     ["inputs"],
     "every link frame of the supported services wrapped for both media, all values of the ignored fields, additional information of 0..20 octets, report padding up to 64 octets",
     "Tests use one wrapping per frame.",
     [D + "usb_hid/report_header/packet_info.py", D + "usb_hid/report_body/usb_protocol_header/body_length.py", D + "cemi/msg_code.py", TREQ, LD],
     "lengths delimit the body, additional information is skipped", observe="return value of decode_msg")

prop("C08", "Frames that are not for this stack deliver nothing and change nothing",
     "A frame with a foreign report identifier, a fragmented report, an unknown protocol, EMI or header identifier, an unsupported service, a broadcast or connection-oriented transport header, or a truncation before its application header never yields an application message: it is ignored or refused with an error. The tables, the sequence counters and the channel are left unchanged and later frames are handled normally.",
     ["inputs", "histories"],
     "every value of every header octet of USB and KNXnet/IP frames, every truncation length, followed by valid traffic",
     "Tests decode one invalid frame.",
     [D + "usb_hid/report_header/report_identifier.py", D + "usb_hid/report_header/packet_info.py", D + "usb_hid/report_body/usb_protocol_header/protocol_id.py", D + "usb_hid/report_body/usb_protocol_header/protocol_version.py", D + "usb_hid/report_body/usb_protocol_header/header_length.py", D + "cemi/emi_id.py", D + "knxnet_ip/header.py", D + "layer/link/l_data/ind.py"],
     "each header decoder checks its identifier and returns no message on mismatch", observe="return value of decode_msg, tables and session before and after")

prop("C09", "USB device feature reports are decoded to the state they announce",
     "A USB bus access server feature info or response report announcing the bus connection status or the active EMI type yields exactly one message stating connected or disconnected, respectively emi1, emi2 or cEMI, as encoded in the report. Any other feature service, feature identifier or value yields no message.",
     ["inputs"],
     "all feature service identifiers, feature identifiers and values, any padding",
     "Two example reports are tested.",
     [D + "usb_hid/report_body/usb_protocol_header/bus_access_server_feature/service_identifier.py", D + "usb_hid/report_body/usb_protocol_header/bus_access_server_feature/device_feature_info/feature_identifier.py"],
     "dispatch on service, manufacturer code, feature and value", observe="return value of decode_msg")

prop("C10", "Outgoing property requests carry exactly the requested property access",
     "Encoding a property read or write produces an individually addressed frame to the configured individual address that carries exactly the given object index, property id, number of elements and start index and, for a write, exactly the given data octets. It does not depend on the group tables.",
     ["inputs", "configurations"],
     "every object index and property id (8 bit), number of elements (4 bit), start index (12 bit), data of 0..40 octets, individual address (also after it was changed)",
     "Tests encode one read and one write.",
     [E + "layer/application/a_property_value_read/req.py", E + "layer/application/a_property_value_write/req.py", F + "layer/application/a_property_value.py", E + "layer/network/n_data_individual/req.py"],
     "property header packed in a 32 bit structure", observe="octets of encode_msg")

prop("C11", "Incoming property telegrams are delivered only if ours, with exact fields",
     "A property indication is delivered exactly when its source is the configured individual address, and a property confirmation exactly when its destination is the configured individual address, whatever group addresses are in use. The delivered message carries exactly the object index, property id, number of elements, start index and, for responses and writes, the data octets of the telegram.",
     ["inputs", "configurations"],
     "every source/destination, property header and data, individual addresses that are numerically equal to group addresses, individual address changed at run time",
     "Tests use one individual address and one header per service.",
     [D + "layer/transport/t_data_individual/ind.py", D + "layer/transport/t_data_individual/con.py", D + "layer/application/a_property_value.py"],
     "filter on the individual address, unpack the header", observe="return value of decode_msg")

prop("C12", "The address table stays sorted, duplicate free, bounded and invertible",
     "Built from distinct addresses and after any sequence of additions, removals, associations and disassociations, the address table is strictly ascending, holds at most its maximum number of addresses, and holds exactly the addresses added and not removed since. Access point n denotes the n-th address and 0 the individual address, and the two lookups are inverse to each other.",
     ["histories", "configurations"],
     "every history of table operations, table capacities down to zero, addresses over the whole 16 bit range including one equal to the individual address",
     "Tests do a few single operations on three-entry tables.",
     [AT, AS], "list sorted after each insertion; index lookup",
     [("group addresses", "sorted list"), ("maximum size", "bound")], "public table properties and lookups")

prop("C13", "The association relation is exactly what was associated and not disassociated",
     "After any history of operations each group object is associated with exactly the addresses associated and not since disassociated, in order of association, and both lookup directions (group object to access points, access point to group objects) agree with it. Disassociating an address from one group object leaves every other group object's associations and their traffic intact; the address leaves the address table with its last association.",
     ["histories"],
     "every history of associate and disassociate over several group objects and shared addresses, repeated associations, lists of addresses, interleaved with direct address table changes",
     "Tests never share an address between two group objects.",
     [AS, AT], "per group object lists plus a derived access point map",
     [("associations", "group object -> ordered list of addresses")], "public lookups of the association table")

prop("C14", "A failed table operation changes nothing",
     "When adding, removing, associating or disassociating fails (table full, address or group object unknown), the address table, all associations, all lookups and the handling of later traffic are as before the failed call, even if the call named several addresses.",
     ["histories", "fault_sequences"],
     "failures at every position of multi-address calls, at every table fill level, followed by further operations and traffic",
     "The only failing-operation test is a lookup beyond the table.",
     [AS, AT], "capacity and membership are checked before anything is modified", observe="public lookups after the exception")

prop("C15", "A free group object number is the smallest one not in use",
     "The free group object number offered by the association table is never one already known to it, and is the smallest non-negative such number, whatever the order in which group objects were associated.",
     ["histories"], "every set of group object numbers in every order of association, also after disassociations",
     "No test calls it.", [AS], "scan of the known group object numbers", observe="return value")

prop("C16", "Reconfiguration takes effect immediately and leaves no stale routing",
     "At any time sending and receiving behave as in a stack newly built with the current address table, associations, datapoint types and individual address, whatever sequence of changes and traffic led there; this includes changes made directly to the address table or to the group object table of a stack already in use.",
     ["histories", "schedules"],
     "every interleaving of table changes with traffic in both directions, on all media",
     "Tests configure once and never change tables between telegrams.",
     [ST, AS, AT, GO], "lookups are derived from the tables at each call",
     [("derived access point map", "must follow the tables")], "decode_msg/encode_msg results after each change")

prop("C17", "All notations of a group address denote the same address",
     "For every 16 bit group address the free, two-level (5/11 bit) and three-level (5/3/8 bit) notations convert to each other without loss, and addresses compare equal, hash equal and are found in tables exactly by numeric value whichever notation built them, a plain Address included. The text of an address shows it in all three notations.",
     ["inputs"], "all 65536 addresses, each notation, equality of pairs, lookup",
     "Three example addresses are tested.", ["knx_stack/address.py", AT],
     "overlaid bit structures", observe="attributes and equality of addresses")

prop("C18", "Tunnelled telegrams are delivered exactly once and in order",
     "With each accepted request acknowledged before the next one is decoded, every tunnelling request sent by the gateway is delivered exactly once and in order in spite of loss and repetition of requests and acknowledgements, at every value of the 8 bit counter including its wrap. A request with the expected counter is delivered and reported with no error, a repetition of the previous one is reported with no error and not delivered, any other is reported as a sequence error and not delivered.",
     ["fault_sequences", "histories", "inputs"],
     "all 65536 pairs of expected and received counter; all interleavings of sending, loss, repetition and acknowledgement within the model bounds, across the wrap",
     "Tests decode single requests with matching counters; none reaches the wrap.",
     [TREQ, EACK, ST], "receive counter compared with the request's counter",
     [("receive counter", "next counter expected from the gateway")], "decode_msg results over a session")

prop("C19", "Tunnelling acknowledgements name the request and channel they acknowledge",
     "The acknowledgement encoded for an accepted or repeated request carries that request's counter, the given status and the current channel, and accepting advances the expected counter by one modulo 256 exactly once, however often it is acknowledged. Nothing but acknowledging the expected counter changes the expected counter.",
     ["histories", "inputs", "fault_sequences"],
     "all pairs of expected and acknowledged counter, channels, statuses, repeated acknowledgements",
     "One acknowledgement frame is tested.",
     [EACK, E + "knxnet_ip/tunneling/connection_header.py"], "acknowledgement built from the session, counter advanced afterwards",
     [("receive counter", "next counter expected from the gateway"), ("channel", "communication channel id")], "octets of encode_msg and the public counter")

prop("C20", "The send counter advances once per positive ack of the current request",
     "Every outgoing tunnelling request carries the current send counter and channel; the send counter advances by one modulo 256 exactly when a positive acknowledgement for its current value is decoded. Stale, repeated, future or negative acknowledgements and all other traffic leave it unchanged, so a repeated request carries the same counter.",
     ["histories", "inputs", "fault_sequences"],
     "all pairs of current and acknowledged counter, all defined statuses, any interleaving of requests and acknowledgements, across the wrap",
     "One acknowledgement is decoded in tests.",
     [TACK, EREQ, ST, D + "knxnet_ip/header.py"], "send counter compared with the acknowledged counter",
     [("send counter", "counter of the current request")], "octets of encode_msg and the public counter")

prop("C21", "The channel is the one granted by the last accepted connection",
     "An accepted connect response makes its channel the session's channel, a positive disconnect response clears it, and refused, negative or unrelated responses leave it unchanged; every later tunnelling request, acknowledgement, connection state request and disconnect request carries exactly that channel.",
     ["histories", "inputs"], "every channel number, every response kind and status, any order of connects, refusals, disconnects and traffic",
     "Each response is decoded once, in isolation.",
     [CORE + "connect/res.py", CORE + "disconnect/res.py", F + "knxnet_ip/state.py", ECORE + "connectionstate/req.py", ECORE + "disconnect/req.py", E + "knxnet_ip/tunneling/connection_header.py"],
     "channel stored in the session", [("channel", "communication channel id, 0 when none")], "public channel attribute and octets of encode_msg")

prop("C22", "KNXnet/IP core services carry endpoints, addresses and statuses exactly",
     "Search, connect, connection state and disconnect requests are encoded with correct headers, lengths and exactly the given endpoint addresses and ports. Decoded search, connect, connection state and disconnect responses report exactly the address, port, individual address and status they contain, and no response for a service other than these.",
     ["inputs"], "all IPv4 addresses and ports (stratified over every octet value), all defined statuses, all service identifiers",
     "One frame per service is tested.",
     [ECORE + "connect/req.py", ECORE + "search/req.py", ECORE + "connectionstate/req.py", ECORE + "disconnect/req.py", ECORE + "hpai.py", CORE + "search/res.py", CORE + "connect/res.py", CORE + "connectionstate/res.py", CORE + "disconnect/res.py", F + "knxnet_ip/msg.py", D + "knxnet_ip/header.py"],
     "header, HPAI and connection data blocks", observe="octets and decoded fields")

prop("C23", "Results depend only on tables, session and frame: sessions are isolated",
     "Decoding or encoding depends only on the current tables, the session's own counters and channel and the given frame or message, not on what was encoded or decoded before. Several sessions sharing the same tables never influence each other, and neither encoding nor decoding changes the tables or the messages passed in.",
     ["histories", "schedules"], "any interleaving of encodes and decodes of different services on several sessions over shared tables",
     "Every test uses a fresh session for a single call.",
     [ST, F + "knxnet_ip/state.py", "knx_stack/__init__.py"], "per-session scratch fields overwritten by each call",
     [("session scratch", "last frame, last group object")], "decode_msg/encode_msg results")

prop("C24", "The tunnelling client connects before it sends, and only when granted",
     "On start the client sends one connect request with its own endpoints to the gateway; only when a connect response grants the connection does it become connected, restart both counters and send one connection state request on the granted channel. A refused, malformed or foreign response never makes it connected nor makes it send anything.",
     ["schedules", "fault_sequences", "histories"], "every order of grants, refusals, other datagrams and reconnections, all channels, stale counters, several clients of one program at once",
     "The client has no test.",
     [CL + "knxnet_ip.py", CORE + "connect/res.py"], "asyncio datagram protocol callbacks",
     [("connected", "a channel was granted")], "datagrams handed to the transport, connected flag")

prop("C25", "The tunnelling client sends its messages in order, once each, when connected",
     "Apart from acknowledging what it receives the client sends nothing but its connect request before it is connected; once connected it sends each configured message exactly once, in order, as tunnelling requests on the granted channel to the gateway, each with the send counter valid at that moment, and finishes.",
     ["schedules", "histories"], "any number of messages, any arrival time of grant and acknowledgements relative to the sending, lost or repeated acknowledgements, several clients of one program at once",
     "The client has no test.",
     [CL + "knxnet_ip.py", EREQ], "writer coroutine polling the connected flag", observe="datagrams handed to the transport, in virtual time")

prop("C26", "The tunnelling client acknowledges every acceptable request exactly once",
     "For each complete tunnelling request received with the expected counter or repeating the previous one the client sends exactly one positive acknowledgement with that request's counter and channel to the gateway, and for any other request or datagram none. With any gateway that repeats unacknowledged requests over a lossy duplicating network, every telegram is eventually accepted, none twice.",
     ["fault_sequences", "schedules", "histories"], "all interleavings of gateway sending, loss, duplication and client steps within the model bounds, at every counter phase including the wrap, several clients of one program at once",
     "The client has no test.",
     [CL + "knxnet_ip.py", TREQ, EACK], "datagram callback decodes and acknowledges",
     [("receive counter", "next expected counter")], "datagrams handed to the transport")

prop("C27", "The USB client exchanges complete lines with the daemon in order",
     "The USB client connects to the configured host and port, writes every configured message exactly once and in order as one newline-terminated hexadecimal line holding exactly the encoded report, and decodes each complete line it receives, in order and exactly once, however the byte stream is fragmented.",
     ["schedules", "inputs"], "any list of messages, any fragmentation and coalescing of incoming lines, any interleaving of reading and writing, several clients of one program at once",
     "The client has no test.",
     [CL + "usbhid.py"], "asyncio stream reader and writer tasks", observe="bytes written to the stream, frames decoded")

prop("C28", "Discovery asks the KNXnet/IP multicast group once and understands answers",
     "The discovery request service sends exactly one search request naming its own address and port to the KNXnet/IP multicast address and port when its connection is made and nothing else afterwards; the listening service decodes each answer to the address, port and individual address it announces and survives any sequence of datagrams it can decode.",
     ["inputs", "histories"], "any local address and port, any sequence of answers and foreign KNXnet/IP datagrams, several clients of one program at once",
     "Discovery has no test.",
     [CL + "knxnet_ip_discovery.py", ECORE + "search/req.py", CORE + "search/res.py"], "asyncio datagram protocol callbacks", observe="datagrams handed to the transport, logged decodes")

prop("C29", "Datapoint fields read and write exactly their own bits",
     "For every datapoint type and raw value each named field reads the bits the type's layout assigns to it, and setting a field stores the given value (or named value) there and leaves every other field's bits unchanged. A name that is not defined is refused and changes nothing.",
     ["inputs"], "every datapoint type, field, prior raw value (all for one-byte types, stratified for four-byte ones) and new value; any order of assignments",
     "Tests read or set one or two fields from one value.",
     [DPT], "bit structures overlaid with the raw value", [("raw value", "octets sent on the bus")], "public fields and value of datapoint types")

prop("C30", "Describing a datapoint and building it back gives the same datapoint",
     "For every datapoint type and every valid raw value the description gives the type's name and each public field's value (names for enumerated fields), and the factory builds from that description a datapoint of the same type in which every public field has the same value.",
     ["inputs"], "every datapoint type and valid raw value (all for one- and two-byte types, stratified for four-byte ones)",
     "Tests describe two datapoints and build two others.",
     [DPT], "introspection of the public fields; setters by name", observe="description tuples and rebuilt datapoints")

prop("C31", "16 bit floats decode exactly and encode to the nearest lower step",
     "Every 16 bit raw value decodes to 0.01 x signed mantissa x 2^exponent. Encoding a value between -671088.64 and 670760.96 gives a raw value that decodes, with the same sign, to the largest representable magnitude not above it at the smallest possible exponent, so representable values are encoded exactly; values a whole step or more beyond the range are refused and leave the datapoint unchanged.",
     ["inputs"], "all 65536 raw values; hundredths around every power of two, every exponent boundary, both signs, negative zero, random values over the whole range, out of range values",
     "About ten values are tested.",
     [DPT], "mantissa shifted until it fits eleven bits, two's complement for negatives", observe="encode, decode and raw value")

prop("C32", "32 bit floats are IEEE 754 single precision, big endian on the bus",
     "A 32 bit float datapoint decodes every finite raw value to exactly the IEEE 754 single precision number it denotes and encodes every finite number to the nearest single precision value, ties to even; on the bus its octets are sent most significant first.",
     ["inputs"], "stratified raw values (all exponents, both signs, boundary mantissas, subnormals) and numbers needing rounding",
     "Three values are decoded in tests, none encoded.",
     [DPT, E + "layer/application/a_group_value_write/encode.py"], "overlay of a C float with the raw value", observe="encode, decode and raw value, octets of encode_msg")

prop("C33", "Bus messages convert between text and octets without loss",
     "Any sequence of octets written as hexadecimal text in either case parses to exactly these octets and prints back as upper case text; consuming an octet, a 16 bit or a 32 bit number takes exactly the first one, two or four octets, most significant first, leaves the rest in order and does not alter the original message; the blocks of KNXnet/IP (endpoint, connection request and response, connection header) take eight or four octets and give the fields they denote; fewer octets than that are refused.",
     ["inputs"], "all octet values at all positions, messages of 0..64 octets, every sequence of consuming operations and blocks",
     "One message is consumed in tests.",
     ["knx_stack/msg.py"], "unions overlay octets, shorts and longs", observe="parsed octets, text, numbers")

prop("C34", "The daemon sends each bus report to every connected client, in order",
     "Each report read from the KNX USB device is written exactly once, as one line of two lower case hexadecimal digits per octet, to every client connected at that time (up to 64), in the order read and to nobody else. A client gets every report from the time it is accepted until it leaves or stops reading.",
     ["schedules", "histories", "inputs"], "any interleaving of connections, departures, client data and device reports, several events ready at once, any octets and report lengths up to 56",
     "The daemon has no test.",
     ["daemon/usbhid.c"], "select loop; list of client sockets", [("clients", "sockets of connected clients")], "writes to client sockets")

prop("C35", "The daemon forwards each valid client line to the device exactly once",
     "Each complete line of 1 to 56 hexadecimal octets a client sends results in exactly one write to the device of a 56 octet report that starts with these octets and is padded with zeros, in the order sent by that client, however the stream is split or coalesced. A line ends with a line feed, a carriage return or both. Empty, odd, overlong or non-hexadecimal lines write nothing to the device.",
     ["schedules", "inputs", "fault_sequences"], "any byte streams of several clients, any splitting into reads, any interleaving",
     "The daemon has no test.",
     ["daemon/usbhid.c"], "per client line assembly, hexadecimal parsing", [("partial lines", "octets of a line not complete yet, per client")], "writes to the device")

prop("C36", "A client's departure or failure never affects the daemon or other clients",
     "When a client disconnects, resets its connection, breaks off in the middle of a line, stops reading what it is sent, or a connection is aborted before being accepted, the daemon keeps running, closes the socket of a client which left once, and all other clients keep receiving every bus report and having their lines forwarded; a new client reusing the socket number starts afresh.",
     ["fault_sequences", "schedules"], "every fault (end of stream, read error, write error, broken pipe, full buffers, aborted accept) at every point of any interleaving with other clients and device reports",
     "The daemon has no test.",
     ["daemon/usbhid.c"], "client table cleaned up on read failure; signals", [("clients", "sockets of connected clients")], "writes, closes and survival of the process")

prop("C37", "Transport connect and disconnect requests go to the individual address",
     "A T_Connect or T_Disconnect request encoded for a session is a link frame to the individual address the device has at that time, with the individual address type and no application octet, whose transport octet is 80h for connect and 81h for disconnect, inside the headers of the session's medium; it depends on nothing sent, received or configured before except the individual address and the tunnelling counter.",
     ["inputs", "histories"], "any individual address, changed at any time; all media; any history of group messages, property messages, received telegrams and table operations",
     "One address on one medium is tested for connect, nothing reliable for disconnect.",
     [E + "layer/transport/t_connect/req.py", E + "layer/transport/t_disconnect/req.py", E + "layer/network/n_data_individual/req.py"],
     "encoders set the session's address type before the shared lower layers run", observe="octets of the encoders of the transport layer")

prop("C38", "The link frame view shows and changes exactly the frame's own fields",
     "The view of a link frame of at least nine octets gives the source, destination, address type, status, transport octet, service number, data bits and kind of transport data unit that the octets denote, and the octets after the header; setting one of its fields makes that field read back as set and changes no other bit. Fewer than nine octets are refused.",
     ["inputs", "histories"], "every value of each of the nine octets, random frames, every sequence of fields set (reserved transport octets have no kind; values which do not fit are out of scope)",
     "One frame is viewed and one written in tests.",
     ["knx_stack/definition/layer/link/ldata.py"], "bit structures in an order of their own", [("frame", "bits of the nine octets of the header")], "properties of L_Data")

prop("C39", "Tables and messages say what they hold",
     "The text of an address table, an association table or a group object table states exactly its current entries (addresses in all three notations at their access points, group objects with their names and addresses, datapoint types), the text of a session states its medium, tables and counters, and the text of an application message or a KNXnet/IP request, acknowledgement or response states exactly its kind, group object, status, property fields, endpoints and value.",
     ["inputs", "histories"], "any history of table operations including changes of the individual address; all message kinds with any field values",
     "A handful of tables and messages are printed in tests.",
     [F + "layer/transport/association_table.py", F + "layer/network/address_table.py", F + "layer/application/", "knx_stack/address.py", F + "knxnet_ip/core/"],
     "__repr__ of tables, addresses, group objects and messages", observe="str() of tables and messages")

prop("C40", "A group object is its number, whatever it is called",
     "Two group objects are equal, hash alike and stand for each other in every table operation, telegram and message exactly when their numbers are equal; names never influence what is stored, delivered or sent.",
     ["inputs", "histories"], "pairs of devices with the same history where the group objects of one carry changing names and those of the other none",
     "Equality of one named and one unnamed group object is tested.",
     [F + "layer/transport/association_table.py", F + "layer/application/groupobject_table.py", "knx_stack/state.py"],
     "equality and hash of ASAP; dictionaries keyed by it", [("tables", "addresses, associations, datapoint types")], "lookups, delivered messages and octets of the two devices")

prop("C41", "Delivered messages and encoded frames are values of their own",
     "What a decode or encode call returned stays as it was whatever is decoded, encoded or configured afterwards, and changing it, or the message a frame was encoded from, changes no other message or frame, past or future; the messages of one telegram share no value with each other.",
     ["histories", "inputs"], "random histories in which returned messages and frames are kept, changed and compared again at the end",
     "No test looks at a message twice.",
     [D + "layer/application/a_group_value.py", D + "layer/application/a_property_value.py", E + "cemi/", E + "layer/", E + "usb_hid/", E + "knxnet_ip/"],
     "a fresh datapoint per message, fresh octets per frame", [("returned values", "messages and frames a program holds")], "the values held, read again later")

prop("C42", "A session answers for its telegram and its group object from the current tables",
     "For the telegram and the group object a session holds, its lookups give exactly what the tables hold at that moment: the access point of the destination, the group objects reached and their datapoint types, the access points and addresses of the group object in order of association, its datapoint type and the device's individual address. The two counters of a session are kept modulo 256.",
     ["inputs", "histories"], "any telegram destination and group object, known or not, between any table operations, received and sent messages; several sessions of one device and of others",
     "One telegram and one group object on fixed tables are tested.",
     ["knx_stack/state.py", F + "layer/transport/association_table.py", F + "layer/application/groupobject_table.py"],
     "lookups delegated to the tables on every call", [("session", "telegram, group object, counters")], "get_tsap, get_asaps, get_asaps_and_dpts, get_tsaps, get_addresses, get_dpt, counters")

prop("C43", "A device's tables are changed by its table operations only",
     "Changing the lists and dictionaries a device was built from, or a list one of its lookups returned, changes no table; lists returned earlier stay as they were when the tables change; devices built from the same lists are independent, and taking away each address of the list a table shows leaves none.",
     ["histories", "inputs"], "random histories of table operations, changes of what the program passed in and of what lookups returned, of two devices built from the same objects (address objects themselves are not changed)",
     "No test keeps what it passed in or got.",
     [F + "layer/network/address_table.py", F + "layer/transport/association_table.py", F + "layer/application/groupobject_table.py"],
     "tables copy what they are given; lookups build new lists", [("tables", "addresses, associations, datapoint types")], "public lookups of the tables")

prop("C44", "A number is its parts, its octets and its text",
     "An octet and its nibbles, a 16 or 32 bit number and its octets (most significant first) and its upper case hexadecimal text always show the same value, whether it was made of its value or of its parts; giving it a value or one part shows in all of them and changes no other part; changing the octets it handed out does not change it.",
     ["inputs", "histories"], "every octet at every place of each kind of number, made and changed as a whole and by parts in any order",
     "One number of each kind is looked at in tests.",
     ["knx_stack/msg.py"], "unions overlay a value with structures of its parts", [("number", "value and parts in the same memory")], "value, parts, octets and text of a number")

prop("C45", "Sessions can be used at the same time from several threads",
     "Encoding and decoding in several threads at the same time, each thread using a session of its own, gives in each session the results, counters and channel which the same calls give one after the other, also when the sessions share the tables of one device (which no thread changes meanwhile) or the message objects they send; the tables and messages stay as they were, and every call returns.",
     ["schedules", "inputs"], "any interleaving, line by line or bytecode by bytecode, of encodes and decodes of any service on two to seven sessions of one or two devices",
     "No test uses threads.",
     ["knx_stack/__init__.py", ST, F + "layer/transport/association_table.py", F + "layer/application/groupobject_table.py"],
     "scratch fields belong to the session; lookups rebuild an index the sessions share", [("session scratch", "last frame, last group object"), ("index", "group objects by access point, shared by all sessions of a device")],
     "decode_msg/encode_msg results, counters, channel and public lookups of the tables")

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
