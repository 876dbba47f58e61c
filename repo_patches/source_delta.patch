From 071fb45d215f3dabed68e4a00dab50f45eb8cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 01/34] fix: decode_msg returns a list of messages for a
 tunnelling ack

---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..d18fe80 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            (result, _) = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From d74ebfc0962e2c28d126e948bd163762b033bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 02/34] fix: recognise a repeated tunnelling request when the
 counter wraps

---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From 227e324ad27f9970ef078c18cdd1334e425bd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 03/34] fix: acknowledge a repeated tunnelling request with its
 own counter

---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..487f1c7 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -17,16 +17,19 @@ def encode(
     >>> bus_msg
     06100421000A04000000
     """
+    sequence_counter = state.sequence_counter_remote
+    if (msg.sequence_counter + 1) % 256 == state.sequence_counter_remote:
+        sequence_counter = msg.sequence_counter  # ack of a repeated request
     new_msg = NetMsg(Short(value=Services.TUNNELING_ACK.value).octects)
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From 73a1bd0883ebe5cc0688d4a87f422d2096e59f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 04/34] fix: a negative tunnelling ack does not advance the
 send counter

---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index 30cf370..241ea2b 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -17,7 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     """
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
-    if state.sequence_counter_local == sequence_counter:
+    if (
+        state.sequence_counter_local == sequence_counter
+        and status == ErrorCodes.E_NO_ERROR
+    ):
         state.sequence_counter_local += 1
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
-- 
2.43.0


From 3bc1edf29a1eb042f7e1e307eca9e49680ac6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 05/34] fix: decode a connect response which refuses the
 connection without HPAI

---
 knx_stack/decode/knxnet_ip/core/connect/res.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/knxnet_ip/core/connect/res.py b/knx_stack/decode/knxnet_ip/core/connect/res.py
index 4b423ed..9ff50c9 100644
--- a/knx_stack/decode/knxnet_ip/core/connect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/connect/res.py
@@ -17,11 +17,12 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
-    (ip, port, body) = body.HPAI()
     if status.value == Status.E_NO_ERROR:
+        (ip, port, body) = body.HPAI()
         (tunnel_connection, individual_address, body) = body.CRD()
         state.communication_channel_id = communication_channel_id.value
-    else:
+    else:  # a refusal may carry neither HPAI nor CRD
+        (ip, port, _) = body.HPAI() if len(body) >= 8 else (None, None, body)
         individual_address = None
     result.append(
         Msg(
-- 
2.43.0


From a92e7a9568129d76a493cdfb6d83440aee166cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 06/34] fix: tunnelling client ignores refusals and restarts
 both counters on connection

---
 knx_stack/client/knxnet_ip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..ae3a13f 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -116,7 +116,11 @@ class Tunneling(asyncio.DatagramProtocol):
         )
         for res in responses:
             if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+                if res.status != knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR:
+                    self.logger.error("Connection refused: {}".format(res))
+                    continue
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From 9b72af95bbe63395030e577eaf5a5f3ac3ed7cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 07/34] fix: client start helpers work when imported, discovery
 uses its argument

---
 knx_stack/client/knxnet_ip.py           |  2 +-
 knx_stack/client/knxnet_ip_discovery.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index ae3a13f..fa94c40 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -157,7 +157,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
         ),
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..d358377 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,7 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
     )
@@ -152,7 +152,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
     )
@@ -169,12 +169,12 @@ if __name__ == "__main__":
 
     loop = asyncio.get_event_loop()
 
-    if len(sys.argv):
+    if len(sys.argv) > 1:
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From 80d2ff8f2c945a72145a137f38201542e58e924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 08/34] fix: adding a group address twice keeps a single table
 entry

---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..34d196b 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -132,7 +132,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From 4facf2e54a3ffb9a857e55ccad00a47663850ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 09/34] fix: a free ASAP value is never one already in use

---
 knx_stack/definition/layer/transport/association_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..14f29b0 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -159,8 +159,8 @@ class AssociationTable(object):
 
     def get_free_asap_value(self):
         asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
+        for e, value in enumerate(sorted(asap.value for asap in asaps)):
+            if e != value:
                 return e
         return len(asaps)
 
-- 
2.43.0


From 4bbad6e30863167d210d1cb85ba91793fc86f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 10/34] fix: ASAP lookups follow direct changes of the address
 table

---
 .../definition/layer/transport/association_table.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 14f29b0..192cf47 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -142,16 +142,17 @@ class AssociationTable(object):
             for address in self._asap_addresses[asap]
             if asap in self._asap_addresses
         ]
-        return tsaps
+        return [tsap for tsap in tsaps if tsap is not None]
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        self._rebuild_tsap_asaps()  # the address table could have been changed
+        return self._tsap_asaps.get(tsap, [])
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
         tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return self.get_asaps(tsap)
 
     @property
     def asaps(self):
@@ -175,6 +176,8 @@ class AssociationTable(object):
         for asap_, addresses in self._asap_addresses.items():
             for address_ in addresses:
                 tsap = self._address_table.get_tsap(address_)
+                if tsap is None:  # not in the address table any more
+                    continue
                 if tsap not in self._tsap_asaps:
                     self._tsap_asaps[tsap] = list()
                 self._tsap_asaps[tsap].append(asap_)
-- 
2.43.0


From 516ffc4396ad29fbbf2687acb92923de3b6d37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 11/34] fix: disassociating an ASAP keeps an address other
 ASAPs still use

---
 .../definition/layer/transport/association_table.py      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 192cf47..9f01853 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -203,9 +203,14 @@ class AssociationTable(object):
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
         for address in addresses:
-            if address != self.individual_address:
-                self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
+            still_used = any(
+                other == address and other is not self.individual_address
+                for others in self._asap_addresses.values()
+                for other in others
+            )
+            if address in self._address_table.addresses and not still_used:
+                self._address_table.remove(address)
 
         self._rebuild_tsap_asaps()
 
-- 
2.43.0


From 80519c4eab80b0fe1bde4048601216a29fe88363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 12/34] fix: a failed associate or disassociate changes no
 table

---
 .../layer/transport/association_table.py      | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 9f01853..40ab408 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -1,5 +1,6 @@
 from typing import Iterable
 from collections import namedtuple
+from knx_stack.definition.layer.network.address_table import AddressTableException
 
 Association = namedtuple("Association", ["asap", "address"])
 
@@ -185,23 +186,41 @@ class AssociationTable(object):
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
-        for address in addresses:
-            if (
-                address not in self._address_table.addresses
-                and address is not self.individual_address
-            ):
-                self._address_table.add(address)
+        addresses = list(dict.fromkeys(addresses))
+        new_addresses = [
+            address
+            for address in addresses
+            if address not in self._address_table.addresses
+            and address is not self.individual_address
+        ]
+        if (
+            len(self._address_table.addresses) + len(new_addresses)
+            > self._address_table.max_size
+        ):
+            raise AddressTableException(
+                "Max entries %d, not enough room inside address table"
+                % self._address_table.max_size
+            )
+        for address in new_addresses:
+            self._address_table.add(address)
 
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
         for address in addresses:
-            self._asap_addresses[asap].append(address)
+            if address not in self._asap_addresses[asap]:
+                self._asap_addresses[asap].append(address)
 
         self._rebuild_tsap_asaps()
 
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        addresses = list(dict.fromkeys(addresses))
+        for address in addresses:
+            if address not in self._asap_addresses[asap]:
+                raise ValueError(
+                    "{} is not associated with ASAP {}".format(address, asap)
+                )
         for address in addresses:
             self._asap_addresses[asap].remove(address)
             still_used = any(
-- 
2.43.0


From c2453ceeeff53e4396a5d3445acaa5160ef517ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 13/34] fix: decoding a group frame with an unknown transport
 control yields an empty list

---
 knx_stack/decode/layer/network/n_data_group/con.py | 1 +
 knx_stack/decode/layer/network/n_data_group/ind.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d4fc482 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -6,3 +6,4 @@ from knx_stack.decode.layer.transport.t_data_group import con
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
         return con.decode(state, msg)
+    return []
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..035dff4 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -6,3 +6,4 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
         return ind.decode(state, msg)
+    return []
-- 
2.43.0


From 341b06a2a0389290aba4725808f5215ff1d43eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 14/34] fix: encoding a negative zero as a 16 bits float is
 zero

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..c505311 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -686,6 +686,8 @@ class DPT_Float_16(Union):
             raise Exception("DPT_Float_16 number not representable")
 
         self.bits.exponent = exp
+        if mantissa == 0:
+            sign = 1  # there is just one zero
         if sign < 0:
             mantissa = (1 << 11) - mantissa
         self.bits.mantissa = mantissa
-- 
2.43.0


From 823d8f782df1ff672d246e721bd6689f9590f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 15/34] fix: DPT_Control_Dimming is a 4 bits datapoint type

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index c505311..2871bfe 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -356,6 +356,8 @@ class DPT_Control_Dimming(Union, DPT):
     7
     """
 
+    length = DPT.Length.LESS_THAN_A_BYTE
+
     class Direction(IntEnum):
         down = (0x00,)
         up = (0x01,)
-- 
2.43.0


From bf65336c79bc60fede2cd0c825da210aa97e35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 16/34] fix: property confirmations when a group address has
 the same number of the individual address

---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..ffb1e4b 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,8 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if state.ldata.destination == state.individual_address.free_style:
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From 3739694b39a721e5db47934cdfae8f29ec04b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 17/34] fix: encode an L_Data.ind for the state's medium

---
 knx_stack/encode/cemi/ldata/ind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/cemi/ldata/ind.py b/knx_stack/encode/cemi/ldata/ind.py
index 719c12f..d2fa917 100644
--- a/knx_stack/encode/cemi/ldata/ind.py
+++ b/knx_stack/encode/cemi/ldata/ind.py
@@ -1,5 +1,6 @@
-from knx_stack import Octect, Msg
+from knx_stack import Medium, Octect, Msg
 from knx_stack.definition.cemi import MessageCode
+from knx_stack.encode.knxnet_ip import tunneling
 from knx_stack.encode.usb_hid import emi_id
 
 
@@ -7,5 +8,10 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     message_code = Octect(value=MessageCode.L_Data_ind)
     additional_info_length = Octect(value=0)
     new_msg = Msg([message_code, additional_info_length] + msg)
-    final_msg = emi_id.encode(state, new_msg)
+    if state.medium == Medium.usb_hid:
+        final_msg = emi_id.encode(state, new_msg)
+    elif state.medium == Medium.knxnet_ip:
+        final_msg = tunneling.req.encode(state, new_msg)
+    else:
+        final_msg = new_msg
     return final_msg
-- 
2.43.0


From 79304785f1714353893f06e5702e4d8d5101a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 18/34] fix: refuse to encode a group message for an ASAP
 without addresses

---
 knx_stack/encode/layer/network/n_data_group/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/encode/layer/network/n_data_group/encode.py b/knx_stack/encode/layer/network/n_data_group/encode.py
index b16d3e5..ec1178a 100644
--- a/knx_stack/encode/layer/network/n_data_group/encode.py
+++ b/knx_stack/encode/layer/network/n_data_group/encode.py
@@ -8,4 +8,6 @@ def nl_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg"
         destination = Short(value=address.free_style)
         new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
         break  # just the first address is the encodeing address...
+    else:
+        raise ValueError("ASAP {} has no group address".format(state.asap))
     return new_msg
-- 
2.43.0


From d81f0cc72a4ff4ea4d2a5200cc71205077dd73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 19/34] fix: the smallest 16 bits float can be encoded

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 2871bfe..fa33cb3 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -680,6 +680,8 @@ class DPT_Float_16(Union):
         exp = 0
         max_mantissa_value = (1 << 11) - 1
         max_exp_value = (1 << 4) - 1
+        if sign < 0:
+            max_mantissa_value += 1  # two's complement
 
         while mantissa > max_mantissa_value:
             mantissa >>= 1
-- 
2.43.0


From 50bca73a2ff931920aa33575b4aa90eb3094f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 20/34] fix: daemon is not killed when writing to a client
 which went away

---
 daemon/usbhid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..c049370 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <errno.h>
 #include <getopt.h>
+#include <signal.h>
 #include <stdlib.h>
 #include <unistd.h>
 #include <string.h>
@@ -209,6 +210,8 @@ int main(int argc, char *argv[]) {
 		}
 	}
 
+	signal(SIGPIPE, SIG_IGN);
+
 	sock = make_socket((uint16_t) DEFAULT_PORT);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
-- 
2.43.0


From 7fc39c9f05605dc03ecd19ea20014a6bb47521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 21/34] fix: daemon survives a connection aborted before being
 accepted

---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index c049370..a8c6d45 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -246,7 +246,7 @@ int main(int argc, char *argv[]) {
 							&len);
 					if (new_client < 0) {
 						perror("accept");
-						exit(EXIT_FAILURE);
+						continue;
 					}
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
-- 
2.43.0


From db942f48bf0d5c1c9f474bf0ea44ab1de17d2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 22/34] fix: daemon forwards each complete client line once,
 zero padded, and drops invalid ones

---
 daemon/usbhid.c | 57 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index a8c6d45..99c6598 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -29,7 +30,8 @@ int make_socket(uint16_t port);
 void init_sockaddr (struct sockaddr_in *name,
 		const char *hostname,
 		uint16_t port);
-int read_from_client(int filedes, unsigned char *packet);
+int packet_from_line(char *line, int len, unsigned char *packet);
+int read_from_client(int filedes, int fd_cemi);
 int write_to_client(int filedes, unsigned char *packet, int len);
 
 int open_knx_cemi(char *hidraw) {
@@ -128,31 +130,47 @@ void init_sockaddr (struct sockaddr_in *name,
 	name->sin_addr = *(struct in_addr *)hostinfo->h_addr;
 }
 
-int read_from_client(int filedes, unsigned char *packet) {
+static char lines[FD_SETSIZE][KNXHIDPACKETLEN * 2 + 1];
+static int line_lens[FD_SETSIZE];
+
+int packet_from_line(char *line, int len, unsigned char *packet) {
+	int i;
+
+	if (len == 0 || len > KNXHIDPACKETLEN * 2 || (len % 2) != 0) {
+		return 0;
+	}
+	memset(packet, 0, KNXHIDPACKETLEN);
+	for (i = 0; i < len / 2; i++) {
+		if (!isxdigit((unsigned char) line[i * 2]) || !isxdigit((unsigned char) line[i * 2 + 1])
+				|| sscanf(&line[i * 2], "%2hhx", &packet[i]) != 1) {
+			return 0;
+		}
+	}
+	fprintf(stderr, "Server: got message %.*s len %d\n", len, line, len);
+	return i;
+}
+
+int read_from_client(int filedes, int fd_cemi) {
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
+	char buffer[MAXMSG];
+	unsigned char packet[KNXHIDPACKETLEN];
 
-	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
+	nbytes = read(filedes, buffer, MAXMSG);
 	if (nbytes < 0) {
 		perror("read");
 		return -1;
 	} else if (nbytes == 0)
 		return -1;
 	else {
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if ((nbytes % 2) != 0) {
-			return 0;
-		}
-		for (i = 0; i < nbytes / 2; i++) {
-			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
-				return 0;
-			}
+		for (i = 0; i < nbytes; i++) {
+			if (buffer[i] == '\n' || buffer[i] == '\r') {
+				if (packet_from_line(lines[filedes], line_lens[filedes], packet) > 0)
+					write_to_knx_cemi(fd_cemi, packet);
+				line_lens[filedes] = 0;
+			} else if (line_lens[filedes] <= KNXHIDPACKETLEN * 2)
+				lines[filedes][line_lens[filedes]++] = buffer[i];
 		}
-		fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
-		return i;
+		return nbytes;
 	}
 }
 
@@ -266,9 +284,8 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
-						write_to_knx_cemi(fd_cemi, packet);
-					} else {
+					if (read_from_client(i, fd_cemi) < 0) {
+						line_lens[i] = 0;
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 6b904654e218b73f6ce6e4201307c9d3df4888df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 23/34] fix: a telegram with an unnamed field value can be
 decoded and described

---
 knx_stack/datapointtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index fa33cb3..44bc1f8 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -76,7 +76,10 @@ class Description_Factory(object):
             ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
         )
         for name in fields:
-            field = dpt.__getattribute__(name)
+            try:
+                field = dpt.__getattribute__(name)
+            except ValueError:  # a value without a name
+                field = getattr(dpt.bits, name)
             if isinstance(field, IntEnum):
                 description[name] = field.name
             else:
-- 
2.43.0


From 6f9deb03f86b6c334febc46a376faccf9f26075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 24/34] fix: USB client keeps reading after a line it cannot
 decode

---
 knx_stack/client/usbhid.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 5d7e748..4f32235 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -86,16 +86,21 @@ class Client(object):
     async def _knx_read(self):
         while True:
             msg = await self._read()
-            octects_msg = knx_stack.Msg.make_from_str(msg)
-            data = knx_stack.decode_msg(self._state, octects_msg)
-            self.logger.error("read {}".format(data))
+            if not msg.endswith("\n"):  # end of stream
+                break
+            try:
+                octects_msg = knx_stack.Msg.make_from_str(msg[0:-1])
+                data = knx_stack.decode_msg(self._state, octects_msg)
+                self.logger.error("read {}".format(data))
+            except (IndexError, ValueError):
+                self.logger.exception("discarded {}".format(msg))
 
     def _write(self, msg):
         self.wsock.write(msg.encode())
 
     async def _read(self):
         msg = await self.rsock.readline()
-        return msg.decode()[0:-1]
+        return msg.decode()
 
     def run(self):
         self.loop.run_forever()
-- 
2.43.0


From da93627643f3e1205c935c91854976fd97d11191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 25/34] fix: a group address with the value of the individual
 address is not taken for it, and group object 0 follows the individual
 address

---
 .../layer/transport/association_table.py      | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 40ab408..f1f2644 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,11 +121,10 @@ class AssociationTable(object):
         associations: Iterable["Association"] = None,
     ):
         self._address_table = address_table
+        self._individual_address = self._address_table.individual_address
         self._asap_addresses = dict()
         self._tsap_asaps = dict()
-        self.associate(
-            ASAP(0, "individual address"), [self._address_table.individual_address]
-        )
+        self.associate(ASAP(0, "individual address"), [self._individual_address])
         if associations:
             for association in associations:
                 self.associate(association.asap, [association.address])
@@ -134,12 +133,30 @@ class AssociationTable(object):
     def individual_address(self) -> "knx_stack.Address":
         return self._address_table.individual_address
 
+    def _follow_individual_address(self):
+        """The individual address of the address table could have been changed"""
+        former = self._individual_address
+        if former is not self.individual_address:
+            self._individual_address = self.individual_address
+            asap = ASAP(0)
+            self._asap_addresses[asap] = [
+                self._individual_address if address is former else address
+                for address in self._asap_addresses[asap]
+            ]
+
+    def _get_associated_tsap(self, address):
+        """TSAP 0 is the individual address, not a group address with the same value"""
+        if address is self._individual_address:
+            return 0
+        return self._address_table.get_tsap(address) or None
+
     def get_tsap(self, address: "knx_stack.GroupAddress") -> int:
         return self._address_table.get_tsap(address)
 
     def get_tsaps(self, asap: "knx_stack.ASAP") -> Iterable[int]:
+        self._follow_individual_address()
         tsaps = [
-            self.get_tsap(address)
+            self._get_associated_tsap(address)
             for address in self._asap_addresses[asap]
             if asap in self._asap_addresses
         ]
@@ -173,10 +190,11 @@ class AssociationTable(object):
         return addresses
 
     def _rebuild_tsap_asaps(self):
+        self._follow_individual_address()
         self._tsap_asaps = dict()
         for asap_, addresses in self._asap_addresses.items():
             for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
+                tsap = self._get_associated_tsap(address_)
                 if tsap is None:  # not in the address table any more
                     continue
                 if tsap not in self._tsap_asaps:
@@ -215,6 +233,7 @@ class AssociationTable(object):
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        self._follow_individual_address()
         addresses = list(dict.fromkeys(addresses))
         for address in addresses:
             if address not in self._asap_addresses[asap]:
-- 
2.43.0


From 83eab135ddab5b6ab3efe4990a591f870df7a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 26/34] fix: the USB client goes on reading after a line which
 is not UTF-8

---
 knx_stack/client/usbhid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 4f32235..0db47b4 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -100,7 +100,7 @@ class Client(object):
 
     async def _read(self):
         msg = await self.rsock.readline()
-        return msg.decode()
+        return msg.decode(errors="replace")
 
     def run(self):
         self.loop.run_forever()
-- 
2.43.0


From 45c4f879e1f82535619343707765d0002fc82eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 27/34] fix: T_Connect and T_Disconnect PDUs are not connected
 data

---
 knx_stack/definition/layer/link/ldata.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..d372a18 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -257,12 +257,6 @@ class L_Data(LittleEndianStructure):
             and self._tpci.bits.numbered == 1
         ):
             pdu = NSDU.T_Data_Connected_PDU
-        elif (
-            self._cntrl2.bits.address_type == AddressType.individual
-            and self._tpci.bits.control_flag == 1
-            and self._tpci.bits.numbered == 0
-        ):
-            pdu = NSDU.T_Data_Connected_PDU
         elif (
             self._cntrl2.bits.address_type == AddressType.individual
             and self._tpci.bits.control_flag == 1
-- 
2.43.0


From fe25ca64384c3d3916a23d19d01f16bf174c6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 28/34] fix: the association table's text shows the current
 individual address

---
 knx_stack/definition/layer/transport/association_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f1f2644..ee00985 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -253,6 +253,7 @@ class AssociationTable(object):
         self._rebuild_tsap_asaps()
 
     def __repr__(self, *args, **kwargs):
+        self._follow_individual_address()
         s = "AssociationTable: asap -> addresses\n"
         for asap, addresses in self._asap_addresses.items():
             s += "    {} -> {}\n".format(asap, addresses)
-- 
2.43.0


From 2ef7237d43ab762ebe94a363cc3afefd46aef407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 29/34] fix: a group object table keeps associations of its own

---
 knx_stack/definition/layer/application/groupobject_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/application/groupobject_table.py b/knx_stack/definition/layer/application/groupobject_table.py
index 831e651..1f4a836 100644
--- a/knx_stack/definition/layer/application/groupobject_table.py
+++ b/knx_stack/definition/layer/application/groupobject_table.py
@@ -22,7 +22,7 @@ class GroupObjectTable:
 
     def __init__(self, associations: Dict = None):
         if associations:
-            self._associations = associations
+            self._associations = dict(associations)
         else:
             self._associations = {}
 
-- 
2.43.0


From c1480a726d6882163857183ff7f31d61c08d0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 30/34] fix: the listed addresses are not the address table's
 own list

---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index 34d196b..0ab8357 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -108,7 +108,7 @@ class AddressTable(object):
 
     @property
     def addresses(self) -> Iterable["knx_stack.GroupAddress"]:
-        return self._group_addresses
+        return list(self._group_addresses)
 
     def get_address(self, tsap: int) -> int:
         if tsap >= 1:
-- 
2.43.0


From 319cd16a3daadfd8ece8b60328cb602c70c55662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 31/34] fix: a message too long for the length octet of a link
 frame is refused

---
 knx_stack/encode/layer/network/n_data_individual/req.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/encode/layer/network/n_data_individual/req.py b/knx_stack/encode/layer/network/n_data_individual/req.py
index 9602457..be9c4bb 100644
--- a/knx_stack/encode/layer/network/n_data_individual/req.py
+++ b/knx_stack/encode/layer/network/n_data_individual/req.py
@@ -3,6 +3,8 @@ from knx_stack.encode.layer.link import l_data
 
 
 def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
+    if len(msg) - 1 > 0xFF:
+        raise ValueError("message too long for a link frame")
     npdu_length = Octect(value=(len(msg) - 1))
     destination = Short(value=state.individual_address.free_style)
     new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-- 
2.43.0


From 4b3218842d104b7d45b5163773d98ca1119420fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:12 +0000
Subject: [PATCH 32/34] fix: a message too long for the length octet of a USB
 report is refused

---
 knx_stack/encode/usb_hid/report_header/packet_info.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/encode/usb_hid/report_header/packet_info.py b/knx_stack/encode/usb_hid/report_header/packet_info.py
index 2fed6d7..c989baf 100644
--- a/knx_stack/encode/usb_hid/report_header/packet_info.py
+++ b/knx_stack/encode/usb_hid/report_header/packet_info.py
@@ -7,6 +7,8 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     sequence_number = 1
     packet_type = PacketType.allInOnePacket
     packet_info = Octect(Nibbles(high=sequence_number, low=packet_type))
+    if len(msg) > 0xFF:
+        raise ValueError("message too long for a report")
     data_length = Octect(value=len(msg))
     new_msg = Msg([packet_info, data_length] + msg)
     final_msg = report_identifier.encode(state, new_msg)
-- 
2.43.0


From c5fd6482e9f4ff85329feb3119499a710f326e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:12 +0000
Subject: [PATCH 33/34] fix: a client which does not read stopped the daemon
 for all of them

Writing to a client whose buffers are full blocked: no report reached any
client and no line the device until it read again. Such a client is now
disconnected.
---
 daemon/usbhid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 99c6598..e641074 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -182,7 +182,8 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	if (send(filedes, buffer, len * 2 + 1, MSG_DONTWAIT) != len * 2 + 1)
+		shutdown(filedes, SHUT_RDWR); /* it does not read (or left): see read_from_client */
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From c8e584a9ad712134ef85d31366d30843b12305b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:02 +0000
Subject: [PATCH 34/34] fix: a telegram decoded in one thread was lost while
 another thread looked up its own

---
 .../definition/layer/transport/association_table.py      | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index ee00985..235b17a 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -191,15 +191,16 @@ class AssociationTable(object):
 
     def _rebuild_tsap_asaps(self):
         self._follow_individual_address()
-        self._tsap_asaps = dict()
+        tsap_asaps = dict()
         for asap_, addresses in self._asap_addresses.items():
             for address_ in addresses:
                 tsap = self._get_associated_tsap(address_)
                 if tsap is None:  # not in the address table any more
                     continue
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
+                if tsap not in tsap_asaps:
+                    tsap_asaps[tsap] = list()
+                tsap_asaps[tsap].append(asap_)
+        self._tsap_asaps = tsap_asaps
 
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
-- 
2.43.0

