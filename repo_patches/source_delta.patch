From 837f60f2f0e7e12ba0d4359cc3e6e308d1ba6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 01/52] fix: do not lose an ack arriving as the wait times out
 and always release its id

---
 pyzwave/adapter.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 4a6e05f..8ce4caf 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -54,12 +54,16 @@ class Ack:
 
     async def wait(self, timeout):
         """Wait until the node ack the message"""
-        await asyncio.wait_for(self._event.wait(), timeout)
-        # Message was queued for a sleeping node.
-        # Wait longer!
-        while self._status == Ack.Status.QUEUED:
+        while self._status != Ack.Status.RECEIVED:
+            try:
+                await asyncio.wait_for(self._event.wait(), timeout)
+            except asyncio.TimeoutError:
+                if not self._event.is_set():
+                    raise
+                # Signalled in the same instant as the timeout. The signal wins.
+            # If the message was queued for a sleeping node we must wait longer!
             self._event.clear()
-            await asyncio.wait_for(self._event.wait(), self._expectedDelay)
+            timeout = self._expectedDelay
 
 
 class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
@@ -233,5 +237,8 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
             await ack.wait(timeout)
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout waiting for response for ack %s", ackId)
-            del self._ackQueue[ackId]
             raise
+        finally:
+            # Release the id in any case, also if we are cancelled
+            if self._ackQueue.get(ackId) is ack:
+                del self._ackQueue[ackId]
-- 
2.43.0


From c8fcf8308981b4cd31b10d70aee61e0251a973da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 02/52] fix: never reuse the sequence number of a command still
 waiting for its ack

---
 pyzwave/zipconnection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index 4643208..e25f66f 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -138,7 +138,13 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
-        self._seq = (self._seq + 1) & 0xFF
+        for _ in range(256):
+            self._seq = (self._seq + 1) & 0xFF
+            if self._seq not in self._ackQueue:
+                break
+        else:
+            _LOGGER.error("All sequence numbers are waiting for an ack")
+            return False
         msg = Zip.ZipPacket(
             ackRequest=True,
             ackResponse=False,
-- 
2.43.0


From 7311d63fa6886432d16031a1f1e64c1c6c143597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 03/52] fix: waiting notice without header extension must not
 raise

---
 pyzwave/commandclass/Zip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 2dfcefb..52e90d3 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -208,6 +208,10 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         return retval
 
 
+# Packets without any header extension must also be able to tell the expected delay
+HeaderExtension.default = HeaderExtension()
+
+
 @ZWaveMessage(COMMAND_CLASS_ZIP, COMMAND_ZIP_KEEP_ALIVE)
 class ZipKeepAlive(Message):
     """
-- 
2.43.0


From 9b0cc670c9b47131316c9bcb52e24bc40c3ef2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 04/52] fix: keep concurrent waiting requests apart and never
 lose an early response

---
 pyzwave/adapter.py |  7 +++++--
 pyzwave/node.py    | 15 +++++++++------
 pyzwave/util.py    | 45 ++++++++++++++++++++++++++++++---------------
 3 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index 8ce4caf..b6fce0a 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -215,8 +215,11 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
     ) -> Message:
         """Send a message and wait for the response"""
         session = self.addWaitingSession(waitFor)
-        await self.send(cmd, **kwargs)
-        return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        try:
+            await self.send(cmd, **kwargs)
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            session.cancel()
 
     @abc.abstractmethod
     async def setNodeInfo(self, generic, specific, cmdClasses):
diff --git a/pyzwave/node.py b/pyzwave/node.py
index c75c56c..b80306d 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -244,12 +244,15 @@ class Node(Listenable, MessageWaiter):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        self.addWaitingSession(waitFor)
-        retval = await self.send(cmd, **kwargs)
-        if not retval:
-            # Node did not wakeup in time!
-            raise asyncio.TimeoutError()
-        return await self.waitForMessage(waitFor, timeout=timeout)
+        session = self.addWaitingSession(waitFor)
+        try:
+            retval = await self.send(cmd, **kwargs)
+            if not retval:
+                # Node did not wakeup in time!
+                raise asyncio.TimeoutError()
+            return await self.waitForMessage(waitFor, session=session, timeout=timeout)
+        finally:
+            session.cancel()
 
     @contextmanager
     def storageLock(self):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index b90edd0..60c2219 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -169,35 +169,50 @@ class MessageWaiter:
         super().__init__()
         self._sessions = {}
 
-    def addWaitingSession(self, msgType):
+    def addWaitingSession(self, msgType, accept=None):
         """
         Setup the session to wait for _before_ doing the wait. Do this to avoid
-        a race condition where the message is received before we wait for it
+        a race condition where the message is received before we wait for it.
+
+        :param accept: Optional callable deciding if a received message is the awaited one.
         """
         hid = msgType.hid()
-        session = self._sessions.get(hid, None)
-        if not session:
-            session = asyncio.get_event_loop().create_future()
-            self._sessions[hid] = session
+        session = asyncio.get_event_loop().create_future()
+        sessions = self._sessions.setdefault(hid, [])
+        sessions.append((session, accept))
+
+        def release(_session):
+            # Each caller only removes its own session
+            sessions.remove((session, accept))
+            if not sessions and self._sessions.get(hid) is sessions:
+                del self._sessions[hid]
+
+        session.add_done_callback(release)
         return session
 
     def messageReceived(self, message) -> bool:
         """Called when a message is received directed to this node"""
-        session = self._sessions.pop(message.hid(), None)
-        if session:
+        handled = False
+        for session, accept in list(self._sessions.get(message.hid(), [])):
+            if session.done() or (accept and not accept(message)):
+                continue
             session.set_result(message)
-            return True
-        return False
+            handled = True
+        return handled
 
-    async def waitForMessage(self, msgType, timeout: int = 3, session=None):
+    async def waitForMessage(
+        self, msgType, timeout: int = 3, session=None, accept=None
+    ):
         """Async method for waiting for a specific message to arrive from the node."""
         if not session:
-            session = self.addWaitingSession(msgType)
+            session = self.addWaitingSession(msgType, accept)
         try:
             await asyncio.wait_for(session, timeout)
         except asyncio.TimeoutError:
-            _LOGGER.warning("Timeout waiting for message %s", msgType)
-            raise
+            if not session.done() or session.cancelled():
+                _LOGGER.warning("Timeout waiting for message %s", msgType)
+                raise
+            # The message arrived in the same instant as the timeout.
         finally:
-            self._sessions.pop(msgType.hid(), None)
+            session.cancel()
         return session.result()
-- 
2.43.0


From 06ade0f59a8b9fd8d30c5622d7e011218de8f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 05/52] fix: packets without a command or of undecodable
 content must not raise

---
 pyzwave/zipconnection.py | 2 +-
 pyzwave/zipgateway.py    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index e25f66f..ddce723 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -99,7 +99,7 @@ class ZIPConnection(Adapter):
             if zipPkt.ackRequest:
                 _LOGGER.error("This message needs an ack response. Not implemented")
                 return False
-            if zipPkt.zwCmdIncluded:
+            if zipPkt.zwCmdIncluded and zipPkt.command is not None:
                 self.commandReceived(zipPkt)
         elif isinstance(zipPkt, Zip.ZipKeepAlive):
             if zipPkt.ackResponse:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index d8f5b11..49707d6 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -263,7 +263,14 @@ class ZIPGateway(ZIPConnection):
         Called when an unsolicited message is received.
         We do not know the node id the message is from. Only the ip address.
         """
-        zipPkt = Message.decode(pkt)
+        try:
+            zipPkt = Message.decode(pkt)
+        except Exception:
+            _LOGGER.error("Could not decode unsolicited message: %s", pkt)
+            return False
+        if not isinstance(zipPkt, Zip.ZipPacket) or zipPkt.command is None:
+            _LOGGER.warning("Ignoring unsolicited message %s", zipPkt)
+            return False
         sourceIp = ipaddress.IPv6Address(address[0])
         sourceEP = zipPkt.sourceEP
 
-- 
2.43.0


From 6b564431115e328f8928c033fca4592634407700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 06/52] fix: refuse lengths pointing outside the data instead
 of misreading it

---
 pyzwave/commandclass/AssociationGrpInfo.py         | 3 ++-
 pyzwave/commandclass/NetworkManagementInclusion.py | 2 +-
 pyzwave/types.py                                   | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 8355033..f054ba7 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -135,7 +135,8 @@ class GroupInfoReport(Message):
         retval = []
         for _ in range(int(self.groupCount)):
             grp = GroupInfoGroupType()
-            grp.parseAttributes(stream)
+            # Each group is 7 bytes, refuse reports with missing groups
+            grp.parseAttributes(BitStreamReader(stream.value(7)))
             retval.append(grp)
         return retval
 
diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 05b22a9..82cef08 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -240,7 +240,7 @@ class NodeAddStatus(Message):
         self, stream: BitStreamReader
     ):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-        length = self.nodeInfoLength - 7
+        length = max(0, self.nodeInfoLength - 7)
         if length > stream.bytesLeft():
             return list(stream.remaining())
         return list(stream.value(length))
diff --git a/pyzwave/types.py b/pyzwave/types.py
index 64dc0d3..deae1f6 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -53,6 +53,8 @@ class BitStreamReader:
 
     def value(self, size: int, advance: bool = True) -> bytes:
         """Return the next size number of bytes from the stream"""
+        if size < 0:
+            raise EOFError("Tried to read a negative number of bytes")
         startByte = int(self._start / 8)
         if advance:
             self.advance(size * 8)
-- 
2.43.0


From cc9a619cd5eb440cbf5c2965263e8d9325941993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 07/52] fix: node lists cover the nodes 225 to 232 too

---
 pyzwave/commandclass/NetworkManagementProxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementProxy.py b/pyzwave/commandclass/NetworkManagementProxy.py
index b5fd04d..579e2e7 100644
--- a/pyzwave/commandclass/NetworkManagementProxy.py
+++ b/pyzwave/commandclass/NetworkManagementProxy.py
@@ -33,11 +33,14 @@ registerCmdClass(COMMAND_CLASS_NETWORK_MANAGEMENT_PROXY, "NETWORK_MANAGEMENT_PRO
 class NodeList(set):
     """Deserializer for nodelist returned in NODE_LIST_REPORT"""
 
+    # Bitmask for the nodes 1 - 232
+    MAX_NODEMASK_LENGTH = 29
+
     @classmethod
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize nodes from stream"""
         nodeList = cls()
-        for i in range(28):
+        for i in range(cls.MAX_NODEMASK_LENGTH):
             nodeByte = uint8_t.deserialize(stream)
             for j in range(8):
                 if nodeByte & (1 << j):
-- 
2.43.0


From d1f46544b4cac3bb0dced0c1e40c39feec8260c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 08/52] fix: decode sensor masks of several bytes and with
 unknown sensor types

---
 pyzwave/commandclass/SensorMultilevel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 7e5c134..8dae652 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -56,11 +56,15 @@ class SensorSupported(set):
     def deserialize(cls, stream: BitStreamReader):
         """Deserialize types from stream"""
         supported = cls()
-        value = int.from_bytes(stream.remaining(), byteorder="big", signed=False)
+        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
         i = 1
         while value > 0:
             if value & 1 == 1:
-                supported.add(SensorType(i))
+                try:
+                    supported.add(SensorType(i))
+                except ValueError:
+                    # Sensor type not (yet) known by us
+                    supported.add(i)
             value >>= 1
             i += 1
         return supported
-- 
2.43.0


From 3c5f8ffd22fae1df3a507539055bc91dbd768f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 09/52] fix: unknown non critical header options must not make
 the packet undecodable

---
 pyzwave/commandclass/NodeProvisioning.py | 11 +++++++++--
 pyzwave/commandclass/Zip.py              | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyzwave/commandclass/NodeProvisioning.py b/pyzwave/commandclass/NodeProvisioning.py
index 941f727..3c34d09 100644
--- a/pyzwave/commandclass/NodeProvisioning.py
+++ b/pyzwave/commandclass/NodeProvisioning.py
@@ -37,9 +37,16 @@ class MetadataExtension(VarDictAttribute(MetadataExtensionType, bytes)):
         retval = {}
         while stream.bytesLeft():
             metadataType = stream.bits(7)
-            _critical = stream.bit()
+            critical = stream.bit()
             length = stream.byte()
-            retval[metadataType] = stream.value(length)
+            value = stream.value(length)
+            if (
+                metadataType not in MetadataExtensionType.__members__.values()
+                and not critical
+            ):
+                # Not (yet) known by us, must be ignored
+                continue
+            retval[metadataType] = value
         return retval
 
 
diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 52e90d3..58563fc 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -116,9 +116,13 @@ class ZIPPacketOptionMaintenanceReport(
         """Deserialize ZIP Maintenance Report"""
         retval = {}
         while stream.bytesLeft():
-            imeType = IMEType(stream.byte())
+            imeType = stream.byte()
             length = stream.byte()
             imeVal = stream.value(length)
+            if imeType not in IMEType.__members__.values():
+                # Not (yet) known by us
+                continue
+            imeType = IMEType(imeType)
             typeCls = IME_MAPPING.get(imeType, IMEUnknownValue)
             retval[imeType] = typeCls.load(BitStreamReader(imeVal))
         return retval
@@ -174,7 +178,7 @@ class ZIPPacketOption(AttributesMixin):
         elif hasattr(cls, "__setstate__"):
             data = clsType.deserialize(BitStreamReader(data))
             cls.__setstate__(data)
-        else:
+        elif hasattr(cls, "serialize"):
             value = clsType.deserialize(BitStreamReader(data))
             return clsType(value)
         return cls
@@ -204,6 +208,12 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         while reader.bytesLeft() > 0:
             option = ZIPPacketOption()
             option.parseAttributes(reader)
+            if (
+                option.optionType not in ZIPPacketOptionType.__members__.values()
+                and not option.critical
+            ):
+                # Not (yet) known by us, must be ignored
+                continue
             retval[option.optionType] = option.optionData
         return retval
 
-- 
2.43.0


From 6d68defcd7138c4c5d4f75ea06553671a7e557eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 10/52] fix: reserved fields are encoded with their own size
 and as zero

---
 pyzwave/message.py | 4 ++++
 pyzwave/types.py   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/pyzwave/message.py b/pyzwave/message.py
index 2e75928..696168f 100644
--- a/pyzwave/message.py
+++ b/pyzwave/message.py
@@ -25,6 +25,10 @@ class Message(AttributesMixin):
         stream.addBytes(cmdClass, 1, False)
         stream.addBytes(cmd, 1, False)
         for name, attrType in self.attributes:
+            if getattr(attrType, "reserved", False):
+                # Several reserved fields of different sizes may share one name
+                attrType(attrType.default).serialize(stream)
+                continue
             if name not in self._attributes:
                 default = getattr(attrType, "default", None)
                 if default is not None:
diff --git a/pyzwave/types.py b/pyzwave/types.py
index deae1f6..acc31aa 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -329,6 +329,7 @@ def reserved_t(size):  # pylint: disable=invalid-name
         """Type for when the bits are reserved and must not be used"""
 
         default = 0
+        reserved = True
         sizeBits = size
 
     return reserved_t
-- 
2.43.0


From 23041d331a6dce1c3482a21d67515fb89be11a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 11/52] fix: encode the length of a supervised command

---
 pyzwave/commandclass/Supervision.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/Supervision.py b/pyzwave/commandclass/Supervision.py
index fb16621..174010d 100644
--- a/pyzwave/commandclass/Supervision.py
+++ b/pyzwave/commandclass/Supervision.py
@@ -1,5 +1,12 @@
 from pyzwave.message import Message
-from pyzwave.types import BitStreamReader, bits_t, flag_t, reserved_t, uint8_t
+from pyzwave.types import (
+    BitStreamReader,
+    BitStreamWriter,
+    bits_t,
+    flag_t,
+    reserved_t,
+    uint8_t,
+)
 from . import ZWaveMessage, registerCmdClass
 
 
@@ -23,6 +30,12 @@ class Get(Message):
         ("command", Message),
     )
 
+    def compose_command(self, stream: BitStreamWriter):  # pylint: disable=invalid-name
+        """Write the length prefixed command"""
+        command = self.command.compose()
+        stream.addBytes(len(command), 1, False)
+        stream.extend(command)
+
     @staticmethod
     def parse_command(stream: BitStreamReader):  # pylint: disable=invalid-name
         """Parse the length prefixed command"""
-- 
2.43.0


From f61a911f3272569a9386e3214d5e145ebf9d1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 12/52] fix: the dsk input of node add dsk set is not a
 complete dsk

---
 pyzwave/commandclass/NetworkManagementInclusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/NetworkManagementInclusion.py b/pyzwave/commandclass/NetworkManagementInclusion.py
index 82cef08..3fc1d89 100644
--- a/pyzwave/commandclass/NetworkManagementInclusion.py
+++ b/pyzwave/commandclass/NetworkManagementInclusion.py
@@ -26,6 +26,7 @@ from pyzwave.const.ZW_classcmd import (
 from pyzwave.message import Message
 from pyzwave.types import (
     BitStreamReader,
+    bytes_t,
     dsk_t,
     enum_t,
     flag_t,
@@ -162,7 +163,7 @@ class NodeAddDSKSet(Message):
         ("accept", flag_t),
         ("-", reserved_t(3)),
         ("inputDSKLength", uint4_t),
-        ("dsk", dsk_t),
+        ("dsk", bytes_t),
     )
 
 
-- 
2.43.0


From 59a3ec4815e535a9f8576abecda1fd0e48da359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 13/52] fix: a configuration set command can be decoded

---
 pyzwave/commandclass/Configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 87e9e86..b54b6cb 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -107,6 +107,10 @@ class Set(Message):
         """Write the value to the bitstream. The value is variable size"""
         stream.addBytes(self.value, self.size, False)
 
+    def parse_value(self, stream: BitStreamReader):  # pylint: disable=invalid-name
+        """Decode the value"""
+        return int.from_bytes(stream.value(self.size), "big", signed=False)
+
 
 class ConfigurationValue(DictAttribute):
     """Helper class for holding one configuration value"""
-- 
2.43.0


From 233f6e10c8178efe17cb23cf975f9931e3f3aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 14/52] fix: refuse header extension options without a length

---
 pyzwave/commandclass/Zip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzwave/commandclass/Zip.py b/pyzwave/commandclass/Zip.py
index 58563fc..42f8587 100644
--- a/pyzwave/commandclass/Zip.py
+++ b/pyzwave/commandclass/Zip.py
@@ -206,6 +206,7 @@ class HeaderExtension(VarDictAttribute(ZIPPacketOptionType, ZIPPacketOptionData)
         extLength = stream.byte() - 1
         reader = BitStreamReader(stream.value(extLength))
         while reader.bytesLeft() > 0:
+            reader.peekValue(2)  # Refuse options without any length
             option = ZIPPacketOption()
             option.parseAttributes(reader)
             if (
-- 
2.43.0


From 8d1050c06a95e8bb8c17c3428b0ceeffe1a5a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 15/52] fix: bit fields have a default value like other fields

---
 pyzwave/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index acc31aa..5cf1450 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -213,7 +213,7 @@ class BitsBase:
 
     sizeBits = 1
 
-    def __init__(self, value: int):
+    def __init__(self, value: int = 0):
         self._value = int(value)
 
     def __eq__(self, other):
@@ -253,7 +253,7 @@ class bytes_t(bytes):  # pylint: disable=invalid-name
 class flag_t(BitsBase):  # pylint: disable=invalid-name
     """Type represeting one bit"""
 
-    def __init__(self, value: int):
+    def __init__(self, value: int = 0):
         super().__init__(int(value) & 1)
 
     def __bool__(self):
-- 
2.43.0


From 1f3b444ddfaa65b4588aa4c1da729fb9232e7933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 16/52] fix: match network management responses with their
 request

---
 pyzwave/adapter.py    | 10 +++++++++-
 pyzwave/zipgateway.py | 20 ++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/pyzwave/adapter.py b/pyzwave/adapter.py
index b6fce0a..57ab890 100644
--- a/pyzwave/adapter.py
+++ b/pyzwave/adapter.py
@@ -164,6 +164,12 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         """Return a list of nodes included in the network"""
         raise NotImplementedError()
 
+    def isResponse(
+        self, cmd: Message, message: Message
+    ) -> bool:  # pylint: disable=unused-argument,no-self-use
+        """Return if a received message of the awaited type is the response to cmd"""
+        return True
+
     @property
     def nodeId(self) -> int:
         """Return the node id of the controller"""
@@ -214,7 +220,9 @@ class Adapter(Listenable, MessageWaiter, metaclass=abc.ABCMeta):
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        session = self.addWaitingSession(
+            waitFor, accept=lambda message: self.isResponse(cmd, message)
+        )
         try:
             await self.send(cmd, **kwargs)
             return await self.waitForMessage(waitFor, session=session, timeout=timeout)
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 49707d6..76bc10e 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -30,6 +30,8 @@ class ZIPGateway(ZIPConnection):
         self._connections = {}
         self._nodes = {}
         self._nmSeq = 0
+        # Sequence numbers of network management requests not responded to
+        self._nmUnanswered = set()
 
     async def addNode(self, txOptions: TxOptions) -> bool:
         self._nmSeq = self._nmSeq + 1
@@ -178,6 +180,24 @@ class ZIPGateway(ZIPConnection):
             return NetworkManagementProxy.NodeInfoCachedReport()
         return report
 
+    def isResponse(self, cmd: Message, message: Message) -> bool:
+        seqNo = cmd.seqNo
+        if seqNo is None:
+            # Not a network management command
+            return True
+        if message.seqNo != seqNo and message.seqNo in self._nmUnanswered:
+            # This is the response to another (maybe already timed out) request
+            return False
+        self._nmUnanswered.discard(seqNo)
+        return True
+
+    async def sendAndReceive(
+        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+    ) -> Message:
+        if cmd.seqNo is not None:
+            self._nmUnanswered.add(cmd.seqNo)
+        return await super().sendAndReceive(cmd, waitFor, timeout=timeout, **kwargs)
+
     async def __handleNodeListReport__(
         self, report: NetworkManagementProxy.NodeListReport
     ):
-- 
2.43.0


From 4091230c24e0f6213f68997a8a312c7f0bcc4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 17/52] fix: incomplete network management reports must not
 raise

---
 pyzwave/zipgateway.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 76bc10e..42f5e89 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -116,7 +116,7 @@ class ZIPGateway(ZIPConnection):
             )
         except asyncio.TimeoutError:
             return set()
-        return report.failedNodeList
+        return report.failedNodeList or set()
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
         self._nmSeq = self._nmSeq + 1
@@ -130,7 +130,7 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return 0
-        return report.individualEndPoints + report.aggregatedEndPoints
+        return (report.individualEndPoints or 0) + (report.aggregatedEndPoints or 0)
 
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
@@ -161,6 +161,9 @@ class ZIPGateway(ZIPConnection):
         except asyncio.TimeoutError:
             # No response
             return set()
+        if report.nodes is None:
+            # No list in the response
+            return set()
         self._nodeId = report.nodeListControllerId
         self._nodes = {x: {} for x in report.nodes}
         return report.nodes
@@ -295,6 +298,9 @@ class ZIPGateway(ZIPConnection):
         sourceEP = zipPkt.sourceEP
 
         if isinstance(zipPkt.command, NetworkManagementProxy.NodeListReport):
+            if zipPkt.command.nodes is None:
+                _LOGGER.warning("Ignoring node list report without a list")
+                return False
             return asyncio.ensure_future(self.__handleNodeListReport__(zipPkt.command))
 
         # Find the node this was from
-- 
2.43.0


From 6f59c12e8d5b788aa042991ed4f135df34855120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 18/52] fix: use the address of the requested node only and
 connect once

---
 pyzwave/commandclass/ZipND.py |  3 +++
 pyzwave/zipgateway.py         | 26 ++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/ZipND.py b/pyzwave/commandclass/ZipND.py
index f121a96..a643e5d 100644
--- a/pyzwave/commandclass/ZipND.py
+++ b/pyzwave/commandclass/ZipND.py
@@ -40,6 +40,9 @@ class ZipNodeAdvertisement(Message):
 
     NAME = "ZIP_NODE_ADVERTISEMENT"
 
+    # Value of validity if the gateway does not know the address of the node
+    INFORMATION_NOT_FOUND = 2
+
     attributes = (
         ("-", reserved_t(5)),
         ("local", flag_t),
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 42f5e89..21c0420 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -28,6 +28,7 @@ class ZIPGateway(ZIPConnection):
         self._unsolicitedConnection = Connection()
         self._unsolicitedConnection.onMessage(self.onUnsolicitedMessage)
         self._connections = {}
+        self._connecting = {}
         self._nodes = {}
         self._nmSeq = 0
         # Sequence numbers of network management requests not responded to
@@ -98,7 +99,22 @@ class ZIPGateway(ZIPConnection):
         """Returns a connection to the node"""
         if nodeId in self._connections:
             return self._connections[nodeId]
-
+        task = self._connecting.get(nodeId)
+        if not task:
+            # Everyone in need of this connection waits for the same attempt
+            task = asyncio.ensure_future(self.__connectToNode__(nodeId))
+            self._connecting[nodeId] = task
+
+            def finished(_task):
+                del self._connecting[nodeId]
+                if not task.cancelled():
+                    # Everyone waiting may be gone
+                    task.exception()
+
+            task.add_done_callback(finished)
+        return await asyncio.shield(task)
+
+    async def __connectToNode__(self, nodeId) -> ZIPConnection:
         ipv6 = await self.ipOfNode(nodeId)
 
         connection = ZIPConnection(ipv6.compressed, self.psk)
@@ -223,7 +239,13 @@ class ZIPGateway(ZIPConnection):
         """Returns the IPv6 address of the node"""
         msg = ZipND.ZipInvNodeSolicitation(local=False, nodeId=nodeId)
         self._conn.send(msg.compose())
-        response = await self.waitForMessage(ZipND.ZipNodeAdvertisement, timeout=3)
+        response = await self.waitForMessage(
+            ZipND.ZipNodeAdvertisement,
+            timeout=3,
+            accept=lambda advertisement: advertisement.nodeId == nodeId,
+        )
+        if response.validity == ZipND.ZipNodeAdvertisement.INFORMATION_NOT_FOUND:
+            raise asyncio.TimeoutError()
         return response.ipv6
 
     async def removeFailedNode(
-- 
2.43.0


From 25188e25b44cb2ed9f3c8ba5054bf5eda574e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 19/52] fix: process node list reports one by one and survive
 unresolvable nodes

---
 pyzwave/zipconnection.py |  7 +++++++
 pyzwave/zipgateway.py    | 45 +++++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index ddce723..a203bf3 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -171,3 +171,10 @@ class ZIPConnection(Adapter):
 
     async def setNodeInfo(self, generic, specific, cmdClasses):
         raise NotImplementedError()
+
+    def stop(self):
+        """Stop sending keepalives and close the connection"""
+        if self._keepAlive:
+            self._keepAlive.cancel()
+            self._keepAlive = None
+        self._conn.stop()
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 21c0420..e39284f 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -30,6 +30,7 @@ class ZIPGateway(ZIPConnection):
         self._connections = {}
         self._connecting = {}
         self._nodes = {}
+        self._nodesLock = asyncio.Lock()
         self._nmSeq = 0
         # Sequence numbers of network management requests not responded to
         self._nmUnanswered = set()
@@ -116,6 +117,8 @@ class ZIPGateway(ZIPConnection):
 
     async def __connectToNode__(self, nodeId) -> ZIPConnection:
         ipv6 = await self.ipOfNode(nodeId)
+        if nodeId in self._nodes:
+            self._nodes[nodeId] = {"ip": ipv6}
 
         connection = ZIPConnection(ipv6.compressed, self.psk)
         connection.addListener(self)
@@ -181,7 +184,7 @@ class ZIPGateway(ZIPConnection):
             # No list in the response
             return set()
         self._nodeId = report.nodeListControllerId
-        self._nodes = {x: {} for x in report.nodes}
+        self.__setNodes__(report.nodes)
         return report.nodes
 
     async def getNodeInfo(
@@ -221,19 +224,33 @@ class ZIPGateway(ZIPConnection):
         self, report: NetworkManagementProxy.NodeListReport
     ):
         """Update nodes from a nodeListReport"""
-        # Find removed nodes
-        for nodeId in list(self._nodes.keys()):
-            if nodeId in report.nodes:
+        # A report must be processed completely before the next one
+        async with self._nodesLock:
+            self.__setNodes__(report.nodes)
+            await self.__resolveNodes__()
+            self.speak("nodeListUpdated")
+
+    async def __resolveNodes__(self):
+        """Retrieve the ip of all nodes where it is not yet known"""
+        for nodeId in sorted(self._nodes):
+            if nodeId not in self._nodes or self._nodes[nodeId].get("ip"):
+                continue
+            try:
+                ipv6 = await self.ipOfNode(nodeId)
+            except asyncio.TimeoutError:
+                _LOGGER.warning("Could not retrieve the ip of node %s", nodeId)
                 continue
-            del self._nodes[nodeId]
-
-        # Find new nodes
-        for nodeId in report.nodes:
             if nodeId in self._nodes:
+                self._nodes[nodeId] = {"ip": ipv6}
+
+    def __setNodes__(self, nodes: set):
+        """Set the list of nodes, keeping what is known about the nodes already in it"""
+        for nodeId in self._nodes:
+            if nodeId in nodes or nodeId not in self._connections:
                 continue
-            # Retrieve ip
-            self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
-        self.speak("nodeListUpdated")
+            # The next node using this id may have another address
+            self._connections.pop(nodeId).stop()
+        self._nodes = {nodeId: self._nodes.get(nodeId, {}) for nodeId in nodes}
 
     async def ipOfNode(self, nodeId) -> ipaddress.IPv6Address:
         """Returns the IPv6 address of the node"""
@@ -382,6 +399,6 @@ class ZIPGateway(ZIPConnection):
             )
         )
         # Retrieve node list, and get ip-addresses
-        for nodeId in await self.getNodeList():
-            if not self._nodes[nodeId].get("ip"):
-                self._nodes[nodeId] = {"ip": await self.ipOfNode(nodeId)}
+        await self.getNodeList()
+        async with self._nodesLock:
+            await self.__resolveNodes__()
-- 
2.43.0


From 876f8bb0db815d023b6ab2e2532e6c8212bb2a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 20/52] fix: network management calls do not report success
 without delivery or run out of sequence numbers

---
 pyzwave/zipgateway.py | 46 ++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index e39284f..57878e6 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -36,7 +36,7 @@ class ZIPGateway(ZIPConnection):
         self._nmUnanswered = set()
 
     async def addNode(self, txOptions: TxOptions) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.ANY_S2,
@@ -44,28 +44,26 @@ class ZIPGateway(ZIPConnection):
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeDSKSet(
         self, accept: bool, inputDSKLength: int, dsk: dsk_t
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddDSKSet(
             seqNo=self._nmSeq, accept=accept, inputDSKLength=inputDSKLength, dsk=dsk,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeKeysSet(
         self, grantCSA: bool, accept: bool, grantedKeys: NetworkManagementInclusion.Keys
     ) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAddKeysSet(
             seqNo=self._nmSeq,
             grantCSA=grantCSA,
@@ -73,23 +71,21 @@ class ZIPGateway(ZIPConnection):
             grantedKeys=grantedKeys,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def addNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeAdd(
             seqNo=self._nmSeq,
             mode=NetworkManagementInclusion.NodeAdd.Mode.STOP,
             txOptions=TxOptions.NULL,
         )
         try:
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def connect(self):
         await super().connect()
@@ -127,7 +123,7 @@ class ZIPGateway(ZIPConnection):
         return connection
 
     async def getFailedNodeList(self) -> list:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.FailedNodeListGet(seqNo=self._nmSeq,)
         try:
             report = await self.sendAndReceive(
@@ -138,7 +134,7 @@ class ZIPGateway(ZIPConnection):
         return report.failedNodeList or set()
 
     async def getMultiChannelEndPoints(self, nodeId: int) -> int:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelEndPointGet(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -154,7 +150,7 @@ class ZIPGateway(ZIPConnection):
     async def getMultiChannelCapability(
         self, nodeId: int, endpoint: int
     ) -> NetworkManagementProxy.MultiChannelCapabilityReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.MultiChannelCapabilityGet(
             seqNo=self._nmSeq, nodeID=nodeId, endPoint=endpoint
         )
@@ -171,7 +167,7 @@ class ZIPGateway(ZIPConnection):
         if self._nodes:
             # Return cached list
             return set(self._nodes.keys())
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeListGet(seqNo=self._nmSeq)
         try:
             report = await self.sendAndReceive(
@@ -190,7 +186,7 @@ class ZIPGateway(ZIPConnection):
     async def getNodeInfo(
         self, nodeId: int
     ) -> NetworkManagementProxy.NodeInfoCachedReport:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementProxy.NodeInfoCachedGet(
             seqNo=self._nmSeq, maxAge=15, nodeID=nodeId
         )
@@ -268,7 +264,7 @@ class ZIPGateway(ZIPConnection):
     async def removeFailedNode(
         self, nodeId: int
     ) -> NetworkManagementInclusion.FailedNodeRemoveStatus.Status:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.FailedNodeRemove(
             seqNo=self._nmSeq, nodeID=nodeId
         )
@@ -283,28 +279,26 @@ class ZIPGateway(ZIPConnection):
         return report.status
 
     async def removeNode(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.ANY
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     async def removeNodeStop(self) -> bool:
-        self._nmSeq = self._nmSeq + 1
+        self._nmSeq = (self._nmSeq + 1) & 0xFF
         cmd = NetworkManagementInclusion.NodeRemove(
             seqNo=self._nmSeq, mode=NetworkManagementInclusion.NodeRemove.Mode.STOP
         )
         try:
             # We do not get any immediate response
-            await self.send(cmd)
+            return await self.send(cmd) is not False
         except asyncio.TimeoutError:
             return False
-        return True
 
     def onMessageReceived(self, connection: ZIPConnection, message: Message):
         """Called when a message is received from any node connection. Not unsolicited."""
@@ -377,7 +371,9 @@ class ZIPGateway(ZIPConnection):
                 timeout=timeout,
             )
             if report.mode != mode:
-                await self.send(ZipGateway.GatewayModeSet(mode=mode))
+                return (
+                    await self.send(ZipGateway.GatewayModeSet(mode=mode)) is not False
+                )
         except asyncio.TimeoutError:
             _LOGGER.error("Got timeout waiting for gateway mode report")
             return False
-- 
2.43.0


From 2495dea54646ffcce212ed1c5f7b86897277e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 21/52] fix: repeated network management responses do not
 answer another request

---
 pyzwave/zipgateway.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 57878e6..7ce8c92 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -32,8 +32,8 @@ class ZIPGateway(ZIPConnection):
         self._nodes = {}
         self._nodesLock = asyncio.Lock()
         self._nmSeq = 0
-        # Sequence numbers of network management requests not responded to
-        self._nmUnanswered = set()
+        # Sequence numbers used for network management requests
+        self._nmUsed = set()
 
     async def addNode(self, txOptions: TxOptions) -> bool:
         self._nmSeq = (self._nmSeq + 1) & 0xFF
@@ -203,17 +203,14 @@ class ZIPGateway(ZIPConnection):
         if seqNo is None:
             # Not a network management command
             return True
-        if message.seqNo != seqNo and message.seqNo in self._nmUnanswered:
-            # This is the response to another (maybe already timed out) request
-            return False
-        self._nmUnanswered.discard(seqNo)
-        return True
+        # Ignore responses to other (maybe already finished) requests
+        return message.seqNo == seqNo or message.seqNo not in self._nmUsed
 
     async def sendAndReceive(
         self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
     ) -> Message:
         if cmd.seqNo is not None:
-            self._nmUnanswered.add(cmd.seqNo)
+            self._nmUsed.add(cmd.seqNo)
         return await super().sendAndReceive(cmd, waitFor, timeout=timeout, **kwargs)
 
     async def __handleNodeListReport__(
-- 
2.43.0


From bdd30e2f96ef5ab775da14db41027954bda89bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 22/52] fix: a stopped connection refuses to send instead of
 keeping itself alive

---
 pyzwave/zipconnection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/zipconnection.py b/pyzwave/zipconnection.py
index a203bf3..8e1e0f2 100644
--- a/pyzwave/zipconnection.py
+++ b/pyzwave/zipconnection.py
@@ -26,6 +26,7 @@ class ZIPConnection(Adapter):
         self._address = address
         self._keepAlive = None
         self._psk = psk
+        self._stopped = False
         self._conn = Connection()
         self._conn.onMessage(self.onPacket)
 
@@ -46,6 +47,7 @@ class ZIPConnection(Adapter):
         raise NotImplementedError()
 
     async def connect(self):
+        self._stopped = False
         await self._conn.connect(self._address, self._psk)
         self.resetKeepAlive()
 
@@ -138,6 +140,9 @@ class ZIPConnection(Adapter):
         self._keepAlive = asyncio.get_event_loop().call_later(25, self.keepAlive)
 
     async def send(self, cmd, sourceEP=0, destEP=0, timeout=3) -> bool:
+        if self._stopped:
+            _LOGGER.error("Could not send, the connection is closed")
+            return False
         for _ in range(256):
             self._seq = (self._seq + 1) & 0xFF
             if self._seq not in self._ackQueue:
@@ -174,6 +179,7 @@ class ZIPConnection(Adapter):
 
     def stop(self):
         """Stop sending keepalives and close the connection"""
+        self._stopped = True
         if self._keepAlive:
             self._keepAlive.cancel()
             self._keepAlive = None
-- 
2.43.0


From d9157b599269b153f611193b44effc92e4702788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 23/52] fix: process node list updates and startup one by one
 and announce nodes once

---
 pyzwave/application.py | 61 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index c57a4b0..78632b3 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 
+import asyncio
 import logging
 from typing import Any, Dict
 
@@ -31,6 +32,8 @@ class Application(Listenable):
         self._storage = storage
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
+        self._announced = set()
+        self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
     async def loadEndPointNode(self, node: Node, endpoint: int):
@@ -97,7 +100,30 @@ class Application(Listenable):
 
     async def nodeListUpdated(self, _sender):
         """Called when the node list has been updated"""
-        nodeList = await self.adapter.getNodeList()
+        # An update must be processed completely before the next one
+        async with self._nodesLock:
+            nodeList = await self.adapter.getNodeList()
+            await self.__removeNodes__(nodeList)
+
+            # Find new nodes
+            newNodes = []
+            for nodeId in nodeList:
+                if "{}:0".format(nodeId) in self._nodes:
+                    continue
+                newNodes.extend(await self.loadNode(nodeId))
+
+            if newNodes:
+                await self.__announceNodes__(newNodes)
+
+    async def __announceNodes__(self, nodes: list):
+        """Tell the listeners about new nodes"""
+        await self.ask("nodesAdded", nodes)
+        for node in nodes:
+            self._announced.add(node.nodeId)
+            await self.ask("nodeAdded", node)
+
+    async def __removeNodes__(self, nodeList: list):
+        """Remove the nodes not in the node list any longer"""
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
             if node.rootNodeId in nodeList:
@@ -105,23 +131,12 @@ class Application(Listenable):
             nodesToRemove.append(nodeId)
         for nodeId in nodesToRemove:
             del self._nodes[nodeId]
+            self._announced.discard(nodeId)
             await self.ask("nodeRemoved", nodeId)
         # For clients supporting batch removing
         if nodesToRemove:
             await self.ask("nodesRemoved", nodesToRemove)
 
-        # Find new nodes
-        newNodes = []
-        for nodeId in nodeList:
-            if "{}:0".format(nodeId) in self._nodes:
-                continue
-            newNodes.extend(await self.loadNode(nodeId))
-
-        if newNodes:
-            await self.ask("nodesAdded", newNodes)
-        for node in newNodes:
-            await self.ask("nodeAdded", node)
-
     @property
     def nodes(self) -> Dict[int, Node]:
         """All nodes in the network"""
@@ -167,12 +182,18 @@ class Application(Listenable):
 
     async def startup(self):
         """Start and initialize the application and the adapter"""
-        for nodeId in await self.adapter.getNodeList():
-            await self.loadNode(nodeId)
+        async with self._nodesLock:
+            nodeList = await self.adapter.getNodeList()
+            await self.__removeNodes__(nodeList)
 
-        for nodeId in await self.adapter.getFailedNodeList():
-            _LOGGER.warning("FAILED node %s", nodeId)
+            newNodes = []
+            for nodeId in nodeList:
+                if "{}:0".format(nodeId) in self._announced:
+                    # Already loaded by a node list update
+                    continue
+                newNodes.extend(await self.loadNode(nodeId))
 
-        await self.ask("nodesAdded", list(self._nodes.values()))
-        for _, node in self._nodes.items():
-            await self.ask("nodeAdded", node)
+            for nodeId in await self.adapter.getFailedNodeList():
+                _LOGGER.warning("FAILED node %s", nodeId)
+
+            await self.__announceNodes__(newNodes)
-- 
2.43.0


From 8a52fcef98f1918abd006c96ae5cc4bc0fb4a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 24/52] fix: updates of a node must not overwrite its settings
 before they are restored

---
 pyzwave/application.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 78632b3..36dbf4b 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -40,7 +40,6 @@ class Application(Listenable):
         """Load an endpoint for a node"""
         report = await self.adapter.getMultiChannelCapability(node.rootNodeId, endpoint)
         nodeEP = NodeEndPoint(node, endpoint, self.adapter, list(report.commandClass))
-        nodeEP.addListener(self._storage)
         nodeEP.genericDeviceClass = report.genericDeviceClass
         nodeEP.specificDeviceClass = report.specificDeviceClass
         self._nodes[nodeEP.nodeId] = nodeEP
@@ -55,7 +54,6 @@ class Application(Listenable):
         nodeInfo = await self.adapter.getNodeInfo(nodeId)
         node = Node(nodeId, self.adapter, list(nodeInfo.commandClass))
         nodes.append(node)
-        node.addListener(self._storage)
         node.basicDeviceClass = nodeInfo.basicDeviceClass
         # node.flirs = ?
         node.genericDeviceClass = nodeInfo.genericDeviceClass
@@ -120,6 +118,9 @@ class Application(Listenable):
         await self.ask("nodesAdded", nodes)
         for node in nodes:
             self._announced.add(node.nodeId)
+            # The storage restores the saved settings now. It must not save the initial
+            # state of the node before that
+            node.addListener(self._storage)
             await self.ask("nodeAdded", node)
 
     async def __removeNodes__(self, nodeList: list):
-- 
2.43.0


From 92b648d25f90ffc70e539ae5c059c6ec125a1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 25/52] fix: a command class list ending with 0xF1 could not be
 loaded

---
 pyzwave/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index b80306d..c0f0804 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -85,7 +85,7 @@ class Node(Listenable, MessageWaiter):
         securityS0 = False
         while i < len(cmdClasses):
             cmdClass = cmdClasses[i]
-            if cmdClass == 0xF1 and cmdClasses[i + 1] == 0x00:
+            if list(cmdClasses[i : i + 2]) == [0xF1, 0x00]:
                 # Security Scheme 0 Mark
                 securityS0 = True
                 supported = True
-- 
2.43.0


From 2990327b383d227d853a60295ad0905bdb9ce9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 26/52] fix: nested or overlapping storage locks ended with the
 first of them

---
 pyzwave/node.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index c0f0804..b50b94a 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -72,6 +72,7 @@ class Node(Listenable, MessageWaiter):
         self._controlled = {}
         # Flag is this node need to be saved to persistant storage
         self._storageStatus: StorageStatus = StorageStatus.CLEAN
+        self._storageLocks = 0
         self._endpoint = 0
         self._flirs = False
         self._genericDeviceClass = 0
@@ -273,13 +274,19 @@ class Node(Listenable, MessageWaiter):
                 node.interview()
             # The storage will happen here, only once
         """
-        try:
+        self._storageLocks += 1
+        if self._storageStatus == StorageStatus.CLEAN:
             self._storageStatus = StorageStatus.LOCKED_CLEAN
+        try:
             yield
         finally:
-            if self._storageStatus == StorageStatus.LOCKED_DIRTY:
-                self.speak("nodeUpdated")
-            self._storageStatus = StorageStatus.CLEAN
+            self._storageLocks -= 1
+            if not self._storageLocks:
+                # The last lock was released
+                dirty = self._storageStatus == StorageStatus.LOCKED_DIRTY
+                self._storageStatus = StorageStatus.CLEAN
+                if dirty:
+                    self.speak("nodeUpdated")
 
     @property
     def specificDeviceClass(self) -> int:
-- 
2.43.0


From cf05fec131e64bdf38af3464de00b1101b323d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 27/52] fix: a supervised packet without a command made the
 handler raise

---
 pyzwave/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index b50b94a..e381ca8 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,7 +27,8 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
-        if await func(self, message.command, flags):
+        command = message.command
+        if command is not None and await func(self, command, flags):
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
-- 
2.43.0


From 455a4d6f4b6cc1d6e057564bddf02e14804c3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 28/52] fix: truncated supervised packets and undeliverable
 supervision reports made the handler raise

---
 pyzwave/node.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyzwave/node.py b/pyzwave/node.py
index e381ca8..8acbd53 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -27,28 +27,24 @@ def supervision(func):
         if not isinstance(message, Supervision.Get):
             return await func(self, message, flags)
         # Handle supervision calls
+        if message.sessionID is None:
+            # Truncated, there is no session to report on
+            return False
         command = message.command
-        if command is not None and await func(self, command, flags):
+        handled = command is not None and bool(await func(self, command, flags))
+        try:
             await self.send(
                 Supervision.Report(
                     moreStatusUpdates=False,
                     wakeUpRequest=False,
                     sessionID=message.sessionID,
-                    status=0xFF,
+                    status=0xFF if handled else 0x00,
                     duration=0,
                 )
             )
-            return True
-        await self.send(
-            Supervision.Report(
-                moreStatusUpdates=False,
-                wakeUpRequest=False,
-                sessionID=message.sessionID,
-                status=0x00,
-                duration=0,
-            )
-        )
-        return False
+        except asyncio.TimeoutError:
+            _LOGGER.warning("Could not send supervision report to %s", self.nodeId)
+        return handled
 
     return __wrapper__
 
-- 
2.43.0


From 31fda704ef2562852a6a85aa2ae2ba0f4b7c5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 29/52] fix: a report for something else was taken as the
 answer to a version, configuration, association or sensor scale request

---
 pyzwave/commandclass/Association.py      |  5 ++++-
 pyzwave/commandclass/CommandClass.py     |  2 ++
 pyzwave/commandclass/Configuration.py    |  7 ++++++-
 pyzwave/commandclass/SensorMultilevel.py |  4 +++-
 pyzwave/node.py                          | 10 +++++++---
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index 1482e51..c09e874 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -149,10 +149,13 @@ class Association(CommandClass):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
+                accept=lambda report: report.groupingIdentifier == groupingIdentifier,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier), Report
+                Get(groupingIdentifier=groupingIdentifier),
+                Report,
+                accept=lambda report: report.groupingIdentifier == groupingIdentifier,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 240ca51..b896467 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -162,6 +162,8 @@ class CommandClass(AttributesMixin, Listenable):
             answer = await self._node.sendAndReceive(
                 Version.VersionCommandClassGet(requestedCommandClass=self.id),
                 Version.VersionCommandClassReport,
+                accept=lambda report: report.requestedCommandClass == self.id
+                and report.commandClassVersion is not None,
             )
             self._version = int(answer.commandClassVersion)
         except asyncio.TimeoutError:
diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index b54b6cb..5773f39 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -139,7 +139,12 @@ class Configuration(CommandClass):
         """Request configuration value from node. Return the cached value if it is already known."""
         if cached and number in self.parameters:
             return self.parameters[number].value
-        report: Report = await self.sendAndReceive(Get(parameterNumber=number), Report)
+        report: Report = await self.sendAndReceive(
+            Get(parameterNumber=number),
+            Report,
+            accept=lambda report: report.parameterNumber == number
+            and report.value is not None,
+        )
         return report.value
 
     async def set(self, parameterNumber: int, size: Size, value: int) -> bool:
diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 8dae652..4df8e7b 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -185,6 +185,8 @@ class SensorMultilevel(CommandClass):
         )
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
-                SupportedGetScale(sensorType=sensor), SupportedScaleReport
+                SupportedGetScale(sensorType=sensor),
+                SupportedScaleReport,
+                accept=lambda report, sensor=sensor: report.sensorType == sensor,
             )
             self.supportedTypes[int(sensor)] = scaleReport.scaleBitMask
diff --git a/pyzwave/node.py b/pyzwave/node.py
index 8acbd53..4335ec8 100644
--- a/pyzwave/node.py
+++ b/pyzwave/node.py
@@ -239,10 +239,14 @@ class Node(Listenable, MessageWaiter):
         )
 
     async def sendAndReceive(
-        self, cmd: Message, waitFor: Message, timeout: int = 3, **kwargs
+        self, cmd: Message, waitFor: Message, timeout: int = 3, accept=None, **kwargs
     ) -> Message:
-        """Send a message and wait for the response"""
-        session = self.addWaitingSession(waitFor)
+        """
+        Send a message and wait for the response
+
+        :param accept: Optional callable deciding if a received message is the response.
+        """
+        session = self.addWaitingSession(waitFor, accept)
         try:
             retval = await self.send(cmd, **kwargs)
             if not retval:
-- 
2.43.0


From e5ea3a57193b160c0e27a441667c55e67485f463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 30/52] fix: a truncated sensor report raised in the filter

---
 pyzwave/commandclass/SensorMultilevel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 4df8e7b..75d7fcf 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -171,6 +171,9 @@ class SensorMultilevel(CommandClass):
         if not supportedScales:
             # Type is not supported, suppress further processing
             return True
+        if report.sensorValue is None:
+            # Truncated report
+            return True
         scaleMask = 1 << report.sensorValue.scale
         if supportedScales & scaleMask == 0:
             # Scale is not supported, suppress message
-- 
2.43.0


From 12cb4124beedf36ffd05acd028f9fe1dbb629335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 31/52] fix: sensor types not announced any longer stayed
 recorded after a new interview

---
 pyzwave/commandclass/SensorMultilevel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/commandclass/SensorMultilevel.py b/pyzwave/commandclass/SensorMultilevel.py
index 75d7fcf..9b258fe 100644
--- a/pyzwave/commandclass/SensorMultilevel.py
+++ b/pyzwave/commandclass/SensorMultilevel.py
@@ -186,6 +186,10 @@ class SensorMultilevel(CommandClass):
         report: Message = await self.sendAndReceive(
             SupportedGetSensor(), SupportedSensorReport
         )
+        for sensor in list(self.supportedTypes):
+            if sensor not in report.bitMask:
+                # Announced by an earlier interview but not any longer
+                del self.supportedTypes[sensor]
         for sensor in report.bitMask:
             scaleReport = await self.sendAndReceive(
                 SupportedGetScale(sensorType=sensor),
-- 
2.43.0


From 08f031d1ce0d8b8c4bd63a00b38139c9814339b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 32/52] fix: group information was not saved, and reports for
 unlisted groups, truncated reports and failing requests raised

---
 pyzwave/commandclass/AssociationGrpInfo.py | 30 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index f054ba7..63c8238 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -1,4 +1,7 @@
 # from typing import Dict, List
+import asyncio
+import logging
+
 from pyzwave.const.ZW_classcmd import (
     COMMAND_CLASS_ASSOCIATION_GRP_INFO,
     ASSOCIATION_GROUP_COMMAND_LIST_GET,
@@ -22,6 +25,8 @@ from pyzwave.types import (
 from . import ZWaveMessage, ZWaveMessageHandler, ZWaveCommandClass
 from .CommandClass import DictAttribute, CommandClass
 
+_LOGGER = logging.getLogger(__name__)
+
 
 class Group(DictAttribute):
     """Attribute for an association group"""
@@ -171,15 +176,24 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupCommandListReport)
     async def __groupCommandListReport__(self, report: GroupCommandListReport, _flags):
+        if (
+            report.groupingIdentifier not in self.groupings
+            or report.commandClass is None
+        ):
+            return True
         self.groupings[report.groupingIdentifier].commands = list(report.commandClass)
+        self.speak("commandClassUpdated")
         return True
 
     @ZWaveMessageHandler(GroupInfoReport)
     async def __groupInfoReport__(self, report: GroupInfoReport, _flags):
-        for group in report.groups:
+        for group in report.groups or []:
             self.groupings[group.groupingIdentifier] = Group(profile=group.profile)
-            await self.send(GroupNameGet(groupingIdentifier=group.groupingIdentifier),)
-            await self.send(
+            self.speak("commandClassUpdated")
+            await self.__request__(
+                GroupNameGet(groupingIdentifier=group.groupingIdentifier),
+            )
+            await self.__request__(
                 GroupCommandListGet(
                     allowCache=True, groupingIdentifier=group.groupingIdentifier
                 ),
@@ -188,11 +202,19 @@ class AssociationGrpInfo(CommandClass):
 
     @ZWaveMessageHandler(GroupNameReport)
     async def __groupNameReport__(self, report: GroupNameReport, _flags):
-        if report.groupingIdentifier not in self.groupings:
+        if report.groupingIdentifier not in self.groupings or report.name is None:
             return True
         self.groupings[report.groupingIdentifier].name = report.name
+        self.speak("commandClassUpdated")
         return True
 
+    async def __request__(self, cmd: Message):
+        try:
+            await self.send(cmd)
+        except asyncio.TimeoutError:
+            # Still request the information of the other groups
+            _LOGGER.warning("Could not send %s", cmd)
+
     async def interview(self):
         # We may get several reports from this command. At this point we do not know how many so
         # it is easier to handle them all in groupInfoReport than waiting here
-- 
2.43.0


From 0ce431c5138be4a4dd577d2978b295ed14e972c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 33/52] fix: a truncated configuration report raised and
 recorded the parameter without its value

---
 pyzwave/commandclass/Configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzwave/commandclass/Configuration.py b/pyzwave/commandclass/Configuration.py
index 5773f39..01ac38c 100644
--- a/pyzwave/commandclass/Configuration.py
+++ b/pyzwave/commandclass/Configuration.py
@@ -128,6 +128,9 @@ class Configuration(CommandClass):
 
     @ZWaveMessageHandler(Report)
     async def __report__(self, report: Report, _flags):
+        if report.parameterNumber is None or report.value is None:
+            # Truncated report
+            return False
         number = int(report.parameterNumber)
         parameter = self.parameters.setdefault(number, ConfigurationValue())
         parameter.value = report.value
-- 
2.43.0


From 7934a89140539fbfcaf0b9c5e88d8f77479a551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 34/52] fix: a truncated report in the interview of a command
 class stopped the interview of the others

---
 pyzwave/commandclass/CommandClass.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index b896467..53452db 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -81,6 +81,12 @@ def interviewDecorator(interview):
         except asyncio.TimeoutError:
             _LOGGER.warning("Timeout interviewing command class %s", commandClass.name)
             return False
+        except (TypeError, ValueError) as error:
+            # Reports lacking values
+            _LOGGER.warning(
+                "Failed interviewing command class %s: %s", commandClass.name, error
+            )
+            return False
         if retval is not False:
             commandClass._interviewed = True  # pylint: disable=protected-access
         commandClass.speak("commandClassUpdated")
-- 
2.43.0


From 7cefed32fe05baf7c92a74547015547160b410d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 35/52] fix: a truncated group report stopped the interview of
 the other association groups

---
 pyzwave/commandclass/Association.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index c09e874..c4f199c 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -149,13 +149,15 @@ class Association(CommandClass):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
-                accept=lambda report: report.groupingIdentifier == groupingIdentifier,
+                accept=lambda report: report.groupingIdentifier == groupingIdentifier
+                and report.maxNodesSupported is not None,
             )
         else:
             report = await self.sendAndReceive(
                 Get(groupingIdentifier=groupingIdentifier),
                 Report,
-                accept=lambda report: report.groupingIdentifier == groupingIdentifier,
+                accept=lambda report: report.groupingIdentifier == groupingIdentifier
+                and report.maxNodesSupported is not None,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
-- 
2.43.0


From a5c087049c646163546660188d746b732b452216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 36/52] fix: a raising coroutine listener ended the
 announcement for the others

---
 pyzwave/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzwave/util.py b/pyzwave/util.py
index 60c2219..2908138 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -136,7 +136,15 @@ class Listenable:
         Send message to listeners and wait for the listeners to respond.
         This a shorthand for awaiting thre result from speak()
         """
-        return await asyncio.gather(*self.speak(message, *args))
+        retval = []
+        for answer in await asyncio.gather(
+            *self.speak(message, *args), return_exceptions=True
+        ):
+            if isinstance(answer, BaseException):
+                _LOGGER.warning("Error calling listener.%s: %s", message, answer)
+                continue
+            retval.append(answer)
+        return retval
 
     def speak(self, message, *args) -> list:
         """
-- 
2.43.0


From 44ef50823f821227858873235e6d87e83facf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 37/52] fix: mailbox entries were handed out newest first and
 lost if the hand-out was not delivered

---
 pyzwave/mailbox.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 68ca9af..e5e721d 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -76,6 +76,7 @@ class MailboxService:
         self._adapter: Adapter = adapter
         self._adapter.addListener(self)
         self._lastQueueId = None
+        self._popLocks = {}
         self._queue = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
@@ -88,6 +89,11 @@ class MailboxService:
         return await self._adapter.send(msg)
 
     async def __popQueue__(self, nodeId: int, queueHandle: int):
+        # One at a time for each mailbox, the next request may hand out the same item
+        async with self._popLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__popQueueLocked__(nodeId, queueHandle)
+
+    async def __popQueueLocked__(self, nodeId: int, queueHandle: int):
         _LOGGER.debug("Pop queue (%d)", len(self._queue.get(queueHandle, [])))
         if not self._queue.get(queueHandle, None):
             return await self._adapter.sendToNode(
@@ -98,11 +104,12 @@ class MailboxService:
                     queueHandle=queueHandle,
                 ),
             )
-        queueItem = self._queue[queueHandle].pop()
+        # Oldest first. The item stays in the queue until it has been delivered
+        queueItem = self._queue[queueHandle][0]
         ret = await self._adapter.sendToNode(
             nodeId,
             Mailbox.Queue(
-                last=len(self._queue[queueHandle]) == 0,
+                last=len(self._queue[queueHandle]) == 1,
                 operation=Mailbox.Queue.Operation.POP,
                 queueHandle=queueHandle,
                 mailboxEntry=queueItem.data,
@@ -110,6 +117,7 @@ class MailboxService:
         )
         _LOGGER.info("Sent message from queue: %s", ret)
         if ret:
+            self._queue[queueHandle].remove(queueItem)
             queueItem.stop()
         return True
 
-- 
2.43.0


From b2d16ece6320fc734e7f1464b8e37c1b7acb54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 38/52] fix: overlapping pushes of the same mailbox entry
 stored it twice

---
 pyzwave/mailbox.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index e5e721d..6f6efbb 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -77,6 +77,7 @@ class MailboxService:
         self._adapter.addListener(self)
         self._lastQueueId = None
         self._popLocks = {}
+        self._pushLocks = {}
         self._queue = {}
 
     async def initialize(self, ipaddress: IPv6Address, port: int) -> bool:
@@ -122,6 +123,13 @@ class MailboxService:
         return True
 
     async def __pushQueue__(self, nodeId: int, queueHandle: int, message: bytes):
+        # One at a time for each mailbox, to find duplicates of items not confirmed yet
+        async with self._pushLocks.setdefault(queueHandle, asyncio.Lock()):
+            return await self.__pushQueueLocked__(nodeId, queueHandle, message)
+
+    async def __pushQueueLocked__(
+        self, nodeId: int, queueHandle: int, message: bytes
+    ):
         queueItem = QueueItem(nodeId, queueHandle, message, self._adapter)
         checksum = queueItem.checksum
         for item in self._queue.setdefault(queueHandle, []):
-- 
2.43.0


From 2cd983399fcd32de7934d3c8201facdae953fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 39/52] fix: a heartbeat that timed out ended the heartbeat of
 the mailbox entry

---
 pyzwave/mailbox.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index 6f6efbb..a29cdda 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -58,15 +58,19 @@ class QueueItem:
             operation = Mailbox.Queue.Operation.WAITING
             if i % 10 == 0:
                 operation = Mailbox.Queue.Operation.PING
-            await self._adapter.sendToNode(
-                self._nodeId,
-                Mailbox.Queue(
-                    last=False,
-                    operation=operation,
-                    queueHandle=self._handle,
-                    mailboxEntry=self._data,
-                ),
-            )
+            try:
+                await self._adapter.sendToNode(
+                    self._nodeId,
+                    Mailbox.Queue(
+                        last=False,
+                        operation=operation,
+                        queueHandle=self._handle,
+                        mailboxEntry=self._data,
+                    ),
+                )
+            except asyncio.TimeoutError:
+                # Not delivered, try again with the next one
+                _LOGGER.warning("Timeout sending mailbox heartbeat")
 
 
 class MailboxService:
-- 
2.43.0


From 423150daa8d5c7bed0a0e889bd967722f5311372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 40/52] fix: an acknowledgement for no mailbox before the first
 wake-up got no reply

---
 pyzwave/mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index a29cdda..c0bfcc8 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -171,7 +171,7 @@ class MailboxService:
             isinstance(message, Mailbox.Queue)
             and message.operation == Mailbox.Queue.Operation.ACK
         ):
-            queueHandle = message.queueHandle or self._lastQueueId
+            queueHandle = message.queueHandle or self._lastQueueId or 0
             return await self.__popQueue__(rootNodeId, queueHandle)
 
         if (
-- 
2.43.0


From ad00517c3eb63ac940759f95d4fad324fc1082f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 41/52] fix: any failing heartbeat transmission ended the
 heartbeat of the mailbox entry

---
 pyzwave/mailbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzwave/mailbox.py b/pyzwave/mailbox.py
index c0bfcc8..282b9f0 100644
--- a/pyzwave/mailbox.py
+++ b/pyzwave/mailbox.py
@@ -68,9 +68,9 @@ class QueueItem:
                         mailboxEntry=self._data,
                     ),
                 )
-            except asyncio.TimeoutError:
+            except Exception as error:  # pylint: disable=broad-except
                 # Not delivered, try again with the next one
-                _LOGGER.warning("Timeout sending mailbox heartbeat")
+                _LOGGER.warning("Failed sending mailbox heartbeat: %r", error)
 
 
 class MailboxService:
-- 
2.43.0


From e0c57a5eb6d001501dfedd21afe5373d56a68120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 42/52] fix: values of builtin types were saved as None on
 Python 3.11 and later

---
 pyzwave/commandclass/CommandClass.py |  4 ++--
 pyzwave/util.py                      | 14 ++++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index 53452db..c6ab097 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -2,7 +2,7 @@ import asyncio
 import logging
 from typing import Dict, Any
 
-from pyzwave.util import AttributesMixin, Listenable
+from pyzwave.util import attributeState, AttributesMixin, Listenable
 from pyzwave.commandclass import ZWaveCommandClass
 from pyzwave.message import Message
 
@@ -42,7 +42,7 @@ def VarDictAttribute(KeyType, ValueType):  # pylint: disable=invalid-name
             return "{}:\n{}".format(self.__class__.__name__, "\n".join(attrs))
 
         def __getstate__(self):
-            return {i: value.__getstate__() for i, value in self.items()}
+            return {i: attributeState(value) for i, value in self.items()}
 
         def __setitem__(self, name, value):
             if isinstance(value, ValueType):
diff --git a/pyzwave/util.py b/pyzwave/util.py
index 2908138..8d36af6 100644
--- a/pyzwave/util.py
+++ b/pyzwave/util.py
@@ -10,6 +10,15 @@ from pyzwave.types import BitStreamReader
 _LOGGER = logging.getLogger(__name__)
 
 
+def attributeState(value):
+    """Returns the state to save for an attribute value"""
+    getter = getattr(type(value), "__getstate__", None)
+    if getter is None or getter is getattr(object, "__getstate__", None):
+        # Builtin type, is its own state. Python 3.11 and later have object.__getstate__
+        return value
+    return value.__getstate__()
+
+
 class AttributesMixin:
     """Inheritable class to implement defined attributes"""
 
@@ -80,10 +89,7 @@ class AttributesMixin:
     def __getstate__(self) -> Dict[str, Any]:
         values = {}
         for attr, value in self._attributes.items():
-            if hasattr(value, "__getstate__"):
-                values[attr] = value.__getstate__()
-            else:
-                values[attr] = value
+            values[attr] = attributeState(value)
         return values
 
     def __setattr__(self, name, value):
-- 
2.43.0


From a3e5c85766229e77dc60c5ad8d573e21ebfa8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 43/52] fix: classes saved as not interviewed came back as
 interviewed

---
 pyzwave/commandclass/CommandClass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/commandclass/CommandClass.py b/pyzwave/commandclass/CommandClass.py
index c6ab097..e8a6032 100644
--- a/pyzwave/commandclass/CommandClass.py
+++ b/pyzwave/commandclass/CommandClass.py
@@ -209,7 +209,9 @@ class CommandClass(AttributesMixin, Listenable):
 
     def __setstate__(self, state):
         self._version = int(state.get("version", 0))
-        self._interviewed = bool(state.get("interviewed", False))
+        # The storage may return values as strings
+        interviewed = state.get("interviewed", False)
+        self._interviewed = str(interviewed).lower() == "true"
         super().__setstate__(state)
 
     @staticmethod
-- 
2.43.0


From dfe8b231c5efdffe7678a5d65572d3846d4bfaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 44/52] fix: saved group commands came back as strings

---
 pyzwave/commandclass/AssociationGrpInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzwave/commandclass/AssociationGrpInfo.py b/pyzwave/commandclass/AssociationGrpInfo.py
index 63c8238..a2cd841 100644
--- a/pyzwave/commandclass/AssociationGrpInfo.py
+++ b/pyzwave/commandclass/AssociationGrpInfo.py
@@ -39,6 +39,11 @@ class Group(DictAttribute):
         ("commands", list),
     )
 
+    def __setstate__(self, state):
+        super().__setstate__(state)
+        # The storage may return values as strings
+        self.commands = [list(map(int, command)) for command in self.commands]
+
 
 class Groupings(dict):
     """Helper class for storing association groups"""
-- 
2.43.0


From 5f4618ca073a40a8b389a298ccc418df26cd0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 45/52] fix: an interrupted save destroyed the saved settings
 of the node

---
 pyzwave/persistantstorage.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyzwave/persistantstorage.py b/pyzwave/persistantstorage.py
index c2244e8..f31c4e3 100644
--- a/pyzwave/persistantstorage.py
+++ b/pyzwave/persistantstorage.py
@@ -1,7 +1,9 @@
 # -*- coding: utf-8 -*-
 
 import logging
+import os
 import pathlib
+import tempfile
 import yaml
 
 from pyzwave.commandclass import CommandClass
@@ -46,8 +48,19 @@ class YamlStorage(PersistantStorage):
         settings = {"supported": {}}
         for cmdClassId, cmdClass in node.supported.items():
             settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
-        with open(self.pathForNode(node.nodeId), "w") as fd:
-            yaml.dump(settings, fd)
+        path = self.pathForNode(node.nodeId)
+        path.parent.mkdir(parents=True, exist_ok=True)
+        # Write to a temporary file first, the old settings must survive if this is interrupted
+        fd, tmpPath = tempfile.mkstemp(dir=path.parent, prefix="." + path.name)
+        try:
+            with os.fdopen(fd, "w") as tmpFile:
+                yaml.dump(settings, tmpFile)
+                tmpFile.flush()
+                os.fsync(tmpFile.fileno())
+            os.replace(tmpPath, path)
+        except BaseException:
+            os.unlink(tmpPath)
+            raise
 
     @property
     def path(self) -> str:
-- 
2.43.0


From e49088170fd1ec67ca3e076ef44a9ccfcfd2d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 46/52] fix: sending from a socket not yet listening raised,
 and sendTo never reported success

---
 pyzwave/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index 6a41a8f..359a486 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -84,7 +84,11 @@ class Connection:
 
     def sendTo(self, msg, address) -> bool:
         """Send bytes to address"""
+        if not self._sock:
+            _LOGGER.error("Could not send, not yet listening!")
+            return False
         self._sock.sendto(msg, address)
+        return True
 
     def onMessage(self, cbfn):
         """Set the callback function to use when data has arrived"""
-- 
2.43.0


From aaad139ad1400714da617d23593e49c155916c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 47/52] fix: the loss of an earlier socket closed the socket of
 a later connection

---
 pyzwave/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index 359a486..c83d0c3 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -69,10 +69,12 @@ class Connection:
         )
 
     async def run(self, onConLost):  # pylint: disable=missing-function-docstring
+        # Connecting again replaces self._sock, only close the socket that was lost
+        sock = self._sock
         try:
             await onConLost
         finally:
-            self._sock.close()
+            sock.close()
 
     def send(self, msg) -> bool:
         """Send bytes to socket"""
-- 
2.43.0


From 56ace848907ef2074f0aee45657155cfc2ce3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 48/52] fix: load nodes again that an interrupted startup left
 unannounced

---
 pyzwave/application.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyzwave/application.py b/pyzwave/application.py
index 36dbf4b..984cd76 100644
--- a/pyzwave/application.py
+++ b/pyzwave/application.py
@@ -33,6 +33,8 @@ class Application(Listenable):
         self._typeInfo = (GENERIC_TYPE_STATIC_CONTROLLER, SPECIFIC_TYPE_GATEWAY)
         self._nodes = {}
         self._announced = set()
+        # Loaded, but not yet announced
+        self._loaded = set()
         self._nodesLock = asyncio.Lock()
         self._cmdClasses = []
 
@@ -43,6 +45,7 @@ class Application(Listenable):
         nodeEP.genericDeviceClass = report.genericDeviceClass
         nodeEP.specificDeviceClass = report.specificDeviceClass
         self._nodes[nodeEP.nodeId] = nodeEP
+        self._loaded.add(nodeEP.nodeId)
         return nodeEP
 
     async def loadNode(self, nodeId: int) -> list:
@@ -61,6 +64,7 @@ class Application(Listenable):
         node.listening = nodeInfo.listening
         node.specificDeviceClass = nodeInfo.specificDeviceClass
         self._nodes[node.nodeId] = node
+        self._loaded.add(node.nodeId)
 
         if node.supports(COMMAND_CLASS_MULTI_CHANNEL_V2):
             endpoints = await self.adapter.getMultiChannelEndPoints(nodeId)
@@ -118,6 +122,7 @@ class Application(Listenable):
         await self.ask("nodesAdded", nodes)
         for node in nodes:
             self._announced.add(node.nodeId)
+            self._loaded.discard(node.nodeId)
             # The storage restores the saved settings now. It must not save the initial
             # state of the node before that
             node.addListener(self._storage)
@@ -125,6 +130,9 @@ class Application(Listenable):
 
     async def __removeNodes__(self, nodeList: list):
         """Remove the nodes not in the node list any longer"""
+        # Left by an interrupted update or startup, these must be loaded again
+        while self._loaded:
+            self._nodes.pop(self._loaded.pop(), None)
         nodesToRemove = []
         for nodeId, node in self._nodes.items():
             if node.rootNodeId in nodeList:
-- 
2.43.0


From afdff4a27586f4663d176ee66625e577df8d1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 49/52] fix: association group lists split into several reports
 lost members

---
 pyzwave/commandclass/Association.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyzwave/commandclass/Association.py b/pyzwave/commandclass/Association.py
index c4f199c..cefe296 100644
--- a/pyzwave/commandclass/Association.py
+++ b/pyzwave/commandclass/Association.py
@@ -145,25 +145,35 @@ class Association(CommandClass):
     async def interviewGrouping(self, groupingIdentifier):
         """Interview an association group"""
         group = self.groupings[groupingIdentifier]
+        nodes = []
+
+        def accept(report):
+            if (
+                report.groupingIdentifier != groupingIdentifier
+                or report.maxNodesSupported is None
+            ):
+                return False
+            if report.reportsToFollow:
+                # A long list is split into several reports
+                nodes.extend(report.nodes)
+                return False
+            return True
+
         if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
             report = await self.sendAndReceive(
                 MultiChannelGet(groupingIdentifier=groupingIdentifier),
                 MultiChannelReport,
-                accept=lambda report: report.groupingIdentifier == groupingIdentifier
-                and report.maxNodesSupported is not None,
+                accept=accept,
             )
         else:
             report = await self.sendAndReceive(
-                Get(groupingIdentifier=groupingIdentifier),
-                Report,
-                accept=lambda report: report.groupingIdentifier == groupingIdentifier
-                and report.maxNodesSupported is not None,
+                Get(groupingIdentifier=groupingIdentifier), Report, accept=accept,
             )
         if report.groupingIdentifier != groupingIdentifier:
             # Got the wrong message. Should hopyfully not happen...
             return
         group.maxNodes = report.maxNodesSupported
-        group.nodes = report.nodes
+        group.nodes = nodes + report.nodes
 
     async def setupLifeLine(self, groupingIdentifier=1):
         """Setup the lifeline association group"""
-- 
2.43.0


From 105bb2d9c15bc179f5a854c3bd602c90d7ee11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:57 +0000
Subject: [PATCH 50/52] fix: a stopped gateway kept its node connections and
 listening socket open

---
 pyzwave/connection.py |  3 ++-
 pyzwave/zipgateway.py | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyzwave/connection.py b/pyzwave/connection.py
index c83d0c3..2240eb8 100644
--- a/pyzwave/connection.py
+++ b/pyzwave/connection.py
@@ -99,7 +99,8 @@ class Connection:
     def stop(self):
         """Stop the thread"""
         self._running = False
-        self._sock.close()
+        if self._sock:
+            self._sock.close()
 
     def _msgReceived(self, msg, sender):
         if not self._onMessage:
diff --git a/pyzwave/zipgateway.py b/pyzwave/zipgateway.py
index 7ce8c92..d6fee9f 100644
--- a/pyzwave/zipgateway.py
+++ b/pyzwave/zipgateway.py
@@ -119,6 +119,10 @@ class ZIPGateway(ZIPConnection):
         connection = ZIPConnection(ipv6.compressed, self.psk)
         connection.addListener(self)
         await connection.connect()
+        if self._stopped:
+            # The gateway was stopped in the meantime
+            connection.stop()
+            raise asyncio.TimeoutError()
         self._connections[nodeId] = connection
         return connection
 
@@ -356,6 +360,9 @@ class ZIPGateway(ZIPConnection):
         return False
 
     async def sendToNode(self, nodeId: int, cmd: Message, **kwargs) -> bool:
+        if self._stopped:
+            _LOGGER.error("Could not send, the connection is closed")
+            return False
         conn = await self.connectToNode(nodeId)
         return await conn.send(cmd, **kwargs)
 
@@ -395,3 +402,9 @@ class ZIPGateway(ZIPConnection):
         await self.getNodeList()
         async with self._nodesLock:
             await self.__resolveNodes__()
+
+    def stop(self):
+        super().stop()
+        self._unsolicitedConnection.stop()
+        while self._connections:
+            self._connections.popitem()[1].stop()
-- 
2.43.0


From 024a35de44a0ac31dac0501ec8d76a715dbb6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 51/52] fix: equal flags and bit fields of two messages never
 compared equal

---
 pyzwave/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 5cf1450..212cb7b 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -217,7 +217,7 @@ class BitsBase:
         self._value = int(value)
 
     def __eq__(self, other):
-        return self._value.__eq__(other)
+        return self._value == other
 
     def __int__(self):
         return self._value
-- 
2.43.0


From c213a60bcbf5be2156d3b87e60178cd85f71124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 52/52] fix: keys taken from another message could not be given
 to a message

---
 pyzwave/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzwave/types.py b/pyzwave/types.py
index 212cb7b..06f617e 100644
--- a/pyzwave/types.py
+++ b/pyzwave/types.py
@@ -356,6 +356,10 @@ class dsk_t:  # pylint: disable=invalid-name
         return self.__getstate__() == other
 
     def __setstate__(self, state):
+        if isinstance(state, dsk_t):
+            # Taken from another message
+            self._dsk = state._dsk
+            return
         if isinstance(state, bytes):
             if len(state) == 16 or len(state) == 0:
                 self._dsk = state
-- 
2.43.0

