import sys, shutil, subprocess, os
D=sys.argv[1]
def sub(f,a,b,n=1):
    p=D+"/pyzwave/"+f; s=open(p).read(); assert s.count(a)==n,(f,s.count(a),a[:80]); open(p,"w").write(s.replace(a,b))
# zipconnection
sub("zipconnection.py",'''        for _ in range(256):
            self._seq = (self._seq + 1) & 0xFF
            if self._seq not in self._ackQueue:
                break
        else:
            _LOGGER.error("All sequence numbers are waiting for an ack")
            return False
        msg = Zip.ZipPacket(''','''        seqNo = self._allocateSeq()
        if seqNo is None:
            _LOGGER.error("All sequence numbers are waiting for an ack")
            return False
        msg = self._wrap(cmd, seqNo, sourceEP, destEP)
        self._conn.send(msg.compose())
        self.resetKeepAlive()
        try:
            await self.waitForAck(seqNo, timeout=timeout)
            return True
        except asyncio.TimeoutError:
            return False

    def _allocateSeq(self):
        """Next free number, None if there is not any"""
        tries = 0
        while tries < 256:
            tries += 1
            self._seq = (self._seq + 1) % 256
            if self._seq in self._ackQueue:
                continue
            return self._seq
        return None

    @staticmethod
    def _wrap(cmd, seqNo, sourceEP, destEP):
        """Put a command in a Z/IP packet"""
        return Zip.ZipPacket(''')
sub("zipconnection.py",'''            seqNo=self._seq,
            sourceEP=sourceEP,
            destEP=destEP,
            command=cmd,
        )
        self._conn.send(msg.compose())
        self.resetKeepAlive()
        try:
            await self.waitForAck(msg.seqNo, timeout=timeout)
        except asyncio.TimeoutError:
            return False
        return True
''','''            seqNo=seqNo,
            sourceEP=sourceEP,
            destEP=destEP,
            command=cmd,
        )
''')
a=open(D+"/pyzwave/zipconnection.py").read()
i=a.index("        if isinstance(zipPkt, Zip.ZipPacket):"); j=a.index("    @property\n    def psk")
a=a[:i]+'''        if isinstance(zipPkt, ZipND.ZipNodeAdvertisement):
            self.commandReceived(zipPkt)
            return True
        if isinstance(zipPkt, Zip.ZipKeepAlive):
            return self._onKeepAlive(zipPkt)
        if isinstance(zipPkt, Zip.ZipPacket):
            return self._onZipPacket(zipPkt)
        _LOGGER.warning("Received unknown Z/IP packet from zipgateway: %s", zipPkt)
        return False

    def _onKeepAlive(self, zipPkt):
        if not zipPkt.ackResponse:
            _LOGGER.error("This message needs an ack response. Not implemented")
        return bool(zipPkt.ackResponse)

    def _onZipPacket(self, zipPkt):
        waiting = zipPkt.nackResponse and zipPkt.nackWaiting
        if zipPkt.ackResponse or waiting:
            self.ackReceived(zipPkt)
            return True
        if zipPkt.nackResponse or zipPkt.ackRequest:
            _LOGGER.error("Not implemented %s", zipPkt.debugString())
            return False
        if not zipPkt.zwCmdIncluded or zipPkt.command is None:
            return True
        self.commandReceived(zipPkt)
        return True

'''+a[j:]
open(D+"/pyzwave/zipconnection.py","w").write(a)
# mailbox
sub("mailbox.py",'''        for item in self._queue.setdefault(queueHandle, []):
            if item.checksum == checksum:
                # Message has already been queueud
                return False
''','''        queue = self._queue.setdefault(queueHandle, [])
        if any(checksum == other.checksum for other in queue):
            return False
''')
sub("mailbox.py",'''        i = 0
        while True:
            i += 1
            await asyncio.sleep(60)
            operation = Mailbox.Queue.Operation.WAITING
            if i % 10 == 0:
                operation = Mailbox.Queue.Operation.PING
''','''        rounds = [Mailbox.Queue.Operation.WAITING] * 9 + [Mailbox.Queue.Operation.PING]
        for operation in itertools.cycle(rounds):
            await asyncio.sleep(60)
''')
sub("mailbox.py","import asyncio\n","import asyncio\nimport itertools\n")
sub("mailbox.py",'''        if (
            isinstance(message, Mailbox.Queue)
            and message.operation == Mailbox.Queue.Operation.ACK
        ):
            queueHandle = message.queueHandle or self._lastQueueId or 0
            return await self.__popQueue__(rootNodeId, queueHandle)

        if (
            isinstance(message, Mailbox.Queue)
            and message.operation == Mailbox.Queue.Operation.PUSH
        ):
            return await self.__pushQueue__(
                rootNodeId, message.queueHandle, message.mailboxEntry
            )''','''        if not isinstance(message, Mailbox.Queue):
            return None
        if message.operation == Mailbox.Queue.Operation.PUSH:
            return await self.__pushQueue__(
                rootNodeId, message.queueHandle, message.mailboxEntry
            )
        if message.operation == Mailbox.Queue.Operation.ACK:
            target = message.queueHandle or self._lastQueueId or 0
            return await self.__popQueue__(rootNodeId, target)
        return None''')
# gateway
s=open(D+"/pyzwave/zipgateway.py").read()
s=s.replace("        self._nmSeq = (self._nmSeq + 1) & 0xFF\n","        self._stepSeq()\n")
s=s.replace("    async def addNode(self","    def _stepSeq(self):\n        self._nmSeq = (self._nmSeq + 1) % 256\n\n    async def addNode(self",1)
open(D+"/pyzwave/zipgateway.py","w").write(s)
sub("zipgateway.py",'''        for nodeId, node in self._nodes.items():
            if node.get("ip") != sourceIp:
                continue
            if zipPkt.ackRequest:
                # This message needs an ack response.
                ackReponse = zipPkt.response(success=True)
                self._unsolicitedConnection.sendTo(ackReponse.compose(), address)

            self.speak(
                "messageReceived",
                nodeId,
                sourceEP,
                zipPkt.command,
                zipPkt.headerExtension,
            )
            return True
        _LOGGER.warning(
            "Got message from unknown sender %s: %s", sourceIp, zipPkt.command
        )
        return False
''','''        sender = next(
            (n for n, info in self._nodes.items() if info.get("ip") == sourceIp), None
        )
        if sender is None:
            _LOGGER.warning("Unknown sender %s: %s", sourceIp, zipPkt.command)
            return False
        if zipPkt.ackRequest:
            self._ack(zipPkt, address)
        self.speak(
            "messageReceived", sender, sourceEP, zipPkt.command, zipPkt.headerExtension
        )
        return True

    def _ack(self, zipPkt, address):
        reply = zipPkt.response(success=True).compose()
        self._unsolicitedConnection.sendTo(reply, address)
''')
sub("zipgateway.py",'''        for nodeId in self._nodes:
            if nodeId in nodes or nodeId not in self._connections:
                continue
            # The next node using this id may have another address
            self._connections.pop(nodeId).stop()
''','''        for gone in set(self._nodes) - set(nodes):
            connection = self._connections.pop(gone, None)
            if connection is not None:
                connection.stop()
''')
# node
sub("node.py",'''        i = 0
        supported = True
        securityS0 = False
        while i < len(cmdClasses):
            cmdClass = cmdClasses[i]
            if list(cmdClasses[i : i + 2]) == [0xF1, 0x00]:
                # Security Scheme 0 Mark
                securityS0 = True
                supported = True
                i += 2
                continue
            if cmdClass == 0xEF:
                # Support/Control mark
                supported = False
                i += 1
                continue
            clsObject = CommandClass.load(cmdClass, securityS0, self)
            if supported:
                self._supported[cmdClass] = clsObject
                clsObject.addListener(self)
            else:
                self._controlled[cmdClass] = clsObject
            # _LOGGER.info(
            #     "Load command class for %X %s", cmdClass, clsObject,
            # )
            i += 1
''','''        remaining = list(cmdClasses)
        target, securityS0 = self._supported, False
        while remaining:
            cmdClass = remaining.pop(0)
            if cmdClass == 0xEF:
                target = self._controlled
            elif cmdClass == 0xF1 and remaining[:1] == [0x00]:
                del remaining[0]
                target, securityS0 = self._supported, True
            else:
                clsObject = CommandClass.load(cmdClass, securityS0, self)
                target[cmdClass] = clsObject
                if target is self._supported:
                    clsObject.addListener(self)
''')
sub("node.py",'''        handled = False
        if self.messageReceived(message) is True:
            # Message has already been handled
            handled = True
        cmdClass: CommandClass = self.supported.get(message.cmdClass())
        if cmdClass:
            retval = await cmdClass.handleMessage(message, flags)
            if retval:
                return retval
        if handled:
            return True
        for retval in await self.ask("onMessage", message):
            if retval:
                return retval
''','''        awaited = self.messageReceived(message) is True
        cmdClass: CommandClass = self.supported.get(message.cmdClass())
        if cmdClass and await cmdClass.handleMessage(message, flags):
            return True
        if awaited:
            return True
        answers = await self.ask("onMessage", message)
        taken = [answer for answer in answers if answer]
        if taken:
            return taken[0]
''')
sub("node.py",'''        if self._storageStatus == StorageStatus.CLEAN:
            # Signal update needed
            self.speak("nodeUpdated")
        elif self._storageStatus == StorageStatus.LOCKED_CLEAN:
            # Storage is locked, move to dirty
            self._storageStatus = StorageStatus.LOCKED_DIRTY
''','''        if self._storageStatus != StorageStatus.CLEAN:
            self._storageStatus = StorageStatus.LOCKED_DIRTY
            return
        self.speak("nodeUpdated")
''')
# util
sub("util.py",'''        for listener in self._listeners:
            method = getattr(listener, message, None)
            if not method:
                continue
            if inspect''','''        for method in [getattr(x, message, None) for x in list(self._listeners)]:
            if not method:
                continue
            if inspect''')
# application
sub("application.py",'''        for nodeId, node in self._nodes.items():
            if node.rootNodeId in nodeList:
                continue
            nodesToRemove.append(nodeId)
''','''        nodesToRemove.extend(
            key for key, node in self._nodes.items() if node.rootNodeId not in nodeList
        )
''')
sub("application.py",'''        node = self._nodes.get(nodeId)
        if node:
            reply = await node.handleMessage(message, flags)
            if reply:
                # Message was handled
                return True
            return False
        if rootNodeId != self.adapter.nodeId:
            # Unknown node. Should not happen
            _LOGGER.warning(
                "Received message from unknown node %s: %s", nodeId, message
            )
            return False
''','''        if nodeId in self._nodes:
            return bool(await self._nodes[nodeId].handleMessage(message, flags))
        if not rootNodeId == self.adapter.nodeId:
            _LOGGER.warning("Unknown node %s: %s", nodeId, message)
            return False
''')
# storage
sub("persistantstorage.py",'''        settings = {"supported": {}}
        for cmdClassId, cmdClass in node.supported.items():
            settings["supported"][cmdClassId] = self.cmdClassRepresenter(cmdClass)
''','''        settings = {
            "supported": {
                key: self.cmdClassRepresenter(value)
                for key, value in node.supported.items()
            }
        }
''')
sub("persistantstorage.py",'''            if str(cmdClassId) not in supported:
                continue
            cmdClass.__setstate__(supported[str(cmdClassId)])
''','''            state = supported.get(str(cmdClassId))
            if state is not None:
                cmdClass.__setstate__(state)
''')
# association
sub("commandclass/Association.py",'''        nodes = []

        def accept(report):
            if (
                report.groupingIdentifier != groupingIdentifier
                or report.maxNodesSupported is None
            ):
                return False
            if report.reportsToFollow:
                # A long list is split into several reports
                nodes.extend(report.nodes)
                return False
            return True

        if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
            report = await self.sendAndReceive(
                MultiChannelGet(groupingIdentifier=groupingIdentifier),
                MultiChannelReport,
                accept=accept,
            )
        else:
            report = await self.sendAndReceive(
                Get(groupingIdentifier=groupingIdentifier), Report, accept=accept,
            )
        if report.groupingIdentifier != groupingIdentifier:
            # Got the wrong message. Should hopyfully not happen...
            return
        group.maxNodes = report.maxNodesSupported
        group.nodes = nodes + report.nodes
''','''        parts = []

        def mine(candidate):
            if candidate.groupingIdentifier != groupingIdentifier:
                return False
            if candidate.maxNodesSupported is None:
                return False
            if not candidate.reportsToFollow:
                return True
            parts.append(list(candidate.nodes))
            return False

        request, answer = Get, Report
        if self.node.supports(COMMAND_CLASS_MULTI_CHANNEL_ASSOCIATION_V2):
            request, answer = MultiChannelGet, MultiChannelReport
        report = await self.sendAndReceive(
            request(groupingIdentifier=groupingIdentifier), answer, accept=mine
        )
        if not report.groupingIdentifier == groupingIdentifier:
            return
        parts.append(report.nodes)
        group.maxNodes = report.maxNodesSupported
        group.nodes = [member for part in parts for member in part]
''')
sub("zipgateway.py",'''        while self._connections:
            self._connections.popitem()[1].stop()
''','''        connections, self._connections = self._connections, {}
        for nodeId in sorted(connections):
            connections[nodeId].stop()
''')
sub("zipgateway.py",'''        if self._stopped:
            # The gateway was stopped in the meantime
            connection.stop()
            raise asyncio.TimeoutError()
        self._connections[nodeId] = connection
        return connection
''','''        if not self._stopped:
            self._connections[nodeId] = connection
            return connection
        connection.stop()
        raise asyncio.TimeoutError()
''')
sub("types.py",'''        return self._value == other
''','''        if isinstance(other, BitsBase):
            return int(self) == int(other)
        return int(self) == other
''')
sub("commandclass/Association.py",'''        data = stream.remaining()
        nodes = []
        while data:
            node = data[0]
            data = data[1:]
            if node == MULTI_CHANNEL_ASSOCIATION_SET_MARKER_V2:
                break
            nodes.append((node, None))
        while data:
            node = data[0]
            endpoint = data[1]
            nodes.append((node, endpoint))
            data = data[2:]
        return nodes
''','''        data = list(stream.remaining())
        if MULTI_CHANNEL_ASSOCIATION_SET_MARKER_V2 in data:
            mark = data.index(MULTI_CHANNEL_ASSOCIATION_SET_MARKER_V2)
        else:
            mark = len(data)
        nodes = [(node, None) for node in data[:mark]]
        pairs = data[mark + 1 :]
        for i in range(0, len(pairs), 2):
            nodes.append((pairs[i], pairs[i + 1]))
        return nodes
''')
# configuration
sub("commandclass/Configuration.py",'''        number = int(report.parameterNumber)
        parameter = self.parameters.setdefault(number, ConfigurationValue())
        parameter.value = report.value
        parameter.size = int(report.size)
''','''        known = self.parameters
        number = int(report.parameterNumber)
        if number not in known:
            known[number] = ConfigurationValue()
        known[number].size = int(report.size)
        known[number].value = report.value
''')
# sensor
sub("commandclass/SensorMultilevel.py",'''        for sensor in list(self.supportedTypes):
            if sensor not in report.bitMask:
                # Announced by an earlier interview but not any longer
                del self.supportedTypes[sensor]
''','''        gone = [x for x in self.supportedTypes if x not in report.bitMask]
        for sensor in gone:
            self.supportedTypes.pop(sensor)
''')
sub("commandclass/SensorMultilevel.py",'''        value = int.from_bytes(stream.remaining(), byteorder="little", signed=False)
        i = 1
        while value > 0:
            if value & 1 == 1:
                try:
                    supported.add(SensorType(i))
                except ValueError:
                    # Sensor type not (yet) known by us
                    supported.add(i)
            value >>= 1
            i += 1
        return supported
''','''        known = set(SensorType)
        for offset, octet in enumerate(stream.remaining()):
            for bit in range(8):
                if octet & (1 << bit):
                    number = offset * 8 + bit + 1
                    supported.add(SensorType(number) if number in known else number)
        return supported
''')
sub("commandclass/CommandClass.py",'''        components = message.NAME.lower().split("_")
        name = "".join(["on", *map(str.title, components)])
        for retval in await self.ask(name, message, flags):
            if retval:
                return True

        # No message handlers for this kind of message
        return False
''','''        name = "on" + "".join(x.title() for x in message.NAME.lower().split("_"))
        return any(await self.ask(name, message, flags))
''')
# message
sub("message.py",'''        MsgCls = ZWaveMessage.get(hid, None)  # pylint: disable=invalid-name
        if MsgCls:
            msg = MsgCls()
            msg.parseAttributes(stream)
        else:
            msg = UnknownMessage(hid)
        return msg
''','''        if hid not in ZWaveMessage:
            return UnknownMessage(hid)
        msg = ZWaveMessage[hid]()
        msg.parseAttributes(stream)
        return msg
''')
# connection
sub("connection.py",'''        if not self._onMessage:
            return
        if self._server:
            self._onMessage(msg, sender)
        else:
            self._onMessage(msg)
''','''        receiver = self._onMessage
        if receiver:
            args = (msg, sender) if self._server else (msg,)
            receiver(*args)
''')
