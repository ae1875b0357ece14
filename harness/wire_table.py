"""The wire format of every command, one line per message: hid module.Class  fields in wire order.
f:N unsigned field of N bits; -:N reserved bits; other kinds are explained in spec/Wire.tla.
Emits spec/WireTab.tla; harness/wire.py reads the same table."""
TABLE = """
2001 Basic.Set value:8
2002 Basic.Get
2003 Basic.Report value:8
2201 ApplicationStatus.ApplicationBusy status:8 waitTime:8
2302 Zip.ZipPacket ackRequest:1 ackResponse:1 nackResponse:1 nackWaiting:1 nackQueueFull:1 nackOptionError:1 -:2 headerExtIncluded:1 zwCmdIncluded:1 moreInformation:1 secureOrigin:1 -:4 seqNo:8 -:1 sourceEP:7 -:1 destEP:7 headerExtension:ext command:msg
2303 Zip.ZipKeepAlive ackRequest:1 ackResponse:1 -:6
2501 SwitchBinary.Set value:8
2502 SwitchBinary.Get
2503 SwitchBinary.Report value:8
3101 SensorMultilevel.SupportedGetSensor
3102 SensorMultilevel.SupportedSensorReport bitMask:sensmask
3103 SensorMultilevel.SupportedGetScale sensorType:8
3104 SensorMultilevel.Get sensorType:8 -:3 scale:2 -:3
3105 SensorMultilevel.Report sensorType:8 sensorValue:float
3106 SensorMultilevel.SupportedScaleReport sensorType:8 -:4 scaleBitMask:4
3201 Meter.Get rateType:2 scale:3 -:3 scale2:8
3202 Meter.Report scale2:1 rateType:2 meterType:5 meterValue:float deltaTime:16
3203 Meter.SupportedGet
3204 Meter.SupportedReport meterReset:1 rateType:2 meterType:5 moreScaleTypes:1 scaleSupported:7 nbrScaleSupportedBytesToFollow:8 scaleSupportedByteN:rest
3205 Meter.Reset
3401 NetworkManagementInclusion.NodeAdd seqNo:8 -:8 mode:8 txOptions:8
3402 NetworkManagementInclusion.NodeAddStatus seqNo:8 status:8 -:8 newNodeID:8 nodeInfoLength:8 listening:1 -:7 optFunc:1 -:7 basicDeviceClass:8 genericDeviceClass:8 specificDeviceClass:8 commandClass:nif
3403 NetworkManagementInclusion.NodeRemove seqNo:8 -:8 mode:8
3404 NetworkManagementInclusion.NodeRemoveStatus seqNo:8 status:8 nodeID:8
3407 NetworkManagementInclusion.FailedNodeRemove seqNo:8 nodeID:8
3408 NetworkManagementInclusion.FailedNodeRemoveStatus seqNo:8 status:8 nodeID:8
3409 NetworkManagementInclusion.FailedNodeReplace seqNo:8 nodeID:8 txOptions:8 mode:8
340A NetworkManagementInclusion.FailedNodeReplaceStatus seqNo:8 status:8 nodeID:8
340B NetworkManagementInclusion.NodeNeightborUpdateRequest seqNo:8 nodeID:8
340C NetworkManagementInclusion.NodeNeightborUpdateStatus seqNo:8 status:8
340D NetworkManagementInclusion.ReturnRouteAssign seqNo:8 sourceNodeID:8 destinationNodeID:8
340E NetworkManagementInclusion.ReturnRouteAssignComplete seqNo:8 status:8
340F NetworkManagementInclusion.ReturnRouteDelete seqNo:8 nodeID:8
3410 NetworkManagementInclusion.ReturnRouteDeleteComplete seqNo:8 status:8
3411 NetworkManagementInclusion.NodeAddKeysReport seqNo:8 -:7 requestCSA:1 requestedKeys:8
3412 NetworkManagementInclusion.NodeAddKeysSet seqNo:8 -:6 grantCSA:1 accept:1 grantedKeys:8
3413 NetworkManagementInclusion.NodeAddDSKReport seqNo:8 -:4 inputDSKLength:4 dsk:dsk
3414 NetworkManagementInclusion.NodeAddDSKSet seqNo:8 accept:1 -:3 inputDSKLength:4 dsk:rest
3415 NetworkManagementInclusion.SmartStartJoinStartedReport seqNo:8 dsk:dsk
3419 NetworkManagementInclusion.IncludedNIFReport seqNo:8 dsk:dsk
5201 NetworkManagementProxy.NodeListGet seqNo:8
5202 NetworkManagementProxy.NodeListReport seqNo:8 status:8 nodeListControllerId:8 nodes:nodemask
5203 NetworkManagementProxy.NodeInfoCachedGet seqNo:8 -:4 maxAge:4 nodeID:8
5204 NetworkManagementProxy.NodeInfoCachedReport seqNo:8 status:4 age:4 listening:1 -:7 optFunc:1 -:7 -:8 basicDeviceClass:8 genericDeviceClass:8 specificDeviceClass:8 commandClass:rest
5205 NetworkManagementProxy.MultiChannelEndPointGet seqNo:8 nodeID:8
5206 NetworkManagementProxy.MultiChannelEndPointReport seqNo:8 nodeID:8 -:8 -:1 individualEndPoints:7 -:1 aggregatedEndPoints:7
5207 NetworkManagementProxy.MultiChannelCapabilityGet seqNo:8 nodeID:8 -:1 endPoint:7
5208 NetworkManagementProxy.MultiChannelCapabilityReport seqNo:8 nodeID:8 commandClassLength:8 -:1 endPoint:7 genericDeviceClass:8 specificDeviceClass:8 commandClass:rest
520B NetworkManagementProxy.FailedNodeListGet seqNo:8
520C NetworkManagementProxy.FailedNodeListReport seqNo:8 failedNodeList:nodemask
5801 ZipND.ZipNodeAdvertisement -:5 local:1 validity:2 nodeId:8 ipv6:ip homeId:u32
5804 ZipND.ZipInvNodeSolicitation -:4 local:1 -:3 nodeId:8
5901 AssociationGrpInfo.GroupNameGet groupingIdentifier:8
5902 AssociationGrpInfo.GroupNameReport groupingIdentifier:8 name:str
5903 AssociationGrpInfo.GroupInfoGet refreshCache:1 listMode:1 -:6 groupingIdentifier:8
5904 AssociationGrpInfo.GroupInfoReport listMode:1 dynamicInfo:1 groupCount:6 groups:groups
5905 AssociationGrpInfo.GroupCommandListGet allowCache:1 -:7 groupingIdentifier:8
5906 AssociationGrpInfo.GroupCommandListReport groupingIdentifier:8 commandClass:cmdlist
5E01 ZwavePlusInfo.Get
5E02 ZwavePlusInfo.Report zwavePlusVersion:8 roleType:8 nodeType:8 installerIconType:16 userIconType:16
5F01 ZipGateway.GatewayModeSet mode:8
5F02 ZipGateway.GatewayModeGet
5F03 ZipGateway.GatewayModeReport mode:8
5F04 ZipGateway.GatewayPeerSet peerProfile:8 ipv6:ip port:16 -:2 peerNameLength:6
5F08 ZipGateway.UnsolicitedDestinationSet unsolicitedIPv6Destination:ip port:16
5F0B ZipGateway.ApplicationNodeInfoSet commandClasses:rest
6901 Mailbox.ConfigurationGet
6902 Mailbox.ConfigurationSet -:5 mode:3 forwardingDestinationIPv6Address:ip udpPortNumber:16
6903 Mailbox.ConfigurationReport -:3 supportedModes:2 mode:3 mailboxCapacity:16 forwardingDestinationIPv6Address:ip udpPortNumber:16
6904 Mailbox.Queue -:4 last:1 operation:3 queueHandle:8 mailboxEntry:rest
6905 Mailbox.WakeupNotification queueHandle:8
6906 Mailbox.NodeFailing queueHandle:nfail
6907 Mailbox.QueueFlush queueHandle:8
6C01 Supervision.Get statusUpdates:1 -:1 sessionID:6 command:msgl
6C02 Supervision.Report moreStatusUpdates:1 wakeUpRequest:1 sessionID:6 status:8 duration:8
7004 Configuration.Set parameterNumber:8 default:1 -:4 size:3 value:szval
7005 Configuration.Get parameterNumber:8
7006 Configuration.Report parameterNumber:8 -:5 size:3 value:szvalrx
7008 Configuration.BulkGet parameterOffset:16 numberOfParameters:8
7009 Configuration.BulkReport parameterOffset:16 numberOfParameters:8 reportsToFollow:8 default:1 handshake:1 -:3 size:3 parameter:rest
7204 ManufacturerSpecific.Get
7205 ManufacturerSpecific.Report manufacturerID:16 productTypeID:16 productID:16
7801 NodeProvisioning.Set seqNo:8 dsk:dsk metaDataExtension:rest
7803 NodeProvisioning.ListIterationGet seqNo:8 remainingCounter:8
7804 NodeProvisioning.ListIterationReport seqNo:8 remainingCount:8 -:3 dskLengthN:5 dsk:dskn metaDataExtension:meta
8002 Battery.Get
8003 Battery.Report batteryLevel:8
8501 Association.Set groupingIdentifier:8 nodes:assoc
8502 Association.Get groupingIdentifier:8
8503 Association.Report groupingIdentifier:8 maxNodesSupported:8 reportsToFollow:8 nodes:assoc
8505 Association.GroupingsGet
8506 Association.GroupingsReport supportedGroupings:8
8611 Version.VersionGet
8612 Version.VersionReport zwaveLibraryType:8 zwaveProtocolVersion:8 zwaveProtocolSubVersion:8 applicationVersion:8 applicationSubVersion:8
8613 Version.VersionCommandClassGet requestedCommandClass:8
8614 Version.VersionCommandClassReport requestedCommandClass:8 commandClassVersion:8
8701 Indicator.Set value:8
8702 Indicator.Get
8703 Indicator.Report value:8
8E01 MultiChannelAssociation.MultiChannelSet groupingIdentifier:8 nodes:assoc
8E02 MultiChannelAssociation.MultiChannelGet groupingIdentifier:8
8E03 MultiChannelAssociation.MultiChannelReport groupingIdentifier:8 maxNodesSupported:8 reportsToFollow:8 nodes:assoc
"""


def table():
    """{hid: (class name, [(field, kind, width)])}"""
    out = {}
    for line in TABLE.strip().splitlines():
        hid, name, *fields = line.split()
        fs = []
        for f in fields:
            n, t = f.split(":")
            if n == "-":
                fs.append((n, "r", int(t)))
            elif t.isdigit():
                fs.append((n, "u", int(t)))
            else:
                fs.append((n, t, {"ip": 16, "u32": 4, "dsk": 16}.get(t, 0)))
        out[int(hid, 16)] = (name, fs)
    return out


def tla():
    rows = []
    for hid, (name, fs) in table().items():
        f = ", ".join('F("%s", "%s", %d)' % x for x in fs)
        rows.append("(%d :> <<%s>>)  \\* %s" % (hid, f, name))
    body = "\n    @@ ".join(rows)
    return ("------------------------------ MODULE WireTab ------------------------------\n"
            "(* Generated from tools/wire_table.py: the fields of every command, in wire order. *)\n"
            "EXTENDS Integers, TLC\n\nF(n, t, w) == [n |-> n, t |-> t, w |-> w]\n\nTab ==\n    "
            + body + "\n=============================================================================\n")


if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    open(os.path.join(here, "spec", "WireTab.tla"), "w").write(tla())
