------------------------------ MODULE WireTab ------------------------------
(* Generated from tools/wire_table.py: the fields of every command, in wire order. *)
EXTENDS Integers, TLC

F(n, t, w) == [n |-> n, t |-> t, w |-> w]

Tab ==
    (8193 :> <<F("value", "u", 8)>>)  \* Basic.Set
    @@ (8194 :> <<>>)  \* Basic.Get
    @@ (8195 :> <<F("value", "u", 8)>>)  \* Basic.Report
    @@ (8705 :> <<F("status", "u", 8), F("waitTime", "u", 8)>>)  \* ApplicationStatus.ApplicationBusy
    @@ (8962 :> <<F("ackRequest", "u", 1), F("ackResponse", "u", 1), F("nackResponse", "u", 1), F("nackWaiting", "u", 1), F("nackQueueFull", "u", 1), F("nackOptionError", "u", 1), F("-", "r", 2), F("headerExtIncluded", "u", 1), F("zwCmdIncluded", "u", 1), F("moreInformation", "u", 1), F("secureOrigin", "u", 1), F("-", "r", 4), F("seqNo", "u", 8), F("-", "r", 1), F("sourceEP", "u", 7), F("-", "r", 1), F("destEP", "u", 7), F("headerExtension", "ext", 0), F("command", "msg", 0)>>)  \* Zip.ZipPacket
    @@ (8963 :> <<F("ackRequest", "u", 1), F("ackResponse", "u", 1), F("-", "r", 6)>>)  \* Zip.ZipKeepAlive
    @@ (9473 :> <<F("value", "u", 8)>>)  \* SwitchBinary.Set
    @@ (9474 :> <<>>)  \* SwitchBinary.Get
    @@ (9475 :> <<F("value", "u", 8)>>)  \* SwitchBinary.Report
    @@ (12545 :> <<>>)  \* SensorMultilevel.SupportedGetSensor
    @@ (12546 :> <<F("bitMask", "sensmask", 0)>>)  \* SensorMultilevel.SupportedSensorReport
    @@ (12547 :> <<F("sensorType", "u", 8)>>)  \* SensorMultilevel.SupportedGetScale
    @@ (12548 :> <<F("sensorType", "u", 8), F("-", "r", 3), F("scale", "u", 2), F("-", "r", 3)>>)  \* SensorMultilevel.Get
    @@ (12549 :> <<F("sensorType", "u", 8), F("sensorValue", "float", 0)>>)  \* SensorMultilevel.Report
    @@ (12550 :> <<F("sensorType", "u", 8), F("-", "r", 4), F("scaleBitMask", "u", 4)>>)  \* SensorMultilevel.SupportedScaleReport
    @@ (12801 :> <<F("rateType", "u", 2), F("scale", "u", 3), F("-", "r", 3), F("scale2", "u", 8)>>)  \* Meter.Get
    @@ (12802 :> <<F("scale2", "u", 1), F("rateType", "u", 2), F("meterType", "u", 5), F("meterValue", "float", 0), F("deltaTime", "u", 16)>>)  \* Meter.Report
    @@ (12803 :> <<>>)  \* Meter.SupportedGet
    @@ (12804 :> <<F("meterReset", "u", 1), F("rateType", "u", 2), F("meterType", "u", 5), F("moreScaleTypes", "u", 1), F("scaleSupported", "u", 7), F("nbrScaleSupportedBytesToFollow", "u", 8), F("scaleSupportedByteN", "rest", 0)>>)  \* Meter.SupportedReport
    @@ (12805 :> <<>>)  \* Meter.Reset
    @@ (13313 :> <<F("seqNo", "u", 8), F("-", "r", 8), F("mode", "u", 8), F("txOptions", "u", 8)>>)  \* NetworkManagementInclusion.NodeAdd
    @@ (13314 :> <<F("seqNo", "u", 8), F("status", "u", 8), F("-", "r", 8), F("newNodeID", "u", 8), F("nodeInfoLength", "u", 8), F("listening", "u", 1), F("-", "r", 7), F("optFunc", "u", 1), F("-", "r", 7), F("basicDeviceClass", "u", 8), F("genericDeviceClass", "u", 8), F("specificDeviceClass", "u", 8), F("commandClass", "nif", 0)>>)  \* NetworkManagementInclusion.NodeAddStatus
    @@ (13315 :> <<F("seqNo", "u", 8), F("-", "r", 8), F("mode", "u", 8)>>)  \* NetworkManagementInclusion.NodeRemove
    @@ (13316 :> <<F("seqNo", "u", 8), F("status", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.NodeRemoveStatus
    @@ (13319 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.FailedNodeRemove
    @@ (13320 :> <<F("seqNo", "u", 8), F("status", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.FailedNodeRemoveStatus
    @@ (13321 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8), F("txOptions", "u", 8), F("mode", "u", 8)>>)  \* NetworkManagementInclusion.FailedNodeReplace
    @@ (13322 :> <<F("seqNo", "u", 8), F("status", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.FailedNodeReplaceStatus
    @@ (13323 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.NodeNeightborUpdateRequest
    @@ (13324 :> <<F("seqNo", "u", 8), F("status", "u", 8)>>)  \* NetworkManagementInclusion.NodeNeightborUpdateStatus
    @@ (13325 :> <<F("seqNo", "u", 8), F("sourceNodeID", "u", 8), F("destinationNodeID", "u", 8)>>)  \* NetworkManagementInclusion.ReturnRouteAssign
    @@ (13326 :> <<F("seqNo", "u", 8), F("status", "u", 8)>>)  \* NetworkManagementInclusion.ReturnRouteAssignComplete
    @@ (13327 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementInclusion.ReturnRouteDelete
    @@ (13328 :> <<F("seqNo", "u", 8), F("status", "u", 8)>>)  \* NetworkManagementInclusion.ReturnRouteDeleteComplete
    @@ (13329 :> <<F("seqNo", "u", 8), F("-", "r", 7), F("requestCSA", "u", 1), F("requestedKeys", "u", 8)>>)  \* NetworkManagementInclusion.NodeAddKeysReport
    @@ (13330 :> <<F("seqNo", "u", 8), F("-", "r", 6), F("grantCSA", "u", 1), F("accept", "u", 1), F("grantedKeys", "u", 8)>>)  \* NetworkManagementInclusion.NodeAddKeysSet
    @@ (13331 :> <<F("seqNo", "u", 8), F("-", "r", 4), F("inputDSKLength", "u", 4), F("dsk", "dsk", 16)>>)  \* NetworkManagementInclusion.NodeAddDSKReport
    @@ (13332 :> <<F("seqNo", "u", 8), F("accept", "u", 1), F("-", "r", 3), F("inputDSKLength", "u", 4), F("dsk", "rest", 0)>>)  \* NetworkManagementInclusion.NodeAddDSKSet
    @@ (13333 :> <<F("seqNo", "u", 8), F("dsk", "dsk", 16)>>)  \* NetworkManagementInclusion.SmartStartJoinStartedReport
    @@ (13337 :> <<F("seqNo", "u", 8), F("dsk", "dsk", 16)>>)  \* NetworkManagementInclusion.IncludedNIFReport
    @@ (20993 :> <<F("seqNo", "u", 8)>>)  \* NetworkManagementProxy.NodeListGet
    @@ (20994 :> <<F("seqNo", "u", 8), F("status", "u", 8), F("nodeListControllerId", "u", 8), F("nodes", "nodemask", 0)>>)  \* NetworkManagementProxy.NodeListReport
    @@ (20995 :> <<F("seqNo", "u", 8), F("-", "r", 4), F("maxAge", "u", 4), F("nodeID", "u", 8)>>)  \* NetworkManagementProxy.NodeInfoCachedGet
    @@ (20996 :> <<F("seqNo", "u", 8), F("status", "u", 4), F("age", "u", 4), F("listening", "u", 1), F("-", "r", 7), F("optFunc", "u", 1), F("-", "r", 7), F("-", "r", 8), F("basicDeviceClass", "u", 8), F("genericDeviceClass", "u", 8), F("specificDeviceClass", "u", 8), F("commandClass", "rest", 0)>>)  \* NetworkManagementProxy.NodeInfoCachedReport
    @@ (20997 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8)>>)  \* NetworkManagementProxy.MultiChannelEndPointGet
    @@ (20998 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8), F("-", "r", 8), F("-", "r", 1), F("individualEndPoints", "u", 7), F("-", "r", 1), F("aggregatedEndPoints", "u", 7)>>)  \* NetworkManagementProxy.MultiChannelEndPointReport
    @@ (20999 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8), F("-", "r", 1), F("endPoint", "u", 7)>>)  \* NetworkManagementProxy.MultiChannelCapabilityGet
    @@ (21000 :> <<F("seqNo", "u", 8), F("nodeID", "u", 8), F("commandClassLength", "u", 8), F("-", "r", 1), F("endPoint", "u", 7), F("genericDeviceClass", "u", 8), F("specificDeviceClass", "u", 8), F("commandClass", "rest", 0)>>)  \* NetworkManagementProxy.MultiChannelCapabilityReport
    @@ (21003 :> <<F("seqNo", "u", 8)>>)  \* NetworkManagementProxy.FailedNodeListGet
    @@ (21004 :> <<F("seqNo", "u", 8), F("failedNodeList", "nodemask", 0)>>)  \* NetworkManagementProxy.FailedNodeListReport
    @@ (22529 :> <<F("-", "r", 5), F("local", "u", 1), F("validity", "u", 2), F("nodeId", "u", 8), F("ipv6", "ip", 16), F("homeId", "u32", 4)>>)  \* ZipND.ZipNodeAdvertisement
    @@ (22532 :> <<F("-", "r", 4), F("local", "u", 1), F("-", "r", 3), F("nodeId", "u", 8)>>)  \* ZipND.ZipInvNodeSolicitation
    @@ (22785 :> <<F("groupingIdentifier", "u", 8)>>)  \* AssociationGrpInfo.GroupNameGet
    @@ (22786 :> <<F("groupingIdentifier", "u", 8), F("name", "str", 0)>>)  \* AssociationGrpInfo.GroupNameReport
    @@ (22787 :> <<F("refreshCache", "u", 1), F("listMode", "u", 1), F("-", "r", 6), F("groupingIdentifier", "u", 8)>>)  \* AssociationGrpInfo.GroupInfoGet
    @@ (22788 :> <<F("listMode", "u", 1), F("dynamicInfo", "u", 1), F("groupCount", "u", 6), F("groups", "groups", 0)>>)  \* AssociationGrpInfo.GroupInfoReport
    @@ (22789 :> <<F("allowCache", "u", 1), F("-", "r", 7), F("groupingIdentifier", "u", 8)>>)  \* AssociationGrpInfo.GroupCommandListGet
    @@ (22790 :> <<F("groupingIdentifier", "u", 8), F("commandClass", "cmdlist", 0)>>)  \* AssociationGrpInfo.GroupCommandListReport
    @@ (24065 :> <<>>)  \* ZwavePlusInfo.Get
    @@ (24066 :> <<F("zwavePlusVersion", "u", 8), F("roleType", "u", 8), F("nodeType", "u", 8), F("installerIconType", "u", 16), F("userIconType", "u", 16)>>)  \* ZwavePlusInfo.Report
    @@ (24321 :> <<F("mode", "u", 8)>>)  \* ZipGateway.GatewayModeSet
    @@ (24322 :> <<>>)  \* ZipGateway.GatewayModeGet
    @@ (24323 :> <<F("mode", "u", 8)>>)  \* ZipGateway.GatewayModeReport
    @@ (24324 :> <<F("peerProfile", "u", 8), F("ipv6", "ip", 16), F("port", "u", 16), F("-", "r", 2), F("peerNameLength", "u", 6)>>)  \* ZipGateway.GatewayPeerSet
    @@ (24328 :> <<F("unsolicitedIPv6Destination", "ip", 16), F("port", "u", 16)>>)  \* ZipGateway.UnsolicitedDestinationSet
    @@ (24331 :> <<F("commandClasses", "rest", 0)>>)  \* ZipGateway.ApplicationNodeInfoSet
    @@ (26881 :> <<>>)  \* Mailbox.ConfigurationGet
    @@ (26882 :> <<F("-", "r", 5), F("mode", "u", 3), F("forwardingDestinationIPv6Address", "ip", 16), F("udpPortNumber", "u", 16)>>)  \* Mailbox.ConfigurationSet
    @@ (26883 :> <<F("-", "r", 3), F("supportedModes", "u", 2), F("mode", "u", 3), F("mailboxCapacity", "u", 16), F("forwardingDestinationIPv6Address", "ip", 16), F("udpPortNumber", "u", 16)>>)  \* Mailbox.ConfigurationReport
    @@ (26884 :> <<F("-", "r", 4), F("last", "u", 1), F("operation", "u", 3), F("queueHandle", "u", 8), F("mailboxEntry", "rest", 0)>>)  \* Mailbox.Queue
    @@ (26885 :> <<F("queueHandle", "u", 8)>>)  \* Mailbox.WakeupNotification
    @@ (26886 :> <<F("queueHandle", "nfail", 0)>>)  \* Mailbox.NodeFailing
    @@ (26887 :> <<F("queueHandle", "u", 8)>>)  \* Mailbox.QueueFlush
    @@ (27649 :> <<F("statusUpdates", "u", 1), F("-", "r", 1), F("sessionID", "u", 6), F("command", "msgl", 0)>>)  \* Supervision.Get
    @@ (27650 :> <<F("moreStatusUpdates", "u", 1), F("wakeUpRequest", "u", 1), F("sessionID", "u", 6), F("status", "u", 8), F("duration", "u", 8)>>)  \* Supervision.Report
    @@ (28676 :> <<F("parameterNumber", "u", 8), F("default", "u", 1), F("-", "r", 4), F("size", "u", 3), F("value", "szval", 0)>>)  \* Configuration.Set
    @@ (28677 :> <<F("parameterNumber", "u", 8)>>)  \* Configuration.Get
    @@ (28678 :> <<F("parameterNumber", "u", 8), F("-", "r", 5), F("size", "u", 3), F("value", "szvalrx", 0)>>)  \* Configuration.Report
    @@ (28680 :> <<F("parameterOffset", "u", 16), F("numberOfParameters", "u", 8)>>)  \* Configuration.BulkGet
    @@ (28681 :> <<F("parameterOffset", "u", 16), F("numberOfParameters", "u", 8), F("reportsToFollow", "u", 8), F("default", "u", 1), F("handshake", "u", 1), F("-", "r", 3), F("size", "u", 3), F("parameter", "rest", 0)>>)  \* Configuration.BulkReport
    @@ (29188 :> <<>>)  \* ManufacturerSpecific.Get
    @@ (29189 :> <<F("manufacturerID", "u", 16), F("productTypeID", "u", 16), F("productID", "u", 16)>>)  \* ManufacturerSpecific.Report
    @@ (30721 :> <<F("seqNo", "u", 8), F("dsk", "dsk", 16), F("metaDataExtension", "rest", 0)>>)  \* NodeProvisioning.Set
    @@ (30723 :> <<F("seqNo", "u", 8), F("remainingCounter", "u", 8)>>)  \* NodeProvisioning.ListIterationGet
    @@ (30724 :> <<F("seqNo", "u", 8), F("remainingCount", "u", 8), F("-", "r", 3), F("dskLengthN", "u", 5), F("dsk", "dskn", 0), F("metaDataExtension", "meta", 0)>>)  \* NodeProvisioning.ListIterationReport
    @@ (32770 :> <<>>)  \* Battery.Get
    @@ (32771 :> <<F("batteryLevel", "u", 8)>>)  \* Battery.Report
    @@ (34049 :> <<F("groupingIdentifier", "u", 8), F("nodes", "assoc", 0)>>)  \* Association.Set
    @@ (34050 :> <<F("groupingIdentifier", "u", 8)>>)  \* Association.Get
    @@ (34051 :> <<F("groupingIdentifier", "u", 8), F("maxNodesSupported", "u", 8), F("reportsToFollow", "u", 8), F("nodes", "assoc", 0)>>)  \* Association.Report
    @@ (34053 :> <<>>)  \* Association.GroupingsGet
    @@ (34054 :> <<F("supportedGroupings", "u", 8)>>)  \* Association.GroupingsReport
    @@ (34321 :> <<>>)  \* Version.VersionGet
    @@ (34322 :> <<F("zwaveLibraryType", "u", 8), F("zwaveProtocolVersion", "u", 8), F("zwaveProtocolSubVersion", "u", 8), F("applicationVersion", "u", 8), F("applicationSubVersion", "u", 8)>>)  \* Version.VersionReport
    @@ (34323 :> <<F("requestedCommandClass", "u", 8)>>)  \* Version.VersionCommandClassGet
    @@ (34324 :> <<F("requestedCommandClass", "u", 8), F("commandClassVersion", "u", 8)>>)  \* Version.VersionCommandClassReport
    @@ (34561 :> <<F("value", "u", 8)>>)  \* Indicator.Set
    @@ (34562 :> <<>>)  \* Indicator.Get
    @@ (34563 :> <<F("value", "u", 8)>>)  \* Indicator.Report
    @@ (36353 :> <<F("groupingIdentifier", "u", 8), F("nodes", "assoc", 0)>>)  \* MultiChannelAssociation.MultiChannelSet
    @@ (36354 :> <<F("groupingIdentifier", "u", 8)>>)  \* MultiChannelAssociation.MultiChannelGet
    @@ (36355 :> <<F("groupingIdentifier", "u", 8), F("maxNodesSupported", "u", 8), F("reportsToFollow", "u", 8), F("nodes", "assoc", 0)>>)  \* MultiChannelAssociation.MultiChannelReport
=============================================================================
