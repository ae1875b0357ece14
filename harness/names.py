"""The listener method for every message."""
NAMES = {
    0x2001: 'onSet',
    0x2002: 'onGet',
    0x2003: 'onReport',
    0x2201: 'onApplicationBusy',
    0x2302: 'onZipPacket',
    0x2303: 'onZipKeepAlive',
    0x2501: 'onSet',
    0x2502: 'onGet',
    0x2503: 'onReport',
    0x3101: 'onSupportedGetSensor',
    0x3102: 'onSupportedSensorReport',
    0x3103: 'onSupportedGetScale',
    0x3104: 'onGet',
    0x3105: 'onReport',
    0x3106: 'onSupportedScaleReport',
    0x3201: 'onGet',
    0x3202: 'onReport',
    0x3203: 'onSupportedGet',
    0x3204: 'onSupportedReport',
    0x3205: 'onReset',
    0x3401: 'onNodeAdd',
    0x3402: 'onNodeAddStatus',
    0x3403: 'onNodeRemove',
    0x3404: 'onNodeRemoveStatus',
    0x3407: 'onFailedNodeRemove',
    0x3408: 'onFailedNodeRemoveStatus',
    0x3409: 'onFailedNodeReplace',
    0x340A: 'onFailedNodeReplaceStatus',
    0x340B: 'onNodeNeighborUpdateRequest',
    0x340C: 'onNodeNeighborUpdateStatus',
    0x340D: 'onReturnRouteAssign',
    0x340E: 'onReturnRouteAssignComplete',
    0x340F: 'onReturnRouteDelete',
    0x3410: 'onReturnRouteDeleteComplete',
    0x3411: 'onNodeAddKeysReport',
    0x3412: 'onNodeAddKeysSet',
    0x3413: 'onNodeAddDskReport',
    0x3414: 'onNodeAddDskSet',
    0x3415: 'onSmartStartJoinStartedReport',
    0x3419: 'onIncludedNifReport',
    0x5201: 'onNodeListGet',
    0x5202: 'onNodeListReport',
    0x5203: 'onNodeInfoCachedGet',
    0x5204: 'onNodeInfoCachedReport',
    0x5205: 'onNmMultiChannelEndPointGet',
    0x5206: 'onNmMultiChannelEndPointReport',
    0x5207: 'onNmMultiChannelCapabilityGet',
    0x5208: 'onNmMultiChannelCapabilityReport',
    0x520B: 'onCommandFailedNodeListGet',
    0x520C: 'onCommandFailedNodeListReport',
    0x5801: 'onZipNodeAdvertisement',
    0x5804: 'onZipInvNodeSolicitation',
    0x5901: 'onGroupNameGet',
    0x5902: 'onGroupNameReport',
    0x5903: 'onGroupInfoGet',
    0x5904: 'onGroupInfoReport',
    0x5905: 'onGroupCommandListGet',
    0x5906: 'onGroupCommandListReport',
    0x5E01: 'onGet',
    0x5E02: 'onReport',
    0x5F01: 'onGatewayModeSet',
    0x5F02: 'onGatewayModeGet',
    0x5F03: 'onGatewayModeReport',
    0x5F04: 'onGatewayPeerSet',
    0x5F08: 'onUnsolicitedDestinationSet',
    0x5F0B: 'onCommandApplicationNodeInfoSet',
    0x6901: 'onConfigurationGet',
    0x6902: 'onConfigurationSet',
    0x6903: 'onConfigurationReport',
    0x6904: 'onQueue',
    0x6905: 'onWakeupNotification',
    0x6906: 'onNodeFailing',
    0x6907: 'onQueueFlush',
    0x6C01: 'onSupervisionGet',
    0x6C02: 'onSupervisionReport',
    0x7004: 'onSet',
    0x7005: 'onGet',
    0x7006: 'onReport',
    0x7008: 'onBulkGet',
    0x7009: 'onBulkReport',
    0x7204: 'onGet',
    0x7205: 'onReport',
    0x7801: 'onNodeProvisioningSet',
    0x7803: 'onListIterationGet',
    0x7804: 'onListIterationReport',
    0x8002: 'onGet',
    0x8003: 'onReport',
    0x8501: 'onSet',
    0x8502: 'onGet',
    0x8503: 'onReport',
    0x8505: 'onGroupingsGet',
    0x8506: 'onGroupingsReport',
    0x8611: 'onVersionGet',
    0x8612: 'onVersionReport',
    0x8613: 'onVersionCommandClassGet',
    0x8614: 'onVersionCommandClassReport',
    0x8701: 'onSet',
    0x8702: 'onGet',
    0x8703: 'onReport',
    0x8E01: 'onMultichannelSet',
    0x8E02: 'onMultichannelGet',
    0x8E03: 'onMultichannelReport',
}
