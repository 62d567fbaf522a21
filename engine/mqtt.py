"""The MQTT 5 tables the checks compare against (OASIS MQTT 5.0, sections 2 and 3)."""

CODES = {
    'CONNACK': {0: 'Success', 128: 'UnspecifiedError', 129: 'MalformedPacket', 130: 'ProtocolError',
                131: 'ImplementationSpecificError', 132: 'UnsupportedProtocolVersion',
                133: 'ClientIdentifierNotValid', 134: 'BadUserNameOrPassword', 135: 'NotAuthorized',
                136: 'ServerUnavailable', 137: 'ServerBusy', 138: 'Banned', 140: 'BadAuthenticationMethod',
                144: 'TopicNameInvalid', 149: 'PacketTooLarge', 151: 'QuotaExceeded',
                153: 'PayloadFormatInvalid', 154: 'RetainNotSupported', 155: 'QoSNotSupported',
                156: 'UseAnotherServer', 157: 'ServerMoved', 159: 'ConnectionRateExceeded'},
    'PUBACK': {0: 'Success', 16: 'NoMatchingSubscribers', 128: 'UnspecifiedError',
               131: 'ImplementationSpecificError', 135: 'NotAuthorized', 144: 'TopicNameInvalid',
               145: 'PacketIdentifierInUse', 151: 'QuotaExceeded', 153: 'PayloadFormatInvalid'},
    'SUBACK': {0: 'GrantedQoS0', 1: 'GrantedQoS1', 2: 'GrantedQoS2', 128: 'UnspecifiedError',
               131: 'ImplementationSpecificError', 135: 'NotAuthorized', 143: 'TopicFilterInvalid',
               145: 'PacketIdentifierInUse', 151: 'QuotaExceeded', 158: 'SharedSubscriptionsNotSupported',
               161: 'SubscriptionIdentifiersNotSupported', 162: 'WildcardSubscriptionsNotSupported'},
    'UNSUBACK': {0: 'Success', 17: 'NoSubscriptionExisted', 128: 'UnspecifiedError',
                 131: 'ImplementationSpecificError', 135: 'NotAuthorized', 143: 'TopicFilterInvalid',
                 145: 'PacketIdentifierInUse'},
    'DISCONNECT': {0: 'NormalDisconnection', 4: 'DisconnectWithWill', 128: 'UnspecifiedError',
                   129: 'MalformedPacket', 130: 'ProtocolError', 131: 'ImplementationSpecificError',
                   135: 'NotAuthorized', 137: 'ServerBusy', 139: 'ServerShuttingDown',
                   141: 'KeepAliveTimeout', 142: 'SessionTakenOver', 143: 'TopicFilterInvalid',
                   144: 'TopicNameInvalid', 147: 'ReceiveMaximumExceeded', 148: 'TopicAliasInvalid',
                   149: 'PacketTooLarge', 150: 'MessageRateTooHigh', 151: 'QuotaExceeded',
                   152: 'AdministrativeAction', 153: 'PayloadFormatInvalid', 154: 'RetainNotSupported',
                   155: 'QoSNotSupported', 156: 'UseAnotherServer', 157: 'ServerMoved',
                   158: 'SharedSubscriptionsNotSupported', 159: 'ConnectionRateExceeded',
                   160: 'MaximumConnectTime', 161: 'SubscriptionIdentifiersNotSupported',
                   162: 'WildcardSubscriptionsNotSupported'},
}

# spellings the library may use for a code point name (normalised: lower case, letters and digits only)
_ALIASES = {
    'NormalDisconnection': ('normal', 'normaldisconnect', 'success'),
    'Success': ('accepted',),
    'NoMatchingSubscribers': ('nomatchingsubscibers',),
    'GrantedQoS0': ('qos0', 'success', 'grantedqualityofservice0', 'maximumqos0'),
    'GrantedQoS1': ('qos1', 'maximumqos1'),
    'GrantedQoS2': ('qos2', 'maximumqos2'),
    'SharedSubscriptionsNotSupported': ('sharedsubsnotsupported', 'sharedsubscriptionnotsupported'),
    'SubscriptionIdentifiersNotSupported': ('subidsnotsupported', 'subscrpitionidsnotsupported',
                                            'subscriptionidsnotsupported', 'subscriptionidentifiernotsupported'),
    'WildcardSubscriptionsNotSupported': ('wildcardsubsnotsupported', 'wildcardsubscriptionnotsupported'),
    'DisconnectWithWill': ('disconnectwithwillmessage', 'withwill'),
    'ClientIdentifierNotValid': ('clientidnotvalid', 'clientidentifierinvalid'),
    'BadUserNameOrPassword': ('badusernameandpassword', 'badcredentials'),
    'BadAuthenticationMethod': ('badauthmethod',),
    'NoSubscriptionExisted': ('nosubscription',),
    'PacketIdentifierInUse': ('pktidinuse', 'packetidinuse'),
    'ReceiveMaximumExceeded': ('receivemaxexceeded',),
    'QoSNotSupported': (),
    'AtMostOnce': ('qos0',), 'AtLeastOnce': ('qos1',), 'ExactlyOnce': ('qos2',),
}


def nz(s):
    return ''.join(c for c in s.lower() if c.isalnum())


def spellings(name):
    return {nz(name)} | set(_ALIASES.get(name, ()))


VOCAB = {}
for _k, _t in CODES.items():
    for _n in _t.values():
        for _s in spellings(_n):
            VOCAB.setdefault(_s, set()).add(_n)
for _n in ('AtMostOnce', 'AtLeastOnce', 'ExactlyOnce'):
    for _s in spellings(_n):
        VOCAB.setdefault(_s, set()).add(_n)


def name_fits(actual, expected):
    """True: the variant name says the code point; False: it says another one; None: unknown name"""
    a = nz(actual)
    if a in spellings(expected):
        return True
    return False if a in VOCAB else None


QOS = {0: 'AtMostOnce', 1: 'AtLeastOnce', 2: 'ExactlyOnce'}

# property id -> (name, wire type, library spellings)
PROPS = {
    0x01: ('PayloadFormatIndicator', 'u8', ('payloadformatid', 'payloadformat')),
    0x02: ('MessageExpiryInterval', 'u32', ('messageexpiry',)),
    0x03: ('ContentType', 'str', ()),
    0x08: ('ResponseTopic', 'str', ()),
    0x09: ('CorrelationData', 'bin', ()),
    0x0B: ('SubscriptionIdentifier', 'vbi', ('subscriptionid', 'subid')),
    0x11: ('SessionExpiryInterval', 'u32', ('sessionexpiry',)),
    0x12: ('AssignedClientIdentifier', 'str', ('assignedclientid',)),
    0x13: ('ServerKeepAlive', 'u16', ()),
    0x15: ('AuthenticationMethod', 'str', ('authmethod',)),
    0x16: ('AuthenticationData', 'bin', ('authdata',)),
    0x17: ('RequestProblemInformation', 'u8', ('requestprobleminfo',)),
    0x18: ('WillDelayInterval', 'u32', ()),
    0x19: ('RequestResponseInformation', 'u8', ('requestresponseinfo',)),
    0x1A: ('ResponseInformation', 'str', ('responseinfo',)),
    0x1C: ('ServerReference', 'str', ()),
    0x1F: ('ReasonString', 'str', ()),
    0x21: ('ReceiveMaximum', 'u16', ('receivemax',)),
    0x22: ('TopicAliasMaximum', 'u16', ('topicaliasmax',)),
    0x23: ('TopicAlias', 'u16', ()),
    0x24: ('MaximumQoS', 'u8', ('maxqos',)),
    0x25: ('RetainAvailable', 'u8', ()),
    0x26: ('UserProperty', 'pair', ()),
    0x27: ('MaximumPacketSize', 'u32', ('maxpacketsize',)),
    0x28: ('WildcardSubscriptionAvailable', 'u8', ('wildcardsubsavailable',)),
    0x29: ('SubscriptionIdentifiersAvailable', 'u8', ('subscriptionidentifieravailable', 'subidsavailable')),
    0x2A: ('SharedSubscriptionAvailable', 'u8', ('sharedsubsavailable',)),
}

PROP_VOCAB = {}
for _i, (_n, _w, _a) in PROPS.items():
    for _s in (nz(_n),) + tuple(_a):
        PROP_VOCAB[_s] = _i

# properties a server may send, per packet type
ALLOWED_IN = {
    'CONNACK': {0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28,
                0x29, 0x2A},
    'PUBLISH': {0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26},
    'PUBACK': {0x1F, 0x26},
    'SUBACK': {0x1F, 0x26},
    'UNSUBACK': {0x1F, 0x26},
    'DISCONNECT': {0x1C, 0x1F, 0x26},
}
# properties a client may send, per packet type
ALLOWED_OUT = {
    'PUBLISH': {0x01, 0x02, 0x03, 0x08, 0x09, 0x23, 0x26},
    'PUBACK': {0x1F, 0x26},
    'SUBSCRIBE': {0x0B, 0x26},
    'UNSUBSCRIBE': {0x26},
    'DISCONNECT': {0x11, 0x1C, 0x1F, 0x26},
    'CONNECT': {0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16},
}
# packets a server may send
NIBBLES = {2: 'CONNACK', 3: 'PUBLISH', 4: 'PUBACK', 9: 'SUBACK', 11: 'UNSUBACK', 13: 'PINGRESP', 14: 'DISCONNECT'}
KIND_OF = {v: k for k, v in NIBBLES.items()}
ALL_NIBBLES = {'CONNECT': 1, 'CONNACK': 2, 'PUBLISH': 3, 'PUBACK': 4, 'PUBREC': 5, 'PUBREL': 6, 'PUBCOMP': 7,
               'SUBSCRIBE': 8, 'SUBACK': 9, 'UNSUBSCRIBE': 10, 'UNSUBACK': 11, 'PINGREQ': 12, 'PINGRESP': 13,
               'DISCONNECT': 14, 'AUTH': 15}


def prop_of_variant(name):
    """property id that an enum variant name stands for, or None"""
    return PROP_VOCAB.get(nz(name))
