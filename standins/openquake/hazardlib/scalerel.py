from collections import OrderedDict


class BaseMSR(object):
    pass


class WC1994(BaseMSR):
    pass


class PeerMSR(BaseMSR):
    pass


class PointMSR(BaseMSR):
    pass


class Leonard2014(BaseMSR):
    pass


def get_available_magnitude_scalerel():
    return OrderedDict((c.__name__, c) for c in (
        Leonard2014, PeerMSR, PointMSR, WC1994))


get_available_scalerel = get_available_magnitude_scalerel
