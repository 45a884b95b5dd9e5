"""Stand-in for openquake.nrmllib.models: plain containers"""


class SourceModel(object):
    def __init__(self, name=None, sources=None):
        self.name = name
        self.sources = sources

    def __iter__(self):
        return iter(self.sources)


class SeismicSource(object):
    def __init__(self, id=None, name=None, trt=None):
        self.id = id
        self.name = name
        self.trt = trt


class PointSource(SeismicSource):
    def __init__(self, id=None, name=None, trt=None, geometry=None,
                 mag_scale_rel=None, rupt_aspect_ratio=None, mfd=None,
                 nodal_plane_dist=None, hypo_depth_dist=None):
        SeismicSource.__init__(self, id, name, trt)
        self.geometry = geometry
        self.mag_scale_rel = mag_scale_rel
        self.rupt_aspect_ratio = rupt_aspect_ratio
        self.mfd = mfd
        self.nodal_plane_dist = nodal_plane_dist
        self.hypo_depth_dist = hypo_depth_dist


class PointGeometry(object):
    def __init__(self, wkt=None, upper_seismo_depth=None,
                 lower_seismo_depth=None):
        self.wkt = wkt
        self.upper_seismo_depth = upper_seismo_depth
        self.lower_seismo_depth = lower_seismo_depth


class AreaSource(PointSource):
    pass


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultSource(SeismicSource):
    def __init__(self, id=None, name=None, trt=None, geometry=None,
                 mag_scale_rel=None, rupt_aspect_ratio=None, mfd=None,
                 rake=None):
        SeismicSource.__init__(self, id, name, trt)
        self.geometry = geometry
        self.mag_scale_rel = mag_scale_rel
        self.rupt_aspect_ratio = rupt_aspect_ratio
        self.mfd = mfd
        self.rake = rake


class SimpleFaultGeometry(object):
    def __init__(self, wkt=None, dip=None, upper_seismo_depth=None,
                 lower_seismo_depth=None):
        self.wkt = wkt
        self.dip = dip
        self.upper_seismo_depth = upper_seismo_depth
        self.lower_seismo_depth = lower_seismo_depth


class ComplexFaultSource(SimpleFaultSource):
    pass


class ComplexFaultGeometry(object):
    def __init__(self, top_edge_wkt=None, bottom_edge_wkt=None,
                 int_edges=None):
        self.top_edge_wkt = top_edge_wkt
        self.bottom_edge_wkt = bottom_edge_wkt
        self.int_edges = int_edges if int_edges is not None else []


class CharacteristicSource(SeismicSource):
    def __init__(self, id=None, name=None, trt=None, mfd=None, rake=None,
                 surface=None):
        SeismicSource.__init__(self, id, name, trt)
        self.mfd = mfd
        self.rake = rake
        self.surface = surface


class PlanarSurface(object):
    def __init__(self, strike=None, dip=None, top_left=None, top_right=None,
                 bottom_left=None, bottom_right=None):
        self.strike = strike
        self.dip = dip
        self.top_left = top_left
        self.top_right = top_right
        self.bottom_left = bottom_left
        self.bottom_right = bottom_right


class Point(object):
    def __init__(self, longitude=None, latitude=None, depth=None):
        self.longitude = longitude
        self.latitude = latitude
        self.depth = depth


class IncrementalMFD(object):
    def __init__(self, min_mag=None, bin_width=None, occur_rates=None):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occur_rates = occur_rates


class TGRMFD(object):
    def __init__(self, a_val=None, b_val=None, min_mag=None, max_mag=None):
        self.a_val = a_val
        self.b_val = b_val
        self.min_mag = min_mag
        self.max_mag = max_mag


class NodalPlane(object):
    def __init__(self, probability=None, strike=None, dip=None, rake=None):
        self.probability = probability
        self.strike = strike
        self.dip = dip
        self.rake = rake


class HypocentralDepth(object):
    def __init__(self, probability=None, depth=None):
        self.probability = probability
        self.depth = depth


class SimpleFaultRuptureModel(object):
    def __init__(self, id=None, magnitude=None, rake=None, hypocenter=None,
                 geometry=None):
        self.id = id
        self.magnitude = magnitude
        self.rake = rake
        self.hypocenter = hypocenter
        self.geometry = geometry


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass
