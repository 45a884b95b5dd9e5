"""Stand-in for openquake.hazardlib.source"""


class BaseSeismicSource(object):
    def __init__(self, source_id, name, tectonic_region_type):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type

    def _num_rates(self):
        return len([1 for _mag, rate in self.mfd.get_annual_occurrence_rates()
                    if rate > 0])


class ParametricSeismicSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model):
        BaseSeismicSource.__init__(self, source_id, name,
                                   tectonic_region_type)
        if rupture_mesh_spacing is not None and not rupture_mesh_spacing > 0:
            raise ValueError('rupture mesh spacing must be positive')
        if rupture_aspect_ratio is not None and not rupture_aspect_ratio > 0:
            raise ValueError('rupture aspect ratio must be positive')
        self.mfd = mfd
        self.rupture_mesh_spacing = rupture_mesh_spacing
        self.magnitude_scaling_relationship = magnitude_scaling_relationship
        self.rupture_aspect_ratio = rupture_aspect_ratio
        self.temporal_occurrence_model = temporal_occurrence_model


SeismicSource = ParametricSeismicSource


class PointSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 location, nodal_plane_distribution,
                 hypocenter_distribution):
        ParametricSeismicSource.__init__(
            self, source_id, name, tectonic_region_type, mfd,
            rupture_mesh_spacing, magnitude_scaling_relationship,
            rupture_aspect_ratio, temporal_occurrence_model)
        if not lower_seismogenic_depth > upper_seismogenic_depth:
            raise ValueError('lower seismogenic depth must be below '
                             'upper seismogenic depth')
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.location = location
        self.nodal_plane_distribution = nodal_plane_distribution
        self.hypocenter_distribution = hypocenter_distribution

    def count_ruptures(self):
        return (self._num_rates() * len(self.nodal_plane_distribution.data)
                * len(self.hypocenter_distribution.data))


class AreaSource(PointSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 nodal_plane_distribution, hypocenter_distribution,
                 polygon, area_discretization):
        PointSource.__init__(
            self, source_id, name, tectonic_region_type, mfd,
            rupture_mesh_spacing, magnitude_scaling_relationship,
            rupture_aspect_ratio, temporal_occurrence_model,
            upper_seismogenic_depth, lower_seismogenic_depth,
            None, nodal_plane_distribution, hypocenter_distribution)
        self.polygon = polygon
        self.area_discretization = area_discretization

    def count_ruptures(self):
        return PointSource.count_ruptures(self) * len(
            self.polygon.discretize(self.area_discretization))


class SimpleFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model,
                 upper_seismogenic_depth, lower_seismogenic_depth,
                 fault_trace, dip, rake):
        ParametricSeismicSource.__init__(
            self, source_id, name, tectonic_region_type, mfd,
            rupture_mesh_spacing, magnitude_scaling_relationship,
            rupture_aspect_ratio, temporal_occurrence_model)
        if not lower_seismogenic_depth > upper_seismogenic_depth:
            raise ValueError('lower seismogenic depth must be below '
                             'upper seismogenic depth')
        self.upper_seismogenic_depth = upper_seismogenic_depth
        self.lower_seismogenic_depth = lower_seismogenic_depth
        self.fault_trace = fault_trace
        self.dip = dip
        self.rake = rake

    def count_ruptures(self):
        return self._num_rates() * len(self.fault_trace)


class ComplexFaultSource(ParametricSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd,
                 rupture_mesh_spacing, magnitude_scaling_relationship,
                 rupture_aspect_ratio, temporal_occurrence_model,
                 edges, rake):
        ParametricSeismicSource.__init__(
            self, source_id, name, tectonic_region_type, mfd,
            rupture_mesh_spacing, magnitude_scaling_relationship,
            rupture_aspect_ratio, temporal_occurrence_model)
        if len(edges) < 2:
            raise ValueError('at least two edges are required')
        self.edges = edges
        self.rake = rake

    def count_ruptures(self):
        return self._num_rates() * len(self.edges)


class CharacteristicFaultSource(BaseSeismicSource):
    def __init__(self, source_id, name, tectonic_region_type, mfd, surface,
                 rake, temporal_occurrence_model):
        BaseSeismicSource.__init__(self, source_id, name,
                                   tectonic_region_type)
        self.mfd = mfd
        self.surface = surface
        self.rake = rake
        self.temporal_occurrence_model = temporal_occurrence_model

    def count_ruptures(self):
        return self._num_rates()


from openquake.hazardlib.source import rupture, point, area, base
from openquake.hazardlib.source import simple_fault, complex_fault
from openquake.hazardlib.source import characteristic
