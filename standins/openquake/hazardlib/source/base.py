from openquake.hazardlib.source import BaseSeismicSource, ParametricSeismicSource, SeismicSource
