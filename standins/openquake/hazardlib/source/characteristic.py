from openquake.hazardlib.source import CharacteristicFaultSource
