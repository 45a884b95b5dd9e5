"""C20: exposure models survive XML -> CSV -> XML"""
import os
import models
from roundtrip import drive, check_tables, check_node
from openquake.commonlib.converter import Converter

RULE = ('random models written as XML, extracted to records, written as CSV '
        'in memory, in a directory or in a zip file, and converted back; each '
        'stage is compared with rows and content computed independently; the '
        'signature is the content')
REQUIRE = ['records', 'csv files', 'documents', 'archives of kind mem',
           'archives of kind dir', 'archives of kind zip', 'big models',
           'models with many locations']


def exposure(rnd, obs):
    drive(rnd, obs, models.exposure)


def big(rnd, obs):
    drive(rnd, obs, models.big(models.exposure))
    obs.ev('big models')


def many(rnd, obs):
    "More than a thousand different locations"
    elem, canon, tables = models.exposure(
        rnd, n_assets=rnd.choice([1010, 1060, 1250]))
    fname = os.path.join(obs.scratch, 'many.xml')
    with open(fname, 'w') as f:
        f.write(models.document(elem, rnd))
    conv = Converter.from_nrml(fname)
    check_tables(obs, conv.tableset, tables, 'extracted')
    check_node(obs, conv.to_node(), canon, 'node-from-tables')
    obs.nontrivial(canon)
    obs.ev('models with many locations')


FAMILIES = [('many', many, 1, 20),
            ('big', big, 10, 150),
            ('exposure', exposure, 300, 5000)]
