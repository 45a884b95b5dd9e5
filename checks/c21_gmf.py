"""C21: ground motion fields survive XML -> CSV -> XML"""
import models
from roundtrip import drive

RULE = ('random models written as XML, extracted to records, written as CSV '
        'in memory, in a directory or in a zip file, and converted back; each '
        'stage is compared with rows and content computed independently; the '
        'signature is the content')
REQUIRE = ['records', 'csv files', 'documents', 'archives of kind mem',
           'archives of kind dir', 'archives of kind zip', 'big models']


def gmf(rnd, obs):
    drive(rnd, obs, models.gmf)


def big(rnd, obs):
    drive(rnd, obs, models.big(models.gmf))
    obs.ev('big models')


FAMILIES = [('big', big, 10, 150),
            ('gmf', gmf, 350, 6000)]
