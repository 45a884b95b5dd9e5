"""C19: vulnerability and fragility models survive XML -> CSV -> XML"""
import models
from roundtrip import drive

RULE = ('random models written as XML, extracted to records, written as CSV '
        'in memory, in a directory or in a zip file, and converted back; each '
        'stage is compared with rows and content computed independently; the '
        'signature is the content')
REQUIRE = ['records', 'csv files', 'documents', 'archives of kind mem',
           'archives of kind dir', 'archives of kind zip', 'big models']


def vulnerability(rnd, obs):
    drive(rnd, obs, models.vulnerability)


def discrete(rnd, obs):
    drive(rnd, obs, models.fragility_discrete)


def continuous(rnd, obs):
    drive(rnd, obs, models.fragility_continuous)


def big(rnd, obs):
    "Many sets, functions, limit states or levels"
    gen = rnd.choice([models.vulnerability, models.fragility_discrete,
                      models.fragility_continuous])
    drive(rnd, obs, models.big(gen))
    obs.ev('big models')


FAMILIES = [('big', big, 12, 150),
            ('vulnerability', vulnerability, 150, 2500),
            ('discrete', discrete, 150, 2500),
            ('continuous', continuous, 150, 2500)]
