"""Stand-in for openquake.risklib.scientific"""


class VulnerabilityFunction(object):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution='LN'):
        imls = list(imls)
        mean_loss_ratios = list(mean_loss_ratios)
        covs = list(covs) if covs is not None else [0.] * len(imls)
        assert sorted(set(imls)) == imls, imls
        assert len(mean_loss_ratios) == len(imls)
        assert len(covs) == len(imls)
        assert all(x >= 0 for x in imls)
        assert all(x >= 0 for x in covs)
        for lr, cov in zip(mean_loss_ratios, covs):
            if lr == 0.0 and cov > 0.0:
                raise ValueError(
                    'It is not valid to define a loss ratio = 0.0 with a '
                    'corresponding coeff. of varation > 0.0')
        self.imt = imt
        self.imls = imls
        self.mean_loss_ratios = mean_loss_ratios
        self.covs = covs
        self.distribution_name = distribution


class FragilityFunctionDiscrete(object):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls = imls
        self.poes = poes
        self.no_damage_limit = no_damage_limit
        if len(imls) != len(poes):
            raise ValueError('imls and poes have different lengths')


class FragilityFunctionContinuous(object):
    def __init__(self, mean, stddev):
        self.mean = mean
        self.stddev = stddev
        if not mean > 0 or not stddev > 0:
            raise ValueError('mean and stddev must be positive')
