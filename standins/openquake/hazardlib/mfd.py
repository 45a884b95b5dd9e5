"""Stand-in for openquake.hazardlib.mfd"""
import math


class BaseMFD(object):
    MODIFICATIONS = ()

    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s' % (
                modification, type(self).__name__))
        getattr(self, '_modify_' + modification)(**parameters)
        self.check_constraints()

    def check_constraints(self):
        pass


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = ('increment_max_mag', 'set_max_mag', 'increment_b',
                     'set_ab')

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        self.min_mag = min_mag
        self.max_mag = max_mag
        self.bin_width = bin_width
        self.a_val = a_val
        self.b_val = b_val
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width %g must be positive' % self.bin_width)
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude %g must be non-negative'
                             % self.min_mag)
        if not self.max_mag >= self.min_mag + self.bin_width:
            raise ValueError('maximum magnitude %g must be higher than '
                             'minimum magnitude %g by bin width %g at least'
                             % (self.max_mag, self.min_mag, self.bin_width))
        if not 0 < self.b_val:
            raise ValueError('b value %g must be non-negative' % self.b_val)

    def _range(self):
        min_mag = round(self.min_mag / self.bin_width) * self.bin_width
        max_mag = round(self.max_mag / self.bin_width) * self.bin_width
        if min_mag != max_mag:
            min_mag += self.bin_width / 2.0
            max_mag -= self.bin_width / 2.0
        return min_mag, int(round((max_mag - min_mag) / self.bin_width)) + 1

    def get_min_max_mag(self):
        min_mag, num_bins = self._range()
        return min_mag, min_mag + self.bin_width * (num_bins - 1)

    def _rate(self, mag):
        lo = mag - self.bin_width / 2.0
        hi = mag + self.bin_width / 2.0
        return 10 ** (self.a_val - self.b_val * lo) \
            - 10 ** (self.a_val - self.b_val * hi)

    def get_annual_occurrence_rates(self):
        mag, num_bins = self._range()
        rates = []
        for i in range(num_bins):
            rates.append((mag, self._rate(mag)))
            mag += self.bin_width
        return rates

    def _modify_increment_max_mag(self, value):
        self.max_mag += value

    def _modify_set_max_mag(self, value):
        self.max_mag = value

    def _modify_increment_b(self, value):
        self.b_val += value

    def _modify_set_ab(self, a_val, b_val):
        self.a_val = a_val
        self.b_val = b_val


class EvenlyDiscretizedMFD(BaseMFD):
    def __init__(self, min_mag, bin_width, occurrence_rates):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occurrence_rates = occurrence_rates
        self.check_constraints()

    def check_constraints(self):
        if not self.bin_width > 0:
            raise ValueError('bin width must be positive')
        if not self.occurrence_rates:
            raise ValueError('at least one bin must be specified')
        if not all(value >= 0 for value in self.occurrence_rates):
            raise ValueError('all occurrence rates must not be negative')
        if not self.min_mag >= 0:
            raise ValueError('minimum magnitude must be non-negative')

    def get_min_max_mag(self):
        return self.min_mag, \
            self.min_mag + self.bin_width * (len(self.occurrence_rates) - 1)

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, rate)
                for i, rate in enumerate(self.occurrence_rates)]
