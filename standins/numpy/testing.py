"""Stand-in for numpy.testing (numpy 1.8 semantics for scalars)"""


def _special(x):
    return x != x or x in (float('inf'), float('-inf'))


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if isinstance(actual, (list, tuple)) or isinstance(desired,
                                                       (list, tuple)):
        assert len(actual) == len(desired), (actual, desired)
        for a, d in zip(actual, desired):
            assert_almost_equal(a, d, decimal)
        return
    msg = ('\nArrays are not almost equal to %d decimals\n ACTUAL: %r\n '
           'DESIRED: %r' % (decimal, actual, desired))
    if isinstance(actual, complex) or isinstance(desired, complex):
        assert_almost_equal(complex(actual).real, complex(desired).real,
                            decimal)
        assert_almost_equal(complex(actual).imag, complex(desired).imag,
                            decimal)
        return
    if _special(actual) or _special(desired):
        if actual != actual and desired != desired:
            return
        if actual == desired:
            return
        raise AssertionError(msg)
    if round(abs(desired - actual), decimal) != 0:
        raise AssertionError(msg)


def assert_allclose(actual, desired, rtol=1e-7, atol=0):
    if isinstance(actual, (list, tuple)):
        assert len(actual) == len(desired)
        for a, d in zip(actual, desired):
            assert_allclose(a, d, rtol, atol)
        return
    assert abs(actual - desired) <= atol + rtol * abs(desired), (
        actual, desired)


def assert_equal(actual, desired):
    assert actual == desired, (actual, desired)


assert_array_almost_equal = assert_almost_equal
