class PMF(object):
    def __init__(self, data):
        if not data or not abs(float(sum(p for p, _ in data)) - 1.) < 1e-9:
            raise ValueError('values do not sum to 1')
        self.data = data
