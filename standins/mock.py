"""Stand-in for mock.Mock (calibration only)"""


class Mock(object):
    def __init__(self, **attrs):
        self.__dict__['method_calls'] = []
        self.__dict__.update(attrs)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(*args, **kw):
            self.method_calls.append((name, args, kw))
        return method
