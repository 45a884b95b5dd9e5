"""Workloads with one large dimension"""
import threading


class Scale(threading.local):
    "Which one of the sizes of an input is large, if any"
    def __init__(self):
        self.left = 0

    def __call__(self, rnd, sizes, large):
        """
        One of the sizes; when a big input is generated, one size in three
        is large, but no more than one
        """
        if self.left and rnd.random() < .35:
            self.left = 0
            return rnd.choice(large)
        return rnd.choice(sizes)


scale = Scale()


def big(gen):
    "The same generator or scenario with one large dimension"
    def generate(rnd, *args):
        scale.left = 1
        try:
            return gen(rnd, *args)
        finally:
            scale.left = 0
    return generate
