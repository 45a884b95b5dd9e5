"""Stand-in: only what namespace packages need."""
import sys
import pkgutil


def declare_namespace(name):
    mod = sys.modules[name]
    mod.__path__ = pkgutil.extend_path(mod.__path__, name)
