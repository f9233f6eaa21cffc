"""The properties and the rules that decide them."""
PROPS = {}


class Meta:
    def __init__(self, fn, level, assumptions):
        self.fn, self.level, self.assumptions = fn, level, assumptions


def prop(pid, level="proof", assumptions=()):
    def d(fn):
        PROPS[pid] = Meta(fn, level, assumptions)
        return fn
    return d


from . import evaluation  # noqa
from . import knots  # noqa
from . import points  # noqa
from . import params  # noqa
from . import insertion  # noqa
from . import fits  # noqa
from . import merging  # noqa
from . import structure  # noqa
from . import effects  # noqa
