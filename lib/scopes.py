"""Calls that name the scope a formula's free names are taken from (context=0, 1, ...)."""


def fn(k):
    return lambda v: k + v**2


def call(f, args, kwargs, scopes, depth):
    """f(*args, **kwargs, context=depth), called from a function in whose scope kk is scopes[0],
    itself called from one in whose scope kk is scopes[1]; None: no such name there"""

    def bound():
        kk = scopes[0]
        myf = fn(kk)  # noqa: F841
        return f(*args, context=depth, **kwargs)

    def bare():
        return f(*args, context=depth, **kwargs)

    inner = bare if scopes[0] is None else bound

    def outer_bound():
        kk = scopes[1]
        myf = fn(kk)  # noqa: F841
        return inner()

    def outer_bare():
        return inner()

    return (outer_bare if scopes[1] is None else outer_bound)()


def draw(rng, kk, depth=None):
    """where kk is bound, when the scope at some depth has it"""
    depth = int(rng.integers(2)) if depth is None else depth
    other = [None, 7.0, -1.5][rng.integers(3)]
    return ([kk, other] if depth == 0 else [other, kk]), depth
