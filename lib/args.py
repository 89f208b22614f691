"""Argument-validity observations for ArgsTrace."""
import numpy as np

from vlib import Quiet


def exname(e):
    """the type of an exception; subclasses of ValueError and TypeError count as those"""
    return next((t.__name__ for t in (ValueError, TypeError) if isinstance(e, t)), type(e).__name__)


def outcome(f):
    with Quiet(), np.errstate(all="ignore"):
        try:
            f()
            return "ok"
        except Exception as e:
            return exname(e)


def facts(v):
    try:
        a = np.asarray(v.toarray() if hasattr(v, "toarray") else v, float)
    except Exception:
        return dict(nd=-1, len=0, neg=False, allzero=False, nonfinite=True)
    return dict(nd=int(a.ndim), len=int(a.shape[-1]) if a.ndim else 1, neg=bool((a < 0).any()),
                allzero=bool(a.size > 0 and (a == 0).all()), nonfinite=bool(not np.isfinite(a).all()))


def line(arg, what, v, want, f, **over):
    r = dict(arg=arg, what=what, want=int(want), **facts(v))
    r.update(over)
    r["outcome"] = outcome(f)
    return r


def plain(arg, what, f):
    return dict(arg=arg, what=what, want=0, nd=0, len=0, neg=False, allzero=False, nonfinite=False,
                outcome=outcome(f))


def check(ck, lines):
    ck.count("argument_lines", len(lines))
    for i, c in ck.trace("ArgsTrace", lines, "ArgClauses"):
        ck.violation(c, lines[i])


def weight_lines(n, call, zeros_ok=True):
    """call(w): uses w as sample weights of n rows"""
    out = []
    ones = np.ones(n)
    neg = ones.copy()
    neg[n // 2] = -1.0
    tinyneg = ones.copy()
    tinyneg[-1] = -1e-6
    nan = ones.copy()
    nan[1] = np.nan
    inf = ones.copy()
    inf[1] = np.inf
    some0 = ones.copy()
    some0[0] = 0
    for nm, v in [("ones", ones), ("list", ones.tolist()), ("some zeros", some0), ("scalar", 2.0), ("int scalar", 3),
                  ("ints", np.arange(1, n + 1)), ("negative", neg), ("slightly negative", tinyneg),
                  ("all negative", -ones), ("all zero", 0 * ones), ("zero scalar", 0.0), ("negative scalar", -1.0),
                  ("one too long", np.ones(n + 1)), ("one too short", np.ones(n - 1)), ("length one", np.ones(1)),
                  ("two-dimensional", np.ones((n, 1))), ("row", np.ones((1, n))), ("nan", nan), ("inf", inf),
                  ("empty", np.ones(0))]:
        out.append(line("sample_weight", nm, v, n, lambda v=v: call(v)))
    return out


def offset_lines(n, call):
    out = []
    z = np.linspace(-0.3, 0.3, n)
    nan = z.copy()
    nan[2] = np.nan
    for nm, v in [("vector", z), ("list", z.tolist()), ("scalar", 0.3), ("zero", 0), ("negative", -0.2),
                  ("zeros", 0 * z), ("one too long", np.append(z, 0.1)), ("one too short", z[:-1]),
                  ("length one", np.array([0.1])), ("two-dimensional", z.reshape(-1, 1)), ("row", z.reshape(1, -1)),
                  ("square", np.tile(z, (n, 1))), ("nan", nan), ("empty", z[:0])]:
        out.append(line("offset", nm, v, n, lambda v=v: call(v)))
    return out
