"""Shared harness pieces."""
from curvepy import Points


# spacings that are not equal
FREE = ('free', 'uneven')


def mask_ys(c, n, name='y', none=False, lo=None, hi=None):
    """n symbolic ordinates, each optionally None."""
    out = []
    for i in range(n):
        if none and c.bool('%snone%d' % (name, i)):
            out.append(None)
        else:
            out.append(c.real('%s%d' % (name, i), lo, hi))
    return out


def make_points(c, n, spacing, interp=0, none=False, name='', cls=Points):
    """
    spacing: 'uniform'  equally spaced, uniform=True;
             'regular'  equally spaced, uniform=False;
             'free'     independent gaps, uniform=False;
             'unit'     at 0, 1, 2, ..., uniform=True;
             'uneven'   gaps 1, 2, 3, 1, 2, 3, ..., uniform=False.
    """
    if spacing == 'free':
        xs = c.xs(n, name + 'x')
    elif spacing == 'unit':
        xs = [c.num(i) for i in range(n)]
    elif spacing == 'uneven':
        xs = [c.num(i // 3 * 6 + (0, 1, 3)[i % 3]) for i in range(n)]
    else:
        xs = c.grid(n, name + 'x')[2]
    ys = mask_ys(c, n, name + 'y', none)
    f = cls(list(zip(xs, ys)), interpolation=interp, uniform=(spacing in ('uniform', 'unit')))
    return f, xs, ys


def points_oracle(c, xs, ys, interp, x, k, u):
    """Reference value of a point series at the located abscissa (x, k, u)."""
    n = len(xs)
    if k < 0 or k >= n:
        return None
    if k == n - 1 or u == 0:
        return ys[k]
    if interp < 0:
        return ys[k]
    if interp > 0:
        return ys[k + 1]
    if ys[k] is None or ys[k + 1] is None:
        return None
    return ys[k] + (ys[k + 1] - ys[k]) * u
