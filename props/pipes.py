"""Derived-curve pipelines used by the update properties."""
from fractions import Fraction

from curvepy import Curve, Line, Points

H = Fraction(1, 2)


def affine(y):
    return y * 2 + 1


def window_sum(ys):
    return sum(ys)


def moved_by(c, pipe):
    """How far the pipeline moves its source."""
    if 'offset' not in pipe:
        return 0
    return c.num(-3 if pipe == 'tmax_of_offset' else 3)


PIPES = {
    'map': lambda c, f: f.map(affine, skip_none=True),
    'offset': lambda c, f: f.offset(c.num(3)),
    'neg': lambda c, f: -f,
    'abs': lambda c, f: abs(f),
    'add': lambda c, f: f + 3,
    'square': lambda c, f: f * f,
    'sub': lambda c, f: f - f.map(affine, skip_none=True),
    'half': lambda c, f: f / 2,
    'max0': lambda c, f: Curve.max([f, 0]),
    'min0': lambda c, f: Curve.min([0, f]),
    'first': lambda c, f: Curve.first([f, 7]),
    'integral': lambda c, f: f.integral(),
    'sma2': lambda c, f: f.sma(2),
    'sma3': lambda c, f: f.sma(3),
    'ema': lambda c, f: f.ema(c.num(H)),
    'smma': lambda c, f: f.smma(2),
    'tmax2': lambda c, f: f.trailing_max(2),
    'tmin3': lambda c, f: f.trailing_min(3),
    'acc': lambda c, f: f.accumulator_map(window_sum, 2),
    'diff': lambda c, f: f.differential(),
    'extc': lambda c, f: f.extension('constant', start=True),
    'extt': lambda c, f: f.extension('tangent', start=True),
    'sma_offset': lambda c, f: f.sma(2).offset(c.num(3)),
    'sma_of_map': lambda c, f: f.map(affine, skip_none=True).sma(2),
    'ema_of_sma': lambda c, f: f.sma(2).ema(c.num(H)),
    'sma_plus_ema': lambda c, f: f.sma(2) + f.ema(c.num(H)),
    'tmax_of_sum': lambda c, f: (f + f.map(affine, skip_none=True)).trailing_max(2),
    'ext_of_sma': lambda c, f: f.sma(2).extension('constant', start=False),
    'ext_of_ema': lambda c, f: f.ema(c.num(H)).extension('tangent', start=False),
    'integral_of_offset': lambda c, f: f.offset(c.num(3)).integral(),
    'ema_period': lambda c, f: f.ema(c.num(8), is_period=True),
    'sma_period': lambda c, f: f.sma(c.num(4), is_period=True),
    'tmax_of_offset': lambda c, f: f.offset(c.num(-3)).trailing_max(2),
    'ema_of_add': lambda c, f: (f + 3).ema(c.num(H)),
    'sma_of_max0': lambda c, f: Curve.max([f, 0]).sma(2),
    'tmin_of_scaled': lambda c, f: (f * (Line(const=1, slope=0) * 2)).trailing_min(2),
    'rsi': lambda c, f: f.rsi(2),
    'max_of_smas': lambda c, f: Curve.max([f.sma(2), f.ema(c.num(H))]),
}
