"""Hypothesis building blocks that give JSON-able values."""
import math

from hypothesis import strategies as st


def num(lo, hi, steps=9973):
    """A generic number in [lo, hi]; shrinks towards lo. The grid is prime so
    that two numbers rarely coincide and nothing lines up by accident."""
    return st.integers(0, steps).map(lambda k: lo + (hi - lo) * (k / steps))


def lognum(lo, hi, steps=9973):
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, steps).map(lambda k: math.exp(a + (b - a) * (k / steps)))


seeds = st.integers(0, 2 ** 31 - 2)


@st.composite
def unit_vector(draw):
    z = draw(num(-1, 1))
    phi = draw(num(0, 2 * math.pi))
    s = math.sqrt(max(0.0, 1 - z * z))
    return [s * math.cos(phi), s * math.sin(phi), z]


AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]


@st.composite
def axis_angle(draw):
    """[angle, axis]: mostly generic, sometimes quarter turns about an axis."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return [draw(st.sampled_from([1, 2, 3, -1])) * math.pi / 2,
                list(draw(st.sampled_from(AXES)))]
    if kind == 1:
        return [draw(num(-math.pi, math.pi)), list(draw(st.sampled_from(AXES)))]
    return [draw(num(-math.pi, math.pi)), draw(unit_vector())]
