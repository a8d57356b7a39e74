"""Comparisons that raise Violation."""
import numpy as np

from .env import X64, Violation

RTOL = 1e-6 if X64 else 3e-3


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.size == 0:
        return 0.0
    return float(np.max(np.abs(a - b)))


def close(name, got, want, rtol=None, atol=None, scale=None):
    """|got - want| <= rtol * scale + atol elementwise, scale defaulting to max(1, |want|)."""
    rtol = RTOL if rtol is None else rtol
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (name, got.shape, want.shape))
    if got.size == 0:
        return
    got, want = got.astype(float), want.astype(float)
    if not np.all(np.isfinite(want)):
        raise AssertionError("reference is not finite: %s" % name)
    if not np.all(np.isfinite(got)):
        raise Violation("%s: not finite: %s, expected %s" % (name, _s(got), _s(want)))
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(want))))
    d = np.abs(got - want)
    lim = rtol * scale + (atol or 0.0)
    if float(np.max(d)) > lim:
        raise Violation(
            "%s: difference %.3g above %.3g\n  got      %s\n  expected %s"
            % (name, float(np.max(d)), lim, _s(got), _s(want))
        )


def _s(x):
    return np.array2string(np.asarray(x), precision=8, threshold=60, max_line_width=120)
