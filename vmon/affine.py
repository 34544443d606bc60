"""Reference 3x3 affine algebra on 6-tuples (a, b, c, d, e, f); x' = a x + c y + e, y' = b x + d y + f."""
import math

IDENT = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def mul(m, n):
    """First m, then n."""
    return (
        m[0] * n[0] + m[1] * n[2], m[0] * n[1] + m[1] * n[3],
        m[2] * n[0] + m[3] * n[2], m[2] * n[1] + m[3] * n[3],
        m[4] * n[0] + m[5] * n[2] + n[4], m[4] * n[1] + m[5] * n[3] + n[5],
    )


def product(*ms):
    out = IDENT
    for m in ms:
        out = mul(out, m)
    return out


def mag(m):
    """Magnitudes rounding is relative to: for rotations and skews that of the largest linear entry."""
    if m[1] == 0 and m[2] == 0:
        return tuple(abs(v) for v in m)
    k = max(abs(v) for v in m[:4])
    return (k, k, k, k, abs(m[4]), abs(m[5]))


def bound(*ms):
    """Componentwise magnitude of the terms summed in product(*ms): what rounding is relative to."""
    return product(*[mag(m) for m in ms])


def scale(sx, sy):
    return (sx, 0.0, 0.0, sy, 0.0, 0.0)


def translate(x, y):
    return (1.0, 0.0, 0.0, 1.0, x, y)


def rotate(a):
    return (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0.0, 0.0)


def skew(a, b):
    return (1.0, math.tan(b), math.tan(a), 1.0, 0.0, 0.0)


def about(m, x, y):
    return [translate(-x, -y), m, translate(x, y)]


def apply(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def inverse(m):
    d = det(m)
    a, b, c, dd, e, f = m
    return (dd / d, -b / d, -c / d, a / d, (c * f - dd * e) / d, (b * e - a * f) / d)


def of(real):
    return tuple(float(real[i]) for i in range(6))


def close(m, n, tol):
    """tol: a number or six of them."""
    if not isinstance(tol, (tuple, list)):
        tol = (tol,) * 6
    return all(abs(x - y) <= t for x, y, t in zip(m, n, tol))
