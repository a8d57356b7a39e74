"""Independent float64 Lie group reference (matrices, scipy's expm, closed-form logs).

Flat parameter orders are those of jaxlie: SO2 (cos, sin); SE2 (cos, sin, x, y);
SO3 (w, x, y, z); SE3 (w, x, y, z, tx, ty, tz). Tangents: SE2 (x, y, theta),
SE3 (translation, rotation)."""
import numpy as np
from scipy.linalg import expm

TANGENT = dict(so2=1, se2=3, so3=3, se3=6)
PARAMS = dict(so2=2, se2=4, so3=4, se3=7)


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def hat(g, d):
    d = np.asarray(d, float)
    if g == "so2":
        return np.array([[0, -d[0]], [d[0], 0.0]])
    if g == "se2":
        return np.array([[0, -d[2], d[0]], [d[2], 0, d[1]], [0, 0, 0.0]])
    if g == "so3":
        return skew(d)
    m = np.zeros((4, 4))
    m[:3, :3] = skew(d[3:])
    m[:3, 3] = d[:3]
    return m


def exp(g, d):
    return expm(hat(g, d))


def quat_to_rot(q):
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
        ]
    )


def rot_to_quat(R):
    t = np.trace(R)
    q = np.array(
        [
            1 + t,
            1 + R[0, 0] - R[1, 1] - R[2, 2],
            1 - R[0, 0] + R[1, 1] - R[2, 2],
            1 - R[0, 0] - R[1, 1] + R[2, 2],
        ]
    )
    k = int(np.argmax(q))
    s = np.sqrt(max(q[k], 0.0)) * 2
    if k == 0:
        out = [s / 4, (R[2, 1] - R[1, 2]) / s, (R[0, 2] - R[2, 0]) / s, (R[1, 0] - R[0, 1]) / s]
    elif k == 1:
        out = [(R[2, 1] - R[1, 2]) / s, s / 4, (R[0, 1] + R[1, 0]) / s, (R[0, 2] + R[2, 0]) / s]
    elif k == 2:
        out = [(R[0, 2] - R[2, 0]) / s, (R[0, 1] + R[1, 0]) / s, s / 4, (R[1, 2] + R[2, 1]) / s]
    else:
        out = [(R[1, 0] - R[0, 1]) / s, (R[0, 2] + R[2, 0]) / s, (R[1, 2] + R[2, 1]) / s, s / 4]
    return np.array(out)


def to_matrix(g, p):
    p = np.asarray(p, float)
    if g == "so2":
        return np.array([[p[0], -p[1]], [p[1], p[0]]])
    if g == "se2":
        return np.array([[p[0], -p[1], p[2]], [p[1], p[0], p[3]], [0, 0, 1.0]])
    if g == "so3":
        return quat_to_rot(p)
    m = np.eye(4)
    m[:3, :3] = quat_to_rot(p[:4])
    m[:3, 3] = p[4:]
    return m


def from_matrix(g, m):
    if g == "so2":
        return np.array([m[0, 0], m[1, 0]])
    if g == "se2":
        return np.array([m[0, 0], m[1, 0], m[0, 2], m[1, 2]])
    if g == "so3":
        return rot_to_quat(m)
    return np.concatenate([rot_to_quat(m[:3, :3]), m[:3, 3]])


def inv(g, m):
    if g in ("so2", "so3"):
        return m.T
    n = m.shape[0] - 1
    out = np.eye(n + 1)
    out[:n, :n] = m[:n, :n].T
    out[:n, n] = -m[:n, :n].T @ m[:n, n]
    return out


def log_so3(R):
    q = rot_to_quat(R)
    if q[0] < 0:
        q = -q
    n = np.linalg.norm(q[1:])
    if n < 1e-12:
        return 2 * q[1:]
    return 2 * np.arctan2(n, q[0]) / n * q[1:]


def log(g, m):
    if g == "so2":
        return np.array([np.arctan2(m[1, 0], m[0, 0])])
    if g == "se2":
        th = np.arctan2(m[1, 0], m[0, 0])
        if abs(th) < 1e-6:
            a, b = 1 - th * th / 6, th / 2
        else:
            a, b = np.sin(th) / th, (1 - np.cos(th)) / th
        V = np.array([[a, -b], [b, a]])
        return np.concatenate([np.linalg.solve(V, m[:2, 2]), [th]])
    if g == "so3":
        return log_so3(m)
    w = log_so3(m[:3, :3])
    th = np.linalg.norm(w)
    W = skew(w)
    if th < 1e-4:
        V = np.eye(3) + W / 2 + W @ W / 6
    else:
        V = np.eye(3) + (1 - np.cos(th)) / th**2 * W + (th - np.sin(th)) / th**3 * W @ W
    return np.concatenate([np.linalg.solve(V, m[:3, 3]), w])


def angle(g, m):
    """Rotation angle of a group element, in [0, pi]."""
    if g in ("so2", "se2"):
        return abs(np.arctan2(m[1, 0], m[0, 0]))
    return np.linalg.norm(log_so3(m[:3, :3]))


def canon(g, p):
    """Fix the sign of quaternions."""
    p = np.array(p, float)
    if g in ("so3", "se3"):
        k = int(np.argmax(np.abs(p[:4]) > 0.4))
        if p[k] < 0:
            p[:4] = -p[:4]
    return p
