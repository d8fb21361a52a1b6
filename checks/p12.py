"""Vector, matrix, quaternion, colour, volume and bounding arithmetic: every operation is brought to an algebraic normal form over its
inputs, on every path, and compared component by component with its defining formula (rounding aside)."""
from algebra import *

XYZ, XYZW, RGBA = ['x', 'y', 'z'], ['x', 'y', 'z', 'w'], ['r', 'g', 'b', 'a']


def num(a):
    return Sym.var(a)


def build(t, name):
    """A value of a parameter type made of unknowns."""
    b = bare(t.rstrip('&* '))
    if t.rstrip().endswith('*'):
        if b in FLOATS:
            return [num('%s[%d]' % (name, i)) for i in range(17)]
        return Ptr(Cell(build(b, name)))
    if b in FLOATS and t.rstrip().endswith('&') and not t.startswith('const'):
        return Ptr(Cell(num(name)))
    if b in FLOATS or b == 'unsigned char':
        return num(name)
    if b in UNSIGNED or b in SIGNED:
        return T(name, b)
    if b in VECS:
        o = Obj(b, name)
        for c in VECS[b]:
            o.fields[c] = Cell(num('%s.%s' % (name, c)))
        return o
    if b in ('FMMatrix44', 'FMMatrix33'):
        n = int(b[-1])
        o = Obj(b, name)
        o.fields['m'] = Cell([[num('%s.m%d%d' % (name, i, j)) for j in range(n)] for i in range(n)])
        return o
    o = Obj(b, name)
    if b == 'FUBoundingBox':
        o.fields['minimum'] = Cell(build('FMVector3', name + '.min'))
        o.fields['maximum'] = Cell(build('FMVector3', name + '.max'))
    elif b == 'FUBoundingSphere':
        o.fields['center'] = Cell(build('FMVector3', name + '.c'))
        o.fields['radius'] = Cell(num(name + '.r'))
    elif b == 'FMLookAt':
        for f in ('position', 'target', 'up'):
            o.fields[f] = Cell(build('FMVector3', name + '.' + f))
    elif b == 'FMSkew':
        for f in ('rotateAxis', 'aroundAxis'):
            o.fields[f] = Cell(build('FMVector3', name + '.' + f))
        o.fields['angle'] = Cell(num(name + '.angle'))
    elif b == 'FMAngleAxis':
        o.fields['axis'] = Cell(build('FMVector3', name + '.axis'))
        o.fields['angle'] = Cell(num(name + '.angle'))
    return o


ORDER = {'FUBoundingBox': ['minimum', 'maximum'], 'FUBoundingSphere': ['center', 'radius'], 'FMLookAt': ['position', 'target', 'up'],
         'FMSkew': ['rotateAxis', 'aroundAxis', 'angle'], 'FMAngleAxis': ['axis', 'angle'], 'FMMatrix44': ['m'], 'FMMatrix33': ['m']}
ORDER.update(VECS)


def flat(v, I=None):
    if isinstance(v, Ptr):
        if v.i is not None:
            return [v.a[i] for i in range(v.i, len(v.a))]
        v = v.get()
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r += flat(x)
        return r
    if isinstance(v, (FieldView, FlatView)):
        return [v[i] for i in range(len(v))]
    if isinstance(v, Obj):
        r = []
        for f in ORDER.get(v.cls, sorted(v.fields)):
            c = v.fields.get(f)
            if c is None:
                r.append('unset %s' % f)
            else:
                r += flat(c.v)
        return r
    return [v]


def names(v, pre=''):
    if isinstance(v, Ptr) and v.i is None:
        v = v.get()
    if isinstance(v, (list, tuple)):
        r = []
        for i, x in enumerate(v):
            r += names(x, '%s[%d]' % (pre, i))
        return r
    if isinstance(v, Obj):
        r = []
        for f in ORDER.get(v.cls, sorted(v.fields)):
            c = v.fields.get(f)
            r += names(c.v, pre + '.' + f) if c is not None else [pre + '.' + f]
        return r
    return [pre or 'result']


# ---- small algebra for the formulas
def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def mul(a, s):
    return [x * s for x in a]


def dot(a, b):
    r = Sym.of(0)
    for x, y in zip(a, b):
        r = r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def length(a):
    return fn('sqrt', dot(a, a))


def mat(v, n):
    f = flat(v)
    return [f[i * n:i * n + n] for i in range(n)]


def matmul(a, b):
    """The columns of a matrix are its rows in memory: (a*b)[c][r] = sum a[k][r] b[c][k]."""
    n = len(a)
    return [[dot([a[k][r] for k in range(n)], b[c]) for r in range(n)] for c in range(n)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    r = Sym.of(0)
    for j in range(len(m)):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def adj(m):
    """Transposed cofactors."""
    n = len(m)
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(m) if k != i]
            d = det(minor)
            out[j][i] = d if (i + j) % 2 == 0 else -d
    return out


def ident(n):
    return [[Sym.of(1 if i == j else 0) for j in range(n)] for i in range(n)]


def diag(v, n):
    m = ident(n)
    for i, x in enumerate(v):
        m[i][i] = x
    return m


def rotation(axis, angle):
    """Rotation about a unit axis; columns in rows."""
    x, y, z = axis
    c, s = fn('cos', angle), fn('sin', angle)
    t = 1 - c
    zero, one = Sym.of(0), Sym.of(1)
    return [[t * x * x + c, t * x * y + s * z, t * x * z - s * y, zero],
            [t * x * y - s * z, t * y * y + c, t * y * z + s * x, zero],
            [t * x * z + s * y, t * y * z - s * x, t * z * z + c, zero],
            [zero, zero, zero, one]]


def qmul(p, q):
    """The library's concatenation: first p, then q."""
    x, y, z, w = p
    X, Y, Z, W = q
    return [W * x + X * w + Y * z - Z * y, W * y + Y * w + Z * x - X * z, W * z + Z * w + X * y - Y * x, W * w - X * x - Y * y - Z * z]


def qmat(q):
    x, y, z, w = q
    n = dot(q, q)
    s = 2 / n
    one = Sym.of(1)
    return [[one - s * (y * y + z * z), s * (x * y + w * z), s * (x * z - w * y)],
            [s * (x * y - w * z), one - s * (x * x + z * z), s * (y * z + w * x)],
            [s * (x * z + w * y), s * (y * z - w * x), one - s * (x * x + y * y)]]


class Spec:
    def __init__(self, out, ref, assume=None, alias=None, this=None, args=None):
        self.out, self.ref, self.assume, self.alias, self.this, self.args = out, ref, assume, alias, this, args


class Names:
    """The inputs of a model object by member name."""

    def __init__(self, o):
        self.o = o

    def __getattr__(self, n):
        c = self.__dict__['o'].fields.get(n)
        if c is None:
            raise Unsupported('no member %s' % n)
        return flat(c.v)


class Either:
    """One of several values, depending on a state the formula does not look at; the first one on some path."""

    def __init__(self, *v):
        self.v = v


SKIP = object()         # no obligation in this case (degenerate input)
S = {}


def spec(q, ps, out, ref, **kw):
    S[(q, ps)] = Spec(out, ref, **kw)


def each(o, f, *vs):
    return [f(*x) for x in zip(*vs)]


for n in (2, 3, 4):
    V = 'FMVector%d' % n
    c = 'const %s &' % V
    spec('operator+', (c, c), 'ret', lambda o, a, b: add(a, b))
    spec('operator-', (c, c), 'ret', lambda o, a, b: sub(a, b))
    spec('operator+', (c,), 'ret', lambda o, a: a)
    spec('operator-', (c,), 'ret', lambda o, a: [-x for x in a])
    spec('operator*', (c, c), 'ret', lambda o, a, b: [dot(a, b)])
    spec('operator*', (c, 'float'), 'ret', lambda o, a, s: mul(a, s[0]))
    spec('operator*', ('float', c), 'ret', lambda o, s, a: mul(a, s[0]))
    spec('operator/', (c, 'float'), 'ret', lambda o, a, s: mul(a, 1 / s[0]))
    spec('operator+=', (V + ' &', c), 'p0', lambda o, a, b: add(a, b))
    spec('operator-=', (V + ' &', c), 'p0', lambda o, a, b: sub(a, b))
    spec('operator*=', (V + ' &', 'float'), 'p0', lambda o, a, s: mul(a, s[0]))
    spec('operator/=', (V + ' &', 'float'), 'p0', lambda o, a, s: mul(a, 1 / s[0]))
    spec(V + '::operator+=', (c,), 'this', lambda o, t, a: add(t, a))
    spec(V + '::operator-=', (c,), 'this', lambda o, t, a: sub(t, a))
    spec(V + '::operator*=', ('float',), 'this', lambda o, t, s: mul(t, s[0]))
    spec(V + '::operator/=', ('float',), 'this', lambda o, t, s: mul(t, 1 / s[0]))
    spec(V + '::LengthSquared', (), 'ret', lambda o, t: [dot(t, t)])
    spec(V + '::Length', (), 'ret', lambda o, t: [length(t)])

    def normal(o, t):
        l = length(t)
        if o.sign(l) <= 0:
            return SKIP
        return mul(t, 1 / l)
    spec(V + '::NormalizeIt', (), 'this', normal)
    spec(V + '::Normalize', (), 'ret', normal)
    for cn in ('', 'const '):
        spec(V + '::operator %sfloat *' % cn, (), 'ret', lambda o, t: t)
    spec(V + '::operator=', ('const float *',), 'this', (lambda n: lambda o, t, a: a[:n])(n))
    spec(V + '::operator=', (c,), 'this', lambda o, t, a: a)
    spec(V + '::' + V, (c,), 'this', lambda o, t, a: a)
    spec(V + '::' + V, ('float',) * n, 'this', lambda o, t, *a: [x[0] for x in a])
    spec(V + '::Set', ('float',) * n, 'this', lambda o, t, *a: [x[0] for x in a])
    spec('IsEquivalent', (c, c), 'ret', lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))])
    spec('operator==', (c, c), 'ret', lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))])
    spec(V + '::ComponentMinimum', (c,), 'this', lambda o, t, a: each(o, o.max, t, a))
    spec(V + '::ComponentMaximum', (c,), 'this', lambda o, t, a: each(o, o.min, t, a))
    spec(V + '::ComponentClamp', (c, c), 'this', lambda o, t, a, b: each(o, o.min, each(o, o.max, t, a), b))
spec('operator^', ('const FMVector3 &', 'const FMVector3 &'), 'ret', lambda o, a, b: cross(a, b))
spec('FMVector3::Projected', ('const FMVector3 &',), 'ret', lambda o, t, a: mul(a, dot(t, a) / dot(a, a)))
spec('FMVector3::Project', ('const FMVector3 &',), 'this', lambda o, t, a: mul(a, dot(t, a) / dot(a, a)))
spec('FMVector3::ComponentMinimum', (), 'ret', lambda o, t: [(lambda a: o.min(a[0], o.min(a[1], a[2])))([fn('fabs', x) for x in t])])
spec('FMVector3::ComponentMaximum', (), 'ret', lambda o, t: [(lambda a: o.max(a[0], o.max(a[1], a[2])))([fn('fabs', x) for x in t])])
spec('FMVector3::ComponentAverage', (), 'ret', lambda o, t: [(fn('fabs', t[0]) + fn('fabs', t[1]) + fn('fabs', t[2])) / 3])
spec('FMVector3::FMVector3', ('const FMVector4 &',), 'this', lambda o, t, a: a[:3])
for ty in ('float', 'double'):
    for k in (0, 3):
        spec('FMVector3::FMVector3', ('const %s *' % ty, 'unsigned int=%d' % k), 'this', (lambda k: lambda o, t, a, i: a[k:k + 3])(k))
for k in (0, 5):
    spec('FMVector4::FMVector4', ('const float *', 'unsigned int=%d' % k), 'this', (lambda k: lambda o, t, a, i: a[k:k + 4])(k))
spec('FMVector4::FMVector4', ('const FMVector3 &', 'float'), 'this', lambda o, t, a, s: a + s)
spec('FMVector4::FMVector4', ('const FMVector2 &', 'const FMVector2 &'), 'this', lambda o, t, a, b: a + b)
spec('FMVector4::FMVector4', ('const FMColor &',), 'this', lambda o, t, a: mul(a, 1 / Sym.of(255)))


def byte(x):
    return fn('int', x * 255)


spec('FMColor::FMColor', ('const FMVector3 &',), 'this', lambda o, t, a: [byte(x) for x in a] + [Sym.of(255)])
spec('FMColor::FMColor', ('const FMVector4 &',), 'this', lambda o, t, a: [byte(x) for x in a])
spec('FMColor::FMColor', ('unsigned char',) * 4, 'this', lambda o, t, *a: [x[0] for x in a])
spec('operator*', ('float', 'const FMColor &'), 'ret', lambda o, s, a: [fn('int', x * s[0]) for x in a])
for k in range(0, 5):
    spec('FMColor::FMColor', ('const float *', 'unsigned int=%d' % k), 'this',
         (lambda k: lambda o, t, a, i: [byte(x) for x in a[:k]] + [Sym.of(v) for v in (0, 0, 0, 255)[k:]])(k))
    if k:
        spec('FMColor::ToFloats', ('float *', 'unsigned int=%d' % k), 'p0',
             (lambda k: lambda o, t, a, i: mul(t[:k], 1 / Sym.of(255)) + a[k:])(k))
for k, ch in enumerate(RGBA):
    spec('FMColor::operator[]', ('unsigned long=%d' % k,), 'ret', (lambda k: lambda o, t, i: [t[k]])(k))
for M, n in (('FMMatrix33', 3), ('FMMatrix44', 4)):
    c = 'const %s &' % M
    spec('operator*', (c, c), 'ret', (lambda n: lambda o, a, b: matmul(mat(a, n), mat(b, n)))(n))
    spec('operator*=', (M + ' &', c), 'p0', (lambda n: lambda o, a, b: matmul(mat(a, n), mat(b, n)))(n))
    spec('operator*', ('float', c), 'ret', lambda o, s, a: mul(a, s[0]))
    spec(M + '::Transposed', (), 'ret', (lambda n: lambda o, t: [[mat(t, n)[j][i] for j in range(n)] for i in range(n)])(n))

    def inv(n):
        def f(o, t):
            m = mat(t, n)
            d = det(m)
            if o.degenerate(d):
                return SKIP
            return [[x / d for x in r] for r in adj(m)]
        return f
    spec(M + '::Inverted', (), 'ret', inv(n))
    spec(M + '::Determinant', (), 'ret', (lambda n: lambda o, t: [det(mat(t, n))])(n))
    spec(M + '::' + M, (c,), 'this', lambda o, t, a: a)
    spec(M + '::operator=', (c,), 'this', lambda o, t, a: a)
    for ty in ('float *', 'const float *', 'const double *'):
        for w in (M, 'Set'):
            spec(M + '::' + w, (ty,), 'this', (lambda n: lambda o, t, a: [[a[j * n + i] for j in range(n)] for i in range(n)])(n))
    for cn in ('', 'const '):
        spec(M + '::operator %sfloat *' % cn, (), 'ret', lambda o, t: t)
    spec('IsEquivalent', (c, c), 'ret', lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))])
    spec('operator==', (c, c), 'ret', lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))])


def setcol(m, k, v):
    m = [list(r) for r in m]
    m[k] = list(v) + m[k][len(v):]
    return m


spec('FMMatrix33::TranslationMatrix', ('float', 'float'), 'ret', lambda o, a, b: setcol(ident(3), 2, a + b))
spec('FMMatrix33::TranslationMatrix', ('FMVector2',), 'ret', lambda o, a: setcol(ident(3), 2, a))
spec('FMMatrix33::ScaleMatrix', ('float', 'float'), 'ret', lambda o, a, b: diag(a + b, 3))
spec('FMMatrix33::ScaleMatrix', ('FMVector2',), 'ret', lambda o, a: diag(a, 3))
spec('FMMatrix44::TranslationMatrix', ('const FMVector3 &',), 'ret', lambda o, a: setcol(ident(4), 3, a))
spec('FMMatrix44::ScaleMatrix', ('const FMVector3 &',), 'ret', lambda o, a: diag(a, 4))
spec('FMMatrix44::SetTranslation', ('const FMVector3 &',), 'this', lambda o, t, a: setcol(mat(t, 4), 3, a))
spec('FMMatrix44::GetTranslation', (), 'ret', lambda o, t: mat(t, 4)[3][:3])
for ax in range(4):
    spec('FMMatrix44::GetAxis', ('FMath::AXIS=%d' % ax,), 'ret', (lambda k: lambda o, t, a: mat(t, 4)[k][:3])(ax))


def xform(m, v, w):
    return [dot([m[k][r] for k in range(4)], list(v) + [Sym.of(w)]) for r in range(3)]


spec('FMMatrix44::TransformCoordinate', ('const FMVector3 &',), 'ret', lambda o, t, a: xform(mat(t, 4), a, 1))
spec('FMMatrix44::TransformVector', ('const FMVector3 &',), 'ret', lambda o, t, a: xform(mat(t, 4), a, 0))
m4v = lambda m, v: [dot([m[k][r] for k in range(4)], v) for r in range(4)]
spec('FMMatrix44::TransformCoordinate', ('const FMVector4 &',), 'ret', lambda o, t, a: m4v(mat(t, 4), a))
spec('operator*', ('const FMMatrix44 &', 'const FMVector4 &'), 'ret', lambda o, t, a: m4v(mat(t, 4), a))


def axisrot(o, a, s):
    """Along the paths that take the axis as it is: a unit axis. Elsewhere the axis is normalised first."""
    l2 = dot(a, a)
    if o.near(l2, 1):
        o.zero.append((l2 - 1).n)
        return rotation(a, s[0])
    l = length(a)
    if o.sign(l) <= 0:
        return SKIP
    return rotation(mul(a, 1 / l), s[0])


spec('FMMatrix44::AxisRotationMatrix', ('const FMVector3 &', 'float'), 'ret', axisrot)


AX = [[Sym.of(1 if i == j else 0) for j in range(3)] for i in range(3)]
for i, l in enumerate('XYZ'):
    spec('FMMatrix44::%sAxisRotationMatrix' % l, ('float',), 'ret', (lambda i: lambda o, a: rotation(AX[i], a[0]))(i))


def euler(o, a):
    m = ident(4)
    for i in range(3):
        if not o.near(a[i], 0):
            m = matmul(m, rotation(AX[i], a[i]))
    return m


spec('FMMatrix44::EulerRotationMatrix', ('const FMVector3 &',), 'ret', euler)


def lookat(o, e, t, u):
    f = sub(t, e)
    l = length(f)
    if o.sign(l) <= 0:
        return SKIP
    f = mul(f, 1 / l)
    if all(o.near(x, y) for x, y in zip(f, u)) or all(o.near(x, -y) for x, y in zip(f, u)):
        return SKIP
    s = cross(f, u)
    ls = length(s)
    if o.sign(ls) <= 0:
        return SKIP
    s = mul(s, 1 / ls)
    up = cross(s, f)
    z, one = [Sym.of(0)], [Sym.of(1)]
    return [s + z, up + z, [-x for x in f] + z, e + one]


spec('FMMatrix44::LookAtMatrix', ('const FMVector3 &',) * 3, 'ret', lookat)
spec('FMMatrix44::Recompose', ('const FMVector3 &',) * 3 + ('float',), 'this', lambda o, t, s, r, d, i: recompose(s, r, d, i))


def recompose(s, r, d, i):
    m = setcol(ident(4), 3, d)
    for k in range(3):
        m = matmul(m, rotation(AX[k], r[k]))
    return matmul(m, diag(mul(s, i[0]), 4))


def decompose(o, t):
    """scale | rotation | translation | sign, for the rotations x, y, z applied in that order to the scaled axes."""
    m = mat(t, 4)
    sc = [length(m[k][:3]) for k in range(3)]
    return sc + [None] * 3 + m[3][:3] + [None]


Q = 'const FMQuaternion &'
spec('FMQuaternion::FMQuaternion', ('const float *',), 'this', lambda o, t, a: a[:4])
spec('FMQuaternion::FMQuaternion', ('const double *',), 'this', lambda o, t, a: a[:4])
spec('FMQuaternion::FMQuaternion', ('float',) * 4, 'this', lambda o, t, *a: [x[0] for x in a])
spec('FMQuaternion::FMQuaternion', (Q,), 'this', lambda o, t, a: a)
spec('FMQuaternion::operator=', (Q,), 'this', lambda o, t, a: a)
spec('FMQuaternion::operator=', ('const float *',), 'this', lambda o, t, a: a[:4])
spec('FMQuaternion::FMQuaternion', ('const FMVector3 &', 'float'), 'this', lambda o, t, a, s: mul(a, fn('sin', s[0] / 2)) + [fn('cos', s[0] / 2)])
spec('FMQuaternion::operator*', (Q,), 'ret', lambda o, t, q: qmul(t, q))
spec('FMQuaternion::operator*=', (Q,), 'this', lambda o, t, q: qmul(t, q))
spec('FMQuaternion::operator~', (), 'ret', lambda o, t: [-t[0], -t[1], -t[2], t[3]])
spec('FMQuaternion::LengthSquared', (), 'ret', lambda o, t: [dot(t, t)])
spec('FMQuaternion::Length', (), 'ret', lambda o, t: [length(t)])
spec('FMQuaternion::NormalizeIt', (), 'this', normal)
spec('FMQuaternion::Normalize', (), 'ret', lambda o, t: mul(t, 1 / length(t)))
spec('IsEquivalent', (Q, Q), 'ret', lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))])
for cn in ('', 'const '):
    spec('FMQuaternion::operator %sfloat *' % cn, (), 'ret', lambda o, t: t)


def tomatrix(o, t, m=None):
    n = dot(t, t)
    if o.sign(n) == 0:
        return SKIP
    r = ident(4) if m is None else mat(m, 4)
    q = qmat(t)
    for i in range(3):
        for j in range(3):
            r[i][j] = q[i][j]
    return r


spec('FMQuaternion::ToMatrix', (), 'ret', tomatrix)
spec('FMQuaternion::SetToMatrix', ('FMMatrix44 &',), 'p0', tomatrix)


def qrot(o, t, v):
    """The library's convention, pinned by its tests: concatenation in its own order, q v ~q, so that the vector is rotated by the
    inverse of the quaternion's matrix; scaled by the squared length for a quaternion that is not of unit length."""
    m, n = qmat(t), dot(t, t)
    return [dot(m[r], v) * n for r in range(3)]


spec('FMQuaternion::operator*', ('const FMVector3 &',), 'ret', qrot)


def qeuler(o, x, y, z):
    q = [Sym.of(0), Sym.of(0), Sym.of(0), Sym.of(1)]
    for i, a in ((2, z), (1, y), (0, x)):
        q = qmul(q, mul(AX[i], fn('sin', a[0] / 2)) + [fn('cos', a[0] / 2)])
    return q


spec('FMQuaternion::EulerRotationQuaternion', ('float',) * 3, 'ret', qeuler)


def toeuler(o, t, p):
    """Inverse of the rotation about x, y, z: sin y, then the other two from the remaining entries of the matrix."""
    x, y, z, w = t
    s = 2 * (x * z + y * w)
    tol = Fraction(1, 10000)
    if o.sign(s - 1 + tol) > 0:
        return [2 * fn('atan2', x, w), Sym.of(math.pi / 2), Sym.of(0)]
    if o.sign(s + 1 - tol) < 0:
        return [2 * fn('atan2', x, w), Sym.of(-math.pi / 2), Sym.of(0)]
    return [fn('atan2', 2 * (x * w - y * z), 1 - 2 * (x * x + y * y)), fn('asin', s), fn('atan2', 2 * (z * w - x * y), 1 - 2 * (y * y + z * z))]


spec('FMQuaternion::ToEuler', ('FMVector3 *=0',), 'ret', toeuler)


def angleaxis(o, t, a, g):
    ang = 2 * fn('acos', t[3])
    s = fn('sin', ang / 2)
    if o.near(s, 0):
        return AX[0] + [ang]
    v = [t[i] / s for i in range(3)]
    l = length(v)
    if o.sign(l) <= 0:
        return SKIP
    return mul(v, 1 / l) + [ang]


spec('FMQuaternion::ToAngleAxis', ('FMVector3 &', 'float &'), 'p0+p1', angleaxis)


def slerp(o, p, q, t):
    d = dot(p, q)
    if o.near(d, 1):
        return p
    th = fn('acos', d)
    if o.sign(th) < 0:
        return SKIP
    a, b = fn('sin', (1 - t[0]) * th) / fn('sin', th), fn('sin', t[0] * th) / fn('sin', th)
    r = add(mul(p, a), mul(q, b))
    l = length(r)
    if o.sign(l) <= 0:
        return SKIP
    return mul(r, 1 / l)


spec('FMQuaternion::slerp', (Q, 'float'), 'ret', slerp)


def matquat(o, m):
    """The largest of the four components first: the trace, else the largest diagonal entry."""
    m = mat(m, 4)
    tr = 1 + m[0][0] + m[1][1] + m[2][2]
    if o.sign(tr - Fraction(1, 100000)) > 0:
        s = 2 * fn('sqrt', tr)
        return [(m[1][2] - m[2][1]) / s, (m[2][0] - m[0][2]) / s, (m[0][1] - m[1][0]) / s, s / 4]
    i = 0 if o.sign(m[0][0] - m[1][1]) > 0 else 1
    if i == 1 and o.sign(m[1][1] - m[2][2]) <= 0:
        i = 2
    j, k = (i + 1) % 3, (i + 2) % 3
    s = 2 * fn('sqrt', 1 + m[i][i] - m[j][j] - m[k][k])
    r = [None] * 4
    r[i], r[j], r[k], r[3] = s / 4, (m[i][j] + m[j][i]) / s, (m[i][k] + m[k][i]) / s, (m[j][k] - m[k][j]) / s
    return r


spec('FMQuaternion::MatrixRotationQuaternion', ('const FMMatrix44 &',), 'ret', matquat)


def tohsv(o, t):
    c = t[:3]
    lo, hi = o.min(o.min(c[0], c[1]), c[2]), o.max(o.max(c[0], c[1]), c[2])
    if o.near(hi, 0):
        return [Sym.of(0), Sym.of(0), hi]
    d = hi - lo
    if o.near(d, 0):
        return [Sym.of(0), d / hi, hi]
    if o.near(c[0], hi):
        h = (c[1] - c[2]) / d / 6
    elif o.near(c[1], hi):
        h = ((c[2] - c[0]) / d + 2) / 6
    else:
        h = ((c[0] - c[1]) / d + 4) / 6
    if o.sign(h) < 0:
        h = h + 1
    return [h, d / hi, hi]


spec('FMVector4::ToHSVColor', (), 'ret', tohsv)
# volumes
PI = Sym.of(math.pi)
spec('FMVolume::CalculateBoxVolume', ('const FMVector3 &',), 'ret', lambda o, h: [8 * h[0] * h[1] * h[2]])
spec('FMVolume::CalculateSphereVolume', ('float',), 'ret', lambda o, r: [PI * 4 / 3 * r[0] * r[0] * r[0]])
spec('FMVolume::CalculateEllipsoidVolume', ('float',) * 3, 'ret', lambda o, a, b, c: [PI * 4 / 3 * a[0] * b[0] * c[0]])
ends = lambda o, r: PI * 4 / 3 * r[0] * r[1] * o.max(r[0], r[1])
spec('FMVolume::CalculateEllipsoidEndVolume', ('const FMVector2 &',), 'ret', lambda o, r: [ends(o, r)])
spec('FMVolume::CalculateCylinderVolume', ('const FMVector2 &', 'float'), 'ret', lambda o, r, h: [PI * r[0] * r[1] * h[0]])
spec('FMVolume::CalculateCapsuleVolume', ('const FMVector2 &', 'float'), 'ret', lambda o, r, h: [PI * r[0] * r[1] * h[0] + ends(o, r)])
spec('FMVolume::CalculateConeVolume', ('const FMVector2 &', 'float'), 'ret', lambda o, r, h: [PI * r[0] * r[1] * h[0] / 3])
spec('FMVolume::CalculateTaperedCylinderVolume', ('const FMVector2 &', 'const FMVector2 &', 'float'), 'ret',
     lambda o, r, s, h: [PI * h[0] / 6 * (2 * r[0] * r[1] + r[0] * s[1] + s[0] * r[1] + 2 * s[0] * s[1])])
for ty in ('float', 'double'):
    spec('FMath::RadToDeg', (ty,), 'ret', lambda o, a: [a[0] * 180 / PI])
    spec('FMath::DegToRad', (ty,), 'ret', lambda o, a: [a[0] * PI / 180])
    spec('FMath::Sign', ('const %s &' % ty,), 'ret', lambda o, a: [Sym.of(1 if o.sign(a[0]) >= 0 else -1)])
    spec('IsEquivalent', (ty,) * 2, 'ret', lambda o, a, b: [o.sign(a[0] - b[0] - Fraction(1, 10000)) < 0 and o.sign(b[0] - a[0] - Fraction(1, 10000)) < 0])
    spec('IsEquivalent', (ty,) * 3, 'ret', lambda o, a, b, t: [o.sign(a[0] - b[0] - t[0]) < 0 and o.sign(b[0] - a[0] - t[0]) < 0])


def clamp(o, v, a, b):
    if o.lt(b[0], a[0]):
        return SKIP
    return [o.min(o.max(v[0], a[0]), b[0])]


spec('FMath::Clamp', ('float',) * 3, 'ret', clamp)


def wrapf(o, v, a, b):
    if o.lt(b[0], v[0]):
        return [a[0] + fn('fmod', v[0] - b[0], b[0] - a[0])]
    if o.lt(v[0], a[0]):
        return [b[0] - fn('fmod', a[0] - v[0], b[0] - a[0])]
    return v


spec('FMath::Wrap', ('float',) * 3, 'ret', wrapf)
spec('FMath::Wrap', ('double',) * 3, 'ret', wrapf)
# bounds: a box is (min, max), a sphere (centre, radius)
V3, BX, SP = 'const FMVector3 &', 'const FUBoundingBox &', 'const FUBoundingSphere &'
spec('FUBoundingBox::FUBoundingBox', (V3, V3), 'this', lambda o, t, a, b: a + b)
spec('FUBoundingBox::FUBoundingBox', (BX,), 'this', lambda o, t, a: a)
spec('FUBoundingBox::IsValid', (), 'ret', lambda o, t: [all(o.sign(t[i + 3] - t[i]) >= 0 for i in range(3))])
spec('FUBoundingBox::Contains', (V3,), 'ret', lambda o, t, p: [all(o.sign(p[i] - t[i]) >= 0 and o.sign(t[i + 3] - p[i]) >= 0 for i in range(3))])
spec('FUBoundingBox::Equals', (BX,), 'ret', lambda o, t, a: [all(o.sign(x - y) == 0 for x, y in zip(t, a))])
spec('FUBoundingBox::GetCenter', (), 'ret', lambda o, t: mul(add(t[:3], t[3:]), Fraction(1, 2)))
spec('FUBoundingBox::SetMin', (V3,), 'this', lambda o, t, a: a + t[3:])
spec('FUBoundingBox::SetMax', (V3,), 'this', lambda o, t, a: t[:3] + a)
spec('FUBoundingBox::Include', (V3,), 'this', lambda o, t, p: each(o, o.min, t[:3], p) + each(o, o.max, t[3:], p))
spec('FUBoundingBox::Include', (BX,), 'this', lambda o, t, b: each(o, o.min, t[:3], b[:3]) + each(o, o.max, t[3:], b[3:]))


def boxover(o, t, b, c):
    yes = all(o.sign(b[i + 3] - t[i]) >= 0 and o.sign(t[i + 3] - b[i]) >= 0 for i in range(3))
    out = [yes]
    if c is not None:
        out += [(o.max(t[i], b[i]) + o.min(t[i + 3], b[i + 3])) / 2 for i in range(3)] if yes else c
    return out


spec('FUBoundingBox::Overlaps', (BX, 'FMVector3 *=0'), 'ret', lambda o, t, b, c: boxover(o, t, b, None))
spec('FUBoundingSphere::FUBoundingSphere', (V3, 'float'), 'this', lambda o, t, a, b: a + b)
spec('FUBoundingSphere::FUBoundingSphere', (SP,), 'this', lambda o, t, a: a)
spec('FUBoundingSphere::IsValid', (), 'ret', lambda o, t: [o.sign(t[3]) >= 0])
spec('FUBoundingSphere::SetCenter', (V3,), 'this', lambda o, t, a: a + t[3:])
spec('FUBoundingSphere::SetRadius', ('float',), 'this', lambda o, t, a: t[:3] + a)


def sphpoint(o, t, p):
    if o.sign(t[3]) < 0:
        return p + [Sym.of(0)]
    d = sub(t[:3], p)
    d2 = dot(d, d)
    if o.sign(d2 - t[3] * t[3]) > 0:
        return t[:3] + [fn('sqrt', d2)]
    return t


spec('FUBoundingSphere::Include', (V3,), 'this', sphpoint)


def sphcontains(o, t, p):
    if o.sign(t[3]) < 0:
        return [False]
    d = sub(t[:3], p)
    x = dot(d, d) - t[3] * t[3]
    return [o.sign(x) < 0 or o.near(dot(d, d), t[3] * t[3])]


spec('FUBoundingSphere::Contains', (V3,), 'ret', sphcontains)


def sphsph(o, t, s, c):
    if o.sign(t[3]) < 0:
        return [False] + (c or [])
    d = sub(s[:3], t[:3])
    r = t[3] + s[3]
    yes = o.sign(r * r - dot(d, d)) > 0
    if c is None:
        return [yes]
    if not yes:
        return [False] + c
    # on the line between the centres, midway through the common part
    l = fn('sqrt', dot(d, d))
    depth = o.min(o.min(t[3], s[3]) * 2, r - l)
    return [True] + add(t[:3], mul(d, (t[3] - depth / 2) / l))


spec('FUBoundingSphere::Overlaps', (SP, 'FMVector3 *=0'), 'ret', lambda o, t, s, c: sphsph(o, t, s, None))
spec('FUBoundingSphere::Overlaps', (SP, 'FMVector3 *'), 'ret+p1', lambda o, t, s, c: sphsph(o, t, s, c))


def sphinc(o, t, s):
    if o.sign(t[3]) < 0:
        return s
    d = sub(s[:3], t[:3])
    l = fn('sqrt', dot(d, d))
    if o.sign(s[3]) < 0:
        return SKIP
    inside, around = o.sign(l + s[3] - t[3]) <= 0, o.sign(l + t[3] - s[3]) <= 0
    if inside and around:
        return SKIP     # the same sphere
    if inside:
        return t
    if around:
        return s
    if o.sign(l) <= 0:
        return SKIP
    r = (t[3] + s[3] + l) / 2
    return add(t[:3], mul(d, (r - t[3]) / l)) + [r]


spec('FUBoundingSphere::Include', (SP,), 'this', sphinc)


def sphbox(o, t, b, c):
    if o.sign(t[3]) < 0:
        return [False] + (c or [])
    v = []
    for i in range(3):
        if o.lt(b[i + 3], t[i]):
            v.append(b[i + 3] - t[i])
        elif o.lt(b[i], t[i]):
            v.append(Sym.of(0))
        else:
            v.append(b[i] - t[i])
    yes = o.sign(t[3] * t[3] - dot(v, v)) > 0
    if c is None:
        return [yes]
    return [yes] + (add(t[:3], v) if yes else c)


spec('FUBoundingSphere::Overlaps', (BX, 'FMVector3 *=0'), 'ret', lambda o, t, b, c: sphbox(o, t, b, None))
spec('FUBoundingSphere::Overlaps', (BX, 'FMVector3 *'), 'ret+p1', lambda o, t, b, c: sphbox(o, t, b, c))
A2 = ('const FMLookAt &',) * 2
spec('FMLookAt::FMLookAt', (V3,) * 3, 'this', lambda o, t, a, b, c: a + b + c)
spec('FMSkew::FMSkew', (V3, V3, 'float'), 'this', lambda o, t, a, b, c: a + b + c)
spec('FMAngleAxis::FMAngleAxis', (V3, 'float'), 'this', lambda o, t, a, b: a + b)
near = lambda o, a, b: [all(o.near(x, y) for x, y in zip(a, b))]
spec('operator==', A2, 'ret', near)
spec('operator==', ('const FMSkew &',) * 2, 'ret', near)
spec('operator==', ('const FMAngleAxis &',) * 2, 'ret',
     lambda o, a, b: [near(o, a[:3], b[:3])[0] if o.near(a[3], b[3]) else o.near(a[3], -b[3]) and near(o, a[:3], [-x for x in b[:3]])[0]])
spec('FUBoundingBox::Overlaps', (BX, 'FMVector3 *'), 'ret+p1', lambda o, t, b, c: boxover(o, t, b, c))


def sphtrans(o, t, m):
    """Centre transformed, radius scaled by the longest axis."""
    if o.sign(t[3]) < 0:
        return t
    m = mat(m, 4)
    r2 = Sym.of(0)
    for i in range(3):
        v = mul(m[i][:3], t[3])
        l2 = dot(v, v)
        if o.sign(l2 - r2) > 0:
            r2 = l2
    return xform(m, t[:3], 1) + [fn('sqrt', r2)]


spec('FUBoundingSphere::Transform', ('const FMMatrix44 &',), 'ret', sphtrans)


class O2(Oracle):
    def banded(self, p):
        """The path compares the number with a tolerance around zero."""
        for u in self.s.sg:
            q = self.polys.get(u)
            for r in (p, -p):
                if q is not None and (q - r).is_const() and (q - r).value():
                    return True
        return False

    def degenerate(self, d):
        """The determinant is taken for zero on this path."""
        p, _ = canon(Sym.of(d))
        t = p.text()
        if t in self.s.near:
            return self.s.near[t]
        lo = hi = seen = False
        for u, sg in self.s.sg.items():
            q = self.polys.get(u)
            if q is None:
                continue
            for r, flip in ((p, False), (-p, True)):
                c = q - r
                if c.is_const() and (c.value() or not self.banded(p)):
                    seen = True
                    # q = +-d + c has one of the signs in sg
                    if sg == {'+'} and c.value() <= 0:
                        (lo, hi) = (lo or not flip, hi or flip)
                    if sg == {'-'} and c.value() >= 0:
                        (lo, hi) = (lo or flip, hi or not flip)
        return seen and not (lo or hi)


def run_spec(P, R, f, ps, sp, alias=False, mkthis=None, extra=None, tag='', mkarg=None):
    key = '%s(%s)%s%s' % (f.q, ', '.join(ps), ' on itself' if alias else '', tag)
    where = '%s:%d' % (f.file, f.line)
    member = f.cls and not f.r.get('static')
    import algebra
    I = Algebra(P, extra=extra, maxpaths=1500, maxsteps=400000)

    def make():
        this = mkthis() if mkthis else build(f.cls, 'this') if member else None
        args = []
        for i, p in enumerate(ps):
            t, _, v = p.partition('=')
            if v:
                args.append(None if t.endswith('*') else int(v))
            elif alias and i == len(ps) - 1:
                args.append(this if member else args[0])
            else:
                a = mkarg(t) if mkarg else None
                args.append(a if a is not None else build(t, 'p%d' % i))
        if member and f.n == f.cls:
            this = Obj(f.cls, 'this')
        return this, args
    npaths = 0
    either = {}
    try:
        this0, args0 = make()
        isctor = member and f.n == f.cls
        inputs = [mkthis() if mkthis else build(f.cls, 'this')] if member else []
        model_ = lambda v: isinstance(v, Ptr) and v.i is None and isinstance(v.get(), Obj) and v.get().cls not in ORDER
        init = [Names(v) if mkthis and i == 0 else Names(v.get()) if model_(v) else [] if v is None or isinstance(v, (int, T)) else flat(v)
                for i, v in enumerate(inputs + args0)]
        init = [i if a is not None else None for i, a in zip(init, inputs + args0)]
        if isctor:
            gen = ctor_paths(I, f, make)
        else:
            gen = I.paths(f, mk=make)
        for rv, trace, st in gen:
            if st['end'] == 'dead':
                continue
            npaths += 1
            polys = dict(I.polys)
            got, nm = [], []
            for part in sp.out.split('+'):
                v = rv if part == 'ret' else st['this'] if part == 'this' else st['this'].fields[part[5:]].v if part.startswith('this.') \
                    else st['args'][int(part[1:])]
                got += flat(v)
                nm += names(v)
            for o, want in reference_all(st['conds'], polys, sp.ref, init):
                if want is SKIP:
                    continue
                want = flat(want)
                if len(got) < len(want):
                    R.bad(key, where, '%s yields %d components where %d are due' % (f.q, len(got), len(want)))
                    return
                for k, w in enumerate(want):
                    g = got[k]
                    if isinstance(w, bool):
                        gg = g
                        if isinstance(g, T) and g.tag.startswith('near:'):
                            s = o.s.near.get(g.tag[5:], o.c.get(g.tag))
                            gg = s if s is not None else g
                        if isinstance(g, (int, bool)):
                            gg = bool(g)
                        if isinstance(gg, T):
                            gg = pend(gg, o, sp, init, w)
                        if gg != w:
                            R.bad(key, where, '%s answers %s where its definition says %s%s' % (f.q, g, w, cond_text(o)))
                            return
                        continue
                    if isinstance(g, str) or g is None or isinstance(g, (Obj, list)):
                        R.bad(key, where, '%s leaves component %s undefined' % (f.q, nm[k]))
                        return
                    if isinstance(w, Either):
                        either.setdefault(k, set()).update(i for i, x in enumerate(w.v) if agree(o, g, x))
                        neither = not any(agree(o, g, x) for x in w.v)
                        if neither:
                            R.bad(key, where, '%s: component %s is %s, neither %s%s' % (f.q, nm[k], short(g), ' nor '.join(short(x) for x in w.v), cond_text(o)))
                            return
                        continue
                    if not agree(o, g, w):
                        R.bad(key, where, '%s: component %s is %s, by its definition %s%s' % (f.q, nm[k], short(g), short(w), cond_text(o)))
                        return
        if not npaths:
            raise Unsupported('no path completes')
        for k, u in either.items():
            if 0 not in u:
                R.bad(key, where, '%s never computes component %s' % (f.q, nm[k]))
                return
        R.ob(key, where, True)
        R.count('paths', npaths)
    except (Unsupported, RecursionError, OverflowError) as x:
        R.count('not decided')
        R.notes.append('not decided: %s: %s' % (key, str(x)[:120]))


def pend(v, o, sp, init, w):
    """A tolerance comparison returned as the result itself: its two outcomes are the two outcomes of the definition."""
    if not v.tag.startswith('near:'):
        return v
    t = v.tag[5:]
    o2 = O2(o.s, dict(o.c, **{'near:' + t: True}), o.polys)
    return w if o.c.get('near:' + t) == w else (not w if 'near:' + t in o.c else v)


def short(v):
    t = Sym.of(v).text()
    return t if len(t) < 160 else t[:160] + '...'


def cond_text(o):
    w = {'+': '> 0', '-': '< 0', '0': '= 0'}
    parts = []
    for t, s in sorted(o.s.sg.items()):
        parts.append('%s %s' % (t, '/'.join(w[x] for x in sorted(s))))
    for t, s in sorted(o.c.items()):
        parts.append('%s %s' % (t, w.get(s, s)))
    parts += ['%s%s near 0' % (t, '' if r else ' not') for t, r in sorted(o.s.near.items())]
    parts = [p for p in parts if len(p) < 120]
    return ' when ' + ', '.join(parts[:6]) if parts else ''


def ctor_paths(I, f, make):
    """Paths of a constructor: as of a function, with the initialiser list run first."""
    orig = I.call_fn

    def call_fn(fn_, this, args, argcells=None):
        if fn_ is f and this is not None and not getattr(this, '_c', None) and not I.__dict__.get('_in'):
            I._in = True
            try:
                I.construct(f, this, args, [])
            finally:
                I._in = False
            return this
        return orig(fn_, this, args, argcells)
    I.call_fn = call_fn
    return I.paths(f, mk=make)


def reference_all(conds, polys, ref, init):
    s = Signs(conds)
    if any(not v for v in s.sg.values()):
        return
    todo, n = [{}], 0
    while todo:
        ch = todo.pop()
        n += 1
        if n > 6000:
            raise Unsupported('too many cases')
        o = O2(s, ch, polys)
        try:
            v = ref(o, *init)
        except Fork as k:
            for x in k.opts:
                c2 = dict(ch, **{k.key: x})
                if feasible(s.sg, c2, polys):
                    todo.append(c2)
            continue
        except Infeasible:
            continue
        try:
            o.normal()
        except Infeasible:
            continue
        if ch or feasible(s.sg, ch, polys):
            yield o, v


def run(P, R):
    done = 0
    found = {}
    for f in P.fns.values():
        if f.body is None or f.r.get('defaulted'):
            continue
        if 'FMath/' in f.file or 'FUBounding' in f.file:
            found.setdefault((f.q, tuple(p['t'] for p in f.params)), f)
    speced = set()
    for (q, ps), sp in sorted(S.items(), key=lambda x: x[0]):
        sig = tuple(p.split('=')[0] for p in ps)
        f = found.get((q, sig))
        if f is None or f.body is None:
            continue
        speced.add((q, sig))
        run_spec(P, R, f, ps, sp)
        done += 1
        if len(ps) >= 1 and sp.out in ('p0', 'this') and f.n.endswith('=') and f.n != 'operator==':
            t = bare(ps[-1].rstrip('&* '))
            if (f.cls == t and len(ps) == 1) or (len(ps) == 2 and bare(ps[0].rstrip('&* ')) == t):
                if t not in FLOATS:
                    run_spec(P, R, f, ps, sp, alias=True)
    R.count('operations with a defining formula', done)
    rest = sorted('%s(%s)' % (q, ', '.join(s)) for (q, s) in found if (q, s) not in speced)
    R.analysed['operations without one'] = len(rest)
    R.floor('operations', done, 60)
