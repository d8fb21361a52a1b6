"""Quantities a document derives from its data: the matrix of each transform, of a node in its parent and in the world, opacity and
reflectivity, volumes of the physics shapes, camera aspect ratio. Each function is brought to an algebraic normal form on every path and
compared with its definition."""
import re
import p12
from p12 import *

WRAP = re.compile(r'Parameter\w*T<\s*([\w ]+?)\s*[,>]')
M = []
PROG = None


def mspec(cls, name, ps, out, ref, this=None, tag=''):
    M.append((cls, name, ps, Spec(out, ref), this, tag))


def wrapped(t):
    """Type of the number behind a member: plain, parameter, or reference to a parameter object."""
    for c in [bare(t)] + list(PROG.ancestors(bare(t))):
        m = WRAP.search(c)
        if m:
            return m.group(1).strip()
    m = WRAP.search(t)
    if m and not t.rstrip().endswith('*') and 'Container' not in t:
        return m.group(1).strip()
    b = bare(t)
    return b if (b in FLOATS or b in VECS or b.startswith('FMMatrix')) and '*' not in t and '[' not in t else None


def model(cls, name='this'):
    o = Obj(cls, name)
    for c in [cls] + list(PROG.ancestors(cls)):
        k = PROG.cls.get(c)
        for f in (k.fields if k else ()):
            w = wrapped(f['t'])
            if w and (w in FLOATS or w in VECS or w.startswith('FMMatrix') or w in ORDER):
                o.fields.setdefault(f['n'], Cell(build(w, '%s.%s' % (name, f['n']))))
    return o


class Items:
    """A list of known objects."""

    def __init__(self, items):
        self.items = items


def kind(name):
    def f():
        for en in PROG.enums.values():
            for x in en['e']:
                if x['n'] == name and any(y['n'] == 'LOOKAT' for y in en['e']):
                    return x['v']
        raise Unsupported('no transform kind ' + name)
    return f


TYPES = {'FCDTTranslation': kind('TRANSLATION'), 'FCDTRotation': kind('ROTATION')}


def hook(I, e, obj, args, fr):
    if e['k'] == 'Ctor':
        return NotImplemented
    n, q = callee_n(e), callee_q(e) or ''
    cls = (e.get('cal') or {}).get('c') or ''
    while isinstance(obj, Ptr) and obj.i is None and not isinstance(obj.get(), Ptr) and isinstance(obj.get(), (Obj, Items)):
        obj = obj.get()
    if isinstance(obj, Items):
        k = len(obj.items)
        if n == 'size':
            return k
        if n == 'empty':
            return k == 0
        if n in ('begin', 'end'):
            return Ptr(obj.items, 0 if n == 'begin' else k)
        if n in ('front', 'back', 'at', 'operator[]') and k:
            i = 0 if n == 'front' else k - 1 if n == 'back' else args[0]
            if isinstance(i, int) and 0 <= i < k:
                return obj.items[i]
        raise Unsupported('list operation ' + n)
    if isinstance(obj, Obj) and obj.cls == 'known matrix':
        return build('FMMatrix44', obj.tag)
    if ('Parameter' in cls or cls.startswith('FUObjectRef')) and isinstance(e.get('obj'), dict):
        if n.startswith('operator') and n not in ('operator=', 'operator==', 'operator!=', 'operator[]'):
            if n == 'operator->' and isinstance(obj, Obj):
                return Ptr(Cell(obj))
            return obj
        if n in ('operator=', 'SetValue') and len(args) == 1:
            a = args[0]
            while isinstance(a, Ptr) and a.i is None:
                a = a.get()
            if isinstance(obj, Obj) and isinstance(a, Obj):
                obj.fields = {k: Cell(copyv(c.v)) for k, c in a.fields.items()}
                return obj
            c = I.lv(e['obj'], fr)
            if isinstance(c, Cell):
                c.v = a
                return a
            if isinstance(c, Ptr):
                c.set(a)
                return a
            raise Unsupported('assignment to a parameter')
        if n in ('GetValue', 'GetFloat'):
            return obj
        if not isinstance(obj, T):
            return T('%s.%s' % (I.tag(obj), n), e.get('t', ''))
    if n in ('HasType', 'IsType') or (n == 'operator==' and 'FUObjectType' in q):
        return True
    if n == 'GetType' and isinstance(obj, Obj) and obj.cls in TYPES:
        return TYPES[obj.cls]()
    if n in ('SetDirtyFlag', 'SetNewChildFlag', 'SetValueChange', 'SetTransformsDirtyFlag'):
        return None
    return NotImplemented


# ---- definitions
RAD = PI / 180
for c, ref in (('FCDTTranslation', lambda v: setcol(ident(4), 3, v)), ('FCDTScale', lambda v: diag(v, 4)), ('FCDTMatrix', lambda v: mat(v, 4))):
    mspec(c, 'ToMatrix', (), 'ret', (lambda ref: lambda o, t: ref(only(t)))(ref))
mspec('FCDTRotation', 'ToMatrix', (), 'ret', lambda o, t: axisrot(o, only(t)[:3], [only(t)[3] * RAD]))
mspec('FCDTLookAt', 'ToMatrix', (), 'ret', lambda o, t: lookat(o, only(t)[:3], only(t)[3:6], only(t)[6:9]))


def skew(o, t):
    """A point moves along the first axis by its distance along the second, times the tangent of the angle."""
    v = only(t)
    r, a, s = v[:3], v[3:6], fn('tan', v[6] * RAD)
    m = ident(4)
    for i in range(3):
        for j in range(3):
            m[j][i] = m[j][i] + s * r[i] * a[j]
    return m


mspec('FCDTSkew', 'ToMatrix', (), 'ret', skew)


def only(t):
    """The value of a transform."""
    vs = [c for c in t.o.fields.values()]
    if len(vs) != 1:
        raise Unsupported('a transform with several values')
    return flat(vs[0].v)


def third(v):
    return (v[0] + v[1] + v[2]) / 3


def opacity(o, t):
    v, k = t.translucencyColor, t.translucencyFactor
    return [1 - third(v) * k[0]] if t.o.tag == 'RGB_ZERO' else [v[3] * k[0]]


def mode(name):
    def mk():
        o = model('FCDEffectStandard')
        for en in PROG.enums.values():
            for x in en['e']:
                if x['n'] == name:
                    o.fields['transparencyMode'] = Cell(x['v'])
                    o.tag = name
                    return o
        raise Unsupported('no transparency mode ' + name)
    return mk


for m_ in ('RGB_ZERO', 'A_ONE'):
    mspec('FCDEffectStandard', 'GetOpacity', (), 'ret', opacity, this=mode(m_), tag=' mode ' + m_)
mspec('FCDEffectStandard', 'GetReflectivity', (), 'ret', lambda o, t: [third(t.reflectivityColor) * t.reflectivityFactor[0]])
mspec('FCDPASBox', 'CalculateVolume', (), 'ret', lambda o, t: [8 * t.halfExtents[0] * t.halfExtents[1] * t.halfExtents[2]])
mspec('FCDPASSphere', 'CalculateVolume', (), 'ret', lambda o, t: [PI * 4 / 3 * t.radius[0] * t.radius[0] * t.radius[0]])
cyl = lambda t: PI * t.radius[0] * t.radius[1] * t.height[0]
mspec('FCDPASCylinder', 'CalculateVolume', (), 'ret', lambda o, t: [cyl(t)])
mspec('FCDPASCapsule', 'CalculateVolume', (), 'ret', lambda o, t: [cyl(t) + ends(o, t.radius)])
taper = lambda r, s, h: PI * h / 6 * (2 * r[0] * r[1] + r[0] * s[1] + s[0] * r[1] + 2 * s[0] * s[1])


def tapered(caps):
    def f(o, t):
        r, s = t.radius, t.radius2
        if all(o.near(x, y) for x, y in zip(r, s)):
            return [cyl(t) + (ends(o, r) if caps else 0)]
        return [taper(r, s, t.height[0]) + ((ends(o, r) + ends(o, s)) / 2 if caps else 0)]
    return f


mspec('FCDPASTaperedCylinder', 'CalculateVolume', (), 'ret', tapered(False))
mspec('FCDPASTaperedCapsule', 'CalculateVolume', (), 'ret', tapered(True))


# scene nodes
def node(parents, transforms):
    def mk():
        o = Obj('FCDSceneNode', 'this')
        o.fields['parents'] = Cell(Items([Ptr(Cell(Obj('known matrix', 'W')))] * parents))
        o.fields['transforms'] = Cell(Items([Ptr(Cell(Obj('known matrix', 'T%d' % i))) for i in range(transforms)]))
        return o
    return mk


def local_(n):
    r = ident(4)
    for i in range(n):
        r = matmul(r, mat(build('FMMatrix44', 'T%d' % i), 4))
    return r


for n_ in range(4):
    for fn_ in ('ToMatrix', 'CalculateLocalTransform', 'CalculateWorldTransform'):
        mspec('FCDSceneNode', fn_, (), 'ret', (lambda n: lambda o, t: local_(n))(n_), this=node(0, n_), tag=' of a root with %d transforms' % n_)
    mspec('FCDSceneNode', 'CalculateWorldTransform', (), 'ret', (lambda n: lambda o, t: matmul(mat(build('FMMatrix44', 'W'), 4), local_(n)))(n_),
          this=node(1, n_), tag=' of a child with %d transforms' % n_)


# camera: the aspect ratio follows the two views
def aspect(which):
    def f(o, t, a):
        x, y = (a, t.viewY) if which == 'x' else (t.viewX, a)
        if o.near(y[0], 0):
            return [x[0], y[0], t.aspectRatio[0]]
        return [x[0], y[0], Either(x[0] / y[0], t.aspectRatio[0])]
    return f


mspec('FCDCamera', 'SetFovX', ('float',), 'this.viewX+this.viewY+this.aspectRatio', aspect('x'))
mspec('FCDCamera', 'SetFovY', ('float',), 'this.viewX+this.viewY+this.aspectRatio', aspect('y'))


# inverse transforms
def inverse(f):
    return lambda o, t, a: [f(o, only(t), only(a))]


def other(cls):
    return lambda: model(cls, 'other')


near_ = lambda o, a, b: all([o.near(x, y) for x, y in zip(a, b)])
mspec('FCDTTranslation', 'IsInverse', ('const FCDTransform *',), 'ret', inverse(lambda o, a, b: near_(o, a, [-x for x in b])))
mspec('FCDTRotation', 'IsInverse', ('const FCDTransform *',), 'ret',
      inverse(lambda o, a, b: (near_(o, a[:3], b[:3]) and o.near(a[3], -b[3])) or (near_(o, a[:3], [-x for x in b[:3]]) and o.near(a[3], b[3]))))


def run(P, R):
    global PROG
    PROG = P
    done = 0
    for cls, name, ps, sp, this, tag in M:
        fs = [f for f in P.fns.values() if f.q == cls + '::' + name and tuple(p['t'] for p in f.params) == ps and f.body is not None]
        if len(fs) != 1:
            continue
        done += 1
        run_spec(P, R, fs[0], ps, sp, mkthis=this or (lambda cls=cls: model(cls)), extra=hook, tag=tag,
                 mkarg=lambda t, cls=cls: Ptr(Cell(model(cls, 'other'))) if 'FCDTransform' in t else None)
    R.floor('operations', done, 10)
