"""Value numbering of floating-point code in an algebraic normal form: every number is a quotient of polynomials over the unknown
inputs and over opaque function applications (square root, sine, ...). Comparisons fork the evaluation; along a path the sign of each
compared difference is recorded, so that a result can be compared with a reference formula under the same signs. Rounding is ignored."""
from fractions import Fraction
import math
from ceval import *

MAXTERMS = 6000


class Poly:
    """Polynomial: monomial (tuple of (atom, exponent)) -> coefficient."""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.m)
        for k, c in o.m.items():
            s = r.get(k, 0) + c
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()} if c else {})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.m) * len(o.m) > MAXTERMS * 4:
            raise Unsupported('formula too large')
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                d = dict(k1)
                for a, n in k2:
                    d[a] = d.get(a, 0) + n
                k = tuple(sorted(d.items()))
                s = r.get(k, 0) + c1 * c2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        if len(r) > MAXTERMS:
            raise Unsupported('formula too large')
        return Poly(r).reduce()

    def reduce(self):
        """sqrt(p)^2 = p, sin(x)^2 = 1 - cos(x)^2."""
        for k in self.m:
            for a, n in k:
                if n >= 2 and (a.startswith('sqrt(') or a.startswith('sin(')):
                    break
            else:
                continue
            break
        else:
            return self
        out = Poly({})
        for k, c in self.m.items():
            part = Poly.const(c)
            for a, n in k:
                if n >= 2 and a.startswith('sqrt(') and a in ATOMS:
                    p = ATOMS[a]
                    if p.d.m == {(): Fraction(1)}:
                        part = part * _pow(p.n, n // 2)
                        n %= 2
                elif n >= 2 and a.startswith('sin('):
                    co = 'cos(' + a[4:]
                    part = part * _pow(Poly.const(1) - Poly({((co, 2),): Fraction(1)}), n // 2)
                    n %= 2
                if n:
                    part = Poly({tuple(sorted(list(kk) + [(a, n)])) if a not in dict(kk) else
                                 tuple(sorted([(x, y + (n if x == a else 0)) for x, y in kk])): cc for kk, cc in part.m.items()})
            out = out + part
        return out if out.m == self.m else out.reduce()

    def is_const(self):
        return not self.m or set(self.m) == {()}

    def value(self):
        return self.m.get((), Fraction(0))

    def zero(self):
        """Zero up to the rounding of constants written in the source."""
        if not self.m:
            return True
        return all(abs(c) < Fraction(1, 500000) for c in self.m.values())

    def text(self):
        if not self.m:
            return '0'
        out = []
        for k, c in sorted(self.m.items()):
            f = '*'.join(a if n == 1 else '%s^%d' % (a, n) for a, n in k)
            cs = '%s' % (c if c.denominator < 10000 else '%.6g' % float(c))
            out.append(f if c == 1 and f else ('-' + f if c == -1 and f else cs + ('*' + f if f else '')))
        return ' + '.join(out)


def _pow(p, n):
    r = Poly.const(1)
    for _ in range(n):
        r = r * p
    return r


ATOMS = {}      # function atoms: text -> argument (Sym)
ONE = Poly.const(1)


class Sym:
    """A number: quotient of two polynomials."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE):
        if d.is_const() and d.value() != 1 and d.value() != 0:
            n, d = n.scale(1 / d.value()), ONE
        elif not d.is_const() and len(d.m) == 1:
            # cancel common monomial factors
            (k, c), = d.m.items()
            common = dict(k)
            for kk in n.m:
                dd = dict(kk)
                common = {a: min(x, dd.get(a, 0)) for a, x in common.items() if dd.get(a, 0)}
            if common and n.m:
                def drop(kk):
                    return tuple(sorted((a, x - common.get(a, 0)) for a, x in kk if x - common.get(a, 0)))
                n = Poly({drop(kk): v for kk, v in n.m.items()})
                d = Poly({drop(kk): v for kk, v in d.m.items()})
                if d.is_const() and d.value() != 1:
                    n, d = n.scale(1 / d.value()), ONE
        self.n, self.d = n, d

    @staticmethod
    def of(v):
        if isinstance(v, Sym):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return Sym(Poly.const(v))
        if isinstance(v, Fraction):
            return Sym(Poly.const(v))
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('infinite constant')
            return Sym(Poly.const(Fraction(repr(v))))
        if isinstance(v, T):
            return Sym(Poly.atom(v.tag))
        raise Unsupported('not a number: %r' % (v,))

    @staticmethod
    def var(a):
        return Sym(Poly.atom(a))

    def __add__(self, o):
        o = Sym.of(o)
        if self.d.m == o.d.m:
            return Sym(self.n + o.n, self.d)
        return Sym(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.n, self.d)

    def __sub__(self, o):
        return self + (-Sym.of(o))

    def __rsub__(self, o):
        return Sym.of(o) - self

    def __mul__(self, o):
        o = Sym.of(o)
        return Sym(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sym.of(o)
        return Sym(self.n * o.d, self.d * o.n)

    def __rtruediv__(self, o):
        return Sym.of(o) / self

    def same(self, o):
        o = Sym.of(o)
        return (self.n * o.d - o.n * self.d).zero()

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def text(self):
        if self.d.m == {(): Fraction(1)}:
            return self.n.text()
        return '(%s)/(%s)' % (self.n.text(), self.d.text())

    def __repr__(self):
        t = self.text()
        return t if len(t) < 400 else t[:400] + '...'


def fn(name, *args):
    """An opaque function of numbers."""
    args = [Sym.of(a) for a in args]
    if name in ('sin', 'tan', 'asin', 'atan') and len(args) == 1 and args[0].is_const() and not args[0].n.m:
        return Sym.of(0)
    if name == 'cos' and args[0].is_const() and not args[0].n.m:
        return Sym.of(1)
    if name == 'sqrt' and args[0].is_const():
        v = args[0].n.value()
        if v >= 0:
            return Sym.of(math.sqrt(v))
    if name in ('fabs', 'abs') and args[0].is_const():
        return Sym.of(abs(args[0].n.value()))
    if name == 'atan2' and all(a.is_const() for a in args):
        return Sym.of(math.atan2(args[0].n.value(), args[1].n.value()))
    if name in ('sin', 'tan', 'asin', 'atan') and lead(args[0]) < 0:
        return -fn(name, -args[0])
    if name in ('cos', 'fabs') and lead(args[0]) < 0:
        return fn(name, -args[0])
    t = '%s(%s)' % (name, ','.join(a.text() for a in args))
    if len(args) == 1:
        ATOMS[t] = args[0]
    return Sym.var(t)


def lead(s):
    """Sign of the leading coefficient of a difference."""
    p = s.n * s.d if not s.d.is_const() else s.n
    if not p.m:
        return 0
    k = sorted(p.m)[-1]
    return 1 if p.m[k] > 0 else -1


def canon(d):
    """(canonical polynomial text, flipped)"""
    p = d.n if d.d.is_const() else d.n * d.d
    k = sorted(p.m)[-1]
    c = p.m[k]
    p = p.scale(1 / abs(c))
    if c < 0:
        return (-p), True
    return p, False


class FieldView:
    """The components of an object seen as an array."""

    def __init__(self, o, names, I):
        self.o, self.names, self.I = o, names, I

    def __len__(self):
        return len(self.names)

    def cell(self, i):
        return self.I.fcell(self.o, self.names[i], 'float')

    def __getitem__(self, i):
        return self.cell(i).v

    def __setitem__(self, i, v):
        self.cell(i).v = v


class FlatView:
    """A nested array seen as one row of elements."""

    def __init__(self, rows):
        self.rows = rows
        self.w = len(rows[0])

    def __len__(self):
        return self.w * len(self.rows)

    def __getitem__(self, i):
        return self.rows[i // self.w][i % self.w]

    def __setitem__(self, i, v):
        self.rows[i // self.w][i % self.w] = v


class FileOf:
    def __init__(self, file):
        self.file = file


class RowCell(Cell):
    """A cell that is an element of an array."""
    __slots__ = ('row', 'i')

    def __init__(self, row, i):
        self.row, self.i = row, i

    @property
    def v(self):
        return self.row[self.i]

    @v.setter
    def v(self, x):
        self.row[self.i] = x


VECS = {'FMVector2': ['x', 'y'], 'FMVector3': ['x', 'y', 'z'], 'FMVector4': ['x', 'y', 'z', 'w'], 'FMQuaternion': ['x', 'y', 'z', 'w'],
        'FMColor': ['r', 'g', 'b', 'a']}
ALIAS = {('FMVector2', 'u'): 'x', ('FMVector2', 'v'): 'y'}
FLOATS = ('float', 'double', 'long double')
FUNS = {'sqrtf': 'sqrt', 'sqrt': 'sqrt', 'sinf': 'sin', 'sin': 'sin', 'cosf': 'cos', 'cos': 'cos', 'tanf': 'tan', 'tan': 'tan',
        'acosf': 'acos', 'acos': 'acos', 'asinf': 'asin', 'asin': 'asin', 'atan2f': 'atan2', 'atan2': 'atan2', 'fabsf': 'fabs',
        'fabs': 'fabs', 'abs': 'fabs', 'floor': 'floor', 'floorf': 'floor', 'atan': 'atan', 'atanf': 'atan', 'fmodf': 'fmod', 'fmod': 'fmod',
        'powf': 'pow', 'pow': 'pow', 'expf': 'exp', 'exp': 'exp'}


class Algebra(Interp):
    def __init__(self, P, extra=None, **kw):
        self.extra = extra
        Interp.__init__(self, P, hook=self.step, **kw)
        self.polys = {}

    def call_fn(self, fn_, this, args, argcells=None):
        cells = list(argcells) if argcells else [None] * len(args)
        for i, p in enumerate(fn_.params[:len(args)]):
            a = args[i]
            if bare(p['t'].rstrip('&* ')) in FLOATS and p['t'].rstrip().endswith('&') and isinstance(a, Ptr) and isinstance(a.a, Cell):
                cells[i] = a.a
        return Interp.call_fn(self, fn_, this, args, cells)

    OPQ = ('fm::', 'std::', 'FUObject', 'FUTracker', 'FUTracked', 'FUEvent', 'FUFunctor', 'FUUniqueStringMap', 'FUXml', 'FUFile',
           'FUError', 'FUStringBuilder')

    def opaque(self, f):
        return f.q.startswith(self.OPQ)

    def fcell(self, o, name, t):
        name = ALIAS.get((o.cls if isinstance(o, Obj) else bare(o.t), name), name)
        c = o.fields.get(name)
        if c is None:
            m = re.findall(r'\[(\d+)\]', t or '')
            base = (t or '').split('[')[0].strip()
            tag = '%s.%s' % (o.tag if isinstance(o, T) else (o.tag or o.cls), name)

            def mk(dims, pre):
                if not dims:
                    return Sym.var(pre) if base in FLOATS else T(pre, base)
                return [mk(dims[1:], '%s[%d]' % (pre, i)) for i in range(int(dims[0]))]
            if m:
                v = mk(m, tag)
            elif base in FLOATS:
                v = Sym.var(tag)
            elif base in VECS or base.startswith('FMMatrix'):
                v = Obj(base, tag)
            else:
                v = T(tag, t or '')
            c = o.fields[name] = Cell(v)
        return c

    def field(self, o, e):
        if isinstance(o, Ptr):
            o = o.get()
        if isinstance(o, (Obj, T)):
            if not e['n']:
                return Cell(o)      # anonymous union
            return self.fcell(o, e['n'], e.get('t', ''))
        return None

    def glob(self, q, near=None):
        r = self.P.varsf.get((q, near)) or self.P.vars.get(q)
        key = (q, r['file']) if r else q
        if key not in self.globals:
            if r and isinstance(r.get('init'), dict):
                self.globals[key] = Cell(T('busy'))
                v = self.ev(r['init'], (FileOf(r['file']), None, {}))
                m = re.search(r'\[(\d+)\]', r['t'])
                if isinstance(v, list) and m:
                    v = v + [None if is_ptr(r['t'].split('[')[0]) else 0] * (int(m.group(1)) - len(v))
                self.globals[key] = Cell(v)
            else:
                self.globals[key] = Cell(T('glob:' + q, r['t'] if r else ''))
        return self.globals[key]

    def lv(self, e, fr):
        if e['k'] == 'Ref' and e.get('dk') == 'glob':
            return self.glob(e['q'], fr[0].file if fr[0] is not None else None)
        if e['k'] == 'Ref' and e.get('dk') == 'var' and fr[2].get(e['d']) is None and not e.get('static'):
            t = e.get('t', '')
            m = re.findall(r'\[(\d+)\]', t)
            if m and t.split('[')[0].strip() in FLOATS:
                def mk(dims, pre):
                    if not dims:
                        return Sym.var(pre)
                    return [mk(dims[1:], '%s[%d]' % (pre, i)) for i in range(int(dims[0]))]
                fr[2][e['d']] = Cell(mk(m, e['n']))
        if e['k'] == 'Idx':
            b, i = self.ev(e['b'], fr), self.ev(e['i'], fr)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                if isinstance(b, list):
                    return Ptr(b, i)
                if isinstance(b, Ptr) and b.i is not None:
                    return Ptr(b.a, b.i + i)
                if isinstance(b, Ptr) and i == 0:
                    return b
            return None
        return Interp.lv(self, e, fr)

    def un(self, e, fr):
        op = e['op']
        if op == '&' and e['e']['k'] in ('Mem', 'Idx'):
            x = e['e']
            if x['k'] == 'Mem' and x.get('dk') == 'field':
                o = self.ev(x['b'], fr)
                if isinstance(o, Ptr):
                    o = o.get()
                cls = o.cls if isinstance(o, Obj) else None
                if cls in VECS:
                    nm = ALIAS.get((cls, x['n']), x['n'])
                    if nm in VECS[cls]:
                        return Ptr(FieldView(o, VECS[cls], self), VECS[cls].index(nm))
            if x['k'] == 'Idx' and unwrap(x['b'])['k'] == 'Idx':
                inner = unwrap(x['b'])
                rows = self.ev(inner['b'], fr)
                i, j = self.ev(inner['i'], fr), self.ev(x['i'], fr)
                if isinstance(rows, list) and isinstance(i, int) and isinstance(j, int):
                    fv = FlatView(rows)
                    return Ptr(fv, i * fv.w + j)
        if op in ('-', '+'):
            v = self.ev(e['e'], fr)
            if isinstance(v, Sym):
                return -v if op == '-' else v
            if isinstance(v, (int, float)):
                return wrap(-v if op == '-' else v, e.get('t', ''))
            if isinstance(v, T) and bare(v.t) in FLOATS:
                return -Sym.of(v) if op == '-' else v
            return T('%s%s' % (op, self.tag(v)), e.get('t', ''))
        return Interp.un(self, e, fr)

    def truth(self, e, v):
        if isinstance(v, Sym):
            return not self.cmp('==', v, Sym.of(0), e)
        return Interp.truth(self, e, v)

    def sgn(self, kind, key, e):
        """One of the three signs of a canonical difference."""
        kp, kn, kz = 'pos:' + key, 'neg:' + key, 'zero:' + key
        me = {'+': kp, '-': kn, '0': kz}[kind]
        if me in self.known:
            return self.known[me]
        oth = [k for k in (kp, kn, kz) if k != me]
        if any(self.known.get(k) for k in oth):
            return False
        if all(self.known.get(k) is False for k in oth):
            return True
        return self.decide(e, T(me))

    def cmp(self, op, a, b, e):
        a, b = Sym.of(a), Sym.of(b)
        d = a - b
        if d.is_const():
            v = d.n.value()
            return {'<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        if d.n.zero():
            return op in ('<=', '>=', '==')
        p, flip = canon(d)
        key = p.text()
        self.polys[key] = p
        if flip:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if op == '<':
            return self.sgn('-', key, e)
        if op == '>':
            return self.sgn('+', key, e)
        if op == '<=':
            return not self.sgn('+', key, e)
        if op == '>=':
            return not self.sgn('-', key, e)
        r = self.sgn('0', key, e)
        return r if op == '==' else not r

    def arith(self, op, a, b, e):
        fl = lambda v: isinstance(v, Sym) or (isinstance(v, T) and bare(v.t) in FLOATS)
        nums = (int, float, bool, Sym)
        if fl(a) or fl(b):
            if not isinstance(a, nums + (T,)) or not isinstance(b, nums + (T,)):
                return T('(%s %s %s)' % (self.tag(a), op, self.tag(b)), e.get('t', ''))
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return self.cmp(op, a, b, e)
            a, b = Sym.of(a), Sym.of(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b.is_const() and not b.n.m:
                    raise Unsupported('division by zero')
                return a / b
        if isinstance(a, list) and isinstance(b, int) and op == '+' and a and isinstance(a[0], list):
            return Ptr(FlatView(a), b)
        return Interp.arith(self, op, a, b, e)

    def ev(self, e, fr):
        if e['k'] == 'Cast' and 'v' not in e:
            ck = e.get('ck') or ''
            if e.get('t') == 'bool' and unwrap(e['e']).get('t') in FLOATS:
                v = self.ev(e['e'], fr)
                return self.truth(e, v)
            v = self.ev(e['e'], fr)
            if isinstance(v, Sym):
                t = bare(e.get('t', ''))
                src = bare(e['e'].get('t', '') or '')
                if t in UNSIGNED or t in SIGNED:
                    if src in FLOATS:
                        if v.is_const():
                            return int(v.n.value())
                        return fn('int', v)
                return v
            if isinstance(v, float) and bare(e.get('t', '')) in list(UNSIGNED) + list(SIGNED):
                return wrap(int(v), e.get('t', ''))
            if e.get('t') == 'bool' and not isinstance(v, T):
                return self.truth(e, v)
            tt = bare(e.get('t', '').rstrip('*& '))
            if is_ptr(e.get('t', '')) and tt in VECS and isinstance(v, list) and len(v) >= len(VECS[tt]):
                o = Obj(tt)
                for i, nm in enumerate(VECS[tt]):
                    o.fields[nm] = RowCell(v, i)
                return Ptr(Cell(o))
            if is_ptr(e.get('t', '')) and isinstance(v, list) and v and isinstance(v[0], list) and '(*)' not in e.get('t', '') and '[' not in e.get('t', ''):
                return Ptr(FlatView(v), 0)
            if ck in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay') or isinstance(v, (T, Obj, Ptr, list)) or v is None:
                return v
            return wrap(v, e.get('t', ''))
        return Interp.ev(self, e, fr)

    def step(self, I, e, obj, args, fr):
        if self.extra:
            r = self.extra(I, e, obj, args, fr)
            if r is not NotImplemented:
                return r
        if e['k'] == 'Ctor':
            return NotImplemented
        n, q = callee_n(e), callee_q(e) or ''
        if n == 'epsilon' and q.startswith('std::numeric_limits'):
            return 2.220446049250313e-16
        hasobj = isinstance(e.get('obj'), dict)
        if not hasobj and n in FUNS and args and all(isinstance(a, (Sym, int, float)) for a in args):
            if any(isinstance(a, Sym) for a in args) or n not in ('abs',):
                return fn(FUNS[n], *args)
        if not hasobj and n in ('max', 'min') and len(args) == 2:
            if any(isinstance(a, Sym) for a in args):
                if n == 'max':
                    return args[1] if self.cmp('<', args[0], args[1], e) else args[0]
                return args[1] if self.cmp('<', args[1], args[0], e) else args[0]
            if all(isinstance(a, (int, float)) for a in args):
                return max(args) if n == 'max' else min(args)
        if n == 'IsEquivalent' and not hasobj and len(args) >= 2 and all(isinstance(a, (Sym, int, float)) for a in args[:2]):
            d = Sym.of(args[0]) - Sym.of(args[1])
            if d.is_const():
                return abs(d.n.value()) < Fraction(1, 10000)
            p, _ = canon(d)
            self.polys[p.text()] = p
            return T('near:' + p.text())
        if hasobj and n == 'operator=' and isinstance(obj, Obj) and len(args) == 1 and isinstance(args[0], Obj):
            f = self.P.direct(e)
            if f is None or f.body is None or f.r.get('defaulted'):
                obj.fields = {k: Cell(copyv(c.v)) for k, c in args[0].fields.items()}
                return obj
        return NotImplemented

    def ctor(self, e, fr, nt=None):
        t = nt or bare(e.get('t', ''))
        f = self.P.direct(e)
        if t in self.P.cls:
            args, cells = self.args(e, fr)
            args = [a.get() if isinstance(a, Ptr) and isinstance(a.a, Cell) and isinstance(a.get(), Obj) else a for a in args]
            plain = f is None or f.body is None or f.r.get('defaulted')
            if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == t:
                if plain:
                    return copyv(args[0])
                o = Obj(t)
                self.construct(f, o, args, cells)
                return o
        return Interp.ctor(self, e, fr, nt)


def copyv(v):
    if isinstance(v, list):
        return [copyv(x) for x in v]
    if isinstance(v, Obj):
        o = Obj(v.cls, v.tag)
        o.fields = {k: Cell(copyv(c.v)) for k, c in v.fields.items()}
        return o
    return v


# ---- signs along a path

class Signs:
    """What a path knows about the signs of differences; the reference formula asks and, where the path does not say, forks."""

    def __init__(self, conds):
        self.sg = {}        # text -> set of possible signs
        self.near = {}
        for e, r, v in conds:
            if not isinstance(v, T) or ':' not in v.tag:
                continue
            k, t = v.tag.split(':', 1)
            if k in ('pos', 'neg', 'zero'):
                s = self.sg.setdefault(t, {'+', '-', '0'})
                me = {'pos': '+', 'neg': '-', 'zero': '0'}[k]
                if r:
                    s &= {me}
                else:
                    s -= {me}
            elif k == 'near':
                self.near[t] = r


def feasible(signs, choice, polys):
    """No sum of up to three of the known inequalities is a contradiction."""
    cons = []
    items = [(t, s) for t, s in signs.items() if t in polys] + [(t, {s}) for t, s in choice.items() if t in polys and isinstance(s, str)]
    for t, s in items:
        p = polys[t]
        if '-' not in s:
            cons.append((p, '0' not in s))
        if '+' not in s:
            cons.append((-p, '0' not in s))
    cons = [c for c in cons if len(c[0].m) <= 12]
    if len(cons) > 16:
        cons = cons[:16]

    def contra(p, strict):
        return p.is_const() and (p.value() < 0 or (p.value() == 0 and strict))
    for i, (p, sp) in enumerate(cons):
        for j in range(i + 1, len(cons)):
            q, sq = cons[j]
            pq = p + q
            if contra(pq, sp or sq):
                return False
            for k in range(j + 1, len(cons)):
                r, sr = cons[k]
                if contra(pq + r, sp or sq or sr):
                    return False
    return True


class Fork(Exception):
    def __init__(self, key, opts):
        self.key, self.opts = key, opts


class Infeasible(Exception):
    pass


def subst(p, a, q):
    """p with the atom a replaced by the polynomial q."""
    out = Poly({})
    for k, c in p.m.items():
        d = dict(k)
        n = d.pop(a, 0)
        m = Poly({tuple(sorted(d.items())): c})
        out = out + (m * _pow(q, n) if n else m)
    return out


def solved(z):
    """(atom, value) for a polynomial known to be zero and linear in an atom that appears nowhere else in it."""
    for k, c in sorted(z.m.items(), reverse=True):
        if len(k) == 1 and k[0][1] == 1 and '(' not in k[0][0]:
            a = k[0][0]
            if all(a not in x for kk in z.m if kk != k for x, _ in kk):
                return a, Poly({kk: -v / c for kk, v in z.m.items() if kk != k})
    return None


class Oracle:
    """Evaluates a reference formula under a choice of signs."""

    def __init__(self, signs, choice, polys):
        self.s, self.c, self.polys = signs, choice, polys
        self.zero = []      # polynomials the case takes for zero
        self.norms = None

    def facts(self):
        for t, s in self.s.sg.items():
            if t in self.polys:
                yield self.polys[t], set(s)
        for t, s in self.c.items():
            if t in self.polys and isinstance(s, str):
                yield self.polys[t], {s}

    def normal(self):
        """The sign facts, modulo the differences known to be zero: text -> possible signs."""
        if self.norms is None:
            self.subs = []
            self.norms = {}
            for p, s in self.facts():
                if s == {'0'}:
                    q = self.red(p)
                    v = solved(q) if q.m else None
                    if v:
                        self.subs.append(v)
            for _ in (0, 1):     # the second time with the signs that decide square roots
                for p, s in self.facts():
                    self.note(p, s)
        return self.norms

    def note(self, p, s):
        q, flip = self.norm(p)
        if q is None:
            return
        if flip:
            s = {{'+': '-', '-': '+', '0': '0'}[x] for x in s}
        if q.is_const():
            v = q.value()
            if ('+' if v > 0 else '-' if v < 0 else '0') not in s:
                raise Infeasible()
            return
        t = q.text()
        self.norms[t] = self.norms.get(t, {'+', '-', '0'}) & s
        if not self.norms[t]:
            raise Infeasible()

    def red(self, p):
        for a, q in self.subs:
            if any(x == a for k in p.m for x, _ in k):
                p = subst(p, a, q)
        return p

    def norm(self, p):
        """(polynomial with the same sign up to the flip, flip)"""
        p = self.red(p)
        rt = {a for k in p.m for a, _ in k if a.startswith('sqrt(')}
        if len(rt) == 1:
            a, = rt
            lin = [k for k in p.m if any(x == a for x, _ in k)]
            if lin == [((a, 1),)] and a in ATOMS and ATOMS[a].d.m == ONE.m:
                c = p.m[lin[0]]
                rest = Poly({k: v for k, v in p.m.items() if k != lin[0]})
                if True:
                    if c > 0:
                        rest = -rest
                    if rest.is_const():     # also when there is no rest
                        nonneg = rest.value() >= 0
                    else:
                        q, f = canon(Sym(rest))
                        known = self.norms.get(q.text(), {'+', '-', '0'})
                        nonneg = ('+' if f else '-') not in known
                    if nonneg:
                        # rest - |c| sqrt(S) has the sign of rest^2 - c^2 S
                        sq = self.red(rest * rest - ATOMS[a].n.scale(c * c))
                        p = sq if c < 0 else -sq
        if p.is_const() or p.zero():
            return (Poly({}) if p.zero() else p), False
        return canon(Sym(p))

    def sign(self, d):
        d = Sym.of(d)
        if d.is_const():
            v = d.n.value()
            return (v > 0) - (v < 0)
        if d.n.zero():
            return 0
        p, flip = canon(d)
        t = p.text()
        self.polys[t] = p
        opts = self.s.sg.get(t, {'+', '-', '0'})
        if t in self.c:
            r = self.c[t]
        elif len(opts) == 1:
            r = next(iter(opts))
        else:
            known = self.normal()
            q, f = self.norm(p)
            if q.is_const():
                v = q.value()
                opts = opts & {'+' if v > 0 else '-' if v < 0 else '0'}
            else:
                k = known.get(q.text(), {'+', '-', '0'})
                opts = opts & ({{'+': '-', '-': '+', '0': '0'}[x] for x in k} if f else k)
            if not opts:
                raise Infeasible()
            if len(opts) > 1:
                raise Fork(t, sorted(opts))
            r = next(iter(opts))
        r = {'+': 1, '-': -1, '0': 0}[r]
        return -r if flip else r

    def lt(self, a, b):
        d = Sym.of(a) - Sym.of(b)
        if not d.is_const() and not d.n.zero():
            p, flip = canon(d)
            opts = self.s.sg.get(p.text())
            if opts and p.text() not in self.c:
                neg = '+' if flip else '-'
                if neg not in opts:
                    return False
                if opts == {neg}:
                    return True
        return self.sign(Sym.of(a) - Sym.of(b)) < 0

    def max(self, a, b):
        return b if self.lt(a, b) else a

    def min(self, a, b):
        return b if self.lt(b, a) else a

    def near(self, a, b=0):
        """Result of the tolerance comparison of a and b; None when the path does not say."""
        d = Sym.of(a) - Sym.of(b)
        if d.is_const():
            return abs(d.n.value()) < Fraction(1, 10000)
        p, _ = canon(d)
        t = p.text()
        if t in self.s.near:
            return self.s.near[t]
        k = 'near:' + t
        if k in self.c:
            return self.c[k]
        raise Fork(k, [True, False])


def reference(conds, polys, ref, limit=4000):
    """All (oracle, value of the reference) consistent with a path."""
    s = Signs(conds)
    if any(not v for v in s.sg.values()):
        return
    todo, n = [{}], 0
    while todo:
        ch = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many sign cases')
        o = Oracle(s, ch, polys)
        try:
            v = ref(o)
        except Fork as f:
            for x in f.opts:
                d = dict(ch)
                d[f.key] = x
                todo.append(d)
            continue
        except Infeasible:
            continue
        try:
            o.normal()
        except Infeasible:
            continue
        yield o, v


def agree(o, a, b):
    """Whether two numbers are equal under the signs of the case: equal, or differing by a multiple of a difference known to be zero."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a == b
    a, b = Sym.of(a), Sym.of(b)
    if a.same(b):
        return True
    d = (a - b).n
    o.normal()
    if o.red(d).zero():
        return True
    zs = [o.polys[t] for t, s in list(o.s.sg.items()) + [(k, {v}) for k, v in o.c.items() if isinstance(v, str)]
          if s == {'0'} and t in o.polys] + o.zero
    for z in zs:
        if True:
            # exact division test for a multiple by a constant or a monomial
            if d.m and z.m:
                kz, kd = sorted(z.m)[-1], sorted(d.m)[-1]
                q = dict(kd)
                ok = True
                for a_, n_ in kz:
                    if q.get(a_, 0) < n_:
                        ok = False
                        break
                    q[a_] -= n_
                if ok:
                    mono = Poly({tuple(sorted((x, y) for x, y in q.items() if y)): d.m[kd] / z.m[kz]})
                    if (d - mono * z).zero():
                        return True
    return False
