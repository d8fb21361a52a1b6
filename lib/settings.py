"""Copy propagation through setters and getters: what a getter answers after a setter ran, as terms over the setter's arguments
and the object's earlier state. Values are opaque terms; wrappers, smart pointers and strings hand their content on unchanged."""
from ceval import *

HOLDERS = ('FUTrackedPtr', 'FUObjectRef', 'FUTracker')
LISTS = ('fm::vector', 'fm::pvector', 'FUObjectContainer', 'FUTrackedList', 'FUObjectList', 'fm::tree', 'fm::map')
CLEANERS = ('CleanSubId', 'CleanId', 'CleanName')
QUIET = ('SetDirtyFlag', 'SetNewChildFlag', 'SetValueChange', 'SetStructureChangedFlag', 'SetDaeIdChangedFlag', 'SetValueChangedFlag')


def kind(e):
    o = e.get('obj')
    t = (e.get('cal') or {}).get('c') or ''
    return t


class Settings(Interp):
    def __init__(self, P, announce=False, **kw):
        self.nonnull = kw.pop('nonnull', ())
        self.before = kw.pop('before', {})     # values of static variables at the start
        Interp.__init__(self, P, hook=self.step, maxpaths=kw.pop('maxpaths', 96), **kw)

    def decide(self, e, v):
        if isinstance(v, T) and v.tag in self.nonnull:
            return True
        return Interp.decide(self, e, v)

    def glob(self, q):
        if q not in self.globals and q in self.before:
            self.globals[q] = Cell(self.before[q].v)
        return Interp.glob(self, q)

    def opaque(self, f):
        return f.q.startswith(('fm::', 'std::', 'FUObject', 'FUTracker', 'FUTracked', 'FUEvent', 'FUFunctor', 'FUUniqueStringMap',
                               'FUXml', 'FUFile', 'FUError', 'FUStringConversion', 'FUStringBuilder', 'FMVector', 'FMMatrix',
                               'FMQuaternion', 'FMSkew', 'FMLookAt', 'FMAngleAxis', 'FUUri', 'FUTrackable', 'FCDDocument', 'FCDExternalReferenceManager')) \
            and not (f.q.startswith('FMVector') and f.n.startswith('FMVector'))

    def size(self, o):
        c = o.fields.get('#size')
        if c is None:
            c = o.fields['#size'] = Cell(T('size(%s)' % self.tag(o)))
        return c

    def step(self, I, e, obj, args, fr):
        if e['k'] == 'Ctor':
            t = bare(e.get('t', ''))
            ps = (e.get('cal') or {}).get('p', ())
            if len(args) == 1 and isinstance(args[0], T) and ps and (bare(ps[0]) == t or t.startswith(HOLDERS) or 'stringT' in t):
                return args[0]
            if (e.get('t') or '').startswith('fm::stringT') and len(args) == 1 and isinstance(args[0], T):
                return args[0]
            return NotImplemented
        n = callee_n(e)
        c = kind(e)
        hasobj = isinstance(e.get('obj'), dict)
        if n in CLEANERS and args and isinstance(args[0], T):
            for x in e['args'][:1]:
                pass
            return args[0]
        if hasobj and n == 'operator=' and len(args) == 1:
            f = self.P.direct(e)
            if f is not None and f.body is not None and not self.opaque(f):
                return NotImplemented
            cell = self.lv(e['obj'], fr) if e['obj']['k'] in ('Ref', 'Mem', 'Idx', 'Un') else None
            if cell is not None:
                self.put(cell, args[0])
                return args[0]
            return NotImplemented
        if n == 'IsEquivalent' and len(args) >= 2 and not all(isinstance(a, (int, float, bool)) for a in args[:2]):
            return T('IsEquivalent(%s,%s)' % (self.tag(args[0]), self.tag(args[1])))
        if hasobj and c.startswith(HOLDERS):
            if n.startswith('operator ') or n in ('operator->', 'operator*'):
                return obj
        if hasobj and isinstance(obj, T):
            if n in ('c_str', 'begin') and ('stringT' in c or not c) or n.startswith('operator ') and 'stringT' in c:
                return obj
            if n in ('size', 'length', 'GetCount') and not args:
                return self.size(obj).v
            if n == 'empty' and not args:
                z = self.size(obj).v
                return self.arith('==', z, 0, e)
            if n == 'resize' and args:
                self.size(obj).v = args[0]
                return None
            if n == 'clear':
                self.size(obj).v = 0
                return None
        if c and c.startswith(LISTS) and n in ('begin', 'end', 'at', 'operator[]', 'front', 'back') and isinstance(obj, T):
            return T('%s(%s)' % (n, ','.join(self.tag(a) for a in [obj] + args)), e.get('t', ''))
        return NotImplemented


def norm(v, d=0):
    """A comparable form of a value: wrappers and strings stand for their content."""
    if isinstance(v, Ptr):
        try:
            v = v.get()
        except Exception:
            return 'ptr'
    if d > 6:
        return '...'
    if isinstance(v, Obj):
        if set(v.fields) == {'value'}:
            return norm(v.fields['value'].v, d + 1)
        return '{%s}' % ','.join('%s=%s' % (k, norm(c.v, d + 1)) for k, c in sorted(v.fields.items()))
    if isinstance(v, T):
        tag = v.tag
        while tag.startswith('str(') and tag.endswith(')'):
            tag = tag[4:-1]
        own = {}
        for k, c in v.fields.items():
            if k in ('#size', 'flags'):
                continue
            x = norm(c.v, d + 1)
            if x != '%s.%s' % (v.tag, k) and x != '...':
                own[k] = x
        if set(own) == {'value'}:
            return own['value']
        if own:
            return '%s{%s}' % (tag, ','.join('%s=%s' % kv for kv in sorted(own.items())))
        return tag
    if isinstance(v, bool):
        return str(v)
    return repr(v)


EQ = re.compile(r'^\((.*) (==|!=) (.*)\)$')


def equal(conds):
    """Pairs of terms the path found equal."""
    out = []
    for e, r, v in conds:
        if not isinstance(v, T):
            continue
        m = EQ.match(v.tag)
        if m and (m.group(2) == '==') == r:
            out.append((m.group(1), m.group(3)))
        m = re.match(r'^(?:operator==|IsEquivalent)\((.*),(.*)\)$', v.tag)
        if m and r:
            out.append((m.group(1), m.group(2)))
        m = re.match(r'^operator!=\((.*),(.*)\)$', v.tag)
        if m and not r:
            out.append((m.group(1), m.group(2)))
    return out + [(a.replace('.value', ''), b.replace('.value', '')) for a, b in out]
