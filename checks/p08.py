"""For every value that export leaves out under a condition on that value itself (a comparison with a constant, an emptiness or
truth test), the one omitted value is compared with what the importing routine leaves in the model when the name is absent: the
result of converting an empty text where the read is unconditional, the alternative of a conditional, or the value given by the
constructors. The condition must omit a single value (no range), for all components of a vector."""
from xmlflow import *
import xmlflow
from guards import Guards
from p07 import exempt, NO_NAME

FLIP = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


class Omit:
    """Values of a member for which a condition is false."""

    def __init__(self, P, fl, st):
        self.P, self.fl, self.st = P, fl, st

    def const(self, e):
        e = unwrap(e)
        if not isinstance(e, dict):
            return None
        if 'v' in e and isinstance(e['v'], (int, float, bool)):
            return float(e['v'])
        if e['k'] == 'Flt':
            return float(e['f'])
        if e['k'] == 'Null':
            return 0.0
        if e['k'] == 'Un' and e['op'] == '-':
            c = self.const(e['e'])
            return None if c is None else -c
        t = self.fl.tags(e, self.st)
        s = [x[1] for x in t if x[0] == 's']
        if len(s) == 1 and len(t) == 1:
            return s[0]
        if e['k'] == 'Ctor' and not [a for a in e.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]:
            return ''
        if e['k'] == 'Ref' and e.get('n') in ('emptyString', 'emptyFString', 'emptyCharString', 'Zero', 'Origin'):
            return '' if 'mpty' in e['n'] else 0.0
        return None

    def access(self, e, m):
        """The expression is the member itself or one component: returns component name, '' for the whole, None otherwise."""
        e = unwrap(e)
        if not isinstance(e, dict):
            return None
        t = self.fl.tags(e, self.st)
        if ('m', m) not in t:
            return None
        if e['k'] == 'Mem' and not self.fl.X.is_model(bare(unwrap(e['b']).get('t', ''))) and e['n'] in ('x', 'y', 'z', 'w'):
            return e['n'] if self.access(e['b'], m) == '' else None
        if e['k'] == 'Mem':
            return ''
        if e['k'] == 'Un' and e['op'] == '*':
            return self.access(e['e'], m)
        if e['k'] == 'Call':
            f = self.P.direct(e)
            o = e.get('obj')
            if e.get('op') in ('*', '->') or (f is not None and not f.params and callee_n(e).startswith('operator')):
                return self.access(o if o is not None else e['args'][0], m)
            if f is not None and self.fl.X.is_model(f.cls or '') and not [a for a in e['args'] if not a.get('dflt')]:
                rs = [s for s in walk_s(f.body) if s['k'] == 'Return'] if f.body else []
                if len(rs) == 1 and isinstance(rs[0].get('e'), dict):
                    u = self.strip(rs[0]['e'])
                    if u['k'] == 'Mem':
                        return ''
        return None

    def strip(self, e):
        e = unwrap(e)
        while isinstance(e, dict) and (e['k'] in ('Cast',) or e['k'] == 'Un' and e['op'] in ('*', '&') or e['k'] == 'Call' and (e.get('op') == '*' or callee_n(e).startswith('operator ') or callee_n(e) in ('c_str',)) and (e.get('obj') or e.get('args'))):
            e = unwrap(e['e'] if e['k'] in ('Cast', 'Un') else (e.get('obj') or e['args'][0]))
        return e

    def cond(self, c, pol, m):
        """Set of (component, value) omitted; None: nothing said about the member; 'unknown'; values may be ('range', text)."""
        c = unwrap(c)
        if c['k'] == 'Un' and c['op'] == '!':
            return self.cond(c['e'], not pol, m)
        if c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            a, b = self.cond(c['L'], pol, m), self.cond(c['R'], pol, m)
            if (c['op'] == '&&') == pol:        # both needed: either may omit
                if a == 'unknown' or b == 'unknown':
                    return 'unknown'
                return a if b is None else b if a is None else [x for x in a + b]
            if a is None or b is None:
                return a if b is None else b
            if a == 'unknown' or b == 'unknown':
                return 'unknown'
            if len(a) == 1 and len(b) == 1:
                return [dict(a[0], **b[0])]
            return 'unknown'
        op, x, y = None, None, None
        if c['k'] == 'Bin' and c['op'] in FLIP:
            op, x, y = c['op'], c['L'], c['R']
        elif c['k'] == 'Call' and c.get('op') in ('==', '!='):
            a = ([c['obj']] if c.get('obj') is not None else []) + list(c['args'])
            op, x, y = c['op'], a[0], a[1]
        elif c['k'] == 'Call' and callee_n(c) == 'IsEquivalent' and len(c['args']) >= 2:
            op, x, y = '==', c['args'][0], c['args'][1]
        elif c['k'] == 'Call' and callee_n(c) in ('empty', 'IsEmpty') and c.get('obj') is not None:
            k = self.access(c['obj'], m)
            if k is None:
                return 'unknown' if ('m', m) in self.fl.tags(c['obj'], self.st) else None
            return [{k: ''}] if not pol else [{k: ('range', 'every value that is not empty')}]
        if op is None:
            k = self.access(c, m)
            if k is None:
                return 'unknown' if ('m', m) in self.fl.tags(c, self.st) else None
            return [{k: 0.0 if pol else ('not', 0.0)}]
        if self.const(x) is not None and self.const(y) is None:
            x, y, op = y, x, SWAP[op]
        v = self.const(y)
        about = ('m', m) in self.fl.tags(c, self.st)
        if v is None:
            return 'unknown' if about else None
        if not pol:
            op = FLIP[op]
        u = unwrap(x)
        if u['k'] == 'Call' and callee_n(u) in ('length', 'size') and u.get('obj') is not None:
            k = self.access(u['obj'], m)
            if k is None:
                return 'unknown' if about else None
            if (op, v) in (('>', 0.0), ('!=', 0.0), ('>=', 1.0)):
                return [{k: ''}]
            return [{k: ('range', 'every value whose length is not %s %g' % (op, v))}]
        k = self.access(x, m)
        if k is None:
            return 'unknown' if about else None
        if op == '!=':
            return [{k: v}]
        t = bare(u.get('t', ''))
        uns = 'unsigned' in t or t.startswith('uint') or t in ('size_t',)
        if uns and (op, v) in (('>', 0.0), ('>=', 1.0)):
            return [{k: 0.0}]
        if op == '==':
            return [{k: ('range', 'every value other than %s' % v)}]
        return [{k: ('range', 'every value that is not %s %g' % (op, v))}]


def run(P, R):
    X = XmlFlow(P)
    W, Rd = {}, {}
    ow, orv = FnFlow.wev, FnFlow.rev
    G = {}

    def guards(f):
        if f.id not in G:
            G[f.id] = Guards(f)
        return G[f.id]

    def wev(self, paths, vt, e, st):
        if self.collect:
            ms = {t[1] for t in vt if t[0] == 'm'}
            if not ms:
                for c in guards(self.f).at.get(id(e), ()):
                    if isinstance(c[0], dict):
                        ms |= {t[1] for t in self.tags(c[0], st) if t[0] == 'm'}
            o = Omit(P, self, st)
            for m in ms:
                gs = []
                for c in guards(self.f).at.get(id(e), ()):
                    if isinstance(c[0], dict):
                        r = o.cond(c[0], c[1], m)
                        if r is not None:
                            gs.append(r)
                for p in paths:
                    W.setdefault((m, p[-1]), []).append((gs, self.f.loc(e)))
        return ow(self, paths, vt, e, st)

    def rev(self, members, vt, e, st, weak=False):
        if self.collect and members:
            for t in vt:
                if t[0] in ('n', 'nd') and (not weak or isinstance(weak, str)):
                    for m in members:
                        Rd.setdefault((m, t[1][-1]), []).append((absent(P, self, guards(self.f), e, t[1], st), self.f.loc(e)))
        return orv(self, members, vt, e, st, weak)
    try:
        FnFlow.wev, FnFlow.rev = wev, rev
        for f in sorted(P.fns.values(), key=lambda f: f.id):
            if f.file.startswith('FColladaPlugins/FArchiveXML') and f.body:
                X.summary(f)
    finally:
        FnFlow.wev, FnFlow.rev = ow, orv
    D = Defaults(P)
    n = skip = 0
    for (m, x), evs in sorted(W.items()):
        if exempt(m) or x in ('*', '~', '?') or (m, x) not in Rd:
            continue
        if any(not gs for gs, loc in evs):
            continue            # written whatever the value is, somewhere
        for gs, loc in evs:
            for g in gs:
                if g == 'unknown' or len(gs) > 2:
                    skip += 1
                    continue
                for om in g:
                    n += judge(P, R, D, m, x, om, loc, Rd[(m, x)])
    R.count('conditional values', n)
    R.count('conditions not about a single value', skip)
    R.floor('conditional values', n, 30)


def judge(P, R, D, m, x, om, loc, reads):
    key = 'omit:%s:%s' % (m, x)
    for k, v in om.items():
        if isinstance(v, tuple) and v[0] == 'range':
            R.bad(key, loc, '%s is left out of the document for %s; absent, it reads back as one value' % (m, v[1]))
            return 1
    vals = {v if not isinstance(v, tuple) else v for v in om.values()}
    if len(vals) != 1:
        return 0
    v = vals.pop()
    if '' not in om:
        t = vec_comps(P, m)
        if t and set(om) != t:
            R.bad(key, loc, '%s is left out of the document when only components %s have the default value' % (m, ', '.join(sorted(om))))
            return 1
    got = set()
    for a, l in reads:
        if a == 'keep':
            got |= {D.value(m)}
        else:
            got.add(a)
    got.discard(None)
    if not got:
        return 0
    neg = isinstance(v, tuple)

    def same(a):
        if neg:
            return a != 0.0 and a != ''
        return a == v or (a in ('', 0.0) and v in ('', 0.0))
    R.ob(key, loc, any(same(a) for a in got), '%s is left out of the document when it is %s, but import leaves it %s when "%s" is absent (read at %s)' % (
        m, fmt(v), ' or '.join(sorted(fmt(a) for a in got)), x, reads[0][1]))
    return 1


def fmt(v):
    if isinstance(v, tuple):
        return 'non-zero'
    return 'empty' if v == '' else '%g' % v if isinstance(v, float) else '"%s"' % v


def vec_comps(P, m):
    from p07 import field_type
    t = field_type(P, m) or ''
    for k in '234':
        if 'FMVector' + k in t:
            return set('xyzw'[:int(k)])
    return None


def absent(P, fl, g, e, p, st):
    """What the member holds after this read when the name is absent: a value, 'keep' (left as it was) or None (not known)."""
    def about(c):
        return any(t[0] in ('n', 'nd', 'nm') and (t[1][-1] in (p[-1], '*') or t[1] == p[:len(t[1])] and len(t[1]) == len(p)) for t in fl.tags(c, st))
    for c in g.at.get(id(e), ()):
        if c[0] in ('loop', 'switch') or isinstance(c[0], dict) and about(c[0]):
            return 'keep'
    v = e.get('R') if e['k'] == 'Bin' else None
    if v is None:
        a = [a for a in e.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]
        if e.get('op') == '=':
            v = a[-1]
        elif len(a) == 1:
            v = a[0]
        else:
            return None
    u = unwrap(v)
    while isinstance(u, dict) and u['k'] == 'Cast' and isinstance(u.get('e'), dict):
        u = unwrap(u['e'])
    om = Omit(P, fl, st)
    if u['k'] == 'Cond' and about(u['c']):
        for arm in (u['T'], u['F']):
            c = om.const(arm)
            if c is not None:
                return c
        return None
    if u['k'] == 'Ref' and u.get('dk') == 'var':
        # conditionally assigned local: its declared value
        decl, other, cond = None, [], False
        for s in walk_s(fl.f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    if d.get('d') == u['d']:
                        decl = d
        for x in fl.f.exprs():
            if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L']).get('d') == u['d'] or x['k'] == 'Call' and x.get('op') == '=' and unwrap((x.get('obj') or x['args'][0])).get('d') == u['d']:
                other.append(x)
        if decl is None:
            return None
        if not other:
            i = decl.get('init')
            if not isinstance(i, dict):
                return None
            return conv(P, fl, i)
        if all(any(c[0] in ('loop', 'switch') or isinstance(c[0], dict) and about(c[0]) for c in g.at.get(id(x), ())) for x in other):
            i = decl.get('init')
            return om.const(i) if isinstance(i, dict) else None
        return None
    return conv(P, fl, u)


def conv(P, fl, e):
    """Result of converting the text of an absent element or attribute."""
    e = unwrap(e)
    while isinstance(e, dict) and e['k'] in ('Cast',):
        e = unwrap(e['e'])
    for x in walk_e(e):
        if x['k'] == 'Call' and 'FromString' in callee_n(x):
            return None
        if x['k'] in ('Bin', 'Cond') or x['k'] == 'Un' and x['op'] in ('!', '-'):
            return None
        if x['k'] == 'Call' and callee_n(x) in ('substr', 'ReadNodeStage', 'ReadNodeCount', 'ReadNodeStride', 'Find'):
            return None
    t = e.get('t', '')
    if 'string' in t or 'char' in t:
        return ''
    b = bare(t)
    if b in P.enums:
        return None
    return 0.0


class Defaults:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def value(self, m):
        """Value every constructor leaves in the member, or None when not a common constant."""
        if m not in self.memo:
            self.memo[m] = self.find(m)
        return self.memo[m]

    def find(self, m):
        c, n = m.rsplit('::', 1)
        vals = set()
        ft = next((f['t'] for f in self.P.cls[c].fields if f['n'] == n), '') if c in self.P.cls else ''
        cs = [f for f in self.P.fns.values() if f.cls == c and f.n == self.P.cls[c].n.split('::')[-1] and f.body] if c in self.P.cls else []
        for f in cs:
            if any(i.get('deleg') for i in f.r.get('inits') or ()):
                continue
            v = self.dflt(ft)
            for i in f.r.get('inits') or ():
                if i.get('f') == n and isinstance(i.get('e'), dict):
                    v = self.const(i['e'], ft)
            for e in f.exprs():
                t = None
                if e['k'] == 'Bin' and e['op'] == '=':
                    t, r = e['L'], e['R']
                elif e['k'] == 'Call' and e.get('op') == '=' and e.get('args'):
                    t, r = e.get('obj') or e['args'][0], e['args'][-1]
                if t is not None:
                    u = unwrap(t)
                    if u['k'] == 'Mem' and u['n'] == n and unwrap(u['b'])['k'] == 'This':
                        v = self.const(r, ft)
            vals.add(v)
        return vals.pop() if len(vals) == 1 else None

    def dflt(self, t):
        for c in [bare(t)] + (self.P.ancestors(bare(t)) if bare(t) in self.P.cls else []):
            if 'FUParameterT<fm::stringT' in c:
                return ''
        return '' if 'string' in t or 'vector' in t or 'String' in t or 'List' in t else None

    def const(self, e, ft):
        e = unwrap(e)
        while isinstance(e, dict):
            if 'v' in e and isinstance(e['v'], (int, float, bool)):
                return float(e['v'])
            if e['k'] == 'Flt':
                return float(e['f'])
            if e['k'] == 'Str':
                return e['s']
            if e['k'] == 'Null':
                return 0.0
            if e['k'] in ('Ctor', 'List', 'Call'):
                a = [a for a in e.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]
                if e['k'] == 'Ctor' and not a:
                    return self.dflt(ft)
                vs = {self.const(x, ft) for x in a if not self.owner(x)} - {None}
                return vs.pop() if len(vs) == 1 else None
            if e['k'] == 'Un' and e['op'] == '-':
                c = self.const(e['e'], ft)
                return -c if isinstance(c, float) else None
            if e['k'] == 'Cast':
                e = unwrap(e['e'])
                continue
            if e['k'] == 'Ref':
                g = self.P.vars.get(e.get('q') or '')
                if e.get('n') in ('Zero', 'Origin', 'emptyString'):
                    return 0.0 if e['n'] != 'emptyString' else ''
                if g is not None and isinstance(g.get('init'), dict):
                    e = unwrap(g['init'])
                    continue
            return None
        return None

    def owner(self, e):
        return unwrap(e)['k'] == 'This'
