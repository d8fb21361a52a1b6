"""What kinds of object an expression may stand for at a point of a routine: the classes left by the type tests on the way,
by how the value was made, by what the callers hand in and by what is stored in the member it comes from."""
import re
from model import *

WORD = re.compile(r'[A-Za-z_]\w*')


class Box:
    """An expression remembered under identity."""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return isinstance(o, Box) and self.e is o.e

    def __hash__(self):
        return id(self.e)


def clean(t):
    t = re.sub(r'\bconst\b', ' ', str(t or '')).strip()
    return re.sub(r'\s+', ' ', t).rstrip('*& ').strip()


def strip(e):
    """Looks through casts, smart pointers and parentheses."""
    while isinstance(e, dict):
        if e['k'] == 'Cast':
            e = e['e']
        elif e['k'] == 'Call' and e.get('obj') is not None and not e.get('args') and (callee_n(e) or '').startswith('operator') and (e.get('op') == '->' or callee_n(e) not in ('operator*', 'operator++', 'operator--', 'operator!', 'operator-')):
            e = e['obj']
        elif e['k'] == 'Un' and e['op'] in ('&', '*') and not is_ptr(strip(e['e']).get('t', '')) and e['op'] == '*':
            e = e['e']
        elif e['k'] == 'Un' and e['op'] == '&':
            e = e['e']
        elif e['k'] == 'Ctor' and len(e.get('args', ())) == 1 and clean(e.get('t')).startswith(('FUObjectRef', 'FUTrackedPtr', 'FUObjectPtr')):
            e = e['args'][0]
        else:
            return e
    return e


def key(e):
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e['k'] == 'Un' and e['op'] == '*' and is_ptr(strip(e['e']).get('t', '')) and strip(e['e'])['k'] == 'This':
        e = strip(e['e'])
    return show(e)


class Casts:
    def __init__(self, P, tables=None):
        self.P = P
        self.desc = {}
        self.tags = {}
        self.flows = {}
        self.rets = {}
        self.params = {}
        self._asked = {}
        self.membs = {}
        self.preds = {}
        self.tables = tables or {}
        self._made = None
        self._set = {}
        self._may = {}
        self._calls = None
        self._writes = None
        self.discs = {}

    # -- classes
    def below(self, c):
        r = self.desc.get(c)
        if r is None:
            all_ = [c] + list(self.P.descendants(c)) if c in self.P.cls else []
            r = self.desc[c] = frozenset(x for x in all_ if x in self.P.cls and not self.P.cls[x].r.get('abstract')) or frozenset(all_)
        return r

    def tag(self, c, m):
        """The constant the virtual getter gives for objects of exactly this class; None when it is not constant."""
        k = (c, m)
        if k in self.tags:
            return self.tags[k]
        self.tags[k] = r = None
        f = (self.P.method(c, m) or [None])[0]
        if f is not None and f.body is not None and not f.params:
            vs = set()
            for n in f.cfg().nodes:
                if n.k == 'ret':
                    vs.add(const(unwrap(n.e)) if n.e is not None else None)
            if len(vs) == 1:
                r = vs.pop()
        self.tags[k] = r
        return r

    def gives(self, obj, m, v, S, f):
        """The classes of the object for which the getter m gives v, and those for which it does not."""
        ks = self.kinds(obj, S, f)
        yes = frozenset(c for c in ks if (self.tag(c, m) == v if self.tag(c, m) is not None else self.maybe(c, m, v)))
        no = frozenset(c for c in ks if self.tag(c, m) is None or self.tag(c, m) != v)
        return yes, no

    def maybe(self, c, m, v):
        """Whether an object of a class whose getter is not constant may answer v: not when all of them are made by routines
        that are told the value and make other classes for this one."""
        if self._made is None:
            self._made = {}
            for f in self.P.fns.values():
                if f.body is not None and 'FColladaTest' not in (f.file or ''):
                    for e in f.exprs():
                        if e['k'] == 'New':
                            self._made.setdefault(clean(e.get('t')), set()).add(f.id)
        k = (c, m, v)
        if k in self._may:
            return self._may[k]
        self._may[k] = True
        r = False
        g = (self.P.method(c, m) or [None])[0]
        et = clean(g.r.get('ret')) if g is not None else None
        for i in self._made.get(c, {None}):
            f = self.P.fns.get(i)
            if f is not None and f.cls == c:
                continue
            ps = [p for p in f.params if clean(p['t']) == et] if f is not None else []
            if len(ps) != 1 or et not in self.P.enums or c in self.returns(f, {ps[0]['n']: v}):
                r = True
        self._may[k] = r
        return r

    # -- tests
    def classof(self, e):
        """C for C::GetClassType()."""
        e = strip(e)
        if isinstance(e, dict) and e['k'] == 'Call' and callee_n(e) == 'GetClassType':
            return e['cal'].get('c')
        return None

    def define(self, e, S):
        e = strip(e)
        n = 0
        while isinstance(e, dict) and e['k'] == 'Ref' and ('?' + e.get('n', '')) in S and n < 4:
            e = strip(S['?' + e['n']].e)
            n += 1
        return e

    def narrow(self, S, e, ks):
        k = key(e)
        if k is None:
            return S
        S = dict(S)
        S[k] = ks
        d = self.define(e, S)
        if d is not strip(e) and isinstance(d, dict):
            S[show(d)] = ks
        return S

    def equal(self, S, L, R, truth, f):
        L, R = self.define(L, S), self.define(R, S)
        if not isinstance(L, dict) or not isinstance(R, dict):
            return S
        for a, b in ((L, R), (R, L)):
            if a['k'] == 'Cond':
                # one of two values: those that can be this one
                v, r = const(b), None
                for x, t in ((a['T'], True), (a['F'], False)):
                    w = const(strip(x))
                    if v is not None and w is not None and not isinstance(w, str) and (w == v) != truth:
                        continue
                    S2 = self.test(S, a['c'], t, f)
                    if S2 is not None:
                        S2 = self.equal(S2, x, b, truth, f)
                    if S2 is not None:
                        r = S2 if r is None else self.join(r, S2, f)
                return S if r is None else r
            if a['k'] == 'Call' and callee_n(a) == 'GetObjectType' and a.get('obj') is not None:
                c = self.classof(b)
                o = a['obj']
                ks = self.kinds(o, S, f)
                if c:
                    return self.narrow(S, o, (ks & {c}) if truth else ks - {c})
                if b['k'] == 'Call' and callee_n(b) == 'GetObjectType' and truth:
                    o2 = b.get('obj') or {'k': 'This', 't': f.cls or ''}
                    both = ks & self.kinds(o2, S, f)
                    return self.narrow(self.narrow(S, o, both), o2, both)
            v = const(b)
            if v is None and b['k'] == 'Ref' and ('=' + (key(b) or '')) in S:
                v = S['=' + key(b)]
            if v is not None:
                if a['k'] == 'Call' and a.get('obj') is not None and not a.get('args') and (a.get('cal') or {}).get('k'):
                    yes, no = self.gives(a['obj'], callee_n(a), v, S, f)
                    S2 = self.narrow(S, a['obj'], yes if truth else no)
                    if truth:
                        S2['=' + show(a)] = v
                    return S2
                if a['k'] == 'Call' and a.get('cal') and not a.get('args') and a.get('obj') is None:
                    pass
                if a['k'] == 'Mem' and a.get('b') is not None:
                    d = self.disc(clean(strip(a['b']).get('t')), a['n'])
                    S2 = dict(S)
                    if truth:
                        S2['=' + show(a)] = v
                    if d:
                        ks = self.kinds(a['b'], S, f)
                        if truth:
                            w = strip(a['b'])
                            w = S.get('?' + w['n']) if w['k'] == 'Ref' else None
                            w = strip(w.e) if w is not None else None
                            if isinstance(w, dict) and w['k'] == 'Call':
                                for x in w.get('args', ()):
                                    if strip(x)['k'] == 'Mem' and strip(x)['n'] == a['n']:
                                        S2['=' + key(x)] = v
                            return self.narrow(S2, a['b'], ks & d.get(v, frozenset()))
                        rest = frozenset(c for x in d for c in d[x] if x != v)
                        return self.narrow(S2, a['b'], ks & rest)
                    return S2
                if a['k'] == 'Ref' and truth:
                    S2 = dict(S)
                    S2['=' + show(a)] = v
                    return S2
                return S
        # both sides ask their object the same question
        if truth and L['k'] == 'Call' and R['k'] == 'Call' and callee_n(L) == callee_n(R) and not L.get('args') and not R.get('args') and L.get('obj') is not None and R.get('obj') is not None:
            m = callee_n(L)
            k1, k2 = self.kinds(L['obj'], S, f), self.kinds(R['obj'], S, f)
            t1, t2 = {self.tag(c, m) for c in k1}, {self.tag(c, m) for c in k2}
            if None not in t1 | t2:
                n1 = frozenset(c for c in k1 if self.tag(c, m) in t2)
                n2 = frozenset(c for c in k2 if self.tag(c, m) in t1)
                return self.narrow(self.narrow(S, L['obj'], n1), R['obj'], n2)
        return S

    def test(self, S, e, truth, f, depth=0):
        if S is None:
            return None
        e = self.define(unwrap(e), S)
        if not isinstance(e, dict):
            return S
        k = e['k']
        if k == 'Un' and e['op'] == '!':
            return self.test(S, e['e'], not truth, f, depth)
        if k == 'Bin' and e['op'] in ('&&', '||'):
            if (e['op'] == '&&') == truth:
                return self.test(self.test(S, e['L'], truth, f, depth), e['R'], truth, f, depth)
            a = self.test(S, e['L'], truth, f, depth)
            b = self.test(self.test(S, e['L'], not truth, f, depth), e['R'], truth, f, depth)
            return a if b is None else b if a is None else self.join(a, b, f)
        if k == 'Bin' and e['op'] in ('==', '!='):
            t = truth if e['op'] == '==' else not truth
            for a, b in ((e['L'], e['R']), (e['R'], e['L'])):
                if self.null(b):
                    return self.narrow(S, a, frozenset()) if t else S
            return self.equal(S, e['L'], e['R'], t, f)
        if k == 'Call' and e.get('op') in ('==', '!='):
            t = truth if e['op'] == '==' else not truth
            ab = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()))
            if len(ab) == 2:
                if self.null(ab[1]):
                    return self.narrow(S, ab[0], frozenset()) if t else S
                return self.equal(S, ab[0], ab[1], t, f)
        if k == 'Call' and callee_n(e) in ('HasType', 'IsType') and len(e.get('args', ())) == 1:
            o = e.get('obj')
            c = self.classof(e['args'][0])
            if c and o is not None:
                ks = self.kinds(o, S, f)
                at = self.below(c) if callee_n(e) == 'HasType' else frozenset([c])
                return self.narrow(S, o, ks & at if truth else ks - at)
            return S
        if k == 'Call' and callee_n(e) == 'Includes' and len(e.get('args', ())) == 1 and e.get('obj') is not None:
            g = self.define(e['obj'], S)
            c = self.classof(e['args'][0])
            if c and g['k'] == 'Call' and callee_n(g) == 'GetObjectType' and g.get('obj') is not None:
                ks = self.kinds(g['obj'], S, f)
                return self.narrow(S, g['obj'], ks & self.below(c) if truth else ks - self.below(c))
            return S
        if k == 'Call' and depth < 3 and e.get('cal'):
            g = self.P.direct(e)
            if g is not None and g.body is not None and str(g.r.get('ret')).replace('const ', '') == 'bool' and (not e['cal'].get('v') or e.get('qual')):
                ab = ([('this', e['obj'])] if e.get('obj') is not None else []) + [(p['n'], a) for p, a in zip(g.params, e.get('args', ()))]
                for n, a in ab:
                    c = clean(strip(a).get('t'))
                    if len(self.below(c)) > 1:
                        ks = self.kinds(a, S, f)
                        r = self.predicate(g, n, ks, depth, self.kinds(e['obj'], S, f) if e.get('obj') is not None and n != 'this' else None)
                        if r is not None:
                            S = self.narrow(S, a, r[0] if truth else r[1])
            return S
        if k == 'Call' and e.get('obj') is None and not e.get('args'):
            return S
        if is_ptr(e.get('t', '')) or clean(e.get('t')) in self.P.cls:
            return S if truth else self.narrow(S, e, frozenset())
        return S

    def null(self, e):
        e = unwrap(e)
        return isinstance(e, dict) and (e['k'] == 'Null' or e['k'] == 'Int' and e.get('v') == 0 and False)

    def predicate(self, g, name, ks, depth, own=None):
        """(kinds when it answers yes, kinds when no) of the object handed in under this name."""
        k = (g.id, name, ks, own)
        if k in self.preds:
            return self.preds[k]
        self.preds[k] = None
        if len(g.cfg().nodes) > 120:
            return None
        nm = 'this' if name == 'this' else name
        S0 = {nm: ks}
        if own is not None:
            S0['this'] = own
        inn = self.solve(g, S0, depth + 1)
        yes, no = frozenset(), frozenset()
        for n in g.cfg().nodes:
            S = inn[n.i]
            if n.k != 'ret' or S is None or n.e is None:
                continue
            v = const(unwrap(n.e))
            for t in (True, False):
                if v is not None and bool(v) != t:
                    continue
                S2 = S if v is not None else self.test(S, n.e, t, g, depth + 1)
                if S2 is None:
                    continue
                r = S2.get(nm, ks)
                if t:
                    yes |= r
                else:
                    no |= r
        self.preds[k] = (yes, no)
        return self.preds[k]

    def disc(self, c, m):
        """{value: classes} when objects of class c are made by a factory that picks the class by the value of member m."""
        k = (c, m)
        if k in self.discs:
            return self.discs[k]
        self.discs[k] = None
        cl = self.P.cls.get(c)
        fld = None
        for q in ([c] + list(self.P.ancestors(c))) if cl else ():
            for x in self.P.cls[q].fields if q in self.P.cls else ():
                if x['n'] == m:
                    fld, own = x, q
        if fld is None or len(self.below(own)) < 2:
            return None
        d = {}
        for f in self.P.fns.values():
            if f.body is None or clean(f.r.get('ret')) != own or not is_ptr(str(f.r.get('ret'))):
                continue
            ps = [p for p in f.params if clean(p['t']) in self.P.enums]
            if len(ps) != 1:
                continue
            # a factory: it makes the object and writes the parameter down in it
            if not any(e['k'] == 'Bin' and e['op'] == '=' and strip(e['L'])['k'] == 'Mem' and strip(e['L'])['n'] == m and key(e['R']) == ps[0]['n'] for e in f.exprs()):
                continue
            for v in enumvals(self.P.enums[clean(ps[0]['t'])]):
                d[v] = d.get(v, frozenset()) | self.returns(f, {ps[0]['n']: v})
        self.discs[k] = d or None
        return self.discs[k]

    # -- flow
    def join(self, a, b, f):
        r = {}
        for k in a.keys() & b.keys():
            x, y = a[k], b[k]
            if k[0] in '?=':
                if x == y:
                    r[k] = x
            else:
                r[k] = x | y
        return r

    def kill(self, S, name, keep=None):
        r = {}
        for k, v in S.items():
            if k in ('?' + name, '=' + name) or name in WORD.findall(k):
                continue
            if k[0] == '?' and name in WORD.findall(show(v.e)):
                continue
            r[k] = v
        return r

    def assign(self, S, target, val, f):
        t = strip(target)
        if not isinstance(t, dict):
            return S
        nm = t.get('n') if t['k'] in ('Ref', 'Mem') else None
        ks = None
        tc = clean(t.get('t'))
        if val is not None and (tc in self.P.cls or clean(strip(val).get('t')) in self.P.cls):
            ks = self.kinds(val, S, f)
        dv = Box(val) if val is not None and t['k'] == 'Ref' else None
        v = const(strip(val)) if val is not None else None
        if v is None and val is not None:
            v = S.get('=' + (key(val) or ''))
        r = self.kill(S, nm) if nm else dict(S)
        k = key(t)
        if ks is not None and k and (not nm or nm not in WORD.findall(show(strip(val))) or True):
            r[k] = ks
        if nm and t['k'] == 'Ref' and dv is not None and nm not in WORD.findall(show(dv.e)):
            r['?' + nm] = dv
        if v is not None and k and not isinstance(v, frozenset):
            r['=' + k] = v
        return r

    def solve(self, f, init, depth=0):
        cfg = f.cfg()

        def transfer(S, n):
            if n.k == 'decl':
                return self.declared(S, n, f)
            if n.k == 'ev' and isinstance(n.e, dict):
                e = n.e
                if e['k'] == 'Bin' and e['op'] == '=':
                    return self.assign(S, e['L'], e['R'], f)
                if e['k'] == 'Call' and e.get('op') == '=' and e.get('obj') is not None and e.get('args'):
                    return self.assign(S, e['obj'], e['args'][0], f)
                if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                    t = strip(e['L'])
                    return self.kill(S, t['n']) if t.get('n') else S
                if e['k'] == 'Un' and e['op'] in ('++', '--'):
                    t = strip(e['e'])
                    return self.kill(S, t['n']) if t.get('n') else S
                if e['k'] == 'Call' and not e.get('op') and e.get('obj') is not None and len(e.get('args', ())) == 1:
                    for t in self.setter(e):
                        S = dict(S)
                        S[show(strip(e['obj'])) + ('->' if is_ptr(strip(e['obj']).get('t', '')) or e.get('a') else '.') + t + '()' if strip(e['obj'])['k'] != 'This' else t + '()'] = self.kinds(e['args'][0], S, f)
                if e['k'] == 'Call' and not e.get('op'):
                    for a in e.get('args', ()):
                        while isinstance(a, dict) and a['k'] == 'Cast':
                            a = a['e']
                        if isinstance(a, dict) and a['k'] == 'Un' and a['op'] == '&' and strip(a['e'])['k'] == 'Ref':
                            S = self.kill(S, strip(a['e'])['n'])
                    return S
                if e['k'] == 'Call' and e.get('op') in ('++', '--') and e.get('obj') is not None:
                    t = strip(e['obj'])
                    return self.kill(S, t['n']) if t.get('n') else S
            return S

        def assume(S, a):
            if a[0] == 'case':
                _, e, v, ex = a
                if v is not None:
                    return self.feasible(self.equal(S, e, {'k': 'Int', 'v': v, 't': 'int'}, True, f), e, v, S)
                for x in ex or ():
                    S = self.equal(S, e, {'k': 'Int', 'v': x, 't': 'int'}, False, f)
                    k = '=' + (key(e) or '')
                    if S.get(k) == x:
                        return None
                return S
            if isinstance(a[0], str):
                return S
            e, t = a
            u = self.define(unwrap(e), S)
            c = const(u) if isinstance(u, dict) else None
            if c is not None and not isinstance(c, str):
                return S if bool(c) == t else None
            if isinstance(u, dict) and u['k'] == 'Bin' and u['op'] in ('==', '!='):
                for x, y in ((u['L'], u['R']), (u['R'], u['L'])):
                    v = const(strip(y))
                    k = '=' + (key(x) or '')
                    if v is not None and k in S:
                        r = (S[k] == v) == (u['op'] == '==')
                        if r != t:
                            return None
                    if self.null(y) and S.get(key(x)) == frozenset() and S.get('!' + (key(x) or '')):
                        pass
            return self.test(S, e, t, f, depth)

        return solve(cfg, init, transfer, assume, lambda a, b: self.join(a, b, f))

    def feasible(self, S, e, v, old):
        k = '=' + (key(e) or '')
        if k in old and old[k] != v:
            return None
        return S

    def declared(self, S, n, f):
        for d in decls(n):
            S = self.kill(S, d['n'])
            i = d.get('init')
            if isinstance(i, dict):
                S = self.assign(S, {'k': 'Ref', 'n': d['n'], 't': d.get('t'), 'dk': 'var'}, i, f)
        return S

    def flow(self, f):
        r = self.flows.get(f.id)
        if r is None:
            self.flows[f.id] = [None] * len(f.cfg().nodes)
            r = self.flows[f.id] = self.solve(f, {})
        return r

    def at(self, f, e):
        """The state before the expression is evaluated (None: never)."""
        inn = self.flow(f)
        for n in f.cfg().nodes:
            if n.e is e:
                return inn[n.i], n
        for n in f.cfg().nodes:
            es = [n.e] if isinstance(n.e, dict) else [d['init'] for d in decls(n) if isinstance(d.get('init'), dict)] if n.k == 'decl' else []
            for x in es:
                if any(y is e for y in walk_e(x)):
                    return inn[n.i], n
        return {}, None

    def setter(self, e):
        """The getters that hand out what this call stores."""
        g = self.P.direct(e)
        if g is None or g.body is None or not g.cls or (e['cal'].get('v') and not e.get('qual')) or clean(g.params[0]['t']) not in self.P.cls or not is_ptr(str(g.params[0]['t'])):
            return []
        r = self._set.get(g.id)
        if r is None:
            r = []
            for x in g.exprs():
                if x['k'] == 'Bin' and x['op'] == '=' and key(x['R']) == g.params[0]['n'] and strip(x['L'])['k'] == 'Mem':
                    m = strip(x['L'])['n']
                    for h in self.P.fns.values():
                        if h.cls == g.cls and not h.params and h.body is not None and len(h.cfg().nodes) < 12:
                            if [1 for n in h.cfg().nodes if n.k == 'ret' and n.e is not None and strip(n.e)['k'] == 'Mem' and strip(n.e)['n'] == m]:
                                r.append(h.n)
            self._set[g.id] = r
        return r

    # -- values
    def kinds(self, e, S, f, deep=0):
        P = self.P
        st = None
        while isinstance(e, dict):
            s = clean(e.get('t'))
            if s in P.cls:
                st = s if st is None or s in self.below(st) else st
            if e['k'] == 'Cast' and e.get('ex') and e.get('ck') in ('BaseToDerived', 'BitCast') and s in self.P.cls and clean(e['e'].get('t')) in self.P.cls:
                x = self.kinds(e['e'], S, f, deep)
                return x
            n = e
            if e['k'] == 'Cast':
                e = e['e']
            else:
                e = strip(e)
                if e is n:
                    break
        if not isinstance(e, dict):
            return frozenset()
        full = self.below(st) if st else frozenset()
        k = e['k']
        if k == 'Null' or k == 'Int':
            return frozenset()
        kk = key(e)
        if kk in S and k != 'This':
            r = S[kk] & full if full else S[kk]
            d = S.get('?' + e['n']) if k == 'Ref' and deep < 5 else None
            d = strip(d.e) if d is not None else None
            if isinstance(d, dict) and d['k'] == 'Call' and len(r) > 1 and any('=' + (key(a) or '') in S for a in d.get('args', ())):
                r &= self.kinds(d, S, f, deep + 1)
            return r
        if k == 'This':
            return S.get('this', self.below(f.cls) if f.cls else full)
        if k == 'New':
            return frozenset([clean(e.get('t'))])
        if k == 'Cond':
            a, b = self.test(S, e['c'], True, f), self.test(S, e['c'], False, f)
            return (self.kinds(e['T'], a, f, deep) if a is not None else frozenset()) | (self.kinds(e['F'], b, f, deep) if b is not None else frozenset())
        if k == 'Bin' and e['op'] == '=':
            return self.kinds(e['R'], S, f, deep)
        if k == 'Ref' and ('?' + e.get('n', '')) in S and deep < 6:
            return self.kinds(S['?' + e['n']].e, {}, f, deep + 1) & full if full else full
        if k == 'Call' and e.get('cal') and deep < 5:
            r = frozenset()
            ts = P.targets(e)
            ok = bool(ts)
            for g in ts:
                if g.body is None:
                    ok = False
                    continue
                consts = {}
                for p, a in zip(g.params, e.get('args', ())):
                    a = strip(a)
                    v = const(a)
                    if v is None:
                        v = S.get('=' + (key(a) or ''))
                    if v == 0 and is_ptr(str(p['t'])):
                        consts[p['n']] = 'NULL'
                    elif v is not None and not isinstance(v, (str, frozenset)):
                        consts[p['n']] = v
                    elif self.null(a):
                        consts[p['n']] = 'NULL'
                own = None
                if e.get('obj') is not None and g.cls:
                    own = self.kinds(e['obj'], S, f, deep + 1)
                    own = frozenset(c for c in own if self.P.derives(c, g.cls) and g in self.P.method(c, g.n)[:2]) if e['cal'].get('v') and not e.get('qual') else own
                    if not own and e['cal'].get('v'):
                        continue
                r |= self.returns(g, consts, deep + 1, own)
            if ok:
                return r & full if full else r
        return full

    def returns(self, g, consts, deep=0, own=None):
        st = self.below(clean(g.r.get('ret')))
        if own == self.below(g.cls):
            own = None
        k = (g.id, tuple(sorted(consts.items(), key=str)), own)
        if k in self.rets:
            return self.rets[k] if self.rets[k] is not None else frozenset()
        if len(st) < 2 or deep > 5:
            return st
        self.rets[k] = None
        S0 = {}
        for p, v in consts.items():
            if v == 'NULL':
                S0[p] = frozenset()
            else:
                S0['=' + p] = v
        if own is not None:
            S0['this'] = own
        inn = self.solve(g, S0) if S0 else self.flow(g)
        r = frozenset()
        seen = False
        for n in g.cfg().nodes:
            if n.k == 'ret' and inn[n.i] is not None and n.e is not None:
                seen = True
                r |= self.kinds(n.e, inn[n.i], g, deep + 1)
        self.rets[k] = r if seen else st
        return self.rets[k]

    # -- callers and members
    def sites(self, f):
        if self._calls is None:
            self._calls, self._taken = {}, {}
            for g in self.P.fns.values():
                if g.body is None and not g.r.get('inits') or 'FColladaTest' in (g.file or ''):
                    continue
                for e in g.exprs():
                    if e['k'] in ('Call', 'Ctor', 'New') and e.get('cal'):
                        for t in self.P.targets(e):
                            self._calls.setdefault(t.id, []).append((g, e))
                    if e['k'] == 'Ref' and e.get('dk') == 'fn' and e.get('cal'):
                        self._taken.setdefault(e['cal']['id'], []).append((g, e))
        return self._calls.get(f.id, [])

    def param(self, f, i):
        """The kinds the callers hand in; None when somebody not known may call."""
        k = (f.id, i)
        if k in self.params:
            return self.params[k]
        self.params[k] = frozenset()
        st = self.below(clean(f.params[i]['t']))
        r = frozenset()
        known = False
        for g, e in self.sites(f):
            a = e.get('args', ())
            if i >= len(a):
                continue
            known = True
            S, n = self.at(g, e)
            if S is None or self.idle(g):
                continue
            r |= self.arrive(a[i], S, g)
        if f.id in self.tables:
            known = True
            for c in self.tables[f.id]:
                r |= self.below(c)
        self.params[k] = r if known else None
        return self.params[k]

    def asked(self, f, name):
        """The routine asks the parameter what it is: any answer may come."""
        k = (f.id, name)
        if k not in self._asked:
            self._asked[k] = any(e['k'] == 'Call' and e.get('obj') is not None and (callee_n(e) in ('HasType', 'IsType', 'GetObjectType') or clean(e.get('t')) in self.P.enums and not e.get('args') and callee_n(e).endswith('Type'))
                                 and strip(e['obj'])['k'] == 'Ref' and strip(e['obj']).get('n') == name for e in f.exprs())
        return self._asked[k]

    def idle(self, g):
        """A routine of the archive plug-in that nobody calls and nobody takes the address of."""
        self.sites(g)
        return bool(g.cls) and g.cls.startswith('FArchiveXML') and not self._calls.get(g.id) and g.id not in self._taken and g.id not in self.tables and not g.r.get('virt')

    def arrive(self, e, S, f):
        """kinds(), and where they come from a parameter or a member that no test narrowed, from all that is put there."""
        ks = self.kinds(e, S, f)
        x = strip(e)
        if not isinstance(x, dict):
            return ks
        n = 0
        while x['k'] == 'Ref' and ('?' + x.get('n', '')) in S and n < 5:
            x = strip(S['?' + x['n']].e)
            n += 1
        if x['k'] == 'Ref' and x.get('dk') == 'parm':
            for i, p in enumerate(f.params):
                if p['n'] == x['n']:
                    if self.asked(f, p['n']):
                        return ks
                    r = self.param(f, i)
                    if r is not None:
                        return ks & r
        if x['k'] == 'Mem' or x['k'] == 'Call' and not x.get('args'):
            m = self.member(x, f)
            if m is not None:
                return ks & m
        return ks

    def writes(self):
        if self._writes is None:
            self._writes = {}
            for g in self.P.fns.values():
                if 'FColladaTest' in (g.file or ''):
                    continue
                for i in g.r.get('inits') or ():
                    if i.get('f') and isinstance(i.get('e'), dict):
                        self._writes.setdefault(i['f'], []).append((g, None, i['e']))
                if g.body is None:
                    continue
                for e in g.exprs():
                    t = v = None
                    if e['k'] == 'Bin' and e['op'] == '=':
                        t, v = e['L'], e['R']
                    elif e['k'] == 'Call' and e.get('op') == '=' and e.get('obj') is not None and e.get('args'):
                        t, v = e['obj'], e['args'][0]
                    if t is None:
                        continue
                    t = strip(t)
                    if isinstance(t, dict) and t['k'] == 'Mem':
                        self._writes.setdefault(t['n'], []).append((g, e, v, t.get('c')))
        return self._writes

    def member(self, x, f):
        """What all the writes of a member put there; through a getter that only returns it too."""
        if x['k'] == 'Call':
            g = self.P.direct(x)
            if g is None or g.body is None or (x['cal'].get('v') and len(self.P.targets(x)) > 1):
                return None
            rs = [strip(n.e) for n in g.cfg().nodes if n.k == 'ret' and n.e is not None]
            if len(rs) != 1 or rs[0]['k'] != 'Mem':
                return None
            x = rs[0]
        k = (x.get('c'), x['n'])
        if k in self.membs:
            return self.membs[k]
        self.membs[k] = frozenset()
        r = frozenset()
        ws = [w for w in self.writes().get(x['n'], ()) if len(w) == 3 and w[0].cls == x.get('c') or len(w) == 4 and w[3] == x.get('c')]
        if not ws:
            self.membs[k] = None
            return None
        for w in ws:
            g, e, v = w[:3]
            S = self.at(g, e)[0] if e is not None else {}
            if S is not None:
                r |= self.arrive(v, S, g)
        self.membs[k] = r
        return r


def const(e):
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    if e['k'] in ('Int', 'Bool'):
        return int(e['v']) if not isinstance(e['v'], str) else None
    if e['k'] == 'Ref' and e.get('dk') == 'enum':
        return int(e['v']) if e.get('v') is not None else None
    if e['k'] == 'Un' and e['op'] == '-':
        v = const(e['e'])
        return -v if v is not None else None
    return None


def decls(n):
    d = n.e
    if n.k != 'decl':
        return []
    if isinstance(d, dict) and 'n' in d:
        return [d]
    if isinstance(d, dict) and 'd' in d:
        return d['d']
    return d if isinstance(d, list) else []


def enumvals(en):
    r = en.r if hasattr(en, 'r') else en
    return [x['v'] for x in r.get('e', ())]
