"""Which text stands for which enumerator where a kind is written out, and which enumerator a text is turned into where it is
read: constant facts about enumerators and texts established by comparisons, switch cases and element look-ups."""
from model import *

FINDS = ('FindChildByType', 'FindTechnique', 'FindChildByName', 'ReadNodeProperty')


def const_str(P, e):
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    if e['k'] == 'Str':
        return e['s']
    if e['k'] == 'Ref' and e.get('q'):
        g = P.vars.get(e['q'])
        if g is not None and isinstance(g.get('init'), dict) and unwrap(g['init'])['k'] == 'Str':
            return unwrap(g['init'])['s']
    if e['k'] == 'Ctor' and e.get('args') and isinstance(e['args'][0], dict) and all(a.get('dflt') for a in e['args'][1:] if isinstance(a, dict)):
        return const_str(P, e['args'][0])
    return None


def strs(P, e):
    return {s for x in walk_e(e) for s in [const_str(P, x)] if s}


def enum_const(P, e):
    e = unwrap(e)
    if isinstance(e, dict) and e['k'] == 'Ref' and e.get('dk') == 'enum' and bare(e.get('t', '')) in P.enums:
        return bare(e['t']), e['v']
    return None


def enum_type(P, e):
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    t = bare(e.get('t', ''))
    return t if t in P.enums else None


class Kinds:
    def __init__(self, P, f, emit):
        self.P, self.f, self.emit = P, f, emit
        cfg = f.cfg()
        inn = solve(cfg, {}, self.transfer, self.assume, self.join)
        for n in cfg.nodes:
            if inn[n.i] is not None:
                self.visit(inn[n.i], n)

    def join(self, a, b):
        if a is b:
            return a
        return {k: a[k] | b[k] for k in a if k in b}

    def transfer(self, st, n):
        d, init = None, None
        if n.k == 'decl':
            d, init = n.e.get('d'), n.e.get('init')
        elif n.k == 'ev' and n.e['k'] == 'Bin' and n.e['op'] == '=' and unwrap(n.e['L'])['k'] == 'Ref':
            d, init = unwrap(n.e['L']).get('d'), n.e['R']
        elif n.k == 'ev' and n.e['k'] == 'Call' and n.e.get('op') == '=' and n.e.get('args'):
            a = ([n.e['obj']] if n.e.get('obj') is not None else []) + list(n.e['args'])
            if unwrap(a[0])['k'] == 'Ref':
                d, init = unwrap(a[0]).get('d'), a[-1]
        if d is None:
            return st
        st = {k: v for k, v in st.items() if d not in k[2]}
        u = unwrap(init) if isinstance(init, dict) else None
        if u and u['k'] == 'Call' and callee_n(u) in FINDS and len(u.get('args', ())) > 1:
            s = const_str(self.P, u['args'][1])
            if s:
                st[('find', d, (d,))] = frozenset([s])
        return st

    def key(self, kind, e):
        e = unwrap(e)
        return (kind, show(e), tuple(x['d'] for x in walk_e(e) if x['k'] == 'Ref' and 'd' in x))

    def assume(self, st, a):
        if not a:
            return st
        if a[0] == 'case':
            t = enum_type(self.P, a[1])
            if t:
                k = self.key(('e', t), a[1])
                if a[2] is not None:
                    if k in st and a[2] not in st[k]:
                        return None
                    return {**st, k: frozenset([a[2]])}
                if k in st:
                    return {**st, k: st[k] - set(a[3])}
            return st
        if not isinstance(a[0], dict) or not isinstance(a[1], bool):
            return st
        e, pol = unwrap(a[0]), a[1]
        x = y = None
        if e['k'] == 'Bin' and e['op'] in ('==', '!='):
            pol = pol == (e['op'] == '==')
            x, y = e['L'], e['R']
            for p, q in ((x, y), (y, x)):
                u = unwrap(p)
                if isinstance(u, dict) and u['k'] == 'Call' and callee_n(u) in ('strcmp', 'strcasecmp') and unwrap(q).get('v') == 0:
                    x, y = u['args'][:2]
                    break
        elif e['k'] == 'Call' and e.get('op') in ('==', '!='):
            pol = pol == (e['op'] == '==')
            z = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()))
            if len(z) >= 2:
                x, y = z[:2]
        elif e['k'] == 'Call' and callee_n(e) == 'IsEquivalent' and len(e.get('args', ())) >= 2:
            x, y = e['args'][:2]
        elif e['k'] == 'Ref' and 'd' in e and pol:
            return self.present(st, e)
        if x is None:
            return st
        for p, q in ((x, y), (y, x)):
            c = enum_const(self.P, q)
            if c:
                if not enum_type(self.P, p) and 'FUParameter' not in unwrap(p).get('t', '') and 'Parameter_' not in unwrap(p).get('t', ''):
                    continue
                k = self.key(('e', c[0]), p)
                if pol:
                    if k in st and c[1] not in st[k]:
                        return None
                    return {**st, k: frozenset([c[1]])}
                if k in st:
                    r = st[k] - {c[1]}
                    return {**st, k: r} if r else None
                return st
            s = const_str(self.P, q)
            if s is not None and pol:
                return {**st, self.key('s', p): frozenset([s])}
            if not pol and unwrap(q)['k'] == 'Null' and unwrap(p)['k'] == 'Ref':
                return self.present(st, unwrap(p))
        return st

    def present(self, st, e):
        k = ('find', e['d'], (e['d'],))
        if k in st:
            return {**st, ('s', 'present %d' % e['d'], (e['d'],)): st[k]}
        return st

    def visit(self, st, n):
        if n.k not in ('ev', 'ret', 'decl', 'init'):
            return
        e = n.e
        if n.k in ('decl',):
            e = n.e.get('init')
        if n.k == 'init':
            e = n.e.get('e') if isinstance(n.e, dict) else None
        if not isinstance(e, dict):
            return
        en = {k: v for k, v in st.items() if isinstance(k[0], tuple)}
        ss = {s for k, v in st.items() if k[0] == 's' for s in v}
        if e['k'] == 'Bin' and e['op'] in ('==', '!='):
            return
        if e['k'] == 'Call' and (e.get('op') in ('==', '!=') or callee_n(e) in ('IsEquivalent', 'strcmp')):
            return
        top = [e] + [unwrap(a) for a in e.get('args', ()) if isinstance(a, dict)] + ([unwrap(e['R'])] if e['k'] == 'Bin' else [])
        out = set()
        for x in top:
            s = const_str(self.P, x)
            if s:
                out.add(s)
        if e['k'] == 'Cond':
            out |= set()
        for k, v in en.items():
            if len(v) <= 4:
                for s in out:
                    self.emit('w', k[0][1], v, s, self.f, e)
        vals = set()
        if e['k'] == 'Bin' and e['op'] == '=':
            vals.add(enum_const(self.P, e['R']))
        elif e['k'] == 'Call':
            vals |= {enum_const(self.P, a) for a in e.get('args', ()) if isinstance(a, dict)}
        elif n.k == 'ret':
            vals.add(enum_const(self.P, e))
        for c in vals - {None}:
            for s in ss:
                self.emit('r', c[0], c[1], s, self.f, e)
