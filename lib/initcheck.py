"""Definite initialisation of scalar members by constructors."""
from model import *


def this_field(e):
    e = unwrap(e)
    if isinstance(e, dict) and e['k'] == 'Mem' and e.get('dk') == 'field' and isinstance(e.get('b'), dict) and unwrap(e['b'])['k'] == 'This':
        return e['n']
    if isinstance(e, dict) and e['k'] == 'Idx':
        return this_field(e['b'])
    return None


class InitAnalysis:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def writes(self, e):
        """Fields of this an operation definitely sets."""
        if e['k'] == 'Bin' and e['op'] == '=':
            f = this_field(e['L'])
            return {f} if f else set()
        if e['k'] == 'Call':
            out = set()
            n = callee_n(e)
            if n in ('memset', 'memcpy', 'memmove') and e['args']:
                a = unwrap(e['args'][0])
                if a['k'] == 'Un' and a['op'] == '&':
                    a = a['e']
                f = this_field(a)
                if f:
                    out.add(f)
            if e.get('op') == '=' and e.get('obj') is not None:
                f = this_field(e['obj'])
                if f:
                    out.add(f)
            # passed by non-const reference or pointer to a function that sets it
            ps = (e.get('cal') or {}).get('p', ())
            for i, a in enumerate(e.get('args', ())):
                if i < len(ps) and ps[i].endswith('&') and not ps[i].startswith('const'):
                    f = this_field(a)
                    if f:
                        out.add(f)
                u = unwrap(a)
                if isinstance(u, dict) and u['k'] == 'Un' and u['op'] == '&':
                    f = this_field(u['e'])
                    if f:
                        out.add(f)
            o = e.get('obj')
            if o and unwrap(o)['k'] == 'This':
                t = self.P.direct(e)
                if t and t.body:
                    out |= self.must(t)
            return out
        return set()

    def must(self, f, start=frozenset()):
        """Fields definitely set on every normal return of a member function."""
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = set()
        cfg = f.cfg()

        def tr(s, n):
            if n.k == 'ev':
                w = self.writes(n.e)
                return s | w if w else s
            if n.k == 'init' and n.e.get('f'):
                return s | {n.e['f']}
            return s
        inn = solve(cfg, frozenset(start), tr, lambda s, a: s, lambda a, b: a & b)
        r = set(inn[cfg.exit.i] or ())
        if inn[cfg.exit.i] is None:
            r = None
        self.memo[f.id] = r if r is not None else set()
        return self.memo[f.id]
