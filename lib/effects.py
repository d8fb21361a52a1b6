"""Which members of its object a method reads, writes or returns (transitively through calls on the same object)."""
from model import *

MUT_STL = None


def self_fields(e):
    """If the expression denotes (part of) a member of *this, the member's name."""
    e = unwrap(e)
    while isinstance(e, dict):
        k = e['k']
        if k == 'Mem' and e.get('dk') == 'field':
            b = unwrap(e['b'])
            if isinstance(b, dict) and b['k'] == 'This':
                return e['n']
            if isinstance(b, dict) and b['k'] == 'Un' and b['op'] == '*' and unwrap(b['e'])['k'] == 'This':
                return e['n']
            e = b
        elif k == 'Idx':
            e = unwrap(e['b'])
        elif k == 'Un' and e['op'] in ('*', '&'):
            e = unwrap(e['e'])
        elif k == 'Call' and e.get('obj') is not None and (e.get('op') in ('[]', '*', '->') or callee_n(e) in ('at', 'front', 'back', 'begin', 'end', 'c_str') or callee_n(e).startswith('operator ')):
            e = unwrap(e['obj'])
        elif k == 'Call' and e.get('op') in ('[]', '*', '->') and e.get('args'):
            e = unwrap(e['args'][0])
        else:
            return None
    return None


def is_const_callee(e):
    c = e.get('cal') or {}
    return bool(c.get('k'))


class Effects:
    def __init__(self, P):
        self.P = P
        self.w, self.r, self.ret, self.wv = {}, {}, {}, {}

    def on_self(self, e):
        o = e.get('obj')
        if o is None:
            return False
        o = unwrap(o)
        if o['k'] == 'This':
            return True
        return o['k'] == 'Un' and o['op'] == '*' and unwrap(o['e'])['k'] == 'This'

    def writes(self, f):
        """Members possibly modified by f on its own object."""
        if f.id in self.w:
            return self.w[f.id]
        out = set()
        self.w[f.id] = out
        alias = self.ref_aliases(f)
        for e in f.exprs():
            out |= self.op_writes(e, alias)
            if e['k'] == 'Call' and self.on_self(e):
                t = self.P.direct(e)
                if t is not None:
                    out |= self.writes(t)
        self.w[f.id] = out
        return out

    def writes_via(self, f, pi, depth=0):
        """Members of the object passed as pointer/reference parameter pi that f may modify."""
        key = (f.id, pi)
        if key in self.wv:
            return self.wv[key]
        self.wv[key] = set()
        out = set()
        if pi >= len(f.params) or depth > 4:
            return out
        pd = f.params[pi]['d']

        def isp(e):
            e = unwrap(e)
            if e['k'] == 'Un' and e['op'] in ('*', '&'):
                e = unwrap(e['e'])
            return e['k'] == 'Ref' and e.get('d') == pd
        for e in f.exprs():
            if e['k'] == 'Call':
                t = self.P.direct(e)
                if t is None:
                    continue
                if e.get('obj') is not None and isp(e['obj']):
                    out |= self.writes(t)
                for i, a in enumerate(e.get('args', ())):
                    if isinstance(a, dict) and isp(a):
                        out |= self.writes_via(t, i, depth + 1)
            elif e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                L = unwrap(e['L'])
                if L['k'] == 'Mem' and isinstance(L.get('b'), dict) and isp(L['b']):
                    out.add(L['n'])
        self.wv[key] = out
        return out

    def ref_aliases(self, f):
        """Local references/pointers/iterators denoting members of this."""
        al = {}
        if not f.body:
            return al
        for _ in range(2):
            for s in walk_s(f.body):
                if s['k'] == 'Decl':
                    for d in s['d']:
                        if isinstance(d.get('init'), dict) and (d['t'].endswith('&') or is_ptr(d['t'])):
                            m = self.member(d['init'], al)
                            if m and not d['t'].startswith('const ') or (m and is_ptr(d['t'])):
                                al[d['d']] = m
                elif s['k'] == 'Range' and s['var']['t'].endswith('&') and not s['var']['t'].startswith('const '):
                    m = self.member(s['r'], al)
                    if m:
                        al[s['var']['d']] = m
        return al

    def member(self, e, alias):
        m = self_fields(e)
        if m:
            return m
        e = unwrap(e)
        while isinstance(e, dict):
            if e['k'] == 'Ref' and e.get('dk') == 'var':
                return alias.get(e['d'])
            if e['k'] in ('Mem', 'Idx'):
                e = unwrap(e['b'])
            elif e['k'] == 'Un' and e['op'] in ('*', '&'):
                e = unwrap(e['e'])
            else:
                return None
        return None

    def op_writes(self, e, alias=None):
        alias = alias or {}
        out = set()
        k = e['k']
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            m = self.member(e['L'], alias)
            if m:
                out.add(m)
        elif k == 'Un' and e['op'] in ('++', '--'):
            m = self.member(e['e'], alias)
            if m:
                out.add(m)
        elif k == 'Call':
            o = e.get('obj')
            if o is not None and not is_const_callee(e) and (e.get('cal') or {}).get('c'):
                m = self.member(o, alias)
                n = callee_n(e)
                if m and e.get('op') not in ('[]', '*', '->') and n not in ('begin', 'end', 'at', 'front', 'back', 'size', 'empty', 'find', 'c_str') and not n.startswith('operator ') and not n.startswith(('Get', 'Is', 'Has', 'Find', 'Contains')):
                    out.add(m)
            ps = (e.get('cal') or {}).get('p', ())
            for i, a in enumerate(e.get('args', ())):
                if not isinstance(a, dict) or i >= len(ps):
                    continue
                if ps[i].endswith('&') and not ps[i].startswith('const '):
                    m = self.member(a, alias)
                    if m:
                        out.add(m)
                u = unwrap(a)
                if u['k'] == 'Un' and u['op'] == '&' and not ps[i].startswith('const '):
                    m = self.member(u['e'], alias)
                    if m:
                        out.add(m)
            if e.get('op') in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '++', '--') and o is None and e.get('args'):
                m = self.member(e['args'][0], alias)
                if m:
                    out.add(m)
        elif k == 'Del':
            m = self.member(e['e'], alias)
            if m:
                out.add(m)
        return out

    def returned(self, f):
        """Members of this the return value is derived from."""
        if f.id in self.ret:
            return self.ret[f.id]
        self.ret[f.id] = set()
        out = set()
        if f.body:
            fl = Derive(self.P, self, f)
            for s in walk_s(f.body):
                if s['k'] == 'Return' and isinstance(s.get('e'), dict):
                    out |= {t[2:] for t in fl.tags(s['e']) if t.startswith('S:')}
        self.ret[f.id] = out
        return out


class Derive:
    """Flow-insensitive derivation of locals from members of *this ('S:m') and from members of named roots."""

    def __init__(self, P, E, f, params=None, this='S', roots=None):
        self.P, self.E, self.f = P, E, f
        self.this = this
        self.var = defaultdict(set)
        self.roots = dict(roots or {})     # local id -> root letter
        for d, tg in (params or {}).items():
            self.var[d] |= tg
        self.guard = 0
        changed = True
        n = 0
        while changed and n < 12:
            changed = False
            n += 1
            for d, tg in self.assigns():
                if not tg <= self.var[d]:
                    self.var[d] |= tg
                    changed = True

    def assigns(self):
        if not self.f.body:
            return
        for s in walk_s(self.f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    if isinstance(d.get('init'), dict):
                        yield d['d'], self.tags(d['init'])
            elif s['k'] == 'Range':
                yield s['var']['d'], self.tags(s['r'])
            elif s['k'] in ('If', 'While', 'For', 'Switch') and isinstance(s.get('cv'), dict) and isinstance(s['cv'].get('init'), dict):
                yield s['cv']['d'], self.tags(s['cv']['init'])
        for e in self.f.exprs():
            if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                b = self.base_var(e['L'])
                if b is not None:
                    yield b, {t for t in self.tags(e['R'])}
            elif e['k'] == 'Call':
                o = e.get('obj')
                args = [a for a in e.get('args', ()) if isinstance(a, dict)]
                tgt = None
                if o is not None:
                    tgt = self.base_var(o)
                elif e.get('op') and args:
                    tgt = self.base_var(args[0])
                if tgt is not None and not is_const_callee(e) and args:
                    t = set()
                    for a in args:
                        t |= {x for x in self.tags(a) if ':' in x}
                    yield tgt, t
                ps = (e.get('cal') or {}).get('p', ())
                for i, a in enumerate(args):
                    if i < len(ps) and ((ps[i].endswith('&') and not ps[i].startswith('const ')) or (unwrap(a)['k'] == 'Un' and unwrap(a)['op'] == '&')):
                        b = self.base_var(a)
                        if b is not None:
                            t = set()
                            for j, x in enumerate(args):
                                if j != i:
                                    t |= {y for y in self.tags(x) if ':' in y}
                            if o is not None:
                                t |= {y for y in self.tags(o) if ':' in y}
                                if self.root(o) and self.P.direct(e) is not None:
                                    t |= {'%s:%s' % (self.root(o), m) for m in self.E.reads(self.P.direct(e))} if hasattr(self.E, 'reads') else set()
                            yield b, t

    def base_var(self, e):
        e = unwrap(e)
        while isinstance(e, dict):
            k = e['k']
            if k == 'Ref' and e.get('dk') in ('var', 'parm'):
                return e['d'] if e['d'] not in self.roots else None
            if k in ('Mem', 'Idx'):
                e = unwrap(e['b'])
            elif k == 'Un' and e['op'] in ('*', '&'):
                e = unwrap(e['e'])
            elif k == 'Call' and e.get('op') in ('[]', '*', '->'):
                e = unwrap(e['obj'] if e.get('obj') is not None else e['args'][0])
            else:
                return None
        return None

    def root(self, e):
        """Root letter when the expression is a root object itself."""
        e = unwrap(e)
        if not isinstance(e, dict):
            return None
        if e['k'] == 'This':
            return self.this
        if e['k'] == 'Ref' and e.get('dk') in ('var', 'parm'):
            if e['d'] in self.roots:
                return self.roots[e['d']]
            rs = {t for t in self.var.get(e['d'], ()) if ':' not in t}
            return next(iter(rs)) if len(rs) == 1 else None
        if e['k'] == 'Un' and e['op'] in ('*', '&'):
            return self.root(e['e'])
        if e['k'] == 'Cond':
            return self.root(e['T']) or self.root(e['F'])
        return None

    def tags(self, e):
        e = unwrap(e)
        if not isinstance(e, dict):
            return set()
        self.guard += 1
        k = e['k']
        r = self.root(e)
        if r and k in ('This', 'Ref', 'Un'):
            return {r}
        if k == 'Ref':
            if e.get('dk') in ('var', 'parm'):
                return set(self.var.get(e['d'], ()))
            return set()
        if k == 'Mem':
            if e.get('dk') != 'field':
                return self.tags(e['b']) if isinstance(e.get('b'), dict) else set()
            r = self.root(e['b'])
            if r:
                return {'%s:%s' % (r, e['n'])}
            return self.tags(e['b'])
        if k == 'Call':
            out = set()
            o = e.get('obj')
            t = self.P.direct(e)
            if o is not None:
                r = self.root(o)
                if r:
                    if t is not None:
                        out |= {'%s:%s' % (r, m) for m in self.E.returned(t)}
                        if not is_const_callee(e):
                            out |= {'%s:%s' % (r, m) for m in self.E.writes(t)}
                else:
                    out |= self.tags(o)
            for a in e.get('args', ()):
                if isinstance(a, dict):
                    out |= {x for x in self.tags(a) if ':' in x}
            if isinstance(e.get('fe'), dict):
                out |= self.tags(e['fe'])
            return out
        if k in ('New', 'Ctor'):
            out = set()
            for a in kids(e):
                out |= {x for x in self.tags(a) if ':' in x}
            return out
        if k == 'Bin' and e['op'] == '=':
            return self.tags(e['R'])
        out = set()
        for x in kids(e):
            out |= self.tags(x)
        return out
