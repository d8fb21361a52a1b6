"""Member-wise flow of cloning functions: which source members reach which members of the copy, and on which paths."""
from effects import *


class CloneAnalysis:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.memo = {}

    def roots(self, f, pi, this='S'):
        """Locals that denote the copy (or, with this='D', the parameter that denotes the source)."""
        if this == 'D':
            return {f.params[pi]['d']: 'S'}
        r = {}
        if pi is not None:
            r[f.params[pi]['d']] = 'D'
        changed = True
        while changed:
            changed = False
            for s in walk_s(f.body):
                if s['k'] == 'Decl':
                    for d in s['d']:
                        if isinstance(d.get('init'), dict) and d['d'] not in r and self.denotes(d['init'], r, f):
                            r[d['d']] = 'D'
                            changed = True
            for e in f.exprs():
                if e['k'] == 'Bin' and e['op'] == '=' and unwrap(e['L'])['k'] == 'Ref':
                    L = unwrap(e['L'])
                    if L.get('dk') in ('var', 'parm') and L['d'] not in r and self.denotes(e['R'], r, f):
                        r[L['d']] = 'D'
                        changed = True
        return r

    def denotes(self, e, r, f):
        e = unwrap(e)
        if not isinstance(e, dict):
            return False
        if e['k'] == 'Ref':
            return e.get('dk') in ('var', 'parm') and e['d'] in r
        if e['k'] == 'New':
            return e['nt'] == f.cls
        if e['k'] == 'Bin' and e['op'] == '=':
            return self.denotes(e['R'], r, f) or self.denotes(e['L'], r, f)
        if e['k'] == 'Call':
            n = callee_n(e)
            if n == 'DynamicCast' and e['args']:
                return self.denotes(e['args'][0], r, f)
            if n == 'Create' or n.startswith('Create'):
                return bool(f.cls) and f.r['ret'] == e.get('t') and not e.get('obj')
            return False
        if e['k'] == 'Cond':
            return self.denotes(e['T'], r, f) or self.denotes(e['F'], r, f)
        return False

    def transfers(self, f, pi, depth=0, this='S'):
        """[(event expression, source members, destination members, pair-exact)] for a function receiving the copy as
        parameter pi and the source as this."""
        key = (f.id, pi, this)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        out = []
        R = self.roots(f, pi, this)
        D = Derive(self.P, self.E, f, roots=R, this=this)
        for i in f.r.get('inits', ()):
            if this == 'D' and isinstance(i.get('e'), dict) and i.get('f'):
                out.append((i, {t[2:] for t in D.tags(i['e']) if t.startswith('S:')}, {i['f']}, True))
        for e in f.exprs():
            k = e['k']
            src, dst = set(), set()
            exact = False
            if k == 'Bin' and e['op'] == '=':
                dst = {t[2:] for t in D.tags(e['L']) if t.startswith('D:')}
                src = {t[2:] for t in D.tags(e['R']) if t.startswith('S:')}
                exact = True
            elif k == 'New' and e['nt'] == f.cls and isinstance(e.get('init'), dict) and e['init']['k'] == 'Ctor':
                # constructor arguments
                c = self.P.direct(e['init'])
                if c is not None:
                    for i, a in enumerate(e['init'].get('args', ())):
                        s = {t[2:] for t in D.tags(a) if t.startswith('S:')}
                        if s and i < len(c.params):
                            d = self.ctor_dest(c, c.params[i]['d'])
                            out.append((e, s, d, False))
                continue
            elif k == 'Call':
                o = e.get('obj')
                args = [a for a in e.get('args', ()) if isinstance(a, dict)]
                t = self.P.direct(e)
                ro = D.root(o) if o is not None else None
                if o is not None and ro == 'S':
                    # helper on the source receiving the copy
                    for i, a in enumerate(args):
                        if D.root(a) == 'D' and t is not None and t.body is not None and t.cls == f.cls and depth < 4 and t.id != f.id:
                            sub = self.transfers(t, i, depth + 1)
                            for m in self.complete(t, i, depth + 1, sub):
                                out.append((e, {m}, {m}, False))
                    # source member helper writing into parts of the copy:  this->Copy(clone->x)
                    for a in args:
                        dst |= {x[2:] for x in D.tags(a) if x.startswith('D:')}
                    if t is not None:
                        src |= self.E.returned(t)
                        if dst:
                            src |= self.E.reads(t) if hasattr(self.E, 'reads') else set()
                elif o is not None and ro == 'D':
                    for a in args:
                        src |= {x[2:] for x in D.tags(a) if x.startswith('S:')}
                        # helper on the copy receiving the source
                        if D.root(a) == 'S' and t is not None and t.body is not None and depth < 4:
                            pass
                    if t is not None:
                        dst |= self.E.writes(t)
                        if src and not dst:
                            dst |= self.E.returned(t)
                    elif src:
                        dst |= {'?' + callee_n(e)}
                else:
                    tg = set()
                    if o is not None:
                        tg |= D.tags(o)
                    for i, a in enumerate(args):
                        tg |= D.tags(a)
                        if o is not None and t is not None and t.body is not None and D.root(a) == 'D':
                            # the copy is handed to an object reached from the source: what the callee does to it
                            tg |= {'D:' + m for m in self.E.writes_via(t, i)}
                    src = {x[2:] for x in tg if x.startswith('S:')}
                    dst = {x[2:] for x in tg if x.startswith('D:')}
                    if o is None and t is not None and t.body is not None and depth < 4:
                        # free/static helper receiving both
                        ri = [i for i, a in enumerate(args) if D.root(a) == 'S']
                        di = [i for i, a in enumerate(args) if D.root(a) == 'D']
                        if ri and di:
                            for m in self.static_helper(t, ri[0], di[0]):
                                out.append((e, {m}, {m}, False))
                    if e.get('op') == '=' and len(args) + (1 if o is not None else 0) == 2:
                        L = o if o is not None else args[0]
                        Rr = args[0] if o is not None else args[1]
                        dst = {x[2:] for x in D.tags(L) if x.startswith('D:')}
                        src = {x[2:] for x in D.tags(Rr) if x.startswith('S:')}
                        exact = True
            if src and dst:
                out.append((e, src, dst, exact))
        self.memo[key] = out
        return out

    def static_helper(self, t, si, di):
        roots = {t.params[si]['d']: 'S', t.params[di]['d']: 'D'}
        D = Derive(self.P, self.E, t, roots=roots, this='X')
        got = set()
        for e in t.exprs():
            if e['k'] == 'Bin' and e['op'] == '=':
                s = {x[2:] for x in D.tags(e['R']) if x.startswith('S:')}
                d = {x[2:] for x in D.tags(e['L']) if x.startswith('D:')}
            elif e['k'] == 'Call':
                tg = set()
                if e.get('obj') is not None:
                    tg |= D.tags(e['obj'])
                    q = self.P.direct(e)
                    if D.root(e['obj']) == 'D' and q is not None:
                        tg |= {'D:' + m for m in self.E.writes(q)}
                for a in e.get('args', ()):
                    tg |= D.tags(a)
                s = {x[2:] for x in tg if x.startswith('S:')}
                d = {x[2:] for x in tg if x.startswith('D:')}
            else:
                continue
            got |= s & d
        return got

    def ctor_dest(self, c, pd, depth=0):
        out = set()
        for i in c.r.get('inits', ()):
            if isinstance(i.get('e'), dict):
                uses = any(x['k'] == 'Ref' and x.get('d') == pd and x.get('dk') == 'parm' for x in walk_e(i['e']))
                if uses and i.get('f'):
                    out.add(i['f'])
                elif uses and i.get('deleg') and i['e']['k'] == 'Ctor' and depth < 3:
                    d = self.P.direct(i['e'])
                    if d:
                        for j, a in enumerate(i['e']['args']):
                            if any(x['k'] == 'Ref' and x.get('d') == pd for x in walk_e(a)) and j < len(d.params):
                                out |= self.ctor_dest(d, d.params[j]['d'], depth + 1)
        if c.body:
            D = Derive(self.P, self.E, c, params={pd: {'P:x'}})
            for e in c.exprs():
                if e['k'] == 'Bin' and e['op'] == '=':
                    m = self_fields(e['L'])
                    if m and 'P:x' in D.tags(e['R']):
                        out.add(m)
                elif e['k'] == 'Call':
                    if any('P:x' in D.tags(a) for a in e.get('args', ())):
                        out |= self.E.op_writes(e)
                        if self.E.on_self(e):
                            t = self.P.direct(e)
                            if t:
                                out |= self.E.writes(t)
        return out

    def field_type(self, cls, m):
        for c, x in self.P.all_fields(cls):
            if x['n'] == m:
                return x['t']
        return ''

    def is_container(self, cls, m):
        t = self.field_type(cls, m)
        return is_ptr(t) or any(w in t for w in ('vector', 'List', 'Container', 'Ref<', 'Ptr<', 'map', 'tree', 'set<', 'Array', 'Parameter_'))

    def conds(self, f, D):
        return None

    def complete(self, f, pi, depth=0, trans=None, this='S'):
        """Members transferred on every path that returns with a copy."""
        trans = trans if trans is not None else self.transfers(f, pi, depth, this)
        R = self.roots(f, pi, this)
        D = Derive(self.P, self.E, f, roots=R, this=this)
        flags = {p['d'] for p in f.params if bare(p['t']) == 'bool'}
        gen = defaultdict(set)
        allm = set()
        for e, s, d, ex in trans:
            m = s & d
            gen[id(e)] |= m
            allm |= m
        ALL = frozenset(allm | {'*'})
        cfg = f.cfg()
        # transfers reachable only through one side of a branch on the member itself: vacuous on the other side
        ev = defaultdict(list)
        for n in cfg.nodes:
            if n.k in ('ev', 'init') and id(n.e) in gen:
                for m in gen[id(n.e)]:
                    ev[m].append(n.i)
        vac = {}

        def branch_vacuous(n):
            if n.i in vac:
                return vac[n.i]
            out = set()
            e = n.e if n.k in ('br', 'sw') else n.e['r']
            tg = {t[2:] for t in D.tags(e) if t.startswith('S:')}
            loop = n.k == 'nop' or self.is_loop(cfg, n)
            for m in allm:
                if not (m in tg or (loop and (tg or n.k == 'br' and self.const_loop(e)))) or not self.is_container(f.cls, m):
                    continue
                for t, _ in n.succ:
                    rest = cfg.reachable(avoid=(t,))
                    if any(x not in rest for x in ev[m]):
                        out.add(m)
            vac[n.i] = out
            return out

        def tr(s, n):
            if n.k == 'init':
                g = gen.get(id(n.e))
                return s | g if g else s
            if n.k == 'ev':
                if n.e['k'] == 'Bin' and n.e['op'] == '=' and unwrap(n.e['L'])['k'] == 'Ref' and unwrap(n.e['L']).get('d') in R:
                    r = unwrap(n.e['R'])
                    if r['k'] == 'New':
                        base = frozenset(gen.get(id(r), ()))
                        return base if '*' in s else s
                if n.e['k'] == 'New' and '*' in s and n.e['nt'] == f.cls:
                    s = frozenset()
                g = gen.get(id(n.e))
                if g:
                    return s | g
            if n.k == 'br':
                v = branch_vacuous(n)
                if v:
                    return s | v
            if n.k == 'nop' and isinstance(n.e, dict) and n.e.get('k') == 'Range':
                v = branch_vacuous(n)
                if v:
                    return s | v
            return s

        def assume(s, a):
            if isinstance(a[0], dict) and isinstance(a[1], bool):
                e, b = a
                z = self.null_side(e, b, R)
                if z:
                    return ALL
                if self.type_mismatch(e, b, R) or self.same_object(e, b, R):
                    return ALL
                u = unwrap(e)
                if u['k'] == 'Ref' and u.get('d') in flags and not b:
                    return s | frozenset(m for m in allm if self.is_container(f.cls, m))
            return s
        inn = solve(cfg, frozenset(), tr, assume, lambda a, b: (a & b) if '*' not in a and '*' not in b else (b if '*' in a else a))
        # null-copy states are all-members: the join above keeps the other operand
        out = None
        for n in cfg.nodes:
            if n.k == 'ret' and inn[n.i] is not None:
                st = tr(inn[n.i], n)
                if isinstance(n.e, dict) and unwrap(n.e)['k'] == 'Null':
                    continue
                if '*' in st:
                    continue
                out = st if out is None else (out & st)
        return set(out) if out is not None else set(allm)

    def const_loop(self, e):
        e = unwrap(e)
        if e['k'] != 'Bin' or e['op'] not in ('<', '<=', '!=', '>', '>='):
            return False
        return any(unwrap(x).get('v') is not None for x in (e['L'], e['R']))

    def is_loop(self, cfg, n):
        for t, _ in n.succ:
            if n.i in cfg.reachable(t):
                return True
        return False

    def same_object(self, e, b, R):
        """True when taking edge b of condition e means source and copy are one object."""
        e = unwrap(e)
        if e['k'] == 'Bin' and e['op'] in ('==', '!='):
            ks = {self.bare_obj(e['L'], R), self.bare_obj(e['R'], R)}
            if ks == {'this', 'root'}:
                return b == (e['op'] == '==')
        return False

    def bare_obj(self, e, R):
        e = unwrap(e)
        if e['k'] == 'This':
            return 'this'
        if e['k'] == 'Un' and e['op'] == '&':
            e = unwrap(e['e'])
        if e['k'] == 'Ref' and e.get('d') in R:
            return 'root'
        return None

    def null_side(self, e, b, R):
        """True when taking edge b of condition e means the copy pointer is null."""
        e = unwrap(e)
        if e['k'] == 'Ref' and e.get('d') in R and e.get('dk') in ('var', 'parm'):
            return not b
        if e['k'] == 'Bin' and e['op'] in ('==', '!='):
            for x, y in ((e['L'], e['R']), (e['R'], e['L'])):
                x, y = unwrap(x), unwrap(y)
                if x['k'] == 'Ref' and x.get('d') in R and x.get('dk') in ('var', 'parm') and (y['k'] == 'Null' or y.get('v') == 0):
                    return b == (e['op'] == '==')
        return False

    def type_mismatch(self, e, b, R):
        """True when taking edge b of condition e means the given copy is of another class."""
        e = unwrap(e)
        kinds = ('HasType', 'Includes', 'GetObjectType', 'GetClassType', 'GetInitType', 'GetGeomType', 'GetType')
        if not any(x['k'] == 'Call' and callee_n(x) in kinds for x in walk_e(e)):
            return False
        if not any(x['k'] == 'Ref' and x.get('d') in R for x in walk_e(e)):
            return False
        if e['k'] == 'Call' and e.get('op') not in ('==', '!='):
            return not b
        op = e.get('op')
        return b == (op == '!=') if op in ('==', '!=') else False
