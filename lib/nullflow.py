"""Which pointers may be null where they are used: results of functions that answer "nothing" on some path, followed through
local variables, tests and calls."""
from model import *
from guards import Guards

ASSERTS = ('FUAssert', 'FUFail', 'FUBreak')


class NullFlow:
    def __init__(self, P, source=None):
        self.P = P
        self.source = source or (lambda f: True)
        self.sum = {}
        self.busy = set()
        self.nul = {}

    def null_in(self, f, i):
        """What happens when the i-th argument is null: (the answer is null or false whatever happens, the parameters used)."""
        key = (f.id, i)
        if key not in self.nul:
            self.nul[key] = (False, {p['d'] for p in f.params})
            if f.body and i < len(f.params) and len(self.nul) < 20000:
                x = FnNull(self, f)
                x.run(i)
                no = bool(x.rets) and all(v and v[0] == 'N' or b is False for v, b in x.rets)
                self.nul[key] = (no, x.used)
        return self.nul[key]

    def summary(self, f):
        """{'ret': origin or None, 'req': {param index: location}, 'bad': [(expr, origin, what)]}"""
        if f.id in self.sum:
            return self.sum[f.id]
        if f.id in self.busy or not f.body:
            return None
        self.busy.add(f.id)
        s = FnNull(self, f).run()
        self.busy.discard(f.id)
        self.sum[f.id] = s
        return s


class FnNull:
    def __init__(self, N, f):
        self.N, self.P, self.f = N, N.P, f
        self.ret, self.req, self.bad, self.rets, self.used = None, {}, [], [], set()
        self.final = False
        self.guards = None
        self.refs = set()
        for e in f.exprs():
            # variables whose address is taken or that are passed by reference may change behind our back
            if e['k'] == 'Un' and e['op'] == '&':
                u = unwrap(e['e'])
                if u['k'] == 'Ref' and 'd' in u:
                    self.refs.add(u['d'])
            if e['k'] in ('Call', 'Ctor'):
                ps = (e.get('cal') or {}).get('p', ())
                for i, a in enumerate(e.get('args', ())):
                    u = unwrap(a) if isinstance(a, dict) else None
                    if u and u['k'] == 'Ref' and 'd' in u and i < len(ps) and ps[i].endswith('&') and not ps[i].startswith('const'):
                        self.refs.add(u['d'])

    def run(self, null=None):
        init = {}
        self.fresh = set()
        for i, p in enumerate(self.f.params):
            if is_ptr(p['t']):
                init[p['d']] = ('P', i)
            if i == null:
                init[p['d']] = ('N', 'argument', None, frozenset())
        cfg = self.f.cfg()
        self.flags = self.choose(cfg)
        inn = solve(cfg, {frozenset(): init}, self.ptransfer, self.passume, self.pjoin)
        self.final = True
        for n in cfg.nodes:
            if inn[n.i] is not None:
                for st in inn[n.i].values():
                    self.transfer(st, n)
        seen, bad = set(), []
        for b in self.bad:
            k = (id(b[0]), b[2], b[3])
            if k not in seen:
                seen.add(k)
                bad.append(b)
        self.bad = bad
        return {'ret': self.ret, 'req': self.req, 'bad': self.bad}

    # states are kept apart per outcome of the flags (locals, parameters and plain accessors) that are tested more than once
    def choose(self, cfg):
        tests = {}
        for n in cfg.nodes:
            for t, a in n.succ:
                if a is not None and a[1] is True and isinstance(a[0], dict):
                    d, _ = flagtest(a[0])
                    if d is not None and d not in self.refs:
                        tests[d] = tests.get(d, 0) + 1
        return set(sorted((d for d, c in tests.items() if c >= 2), key=str)[:6])

    def ptransfer(self, S, n):
        out = {}
        d, v = None, None
        if n.k == 'decl':
            d, i = n.e.get('d'), n.e.get('init')
            if isinstance(i, dict) and unwrap(i)['k'] == 'Bool':
                v = bool(unwrap(i).get('v'))
        elif n.k == 'ev':
            e = n.e
            if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=') or e['k'] == 'Un' and e['op'] in ('++', '--'):
                L = unwrap(e.get('L') or e.get('e'))
                if L['k'] == 'Ref' and 'd' in L:
                    d = L['d']
                    if e['op'] == '=' and unwrap(e['R'])['k'] == 'Bool':
                        v = bool(unwrap(e['R']).get('v'))
        for k, st in S.items():
            if d is not None:
                k = frozenset(x for x in k if x[0] != d and not (isinstance(x[0], tuple) and d in x[0][1]))
                if v is not None and d in self.flags:
                    k = k | {(d, v)}
            st = self.transfer(st, n)
            if st is not None:
                out[k] = st if k not in out else self.join(out[k], st)
        return out or None

    def passume(self, S, a):
        out = {}
        d = None
        if isinstance(a[0], dict) and isinstance(a[1], bool):
            d, pol = flagtest(a[0])
        for k, st in S.items():
            if d in self.flags:
                v = pol == a[1]
                if (d, not v) in k:
                    continue
                k = k | {(d, v)}
            st = self.assume(st, a)
            if st is not None:
                out[k] = st if k not in out else self.join(out[k], st)
        return out or None

    def pjoin(self, A, B):
        out = dict(A)
        for k, st in B.items():
            out[k] = st if k not in out else self.join(out[k], st)
        return out

    def join(self, a, b):
        if a is b or a == b:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x == y:
                out[k] = x
            elif isinstance(k, (str, tuple)):
                continue
            else:
                v = self.joinv(x, y)
                if v:
                    out[k] = v
        return out

    def joinv(self, x, y):
        if x == y:
            return x
        if x and x[0] == 'B' or y and y[0] == 'B':
            x, y = (None if v and v[0] == 'B' else v for v in (x, y))
        for v in (x, y):
            if v and v[0] in 'MN':
                o = x if x and x[0] == 'M' else v
                both = x and y and x[0] in 'MN' and y[0] in 'MN'
                return ('M', o[1], None, x[3] & y[3] if both else frozenset())
        return x or y

    # value of a pointer expression: None (unknown or not null), ('P', i) the value of a parameter,
    # ('M', origin, sources, implied) possibly null / ('N', ...) null.  sources: variables whose not being null makes this one
    # not null (None: unknown); implied: variables that are not null when this one is not
    def val(self, e, st):
        while isinstance(e, dict) and e['k'] == 'Cast':
            e = e['e']
        if not isinstance(e, dict):
            return None
        k = e['k']
        if k == 'Null':
            return ('N', 'NULL', None, frozenset())
        if k == 'Ref' and e.get('dk') in ('var', 'parm'):
            v = st.get(e['d'])
            if not v or v[0] not in 'MNP':
                return None
            if v[0] == 'M':
                if v[2] and all((st.get(d) or 'x')[0] not in 'MN' for d in v[2]):
                    return None
                return ('M', v[1], frozenset([e['d']]), v[3])
            return v
        if k == 'Cond':
            out = []
            for arm, pol in ((e['T'], True), (e['F'], False)):
                s = self.fact(st, e['c'], pol, 0)
                if s is not None:
                    out.append(self.val(arm, s))
            m = [v for v in out if v and v[0] in 'MN']
            if not m:
                return None if len(set(out)) != 1 else out[0]
            if len(m) == 1 and len(out) == 1:
                return m[0]
            src = None
            if all(v[2] for v in m):
                src = frozenset().union(*[v[2] for v in m])
            return ('M', m[0][1], src, frozenset())
        if k == 'Bin' and e['op'] == '=':
            return self.val(e['R'], st)
        if k == 'Call':
            if st.get('x' + show(e)) == 'non':
                return None
            f = self.P.direct(e)
            if f is None or not is_ptr(e.get('t', '')):
                return None
            imp, sure = set(), False
            for i, a in enumerate(e.get('args', ())):
                if isinstance(a, dict) and i < len(f.params) and is_ptr(f.params[i]['t']):
                    v = self.val(a, st)
                    if v and v[0] in 'MNP' and self.N.null_in(f, i)[0]:
                        u = unwrap(a)
                        sure = sure or v[0] == 'N'
                        if u['k'] == 'Ref' and 'd' in u:
                            imp.add(u['d'])
                        if len(v) > 3:
                            imp |= v[3]
            if not self.N.source(f) or not sure and self.inrange(e, f):
                return None
            s = self.N.summary(f)
            if sure:
                return ('N', f.q, None, frozenset())
            if s and s['ret']:
                return ('M', f.q, None, frozenset(imp))
        return None

    def inrange(self, e, f):
        """An element fetched by the index of a loop that counts the elements."""
        if len(f.params) != 1 or is_ptr(f.params[0]['t']) or not isinstance((e.get('args') or [None])[0], dict):
            return False
        u = unwrap(e['args'][0])
        if u['k'] != 'Ref' or 'd' not in u:
            return False
        if self.guards is None:
            self.guards = Guards(self.f)
        for g in self.guards.at.get(id(e), ()):
            cs = []
            if g[0] == 'loop':
                cs = [g[1].get('c')]
            elif isinstance(g[0], dict) and g[1] is True:
                cs = [g[0]]
            for c in cs:
                for x in walk_e(c) if isinstance(c, dict) else ():
                    if x['k'] == 'Bin' and x['op'] in ('<', '>', '!=', '<=', '>='):
                        if any(unwrap(y).get('d') == u['d'] for y in (x['L'], x['R'])):
                            return True
        return False

    def use(self, e, st, at, what):
        """The pointer expression e is dereferenced."""
        if not self.final:
            return
        v = self.val(e, st)
        if v is None:
            return
        if v[0] in 'MN':
            self.bad.append((at, v[1], show(unwrap(e))[:60], what))
        else:
            self.req.setdefault(v[1], self.f.loc(at))

    def set(self, st, d, v, rhs=None):
        st = dict(st)
        st.pop(d, None)
        for k, x in list(st.items()):
            if isinstance(x, tuple) and x[0] in 'MN' and (d in x[3] or x[2] and d in x[2]):
                st[k] = (x[0], x[1], None if x[2] and d in x[2] else x[2], x[3] - {d})
            elif isinstance(k, tuple) and d in x:
                del st[k]
        if v and d not in self.refs:
            if v[0] in 'MN':
                v = (v[0], v[1], None if v[2] and d in v[2] else v[2], v[3] - {d})
            st[d] = v
        for k in [k for k, x in st.items() if isinstance(x, tuple) and x[0] == 'B' and d in x[2]]:
            del st[k]
        for k in [k for k in st if isinstance(k, str)]:
            n = self.names.get(d)
            if n and n in k:
                del st[k]
        if rhs is not None and 'bool' in (unwrap(rhs).get('t') or rhs.get('t') or '') and unwrap(rhs)['k'] in ('Bin', 'Un', 'Call', 'Cast', 'Ref') or rhs is not None and rhs.get('ck') == 'PointerToBoolean':
            vs = frozenset(x['d'] for x in walk_e(rhs) if x['k'] == 'Ref' and 'd' in x)
            if d not in vs and d not in self.refs:
                self.exprs[id(rhs)] = rhs
                st[d] = ('B', id(rhs), vs)
        return st

    names = {}
    exprs = {}

    def transfer(self, st, n):
        if n.k == 'decl':
            d = n.e
            if 'd' not in d:
                return st
            self.names[d['d']] = d.get('n', '')
            i = d.get('init')
            self.fresh.add(d['d'])
            if isinstance(i, dict):
                return self.set(st, d['d'], self.val(i, st) if is_ptr(d.get('t', '')) else None, i)
            return self.set(st, d['d'], None)
        if n.k == 'ret':
            if isinstance(n.e, dict) and is_ptr(self.f.r.get('ret', '')):
                v = self.val(n.e, st)
                self.rets.append((v, None))
                if v and v[0] in 'MN' and not self.asserted(n.e):
                    self.ret = self.ret or v[1]
            elif isinstance(n.e, dict):
                self.rets.append((None, self.truth(n.e, st)))
            return st
        if n.k != 'ev':
            return st
        e = n.e
        k = e['k']
        if k == 'Ref' and 'd' in e:
            self.used.add(e['d'])
        if k == 'Mem' and e.get('a') and isinstance(e.get('b'), dict) and e.get('dk') == 'field':
            self.use(e['b'], st, e, '->' + e['n'])
        elif k == 'Un' and e['op'] == '*':
            self.use(e['e'], st, e, 'dereference')
        elif k == 'Idx':
            self.use(e['b'], st, e, 'indexing')
        elif k == 'Call':
            o = e.get('obj')
            if o is not None and is_ptr(unwrap(o).get('t', '') if unwrap(o)['k'] != 'This' else '') and not (e.get('cal') or {}).get('s'):
                self.use(o, st, e, 'call of ' + callee_n(e))
            t = self.P.direct(e)
            st = self.lists(st, e, t)
            if t is not None and self.final:
                s = None
                for i, a in enumerate(e.get('args', ())):
                    if not isinstance(a, dict) or i >= len(t.params) or not is_ptr(t.params[i]['t']):
                        continue
                    v = self.val(a, st)
                    if v is None or unwrap(a)['k'] == 'Null':
                        continue
                    s = s or self.N.summary(t)
                    if s and i in s['req']:
                        if v[0] in 'MN':
                            self.bad.append((e, v[1], show(unwrap(a))[:60], 'argument of %s, which uses it at %s' % (t.q, s['req'][i])))
                        else:
                            self.req.setdefault(v[1], s['req'][i])
        elif k == 'Bin' and e['op'] == '=':
            L = unwrap(e['L'])
            if L['k'] == 'Ref' and 'd' in L:
                self.names[L['d']] = L['n']
                return self.set(st, L['d'], self.val(e['R'], st) if is_ptr(L.get('t', '')) else None, e['R'])
        elif k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=') or k == 'Un' and e['op'] in ('++', '--'):
            L = unwrap(e.get('L') or e.get('e'))
            if L['k'] == 'Ref' and 'd' in L and L['d'] in st:
                return self.set(st, L['d'], None)
        return st

    def asserted(self, e):
        return any((x.get('M') or '').startswith(ASSERTS) or (x.get('m') or '').startswith(ASSERTS) for x in walk_e(e))

    def assume(self, st, a):
        if not (isinstance(a[0], dict) and isinstance(a[1], bool)):
            return st
        return self.fact(st, a[0], a[1], 0)

    def lists(self, st, e, t):
        """A list filled by a call only when a pointer argument is not null; any other change forgets that."""
        ps = (e.get('cal') or {}).get('p', ())
        o = unwrap(e['obj']) if isinstance(e.get('obj'), dict) else {}
        if o.get('k') == 'Ref' and ('L', o.get('d')) in st and not e['cal'].get('k'):
            if callee_n(e) not in ('begin', 'end', 'size', 'empty', 'at', 'front', 'back', 'operator[]'):
                st = dict(st)
                del st['L', o['d']]
        for j, a in enumerate(e.get('args', ())):
            u = unwrap(a) if isinstance(a, dict) else {}
            if u.get('k') != 'Ref' or 'd' not in u or j >= len(ps) or not ps[j].endswith('&') or ps[j].startswith('const'):
                continue
            st = dict(st)
            had = st.pop(('L', u['d']), None)
            if t is None or had is None and u['d'] not in self.fresh:
                continue
            imp = set(had or ())
            for i, b in enumerate(e['args']):
                if isinstance(b, dict) and i < len(t.params) and is_ptr(t.params[i]['t']):
                    v = self.val(b, st)
                    if v and v[0] in 'MN' and j < len(t.params) and t.params[j]['d'] not in self.N.null_in(t, i)[1]:
                        imp |= v[3]
                        if unwrap(b)['k'] == 'Ref':
                            imp.add(unwrap(b).get('d'))
            if had is not None:
                imp &= set(had)
            self.fresh.discard(u['d'])
            if imp:
                st['L', u['d']] = frozenset(imp)
        return st

    def truth(self, e, st):
        e = unwrap(e)
        if e['k'] in ('Bool', 'Int'):
            return bool(e.get('v'))
        if self.fact(st, e, True, 0) is None:
            return False
        if self.fact(st, e, False, 0) is None:
            return True
        return None

    def fact(self, st, e, pol, depth):
        while isinstance(e, dict) and e['k'] == 'Cast':
            e = e['e']
        k = e['k']
        if k == 'Un' and e['op'] == '!':
            return self.fact(st, e['e'], not pol, depth)
        if k == 'Bin' and e['op'] in ('&&', '||'):
            if (e['op'] == '&&') == pol:
                st = self.fact(st, e['L'], pol, depth)
                return st if st is None else self.fact(st, e['R'], pol, depth)
            if self.fact(st, e['L'], pol, depth) is None:
                return self.fact(st, e['R'], pol, depth)
            return st
        if k in ('Bin', 'Call') and pol:
            # the body of a loop over a list: the list is not empty
            for x in walk_e(e):
                if x['k'] == 'Call' and callee_n(x) in ('end', 'size') and isinstance(x.get('obj'), dict):
                    for d in st.get(('L', unwrap(x['obj']).get('d')), ()):
                        st = self.known(st, {'k': 'Ref', 'd': d, 'n': ''}, True)
                        if st is None:
                            return None
        if k == 'Bin' and e['op'] in ('==', '!='):
            for x, y in ((e['L'], e['R']), (e['R'], e['L'])):
                u = unwrap(y)
                if u['k'] == 'Null' or u['k'] == 'Int' and u.get('v') == 0 and is_ptr(unwrap(x).get('t', '')):
                    return self.known(st, x, pol == (e['op'] == '!='))
            return st
        if k == 'Ref' and e.get('d') in st and st[e['d']][0] == 'B' and depth < 4:
            return self.fact(st, self.exprs[st[e['d']][1]], pol, depth + 1)
        if is_ptr(e.get('t', '')) or k == 'Bin' and e['op'] == '=':
            return self.known(st, e, pol)
        if k == 'Call' and pol:
            # a test that receives the pointer and never succeeds without one
            t = self.P.direct(e)
            if t is not None:
                for i, a in enumerate(e.get('args', ())):
                    u = unwrap(a) if isinstance(a, dict) else {}
                    if u.get('k') == 'Ref' and (st.get(u.get('d')) or 'x')[0] in 'MNP' and self.N.null_in(t, i)[0]:
                        st = self.known(st, u, True)
                        if st is None:
                            return None
        return st

    def known(self, st, e, nonnull):
        """The state after learning that e is (not) null; None when that cannot be."""
        e = unwrap(e)
        if e['k'] == 'Bin' and e['op'] == '=':
            e = unwrap(e['L'])
        if e['k'] == 'Ref' and 'd' in e:
            v = st.get(e['d'])
            if nonnull:
                if v and v[0] == 'N':
                    return None
                if v and v[0] in 'MP':
                    st = dict(st)
                    del st[e['d']]
                    if v[0] == 'M':
                        for d in v[3]:
                            st = self.known(st, {'k': 'Ref', 'd': d, 'n': ''}, True)
                            if st is None:
                                return None
            elif e['d'] not in self.refs:
                st = dict(st)
                # known null on this path; using it here is a definite mistake
                st[e['d']] = ('N', v[1] if v and v[0] in 'MN' else 'tested null', None, v[3] if v and v[0] in 'MN' else frozenset())
            elif v and v[0] == 'P':
                st = dict(st)
                del st[e['d']]
            return st
        if e['k'] == 'Call':
            v = self.val(e, st)
            if nonnull:
                if v and v[0] == 'N':
                    return None
                st = dict(st)
                st['x' + show(e)] = 'non'
                if v and v[0] == 'M':
                    for d in v[3]:
                        st = self.known(st, {'k': 'Ref', 'd': d, 'n': ''}, True)
                        if st is None:
                            return None
        return st


def flagtest(e):
    """(variable, polarity) when the condition is the truth of a variable."""
    pol = True
    while True:
        e = unwrap(e)
        if e['k'] == 'Un' and e['op'] == '!':
            pol, e = not pol, e['e']
        elif e['k'] == 'Bin' and e['op'] in ('==', '!='):
            for x, y in ((e['L'], e['R']), (e['R'], e['L'])):
                if unwrap(y)['k'] == 'Null':
                    d, p = flagtest(x)
                    return (d, p == (pol == (e['op'] == '!='))) if d is not None else (None, None)
            return None, None
        else:
            break
    if e['k'] == 'Call' and not e.get('args') and isinstance(e.get('obj'), dict) and (e.get('cal') or {}).get('n') != '':
        vs = {x.get('d') for x in walk_e(e) if x['k'] == 'Ref'}
        if all(x['k'] in ('Ref', 'Mem', 'This', 'Cast') or x['k'] == 'Call' and not x.get('args') for x in walk_e(e)):
            return (show(e), frozenset(vs)), pol
    if e['k'] == 'Ref' and e.get('dk') in ('var', 'parm') and (is_ptr(e.get('t', '')) or 'bool' in e.get('t', '')):
        return e.get('d'), pol
    return None, None
