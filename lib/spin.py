"""Ways around a loop that leave everything the loop asks about as it was: taken once, such a way is taken for ever.

A way around is walked from the head back to the head, once through each node.  Every place it writes is tracked: what is
computed on the way from places that stay the same is as good as the same; what a branch on the way asks about must not have
changed by the time the head is reached again.  Whatever is not understood counts as a change."""
from model import *

LEAF = ('fm::vector<', 'fm::pvector<', 'fm::stringT<', 'fm::string', 'fm::map<', 'fm::set<', 'fm::tree<', 'fm::pair<', 'std::', 'fm::list<', 'FUStringBuilder')
LOOKS = ('begin', 'end', 'size', 'empty', 'back', 'front', 'at', 'find', 'c_str', 'length', 'data', 'rbegin', 'rend', 'contains', 'count', 'reserve', 'top', 'get', 'ToCharPtr', 'substr', 'operator[]', 'capacity')
PUREC = ('strcmp', 'strncmp', 'strlen', 'strchr', 'strstr', 'strrchr', 'wcslen', 'fabs', 'fabsf', 'floor', 'floorf', 'ceil', 'ceilf', 'sqrt', 'sqrtf', 'isspace', 'isalpha', 'isdigit', 'isalnum', 'tolower', 'toupper', 'abs', 'xmlStrcmp', 'xmlStrEqual', 'strcasecmp', 'wcscmp', 'min', 'max', 'pow', 'powf', 'sin', 'cos', 'tan', 'sinf', 'cosf', 'tanf', 'atan2', 'atan2f', 'acos', 'asin', 'fmod', 'fmodf', 'isnan', 'isinf')
CMP = ('==', '!=', '<', '>', '<=', '>=')
NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
ANY = '~'


def leaf(t):
    t = (t or '').replace('const ', '').strip()
    return t.startswith(LEAF)


def isref(t):
    return str(t).rstrip().endswith('&')


def constref(t):
    t = str(t).strip()
    return t.startswith('const ') or ' const &' in t


class Marks:
    """Per function, with everything it calls: the names of the fields it may change and may look at; '*' for what is behind
    a pointer, '~' when it may destroy objects or call what is not known."""

    def __init__(self, P):
        self.P = P
        w, r, ed = {}, {}, {}
        for f in P.fns.values():
            a, b, c = set(), set(), set()
            if f.body is not None or f.r.get('inits'):
                for e in f.exprs():
                    self.expr(e, a, b, c)
            w[f.id], r[f.id], ed[f.id] = a, b, c
        rev = {}
        for a, s in ed.items():
            for b in s:
                rev.setdefault(b, set()).add(a)
        for tab in (w, r):
            todo = [i for i in tab if tab[i]]
            while todo:
                i = todo.pop()
                for a in rev.get(i, ()):
                    if a in tab and not tab[i] <= tab[a]:
                        tab[a] |= tab[i]
                        todo.append(a)
        self.w, self.r = w, r

    def names(self, e, out):
        """Where a written expression ends up."""
        e = unwrap(e)
        k = e['k']
        if k == 'Mem' and e.get('dk') == 'field':
            out.add(e['n'])
        elif k == 'Un' and e['op'] == '*' or k == 'Idx':
            out.add('*')
        elif k == 'Un' and e['op'] == '&':
            self.names(e['e'], out)
        elif k == 'Ref' and e.get('dk') == 'glob':
            out.add(e.get('q') or e['n'])
        elif k == 'Ref' and e.get('dk') in ('parm', 'var'):
            if isref(e.get('t')) or '*' in (e.get('t') or ''):
                out.add('*')
            else:
                out.add('*')if e.get('dk') == 'parm' else None
        elif k == 'Cond':
            self.names(e['T'], out)
            self.names(e['F'], out)
        elif k == 'Call':
            o = e.get('obj')
            if o is not None and leaf(o.get('t')):
                self.names(o, out)
            else:
                out.add('*')

    def expr(self, e, a, b, c):
        P = self.P
        k = e['k']
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in CMP:
            L = unwrap(e['L'])
            if not (L['k'] == 'Ref' and L.get('dk') in ('var', 'parm')):
                self.names(L, a)
            elif L.get('dk') == 'parm':
                a.add('*')
        elif k == 'Un' and e['op'] in ('++', '--'):
            L = unwrap(e['e'])
            if not (L['k'] == 'Ref' and L.get('dk') in ('var', 'parm')):
                self.names(L, a)
        elif k == 'Mem' and e.get('dk') == 'field':
            b.add(e['n'])
        elif k == 'Ref' and e.get('dk') == 'glob':
            b.add(e.get('q') or e['n'])
        elif k == 'Un' and e['op'] == '*' or k == 'Idx':
            b.add('*')
        elif k == 'Del':
            a.add(ANY)
        elif k in ('Call', 'Ctor'):
            cal = e.get('cal') or {}
            o = e.get('obj')
            n = callee_n(e)
            if k == 'Call' and not cal and e.get('op') not in CMP + ('[]', '*', '->', '&&', '||', '+', '-', '!'):
                a.add('?')
                return
            lf = o is not None and leaf(o.get('t'))
            if lf or o is not None and not e.get('a') and unwrap(o)['k'] == 'Mem' and '*' not in (unwrap(o).get('t') or ''):
                if not cal.get('k') and n not in LOOKS and e.get('op') not in CMP + ('[]', '*', '->'):
                    self.names(o, a)
            for x, t in zip(e.get('args', ()) or (), cal.get('p') or ()):
                if isinstance(x, dict) and (isref(t) or str(t).rstrip().endswith('*')) and not constref(t):
                    u = unwrap(x)
                    if u['k'] == 'Un' and u['op'] == '&' or isref(t) and u['k'] in ('Mem', 'Idx', 'Ref') and not (u['k'] == 'Ref' and u.get('dk') == 'var'):
                        if not (n in ('min', 'max', 'swap') and n != 'swap'):
                            self.names(u, a)
            if not lf:
                ts = P.targets(e) if k == 'Call' else [P.fns[cal['id']]] if cal.get('id') in P.fns else []
                for g in ts:
                    c.add(g.id)
                if k == 'Call' and not ts and n not in PUREC and not e.get('op') and not cal.get('k'):
                    a.add('?')

    def of(self, e):
        """(changes, looks) of a call."""
        ts = self.P.targets(e) if e['k'] == 'Call' else [self.P.fns[i] for i in [(e.get('cal') or {}).get('id')] if i in self.P.fns]
        if not ts:
            if callee_n(e) in PUREC or (e.get('cal') or {}).get('k') or e['k'] == 'Ctor':
                return set(), set()
            return None
        w, r = set(), set()
        for t in ts:
            if t.body is None:
                return None
            w |= self.w[t.id]
            r |= self.r[t.id]
        return w, r


class Stop(Exception):
    pass


class Walk:
    """What one way around has done so far."""

    def __init__(self):
        self.val = {}        # place -> ('c', number) | ('d', needed places) | None when not known
        self.mods = set()    # field names that may have changed
        self.need = set()    # places of the round's start the branches rest on
        self.look = set()    # field names the branches rest on
        self.said = {}       # what has been asked -> answer
        self.txt = {}        # place -> (what it was last set to, the places that is made of, field names)
        self.off = {}        # place -> how far it has been stepped since it was last set
        self.new = 0

    def copy(self):
        w = Walk()
        w.val, w.mods, w.need, w.look, w.said, w.txt = dict(self.val), set(self.mods), set(self.need), set(self.look), dict(self.said), dict(self.txt)
        w.off, w.new = dict(self.off), self.new
        return w


def within(p, q):
    while isinstance(q, tuple):
        if q == p:
            return True
        q = q[1] if len(q) > 1 and q[0] in ('fld', 'deref', 'addr') else None
    return False


def pnames(p, heap=False):
    """The field names a place goes through; '*' when it is behind a pointer."""
    out = set()
    while isinstance(p, tuple):
        if p[0] == 'fld':
            out.add(p[2])
        elif p[0] == 'deref':
            out.add('*')
        elif p[0] == 'glob':
            out.add(p[1])
        p = p[1] if len(p) > 1 and p[0] in ('fld', 'deref', 'addr') else None
    return out


class Spin:
    def __init__(self, P, M, L, limit=4000):
        self.P, self.M, self.L, self.limit = P, M, L, limit
        self.refs = {}
        self.round = True
        self.empties = set()
        for n in L.cfg.nodes:
            if n.k == 'ev' and n.i not in L.body and n.e['k'] == 'Call' and callee_n(n.e) == 'clear' and n.e.get('obj') is not None and L.head >= 0:
                p = path(n.e['obj'])
                if p and len(n.succ) == 1 and self.only(n.i, n.succ[0][0]) and not any(
                        x['k'] == 'Call' and callee_n(x) in ('push_back', 'push_front', 'insert', 'resize', 'swap') and path(x.get('obj') or {'k': '?'}) == p for x in L.f.calls()):
                    self.empties.add(p)
        for n in L.cfg.nodes:
            if n.k == 'decl' and isref(n.e.get('t')) and isinstance(n.e.get('init'), dict):
                self.refs[n.e['d']] = n.e['init']

    def place(self, e):
        p = path(e)
        return self.deref(p)

    def deref(self, p, depth=0):
        if p is None or depth > 4:
            return p
        if p[0] == 'var' and p[1] in self.refs:
            q = path(self.refs[p[1]])
            return self.deref(q, depth + 1) if q is not None else p
        if p[0] in ('fld', 'deref', 'addr'):
            return (p[0], self.deref(p[1], depth + 1)) + tuple(p[2:])
        return p

    # -- values
    def join(self, vs):
        out = set()
        for v in vs:
            if v is None:
                return None
            if v[0] == 'd':
                out |= v[1]
        return ('d', frozenset(out))

    def read(self, w, p):
        best = None
        for q in w.val:
            if q == p:
                return w.val[q]
            if within(q, p) or within(p, q):
                best = q
        if best is not None:
            v = w.val[best]
            # a part of what was computed anew
            return v if v is not None and v[0] == 'd' and within(best, p) else None
        if pnames(p) & w.mods:
            return None
        if ANY in w.mods and (pnames(p) or self.owner(p)):
            return None
        return ('d', frozenset([('in', p)] + [('name', n) for n in pnames(p)]))

    def own(self, o):
        """A list that is a local of the routine: its elements only change through it."""
        u = unwrap(o) if o is not None else {'k': '?'}
        return u['k'] == 'Ref' and u.get('dk') == 'var' and leaf(u.get('t')) and not isref(u.get('t')) and u['d'] not in self.refs

    def owner(self, p):
        return p[0] == 'var' and p[1] in self.refs

    def ev(self, w, e):
        if not isinstance(e, dict):
            return ('d', frozenset())
        e = unwrap(e)
        k = e['k']
        if k in ('Int', 'Bool'):
            return ('c', int(e['v']))
        if k in ('Null',):
            return ('c', 0)
        if k in ('Flt', 'Str', 'This'):
            return ('d', frozenset())
        if k in ('Ref', 'Mem'):
            if e.get('dk') == 'enum' and 'v' in e:
                return ('c', e['v'])
            if e.get('dk') in ('enum', 'fn', 'method'):
                return ('d', frozenset())
            p = self.place(e)
            if p is not None:
                return self.read(w, p)
            if k == 'Mem':
                b = self.ev(w, e['b'])
                if b is None or e['n'] in w.mods or ANY in w.mods:
                    return None
                return self.join([b, ('d', frozenset([('name', e['n'])]))])
            return None
        if k == 'Un':
            if e['op'] in ('++', '--'):
                # its own event wrote the place before this one
                v = self.ev(w, e['e'])
                if e.get('post') and v is not None and v[0] == 'c':
                    return ('c', v[1] - (1 if e['op'] == '++' else -1))
                return v
            if e['op'] == '*':
                p = self.place(e)
                v = self.read(w, p) if p is not None else self.ev(w, e['e'])
                if v is None or '*' in w.mods or ANY in w.mods:
                    return None
                return self.join([v, ('d', frozenset([('name', '*')]))])
            if e['op'] == '&':
                p = self.place(e['e'])
                return ('d', frozenset()) if p is not None and p[0] == 'var' else self.ev(w, e['e'])
            v = self.ev(w, e['e'])
            if v is not None and v[0] == 'c':
                return ('c', {'!': int(not v[1]), '-': -v[1], '~': ~v[1], '+': v[1]}.get(e['op'], v[1]))
            return v
        if k == 'Bin':
            if e['op'].endswith('=') and e['op'] not in CMP:
                return self.ev(w, e['L'])
            a, b = self.ev(w, e['L']), self.ev(w, e['R'])
            return self.arith(e['op'], a, b)
        if k == 'Cond':
            return self.join([self.ev(w, e['c']), self.ev(w, e['T']), self.ev(w, e['F'])])
        if k == 'Idx':
            v = self.join([self.ev(w, e['b']), self.ev(w, e['i'])])
            if v is None or '*' in w.mods or ANY in w.mods:
                return None
            return self.join([v, ('d', frozenset([('name', '*')]))])
        if k == 'Cast':
            return self.ev(w, e['e'])
        if k in ('Call', 'Ctor'):
            return self.evcall(w, e)
        if k == 'List':
            return self.join([self.ev(w, x) for x in kids(e)])
        if k == 'New' or k == 'Lambda':
            return None
        return self.join([self.ev(w, x) for x in kids(e) if isinstance(x, dict)])

    def arith(self, op, a, b):
        if a is None or b is None:
            return None
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '==': lambda: int(x == y), '!=': lambda: int(x != y),
                     '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y), '>=': lambda: int(x >= y),
                     '&&': lambda: int(bool(x and y)), '||': lambda: int(bool(x or y)), '&': lambda: x & y, '|': lambda: x | y}.get(op)
                if r:
                    return ('c', r())
            except Exception:
                pass
            return ('d', frozenset())
        return self.join([a, b])

    def evcall(self, w, e):
        o = e.get('obj')
        n = callee_n(e)
        op = e.get('op')
        cal = e.get('cal') or {}
        vs = []
        if o is not None:
            vs.append(self.ev(w, o))
        vs += [self.ev(w, a) for a in e.get('args', ()) or () if isinstance(a, dict)]
        if n in ('size', 'empty') and o is not None and self.place(o) in self.empties:
            return ('c', int(n == 'empty'))
        v = self.join(vs)
        if v is None:
            return None
        if op in ('++', '--', '='):
            return v
        if op in CMP + ('+', '-', '!', '&&', '||', '*', '[]', '->') or o is not None and leaf(o.get('t')):
            if o is not None and leaf(o.get('t')) and not cal.get('k') and n not in LOOKS and op not in CMP + ('[]', '*', '->', '+', '-'):
                return None
            if op in ('*', '->', '[]') and not self.own(o):
                if '*' in w.mods or ANY in w.mods:
                    return None
                return self.join([v, ('d', frozenset([('name', '*')]))])
            return v
        m = self.M.of(e)
        if m is None or m[0]:
            return None
        if m[1] & w.mods or ANY in w.mods and m[1]:
            return None
        return self.join([v, ('d', frozenset(('name', x) for x in m[1]))])

    def ahead(self, w, p, was):
        """The cursor itself was set to something else: that way does not come back to where it was."""
        return p in w.val and p not in w.off and self.rp(w, p)[0] != was

    # -- what a value is made of, by text
    def render(self, w, e):
        """(text, places, field names): what an expression is, in terms of what was there when the round began."""
        e = unwrap(e)
        k = e['k']
        if k == 'Cast':
            return self.render(w, e['e'])
        if k in ('Int', 'Bool'):
            return str(int(e['v'])), frozenset(), frozenset()
        if k == 'Null':
            return '0', frozenset(), frozenset()
        if k in ('Ref', 'Mem') and e.get('dk') not in ('enum', 'fn', 'method'):
            p = self.place(e)
            if p is not None:
                v = w.val.get(p)
                if v is not None and v[0] == 'c':
                    return str(v[1]), frozenset(), frozenset()
                return self.rp(w, p)
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in CMP:
            return self.render(w, e['L'])
        if k == 'Un' and e['op'] == '*':
            t, a, b = self.render(w, e['e'])
            q = self.place(e)
            if q is not None and q in w.txt:
                return w.txt[q]
            return '*(%s)' % t, a | ({q} if q else set()), b | {'*'}
        ps, ns, ts = set(), set(), []
        head = k + str(e.get('op') or e.get('n') or callee_q(e) if k in ('Bin', 'Un', 'Mem', 'Ref', 'Call') else '')
        if k in ('Un',) and e['op'] == '*' or k == 'Idx' or k == 'Call':
            ns.add('*')
        if k == 'Call':
            m = self.M.of(e)
            o = e.get('obj')
            lf = o is not None and leaf(o.get('t')) or e.get('op')
            if not lf and callee_n(e) not in PUREC and (m is None or m[0]):
                return self.fresh(w)
            if m and not lf:
                ns |= m[1]
        if k in ('New', 'Lambda'):
            return self.fresh(w)
        if k in ('Un',) and e['op'] in ('++', '--'):
            # it was stepped before it is looked at here
            q = self.place(e['e'])
            if q is None:
                return self.fresh(w)
            if not e.get('post'):
                return self.rp(w, q)
            x = w.copy()
            try:
                r, self.round = self.round, False
                self.step(x, q, -1 if e['op'] == '++' else 1)
            finally:
                self.round = r
            return self.rp(x, q)
        if k in ('Flt', 'Str', 'Ref'):
            head = show(e)
        for x in kids(e):
            if isinstance(x, dict):
                t, a, b = self.render(w, x)
                ts.append(t)
                ps |= a
                ns |= b
        if k == 'Mem':
            ns.add(e['n'])
        return '%s(%s)' % (head, ','.join(ts)), frozenset(ps), frozenset(ns)

    def rp(self, w, p):
        """The text of what a place holds now; the same text is the same value."""
        if p in w.txt:
            return w.txt[p]
        if p[0] in ('fld', 'deref', 'addr'):
            t, a, b = self.rp(w, p[1])
            if p[0] == 'fld':
                return '%s.%s' % (t, p[2]), a | {p}, b | {p[2]}
            return ('*(%s)' if p[0] == 'deref' else '&(%s)') % t, a | {p}, b | ({'*'} if p[0] == 'deref' else set())
        return str(p), frozenset([p]), frozenset(pnames(p))

    def fresh(self, w):
        w.new += 1
        return '?%d' % w.new, frozenset(), frozenset()

    # -- what a node does
    def write(self, w, p, v, t=None):
        if p is None:
            return
        p = self.deref(p)
        same = t is not None and t == self.rp(w, p) and p not in w.off
        if same and v is not None and v[0] == 'd':
            return
        for q in [q for q in w.val if within(p, q) and q != p]:
            del w.val[q]
        w.val[p] = v
        w.off.pop(p, None)
        names = pnames(p)
        for d in (w.said, w.txt):
            for x in [x for x in d if d[x][2] & names]:
                del d[x]
        for q in [q for q in w.txt if within(q, p) or within(p, q)]:
            w.txt[q] = self.fresh(w)
        if p[0] == 'fld' and p[1] is not None:
            q = p[1]
            while isinstance(q, tuple) and q[0] == 'fld':
                w.txt[q] = self.fresh(w)
                q = q[1]
            if isinstance(q, tuple) and q[0] == 'var':
                w.txt[q] = w.txt.get(q) if q in w.txt and '*' in names else self.fresh(w) if '*' not in names else w.txt.get(q, self.rp(w, q))
        w.txt[p] = t if t is not None else self.fresh(w)
        if names:
            w.mods |= {x for x in names if x != '*'} if p[0] == 'fld' else names
        self.moved(w, p, v)

    def moved(self, w, p, v):
        if not self.round:
            return
        for q in w.need:
            if within(q, p) or within(p, q):
                if v is not None and v[0] == 'd' and v[1] == frozenset([('in', p)]):
                    continue
                raise Stop()

    def step(self, w, p, k):
        """A place is moved on by a constant."""
        p = self.deref(p)
        v = self.read(w, p)
        if v is not None and v[0] == 'c':
            self.write(w, p, ('c', v[1] + k))
            return
        o, base, bv = w.off.get(p) or (0, self.rp(w, p), v)
        o += k
        if o == 0:
            v = bv
            t = base
        else:
            v = ('d', frozenset((v[1] if v is not None else frozenset()) | {('in', p), ('step', p)})) if v is not None else None
            t = ('%s%+d' % (base[0], o), base[1], base[2])
        keep = base
        self.write(w, p, v, t)
        if o != 0:
            w.off[p] = (o, keep, bv)
        elif bv is not None and bv[0] == 'd' and bv[1] == frozenset([('in', p)]) | frozenset(x for x in bv[1] if x[0] == 'name'):
            w.val.pop(p, None)

    def mentions(self, ps, p):
        return any(within(q, p) or within(p, q) for q in ps)

    def node(self, w, n):
        e = n.e
        if n.k == 'decl':
            init = e.get('init')
            p = ('var', e['d'])
            if e['d'] in self.refs:
                return
            if isinstance(init, dict):
                v = self.ev(w, init)
            else:
                v = ('d', frozenset())
            self.write(w, p, v, self.render(w, init) if isinstance(init, dict) else None)
            return
        if n.k != 'ev':
            return
        k = e['k']
        b = e.get('b') if k == 'Mem' and e.get('a') else e.get('obj') if k == 'Call' and e.get('a') else None
        if isinstance(b, dict) and '*' in (b.get('t') or ''):
            # what is looked behind is there
            t, ps, ns = self.render(w, b)
            w.said.setdefault(t, (True, ps, ns))
        if k == 'Un' and e['op'] in ('++', '--'):
            p = self.place(e['e'])
            if p is None:
                self.blur(w, e['e'])
                return
            self.step(w, p, 1 if e['op'] == '++' else -1)
        elif k == 'Bin' and e['op'].endswith('=') and e['op'] not in CMP:
            p = self.place(e['L'])
            if p is None:
                self.blur(w, e['L'])
                return
            v = self.ev(w, e['R'])
            if e['op'] != '=':
                o = self.read(w, p)
                if e['op'] in ('+=', '-=', '|=') and v == ('c', 0):
                    return
                if e['op'] in ('+=', '-=') and v is not None and v[0] == 'c':
                    self.step(w, p, v[1] if e['op'] == '+=' else -v[1])
                    return
                v = self.arith(e['op'][:-1], o, v)
                if v is not None and v[0] == 'd':
                    v = ('d', frozenset(v[1] | {('step', p)}))
            self.write(w, p, v, self.render(w, e['R']) if e['op'] == '=' else None)
        elif k == 'Del':
            self.taint(w, {ANY})
        elif k in ('Call', 'Ctor'):
            self.call(w, e)
        elif k in ('New', 'Lambda'):
            if k == 'Lambda':
                raise Stop()

    def blur(self, w, e):
        out = set()
        self.M.names(e, out)
        self.taint(w, out)
        u = unwrap(e)
        # an element of a local array or list
        while u['k'] in ('Idx', 'Call', 'Mem'):
            u = unwrap(u['b'] if u['k'] in ('Idx', 'Mem') else u.get('obj') or {'k': '?'})
        p = self.place(u) if u['k'] in ('Ref', 'Mem') else None
        if p is not None:
            self.write(w, p, None)

    def taint(self, w, names):
        if not names:
            return
        w.mods |= names
        if names & w.look:
            raise Stop()
        if ANY in names and w.look:
            raise Stop()
        if ANY in names:
            for q in w.need:
                if pnames(q):
                    raise Stop()
        w.said = {t: x for t, x in w.said.items() if not x[2] & names and not (ANY in names and x[2])}
        w.txt = {t: x for t, x in w.txt.items() if not x[2] & names and not (ANY in names and x[2])}

    def call(self, w, e):
        o = e.get('obj')
        n = callee_n(e)
        op = e.get('op')
        cal = e.get('cal') or {}
        ts = cal.get('p') or ()
        if op in CMP + ('[]', '*', '->', '+', '-', '!', '&&', '||') or e['k'] == 'Call' and n in PUREC:
            return
        cur, extra = set(), set()
        for i, a in enumerate(e.get('args', ()) or ()):
            if not isinstance(a, dict) or e['k'] != 'Call' or i >= len(ts):
                continue
            t = str(ts[i])
            u = unwrap(a)
            if t.replace(' ', '').endswith('**') or t.replace(' ', '').endswith('*&'):
                q = self.place(u['e']) if u['k'] == 'Un' and u['op'] == '&' else ('deref', self.place(u)) if not isref(t) and u['k'] in ('Ref', 'Mem') and self.place(u) else self.place(u) if isref(t) else None
                gs = self.P.targets(e)
                if q is not None and q[0] in ('var', 'deref') and len(gs) == 1 and len([x for x in e['args'] if isinstance(x, dict)]) <= 2:
                    r = stays(self.P, self.M, gs[0], i)
                    if r is None:
                        self.write(w, q, None)
                    else:
                        extra |= r - {'*'}
                    cur.add(i)
        for i, a in enumerate(e.get('args', ()) or ()):
            if not isinstance(a, dict) or i in cur:
                continue
            t = str(ts[i]) if i < len(ts) else ''
            u = unwrap(a)
            if u['k'] == 'Un' and u['op'] == '&' and not constref(t):
                p = self.place(u['e'])
                if p is not None:
                    self.write(w, p, None)
                else:
                    self.blur(w, u['e'])
            elif isref(t) and not constref(t) and n not in ('min', 'max'):
                p = self.place(u)
                if p is not None and u['k'] != 'Un':
                    self.write(w, p, None)
                elif p is None:
                    self.blur(w, u)
            elif not ts and e['k'] == 'Call' and not op:
                p = self.place(u)
                if p is not None:
                    self.write(w, p, None)
        if op in ('++', '--', '=', '+=', '-=') and o is not None:
            p = self.place(o)
            if p is None:
                self.blur(w, o)
                return
            if op in ('++', '--'):
                self.step(w, p, 1 if op == '++' else -1)
                return
            v = self.ev(w, e['args'][0]) if op == '=' and e.get('args') else None
            self.write(w, p, v, self.render(w, e['args'][0]) if v is not None else None)
            return
        if o is not None and leaf(o.get('t')) or e['k'] == 'Ctor' and leaf(e.get('t')):
            if o is not None and not cal.get('k') and n not in LOOKS:
                p = self.place(o)
                if p is not None and (not e.get('a') or p == ('this',)):
                    self.write(w, p, None)
                else:
                    self.blur(w, o)
            return
        if cur:
            self.taint(w, extra)
            return
        m = self.M.of(e)
        if m is None:
            self.taint(w, {'?'})
            return
        if m[0]:
            self.taint(w, m[0])
            if o is not None and not cal.get('k'):
                p = self.place(o)
                if p is not None and p[0] == 'var' and '*' not in (unwrap(o).get('t') or ''):
                    self.write(w, p, None)

    def ask(self, w, a):
        """The way goes on under an assumption: False when it cannot."""
        if a is None:
            return True
        if a[0] in ('range-next', 'range-end'):
            raise Stop()
        if isinstance(a[0], str):
            e = a[1] if a[0] == 'case' and isinstance(a[1], dict) else None
            truth = None
        else:
            e, truth = a[0], bool(a[1])
        if not isinstance(e, dict):
            return True
        u = unwrap(e)
        if u['k'] == 'Ref' and u.get('n') == 'ignoreAssert':
            # outside of a debugger a failed assertion only takes its fall-back
            return truth is not False
        v = self.ev(w, e)
        if v is None:
            raise Stop()
        if v[0] == 'c':
            if truth is None:
                return self.among(v[1], a)
            return bool(v[1]) == truth
        if not self.round:
            return self.claim(w, e, truth) if truth is not None else self.cases(w, e, a)
        need = {x[1] for x in v[1] if x[0] == 'in'}
        look = {x[1] for x in v[1] if x[0] == 'name'}
        for x in v[1]:
            if x[0] == 'step':
                raise Stop()
        for p in need:
            for q, qv in w.val.items():
                if within(q, p) or within(p, q):
                    raise Stop()
        if look & w.mods or look and ANY in w.mods:
            raise Stop()
        w.need |= need
        w.look |= look
        return self.claim(w, e, truth) if truth is not None else self.cases(w, e, a)

    def among(self, c, a):
        n = [x for x in (number_of(a[2]),) if x is not None] if a[2] is not None else None
        if n is None:
            return all(number_of(x) != c for x in a[3])
        return not n or n[0] == c

    def cases(self, w, e, a):
        t, ps, ns = self.text(w, e)
        if a[2] is not None:
            c = number_of(a[2])
            return c is None or self.settle(w, ('==', t, str(c)) if c else t, bool(c), ps, ns)
        for x in a[3]:
            c = number_of(x)
            if c is not None and not self.settle(w, ('==', t, str(c)) if c else t, not c, ps, ns):
                return False
        return True

    def claim(self, w, e, truth):
        t, tr, ps, ns = self.canon(w, e, truth)
        return self.settle(w, t, tr, ps, ns)

    def settle(self, w, t, tr, ps, ns):
        if number(t):
            return bool(int(t)) == tr
        if isinstance(t, tuple) and number(t[1]) and number(t[2]):
            return (int(t[1]) < int(t[2]) if t[0] == '<' else int(t[1]) == int(t[2])) == tr
        if t in w.said:
            return w.said[t][0] == tr
        for o in self.implied(t, tr, w):
            if o is False:
                return False
        w.said[t] = (tr, ps, ns)
        return True

    def implied(self, t, tr, w):
        """x == c once and for all: the same x is not another constant."""
        if isinstance(t, tuple) and t[0] == '==' and tr:
            for u, y in w.said.items():
                if isinstance(u, tuple) and u[0] == '==' and y[0] and u[1] == t[1] and u != t and u[2] != t[2] and number(u[2]) and number(t[2]):
                    yield False
                if u == t[1] and number(t[2]) and y[0] != bool(int(t[2])):
                    yield False
        if isinstance(t, tuple) and t[0] == '==' and not tr and t[2] == '0':
            pass
        if not isinstance(t, tuple):
            for u, y in w.said.items():
                if isinstance(u, tuple) and u[0] == '==' and y[0] and u[1] == t and number(u[2]) and bool(int(u[2])) != tr:
                    yield False

    def canon(self, w, e, truth):
        while True:
            if e['k'] == 'Cast':
                e = e['e']
            elif e['k'] == 'Un' and e['op'] == '!':
                e, truth = e['e'], not truth
            else:
                break
        op, l, r = None, None, None
        if e['k'] == 'Bin' and e['op'] in CMP:
            op, l, r = e['op'], unwrap(e['L']), unwrap(e['R'])
        elif e['k'] == 'Call' and e.get('op') in CMP:
            a = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()) or ())
            if len(a) == 2:
                op, l, r = e['op'], unwrap(a[0]), unwrap(a[1])
        if op is None:
            t, ps, ns = self.render(w, e)
            return t, truth, ps, ns
        (lt, lp, ln), (rt, rp, rn) = self.text(w, l), self.text(w, r)
        ps, ns = lp | rp, ln | rn
        if op in ('>', '<='):
            op, l, r, lt, rt = {'>': '<', '<=': '>='}[op], r, l, rt, lt
        if op in ('!=', '>='):
            op, truth = NEG[op], not truth
        if op == '==' and rt == '0':
            return lt, not truth, ps, ns
        if op == '==' and lt == '0':
            return rt, not truth, ps, ns
        if op == '<' and lt == '0' and unsigned(r):
            return rt, truth, ps, ns
        if op == '==' and (rt < lt and not number(rt) or number(lt)):
            lt, rt = rt, lt
        return (op, lt, rt), truth, ps, ns

    def text(self, w, e):
        v = self.ev(w, e)
        if v is not None and v[0] == 'c':
            return str(v[1]), frozenset(), frozenset()
        return self.render(w, e)

    def seed(self, w):
        """What holds for the whole loop: locals that are never zero, and what was asked of unchanging locals on the only way in."""
        cfg = self.L.cfg
        wr = {}
        for n in cfg.nodes:
            e = n.e
            if n.k == 'decl':
                wr.setdefault(('var', e['d']), []).append(e.get('init') if isinstance(e.get('init'), dict) else None)
            elif n.k == 'ev' and isinstance(e, dict):
                k = e['k']
                if k == 'Bin' and e['op'].endswith('=') and e['op'] not in CMP:
                    p = path(e['L'])
                    if p and p[0] == 'var':
                        wr.setdefault(p, []).append(e['R'] if e['op'] == '=' else None)
                elif k == 'Un' and e['op'] in ('++', '--', '&'):
                    p = path(e['e'])
                    if p and p[0] == 'var':
                        wr.setdefault(p, []).append(None)
                elif k in ('Call', 'Ctor'):
                    for a, t in zip(e.get('args', ()) or (), (e.get('cal') or {}).get('p') or ()):
                        if isinstance(a, dict) and isref(t) and not constref(t):
                            p = path(unwrap(a))
                            if p and p[0] == 'var':
                                wr.setdefault(p, []).append(None)
        self.wr = wr
        for p, es in wr.items():
            if es and all(x is not None and self.nonzero(x) for x in es):
                t = self.rp(w, p)
                w.said[t[0]] = (True, t[1], t[2])
        params = {x['d'] for x in self.L.f.params if not isref(x['t'])}
        for n in cfg.nodes:
            if n.k != 'br' or n.i in self.L.body:
                continue
            for j, a in n.succ:
                if a is None or not isinstance(a[0], dict) or not self.only(n.i, j):
                    continue
                ps = [path(x) for x in walk_e(a[0]) if x['k'] in ('Ref', 'Mem') and x.get('dk') not in ('fn', 'enum', 'method')]
                if any(x['k'] in ('Call', 'Idx', 'Mem', 'Un') and not (x['k'] == 'Un' and x['op'] == '!') for x in walk_e(a[0])):
                    continue
                if all(p and p[0] == 'var' and len(wr.get(p, ())) <= (0 if p[1] in params else 1) for p in ps):
                    self.claim(w, a[0], bool(a[1]))

    def only(self, i, j):
        """The loop is only reached through the edge i -> j."""
        cfg = self.L.cfg
        seen, st = {cfg.entry.i}, [cfg.entry.i]
        while st:
            x = st.pop()
            for y, _ in cfg.nodes[x].succ:
                if (x, y) == (i, j) or y in seen:
                    continue
                if y == self.L.head:
                    return False
                seen.add(y)
                st.append(y)
        return True

    def nonzero(self, e, seen=()):
        e = unwrap(e)
        while e['k'] == 'Cast':
            e = unwrap(e['e'])
        if e['k'] in ('Int',):
            return e['v'] != 0
        if e['k'] == 'Cond':
            return self.nonzero(e['T'], seen) and self.nonzero(e['F'], seen)
        if e['k'] == 'Call':
            if callee_n(e) == 'max' and unsigned(e):
                return any(self.nonzero(a, seen) for a in e['args'] if isinstance(a, dict))
            ts = self.P.targets(e)
            return bool(ts) and all(never0(self.P, self.M, t) for t in ts)
        p = path(e)
        if p and p[0] == 'var' and p not in seen and self.wr.get(p):
            return all(x is not None and self.nonzero(x, seen + (p,)) for x in self.wr[p])
        return False

    def nz(self, w, e):
        """Not zero at this point."""
        e = unwrap(e)
        while e['k'] == 'Cast':
            e = unwrap(e['e'])
        if e['k'] == 'Cond':
            for b, arm in ((True, e['T']), (False, e['F'])):
                x = w.copy()
                if self.claim(x, e['c'], b) and not self.nz(x, arm):
                    return False
            return True
        if e['k'] == 'Call' and callee_n(e) == 'max' and unsigned(e):
            return any(self.nz(w, a) for a in e['args'] if isinstance(a, dict))
        if e['k'] == 'Call' and not e.get('op') and self.nonzero(e):
            return True
        v = self.ev(w, e)
        if v is not None and v[0] == 'c':
            return bool(v[1])
        t = self.render(w, e)[0]
        return t in w.said and w.said[t][0] or number(t) and int(t) != 0

    def allplaces(self, e):
        return {self.place(x) for x in walk_e(e) if x['k'] in ('Ref', 'Mem')} - {None}

    def go(self):
        """A way around that changes nothing it asks about, or None."""
        N = self.L.cfg.nodes
        h = self.L.head
        self.count = 0
        w = Walk()
        self.seed(w)
        r = self.lap(w)
        if r is not None:
            return r
        # once around in any way, and then around for ever in one that sets everything to what it is
        self.round = False
        first = self.laps(w)
        self.round = True
        for x in first:
            for q, v in list(x.val.items()):
                if v is not None and v[0] == 'c':
                    x.txt[q] = str(v[1]), frozenset(), frozenset()
            if not x.txt:
                continue
            x.val, x.mods, x.need, x.look, x.off = {}, set(), set(), set(), {}
            r = self.lap(x)
            if r is not None:
                return r
        return None

    def laps(self, w):
        N, h = self.L.cfg.nodes, self.L.head
        out = []
        st = [(h, w.copy(), (h,))]
        n = 0
        while st and n < self.limit and len(out) < 24:
            i, w, tr = st.pop()
            n += 1
            for j, a in N[i].succ:
                if j not in self.L.body or j in tr and j != h:
                    continue
                x = w.copy()
                try:
                    if not self.ask(x, a):
                        continue
                    if j != h:
                        self.node(x, N[j])
                except Stop:
                    continue
                if j == h:
                    out.append(x)
                else:
                    st.append((j, x, tr + (j,)))
        self.count += n
        return out

    def lap(self, w):
        N, h = self.L.cfg.nodes, self.L.head
        w = w.copy()
        try:
            self.node(w, N[h])
        except Stop:
            return None
        st = [(h, w, (h,))]
        n = 0
        while st:
            i, w, tr = st.pop()
            self.count += 1
            n += 1
            if n > self.limit:
                return None
            for j, a in N[i].succ:
                if j not in self.L.body or j in tr and j != h:
                    continue
                x = w.copy()
                try:
                    if not self.ask(x, a):
                        continue
                    if j == h:
                        return [N[t] for t in tr]
                    self.node(x, N[j])
                except Stop:
                    continue
                st.append((j, x, tr + (j,)))
        return None


def number_of(v):
    if isinstance(v, dict):
        v = unwrap(v)
        while v['k'] == 'Cast':
            v = unwrap(v['e'])
        return int(v['v']) if v['k'] in ('Int', 'Bool', 'Ref') and 'v' in v else None
    return v if isinstance(v, int) else None


def number(t):
    return isinstance(t, str) and t.lstrip('-').isdigit()


def unsigned(e):
    t = (e.get('t') or '').replace('const ', '').replace('&', '').strip()
    return t.startswith('unsigned') or t in ('size_t', 'uint32', 'uint8', 'uint16', 'uint64')


def never0(P, M, f, memo={}):
    """Every return of the routine gives back something that is not zero."""
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = False
    if f.body is None or any(s['k'] in ('For', 'While', 'Do', 'Range') for s in walk_s(f.body)):
        return False
    cfg = f.cfg()

    class Whole:
        pass
    L = Whole()
    L.f, L.cfg, L.head, L.body = f, cfg, -1, set(range(len(cfg.nodes)))
    S = Spin(P, M, L)
    S.wr = {}
    S.round = False
    st = [(cfg.entry.i, Walk())]
    k = 0
    while st:
        i, w = st.pop()
        k += 1
        if k > 500:
            return False
        n = cfg.nodes[i]
        if n.k == 'ret':
            e = n.e
            e = e.get('e') if isinstance(e, dict) and e.get('k') == 'Return' else e
            if not isinstance(e, dict):
                return False
            if not S.nz(w, e):
                return False
            continue
        for j, a in n.succ:
            x = w.copy()
            try:
                if a is not None and isinstance(a[0], dict):
                    if not S.claim(x, a[0], bool(a[1])):
                        continue
                S.node(x, cfg.nodes[j])
            except Stop:
                return False
            st.append((j, x))
    memo[f.id] = True
    return True


def stays(P, M, f, i, memo={}):
    """The routine may come back without having moved the text cursor it was handed, although there was text left: the fields
    changed on such a way; None when every way moves it (or is not understood)."""
    if (f.id, i) in memo:
        return memo[f.id, i]
    memo[f.id, i] = None
    if f.body is None or i >= len(f.params):
        return None
    cfg = f.cfg()

    class Whole:
        pass
    L = Whole()
    L.f, L.cfg, L.head, L.body = f, cfg, -1, set(range(len(cfg.nodes)))
    S = Spin(P, M, L)
    S.wr = {}
    S.round = False
    d = f.params[i]
    p = ('var', d['d'])
    if not isref(d['t']):
        p = ('deref', p)
    w = Walk()
    for q in (p, ('deref', p)) + ((p[1],) if p[0] == 'deref' else ()):
        t = S.rp(w, q)
        w.said[t[0]] = (True, t[1], t[2])
    was = S.rp(w, p)[0]
    st = [(cfg.entry.i, w, ())]
    k = 0
    while st:
        j, w, tr = st.pop()
        k += 1
        if k > 20000:
            return None
        n = cfg.nodes[j]
        if n.k == 'exit':
            if S.rp(w, p)[0] == was:
                memo[f.id, i] = frozenset(w.mods)
                return memo[f.id, i]
            continue
        if S.ahead(w, p, was):
            continue
        for y, a in n.succ:
            if tr.count(y) > 1:
                continue
            x = w.copy()
            try:
                if not S.ask(x, a):
                    continue
                S.node(x, cfg.nodes[y])
            except Stop:
                continue
            st.append((y, x, tr + (y,)))
    return None
