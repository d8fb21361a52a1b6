"""Index bounds by abstract interpretation: linear relations between integer variables and the sizes of lists.

Per function the state is a conjunction of linear integer constraints (lib/poly.py) over
  - the integer locals and parameters,
  - the size of every list named by an access path (locals, fields, elements, through simple getters),
  - a lower bound of the sizes of the elements of a list of lists,
  - canonical non-linear terms (product, quotient, remainder, sign-changing cast) with their axioms.
An access list[i] is proven when 0 <= i and i < size follow from the state that reaches it on every path."""
import re
from model import *
import poly

INT = re.compile(r'^(const |volatile )*(unsigned |signed )?(char|short|int|long|long long|bool|unsigned|signed|__int128|size_t)( int)?( const)?$')
UNS = re.compile(r'^(const |volatile )*(unsigned|bool|size_t)')
ARR = re.compile(r'\[(\d+)\]$')
NEVER = 1 << 62


def is_int(t):
    t = (t or '').replace(' &', '').strip()
    return bool(INT.match(t))


def is_uns(t):
    return bool(UNS.match((t or '').strip()))


def isref(t):
    return (t or '').rstrip().endswith('&')


def isptr(t):
    return (t or '').replace('const', '').rstrip(' &').endswith('*')


def constref(t):
    t = (t or '').strip()
    return t.startswith('const ') and not t.rstrip('&* ').endswith('*')


class Bounds:
    def __init__(self, P):
        self.P = P
        self.syms, self.names = {}, [None]
        self.nonneg, self.ment, self.ax = set(), {}, {}
        self.ecache, self.vecs = {}, {}
        self.memo, self.sums, self.busy = {}, {}, set()
        self._mods = None
        self.recursive, self.approx = set(), {}
        self.inv, self.inside, self.hyp = {}, None, None
        self.kt = {}

    # ---- types
    def vec(self, t):
        t = bare(t or '')
        r = self.vecs.get(t)
        if r is None:
            q = t.rstrip('*& ').strip()
            q = q[6:] if q.startswith('const ') else q
            r = not self.string(q) and (q.startswith(('fm::vector<', 'fm::pvector<')) or (q in self.P.cls and any(b.startswith(('fm::vector<', 'fm::pvector<')) for b in self.P.ancestors(q))))
            self.vecs[t] = r
        return r

    def string(self, q):
        return q.startswith('fm::stringT<') or (q in self.P.cls and any(b.startswith('fm::stringT<') for b in self.P.ancestors(q)))

    def pvec(self, t):
        q = bare(t or '').rstrip('*& ').strip()
        return q.startswith('fm::pvector<') or (q in self.P.cls and any(b.startswith('fm::pvector<') for b in self.P.ancestors(q)))

    # ---- symbols
    def sym(self, s, nonneg=False):
        i = self.syms.get(s)
        if i is None:
            i = len(self.names)
            self.names.append(s)
            self.syms[s] = i
            self.ment[i] = frozenset(self.mentions(s))
            if s[0] in ('sz', 'min'):
                nonneg = True
        if nonneg:
            self.nonneg.add(i)
        return i

    def mentions(self, s):
        """Everything a symbol depends on: ('v', fn, id), ('f', field name), other symbols (integers)."""
        out = set()

        def lin(t):
            for x, _ in t:
                if x:
                    out.add(x)
                    out.update(self.ment[x])

        def key(k):
            if k[0] in ('var', 'this', 'tmp'):
                out.add(k)
            elif k[0] == 'fld':
                out.add(('f', k[2], k[3]))
                key(k[1])
            elif k[0] == 'el':
                out.add(('el', k[1]))
                key(k[1])
                lin(k[2])
            elif k[0] == 'get':
                key(k[1])
                out.add(('get',))
                for l in k[3:]:
                    lin(l)
            elif k[0] == 'glob':
                out.add(k)
        if s[0] in ('sz', 'min', 'hp'):
            key(s[1])
            if s[0] == 'min':
                out.add(('el', s[1]))
        elif s[0] in ('mul', 'div', 'mod', 'cast'):
            for t in s[1:]:
                if isinstance(t, tuple):
                    lin(t)
        elif s[0] == 'v':
            out.add(('var', s[1], s[2]))
        return out

    @staticmethod
    def tup(l):
        return tuple(sorted(l.items()))

    def axioms(self, i):
        """Facts that hold of a derived symbol in every state."""
        s = self.names[i]
        k = s[0]
        out = []
        if k == 'sz' and s[1][0] == 'fld' and s[1][3] != self.inside:
            for b in self.inv.get(s[1][2:], ()):
                j = self.sym(('sz', s[1][:2] + b))
                out += [{i: 1, j: -1}, {i: -1, j: 1}]
        if k == 'sz' and s[1][0] == 'el':
            m = self.sym(('min', s[1][1]))
            out.append(({i: 1, m: -1}))
        elif k == 'div':
            n, c = dict(s[1]), s[2]
            if s[3]:
                out.append(poly.add(n, {i: 1}, -c))
                out.append(poly.add({i: c, 0: c - 1}, n, -1))
                out.append({i: 1})
        elif k == 'mod':
            out.append({i: 1})
            if s[3] is not None:
                out.append(poly.add(poly.add(dict(s[3]), {i: 1}, -1), {0: -1}))
            out.append(poly.add(dict(s[1]), {i: 1}, -1))
        return out

    def close(self, cons, want):
        """Adds the axioms of the derived symbols that matter and the signs."""
        out, seen = poly.relevant(cons, want)
        done = set()
        todo = list(seen)
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            if i in self.nonneg:
                out.add((((i, 1),), 0))
            for a in self.axioms(i):
                c = poly.con(a)
                if isinstance(c, tuple) and c not in out:
                    out.add(c)
                    new = [s for s, _ in c[0] if s not in done]
                    if new:
                        o2, s2 = poly.relevant(cons, new)
                        out |= o2
                        todo += [s for s in s2 if s not in done] + new
        muls = [i for i in done if self.names[i][0] == 'mul']
        if len(muls) > 1:
            for a in muls:
                for b in muls:
                    if a == b:
                        continue
                    for (fa, sa), (fb, sb) in [((self.names[a][1], self.names[a][2]), (self.names[b][1], self.names[b][2])), ((self.names[a][1], self.names[a][2]), (self.names[b][2], self.names[b][1])),
                                               ((self.names[a][2], self.names[a][1]), (self.names[b][1], self.names[b][2])), ((self.names[a][2], self.names[a][1]), (self.names[b][2], self.names[b][1]))]:
                        if sa == sb and fa != fb:
                            d = poly.add(dict(fb), dict(fa), -1)
                            s = dict(sa)
                            base = [c for c in out if not any(self.names[x][0] == 'mul' for x, _ in c[0])]
                            if poly.infeasible(base + [poly.neg((self.cc(s)[0], self.cc(s)[1] + 1))] if isinstance(self.cc(s), tuple) else base):
                                if self.raw(base, poly.add(d, {0: -1})):
                                    c = poly.con(poly.add(poly.add({b: 1}, {a: 1}, -1), s, -1))
                                elif self.raw(base, d):
                                    c = poly.con(poly.add({b: 1}, {a: 1}, -1))
                                else:
                                    continue
                                if isinstance(c, tuple):
                                    out.add(c)
        return out

    @staticmethod
    def cc(l):
        return poly.con(l)

    def raw(self, cons, l):
        c = poly.con(poly.add(poly.scale(l, -1), {0: -1}))
        if c is False:
            return True
        if c is True:
            return poly.infeasible(list(cons))
        return poly.infeasible(list(cons) + [c])

    def entails(self, S, l):
        c = poly.con(l)
        if c is True:
            return True
        if c is not False:
            if c in S:
                return True
            if all(v > 0 and s in self.nonneg for s, v in c[0]) and c[1] >= 0:
                return True
        sl = self.close(S, [s for s in l if s])
        key = (frozenset(sl), c)
        r = self.ecache.get(key)
        if r is None:
            r = self.raw(sl, l)
            self.ecache[key] = r
        return r

    # ---- state operations
    def assume(self, S, l):
        if S is None:
            return None
        c = poly.con(l)
        if c is True:
            return S
        if c is False:
            return None
        if c in S:
            return S
        if self.entails(S, poly.add(poly.scale(l, -1), {0: -1})):
            return None
        return self.tidy(S | {c})

    def tidy(self, S):
        p = poly.prune(S)
        return None if p is None else frozenset(p)

    def forget(self, S, x):
        if S is None:
            return None
        if not any(s == x for c in S for s, _ in c[0]):
            return S
        extra = []
        if x in self.nonneg:
            extra.append((((x, 1),), 0))
        touched = [c for c in S if any(s == x for s, _ in c[0])]
        rest = [c for c in S if not any(s == x for s, _ in c[0])]
        for a in self.axioms(x):
            c = poly.con(a)
            if isinstance(c, tuple):
                extra.append(c)
        r = poly.eliminate(touched + extra, x)
        if r is None:
            return None
        r = [c for c in r if not (len(c[0]) == 1 and c[0][0][1] > 0 and c[1] >= 0 and c[0][0][0] in self.nonneg)]
        p = poly.prune(rest + r)
        return None if p is None else frozenset(p)

    def kill(self, S, what, but=()):
        """Forgets every symbol that depends on `what`."""
        if S is None:
            return None
        dead = {s for c in S for s, _ in c[0] if what in self.ment[s] and s not in but}
        for x in sorted(dead):
            S = self.forget(S, x)
            if S is None:
                return None
        return S

    def set(self, S, x, l, what=None):
        """x := l  (l is evaluated before the assignment; None = unknown)."""
        if S is None:
            return None
        if what is None and self.names[x][0] == 'v':
            what = ('var', self.names[x][1], self.names[x][2])
        if l is not None and l.get(x):
            # x := c*x + rest : through a temporary
            t = self.sym(('tmp', 't'))
            S = self.forget(S, t)
            S = S | self.eq({t: 1}, l)
            S = self.forget(S, x)
            if what:
                S = self.kill(S, what, (x,))
            if S is None:
                return None
            S = S | self.eq({x: 1}, {t: 1})
            S = self.tidy(S)
            return self.forget(S, t)
        dep = l is not None and what is not None and any(s and (s != x) and what in self.ment[s] for s in l)
        if dep:
            t = self.sym(('tmp', 't'))
            S = S | self.eq({t: 1}, l)
            l = {t: 1}
        S = self.forget(S, x)
        if what:
            S = self.kill(S, what, (x,))
        if S is None:
            return None
        if l is not None:
            S = self.tidy(S | self.eq({x: 1}, l))
        if dep:
            S = self.forget(S, t)
        return S

    @staticmethod
    def eq(a, b):
        c = poly.con(poly.add(a, b, -1))
        return {c, poly.neg(c)} if isinstance(c, tuple) else set()

    def within(self, S):
        """The symbols S speaks of, directly or through a symbol derived from them."""
        out = {s for c in S for s, _ in c[0]}
        for s in list(out):
            out.update(m for m in self.ment[s] or () if isinstance(m, int))
        return out

    def zeros(self, S):
        """S with the sign of the symbols it says are at most zero spelt out, so that they count as equalities."""
        more = {(((x, 1),), 0) for it, k in S if k == 0 and len(it) == 1 for x, v in it if v == -1 and x in self.nonneg}
        return S | more if more else S

    def ordered(self, A, B, out):
        """At a loop head: x <= y for a counter that starts from a constant, where both states have it."""
        za = self.zeros(A)
        have = {it: k for it, k in za}
        for it, k in za:
            if len(it) != 1 or it[0][1] != 1 or self.names[it[0][0]][0] not in ('v', 'sz'):
                continue
            x = it[0][0]
            if have.get(((x, -1),)) != -k or (it, k) in B and (((x, -1),), -k) in B:
                continue
            for y in sorted({s for c in B for s, _ in c[0]} | {s for c in A for s, _ in c[0]}):
                if y == x or self.names[y][0] not in ('v', 'sz'):
                    continue
                f = {y: 1, x: -1}
                c = poly.con(f)
                if c not in out and self.entails(A, f) and self.entails(B, f):
                    out.add(c)

    def join(self, A, B, widen=False, head=False):
        if A is None:
            return B
        if B is None:
            return A
        if A == B:
            return A
        out = set(A & B)
        for c in A - out:
            if self.entails(B, poly.form(c)):
                out.add(c)
        if not widen:
            for c in B - A:
                if self.entails(A, poly.form(c)):
                    out.add(c)
            out.update(poly.hull_equalities(self.zeros(A), self.zeros(B)))
            if head:
                self.ordered(A, B, out)
        p = poly.prune(out)
        return frozenset(p) if p is not None else frozenset()

    # ---- which fields a call may modify (by field name, over the whole call graph)
    def mods(self):
        if self._mods is not None:
            return self._mods
        P = self.P
        direct, edges = {}, {}
        for f in P.fns.values():
            d, ed = set(), set()
            for e in (f.exprs() if f.body is not None or f.r.get('inits') else ()):
                k = e['k']
                if k == 'Bin' and (e['op'] == '=' or (e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='))):
                    d |= self.lastfields(e['L'])
                elif k == 'Un' and e['op'] in ('++', '--', '&'):
                    d |= self.lastfields(e['e'])
                elif k in ('Call', 'Ctor'):
                    cal = e.get('cal') or {}
                    o = e.get('obj')
                    if isinstance(o, dict) and not cal.get('k') and not e.get('a') and self.vec(o.get('t')) and callee_n(e) not in ('begin', 'end', 'at', 'operator[]', 'front', 'back', 'find', 'size', 'empty') and e.get('op') != '[]':
                        d |= self.lastfields(o)
                    for a, t in zip(e.get('args', ()), cal.get('p') or ()):
                        if isinstance(a, dict) and (isref(t) or isptr(t)) and not constref(t):
                            d |= self.lastfields(a)
                    if k == 'Call':
                        for g in P.targets(e):
                            ed.add(g.id)
                    elif cal.get('id'):
                        ed.add(cal['id'])
            direct[f.id], edges[f.id] = d, ed
        rev = {}
        for a, s in edges.items():
            for b in s:
                rev.setdefault(b, set()).add(a)
        tot = {i: set(d) for i, d in direct.items()}
        todo = [i for i in tot if tot[i]]
        while todo:
            i = todo.pop()
            for a in rev.get(i, ()):
                if a in tot and not tot[i] <= tot[a]:
                    tot[a] |= tot[i]
                    todo.append(a)
        self._mods = {i: frozenset(s) for i, s in tot.items()}
        self.direct_mods = direct
        return self._mods

    def lastfields(self, e, depth=0):
        e = unwrap(e)
        if not isinstance(e, dict) or depth > 3:
            return set()
        if e['k'] == 'Mem' and e.get('dk') == 'field':
            return {(e['n'], e.get('c'))}
        if e['k'] == 'Un' and e['op'] in ('*', '&'):
            return self.lastfields(e['e'], depth)
        if e['k'] == 'Cond':
            return self.lastfields(e['T'], depth) | self.lastfields(e['F'], depth)
        if e['k'] == 'Call' and (isref(self.rett(e)) or isptr(e.get('t'))):
            out = set()
            for g in self.P.targets(e):
                if g.body is None or len(g.body.get('s', ())) > 3:
                    continue
                for s in walk_s(g.body):
                    if s['k'] == 'Return' and isinstance(s.get('e'), dict):
                        out |= self.lastfields(s['e'], depth + 1)
            return out
        return set()

    def rett(self, e):
        g = self.P.direct(e)
        return (g.r.get('ret') or '') if g else ''

    # ---- lists of one object that always have the same number of elements
    def invariants(self, classes=None):
        """Infers the pairs of list fields of a class whose sizes stay equal: at the end of every constructor, and kept by
        every function that changes either of them (all of which must be members of the class or of its descendants)."""
        P = self.P
        self.inv_log = []
        for q, c in sorted(P.cls.items()):
            fs = [f['n'] for f in c.fields if self.vec(f['t']) and f.get('n') and '*' not in bare(f['t'])]
            if len(fs) < 2 or (classes and q not in classes) or q.startswith(('fm::', 'std::')):
                continue
            writers = [P.fns[i] for i, m in self.mods().items() if any((n, q) in self.direct_mods[i] for n in fs)]
            if any(not w.cls or not (w.cls == q or P.derives(w.cls, q)) for w in writers):
                continue
            ctors = [f for f in P.fns.values() if f.cls == q and f.kind == 'ctor' and not f.r.get('implicit')]
            if not ctors:
                continue
            todo = [f for f in writers if f.kind not in ('ctor', 'dtor') and f.body is not None]
            if any(e['k'] == 'Call' and e.get('obj') is not None and unwrap(e['obj'])['k'] == 'Mem' and unwrap(e['obj'])['n'] in fs and unwrap(e['obj']).get('c') == q and unwrap(unwrap(e['obj'])['b'])['k'] != 'This'
                   and not (e.get('cal') or {}).get('k') and e.get('op') != '[]' and callee_n(e) not in ('at', 'begin', 'end', 'front', 'back', 'find') for w in writers for e in w.exprs()):
                continue
            pairs = [(a, b) for i, a in enumerate(fs) for b in fs[i + 1:]]
            keep = []
            for a, b in pairs:
                self.hyp = ((a, q), (b, q))
                self.inside = q
                ok = True
                for f in ctors + todo:
                    this = ('this', f.id)
                    x = self.sym(('sz', ('fld', this, a, q)))
                    y = self.sym(('sz', ('fld', this, b, q)))
                    ent = frozenset(self.eq({x: 1}, {} if f.kind == 'ctor' else {y: 1}) | (self.eq({y: 1}, {}) if f.kind == 'ctor' else set()))
                    try:
                        r = Run(self, f, ent)
                    except Exception:
                        ok = False
                        break
                    s = r.exit
                    if s is not None and not (self.entails(s, {x: 1, y: -1}) and self.entails(s, {x: -1, y: 1})):
                        ok = False
                        self.inv_log.append((q, a, b, f.q))
                        break
                self.hyp = None
                self.inside = None
                if ok:
                    keep.append((a, b))
            for a, b in keep:
                self.inv.setdefault((a, q), set()).add((b, q))
                self.inv.setdefault((b, q), set()).add((a, q))
        self.ecache.clear()
        self.memo.clear()
        self.sums.clear()
        return self.inv

    # ---- per function entry points
    def run(self, fn, entry=None, want=()):
        k = (fn.id, entry)
        r = self.memo.get(k)
        if r is None or (want and any(w not in r.states for w in want)):
            r = Run(self, fn, entry, want)
            self.memo[k] = r
        return r

    def summary(self, fn):
        """Constraints at the exit of fn over its list parameters (sizes now and at entry), integer parameters and result."""
        if fn.id in self.sums:
            return self.sums[fn.id]
        if fn.id in self.busy:
            # a recursive call: the result found so far (nothing returns at first)
            self.recursive.add(fn.id)
            return self.approx.get(fn.id, (None, None))
        if fn.body is None or len(self.busy) > 6:
            return None
        self.busy.add(fn.id)
        s, r = None, None
        for turn in range(6):
            self.recursive.discard(fn.id)
            try:
                r = Run(self, fn, None, (), ghosts=True)
                s = r.exit
                if s is not None:
                    keep = set(r.iface)
                    for x in sorted({x for c in s for x, _ in c[0]} - keep):
                        s = self.forget(s, x)
                        if s is None:
                            break
            except RecursionError:
                s, r = frozenset(), None
                break
            if fn.id not in self.recursive:
                break
            old = self.approx.get(fn.id, (None, None))[0]
            if old is not None:
                s = self.join(old, s, widen=True)
            if turn and s == old:
                break
            self.approx[fn.id] = (s, r)
        else:
            s, r = frozenset(), r
        self.busy.discard(fn.id)
        if fn.id in self.approx and self.busy & self.recursive:
            # found while another recursion was still open: not final
            self.approx.pop(fn.id)
            return (s, r)
        self.sums[fn.id] = (s, r)
        return self.sums[fn.id]


# operations that mean the same on every list class
LISTOPS = ('push_back', 'push_front', 'pop_back', 'resize', 'clear', 'reserve', 'insert', 'erase', 'size', 'empty', 'at', 'front', 'back', 'begin', 'end')


class Run:
    def __init__(self, B, fn, entry=None, want=(), ghosts=False):
        self.B, self.P, self.fn, self.F = B, B.P, fn, fn.id
        self.obl = {}          # id(e) -> (e, label, ok, text)
        self.states = {}
        self.want = set(want)
        self.alias, self.elemref, self.keytype, self.arrlen = {}, {}, {}, {}
        self.links = {}
        self.ghosts = ghosts
        self.iface = set()
        self.exit = None
        self.subst = {}
        self.prepare()
        for p in fn.params:
            if B.vec(p['t']):
                self.size(('var', self.F, p['d']), p['t'])
        S = entry if entry is not None else frozenset()
        if ghosts:
            S = set(S)
            for p in fn.params:
                if self.B.vec(p['t']) and (isref(p['t']) or isptr(p['t'])):
                    a = B.sym(('sz', ('var', self.F, p['d'])))
                    g = B.sym(('sz', ('ghost', self.F, p['d'])))
                    S |= B.eq({a: 1}, {g: 1})
                    self.iface |= {a, g}
                elif is_int(p['t']):
                    a = B.sym(('v', self.F, p['d']), is_uns(p['t']))
                    if p['d'] not in self.assigned:
                        self.iface.add(a)
            self.ret = B.sym(('ret', self.F), is_uns(fn.r.get('ret')))
            if is_int(fn.r.get('ret')):
                self.iface.add(self.ret)
            S = frozenset(S)
        self.solve(S)

    # ---- preparation: aliases, address-taken, loops over elements
    def prepare(self):
        fn = self.fn
        self.assigned, self.types = set(), {}
        for p in fn.params:
            self.types[p['d']] = p['t']
        decls = {}
        for s in walk_s(fn.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    self.types[d.get('d')] = d.get('t')
                    decls[d.get('d')] = d
            for cv in (s.get('cv'),):
                if isinstance(cv, dict):
                    self.types[cv.get('d')] = cv.get('t')
        escaped = set()
        for e in fn.exprs():
            if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                l = unwrap(e['L'])
                if l['k'] == 'Ref' and 'd' in l:
                    self.assigned.add(l['d'])
                # addresses of elements stored in another list
                r = unwrap(e['R'])
                if isinstance(r, dict) and r['k'] == 'Un' and r['op'] == '&':
                    a, b = self.rootvar(l), self.rootvar(r['e'])
                    if a is not None and b is not None and a != b:
                        self.links.setdefault(a, set()).add(b)
            elif e['k'] == 'Un' and e['op'] in ('++', '--'):
                l = unwrap(e['e'])
                if l['k'] == 'Ref' and 'd' in l:
                    self.assigned.add(l['d'])
            elif e['k'] == 'Un' and e['op'] == '&':
                l = unwrap(e['e'])
                if l['k'] == 'Ref' and 'd' in l:
                    escaped.add(l['d'])
                    self.assigned.add(l['d'])
            elif e['k'] in ('Call', 'Ctor'):
                cal = e.get('cal') or {}
                for a, t in zip(e.get('args', ()), cal.get('p') or ()):
                    if isref(t) and not constref(t):
                        l = unwrap(a)
                        if isinstance(l, dict) and l['k'] == 'Ref' and 'd' in l:
                            self.assigned.add(l['d'])
                if callee_n(e) == 'push_back' and e.get('args'):
                    r = unwrap(e['args'][0])
                    if isinstance(r, dict) and r['k'] == 'Un' and r['op'] == '&' and e.get('obj'):
                        a, b = self.rootvar(e['obj']), self.rootvar(r['e'])
                        if a is not None and b is not None:
                            self.links.setdefault(a, set()).add(b)
        for p in fn.params:
            if p['d'] in self.assigned or p['d'] in escaped:
                pass
        self.escaped = escaped
        # a local reference or never-reassigned pointer designates what it was bound to
        for d, r in decls.items():
            t = r.get('t') or ''
            ini = r.get('init')
            if not isinstance(ini, dict):
                continue
            if isref(t) or (isptr(t) and self.B.vec(t) and d not in self.assigned):
                self.alias[d] = ini
            if ARR.search(t):
                self.arrlen[d] = int(ARR.search(t).group(1))
            x = unwrap(ini)
            if isinstance(x, dict) and x['k'] == 'Str' and 'char' in t and '*' in t and d not in self.assigned:
                self.arrlen[d] = len(x['s']) + 1
        for d, r in decls.items():
            m = ARR.search((r.get('t') or '').replace(' const', ''))
            if m:
                self.arrlen[d] = int(m.group(1))
        self.foreach = {}
        for s in walk_s(fn.body):
            if s['k'] in ('For', 'While') and isinstance(s.get('c'), dict):
                fe = self.resize_loop(s)
                if fe:
                    self.foreach[id(fe[0])] = fe[1:]
        # an array obtained from an object: what is known of the object stays of interest
        self.arrays = {d: r['init'] for d, r in decls.items() if isinstance(r.get('init'), dict) and (r.get('t') or '').count('*') == 2}
        # a local flag stands for the condition it was set to, for as long as nothing in the condition changes
        self.boolvars = {}
        for d, r in decls.items():
            if (r.get('t') or '') in ('bool', 'const bool') and isinstance(r.get('init'), dict) and d not in self.assigned:
                free = list(walk_e(r['init']))
                if all(x['k'] in ('Bin', 'Ref', 'Cast', 'Int', 'Un', 'Call', 'Bool', 'Null', 'This', 'Mem') for x in free) and not any(x['k'] == 'Un' and x['op'] in ('++', '--', '&') for x in free) \
                        and not any(x['k'] == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') for x in free) and not any(x['k'] == 'Call' and not self.sizeof(x) for x in free):
                    self.boolvars[d] = r['init']
        # loops of the form while (n-- > 0): the decrement takes effect on the edges
        self.countdown = {}
        for e in fn.exprs():
            self.find_countdown(e)

    def find_countdown(self, e):
        x = unwrap(e) if isinstance(e, dict) else None
        if x is None or x['k'] != 'Bin' or x['op'] not in ('>', '!=', '<'):
            return
        a, b = (x['L'], x['R']) if x['op'] != '<' else (x['R'], x['L'])
        u, z = unwrap(a), unwrap(b)
        if isinstance(u, dict) and u['k'] == 'Un' and u['op'] == '--' and u.get('post') and is_uns(u.get('t')) and isinstance(z, dict) and z['k'] in ('Int', 'Null') and not z.get('v'):
            v = unwrap(u['e'])
            if v['k'] == 'Ref' and v.get('dk') in ('var', 'parm') and v['d'] not in self.alias:
                self.countdown[id(u)] = id(x)
                self.countdown[id(x)] = u

    def token(self, d):
        """The symbol that says, in a state, that the flag still stands for its condition."""
        B = self.B
        y = ('flag', self.F, d)
        if y in B.syms:
            return B.syms[y]
        t = B.sym(y, True)
        m = set()
        for x in walk_e(self.boolvars[d]):
            if x['k'] == 'Ref' and x.get('dk') in ('var', 'parm'):
                m.add(('var', self.F, x['d']))
            elif x['k'] == 'Mem':
                m.add(('f', x['n'], x.get('c')))
            l = self.lin(x, None) if is_int(x.get('t')) or self.sizeof(x) is not None else None
            for s in l or ():
                if s:
                    m.add(s)
                    m |= B.ment[s]
            if x['k'] == 'Call' and self.sizeof(x) is not None:
                kk = self.key(x['obj'], None)
                if kk is None:
                    m = None
                    break
                i = self.size(kk, self.otype(x['obj']))
                m |= {i} | B.ment[i]
        B.ment[t] = frozenset(m) if m is not None else None
        return t

    def rootvar(self, e):
        e = unwrap(e)
        while isinstance(e, dict):
            if e['k'] == 'Ref':
                return e.get('d')
            if e['k'] == 'Call' and (e.get('op') == '[]' or callee_n(e) in ('at', 'front', 'back')):
                e = unwrap(e.get('obj'))
            elif e['k'] == 'Idx':
                e = unwrap(e['b'])
            elif e['k'] == 'Un':
                e = unwrap(e['e'])
            else:
                return None
        return None

    def resize_loop(self, s):
        """A loop over every element of a list whose body resizes the element: (leaf condition, list, new size, exact index bound or None)."""
        body = s.get('b')
        sts = body['s'] if isinstance(body, dict) and body['k'] == 'Block' else [body]
        for x in (walk_s(body) if body else ()):
            if x['k'] in ('Break', 'Continue', 'Goto'):
                return None
        c = unwrap(s['c'])
        for st in sts:
            if not isinstance(st, dict) or st['k'] != 'Expr':
                continue
            e = unwrap(st['e'])
            if not (isinstance(e, dict) and e['k'] == 'Call' and callee_n(e) == 'resize' and e.get('args')):
                continue
            o = unwrap(e.get('obj'))
            while isinstance(o, dict) and ((o['k'] == 'Un' and o['op'] == '*') or (o['k'] == 'Call' and o.get('op') in ('*', '->'))):
                o = unwrap(o.get('e') or o.get('obj') or o['args'][0])
            if not isinstance(o, dict):
                continue
            if o['k'] == 'Ref' and c['k'] in ('Bin', 'Call'):
                # iterator form: it = K.begin(); it != K.end()
                ends = [x for x in walk_e(c) if x['k'] == 'Call' and callee_n(x) == 'end']
                if not ends:
                    # the end may be kept in a variable declared with the loop
                    for x in walk_e(c):
                        if x['k'] == 'Ref' and x.get('d') != o.get('d'):
                            for d in self.decl_inits(x.get('d')):
                                ends += [y for y in walk_e(d) if y['k'] == 'Call' and callee_n(y) == 'end']
                begins = [y for d in self.decl_inits(o.get('d')) for y in walk_e(d) if y['k'] == 'Call' and callee_n(y) == 'begin']
                if len(ends) == 1 and len(begins) == 1 and show(ends[0].get('obj')) == show(begins[0].get('obj')):
                    return (s['c'], ends[0].get('obj'), e['args'][0], None)
            if o['k'] == 'Call' and (o.get('op') == '[]' or callee_n(o) == 'at') and c['k'] == 'Bin' and c['op'] in ('<', '!='):
                i = unwrap(o['args'][0])
                l = unwrap(c['L'])
                zero = any(unwrap(d).get('v') == 0 for d in self.decl_inits(i.get('d')) if isinstance(unwrap(d), dict)) if i['k'] == 'Ref' else False
                if i['k'] == 'Ref' and l['k'] == 'Ref' and i.get('d') == l.get('d') and zero:
                    return (s['c'], o.get('obj'), e['args'][0], c['R'])
        return None

    def decl_inits(self, d):
        out = []
        for s in walk_s(self.fn.body):
            if s['k'] == 'Decl':
                for x in s['d']:
                    if x.get('d') == d and isinstance(x.get('init'), dict):
                        out.append(x['init'])
        return out

    # ---- keys
    def key(self, e, S=None, depth=0):
        B = self.B
        e = unwrap(e)
        if not isinstance(e, dict) or depth > 8:
            return None
        k = e['k']
        if k == 'This':
            return self.subst.get('this', ('this', self.F))
        if k == 'Ref':
            if e.get('dk') in ('var', 'parm'):
                d = e['d']
                if d in self.subst:
                    return self.subst[d]
                if d in self.alias:
                    a = unwrap(self.alias[d])
                    kk = None if (a['k'] == 'Call' and (a.get('op') == '[]' or callee_n(a) in ('at', 'front', 'back'))) else self.key(a, S, depth + 1)
                    if kk is not None and kk[0] != 'el':
                        return kk
                return ('var', self.F, d)
            if e.get('dk') == 'glob':
                return ('glob', e['q'])
            return None
        if k == 'Mem':
            if e.get('dk') == 'field':
                b = self.key(e['b'], S, depth + 1)
                return ('fld', b, e['n'], e.get('c')) if b else None
            if e.get('dk') == 'glob':
                return ('glob', e['q'])
            return None
        if k == 'Un' and e['op'] in ('*', '&'):
            return self.key(e['e'], S, depth + 1)
        if k == 'Idx':
            b = self.key(e['b'], S, depth + 1)
            i = self.lin(e['i'], S)
            return ('el', b, B.tup(i)) if b and i is not None else None
        if k == 'Call':
            if e.get('op') in ('->', '*') or callee_n(e).startswith('operator '):
                return self.key(e.get('obj') or (e['args'][0] if e.get('args') else None), S, depth + 1)
            if (e.get('op') == '[]' or callee_n(e) == 'at') and e.get('obj') and e.get('args'):
                if not B.vec(self.otype(e['obj'])):
                    return None
                b = self.key(e['obj'], S, depth + 1)
                i = self.lin(e['args'][0], S)
                return ('el', b, B.tup(i)) if b and i is not None else None
            if e.get('obj') is not None and not [a for a in e.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]:
                b = self.key(e['obj'], S, depth + 1)
                if b is None:
                    return None
                r = self.getter(e)
                if r is not None:
                    old = self.subst
                    self.subst = {'this': b}
                    try:
                        return self.key(r, S, depth + 1)
                    finally:
                        self.subst = old
                if (e.get('cal') or {}).get('k'):
                    return ('get', b, callee_q(e))
            elif e.get('obj') is not None and not e.get('op'):
                # the same constant member function of the same object with the same integers
                b = self.key(e['obj'], S, depth + 1)
                ts = self.P.targets(e) if b is not None else []
                if ts and all(t.const or self.twin(t) for t in ts) and all(is_int(a.get('t')) for a in e['args']):
                    ls = [self.lin(a, S) for a in e['args']]
                    if None not in ls:
                        return ('get', b, callee_q(e)) + tuple(B.tup(l) for l in ls)
        return None

    def twin(self, t):
        """The function has a constant overload of the same name: it hands out the same thing."""
        return any(g.const and len(g.params) == len(t.params) for g in self.P.byq.get(t.q, ()))

    def getter(self, e):
        """The expression a call without arguments returns, when its body is just that."""
        ts = self.P.targets(e)
        if len(ts) != 1:
            return None
        g = ts[0]
        if g.body is None or g.params:
            return None
        ss = [s for s in g.body.get('s', ())]
        if len(ss) == 1 and ss[0]['k'] == 'Return' and isinstance(ss[0].get('e'), dict):
            return ss[0]['e']
        return None

    def otype(self, o):
        o2 = o
        while isinstance(o2, dict) and o2['k'] == 'Cast' and o2.get('ck') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'LValueToRValue'):
            if self.B.vec(o2['e'].get('t')):
                o2 = o2['e']
            else:
                break
        return o2.get('t') if isinstance(o2, dict) else None

    def sizeof(self, e):
        """The list whose size a call asks for (size() / empty())."""
        if isinstance(e, dict) and e['k'] == 'Call' and callee_n(e) in ('size', 'empty') and e.get('obj') is not None and self.B.vec(self.otype(e['obj'])):
            return e['obj']
        return None

    # ---- linear value of an integer expression (None = not an integer)
    def opaque(self, e):
        t = e.get('t')
        if not is_int(t):
            return None
        return {self.B.sym(('ex', self.F, id(e)), is_uns(t)): 1}

    def lin(self, e, S, depth=0):
        B = self.B
        if not isinstance(e, dict) or depth > 12:
            return None
        k = e['k']
        if k in ('Int', 'Bool', 'Char') and e.get('v') is not None:
            return poly.lin(int(e['v']))
        if k == 'Ref' and e.get('dk') == 'enum' and e.get('v') is not None:
            return poly.lin(int(e['v']))
        if k == 'Sizeof':
            return poly.lin(int(e['v'])) if e.get('v') is not None else self.opaque(e)
        if k == 'Cast':
            ck = e.get('ck')
            l = self.lin(e['e'], S, depth + 1)
            if l is None:
                return self.opaque(e) if is_int(e.get('t')) else None
            if ck in ('IntegralCast',) and is_uns(e.get('t')) and not is_uns(e['e'].get('t')):
                if set(l) <= {0}:
                    v = l.get(0, 0)
                    if v >= 0:
                        return poly.lin(v)
                if S is not None and B.entails(S, l):
                    return l
                return {B.sym(('cast', B.tup(l)), True): 1}
            if not is_int(e.get('t')):
                return None
            return l
        if k == 'Ref' and e.get('dk') in ('var', 'parm'):
            if self.subst:
                if e['d'] in self.subst:
                    return None
            t = e.get('t')
            if not is_int(t):
                return None
            if e['d'] in self.alias:
                return self.lin(self.alias[e['d']], S, depth + 1)
            return {B.sym(('v', self.F, e['d']), is_uns(t)): 1}
        if k == 'Ref' and e.get('v') is not None and is_int(e.get('t')):
            return poly.lin(int(e['v']))
        if k == 'Ref' and e.get('dk') == 'glob' and is_int(e.get('t')):
            return {B.sym(('hp', ('glob', e['q'])), is_uns(e.get('t'))): 1}
        if k == 'Mem' and is_int(e.get('t')):
            kk = self.key(e, S)
            return {B.sym(('hp', kk), is_uns(e.get('t'))): 1} if kk else self.opaque(e)
        if k == 'Bin' and is_int(e.get('t')):
            op = e['op']
            if op == ',':
                return self.lin(e['R'], S, depth + 1)
            if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
                return self.lin(e['L'], S, depth + 1)
            if op in ('+', '-', '*', '/', '%', '>>', '<<', '&'):
                a, b = self.lin(e['L'], S, depth + 1), self.lin(e['R'], S, depth + 1)
                if a is None or b is None:
                    return self.opaque(e)
                return self.arith(op, a, b, e, S)
            return self.opaque(e)
        if k == 'Un':
            if e['op'] == '-' and is_int(e.get('t')) and not is_uns(e.get('t')):
                l = self.lin(e['e'], S, depth + 1)
                return poly.scale(l, -1) if l is not None else None
            if e['op'] == '+':
                return self.lin(e['e'], S, depth + 1)
            if e['op'] in ('++', '--') and is_int(e.get('t')):
                l = self.lin(e['e'], S, depth + 1)
                if l is None:
                    return self.opaque(e)
                if e.get('post'):
                    return poly.add(l, {0: -1 if e['op'] == '++' else 1})
                return l
            if e['op'] == '~' and e.get('v') is not None:
                return poly.lin(int(e['v']))
            if e['op'] == '*' and is_int(e.get('t')):
                return self.opaque(e)
            return self.opaque(e)
        if k == 'Call':
            o = self.sizeof(e)
            if o is not None and callee_n(e) == 'size':
                kk = self.key(o, S)
                if kk is not None:
                    return {self.size(kk, self.otype(o)): 1}
                return self.opaque(e)
            if callee_n(e).startswith('operator ') and e.get('obj') is not None and is_int(e.get('t')):
                kk = self.key(e['obj'], S)
                return {B.sym(('hp', kk), is_uns(e.get('t'))): 1} if kk else self.opaque(e)
            if is_int(e.get('t')) and e.get('obj') is not None and not [a for a in e.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]:
                r = self.getter(e)
                if r is not None:
                    b = self.key(e['obj'], S)
                    if b is not None:
                        old = self.subst
                        self.subst = {'this': b}
                        try:
                            l = self.lin(r, S, depth + 1)
                        finally:
                            self.subst = old
                        if l is not None and not any(s and B.names[s][0] == 'ex' for s in l):
                            return l
                elif (e.get('cal') or {}).get('k'):
                    b = self.key(e['obj'], S)
                    if b is not None and len(self.P.targets(e)) == 1:
                        return {B.sym(('hp', ('get', b, callee_q(e))), is_uns(e.get('t'))): 1}
            return self.opaque(e)
        if is_int(e.get('t')):
            return self.opaque(e)
        return None

    def arith(self, op, a, b, e, S):
        B = self.B
        uns = is_uns(e.get('t'))
        ca = a.get(0, 0) if set(a) <= {0} else None
        cb = b.get(0, 0) if set(b) <= {0} else None
        if op == '+':
            return poly.add(a, b)
        if op == '-':
            r = poly.add(a, b, -1)
            if not uns:
                return r
            if S is not None and B.entails(S, r):
                return r
            return {B.sym(('cast', B.tup(r)), True): 1}
        if op == '<<' and cb is not None and 0 <= cb < 32:
            return poly.scale(a, 1 << cb)
        if op == '>>' and cb is not None and 0 <= cb < 32:
            op, cb = '/', 1 << cb
            b = {0: cb}
        if op == '*':
            if cb is not None:
                return poly.scale(a, cb)
            if ca is not None:
                return poly.scale(b, ca)
            x, y = sorted((B.tup(a), B.tup(b)))
            nn = uns or (S is not None and B.entails(S, a) and B.entails(S, b))
            return {B.sym(('mul', x, y), nn): 1}
        if op == '/':
            if cb is not None and cb > 0:
                if ca is not None:
                    return poly.lin(ca // cb if ca >= 0 else -((-ca) // cb))
                nn = uns or (S is not None and B.entails(S, a))
                return {B.sym(('div', B.tup(a), cb, nn), nn): 1}
            return self.opaque(e)
        if op == '%':
            nn = uns or (S is not None and B.entails(S, a))
            if nn and (uns or cb is not None and cb > 0):
                return {B.sym(('mod', B.tup(a), e.get('op'), B.tup(b)), True): 1}
            return self.opaque(e)
        if op == '&':
            m = cb if cb is not None else ca
            if m is not None and m >= 0:
                l = self.opaque(e)
                B.nonneg.add(next(iter(l)))
                return l
            return self.opaque(e)
        return self.opaque(e)

    def size(self, key, t=None):
        i = self.B.sym(('sz', key))
        if t:
            self.B.kt.setdefault(key, bare(t).replace('const ', '').rstrip('*& '))
        return i

    # ---- assumptions
    def assume(self, S, e, pol):
        B = self.B
        if S is None:
            return None
        e = unwrap(e)
        if not isinstance(e, dict):
            return S
        k = e['k']
        if k == 'Un' and e['op'] == '!':
            return self.assume(S, e['e'], not pol)
        if k == 'Bin' and e['op'] in ('&&', '||'):
            if (e['op'] == '&&') == pol:
                return self.assume(self.assume(S, e['L'], pol), e['R'], pol)
            return B.join(self.assume(S, e['L'], pol), self.assume(self.assume(S, e['L'], not pol), e['R'], pol))
        if id(e) in self.countdown and k == 'Bin':
            u = self.countdown[id(e)]
            v = unwrap(u['e'])
            x = B.sym(('v', self.F, v['d']), True)
            if pol:
                S = B.assume(S, {x: 1, 0: -1})
                return B.set(S, x, {x: 1, 0: -1})
            return B.set(S, x, None)
        if k == 'Bin' and e['op'] in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.lin(e['L'], S), self.lin(e['R'], S)
            if a is None or b is None:
                return S
            op = e['op']
            if not pol:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
            d = poly.add(b, a, -1)
            if op == '<':
                return B.assume(S, poly.add(d, {0: -1}))
            if op == '<=':
                return B.assume(S, d)
            if op == '>':
                return B.assume(S, poly.add(poly.scale(d, -1), {0: -1}))
            if op == '>=':
                return B.assume(S, poly.scale(d, -1))
            if op == '==':
                return B.assume(B.assume(S, d), poly.scale(d, -1))
            return self.differ(S, d)
        if k == 'Call' and callee_n(e) == 'empty' and self.sizeof(e) is not None:
            kk = self.key(e['obj'], S)
            if kk is None:
                return S
            x = self.size(kk, self.otype(e['obj']))
            return B.assume(S, {x: -1}) if pol else B.assume(S, {x: 1, 0: -1})
        if k == 'Call' and e.get('obj') is not None and not e.get('args'):
            r = self.getter(e)
            if r is not None and (e.get('t') or '') == 'bool':
                b = self.key(e['obj'], S)
                if b is not None:
                    old = self.subst
                    self.subst = {'this': b}
                    try:
                        return self.assume(S, r, pol)
                    finally:
                        self.subst = old
        if k == 'Ref' and e.get('d') in self.boolvars and not self.subst:
            t = self.token(e['d'])
            if B.ment[t] is not None and (((t, 1),), -1) in S:
                return self.assume(S, self.boolvars[e['d']], pol)
            return S
        if k == 'Bool':
            return S if bool(e.get('v')) == pol else None
        if is_int(e.get('t')) and (e.get('t') or '') != 'bool':
            l = self.lin(e, S)
            if l is None:
                return S
            if pol:
                return self.differ(S, l)
            return B.assume(B.assume(S, l), poly.scale(l, -1))
        return S

    def differ(self, S, d):
        B = self.B
        if B.entails(S, d):
            return B.assume(S, poly.add(d, {0: -1}))
        n = poly.scale(d, -1)
        if B.entails(S, n):
            return B.assume(S, poly.add(n, {0: -1}))
        return S

    # ---- transfer of one CFG node
    def step(self, n, S):
        if S is None:
            return None
        B = self.B
        if n.k == 'decl':
            return self.decl(n.e, S)
        if n.k == 'ret':
            if self.ghosts and isinstance(n.e, dict) and is_int(self.fn.r.get('ret')):
                l = self.lin(n.e, S)
                if l is not None:
                    S = B.set(S, self.ret, l)
            return S
        if n.k != 'ev':
            return S
        e = n.e
        k = e['k']
        if k in ('Ref', 'This', 'Mem', 'Cast', 'List'):
            return S
        if id(e) in self.want:
            o = self.states.get(id(e), 0)
            self.states[id(e)] = S if o == 0 else B.join(o, S)
        x = B.syms.get(('ex', self.F, id(e)))
        if x is not None:
            S = B.forget(S, x)
        if k == 'Cond':
            l = self.opaque(e)
            if l is None:
                return S
            x = next(iter(l))
            A = self.assume(S, e['c'], True)
            C = self.assume(S, e['c'], False)
            if A is not None:
                la = self.lin(e['T'], A)
                A = B.set(A, x, la) if la is not None else A
            if C is not None:
                lc = self.lin(e['F'], C)
                C = B.set(C, x, lc) if lc is not None else C
            # both arms bound the result by each other where the condition compares them
            return self.condjoin(A, C, x, e)
        if k == 'Idx':
            self.oblige_array(e, S)
            return S
        if k == 'Bin':
            if e['op'] == '=' or (e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=')):
                return self.assign(e, S)
            return S
        if k == 'Un':
            if e['op'] in ('++', '--'):
                t = unwrap(e['e'])
                if id(e) in self.countdown:
                    return S
                if is_int(t.get('t')):
                    l = self.lin(t, S)
                    return self.store(t, poly.add(l, {0: 1 if e['op'] == '++' else -1}) if l is not None else None, S)
                return self.moved(t, S)
            return S
        if k in ('Call', 'Ctor'):
            return self.call(e, S)
        return S

    def condjoin(self, A, C, x, e):
        B = self.B
        J = B.join(A, C)
        if J is None or A is None or C is None:
            return J
        add = set()
        for s, c in ((A, e['T']), (C, e['F'])):
            l = self.lin(c, s)
            if l is None:
                continue
            for sg in (1, -1):
                f = poly.add({x: sg}, l, -sg)
                if B.entails(A, f) and B.entails(C, f):
                    c2 = poly.con(f)
                    if isinstance(c2, tuple):
                        add.add(c2)
        return B.tidy(J | add) if add else J

    def moved(self, t, S):
        """A pointer or iterator variable now designates something else."""
        t = unwrap(t)
        if t['k'] == 'Ref' and 'd' in t:
            return self.B.kill(S, ('var', self.F, t['d']))
        if t['k'] == 'Mem':
            return self.B.kill(S, ('f', t['n'], t.get('c')))
        return S

    def store(self, t, l, S):
        """Integer assignment to the lvalue t."""
        B = self.B
        t = unwrap(t)
        if t['k'] == 'Ref' and t.get('dk') in ('var', 'parm'):
            if t['d'] in self.alias:
                return self.store(self.alias[t['d']], l, S)
            return B.set(S, B.sym(('v', self.F, t['d']), is_uns(t.get('t'))), self.clip(l, t, S))
        if t['k'] == 'Mem':
            kk = self.key(t, S)
            x = B.sym(('hp', kk), is_uns(t.get('t'))) if kk else None
            tmp = B.sym(('tmp', 'h'))
            l = self.clip(l, t, S)
            if l is not None:
                S = B.tidy(S | B.eq({tmp: 1}, l))
            S = B.kill(S, ('f', t['n'], t.get('c')))
            if x is not None and l is not None and S is not None:
                S = B.tidy(S | B.eq({x: 1}, {tmp: 1}))
            return B.forget(S, tmp)
        if t['k'] == 'Ref' and t.get('dk') == 'glob':
            return B.kill(S, ('glob', t['q']))
        return S

    def clip(self, l, t, S):
        """What an integer variable holds after receiving l: a possibly negative value wraps in an unsigned one."""
        if l is None or not is_uns(t.get('t')):
            return l
        if all(c > 0 and (s == 0 or s in self.B.nonneg) for s, c in l.items()):
            return l
        if self.B.entails(S, l):
            return l
        return None

    def decl(self, d, S):
        B = self.B
        v, t, ini = d.get('d'), d.get('t') or '', d.get('init')
        if v is None:
            return S
        if v in self.boolvars:
            k = self.token(v)
            if B.ment[k] is None or S is None:
                return S
            return B.tidy(B.kill(S, ('var', self.F, v)) | {(((k, 1),), -1)})
        if is_int(t) and not isref(t):
            l = self.lin(ini, S) if isinstance(ini, dict) else None
            return B.set(S, B.sym(('v', self.F, v), is_uns(t)), self.clip(l, d, S))
        root = ('var', self.F, v)
        if isref(t) or isptr(t):
            a = unwrap(ini) if isinstance(ini, dict) else None
            kk = self.key(ini, S) if isinstance(ini, dict) else None
            S = B.kill(S, root)
            if S is not None and kk is not None and kk != root and B.vec(t) and not is_int(t):
                tt = bare(t)
                x, y = self.size(root, tt), self.size(kk, tt)
                self.elemref[v] = kk[1] if kk[0] == 'el' else None
                S = B.tidy(S | B.eq({x: 1}, {y: 1}))
                if S is not None and kk[0] == 'el':
                    m = B.sym(('min', kk[1]))
                    S = B.tidy(S | {poly.con({x: 1, m: -1})})
                # lower bound on the elements of the list the name designates
            return S
        if B.vec(t):
            l = None
            src = None
            if isinstance(ini, dict):
                i = unwrap(ini)
                if i['k'] == 'Ctor':
                    a = [x for x in i.get('args', ()) if isinstance(x, dict) and not x.get('dflt')]
                    if not a:
                        l = {}
                    elif is_int(a[0].get('t')) or is_int((i.get('cal', {}).get('p') or [''])[0]):
                        l = self.lin(a[0], S)
                    elif B.vec(a[0].get('t')):
                        src = a[0]
                else:
                    src = i
            else:
                l = {}
            return self.resized(root, t, l, S, src=src, fresh=True)
        if isinstance(ini, dict) and ARR.search(t):
            return S
        return B.kill(S, root)

    def resized(self, key, t, l, S, src=None, fresh=False, keep=False, min_keep=False):
        """The list `key` now has l elements (None = unknown)."""
        B = self.B
        if src is not None:
            k2 = self.key(src, S)
            l = {self.size(k2, t): 1} if k2 else None
        x = self.size(key, t)
        tmp = B.sym(('tmp', 's'), True)
        if l is not None:
            S = B.tidy(S | B.eq({tmp: 1}, l))
        tmpm = None
        if src is not None and k2 is not None:
            tmpm = B.sym(('tmp', 'm'), True)
            S = B.tidy(S | B.eq({tmpm: 1}, {B.sym(('min', k2)): 1})) if S is not None else None
        m = B.sym(('min', key))
        saved = None
        if min_keep and S is not None:
            saved = B.sym(('tmp', 'k'), True)
            S = B.tidy(S | B.eq({saved: 1}, {m: 1}))
        # everything that may name the same list
        for y in self.aliases(key, t, S):
            S = B.kill(B.forget(S, y), y)
        S = B.kill(B.forget(S, x), x)
        if not keep:
            S = B.kill(S, ('el', key))
        if S is None:
            return None
        if l is not None:
            S = B.tidy(S | B.eq({x: 1}, {tmp: 1}))
            S = B.forget(S, tmp)
        if tmpm is not None and S is not None:
            S = B.tidy(S | B.eq({m: 1}, {tmpm: 1}))
            S = B.forget(S, tmpm)
        if saved is not None and S is not None:
            S = B.forget(S, m)
            S = B.tidy(S | B.eq({m: 1}, {saved: 1}))
            S = B.forget(S, saved)
        # an element of a list of lists
        el = key[1] if key[0] == 'el' else self.elemref.get(key[2]) if key[0] == 'var' else None
        if el is not None and S is not None and not keep:
            S = B.forget(S, B.sym(('min', el)))
        return S

    def aliases(self, key, t, S):
        """The size symbols in S that may speak of the same list under another name."""
        B = self.B
        out = []
        if S is None:
            return out
        mine = (bare(t or '') or B.kt.get(key, '')).replace('const ', '').rstrip('*& ')
        local = self.islocal(key)
        for i in B.within(S):
            n = B.names[i]
            if n[0] != 'sz' or n[1] == key or n[1][0] == 'ghost':
                continue
            o = n[1]
            if o[0] == 'el' and key[0] == 'el' and o[1] == key[1]:
                out.append(i)
                continue
            if self.elemof(o) is not None and self.elemof(o) == self.elemof(key):
                out.append(i)
                continue
            if local or self.islocal(o):
                continue
            ot = B.kt.get(o)
            if ot is not None and mine and ot != mine:
                continue
            if o[0] == 'fld' and key[0] == 'fld' and o[2:] != key[2:]:
                continue
            out.append(i)
        return out

    def elemof(self, key):
        if key[0] == 'el':
            return key[1]
        if key[0] == 'var':
            return self.elemref.get(key[2])
        return None

    def islocal(self, key):
        if key[0] == 'var' and key[1] == self.F:
            t = self.types.get(key[2]) or ''
            return not isref(t) and not isptr(t) and key[2] not in self.escaped
        if key[0] == 'fld':
            return self.islocal(key[1])
        return False

    def assign(self, e, S):
        B = self.B
        L, R, op = e['L'], e['R'], e['op']
        t = unwrap(L)
        if is_int(t.get('t')) and not isptr(t.get('t')):
            if op == '=':
                l = self.lin(R, S)
            else:
                a, b = self.lin(t, S), self.lin(R, S)
                o = op[:-1]
                l = None
                if a is not None and b is not None and o in ('+', '-', '*', '/', '%', '<<', '>>'):
                    l = self.arith(o, a, b, {'t': t.get('t'), 'op': o, 'k': 'Bin', 'x': e}, S)
                    if any(s and B.names[s][0] == 'ex' for s in l or ()):
                        l = None
            return self.store(t, l, S)
        if isptr(t.get('t')):
            kk = self.key(R, S)
            S = self.moved(t, S)
            if S is not None and kk is not None and t['k'] == 'Ref' and B.vec(t.get('t')) and t.get('dk') == 'var' and kk[0] != 'get':
                root = ('var', self.F, t['d'])
                if root != kk and not (kk[0] == 'var' and kk == root):
                    self.elemref.setdefault(t['d'], kk[1] if kk[0] == 'el' else None)
            # storing a pointer into a list of lists
            l = unwrap(L)
            if l['k'] == 'Call' and (l.get('op') == '[]' or callee_n(l) == 'at'):
                S = self.stored_element(l, S, R)
            return S
        if B.vec(t.get('t')) and op == '=':
            k = self.key(t, S)
            return self.resized(k, t.get('t'), None, S, src=R) if k else S
        return S

    def stored_element(self, l, S, R):
        B = self.B
        k = self.key(l.get('obj'), S)
        if k is None or S is None:
            return S
        r = unwrap(R)
        S = B.kill(S, ('el', k), (B.sym(('min', k)),))
        if not (isinstance(r, dict) and r['k'] == 'Null'):
            S = B.forget(S, B.sym(('min', k)))
        return S

    # ---- obligations
    def oblige(self, e, size, idx, S, what):
        B = self.B
        if idx is None:
            ok = False
        else:
            ok = B.entails(S, idx) and B.entails(S, poly.add(poly.add(size, idx, -1), {0: -1}))
        old = self.obl.get(id(e))
        self.obl[id(e)] = (e, what, ok and (old is None or old[2] is True))

    def oblige_array(self, e, S):
        b = unwrap(e['b'])
        t = None
        if b['k'] == 'Ref' and b.get('d') in self.arrlen:
            n = self.arrlen[b['d']]
        elif b['k'] == 'Str':
            n = len(b['s']) + 1
        else:
            m = ARR.search((e['b'].get('t') or '').replace(' const', '')) or ARR.search((b.get('t') or '').replace(' const', ''))
            if not m:
                return
            n = int(m.group(1))
        self.oblige(e, {0: n}, self.lin(e['i'], S), S, show(e))

    # ---- calls
    def call(self, e, S):
        B = self.B
        n = callee_n(e)
        o = e.get('obj')
        args = [a for a in e.get('args', ()) if isinstance(a, dict)]
        if o is not None and B.vec(self.otype(o)) and ((callee_q(e) or '').startswith(('fm::vector', 'fm::pvector')) or n in LISTOPS or e.get('op') == '[]'):
            return self.vector(e, n, o, args, S)
        if o is not None and B.vec(self.otype(o)) and not (e.get('cal') or {}).get('k') and e['k'] == 'Call' and e.get('op') not in ('=', '->', '*'):
            S = self.havoc(o, self.otype(o), S)
        if e['k'] == 'Call' and e.get('op') == '=' and o is not None and B.vec(o.get('t')):
            k = self.key(o, S)
            return self.resized(k, o.get('t'), None, S, src=args[0]) if k else S
        if n in ('min', 'max') and len(args) == 2 and is_int(e.get('t')):
            l = self.opaque(e)
            x = next(iter(l))
            a, b = self.lin(args[0], S), self.lin(args[1], S)
            for y in (a, b):
                if y is not None and S is not None:
                    c = poly.con(poly.add(y, l, -1) if n == 'min' else poly.add(l, y, -1))
                    if isinstance(c, tuple):
                        S = S | {c}
            return B.tidy(S)
        return self.invoke(e, o, args, S)

    def invoke(self, e, o, args, S):
        B, P = self.B, self.P
        cal = e.get('cal') or {}
        ps = cal.get('p') or []
        tg = P.targets(e) if e['k'] == 'Call' else ([P.fns[cal['id']]] if cal.get('id') in P.fns else [])
        # fields
        mods = B.mods()
        touched = set()
        for g in tg:
            touched |= mods.get(g.id, frozenset())
        if S is None:
            return None
        fields = {m for c in S for s, _ in c[0] for m in B.ment[s] if isinstance(m, tuple) and m[0] == 'f'} if S else ()
        sm = None
        vecargs = [(a, t, j) for j, (a, t) in enumerate(zip(args, ps)) if (B.vec(t) and (isref(t) or isptr(t)) and not constref(t))]
        wantret = e['k'] == 'Call' and is_int(e.get('t')) and (e.get('t') or '') != 'bool'
        if len(tg) == 1 and tg[0].body is not None and (vecargs or wantret) and (tg[0].file or '').split('/')[0] in ('FColladaPlugins', 'FCollada'):
            sm = B.summary(tg[0])
        pre = None
        rename = {}
        if sm is not None and sm[0] is None:
            return None
        if sm is not None and sm[1] is not None and sm[0]:
            g = tg[0]
            keys = {}
            okk = True
            for j, p in enumerate(g.params):
                if j >= len(args):
                    break
                if B.vec(p['t']) and (isref(p['t']) or isptr(p['t'])):
                    kk = self.key(args[j], S)
                    if kk is not None and kk in [v for v, _ in keys.values()]:
                        okk = False
                    if kk is not None:
                        keys[p['d']] = (kk, p['t'])
                        tmp = B.sym(('tmp', 'g', j), True)
                        S = B.tidy(S | B.eq({tmp: 1}, {self.size(kk, p['t']): 1})) if S is not None else None
                        rename[B.sym(('sz', ('ghost', g.id, p['d'])))] = {tmp: 1}
                        rename[B.sym(('sz', ('var', g.id, p['d'])))] = {self.size(kk, p['t']): 1}
                elif is_int(p['t']):
                    l = self.lin(args[j], S)
                    if l is not None:
                        tmp = B.sym(('tmp', 'i', j), is_uns(p['t']))
                        S = B.tidy(S | B.eq({tmp: 1}, l)) if S is not None else None
                        rename[B.sym(('v', g.id, p['d']))] = {tmp: 1}
            if okk:
                pre = sm[0]
            l = self.opaque(e)
            if l is not None:
                rename[B.sym(('ret', g.id))] = l
        kept = []
        if B.hyp and S is not None and (B.hyp[0] in touched or B.hyp[1] in touched):
            # induction: a call leaves alone the equality it finds
            bases = {B.names[s][1][1] for c in S for s, _ in c[0] if B.names[s][0] == 'sz' and B.names[s][1][0] == 'fld' and B.names[s][1][2:] in B.hyp}
            for b in bases:
                x, y = B.sym(('sz', ('fld', b) + B.hyp[0])), B.sym(('sz', ('fld', b) + B.hyp[1]))
                if B.entails(S, {x: 1, y: -1}) and B.entails(S, {x: -1, y: 1}):
                    kept.append((x, y))
        for m in fields:
            if m[1:] in touched:
                S = B.kill(S, m)
        for x, y in kept:
            if S is not None:
                S = B.tidy(S | B.eq({x: 1}, {y: 1}))
        if touched or not tg:
            S = B.kill(S, ('get',))
        for j, (a, t) in enumerate(zip(args, ps)):
            if not isref(t) and not isptr(t):
                continue
            if constref(t):
                continue
            if B.vec(t):
                S = self.havoc(a, t, S)
            elif is_int(t.replace('*', '').replace('&', '').strip()) or isref(t):
                x = unwrap(a)
                if isinstance(x, dict) and x['k'] == 'Un' and x['op'] == '&':
                    x = unwrap(x['e'])
                if isinstance(x, dict) and x['k'] == 'Ref' and x.get('dk') in ('var', 'parm'):
                    S = B.kill(S, ('var', self.F, x['d']))
                elif isinstance(x, dict) and x['k'] == 'Mem':
                    S = B.kill(S, ('f', x['n'], x.get('c')))
            elif isptr(t):
                x = unwrap(a)
                if isinstance(x, dict) and x['k'] == 'Un' and x['op'] == '&':
                    r = unwrap(x['e'])
                    if isinstance(r, dict) and r['k'] == 'Ref' and r.get('dk') in ('var', 'parm') and is_int(r.get('t')):
                        S = B.kill(S, ('var', self.F, r['d']))
        if pre is not None and S is not None:
            extra = set()
            for c in pre:
                f, ok = {}, True
                for s, v in poly.form(c).items():
                    if s == 0:
                        f = poly.add(f, {0: v})
                    elif s in rename:
                        f = poly.add(f, rename[s], v)
                    else:
                        ok = False
                if ok:
                    c2 = poly.con(f)
                    if isinstance(c2, tuple):
                        extra.add(c2)
                    elif c2 is False:
                        return None
            S = B.tidy(S | extra)
        for s in list(rename.values()):
            for y in s:
                if y and B.names[y][0] == 'tmp':
                    S = B.forget(S, y)
        return S

    def havoc(self, a, t, S):
        """A list was handed to code that may change it."""
        B = self.B
        k = self.key(a, S)
        d = self.rootvar(a)
        if k is None:
            # unknown list: everything of this type that is not a plain local
            return self.weak(t, S)
        S = self.resized(k, t, None, S)
        S = B.kill(S, ('el', k))
        S = B.forget(S, B.sym(('min', k)))
        for r in self.links.get(d, ()):
            rk = ('var', self.F, r)
            S = B.kill(S, ('el', rk))
            S = B.forget(S, B.sym(('min', rk)))
            for y, b in self.elemref.items():
                if b == rk:
                    S = B.kill(S, ('var', self.F, y))
        for y, b in self.elemref.items():
            if b == k:
                S = B.kill(S, ('var', self.F, y))
        return S

    def weak(self, t, S):
        B = self.B
        if S is None:
            return None
        mine = bare(t or '').replace('const ', '').rstrip('*& ')
        for i in sorted(B.within(S)):
            n = B.names[i]
            if n[0] in ('sz', 'min') and n[1][0] != 'ghost' and not self.islocal(n[1]) and B.kt.get(n[1], mine) == mine:
                S = B.kill(B.forget(S, i), i)
                if S is None:
                    return None
        return S

    def vector(self, e, n, o, args, S):
        B = self.B
        t = self.otype(o)
        real = [a for a in args if not a.get('dflt')]
        k = self.key(o, S)
        sz = {self.size(k, t): 1} if k is not None else self.anon(e)
        if e.get('op') == '[]' or n == 'at':
            self.oblige(e, sz, self.lin(real[0], S) if real else None, S, show(e))
            return S
        if n in ('front', 'back'):
            self.oblige(e, sz, {}, S, show(e))
            return S
        if n in ('size', 'empty', 'begin', 'end', 'find', 'contains', 'capacity', 'sort', 'replace') or (e.get('cal') or {}).get('k'):
            return S
        if k is None:
            return self.weak(t, S)
        one = {0: 1}
        if n in ('push_back', 'push_front'):
            pv = self.B.pvec(t)
            null = bool(real) and isinstance(unwrap(real[0]), dict) and (unwrap(real[0])['k'] == 'Null' or unwrap(real[0]).get('v') == 0)
            return self.resized(k, t, poly.add(sz, one), S, keep=n == 'push_back', min_keep=pv and null)
        if n == 'pop_back':
            r = poly.add(sz, {0: -1})
            if B.entails(S, r):
                return self.resized(k, t, r, S, min_keep=True)
            A = self.resized(k, t, r, B.assume(S, r), min_keep=True)
            C = B.assume(S, poly.scale(sz, -1))
            return B.join(A, C)
        if n == 'resize':
            l = self.lin(real[0], S)
            m = self.B.pvec(t) and len(real) == 1
            return self.resized(k, t, l, S, min_keep=m)
        if n == 'clear':
            return self.resized(k, t, {}, S)
        if n == 'reserve':
            l = self.lin(real[0], S) if real else None
            if l is not None and B.entails(S, poly.add(l, sz, -1)):
                return S
            x = B.sym(('tmp', 'r'), True)
            S = B.forget(S, x)
            c = poly.con(poly.add(sz, {x: 1}, -1))
            S = B.tidy(S | {c})
            if l is not None and S is not None:
                S = B.tidy(S | {poly.con(poly.add(l, {x: 1}, -1))} if isinstance(poly.con(poly.add(l, {x: 1}, -1)), tuple) else S)
            S = self.resized(k, t, {x: 1}, S) if S is not None else None
            return B.forget(S, x)
        if n == 'insert':
            if len(real) == 2:
                return self.resized(k, t, poly.add(sz, one), S)
            if len(real) >= 3:
                if is_int(real[1].get('t')):
                    l = self.lin(real[1], S)
                    if l is not None:
                        return self.resized(k, t, poly.add(sz, l), S, keep=False) if not self.elem(k) else self.grown(k, t, poly.add(sz, l), S)
                elif is_int(real[2].get('t')):
                    l = self.lin(real[2], S)
                    if l is not None:
                        return self.resized(k, t, poly.add(sz, l), S)
                x = B.sym(('tmp', 'r'), True)
                S = B.forget(S, x)
                return B.forget(self.resized(k, t, poly.add(sz, {x: 1}), S), x)
            return self.resized(k, t, None, S)
        if n == 'erase':
            if len(real) == 1:
                a = real[0]
                if is_int(a.get('t')) or isptr(a.get('t')) and not B.pvec(t):
                    r = poly.add(sz, {0: -1})
                    if B.entails(S, r):
                        return self.resized(k, t, r, S)
                x = B.sym(('tmp', 'r'), True)
                S = B.forget(S, x)
                S = B.tidy(S | {poly.con(poly.add(sz, {x: 1}, -1)), poly.con(poly.add({x: 1, 0: 1}, sz, -1))})
                return B.forget(self.resized(k, t, {x: 1}, S), x) if S is not None else None
            x = B.sym(('tmp', 'r'), True)
            S = B.forget(S, x)
            S = B.tidy(S | {poly.con(poly.add(sz, {x: 1}, -1))})
            return B.forget(self.resized(k, t, {x: 1}, S), x) if S is not None else None
        if n in ('release', 'operator=') or e.get('op') == '=':
            return self.resized(k, t, None, S, src=real[0] if real and B.vec(real[0].get('t')) else None)
        return self.resized(k, t, None, S)

    def elem(self, k):
        return k[0] == 'el' or (k[0] == 'var' and self.elemref.get(k[2]) is not None)

    def grown(self, k, t, l, S):
        """An element of a list of lists grew: the others and the common lower bound keep what they had."""
        return self.resized(k, t, l, S, keep=True)

    def anon(self, e):
        return {self.B.sym(('ex', self.F, ('size', id(e))), True): 1}

    # ---- fixpoint
    def solve(self, S0):
        B = self.B
        cfg = self.fn.cfg()
        N = cfg.nodes
        order, seen = [], set()
        st = [(cfg.entry.i, iter([t for t, _ in N[cfg.entry.i].succ]))]
        seen.add(cfg.entry.i)
        back = set()
        onst = {cfg.entry.i}
        while st:
            i, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    onst.add(t)
                    st.append((t, iter([x for x, _ in N[t].succ])))
                    break
                if t in onst:
                    back.add((i, t))
            else:
                order.append(i)
                onst.discard(i)
                st.pop()
        order.reverse()
        pos = {i: p for p, i in enumerate(order)}
        heads = {t for _, t in back}
        live = self.liveness(cfg, order)
        preds = cfg.preds()
        out = {}
        visits = {}
        inst = {cfg.entry.i: S0}
        work = {pos[cfg.entry.i]}
        edge = {}
        import heapq
        heap = [pos[cfg.entry.i]]
        inheap = {pos[cfg.entry.i]}
        steps = 0
        while heap:
            p = heapq.heappop(heap)
            inheap.discard(p)
            i = order[p]
            steps += 1
            if steps > 60000:
                raise RuntimeError('no fixpoint for ' + self.fn.q)
            S = inst.get(i)
            if S is None and i != cfg.entry.i:
                continue
            R = self.step(N[i], S)
            out[i] = R
            for t, a in N[i].succ:
                T = R
                if T is not None and a is not None:
                    T = self.edge(T, a)
                if t in heads and T is not None:
                    T = self.shrink(T, live[t])
                edge[(i, t, id(a) if a else 0)] = T
                ps = [edge.get((q, t, id(x) if x else 0), 0) for q, x in preds[t]]
                if t in heads:
                    old = inst.get(t)
                    if old is None:
                        new = T
                    else:
                        v = visits.get(t, 0)
                        new = B.join(old, T, widen=v > 3 and ((i, t) in back or v > 12), head=True) if T is not None else old
                    if old is None and new is None:
                        continue
                    if old is not None and new == old:
                        continue
                    visits[t] = visits.get(t, 0) + 1
                    inst[t] = new
                else:
                    new = None
                    for x in ps:
                        if x == 0 or x is None:
                            continue
                        new = x if new is None else B.join(new, x)
                    if new is None:
                        continue
                    if t in inst and inst[t] == new:
                        continue
                    inst[t] = new
                if pos[t] not in inheap:
                    inheap.add(pos[t])
                    heapq.heappush(heap, pos[t])
        # final pass: obligations with the stable states
        self.obl.clear()
        self.states = {}
        self.final = True
        for i in order:
            if inst.get(i) is not None:
                self.step(N[i], inst[i])
        self.inst = inst
        x = inst.get(cfg.exit.i)
        self.exit = x
        self.reached = sum(1 for i in order if inst.get(i) is not None)

    def edge(self, S, a):
        B = self.B
        if isinstance(a[0], dict):
            T = self.assume(S, a[0], a[1])
            if T is not None and a[1] is False and id(a[0]) in self.foreach:
                kk, size, bound = self.foreach[id(a[0])]
                k = self.key(kk, T)
                l = self.lin(size, T)
                if k is not None and l is not None:
                    if bound is not None:
                        b = self.lin(bound, T)
                        if b is None or not B.entails(T, poly.add(b, {self.size(k, self.otype(kk)): 1}, -1)):
                            return T
                    m = B.sym(('min', k))
                    T = B.forget(T, m)
                    if T is not None and not any(s == m for s in l):
                        c = poly.con(poly.add({m: 1}, l, -1))
                        if isinstance(c, tuple):
                            T = B.tidy(T | {c})
            return T
        if a[0] == 'case':
            l = self.lin(a[1], S)
            if l is not None and a[2] is not None:
                v = poly.lin(int(a[2])) if isinstance(a[2], int) else None
                if v is not None:
                    d = poly.add(l, v, -1)
                    return B.assume(B.assume(S, d), poly.scale(d, -1))
            return S
        if a[0] == 'range-next':
            d = a[1]['var'].get('d')
            return B.kill(S, ('var', self.F, d)) if d is not None else S
        return S

    def shrink(self, S, live):
        """At a loop head: forgets the temporaries and the variables that are not read any more."""
        B = self.B
        for x in sorted({s for c in S for s, _ in c[0]}):
            n = B.names[x]
            dead = n[0] in ('ex', 'tmp')
            if not dead:
                for m in B.ment[x]:
                    if isinstance(m, tuple) and m[0] == 'var' and m[1] == self.F and m[2] not in live:
                        dead = True
            if dead:
                S = B.forget(S, x)
                if S is None:
                    return None
        return S

    def liveness(self, cfg, order):
        use, df = {}, {}
        for n in cfg.nodes:
            u, d = set(), set()
            e = n.e
            if n.k == 'ev' and isinstance(e, dict) and e['k'] == 'Ref' and 'd' in e:
                u.add(e['d'])
            elif n.k == 'decl' and isinstance(e, dict):
                d.add(e.get('d'))
            use[n.i], df[n.i] = u, d
        # what an alias or a reference stands for stays alive with it
        al = {}
        for d, ini in self.alias.items():
            al[d] = {x['d'] for x in walk_e(ini) if x['k'] == 'Ref' and 'd' in x}
        for d, ini in self.arrays.items():
            al[d] = {x['d'] for x in walk_e(ini) if x['k'] == 'Ref' and 'd' in x}
        for d, ini in self.boolvars.items():
            al[d] = {x['d'] for x in walk_e(ini) if x['k'] == 'Ref' and 'd' in x}
        for u in use.values():
            todo = list(u)
            while todo:
                x = todo.pop()
                for y in al.get(x, ()):
                    if y not in u:
                        u.add(y)
                        todo.append(y)
        keep = {p['d'] for p in self.fn.params if isref(p['t']) or isptr(p['t']) or self.ghosts}
        live = {n.i: set() for n in cfg.nodes}
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set(keep)
                for t, _ in cfg.nodes[i].succ:
                    o |= live[t]
                o = (o - df[i]) | use[i]
                if o != live[i]:
                    live[i] = o
                    ch = True
        return live


def reroot(k, frm, to):
    """The access path k with its leading part frm replaced by to; None when it does not start with it."""
    if k == frm:
        return to
    if k[0] == 'fld':
        b = reroot(k[1], frm, to)
        return ('fld', b) + k[2:] if b else None
    if k[0] == 'el':
        b = reroot(k[1], frm, to)
        return ('el', b, k[2]) if b and set(s for s, _ in k[2]) <= {0} else None
    if k[0] == 'get':
        b = reroot(k[1], frm, to)
        return ('get', b) + k[2:] if b and all(set(s for s, _ in l) <= {0} for l in k[3:]) else None
    return None


class Lift:
    """What is known at the calls of a function, for the obligations its own text does not discharge."""
    DEPTH = 3

    def __init__(self, B):
        self.B, self.P = B, B.P
        self.sites = {}
        self.taken = set()
        for f in self.P.fns.values():
            if f.body is None and not f.r.get('inits'):
                continue
            for e in f.exprs():
                if e['k'] == 'Call':
                    ts = self.P.targets(e)
                    for t in ts:
                        self.sites.setdefault(t.id, []).append((f, e))
                elif e['k'] == 'Ctor' and (e.get('cal') or {}).get('id'):
                    self.sites.setdefault(e['cal']['id'], []).append((f, e))
                elif e['k'] == 'Ref' and e.get('dk') == 'fn' and e.get('cal'):
                    self.taken.add(e['cal']['id'])

    def open(self, fn):
        """Whether fn can be called from places this program does not show."""
        return not self.sites.get(fn.id) or fn.r.get('virt') or fn.id in self.taken

    def entries(self, fn, depth=0):
        """The states fn is entered with: [(caller, call, state)], or None when they are not all known."""
        if self.open(fn) or depth >= self.DEPTH:
            return None
        out = []
        for g, e in self.sites[fn.id]:
            if g.id == fn.id:
                return None
            ctx = [None]
            if depth + 1 < self.DEPTH and not self.open(g):
                up = self.entries(g, depth + 1)
                if up is not None:
                    ctx = [s for _, _, s in up]
            for c in ctx:
                r = self.B.run(g, c, (id(e),)) if c is not None else self.B.run(g, None, (id(e),))
                s = r.states.get(id(e), 0)
                if s == 0 or s is None:
                    continue       # never reached
                out.append((g, e, self.project(r, e, s, fn)))
        return out

    def project(self, r, e, S, fn):
        B = self.B
        pairs = []
        args = [a for a in e.get('args', ())]
        if e.get('obj') is not None and not fn.r.get('static'):
            k = r.key(e['obj'], S)
            if k is not None:
                pairs.append((k, ('this', fn.id)))
        for p, a in zip(fn.params, args):
            if not isinstance(a, dict):
                continue
            if is_int(p['t']):
                l = r.lin(a, S)
                if l is not None:
                    S = S | B.eq({B.sym(('v', fn.id, p['d']), is_uns(p['t'])): 1}, l)
            else:
                k = r.key(a, S)
                if k is not None:
                    to = ('var', fn.id, p['d'])
                    pairs.append((k, to))
                    if B.vec(p['t']):
                        S = S | B.eq({B.sym(('sz', to)): 1}, {r.size(k, p['t']): 1})
        S = frozenset(S)
        for i in sorted({s for c in B.close(S, [s for c in S for s, _ in c[0]]) for s, _ in c[0]}):
            n = B.names[i]
            if n[0] in ('sz', 'min', 'hp'):
                for a, b in pairs:
                    k = reroot(n[1], a, b)
                    if k is not None:
                        S = S | B.eq({B.sym((n[0], k), i in B.nonneg): 1}, {i: 1})
        S = frozenset(B.close(frozenset(S), [s for c in S for s, _ in c[0]]))
        S = B.tidy(S)
        for i in sorted({s for c in (S or ()) for s, _ in c[0]}):
            if not self.visible(i, fn):
                S = B.forget(S, i)
                if S is None:
                    return None
        return S

    def visible(self, i, fn):
        m = self.B.ment[i]
        n = self.B.names[i]
        if n[0] in ('ex', 'tmp', 'ret'):
            return False
        roots = [x for x in m if isinstance(x, tuple) and x[0] in ('var', 'this')]
        return all(x[1] == fn.id for x in roots) and not any(self.B.names[x][0] in ('ex', 'tmp', 'ret') for x in m if isinstance(x, int))

    def holds(self, fn, e):
        """True when the obligation at e holds in every known use of fn; otherwise the uses in which it may fail (or None)."""
        es = self.entries(fn)
        if not es and es is not None:
            return True       # never called
        if es is None:
            return None
        bad = []
        for g, c, s in es:
            r = self.B.run(fn, s if s is not None else frozenset())
            o = r.obl.get(id(e))
            if o is None or not o[2]:
                if o is None:
                    continue
                bad.append((g, c))
        return bad or True
