"""Loops and what makes them end: a quantity the exit condition looks at moves on along every path back to the head."""
from model import *

NARROW = {'unsigned char': 8, 'signed char': 8, 'char': 8, 'short': 16, 'unsigned short': 16}
UNSIGNED = ('unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'size_t', 'uint32', 'uint8', 'uint16')
WIDE = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'size_t')
POPS = ('pop_back', 'pop_front', 'pop', 'erase', 'clear', 'pop_top', 'remove', 'release')
GROWS = ('push_back', 'push_front', 'insert', 'push', 'append', 'add')


def typ(e):
    return (e.get('t') or '').replace('const ', '').replace('&', '').strip()


def reads(e):
    """The places an expression looks at."""
    out = set()
    for x in walk_e(e):
        if x['k'] in ('Ref', 'Mem'):
            if x['k'] == 'Ref' and x.get('dk') in ('fn', 'enum'):
                continue
            p = path(x)
            if p:
                out.add(p)
    return out


def prefix(p, q):
    """q is p or something inside of it."""
    while isinstance(q, tuple):
        if q == p:
            return True
        q = q[1] if len(q) > 1 and q[0] in ('fld', 'deref', 'addr') else None
    return False


class Loop:
    def __init__(self, f, cfg, head, body):
        self.f, self.cfg, self.head, self.body = f, cfg, head, body

    def line(self):
        ls = [self.cfg.nodes[i].line for i in [self.head] + sorted(self.body) if self.cfg.nodes[i].line]
        return ls[0] if ls else self.f.line

    def exits(self):
        for i in sorted(self.body):
            n = self.cfg.nodes[i]
            for j, a in n.succ:
                if j not in self.body:
                    yield n, a
                    break

    def circles(self, cut):
        """A way around the loop that avoids the nodes in cut; None when there is none."""
        if self.head in cut:
            return None
        par = {}
        st = [self.head]
        while st:
            i = st.pop()
            for j, a in self.cfg.nodes[i].succ:
                if j == self.head:
                    pth = [i]
                    while pth[-1] != self.head:
                        pth.append(par[pth[-1]])
                    return [self.cfg.nodes[x] for x in reversed(pth)]
                if j in self.body and j not in cut and j not in par:
                    par[j] = i
                    st.append(j)
        return None


def find(f):
    cfg = f.cfg()
    N = cfg.nodes
    # dominators are not needed: the graphs are reducible, back edges come from a depth-first walk
    color, back = {}, []
    st = [(cfg.entry.i, iter([j for j, _ in cfg.entry.succ]))]
    color[cfg.entry.i] = 1
    while st:
        i, it = st[-1]
        for j in it:
            c = color.get(j)
            if c is None:
                color[j] = 1
                st.append((j, iter([k for k, _ in N[j].succ])))
                break
            if c == 1:
                back.append((i, j))
        else:
            color[i] = 2
            st.pop()
    heads = {}
    for i, h in back:
        heads.setdefault(h, set()).add(i)
    pr = cfg.preds()
    out = []
    for h, ends in sorted(heads.items()):
        body = {h} | ends
        work = [i for i in ends if i != h]
        while work:
            i = work.pop()
            for j, _ in pr[i]:
                if j not in body and j in color:
                    body.add(j)
                    work.append(j)
        out.append(Loop(f, cfg, h, body))
    return out


def const(e):
    e = unwrap(e)
    if e['k'] == 'Int':
        return e['v']
    if e['k'] == 'Un' and e['op'] == '-' and const(e['e']) is not None:
        return -const(e['e'])
    return None


class Moves:
    """What the nodes of a loop do to the places a condition looks at."""

    def __init__(self, P, L, changes=None):
        self.P, self.L = P, L
        self.changes = changes

    def effect(self, n, p):
        """'+', '-', 'next' (moved along a chain or stream), 'pop', 'grow', 'set' or None: what node n does to the place p."""
        if n.k == 'decl':
            return 'set' if p[0] == 'var' and n.e['d'] == p[1] and n.i in self.L.body else None
        if n.k == 'init':
            return None
        if n.k != 'ev':
            return None
        e = n.e
        k = e['k']
        if k == 'Un' and e['op'] in ('++', '--'):
            q = path(e['e'])
            if q == p:
                return '+' if e['op'] == '++' else '-'
            return None
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            q = path(e['L'])
            if q is None or not prefix(q, p):
                return None
            if q != p:
                return 'set'
            if e['op'] in ('+=', '-='):
                c = const(e['R'])
                s = 1 if e['op'] == '+=' else -1
                if c is not None:
                    return None if c == 0 else '+' if c * s > 0 else '-'
                return ('+' if s > 0 else '-') + '?'
            if e['op'] == '/=' and (const(e['R']) or 0) >= 2 or e['op'] == '>>=' and (const(e['R']) or 0) >= 1:
                return '/'
            if e['op'] != '=':
                return 'set'
            return self.assigned(e['R'], p)
        if k in ('Call', 'Ctor'):
            return self.called(e, p)
        return None

    def assigned(self, R, p):
        u = unwrap(R)
        if u['k'] == 'Bin' and u['op'] in ('+', '-'):
            l, r = unwrap(u['L']), unwrap(u['R'])
            for a, b in ((l, r), (r, l)):
                if path(a) == p and (a is l or u['op'] == '+'):
                    c = const(b)
                    s = 1 if u['op'] == '+' else -1
                    if c is not None:
                        return None if c == 0 else '+' if c * s > 0 else '-'
                    return ('+' if s > 0 else '-') + '?'
        if u['k'] == 'Bin' and u['op'] in ('/', '>>') and path(u['L']) == p and (const(u['R']) or 0) >= 1:
            return '/'
        if path(u) == p:
            return None
        # moved along: computed from itself through a member, an element or a call
        if any(path(x) == p for x in walk_e(u) if x['k'] in ('Ref', 'Mem')) and u['k'] in ('Mem', 'Call', 'Idx', 'Un', 'Cond'):
            return 'next'
        if u['k'] == 'Call':
            return 'drawn:' + (callee_n(u) or '?')
        return 'set'

    def called(self, e, p):
        o = e.get('obj')
        n = callee_n(e)
        op = e.get('op')
        if o is not None:
            q = path(o)
            if q is not None and q == p:
                if op in ('++', '--') or n in ('operator++', 'operator--'):
                    return '+' if '++' in (op or n) else '-'
                if op in ('+=', '-='):
                    return op[0]
                if op == '=':
                    return self.assigned(e['args'][0], p) if e.get('args') else 'set'
                if op:
                    return None
                if n in POPS:
                    return 'pop'
                if n in GROWS:
                    return 'grow'
                if n in ('resize',):
                    return 'set'
                if not (e.get('cal') or {}).get('k') and not self.pure(e):
                    return 'call'
            elif q is not None and prefix(q, p) and not (e.get('cal') or {}).get('k') and not op:
                return self.through(e, q, p)
        ps = (e.get('cal') or {}).get('p') or ()
        for i, a in enumerate(e.get('args', ()) or ()):
            if not isinstance(a, dict):
                continue
            u = unwrap(a)
            t = str(ps[i]) if i < len(ps) else ''
            q = path(u['e']) if u['k'] == 'Un' and u['op'] == '&' else path(u) if t.rstrip().endswith('&') and not t.startswith('const ') else None
            if q is not None and prefix(q, p):
                if n in ('swap', 'push_back', 'insert', 'find', 'contains', 'erase', 'max', 'min'):
                    continue
                return self.byref(e, i, p if q == p else None)
        return None

    def pure(self, e):
        """Members of the list templates that only look."""
        return callee_n(e) in ('begin', 'end', 'size', 'empty', 'back', 'front', 'at', 'find', 'c_str', 'length', 'data', 'rbegin', 'rend', 'contains', 'count', 'reserve', 'top') or callee_n(e).startswith('Get')

    def through(self, e, q, p):
        """A member function of the object the place is in: does it set the place?"""
        for t in self.P.targets(e):
            if t.body is None:
                continue
            if p[0] == 'fld' and any(x['k'] == 'Mem' and x.get('n') == p[2] for x in t.exprs()):
                for x in t.exprs():
                    w = x['L'] if x['k'] == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') else x['e'] if x['k'] == 'Un' and x['op'] in ('++', '--') else None
                    if w is not None and unwrap(w)['k'] == 'Mem' and unwrap(w)['n'] == p[2]:
                        return 'call'
        return None

    def byref(self, e, i, p):
        """A routine is handed the place to change: does it always move on?"""
        if p is None:
            return 'set'
        rs = set()
        for t in self.P.targets(e) if e['k'] == 'Call' else ():
            if t.body is None or i >= len(t.params):
                return 'set'
            rs.add(advance(self.P, t, i))
        if len(rs) == 1:
            r = rs.pop()
            return r
        return 'set'


def advance(P, t, i, memo={}):
    """What a routine does to the text cursor (or count) it is handed by reference: moves it on along every path, may leave it, or sets it."""
    k = t.id, i
    if k in memo:
        return memo[k]
    memo[k] = 'set'
    p = ('var', t.params[i]['d'])
    if not t.params[i]['t'].rstrip().endswith('&'):
        p = ('deref', p)
    cfg = t.cfg()
    L = Loop(t, cfg, -1, set(range(len(cfg.nodes))))
    M = Moves(P, L)
    eff = {n.i: M.effect(n, p) for n in cfg.nodes}
    kinds = {v for v in eff.values() if v}
    if not kinds:
        memo[k] = None
    elif kinds <= {'+', '+~'}:
        cut = {i for i, v in eff.items() if v == '+'}
        seen, st = {cfg.entry.i}, [cfg.entry.i]
        while st:
            a = st.pop()
            for b, _ in cfg.nodes[a].succ:
                if b not in seen and b not in cut:
                    seen.add(b)
                    st.append(b)
        memo[k] = '+~' if cfg.exit.i in seen else '+'
    else:
        memo[k] = 'set'
    return memo[k]


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
UP = {None, '+', '+~', '+?', 'next', 'grow'}
DOWN = {None, '-', '-~', '-?', '/', 'pop'}


def atom(e, stay):
    """(operator, left, right) that keeps the loop going; ('?', e, None) when it is not a comparison."""
    e0 = e
    while e['k'] == 'Cast' or e['k'] == 'Un' and e['op'] == '!':
        if e['k'] == 'Un':
            stay = not stay
        e = e['e']
    op, l, r = None, None, None
    if e['k'] == 'Bin' and e['op'] in NEG:
        op, l, r = e['op'], e['L'], e['R']
    elif e['k'] == 'Call' and e.get('op') in NEG:
        a = ([e['obj']] if e.get('obj') is not None else []) + list(e.get('args', ()) or ())
        if len(a) == 2:
            op, l, r = e['op'], a[0], a[1]
    if op is None:
        return ('?' if stay else '!?'), e, None
    return (op if stay else NEG[op]), l, r


class Judge:
    """Decides one loop."""

    def __init__(self, P, L):
        self.P, self.L = P, L
        self.M = Moves(P, L)
        self.eff = {}
        self.bodies = [L.cfg.nodes[i] for i in sorted(L.body)]

    def effects(self, p):
        if p not in self.eff:
            d = {}
            for n in self.bodies:
                x = self.M.effect(n, p)
                if x:
                    d[n.i] = x
            self.eff[p] = d
        return self.eff[p]

    def kinds(self, p):
        return set(self.effects(p).values())

    def conds(self):
        for n, a in self.L.exits():
            if n.k != 'br':
                continue
            # the arm that stays
            for j, asm in n.succ:
                if j in self.L.body and isinstance(asm, tuple):
                    yield n, atom(asm[0], bool(asm[1]))

    def verdict(self):
        """None when something moves on along every way around; otherwise why not."""
        if self.L.circles(set()) is None:
            return None
        cands = {}
        flaws = []
        for n, (op, l, r) in self.conds():
            for key, prog, flaw in self.measures(op, l, r):
                if flaw:
                    continue
                c, q = cands.setdefault(key, (set(), set()))
                c.add(n.i)
                q |= prog
        best = None
        for key, (c, q) in cands.items():
            w1 = self.L.circles(q)
            w2 = self.L.circles(c)
            if w1 is None and w2 is None:
                self.how = key
                return None
            w = w1 or w2
            if q and best is None:
                best = (w, 'does not move on' if w1 else 'is not asked about', key)
        # several measures together: every way around moves one of them and asks about it
        if best is None:
            return None, flaws[0] if flaws else 'nothing the exit conditions look at moves on', None
        return best

    def flaws(self):
        """What is wrong with the counts the exits look at, when no other exit is there to end the loop."""
        ex = [n.i for n, a in self.L.exits()]
        out = []
        for n, (op, l, r) in self.conds():
            if len(set(ex)) == 1:
                for key, prog, flaw in self.measures(op, l, r):
                    if flaw:
                        out.append(flaw)
        return out + self.halves()

    def halves(self):
        """Searches by halves: what is kept of the interval is smaller than it was."""
        out = []
        mids = {}
        for n in self.L.cfg.nodes:
            if n.k == 'ev' and n.e['k'] == 'Bin' and n.e['op'] == '=':
                m, R = path(n.e['L']), n.e['R']
            elif n.k == 'decl' and isinstance(n.e.get('init'), dict):
                m, R = ('var', n.e['d']), n.e['init']
            else:
                continue
            if n.i not in self.L.body or m is None:
                continue
            if any(x['k'] == 'Bin' and (x['op'] == '/' and const(x['R']) == 2 or x['op'] == '>>' and const(x['R']) == 1 or x['op'] == '/' and unwrap(x['R'])['k'] == 'Flt' or x['op'] == '*' and 'Flt' in (unwrap(x['R'])['k'], unwrap(x['L'])['k'])) for x in walk_e(R)):
                ps = self.places(R) - {m}
                if len(ps) == 2:
                    mids[m] = (ps, 'float' in typ(unwrap(R)) or 'double' in typ(unwrap(R)))
        for m, (ps, fl) in mids.items():
            sets = {}
            for n in self.bodies:
                if n.k == 'ev' and n.e['k'] == 'Bin' and n.e['op'] == '=' and path(n.e['L']) in ps and any(path(x) == m for x in walk_e(n.e['R']) if x['k'] in ('Ref', 'Mem')):
                    u = unwrap(n.e['R'])
                    d = 0
                    if u['k'] == 'Bin' and u['op'] in ('+', '-') and const(u['R']) is not None:
                        d = const(u['R']) * (1 if u['op'] == '+' else -1)
                    elif path(u) != m:
                        d = None
                    sets.setdefault(path(n.e['L']), []).append((d, n))
            if len(sets) != 2 or any(d is None for v in sets.values() for d, _ in v):
                continue
            if any(self.effects(p).keys() - {n.i for _, n in sets[p]} for p in sets):
                continue
            # the exit that asks how far apart the two ends are
            gap, asked = None, set()
            for n, (op, l, r) in self.conds():
                both = self.places(l) | (self.places(r) if isinstance(r, dict) else set())
                if m in both:
                    asked |= ps & both
                if ps <= both:
                    gap = max(gap if gap is not None else -1, self.gap(op, l, r, ps))
            lo, hi = self.ends(ps)
            if gap is None and asked == ps:
                continue
            if gap is None:
                n = sorted(n.line for v in sets.values() for _, n in v)[0]
                out.append('it searches by halves (line %d) and no exit asks how far apart the ends are' % n)
                continue
            if fl or lo is None:
                continue
            for p in ps:
                for d, n in sets[p]:
                    if p == lo and d <= 0 and gap < 2:
                        out.append('line %d keeps the lower half from its middle on, which is the same when one element is left' % n.line)
                    if p == hi and d >= 0 and gap < 1:
                        out.append('line %d keeps the middle as the upper end, which is the same when one element is left' % n.line)
        return out

    def gap(self, op, l, r, ps):
        """How far apart the ends are at the least while the loop goes on."""
        if op in ('?', '!?'):
            return 2
        a, b = unwrap(l), unwrap(r)
        if path(a) in ps and path(b) in ps:
            return 1 if op in ('<', '>', '!=') else 0
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))):
            if x['k'] in ('Bin', 'Call') and x.get('op') == '-' and const(y) is not None:
                c = const(y)
                return c + 1 if o == '>' else c if o == '>=' else 2 if o != '!=' else 1
        return 2

    def ends(self, ps):
        """Which of the two places is the lower end, from the exit condition."""
        for n, (op, l, r) in self.conds():
            if not isinstance(r, dict):
                continue
            a, b = unwrap(l), unwrap(r)
            if op in ('>', '>='):
                op, a, b = {'>': '<', '>=': '<='}[op], b, a
            if op in ('<', '<=') and path(a) in ps and path(b) in ps:
                return path(a), path(b)
            if op in ('<', '<='):
                for x in (b, a):
                    if x['k'] == 'Bin' and x['op'] == '-':
                        h, l2 = path(x['L']), path(x['R'])
                    elif x['k'] == 'Call' and x.get('op') == '-':
                        z = ([x['obj']] if x.get('obj') is not None else []) + list(x.get('args', ()) or ())
                        h, l2 = path(z[0]), path(z[1]) if len(z) > 1 else None
                    else:
                        continue
                    if h in ps and l2 in ps:
                        return l2, h
        return None, None

    def bounded(self, e, lim):
        """The loop is only entered when what is counted up to was found to be small."""
        cfg = self.L.cfg
        t = show(unwrap(e))
        for n in cfg.nodes:
            if n.k != 'br' or n.i in self.L.body:
                continue
            for j, a in n.succ:
                if a is None or not isinstance(a[0], dict):
                    continue
                op, l, r = atom(a[0], bool(a[1]))
                if not isinstance(r, dict):
                    continue
                for x, y, o in ((l, r, op), (r, l, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))):
                    c = const(y)
                    if c is not None and show(unwrap(x)) == t and o in ('==', '<', '<=') and c <= lim and self.only(n.i, j):
                        return True
        return False

    def only(self, i, j):
        cfg = self.L.cfg
        seen, st = {cfg.entry.i}, [cfg.entry.i]
        while st:
            x = st.pop()
            for y, _ in cfg.nodes[x].succ:
                if (x, y) == (i, j) or y in seen:
                    continue
                if y == self.L.head:
                    return False
                seen.add(y)
                st.append(y)
        return True

    def places(self, e):
        return {p for p in reads(e) if p[0] != 'this'}

    def up(self, ps):
        k = set()
        pr = set()
        for p in ps:
            for i, x in self.effects(p).items():
                k.add(x)
                if x in ('+', 'next', 'grow') or x.startswith('drawn'):
                    pr.add(i)
        return k, pr

    def down(self, ps):
        k, pr = set(), set()
        for p in ps:
            for i, x in self.effects(p).items():
                k.add(x)
                if x in ('-', '/', 'pop', 'next') or x.startswith('drawn'):
                    pr.add(i)
        return k, pr

    def measures(self, op, l, r):
        if op in ('?', '!?'):
            # a truth value: of a pointer walked along a chain, of a counter counted down, of a list emptied, of a character read on
            for p in sorted(self.places(l), key=str):
                k = self.kinds(p)
                if not k:
                    continue
                ks = {x for x in k if not x.startswith('drawn')}
                if ks <= {'next', '+', '+~'}:
                    yield ('along', p), self.up([p])[1], None
                elif ks <= DOWN | {'next'}:
                    yield ('down', p), self.down([p])[1], None
                elif ks <= {'pop', 'grow', 'next', 'call'} and 'pop' in ks:
                    yield ('worklist', p), {i for i, x in self.effects(p).items() if x == 'pop'}, None
            return
        L, R = self.places(l), self.places(r)
        if op in ('==', '!='):
            for X, Y, e, o in ((L, R, l, r), (R, L, r, l)):
                for p in sorted(X, key=str):
                    k = self.kinds(p)
                    if not k:
                        continue
                    ks = {x for x in k if not x.startswith('drawn')}
                    moved = {x for q in Y for x in self.kinds(q)} if not (X & Y) else set()
                    if ks <= {'next', '+', '+~'}:
                        if op == '!=' and moved & {'+', 'grow'} and not (moved & {'pop'}):
                            if self.always(Y):
                                yield None, None, 'what it counts up to grows as well'
                            continue
                        yield ('to', p), self.up([p])[1], None
                    elif ks <= DOWN | {'next'}:
                        yield ('down', p), self.down([p])[1], None
                    elif ks <= {'pop', 'grow', 'next', 'call'} and 'pop' in ks:
                        yield ('worklist', p), {i for i, x in self.effects(p).items() if x == 'pop'}, None
            return
        if op in ('>', '>='):
            op, l, r, L, R = {'>': '<', '>=': '<='}[op], r, l, R, L
        # stays while l < r: l goes up, or r goes down
        kl, pl = self.up(L)
        kr, pr = self.down(R)
        kl = {x for x in kl if not x.startswith('drawn')}
        kr = {x for x in kr if not x.startswith('drawn')}
        if not kl and not kr:
            return
        if kr & {'-', '-~', '/', 'pop', '-?'} and not kl:
            c = const(l)
            if op == '<=' and c is not None and c <= 0 and self.unsigned(r):
                yield None, None, 'an unsigned count never goes below zero'
                return
            if op == '<' and c is not None and c < 0 and self.unsigned(r):
                yield None, None, 'an unsigned count never goes below zero'
                return
        if kl <= UP and kr <= DOWN | {'next'} and (pl or pr):
            nl, nr = self.width(l), self.width(r)
            if pl and nl and nr and nl < nr and const(r) is None and not self.bounded(r, 2 ** nl - 1):
                yield None, None, 'a count of %d bits is compared with one of %d' % (nl, nr)
                return
            yield ('between', tuple(sorted(map(str, L | R)))), pl | pr, None
        elif kl & {'pop', '-'} and not kl & {'+', '+~', 'set', 'call'} and 'grow' in kl | kr or kr & {'grow', '+'}:
            pass
        if kl <= UP and pl and kr & {'grow', '+'} and not kr & {'pop', '-', 'set', 'call'} and self.always(R):
            yield None, None, 'what it counts up to grows as well'

    def always(self, ps):
        """Every way around adds to it."""
        cut = {i for p in ps for i, x in self.effects(p).items() if x in ('+', 'grow')}
        return bool(cut) and self.L.circles(cut) is None

    def unsigned(self, e):
        u = unwrap(e)
        return typ(u) in UNSIGNED

    def width(self, e):
        """Bits of the counter behind the promotions."""
        u = unwrap(e)
        t = typ(u)
        if t in NARROW:
            return NARROW[t]
        return 32 if t in WIDE else None
