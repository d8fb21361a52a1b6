"""Program model over the extracted facts: functions, classes, hierarchy, call graph, control-flow graphs."""
import re, sys
from collections import defaultdict
import facts
from facts import Broken

sys.setrecursionlimit(20000)

EXPR_KIDS = ('e', 'L', 'R', 'c', 'T', 'F', 'b', 'i', 'n', 'init', 'obj', 'fe', 'args', 'pl')


def kids(e):
    """Sub-expressions of an expression, in evaluation order (approximately)."""
    k = e.get('k')
    out = []
    if k == 'Call':
        for x in ('obj', 'fe'):
            if isinstance(e.get(x), dict):
                out.append(e[x])
        out += [a for a in e.get('args', ()) if isinstance(a, dict)]
        return out
    if k == 'Bin':
        return [x for x in (e['L'], e['R']) if isinstance(x, dict)]
    if k == 'Cond':
        return [x for x in (e['c'], e['T'], e['F']) if isinstance(x, dict)]
    if k == 'Lambda':
        return []
    for x in ('b', 'i', 'obj', 'fe', 'e', 'n', 'init'):
        v = e.get(x)
        if isinstance(v, dict) and 'k' in v:
            out.append(v)
        elif isinstance(v, list):
            out += [y for y in v if isinstance(y, dict) and 'k' in y]
    for x in ('args', 'pl'):
        v = e.get(x)
        if isinstance(v, list):
            out += [y for y in v if isinstance(y, dict)]
    return out


def walk_e(e):
    """Pre-order over an expression tree."""
    if not isinstance(e, dict):
        return
    st = [e]
    while st:
        x = st.pop()
        yield x
        ks = kids(x)
        ks.reverse()
        st.extend(ks)


def stmt_exprs(s):
    """Root expressions directly held by a statement node."""
    out = []
    k = s.get('k')
    if k == 'Decl':
        out += [d['init'] for d in s['d'] if isinstance(d.get('init'), dict)]
    elif k == 'Range':
        out.append(s['r'])
    elif k in ('If', 'While', 'For', 'Do', 'Switch'):
        if isinstance(s.get('cv'), dict) and isinstance(s['cv'].get('init'), dict):
            out.append(s['cv']['init'])
        if isinstance(s.get('c'), dict):
            out.append(s['c'])
        if isinstance(s.get('inc'), dict):
            out.append(s['inc'])
    elif k in ('Return', 'Expr'):
        if isinstance(s.get('e'), dict):
            out.append(s['e'])
    return out


def sub_stmts(s):
    k = s.get('k')
    out = []
    if k == 'Block':
        out += [x for x in s['s'] if isinstance(x, dict)]
    elif k == 'Try':
        out.append(s['b'])
        out += [h['b'] for h in s['h']]
    else:
        for x in ('init', 'T', 'F', 'b', 's'):
            v = s.get(x)
            if isinstance(v, dict) and x in s and not (x == 'init' and 'op' in v):
                out.append(v)
    return [x for x in out if isinstance(x, dict)]


def walk_s(s):
    if not isinstance(s, dict):
        return
    st = [s]
    while st:
        x = st.pop()
        yield x
        ks = sub_stmts(x)
        ks.reverse()
        st.extend(ks)


def walk_all(s, lambdas=True):
    """Every expression below a statement."""
    for x in walk_s(s):
        for e in stmt_exprs(x):
            for y in walk_e(e):
                yield y
                if lambdas and y['k'] == 'Lambda' and isinstance(y.get('body'), dict):
                    yield from walk_all(y['body'])


def bare(t):
    """Type string without const/ref/pointer decorations."""
    t = t.strip()
    while True:
        u = re.sub(r'\b(const|volatile)\b', '', t).strip()
        u = u.rstrip('&* ').strip()
        if u == t:
            return t
        t = u


def is_ptr(t):
    return t.rstrip().endswith('*') or t.rstrip().endswith('*const') or t.rstrip().endswith('* const')


def callee_id(e):
    c = e.get('cal')
    return c.get('id') if c else None


def callee_q(e):
    c = e.get('cal')
    return c.get('q', '') if c else ''


def callee_n(e):
    q = callee_q(e)
    if q.endswith('operator()'):
        return 'operator()'
    i = q.find('::operator ')
    if i >= 0:
        return q[i + 2:]
    # strip template arguments in the class part
    i = q.rfind('::')
    n = q[i + 2:] if i >= 0 else q
    return n


class Fn:
    __slots__ = ('r', 'id', 'q', 'n', 'cls', 'file', 'line', 'params', 'body', 'kind', 'static', 'const', '_exprs', '_cfg')

    def __init__(self, r):
        self.r = r
        self.id = r['id']
        self.q = r['q']
        self.n = r['n']
        self.cls = r.get('cls')
        self.file = r['file']
        self.line = r['l']
        self.params = r['params']
        self.body = r.get('body')
        self.kind = r.get('kind')
        self.static = bool(r.get('static'))
        self.const = bool(r.get('const'))
        self._exprs = None
        self._cfg = None

    def exprs(self):
        if self._exprs is None:
            out = []
            for i in self.r.get('inits', ()):
                if isinstance(i.get('e'), dict):
                    out += list(walk_e(i['e']))
            if self.body:
                out += list(walk_all(self.body))
            self._exprs = out
        return self._exprs

    def calls(self):
        return [e for e in self.exprs() if e['k'] in ('Call', 'Ctor')]

    def loc(self, e=None):
        return '%s:%d' % (self.file, (e.get('l') if e else None) or self.line)

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def __repr__(self):
        return '<Fn %s>' % self.q


class Cls:
    def __init__(self, r):
        self.r = r
        self.q = r['q']
        self.n = r['n']
        self.fields = r['fields']
        self.methods = r['methods']
        self.bases = [b['q'] for b in r['bases']]
        self.file = r['file']
        self.line = r['l']


class Program:
    def __init__(self, repo=None, recs=None):
        whole = recs is None
        recs = facts.extract(repo or facts.REPO) if whole else recs
        self.fns, self.cls, self.enums, self.vars = {}, {}, {}, {}
        self.varsf = {}
        self.units = []
        for r in recs:
            k = r['k']
            if k == 'fn':
                self.fns[r['id']] = Fn(r)
            elif k == 'cls':
                self.cls.setdefault(r['q'], Cls(r))
            elif k == 'enum':
                self.enums.setdefault(r['q'], r)
            elif k == 'var':
                self.vars.setdefault(r['q'], r)
                if isinstance(r.get('init'), dict) or (r['q'], r['file']) not in self.varsf:
                    self.varsf[(r['q'], r['file'])] = r
            elif k == 'units':
                self.units = r['units']
        self.byq = defaultdict(list)
        for f in self.fns.values():
            self.byq[f.q].append(f)
        self.subs = defaultdict(set)
        for c in self.cls.values():
            for b in c.bases:
                self.subs[b].add(c.q)
        self._anc, self._desc = {}, {}
        self.overriders = defaultdict(set)
        for f in self.fns.values():
            for o in f.r.get('ov', ()):
                self.overriders[o].add(f.id)
        for c in self.cls.values():
            for m in c.methods:
                for o in m.get('ov', ()):
                    self.overriders[o].add(m['id'])
        self._callers = None
        if whole and (len(self.fns) < 5000 or len(self.cls) < 500):
            raise Broken('fact base too small: %d functions, %d classes' % (len(self.fns), len(self.cls)))

    def ancestors(self, q):
        if q not in self._anc:
            out = []
            c = self.cls.get(q)
            if c:
                for b in c.bases:
                    out.append(b)
                    out += [x for x in self.ancestors(b) if x not in out]
            self._anc[q] = out
        return self._anc[q]

    def derives(self, q, base):
        return q == base or base in self.ancestors(q)

    def descendants(self, q):
        if q not in self._desc:
            out, st = set(), [q]
            while st:
                for s in self.subs.get(st.pop(), ()):
                    if s not in out:
                        out.add(s)
                        st.append(s)
            self._desc[q] = out
        return self._desc[q]

    def targets(self, e):
        """Possible bodies of a call expression."""
        c = e.get('cal')
        if not c:
            return []
        ids = {c['id']}
        if c.get('v') and not e.get('qual'):
            st = [c['id']]
            while st:
                for o in self.overriders.get(st.pop(), ()):
                    if o not in ids:
                        ids.add(o)
                        st.append(o)
        return [self.fns[i] for i in ids if i in self.fns]

    def direct(self, e):
        c = e.get('cal')
        return self.fns.get(c['id']) if c else None

    def callers(self):
        if self._callers is None:
            m = defaultdict(set)
            for f in self.fns.values():
                for e in f.calls():
                    for t in self.targets(e):
                        m[t.id].add(f.id)
            self._callers = m
        return self._callers

    def one(self, q):
        v = self.byq.get(q, [])
        if not v:
            raise Broken('anchor function %s not found' % q)
        return v[0]

    def method(self, cls, name):
        """The definition(s) a method name resolves to from a class, walking up the bases."""
        for c in [cls] + self.ancestors(cls):
            v = [f for f in self.byq.get(c + '::' + name, [])]
            if v:
                return v
        return []

    def all_fields(self, q):
        out = []
        for c in [q] + self.ancestors(q):
            if c in self.cls:
                out += [(c, f) for f in self.cls[c].fields]
        return out


# ---------------------------------------------------------------- control-flow graph

class Node:
    __slots__ = ('i', 'k', 'e', 'succ', 'line', 'scope')
    # k: 'ev' (operation e executes), 'br' (two-way branch on atom e), 'nop', 'decl' (e = decl record),
    #    'ret' (e = value or None), 'entry', 'exit', 'throw', 'sw' (multi-way), 'scopeend'

    def __init__(self, i, k, e=None, line=0):
        self.i, self.k, self.e, self.line = i, k, e, line
        self.succ = []   # (target index, assumption) ; assumption None | (expr, bool) | ('case', expr, value|None)

    def __repr__(self):
        return 'N%d:%s@%d' % (self.i, self.k, self.line)


OPS_EV = {'Call', 'Ctor', 'New', 'Del', 'Mem', 'Idx', 'Un', 'Bin', 'Cast', 'Throw', 'Lambda', 'List', 'Cond', 'Ref', 'This'}


class CFG:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = []
        self.entry = self.new('entry')
        self.exit = self.new('exit')
        self.throw_exit = self.new('throw')
        self.brk, self.cont, self.handlers, self.switches = [], [], [], []
        self.labels, self.gotos = {}, []
        cur = self.entry
        for i in fn.r.get('inits', ()):
            if isinstance(i.get('e'), dict):
                cur = self.expr(i['e'], cur)
                n = self.new('init', i, i.get('l', 0))
                self.edge(cur, n)
                cur = n
        if fn.body:
            cur = self.stmt(fn.body, cur)
        if cur is not None:
            n = self.new('ret', None, fn.r.get('el', 0))
            self.edge(cur, n)
            self.edge(n, self.exit)
        for n, l in self.gotos:
            if l in self.labels:
                self.edge(n, self.labels[l])
        self._pred = None

    def new(self, k, e=None, line=0):
        n = Node(len(self.nodes), k, e, line)
        self.nodes.append(n)
        return n

    def edge(self, a, b, asm=None):
        a.succ.append((b.i, asm))

    def preds(self):
        if self._pred is None:
            p = [[] for _ in self.nodes]
            for n in self.nodes:
                for t, a in n.succ:
                    p[t].append((n.i, a))
            self._pred = p
        return self._pred

    # -- expressions: emits one event per operation, in evaluation order, branching for && || ?:
    def expr(self, e, cur):
        if cur is None or not isinstance(e, dict):
            return cur
        k = e['k']
        if k == 'Bin' and e['op'] in ('&&', '||'):
            j = self.new('nop', None, e.get('l', 0))
            t, f = self.cond(e, cur)
            if t is not None:
                self.edge(t, j)
            if f is not None:
                self.edge(f, j)
            return j
        if k == 'Un' and e['op'] == '!' and isinstance(e['e'], dict) and e['e']['k'] == 'Bin' and e['e']['op'] in ('&&', '||'):
            return self.expr(e['e'], cur)
        if k == 'Cond':
            t, f = self.cond(e['c'], cur)
            t = self.expr(e['T'], t)
            f = self.expr(e['F'], f)
            j = self.new('ev', e, e.get('l', 0))
            if t is not None:
                self.edge(t, j)
            if f is not None:
                self.edge(f, j)
            return j
        if k == 'Sizeof':
            return cur
        if k == 'Bin' and e['op'] == '=':
            cur = self.expr(e['R'], cur)
            cur = self.expr(e['L'], cur)
        else:
            for x in kids(e):
                cur = self.expr(x, cur)
                if cur is None:
                    return None
        if cur is None:
            return None
        if k in OPS_EV:
            n = self.new('ev', e, e.get('l', 0))
            self.edge(cur, n)
            if k == 'Throw':
                if self.handlers:
                    for h in self.handlers[-1]:
                        self.edge(n, h)
                else:
                    self.edge(n, self.throw_exit)
                return None
            if self.handlers and k in ('Call', 'Ctor', 'New'):
                for h in self.handlers[-1]:
                    self.edge(n, h)
            if k == 'Call' and callee_n(e) in ('abort', 'exit', '__assert_fail', '__builtin_unreachable', 'terminate', '_exit'):
                return None
            return n
        return cur

    def cond(self, e, cur):
        """Returns (node reached when true, node reached when false)."""
        if cur is None:
            return None, None
        k = e['k']
        if k == 'Bin' and e['op'] == '&&':
            t, f = self.cond(e['L'], cur)
            t2, f2 = self.cond(e['R'], t)
            return t2, self.join(f, f2)
        if k == 'Bin' and e['op'] == '||':
            t, f = self.cond(e['L'], cur)
            t2, f2 = self.cond(e['R'], f)
            return self.join(t, t2), f2
        if k == 'Un' and e['op'] == '!':
            t, f = self.cond(e['e'], cur)
            return f, t
        if k == 'Cast' and e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'IntegralCast') and isinstance(e['e'], dict) and e['e']['k'] in ('Bin', 'Un') and e['e'].get('op') in ('&&', '||', '!'):
            return self.cond(e['e'], cur)
        if e.get('v') is not None and k in ('Int', 'Bool'):
            n = self.new('nop', None, e.get('l', 0))
            self.edge(cur, n)
            return (n, None) if e['v'] else (None, n)
        cur = self.expr(e, cur)
        if cur is None:
            return None, None
        b = self.new('br', e, e.get('l', 0))
        self.edge(cur, b)
        t = self.new('nop', None, e.get('l', 0))
        f = self.new('nop', None, e.get('l', 0))
        self.edge(b, t, (e, True))
        self.edge(b, f, (e, False))
        return t, f

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        n = self.new('nop')
        self.edge(a, n)
        self.edge(b, n)
        return n

    def decl(self, d, cur, line):
        if isinstance(d.get('init'), dict):
            cur = self.expr(d['init'], cur)
        if cur is None:
            return None
        n = self.new('decl', d, line)
        self.edge(cur, n)
        return n

    def stmt(self, s, cur):
        if not isinstance(s, dict):
            return cur
        k = s['k']
        line = s.get('l', 0)
        if cur is None and k not in ('Case', 'Default', 'Block', 'Label', 'If', 'For', 'While', 'Do', 'Switch'):
            return None
        if cur is None and k in ('If', 'For', 'While', 'Do', 'Switch') and not self.has_label(s):
            return None
        if k == 'Block':
            for x in s['s']:
                cur = self.stmt(x, cur)
            return cur
        if k == 'Expr':
            return self.expr(s['e'], cur)
        if k == 'Decl':
            for d in s['d']:
                cur = self.decl(d, cur, line)
            return cur
        if k == 'If':
            if s.get('init'):
                cur = self.stmt(s['init'], cur)
            if s.get('cv'):
                cur = self.decl(s['cv'], cur, line)
            t, f = self.cond(s['c'], cur)
            t = self.stmt(s.get('T'), t)
            if s.get('F'):
                f = self.stmt(s['F'], f)
            return self.join(t, f)
        if k in ('While', 'For'):
            if k == 'For' and s.get('init'):
                cur = self.stmt(s['init'], cur)
            if cur is None:
                return None
            head = self.new('nop', None, line)
            self.edge(cur, head)
            after = self.new('nop', None, line)
            c = head
            if s.get('cv'):
                c = self.decl(s['cv'], c, line)
            if isinstance(s.get('c'), dict):
                t, f = self.cond(s['c'], c)
            else:
                t, f = c, None
            if f is not None:
                self.edge(f, after)
            inc = self.new('nop', None, line)
            self.brk.append(after)
            self.cont.append(inc)
            t = self.stmt(s.get('b'), t)
            self.brk.pop()
            self.cont.pop()
            if t is not None:
                self.edge(t, inc)
            e = inc
            if isinstance(s.get('inc'), dict):
                e = self.expr(s['inc'], inc)
            if e is not None:
                self.edge(e, head)
            return after
        if k == 'Range':
            cur = self.expr(s['r'], cur)
            head = self.new('nop', s, line)
            self.edge(cur, head)
            after = self.new('nop', None, line)
            self.edge(head, after, ('range-end', s))
            d = self.new('decl', dict(s['var'], rangeof=s['r']), line)
            self.edge(head, d, ('range-next', s))
            self.brk.append(after)
            self.cont.append(head)
            t = self.stmt(s.get('b'), d)
            self.brk.pop()
            self.cont.pop()
            if t is not None:
                self.edge(t, head)
            return after
        if k == 'Do':
            head = self.new('nop', None, line)
            self.edge(cur, head)
            after = self.new('nop', None, line)
            cn = self.new('nop', None, line)
            self.brk.append(after)
            self.cont.append(cn)
            t = self.stmt(s.get('b'), head)
            self.brk.pop()
            self.cont.pop()
            if t is not None:
                self.edge(t, cn)
            if any(True for n in self.nodes for x, _ in n.succ if x == cn.i):
                t, f = self.cond(s['c'], cn)
                if t is not None:
                    self.edge(t, head)
                if f is not None:
                    self.edge(f, after)
            return after
        if k == 'Switch':
            if s.get('cv'):
                cur = self.decl(s['cv'], cur, line)
            cur = self.expr(s['c'], cur)
            if cur is None:
                return None
            sw = self.new('sw', s['c'], line)
            self.edge(cur, sw)
            after = self.new('nop', None, line)
            self.switches.append({'n': sw, 'default': False, 'e': s['c'], 'vals': []})
            self.brk.append(after)
            t = self.stmt(s.get('b'), None)
            self.brk.pop()
            info = self.switches.pop()
            if t is not None:
                self.edge(t, after)
            if not info['default']:
                self.edge(sw, after, ('case', s['c'], None, tuple(info['vals'])))
            else:
                # attach the values excluded by default
                sw.succ = [(t_, ('case', a[1], None, tuple(info['vals'])) if a and a[0] == 'case' and a[2] is None else a) for t_, a in sw.succ]
            return after
        if k == 'Case':
            n = self.new('nop', None, line)
            if cur is not None:
                self.edge(cur, n)
            info = self.switches[-1]
            info['vals'].append(s.get('v'))
            self.edge(info['n'], n, ('case', info['e'], s.get('v'), ()))
            return self.stmt(s.get('s'), n)
        if k == 'Default':
            n = self.new('nop', None, line)
            if cur is not None:
                self.edge(cur, n)
            info = self.switches[-1]
            info['default'] = True
            self.edge(info['n'], n, ('case', info['e'], None, ()))
            return self.stmt(s.get('s'), n)
        if k == 'Break':
            self.edge(cur, self.brk[-1])
            return None
        if k == 'Continue':
            self.edge(cur, self.cont[-1])
            return None
        if k == 'Return':
            if isinstance(s.get('e'), dict):
                cur = self.expr(s['e'], cur)
                if cur is None:
                    return None
            n = self.new('ret', s.get('e'), line)
            self.edge(cur, n)
            self.edge(n, self.exit)
            return None
        if k == 'Try':
            hs = [self.new('nop', None, h.get('l', line)) for h in s['h']]
            # an exception may come from anywhere in the body
            self.edge(cur, hs[0]) if False else None
            self.handlers.append(hs)
            b = self.stmt(s['b'], cur)
            self.handlers.pop()
            out = b
            for h, hn in zip(s['h'], hs):
                out = self.join(out, self.stmt(h['b'], hn))
            return out
        if k == 'Goto':
            self.gotos.append((cur, s['n']))
            return None
        if k == 'Label':
            n = self.new('nop', None, line)
            if cur is not None:
                self.edge(cur, n)
            self.labels[s['n']] = n
            return self.stmt(s.get('s'), n)
        return cur

    def has_label(self, s):
        return any(x['k'] in ('Label',) for x in walk_s(s))

    def reachable(self, start=None, avoid=()):
        """Node indices reachable from start without passing through nodes in avoid."""
        st = [start if start is not None else self.entry.i]
        seen = set(st)
        while st:
            n = self.nodes[st.pop()]
            for t, _ in n.succ:
                if t not in seen and t not in avoid:
                    seen.add(t)
                    st.append(t)
        return seen


def solve(cfg, init, transfer, assume, join, maxit=200000, bottom=None):
    """Forward dataflow. States are immutable/hashable-comparable values; None = unreachable."""
    inn = [None] * len(cfg.nodes)
    inn[cfg.entry.i] = init
    work = [cfg.entry.i]
    inw = {cfg.entry.i}
    it = 0
    while work:
        it += 1
        if it > maxit:
            raise Broken('dataflow does not converge in ' + cfg.fn.q)
        i = work.pop(0)
        inw.discard(i)
        n = cfg.nodes[i]
        out = transfer(inn[i], n)
        if out is None:
            continue
        for t, a in n.succ:
            o = out
            if a is not None:
                o = assume(out, a)
                if o is None:
                    continue
            old = inn[t]
            nw = o if old is None else join(old, o)
            if old is None or nw != old:
                inn[t] = nw
                if t not in inw:
                    work.append(t)
                    inw.add(t)
    return inn


# ---------------------------------------------------------------- small expression helpers

def unwrap(e):
    """Looks through casts that keep the value."""
    while isinstance(e, dict) and e['k'] == 'Cast':
        e = e['e']
    return e


def path(e):
    """Access path of an lvalue-ish expression: ('var', id), ('this',), ('fld', base, name), ('deref', p) or None."""
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    k = e['k']
    if k == 'This':
        return ('this',)
    if k == 'Ref':
        if e.get('dk') in ('var', 'parm'):
            return ('var', e['d'])
        if e.get('dk') == 'glob':
            return ('glob', e['q'])
        return None
    if k == 'Mem':
        if e.get('dk') == 'field':
            b = path(e['b'])
            return ('fld', b, e['n']) if b else None
        if e.get('dk') == 'glob':
            return ('glob', e['q'])
        return None
    if k == 'Un' and e['op'] == '*':
        b = path(e['e'])
        return ('deref', b) if b else None
    if k == 'Un' and e['op'] == '&':
        b = path(e['e'])
        return ('addr', b) if b else None
    return None


def show(e, depth=0):
    """Readable rendering of an expression."""
    if not isinstance(e, dict):
        return '?'
    k = e['k']
    if depth > 8:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'Ref':
        return e['n']
    if k == 'This':
        return 'this'
    if k == 'Mem':
        if isinstance(e.get('b'), dict) and e['b']['k'] == 'This':
            return e['n']
        return s(e.get('b')) + ('->' if e.get('a') else '.') + e['n']
    if k == 'Call':
        if e.get('op'):
            a = ([e['obj']] if e.get('obj') else []) + e.get('args', [])
            if e['op'] == '[]' and len(a) == 2:
                return '%s[%s]' % (s(a[0]), s(a[1]))
            if e['op'] == '->' or (e['op'] == '*' and len(a) == 1):
                return ('*' if e['op'] == '*' else '') + s(a[0])
            if len(a) == 2:
                return '%s %s %s' % (s(a[0]), e['op'], s(a[1]))
            return e['op'] + '(' + ', '.join(s(x) for x in a) + ')'
        n = callee_n(e)
        o = ''
        if e.get('obj') and e['obj']['k'] != 'This':
            o = s(e['obj']) + ('->' if e.get('a') else '.')
        if n.startswith('operator '):
            return s(e['obj']) if e.get('obj') else n
        return '%s%s(%s)' % (o, n or s(e.get('fe')), ', '.join(s(x) for x in e.get('args', []) if not (isinstance(x, dict) and x.get('dflt'))))
    if k == 'Ctor':
        return '%s(%s)' % (bare(e.get('t', '')).split('::')[-1], ', '.join(s(x) for x in e.get('args', []) if not (isinstance(x, dict) and x.get('dflt'))))
    if k == 'Bin':
        return '%s %s %s' % (s(e['L']), e['op'], s(e['R']))
    if k == 'Un':
        return (s(e['e']) + e['op']) if e.get('post') else e['op'] + s(e['e'])
    if k == 'Cast':
        return s(e['e'])
    if k == 'Idx':
        return '%s[%s]' % (s(e['b']), s(e['i']))
    if k == 'Str':
        return '"%s"' % e['s'][:40]
    if k == 'Null':
        return 'NULL'
    if k == 'Cond':
        return '%s ? %s : %s' % (s(e['c']), s(e['T']), s(e['F']))
    if k == 'New':
        return 'new ' + e['nt']
    if k == 'Del':
        return 'delete ' + s(e['e'])
    if 'v' in e:
        return str(e['v'])
    if k == 'Flt':
        return e['f']
    return k
