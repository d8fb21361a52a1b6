"""Who owns what was allocated: each acquisition is followed along the paths of its routine until somebody takes it over."""
from model import *

# acquired by -> released by
PAIRS = {
    'xmlGetProp': ('xmlFree',), 'xmlGetNoNsProp': ('xmlFree',), 'xmlGetNsProp': ('xmlFree',), 'xmlNodeGetContent': ('xmlFree',), 'xmlNodeListGetString': ('xmlFree',),
    'xmlStrdup': ('xmlFree',), 'xmlGetNodePath': ('xmlFree',), 'xmlEncodeEntitiesReentrant': ('xmlFree',), 'xmlEncodeSpecialChars': ('xmlFree',),
    'xmlNewDoc': ('xmlFreeDoc',), 'xmlParseMemory': ('xmlFreeDoc',), 'xmlParseFile': ('xmlFreeDoc',), 'xmlReadMemory': ('xmlFreeDoc',), 'xmlReadFile': ('xmlFreeDoc',),
    'xmlNewNode': ('xmlFreeNode', 'xmlFreeNodeList'), 'xmlNewDocNode': ('xmlFreeNode', 'xmlFreeNodeList'), 'xmlNewText': ('xmlFreeNode', 'xmlFreeNodeList'),
    'xmlAllocOutputBuffer': ('xmlOutputBufferClose',), 'xmlOutputBufferCreateFile': ('xmlOutputBufferClose',), 'xmlBufferCreate': ('xmlBufferFree',),
    'opendir': ('closedir',), 'fdopendir': ('closedir',), 'dlopen': ('dlclose',), 'fopen': ('fclose',), 'fopen64': ('fclose',), 'popen': ('pclose',),
    'malloc': ('free',), 'calloc': ('free',), 'strdup': ('free',), 'realloc': ('free',),
}
RELEASE = {r for v in PAIRS.values() for r in v}
MAYBE_NULL = set(PAIRS)
# C functions that take over nodes
ADOPT = ('xmlAddChild', 'xmlAddSibling', 'xmlAddNextSibling', 'xmlAddPrevSibling', 'xmlDocSetRootElement', 'xmlReplaceNode', 'xmlSetTreeDoc')
MAXENV = 48


def fname(e):
    n = callee_n(e)
    if not n and isinstance(e.get('fe'), dict):
        n = unwrap(e['fe']).get('n') or ''
    return n


def has(p, q):
    while isinstance(p, tuple):
        if p == q:
            return True
        p = p[1] if len(p) > 1 and p[0] in ('fld', 'deref', 'addr') else None
    return False


def root(p):
    while isinstance(p, tuple) and p[0] in ('fld', 'deref', 'addr'):
        p = p[1]
    return p


NUM = ('int', 'unsigned int', 'long', 'unsigned long', 'bool', 'float', 'double', 'short', 'unsigned short', 'char', 'unsigned char')


def is_num(t):
    return (t or '').replace('const', '').replace('&', '').strip() in NUM


def tracked(t):
    return (t or '').replace('const ', '').startswith('FUTrackedPtr<')


def through(e):
    """The tracked pointer an expression reads."""
    while isinstance(e, dict) and e['k'] == 'Call' and e.get('obj') is not None and not e.get('args') and tracked(unwrap(e['obj']).get('t')) and (e.get('op') == '->' or callee_n(e).startswith('operator')):
        e = unwrap(e['obj'])
    return e


def asserts(e):
    return fname(e) == 'OnAssertionFailed'


def form_of(e):
    """How the value of an acquiring expression is to be given back."""
    if e['k'] == 'New':
        return None if e.get('pl') else 'delete[]' if e.get('arr') else 'delete'
    n = fname(e)
    if n in PAIRS and not (e.get('cal') or {}).get('c'):
        return PAIRS[n][0]
    return None


class Owners:
    def __init__(self, P):
        self.P = P
        self.fact = {}          # function id -> form it hands out
        self.parm = {}          # (function id, i) -> 'keep' | 'free' | 'use'
        self.busy = set()
        self.fns = sorted((f for f in P.fns.values() if f.body is not None and (f.file or '').startswith(('FCollada/', 'FColladaPlugins/')) and not (f.file or '').startswith('FCollada/FColladaTest')),
                          key=lambda f: (f.file, f.line, f.id))
        self.flagmemo = {}

    # ---- what a routine does with a pointer it is handed
    def does(self, f, i):
        """'keep': it (or somebody it tells) may hold on to it or release it on some path; 'free': it releases it on every path;
        'use': it only looks at it.  i is the index of the parameter, or 'this'."""
        k = f.id, i
        if k in self.parm:
            return self.parm[k]
        if f.body is None:
            return 'keep'
        self.parm[k] = 'use'    # recursion looks at it only
        if i == 'this':
            r = self.does_this(f)
        elif i >= len(f.params):
            r = 'keep'
        else:
            r = Flow(self, f, start=('var', f.params[i]['d'])).verdict()
        self.parm[k] = r
        return r

    def does_member(self, f, p, form, consts):
        """The same for a member of the object the routine is called on: 'free' on every path, 'keep', or 'use'."""
        k = f.id, p, form, consts
        if k in self.parm:
            return self.parm[k]
        if f.body is None or f.const:
            return 'use'
        self.parm[k] = 'use'
        r = Flow(self, f, start=p, form=form)
        r.consts = {('var', f.params[i]['d']): v for i, v in consts if i < len(f.params)}
        r.go()
        self.parm[k] = ('wrong:' + r.mismatch[0][1]) if r.mismatch else 'keep' if r.kept else 'free' if r.freed and not r.heldexit and not r.lost else 'use'
        return self.parm[k]

    def does_this(self, f):
        if f.kind in ('dtor',):
            return 'use'
        return Flow(self, f, start=('this',)).verdict()

    def at_call(self, e, which):
        """What the call does with the pointer it gets as argument `which` (or as its object, 'this')."""
        n = fname(e)
        if n in RELEASE and which == 0:
            return 'free:' + n
        ts = self.P.targets(e) if e['k'] == 'Call' else [t for t in [self.P.fns.get((e.get('cal') or {}).get('id'))] if t]
        if e['k'] == 'Call' and which == 'this' and n == 'Release' and not (e.get('args') or ()):
            return 'free:delete'
        if which != 'this' and (e.get('cal') or {}).get('c', '').startswith(('fm::stringT<', 'FUStringBuilderT<', 'fm::vector<char', 'fm::vector<unsigned char')):
            return 'use'            # text is copied
        if not ts:
            if not e.get('cal') and which != 'this' and '_xmlNode' in str(unwrap(e['args'][which]).get('t')):
                return 'use'        # a routine of the archive's tables: it writes below the node
            if (e.get('cal') or {}).get('c') or n in ADOPT:
                return 'use' if which in ('this', 0) else 'keep'
            return 'use' if which == 'this' or n.startswith(('xml', 'str', 'mem', 'f', 'print', 'sprintf', 'snprintf', 'vs', 'v', 'read', 'dlsym', 'ato', 'qsort', 'html')) and (e.get('cal') or {}).get('id', '').startswith('C:') else 'keep'
        rs = set()
        for t in ts:
            t2 = self.body(t)
            if t2 is None:
                rs.add('use' if which == 'this' else 'keep')
                continue
            rs.add(self.does(t2, which))
        if len(rs) == 1:
            r = rs.pop()
            return r
        return 'keep'

    def body(self, t):
        if t.body is not None:
            return t
        for g in self.P.byq.get(t.q, ()):
            if g.body is not None and [p['t'] for p in g.params] == [p['t'] for p in t.params]:
                return g
        return None

    # ---- routines that hand out what they acquired
    def makes(self, e):
        """(form, passthrough parameter) when the call hands out something newly acquired that nobody else holds."""
        if e['k'] == 'New':
            return (form_of(e), None) if form_of(e) else None
        if e['k'] != 'Call':
            return None
        fm = form_of(e)
        if fm:
            return fm, None
        if not is_ptr(e.get('t')):
            return None
        ts = self.P.targets(e)
        if not ts:
            return None
        out = None
        for t in ts:
            t = self.body(t)
            m = self.fact.get(t.id) if t is not None else None
            if m is None:
                return None
            out = out or m
        return out

    def acquires(self, e):
        m = self.makes(e)
        if m is None:
            return None
        form, via = m
        if via is not None:
            a = e.get('args', [])
            if via < len(a):
                u = unwrap(a[via])
                if not (u['k'] == 'Null' or u['k'] == 'Int' and u.get('v') == 0):
                    return None
        return form

    def factories(self):
        """Fixpoint over the routines that return what they acquired."""
        cand = [f for f in self.fns if is_ptr(f.r.get('ret'))]
        for _ in range(6):
            new = {}
            for f in cand:
                m = self.factory(f)
                if m:
                    new[f.id] = m
            if new == self.fact:
                break
            self.fact = new
        return self.fact

    def factory(self, f):
        forms = set()
        for e in list(f.exprs()):
            fm = self.acquires(e) if e['k'] in ('New', 'Call') else None
            if fm is None:
                continue
            r = Flow(self, f, src=e, form=fm)
            r.go()
            if r.returned:
                forms.add(fm)
        if len(forms) != 1:
            return None
        # what it returns on the other paths: null, or a parameter handed in
        via = None
        for s in walk_s(f.body):
            if s['k'] == 'Return' and isinstance(s.get('e'), dict):
                for u in self.sources(f, s['e']):
                    if u['k'] in ('New', 'Null') or u['k'] == 'Int' or u['k'] == 'Call' and self.acquires(u):
                        continue
                    if u['k'] == 'Ref' and u.get('dk') == 'parm':
                        i = [p['d'] for p in f.params].index(u['d']) if u['d'] in [p['d'] for p in f.params] else None
                        if i is not None and via in (None, i):
                            via = i
                            continue
                    return None
        return forms.pop(), via

    def sources(self, f, e, seen=None):
        """The expressions the value may come from, through local variables."""
        seen = seen if seen is not None else set()
        e = unwrap(e)
        if e['k'] == 'Cond':
            return self.sources(f, e['T'], seen) + self.sources(f, e['F'], seen)
        if e['k'] == 'Bin' and e['op'] in ('=', ','):
            return self.sources(f, e['R'], seen)
        if e['k'] == 'Ref' and e.get('dk') in ('var', 'parm'):
            d = e['d']
            if d in seen:
                return []
            seen.add(d)
            out = [e] if e['dk'] == 'parm' else []
            for s in walk_s(f.body):
                if s['k'] == 'Decl':
                    for x in s['d']:
                        if x['d'] == d and isinstance(x.get('init'), dict):
                            out += self.sources(f, x['init'], seen)
            for x in f.exprs():
                if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref' and unwrap(x['L']).get('d') == d:
                    out += self.sources(f, x['R'], seen)
            return out
        return [e]


class Flow:
    """Follows one thing from where it is acquired (src), or from a parameter (start), along every path."""

    def __init__(self, O, f, src=None, form=None, start=None, field=None):
        self.O, self.f, self.src, self.form, self.start = O, f, src, form, start
        self.P = O.P
        self.leaks, self.mismatch, self.kept, self.freed, self.returned = [], [], [], [], []
        self.heldexit = False
        self.boxed = []
        self.drains = {}
        self.stores = []
        self.uses = []
        self.dangling = []
        self.lost = []
        self.boxstart = None
        self.born = None        # the variable whose member is followed: another object in it is another story
        self.consts = {}        # parameters known to be a number
        self.locals = self.local_vars()
        self.keep = self.flags()

    def local_vars(self):
        out = {}
        for s in walk_s(self.f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    out[d['d']] = d.get('t') or ''
            if s['k'] in ('Range',):
                out[s['var']['d']] = s['var'].get('t') or ''
            if s.get('cv'):
                out[s['cv']['d']] = s['cv'].get('t') or ''
        for p in self.f.params:
            out[p['d']] = p['t']
        return out

    def flags(self):
        """Variables whose truth is followed with it."""
        key = self.f.id
        memo = self.O.flagmemo
        if key not in memo:
            out = set()
            asked = set()
            for n in self.f.cfg().nodes:
                if n.k == 'br':
                    for x in walk_e(n.e):
                        if x['k'] == 'Ref' and x.get('dk') in ('var', 'parm'):
                            asked.add(x['d'])
            for d, t in self.locals.items():
                if d in asked and (t.replace('const', '').strip() in ('bool', 'bool &') or t.rstrip().endswith('*')):
                    out.add(('var', d))
            memo[key] = out
        return memo[key]

    # an environment: (holders, facts, status): status in 'pre', 'held', 'done'
    def carries(self, e, H):
        """The value of the expression is the thing."""
        e = through(unwrap(e))
        if not isinstance(e, dict):
            return False
        if e is self.src:
            return '#' in H
        k = e['k']
        if k == 'Cond':
            return self.carries(e['T'], H) or self.carries(e['F'], H)
        if k == 'Bin' and e['op'] == ',':
            return self.carries(e['R'], H)
        if k == 'Bin' and e['op'] == '=':
            return self.carries(e['R'], H) or path(e['L']) is not None and path(e['L']) in H
        if k == 'Un' and e['op'] == '&':
            u = unwrap(e['e'])
            return u['k'] == 'Un' and u['op'] == '*' and self.carries(u['e'], H)
        if k in ('Ref', 'Mem', 'This', 'Un'):
            p = path(e)
            if p and p[0] == 'deref' and p[1] == ('addr',):
                p = p[1][1]
            return p is not None and p in H
        if k == 'Call':
            m = self.O.makes(e)
            if m is not None and m[1] is not None and m[1] < len(e.get('args', ())):
                return self.carries(e['args'][m[1]], H)
        return False

    def number(self, e):
        e = unwrap(e)
        return e['v'] if e['k'] == 'Int' else self.consts.get(path(e)) if self.consts else None

    def truth(self, e, env):
        H, F = env
        e = through(e)
        k = e['k']
        if k == 'Cast':
            return self.truth(e['e'], env)
        if e is self.src:
            return F.get('#')
        if k in ('Bool', 'Int'):
            return 'T' if e.get('v') else 'F'
        if k == 'Null':
            return 'F'
        if k in ('New', 'This'):
            return 'T'
        if k == 'Un' and e['op'] == '!':
            return {'T': 'F', 'F': 'T'}.get(self.truth(e['e'], env))
        if k == 'Bin':
            if self.consts and e['op'] in ('==', '!='):
                l, r = self.number(e['L']), self.number(e['R'])
                if l is not None and r is not None:
                    return 'T' if (l == r) == (e['op'] == '==') else 'F'
            if e['op'] in ('==', '!='):
                l, r = self.truth(e['L'], env), self.truth(e['R'], env)
                if l and r and 'F' in (l, r):
                    return 'T' if (l == r) == (e['op'] == '==') else 'F'
                return None
            if e['op'] == '&&':
                l, r = self.truth(e['L'], env), self.truth(e['R'], env)
                return 'F' if 'F' in (l, r) else 'T' if l == r == 'T' else None
            if e['op'] == '||':
                l, r = self.truth(e['L'], env), self.truth(e['R'], env)
                return 'T' if 'T' in (l, r) else 'F' if l == r == 'F' else None
            if e['op'] == '=':
                return self.truth(e['R'], env)
            if self.consts and e['op'] in ('<', '>', '<=', '>='):
                l, r = self.number(e['L']), self.number(e['R'])
                if l is not None and r is not None:
                    return 'T' if {'<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r}[e['op']] else 'F'
                if e['op'] == '>' and l == 0 and 'unsigned' in (unwrap(e['R']).get('t') or ''):
                    return 'F'
                if e['op'] == '<' and r == 0 and 'unsigned' in (unwrap(e['L']).get('t') or ''):
                    return 'F'
        if k == 'Cond':
            c = self.truth(e['c'], env)
            if c:
                return self.truth(e['T' if c == 'T' else 'F'], env)
            a, b = self.truth(e['T'], env), self.truth(e['F'], env)
            return a if a == b else None
        p = path(e)
        if p is not None:
            return F.get(p)
        if k == 'Call' and not e.get('args') and not e.get('op') and e.get('obj') is not None and unwrap(e['obj'])['k'] == 'This':
            b = self.getter(e)
            return self.truth(b, env) if b is not None else None
        return None

    def getter(self, e):
        """The expression a routine of the same object without parameters returns."""
        ts = self.P.targets(e)
        t = self.O.body(ts[0]) if len(ts) == 1 else None
        if t is None or t.params:
            return None
        b = [s for s in walk_s(t.body) if s['k'] != 'Block']
        return b[0]['e'] if len(b) == 1 and b[0]['k'] == 'Return' and isinstance(b[0].get('e'), dict) else None

    def learn(self, e, val, env):
        """The environment when e is known to be val ('T'/'F'); None when that cannot be."""
        t = self.truth(e, env)
        if t and t != val:
            return None
        H, F = env
        while e['k'] == 'Cast' or through(e) is not e:
            e = e['e'] if e['k'] == 'Cast' else through(e)
        k = e['k']
        if k == 'Un' and e['op'] == '!':
            return self.learn(e['e'], {'T': 'F', 'F': 'T'}[val], env)
        if k == 'Bin' and e['op'] in ('==', '!='):
            for a, b in ((e['L'], e['R']), (e['R'], e['L'])):
                if self.truth(b, env) == 'F' and (unwrap(b)['k'] in ('Null', 'Int', 'Bool')):
                    return self.learn(a, 'F' if (val == 'T') == (e['op'] == '==') else 'T', env)
            return env
        if k == 'Bin' and e['op'] == '=':
            env2 = self.learn(e['L'], val, env)
            return env2
        p = path(e)
        if p is not None and (p in self.keep or p in H):
            F = dict(F)
            F[p] = val
            if p in H:
                for q in H:
                    F[q] = val
            return H, F
        if e is self.src:
            F = dict(F)
            F['#'] = val
            return H, F
        if k == 'Call' and not e.get('args') and not e.get('op') and e.get('obj') is not None and unwrap(e['obj'])['k'] == 'This':
            b = self.getter(e)
            if b is not None and b['k'] != 'Call':
                return self.learn(b, val, env)
        return env

    def go(self):
        cfg = self.f.cfg()
        init = set()
        if self.boxstart is not None:
            self.drainers(self.boxstart)
            init.add(('boxed', frozenset({self.boxstart}), frozenset()))
        elif self.born is not None and not any(q['d'] == self.born[1] for q in self.f.params):
            init.add(('none', frozenset(), frozenset()))
        elif self.start is not None:
            init.add(('held', frozenset({self.start}), frozenset({(self.start, 'T')})))
        else:
            init.add(('pre', frozenset(), frozenset()))
        self.spread(cfg, init)
        return self

    def spread(self, cfg, init):
        """Every environment is taken through every node once."""
        seen = {cfg.entry.i: set(init)}
        fresh = {cfg.entry.i: set(init)}
        wide = {}
        work = [cfg.entry.i]
        left = 60000
        while work:
            i = work.pop()
            delta = fresh.pop(i, None)
            if not delta:
                continue
            node = cfg.nodes[i]
            post = set()
            for en in delta:
                r = self.advance(en, node)
                if r is not None:
                    post.add(r)
            left -= len(delta)
            if left < 0:
                break
            for j, asm in node.succ:
                cond = isinstance(asm, tuple) and len(asm) == 2 and isinstance(asm[0], dict)
                old = seen.setdefault(j, set())
                for en in post:
                    if cond:
                        en = self.branch(en, asm)
                        if en is None:
                            continue
                    if j in wide or len(old) > MAXENV:
                        w = wide.setdefault(j, {})
                        c = w.get(en[:2])
                        F = en[2] if c is None else en[2] & c
                        if F == c:
                            continue
                        w[en[:2]] = F
                        en = (en[0], en[1], F)
                    if en not in old:
                        old.add(en)
                        fresh.setdefault(j, set()).add(en)
                        work.append(j)

    def advance(self, en, node):
        r = self.step(en, node)
        return None if r is None or self.src is not None and r[0] in ('done', 'lost', 'none', 'freed') else r

    def branch(self, en, asm):
        r = self.assume(en, asm)
        return None if r is None or self.src is not None and r[0] == 'none' else r

    def assume(self, en, asm):
        st, H, F = en
        if not (isinstance(asm, tuple) and len(asm) == 2 and isinstance(asm[0], dict)):
            return en
        e, val = asm
        r = self.learn(e, 'T' if val else 'F', (H, dict(F)))
        if r is None:
            return None
        H2, F2 = r
        if st == 'held' and any(F2.get(h) == 'F' for h in H2):
            st, H2 = 'none', frozenset()      # there was nothing to hold
        return st, frozenset(H2), frozenset(F2.items())

    def drop(self, H, F, p, node, st):
        """p is about to hold something else."""
        H2 = frozenset(h for h in H if h == '#' or not has(h, p))
        F2 = {k: v for k, v in F.items() if not (k != '#' and has(k, p))}
        return H2, F2

    def check_lost(self, st, H, F, node, why):
        if st == 'held' and not (H - {'#'}) and '#' not in H:
            self.lost.append(node)
            if self.src is not None:
                self.leaks.append((node, why))
            return 'lost'
        return st

    def step(self, en, n):
        st, H, F = en
        F = dict(F)
        if st == 'boxed' and n.k == 'decl' and n.e.get('n') == 'ignoreAssert':
            return 'done', frozenset(), frozenset()
        if st == 'boxed':
            r = self.inbox((st, H, frozenset(F.items())), n)
            if r is None or r[0] != 'boxed':
                return r
            lst = next(iter(H))
            if n.k in ('decl', 'ev') and n.k == 'decl' or n.e is not None and isinstance(n.e, dict) and n.e.get('k') in ('Bin', 'Un', 'Call', 'Ctor'):
                e = n.e
                st2, H2, F2 = self.event('pre', frozenset(), F, n) if n.k == 'ev' else self.step(('pre', frozenset(), frozenset(F.items())), n) if n.k == 'decl' else ('pre', H, frozenset(F.items()))
                F2 = dict(F2)
                R = e.get('R') if n.k == 'ev' and e['k'] == 'Bin' and e['op'] == '=' else e.get('init') if n.k == 'decl' else None
                if isinstance(R, dict):
                    u = unwrap(R)
                    p = path(e['L']) if n.k == 'ev' else ('var', e['d'])
                    if p in self.keep and u['k'] in ('Call', 'Idx') and any(path(x) == lst for x in walk_e(u) if x['k'] in ('Ref', 'Mem')) and '*' in (u.get('t') or ''):
                        F2[p] = 'T'         # one of those in the list
                return 'boxed', H, frozenset(F2.items())
            return r
        if n.k == 'ev' and n.e is self.src:
            if st == 'held':
                self.check_again(H, F, n)
            may = fname(n.e) in MAYBE_NULL if n.e['k'] == 'Call' else False
            F = {k: v for k, v in F.items() if k != '#'}
            F['#'] = 'T'
            if may or n.e['k'] == 'Call':
                F.pop('#')
            return 'held', frozenset({'#'}), frozenset(F.items())
        if n.k == 'decl' and n.e.get('n') == 'ignoreAssert':
            return 'done', frozenset(), frozenset()      # the caller broke the contract of the routine
        if self.born is not None and (n.k == 'decl' and ('var', n.e['d']) == self.born or n.k == 'ev' and n.e['k'] == 'Bin' and n.e['op'] == '=' and path(n.e['L']) == self.born):
            i = n.e.get('init') if n.k == 'decl' else n.e['R']
            if not isinstance(i, dict) or unwrap(i)['k'] in ('New', 'Null', 'Int') or unwrap(i)['k'] in ('Call', 'Cond') and any(self.O.acquires(x) for x in walk_e(i) if x['k'] in ('Call', 'New')):
                return 'none', frozenset(), frozenset()
            return 'held', frozenset({self.start}), frozenset({(self.start, 'T')})
        if n.k == 'decl':
            d = n.e
            p = ('var', d['d'])
            i = d.get('init')
            car = st == 'held' and isinstance(i, dict) and self.carries(i, H)
            tv = self.truth(i, (H, F)) if isinstance(i, dict) else None
            H, F = self.drop(H, F, p, n, st)
            if car:
                t = d.get('t') or ''
                if t.rstrip().endswith(('*', '&')) or bare(t) in ('auto',) or is_ptr(t) or 'iterator' in t or i['k'] != 'Ctor':
                    H = (H - {'#'}) | {p}
                    F.pop('#', None)
                    if not is_ptr(t) and not t.rstrip().endswith(('&', '*')) and '*' not in t:
                        pass
                else:
                    return self.taken(st, F, n, 'kept')
            elif '#' in H and isinstance(i, dict) and any(x is self.src for x in walk_e(i)):
                pass
            if tv and p in self.keep:
                F[p] = tv
            st = self.check_lost(st, H, F, n, 'overwritten')
            return st, H, frozenset(F.items())
        if n.k == 'init':
            i = n.e
            if st == 'held' and isinstance(i.get('e'), dict) and self.carries(i['e'], H):
                self.stores.append((n, i, 'init'))
                return self.taken(st, F, n, 'kept')
            return st, H, frozenset(F.items())
        if n.k == 'ret':
            if st == 'held':
                if isinstance(n.e, dict) and (self.carries(n.e, H) or any(self.carries(x, H) for x in self.parts(n.e))):
                    self.returned.append(n)
                    return 'done', frozenset(), frozenset()
                self.heldexit = True
                if self.src is not None:
                    self.leaks.append((n, 'still held'))
                return 'lost', frozenset(), frozenset()
            return st, H, frozenset(F.items())
        if n.k == 'ev':
            return self.event(st, H, F, n)
        return en

    @staticmethod
    def parts(e):
        """Value positions in an aggregate or constructed result."""
        e = unwrap(e)
        if e['k'] in ('Ctor', 'List'):
            for x in kids(e):
                yield x
                yield from Flow.parts(x)

    def check_again(self, H, F, n):
        """The acquiring expression runs again while the earlier one is held only by the expression itself."""
        if not (H - {'#'}):
            self.leaks.append((n, 'acquired again'))

    def taken(self, st, F, n, how):
        (self.kept if how == 'kept' else self.freed).append(n)
        return 'done' if how == 'kept' else 'freed', frozenset(), frozenset((k, v) for k, v in F.items() if k != '#')

    def inbox(self, en, n):
        st, H, F = en
        lst = next(iter(H))
        ids, forms = self.drainers(lst)
        if n.k == 'ev' and id(n.e) in ids or n.k == 'decl' and isinstance(n.e.get('init'), dict) and id(n.e['init']) in ids:
            if self.form and forms and self.form not in forms and forms <= {'delete', 'delete[]'}:
                self.mismatch.append((n, '/'.join(sorted(forms))))
            return 'done', frozenset(), F
        if n.k == 'decl':
            if lst == ('var', n.e['d']):
                self.leaks.append((n, 'in a list that goes out of scope'))
                return 'lost', frozenset(), F
            i = n.e.get('init')
            if isinstance(i, dict) and path(i) == lst:
                return 'done', frozenset(), F
        if n.k == 'ret':
            if isinstance(n.e, dict) and any(path(x) == lst for x in walk_e(n.e) if x['k'] == 'Ref') and not is_num(unwrap(n.e).get('t')):
                self.returned.append(n)
                return 'done', frozenset(), F
            self.leaks.append((n, 'in a list that is dropped'))
            return 'lost', frozenset(), F
        if n.k == 'ev' and n.e['k'] in ('Call', 'Ctor'):
            e = n.e
            if asserts(e):
                return 'done', frozenset(), F
            ps = (e.get('cal') or {}).get('p') or ()
            for i, a in enumerate(e.get('args', ()) or ()):
                if isinstance(a, dict) and path(unwrap(a)) in (lst, ('addr', lst)):
                    t = str(ps[i]) if i < len(ps) else ''
                    if e.get('op') == '=' or 'const' not in t:
                        return 'done', frozenset(), F
        if n.k == 'ev' and n.e['k'] == 'Bin' and n.e['op'] == '=' and path(n.e['R']) == lst:
            return 'done', frozenset(), F
        return st, H, F

    def event(self, st, H, F, n):
        e = n.e
        k = e['k']
        if k == 'Bin' and e['op'] == '=':
            L = unwrap(e['L'])
            p = path(L)
            car = st == 'held' and self.carries(e['R'], H)
            tv = self.truth(e['R'], (H, F))
            if p is not None:
                if car and p in H and self.carries(e['R'], H):
                    keepit = True
                H0 = H
                H, F = self.drop(H, F, p, n, st)
                if car:
                    if p[0] == 'var' and p[1] in self.locals and not self.isref(p[1]):
                        H = (H - {'#'}) | {p}
                        F.pop('#', None)
                    elif p[0] == 'fld' and root(p)[0] == 'var' and self.localobj(p):
                        H = (H - {'#'}) | {p}
                        F.pop('#', None)
                    else:
                        self.stores.append((n, L, 'field'))
                        return self.taken(st, F, n, 'kept')
                if tv and (p in self.keep or p in H):
                    F[p] = tv
                st = self.check_lost(st, H, F, n, 'overwritten')
            elif car:
                if L['k'] == 'Idx' and self.localarray(L):
                    return self.box(st, F, n, ('var', unwrap(L['b'])['d']))
                b = self.element(L)
                if b is not None:
                    return self.box(st, F, n, b)
                return self.taken(st, F, n, 'kept')
            return st, H, frozenset(F.items())
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            p = path(e['L'])
            if p is not None:
                H2, F = self.drop(frozenset(), F, p, n, st)
                if e['op'] in ('&=', '|='):
                    pass
            return st, H, frozenset(F.items())
        if k == 'Un' and e['op'] == '&' and st == 'held' and path(e['e']) in H:
            return self.taken(st, F, n, 'kept')         # reached through its address from here on
        if k == 'Un' and e['op'] in ('++', '--'):
            p = path(e['e'])
            if p is not None:
                F = {q: v for q, v in F.items() if not (q != '#' and has(q, p)) or q in H}
            return st, H, frozenset(F.items())
        if k == 'Del':
            if st == 'held' and self.carries(e['e'], H):
                f = 'delete[]' if e.get('arr') else 'delete'
                if self.form and f != self.form:
                    self.mismatch.append((n, f))
                return self.taken(st, F, n, 'freed')
            return st, H, frozenset(F.items())
        if k == 'Call' and e.get('op') == '=' and e.get('obj') is not None and e.get('args') and tracked(unwrap(e['obj']).get('t')) and path(e['obj']) is not None:
            L = unwrap(e['obj'])
            p = path(L)
            car = st == 'held' and self.carries(e['args'][0], H)
            H, F = self.drop(H, F, p, n, st)
            if car:
                if p[0] == 'var' and not self.isref(p[1]):
                    H = (H - {'#'}) | {p}
                else:
                    self.stores.append((n, L, 'tracked' if L['k'] == 'Mem' else 'field'))
                    return self.taken(st, F, n, 'kept')
            st = self.check_lost(st, H, F, n, 'overwritten')
            return st, H, frozenset(F.items())
        if k in ('Call', 'Ctor'):
            return self.call(st, H, F, n, e)
        if k == 'New' and st == 'held':
            return st, H, frozenset(F.items())
        if k == 'List' and st == 'held' and any(self.carries(x, H) for x in kids(e)):
            return self.taken(st, F, n, 'kept')
        if k == 'Lambda' and st == 'held':
            return self.taken(st, F, n, 'kept')
        return st, H, frozenset(F.items())

    def isref(self, d):
        return self.locals.get(d, '').rstrip().endswith('&')

    def localobj(self, p):
        """A member of an object that lives in a local variable."""
        while p[0] == 'fld':
            p = p[1]
        return p[0] == 'var' and p[1] in self.locals and '*' not in self.locals[p[1]] and '&' not in self.locals[p[1]] and not any(q['d'] == p[1] for q in self.f.params)

    def localarray(self, L):
        b = unwrap(L['b'])
        return b['k'] == 'Ref' and b.get('dk') == 'var' and '[' in self.locals.get(b['d'], '')

    def element(self, L):
        """The local list an element expression is in."""
        if L['k'] == 'Call' and (L.get('op') in ('[]',) or callee_n(L) in ('at', 'back', 'front')) and L.get('obj') is not None:
            o = unwrap(L['obj'])
            if o['k'] == 'Ref' and o.get('dk') == 'var' and not self.isref(o['d']) and not any(q['d'] == o['d'] for q in self.f.params):
                return ('var', o['d'])
        return None

    def box(self, st, F, n, lst):
        """It goes into a local list: somebody has to empty that list."""
        self.boxed.append((n, lst))
        self.drainers(lst)
        return 'boxed', frozenset({lst}), frozenset((k, v) for k, v in F.items() if k != '#')

    def drainers(self, lst):
        """The expressions of the loops that release, or pass on, what is in the list."""
        if lst in self.drains:
            return self.drains[lst]
        self.drains[lst] = (set(), set())
        O, f = self.O, self.f
        inlist = lambda e: any(path(x) == lst for x in walk_e(e) if x['k'] in ('Ref', 'Mem'))
        der = set()
        for _ in range(3):
            for s in walk_s(f.body):
                if s['k'] == 'Decl':
                    for d in s['d']:
                        i = d.get('init')
                        if isinstance(i, dict) and not is_num(d.get('t')) and (inlist(i) or any(x['k'] == 'Ref' and x.get('d') in der for x in walk_e(i))):
                            der.add(d['d'])
                if s['k'] == 'Range' and (inlist(s['r']) or any(x['k'] == 'Ref' and x.get('d') in der for x in walk_e(s['r']))):
                    der.add(s['var']['d'])
            for e in f.exprs():
                if e['k'] == 'Bin' and e['op'] == '=' and unwrap(e['L'])['k'] == 'Ref' and unwrap(e['L']).get('dk') == 'var' and not is_num(e.get('t')) and (inlist(e['R']) or any(x['k'] == 'Ref' and x.get('d') in der for x in walk_e(e['R']))):
                    der.add(unwrap(e['L'])['d'])
        elem = lambda e: unwrap(e)['k'] != 'Int' and not is_num(unwrap(e).get('t')) and path(unwrap(e)) != lst and (inlist(e) or any(x['k'] == 'Ref' and x.get('d') in der for x in walk_e(e)))
        hits, forms = [], set()
        for e in f.exprs():
            if e['k'] == 'Del' and elem(e['e']):
                hits.append(e)
                forms.add('delete[]' if e.get('arr') else 'delete')
            elif e['k'] in ('Call', 'Ctor'):
                o = e.get('obj')
                if o is not None and unwrap(o)['k'] == 'This' and root(lst) == ('this',) and e['k'] == 'Call' and not (e.get('cal') or {}).get('k'):
                    for t in (O.body(t) for t in O.P.targets(e)):
                        if t is None or t.id == f.id:
                            continue
                        r = Flow(O, t, src={'k': 'none'}, form=self.form)
                        r.boxstart = lst
                        r.go()
                        if not r.leaks and r.drains[lst][0]:
                            hits.append(e)
                            forms |= r.drains[lst][1]
                if o is not None and '*' in (unwrap(o).get('t') or '') and elem(o) and O.at_call(e, 'this') != 'use':
                    hits.append(e)
                for i, a in enumerate(e.get('args', ()) or ()):
                    if isinstance(a, dict) and '*' in (unwrap(a).get('t') or '') and elem(a) and not e.get('op') and fname(e) not in ('find', 'erase', 'contains', 'count'):
                        r = O.at_call(e, i) if not (o is not None and fname(e) in ('push_back', 'insert')) else 'keep'
                        if r != 'use':
                            hits.append(e)
            elif e['k'] == 'Bin' and e['op'] == '=' and elem(e['R']) and '*' in (e.get('t') or ''):
                p = path(e['L'])
                if p is None or root(p)[0] != 'var' or p[0] in ('deref',):
                    if not (unwrap(e['L'])['k'] in ('Call', 'Idx') and elem(e['L'])):
                        hits.append(e)
        for s in walk_s(f.body):
            if s['k'] == 'Return' and isinstance(s.get('e'), dict) and elem(s['e']) and '*' in (unwrap(s['e']).get('t') or ''):
                hits += list(walk_e(s['e']))
        ids = {id(x) for h in hits for x in walk_e(h)}
        for s in walk_s(f.body):
            if s['k'] in ('For', 'While', 'Do', 'Range'):
                es = [x for t in walk_s(s) for r in stmt_exprs(t) for x in walk_e(r)]
                if any(id(x) in ids for x in es):
                    ids |= {id(x) for x in es}
        self.drains[lst] = (ids, forms)
        return self.drains[lst]

    def call(self, st, H, F, n, e):
        args = e.get('args', ()) or ()
        ps = (e.get('cal') or {}).get('p') or ()
        if asserts(e):
            return 'done', frozenset(), frozenset()      # the caller broke the contract of the routine
        # what the callee may change
        killed = []
        for i, a in enumerate(args):
            t = ps[i] if i < len(ps) else ''
            t = t.get('t', '') if isinstance(t, dict) else str(t)
            u = unwrap(a)
            if t.rstrip().endswith('&') and not t.startswith('const ') and 'const &' not in t:
                if path(u):
                    killed.append((path(u), i))
            elif u['k'] == 'Un' and u['op'] == '&' and path(u['e']):
                killed.append((path(u['e']), i))
        for p, i in killed:
            F = {q: v for q, v in F.items() if q == '#' or not has(q, p)}
        if st == 'held':
            if any(p in H for p, i in killed if not self.byref_reads(e, i)):
                return self.taken(st, F, n, 'kept')
            o = e.get('obj')
            own = [h for h in H if isinstance(h, tuple) and h[0] == 'fld' and h[1] == ('this',)]
            if own and o is not None and unwrap(o)['k'] == 'This' and e['k'] == 'Call':
                consts = tuple((i, unwrap(a)['v']) for i, a in enumerate(args) if isinstance(a, dict) and unwrap(a)['k'] == 'Int')
                rs = {self.O.does_member(t2, own[0], self.form, consts) for t2 in (self.O.body(t) for t in self.P.targets(e)) if t2 is not None}
                if len(rs) == 1:
                    r = rs.pop()
                    if r.startswith('wrong:'):
                        self.mismatch.append((n, r[6:]))
                    if r == 'free' or r.startswith('wrong:'):
                        return self.taken(st, F, n, 'freed')
                    if r == 'keep':
                        return self.taken(st, F, n, 'kept')
            if o is not None and e.get('op') not in ('==', '!=') and self.carries(o, H):
                r = self.O.at_call(e, 'this')
                if r.startswith('free'):
                    self.form_check(n, r)
                    return self.taken(st, F, n, 'freed')
                if r == 'keep':
                    return self.taken(st, F, n, 'kept')
            for i, a in enumerate(args):
                if not isinstance(a, dict) or not self.carries(a, H):
                    continue
                if e.get('op') in ('==', '!=', '<', '>'):
                    continue
                m = self.O.makes(e) if e['k'] == 'Call' else None
                if m is not None and m[1] == i:
                    continue        # handed back by the call
                if e['k'] == 'Call' and o is not None and fname(e) in ('push_back', 'push_front', 'insert', 'push', 'add'):
                    u = unwrap(o)
                    t = (u.get('t') or '')
                    if u['k'] == 'Ref' and u.get('dk') == 'var' and not self.isref(u['d']) and not any(q['d'] == u['d'] for q in self.f.params) and ('vector' in t or 'list' in t or 'deque' in t or 'map' in t or 'List' in t) and 'FUObjectContainer' not in t:
                        return self.box(st, F, n, ('var', u['d']))
                    self.stores.append((n, u, 'list'))
                    return self.taken(st, F, n, 'kept')
                r = self.O.at_call(e, i)
                if r.startswith('free'):
                    self.form_check(n, r)
                    return self.taken(st, F, n, 'freed')
                if r == 'keep':
                    self.stores.append((n, (e, i), 'call'))
                    return self.taken(st, F, n, 'kept')
        # a fact about members does not survive a call that can change them
        if e['k'] == 'Call' and not (e.get('cal') or {}).get('k'):
            F = {q: v for q, v in F.items() if q == '#' or q[0] == 'var' or q in H}
        return st, H, frozenset(F.items())

    def byref_reads(self, e, i):
        """The reference parameter is only read by the callee (a template's `T&` bound to the pointer, say)."""
        return fname(e) in ('push_back', 'insert', 'find', 'erase', 'swap') or False

    def form_check(self, n, r):
        f = r[5:] if r.startswith('free:') else None
        if f and self.form and f != self.form:
            if self.form in ('xmlFreeNode',) and f in ('xmlFreeNode', 'xmlFreeNodeList'):
                return
            self.mismatch.append((n, f))

    def verdict(self):
        self.go()
        if self.start == ('this',):
            if self.kept or self.returned:
                return 'keep' if self.kept else 'use'
            if self.freed:
                return 'keep' if self.heldexit else 'free'
            return 'use'
        if self.boxed:
            return 'keep'
        if self.kept:
            return 'keep'
        if self.returned and not self.freed:
            return 'use' if not self.returned else 'keep'
        if self.freed:
            return 'keep' if self.heldexit or self.returned else 'free'
        return 'use'
