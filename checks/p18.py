"""P18 -- a part of a document that cannot be loaded or saved makes the whole operation report failure.

For every use of a routine that may report failure, the routine that uses it is followed from that use to each of its
returns with the answer fixed to "failed"; the value returned there must be a failure (false / null) on every path,
whatever the other parts answered.  Routines that answer nothing and are handed a status by reference must leave that
status failed.  The same is asked of each exception handler of the top-level entry points and of a file whose root
element cannot be read.
"""
import os
import facts
from model import *
import p14
from guards import Guards

MAXENV = 96


class Falls:
    """Which routines report failure through their result: the import routines of the archive, and what calls them."""

    def __init__(self, P):
        self.P = P
        self.tab = {c: h for c, (h, w) in p14.handler_tables(P)['L'].items()}
        # the dispatcher: hands its object to whatever its table lists.  That the table lists every kind is P14's business.
        self.switch = {f.id for f in P.fns.values() if f.body is not None and f.r.get('ret') == 'bool' and (f.cls or '').startswith('FArchive')
                       and any(not e.get('cal') and e['k'] == 'Call' and len(e.get('args', ())) == 2 and 'xmlNode' in str(unwrap(e['args'][1]).get('t')) for e in f.exprs())}
        cand = {}
        for f in P.fns.values():
            if f.body is None or f.r.get('ret') != 'bool' or 'Test' in f.file:
                continue
            if f.file.startswith('FColladaPlugins/FArchiveXML') or (f.cls or '') in ('FColladaPluginManager', 'FUXmlDocument', 'FCDocument') or \
                    (f.file.startswith('FCollada/FCollada.') and not f.cls):
                cand[f.id] = f
        base = set()
        self.ids = base
        self.parts = {i for i, f in cand.items() if self.part(f) and i not in self.switch}
        ch = True
        while ch:
            ch = False
            for i in self.parts - base:
                f = cand[i]
                if self.can_fail(f) or any(t.id in base for e in f.calls() for t in self.targets(e)):
                    base.add(i)
                    ch = True
        self.ids = base
        self.cand = cand

    def part(self, f):
        """Its answer says whether the work was done -- not a question about the document, not "was it animated"."""
        n = f.n
        if (f.cls or '') == 'FUXmlDocument':
            return n == 'Write'
        return not n.startswith(('Is', 'Has', 'Find', 'Get', 'Write', 'Add', 'Remove', 'Register', 'Cancel', 'Search', 'Need', 'Contains', 'operator')) and not f.const \
            and n.startswith(('Load', 'Import', 'Export', 'Link', 'Parse', 'Attach', 'Save', 'EndExport', 'StartExport'))

    def targets(self, e):
        ts = self.P.targets(e)
        if any(t.id in self.switch for t in ts):
            return self.dispatched(e)
        return ts

    def dispatched(self, e):
        """The import routines that the dispatcher may hand this object to, going by what it is known to be."""
        a = e['args'][0]
        while a['k'] == 'Cast' and not a.get('ex') and isinstance(a['e'], dict):
            a = a['e']
        t = bare(a.get('t', ''))
        if t in ('FCDObject', 'FUObject', '') or t not in self.P.cls:
            return list(self.tab.values())
        out = [self.tab[c] for c in ({t} | set(self.P.descendants(t))) if c in self.tab]
        if t not in self.tab:
            out += [self.tab[c] for c in self.P.ancestors(t) if c in self.tab][:1]
        return out

    def can_fail(self, f):
        """It says "failed" of its own accord: other than in answer to a part that, as far as is known, never fails."""
        G = None
        for e in f.exprs():
            if e['k'] == 'Bin' and e['op'] in ('=', '&='):
                for y in walk_e(e['R']):
                    if y['k'] == 'Bool' and not y.get('v'):
                        G = G or Guards(f)
                        if self.live(G, e):
                            return True
        for s in stmts(f.body):
            if s['k'] == 'Return' and isinstance(s.get('e'), dict):
                for y in walk_e(s['e']):
                    if y['k'] == 'Bool' and not y.get('v'):
                        G = G or Guards(f)
                        if self.live(G, s['e']):
                            return True
        return False

    def live(self, G, e):
        for g in G.at.get(id(e), ()):
            if len(g) == 2 and isinstance(g[0], dict):
                c, pol = unwrap(g[0]), g[1]
                while c['k'] == 'Un' and c['op'] == '!':
                    c, pol = unwrap(c['e']), not pol
                if c['k'] == 'Call' and not pol:
                    ts = self.targets(c)
                    if ts and all(t.id in self.parts and t.id not in self.ids for t in ts):
                        return False
        return True

    def fallible(self, e):
        return e['k'] == 'Call' and any(t.id in self.ids for t in self.targets(e))


def has(k, p):
    return k == p or any(has(x, p) for x in k if isinstance(x, tuple))


def stmts(s):
    if isinstance(s, dict):
        yield s
        for k in sub_stmts(s):
            yield from stmts(k)


class Track:
    """Values of flags and pointers along the paths that start at one event."""

    def __init__(self, f, src=None, handler=None, start=None):
        self.f, self.src, self.handler, self.start = f, src, handler, start
        self.cfg = f.cfg()
        self.bad = []
        self.swallowed = False
        self.keep = self.relevant()

    def key(self, e):
        e = unwrap(e)
        if e['k'] in ('Ref', 'Mem', 'Un'):
            p = path(e)
            return p if p in self.keep else None
        return None

    def val(self, e, env):
        if not isinstance(e, dict):
            return None
        if self.src is not None and e is self.src:
            return env.get('#')
        k = e['k']
        if k == 'Cast':
            return self.val(e['e'], env)
        if k in ('Bool', 'Int'):
            return 'T' if e.get('v') else 'F'
        if k == 'Null':
            return 'F'
        if k == 'Ref' and e.get('v') is not None and e.get('dk') != 'parm' and isinstance(e.get('v'), (int, bool)):
            return 'T' if e['v'] else 'F'
        if k == 'Un':
            if e['op'] == '!':
                v = self.val(e['e'], env)
                return {'T': 'F', 'F': 'T'}.get(v)
        if k == 'Bin':
            op = e['op']
            if op in ('=',):
                return self.val(e['R'], env)
            if op in ('&=', '&', '&&'):
                l, r = self.val(e['L'], env), self.val(e['R'], env)
                if op == '&=':
                    # evaluated after the store: the left side already holds the answer
                    return l if l is not None else r
                return 'F' if 'F' in (l, r) else 'T' if l == r == 'T' else None
            if op in ('|=', '|', '||'):
                l, r = self.val(e['L'], env), self.val(e['R'], env)
                if op == '|=':
                    return l
                return 'T' if 'T' in (l, r) else 'F' if l == r == 'F' else None
            if op in ('==', '!='):
                l, r = self.val(e['L'], env), self.val(e['R'], env)
                ptr_or_bool = True
                if 'F' in (l, r) and l and r:
                    return ('T' if op == '==' else 'F') if l == r else ('F' if op == '==' else 'T')
                if l == r == 'T' and all(str(unwrap(x).get('t', '')) == 'bool' for x in (e['L'], e['R'])):
                    return 'T' if op == '==' else 'F'
                return None
            if op == ',':
                return self.val(e['R'], env)
        if k == 'Cond':
            c = self.val(e['c'], env)
            if c == 'T':
                return self.val(e['T'], env)
            if c == 'F':
                return self.val(e['F'], env)
            a, b = self.val(e['T'], env), self.val(e['F'], env)
            return a if a == b else None
        if k in ('New', 'This'):
            return 'T'
        p = self.key(e)
        if p is not None:
            return env.get(p)
        return None

    def kill(self, env, p):
        return {k: v for k, v in env.items() if not (k == p or (isinstance(k, tuple) and has(k, p)))}

    def relevant(self):
        """The variables worth following: flags, what is returned, and what receives the answer."""
        keep = set()
        f = self.f
        for p in f.params:
            if p['t'].replace(' ', '').replace('const', '') in ('bool', 'bool&'):
                keep.add(('var', p['d']))
        for s in stmts(f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    if d['t'] == 'bool' or (isinstance(d.get('init'), dict) and any(x is self.src for x in walk_e(d['init']))):
                        keep.add(('var', d['d']))
            if s['k'] == 'Return' and isinstance(s.get('e'), dict):
                for x in walk_e(s['e']):
                    if x['k'] == 'Ref' and path(x):
                        keep.add(path(x))
            for e in stmt_exprs(s):
                for x in walk_e(e):
                    if x['k'] == 'Bin' and x['op'] == '=' and any(y is self.src for y in walk_e(x['R'])) and path(unwrap(x['L'])):
                        keep.add(path(unwrap(x['L'])))
                    if x['k'] == 'Mem' and x.get('t') == 'bool' and path(x):
                        keep.add(path(x))
        return keep

    def step(self, st, n):
        """st: frozenset of environments (frozensets of items) or the marker 'pre'."""
        out = set()
        for en in st:
            if en == 'pre':
                if self.handler is not None:
                    out.add(frozenset() if n.i == self.handler else 'pre')
                    continue
                if n.k == 'ev' and n.e is self.src:
                    out.add(frozenset({('#', 'F')}))
                else:
                    out.add('pre')
                continue
            env = dict(en)
            if n.k == 'ev' and n.e is self.src:
                env.pop('#', None)        # asked again: the answer is not known this time
                out.add(frozenset(env.items()))
                continue
            if n.k == 'decl':
                d = n.e
                p = ('var', d['d'])
                env = self.kill(env, p)
                if isinstance(d.get('init'), dict) and p in self.keep:
                    v = self.val(d['init'], dict(en))
                    if v:
                        env[p] = v
            elif n.k == 'ev':
                e = n.e
                if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                    p = self.key(e['L'])
                    if p is not None:
                        old = env.get(p)
                        r = self.val(e['R'], env)
                        env = self.kill(env, p)
                        op = e['op']
                        v = None
                        if op == '=':
                            v = r
                        elif op == '&=':
                            v = 'F' if 'F' in (old, r) else 'T' if old == r == 'T' else None
                        elif op == '|=':
                            v = 'T' if 'T' in (old, r) else 'F' if old == r == 'F' else None
                        elif op == '+=':
                            v = 'T' if 'T' in (old, r) else old if r == 'F' else None      # a count of failures
                        if v:
                            env[p] = v
                elif e['k'] == 'Un' and e['op'] in ('++', '--'):
                    p = self.key(e['e'])
                    if p:
                        env = self.kill(env, p)
                        if e['op'] == '++':
                            env[p] = 'T'
                elif e['k'] in ('Call', 'Ctor'):
                    ps = (e.get('cal') or {}).get('p') or ()
                    lowered = self.told(e, ps, env)
                    for i, a in enumerate(e.get('args', ())):
                        t = ps[i] if i < len(ps) else ''
                        t = t.get('t', '') if isinstance(t, dict) else str(t)
                        u = unwrap(a)
                        if t.rstrip().endswith('&') and 'const' not in t:
                            p = self.key(u)
                            # a status passed on to a helper that only lowers it stays lowered
                            if p in lowered:
                                env[p] = 'F'
                            elif p and not (env.get(p) == 'F' and self.lowers(e, i)):
                                env = self.kill(env, p)
                        elif u['k'] == 'Un' and u['op'] == '&':
                            p = self.key(u['e'])
                            if p:
                                env = self.kill(env, p)
                    if e['k'] == 'Call' and e.get('op') and e.get('op', '').endswith('=') and e.get('args') and e['op'] not in ('==', '!=', '<=', '>='):
                        p = self.key(e['args'][0])
                        if p:
                            env = self.kill(env, p)
            elif n.k == 'ret':
                self.at_return(env, n)
            out.add(frozenset(env.items()))
        if len(out) > MAXENV:
            # keep what all agree on
            envs = [dict(x) for x in out if x != 'pre']
            common = {k: v for k, v in envs[0].items() if all(o.get(k) == v for o in envs)}
            out = {frozenset(common.items())} | ({'pre'} if 'pre' in out else set())
        return frozenset(out)

    def told(self, e, ps, env):
        """Flags handed by reference to a helper that is also handed the failed answer, and that lowers them on every path for it."""
        if self.start is not None or not any(t.replace(' ', '') == 'bool&' for t in ps):
            return ()
        bad = [i for i, a in enumerate(e.get('args', ())) if i < len(ps) and ps[i].strip() in ('bool', 'const bool') and self.val(a, env) == 'F']
        ts = self.P.targets(e)
        if not bad or not ts:
            return ()
        for t in ts:
            if t.body is None or Track(t, start={('var', t.params[i]['d']): 'F' for i in bad}).run(self.P):
                return ()
        return {self.key(a) for i, a in enumerate(e['args']) if i < len(ps) and ps[i].replace(' ', '') == 'bool&' and self.key(a)}

    def lowers(self, e, i):
        P = self.P
        for t in P.targets(e):
            if not self.lowering_fn(t, i):
                return False
        return bool(P.targets(e))

    def lowering_fn(self, t, i):
        if t.body is None or i >= len(t.params):
            return False
        p = ('var', t.params[i]['d'])
        for e in t.exprs():
            if e['k'] == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>=') and path(unwrap(e['L'])) == p:
                if e['op'] == '&=':
                    continue
                r = unwrap(e['R'])
                if e['op'] == '=' and r['k'] == 'Bool' and not r.get('v'):
                    continue
                return False
        return True

    def assume(self, st, a):
        if a is None or not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], bool)):
            return st
        c, pol = a
        out = set()
        for en in st:
            if en == 'pre':
                out.add(en)
                continue
            env = dict(en)
            v = self.val(c, env)
            if v is not None:
                if (v == 'T') == pol:
                    out.add(en)
                continue
            out.add(frozenset(self.refine(env, c, pol).items()))
        return frozenset(out) if out else None

    def refine(self, env, c, pol):
        u = unwrap(c)
        if u['k'] == 'Un' and u['op'] == '!':
            return self.refine(env, u['e'], not pol)
        if u['k'] == 'Bin' and u['op'] in ('==', '!='):
            for x, y in ((u['L'], u['R']), (u['R'], u['L'])):
                v = self.val(y, env)
                yb = unwrap(y)
                if v is None or self.key(x) is None:
                    continue
                eq = (u['op'] == '==') == pol
                if v == 'F':
                    env[self.key(x)] = 'F' if eq else 'T'
                    return env
                if v == 'T' and yb['k'] == 'Bool':
                    env[self.key(x)] = 'T' if eq else 'F'
                    return env
            return env
        if u['k'] == 'Bin' and u['op'] == '=':
            u = unwrap(u['L'])
        p = self.key(u)
        if p is not None and u['k'] in ('Ref', 'Mem'):
            env[p] = 'T' if pol else 'F'
        return env

    def at_return(self, env, n):
        f = self.f
        ret = f.r.get('ret')
        if ret == 'void' or f.kind == 'ctor':
            refs = [('var', p['d']) for p in f.params if p['t'].replace(' ', '') == 'bool&']
            if not refs:
                self.swallowed = True
                self.bad.append(n)
            elif not any(env.get(r) == 'F' for r in refs):
                self.bad.append(n)
            return
        if n.e is None or self.val(n.e, env) != 'F':
            self.bad.append(n)

    def run(self, P):
        self.P = P
        solve(self.cfg, frozenset({frozenset(self.start.items()) if self.start is not None else 'pre'}), self.step, self.assume, lambda a, b: a | b)
        # the solver may visit a return more than once while the states grow: report each once
        seen, out = set(), []
        for n in self.bad:
            if n.i not in seen:
                seen.add(n.i)
                out.append(n)
        return out


def answers(f):
    """Routines whose result is the outcome: a status, the document itself, or a status handed in by reference -- and, in the archive,
    helpers that answer nothing at all."""
    ret = f.r.get('ret', '')
    if ret == 'bool' or ret.replace(' ', '') == 'FCDocument*':
        return True
    return ret == 'void' and f.file.startswith('FColladaPlugins/FArchiveXML')


def run(P, R):
    F = Falls(P)
    R.analysed['fallible routines'] = len(F.ids)
    uses = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or 'Test' in f.file or f.file.startswith('/'):
            continue
        sites = [e for e in f.calls() if F.fallible(e)]
        if not sites or not answers(f):
            continue
        cnt = {}
        for e in sites:
            n = callee_n(e)
            cnt[n] = cnt.get(n, 0) + 1
            bad = Track(f, src=e).run(P)
            uses += 1
            R.ob('use:%s:%s:%d' % (f.q, n, cnt[n]), f.loc(e), not bad,
                 '%s may still report success after %s failed (it returns at line %s)' % (f.n, n, ', '.join(str(b.line) for b in bad[:3])) if not bad or not any(b.e is None for b in bad)
                 else '%s does not pass on that %s failed' % (f.n, n))
    R.analysed['uses followed'] = uses
    # exceptions and unreadable files
    tops = [f for f in P.fns.values() if f.body is not None and f.cls and P.derives(f.cls, 'FCPArchive') and f.r.get('ret') == 'bool'
            and f.n.startswith(('Import', 'Export', 'EndExport', 'StartExport'))]
    nh = 0
    other = {}
    for base in sorted({os.path.basename(f.file) for f in tops if f.file.endswith('.cpp')}):
        recs = facts.variant(facts.REPO, base, drop=('-D_DEBUG',))
        if recs is not None:
            other.update(Program(recs=recs).fns)
    for f in sorted(tops, key=lambda f: f.line):
        # the checked build leaves exceptions to the debugger; the handlers are those of the other build
        g = other.get(f.id, f)
        cfg = g.cfg()
        hs = handler_nodes(g, cfg)
        for i, h in enumerate(hs):
            bad = Track(g, handler=h).run(P)
            nh += 1
            R.ob('handler:%s:%d' % (f.q + sig(f), i + 1), '%s:%d' % (f.file, cfg.nodes[h].line), not bad,
                 '%s may report success after an exception (it returns at line %s)' % (f.n, ', '.join(str(b.line) for b in bad[:3])))
        for e in f.calls():
            if callee_n(e) == 'GetRootNode' and feeds(f, e):
                bad = Track(f, src=e).run(P)
                R.ob('root:%s' % (f.q + sig(f)), f.loc(e), not bad, '%s may report success when the file has no root element' % f.n)
    R.analysed['exception handlers'] = nh
    R.floor('uses of routines that can fail', uses, 60)
    R.floor('fallible routines', len(F.ids), 40)


def sig(f):
    return '/%d' % len(f.params)


def feeds(f, e):
    """The root element goes into a local (as opposed to a question asked of a document that is already loaded)."""
    return f.n.startswith('Import')


def handler_nodes(f, cfg):
    hs = []
    for s in stmts(f.body):
        if s['k'] == 'Try':
            for h in s['h']:
                l = h.get('l', s.get('l', 0))
                hs.append((l, h))
    # the first node created for each handler is the target of the exceptional edges
    tgt = set()
    for n in cfg.nodes:
        if n.k == 'ev' and n.e['k'] in ('Call', 'Ctor', 'New', 'Throw'):
            for t, a in n.succ:
                if cfg.nodes[t].k == 'nop' and cfg.nodes[t].line in {l for l, _ in hs} and len(n.succ) > 1:
                    tgt.add(t)
    return sorted(tgt)
