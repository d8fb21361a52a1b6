"""P20: what a routine allocates is released once, in the form it was allocated."""
import sys
from model import *
from owner import *

PTRLIST = ('fm::pvector<', 'fm::vector<', 'fm::map<', 'fm::set<', 'std::vector<', 'std::map<', 'std::list<')


def run(P, R):
    sys.setrecursionlimit(6000)
    O = Owners(P)
    O.factories()
    fields, lists = {}, {}
    n = 0
    cnt = {}
    byfile = {}
    for f in O.fns:
        for e in list(f.exprs()):
            fm = O.acquires(e) if e['k'] in ('New', 'Call') else None
            if not fm:
                continue
            n += 1
            byfile[f.file.split('/')[-1]] = byfile.get(f.file.split('/')[-1], 0) + 1
            r = Flow(O, f, src=e, form=fm).go()
            t = show(e)
            cnt[f.q, t] = cnt.get((f.q, t), 0) + 1
            k = '%s:%s:%d' % (f.q, t, cnt[f.q, t])
            if r.mismatch:
                nd, w = r.mismatch[0]
                R.ob(k, '%s:%d' % (f.file, nd.line), False, '%s releases what %s acquired with %s instead of %s' % (f.n, t, w, fm))
            else:
                why = r.leaks[0] if r.leaks else None
                R.ob(k, f.loc(e), not why, '%s: what %s acquires is not released on the path to line %s (%s)' % (f.n, t, why and why[0].line, why and why[1]))
            for nd, L, kind in handed(O, r.stores):
                if kind == 'init' and nd.e.get('f'):
                    fields.setdefault((f.cls, nd.e['f']), []).append((f, fm, nd))
                elif kind in ('field', 'tracked') and L['k'] == 'Mem' and L.get('dk') == 'field':
                    fields.setdefault((L.get('c'), L['n']), []).append((f, fm, nd))
                elif kind == 'list' and L['k'] == 'Mem' and L.get('dk') == 'field' and (L.get('t') or '').replace('const ', '').startswith(PTRLIST):
                    lists.setdefault((L.get('c'), L['n']), []).append((f, fm, nd))
    R.analysed['acquisitions followed'] = n
    R.analysed['routines that hand out what they acquired'] = len(O.fact)
    for k in sorted(byfile):
        R.notes.append('%s: %d acquisitions' % (k, byfile[k]))
    owned(P, R, O, fields)
    owned_lists(P, R, O, lists)
    dead(P, R, O)
    destructors(P, R, O)
    R.floor('acquisitions', n, 150)
    R.floor('owned members', len(fields), 12)


def handed(O, stores, depth=2):
    """The stores, with those of the routines it is handed to."""
    for nd, L, kind in stores:
        if kind != 'call':
            yield nd, L, kind
        elif depth:
            e, i = L
            for t in O.P.targets(e) if e['k'] == 'Call' else ():
                t = O.body(t)
                if t is None or t.cls is None or i >= len(t.params) or t.cls.startswith(('fm::', 'FUObject', 'FUTracked')):
                    continue
                k = t.id, i
                if k not in O.flagmemo:
                    O.flagmemo[k] = Flow(O, t, start=('var', t.params[i]['d'])).go().stores
                yield from handed(O, O.flagmemo[k], depth - 1)


def dtor_of(P, c):
    for q in [c]:
        for f in P.fns.values():
            if f.cls == q and f.kind == 'dtor' and f.body is not None:
                return f
    return None


def owned(P, R, O, fields):
    """Members that are handed what was acquired: the destructor releases them, and nothing overwrites them while they hold it."""
    m = 0
    for (c, name), sites in sorted(fields.items(), key=str):
        if not c or c not in P.cls or P.cls[c].r.get('file', 'FC').startswith('/usr') or c.startswith('_xml'):
            continue
        fm = sites[0][1]
        m += 1
        forms = {s[1] for s in sites}
        R.ob('form:%s::%s' % (c, name), sites[0][0].loc(), len(forms) == 1, '%s::%s holds what is to be released in different forms (%s)' % (c, name, ', '.join(sorted(forms))))
        d = dtor_of(P, c)
        p = ('fld', ('this',), name)
        if d is None or not [e for e in d.exprs()]:
            ok = any(rel for f in O.fns for rel in [releases_field(O, f, c, name, fm)] if rel)
            R.ob('dtor:%s::%s' % (c, name), sites[0][0].loc(), ok, '%s::%s is never released as what was acquired for %s' % (c, name, fm))
        else:
            r = Flow(O, d, start=p, form=fm)
            r.go()
            bad = None
            if r.mismatch:
                bad = 'it is released with %s, and was acquired for %s' % (r.mismatch[0][1], fm)
            elif r.heldexit or r.lost or not (r.freed or r.kept):
                bad = 'the destructor does not release it'
            maybe = bool(r.freed and (r.heldexit or r.lost))        # it is known elsewhere whether it is owned
            if maybe and all(s[2].e['k'] == 'Call' and s[2].e.get('op') == '=' for s in sites):
                bad = None
            R.ob('dtor:%s::%s' % (c, name), d.loc(), bad is None, '%s::%s: %s' % (c, name, bad))
            if maybe and bad is None:
                continue
        for f in O.fns:
            if f.kind in ('ctor', 'dtor') and f.cls == c or f.n == 'OnObjectReleased':
                continue        # what is being released by somebody else is only let go
            ps = set()
            for e in f.exprs():
                if e['k'] == 'Call' and e.get('op') == '=' and e.get('obj') is not None and tracked(unwrap(e['obj']).get('t')):
                    L = unwrap(e['obj'])
                    if L['k'] == 'Mem' and L.get('dk') == 'field' and L['n'] == name and L.get('c') == c and path(L):
                        ps.add(path(L))
                if e['k'] == 'Bin' and e['op'] == '=':
                    L = unwrap(e['L'])
                    if L['k'] == 'Mem' and L.get('dk') == 'field' and L['n'] == name and L.get('c') == c and path(L):
                        ps.add(path(L))
            for q in sorted(ps, key=str):
                r = Flow(O, f, start=q, form=fm)
                r.born = root(q) if root(q)[0] == 'var' else None
                r.go()
                lost = r.lost[:1]
                m += 1
                R.ob('over:%s::%s:%s:%s' % (c, name, f.q, q[0]), '%s:%d' % (f.file, lost[0].line) if lost else f.loc(), not lost and not r.mismatch,
                     '%s overwrites %s::%s while it may still hold what was acquired' % (f.n, c, name) if lost else '%s releases %s::%s in another form than %s' % (f.n, c, name, fm))
    R.analysed['obligations of owning members'] = m


def owned_lists(P, R, O, lists):
    """Lists of plain pointers to what was acquired: the destructor releases the elements; whoever drops elements releases them."""
    m = 0
    for (c, name), sites in sorted(lists.items(), key=str):
        if not c or c not in P.cls:
            continue
        fm = sites[0][1]
        m += 1
        d = dtor_of(P, c)
        p = ('fld', ('this',), name)
        ok = False
        if d is not None:
            r = Flow(O, d, src={'k': 'none'}, form=fm)
            r.boxstart = p
            r.go()
            ok = not r.leaks and not r.mismatch
        R.ob('dtor-list:%s::%s' % (c, name), d.loc() if d else sites[0][0].loc(), ok, '%s::%s: the destructor does not release the elements in the form they were acquired' % (c, name))
        # removals
        for f in O.fns:
            if f.kind == 'dtor':
                continue
            for e in f.exprs():
                if e['k'] == 'Call' and e.get('obj') is not None and fname(e) in ('clear', 'erase', 'pop_back', 'resize'):
                    o = unwrap(e['obj'])
                    if o['k'] == 'Mem' and o.get('dk') == 'field' and o['n'] == name and o.get('c') == c and path(o):
                        if fname(e) == 'resize' and f.kind == 'ctor':
                            continue
                        ids, forms = Flow(O, f, src={'k': 'none'}).drainers(path(o))
                        if not ids:
                            ids = gives_up(O, f, (o.get('t') or ''))
                        m += 1
                        R.ob('drop:%s::%s:%s:%s' % (c, name, f.q, fname(e)), f.loc(e), bool(ids) and (fm in forms or not forms), '%s drops elements of %s::%s without releasing them' % (f.n, c, name))
    R.analysed['obligations of owning lists'] = m


def releases_field(O, f, c, name, fm):
    for e in f.exprs():
        a = None
        if e['k'] == 'Del' and fm == ('delete[]' if e.get('arr') else 'delete'):
            a = e['e']
        elif e['k'] == 'Call' and e.get('args') and O.at_call(e, 0) == 'free:' + fm:
            a = e['args'][0]
        if a is not None:
            u = unwrap(a)
            if u['k'] == 'Mem' and u['n'] == name and u.get('c') == c:
                return True
    return False


def gives_up(O, f, t):
    """Releases of a pointer of the kind that is in the list."""
    out = []
    for e in f.exprs():
        u = unwrap(e['e']) if e['k'] == 'Del' else unwrap(e['obj']) if e['k'] == 'Call' and e.get('obj') is not None and O.at_call(e, 'this').startswith('free') else None
        if u is not None and bare(u.get('t')) and bare(u.get('t')) in t:
            out.append(e)
    return out


def dead(P, R, O):
    """After a release nothing uses the pointer that was released."""
    n = 0
    cnt = {}
    for f in O.fns:
        for e in list(f.exprs()):
            p = None
            if e['k'] == 'Del':
                p = path(e['e'])
            elif e['k'] == 'Call':
                if e.get('obj') is not None and fname(e) == 'Release' and not e.get('args') and is_ptr(unwrap(e['obj']).get('t')) and not e.get('op'):
                    p = path(e['obj'])
                else:
                    for i, a in enumerate(e.get('args', ()) or ()):
                        if isinstance(a, dict) and is_ptr(unwrap(a).get('t')) and path(a) and path(a)[0] != 'addr' and O.at_call(e, i).startswith('free'):
                            p = path(a)
                            break
            if p is None or p == ('this',) or p[0] == 'addr':
                continue
            n += 1
            r = Dead(O, f, e, p)
            r.go()
            t = show(e)
            cnt[f.q, t] = cnt.get((f.q, t), 0) + 1
            R.ob('dead:%s:%s:%d' % (f.q, t, cnt[f.q, t]), '%s:%d' % (f.file, r.uses[0][0].line) if r.uses else f.loc(e), not r.uses,
                 '%s: %s after %s' % (f.n, r.uses and r.uses[0][1], t))
    R.analysed['releases followed'] = n


class Dead(Flow):
    """Follows the name of something that was just released."""

    def __init__(self, O, f, src, p):
        Flow.__init__(self, O, f, src=src, form=None)
        self.p = p

    def go(self):
        cfg = self.f.cfg()
        self.spread(cfg, {('pre', frozenset(), frozenset())})

    def advance(self, en, node):
        return self.step2(en, node)

    def branch(self, en, asm):
        q = self.learn(asm[0], 'T' if asm[1] else 'F', (frozenset(), dict(en[2])))
        return None if q is None else (en[0], en[1], frozenset(q[1].items()))

    def step2(self, en, n):
        st, H, F = en
        if n.k == 'decl' and n.e.get('n') == 'ignoreAssert':
            return None
        if n.k == 'ev' and n.e is self.src:
            if st == 'dead':
                self.uses.append((n, 'releases %s again' % show(self.src)))
            return 'dead', frozenset({self.p}), F
        if st == 'pre':
            r = Flow.step(self, (st, frozenset(), F), n)
            return ('pre', frozenset(), r[2]) if r is not None else None
        # dead
        if n.k == 'decl':
            if has(self.p, ('var', n.e['d'])):
                return None
            return en[0], en[1], Flow.step(self, ('pre', frozenset(), F), n)[2]
        if n.k == 'ret':
            e = n.e
            if isinstance(e, dict) and path(e) == self.p and is_ptr(unwrap(e).get('t')):
                self.uses.append((n, 'returns the pointer'))
            elif self.p[0] == 'fld' and self.f.kind != 'dtor' and root(self.p)[0] in ('this',):
                self.uses.append((n, 'the member keeps pointing to what was released'))
            return None
        if n.k != 'ev':
            return en
        e = n.e
        k = e['k']
        if k == 'Bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            p = path(e['L'])
            if p is not None and has(self.p, p):
                return None
        if k == 'Un' and e['op'] in ('++', '--') and path(e['e']) is not None and has(self.p, path(e['e'])):
            return None
        if k == 'Mem' and e.get('a') and path(e['b']) == self.p or k == 'Idx' and path(e['b']) == self.p or k == 'Un' and e['op'] == '*' and path(e['e']) == self.p:
            self.uses.append((n, 'uses %s' % show(e)))
            return None
        if k == 'Del' and path(e['e']) == self.p:
            self.uses.append((n, 'releases it again'))
            return None
        if k in ('Call', 'Ctor'):
            o = e.get('obj')
            if o is not None and path(o) == self.p and is_ptr(unwrap(o).get('t')) and not e.get('op'):
                self.uses.append((n, 'uses %s' % show(e)))
                return None
            ps = (e.get('cal') or {}).get('p') or ()
            for i, a in enumerate(e.get('args', ()) or ()):
                if not isinstance(a, dict):
                    continue
                q = path(a)
                t = str(ps[i]) if i < len(ps) else ''
                if q is not None and q[0] == 'addr' and has(self.p, q[1]) or q is not None and t.rstrip().endswith('&') and 'const' not in t and has(self.p, q):
                    return None
                if q == self.p and is_ptr(unwrap(a).get('t')) and not e.get('op') and not any(x.startswith('free') for x in ()):
                    if o is not None and fname(e) in ('erase', 'find', 'contains', 'remove', 'count', 'release', 'replace', 'push_back', 'insert') and fname(e) not in ('push_back', 'insert'):
                        continue        # only the value of the pointer matters
                    if e is self.src:
                        continue
                    ts = self.P.targets(e)
                    if ts and all(self.O.body(t) is not None and not derefs(self.O, self.O.body(t), i) for t in ts):
                        continue
                    self.uses.append((n, 'hands it to %s' % fname(e)))
                    return None
            if self.p[0] == 'fld' and k == 'Call' and not (e.get('cal') or {}).get('k') and o is not None:
                op = path(o)
                if op is not None and op == self.p[1] or op is not None and ('deref', op) == self.p[1]:
                    return None         # a member function may set it again
        r = Flow.step(self, ('pre', frozenset(), F), n)
        return ('dead', H, r[2]) if r is not None else None


def derefs(O, f, i, memo={}):
    """The routine looks at what its parameter points to."""
    k = f.id, i
    if k not in memo:
        memo[k] = True
        if i < len(f.params):
            p = ('var', f.params[i]['d'])
            memo[k] = any(e['k'] == 'Mem' and e.get('a') and path(e['b']) == p or e['k'] == 'Idx' and path(e['b']) == p or e['k'] == 'Un' and e['op'] == '*' and path(e['e']) == p
                          or e['k'] == 'Call' and (e.get('obj') is not None and path(e['obj']) == p or any(isinstance(a, dict) and path(a) == p for a in e.get('args', ()) or ())) or e['k'] == 'Del'
                          for e in f.exprs())
    return memo[k]


def costly(P, c, seen=()):
    """Destroying one does something."""
    r = P.cls.get(c)
    if r is None:
        return c.startswith(('fm::', 'std::', 'FU')) and not c.startswith('FUCrc')
    if c in seen:
        return False
    return any(m.get('kind') == 'dtor' and not m.get('implicit') for m in r.methods) or any(costly(P, b['q'] if isinstance(b, dict) else b, (*seen, c)) for b in r.bases) or \
        any(not is_ptr(x['t']) and '&' not in x['t'] and costly(P, bare(x['t']), (*seen, c)) for x in r.fields)


def destructors(P, R, O):
    """An object deleted through a base class has a virtual destructor."""
    n = 0
    made = {bare(e.get('nt')) for f in O.fns for e in f.exprs() if e['k'] == 'New'}
    seen = {}
    for f in O.fns:
        for e in f.exprs():
            if e['k'] == 'Del':
                seen.setdefault(bare(e.get('dt')), (f, e))
    for c, (f, e) in sorted(seen.items()):
        if c not in P.cls:
            continue
        kids_ = sorted(d for d in P.descendants(c) if d != c and d in made and costly(P, d))
        if not kids_:
            continue
        n += 1
        ok = any(m.get('virt') for q in [c] + list(P.ancestors(c)) if q in P.cls for m in P.cls[q].methods if m.get('kind') == 'dtor')
        R.ob('virtual:%s' % c, f.loc(e), ok, '%s is deleted through its base class %s, whose destructor is not virtual' % (kids_[0], c))
    R.analysed['base classes deleted through'] = n
