"""A data-flow analysis over the exporting and importing functions computes, for every member of the model, the document names
(element, attribute, parameter or input semantic) its value is written under and the names it is read from, through helper
functions, local variables, name comparisons and setters. Every name a value is written under must be one that value is read
from; every value that is read must be written under one of the names it is read from; a reference is written under a name the
importer looks for. The text or element that stands for a kind when it is written stands for the same kind when it is read
(constant facts from comparisons, switch cases and element look-ups). A list made with a size is filled in place, not appended to."""
from xmlflow import *
from kinds import Kinds

DYNAMIC = ('*', '~', '?', 'unknown', 'UNKNOWN')
# members with no document name of their own (see DESIGN.md)
NO_NAME = {
    'FCDENode': 'names are the user\'s own',
    'FCDEAttribute': 'names are the user\'s own',
    'FCDAnimationMultiCurve': 'merged view made for export; read back as separate curves',
    'FCDAnimationMKey': 'merged view made for export',
    'FCDAnimationMKeyBezier': 'merged view made for export',
    'FCDAnimationMKeyTCB': 'merged view made for export',
    'FCDVersion': 'text of the document version, not a member value',
    'FCDPlaceHolder': 'address of another document',
    'FCDocument::animatedValues': 'registry',
    'FCDSceneNode::children': 'structure',
    'FCDTLookAt::lookAt': 'one list of nine numbers as the element\'s content',
    'FCDGeometryMesh::vertexSources': 'which sources belong to the vertices, not a value',
    'FCDGeometrySource::sourceType': 'per-input semantic',
    'FCDGeometrySource::stride': 'attribute of the source accessor',
    'FCDGeometrySpline::type': 'written per spline from the spline\'s own class',
    'FCDEffectParameterSurface::names': 'ids of the referenced images',
}


def field_type(P, m):
    c, n = m.split('::')[-2:]
    if c in P.cls:
        for x in P.cls[c].fields:
            if x['n'] == n:
                return x['t']
    return 'flag' if n.endswith('Flag') else None


def is_value(t):
    if t is None:
        return False
    if any(w in t for w in ('FUObjectRef', 'Container', 'TrackedPtr', 'PtrRef', 'Ref<')):
        return False
    if 'FCDEffectParameter' in t:
        return True
    if t.endswith('*') or ('vector' in t and '*' in t) or 'TrackedList' in t:
        return False
    return True


def exempt(m):
    return m in NO_NAME or m.split('::')[0] in NO_NAME


class Names:
    def __init__(self, P):
        self.P = P
        self.X = X = XmlFlow(P)
        self.W, self.Rd = {}, {}
        self.nf = 0
        raw = []
        for f in sorted(P.fns.values(), key=lambda f: f.id):
            if not f.file.startswith('FColladaPlugins/FArchiveXML') or not f.body:
                continue
            s = X.summary(f)
            if s is None:
                continue
            self.nf += 1
            raw.append(s)
        for s in raw:
            for (p, tg, weak), loc in s['w'].items():
                if tg[0] != 'm':
                    continue
                for x in self.expand(p[-1]):
                    self.W.setdefault((loc, x), {}).setdefault(tg[1], set()).add((p, weak))
            for (g, m, tg, weak), loc in s['r'].items():
                if tg[0] in ('n', 'nd') and not m.startswith('$'):
                    self.Rd.setdefault(m, {}).setdefault(tg[1], set()).add((weak, loc))
        self.rn = {}
        for m, d in self.Rd.items():
            part = {}
            for p, l in d.items():
                for w, _ in l:
                    if isinstance(w, str):
                        part.setdefault(p[-1], set()).add(w)
                    else:
                        self.rn.setdefault(m, set()).add(p[-1])
            # assigned component by component: the whole value only when more than one component is
            self.rn.setdefault(m, set()).update(x for x, c in part.items() if len(c) > 1)
        self.roots = {m for m, d in self.Rd.items() if any(len(p) == 1 and p[0].startswith('$') for p in d)}
        self.wn = {}
        for (loc, x), ms in self.W.items():
            for m in ms:
                self.wn.setdefault(m, set()).add(x)
        self.wr = {m for ms in self.W.values() for m, l in ms.items() if any(len(p) == 2 and p[0].startswith('$') for p, w in l)}

    def expand(self, x):
        if x.startswith('#'):
            return ['#' + y for y in self.X.inputs.get(x[1:], ())] or ['#?']
        return [x]

    def wild(self, m, p):
        """Read from any child of an element that is named."""
        return len(p) > 1 and any(q[-1] == '*' and len(q) > 1 and q[-2] == p[-2] and not q[-2].startswith(('$', '~', '*')) for q in self.Rd.get(m, ()))


def imported_names(P, X):
    out = set()
    for f in P.fns.values():
        if f.file.startswith('FColladaPlugins/FArchiveXML') and f.body and ('Import' in f.file or 'Parser' in f.file or 'FArchiveXML.cpp' in f.file or 'Linking' in f.file):
            for e in f.exprs():
                if e['k'] == 'Str':
                    out.add(e['s'])
                elif e['k'] == 'Ref' and e.get('q'):
                    g = P.vars.get(e['q'])
                    if g is not None and isinstance(g.get('init'), dict) and unwrap(g['init'])['k'] == 'Str':
                        out.add(unwrap(g['init'])['s'])
    return out


def by_reference(P, ms):
    """The text identifies another object: one member designates it and another gives its identity."""
    ptr = [m for m in ms if not is_value(field_type(P, m)) and not exempt(m)]
    return ptr or any(m.split('::')[0].endswith('Data') for m in ms)


def run(P, R):
    N = Names(P)
    seen = imported_names(P, N.X)
    nw = nr = nref = 0
    for (loc, x), ms in sorted(N.W.items()):
        if x in DYNAMIC or x.startswith('$') or x == '#?':
            continue
        if all(w for l in ms.values() for p, w in l):
            continue
        mine = sorted(m for m in ms if not exempt(m))
        if not mine:
            continue
        ok = any(x in N.rn.get(m, ()) for m in mine)
        ok = ok or any(m in N.roots and any(len(p) == 2 and p[0].startswith('$') for p, w in ms[m]) for m in mine)
        ok = ok or any(N.wild(m, p) for m in mine for p, w in ms[m])
        if not ok and (by_reference(P, ms) or (x in ('@source', '@url', '@target', '@id') and 'FCDObjectWithId::daeId' in ms)):
            nref += 1
            R.ob('ref:%s:%s' % (x, '+'.join(mine)), loc, x.lstrip('@#') in seen, 'a reference is written under "%s", which nothing in the importer looks for' % x)
            continue
        nw += 1
        R.ob('w:%s:%s' % (x, '+'.join(mine)), loc, ok, 'value of %s is written under "%s" but is read back only from: %s' % (
            ', '.join(mine), x, ', '.join(sorted({y for m in mine for y in N.rn.get(m, ())})[:8]) or 'nowhere'))
    for m in sorted(N.Rd):
        if exempt(m) or m.split('::')[0].endswith('Data') or not is_value(field_type(P, m)):
            continue
        st = {p: l for p, l in N.Rd[m].items() if any(not w or isinstance(w, str) for w, _ in l)}
        if not st:
            continue
        nr += 1
        ok = any(p[-1] in N.wn.get(m, ()) for p in N.Rd[m]) or (m in N.wr and m in N.roots) or any(N.wild(m, p) for ms in N.W.values() for p, w in ms.get(m, ()))
        where = sorted(l for ls in st.values() for w, l in ls)[0]
        R.ob('r:%s' % m, where, ok, 'value of %s is read from "%s" but is written under: %s' % (
            m, ', '.join(sorted({p[-1] for p in st})[:6]), ', '.join(sorted(N.wn.get(m, ()))[:8]) or 'nothing'))
    kinds(P, R, seen)
    sized(P, R)
    R.count('exporting and importing functions', N.nf)
    R.count('names written', nw)
    R.count('members read', nr)
    R.count('references written', nref)
    R.floor('names written', nw, 150)
    R.floor('members read', nr, 100)


def kinds(P, R, seen):
    W, Rd = {}, {}

    def emit(k, t, v, s, f, e):
        if k == 'w':
            for x in v:
                W.setdefault(t, {}).setdefault(x, {}).setdefault(s, f.loc(e))
        else:
            Rd.setdefault(t, {}).setdefault(s, {}).setdefault(v, f.loc(e))
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.file.startswith('FColladaPlugins/FArchiveXML') and f.body:
            Kinds(P, f, emit)
    n = 0
    for t in sorted(set(W) & set(Rd)):
        nm = {}
        for x in P.enums[t]['e']:
            nm.setdefault(x['v'], x['n'])
        only = {s: next(iter(d)) for s, d in Rd[t].items() if len(d) == 1}
        for s, v in sorted(only.items()):
            others = [u for u in W[t] if s in W[t][u] and u != v]
            for u in others:
                R.bad('kind:%s:%s:%s' % (t, nm.get(u), s), W[t][u][s], '"%s" is written for %s::%s but read back as %s' % (s, t, nm.get(u), nm.get(v)))
        for v in sorted({v for s, v in only.items()}):
            if v not in nm:
                continue
            n += 1
            mine = [s for s in only if only[s] == v]
            ok = any(s in W[t].get(v, ()) for s in mine)
            R.ob('kind:%s:%s' % (t, nm[v]), list(Rd[t][mine[0]].values())[0], ok,
                 'kind %s::%s is read from "%s" but is written as: %s' % (t, nm[v], '", "'.join(sorted(mine)), ', '.join(sorted(W[t].get(v, ()))) or 'nothing'))
        for u in sorted(W[t]):
            # a kind whose own text is not understood on the way back
            if u in nm and u not in only.values() and any(set(W[t][x]) & set(only) for x in W[t] if x != u) and not (set(W[t][u]) & set(Rd[t])):
                R.ob('kind:%s:%s' % (t, nm[u]), list(W[t][u].values())[0], bool(set(W[t][u]) & seen), 'kind %s::%s is written as "%s", which is read as no kind' % (t, nm[u], '", "'.join(sorted(W[t][u]))))
    R.count('kinds written and read', n)
    R.floor('kinds written and read', n, 45)


def sized(P, R):
    """Lists constructed with a size and then only appended to."""
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if not f.body or 'FColladaTest' in f.file:
            continue
        szd = {}
        for s in walk_s(f.body):
            if s['k'] == 'Decl':
                for d in s['d']:
                    u = unwrap(d['init']) if isinstance(d.get('init'), dict) else None
                    if u and u['k'] == 'Ctor' and 'vector' in d.get('t', '') and '&' not in d['t']:
                        a = [a for a in u.get('args', ()) if isinstance(a, dict) and not a.get('dflt')]
                        if a and bare(unwrap(a[0]).get('t', '')) in ('unsigned long', 'int', 'unsigned int', 'long') and unwrap(a[0]).get('v') != 0:
                            szd[d['d']] = d
        if not szd:
            continue
        used = {}
        for e in f.exprs():
            if e['k'] == 'Call' and e.get('obj') is not None:
                o = unwrap(e['obj'])
                if o['k'] == 'Ref' and o.get('d') in szd:
                    used.setdefault(o['d'], set()).add(callee_n(e))
        for d, x in szd.items():
            n += 1
            u = used.get(d, set())
            bad = 'push_back' in u and not u & {'clear', 'resize', 'erase'}
            R.ob('sized:%s:%s' % (f.q, x['n']), '%s:%d' % (f.file, x.get('l') or f.line), not bad,
                 'list %s is made with a size and then appended to, leaving unset entries at its start' % x['n'])
    R.count('sized lists', n)
