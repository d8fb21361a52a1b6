"""Dispatch of import and export. The tables that map a class to its import routine and to its export routine are read from the source:
both must list the same classes and every concrete class of a listed family; the routine listed for a class converts its object
to that class (or a base of it when no routine knows the class itself). A routine passes its object to the routine of its class's
base (or to the routines of that base's common part) on every path that reports success. The element name under which a kind is
written must be one its import accepts and creates that very kind for. Every library of a document is imported, exported,
searched and released, import and export agree on its element name, and each is loaded as a library of its own entities."""
from ceval import *
from guards import Guards
from p03 import tag_methods

LOAD_ONLY = {'FCDSpline': 'splines are written by the routine of their geometry', 'FCDBezierSpline': 'as FCDSpline',
             'FCDLinearSpline': 'as FCDSpline', 'FCDNURBSSpline': 'as FCDSpline'}
# base kind -> functions that write its common part
COMMON = {'FCDEntity': ['FArchiveXML::WriteToEntityXMLFCDEntity', 'FArchiveXML::WriteEntityExtra'],
          'FCDTargetedEntity': ['FArchiveXML::WriteToEntityXMLFCDEntity', 'FArchiveXML::WriteTargetedEntityExtra'],
          'FCDTransform': ['FArchiveXML::WriteTransformBase'], 'FCDENode': ['FArchiveXML::WriteChildrenFCDENode'],
          'FCDEntityInstance': ['FArchiveXML::WriteEntityInstanceExtra']}
NO_BASE = {
    'L:FCDETechnique': 'a technique has a profile instead of a name and value, its children are read alike',
    'W:FCDPhysicsAnalyticalGeometry': 'an analytical shape is written as a bare shape element',
    'L:FCDPhysicsAnalyticalGeometry': 'an analytical shape is a bare shape element',
}
CACHE = {}
# export name -> why import knows it under another name only
OTHER_NAME = {}


def handler_tables(P):
    """{'L': {class: (function, where)}, 'W': ...} from the places that hand &C::GetClassType() and F to a map."""
    tabs = {'L': {}, 'W': {}}
    for f in P.fns.values():
        if f.body is None:
            continue
        for e in f.exprs():
            args = e.get('args', ()) if e['k'] == 'Call' else kids(e) if e['k'] == 'List' else ()
            if len(args) < 2:
                continue
            cs = [x for a in args for x in walk_e(a) if x['k'] == 'Call' and callee_n(x) == 'GetClassType']
            if len(cs) != 1:
                continue
            for a in args:
                for x in walk_e(a):
                    h = P.fns.get(x['cal']['id']) if x['k'] == 'Ref' and x.get('dk') == 'fn' and x.get('cal') else None
                    if h is not None and len(h.params) == 2 and 'xmlNode' in h.params[1]['t']:
                        tabs['W' if is_ptr(h.r['ret']) else 'L'][cs[0]['cal'].get('c')] = (h, f.loc(e))
    return tabs


def about(f, e):
    """Whether an expression is the object a handler was given: its first parameter or a local made from it."""
    x = unwrap(e)
    return x['k'] == 'Ref' and x.get('dk') in ('parm', 'var') and x['n'] in objnames(f)


def objnames(f):
    r = CACHE.get(('obj', f.r['id']))
    if r is None:
        r = {f.params[0]['n']} if f.params else set()
        grew = True
        while grew:
            grew = False
            for s in walk_s(f.body):
                if s['k'] == 'Decl':
                    for v in s['d']:
                        i = v.get('init')
                        if isinstance(i, dict) and unwrap(i)['k'] == 'Ref' and unwrap(i)['n'] in r and is_ptr(v.get('t', '')) and v['n'] not in r:
                            r.add(v['n'])
                            grew = True
        CACHE['obj', f.r['id']] = r
    return r


def casts(P, f, depth=0):
    """Classes a handler converts its object to, in itself or in a function it hands the object to."""
    out = set()
    for e in f.exprs():
        if e['k'] == 'Cast' and e.get('ex') and is_ptr(e.get('t', '')):
            x = unwrap(e['e'])
            if x['k'] == 'Ref' and x['n'] in objnames(f) and bare(x.get('t', '')) != bare(e['t']):
                out.add(bare(e['t']))
    if depth < 2:
        for e in f.calls():
            t = P.direct(e)
            if t and t.body is not None and e.get('args') and t.file.startswith('FColladaPlugins') and about(f, e['args'][0]):
                out |= casts(P, t, depth + 1)
    return out


def must_call(P, f, goals, depth=0, seen=()):
    """Goals (function ids) called with the object on every path to a return that does not report failure (false or NULL)."""
    cfg = f.cfg()
    full = frozenset(goals)

    def reach(t, e, args):
        if t is None:
            return frozenset()
        if t.r['id'] in goals:
            return frozenset([t.r['id']])
        if depth < 2 and t.body is not None and t.file.startswith('FColladaPlugins') and t.r['id'] not in seen and t.params:
            return must_call(P, t, goals, depth + 1, seen + (t.r['id'],))
        return frozenset()

    def tr(s, n):
        if n.k == 'ret':
            e = unwrap(n.e) if isinstance(n.e, dict) else None
            if e is not None and (e['k'] == 'Null' or e.get('v') in (0, False) or (e['k'] in ('Int', 'Bool') and not e.get('v'))):
                return None
            if e is not None and e['k'] == 'Bin' and e['op'] == '=' and unwrap(e['R']).get('v') in (0, False):
                return None
            if e is not None and e['k'] == 'Ref' and ('null', e['n']) in s:
                return None
            return s
        if n.k == 'ev' and n.e['k'] == 'Call' and n.e.get('args') and about(f, n.e['args'][0]):
            return s | reach(P.direct(n.e), n.e, n.e['args'])
        return s
    def assume(s, a):
        if a[0] == 'case' or a[0] in ('range-next', 'range-end') or not isinstance(a[0], dict):
            return s
        x, pol = unwrap(a[0]), a[1]
        if x['k'] == 'Bin' and x['op'] in ('==', '!='):
            for v, z in ((x['L'], x['R']), (x['R'], x['L'])):
                v, z = unwrap(v), unwrap(z)
                if v['k'] == 'Ref' and (z['k'] == 'Null' or z.get('v') == 0) and is_ptr(v.get('t', '')) and (x['op'] == '==') == pol:
                    return s | {('null', v['n'])}
        if x['k'] == 'Ref' and is_ptr(x.get('t', '')) and pol is False:
            return s | {('null', x['n'])}
        return s
    inn = solve(cfg, frozenset(), tr, assume, lambda a, b: a & b)
    out = inn[cfg.exit.i]
    return full if out is None else frozenset(x for x in out if not isinstance(x, tuple))


def strings(f, e, depth=0):
    """Texts an expression may be: literals in it, or assigned to the local it names."""
    e = unwrap(e)
    out = set()
    lit = [x['s'] for x in walk_e(e) if x['k'] == 'Str']
    if lit:
        return set(lit)
    if e['k'] == 'Ref' and e.get('dk') == 'var' and depth < 3:
        for x in f.exprs():
            if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref' and unwrap(x['L'])['n'] == e['n']:
                out |= strings(f, x['R'], depth + 1)
        for s in walk_s(f.body):
            if s['k'] == 'Decl':
                for v in s['d']:
                    i = v.get('init')
                    if v['n'] == e['n'] and isinstance(i, dict):
                        out |= strings(f, i, depth + 1)
    return {s for s in out if not s.startswith('ERROR')}


def root_names(P, f, depth=0):
    """Element names a writer creates directly below the node it was given."""
    if len(f.params) < 2:
        return set()
    pn = next((p['n'] for p in f.params if 'xmlNode' in p['t']), None)
    out = set()
    for e in f.calls():
        args = e.get('args', ())
        n = callee_n(e)
        here = any(unwrap(a)['k'] == 'Ref' and unwrap(a)['n'] == pn for a in args)
        if not here:
            continue
        if n in ('AddChild', 'AddChildOnce', 'AddSibling'):
            out |= strings(f, args[1])
        elif len(args) >= 3 and n.startswith('WriteToEntityXML'):
            out |= strings(f, args[2])
    for e in f.calls():
        if callee_n(e) == 'RenameNode':
            out |= strings(f, e['args'][1])
    return out


def own_names(P, f):
    """Names an import routine checks its own node for."""
    pn = f.params[1]['n']
    out = set()
    for e in f.calls():
        if callee_n(e) in ('IsEquivalent', 'IsEquivalentI') and len(e.get('args', ())) == 2:
            for a, b in (e['args'], e['args'][::-1]):
                a, b = unwrap(a), unwrap(b)
                if a['k'] == 'Mem' and a['n'] == 'name' and unwrap(a['b'])['k'] == 'Ref' and unwrap(a['b'])['n'] == pn:
                    out |= strings(f, b)
    return out


def guard_names(f, G, e):
    """Names the innermost element-name test on the way to e accepts."""
    out = []
    for g in G.at.get(id(e), ()):
        if len(g) == 2 and g[0] not in ('loop', 'switch') and g[1] is True:
            names = set()
            for x in walk_e(g[0]):
                if x['k'] == 'Call' and callee_n(x) == 'IsEquivalent' and len(x.get('args', ())) == 2:
                    if any(y['k'] == 'Mem' and y['n'] == 'name' for a in x['args'] for y in walk_e(a)):
                        for a in x['args']:
                            names |= {y['s'] for y in walk_e(a) if y['k'] == 'Str'}
            if names:
                out.append(names)
    if not out:
        # an enumeration set under the name tests and tested here
        for g in G.at.get(id(e), ()):
            if len(g) == 2 and g[0] not in ('loop', 'switch'):
                vs = {x.get('d') for x in walk_e(g[0]) if x['k'] == 'Ref' and x.get('dk') == 'var'} if any(x.get('dk') == 'enum' for x in walk_e(g[0])) else set()
                for x in f.exprs():
                    if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref' and unwrap(x['L']).get('d') in vs and unwrap(x['R']).get('dk') == 'enum':
                        got = guard_names(f, G, x)
                        if got:
                            out.append(got)
        return set().union(*out)
    return out[-1]


def gate_names(P, f):
    """Names of its own element an import routine neither refuses nor complains about, when there are others."""
    pn = f.params[1]['n']
    lits = own_names(P, f)
    tests = {}
    for x in f.exprs():
        if x['k'] == 'Call' and callee_n(x) in ('IsEquivalent', 'IsEquivalentI') and len(x.get('args', ())) == 2:
            for a, b in (x['args'], x['args'][::-1]):
                a, b = unwrap(a), unwrap(b)
                if a['k'] == 'Mem' and a['n'] == 'name' and unwrap(a['b'])['k'] == 'Ref' and unwrap(a['b'])['n'] == pn:
                    tests[id(x)] = {y['s'] for y in walk_e(b) if y['k'] == 'Str'}
    out = set()
    for nm in sorted(lits) + ['?']:
        def tr(s, n):
            if n.k == 'ret':
                e = unwrap(n.e) if isinstance(n.e, dict) else None
                if e is not None and e['k'] in ('Bool', 'Int') and not e.get('v'):
                    return None
                if e is not None and any(callee_n(y) == 'Fail' or callee_n(y) == 'Error' for y in walk_e(e) if y['k'] == 'Call'):
                    return None
            if n.k == 'ev' and n.e['k'] == 'Call' and callee_n(n.e) in ('Error', 'Fail'):
                return None
            return s

        def assume(s, a):
            if isinstance(a[0], dict) and isinstance(a[1], bool):
                t = tests.get(id(unwrap(a[0])))
                if t is not None and (nm in t) != a[1]:
                    return None
            return s
        inn = solve(f.cfg(), frozenset(), tr, assume, lambda a, b: a & b)
        if inn[f.cfg().exit.i] is not None:
            if nm == '?':
                return set()
            out.add(nm)
    return out


def reaching_names(P, f, e, var):
    """Names of the element held by a variable for which a call is reached, None when it is reached whatever the name."""
    lits = set()

    def test(x):
        x = unwrap(x)
        if x['k'] == 'Call' and callee_n(x) == 'IsEquivalent' and len(x.get('args', ())) == 2:
            for a, b in (x['args'], x['args'][::-1]):
                a, b = unwrap(a), unwrap(b)
                if a['k'] == 'Mem' and a['n'] == 'name' and unwrap(a['b'])['k'] == 'Ref' and unwrap(a['b']).get('d') == var and unwrap(a['b']).get('dk') in ('var', 'parm'):
                    return {y['s'] for y in walk_e(b) if y['k'] == 'Str'}
        return None
    for x in f.exprs():
        lits |= test(x) or set()
    if not lits:
        return None
    out = set()
    for nm in sorted(lits) + ['?']:
        hit = []

        def tr(s, n):
            if n.k == 'ev' and n.e is e and not s:
                hit.append(1)
            return s

        def assume(s, a):
            if isinstance(a[0], dict) and isinstance(a[1], bool):
                t = test(a[0])
                if t is not None and (nm in t) != a[1]:
                    return None
            return s
        solve(f.cfg(), frozenset(), tr, assume, lambda a, b: a & b)
        if hit:
            if nm == '?':
                return None
            out.add(nm)
    return out


class NameEq:
    """Evaluation of a function of an element's name."""

    def __init__(self, name):
        self.name = name

    def __call__(self, I, e, obj, args, fr):
        if e['k'] == 'Call' and callee_n(e) == 'IsEquivalent' and len(args) == 2:
            for x in e['args']:
                for y in walk_e(x):
                    if y['k'] == 'Str':
                        return y['s'] == self.name
        return NotImplemented


def run(P, R):
    tabs = handler_tables(P)
    L, W = tabs['L'], tabs['W']
    R.count('import registrations', len(L))
    R.count('export registrations', len(W))
    R.floor('import registrations', len(L), 70)
    R.floor('export registrations', len(W), 70)
    reg = set(L) | set(W)
    # 1. the tables
    for c in sorted(reg):
        for k, t, o in (('import', L, W), ('export', W, L)):
            if c not in t:
                h, w = o[c]
                R.ob('%s:%s:listed' % (k, c), w, c in LOAD_ONLY and k == 'export', '%s has no %s routine although it has the other' % (c, k))
            else:
                R.ob('%s:%s:listed' % (k, c), t[c][1], True, '')
    lib = [c for c in P.descendants('FCDObject') if c in P.cls and not P.cls[c].r.get('abstract') and 'FColladaTest' not in P.cls[c].file]
    for c in sorted(lib):
        if c in reg:
            continue
        fam = [a for a in P.ancestors(c) if a in reg and a not in ('FCDObject', 'FCDEntity', c)]
        if fam or 'FCDEntity' in P.ancestors(c):
            R.bad('both:%s:listed' % c, '%s:%d' % (P.cls[c].file, P.cls[c].line), '%s, a kind of %s, has neither an import nor an export routine' % (c, (fam or ['FCDEntity'])[0]))
    every = {}
    for k, t in (('import', L), ('export', W)):
        cs = {}
        for h in {h.r['id']: h for h, _ in t.values()}.values():
            cs[h.r['id']] = casts(P, h)
        # classes some handler of this direction knows directly
        known = defaultdict(list)
        for f in P.fns.values():
            if f.body is not None and f.cls == 'FArchiveXML' and len(f.params) == 2 and bare(f.params[0]['t']) == 'FCDObject' and 'xmlNode' in f.params[1]['t'] and \
                    is_ptr(f.r['ret']) == (k == 'export'):
                for e in f.exprs():
                    if e['k'] == 'Cast' and e.get('ex') and is_ptr(e.get('t', '')):
                        x = unwrap(e['e'])
                        if x['k'] == 'Ref' and f.params and x['n'] == f.params[0]['n']:
                            known[bare(e['t'])].append(f)
        for c, (h, w) in sorted(t.items()):
            mine = cs[h.r['id']]
            fam = c.split('<')[0]
            bad = [d for d in mine if d != c and not P.derives(c, d) and not (d.split('<')[0] == fam and d.split(',')[0] == c.split(',')[0])]
            R.ob('%s:%s:type' % (k, c), w, not bad, 'the %s routine listed for %s, %s, takes its object for a %s' % (k, c, h.n, ', '.join(sorted(bad))))
            if c in known and not bad:
                R.ob('%s:%s:own' % (k, c), w, c in mine, '%s is listed for %s, but %s is the %s routine that knows the data of that kind' % (h.n, c, known[c][0].n, k))
    # 2. the part of the base
    def nearest(c, t):
        out, todo = [], list(P.cls[c].bases) if c in P.cls else []
        while todo:
            b = todo.pop(0)
            if b in t:
                out.append(b)
            elif b in P.cls:
                todo += P.cls[b].bases
        return [b for b in out if b not in ('FCDObject', 'FCDObjectWithId')]
    nb = 0
    for k, t in (('L', L), ('W', W)):
        trivial = set()
        for c, (h, _) in t.items():
            if not [e for e in h.calls() if P.direct(e) and P.direct(e).file.startswith('FColladaPlugins')] and not casts(P, h):
                trivial.add(c)
        for c, (h, w) in sorted(t.items()):
            for b in nearest(c, t):
                if '%s:%s' % (k, c) in NO_BASE or t[b][0] is h:
                    continue
                if b.startswith('FCDPhysicsAnalytical') or b.startswith('FCDPAS') or b == 'FCDTransform' and k == 'L' or b in trivial and k == 'L':
                    continue        # nothing of the base is in the document
                goals = {t[b][0].r['id']}
                got = must_call(P, h, goals)
                ok = goals <= got
                alt = COMMON.get(b) if k == 'W' else None
                if not ok and alt:
                    g2 = {f.r['id'] for q in alt for f in P.byq.get(q, ())}
                    if len(g2) < len(alt):
                        R.notes.append('the common part of %s is not where it was' % b)
                        continue
                    got = must_call(P, h, g2)
                    ok = g2 <= got
                    if not ok and b == 'FCDTargetedEntity':
                        pass
                nb += 1
                R.ob('%s:%s:base' % ('import' if k == 'L' else 'export', c), '%s:%d' % (h.file, h.line), ok,
                     '%s reports success without having %s what every %s has (its routine is %s)' %
                     (h.n, 'read' if k == 'L' else 'written', b, ' and '.join(P.fns[i].n for i in sorted(goals)) if not alt else ' and '.join(a.split('::')[1] for a in alt)))
    R.count('base parts', nb)
    R.floor('base parts', nb, 40)
    # 3. names and kinds
    tm = tag_methods(P)
    I = Interp(P)
    tag = {}
    for (root, m), et in tm.items():
        for c in P.descendants(root) | {root}:
            if c in P.cls and not P.cls[c].r.get('abstract'):
                ms = P.method(c, m)
                got = I.outs(R, ms[0], Obj(c, 'x'), []) if ms else None
                vs = {rv for rv, _ in got} if got else set()
                if len(vs) == 1 and isinstance(next(iter(vs)), int):
                    tag.setdefault((et, next(iter(vs))), set()).add(c)
    accepted, creates = defaultdict(set), defaultdict(set)      # class -> names; name -> classes
    held = {m.group(1) for f in P.cls['FCDocument'].fields for m in [re.search(r'FCDLibrary<(\w+)>', f['t'])] if m} if 'FCDocument' in P.cls else set()
    anyname = set()        # loaded of any element of their library
    for c, (h, _) in L.items():
        g = gate_names(P, h)
        accepted[c] |= g
        if not g and c in held:
            anyname.add(c)
    hid = defaultdict(set)
    for c, (h, _) in L.items():
        hid[h.r['id']].add(c)
    for f in P.fns.values():
        if f.body is None or not f.file.startswith('FColladaPlugins'):
            continue
        G = None
        for e in f.calls():
            args = e.get('args', ())
            cl = set()
            cid = (e.get('cal') or {}).get('id')
            if cid in hid and len(args) == 2 and not (f.params and about(f, args[0]) and f.r['id'] in hid):
                s = bare(unwrap(args[0]).get('t', ''))
                cl = hid[cid] if s not in hid[cid] else {s}
            elif callee_n(e) == 'LoadSwitch' and len(args) == 3:
                s = bare(unwrap(args[0]).get('t', ''))
                if s in L and not [d for d in P.descendants(s) if d in L and d != s]:
                    cl = {s}
            # creation of a kind by an enumerator
            mk = set()
            if is_ptr(e.get('t', '')) and bare(e['t']) in reg and args:
                for a in args:
                    a_ = unwrap(a)
                    et = next((y.get('t') for y in walk_e(a) if y.get('dk') == 'enum'), None) or bare(a.get('t', ''))
                    v = a_.get('v')
                    if v is None:
                        v = next((y.get('v') for y in walk_e(a) if y.get('dk') == 'enum'), None)
                    for (en, tv), cs_ in tag.items():
                        if isinstance(v, int) and tv == v and bare(et or '') == en:
                            mk |= {c for c in cs_ if P.derives(c, bare(e['t'])) or c == bare(e['t'])}
            if not cl and not mk:
                continue
            G = G or Guards(f)
            names = None
            for a in args:
                a = unwrap(a)
                if a['k'] == 'Ref' and a.get('d') is not None and 'xmlNode' in a.get('t', ''):
                    names = reaching_names(P, f, e, a['d']) or names
            for nm in names or guard_names(f, G, e):
                for c in cl:
                    accepted[c].add(nm)
                for c in mk:
                    creates[nm].add((c, f.loc(e)))
                    accepted[c].add(nm)
    # functions from a node to a kind
    for f in P.fns.values():
        if f.body is None or len(f.params) != 1 or 'xmlNode' not in f.params[0]['t'] or not f.file.startswith('FColladaPlugins') or bare(f.r['ret']) not in ('unsigned int', 'int'):
            continue
        ens = {y['q'].rsplit('::', 1)[0]: None for s in walk_s(f.body) for x in stmt_exprs(s) for y in walk_e(x) if y.get('dk') == 'enum' and y.get('q')}
        lits = sorted({y['s'] for x in f.exprs() if x['k'] == 'Call' and callee_n(x) == 'IsEquivalent' for y in walk_e(x) if y['k'] == 'Str'})
        if not lits:
            continue
        ets = {x.get('t') for s in walk_s(f.body) for z in stmt_exprs(s) for x in walk_e(z) if x.get('dk') == 'enum'}
        ets = {bare(t) for t in ets if t}
        for nm in lits:
            J = Interp(P, hook=NameEq(nm))
            got = J.outs(R, f, None, [T('node', f.params[0]['t'])])
            if got is None:
                continue
            for v in {rv for rv, st in got if isinstance(rv, int)}:
                for et in ets:
                    for c in tag.get((et, v), ()):
                        if et == 'FCDTransform::Type' or c in L and et != 'FCDEntity::Type':
                            creates[nm].add((c, f.loc()))
                            accepted[c].add(nm)
                    # instances: the kind of the entity they refer to
                    if et == 'FCDEntity::Type':
                        creates['~' + nm].add((v, f.loc()))
    nn = 0
    written = {}
    for c, (h, w) in sorted(W.items()):
        rn = root_names(P, h)
        written[c] = rn
        an = accepted.get(c, set())
        if not rn or not an or c in anyname:
            continue
        nn += 1
        for nm in sorted(rn):
            R.ob('name:%s:%s' % (c, nm), '%s:%d' % (h.file, h.line), nm in an or (c, nm) in OTHER_NAME,
                 '%s writes a %s as <%s>, but import takes only %s for one' % (h.n, c, nm, ', '.join('<%s>' % x for x in sorted(an))))
    by = defaultdict(set)
    for c in written:
        if c in held:
            for nm in written[c]:
                by[nm].add(c)
    for nm, cs_ in sorted(by.items()):
        R.ob('entity:<%s>' % nm, '', len(cs_) == 1, 'the entities %s are both written as <%s>' % (' and '.join(sorted(cs_)), nm))
    for nm, cs_ in sorted(creates.items()):
        if nm.startswith('~'):
            continue
        for c, w in sorted(cs_):
            ws = {d for d, r in written.items() if nm in r}
            if not ws:
                continue
            nn += 1
            R.ob('creates:%s:%s' % (nm, c), w, c in ws or any(P.derives(c, d) for d in ws), 'import makes a %s of the element <%s>, which export writes for %s' % (c, nm, ', '.join(sorted(ws))))
    # instance elements, both ways
    wn = {}
    for f in P.fns.values():
        if f.body is not None and f.file.startswith('FColladaPlugins') and len(f.params) == 1 and bare(f.params[0]['t']) == 'FCDEntity::Type' and 'char' in f.r['ret']:
            for x in P.enums['FCDEntity::Type']['e']:
                got = I.outs(R, f, None, [x['v']])
                if got:
                    ts = {text(rv) for rv, st in got if st['end'] == 'ret'}
                    if len(ts) == 1:
                        wn[x['v']] = (next(iter(ts)), x['n'], f.loc())
    for v, (nm, en, w) in sorted(wn.items()):
        back = {k for k, _ in creates.get('~' + nm, ())} if nm else set()
        if back:
            nn += 1
            R.ob('instance:%s' % en, w, back == {v}, 'an instance of a %s is written as <%s>, which import takes for another kind of instance' % (en, nm))
    back = defaultdict(set)
    for v, (nm, en, w) in wn.items():
        if nm:
            back[nm].add(en)
    for nm, ens in sorted(back.items()):
        if not creates.get('~' + nm):
            continue
        R.ob('instance:<%s>' % nm, '', len(ens) == 1, 'instances of %s are both written as <%s>' % (' and '.join(sorted(ens)), nm))
    R.notes.append('names accepted: ' + '; '.join('%s: %s' % (c, ' '.join(sorted(n))) for c, n in sorted(accepted.items()) if n))
    R.count('element names', nn)
    R.floor('element names', nn, 40)
    libraries(P, R)


def libraries(P, R):
    doc = P.cls.get('FCDocument')
    if doc is None:
        raise Broken('FCDocument not found')
    libs = {}
    for f in doc.fields:
        m = re.search(r'FCDLibrary<(\w+)>', f['t'])
        if m:
            libs[f['n']] = m.group(1)
    R.count('libraries', len(libs))
    R.floor('libraries', len(libs), 12)
    getter = {}
    for f in P.byq.items():
        pass
    for f in P.fns.values():
        if f.cls == 'FCDocument' and f.body is not None and not f.params and f.n.startswith('Get'):
            fs = {e['n'] for e in f.exprs() if e['k'] == 'Mem' and e['n'] in libs and unwrap(e['b'])['k'] == 'This'}
            if len(fs) == 1 and 'FCDLibrary' in f.r['ret']:
                getter[f.r['id']] = (next(iter(fs)), f)

    def lib_of(e):
        """Library fields an expression mentions."""
        out = set()
        for x in walk_e(e):
            if x['k'] == 'Mem' and x['n'] in libs and (x.get('c') in (None, 'FCDocument')):
                out.add(x['n'])
            if x['k'] == 'Call' and (x.get('cal') or {}).get('id') in getter:
                out.add(getter[x['cal']['id']][0])
        return out
    # 4a. functions that go through the libraries go through all of them
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if f.body is None or 'FColladaTest' in f.file or f.kind in ('ctor',) and f.r.get('implicit'):
            continue
        if not (f.file.startswith('FCollada/') or f.file.startswith('FColladaPlugins')):
            continue
        touched = set()
        for x in f.exprs():
            if x['k'] == 'Mem' and x['n'] in libs and x.get('c') in (None, 'FCDocument'):
                touched.add(x['n'])
            if x['k'] == 'Call' and (x.get('cal') or {}).get('id') in getter:
                touched.add(getter[x['cal']['id']][0])
        if len(touched) >= 9:
            todo, seen = [f], {f.r['id']}
            for depth in (1, 2):
                todo = [t for g in todo for e in g.calls() for t in [P.direct(e)] if t is not None and t.body is not None and t.r['id'] not in seen]
                for t in todo:
                    seen.add(t.r['id'])
                    for x in t.exprs():
                        if x['k'] == 'Mem' and x['n'] in libs and x.get('c') in (None, 'FCDocument'):
                            touched.add(x['n'])
                        if x['k'] == 'Call' and (x.get('cal') or {}).get('id') in getter:
                            touched.add(getter[x['cal']['id']][0])
            for l in sorted(libs):
                R.ob('all:%s:%s' % (f.q, l), f.loc(), l in touched or (f.q, l) in LIB_LEFT, '%s goes through the libraries of the document but leaves out %s' % (f.q, l))
            R.count('functions over all libraries')
    # 4b. import loads each as a library of its own entities; import and export agree on the element
    imp, exp = {}, {}
    for f in P.fns.values():
        if f.body is None or not f.file.startswith('FColladaPlugins'):
            continue
        G = None
        for e in f.calls():
            args = e.get('args', ())
            if len(args) != 2:
                continue
            ls = lib_of(args[0])
            if len(ls) != 1:
                continue
            l = next(iter(ls))
            n = callee_n(e) or ''
            t = P.direct(e)
            if t is None or t.body is None:
                continue
            if is_write_library(P, t):
                names = name_of_node(P, f, args[1])
                exp.setdefault(l, set()).update(names or {'?'})
            ents = loads_library(P, t)
            if ents:
                R.ob('entities:%s' % l, f.loc(e), ents == {libs[l]}, 'the %s of a document are loaded as a library of %s' % (l, ', '.join(sorted(ents))))
                G = G or Guards(f)
                ks = [g for g in G.at.get(id(e), ()) if g[0] == 'switch']
                imp.setdefault(l, set()).update(case_names(P, f, e, G))
    for l in sorted(libs):
        R.ob('imported:%s' % l, '%s:%d' % (doc.file, doc.line), l in imp, 'import never fills %s' % l)
        R.ob('exported:%s' % l, '%s:%d' % (doc.file, doc.line), l in exp, 'export never writes %s' % l)
        a, b = imp.get(l, set()), exp.get(l, set())
        if l in imp and b and '?' not in b and '?' not in a:
            for m in sorted(libs):
                o = exp.get(m, set())
                if m != l and '?' not in o:
                    R.ob('element:%s:%s' % (l, m), '', not (a & o) or bool(a & o & b), 'import fills %s from <%s>, under which export writes %s' % (l, '>, <'.join(sorted(a & o)), m))
            R.ob('element:%s' % l, '', b <= a, 'export writes %s as <%s>, import fills it from <%s>' % (l, '>, <'.join(sorted(b)), '>, <'.join(sorted(a))))
            R.count('library elements matched')
    # 4c. typed getters and searches
    for gid, (l, f) in sorted(getter.items()):
        m = re.search(r'FCDLibrary<(\w+)>', f.r['ret'])
        R.ob('getter:%s' % f.q, f.loc(), bool(m) and m.group(1) == libs[l], '%s answers %s, a library of %s' % (f.q, l, libs[l]))


LIB_LEFT = {}


def is_write_library(P, t):
    r = CACHE.get(('wl', t.r['id']))
    if r is None:
        r = CACHE['wl', t.r['id']] = any(callee_n(e) == 'GetEntity' for e in t.calls()) and any(callee_n(e) in ('WriteSwitch', 'LetWriteObject') for e in t.calls())
    return r


def loads_library(P, t, depth=0):
    """Entity classes a function adds to the library it is given and loads."""
    out = set()
    for e in t.calls():
        if callee_n(e) == 'AddEntity':
            out.add(bare(e.get('t', '')))
        d = P.direct(e)
        if d and d.body is not None and depth < 2 and d.file.startswith('FColladaPlugins') and d is not t and e.get('args') and \
                unwrap(e['args'][0])['k'] == 'Ref' and t.params and unwrap(e['args'][0])['n'] == t.params[0]['n']:
            out |= loads_library(P, d, depth + 1)
    return out if any(callee_n(e) in ('LoadSwitch',) for e in t.calls()) or depth == 0 else set()


def name_of_node(P, f, e):
    """The element name of a local node made by AddChild."""
    e = unwrap(e)
    out = set()
    if e['k'] == 'Call' and callee_n(e) == 'AddChild':
        return strings(f, e['args'][1])
    if e['k'] == 'Ref':
        for s in walk_s(f.body):
            if s['k'] == 'Decl':
                for v in s['d']:
                    i = v.get('init')
                    if v['n'] == e['n'] and isinstance(i, dict) and (e.get('d') is None or v.get('d') in (None, e.get('d')) or v.get('id') == e.get('d')):
                        i = unwrap(i)
                        if i['k'] == 'Call' and callee_n(i) == 'AddChild' and same_var(v, e):
                            out |= strings(f, i['args'][1])
        for x in f.exprs():
            if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['L'])['k'] == 'Ref' and unwrap(x['L']).get('d') == e.get('d'):
                i = unwrap(x['R'])
                if i['k'] == 'Call' and callee_n(i) == 'AddChild':
                    out |= strings(f, i['args'][1])
    return out


def same_var(v, e):
    ids = [v.get(k) for k in ('id', 'd', 'did') if v.get(k) is not None]
    return not ids or e.get('d') in ids


def case_names(P, f, e, G):
    """Element names for which the switch case holding e is chosen: names tested where the case's enumerator is assigned."""
    names = set(guard_names(f, G, e))
    ks = set()
    for s in walk_s(f.body):
        if s['k'] == 'Switch':
            for k, body in cases(s):
                if any(x is e for b in body for x in walk_all(b)):
                    ks |= k
    if not ks:
        return names or {'?'}
    some = set()
    for x in f.exprs():
        if x['k'] == 'Bin' and x['op'] == '=' and unwrap(x['R']).get('dk') == 'enum':
            nm = guard_names(f, G, x)
            some |= nm
            if unwrap(x['R']).get('v') in ks:
                names |= nm
    return names or (set() if some else {'?'})


def cases(s):
    """[(values, statements)] of a switch."""
    out, cur, body = [], set(), []
    st = s.get('b')
    items = st['s'] if isinstance(st, dict) and st.get('k') == 'Block' else st if isinstance(st, list) else [st]
    for x in items:
        while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
            if body:
                out.append((cur, body))
                cur, body = set(), []
            if x['k'] == 'Case':
                cur.add(x.get('v'))
            x = x.get('s')
        if isinstance(x, dict):
            body.append(x)
    if body:
        out.append((cur, body))
    return out
