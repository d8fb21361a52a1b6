"""For every cloning or copying member function (Clone, CopyFrom, user-written copy constructors and assignment operators) each
data member and declared flag of the class, and of bases that have no copying function of their own, must flow from the source
to the copy on every path that yields a copy of the right class; the base class's copying function must be called; members that
own sub-objects with a cloning function must be cloned through it; and element structures copied field by field must be copied
whole. A class that adds members below a cloneable class must have a cloning function."""
from clonecheck import *
import re

# (class, member) -> why the copy legitimately does not take it from the source
EXEMPT = {
    ('FCDAnimated', 'target'): 'the object whose values are animated: the copy is attached to its own',
    ('FCDAnimationCurve', 'currentClip'): 'playback selection, recomputed by selecting a clip',
    ('FCDAsset', 'modifiedDateTime'): 'a copy is a modification: set to the current time',
    ('FCDETechnique', 'pluginOverride'): 'cache of the plug-in that handles the tree in this document',
    ('FCDEType', 'name'): 'identity given by the owner when it creates the copy',
    ('FCDEffectPassState', 'type'): 'identity given by the owner when it creates the copy',
    ('FCDEffectPassState', 'dataSize'): 'determined by the state type',
    ('FCDEntityInstance', 'entityType'): 'identity given by the owner when it creates the copy',
    ('FCDMaterial', 'ownsEffect'): 'true only for a copy that received its own effect',
    ('FCDPhysicsModel', 'modelInstancesMap'): 'lookup of not yet linked instances, used only while loading',
    ('FCDPhysicsRigidBodyInstance', 'onCollisionEvent'): 'event listeners belong to the instance they were registered on',
    ('FCDPhysicsRigidBodyInstance', 'targetNode'): 'documented: the copy has no target node until it is given one',
    ('FCDPhysicsShape', 'ownsPhysicsMaterial'): 'set by creating the copy\'s own material',
    ('FCDPhysicsRigidBodyParameters', 'ownsPhysicsMaterial'): 'set with the copy\'s material',
    ('FCDPhysicsRigidBodyParameters', 'entityOwner'): 'back link given at construction',
    ('FCDSceneNode', 'parents'): 'documented: the copy is placed in the scene by its owner',
    ('FCDSceneNode', 'targetCount'): 'counts the entities that target this very node',
    ('FCDTransform', 'parent'): 'back link given at construction',
    ('FCDPhysicsRigidBodyParameters', 'instanceOwner'): 'back link given at construction',
    ('FMVector3', 'w'): 'alignment padding',
    ('FCDParameterAnimatable', 'parent'): 'documented: assignment keeps the parameter\'s own owner',
    ('FCDParameterAnimatable', 'animated'): 'documented: assignment of parameters copies the value only',
}
EXEMPT_FLAGS = {
    ('FCDAnimationCurve', 'AnimChanged'): 'change notification',
    ('FCDSceneNode', 'TransformsDirty'): 'change notification',
    ('FCDObjectWithId', 'DaeIdChanged'): 'change notification',
    ('FCDObjectWithId', 'UniqueId'): 'uniqueness is established again in the copy\'s document',
}
ALTERNATIVES = [{'mesh', 'spline'}]     # a geometry holds one or the other
# copying through a field-wise constructor is decided by the initialiser list of the constructor itself


def bases_of(P, cls, pred):
    """Nearest ancestors satisfying pred, and the ancestors in between."""
    found, between = [], []
    for b in P.cls[cls].bases:
        if b not in P.cls:
            continue
        if pred(b):
            found.append(b)
        else:
            between.append(b)
            f2, b2 = bases_of(P, b, pred)
            found += f2
            between += b2
    return found, between


def backlink(P, cls, t):
    """A plain pointer to a class that owns objects of this class."""
    if not is_ptr(t) or bare(t) not in P.cls:
        return False
    mine = {cls} | set(P.ancestors(cls))
    o = bare(t)
    for c in {o} | set(P.ancestors(o)) | P.descendants(o):
        if c not in P.cls:
            continue
        for x in P.cls[c].fields:
            if any(w in mine or any(m in P.ancestors(w) for m in [cls]) for w in re.findall(r'\w+', x['t']) if w in P.cls and w not in ('FCDObject', 'FUParameterizable', 'FUTrackable', 'FUObject', 'FUTracker', 'FCDObjectWithId')) and any(k in x['t'] for k in ('Container', 'Ref<', 'vector', 'List', 'Ptr')):
                return True
            if x['t'].startswith(cls + ' *') and c != cls:
                return True
    return False


def helpers(P, f):
    """The copying function and the functions of the same class or file it hands the copy to."""
    out, todo = [f], [f]
    while todo:
        g = todo.pop()
        for e in g.calls():
            t = P.direct(e)
            if t is None or t in out or not t.body or t.n == 'Clone' or len(out) > 20:
                continue
            if any(bare(p['t']) in (f.cls,) for p in t.params) and (t.cls == f.cls or t.file == f.file):
                out.append(t)
                todo.append(t)
    return out


def flags_of(P, cls):
    out = []
    for m in P.cls[cls].methods:
        g = re.match(r'Get(\w+)Flag$', m['n'])
        if g and any(x['n'] == 'Set%sFlag' % g.group(1) for x in P.cls[cls].methods):
            out.append(g.group(1))
    return sorted(set(out))


def run(P, R):
    E = Effects(P)
    C = CloneAnalysis(P, E)
    copiers = []
    for f in sorted(P.fns.values(), key=lambda f: f.q):
        if not f.cls or f.cls not in P.cls or 'FColladaTest' in f.file or not f.body:
            continue
        if f.n == 'Clone':
            pi = 0 if f.params and (P.derives(f.cls, bare(f.params[0]['t'])) or bare(f.params[0]['t']) == f.cls) else None
            copiers.append((f, pi, 'S'))
        elif f.n == 'CopyFrom' and len(f.params) == 1 and bare(f.params[0]['t']) == f.cls:
            copiers.append((f, 0, 'D'))
        elif not f.cls.startswith('fm::') and 'anonymous' not in f.q and (f.n == 'operator=' or f.kind == 'ctor') and len(f.params) == 1 and bare(f.params[0]['t']) == f.cls and f.params[0]['t'].endswith('&') and not f.r.get('impl') and not f.r.get('dflt'):
            copiers.append((f, 0, 'D'))
    has = {f.cls for f, _, t in copiers if f.n in ('Clone', 'CopyFrom')}
    nm = 0
    for f, pi, this in copiers:
        cls = f.cls
        member_fn = f.n in ('Clone', 'CopyFrom')
        trans = C.transfers(f, pi, 0, this)
        got = C.complete(f, pi, 0, trans, this)
        some = set()
        for e, s, d, x in trans:
            some |= s & d
        parents, between = bases_of(P, cls, lambda b: b in has) if member_fn else ([], [])
        tag = '%s(%s)' % (f.q, ','.join(bare(p['t']) for p in f.params))
        fields = [(c, x) for c in [cls] + between for x in P.cls[c].fields if c == cls or c.startswith('FCD')]
        R.count('copying functions')
        if 'std::' in cls or not fields and not parents:
            continue
        for c, x in fields:
            m = x['n']
            if (c, m) in EXEMPT or (cls, m) in EXEMPT or x.get('static') or not m:
                continue
            if c in ('FCDObject', 'FUParameterizable', 'FUTrackable', 'FUTracker', 'FUObject'):
                continue
            if backlink(P, c, x['t']) or backlink(P, cls, x['t']):
                continue
            nm += 1
            ok = m in got
            for alt in ALTERNATIVES:
                if m in alt and m in some and all(a in some for a in alt):
                    ok = True
            how = 'only on some paths' if m in some else 'never'
            R.ob('%s:%s' % (tag, m), f.loc(), ok, '%s copies member %s::%s %s' % (f.q, c, m, how))
        for c in [cls] + between:
            if not member_fn or c not in P.cls or not c.startswith('FCD') or c == 'FCDObject':
                continue
            for fl in flags_of(P, c):
                if (c, fl) in EXEMPT_FLAGS:
                    continue
                nm += 1
                parts = helpers(P, f)
                rd = any(e['k'] == 'Call' and callee_n(e) == 'Get%sFlag' % fl for g in parts for e in g.exprs())
                wr = any(e['k'] == 'Call' and callee_n(e) in ('Set%sFlag' % fl, 'Reset%sFlag' % fl) for g in parts for e in g.exprs())
                R.ob('%s:flag:%s' % (tag, fl), f.loc(), rd and wr, '%s does not copy the %s flag of %s' % (f.q, fl, c))
        # base class copied through its own function
        for b in parents:
            if f.n != 'Clone':
                continue
            pf = [g for g in P.byq.get(b + '::Clone', []) if g.body]
            if not pf:
                continue
            called = must_call(P, f, pi, C, {g.id for g in pf})
            R.ob('%s:base:%s' % (tag, b), f.loc(), called, '%s does not copy its base class %s through %s::Clone on every path' % (f.q, b, b))
        deep(P, C, E, f, pi, this, tag, has, R)
        elements(P, C, E, f, pi, this, tag, has, R)
    R.count('members and flags', nm)
    R.floor('copying functions', len(copiers), 80)
    R.floor('members and flags', nm, 250)
    # classes without a cloning function of their own
    for c in sorted(P.cls):
        if c in has or 'FColladaTest' in P.cls[c].file or '<' in c or not P.cls[c].fields:
            continue
        anc = [a for a in P.ancestors(c) if a in has and any(g.r.get('virt') for g in P.byq.get(a + '::Clone', []))]
        if anc:
            R.bad('%s:noclone' % c, '%s:%d' % (P.cls[c].file, P.cls[c].line), '%s adds %s but is cloned by %s::Clone, which makes a %s' % (c, ', '.join(x['n'] for x in P.cls[c].fields), anc[0], anc[0]))


def must_call(P, f, pi, C, ids):
    Rt = C.roots(f, pi)
    cfg = f.cfg()

    def tr(s, n):
        if n.k == 'ev' and n.e['k'] == 'Call' and (n.e.get('cal') or {}).get('id') in ids:
            return True
        return s

    def assume(s, a):
        if isinstance(a[0], dict) and isinstance(a[1], bool):
            if C.null_side(a[0], a[1], Rt) and not s:
                # no copy was made or given: nothing to copy
                return 'none'
        return s

    def join(a, b):
        if a == 'none':
            return b
        if b == 'none':
            return a
        return a and b
    inn = solve(cfg, False, tr, assume, join)
    for n in cfg.nodes:
        if n.k == 'ret' and inn[n.i] is not None:
            if isinstance(n.e, dict) and unwrap(n.e)['k'] == 'Null':
                continue
            st = tr(inn[n.i], n)
            if st is False:
                return False
    return True


def deep(P, C, E, f, pi, this, tag, has, R):
    cls = f.cls
    Rt = C.roots(f, pi, this)
    D = Derive(P, E, f, roots=Rt, this=this)
    cloned = set()
    fns = [(f, D)]
    for e in f.exprs():     # helper receiving the copy
        if e['k'] == 'Call':
            t = P.direct(e)
            if t is not None and t.body is not None and t.cls == cls and e.get('obj') is not None and D.root(e['obj']) == 'S' and t.id != f.id:
                for i, a in enumerate(e.get('args', ())):
                    if isinstance(a, dict) and D.root(a) == 'D':
                        fns.append((t, Derive(P, E, t, roots={t.params[i]['d']: 'D'})))
            elif t is not None and t.body is not None and e.get('obj') is None:
                ro = {}
                pt = {}
                for i, a in enumerate(e.get('args', ())):
                    if isinstance(a, dict) and i < len(t.params):
                        if D.root(a) in ('S', 'D'):
                            ro[t.params[i]['d']] = D.root(a)
                        else:
                            tg = D.tags(a)
                            if tg:
                                pt[t.params[i]['d']] = tg
                if set(ro.values()) == {'S', 'D'} or any(any(x.startswith('S:') for x in v) for v in pt.values()):
                    fns.append((t, Derive(P, E, t, roots=ro, params=pt, this='X')))
    for g, DD in fns:
        for e in g.exprs():
            if e['k'] == 'Call' and callee_n(e) in ('Clone', 'CopyFrom'):
                o = e.get('obj')
                if o is None:
                    continue
                to = DD.tags(o)
                ta = set()
                for a in e.get('args', ()):
                    if isinstance(a, dict):
                        ta |= DD.tags(a)
                src = {t[2:] for t in to if t.startswith('S:')} | {t[2:] for t in ta if t.startswith('S:') and callee_n(e) == 'CopyFrom'}
                self_clone = any(show(a) == show(o) for a in e.get('args', ()) if isinstance(a, dict))
                if not self_clone:
                    cloned |= src
    for x in P.cls[cls].fields:
        m = re.search(r'(FUObjectContainer|FUObjectRef)<(\w+)>', ' '.join([x['t']] + P.ancestors(bare(x['t']))))
        if not m or m.group(2) not in has and not any(a in has for a in P.ancestors(m.group(2))):
            continue
        if (cls, x['n']) in EXEMPT:
            continue
        if any(m.group(2) == b for b in ('FCDEntityReference',)):
            continue
        R.ob('%s:deep:%s' % (tag, x['n']), f.loc(), x['n'] in cloned, '%s never clones the %s it owns in %s' % (f.q, m.group(2), x['n']))
        R.count('owned sub-objects')


def elements(P, C, E, f, pi, this, tag, has, R):
    """Structures without a cloning function that are copied field by field are copied whole."""
    Rt = C.roots(f, pi, this)
    D = Derive(P, E, f, roots=Rt, this=this)
    read = defaultdict(set)
    for e in f.exprs():
        if e['k'] == 'Mem' and e.get('dk') == 'field' and isinstance(e.get('b'), dict):
            if D.root(e['b']):
                continue
            c = e.get('fc') or e.get('c') or bare(unwrap(e['b']).get('t', ''))
            c = bare(c)
            if c in P.cls and c not in has and not any(a in has for a in P.ancestors(c)) and c.startswith('FCD') and c != f.cls:
                if any(t.startswith('S:') for t in D.tags(e['b'])):
                    own = c
                    for a in [c] + P.ancestors(c):
                        if a in P.cls and any(x['n'] == e['n'] for x in P.cls[a].fields):
                            own = a
                            break
                    read[own].add(e['n'])
    def owner(e):
        c = bare(e.get('fc') or e.get('c') or bare(unwrap(e['b']).get('t', '')))
        for a in [c] + (P.ancestors(c) if c in P.cls else []):
            if a in P.cls and any(x['n'] == e['n'] for x in P.cls[a].fields):
                return a
        return None
    # a field of a copied structure takes its value from the same field of the source structure
    for e in f.exprs():
        if e['k'] == 'Bin' and e['op'] == '=':
            L, Rr = unwrap(e['L']), e['R']
        elif e['k'] == 'Call' and e.get('op') == '=' and e.get('args'):
            o = e.get('obj')
            L, Rr = unwrap(o if o is not None else e['args'][0]), e['args'][0] if o is not None else e['args'][1]
        else:
            continue
        if L['k'] != 'Mem' or L.get('dk') != 'field' or not isinstance(L.get('b'), dict):
            continue
        c = owner(L)
        if c not in read or any(t.startswith('S:') for t in D.tags(L['b'])) and not any(t.startswith('D:') for t in D.tags(L['b'])):
            continue
        src = {x['n'] for x in walk_e(Rr) if x['k'] == 'Mem' and x.get('dk') == 'field' and isinstance(x.get('b'), dict) and owner(x) == c and any(t.startswith('S:') for t in D.tags(x['b']))}
        if src:
            R.ob('%s:element:%s::%s' % (tag, c, L['n']), f.loc(e), L['n'] in src, '%s fills %s::%s of the copy from %s of the original' % (f.q, c, L['n'], ', '.join(sorted(src))))
            R.count('element assignments')
    for c, got in sorted(read.items()):
        for x in P.cls[c].fields:
            if backlink(P, c, x['t']) or x['n'] == 'parent':
                continue
            R.ob('%s:element:%s::%s' % (tag, c, x['n']), f.loc(), x['n'] in got, '%s copies the elements of type %s without their %s' % (f.q, c, x['n']))
            R.count('element fields')
