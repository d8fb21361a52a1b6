"""Setters and getters of every class, evaluated over terms: after SetX(v) the matching GetX answers v on every path, and the
getters of the other settings answer what they answered before."""
import copy
from settings import *

# settings whose reading is by design not the value given; each is counted in the evidence as not decided
BY_DESIGN = {
    'FCDAnimationCurve::SetKeyCount': 'adds or removes keys one at a time',
    'FCDAnimationMultiCurve::SetKeyCount': 'adds or removes keys one at a time',
    'FCDEffectCode::SetFilename': 'stores the absolute form of the path',
    'FCDImage::SetFilename': 'stores the absolute form of the path',
    'FCDocument::SetFileUrl': 'stores the absolute form of the path',
    'FCDPlaceHolder::SetFileUrl': 'answers the path of the loaded document once there is one',
    'FCDGeometryMesh::SetConvexHullOf': 'stores a link by identifier',
    'FCDGeometryPolygonsInput::SetIndexCount': 'the list belongs to the first input with the same index',
    'FCDGeometryPolygonsInput::SetIndices': 'the list belongs to the first input with the same index',
    'FCDGeometrySource::SetValueCount': 'counted in groups of the stride',
    'FCDGeometrySource::SetData': 'copies the values',
    'FCDLight::SetHasMaxExtras': 'held by the extra tree',
    'FCDLight::SetHasMayaExtras': 'held by the extra tree',
    'FCDMorphController::SetBaseTarget': 'refuses entities that have no geometry',
    'FCDMorphTarget::SetGeometry': 'refuses geometry of another layout',
    'FCDSceneNode::SetSubId': 'made unique among the children',
    'FCDTexture::SetImage': 'held by the surface of the sampler',
    'FMMatrix44::SetTranslation': 'numeric',
    'FMQuaternion::SetToMatrix': 'numeric',
    'FCDTRotation::SetOrientation': 'numeric',
}
# links: the answer comes from the resolution of an identifier in a document
LINKS = ('FCDEntityReference', 'FCDEntityInstance', 'FCDMaterial', 'FCDMaterialInstance', 'FCDPhysicsRigidBodyInstance',
         'FCDPhysicsRigidConstraintInstance', 'FCDSkinController')
# settings that share their storage or follow from one another: members of one group may move together
COUPLED = [
    {'FCDAsset::UnitConversionFactor', 'FCDAsset::HasUnitsFlag'},
    {'FCDAsset::UpAxis', 'FCDAsset::HasUpAxisFlag'},
    {'FCDCamera::FovX', 'FCDCamera::MagX', 'FCDCamera::HasHorizontalViewFlag', 'FCDCamera::AspectRatio'},
    {'FCDCamera::FovY', 'FCDCamera::MagY', 'FCDCamera::HasVerticalViewFlag', 'FCDCamera::AspectRatio'},
    {'FCDEffectCode::Code', 'FCDEffectCode::Filename', 'FCDEffectCode::Type'},
    {'FCDEffectStandard::IndexOfRefraction', 'FCDEffectStandard::Refractive'},
    {'FCDEffectStandard::ReflectivityColor', 'FCDEffectStandard::ReflectivityFactor', 'FCDEffectStandard::Reflective'},
    {'FCDTexture::Sampler', 'FCDTexture::Image'},
    {'FCDGeometrySource::DataCount', 'FCDGeometrySource::ValueCount', 'FCDGeometrySource::Stride'},
    {'FCDObjectWithId::DaeId', 'FCDObjectWithId::UniqueIdFlag'},
    {'FCDPhysicsRigidBodyParameters::Inertia', 'FCDPhysicsRigidBodyParameters::InertiaAccurate'},
    {'FCDPhysicsRigidBodyParameters::MassFrameOrientation', 'FCDPhysicsRigidBodyParameters::MassFrameRotateAngle', 'FCDPhysicsRigidBodyParameters::MassFrameRotateAxis'},
    {'FCDPhysicsRigidConstraint::ReferenceNode', 'FCDPhysicsRigidConstraint::ReferenceRigidBody'},
    {'FCDPhysicsRigidConstraint::TargetNode', 'FCDPhysicsRigidConstraint::TargetRigidBody'},
    {'FCDTLookAt::LookAt', 'FCDTLookAt::Position', 'FCDTLookAt::Target', 'FCDTLookAt::Up'},
    {'FCDTRotation::AngleAxis', 'FCDTRotation::Axis', 'FCDTRotation::Angle', 'FCDTRotation::Orientation'},
    {'FCDTSkew::Skew', 'FCDTSkew::Angle', 'FCDTSkew::RotateAxis', 'FCDTSkew::AroundAxis'},
]
# a part set while its whole keeps its other parts
WHOLES = {'LookAt', 'AngleAxis', 'Skew', 'Orientation', 'MassFrameOrientation'}


def stem(n):
    for p in ('Set', 'Get', 'Is', 'Has'):
        if n.startswith(p) and len(n) > len(p) and not n.startswith('HasHorizontal'):
            return n[len(p):]
    return n


def coupled(q, a, b):
    a, b = '%s::%s' % (q, stem(a)), '%s::%s' % (q, stem(b))
    return any(a in g and b in g and not (len(g) > 3 and a != b and whole(a, b)) for g in COUPLED)


def whole(a, b):
    """Two parts of one whole are independent of each other."""
    x, y = a.split('::')[-1], b.split('::')[-1]
    return a.startswith(('FCDTLookAt', 'FCDTSkew')) and x not in WHOLES and y not in WHOLES


def same_kind(t, r):
    """The getter can answer the setter's argument."""
    a, b = bare(t), bare(r)
    if a == 'bool' or b == 'bool':
        return a == b or b == 'float' or a == 'float'
    return True


def number(s):
    try:
        return float({'True': 1, 'False': 0}.get(s, s))
    except (TypeError, ValueError):
        return None


def fits(r, want, v):
    if r == want:
        return True
    a, b = number(r), number(want)
    if a is not None and a == b:
        return True
    return want == 'V0' and (r.startswith('V0{') or r in ('V0.value', '*V0'))


class Pairs:
    def __init__(self, P):
        self.P = P
        self.of = {}
        for f in P.fns.values():
            if f.cls and f.body:
                self.of.setdefault(f.cls, {}).setdefault(f.n, []).append(f)

    def pairs(self, q):
        ms = self.of.get(q, {})
        for n, fs in sorted(ms.items()):
            if not (n.startswith('Set') and len(n) > 3):
                continue
            x = n[3:]
            gs = [g for p in ('Get', 'Is', 'Has', '') for g in ms.get(p + x, ()) if not g.params]
            for f in sorted(fs, key=lambda f: f.id):
                if not f.params:
                    continue
                g = [g for g in gs if same_kind(f.params[0]['t'], g.r['ret'])]
                if g:
                    yield f, g[0]


def run(P, R):
    S = Pairs(P)
    for q in sorted(S.of):
        if q.startswith(('fm::', 'std::', 'FMVector')):
            continue
        pairs = list(S.pairs(q))
        getters = {}
        for f, g in pairs:
            getters.setdefault(g.n, g)
        flags = {}
        for b in P.ancestors(q):
            for f, g in S.pairs(b):
                if g.n.endswith('Flag'):
                    flags.setdefault(g.n, g)
        for f, g in pairs:
            key = '%s::%s(%s)' % (q, f.n, ','.join(p['t'] for p in f.params))
            R.count('setters')
            if '%s::%s' % (q, f.n) in BY_DESIGN or q in LINKS and not simple(f):
                R.count('settings not decided (by design or resolved by link)')
                continue
            try:
                bad, moved = decide(P, q, f, g, dict(flags, **getters) if f.n.endswith('Flag') else getters)
            except Unsupported as ex:
                R.count('settings not decided (not followed)')
                R.notes.append('%s: %s' % (key, ex))
                continue
            R.count('settings decided')
            R.ob(key, f.loc(), not bad, '%s: after %s the getter %s answers %s' % (q, f.n, g.n, ', '.join(sorted(bad))) if bad else '')
            for o in sorted(moved):
                if coupled(q, f.n, o):
                    continue
                R.bad('%s:moves:%s' % (key, o), f.loc(), '%s::%s also changes what %s answers: %s' % (q, f.n, o, moved[o]))
        # switches: SetX() and ResetX()/ClearX()
        for n, fs in sorted(S.of[q].items()):
            for pre, want in (('Set', True), ('Reset', False), ('Clear', False)):
                if not n.startswith(pre) or len(n) <= len(pre):
                    continue
                x = n[len(pre):]
                gs = [g for p in ('Get', 'Is', 'Has') for g in S.of[q].get(p + x, ()) if not g.params and bare(g.r['ret']) == 'bool']
                for f in fs:
                    if f.params or not gs:
                        continue
                    bad = set()
                    try:
                        for fl in (0, 0xffffffff):
                            I = Settings(P)
                            for rv, tr, st in I.paths(f, mk=lambda: (state(q, fl), [])):
                                if st['end'] == 'ret':
                                    for r, c in ask(P, gs[0], st['this'], dict(I.globals)):
                                        if r != str(want):
                                            bad.add(r)
                    except Unsupported as ex:
                        R.count('settings not decided (not followed)')
                        continue
                    R.count('switches decided')
                    R.ob('%s::%s()' % (q, n), f.loc(), not bad, '%s: after %s() the getter %s answers %s' % (q, n, gs[0].n, ', '.join(sorted(bad))) if bad else '')
    R.floor('switches decided', R.analysed.get('switches decided', 0), 15)
    R.floor('settings decided', R.analysed.get('settings decided', 0), 230)


def simple(f):
    return bare(f.params[0]['t']) in ('bool', 'float', 'int', 'unsigned int') or 'stringT' in f.params[0]['t'] or f.params[0]['t'] == 'const char *' or 'FMMatrix' in f.params[0]['t']


def state(q, fl):
    o = Obj(q, 'self')
    o.fields['flags'] = Cell(fl)
    return o


def ask(P, g, o, before, ptr=False):
    I = Settings(P, before=before, nonnull=('V0',) if ptr else ())
    for rv, tr, st in I.paths(g, mk=lambda: (copy.deepcopy(o), [])):
        if st['end'] == 'ret':
            yield norm(rv), st['conds']


def decide(P, q, f, g, getters):
    bad, moved = set(), {}
    isb = bare(f.params[0]['t']) == 'bool'
    for v in ((True, False) if isb else (None,)):
        for fl in (0, 0xffffffff):
            old = {}
            for n, h in getters.items():
                if n == g.n:
                    continue
                try:
                    old[n] = {r for r, c in ask(P, h, state(q, fl), {})}
                except Unsupported:
                    pass
            ptr = is_ptr(f.params[0]['t'])
            I = Settings(P, nonnull=('V0',) if ptr else ())

            def mk():
                return state(q, fl), [v if i == 0 and isb else T('V%d' % i, p['t']) for i, p in enumerate(f.params)]
            for rv, tr, st in I.paths(f, mk=mk):
                if st['end'] != 'ret':
                    continue
                before = dict(I.globals)
                o = st['this']
                want = str(v) if isb else 'V0'
                for r, c in ask(P, g, o, before, ptr):
                    w = want
                    if len(f.params) == 3 and r.startswith('{') and all(bare(p['t']) == 'float' for p in f.params):
                        w = '{x=V0,y=V1,z=V2}'
                    eq = equal(st['conds'] + c)
                    if not fits(r, w, v) and (r, w) not in eq and (w, r) not in eq:
                        bad.add('%s for %s' % (r[:60], w))
                for n, b in old.items():
                    try:
                        for r, c in ask(P, getters[n], o, before, ptr):
                            if r not in b:
                                moved[n] = r[:80]
                    except Unsupported:
                        pass
    return bad, moved
