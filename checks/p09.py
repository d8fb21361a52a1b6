"""Flow-sensitive null analysis of every library function: the results of functions that answer "nothing" on some path (missing
element, failed lookup, unresolved link) are followed through locals, tests, flags and arguments; none may be dereferenced,
called on or passed to a function that uses it without a check on that path."""
from nullflow import *

# answers that are null only when the caller passes a kind outside its enumeration, or for an empty buffer whose elements are
# not touched; the arguments used in this library exclude both
SURE = {
    'AddChild': 'null only for a null parent node, which the writer asserts',
    'LetWriteObject': 'answers the node created by the registered write routine',
    'CreateAnimated': 'the base version is overridden by every instantiation',
    'GetAnimated': 'creates the animated on demand (see CreateAnimated)',
    'GetDefaultType': 'creates the default type on demand',
    'GetData': 'start of a buffer',
    'MergeCurves': 'null only for a list without any curve',
    'AddTransform': 'null only for an unknown transform kind',
    'AddEffectParameter': 'null only for an unknown parameter kind',
    'Create': 'null only for an unknown kind',
    'CreateRootNode': 'null only when memory is exhausted',
    'Next': 'iterators are asked whether they are done first',
}
CONTAINERS = ('fm::', 'FUObjectContainer', 'FUTracked', 'FUObjectList', 'std::')
# initially null, set by the first turn of the loop and used from the second one on
LOOP = {('FCDLightTools::LoadPenumbra', 'NULL')}


def run(P, R):
    def source(f):
        return not f.q.startswith(CONTAINERS) and f.n not in SURE
    N = NullFlow(P, source)
    fns = [f for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.id)) if f.body]
    maybe, sites = set(), 0
    for f in fns:
        s = N.summary(f)
        if s and s['ret'] and source(f):
            maybe.add(f.id)
    bad = {}
    for f in fns:
        s = N.summary(f) or {'bad': ()}
        for at, o, x, w in s['bad']:
            if (f.q, o) in LOOP:
                continue
            loc = f.loc(at)
            key = '%s:%s:%s' % (f.q, o, x)
            if key not in bad:
                bad[key] = (loc, '%s uses "%s" (%s), which may be null: %s' % (f.q, x, w, 'it comes from ' + o if o not in ('NULL', 'tested null') else 'it is null when ' + ('nothing was found' if o == 'NULL' else 'the test before it fails')))
        for e in f.calls():
            t = P.direct(e)
            if t is not None and t.id in maybe:
                sites += 1
    for k, (loc, m) in sorted(bad.items()):
        R.bad(k, loc, m)
    for f in fns:
        if f.id in maybe:
            R.ob('source:%s(%s)' % (f.q, ','.join(p['t'] for p in f.params)), f.loc(), True, '')
    R.count('functions analysed', len(fns))
    R.count('functions that may answer nothing', len(maybe))
    R.count('uses of their answers', sites)
    R.floor('functions analysed', len(fns), 5000)
    R.floor('functions that may answer nothing', len(maybe), 100)
    R.floor('uses of their answers', sites, 400)
