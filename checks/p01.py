"""For every enumeration that has both a text writer and a text parser in its namespace, constant propagation of the writer over
each enumerator, then of every parser over each resulting text, must yield exactly that enumerator, and no two
enumerators may share a text (catch-all UNKNOWN/INVALID/COUNT/DEFAULT-named enumerators excepted)."""
from ceval import *

CATCH_ALL = ('UNKNOWN', 'INVALID', 'COUNT')


def run(P, R):
    ns = defaultdict(lambda: defaultdict(list))
    for f in P.fns.values():
        if f.n in ('ToString', 'FromString') and not f.cls and '::' in f.q and not f.q.startswith('FUStringConversion'):
            ns[f.q.rsplit('::', 1)[0]][f.n].append(f)
    I = Interp(P)
    ntab = nenum = 0
    for n, d in sorted(ns.items()):
        if not d['ToString'] or not d['FromString']:
            continue
        et = bare(d['FromString'][0].r['ret'])
        en = P.enums.get(et)
        if not en:
            raise Broken('enumeration of %s not found' % n)
        ntab += 1
        names = defaultdict(list)
        for x in en['e']:
            names[x['v']].append(x['n'])
        seen = {}
        for v, ns_ in sorted(names.items()):
            if any(c in m for m in ns_ for c in CATCH_ALL):
                continue
            if all('DEFAULT' in m for m in ns_):
                continue
            label = [m for m in ns_ if 'DEFAULT' not in m][0]
            nenum += 1
            for ts in d['ToString']:
                got = I.outs(R, ts, None, [v])
                if got is None:
                    continue
                outs = [text(rv) if st['end'] == 'ret' else None for rv, st in got]
                key = '%s::%s' % (n, label)
                if len(set(outs)) != 1 or outs[0] is None:
                    R.bad(key + ':text', ts.loc(), '%s: the text of %s is not one constant: %s' % (ts.q, label, sorted(map(str, set(outs)))))
                    continue
                s = outs[0]
                R.ob(key + ':distinct', ts.loc(), s not in seen or seen[s] == v, '%s writes "%s" for both %s and %s' % (ts.q, s, label, names[seen.get(s, v)][0]))
                seen[s] = v
                for fs in d['FromString']:
                    a = s if 'stringT' in fs.params[0]['t'] else CStr(s)
                    got = I.outs(R, fs, None, [a])
                    if got is None:
                        continue
                    back = set(rv if st['end'] == 'ret' else None for rv, st in got)
                    nm = sorted(names.get(b, [str(b)])[0] for b in back)
                    R.ob('%s:parse:%s' % (key, 'string' if 'stringT' in fs.params[0]['t'] else 'chars'), fs.loc(), back == {v},
                         '%s is written as "%s", which reads back as %s' % (label, s, ', '.join(nm)))
    R.count('tables', ntab)
    R.count('enumerators', nenum)
    R.floor('enumerations with both directions', ntab, 20)
    R.floor('enumerators', nenum, 150)
