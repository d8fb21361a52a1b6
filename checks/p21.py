"""P21: no loop goes round for ever: whatever way around it is taken, something it asks about has moved."""
from model import *
import loops
import spin


def run(P, R):
    M = spin.Marks(P)
    n = shown = ways = 0
    cnt, seen = {}, {}
    for f in sorted(P.fns.values(), key=lambda f: (f.file or '', f.line, f.id)):
        if f.body is None or not (f.file or '').startswith(('FCollada/', 'FColladaPlugins/')) or 'FColladaTest' in f.file:
            continue
        if not any(s['k'] in ('For', 'While', 'Do', 'Range') for s in walk_s(f.body)) and not any(s['k'] in ('Goto', 'Label') for s in walk_s(f.body)):
            continue
        for L in loops.find(f):
            n += 1
            S = spin.Spin(P, M, L)
            w = S.go()
            ways += S.count
            J = loops.Judge(P, L)
            v = J.verdict()
            shown += v is None
            q = f.q.split('<')[0]
            cnt[f.id] = cnt.get(f.id, 0) + 1
            k = '%s:%d' % (f.q, cnt[f.id])
            while k in seen:
                k += "'"
            seen[k] = 1
            where = '%s:%d' % (f.file, L.line())
            if w:
                lines = []
                for x in w:
                    if x.line and (not lines or lines[-1] != x.line):
                        lines.append(x.line)
                R.ob(k, where, False, '%s: the way around through lines %s leaves everything the loop asks about as it was' % (q, ' '.join(map(str, lines[:12]))))
                continue
            fl = J.flaws()
            R.ob(k, where, not fl, '%s: %s' % (q, fl and fl[0]))
    R.floor('loops', n, 500)
    R.floor('loops with a measure that moves on every way around', shown, 400)
    R.analysed['steps of ways around'] = ways
    R.notes.append('%d of %d loops have a measure (a count, an iterator, a list used up) that moves on every way around; the others are only shown to have no way around that leaves what they ask about unchanged' % (shown, n))
