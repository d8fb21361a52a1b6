"""Constant propagation of the error-code describer over every declared error, warning and debug code must yield one
constant, non-empty text per code, different from the fallback given to an undeclared code, and shared with no other code."""
from ceval import *


def run(P, R):
    f = P.one('FUError::GetErrorString')
    en = P.enums.get('FUError::Code')
    if not en:
        raise Broken('FUError::Code not found')
    I = Interp(P)

    def out(v):
        got = I.outs(R, f, None, [v])
        return None if got is None else set(text(rv) if st['end'] == 'ret' else None for rv, st in got)
    vals = [x['v'] for x in en['e']]
    fb = out(max(vals) + 1000)
    if fb is None:
        return
    R.count('fallback texts', len(fb))
    seen = {}
    for x in en['e']:
        n = x['n']
        if n.endswith('_LAST') or n == 'LAST_ERROR' or n == 'LAST':
            continue
        o = out(x['v'])
        if o is None:
            continue
        if len(o) != 1 or None in o:
            R.bad(n, f.loc(), 'the text of %s is not one constant: %s' % (n, sorted(map(str, o))))
            continue
        s = next(iter(o))
        R.ob(n + ':described', f.loc(), s not in fb, '%s has no text of its own: "%s"' % (n, s))
        R.ob(n + ':own', f.loc(), s not in seen or seen[s][1] == x['v'], '%s and %s share the text "%s"' % (n, seen.get(s, ('',))[0], s))
        seen.setdefault(s, (n, x['v']))
    R.floor('error codes', len(en['e']), 150)
