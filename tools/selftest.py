#!/usr/bin/env python3
"""Does TLC reject a recorded execution in which one value is changed?

selftest.py [property...]   (not a check: it takes no part in any verdict on the library)

Executes the generated plan of each property, takes one event of every kind of call and result, changes one thing
in it - a digit of the result, ok for err, a digit of an object's contents, a change of an object left out - and
lets TLC judge each changed trace.  Prints the changes that TLC accepts; there must be none other than values the
specification leaves open."""
import copy, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check

HEX = '0123456789abcdef'


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in sorted(v):
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i, e in enumerate(v):
            yield from leaves(e, path + (i,))
    else:
        yield path


def change(v, path, rnd):
    """v with the leaf at path made different, or None"""
    v = copy.deepcopy(v)
    if not path:
        return other(v, rnd)
    x = v
    for p in path[:-1]:
        x = x[p]
    n = other(x[path[-1]], rnd)
    if n is None:
        return None
    x[path[-1]] = n
    return v


def other(x, rnd):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, str) and x and all(c in HEX for c in x):
        i = rnd.randrange(len(x))
        return x[:i] + HEX[(HEX.index(x[i]) + 1 + rnd.randrange(15)) % 16] + x[i + 1:]
    return None


def corruptions(e, rnd):
    r = e['r']
    if r['k'] in ('ok', 'err'):
        c = copy.deepcopy(e)
        c['r'] = {'k': 'err'} if r['k'] == 'ok' else {'k': 'ok', 'v': ''}
        yield 'ok for err or the reverse', c
        c = copy.deepcopy(e)
        c['r'] = {'k': 'panic'}
        yield 'panic', c
    if 'v' in r:
        ls = list(leaves(r['v']))
        for p in rnd.sample(ls, min(3, len(ls))):
            n = change(r['v'], p, rnd)
            if n is not None:
                c = copy.deepcopy(e)
                c['r']['v'] = n
                yield 'result %s' % (p,), c
    for k, (i, f) in enumerate(e['ch']):
        c = copy.deepcopy(e)
        del c['ch'][k]
        yield 'change of %s left out' % i, c
        ls = list(leaves(f))
        for p in rnd.sample(ls, min(3, len(ls))):
            n = change(f, p, rnd)
            if n is not None:
                c = copy.deepcopy(e)
                c['ch'][k][1] = n
                yield 'contents of %s %s' % (i, p), c


def main(props):
    total = accepted = 0
    for prop in props:
        rnd = random.Random(prop)
        w = check.Work(prop)
        try:
            w.build()
            lines, _ = w.execute(w.plan())
            seen, out, what = {}, [], []
            order = list(range(len(lines)))
            rnd.shuffle(order)
            for i in order:
                c = json.loads(lines[i])
                if c.get('mode') == 'conc' or len(lines[i]) > 200000:
                    continue
                for k, e in enumerate(c['ev']):
                    kind = (e['op'], e['a'].get('op') if e['op'] == 'call' else None, e['r']['k'], bool(e['ch']))
                    if seen.get(kind, 0) >= 3:
                        continue
                    seen[kind] = seen.get(kind, 0) + 1
                    for name, n in corruptions(e, rnd):
                        d = dict(c, ev=c['ev'][:k] + [n], case=len(out) + 1)
                        out.append(json.dumps(d))
                        what.append((kind, name, json.dumps(n)[:400]))
            rej, _, _ = w.validate(out)
            got = {i for i, _, _ in rej}
            total += len(out)
            for i in range(len(out)):
                if i not in got:
                    accepted += 1
                    print(prop, 'ACCEPTED', what[i][1], what[i][2], flush=True)
            print('%s: %d kinds of event, %d changes, %d rejected' % (prop, len(seen), len(out), len(got)), flush=True)
        finally:
            w.close()
    print('%d changes, %d accepted' % (total, accepted))


main(sys.argv[1:] or ['C%02d' % i for i in range(1, 26)])
