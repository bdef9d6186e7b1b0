"""C06: build catalogs and observe them through the mapping protocol."""
import pickle
from drv import *
from segpy.catalog import CatalogBuilder

HOWS = ('add', 'pairs', 'mapping')


# Keys and values are given to the code as base + step * number: the mapping is the same up to these names,
# whatever their size.
PLAIN = (0, 1)
KEYS, VALUES = [PLAIN], [PLAIN]


def label(x, lab):
    return lab[0] + lab[1] * x


def number(y, lab):
    if lab == PLAIN:
        return to_int(y)
    import operator
    try:
        y = operator.index(y)
    except TypeError:
        raise Shape('not an integer: %r' % (y,))
    q, rest = divmod(y - lab[0], lab[1])
    if rest or not -2**31 <= q < 2**31:
        raise Shape('%r is none of the numbers used' % (y,))
    return q


def numbers(ys, lab):
    return [number(y, lab) for y in ys]


def as_key(k):
    return label(k[0], KEYS[0]) if len(k) == 1 else tuple(label(x, KEYS[0]) for x in k)


def of_key(k):
    if isinstance(k, tuple):
        return numbers(k, KEYS[0])
    return [number(k, KEYS[0])]


def as_value(v):
    return label(v, VALUES[0])


def of_value(v):
    return number(v, VALUES[0])


def build(items, how):
    pairs = [(as_key(i['key']), as_value(i['value'])) for i in items]
    if how == 'add':
        b = CatalogBuilder()
        for k, v in pairs:
            b.add(k, v)
    elif how == 'pairs':
        b = CatalogBuilder(iter(pairs))
    elif how == 'mapping':
        b = CatalogBuilder(dict(pairs))
    else:
        half = len(pairs) // 2
        b = CatalogBuilder(pairs[:half])
        for k, v in pairs[half:]:
            b.add(k, v)
    return b.create()


def observe(items, how, probes, vprobes, copied, survey=None, repeated=False):
    if how == 'mapping' and len({tuple(i['key']) for i in items}) != len(items):
        how = 'pairs'
    holder = []
    made = call(lambda: build(items, how), lambda c: holder.append(c) or ('none' if c is None else 'catalog'))
    rec = dict(items=items, how=how, made=made, copied=copied) if survey is None else dict(survey=survey, repeated=repeated, how=how, made=made, copied=copied)
    c = holder[0] if holder else None
    if made['k'] == 'ok' and made['v'] == 'catalog' and copied:
        c2 = call(lambda: pickle.loads(pickle.dumps(c)), lambda x: holder.append(x) or 1)
        rec['copy'] = c2
        c = holder[-1]
    if c is not None:
        rec['len'] = call(lambda: len(c), to_int)
        rec['iter'] = call(lambda: list(c), lambda ks: [of_key(k) for k in ks])
        ps = []
        for k in probes:
            key = as_key(k)
            ps.append(dict(key=k, has=call(lambda: key in c, to_bool), item=call(lambda: c[key], of_value),
                           get=call(lambda: c.get(key), none_or(of_value, -999))))
        rec['probes'] = ps
        rec['values'] = call(lambda: list(c.values()), lambda vs: numbers(vs, VALUES[0]))
        rec['pairs'] = call(lambda: list(c.items()), lambda kv: [dict(key=of_key(k), value=of_value(v)) for k, v in kv])
        rec['equal'] = call(lambda: c == {as_key(i['key']): as_value(i['value']) for i in items}, to_bool)
        rec['again'] = call(lambda: list(iter(c)), lambda ks: [of_key(k) for k in ks])
        rec['grid'] = hasattr(c, 'i_range')
        if rec['grid']:
            rec['i'] = call(lambda: list(c.i_range), lambda v: numbers(v, KEYS[0]))
            rec['j'] = call(lambda: list(c.j_range), lambda v: numbers(v, KEYS[0]))
            rec['bounds'] = call(lambda: [c.i_min, c.i_max, c.j_min, c.j_max], lambda v: numbers(v, KEYS[0]))
            rec['key_min'] = call(lambda: c.key_min(), lambda v: numbers(v, KEYS[0]))
            rec['key_max'] = call(lambda: c.key_max(), lambda v: numbers(v, KEYS[0]))
            rec['first'] = call(lambda: c.value_first(), of_value)
            rec['last'] = call(lambda: c.value_last(), of_value)
        rec['reverse'] = [dict(value=v, key=call(lambda: c.key(as_value(v)), lambda k: numbers(k, KEYS[0]))) for v in vprobes] if hasattr(c, 'key') else []
    emit('catalog' if survey is None else 'survey', **rec)


def probes_for(items, r, n=14):
    keys = [i['key'] for i in items]
    out = [list(k) for k in keys]
    if not keys:
        return [[0], [1, 2]]
    if len(keys[0]) == 1:
        for k in keys:
            out += [[k[0] + 1], [k[0] - 1]]
        lo, hi = min(k[0] for k in keys), max(k[0] for k in keys)
        out += [[lo - 5], [hi + 5], [2 * hi - lo + 1], [(lo + hi) // 2]] + [[r.randint(lo, hi)] for _ in range(4)]
    else:
        is_, js = [k[0] for k in keys], [k[1] for k in keys]
        for _ in range(n):
            out.append([r.choice(is_), r.choice(js)])
        for k in keys[:6]:
            out += [[k[0] + 1, k[1]], [k[0], k[1] + 1], [k[0] - 1, k[1]], [k[0], k[1] - 1]]
        out += [[min(is_) - 1, min(js)], [max(is_) + 1, max(js)], [max(is_), max(js) + 1], [0, 0], [js[0], is_[0]]]
    seen, res = set(), []
    for k in out:
        if tuple(k) not in seen:
            seen.add(tuple(k))
            res.append(k)
    return res


def vprobes_for(items):
    vs = sorted({i['value'] for i in items})[:8]
    return sorted(set(vs + [v + 1 for v in vs] + [v - 1 for v in vs[:2]]))


def random_items(r):
    shape = r.choice(['scalar', 'scalar', 'grid', 'grid', 'grid', 'pairs', 'nearly'])
    base = r.choice([0, 1, -7, 100, -100000, 2000000000])
    def values(n):
        kind = r.choice(['asc', 'desc', 'const', 'any', 'ascirr', 'dup', 'almost'])
        a, d = r.randint(-50, 50), r.choice([1, 1, 2, 240, 7, 3600])
        if kind == 'asc': return [a + d * k for k in range(n)]
        if kind == 'desc': return [a - d * k for k in range(n)]
        if kind == 'const': return [a] * n
        if kind == 'any': return [r.randint(-1000, 1000) for _ in range(n)]
        if kind == 'ascirr':
            out = [a]
            for _ in range(n - 1): out.append(out[-1] + r.randint(1, 4))
            return out[:n]
        if kind == 'almost':
            out = [a + d * k for k in range(n)]
            if n: out[r.randrange(n)] += r.choice([-1, 1])
            return out
        return [r.choice([a, a + 1]) for _ in range(n)]
    def axis(n):
        kind = r.choice(['reg', 'reg', 'irr', 'almost'])
        b, d = base + r.randint(-9, 9), r.choice([1, 1, 2, 5, 12])
        if kind == 'reg': return [b + d * k for k in range(n)]
        xs = [b + d * k for k in range(n)]
        if kind == 'almost':
            if n > 2: xs[r.choice([n - 1, n // 2])] += 1 if d > 1 or True else 0
            return sorted(set(xs))
        return sorted(r.sample(range(b, b + 6 * n + 1), n))
    if shape == 'scalar':
        ks = axis(r.randint(0, 14))
        keys = [[k] for k in ks]
        vs = values(len(keys))
    else:
        ii, jj = axis(r.randint(1, 5)), axis(r.randint(1, 5))
        keys = [[i, j] for i in ii for j in jj] if r.random() < .5 else [[i, j] for j in jj for i in ii]
        if shape == 'pairs':
            keys = [k for k in keys if r.random() < .7]
        vs = values(len(keys))
        if shape == 'nearly' and keys:
            del keys[r.randrange(len(keys))]
            if r.random() < .5 and keys:
                keys.append([r.choice(ii) + 1, r.choice(jj)])
            keys = [list(k) for k in {tuple(k): 0 for k in keys}]
            vs = values(len(keys))
    items = [dict(key=k, value=v) for k, v in zip(keys, vs)]
    o = r.random()
    if o < .35:
        r.shuffle(items)
    elif o < .45:
        items.reverse()
    if items and r.random() < .08:
        items.insert(r.randint(0, len(items)), dict(key=list(r.choice(items)['key']), value=r.choice(items)['value']))
    return items


def many_items(r, n):
    """Some hundreds of keys."""
    m = r.choice([65, 129, 257, 300])
    a, d, e = r.randint(-500, 500), r.choice([1, 2, 5]), r.choice([1, 240, -3])
    if n % 4 == 0:
        keys = [[a + d * k] for k in range(m)]
    elif n % 4 == 1:
        w = r.choice([5, 16, 17])
        keys = [[a + d * (k // w), 7 + k % w] for k in range(m // w * w)]
    elif n % 4 == 2:
        keys = [[k] for k in sorted(r.sample(range(-2000, 2000), m))]
    else:
        keys = [list(k) for k in sorted({(r.randint(0, 19), r.randint(50, 90)) for _ in range(m)})]
    vs = [e * k + 3600 for k in range(len(keys))]
    style = r.randrange(4)
    if style == 1:
        vs[r.randrange(len(vs))] += 1
    elif style == 2:
        r.shuffle(vs)
    elif style == 3:
        vs = [9] * len(vs)
    items = [dict(key=k, value=v) for k, v in zip(keys, vs)]
    if r.random() < .3:
        r.shuffle(items)
    return items


def large_survey(n):
    r = rng('survey', n)
    p = survey_of(r, r.choice([300, 1100, 2100, 4200, 5000, 5000]) if n % 12 else r.choice([9000, 17000, 39000] if THOROUGH else [9000, 11000]))
    m = p['ni'] * p['nj']
    def key(k):
        return survey_key(p, k)
    items = [dict(key=key(k), value=p['v0'] + p['dv'] * (k * p['mult'] % m)) for k in range(m) if k != p['hole']]
    repeated = r.random() < .1
    order = r.choice(['given', 'given', 'backwards', 'shuffled', 'columns'])
    if repeated:
        items.insert(r.choice([0, len(items), r.randrange(len(items))]), dict(r.choice(items)))
    if order == 'backwards':
        items.reverse()
    elif order == 'shuffled':
        r.shuffle(items)
    elif order == 'columns':
        items.sort(key=lambda i: i['key'][::-1])
    some = [r.choice(items)['key'] for _ in range(40)] + [key(0), key(1), key(m - 1), key(m // 2)] + ([key(p['hole'])] if p['hole'] >= 0 else [])
    off = [[x + r.choice([-1, 1, 1, 7, 0]) for x in k] for k in some] + [[k[0] - p['di']] + k[1:] for k in some[:3]] + [[k[0] + p['di'] * p['ni']] + k[1:] for k in some[:3]]
    values = [i['value'] for i in r.sample(items, 4)]
    how = r.choice(('add', 'pairs') + (() if repeated else ('mapping', 'mixed')))
    observe(items, how, some + off, values + [values[0] + 1, p['v0'] - 1], r.random() < .3, survey=p, repeated=repeated)


def main():
    begin(what='generated')
    for n, s in enumerate(scenarios('catalogs')):
        if n % NSHARDS == SHARD:
            items = s['items']
            d = len(items[0]['key']) if items else 1
            probes = [[k] for k in range(-1, 8)] if d == 1 else [[i, j] for i in range(0, 4) for j in range(2, 7)]
            session(observe, items, HOWS[n % 3], probes, [-1, 0, 1, 2, 4, 6], False)
    begin(what='random')
    for n in range(12000 if THOROUGH else 1500):
        if n % NSHARDS == SHARD:
            r = rng('catalog', n)
            items = random_items(r)
            session(observe, items, r.choice(HOWS + ('mixed',)), probes_for(items, r), vprobes_for(items), r.random() < .2)
    begin(what='large numbers')
    for n in range(4000 if THOROUGH else 400):
        if n % NSHARDS == SHARD:
            r = rng('large', n)
            items = random_items(r)
            KEYS[0] = r.choice([PLAIN, (2**53, 1), (2**31, 1), (-2**63, 3), (10**20, 2**33), (0, 2**32), (2**62, 2**53)])
            VALUES[0] = r.choice([PLAIN, (2**53, 1), (2**31, 1), (-2**63, -3), (2**53 + 1, 2**32 + 1), (0, 2**40), (10**30, 7)])
            session(observe, items, r.choice(HOWS + ('mixed',)), probes_for(items, r), vprobes_for(items), r.random() < .2)
            KEYS[0], VALUES[0] = PLAIN, PLAIN
    begin(what='linear')
    for n in range(3000 if THOROUGH else 300):
        if n % NSHARDS == SHARD:
            # any two strides, whose ratio is seldom a round number
            r = rng('linear', n)
            m = r.choice([3, 5, 9, 20])
            a, v, d, e = r.randint(-9999, 9999), r.randint(-9999, 99999), r.randint(1, 300), r.choice([1, -1, 1, 240, 3, 7, r.randint(1, 9999), -r.randint(1, 300)])
            items = [dict(key=[a + d * k], value=v + e * k) for k in range(m)]
            if r.random() < .2:
                items[r.randrange(1, m)]['value'] += r.choice([-1, 1])
            session(observe, items, r.choice(HOWS + ('mixed',)), probes_for(items, r), vprobes_for(items), r.random() < .1)
    begin(what='large surveys')
    for n in range(160 if THOROUGH else 40):
        if mine():
            session(large_survey, n)
    begin(what='many')
    for n in range(60 if THOROUGH else 16):
        if n % NSHARDS == SHARD:
            r = rng('many', n)
            items = many_items(r, n)
            session(observe, items, r.choice(HOWS + ('mixed',)), probes_for(items, r)[-60:] + [i['key'] for i in r.sample(items, 40)], vprobes_for(items), r.random() < .2)


main()
