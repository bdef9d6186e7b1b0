"""C07: sorted distinct sequences."""
from drv import *
from segpy.util import make_sorted_distinct_sequence, SortSense
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.reversed_sequence_view import ReversedSequenceView

SENSES = {'asc': SortSense.ascending, 'desc': SortSense.descending, 'keep': None}


# Numbers are given to the code under other names: base + step * number, or text in the same order.
PLAIN = (0, 1)
LAB = [PLAIN]


def label(x):
    lab = LAB[0]
    return x if lab == PLAIN else '%011d' % (x + 2**31) if lab == 'text' else x + .5 if lab == 'half' else lab[0] + lab[1] * x


def number(y):
    lab = LAB[0]
    if lab == PLAIN:
        return to_int(y)
    if lab == 'text':
        if not isinstance(y, str):
            raise Shape('not text')
        return to_int(int(y) - 2**31)
    if lab == 'half':
        if not isinstance(y, float) or y - .5 != int(y - .5):
            raise Shape('not one of the values: %r' % (y,))
        return to_int(int(y - .5))
    import operator
    try:
        y = operator.index(y)
    except TypeError:
        raise Shape('not an integer: %r' % (y,))
    q, rest = divmod(y - lab[0], lab[1])
    if rest:
        raise Shape('%r is none of the numbers used' % (y,))
    return to_int(q)


def numbers(ys):
    return [number(y) for y in ys]


def source(src):
    kind, items = src['kind'], src['items']
    if kind == 'set' and LAB[0] != PLAIN:
        kind = 'list'       # the order in which a set is iterated depends on its items
    if kind == 'range' and LAB[0] in ('text', 'half'):
        kind, items = 'list', list(range(*items))
    if kind == 'range':
        items = [label(items[0]), label(items[1]), items[2] * LAB[0][1]]
    else:
        items = [label(x) for x in items]
    return dict(list=lambda: list(items), tuple=lambda: tuple(items), gen=lambda: (x for x in items), iter=lambda: iter(list(items)),
                set=lambda: set(items), dict=lambda: {x: 0 for x in items}.keys(), frozen=lambda: SortedFrozenSet(items),
                range=lambda: range(*items))[kind]()


def probes(s, n, values, r, slices=True):
    """Everything asked of s; n is its length as the code says."""
    get = [dict(i=i, res=call(lambda: s[i], number)) for i in range(-n - 2, n + 2)]
    xs = sorted(set(values))
    if len(xs) > 30:
        xs = xs[:4] + r.sample(xs, 22) + xs[-4:]
        near = r.sample(xs, 8)
    else:
        near = xs[:6]
        xs = xs[:16]
    xs = xs + [x + d for x in near for d in (-1, 1) if -2**31 < x < 2**31 - 1] + [0, 99]
    find = [dict(x=x, index=call(lambda: s.index(label(x)), to_int), has=call(lambda: label(x) in s, to_bool), count=call(lambda: s.count(label(x)), to_int))
            for x in sorted(set(xs))]
    sl = []
    if slices:
        for _ in range(8):
            a, b = [r.choice([None, 0, 1, -1, 2, -2, n, n + 1, -n, r.randint(-n - 2, n + 2)]) for _ in range(2)]
            c = r.choice([None, 1, 1, 2, 3, -1, -2])
            sl.append(dict(a=[] if a is None else [a], b=[] if b is None else [b], c=c or 1, res=call(lambda: list(s[a:b:c]), numbers)))
    return dict(len=call(lambda: len(s), to_int), get=get, find=find, slices=sl, rev=call(lambda: list(reversed(s)), numbers))


def make(src, sense, r):
    holder = []
    def run():
        s = make_sorted_distinct_sequence(source(src), SENSES[sense]) if sense != 'asc' or r.random() < .5 else make_sorted_distinct_sequence(source(src))
        holder.append(s)
        return list(s)
    res = call(run, numbers)
    rec = dict(src=src, sense=sense, res=res)
    if res['k'] == 'ok':
        s = holder[0]
        # descending sequences which are not ranges offer no slices
        rec['probes'] = probes(s, len(res['v']), res['v'], r, isinstance(s, (range, SortedFrozenSet)))
    emit('s_make', **rec)


def random_source(r):
    kind = r.choice(['list', 'list', 'tuple', 'gen', 'gen', 'iter', 'set', 'dict', 'frozen', 'range'])
    if kind == 'range':
        a = r.choice([0, 5, -7, 2**31 - 40, -2**31 + 40, r.randint(-1000, 1000)])
        c = r.choice([1, 1, 2, 3, 7, -1, -1, -2, -5])
        return dict(kind=kind, items=[a, a + r.choice([0, 0, 1, c, 2 * c, 3 * c + 1, 5 * c - 1, -c, 4 * c]), c])
    b = r.choice([0, 0, -3, 2**31 - 90, -2**31])
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 14])
    style = r.randrange(5)
    if style == 0:
        d = r.choice([1, 2, 5])
        items = [b + d * k for k in range(n)]
    elif style == 1:
        items = [b + r.randint(0, 12) for _ in range(n)]
    elif style == 2:
        items = sorted({b + r.randint(0, 29) for _ in range(n)}, reverse=True)
    elif style == 3:
        items = [b + k + (k > n // 2) for k in range(n)]
    else:
        items = [r.choice([-2**31, 2**31 - 1, 0, 1, r.randint(-2**31, 2**31 - 1)]) for _ in range(n)]
    if r.random() < .2:
        items.reverse()
    if r.random() < .2:
        items = items + items[:r.randint(0, len(items))]
    if max(items, default=0) - min(items, default=0) >= 2**31:
        items = [x // 4 for x in items]
    # sets and the like have their own order
    if kind == 'set':
        items = list(set(items))
        if list(set(items)) != items:       # the order in which a set is iterated depends on how it was made
            kind = 'list'
    elif kind == 'dict':
        items = list(dict.fromkeys(items))
    elif kind == 'frozen':
        items = sorted(set(items))
    return dict(kind=kind, items=items)


def small(items, n):
    r = rng('small', n)
    begin(n=n)
    kind = ['list', 'gen', 'tuple', 'iter'][n % 4]
    for sense in SENSES:
        make(dict(kind=kind, items=items), sense, r)
    if len(items) == 3 and items[2] != 0:
        for sense in SENSES:
            make(dict(kind='range', items=items), sense, r)


def big(n):
    r = rng('big', n)
    begin(n=n)
    src = random_source(r)
    for sense in SENSES:
        make(src, sense, r)
    bad = r.choice([1, 'ascending', 0, True])
    emit('s_badsense', res=call(lambda: list(make_sorted_distinct_sequence(source(src), bad)), numbers))


def large(n):
    """Large numbers, and many."""
    r = rng('large', n)
    begin(n=n)
    if n % 2:
        LAB[0] = r.choice([(2**53, 1), (2**31, 1), (-2**63, 3), (10**20, 2**33), (0, 2**40)])
        src = random_source(r)
    else:
        src = many(r)
    for sense in SENSES:
        make(src, sense, r)
    LAB[0] = PLAIN


def many(r):
    m = r.choice([65, 129, 200, 257])
    a, d = r.randint(-500, 500), r.choice([1, 1, 2, 5])
    if r.random() < .15:
        return dict(kind='range', items=r.choice([[a, a + d * m, d], [a, a - d * m, -d]]))
    style = r.randrange(4)
    items = [a + d * k for k in range(m)]
    if style == 1:
        items[r.randrange(m)] += r.choice([-1, 1])
    elif style == 2:
        items = r.sample(range(-3 * m, 3 * m), m)
    elif style == 3:
        del items[r.randrange(m)]
    if style in (1, 3) and r.random() < .4:
        r.shuffle(items)
    if r.random() < .3:
        items.reverse()
    return dict(kind=r.choice(['list', 'gen', 'tuple', 'iter']), items=items)


def sets(n):
    r = rng('sets', n)
    begin(n=n)
    if r.random() < .4:
        LAB[0] = r.choice(['text', 'half', (2**53, 1), (2**62, 2**53)])
    try:
        set_operations(n, r)
    finally:
        LAB[0] = PLAIN


def set_operations(n, r):
    a, b = (random_source(r), random_source(r)) if n % 10 else (many(r), many(r))
    if r.random() < .4:
        items = numbers(source(a))
        r.shuffle(items)
        b = dict(kind='list', items=items[:r.choice([len(items), len(items), r.randint(0, len(items))])])
    A, B = SortedFrozenSet(source(a)), SortedFrozenSet(source(b))
    fs = {'and': lambda: A & B, 'or': lambda: A | B, 'sub': lambda: A - B, 'xor': lambda: A ^ B, 'add': lambda: A + B}
    named = {'and': lambda: A.intersection(source(b)), 'or': lambda: A.union(source(b)), 'sub': lambda: A.difference(source(b)), 'xor': lambda: A.symmetric_difference(source(b))}
    rels = {'le': lambda: A <= B, 'lt': lambda: A < B, 'ge': lambda: A >= B, 'gt': lambda: A > B, 'eq': lambda: A == B, 'ne': lambda: A != B, 'disjoint': lambda: A.isdisjoint(B)}
    rnamed = {'le': lambda: A.issubset(source(b)), 'ge': lambda: A.issuperset(source(b))}
    ops = [dict(f=f, res=call(lambda: list(g()), numbers)) for d in (fs, named) for f, g in d.items()]
    rl = [dict(f=f, res=call(g, to_bool)) for d in (rels, rnamed) for f, g in d.items()]
    emit('s_set', a=a, b=b, ops=ops, rels=rl, after_a=numbers(A), after_b=numbers(B))
    k = r.choice([-1, 0, 1, 2, 3])
    emit('s_repeat', a=a, n=k, res=call(lambda: list(A * k if r.random() < .5 else k * A), numbers))
    if LAB[0] in ('text', 'half'):
        return
    for sense in ('asc', 'keep'):
        # an ascending range without items and an empty set are different types
        if len(A) and len(B) and all(x['kind'] != 'range' for x in (a, b)):
            x, y = make_sorted_distinct_sequence(source(a), SENSES[sense]), make_sorted_distinct_sequence(source(b), SENSES[sense])
            if isinstance(x, (range, SortedFrozenSet)) and isinstance(y, (range, SortedFrozenSet)):
                emit('s_equal', a=a, b=b, sense=sense, res=call(lambda: x == y, to_bool))


def views(n):
    r = rng('views', n)
    begin(n=n)
    src = random_source(r)
    src['kind'] = r.choice(['list', 'tuple']) if src['kind'] != 'range' else 'range'
    seq = source(src)
    v = ReversedSequenceView(seq)
    res = call(lambda: list(v), numbers)
    emit('s_view', src=src, res=res, probes=probes(v, len(seq), numbers(seq), r, slices=False))


def main():
    m = 10 if THOROUGH else 1
    for k, items in enumerate(scenarios('items')):
        if mine():
            session(small, items, k)
    for fn, count in ((big, 300), (large, 60), (sets, 300), (views, 100)):
        for n in range(count * m):
            if mine():
                session(fn, n)


main()
