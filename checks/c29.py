from hypothesis import strategies as st
from vlib.engine import Facet, fail, need
from coral import stats

ASSUMPTIONS = ["a call is expected to be remembered over the next eight calls; longer memory depends on cache sizes and is not judged"]

UNARY = ["max", "min", "sum", "len", "avg", "var", "std_dev", "gini_kakwani", "gini_deaton"]
BINARY = ["covar", "corr"]
LEAF = ["max", "min", "len", "sum"]

base = st.lists(st.integers(1, 9) | st.sampled_from([0.5, 2.0, 10 ** 6, 1e-3]), min_size=2, max_size=5)


@st.composite
def history(draw):
    pool = []
    for b in draw(st.lists(base, min_size=1, max_size=3)):
        if len(set(b)) == 1:
            b = b + [b[0] + 1]
        pool.append(tuple(b))
        # near misses: same set, same length, same ends, same multiset in another order
        pool.append(tuple(draw(st.permutations(b))))
        pool.append(tuple(b) + (b[0],))
        pool.append(tuple(b[:-1]) + (b[-1] + 1,))
        pool.append(tuple(float(v) for v in b))
        pool.append(tuple(-v for v in b))
    n = len(pool)
    idx = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("call"), st.sampled_from(UNARY + BINARY * 2), idx, idx),
        st.tuples(st.just("call"), st.sampled_from(UNARY + BINARY * 2), idx, idx),
        st.tuples(st.just("again"), st.integers(0, 7)),
        st.tuples(st.just("clear")),
        st.tuples(st.just("gen"), st.sampled_from(LEAF[:2] + ["sum"]), idx),
        st.tuples(st.just("bulk"), st.sampled_from(UNARY + BINARY), st.sampled_from([3, 20, 40, 70, 140]), st.integers(1, 50)),
    )
    return pool, draw(st.lists(op, min_size=draw(st.sampled_from([1, 8, 16])), max_size=40))


def fresh(name, args):
    stats.cache_clear()
    return getattr(stats, name)(*args)


def usable(name, args):
    n = len(args[0])
    if name in BINARY:
        if len(args[1]) != n:
            args = tuple(a[:min(map(len, args))] for a in args)
        if name == "corr" and any(len(set(a)) == 1 for a in args):
            return None
    elif name.startswith("gini") and (n < 2 or min(args[0]) <= 0):
        return None
    return args


def bulk(name, k, salt):
    for i in range(k):
        t = (i + 1, salt + i * i, 3)
        if name in BINARY:
            yield t, (salt, i + 2, 7 * i)
        else:
            yield (t,)


def info():
    c = stats.cache_info()
    for v in c:
        need(isinstance(v, int) and v >= 0, "cache report {}", c)
    each = [getattr(stats, f).cache_info() for f in UNARY + BINARY if hasattr(getattr(stats, f), "cache_info")]
    if len(each) == len(UNARY + BINARY):
        for k, what in enumerate(("hits", "misses", "capacity", "entries")):
            t = 0
            for e in each:
                t += e[k]
            need(c[k] == t, "the report counts {} {}, all caches together have {}", c[k], what, t)
    return c


def run(case):
    pool, ops = case
    # what every call gives on empty caches
    need_calls = {}
    for o in ops:
        if o[0] == "call":
            a = usable(o[1], (pool[o[2]], pool[o[3]]) if o[1] in BINARY else (pool[o[2]],))
            if a:
                need_calls[o[1], a] = None
        elif o[0] == "bulk":
            for a in bulk(*o[1:]):
                if usable(o[1], a) == a:
                    need_calls[o[1], a] = None
    for name, a in list(need_calls):
        need_calls[name, a] = fresh(name, a)
    stats.cache_clear()
    past = []
    since = {}
    cleared = True
    peak = 0
    repeats = 0

    def call(name, a):
        nonlocal cleared, repeats
        before = info()
        # equal arguments, but never the same objects
        args = tuple(tuple(list(x)) for x in a)
        got = getattr(stats, name)(*args)
        after = info()
        want = need_calls[name, a]
        need(got == want, "{}{} gives {}, on empty caches {}; history {}", name, a, got, want, past)
        dh, dm, de = after.hits - before.hits, after.misses - before.misses, after.currsize - before.currsize
        key = (name, a)
        if key in past[-8:]:
            repeats += 1
            need(dh == 1 and dm == 0 and de == 0, "repeating {}{} is not answered from the cache: {} hits, {} misses, {} new entries", name, a, dh, dm, de)
        elif cleared:
            need(dm >= 1 and de >= 1 and (name not in LEAF or (dh, dm, de) == (0, 1, 1)),
                 "{}{} on empty caches: {} hits, {} misses, {} new entries", name, a, dh, dm, de)
        need(dh >= 0 and dm >= 0, "counters ran backwards")
        need(dh + dm >= 1, "{}{} was not counted", name, a)
        need(after.currsize <= after.maxsize and after.currsize <= after.misses, "report {}", after)
        cleared = False
        past.append(key)

    for o in ops:
        if o[0] == "call":
            a = usable(o[1], (pool[o[2]], pool[o[3]]) if o[1] in BINARY else (pool[o[2]],))
            if a:
                call(o[1], a)
        elif o[0] == "again":
            if len(past) > o[1]:
                call(*past[-1 - o[1]])
        elif o[0] == "clear":
            stats.cache_clear()
            c = info()
            need((c.hits, c.misses, c.currsize) == (0, 0, 0), "after clearing the report is {}", c)
            past.clear()
            cleared = True
        elif o[0] == "gen":
            t = pool[o[2]]
            got = getattr(stats, o[1])(x for x in t)
            want = need_calls.get((o[1], (t,)), None)
            ref = {"max": max, "min": min}.get(o[1])
            want = ref(t) if ref else sum(map(float, t))
            need(got == want or abs(got - want) <= 1e-9, "{} over the items of {} gives {}", o[1], t, got)
            cleared = False
            past.clear()
        else:
            for a in bulk(*o[1:]):
                if (o[1], a) in need_calls:
                    call(o[1], a)
            peak = max(peak, o[2])
        info()
    stats.cache_clear()
    return "overflowing" if peak >= 140 else "long" if peak >= 20 else "repeats" if repeats else False


FACETS = [
    Facet("history", history, run,
          "histories of up to 40 calls, repeats, clears, generators and bulks of up to 140 distinct calls over tuples that differ only in order, ends, sign or type; at least one repeat or bulk", 900),
]
