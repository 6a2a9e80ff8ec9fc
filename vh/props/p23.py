"""P23: domain keys order totally, hash consistently and match by overlap."""
import itertools
import json
import os
import pickle
import subprocess
import sys

from vh import gen, jobs

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: order-axiom and hash-consistency checker over random key families, replayed in processes with other hash seeds"
NOTE = ("held on the executed families of keys: order axioms are checked on all pairs and triples of a family, hashes against permuted "
        "copies and against processes with other hash seeds")
RULE = ("an evaluation is one family of keys (all pairs and triples); non-trivial: the family holds keys that differ only in values, "
        "value counts or property names; distinct by family")
ASSUMPTIONS = ["keys carry string values without duplicates and without NUL characters"]
CASES = {"quick": 160, "thorough": 6000}
BUDGET = {"quick": 40, "thorough": 500}
SHARDS = {"quick": 4, "thorough": 8}
NATIVE = False
MUST_OBSERVE = ["pairs", "triples", "matching_pairs", "foreign_process_hashes"]

VALS = ["a", "b", "aa", "A", "Z", "10", "9", "1", "x;y", "x:y", ",", "ä", "中", "", " ", "None", "😀", "a\tb"]
PROPS = ["language", "topic", "license", "a", "b", "Language", "language2"]


def setup(ctx):
    from vh.boot import boot

    boot()
    return dict(keys=[])


def rand_domain(rng):
    k = rng.choice([1, 1, 2, 2, 3])
    props = rng.sample(PROPS, k)
    return tuple(sorted((p, tuple(sorted(rng.sample(VALS, rng.choice([1, 1, 1, 2, 3, 3, 0]))))) for p in props))


def mutate(rng, d):
    d = dict(d)
    p = rng.choice(sorted(d))
    r = rng.random()
    if r < 0.35:
        d[p] = tuple(sorted(set(d[p]) ^ {rng.choice(VALS)})) or ("q",)
    elif r < 0.6 and d[p]:
        v = list(d[p])
        v[rng.randrange(len(v))] = rng.choice(VALS)
        d[p] = tuple(sorted(set(v)))
    elif r < 0.8:
        q = rng.choice(PROPS)
        if q not in d:
            d[q] = d.pop(p)
    else:
        q = rng.choice(PROPS)
        d.setdefault(q, (rng.choice(VALS),))
    return tuple(sorted(d.items()))


def build(domain, rng=None):
    """The same key with properties and values given in random order, partly through add_property."""
    from mixtera.core.query.mixture import MixtureKey

    items = [(k, list(v)) for k, v in domain]
    if rng is None:
        return MixtureKey(dict(items))
    rng.shuffle(items)
    for _, v in items:
        rng.shuffle(v)
    if len(items) > 1 and rng.random() < 0.4:
        key = MixtureKey(dict(items[:-1]))
        if rng.random() < 0.5:
            hash(key)
        if rng.random() < 0.4:  # set once more
            key.add_property(items[-1][0], ["other"])
            if rng.random() < 0.7:
                hash(key)
        key.add_property(*items[-1])
    else:
        key = MixtureKey(dict(items))
    if rng.random() < 0.2:
        if rng.random() < 0.5:
            hash(key)
        key = pickle.loads(pickle.dumps(key))
    return key


def run_case(ctx, state, i):
    rng = ctx.rng
    fam = [rand_domain(rng) for _ in range(3)]
    while len(fam) < 9:
        fam.append(mutate(rng, rng.choice(fam)))
    fam = list(dict.fromkeys(fam))
    keys = [build(d, rng) for d in fam]
    twins = [build(d, rng) for d in fam]
    n = len(fam)
    ctx.note(family=[str(d) for d in fam])
    lt = {}
    for a, b in itertools.product(range(n), repeat=2):
        x = bool(keys[a] < keys[b])
        ctx.check(x == bool(twins[a] < keys[b]) == bool(keys[a] < twins[b]), "the order depends on how properties or values are listed", "order-listing",
                  a=fam[a], b=fam[b])
        lt[a, b] = x
    for a, b in itertools.product(range(n), repeat=2):
        ctx.count("pairs")
        if a == b:
            ctx.check(not lt[a, b], "a key is smaller than itself", "irreflexive", a=fam[a])
        else:
            ctx.check(lt[a, b] != lt[b, a], "two distinct keys are not ordered one way", "total", a=fam[a], b=fam[b], lt=(lt[a, b], lt[b, a]))
    for a, b, c in itertools.permutations(range(n), 3):
        ctx.count("triples")
        if lt[a, b] and lt[b, c]:
            ctx.check(lt[a, c], "the order is not transitive", "transitive", a=fam[a], b=fam[b], c=fam[c])
    order = sorted(range(n), key=lambda k: sum(lt[j, k] for j in range(n)))
    for _ in range(3):
        perm = list(range(n))
        rng.shuffle(perm)
        got = [gen.key_tuple(k) for k in sorted((rng.choice([keys, twins])[p] for p in perm))]
        ctx.check(got == [fam[o] for o in order], "sorting the same keys gives different orders", "sort")
    for a in range(n):
        ctx.check(hash(keys[a]) == hash(twins[a]), "keys describing the same properties and values hash differently", "hash-listing", a=fam[a])
        ctx.check(hash(build(fam[a])) == hash(keys[a]), "the hash of a key depends on how it came about", "hash-history", a=fam[a])
        ctx.check({keys[a]: 1}.get(twins[a]) == 1, "a key is not found under an equal key", "dict", a=fam[a])
    for a, b in itertools.product(range(n), repeat=2):
        want = jobs.matches(fam[a], fam[b])
        ctx.check(bool(keys[a] == keys[b]) == want, "a mixture domain matches a data domain wrongly", "match", mixture=fam[a], data=fam[b], expected=want)
        ctx.count("matching_pairs" if want else "other_pairs")
    ctx.check(len({k: 0 for k in keys}) == n or len({hash(k) for k in keys}) < n, "distinct keys are merged in a mapping", "dict")
    if len(state["keys"]) < 400:
        state["keys"] += [(d, hash(k)) for d, k in zip(fam, keys)]
    ctx.evaluated()
    ctx.distinct(sorted(fam))
    ctx.sample(dict(family=[str(d) for d in fam[:4]], order=order))


CHILD = """
import json, sys
from vh.boot import boot
boot()
from mixtera.core.query.mixture import MixtureKey
out = []
for items in json.load(sys.stdin):
    out.append(hash(MixtureKey({k: list(v) for k, v in items})))
print("HASHES", json.dumps(out))
"""


def finish(ctx, state):
    if not state["keys"]:
        return
    doms = [d for d, _ in state["keys"]]
    for seed in ("0", str(ctx.shard + 7)):
        r = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(doms), capture_output=True, text=True,
                           env={**os.environ, "PYTHONHASHSEED": seed})
        line = next((x for x in r.stdout.splitlines() if x.startswith("HASHES")), None)
        if line is None:
            ctx.errors.append("child failed: " + r.stderr[-800:])
            return
        for (d, h), other in zip(state["keys"], json.loads(line[7:])):
            ctx.check(h == other, "the same key hashes differently in another process", "hash-process", key=d, hashes=(h, other), seed=seed)
            ctx.count("foreign_process_hashes")
