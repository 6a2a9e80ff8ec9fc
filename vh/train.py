"""A job that is consumed chunk by chunk while a training reports; what is in force is known at every moment."""
import json
from collections import Counter

from vh import acc, gen, jobs


def build_data(ctx, rng, per_domain=150, more_props=None, home=None):
    """One dataset with plenty of samples of every domain, in random order over some files."""
    w = gen.World(ctx.dir("w"), rng)
    w.connect()
    langs = rng.sample(["en", "de", "fr", "it", "Go", "x y"], rng.choice([2, 3, 3, 4]))
    props = [gen.PropSpec("language", "STRING", False, False, tuple(langs))]
    if more_props if more_props is not None else rng.random() < 0.6:
        props.append(gen.PropSpec("license", "STRING", False, rng.random() < 0.3, ("MIT", "CC")))
    metas = []
    for v in langs:
        for k in range(per_domain):
            m = {"language": v}
            if len(props) > 1 and not (props[1].nullable and k % 5 == 0):
                m["license"] = props[1].values[k % 2]
            metas.append(m)
    rng.shuffle(metas)
    n = rng.choice([1, 2, 3])
    parts = [metas[k::n] for k in range(n)]
    ds = w.make_dataset("d", props, [len(p) for p in parts], metas=parts)
    ctx.check(w.register(ds), "registration failed")
    return w, langs


def language(v):
    return (("language", tuple(sorted(v)) if isinstance(v, (list, tuple)) else (v,)),)


class Watch:
    """Follows the chunks of one job and judges each against the mixture that is in force."""

    def __init__(self, ctx, w, job, log_dir=None):
        self.ctx, self.job = ctx, job
        self.where = {jobs.location(w, s): s for s in w.samples()}
        self.left = Counter(gen.domain_of(s.meta) for s in w.samples())
        self.ids: dict = {}
        self.names: dict = {}
        self.seen: set = set()
        self.n = 0
        self.last = None            # (mixture id, mixture in force)
        self.log_dir = log_dir
        self.changes: list = []     # (chunk index, rows by name)

    def available(self, shares, size):
        """Whether the job can still build chunks of this mixture (domains may share samples only with themselves)."""
        return all(sum(n for sd, n in self.left.items() if jobs.matches(d, sd)) >= size for d in shares)

    def account(self, t):
        """Every sample of a chunk is one of the collection, under a domain it matches, and was not delivered before."""
        ctx = self.ctx
        for d, rows in t.rows.items():
            for r in rows:
                ctx.check(r in self.where and r not in self.seen, f"chunk {self.n} holds {r}, which was delivered before or never registered", "invented")
                self.seen.add(r)
                sd = gen.domain_of(self.where[r].meta)
                ctx.check(jobs.matches(d, sd), "a sample is delivered under a domain its metadata do not match", "wrong-domain", domain=d, sample=sd)
                self.left[sd] -= 1

    def judge(self, chunk, shares, size, exact=None):
        """shares: exact weight per domain, or None for an arbitrary mixture."""
        ctx = self.ctx
        t = jobs.trace_chunk(chunk)
        counts = {d: len(r) for d, r in t.rows.items() if r}
        ctx.note(chunk=self.n, counts=counts, shares=shares, chunk_size=size, mixture_id=t.mixture_id)
        self.account(t)
        if shares is not None:
            ctx.check(set(counts) <= {d for d, s in shares.items() if s > 0}, "a chunk holds a domain that the mixture in force does not have", "not-in-force")
            bad = jobs.shares_ok(counts, shares, size)
            ctx.check(bad is None, f"chunk {self.n} does not follow the mixture in force: {bad}", "not-in-force")
        else:
            ctx.check(1 <= sum(counts.values()) <= size, f"chunk {self.n} holds {sum(counts.values())} samples", "not-in-force")
        ctx.check(exact is None or exact == counts, f"chunk {self.n} differs from the rows of the mixture in force", "not-in-force", rows=exact)
        self.identify(chunk, t, counts, shares)
        self.n += 1
        ctx.count("chunks_judged")
        ctx.evaluated()
        return t, counts

    def identify(self, chunk, t, counts, shares):
        """Ids of domains and mixtures, and the log on disk."""
        ctx = self.ctx
        for d, i in t.ids.items():
            ctx.check(self.ids.setdefault(d, i) == i, f"domain {d} had id {self.ids[d]} and now has {i}", "domain-id")
        ctx.check(len(set(t.ids.values())) == len(t.ids), "two domains share an id", "domain-id", ids=t.ids)
        ctx.check(set(counts) <= set(t.ids), "a delivered domain has no id", "domain-id", ids=t.ids)
        what = None if shares is None else dict(t.reported or counts)  # domains whose share is rounded to nothing included
        mid = t.mixture_id
        if self.last is not None:
            ctx.check(mid >= self.last[0], f"the mixture id goes from {self.last[0]} to {mid}", "mixture-id")
            same = self.last[1] == what
            ctx.check((mid == self.last[0]) == same, f"the mixture {'stays the same' if same else 'changes'} while the mixture id goes from {self.last[0]} to {mid}",
                      "mixture-id", before=self.last[1], now=what)
        else:
            ctx.check(mid >= 0, f"the first mixture id is {mid}", "mixture-id")
        if self.last is None or mid != self.last[0]:
            self.changes.append((self.n, what if what is None else {str(k): v for k, v in acc.mixture_rows(chunk).items()}))
            ctx.count("mixture_changes")
        self.last = (mid, what)
        if self.log_dir is not None:
            self.check_log()

    def check_log(self):
        ctx = self.ctx
        f = self.log_dir / self.job / "mixture.log"
        ctx.check(f.exists(), "there is no mixture log", "mixture-log")
        logged = next(v for k, v in json.loads(f.read_text("utf-8")).items() if isinstance(v, dict))
        want = {str(k): rows for k, rows in self.changes}
        ctx.note(log=logged, changes=want)
        ctx.check(sorted(logged, key=int) == list(want), f"the mixture log names changes at chunks {sorted(logged, key=int)}, mixtures came into force at {list(want)}", "mixture-log")
        for k, rows in want.items():
            ctx.check({a: b for a, b in logged[k].items() if b} == {a: b for a, b in (rows or {}).items() if b},
                      f"the mixture log names another mixture for chunk {k} than the one in force", "mixture-log", logged=logged[k], rows=rows)
        ctx.count("log_entries_compared", len(want))


def shares_of(parts):
    return {d: float(wt) for d, wt in parts}


def static(parts, size, strict):
    from mixtera.core.query.mixture import StaticMixture

    return StaticMixture(chunk_size=size, mixture={jobs.key_of(d): wt for d, wt in parts}, strict=strict)


def random_parts(rng, langs, k=None, joint=True):
    """Disjoint domains over the languages with weights."""
    pool = list(langs)
    rng.shuffle(pool)
    pool = pool[: k or rng.randrange(1, len(pool) + 1)]
    doms = [language(v) for v in pool]
    if joint and len(pool) > 2 and rng.random() < 0.25:
        doms = [language(pool[:2])] + [language(v) for v in pool[2:]]
    return list(zip(doms, jobs.split_weights(rng, len(doms), rng.random() < 0.5)))
