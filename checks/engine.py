"""The property engine of the checks written in Python: a case is a function of a sequence of
choices, drawn from a seeded generator by 8 worker processes; the choices of a failing case are
shrunk and written as the replay file."""
import hashlib, json, multiprocessing, os, random, signal, sys, time

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
CAP = 780 if THOROUGH else 120


class G:
    """A case is a function of a sequence of choices."""
    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.made = rng, choices, []
        self.nontrivial, self.labels, self.desc = False, set(), ""

    def below(self, n):
        if self.given is not None:
            i = len(self.made)
            v = self.given[i] % n if i < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        self.made.append(v)
        return v

    def chance(self, pct):
        # a lowered choice is the simpler one
        return self.below(100) >= 100 - pct

    def pick(self, xs):
        return xs[self.below(len(xs))]


class Hang(Exception):
    pass


def bounded(seconds, f):
    """The result of f, or Hang when it takes longer."""
    def handler(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def work(id, check, n, k, w, q):
    t0 = time.time()
    out = dict(evals=0, keys=[], labels={}, samples=[], violation=None, capped=False)
    keys = set()
    for i in range(k, n, w):
        if time.time() - t0 > CAP:
            out["capped"] = True
            break
        g = G(random.Random(f"{SEED}/{id}/{i}"))
        m = check(g)
        out["evals"] += 1
        for l in g.labels:
            out["labels"][l] = out["labels"].get(l, 0) + 1
        if g.nontrivial:
            keys.add(hashlib.sha1(g.desc.encode()).hexdigest()[:12])
            if k == 0 and len(out["samples"]) < 3:
                out["samples"].append(g.desc[:600])
        if m:
            choices, m, desc = shrink(check, g.made, m, g.desc)
            out["violation"] = dict(property=id, seed=SEED, index=i, choices=choices, message=m, input=desc[:4000])
            break
    out["keys"] = list(keys)
    q.put(out)


def shrink(check, choices, message, desc):
    best, t0 = list(choices), time.time()
    def fails(cs):
        g = G(choices=cs)
        m = check(g)
        return (m, g.desc, g.made) if m else None
    changed = True
    while changed and time.time() - t0 < 40:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < 40:
            i = 0
            while i < len(best):
                cs = best[:i] + best[i + size:]
                r = fails(cs)
                if r and (len(r[2]), r[2]) < (len(best), best):
                    best, message, desc, changed = r[2], r[0], r[1], True
                    if len(best) <= i:
                        break
                else:
                    i += size
                if time.time() - t0 > 40:
                    break
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0 or time.time() - t0 > 60:
                continue
            for v in {0, best[i] // 2, best[i] - 1}:
                cs = best[:i] + [v] + best[i + 1:]
                r = fails(cs)
                if r and (len(r[2]), r[2]) < (len(best), best):
                    best, message, desc, changed = r[2], r[0], r[1], True
                    break
    return best, message, desc


def main(id, check, quick, thorough, rule, assumptions):
    """check(g) is None or what is wrong with the case."""
    n = int((thorough if THOROUGH else quick) * SCALE)
    if sys.argv[1:2] == ["--replay"]:
        r = json.load(open(sys.argv[2]))
        g = G(choices=r["choices"])
        m = check(g)
        print("input:", g.desc)
        if m:
            print(m)
            print(f"VIOLATION property={id} replay={sys.argv[2]}")
            return 1
        print("the property holds on this input")
        return 0
    t0 = time.time()
    w = 8
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=work, args=(id, check, n, k, w, q)) for k in range(w)]
    [p.start() for p in ps]
    outs = []
    while len(outs) < w:
        try:
            outs.append(q.get(timeout=5))
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                print("ERROR: a worker ended without a result; no verdict")
                return 2
    [p.join() for p in ps]
    labels = {}
    for o in outs:
        for l, n in o["labels"].items():
            labels[l] = labels.get(l, 0) + n
    keys = set(k for o in outs for k in o["keys"])
    evals = sum(o["evals"] for o in outs)
    v = min((o["violation"] for o in outs if o["violation"]), key=lambda v: v["index"], default=None)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    json.dump(dict(property=id, tier="thorough" if THOROUGH else "quick", seed=SEED, level="exploration",
                   coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=rule, samples=[s for o in outs for s in o["samples"]], labels=labels,
                                 stopped_by_time=any(o["capped"] for o in outs)),
                   assumptions=assumptions,
                   wall_s=time.time() - t0, violations=1 if v else 0),
              open(os.path.join(VERIF, "evidence", f"{id}.json"), "w"), indent=1)
    if v:
        f = os.path.join(VERIF, "evidence", "replays", f"{id}-{v['index']}.json")
        json.dump(v, open(f, "w"), indent=1)
        print("input:", v["input"])
        print(v["message"])
        print(f"VIOLATION property={id} replay={f}")
        return 1
    print(f"OK {id}: {evals} cases, {len(keys)} distinct non-trivial, {time.time() - t0:.1f}s")
    return 0

