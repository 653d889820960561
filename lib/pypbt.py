"""Small property-based testing engine for the Python interface: seeded choice sequences, parallel worker processes,
capture of crashes and hangs, shrinking on the choice sequence, replay. Mirrors lib/pbt.hpp."""
import json, mmap, os, re, resource, signal, struct, sys, time, traceback, hashlib, warnings
warnings.filterwarnings("ignore")
M64 = (1 << 64) - 1


class Fail(Exception):
    pass


class Discard(Exception):
    pass


def fail(msg):
    raise Fail(msg)


def require(cond, msg):
    if not cond:
        raise Fail(msg)


def _mix(s):
    s = (s + 0x9E3779B97F4A7C15) & M64
    z = s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return s, z ^ (z >> 31)


class Src:
    """Source of choices; a drawn 0 is always the simplest choice."""

    def __init__(self, seed=None, given=None, size=100, shm=None):
        self.state, self.given, self.size, self.shm = seed, given, size, shm
        self.rec, self.pos = [], 0

    def below(self, n):
        if n <= 1:
            return 0
        if self.given is not None:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            if v >= n:
                v %= n
        else:
            self.state, r = _mix(self.state)
            v = r % n
        self.rec.append(v)
        if self.shm is not None and len(self.rec) < 8000:
            struct.pack_into("<Q", self.shm, 8 * len(self.rec), v)
            struct.pack_into("<Q", self.shm, 0, len(self.rec))
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def sized(self, lo, hi):
        return self.range(lo, lo + (hi - lo) * self.size // 100)

    def chance(self, num, den):
        return self.below(den) >= den - num

    def coin(self):
        return self.below(2) == 1

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def real(self, lo, hi):
        return lo + (hi - lo) * self.below(1 << 20) / (1 << 20)

    def sample(self, xs, k):
        xs = list(xs)
        out = []
        for _ in range(k):
            out.append(xs.pop(self.below(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))


class Ctx:
    def __init__(self, known=()):
        self.description, self.labels, self.nontrivial, self.known = "", {}, False, known

    def desc(self, s):
        self.description = s

    def label(self, s, n=1):
        self.labels[s] = self.labels.get(s, 0) + n

    def isKnown(self, i):
        return i in self.known


class Prop:
    def __init__(self, name, fn, quick, thorough, timeout=60):
        self.name, self.fn, self.quick, self.thorough, self.timeout = name, fn, quick, thorough, timeout


def _caseseed(seed, name, i):
    return int.from_bytes(hashlib.sha256(f"{seed}|{name}|{i}".encode()).digest()[:8], "little")


def _casesize(i):
    return 10 + 10 * (i % 10)


def _run(p, src, ctx):
    """-> (kind, message)"""
    try:
        p.fn(src, ctx)
        return "ok", ""
    except Discard:
        return "discard", ""
    except Fail as e:
        return "fail", str(e)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-3:])
        return "fail", f"unexpected {type(e).__name__}: {e} [{where}]"


def _quiet():
    if os.environ.get("PBT_VERBOSE"):
        return
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def _isolated(fn, timeout, shm=None):
    """Runs fn() -> json value in a child; returns (status, value): status is ok, crash or hang."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        _quiet()
        try:
            v = json.dumps(fn())
        except BaseException as e:  # noqa: BLE001
            v = json.dumps({"k": "fail", "m": f"harness: {type(e).__name__} {e}", "rec": [], "d": ""})
        with os.fdopen(w, "w") as f:
            f.write(v)
        os._exit(0)
    os.close(w)
    buf, end = b"", time.time() + timeout
    import select
    status = "ok"
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            status = "hang"
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status == "hang":
        return "hang", None
    if not os.WIFEXITED(st) or os.WEXITSTATUS(st) != 0 or not buf:
        return "crash", (f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"status {os.WEXITSTATUS(st)}")
    return "ok", json.loads(buf)


def mainImpl(suite):
    root = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    prop, props = suite["property"], suite["props"]
    av = sys.argv[1:]
    opt = lambda n, d: av[av.index(n) + 1] if n in av else d  # noqa: E731
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    keep, noshrink, only = "--keep-going" in av, "--no-shrink" in av, opt("--only", "")
    force = int(opt("--cases", "0"))
    known = {}
    try:
        for line in open(os.path.join(root, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    except OSError:
        pass
    t0 = time.time()
    byname = {p.name: p for p in props}
    shm = mmap.mmap(-1, 8 * 8192)

    def attempt(p, choices, size, timeout=None, caseseed=None):
        """Runs one case in isolation -> (bad, message, rec, description)"""
        struct.pack_into("<Q", shm, 0, 0)

        def go():
            s = Src(seed=caseseed, given=choices, size=size, shm=shm)
            c = Ctx(known)
            k, m = _run(p, s, c)
            return {"k": k, "m": m, "rec": s.rec, "d": c.description}
        st, v = _isolated(go, timeout or p.timeout)
        if st == "ok":
            return v["k"] == "fail", v["m"], v["rec"], v["d"]
        n = struct.unpack_from("<Q", shm, 0)[0]
        rec = [struct.unpack_from("<Q", shm, 8 * (i + 1))[0] for i in range(n)]
        return True, ("did not terminate" if st == "hang" else f"crash: killed by {v}"), rec, "<the process ended>"

    def shrink(p, rec, size, msg, d, budget):
        end = time.time() + budget
        best = (list(rec), msg, d)

        def try_(ch):
            if time.time() > end:
                return False
            b, m, r, dd = attempt(p, ch, size, min(p.timeout, 20))
            if b and "harness:" not in m and (len(r), sum(r)) < (len(best[0]), sum(best[0])):
                nonlocal_set(r, m, dd)
                return True
            return False

        def nonlocal_set(r, m, dd):
            nonlocal best
            best = (list(r), m, dd)
        changed = True
        while changed and time.time() < end:
            changed = False
            ln = len(best[0])
            k = max(1, ln // 2)
            while k >= 1 and time.time() < end:
                i = len(best[0]) - k
                while i >= 0 and time.time() < end:
                    if try_(best[0][:i] + best[0][i + k:]):
                        changed = True
                    i -= k
                k //= 2
            for i in range(len(best[0])):
                if i >= len(best[0]) or time.time() > end:
                    break
                v = best[0][i]
                for nv in (0, v // 2, v - 1):
                    if nv < 0 or nv >= v or i >= len(best[0]):
                        continue
                    ch = list(best[0])
                    ch[i] = nv
                    if try_(ch):
                        changed = True
                        break
        return best

    if "--replay" in av:
        data = json.load(open(opt("--replay", "")))
        b, m, _, d = attempt(byname[data["name"]], data["choices"], data["size"], 600)
        print(f"case: {d}\nresult: {'FAILS ' if b else 'passes '}{m}")
        if b:
            print(f"VIOLATION property={prop} replay={opt('--replay', '')}")
        return 1 if b else 0

    W = max(1, min(8, int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 1))))
    budget = suite.get("quickBudget", 120) if tier == "quick" else suite.get("thoroughBudget", 3000)
    ncases = lambda p: force or (p.quick if tier == "quick" else p.thorough)  # noqa: E731
    slots = mmap.mmap(-1, 64 * W)

    def setslot(w, pi, i):
        struct.pack_into("<qqd", slots, 64 * w, pi, i, time.time())

    def worker(w, spi, sidx, out):
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        _quiet()
        res = {"evals": 0, "disc": 0, "nontriv": 0, "labels": {}, "distinct": [], "samples": [], "fails": []}
        seen = set()
        last = time.time()

        def flush():
            res["distinct"] = list(seen)
            with open(out + ".tmp", "w") as f:
                json.dump(res, f)
            os.replace(out + ".tmp", out)
        for pi in range(spi, len(props)):
            p = props[pi]
            if only and only not in p.name:
                continue
            share = budget * (pi + 1) / len(props)
            samp = 0
            i = sidx if pi == spi else w
            while i < ncases(p):
                if time.time() - t0 > share and not force:
                    res["labels"]["time-budget-cut:" + p.name] = 1
                    break
                setslot(w, pi, i)
                s = Src(seed=_caseseed(seed, p.name, i), size=_casesize(i))
                c = Ctx(known)
                k, m = _run(p, s, c)
                if k == "discard":
                    res["disc"] += 1
                else:
                    res["evals"] += 1
                    c.label("cases:" + p.name)
                    for a, b in c.labels.items():
                        res["labels"][a] = res["labels"].get(a, 0) + b
                    if c.nontrivial:
                        res["nontriv"] += 1
                        seen.add(hashlib.md5((p.name + "|" + (c.description or str(s.rec))).encode()).hexdigest()[:16])
                        if w == 0 and samp < 3:
                            samp += 1
                            res["samples"].append(p.name + ": " + c.description[:1500])
                    if k == "fail":
                        res["fails"].append([pi, i, m])
                        if not keep:
                            flush()
                            os._exit(3)
                i += W
                if time.time() - last > 2:
                    last = time.time()
                    flush()
        setslot(w, -1, 0)
        flush()
        os._exit(0)
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="pypbt.")
    pids, gens, outs, fails, hangs, notes = {}, [0] * W, [], [], [], []

    def start(w, spi, sidx):
        out = os.path.join(tmp, f"w{w}.{gens[w]}")
        outs.append(out)
        setslot(w, spi, sidx)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            worker(w, spi, sidx, out)
        pids[w] = (pid, out)

    violations = 0

    def report(pi, idx, msg):
        nonlocal violations
        p, size = props[pi], _casesize(idx)
        hits = []
        for _ in range(3):
            r = attempt(p, None, size, p.timeout * 2, _caseseed(seed, p.name, idx))
            if r[0]:
                hits.append(r)
        if not hits:
            notes.append(f"not reproducible: {p.name}#{idx}: {msg}")
            print("note: " + notes[-1], file=sys.stderr)
            return False
        _, m, rec, d = hits[0]
        if not noshrink and len(hits) == 3:
            rec, m, d = shrink(p, rec, size, m, d, 40 if tier == "quick" else 150)
        if keep:
            print(f"   idx {idx} msg: {m[:1500]}\n   case: {d[:1500]}")
            return True
        os.makedirs(os.path.join(root, "replay"), exist_ok=True)
        path = os.path.join(root, "replay", f"{prop}-{p.name}-{seed}-{idx}.json")
        json.dump({"property": prop, "name": p.name, "size": size, "seed": seed, "choices": rec, "message": m, "case": d}, open(path, "w"), indent=1)
        print(f"failure in generator {p.name}: {m}\n  case: {d}\nVIOLATION property={prop} replay={path}", flush=True)
        violations += 1
        return True

    def stable(w, seen):
        """the slot is not being written at the moment"""
        time.sleep(0.05)
        return struct.unpack_from("<qqd", slots, 64 * w) == seen

    for w in range(W):
        start(w, 0, w)
    stop = False
    while pids:
        time.sleep(0.01)
        for w in list(pids):
            pid, out = pids[w]
            r, st = os.waitpid(pid, os.WNOHANG)
            pi, idx, ts = struct.unpack_from("<qqd", slots, 64 * w)
            again = False
            if r == pid:
                del pids[w]
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
                    continue
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
                    f = json.load(open(out))["fails"][-1]
                else:
                    f = [pi, idx, "crash: killed by " + (f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"exit {os.WEXITSTATUS(st)}")]
                if keep:
                    fails.append(f)
                elif not stop and report(*f):
                    stop = True
                again = True
            elif ts > 0 and 0 <= pi < len(props) and time.time() - ts > props[pi].timeout and stable(w, (pi, idx, ts)):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del pids[w]
                hangs.append([pi, idx, f"did not terminate within {props[pi].timeout} s"])
                again = len(hangs) < 6
            if again and not stop:
                gens[w] += 1
                start(w, pi, idx + W)
        if stop:
            for w in list(pids):
                os.kill(pids[w][0], signal.SIGKILL)
                os.waitpid(pids[w][0], 0)
                del pids[w]
    agg = {"evals": 0, "disc": 0, "nontriv": 0}
    labels, distinct, samples = {}, set(), []
    for o in outs:
        if not os.path.exists(o):
            continue
        r = json.load(open(o))
        for k in agg:
            agg[k] += r[k]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        distinct |= set(r["distinct"])
        samples += r["samples"]
        if keep:
            fails += [f for f in r["fails"] if f not in fails]
    shutil.rmtree(tmp)
    if keep:
        b = {}
        for f in fails:
            b.setdefault(props[f[0]].name + ": " + re.split(r"[\n\[0-9]", f[2][:60] + "\n")[0], []).append(f)
        for k, v in b.items():
            print(f"BUCKET x{len(v)} {k}")
            report(*v[0])
    for h in hangs:
        if violations == 0:
            report(*h)
    for i, fn in suite.get("probes", []):
        if i not in known:
            continue

        def go(fn=fn):
            try:
                fn()
            except Exception as e:  # noqa: BLE001
                return {"m": str(e)}
            return None
        st, v = _isolated(go, 60)
        if st != "ok" or v:
            print(f"KNOWN-FINDING: property={prop} {i} {known[i]} [{v['m'] if v and st == 'ok' else st}]")
        else:
            notes.append(f"known finding {i} no longer fails")
    wall = time.time() - t0
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": agg["evals"], "distinct_nontrivial": len(distinct), "nontrivial": agg["nontriv"], "discarded": agg["disc"],
                            "rule": suite["rule"], "labels": labels, "samples": samples[:16]},
               "assumptions": suite["assumptions"] + ["note: " + n for n in notes], "wall_s": round(wall, 3), "violations": violations},
              open(os.path.join(root, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier} seed {seed}: {agg['evals']} cases, {len(distinct)} distinct non-trivial, {agg['disc']} discarded, {wall:.1f} s, {violations} violation(s)")
    if keep:
        for k in sorted(labels):
            print(f"   {k}: {labels[k]}")
    return 1 if violations else 0
