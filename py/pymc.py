"""Exhaustive exploration of the choices of a scenario by running it again and again (Python counterpart of mc.hpp)."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback


class Violation(BaseException):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Skip(BaseException):
    pass


class Ctx:
    def __init__(self, prefix, replay=False):
        self.prefix, self.taken, self.arity, self.labels, self.log = prefix, [], [], [], []
        self.outcomes, self.steps, self.replay = set(), 0, replay
        self.out = sys.__stdout__

    def choose(self, n, label=""):
        if n <= 0:
            raise RuntimeError("choice without alternatives: " + label)
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else 0
        if v >= n:
            raise RuntimeError("the run is not deterministic at choice %d (%s): %d of %d" % (i, label, v, n))
        self.taken.append(v)
        self.arity.append(n)
        self.labels.append(label)
        if self.replay:
            self.out.write("  %s=%d\n" % (label, v))
        return v

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def flip(self, label=""):
        return self.choose(2, label) == 1

    def note(self, s):
        self.log.append(s)
        if self.replay:
            self.out.write("  " + s + "\n")

    def fail(self, key, msg):
        raise Violation(key, msg)

    def outcome(self, s):
        self.outcomes.add(hashlib.sha1(repr(s).encode()).hexdigest()[:16])

    def trace(self):
        return "\n".join("%s=%d" % x for x in zip(self.labels, self.taken)) + "\n" + "\n".join("  " + x for x in self.log)


def run_one(fn, c):
    try:
        fn(c)
    except Skip:
        return None
    except Violation as v:
        return (v.key, v.msg)
    except RuntimeError as e:
        if "deterministic" in str(e):
            raise
        return ("exception", "".join(traceback.format_exception(e))[-1500:])
    except BaseException as e:
        return ("exception", "".join(traceback.format_exception(e))[-1500:])
    return None


def _subtree(args):
    """All executions below a prefix."""
    fn, root, cap, t0, limit = args
    prefix, n, steps, outcomes, found, samples, capped = list(root), 0, 0, set(), {}, [], False
    while True:
        c = Ctx(prefix)
        r = run_one(fn, c)
        n += 1
        steps += c.steps
        outcomes |= c.outcomes
        if r and r[0] not in found:
            found[r[0]] = (r[1], list(c.taken), c.trace())
        if len(samples) < 1:
            samples.append(";".join("%s=%d" % x for x in zip(c.labels, c.taken))[:500])
        i = len(c.taken) - 1
        while i >= len(root) and c.taken[i] + 1 >= c.arity[i]:
            i -= 1
        if i < len(root):
            break
        prefix = c.taken[:i] + [c.taken[i] + 1]
        if time.time() - t0 > cap or len(found) > 20:
            capped = True
            break
        if limit and n >= limit:
            capped = True
            break
    return n, steps, outcomes, found, samples, capped


def _expand(fn, depth):
    """All prefixes of a length (or complete shorter runs)."""
    out, prefix = [], []
    while True:
        c = Ctx(prefix)
        run_one(fn, c)
        d = min(depth, len(c.taken))
        out.append(c.taken[:d])
        i = d - 1
        while i >= 0 and c.taken[i] + 1 >= c.arity[i]:
            i -= 1
        if i < 0:
            return out
        prefix = c.taken[:i] + [c.taken[i] + 1]


class Check:
    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.root = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.rule, self.assumptions, self.scopes = "", [], []
        self.executions = self.transitions = 0
        self.outcomes, self.found, self.samples, self.exhaustive = set(), {}, [], True
        self.only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
        self.replay = None
        if "--replay" in sys.argv:
            self.replay = open(sys.argv[sys.argv.index("--replay") + 1]).read().split("\n")
        self.known = {}
        p = os.path.join(self.root, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                w = line.split(" ", 3)
                if w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                    self.known[w[2][4:]] = w[3].strip() if len(w) > 3 else ""

    def thorough(self):
        return self.tier == "thorough"

    def q(self, a, b):
        return b if self.thorough() else a

    def explore(self, name, fn, what="", split=3, cap=None):
        if self.only and self.only != name:
            return
        if self.replay:
            scn = next(x[9:].strip() for x in self.replay if x.startswith("scenario:"))
            if scn != name:
                return
            choices = [int(x) for x in next(x[8:] for x in self.replay if x.startswith("choices:")).split()]
            c = Ctx(choices, True)
            r = run_one(fn, c)
            print("violation key=%s: %s" % r if r else "no violation")
            sys.exit(1 if r else 0)
        cap = cap or self.q(120, 800)
        t0 = time.time()
        roots = _expand(fn, split)
        global _FN
        _FN = fn
        n = steps = 0
        outcomes, capped = set(), False
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            for r in pool.imap_unordered(_sub, [(x, cap, t0) for x in roots], 1):
                n += r[0]
                steps += r[1]
                outcomes |= r[2]
                for k, v in r[3].items():
                    if k not in self.found or len(v[1]) < len(self.found[k][2]):
                        self.found[k] = (name, v[0], v[1], v[2])
                if len(self.samples) < 40:
                    self.samples += [name + ": " + s for s in r[4]]
                capped = capped or r[5]
        self.executions += n
        self.transitions += steps
        self.outcomes |= outcomes
        self.exhaustive = self.exhaustive and not capped
        line = "%s: executions=%d transitions=%d distinct_outcomes=%d %s %.1fs -- %s" % (name, n, steps, len(outcomes), "CAPPED" if capped else "complete", time.time() - t0, what)
        self.scopes.append(line)
        print("[%s] %s" % (self.prop, line))
        sys.stdout.flush()

    def finish(self):
        if self.replay:
            print("the scenario of the replay was not found")
            return 2
        bad = 0
        for k in sorted(self.found):
            name, msg, choices, trace = self.found[k]
            if k in self.known:
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, k, self.known[k]))
                continue
            if bad >= 5:
                break
            os.makedirs(os.path.join(self.root, "replays"), exist_ok=True)
            path = os.path.join(self.root, "replays", "%s-%d.txt" % (self.prop, bad))
            with open(path, "w") as f:
                f.write("scenario: %s\nproperty: %s\nkey: %s\nmessage: %s\nchoices: %s\ntrace:\n%s\n" % (name, self.prop, k, msg, " ".join(map(str, choices)), trace))
            print("violation key=%s: %s\nscenario: %s\n%s" % (k, msg, name, trace))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            bad += 1
        if not self.executions:
            print("nothing was explored", file=sys.stderr)
            return 2
        os.makedirs(os.path.join(self.root, "evidence"), exist_ok=True)
        with open(os.path.join(self.root, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": {"states": len(self.outcomes), "transitions": self.transitions, "traces_validated_against_impl": self.executions,
                                    "rule": self.rule, "exhaustive": self.exhaustive, "scopes": self.scopes, "samples": self.samples[:12]},
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": bad}, f, indent=1)
        return 1 if bad else 0


_FN = None


def _sub(a):
    return _subtree((_FN, a[0], a[1], a[2], 0))
