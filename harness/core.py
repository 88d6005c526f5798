"""Runner: facets, sharded Hypothesis campaigns, replay files and evidence."""

import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("PTERA_REPO", "/repo"))
WORK = os.environ.get("PTERA_WORK", "/tmp")


def ensure_hypothesis():
    """Hypothesis lives in the tooling venv; add it behind the project's packages."""
    try:
        import hypothesis  # noqa
    except ImportError:
        for path in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if os.path.isdir(os.path.join(path, "hypothesis")):
                sys.path.append(path)
                break
        else:
            import glob
            import zipfile

            target = os.path.join(WORK, "wheels")
            for wheel in glob.glob("/opt/veriftools/wheels/hypothesis-*.whl") + glob.glob(
                "/opt/veriftools/wheels/sortedcontainers-*.whl"
            ):
                zipfile.ZipFile(wheel).extractall(target)
            sys.path.append(target)
        import hypothesis  # noqa


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside of what the oracle can decide (counted, not an alarm)."""


class HarnessError(Exception):
    """The machinery itself is broken."""


class StopShard(KeyboardInterrupt):
    """Leave the Hypothesis engine at once (time guard)."""


class Facet:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, weight=1.0):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.weight = weight


REGISTRY = {}


def facet(prop, name, strategy, quick, thorough, rule):
    """Register a check function. strategy: zero-argument callable returning a
    Hypothesis strategy of JSON-able specs."""

    def wrap(function):
        REGISTRY.setdefault(prop, []).append(
            Facet(prop, name, strategy, function, quick, thorough, rule)
        )
        return function

    return wrap


class Ctx:
    """What a check function uses to report about one case."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.ratios = {}

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def require(self, condition, message):
        if not condition:
            raise Violation(message)

    def skip(self, reason):
        raise Skip(reason)

    def near(self, what, actual, expected, rtol=1e-8, atol=0.0, scale=None):
        """Compare arrays: |actual - expected| <= atol + rtol * scale, where scale
        defaults to the largest expected magnitude."""
        import numpy as np

        actual = numbers(what, actual)
        expected = np.asarray(expected, dtype=float)
        if actual.shape != expected.shape:
            raise Violation(
                "%s has shape %s, expected %s" % (what, actual.shape, expected.shape)
            )
        if actual.size == 0:
            return
        if scale is None:
            scale = np.max(np.abs(expected))
        tolerance = atol + rtol * scale
        error = np.abs(actual - expected)
        worst = float(np.max(error))
        ratio = worst / tolerance if tolerance > 0 else (0.0 if worst == 0 else np.inf)
        key = what.split("|")[0].split("[")[0]
        if ratio <= 1:
            self.ratios[key] = max(self.ratios.get(key, 0.0), ratio)
        else:
            index = np.unravel_index(int(np.argmax(error)), error.shape)
            raise Violation(
                "%s: %r, expected %r at %s (error %.3g, allowed %.3g)"
                % (what, float(actual[index]), float(expected[index]), index, worst, tolerance)
            )


def numbers(what, value, shape=None):
    """The value as a finite float array, or a violation."""
    import numpy as np

    try:
        array = np.asarray(value, dtype=float)
    except (TypeError, ValueError):
        raise Violation("%s is not numeric: %r" % (what, type(value)))
    if shape is not None and array.shape != tuple(shape):
        raise Violation("%s has shape %s, expected %s" % (what, array.shape, tuple(shape)))
    if not np.all(np.isfinite(array)):
        raise Violation("%s is not finite: %r" % (what, array.tolist() if array.size < 12 else "array"))
    return array


def canonical(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def derive_seed(*parts):
    text = ":".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


def run_case(this_facet, spec):
    """Run one case. Returns (outcome, message, ctx); outcome is 'ok', 'skip' or
    'violation'. HarnessError propagates."""
    ctx = Ctx()
    cwd = os.getcwd()
    try:
        this_facet.check(spec, ctx)
        return "ok", "", ctx
    except Skip as skip:
        ctx.is_nontrivial = False
        ctx.label("skipped: " + str(skip))
        return "skip", str(skip), ctx
    except Violation as violation:
        return "violation", str(violation), ctx
    except (HarnessError, StopShard, KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as error:
        if type(error).__module__.startswith("hypothesis"):
            raise
        # Every generated case is well-formed, so neither the code nor the reading
        # of its results may fail.
        frames = traceback.extract_tb(error.__traceback__)
        where = [
            "%s:%d" % (os.path.relpath(f.filename, REPO), f.lineno)
            for f in frames
            if os.path.realpath(f.filename).startswith(REPO + os.sep)
        ]
        last = frames[-1]
        return (
            "violation",
            "unexpected %s: %s (%s)"
            % (
                type(error).__name__,
                str(error)[:300],
                ("in " + " < ".join(reversed(where[-3:])))
                if where
                else "reading the results, %s:%d" % (os.path.basename(last.filename), last.lineno),
            ),
            ctx,
        )
    finally:
        os.chdir(cwd)


def run_shard(this_facet, seed, count, deadline, shrink_seconds, current_path):
    """Run one shard of a campaign in this process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        "evaluations": 0,
        "skipped": 0,
        "labels": {},
        "ratios": {},
        "hashes": set(),
        "samples": [],
        "failure": None,
        "truncated": False,
    }
    state = {"first_failure": None}
    known = load_known(this_facet.prop)
    stats["known"] = {}

    def body(spec):
        now = time.monotonic()
        if now > deadline:
            stats["truncated"] = True
            raise StopShard()
        if state["first_failure"] and now > state["first_failure"] + shrink_seconds:
            raise StopShard()
        text = canonical(spec)
        with open(current_path, "w") as handle:
            handle.write(text)
        outcome, message, ctx = run_case(this_facet, spec)
        if state["first_failure"] is None:
            stats["evaluations"] += 1
            if outcome == "skip":
                stats["skipped"] += 1
            for label in set(ctx.labels):
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            for key, ratio in ctx.ratios.items():
                stats["ratios"][key] = max(stats["ratios"].get(key, 0.0), ratio)
            if ctx.is_nontrivial:
                digest = hashlib.sha256(text.encode()).digest()[:8]
                if digest not in stats["hashes"]:
                    stats["hashes"].add(digest)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(
                            {"facet": this_facet.name, "labels": sorted(set(ctx.labels)), "case": text[:1200]}
                        )
        if outcome == "violation":
            entry = match_known(known, this_facet.name, spec, message)
            if entry is not None:
                stats["known"][entry["id"]] = stats["known"].get(entry["id"], 0) + 1
                return
            if state["first_failure"] is None:
                state["first_failure"] = now
            best = stats["failure"]
            if best is None or len(text) < len(best["text"]):
                stats["failure"] = {"text": text, "message": message}
            raise Violation(message)

    test = settings(
        max_examples=count,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.explicit, Phase.generate, Phase.shrink],
    )(hypothesis.seed(seed)(given(this_facet.strategy())(body)))
    try:
        test()
    except (Violation, StopShard):
        pass
    except Exception as error:
        # Flaky or similar after a recorded failure keeps the failure.
        if stats["failure"] is None:
            raise HarnessError(
                "%s/%s: %s" % (this_facet.prop, this_facet.name, "".join(traceback.format_exception(error)))
            )
    return stats


def _child(this_facet, seed, count, deadline, shrink_seconds, current_path, result_path):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    workdir = current_path + ".cwd"
    os.makedirs(workdir, exist_ok=True)
    os.chdir(workdir)
    if not os.environ.get("PTERA_VERBOSE"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        result = run_shard(this_facet, seed, count, deadline, shrink_seconds, current_path)
    except BaseException:
        result = {"error": traceback.format_exc()}
    with open(result_path + ".part", "wb") as handle:
        pickle.dump(result, handle)
    os.replace(result_path + ".part", result_path)
    os._exit(0)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as handle:
        return [e for e in json.load(handle)["findings"] if e["property"] == prop]


def match_known(known, facet_name, spec, message):
    """A finding names a facet, the exact values some fields of the spec must have,
    and a text the message must contain."""
    for entry in known:
        if entry["facet"] != facet_name or entry["message"] not in message:
            continue
        if all(spec.get(key) == value for key, value in entry["spec"].items()):
            return entry
    return None


def run_property(prop, tier, seed, workers=None):
    """Run every facet of a property. Returns the exit code."""
    facets = REGISTRY[prop]
    only = os.environ.get("PTERA_FACET")
    if only:
        facets = [f for f in facets if f.name in only.split(",")]
    workers = workers or max(2, min(8, os.cpu_count() or 2))
    started = time.monotonic()
    budget = float(os.environ.get("PTERA_BUDGET", "600" if tier == "quick" else "1500"))
    shrink_seconds = 40.0 if tier == "quick" else 120.0
    scale = float(os.environ.get("PTERA_SCALE", "1"))
    deadline = started + budget
    context = multiprocessing.get_context("fork")
    tasks = []
    for this_facet in facets:
        total = this_facet.quick if tier == "quick" else this_facet.thorough
        total = max(1, int(total * scale))
        shards = min(workers, max(1, total // 4))
        for index in range(shards):
            count = total // shards + (1 if index < total % shards else 0)
            tasks.append((this_facet, derive_seed(seed, prop, this_facet.name, index), count, index))
    # Spread the facets over the workers, the first shards first.
    tasks.sort(key=lambda t: t[3])
    results = {}
    running = {}
    error = None
    pending = list(enumerate(tasks))
    hard_deadline = deadline + 120
    while pending or running:
        while pending and len(running) < workers:
            number, (this_facet, shard_seed, count, index) = pending.pop(0)
            current = os.path.join(WORK, "case-%d.json" % number)
            result_path = os.path.join(WORK, "result-%d.pickle" % number)
            process = context.Process(
                target=_child,
                args=(this_facet, shard_seed, count, deadline, shrink_seconds, current, result_path),
            )
            process.start()
            running[number] = (process, current, result_path, this_facet)
        time.sleep(0.02)
        for number in list(running):
            process, current, result_path, this_facet = running[number]
            if process.is_alive() and time.monotonic() < hard_deadline:
                continue
            if process.is_alive():
                process.kill()
                process.join()
                error = error or "%s: a case did not finish in time" % this_facet.name
                del running[number]
                continue
            process.join()
            del running[number]
            if os.path.exists(result_path):
                with open(result_path, "rb") as handle:
                    result = pickle.load(handle)
                if "error" in result:
                    error = error or result["error"]
                    continue
                results[number] = (this_facet, result)
            elif process.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
                with open(current) as handle:
                    text = handle.read()
                results[number] = (
                    this_facet,
                    {
                        "evaluations": 1, "skipped": 0, "labels": {}, "ratios": {}, "hashes": set(),
                        "samples": [], "truncated": True, "known": {},
                        "failure": {"text": text, "message": "the process died (signal %d)" % -process.exitcode},
                    },
                )
            else:
                error = error or "%s: worker ended with %s" % (this_facet.name, process.exitcode)
        # One found failure is enough for the quick tier.
        if any(r["failure"] for _, r in results.values()):
            pending = []
    wall = time.monotonic() - started
    failures = []
    per_facet = {}
    samples = []
    hashes = set()
    evaluations = 0
    known_hits = {}
    for number in sorted(results):
        this_facet, result = results[number]
        entry = per_facet.setdefault(
            this_facet.name,
            {"evaluations": 0, "skipped": 0, "distinct_nontrivial": set(), "labels": {},
             "largest_error_over_tolerance": {}, "rule": this_facet.rule, "truncated": False},
        )
        entry["evaluations"] += result["evaluations"]
        entry["skipped"] += result["skipped"]
        entry["distinct_nontrivial"] |= result["hashes"]
        entry["truncated"] |= result["truncated"]
        for label, n in result["labels"].items():
            entry["labels"][label] = entry["labels"].get(label, 0) + n
        for key, ratio in result["ratios"].items():
            old = entry["largest_error_over_tolerance"].get(key, 0.0)
            entry["largest_error_over_tolerance"][key] = max(old, ratio)
        for key, n in result["known"].items():
            known_hits[key] = known_hits.get(key, 0) + n
        evaluations += result["evaluations"]
        hashes |= {this_facet.name.encode() + h for h in result["hashes"]}
        if len([s for s in samples if s["facet"] == this_facet.name]) < 2:
            samples.extend(result["samples"][:1])
        if result["failure"]:
            failures.append((this_facet, result["failure"]))
    for entry in per_facet.values():
        entry["distinct_nontrivial"] = len(entry["distinct_nontrivial"])
        entry["labels"] = dict(sorted(entry["labels"].items()))
        entry["largest_error_over_tolerance"] = {
            k: float("%.3g" % v) for k, v in sorted(entry["largest_error_over_tolerance"].items())
        }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join("%s: %s" % (f.name, f.rule) for f in facets),
            "samples": samples,
            "facets": per_facet,
            "known_findings_hit": known_hits,
        },
        "assumptions": [
            "float64 arithmetic; comparisons use the tolerances reported per facet",
            "random search over the stated generators: it shows no absence of defects outside what was generated",
        ],
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    if not only:
        with open(path + ".part", "w") as handle:
            json.dump(evidence, handle, indent=1)
        os.replace(path + ".part", path)
    for entry in load_known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))
    if failures:
        failures.sort(key=lambda f: len(f[1]["text"]))
        seen = set()
        for this_facet, failure in failures:
            if this_facet.name in seen:
                continue
            seen.add(this_facet.name)
            replays = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(replays, exist_ok=True)
            name = "%s-%s-%s.json" % (
                prop, this_facet.name.replace(" ", "-"), hashlib.sha256(failure["text"].encode()).hexdigest()[:10])
            replay = os.path.join(replays, name)
            with open(replay, "w") as handle:
                json.dump(
                    {"property": prop, "facet": this_facet.name, "message": failure["message"],
                     "spec": json.loads(failure["text"])}, handle, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            print("  facet %s: %s" % (this_facet.name, failure["message"]))
            print("  reproduce: /verif/check.sh %s replay %s" % (prop, replay))
        sys.stdout.flush()
        return 1
    if error:
        print("HARNESS ERROR in %s: %s" % (prop, error), file=sys.stderr)
        return 2
    truncated = [n for n, e in per_facet.items() if e["truncated"]]
    print(
        "%s %s: held on %d cases (%d distinct non-trivial) in %.1f s%s"
        % (prop, tier, evaluations, len(hashes), wall,
           "; time guard reached in " + ", ".join(truncated) if truncated else "")
    )
    sys.stdout.flush()
    return 0


def replay(prop, path):
    with open(path) as handle:
        data = json.load(handle)
    for this_facet in REGISTRY[prop]:
        if this_facet.name == data["facet"]:
            outcome, message, ctx = run_case(this_facet, data["spec"])
            print("%s/%s: %s %s" % (prop, this_facet.name, outcome, message))
            if outcome == "violation":
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 0
    print("no such facet", data["facet"], file=sys.stderr)
    return 2
