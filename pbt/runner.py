"""Runner of the generated-input checks.

A check is a module in /verif/checks with a list of facets. A facet is a
Hypothesis strategy producing JSON-able cases and a function deciding one case.
The runner searches for a violating case, shrinks it, and writes it to a replay
file, which can be decided again without Hypothesis.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHRINK_BUDGET = 45.0
CPU_LIMIT = 120.0


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The harness is not able to decide the case."""


class KnownFinding(Violation):
    """A violation identified by a key. It is no alarm, if KEY is listed as
    finding in known_findings.txt.

    """

    def __init__(self, key, message):
        self.key = key
        super().__init__(f"{message} [finding {key}]")


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, shards, examples):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.examples = examples
        self.findings = {}


class Check:
    def __init__(self, property_id, rule="", assumptions=()):
        self.id = property_id
        self.facets = []
        self.rule = rule
        self.assumptions = list(assumptions)
        self.findings = findings(property_id)

    def facet(self, name, strategy, quick=200, thorough=4000, rule="", shards=8, examples=()):
        def decorate(function):
            self.facets.append(
                Facet(name, strategy, function, quick, thorough, rule, shards, list(examples))
            )
            self.facets[-1].findings = self.findings
            return function

        return decorate


def require(condition, message, **values):
    if not condition:
        details = ", ".join(f"{k}={_short(v)}" for k, v in values.items())
        raise Violation(f"{message} [{details}]" if details else message)


def findings(property_id):
    """Listed findings: 'finding: property=<id> key=<key> <what fails>'."""
    listed = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as file:
        for line in file:
            words = line.split()
            if words[:2] == ["finding:", f"property={property_id}"]:
                listed[words[2].removeprefix("key=")] = " ".join(words[3:])
    return listed


def close(actual, expected, tolerance, message, **values):
    """ACTUAL and EXPECTED have the same shape and differ at most by TOLERANCE."""
    import numpy as np

    actual = np.asarray(actual, dtype=float)
    expected = np.asarray(expected, dtype=float)
    require(
        actual.shape == expected.shape,
        message + ": shapes differ",
        actual=actual.shape,
        expected=expected.shape,
        **values,
    )
    if actual.size == 0:
        return 0.0
    error = np.abs(actual - expected)
    good = error <= tolerance
    if not np.all(good):
        index = np.unravel_index(int(np.argmin(good)), good.shape) if good.shape else ()
        require(
            False,
            message,
            index=tuple(int(i) for i in index),
            actual=actual[index],
            expected=expected[index],
            tolerance=np.broadcast_to(tolerance, error.shape)[index],
            **values,
        )
    return float(np.max(error))


def _short(value):
    text = repr(value)
    return text if len(text) < 200 else text[:200] + "..."


def raises(errors, function, message, **values):
    """FUNCTION rejects its input by raising one of ERRORS."""
    try:
        function()
    except errors:
        return
    except SystemExit as error:
        raise Violation(f"{message}: exits with {error.code}") from None
    require(False, message + ": nothing raised", **values)


################################################################################
# deciding one case
################################################################################
@contextlib.contextmanager
def _quiet():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield


class Endless(BaseException):
    """Not caught by handlers of the code under test."""


@contextlib.contextmanager
def _limited():
    """A case takes far less than a second, up to some seconds for the longest
    runs. CPU_LIMIT seconds of processor time mean that it does not terminate.

    """

    def stop(signum, frame):
        raise Endless

    previous = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, previous)


def _classify(error):
    """Returns 'violation' or 'harness' for an exception raised by a check."""
    if isinstance(error, Violation):
        return "violation"
    if isinstance(error, (HarnessError, MemoryError)):
        return "harness"

    frames = traceback.extract_tb(error.__traceback__)
    last = frames[-1].filename if frames else ""
    in_repo = any(os.path.abspath(f.filename).startswith(REPO + "/") for f in frames)
    in_harness = os.path.abspath(last).startswith(VERIF + "/")

    if in_harness and isinstance(error, (ImportError, NameError)):
        return "harness"
    if in_harness and isinstance(error, AttributeError) and (error.name or "_").startswith("_"):
        # names, which are not public, may change
        return "harness"
    if in_harness and isinstance(error, TypeError) and (
        "argument" in str(error) and "()" in str(error)
    ):
        return "harness"
    if in_repo or isinstance(
        error,
        (ValueError, TypeError, LookupError, ArithmeticError, AssertionError, AttributeError, OSError, SystemExit),
    ):
        return "violation"

    return "harness"


def construct(command, values):
    """Constructs the COMMAND of a parsed command line with the VALUES of the parser."""
    try:
        return command(**values)
    except TypeError as error:
        if error.__traceback__.tb_next is None:
            raise Violation(f"the arguments parsed for a command do not fit: {error}") from error
        raise


def decide(facet, case):
    """Returns (nontrivial, tags); raises Violation or HarnessError."""
    try:
        with _limited(), _quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            result = facet.check(case)
    except Endless:
        raise Violation(f"no end within {CPU_LIMIT:.0f} s of processor time") from None
    except (Exception, SystemExit) as error:
        if _classify(error) == "violation":
            if isinstance(error, KnownFinding) and error.key in facet.findings:
                return True, ["known finding " + error.key]
            if isinstance(error, Violation):
                raise
            text = "".join(traceback.format_exception_only(type(error), error)).strip()
            where = [
                f"{os.path.relpath(f.filename, REPO)}:{f.lineno}"
                for f in traceback.extract_tb(error.__traceback__)
                if os.path.abspath(f.filename).startswith(REPO + "/")
            ]
            raise Violation(f"unexpected {text} at {where[-3:]}") from error
        raise HarnessError(
            "".join(traceback.format_exception(type(error), error, error.__traceback__))
        ) from error

    if result is None:
        return True, []
    if isinstance(result, bool):
        return result, []
    return bool(result[0]), list(result[1])


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


################################################################################
# search
################################################################################
def _jsonable(case):
    return json.loads(json.dumps(case))


def search(check_name, facet_index, shard, examples, seed, deadline):
    """Runs one shard of a facet and returns a report."""
    import hypothesis

    check = load(check_name)
    facet = check.facets[facet_index]
    start = time.time()
    report = {
        "facet": facet.name,
        "evaluations": 0,
        "skipped": 0,
        "keys": set(),
        "tags": {},
        "samples": [],
        "violation": None,
        "error": None,
    }
    failing = {}
    state = {"first": None, "last": None}

    def run(case):
        case = _jsonable(case)
        key = _key(case)

        if key in failing:
            state["last"] = (case, failing[key])
            raise Violation(failing[key])

        now = time.time()
        if state["first"] is not None and now - state["first"] > SHRINK_BUDGET:
            return
        if state["first"] is None and now > deadline:
            report["skipped"] += 1
            return

        try:
            nontrivial, tags = decide(facet, case)
        except Violation as error:
            failing[key] = str(error)
            state["first"] = state["first"] or now
            state["last"] = (case, str(error))
            raise
        except HarnessError as error:
            report["error"] = report["error"] or (case, str(error))
            return

        if state["first"] is None:
            report["evaluations"] += 1
            for tag in tags:
                report["tags"][tag] = report["tags"].get(tag, 0) + 1
            if nontrivial:
                new = key not in report["keys"]
                report["keys"].add(key)
                if new and len(report["samples"]) < 2:
                    report["samples"].append(case)

    seed = (seed * 1000003 + zlib.crc32(facet.name.encode()) + 7919 * shard) % 2**62
    test = hypothesis.given(facet.strategy)(run)
    test = hypothesis.seed(seed)(test)
    test = hypothesis.settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(hypothesis.HealthCheck),
        phases=(hypothesis.Phase.generate, hypothesis.Phase.shrink),
    )(test)

    try:
        if shard == 0:
            for case in facet.examples:
                run(case)
        if examples > 0:
            with _quiet():
                test()
    except Violation:
        pass
    except BaseException as error:
        if state["last"] is None:
            report["error"] = report["error"] or (None, "".join(
                traceback.format_exception(type(error), error, error.__traceback__)
            ))

    if state["last"] is not None:
        report["violation"] = state["last"]

    report["wall"] = time.time() - start
    return report


def load(check_name):
    return importlib.import_module("checks." + check_name).check


def _worker(arguments):
    return search(*arguments)


def setup(scratch):
    """Prepares process for running the code in REPO."""
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[name] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["TQDM_MININTERVAL"] = "1000"
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO, VERIF] + [
        p for p in sys.path if os.path.abspath(p or ".") not in (REPO, VERIF, VERIF + "/pbt")
    ]
    try:
        import hypothesis  # noqa
    except ImportError:
        site = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(site)
        import hypothesis  # noqa
    os.chdir(REPO)
    warnings.simplefilter("ignore")


# multiplies the numbers of cases of the quick tier given at the facets
QUICK_SCALE = 2


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument("--facet")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--cap", type=float)
    parser.add_argument("--no-evidence", action="store_true")
    options = parser.parse_args()

    scratch = tempfile.mkdtemp(prefix="cls1-verif-")
    os.environ["CLS1_SCRATCH"] = scratch
    code = 2
    try:
        setup(scratch)
        code = replay(options) if options.replay else run(options)
    except SystemExit as error:
        code = error.code if isinstance(error.code, int) else 2
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def replay(options):
    with open(options.replay) as file:
        data = json.load(file)
    check = load(options.property.lower())
    facet = next(f for f in check.facets if f.name == data["facet"])
    try:
        decide(facet, data["case"])
    except Violation as error:
        print(error)
        print(f"VIOLATION property={check.id} replay={options.replay}")
        return 1
    except HarnessError as error:
        print(error)
        return 2
    print(f"property {check.id} holds for the replayed case")
    return 0


def _corpus(check):
    """Saved cases, which are decided before the search."""
    folder = os.path.join(VERIF, "corpus", check.id)
    cases = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as file:
                    cases.append((name, json.load(file)))
    return cases


def run(options):
    start = time.time()
    tier = "thorough" if options.tier == "thorough" else "quick"
    name = options.property.lower()
    check = load(name)
    cap = options.cap or (420.0 if tier == "quick" else 3000.0)
    deadline = start + cap

    tasks = []
    for index, facet in enumerate(check.facets):
        if options.facet and options.facet not in facet.name:
            continue
        total = int((facet.quick * QUICK_SCALE if tier == "quick" else facet.thorough) * options.scale)
        total = max(total, 1) if facet.strategy is not None else 0
        shards = max(1, min(facet.shards, total))
        for shard in range(shards):
            examples = total // shards + (1 if shard < total % shards else 0)
            tasks.append((name, index, shard, examples, options.seed, deadline))

    # saved cases first
    reports = []
    for file_name, data in _corpus(check):
        facets = [f for f in check.facets if f.name == data["facet"]]
        if not facets or (options.facet and options.facet not in data["facet"]):
            continue
        report = {"facet": facets[0].name, "evaluations": 1, "skipped": 0, "keys": {_key(data["case"])},
                  "tags": {"saved case": 1}, "samples": [], "violation": None, "error": None, "wall": 0}
        try:
            decide(facets[0], data["case"])
        except Violation as error:
            report["violation"] = (data["case"], str(error))
        except HarnessError as error:
            report["error"] = (data["case"], str(error))
        reports.append(report)

    if not any(r["violation"] for r in reports):
        # interleave the facets such that long ones start early
        tasks.sort(key=lambda t: t[2])
        if options.jobs > 1:
            context = multiprocessing.get_context("fork")
            with context.Pool(options.jobs) as pool:
                results = pool.imap_unordered(_worker, tasks, chunksize=1)
                for _ in tasks:
                    try:
                        report = results.next(timeout=max(60.0, deadline + 300 - time.time()))
                    except multiprocessing.TimeoutError:
                        print("a worker gave no answer in time")
                        return 2
                    reports.append(report)
                    if report["violation"]:
                        pool.terminate()
                        break
        else:
            for task in tasks:
                reports.append(_worker(task))
                if reports[-1]["violation"]:
                    break

    return conclude(check, reports, options, tier, time.time() - start)


def conclude(check, reports, options, tier, wall):
    facets = {}
    for report in reports:
        facet = facets.setdefault(
            report["facet"],
            {"evaluations": 0, "skipped": 0, "keys": set(), "tags": {}, "samples": [], "cpu_s": 0.0},
        )
        facet["evaluations"] += report["evaluations"]
        facet["skipped"] += report["skipped"]
        facet["keys"] |= report["keys"]
        facet["cpu_s"] += report["wall"]
        facet["samples"] += report["samples"]
        for tag, number in report["tags"].items():
            facet["tags"][tag] = facet["tags"].get(tag, 0) + number

    violations = [r for r in reports if r["violation"]]
    errors = [r for r in reports if r["error"]]

    rules = {f.name: f.rule for f in check.facets}
    samples = []
    for name, facet in facets.items():
        for sample in facet["samples"][:1]:
            text = json.dumps(sample)
            samples.append({"facet": name, "case": sample if len(text) < 1500 else text[:1500] + "..."})

    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": options.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facets.values()),
            "distinct_nontrivial": sum(len(f["keys"]) for f in facets.values()),
            "rule": check.rule
            + " Per facet: "
            + "; ".join(f"{name}: {rules[name]}" for name in facets if rules.get(name)),
            "samples": samples,
            "facets": {
                name: {
                    "evaluations": f["evaluations"],
                    "distinct_nontrivial": len(f["keys"]),
                    "not_run_for_time": f["skipped"],
                    "classes": dict(sorted(f["tags"].items())),
                    "cpu_s": round(f["cpu_s"], 1),
                }
                for name, f in facets.items()
            },
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not options.no_evidence and not options.facet:
        folder = os.path.join(VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, check.id + ".json"), "w") as file:
            json.dump(evidence, file, indent=1)

    for name, f in facets.items():
        print(
            f"{check.id} {name}: {f['evaluations']} cases, {len(f['keys'])} distinct non-trivial,"
            f" {f['skipped']} not run for time, {f['cpu_s']:.1f} cpu s, {dict(sorted(f['tags'].items()))}"
        )
    print(f"{check.id}: {wall:.1f} s")

    for key, text in check.findings.items():
        if any("known finding " + key in f["tags"] for f in facets.values()):
            print(f"KNOWN-FINDING: property={check.id} {text}")

    if violations:
        report = violations[0]
        case, message = report["violation"]
        folder = os.path.join(VERIF, "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{check.id}-{report['facet'].replace(' ', '-')}-{_key(case)[:10]}.json")
        with open(path, "w") as file:
            json.dump(
                {"property": check.id, "facet": report["facet"], "message": message, "case": case}, file, indent=1
            )
        print(f"facet {report['facet']}: {message}")
        print(f"case: {json.dumps(case)[:2000]}")
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errors:
        case, message = errors[0]["error"]
        print(f"harness error in facet {errors[0]['facet']}: {message}\ncase: {json.dumps(case)[:2000]}")
        return 2
    return 0


if __name__ == "__main__":
    from pbt import runner

    runner.main()
