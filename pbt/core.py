"""Machinery shared by all checks.

A property is a list of campaigns.  A campaign has a source of cases (a
Hypothesis strategy, or a generator that enumerates a finite space) and a
check, which runs the code under test on one case and raises Violation if
the property doesn't hold for it.  Cases are plain Python literals so that a
failing one can be written to a replay file.
"""

from __future__ import annotations

import ast
import hashlib
import json
import math
import os
import random
import resource
import select
import signal
import sys
import time
import traceback
import types
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# PBT_EXPERIMENT_*: only for experiments with changed copies of the repository.
REPO_SRC = os.environ.get("PBT_EXPERIMENT_SRC", "/repo/src")
OUT = os.environ.get("PBT_EXPERIMENT_OUT", os.path.join(VERIF, "out"))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

WORKERS = int(os.environ.get("PBT_EXPERIMENT_WORKERS", "8"))
QUICK = 2  # times the numbers of random cases given for the quick tier
SCALE = float(os.environ.get("PBT_EXPERIMENT_SCALE", "1"))  # of the number of random cases
MEMORY = 3 << 30  # bytes of address space per worker
CASE_CPU_S = 30  # far above what any case needs
SHRINK_S = 30  # how long a failure is minimised
QUICK_S = 600  # after which a quick check ends early, on a slow machine or with slow code


class Violation(Exception):
    """The property doesn't hold for this case."""


class HarnessError(Exception):
    """Something other than the code under test went wrong."""


class Hang(BaseException):
    """A case has used far more CPU time than any should."""


class Enough(BaseException):
    """Stop minimising."""


@dataclass
class Campaign:
    name: str
    check: Callable[[Any, "Note"], None]
    source: Callable[..., Any]  # strategy(tier) or generator(tier)
    kind: str  # "random", "bulk" or "exhaustive"
    quick: int = 0  # examples, in all shards together
    thorough: int = 0
    shards: int = 8
    cpu_s: int = CASE_CPU_S
    when: tuple = ("quick", "thorough")


@dataclass
class Property:
    id: str
    rule: str
    campaigns: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)

    def random(self, name, source, quick, thorough=None, shards=8, kind="random", **kw):
        def register(check):
            self.campaigns.append(
                Campaign(
                    name, check, source, kind, quick,
                    thorough if thorough is not None else quick * 40, shards, **kw,
                )
            )
            return check

        return register

    def exhaustive(self, name, source, shards=8, **kw):
        def register(check):
            self.campaigns.append(
                Campaign(name, check, source, "exhaustive", shards=shards, **kw)
            )
            return check

        return register


    def bulk(self, name, source, quick, thorough=None, shards=8, **kw):
        """Like random(), but the source maps a random.Random to a case."""
        return self.random(name, lambda tier: source, quick, thorough, shards, kind="bulk", **kw)


PROPERTIES: dict[str, Property] = {}


def prop(id, rule, assumptions=()):
    p = Property(id, rule, assumptions=list(assumptions))
    PROPERTIES[id] = p
    return p


class Note:
    """What a check reports about the case it was given."""

    def __init__(self):
        self.labels = {}
        self.counted = False

    def __call__(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def nontrivial(self, yes=True):
        if yes:
            self.counted = True


def require(condition, message, *values):
    if not condition:
        raise Violation(message + "".join(f"\n  {brief(v)}" for v in values))


def brief(value, limit=600):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + f"... ({len(text)} characters)"


# ---------------------------------------------------------------- one case


def _from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC + "/"):
            return True
        tb = tb.tb_next
    return False


def _on_cpu_limit(signum, frame):
    raise Hang()


# Exceptions that our own reading of a result raises when the result isn't of
# the shape every result has.
MALFORMED = (TypeError, ValueError, IndexError, KeyError, UnicodeError)


def run_case(campaign, case, note):
    """Run the check.  Raises Violation or HarnessError."""
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    # Again every two seconds: raised within a callback, it's ignored.
    signal.setitimer(signal.ITIMER_PROF, campaign.cpu_s, 2)
    try:
        try:
            campaign.check(case, note)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation:
        raise
    except Hang as e:
        if _from_repo(e.__traceback__):
            raise Violation(
                f"still running after {campaign.cpu_s} s of CPU time:\n"
                + "".join(traceback.format_tb(e.__traceback__)[-4:])
            ) from None
        raise HarnessError(
            "the check itself ran too long:\n" + "".join(traceback.format_tb(e.__traceback__)[-6:])
        )
    except Exception as e:
        text = "".join(traceback.format_exception(e, limit=-6))
        if _from_repo(e.__traceback__):
            raise Violation(f"unexpected {type(e).__name__}: {brief(str(e), 200)}\n{text}") from None
        if isinstance(e, MALFORMED) or isinstance(e, AttributeError) and not isinstance(e.obj, (type, types.ModuleType)):
            raise Violation(f"unusable result ({type(e).__name__}: {brief(str(e), 200)})\n{text}") from None
        raise HarnessError(text)
    except SystemExit as e:
        if _from_repo(e.__traceback__):
            raise Violation(f"exited with {e.code!r}") from None
        raise


# ---------------------------------------------------------------- one shard


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.early = False
        self.failure = None  # (case repr, message)

    def record(self, case_text, note):
        self.evaluations += 1
        for k, v in note.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        if note.counted:
            h = int.from_bytes(
                hashlib.blake2b(case_text.encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big"
            )
            self.distinct.add(h)
            n = self.evaluations
            if n & (n - 1) == 0 and len(self.samples) < 24:
                self.samples.append(brief(case_text, 400))


def minimised(campaign, case, text, message):
    """The case with as much as possible taken away, as (repr, message)."""
    from pbt import bulk

    deadline = time.monotonic() + SHRINK_S
    progress = True
    while progress:
        progress = False
        for candidate in bulk.smaller(case):
            if time.monotonic() > deadline:
                return text, message
            candidate_text = repr(candidate)
            try:
                run_case(campaign, candidate, Note())
            except Violation as e:
                case, text, message = candidate, candidate_text, str(e)
                progress = True
                break
    return text, message


def run_shard(campaign, shard, tier, seed, deadline):
    stats = Stats()
    if campaign.kind == "exhaustive":
        for index, case in enumerate(campaign.source(tier)):
            if index % campaign.shards != shard:
                continue
            if time.monotonic() > deadline:
                stats.early = True
                break
            note = Note()
            text = repr(case)  # before anything can change it
            try:
                run_case(campaign, case, note)
            except Violation as e:
                stats.failure = (text, str(e))
                break
            stats.record(text, note)
        return stats

    total = campaign.quick * QUICK if tier == "quick" else campaign.thorough
    examples = max(1, int(total * SCALE) // campaign.shards)
    if campaign.kind == "bulk":
        r = random.Random(f"{seed}/{campaign.name}/{shard}")
        make = campaign.source(tier)
        for _ in range(examples):
            if time.monotonic() > deadline:
                stats.early = True
                break
            case = make(r)
            note = Note()
            text = repr(case)
            try:
                run_case(campaign, case, note)
            except Violation as e:
                stats.failure = minimised(campaign, case, text, str(e))
                break
            stats.record(text, note)
        return stats

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    started_failing = None

    def test(case):
        nonlocal started_failing
        if started_failing is not None and time.monotonic() - started_failing > SHRINK_S:
            raise Enough()
        if started_failing is None and time.monotonic() > deadline:
            stats.early = True
            raise Enough()
        note = Note()
        text = repr(case)
        try:
            run_case(campaign, case, note)
        except Violation as e:
            if started_failing is None:
                started_failing = time.monotonic()
            if stats.failure is None or len(text) <= len(stats.failure[0]):
                stats.failure = (text, str(e))
            raise
        if started_failing is None:
            stats.record(text, note)

    mixed = zlib.crc32(f"{seed}/{campaign.name}/{shard}".encode())
    wrapped = hypothesis.seed(mixed)(
        settings(
            max_examples=examples,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
            report_multiple_bugs=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(given(campaign.source(tier))(test))
    )
    try:
        wrapped()
    except Enough:
        pass
    except HarnessError:
        raise
    except BaseException:
        # Hypothesis reports what failed; it's been recorded.
        if stats.failure is None:
            raise
    return stats


# ---------------------------------------------------------------- all shards


def _child(write_fd, campaign, shard, tier, seed, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        stats = run_shard(campaign, shard, tier, seed, deadline)
        result = {
            "evaluations": stats.evaluations,
            "distinct": sorted(stats.distinct),
            "labels": stats.labels,
            "samples": stats.samples,
            "failure": stats.failure,
            "early": stats.early,
        }
    except BaseException as e:
        result = {"error": "".join(traceback.format_exception(e))}
    data = json.dumps(result).encode("ascii")
    while data:
        n = os.write(write_fd, data[: 1 << 16])
        data = data[n:]
    os.close(write_fd)


def run_all(tasks, tier, seed, deadline):
    """Run each (campaign, shard) in a process of its own, WORKERS at a time.
    Yields (campaign, shard, result)."""
    waiting = list(reversed(tasks))
    running = {}  # fd -> [pid, campaign, shard, data]
    try:
        while waiting or running:
            while waiting and len(running) < WORKERS:
                campaign, shard = waiting.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for fd in running:
                        os.close(fd)
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        _child(w, campaign, shard, tier, seed, deadline)
                        code = 0
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(w)
                running[r] = [pid, campaign, shard, bytearray()]
            ready, _, _ = select.select(list(running), [], [])
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    running[fd][3] += chunk
                    continue
                pid, campaign, shard, data = running.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:
                    result = json.loads(bytes(data).decode("ascii"))
                except ValueError:
                    result = {"error": f"{campaign.name}/{shard} ended without a result (status {status})"}
                yield campaign, shard, result
    finally:
        for fd, (pid, *_) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)


def write_replay(p, campaign, case_text, message):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{p.id}-{campaign.name}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": p.id, "campaign": campaign.name, "case": case_text, "message": message},
            f, indent=1,
        )
        f.write("\n")
    return path


def known_findings(id):
    """Cases listed as known findings of this property: {(campaign, case): text}"""
    known = {}
    path = os.path.join(VERIF, "known_findings.json")
    for entry in json.load(open(path))["findings"]:
        if entry["property"] == id and entry["status"] == "known":
            known[(entry["campaign"], entry["case"])] = entry["what"]
    return known


def load_regress(p):
    path = os.path.join(VERIF, "regress", f"{p.id}.json")
    if not os.path.exists(path):
        return []
    by_name = {c.name: c for c in p.campaigns}
    return [(by_name[e["campaign"]], e["case"]) for e in json.load(open(path))]


def replay(p, path):
    entry = json.load(open(path))
    campaign = {c.name: c for c in p.campaigns}[entry["campaign"]]
    try:
        run_case(campaign, ast.literal_eval(entry["case"]), Note())
    except Violation as e:
        print(f"case: {brief(entry['case'], 3000)}\n{e}")
        print(f"VIOLATION property={p.id} replay={path}")
        return 1
    print("the property holds for this case")
    return 0


def main(id, tier, seed):
    p = PROPERTIES[id]
    started = time.monotonic()
    evaluations = 0
    distinct = 0
    labels = {}
    samples = []
    per_campaign = {}
    failures = []
    errors = []
    known = known_findings(id)
    known_seen = []

    def fail(campaign, case_text, message):
        if (campaign.name, case_text) in known:
            known_seen.append(known[(campaign.name, case_text)])
        else:
            failures.append((campaign, case_text, message))

    # Minimal cases of defects found before come first.
    regress = load_regress(p)
    for campaign, case_text in regress:
        note = Note()
        try:
            run_case(campaign, ast.literal_eval(case_text), note)
        except Violation as e:
            fail(campaign, case_text, str(e))
        except HarnessError as e:
            errors.append(str(e))
        evaluations += 1
    per_campaign["regress"] = {"evaluations": len(regress)}

    if not failures and not errors:
        active = [c for c in p.campaigns if tier in c.when]
        tasks = [(c, s) for c in active for s in range(c.shards)]
        seen = {c.name: set() for c in active}
        deadline = started + QUICK_S if tier == "quick" else math.inf
        for campaign, shard, result in run_all(tasks, tier, seed, deadline):
            if "error" in result:
                errors.append(f"{campaign.name}/{shard}: {result['error']}")
                break
            evaluations += result["evaluations"]
            entry = per_campaign.setdefault(
                campaign.name, {"kind": campaign.kind, "evaluations": 0, "labels": {}}
            )
            entry["evaluations"] += result["evaluations"]
            if result["early"]:
                entry["ended early"] = True
            seen[campaign.name].update(result["distinct"])
            for k, v in result["labels"].items():
                entry["labels"][k] = entry["labels"].get(k, 0) + v
            if shard == 0:
                samples += [{"campaign": campaign.name, "case": s} for s in result["samples"][-3:]]
            if result["failure"]:
                fail(campaign, *result["failure"])
                if failures:
                    break
        for name, hashes in seen.items():
            if name in per_campaign:
                per_campaign[name]["distinct_nontrivial"] = len(hashes)
                distinct += len(hashes)

    wall = time.monotonic() - started
    evidence = {
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples[:40],
            "campaigns": per_campaign,
        },
        "assumptions": p.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(failures),
    }
    if not evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"] = [{"case": brief(f[1], 400)} for f in failures] or ["none: the run stopped early"]
    folder = os.path.join(VERIF if OUT == os.path.join(VERIF, "out") else OUT, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for what in known_seen:
        print(f"KNOWN-FINDING: property={id} {what}")
    if failures:
        campaign, case_text, message = min(failures, key=lambda f: len(f[1]))
        path = write_replay(p, campaign, case_text, message)
        print(f"{campaign.name}: {brief(case_text, 3000)}\n{message}")
        print(f"VIOLATION property={id} replay={os.path.relpath(path, VERIF)}")
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors))
        return 2
    print(
        f"{id} held: {evaluations} cases, {distinct} distinct and non-trivial, "
        f"{wall:.1f} s ({tier}, seed {seed})"
    )
    return 0
