#!/usr/bin/env python3
"""Build the monitor from /repo's working tree, run it for a property, and report.

    check.py P07              decide a property (VERIF_SEED, VERIF_TIER)
    check.py setup            build what the quick checks need
    check.py replay FILE      repeat what a violation was reported for
"""

import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
TARGET = "x86_64-unknown-linux-gnu"
CORES = max(1, min(8, len(os.sched_getaffinity(0))))
MEMORY = 24 << 30

FEATURES = [
    "default-language",
    "ignore-incomplete-directories",
    "ignore-incomplete-marks",
    "ignore-invalid-checksums",
]

# How long the monitor observes, in seconds: quick, thorough.
DEFAULT_SECS = (30, 240)
SECS = {
    "P01": (45, 420),
    "P02": (40, 300),
    "P03": (45, 360),
    "P05": (35, 240),
    "P10": (20, 150),
    "P14": (35, 300),
    "P17": (14, 300),
    "P19": (35, 300),
    "P26": (14, 400),
    "P27": (20, 150),
}

LEVELS = {"P14": "fault_enumeration"}

RULES = {
    "P01": "Evaluations are calls into the crate on hostile files, fonts and tables (mutated, spliced, truncated or random bytes, at any position), in a checked, an optimised and a lenient build. Distinct and non-trivial: different byte strings; those the reference decoder finds too expensive to judge are left out.",
    "P02": "Evaluations are reads of generated, mutated and real substitution structures, each compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P03": "Evaluations are reads of generated, mutated and real positioning structures, each compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P04": "Evaluations are reads of generated and mutated contextual and chained lookups in all formats, each compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P05": "Evaluations are reads of lists of scripts, languages, features and lookups, compared with the reference decoder, and searches by tag, compared with a linear scan. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P06": "Evaluations are reads of glyph definitions and variation stores, compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P07": "Evaluations are reads of coverages, classes, corrections and anchors, alone (with the furthest byte touched watched) or in lookups, compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P08": "Evaluations are reads of axes and instances in generated, mutated and real tables, compared field by field with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P09": "Evaluations are reads and iterations of palettes in generated, mutated and real tables, compared with the reference decoder. Distinct and non-trivial: different byte strings that are well-formed by the reference.",
    "P10": "Evaluations are reads of well-formed structures damaged in one critical field (versions, formats, types, flags, counts, sizes, mandatory offsets; small fields swept in full) and of files with signatures. Distinct and non-trivial: different byte strings that are malformed by the reference.",
    "P11": "Evaluations are reads of well-formed structures cut at every or at a sampled length. Distinct and non-trivial: different cut structures for which the reference decoder misses bytes.",
    "P12": "Evaluations are reads of one structure amid different surroundings and at different positions, near and far. Distinct and non-trivial: different structures.",
    "P13": "Evaluations are reads of one structure delivered in single bytes, halves, random and interrupted pieces, blocks or from a file. Distinct and non-trivial: different structures.",
    "P14": "For each read, the operations on the source are counted, and the read is repeated with a failure at each one of them (all when few, else a sample that includes the first and the last), once and for good. Distinct and non-trivial: different pairs of a structure and a point of failure.",
    "P15": "Evaluations are questions about tables by tag in generated and real fonts with absent, repeated and similar tags. Distinct and non-trivial: different pairs of a font and a tag.",
    "P16": "Evaluations are attempts to locate tables in fonts with right and wrong sums, with padding and damage of all sorts. Distinct and non-trivial: different pairs of a font and a tag.",
    "P17": "Evaluations are conversions of tags to a script, a feature or a language and back, compared with the registries: registered tags and all near them in a checked build, all 2^32 in an optimised one. Distinct and non-trivial: different registered pairs of a tag and a registry.",
    "P18": "Evaluations are reads at random places in histories of successful and failed reads, and reads on several threads sharing fonts, each compared with the reference. Distinct and non-trivial: different histories and schedules by their steps.",
    "P19": "Evaluations are reads under an allocator that counts, of well-formed, mutated and real structures and structures with blown-up counts. Distinct and non-trivial: different byte strings.",
    "P20": "The same cases in builds with different feature sets: checksums, default languages, malformed, complete and incomplete structures, judged under what is built, and results for complete structures compared between builds. Distinct and non-trivial: different byte strings or tags in one build.",
    "P21": "The same hostile cases in a checked and in an optimised build, compared by the digest of the outcome. Distinct and non-trivial: different byte strings in one build.",
    "P22": "Evaluations are reads of hostile structures and fonts, failing sources, and reads by several threads sharing fonts, under the address, memory and thread sanitizers and Miri. Distinct and non-trivial: different byte strings and schedules under one of these.",
    "P23": "Evaluations are reads of one content in different arrangements: reordered, with gaps, merged, duplicated. Distinct and non-trivial: different contents with more than one arrangement.",
    "P24": "Evaluations are reads of structures with optional parts, where the pattern of presence is compared with the reference decoder. Distinct and non-trivial: different byte strings.",
    "P25": "Evaluations are reads of generated tables without sharing, real tables, damaged tables, fonts and adversarial tables, with operations and bytes counted at the source and the time of the processor measured, and searches in long lists, measured too. Distinct and non-trivial: different byte strings.",
    "P26": "Evaluations are files opened under a signature and questions whether the signature is recognised: all signatures one bit or byte away from those supported, their rotations and cases, registered tags and random ones, and all 2^32 for the question (thorough: and for the opening). Distinct and non-trivial: different signatures.",
    "P27": "Evaluations are pairs of structures of one kind, where one is copied and replaces the other; all 2^16 values of each sort of flags; the default values; and groups of ten tags compared as scripts, features and languages, in all pairs. Distinct and non-trivial: different contents copied and groups compared.",
}


class Trouble(Exception):
    """The check itself has failed."""


def repo_state():
    digest = hashlib.sha256()
    roots = ["src", "Cargo.toml", "Cargo.lock", "build.rs"]
    for root in roots:
        path = os.path.join(REPO, root)
        files = [path] if os.path.isfile(path) else []
        for directory, names, found in os.walk(path):
            names.sort()
            files += [os.path.join(directory, name) for name in sorted(found)]
        for name in files:
            digest.update(name.encode() + b"\0")
            with open(name, "rb") as f:
                digest.update(f.read())
    return digest.hexdigest()


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


class Variant:
    """A way of building and running the monitor."""

    def __init__(self, name, features=(), release=False, sanitizer=None, miri=False, std=False):
        self.name = name
        self.features = list(features)
        self.release = release
        self.sanitizer = sanitizer
        self.miri = miri
        self.std = std
        self.target = os.path.join(BUILD, name)

    def environment(self):
        env = dict(os.environ)
        for name in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
            env.pop(name, None)
        env["CARGO_TARGET_DIR"] = self.target
        env["CARGO_NET_OFFLINE"] = "true"
        env["CARGO_TERM_COLOR"] = "never"
        if self.sanitizer:
            flags = f"-Zsanitizer={self.sanitizer} --cfg sanitized"
            if self.sanitizer == "thread":
                flags += " --cfg racing"
            if self.sanitizer == "memory":
                flags += " -Zsanitizer-memory-track-origins"
            env["RUSTFLAGS"] = flags
            env["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=66:allocator_may_return_null=1"
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66"
            env["MSAN_OPTIONS"] = "halt_on_error=1:exit_code=66"
        if self.miri:
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        return env

    def binary(self):
        kind = "release" if self.release else "debug"
        parts = [TARGET, kind] if self.sanitizer else [kind]
        return os.path.join(self.target, *parts, "mon")

    def cargo(self, verb):
        command = ["cargo"]
        if self.sanitizer or self.miri:
            command.append("+nightly")
        command += ["miri", verb] if self.miri else [verb]
        command += ["--offline"]
        if self.release:
            command.append("--release")
        if self.sanitizer:
            command += ["--target", TARGET]
        if self.std:
            command.append("-Zbuild-std")
        if self.features:
            command += ["--features", ",".join(self.features)]
        return command

    def build(self, jobs=CORES):
        os.makedirs(self.target, exist_ok=True)
        state = repo_state()
        note = os.path.join(self.target, "state")
        try:
            before = open(note).read()
        except OSError:
            before = ""
        if before != state:
            # Times of files are not to be trusted.
            for path in glob.glob(os.path.join(self.target, "**", ".fingerprint", "opentype-*"), recursive=True):
                shutil.rmtree(path, ignore_errors=True)
        if self.miri:
            command = self.cargo("run") + ["--", "P22", "--cases", "0", "--threads", "1", "--out", os.devnull]
        else:
            command = self.cargo("build") + ["-j", str(jobs)]
        done = subprocess.run(
            command,
            cwd=HARNESS,
            env=self.environment(),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            errors="replace",
        )
        if done.returncode != 0:
            raise Trouble(f"building {self.name} failed:\n{done.stdout[-6000:]}")
        with open(note, "w") as f:
            f.write(state)

    def start(self, arguments, **options):
        if self.miri:
            command = self.cargo("run") + ["--"] + arguments
        else:
            command = [self.binary()] + arguments
        return subprocess.Popen(
            command,
            cwd=HARNESS,
            env=self.environment(),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            errors="replace",
            preexec_fn=None if self.sanitizer or self.miri else limit_memory,
            start_new_session=True,
            **options,
        )


def feature_variant(features):
    names = [str(FEATURES.index(f)) for f in features]
    return Variant("features-" + ("".join(names) or "none"), features)


DEV = Variant("dev")
RELEASE = Variant("release", release=True)
ASAN = Variant("address", sanitizer="address")
MSAN = Variant("memory", sanitizer="memory", std=True)
TSAN = Variant("thread", sanitizer="thread", std=True)
MIRI = Variant("miri", miri=True)

# How many inputs are made ahead of time for the sanitizers and for the interpreter.
STOCK = 60_000
SMALL_STOCK = 400


def all_variants():
    variants = [DEV, RELEASE, ASAN, MSAN, TSAN, MIRI]
    for mask in range(16):
        variants.append(feature_variant([f for k, f in enumerate(FEATURES) if mask >> k & 1]))
    return variants


def finish(process, timeout):
    try:
        output, _ = process.communicate(timeout=timeout)
        return process.returncode, output
    except subprocess.TimeoutExpired:
        try:
            os.killpg(process.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        output, _ = process.communicate()
        return None, output


def reduced(output):
    """What a tool had to say about an end that was not orderly."""
    lines = output.splitlines()
    for k, line in enumerate(lines):
        if re.search(r"ERROR: \w+Sanitizer|WARNING: \w+Sanitizer|error: Undefined Behavior|error: |has overflowed its stack|memory allocation of", line):
            return "\n".join(lines[k : k + 25])
    return "\n".join(lines[-15:])


class Part:
    """A run of the monitor and its report."""

    def __init__(self, variant, prop, seed, tier, secs, cases=None, threads=CORES, stock=None):
        self.variant = variant
        self.stock = stock
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.secs = secs
        self.cases = cases
        self.threads = threads
        self.report = None
        self.digests = {}
        self.crashes = []

    def arguments(self, work):
        arguments = [
            self.prop, "--seed", str(self.seed), "--tier", self.tier, "--secs", str(self.secs),
            "--threads", str(self.threads), "--out", os.path.join(work, "report"),
            "--progress", os.path.join(work, "progress"), "--digests", os.path.join(work, "digests"),
        ]
        if self.cases is not None:
            arguments += ["--cases", str(self.cases)]
        if self.stock is not None:
            arguments += ["--stock", self.stock]
        return arguments

    def run(self):
        with tempfile.TemporaryDirectory(prefix="mon-") as work:
            os.mkdir(os.path.join(work, "progress"))
            # A case may take its time, and the watchdog inside has its own idea of patience.
            timeout = self.secs + 400
            began = time.time()
            code, output = finish(self.variant.start(self.arguments(work)), timeout)
            self.wall = time.time() - began
            path = os.path.join(work, "report")
            if code == 0 and os.path.exists(path):
                with open(path) as f:
                    self.report = json.load(f)
                try:
                    with open(os.path.join(work, "digests")) as f:
                        for line in f:
                            case, digest, what = line.split()
                            self.digests[int(case)] = (digest, what)
                except OSError:
                    pass
                return self
            self.attribute(code, output, work)
            return self

    def attribute(self, code, output, work):
        """Find the cases behind a crash."""
        cases = []
        for name in sorted(os.listdir(os.path.join(work, "progress"))):
            with open(os.path.join(work, "progress", name), "rb") as f:
                data = f.read(8)
            if len(data) == 8:
                cases.append(int.from_bytes(data, "little"))
        end = "did not end" if code is None else f"ended with code {code}"
        for case in sorted(set(cases)):
            code, again = finish(self.variant.start(self.single(case)), 200)
            if code != 0:
                end = "does not end" if code is None else f"ends with code {code}"
                self.crashes.append({
                    "case": case,
                    "signature": "crash",
                    "detail": f"the process {end} ({self.variant.name}):\n{reduced(again)}",
                    "input": "",
                })
                return
        found = re.search(r"Sanitizer|Undefined Behavior|data race", output)
        if found and cases:
            # A race does not show every time.
            self.crashes.append({
                "case": min(cases),
                "signature": "crash",
                "detail": f"the process {end} ({self.variant.name}):\n{reduced(output)}",
                "input": "",
            })
            return
        # What was observed before the end remains.
        try:
            with open(os.path.join(work, "report.partial")) as f:
                report = json.load(f)
            if report["violations"]:
                self.report = report
                return
        except (OSError, ValueError):
            pass
        if self.threads > 1 and code is not None:
            # All of the threads together may have run out of memory.
            self.threads = 1
            self.run()
            return
        raise Trouble(f"{self.variant.name} {end} and no case repeats it:\n{reduced(output)}")

    def single(self, case):
        stock = [] if self.stock is None or not os.path.exists(self.stock) else ["--stock", self.stock]
        return [self.prop, "--seed", str(self.seed), "--tier", self.tier, "--case", str(case)] + stock

    def violations(self):
        return self.crashes + (self.report["violations"] if self.report else [])

    def failed(self):
        """Whether there is a violation that is not a known finding."""
        findings = known_findings(self.prop)
        return any(v["signature"] not in findings for v in self.violations())


def known_findings(prop):
    findings = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                found = re.match(r"finding: property=(\S+) signature=\"([^\"]*)\" (.*)", line.strip())
                if found and found[1] == prop:
                    findings[found[2]] = found[3]
    except OSError:
        pass
    return findings


def build(variants):
    if len(variants) == 1:
        return variants[0].build()
    with concurrent.futures.ThreadPoolExecutor(len(variants)) as pool:
        for future in [pool.submit(v.build, max(1, CORES // 2)) for v in variants]:
            future.result()


def together(parts):
    """Run one after another, up to the first that fails."""
    done = []
    for part in parts:
        done.append(part.run())
        if part.failed():
            break
    return done


def compare(prop, parts, comparable):
    """Results that should be the same in all builds."""
    violations = []
    compared = 0
    first = parts[0]
    for other in parts[1:]:
        for case in sorted(first.digests.keys() & other.digests.keys()):
            a, b = first.digests[case], other.digests[case]
            if not comparable(a, b):
                continue
            compared += 1
            if a != b and len(violations) < 8:
                violations.append((other, {
                    "case": case,
                    "signature": "builds differ",
                    "detail": f"case {case} comes to {a} in {first.variant.name} and to {b} in {other.variant.name}",
                    "input": "",
                    "against": first.variant.name,
                }))
    return compared, violations


def observe(prop, seed, tier):
    thorough = tier == "thorough"
    secs = SECS.get(prop, DEFAULT_SECS)[thorough]
    extra = []
    counters = {}
    assumptions = []
    if prop == "P20":
        if thorough:
            sets = [[f for k, f in enumerate(FEATURES) if mask >> k & 1] for mask in range(16)]
        else:
            sets = [[]] + [[f] for f in FEATURES] + [FEATURES]
        variants = [feature_variant(s) for s in sets]
        build(variants)
        cases = 60_000 if thorough else 10_000
        parts = together([Part(v, prop, seed, tier, 150 if thorough else 30, cases) for v in variants])
        counters["builds"] = len(parts)
        compared, extra = compare(prop, parts, lambda a, b: True)
        counters["results compared between builds"] = compared
    elif prop == "P21":
        variants = [DEV, RELEASE]
        build(variants)
        cases = 800_000 if thorough else 40_000
        parts = together([Part(v, prop, seed, tier, 300 if thorough else 40, cases) for v in variants])
        compared, extra = compare(prop, parts, lambda a, b: True)
        counters["results compared between builds"] = compared
        if compared == 0 and not any(p.failed() for p in parts):
            raise Trouble("nothing was compared")
    elif prop == "P22":
        parts = []
        tools = [ASAN, MSAN, TSAN, MIRI]
        usable = []
        problems = []
        with concurrent.futures.ThreadPoolExecutor(len(tools)) as pool:
            futures = {v.name: pool.submit(v.build, CORES) for v in tools}
            for variant in tools:
                try:
                    futures[variant.name].result()
                    usable.append(variant)
                except Trouble as trouble:
                    problems.append(str(trouble))
                    assumptions.append(f"{variant.name} could not be built here and has not taken part")
        if not usable:
            raise Trouble("\n".join(problems))
        build([DEV])
        with tempfile.TemporaryDirectory(prefix="mon-") as work:
            # What to read is made ahead of time in a build that is fast.
            def stock(seed, cases, *more):
                path = os.path.join(work, f"stock-{seed}")
                arguments = ["STOCK", "--seed", str(seed), "--tier", tier, "--cases", str(cases), "--secs", "120"]
                code, output = finish(DEV.start(arguments + ["--out", os.devnull, "--stock", path, *more]), 400)
                if code != 0 or not os.path.exists(path):
                    raise Trouble(f"making inputs failed:\n{output[-2000:]}")
                return path

            for k, variant in enumerate(usable):
                if variant.miri:
                    continue
                rounds = 4 if thorough else 1
                for r in range(rounds):
                    this = seed + 1000 * r
                    share = (800 if variant is TSAN else 300) / rounds if thorough else 20 if variant is ASAN else 14
                    part = Part(variant, prop, this, tier, share, stock=stock(this, STOCK)).run()
                    evaluations = part.report["evaluations"] if part.report else 0
                    name = f"evaluations under {variant.name}"
                    counters[name] = counters.get(name, 0) + evaluations
                    parts.append(part)
                    if part.failed():
                        return parts, extra, counters, assumptions
            if MIRI in usable:
                copies = CORES
                seeds = [seed + 100_000 + k for k in range(copies)]
                runs = [
                    Part(MIRI, prop, s, tier, 500 if thorough else 30, None, 1, stock(s, SMALL_STOCK * (8 if thorough else 1), "--small"))
                    for s in seeds
                ]
                with concurrent.futures.ThreadPoolExecutor(copies) as pool:
                    runs = list(pool.map(Part.run, runs))
                counters["evaluations under miri"] = sum(p.report["evaluations"] for p in runs if p.report)
                parts += runs
    else:
        variants = [DEV]
        if prop == "P01":
            # Checked and unchecked arithmetic, strict and lenient.
            variants = [DEV, RELEASE, feature_variant(FEATURES)]
        if prop in ("P17", "P26"):
            # The optimised one goes through all there are.
            variants = [DEV, RELEASE]
        if prop in ("P10", "P11"):
            # What is refused is refused without debug assertions.
            variants = [DEV, RELEASE]
        build(variants)
        parts = []
        for k, variant in enumerate(variants):
            share = secs / 2 if k == 0 else secs / (2 * len(variants) - 2)
            cases = None
            if prop in ("P17", "P26") and variant is RELEASE:
                share, cases = max(secs, 200), 5200
            parts.append(Part(variant, prop, seed, tier, share if len(variants) > 1 else secs, cases).run())
            if parts[-1].failed():
                break
    return parts, extra, counters, assumptions


def check(prop, seed, tier):
    began = time.time()
    parts, extra, counters, assumptions = observe(prop, seed, tier)
    found = [(part, v) for part in parts for v in part.violations()] + extra
    findings = known_findings(prop)
    reported = {}
    seen = set()
    for part, violation in found:
        if violation["signature"] in findings:
            seen.add(violation["signature"])
        else:
            reported.setdefault(violation["signature"], (part, violation))
    errors = [e for part in parts if part.report for e in part.report["errors"]]
    reports = [part.report for part in parts if part.report]
    samples = [s for report in reports for s in report["samples"]][:6]
    evaluations = sum(r["evaluations"] for r in reports)
    for report in reports:
        for name, n in report["counters"].items():
            counters[name] = counters.get(name, 0) + n
    counters["runs of the monitor"] = len(parts)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVELS.get(prop, "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": max([r["distinct"] for r in reports], default=0),
            "rule": RULES[prop] + (" Over several runs, the greatest count in one of them." if len(parts) > 1 else ""),
            "samples": samples or ["no case came to an end"],
            "observed": dict(sorted(counters.items())),
        },
        "assumptions": assumptions + [
            "the reference decoder, generator and registries in /verif/harness/src state what is right",
        ],
        "wall_s": round(time.time() - began, 2),
        "violations": len(reported),
    }
    if seen:
        evidence["coverage"]["known_findings_seen"] = sorted(seen)
    directory = os.path.join(HERE, "evidence")
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for signature in sorted(seen):
        print(f"KNOWN-FINDING: property={prop} {findings[signature]}")
    if reported:
        replays = os.path.join(HERE, "replays")
        os.makedirs(replays, exist_ok=True)
        for k, (signature, (part, violation)) in enumerate(sorted(reported.items())[:10]):
            path = os.path.join(replays, f"{prop}-{k}.json")
            with open(path, "w") as f:
                json.dump({
                    "property": prop,
                    "seed": part.seed,
                    "tier": tier,
                    "variant": part.variant.name,
                    **violation,
                }, f, indent=1)
                f.write("\n")
            print(f"{signature}: {violation['detail'][:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        raise Trouble("the monitor failed:\n" + "\n".join(errors[:10]))
    if evaluations == 0:
        raise Trouble("nothing was evaluated")
    discarded = counters.get("cases discarded by self-checks", 0)
    if discarded > max(5, evaluations // 1000):
        raise Trouble(f"the generator failed its self-checks in {discarded} cases")
    distinct = evidence["coverage"]["distinct_nontrivial"]
    print(f"{prop}: {evaluations} evaluations, {distinct} distinct, {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    names = [data["variant"]] + ([data["against"]] if "against" in data else [])
    outcomes = []
    status = 0
    for name in names:
        variant = next(v for v in all_variants() if v.name == name)
        variant.build()
        part = Part(variant, data["property"], data["seed"], data["tier"], 60)
        with tempfile.TemporaryDirectory(prefix="mon-") as work:
            digests = os.path.join(work, "digests")
            code, output = finish(variant.start(part.single(data["case"]) + ["--digests", digests]), 400)
            if os.path.exists(digests):
                with open(digests) as f:
                    outcomes.append(f.read())
        print(output[-4000:])
        if code != 0:
            status = 1
        else:
            report = json.loads(output[output.index("{") :].splitlines()[0])
            if any(v["signature"] == data["signature"] for v in report["violations"]):
                status = 1
    if len(outcomes) == 2 and outcomes[0] != outcomes[1]:
        print(f"{outcomes[0]!r} is not {outcomes[1]!r}")
        status = 1
    print("the violation is back" if status else "the violation is gone")
    return status


def setup():
    build([DEV, RELEASE])
    build([feature_variant(s) for s in [[]] + [[f] for f in FEATURES] + [FEATURES]])
    for variant in [ASAN, MSAN, TSAN, MIRI]:
        try:
            variant.build()
        except Trouble as trouble:
            print(trouble)
    return 0


def main():
    what = sys.argv[1]
    try:
        if what == "setup":
            return setup()
        if what == "replay":
            return replay(sys.argv[2])
        seed = int(os.environ.get("VERIF_SEED") or 1)
        tier = os.environ.get("VERIF_TIER") or "quick"
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        return check(what, seed, "thorough" if tier == "thorough" else "quick")
    except Trouble as trouble:
        print(f"TROUBLE: {trouble}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
