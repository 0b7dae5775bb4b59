"""Builds the populations of a property, runs the monitors and collects what they saw."""
import concurrent.futures as cf
import os
from . import emit, engine


class Found:
    def __init__(self, decl, op, input, expected, observed, source, type_name, round_no, job, key=None):
        self.decl, self.op, self.input, self.expected, self.observed = decl, op, input, expected, observed
        self.source, self.type, self.round, self.job = source, type_name, round_no, job
        self.key = key or f"{op} | {source}"


def shards(groups, only=None):
    if only:
        groups = [g for g in groups if any(d.name == only for d in g)]
    n = min(engine.SHARDS, len(groups))
    out = [[] for _ in range(n)]
    weight = [0] * n
    for g in sorted(groups, key=lambda g: -sum(len(emit.decl_src(d)) for d in g)):
        i = weight.index(min(weight))
        for d in g:
            if d not in out[i]:
                out[i].append(d)
                weight[i] += len(emit.decl_src(d))
    # dependencies first
    return [engine.Shard(i, ds) for i, ds in enumerate(out)]


def closure(d):
    out = []
    for x in emit.refs(d):
        for y in closure(x) + [x]:
            if y not in out:
                out.append(y)
    return out


def source_of(d):
    return "\n".join(emit.decl_src(x) for x in closure(d) + [d])


helper = cf.ThreadPoolExecutor(1)


def run_jobs(prop, jobs, seed, round_no, total, found, only=None):
    for job in jobs:
        sh = shards(job.groups, only)
        if not sh:
            continue
        subjects = {g[-1] for g in job.groups} if not job.everything else {d for g in job.groups for d in g}
        ws = os.path.join(engine.WORK, f"ws-{prop}-{job.name}")
        # takes as long as the build does
        root = helper.submit(engine.sysroot, job.target) if job.target else None
        rejected = engine.build(ws, sh, job.glue, job.features, subjects, apart=job.apart)
        for d, text in rejected.items():
            found.append(Found(d, "compile", "", "the declaration is valid and compiles", text[:3000], source_of(d), d.name,
                               round_no, job.name))
        sh = [s for s in sh if any(d in subjects for d in s.decls)]
        if not sh:
            continue
        n = job.n if os.environ.get("VERIF_TIER", "quick") == "quick" else job.n * 3
        if job.target:
            root.result()
            res, bad = engine.foreign(ws, sh, job.target, seed * 1000003 + round_no, n, only=only)
            for d, text in bad:
                found.append(Found(d, f"compile and run for {job.target}", "", "the declaration is valid, and compiles as it does here", text,
                                   source_of(d), d.name, round_no, job.name))
        else:
            res = engine.run(ws, sh, job.monitor, seed * 1000003 + round_no, n)
        names = {d.name: d for s in sh for d in s.decls}
        for v in res["violations"]:
            d = names[v["type"]]
            found.append(Found(d, v["op"], v["input"], v["expected"], v["observed"], source_of(d), d.name, round_no, job.name))
        total.add(res, len(subjects), len(rejected))


class Total:
    def __init__(self):
        self.evaluations = self.distinct = self.types = self.fields = self.declarations = self.rejected = 0
        self.ops, self.samples, self.extra = {}, [], {}

    def add(self, res, declared, rejected=0):
        self.evaluations += res["evaluations"]
        self.distinct += res["distinct"]
        self.types += res["types"]
        self.fields += res["fields"]
        self.declarations += declared
        self.rejected += rejected
        for k, v in res["ops"].items():
            self.ops[k] = self.ops.get(k, 0) + v
        self.samples += res["samples"]
