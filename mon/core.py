"""Driver: spreads deterministic cases over worker processes, collects what the monitors observed, writes the evidence."""
from __future__ import annotations
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """what a monitor reports: the property does not hold for this execution"""

    def __init__(self, msg, payload=None, key=None):
        super().__init__(msg)
        self.msg, self.payload, self.key = msg, payload or {}, key


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the case lies outside the property's domain"""


def h64(x):
    return int.from_bytes(hashlib.blake2b(x.encode('utf8', 'surrogatepass') if isinstance(x, str) else x,
                                          digest_size=8).digest(), 'big')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats = Counter()
        self.distinct = set()
        self.seen = {}
        self.samples = []
        self.violations = []
        self.errors = []

    def count(self, k, n=1):
        self.stats[k] += n

    def nontrivial(self, x):
        self.distinct.add(h64(x if isinstance(x, (str, bytes)) else repr(x)))

    def saw(self, group, x):
        """remember a distinct value of an observed kind (opcodes, forms, interleavings ...)"""
        self.seen.setdefault(group, set()).add(x if isinstance(x, str) and len(x) < 40 else h64(repr(x)))

    def finding(self, key, msg, payload):
        """a violation of a kind that is listed as a known finding, the case goes on"""
        self.count(f'known {key}')
        if all(v['key'] != key for v in self.violations):
            kind, index = self.case
            self.violations.append(dict(kind=kind, index=index, seed=self.seed, tier=self.tier, msg=msg, key=key, payload=payload))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)


def rng_for(prop, kind, seed, index):
    return random.Random(f'{prop}/{kind}/{seed}/{index}')


def _alarm(*_):
    raise CaseTimeout()


def run_one(mod, ctx, kind, index, limit):
    rng = rng_for(mod.ID, kind, ctx.seed, index)
    ctx.case = kind, index
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        ctx.count('evaluations')
        ctx.count(f'cases_{kind}')
        mod.run_case(kind, index, rng, ctx)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.violations.append(dict(kind=kind, index=index, seed=ctx.seed, tier=ctx.tier, msg=v.msg, key=v.key,
                                   payload=v.payload))
    except Skip as e:
        ctx.count(f'skipped: {e}')
    except CaseTimeout:
        if getattr(mod, 'TIMEOUT_IS_VIOLATION', False):
            ctx.violations.append(dict(kind=kind, index=index, seed=ctx.seed, tier=ctx.tier, key='timeout', payload={},
                                       msg=f'no answer within {limit} s'))
        else:
            ctx.count('timeouts')
            if len(ctx.errors) < 3:
                ctx.errors.append(f'timeout in {kind}/{index}')
    except Exception:
        ctx.count('harness_errors')
        if len(ctx.errors) < 5:
            ctx.errors.append(f'{kind}/{index}: ' + traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(args):
    modname, tier, seed, chunk, limit, deadline = args
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    # the generated parsers of the code under test report syntax errors on stderr
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.ID, tier, seed)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    for kind, index in chunk:
        if time.time() > deadline or sum(v['key'] is None for v in ctx.violations) >= 5:
            ctx.count('not_run')
            continue
        run_one(mod, ctx, kind, index, limit)
    return ctx.stats, ctx.distinct, ctx.seen, ctx.samples, ctx.violations, ctx.errors


def load_findings(prop):
    out = []
    try:
        for line in open(FINDINGS, encoding='utf8'):
            if line.startswith('finding: '):
                f = line[len('finding: '):].strip().split(' ', 2)
                if f[0] == f'property={prop}' and f[1].startswith('key='):
                    out.append((f[1][4:], f[2]))
    except FileNotFoundError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 1
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    t0 = time.time()
    modname = f'mon.check_{prop.lower()}'
    mod = importlib.import_module(modname)
    limit = getattr(mod, 'CASE_LIMIT', 60)
    if replay:
        d = json.load(open(replay))
        ctx = Ctx(prop, d['tier'], d['seed'])
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        run_one(mod, ctx, d['kind'], d['index'], limit)
        for v in ctx.violations:
            print(v['msg'])
            for k, x in v['payload'].items():
                print(f'--- {k}:\n{x}')
        for e in ctx.errors:
            print(e)
        if ctx.violations:
            print(f'VIOLATION property={prop} replay={replay}')
        return 1 if ctx.violations else 0

    plan = mod.plan(tier, seed)
    units = [(k, i) for k, n in plan for i in range(n)]
    # deterministic shuffle, so that every worker sees every kind of case and histories are mixed
    random.Random(f'{prop}{seed}').shuffle(units)
    nchunks = max(1, min(len(units), procs * getattr(mod, 'CHUNKS_PER_PROC', 4)))
    chunks = [units[i::nchunks] for i in range(nchunks)]
    deadline = t0 + (getattr(mod, 'BUDGET', {}).get(tier) or (600 if tier == 'quick' else 800))
    args = [(modname, tier, seed, c, limit, deadline) for c in chunks if c]
    stats, distinct, seen, samples, violations, errors = Counter(), set(), {}, [], [], []
    crashed = 0
    if procs == 1:
        results = map(worker, args)
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        ex = ProcessPoolExecutor(procs, mp_context=mp.get_context('fork'))
        futs = [ex.submit(worker, a) for a in args]

        def gen():
            nonlocal crashed
            for f in as_completed(futs):
                try:
                    yield f.result()
                except Exception as e:  # a worker died
                    crashed += 1
                    errors.append(f'worker died: {e!r}')
        results = gen()
    for st, di, se, sa, vi, er in results:
        stats.update(st)
        distinct |= di
        for k, s in se.items():
            seen.setdefault(k, set()).update(s)
        samples += sa
        violations += vi
        errors += er
    if hasattr(mod, 'finish'):
        # parent-side cases (e.g. concurrency or subprocess schedules) run after the workers
        ctx = Ctx(prop, tier, seed)
        mod.finish(ctx)
        stats.update(ctx.stats)
        distinct |= ctx.distinct
        violations += ctx.violations
        errors += ctx.errors
    if procs > 1:
        ex.shutdown(wait=True)
    findings = load_findings(prop)
    hit = Counter()
    fresh = []
    for v in sorted(violations, key=lambda v: (v['kind'], v['index'])):
        for key, what in findings:
            if v['key'] is not None and v['key'] == key:
                hit[key] += 1
                break
        else:
            fresh.append(v)
    rc = 0
    for key, what in findings:
        if hit[key]:
            print(f'KNOWN-FINDING: property={prop} {what}')
    if fresh:
        rc = 1
        rd = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rd, exist_ok=True)
        fresh.sort(key=lambda v: len(json.dumps(v['payload'], default=str)))
        for v in fresh[:3]:
            h = h64(json.dumps([v['kind'], v['index'], v['seed'], v['msg']], default=str))
            path = os.path.join(rd, f'{prop}-{h:016x}.json')
            json.dump(dict(v, property=prop), open(path, 'w'), indent=1, default=str)
            print(f'VIOLATION property={prop} replay={path}')
            print('  ' + v['msg'][:600].replace('\n', '\n  '))
            for k, x in list(v['payload'].items())[:3]:
                x = x if isinstance(x, str) else json.dumps(x, default=str)
                print(f'  --- {k}:\n  ' + x[:900].replace('\n', '\n  '))
    short = []
    for k, n in getattr(mod, 'REQUIRE', {}).items():
        got = len(seen.get(k[5:], ())) if k.startswith('seen:') else stats[k]
        if got < n:
            short.append(f'{k}={got}<{n}')
    if rc == 0 and (short or crashed or stats['harness_errors'] or stats['timeouts'] > 3):
        rc = 3
        print(f'INCONCLUSIVE property={prop}: unreached={short} crashed={crashed} '
              f'harness_errors={stats["harness_errors"]} timeouts={stats["timeouts"]}')
        for e in errors[:5]:
            print(e)
    wall = time.time() - t0
    ev = stats.pop('evaluations', 0)
    cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=mod.RULE,
               samples=samples[:4] or ['(none)'],
               observed={k: v for k, v in sorted(stats.items())},
               observed_distinct={k: len(s) for k, s in sorted(seen.items())})
    names = {k: sorted(x for x in s if isinstance(x, str))[:80] for k, s in seen.items()}
    names = {k: v for k, v in names.items() if v}
    if names:
        cov['observed_names'] = names
    level = getattr(mod, 'LEVEL', 'exploration')
    doc = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
               assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fresh))
    if errors:
        doc['coverage']['notes'] = errors[:3]
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f'.{prop}.tmp')
    with open(tmp, 'w') as fh:
        json.dump(doc, fh, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f'{prop}.json'))
    print(f'{prop} {tier} seed={seed}: {ev} cases, {len(distinct)} distinct, {len(fresh)} violations, '
          f'{sum(hit.values())} known, rc={rc}, {wall:.1f}s')
    return rc
