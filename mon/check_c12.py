"""C12: concurrent compilation and decompilation give the sequential results."""
import os
from . import check_c05, check_c11, layout
from .check_c11 import a_job, difference, judge_set, relatives, safe_show, zygote
from .core import Skip, Violation

ID = 'C12'
RULE = ('sampled jobs (compilations and decompilations, failing ones among them) run alone in fresh processes; then several threads of one fresh '
        'process run them at the same time: under a scheduler that decides at every traced line or bytecode of chosen modules which thread goes '
        'on (random, bursts, few preemptions), with delays injected at such points, and freely with the shortest switch interval - with cold '
        'and with warm prediction caches. Every result must be that of the lone run. Non-trivial: a judged result of a thread that was '
        'interrupted; distinct by job and schedule.')
REQUIRE = {'lone_runs': 600, 'judged': 2000, 'scheduled_runs': 100, 'delayed_runs': 25, 'free_runs': 40, 'switches': 100000, 'seen:schedules': 100,
           'cold_runs': 60, 'warm_runs': 30, 'opcode_runs': 20, 'exps_ok': 100, 'dec_ok': 100, 'decs_ok': 20, 'ssbs_ok': 10, 'failing_jobs': 60,
           'import_jobs': 30, 'seen:where': 5}
CASE_LIMIT = 170
ASSUMPTIONS = ['switches happen at lines or bytecodes of Python code (C extensions hold the interpreter lock)']
WHERE = {'everything': ['explorerscript/', 'antlr4/'], 'graphs': ['graph_building/'], 'library': ['explorerscript/ssb_'], 'handlers': ['write_handlers/', 'compile_handlers/'],
         'compiler': ['ssb_converting/compiler/', 'ssb_compiler.py', 'compiler_visitor'], 'decompiler': ['decompiler/', 'ssb_decompiler.py'],
         'prediction': ['antlr4/atn/', 'antlr4/dfa/', 'antlr4/PredictionContext'], 'parser': ['antlr/', 'antlr4/Parser', 'antlr4/Lexer'],
         'maps and data': ['source_map.py', 'ssb_data_types.py', 'ssb_special_ops.py', 'macro.py', 'util.py'], 'scripts': ['ssb_script/'], 'readers': ['explorerscript_reader', 'syntax_error', 'ssb_converting/util']}


def plan(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [('sched', 130 * k), ('delay', 30 * k), ('free', 50 * k)]


def a_how(kind, rng, ctx):
    where = rng.choice(list(WHERE))
    how = {'seed': rng.randrange(1 << 30), 'mode': kind, 'files': WHERE[where], 'where': where}
    wide = where in ('everything', 'prediction', 'parser')
    if kind == 'sched':
        how['p'] = rng.choice([0.0003, 0.003, 0.01, 0.03] if wide else [0.003, 0.02, 0.1, 0.3])
        if rng.random() < 0.5:
            how['burst'] = rng.choice([3, 10, 40])
            how['p'] /= how['burst'] / 2
    elif kind == 'delay':
        how['p'] = rng.choice([0.0003, 0.002]) if wide else rng.choice([0.002, 0.01])
        how['longest'] = rng.choice([0, 0.0005, 0.004])
        how['interval'] = 1e-5
    else:
        how['interval'] = rng.choice([1e-6, 1e-6, 1e-5, 1e-4])
    if kind != 'free':
        how['opcodes'] = rng.random() < (0.15 if wide else 0.35)
        ctx.saw('where', where)
    return how


def imports(rng, root, ctx):
    ms, main = check_c05.program(rng, max_depth=2, max_body=3)
    d = os.path.join(root, f'p{rng.randrange(10 ** 9)}')
    os.makedirs(d)
    lay = layout.spread(rng, d, ms, main)
    lay.write()
    ctx.count('import_jobs')
    m = os.path.relpath(lay.main, root)
    return dict(op='exps', main=m, text=open(lay.main, encoding='utf8').read(), lookup=[os.path.relpath(x, root) for x in lay.lookup])


def run_case(kind, index, rng, ctx):
    flavour = rng.choice(['mixed', 'mixed', 'dec', 'dec', 'compile', 'ssbs'])
    pools = {'mixed': None, 'dec': ['dec', 'dec', 'dec', 'poison', 'decs'], 'compile': ['exps', 'exps', 'bad', 'marked', 'imports'], 'ssbs': ['decs', 'ssbs', 'marked', 'badssbs', 'poison']}[flavour]
    with layout.Scratch() as root:
        js = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            k = rng.choice(pools) if pools else rng.choice([None, None, None, 'imports'])
            js.append(imports(rng, root, ctx) if k == 'imports' else a_job(rng, k))
        if rng.random() < 0.6:
            relatives(js, rng)
        js = js[:8]
        z = zygote(0)
        base = []
        for j in js:
            r, _ = z.ask({'root': root, 'jobs': [j], 'seq': [(0, '', 0)]})
            judge_set(r[0], j, 'alone')
            base.append(r[0])
            ctx.count('lone_runs')
            ctx.count(f'{j["op"]}_{r[0][0]}')
            if r[0][0] == 'raised':
                ctx.count('failing_jobs')
        n = rng.choice([2, 2, 3, 4, 6]) if kind != 'free' else rng.choice([3, 6, 10])
        per = rng.choice([1, 1, 2, 3]) if kind != 'free' else rng.choice([2, 4, 8])
        for round_ in range(2):
            how = a_how(kind, rng, ctx)
            if rng.random() < 0.4:
                how['warm'] = rng.sample(range(len(js)), rng.randrange(1, len(js) + 1))
            threads = []
            for t in range(n):
                own = rng.random() < 0.2  # all calls of the thread are for one input
                i0 = rng.randrange(len(js))
                threads.append([(i0 if own else rng.randrange(len(js)), rng.choice(['', '', 'r', 'h', 'g'])) for _ in range(per)])
            got = zygote(rng.choice([0, 5])).ask({'root': root, 'jobs': js, 'threads': threads, 'how': how})
            judge(js, base, threads, got, how, kind, ctx)
    if index < 1:
        ctx.sample(safe_show(js[0])[:800])


def judge(js, base, threads, got, how, kind, ctx):
    info = got['info']
    shown = {'how': how, 'threads': threads, 'info': info, 'jobs': {i: safe_show(j)[:4000] for i, j in enumerate(js)}}
    if got['stuck']:
        raise Violation(f'{len(got["stuck"])} of {len(threads)} threads do not come to an end', dict(shown, stacks=got['stacks']))
    ctx.count({'sched': 'scheduled_runs', 'delay': 'delayed_runs', 'free': 'free_runs'}[kind])
    ctx.count('warm_runs' if how.get('warm') else 'cold_runs')
    for k in ('points', 'switches', 'sleeps', 'rescued'):
        ctx.count(k, info[k])
    if how.get('opcodes'):
        ctx.count('opcode_runs')
    if info['switches']:
        ctx.saw('schedules', info['trail'])
    for t, (seq, res) in enumerate(zip(threads, got['results'])):
        for n, ((i, mode), r) in enumerate(zip(seq, res)):
            if r != base[i]:
                raise Violation(f'{js[i]["op"]} gives another result while others run than alone: {difference(base[i], r)}',
                                dict(shown, thread=t, job=i, alone=repr(base[i])[:6000], now=repr(r)[:6000]))
            ctx.count('judged')
            if info['switches'] or info['sleeps'] or kind == 'free':
                ctx.nontrivial(repr((base[i], how['seed'], t, n)))
        if len(res) != len(seq):
            raise Violation(f'a thread ends after {len(res)} of {len(seq)} calls', shown)
        if got['held'][t]:
            raise Violation('a result changes after it has been returned', dict(shown, then=got['held'][t][0][0], now=got['held'][t][0][1]))


assert check_c11 and Skip
