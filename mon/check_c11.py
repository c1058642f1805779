"""C11: results depend only on the input, not on what was processed before."""
import json
import os
import pickle
from . import check_c05, check_c10, check_c15, check_c17, deco, env, gen_ssb as gs, hand, layout, progs
from .core import Skip, Violation
from .zygote import Zygote

ID = 'C11'
RULE = ('every job (a compilation or decompilation of a sampled input) runs alone in a process that has run nothing before; then the same jobs '
        'run in sampled sequences, with repetitions, compiler and decompiler objects used again, routine sets given more than once, inputs that '
        'fail, calls that run out of stack midway, rewritten files, other hash seeds and garbage collection settings. Every result (ops, text, '
        'source map, tables, error) must be the one of the lone run, routine sets and held results must stay as they were. Non-trivial: a '
        'judged result of a job in a sequence after at least one other job; distinct by job and its predecessor.')
REQUIRE = {'lone_runs': 1500, 'judged': 5000, 'judged_after_failure': 1000, 'judged_after_overflow': 400, 'compiler_reused': 1000, 'set_given_again': 500,
           'decompiler_reused': 150, 'files_rewritten': 100, 'files_elsewhere': 8, 'fresh_processes': 30, 'held_results': 1000, 'seen:job_pairs': 40, 'failing_jobs': 200,
           'fallbacks': 50, 'exps_ok': 300, 'dec_ok': 300, 'decs_ok': 80, 'ssbs_ok': 30, 'compdec_ok': 15, 'cli_ok': 25, 'again': 12000, 'seen:again_text': 2000}
CASE_LIMIT = 120
ASSUMPTIONS = ['a process forked from one that has only imported the packages counts as fresh; a share runs in processes started for it alone',
               'the messages of errors are not compared (the expected tokens ANTLR lists depend on what its prediction caches hold)']
_Z = {}


def plan(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [('mixed', 70 * k), ('reuse', 40 * k), ('files', 36 * k), ('dec', 60 * k), ('fresh', 24 * k), ('again', 4500 * k)]


def zygote(seed):
    k = (os.getpid(), seed)
    if k not in _Z:
        _Z[k] = Zygote(seed)
    return _Z[k]


# ------------------------------------------------------------------ jobs
def text(rng):
    k = rng.random()
    if k < 0.2:
        return progs.with_macros(rng)
    if k < 0.3:
        return rng.choice(hand.PROGRAMS)
    if k < 0.4:
        return rng.choice(check_c15.SPECIAL)
    prof = rng.choice(list(progs.PROFILES))
    return progs.make(rng, prof, rng.choice([None, 'pretty']), rich=rng.random() < 0.4)[1]


def bad_text(rng):
    k = rng.random()
    if k < 0.5:
        return check_c15.bad_program(rng)[1]
    if k < 0.8:
        return check_c10.join(check_c10.corrupt(check_c10.tokens_of(text(rng)), rng), rng)
    return rng.choice(['def 0 { ~nothing(); }', 'import "./nothing.exps"; def 0 { a(); }', 'import "nothing.exps"; def 0 { a(); }', '//?: is-ssb-script: true\ndef 0 { a(', '"', 'macro a() { ~a(); }',
                       'def 0 { a(); } def 0 { b(); }', 'def 1 { a(); } def 0 { b(); }', 'def 0 { ' + 'if (debug) { ' * 400, 'macro m() { jump @q; }'])


def the_set(rng, kinds=('comp', 'perm', 'rand', 'cross', 'irr', 'small')):
    for _ in range(20):
        try:
            return deco.make_set(rng.choice(kinds), rng)
        except Skip:
            pass
    raise Skip('no set')


def spoil(s, rng):
    """sets the decompiler can not do much with"""
    infos, rows, coros = s
    k = rng.randrange(6)
    row = rng.choice(rows)
    if not row:
        return s
    o = rng.choice(row)
    if k == 0:
        row.remove(o)
    elif k == 1:
        row.insert(0, env.SsbOperation(999999, env.SsbOpCode(1, 'Jump'), [9999999]))
    elif k == 2:
        o.params = []
    elif k == 3:
        coros = []
        infos = [env.SsbRoutineInfo(env.SsbRoutineType.COROUTINE, 0) for _ in infos]
    elif k == 4:
        o.params = o.params + [None]
    else:
        row.append(env.SsbOperation(row[-1].offset, env.SsbOpCode(1, 'Case'), ['x']))
    return infos, rows, coros


def a_job(rng, kind=None):
    kind = kind or rng.choice(['exps', 'exps', 'exps', 'bad', 'bad', 'dec', 'dec', 'dec', 'dec', 'poison', 'spoiled', 'decs', 'ssbs', 'marked', 'badssbs', 'compdec', 'cli'])
    if kind == 'exps':
        return {'op': 'exps', 'text': text(rng), 'name': rng.choice(['main.exps', '/tmp/a/b.exps'])}
    if kind == 'bad':
        return {'op': 'exps', 'text': bad_text(rng)}
    if kind in ('dec', 'decs'):
        return {'op': kind, 'set': pickle.dumps(the_set(rng))}
    if kind == 'poison':
        return {'op': 'dec', 'set': pickle.dumps(the_set(rng, ('poison',)))}
    if kind == 'spoiled':
        return {'op': rng.choice(['dec', 'dec', 'decs']), 'set': pickle.dumps(spoil(the_set(rng), rng))}
    if kind in ('ssbs', 'marked', 'badssbs'):
        t = env.decompile_ssbs(*the_set(rng))[0]
        if kind == 'badssbs':
            t = check_c17.damage(t, rng) if rng.random() < 0.5 else t.replace(';', '', 1)
        return {'op': 'ssbs', 'text': t} if kind != 'marked' and rng.random() < 0.6 else {'op': 'exps', 'text': '//?: is-ssb-script: true\n' + t}
    if kind == 'compdec':
        return {'op': 'compdec', 'text': deco.program(rng)}
    infos, ops, coros = the_set(rng)
    return {'op': 'cli', 'doc': json.dumps(check_c15.write_doc(infos, ops, coros, {}, rng, NoCtx))}


class NoCtx:
    @staticmethod
    def saw(*a):
        pass


def show(job):
    if 'set' in job:
        return f'{job["op"]} ' + deco.show_set(*pickle.loads(job['set'])) if job['op'] != 'spoiled' else ''
    return json.dumps({k: v for k, v in job.items()}, indent=1)


def safe_show(job):
    try:
        return show(job)
    except Exception as e:
        return f'{job["op"]}: {type(e).__name__}'


# ------------------------------------------------------------------ sequences
def sequence(n, rng, files=False):
    """[(index, mode, limit)]"""
    out = []
    for _ in range(rng.choice([n, 2 * n, 3 * n])):
        i = rng.randrange(n)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            mode = ''.join(c for c, p in (('r', 0.6), ('s', 0.5), ('h', 0.3), ('g', 0.05)) if rng.random() < p)
            out.append((i, mode, rng.choice([20, 40, 60, 90, 130, 180, 250, 400]) if rng.random() < 0.12 else 0))
    for i in rng.sample(range(n), n):
        out.append((i, rng.choice(['', 'r', 'rs', 's', 'rsh']), 0))
    return out


def run_jobs(js, rng, ctx, root, nseq):
    """lone runs, sequences, judgement"""
    base = []
    z = zygote(0)
    for i in range(len(js)):
        r, held = z.ask({'root': root, 'jobs': [js[i]], 'seq': [(0, '', 0)]})
        judge_set(r[0], js[i], 'alone')
        ctx.count(f'{js[i]["op"]}_{r[0][0]}')
        base.append(r[0])
        ctx.count('lone_runs')
        if r[0][0] == 'raised':
            ctx.count('failing_jobs')
            ctx.saw('errors', r[0][1])
        elif js[i]['op'] == 'dec' and env.is_fallback(r[0][1][0]):
            ctx.count('fallbacks')
    for k in range(nseq):
        seq = sequence(len(js), rng)
        gc = rng.choice(['', '', 'off', 'often'])
        hs = rng.choice([0, 1, 77])
        res, bad = zygote(hs).ask({'root': root, 'jobs': js, 'seq': seq, 'gc': gc})
        judge(js, base, seq, res, bad, ctx, f'hash seed {hs}, gc {gc or "default"}')
    return base


def judge_set(r, job, where):
    if r[0] == 'ok' and isinstance(r[1], tuple) and len(r[1]) > 2 and isinstance(r[1][2], str) and r[1][2].startswith('the set changed'):
        raise Violation('decompiling changes the routine set it is given', {'job': safe_show(job), 'before': r[1][3], 'after': r[1][4], 'where': where})
    if r[0] == 'ok' and isinstance(r[1], tuple) and r[1][-1] == 'the ops changed':
        raise Violation('decompiling changes the ops it is given', {'job': safe_show(job)})


def judge(js, base, seq, res, bad, ctx, how):
    prev = None
    reused, sets, decs = set(), set(), set()
    overflow = failed = False
    for n, ((i, mode, limit), r) in enumerate(zip(seq, res)):
        j = js[i]
        if limit:
            overflow = True
            prev = i
            continue
        if r != base[i]:
            what = difference(base[i], r)
            raise Violation(f'{j["op"]} gives another result after other calls than alone: {what}', {
                'job': safe_show(j), 'history': [f'{js[a]["op"]} #{a} mode={m} limit={lim}' for a, m, lim in seq[:n + 1]][-30:], 'how': how,
                'alone': repr(base[i])[:6000], 'now': repr(r)[:6000], 'jobs': {a: safe_show(js[a])[:3000] for a, _, _ in seq[max(0, n - 3):n]}})
        ctx.count('judged')
        if prev is not None:
            ctx.nontrivial(repr((js[i], js[prev])))
            ctx.saw('job_pairs', (js[prev]['op'], base[prev][0], j['op'], base[i][0]))
        ctx.count('judged_after_failure', int(failed))
        ctx.count('judged_after_overflow', int(overflow))
        if 'r' in mode and j['op'] in ('exps', 'ssbs'):
            k = (j['op'], tuple(j.get('lookup') or ()))
            ctx.count('compiler_reused', int(k in reused))
            reused.add(k)
        if 's' in mode and 'set' in j:
            ctx.count('set_given_again', int(j['set'] in sets))
            sets.add(j['set'])
            if 'r' in mode:
                ctx.count('decompiler_reused', int((j['op'], j['set']) in decs))
                decs.add((j['op'], j['set']))
        if 'h' in mode:
            ctx.count('held_results')
        failed = r[0] == 'raised'
        prev = i
    if bad:
        raise Violation('a later call changes a result returned earlier', {'then': bad[0][0], 'now': bad[0][1], 'history': [js[a]['op'] for a, _, _ in seq], 'how': how})


def difference(a, b):
    if a[0] != b[0]:
        return f'{a[0] if a[0] == "ok" else a[1]} alone, {b[0] if b[0] == "ok" else b[1]} now'
    if a[0] == 'raised':
        return f'{a[1:]} alone, {b[1:]} now'
    if isinstance(a[1], dict):
        return ', '.join(k for k in a[1] if a[1][k] != b[1].get(k))
    if len(a[1]) != len(b[1]):
        return 'the set changed'
    return ', '.join(n for n, x, y in zip(['text', 'map', ''], a[1], b[1]) if x != y)


# ------------------------------------------------------------------ cases
def run_case(kind, index, rng, ctx):
    if kind == 'files':
        return files_case(rng, ctx)
    if kind == 'again':
        return again_case(index, rng, ctx)
    if kind == 'mixed':
        js = [a_job(rng) for _ in range(rng.choice([4, 7, 10]))]
        if rng.random() < 0.5:
            relatives(js, rng)
    elif kind == 'reuse':
        js = [a_job(rng, rng.choice(['exps', 'exps', 'bad', 'marked', 'ssbs', 'badssbs'])) for _ in range(rng.choice([3, 6, 9]))]
        relatives(js, rng)
    elif kind == 'dec':
        js = [a_job(rng, rng.choice(['dec', 'dec', 'dec', 'poison', 'spoiled', 'decs', 'cli'])) for _ in range(rng.choice([3, 6, 10]))]
        relatives(js, rng)
    else:
        return fresh_case(rng, ctx)
    with layout.Scratch() as root:
        run_jobs(js, rng, ctx, root, 3)
    if index < 2:
        ctx.sample(safe_show(js[0])[:800])


NOISE = []


def again_case(index, rng, ctx):
    """one set decompiled again and again, while the places in memory its objects get differ"""
    kinds = ('loops',) if index % 10 < 7 else ('comp', 'perm', 'rand', 'cross', 'irr', 'small')
    for _ in range(20):
        try:
            infos, ops, coros = deco.make_set(rng.choice(kinds), rng)
            break
        except Skip:
            pass
    else:
        raise Skip('no set')
    first = None
    for n in range(6 if kinds == ('loops',) else 4):
        t, m = env.decompile(infos, ops, coros)
        r = (t, m.serialize())
        if first is None:
            first = r
        elif r != first:
            raise Violation('decompiling the same set again gives another ' + ('text' if t != first[0] else 'source map'), {
                'set': deco.show_set(infos, ops, coros), 'first': first[0], 'again': t, 'times': n,
                'maps': 'the same' if r[1] == first[1] else [first[1][:3000], r[1][:3000]]})
        else:
            ctx.count('again')
        NOISE.append([object() for _ in range(rng.randrange(1, 500))])
        if len(NOISE) > 50:
            NOISE.pop(rng.randrange(len(NOISE)))
    ctx.saw('again_text', first[0])
    ctx.nontrivial(first[0])


def relatives(js, rng):
    """inputs that have much in common with another one: the same set for the other decompiler, texts that share names"""
    for j in list(js):
        if rng.random() < 0.5:
            continue
        if j['op'] in ('dec', 'decs'):
            k = rng.random()
            if k < 0.4:
                js.append(dict(j, op='decs' if j['op'] == 'dec' else 'dec'))
            else:
                try:
                    infos, rows, coros = pickle.loads(j['set'])
                    us = check_c15.shadow(rows)
                    if us is None:
                        continue
                    r = rng.random()
                    if r < 0.5:
                        for row in us:
                            for o in row:
                                if rng.random() < 0.3 and o.name not in ('Jump', 'Call'):
                                    o.params = [p + 1 if type(p) is int and p < 100 else p for p in o.params]
                    else:
                        us = gs.permute(us, rng)
                    js.append(dict(j, set=pickle.dumps(gs.finish(us, rng, infos, coros))))
                except Exception:
                    continue
        elif j['op'] == 'exps':
            t = j['text']
            k = rng.random()
            if k < 0.3:
                js.append(dict(j, text=t + '\n' + rng.choice(['macro extra() { a(); }', 'def 9 { b(); }', '// x'])))
            elif k < 0.5:
                js.append(dict(j, perf='OTHER_NAME'))
            elif k < 0.8 and 'macro ' in t:
                a = t.index('macro ')
                js.append(dict(j, text=t[:a] + t[a:].replace('macro ', 'macro x', 1)))
                js.append(dict(j, text=t.replace('macro ', 'macro q() { zz(7); return; } macro ', 1)))
            else:
                js.append(dict(j, text=t.replace('debug', 'edit').replace('1', '2')))


def files_case(rng, ctx):
    """programs over several files; the files of one directory are written anew for each job"""
    with layout.Scratch() as root:
        js = []
        for v in range(rng.choice([2, 3])):
            ms, main = check_c05.program(rng, max_depth=2, max_body=3)
            lay = layout.spread(rng, root, ms, main)
            lay.write()
            js.append(take(lay, root))
            if rng.random() < 0.4:
                fs = js[-1]['files']
                if len(fs) > 1:
                    x = rng.choice([f for f in fs if f != js[-1]['main']])
                    k = rng.random()
                    if k < 0.4:
                        js.append(dict(js[-1], files={f: t for f, t in fs.items() if f != x}, missing=[x]))
                    elif k < 0.7:
                        js.append(dict(js[-1], files=dict(fs, **{x: fs[x] + '\n$$$ broken'})))
                    else:
                        js.append(dict(js[-1], files=dict(fs, **{x: fs[x].replace('1', '2').replace('debug', 'edit')})))
            elsewhere(js, rng, ctx)
        # the same paths with other contents
        a, b = js[0], dict(js[0])
        b['files'] = {f: t.replace('(', '(', 1).replace('7', '8').replace('A', 'B') for f, t in a['files'].items()}
        b['text'] = b['files'][b['main']]
        js.append(b)
        cyc = {'lib/x1.exps': 'import "./x2.exps";\nmacro x1() { ~x2(); }', 'lib/x2.exps': 'import "./x1.exps";\nmacro x2() { a(); }'}
        js.append(dict(op='exps', files=dict(cyc, **{'m.exps': 'import "./lib/x1.exps";\ndef 0 { ~x1(); }'}), main='m.exps', text='import "./lib/x1.exps";\ndef 0 { ~x1(); }', lookup=js[0]['lookup']))
        fine = {'lib/x1.exps': 'import "./x2.exps";\nmacro x1() { ~x2(); b(); }', 'lib/x2.exps': 'macro x2() { a(); }'}
        js.append(dict(js[-1], files=dict(fine, **{'m.exps': js[-1]['text']})))
        everything = {f for j in js for f in j['files']}
        for j in js:
            j['missing'] = sorted(everything - set(j['files']))
        n = len(js)
        js.append(a_job(rng, 'bad'))
        for j in js[n:]:
            j['lookup'] = js[0]['lookup']
        ctx.count('files_rewritten', n)
        run_jobs(js, rng, ctx, root, 4)


def elsewhere(js, rng, ctx):
    """the last job with a file of a lookup path in another one, or with another file of its name in another one"""
    j = js[-1]
    fs, lookup = j['files'], j['lookup']
    spots = [(f, d) for f in fs for d in lookup if f != j['main'] and f.startswith(d + '/')]
    for f, d in rng.sample(spots, min(2, len(spots))):
        others = [e for e in lookup if e != d and not e.startswith(d + '/') and not d.startswith(e + '/')]
        if not others:
            continue
        g = rng.choice(others) + f[len(d):]
        if g in fs:
            continue
        k = rng.random()
        if k < 0.4:
            js.append(dict(j, files=dict({a: t for a, t in fs.items() if a != f}, **{g: fs[f]})))
        elif k < 0.8:
            js.append(dict(j, files=dict(fs, **{g: fs[f].replace('1', '2').replace('debug', 'edit').replace('a(', 'b(')})))
        else:
            js.append(dict(j, files={a: t for a, t in fs.items() if a != f}))
        ctx.count('files_elsewhere')
        if rng.random() < 0.3:
            js.append(dict(j, lookup=lookup[::-1]))


def take(lay, root):
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding='utf8', newline='') as h:
                files[os.path.relpath(p, root)] = h.read()
    for f in files:
        os.remove(os.path.join(root, f))
    main = os.path.relpath(lay.main, root)
    return dict(op='exps', files=files, main=main, text=files[main], lookup=[os.path.relpath(d, root) for d in lay.lookup])


def fresh_case(rng, ctx):
    """processes started for one sequence, each with a hash seed of its own"""
    js = [a_job(rng) for _ in range(6)]
    with layout.Scratch() as root:
        base = run_jobs(js, rng, ctx, root, 0)
        for _ in range(2):
            hs = rng.randrange(1, 4000)
            z = Zygote(hs)
            try:
                seq = sequence(len(js), rng) if rng.random() < 0.5 else [(i, '', 0) for i in rng.sample(range(len(js)), len(js))]
                res, bad = z.ask({'root': root, 'jobs': js, 'seq': seq})
            finally:
                z.close()
            ctx.count('fresh_processes')
            judge(js, base, seq, res, bad, ctx, f'hash seed {hs}')
