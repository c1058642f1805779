"""C15: the compile command prints what the decompile command and the documentation expect."""
import contextlib
import io
import json
import os
import runpy
import subprocess
import sys
from . import check_c05, check_c07, check_c10, check_c17, deco, env, gen_ssb as gs, hand, lang, layout, progs, sem, semcheck, ssb
from .core import Skip, Violation
from .check_c02 import run as run_machines

ID = 'C15'
RULE = ('the compile command runs on sampled programs (one file, spread over imports and lookup paths, SsbScript); its JSON is checked '
        'against the documented structure, against the ops of the compiler with targets counted independently, and run against a '
        'reference reading of the source; the decompile command has to accept it and its text has to run like the source. The '
        'decompile command also gets documents written from routine sets following the documentation. Faulty inputs of both commands '
        'have to end with another status than 0. Non-trivial: a document with at least four ops; distinct by document.')
REQUIRE = {'documents_checked': 1500, 'jumps_checked': 4000, 'with_gaps': 300, 'source_compared': 1200, 'roundtrips_compared': 1200,
           'sets_decompiled': 1500, 'sets_compared': 1500, 'coroutine_documents': 200, 'mixed_documents': 150, 'failures': 600,
           'subprocesses': 150, 'seen:param_types': 6, 'seen:target_forms': 4, 'seen:faults': 60, 'seen:routine_types': 5,
           'lookup_runs': 60, 'ssbs_programs': 60, 'unwritable_output': 4}
CASE_LIMIT = 90
ASSUMPTIONS = ['most runs execute the command module in this process (runpy, as python -m does) with its own argv and streams; a share runs as a '
               'process of its own', 'programs with gaps in their routine ids have no place in the JSON (ids are list indices)',
               'a decimal coordinate stands for the half tile the language means with the same digits']
COMPILE, DECOMPILE = 'explorerscript.cli.compile', 'explorerscript.cli.decompile'


def plan(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [('prog', 3300 * k), ('hand', len(hand.PROGRAMS)), ('lookup', 120 * k), ('ssbs', 250 * k), ('doc', 3300 * k), ('fault', 800 * k), ('sub', 130 * k),
            ('subfault', 60 * k)]


# ------------------------------------------------------------------ running the commands
def in_process(module, argv, cwd):
    """what `python -m module argv` does: status, stdout, stderr"""
    out, err = io.StringIO(), io.StringIO()
    old, old_cwd, old_in, limit = sys.argv, os.getcwd(), sys.stdin, sys.getrecursionlimit()
    sys.argv, sys.stdin = [module] + argv, io.StringIO()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_module(module, run_name='__main__', alter_sys=True)
                rc = 0
            except SystemExit as e:
                rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                if rc == 1 and e.code != 1:
                    print(e.code, file=sys.stderr)
            except Exception as e:
                print(f'{type(e).__name__}: {e}', file=sys.stderr)
                rc = 1
    finally:
        os.chdir(old_cwd)
        sys.argv, sys.stdin = old, old_in
        sys.setrecursionlimit(limit)
    return rc, out.getvalue(), err.getvalue()


def process(module, argv, cwd, stdout=subprocess.PIPE, **more):
    q = subprocess.run([sys.executable, '-m', module] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, timeout=80,
                       env=dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE='1', **more))
    return q.returncode, (q.stdout or b'').decode('utf8'), q.stderr.decode('utf8', 'replace')


class Box:
    """a scratch directory with settings, and the way the commands are run in it"""

    def __init__(self, root, rng, ctx, sub=False):
        self.root, self.rng, self.ctx, self.sub = root, rng, ctx, sub
        self.perf, self.dmc = env.PERF, list(env.DMC)
        if rng.random() < 0.3:
            self.perf = rng.choice(['PPL', '$PROGRESS', 'PERF_LIST'])
            self.dmc = rng.sample(['DM_A', 'DM_B', 'DM_C', 'DM_D', 'D_OPEN', 'D_CLOSED'], 4)
        self.settings = {'performance_progress_list_var_name': self.perf, 'dungeon_mode_constants': dict(
            zip(['closed', 'open', 'request', 'open_request'], self.dmc))}
        if rng.random() < 0.5:
            self.settings['dungeon_mode_constants'] = dict(rng.sample(list(self.settings['dungeon_mode_constants'].items()), 4))
        more = {'settings': self.settings}
        if rng.random() < 0.2:
            more['routines'] = []
        self.write('settings.json', json.dumps(more))
        self.n = 0

    def write(self, name, text):
        with open(os.path.join(self.root, name), 'w', encoding='utf8', newline='') as f:
            f.write(text)
        return name

    def run(self, module, argv):
        if self.sub:
            self.ctx.count('subprocesses')
            more = {}
            if self.rng.random() < 0.3:
                more['PYTHONHASHSEED'] = str(self.rng.randrange(1000))
            if self.rng.random() < 0.2:
                more['LC_ALL'] = 'C'
            return process(module, argv, self.root, **more)
        return in_process(module, argv, self.root)

    def compile(self, main, lookup=()):
        argv = [self.path(main)]
        opts = [['--settings', self.path('settings.json')]]
        look = [self.path(d) if self.rng.random() < 0.6 else os.path.abspath(os.path.join(self.root, d)) for d in lookup]
        if look and self.rng.random() < 0.3:
            opts.append(['--lookup'] + look)
        elif look:
            opts += [['--lookup', d] for d in look]
        if self.rng.random() < 0.25:
            opts.append(['--source-map', 'out.sm'])
        if len(opts) > 1 and (len(look) < 2 or len(opts[1]) > 2):
            self.rng.shuffle(opts)
        flat = sum(opts, [])
        self.argv = argv + flat
        self.map = 'out.sm' if '--source-map' in flat else None
        self.drop_map('out.sm')
        return self.run(COMPILE, self.argv)

    def decompile(self, text):
        self.write('doc.json', text)
        argv = [self.path('doc.json')]
        if self.rng.random() < 0.25:
            argv += ['--source-map', 'doc.sm']
        self.map = 'doc.sm' if '--source-map' in argv else None
        self.drop_map('doc.sm')
        if self.rng.random() < 0.3:
            argv = argv[1:] + argv[:1]
        return self.run(DECOMPILE, argv)

    def drop_map(self, name):
        p = os.path.join(self.root, name)
        if os.path.exists(p):
            os.remove(p)

    def read_map(self, fail):
        """the source map that the last command was asked for"""
        self.ctx.count('source_map_files')
        try:
            with open(os.path.join(self.root, self.map), encoding='utf8') as f:
                return env.SourceMap.deserialize(f.read())
        except Exception as e:
            fail(f'the command ends with status 0, but the source map it was asked for can not be read: {type(e).__name__}: {e}')

    def path(self, name):
        return name if self.rng.random() < 0.5 else os.path.join(self.root, name)

    def swap(self, text, back=False):
        """a text with the standard constants in terms of these settings, or the other way round"""
        for a, b in zip([env.PERF] + list(env.DMC), [self.perf] + self.dmc):
            if a != b:
                text = text.replace(b, a) if back else text.replace(a, b)
        return text

    def swap_doc(self, doc):
        return json.loads(self.swap(json.dumps(doc), True))


# ------------------------------------------------------------------ the documented structure
def expect(cond, fail, what):
    if not cond:
        fail('the printed JSON is not as documented: ' + what)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def check_doc(doc, settings, fail, ctx):
    expect(isinstance(doc, dict) and set(doc) == {'settings', 'routines'}, fail, f'top level {doc if not isinstance(doc, dict) else sorted(doc)}')
    if doc['settings'] != settings:
        fail(f'the printed settings are {doc["settings"]}, given {settings}')
    expect(isinstance(doc['routines'], list), fail, 'routines')
    for i, r in enumerate(doc['routines']):
        expect(isinstance(r, dict) and r.get('type') in KEYS, fail, f'type of routine {i}: {r}')
        expect(set(r) == {'type', 'ops'} | KEYS[r['type']], fail, f'routine {i} is {r["type"]} with the fields {sorted(r)}')
        ctx.saw('routine_types', r['type'])
        if r['type'] == 'COROUTINE':
            expect(isinstance(r['name'], str), fail, f'name of routine {i}: {r["name"]!r}')
        if 'target_id' in r:
            expect(is_int(r['target_id']) or isinstance(r['target_id'], str), fail, f'target of routine {i}: {r["target_id"]!r}')
        expect(isinstance(r['ops'], list), fail, f'ops of routine {i}')
        for o in r['ops']:
            expect(isinstance(o, dict) and set(o) == {'opcode', 'params'} and isinstance(o['opcode'], str) and isinstance(o['params'], list), fail,
                   f'op {o}')
            for p in o['params']:
                check_param(p, fail, ctx)


KEYS = {'COROUTINE': {'name'}, 'GENERIC': set(), 'ACTOR': {'target_id'}, 'OBJECT': {'target_id'}, 'PERFORMER': {'target_id'}}


def check_param(p, fail, ctx):
    if is_int(p):
        ctx.saw('param_types', 'int')
        return
    expect(isinstance(p, dict) and set(p) == {'type', 'value'}, fail, f'param {p!r}')
    t, v = p['type'], p['value']
    ctx.saw('param_types', t)
    if t == 'FIXED_POINT':
        expect(isinstance(v, str), fail, f'param {p!r}')
        try:
            lang.dec_value(v)
        except ValueError:
            expect(False, fail, f'param {p!r}')
    elif t in ('CONSTANT', 'CONST_STRING'):
        expect(isinstance(v, str), fail, f'param {p!r}')
    elif t == 'LANG_STRING':
        expect(isinstance(v, dict) and v and all(isinstance(x, str) for x in v.values()), fail, f'param {p!r}')
    elif t == 'POSITION_MARK':
        expect(isinstance(v, dict) and set(v) == {'name', 'x', 'y'} and isinstance(v['name'], str), fail, f'param {p!r}')
        for c in (v['x'], v['y']):
            expect(is_int(c) or isinstance(c, float) and (c * 2).is_integer(), fail, f'coordinate {c!r} of {p!r}')
    else:
        expect(False, fail, f'param {p!r}')


# ------------------------------------------------------------------ documents <-> routine sets, by the documentation
def coordinate(c):
    """(tiles, offset)"""
    s = str(c)
    if s.endswith('.0'):
        s = s[:-2]
    return (int(s[:-2]), 2) if s.endswith('.5') else (int(s), 0)


def read_param(p):
    if is_int(p):
        return p
    t, v = p['type'], p['value']
    if t == 'FIXED_POINT':
        f = env.SsbOpParamFixedPoint(0, '0')
        f.value = v
        return f
    if t == 'CONSTANT':
        return env.SsbOpParamConstant(v)
    if t == 'CONST_STRING':
        return env.SsbOpParamConstString(v)
    if t == 'LANG_STRING':
        return env.SsbOpParamLanguageString(v)
    (x, xo), (y, yo) = coordinate(v['x']), coordinate(v['y'])
    return env.SsbOpParamPositionMarker(v['name'], xo, yo, x, y)


def read_doc(doc):
    infos, coros, rows = [], [], []
    T = env.SsbRoutineType
    n = 0
    for i, r in enumerate(doc['routines']):
        if r['type'] == 'COROUTINE':
            coros.append(env.SsbCoroutine(i, r['name']))
        t = r.get('target_id', 0)
        if isinstance(t, dict):
            t = t['value']
        infos.append(env.SsbRoutineInfo(T[r['type']], t) if is_int(t) else env.SsbRoutineInfo(T[r['type']], -1, t))
        row = []
        for o in r['ops']:
            n += 1
            row.append(env.SsbOperation(n, env.SsbOpCode(-1, o['opcode']), [read_param(p) for p in o['params']]))
        rows.append(row)
    return infos, rows, coros


def write_param(p, rng, ctx):
    t = type(p).__name__
    if t == 'int':
        return p
    if t == 'SsbOpParamFixedPoint':
        ctx.saw('param_types', 'FIXED_POINT')
        return {'type': 'FIXED_POINT', 'value': str(p)}
    if t == 'SsbOpParamConstant':
        return {'type': 'CONSTANT', 'value': p.name}
    if t == 'SsbOpParamConstString':
        return {'type': 'CONST_STRING', 'value': p.name}
    if t == 'SsbOpParamLanguageString':
        return {'type': 'LANG_STRING', 'value': dict(p.strings)}
    v = []
    for rel, off in ((p.x_relative, p.x_offset), (p.y_relative, p.y_offset)):
        c = float(f'{rel}.5') if off > 1 else rel
        if is_int(c) and rng.random() < 0.05:
            c = float(c)
        v.append(c)
    return {'type': 'POSITION_MARK', 'value': {'name': p.name, 'x': v[0], 'y': v[1]}}


def write_doc(infos, rows, coros, settings, rng, ctx):
    where = {o.offset: i for i, o in enumerate((o for row in rows for o in row), 1)}
    names = {c.id: c.name for c in coros}
    out = []
    for i, (info, row) in enumerate(zip(infos, rows)):
        r = {'type': info.type.name}
        if r['type'] == 'COROUTINE':
            r['name'] = names[i]
        elif r['type'] != 'GENERIC':
            if info.linked_to_name is None:
                r['target_id'] = info.linked_to
                ctx.saw('target_forms', 'int')
                if info.linked_to < 0:
                    ctx.saw('target_forms', 'negative')
            elif rng.random() < 0.25:
                r['target_id'] = {'type': 'CONSTANT', 'value': info.linked_to_name}
                ctx.saw('target_forms', 'constant argument')
            else:
                r['target_id'] = info.linked_to_name
                ctx.saw('target_forms', 'string')
        ops = []
        for o in row:
            ps = [write_param(p, rng, ctx) for p in o.params]
            if o.op_code.name in ssb.JUMPERS:
                ps[-1] = where[o.params[-1]]
            ops.append({'opcode': o.op_code.name, 'params': ps})
        r['ops'] = ops
        out.append(shuffled(r, rng))
        ctx.saw('routine_types', r['type'])
    return shuffled({'settings': settings, 'routines': out}, rng)


def shuffled(d, rng):
    return dict(rng.sample(list(d.items()), len(d))) if rng.random() < 0.3 else d


def dump(doc, rng):
    return json.dumps(doc, **rng.choice([{}, {'indent': 4}, {'ensure_ascii': False}, {'separators': (',', ':')}, {'sort_keys': True}]))


# ------------------------------------------------------------------ programs
def program(rng):
    k = rng.random()
    if k < 0.15:
        return progs.with_macros(rng)
    prof = rng.choice(list(progs.PROFILES))
    return progs.make(rng, prof, rng.choice([None, 'pretty']), rich=rng.random() < 0.4, terminate=rng.choice([1.0, 1.0, 0.7]), coro=rng.choice([None, None, 0.5]))[1]


def ssbs_text(rng):
    infos, ops, coros = deco.make_set(rng.choice(['rand', 'cross', 'comp']), rng)
    return '//?: is-ssb-script: true\n' + env.decompile_ssbs(infos, ops, coros)[0]


def run_program(src, box, fail, ctx, main='main.exps', lookup=(), ref=None, write=True):
    """all oracles for one program"""
    if write:
        box.write(main, box.swap(src))
    full = os.path.join(box.root, main)
    comp = env.ExplorerScriptSsbCompiler(box.perf, [os.path.join(box.root, d) for d in lookup])
    err = None
    try:
        comp.compile(open(full, encoding='utf8').read(), full)
    except env.DOCUMENTED as e:
        err = e
    except Exception:
        raise Skip('compiler fails (C10)')
    rc, out, serr = box.compile(main, lookup)
    fail.payload.update(argv=box.argv, status=rc, stdout=out, stderr=serr[-1500:])
    if err is not None:
        ctx.count('rejected')
        if rc == 0:
            fail(f'the compiler reports {type(err).__name__}, but the compile command ends with status 0')
        return
    if None in comp.routine_infos:
        raise Skip('gaps in routine ids')
    if rc != 0:
        fail(f'the compiler accepts the program, but the compile command ends with status {rc}: {serr[-300:]}')
    try:
        doc = json.loads(out)
    except ValueError as e:
        fail(f'the compile command prints no JSON: {e}')
    if box.map:
        m = box.read_map(fail)
        if m.serialize() != comp.source_map.serialize():
            fail('the source map written by the compile command is not the one of the compilation')
    check_doc(doc, box.settings, fail, ctx)
    n = same_ops(doc, comp, fail, ctx)
    ctx.count('documents_checked')
    if any(r['type'] == 'COROUTINE' for r in doc['routines']):
        ctx.count('coroutine_documents')
    if n >= 4:
        ctx.nontrivial(out)
    # the source, read independently
    infos, rows, coros = read_doc(box.swap_doc(doc))
    if ref is not None:
        semcheck.check_tables(ref, infos, deco.tables(infos, coros, len(infos))[1] or [], fail)
        pairs, tests = semcheck.check_flow(ref, rows, fail)
        ctx.count('source_compared')
        ctx.count('tests_explored', tests)
    # and back
    rc, text, serr = box.decompile(out if box.rng.random() < 0.5 else dump(doc, box.rng))
    fail.payload.update(decompile_status=rc, text=text, decompile_stderr=serr[-1500:])
    if rc != 0:
        fail(f'the decompile command ends with status {rc} for the output of the compile command: {serr[-300:]}')
    if box.map:
        box.read_map(fail)
    judge_text(box.swap(text, True), infos, rows, coros, fail, ctx, ref)


def same_ops(doc, comp, fail, ctx):
    """the ops are those of the compiler, jumps are positions"""
    flat = [o for row in comp.routine_ops for o in row]
    at = {o.offset: i for i, o in enumerate(flat, 1)}
    if any(o.offset != i for i, o in enumerate(flat, 1)):
        ctx.count('with_gaps')
    if len(doc['routines']) != len(comp.routine_ops):
        fail(f'{len(doc["routines"])} routines printed, the program has {len(comp.routine_ops)}')
    n = 0
    for i, (r, info, row) in enumerate(zip(doc['routines'], comp.routine_infos, comp.routine_ops)):
        if r['type'] != info.type.name:
            fail(f'routine {i} is printed as {r["type"]}, it is {info.type.name}')
        if r['type'] == 'COROUTINE' and r['name'] != comp.named_coroutines[i]:
            fail(f'coroutine {i} is printed as {r["name"]}, it is {comp.named_coroutines[i]}')
        want = info.linked_to if info.linked_to_name is None else info.linked_to_name
        if 'target_id' in r and (r['target_id'] != want or is_int(want) != is_int(r['target_id'])):
            fail(f'the target of routine {i} is printed as {r["target_id"]!r}, it is {want!r}')
        if len(r['ops']) != len(row):
            fail(f'routine {i} is printed with {len(r["ops"])} ops, it has {len(row)}')
        for j, (a, o) in enumerate(zip(r['ops'], row)):
            n += 1
            got = [ssb.canon(read_param(p)) for p in a['params']]
            exp = [ssb.canon(p) for p in o.params]
            if o.op_code.name in ssb.JUMPERS and exp and exp[-1][0] == 'int':
                if exp[-1][1] not in at:
                    raise Skip('jump to an op that does not exist')
                exp[-1] = ('int', at[exp[-1][1]])
                ctx.count('jumps_checked')
            if a['opcode'] != o.op_code.name or got != exp:
                fail(f'op {j} of routine {i} is printed as {a["opcode"]} {got}, expected {o.op_code.name} {exp}')
    return n


def judge_text(text, infos, rows, coros, fail, ctx, ref=None):
    """the decompiled text compiles to what the document (and the source) says"""
    us = shadow(rows)
    if us is None or not deco.typed(us):
        ctx.count('not_well_formed')
        return
    try:
        back = env.compile_text(text)
    except Exception as e:
        fail(f'the text of the decompile command is not accepted: {type(e).__name__}: {e}')
    deco.same_tables(infos, coros, back, fail)
    if gs.falls_off(us) or gs.jump_cycle(us):
        ctx.count('not_well_formed')
        return
    try:
        got = deco.machine(back.routine_ops)
    except ssb.Malformed as e:
        fail(f'the compiled text can not be run: {e}')
    run_machines(got, deco.machine(rows), 'the decompiled text says', fail, ctx)
    if ref is not None and all(r['alias'] or r['id'] >= 0 for r in ref):
        ctx.count('roundtrips_compared')


class Shadow:
    routine_ops = None


def shadow(rows):
    c = Shadow()
    c.routine_ops = rows
    try:
        return gs.from_compiled(c)
    except Exception:
        return None


# ------------------------------------------------------------------ cases
def failer(**payload):
    def fail(msg):
        raise Violation(msg, dict(fail.payload))
    fail.payload = payload
    return fail


def source_case(kind, index, rng, ctx, sub=False):
    if kind == 'ssbs':
        src, ref = ssbs_text(rng), None
        ctx.count('ssbs_programs')
    else:
        src = hand.PROGRAMS[index] if kind == 'hand' else program(rng)
        if kind != 'hand' and rng.random() < 0.05:
            src = rng.choice(SPECIAL)
        try:
            ref = progs.by_id(progs.reference(src, env.PERF)[1])
        except (lang.LangError, sem.Meaningless):
            ref = None
    with layout.Scratch() as root:
        run_program(src, Box(root, rng, ctx, sub), failer(source=src), ctx, ref=ref)
    if index < 2:
        ctx.sample(src[:800])


SPECIAL = ['', '// nothing', 'macro m() { a(); }', 'def 0 for actor -1 { a(); end; }', 'def 0 for object -7 { a(); end; } def 1 for performer $x { alias previous; }',
           'coro A { a(); return; } coro B { alias previous; } coro C { if (debug) { b(); } return; }',
           'def 0 { a(); return; } coro B { b(); return; } def 2 for actor 5 { ~m(); } macro m() { if (edit) { return; } x(); end; }',
           "def 0 { a(Position<'m', 1.5, -2>, Position<\"n\", -3.5, 0>); hold; }", 'def 0 { jump @a; b(); @a; @b; jump @c; @c; end; } def 1 { jump @a; }',
           'def 0 { forever { if (debug) { continue; } if (edit) { break_loop; } switch ($v) { case 1: a(); break; case 2: break; default: end; } } end; }',
           'def 0 { dungeon_mode(3) = DMODE_OPEN; switch (dungeon_mode(2)) { case DMODE_REQUEST: a(); case DMODE_OPEN_AND_REQUEST: b(); break; } hold; }',
           'def 0 { if (PERFORMANCE_PROGRESS_LIST[3]) { a(); } if (not PERFORMANCE_PROGRESS_LIST[4]) { b(); } return; }',
           'def 0 { a("ünïcödé 漢字 \\n \\" \'", {english="\'x\'", german="a\\nb"}); b(-1.50, 0x10, 0b11, CONST, $VAR, 003.25); end; }',
           'def 0 for actor 0 { a(); end; } def 1 for object 0 { b(); end; } def 2 for performer 0 { c(); end; }']


def lookup_case(rng, ctx, sub=False):
    ms, main = check_c05.program(rng, max_depth=2, max_body=3)
    with layout.Scratch() as root:
        box = Box(root, rng, ctx, sub)
        box.perf, box.dmc = env.PERF, list(env.DMC)
        box.settings['performance_progress_list_var_name'] = env.PERF
        box.settings['dungeon_mode_constants'] = dict(zip(['closed', 'open', 'request', 'open_request'], env.DMC))
        box.write('settings.json', json.dumps({'settings': box.settings}))
        lay = layout.spread(rng, root, ms, main)
        lay.write()
        ctx.count('lookup_runs')
        if len(lay.lookup) > 1:
            ctx.count('several_lookups')
        run_program(None, box, failer(layout=lay.show()), ctx, os.path.relpath(lay.main, root), [os.path.relpath(d, root) for d in lay.lookup], write=False)


def doc_case(rng, ctx, index, sub=False):
    kind = rng.choice(['rand', 'rand', 'cross', 'comp', 'perm', 'small', 'irr', 'poison'])
    infos, ops, coros = deco.make_set(kind, rng)
    if rng.random() < 0.3:
        infos, coros = mixed(rng, len(infos))
        ctx.count('mixed_documents')
    with layout.Scratch() as root:
        box = Box(root, rng, ctx, sub)
        doc = write_doc(infos, ops, coros, box.settings, rng, ctx)
        plain = doc
        doc = json.loads(box.swap(json.dumps(doc['routines'])))
        doc = dict(plain, routines=doc)
        shown = dump(doc, rng)
        if any(r['type'] == 'COROUTINE' for r in doc['routines']):
            ctx.count('coroutine_documents')
        for r in doc['routines']:
            for o in r['ops']:
                for p in o['params']:
                    check_param(p, failer(doc=shown), ctx)
        fail = failer(doc=shown)
        rc, text, err = box.decompile(shown)
        fail.payload.update(status=rc, text=text, stderr=err[-1500:])
        if rc != 0:
            fail(f'the decompile command ends with status {rc} for a document following the documentation: {err[-300:]}')
        ctx.count('sets_decompiled')
        a, b, c = read_doc(plain)
        judge_text(box.swap(text, True), a, b, c, fail, ctx)
        ctx.count('sets_compared')
        if sum(map(len, ops)) >= 4:
            ctx.nontrivial(shown)
    if index < 1:
        ctx.sample(shown[:800])


def mixed(rng, n):
    T = env.SsbRoutineType
    infos, coros = [], []
    for i in range(n):
        t = rng.choice(list(T)) if rng.random() < 0.8 else T.COROUTINE
        if t.name == 'INVALID' or t.name not in KEYS:
            t = T.GENERIC
        if t == T.COROUTINE:
            coros.append(env.SsbCoroutine(i, rng.choice([f'CORO_{i}', f'coro{i}', f'n{i}', f'A_{i}'])))
        if t in (T.COROUTINE, T.GENERIC):
            infos.append(env.SsbRoutineInfo(t, 0))
        elif rng.random() < 0.5:
            infos.append(env.SsbRoutineInfo(t, rng.choice([0, 1, 5, 255, 256, 257, 1000, 65535, -1, -2, -300])))
        else:
            infos.append(env.SsbRoutineInfo(t, -1, rng.choice(['ACTOR_X', '$V', 'x', 'OBJECT_D01P11B2_12', '_a1'])))
    return infos, coros


# ------------------------------------------------------------------ faults
OK_SRC = 'def 0 { if (debug) { a(1, CONST); } end; }\n'


def ok_doc():
    return {'routines': [{'type': 'COROUTINE', 'name': 'A', 'ops': [{'opcode': 'BranchDebug', 'params': [1, 3]}, {'opcode': 'a', 'params': [1, {'type': 'CONSTANT', 'value': 'X'}]},
                                                                    {'opcode': 'End', 'params': []}]},
                         {'type': 'ACTOR', 'target_id': 3, 'ops': [{'opcode': 'End', 'params': []}]}]}


def op(doc):
    return doc['routines'][0]['ops'][1]


def _set(path, value):
    def f(doc):
        for k in path[:-1]:
            doc = doc[k]
        doc[path[-1]] = value
    return f


def _del(*path):
    def f(doc):
        for k in path[:-1]:
            doc = doc[k]
        del doc[path[-1]]
    return f


R, O, P = ['routines'], ['routines', 0, 'ops', 1], ['routines', 0, 'ops', 1, 'params']
DOC_FAULTS = {
    'no settings': _del('settings'), 'no perf var': _del('settings', 'performance_progress_list_var_name'), 'no dmode': _del('settings', 'dungeon_mode_constants'),
    'no open': _del('settings', 'dungeon_mode_constants', 'open'), 'no closed': _del('settings', 'dungeon_mode_constants', 'closed'),
    'no request': _del('settings', 'dungeon_mode_constants', 'request'), 'no open_request': _del('settings', 'dungeon_mode_constants', 'open_request'),
    'settings are null': _set(['settings'], None), 'dmode is null': _set(['settings', 'dungeon_mode_constants'], None), 'no routines': _del('routines'), 'routines are null': _set(R, None), 'routines are a number': _set(R, 5),
    'routine is null': _set(R + [0], None), 'no type': _del('routines', 0, 'type'), 'no name': _del('routines', 0, 'name'), 'no target': _del('routines', 1, 'target_id'),
    'no ops': _del('routines', 0, 'ops'), 'ops are null': _set(R + [0, 'ops'], None), 'type is unknown': _set(R + [0, 'type'], 'BANANA'), 'type is lower case': _set(R + [1, 'type'], 'actor'),
    'type is a number': _set(R + [1, 'type'], 3), 'no opcode': _del('routines', 0, 'ops', 1, 'opcode'), 'no params': _del('routines', 0, 'ops', 1, 'params'), 'params are null': _set(P, None),
    'op is null': _set(O, None), 'op is a string': _set(O, 'End'), 'param is null': _set(P, [None]), 'param is a list': _set(P, [[1]]), 'param is a string': _set(P, ['x']), 'param is 1.5': _set(P, [1.5]),
    'param without type': _set(P, [{'value': 'x'}]), 'param without value': _set(P, [{'type': 'CONSTANT'}]), 'param of unknown type': _set(P, [{'type': 'BANANA', 'value': 'x'}]),
    'param of lower case type': _set(P, [{'type': 'constant', 'value': 'x'}]), 'fixed point without digits': _set(P, [{'type': 'FIXED_POINT', 'value': 'abc'}]),
    'fixed point with two points': _set(P, [{'type': 'FIXED_POINT', 'value': '1.2.3'}]), 'mark without name': _set(P, [{'type': 'POSITION_MARK', 'value': {'x': 1, 'y': 2}}]),
    'mark without x': _set(P, [{'type': 'POSITION_MARK', 'value': {'name': 'a', 'y': 2}}]), 'mark without y': _set(P, [{'type': 'POSITION_MARK', 'value': {'name': 'a', 'x': 2}}]),
    'mark at 1.25': _set(P, [{'type': 'POSITION_MARK', 'value': {'name': 'a', 'x': 1.25, 'y': 2}}]), 'mark at abc': _set(P, [{'type': 'POSITION_MARK', 'value': {'name': 'a', 'x': 1, 'y': 'abc'}}]),
    'mark is a string': _set(P, [{'type': 'POSITION_MARK', 'value': 'a'}]), 'jump past the end': _set(R + [0, 'ops', 0, 'params', 1], 400),
    'jump without target': _set(R + [0, 'ops', 0, 'params'], []), 'later routine is broken': _set(R + [1, 'ops'], [{'opcode': 'a'}])}
SET_FAULTS = [k for k in DOC_FAULTS if 'settings' in k or k in ('no perf var', 'no dmode', 'no open', 'no closed', 'no request', 'no open_request', 'dmode is null')]
TEXT_FAULTS = {'empty': '', 'no JSON': 'def 0 { a(); }', 'cut off': None, 'a list': '[]', 'null': 'null', 'two documents': '{}{}', 'an empty object': '{}', 'a number': '5'}
CLI_FAULTS = ['missing input', 'directory as input', 'no arguments', 'unknown option', 'two inputs', 'not utf-8', 'source map nowhere', 'source map is a directory']
COMPILE_ONLY = ['no --settings', 'missing settings', 'settings are a directory', 'settings without value', 'lookup without it', 'input is JSON']


def fault_case(rng, ctx, sub=False):
    settings = {'performance_progress_list_var_name': env.PERF, 'dungeon_mode_constants': dict(open='O', closed='C', request='R', open_request='OR')}
    decompile = rng.random() < 0.55
    with layout.Scratch() as root:
        box = Box(root, rng, ctx, sub)
        box.settings = settings
        src, doc, files, argv = OK_SRC, dict(ok_doc(), settings=json.loads(json.dumps(settings))), {}, None
        sett = json.dumps({'settings': settings})
        fault = rng.choice(['arguments', 'content', 'content', 'content'])
        inp = 'in.json' if decompile else 'in.exps'
        args = [] if decompile else ['--settings', 's.json']
        raw = None
        if fault == 'arguments':
            what = rng.choice(CLI_FAULTS + ([] if decompile else COMPILE_ONLY))
            argv = [inp] + args
            if what == 'missing input':
                argv[0] = rng.choice(['nothing.exps', 'nothing/in.exps', './in.exps/x', ''])
            elif what == 'directory as input':
                argv[0] = rng.choice(['.', root, '/'])
            elif what == 'no arguments':
                argv = rng.choice([[], args])
            elif what == 'unknown option':
                argv += rng.choice([['--banana'], ['-x', '5'], ['--source-maps=1', 'x']])
            elif what == 'two inputs':
                argv = ['other'] + argv
            elif what == 'not utf-8':
                raw = b'\xff\xfe\x00 def 0 { a(); }' if rng.random() < 0.5 else b'def 0 { a("\xe4"); end; }'
            elif what == 'source map nowhere':
                argv += ['--source-map', 'no/such/dir/x.sm']
            elif what == 'source map is a directory':
                argv += ['--source-map', root]
            elif what == 'no --settings':
                argv = [inp]
            elif what == 'missing settings':
                argv[-1] = 'nothing.json'
            elif what == 'settings are a directory':
                argv[-1] = root
            elif what == 'settings without value':
                argv = argv[:-1]
            elif what == 'lookup without it':
                src = 'import "m.exps";\ndef 0 { ~m(); end; }\n'
                os.mkdir(os.path.join(root, 'lib'))
                box.write('lib/m.exps', 'macro m() { a(); }\n')
                argv += rng.choice([[], ['--lookup', root]])
            elif what == 'input is JSON':
                src = json.dumps(doc)
        else:
            if decompile:
                k = rng.random()
                if k < 0.15:
                    what = rng.choice(list(TEXT_FAULTS))
                    raw = (TEXT_FAULTS[what] if TEXT_FAULTS[what] is not None else json.dumps(doc)[:rng.randrange(3, 100)]).encode()
                else:
                    what = rng.choice(list(DOC_FAULTS))
                    DOC_FAULTS[what](doc)
            else:
                k = rng.random()
                if k < 0.2:
                    what = rng.choice(SET_FAULTS)
                    d = {'settings': json.loads(json.dumps(settings))}
                    DOC_FAULTS[what](d)
                    sett = json.dumps(d)
                elif k < 0.3:
                    what = 'settings ' + rng.choice(list(TEXT_FAULTS))
                    t = TEXT_FAULTS[what[9:]]
                    sett = t if t is not None else sett[:rng.randrange(3, 60)]
                else:
                    what, src = bad_program(rng)
            argv = [inp] + args
        box.write('s.json', sett)
        if raw is not None:
            with open(os.path.join(root, inp), 'wb') as f:
                f.write(raw)
        else:
            box.write(inp, json.dumps(doc) if decompile else src)
        rc, out, err = box.run(DECOMPILE if decompile else COMPILE, argv)
        ctx.saw('faults', ('decompile: ' if decompile else 'compile: ') + what)
        ctx.count('failures')
        shown = {'command': 'decompile' if decompile else 'compile', 'argv': argv, 'input': src if not decompile else json.dumps(doc), 'settings': sett, 'stdout': out[:1000], 'stderr': err[-1000:]}
        if rc == 0:
            raise Violation(f'{shown["command"]} with the fault {what!r} ends with status 0', shown)
        if not err.strip():
            raise Violation(f'{shown["command"]} with the fault {what!r} prints no error', shown)


def bad_program(rng):
    form = rng.choice(check_c10.FORMS)
    head = rng.choice(['', 'def 1 { b(); }\n'])
    src = f'{form[2] if len(form) > 2 and form[2] else ""}\ndef 0 {{ a(); {form[1]} z(); end; }}\n{head}'
    if rng.random() < 0.25:
        return 'syntax', rng.choice(['def 0 { a( }', 'def 0 { a() }', 'def { a(); }', 'def 0 { a();', '}', 'def 0 a();', 'def 0 { if { } }', 'coro { a(); }', 'x', 'def 0 { "a"; }', 'import x;'])
    return form[0], src


def unwritable(rng, ctx):
    """a result that can not be written is no success"""
    with layout.Scratch() as root, open('/dev/full', 'wb') as full:
        box = Box(root, rng, ctx, True)
        box.write('in.exps', OK_SRC)
        box.write('in.json', json.dumps(dict(ok_doc(), settings=box.settings)))
        for module, argv in ((COMPILE, ['in.exps', '--settings', 'settings.json']), (DECOMPILE, ['in.json'])):
            rc = process(module, argv, root, stdout=full)[0]
            if rc == 0:
                raise Violation(f'{module} ends with status 0 though its output is lost', {'argv': argv})
            rc, out, err = process(module, argv, root)
            if rc != 0 or not out.strip():
                raise Violation(f'{module} ends with status {rc}: {err[-300:]}', {'argv': argv})
            ctx.count('unwritable_output')


def run_case(kind, index, rng, ctx):
    if kind in ('prog', 'hand', 'ssbs'):
        source_case(kind, index, rng, ctx)
    elif kind == 'lookup':
        lookup_case(rng, ctx)
    elif kind == 'doc':
        doc_case(rng, ctx, index)
    elif kind == 'fault':
        fault_case(rng, ctx)
    elif kind == 'sub':
        if index < 4:
            unwritable(rng, ctx)
        elif index % 3 == 0:
            source_case('prog', index, rng, ctx, True)
        elif index % 3 == 1:
            doc_case(rng, ctx, index, True)
        else:
            lookup_case(rng, ctx, True)
    else:
        fault_case(rng, ctx, True)
