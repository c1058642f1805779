"""C08: the source map of a compilation points at where every op was written."""
import os
from collections import Counter
from . import check_c05, check_c07, env, gen_ssb as gs, hand, lang, layout, progs, sem, semcheck, ssb, mini
from .core import Skip
from explorerscript.included_usage_map import IncludedUsageMap

ID = 'C08'
RULE = ('every op of a compilation result is paired with the statement it came from by running the result in lock-step with an independent '
        'reference reading that knows where (file, macro, expansion, line and column) every step is written. The source map entry of the op is '
        'compared with that place; return addresses and call positions are judged by the ops the reference assigns to every expansion; '
        'recorded position marks by the emitted parameters; named files by the contributing macros. Non-trivial: entries of at least two '
        'ops compared; distinct by text or layout.')
REQUIRE = {'programs': 4000, 'ops_paired': 50000, 'macro_ops_paired': 20000, 'expansions_judged': 5000, 'nested_expansions': 1500,
           'return_addresses': 10000, 'call_positions': 5000, 'files_named': 500, 'marks_compared': 3000, 'jumps_placed': 3000,
           'seen:kinds': 40, 'several_per_line': 2000, 'dropped_ops': 500, 'ssbs_ops': 2000, 'jump_statements_behind_ops': 500}
CASE_LIMIT = 60
TIMEOUT_IS_VIOLATION = True
MAX_STATES = 20000


def plan(tier, seed):
    k = 1 if tier == 'quick' else 14
    return [('direct', 2200 * k), ('macros', 2200 * k), ('layout', 1600 * k), ('chain', 60 * k), ('args', 500 * k), ('hand', len(hand.PROGRAMS) * (1 if k == 1 else 3)),
            ('marks', 700 * k), ('ssbs', 300 * k), ('edges', 500 * k), ('mini', 2500 * k)]


def run_case(kind, index, rng, ctx):
    if kind == 'layout':
        ms, main = check_c05.program(rng)
        with layout.Scratch() as root:
            lay = layout.spread(rng, root, ms, main)
            lay.write()
            c = compiled(lay.files[lay.main], lay.main, list(lay.lookup))
            judge({p: lay.files[p] for p in lay.paths}, lay.main, c, ctx, lay.show())
        ctx.count('layouts')
        return
    if kind == 'ssbs':
        return ssbs(rng, ctx)
    if kind == 'direct':
        src = progs.make(rng, rich=rng.random() < 0.3)[1]
    elif kind == 'macros':
        src = progs.with_macros(rng)
    elif kind == 'chain':
        src = check_c05.chain(rng)
    elif kind == 'args':
        src = check_c05.arguments(rng, ctx)
    elif kind == 'hand':
        src = hand.PROGRAMS[index % len(hand.PROGRAMS)]
    elif kind == 'mini':
        src = mini.make(rng)
    elif kind == 'edges':
        src = edges(rng)
    elif kind == 'marks':
        src = marks_program(rng)
    c = compiled(src, 'main.exps')
    judge({'main.exps': src}, 'main.exps', c, ctx, src)
    if index < 1:
        ctx.sample({'source': src[:600], 'map': c.source_map.serialize()[:600]})


def compiled(*a):
    try:
        return env.compile_text(*a)
    except Exception:
        raise Skip('rejected')


# ---------------------------------------------------------------- programs
def edges(rng):
    """macros whose expansions begin or end with ops that are dropped or made up by the compiler"""
    first = ['', 'jump @a; @a;', '@a;', '~e();', 'if ($x == 1) { }', 'forever { break_loop; }', '~in($x);', 'return;', 'if ($x > 2) { return; }',
             'switch ($x) { default: y(); }', 'switch ($x) { case 1: break; default: ~in(3); }', 'with (actor $x) { o(); }',
             'if ($x < 1) { ~in($x); } else { ~e(); }', 'while ($x == 2) { ~in($x); continue; }', 'for ($x = 0; $x < 3; $x += 1;) { ~in(4); }']
    mid = ['op($x);', 'a(); b();', '', '~in($x);', '~in($x); ~in(2);', 'message_SwitchTalk ($x) { case 1: "a" default: "b" }']
    last = ['', 'return;', 'if ($x == 1) { return; }', 'jump @b; @b;', '~e();', '~in($x);', '@b;', 'switch ($x) { case 1: return; case 2: ~e(); default: break; }',
            'forever { if ($x == 3) { return; } ~in($x); }', 'end;', 'if ($x == 1) { ~in($x); }', 'if not ($x == 1) { ~in($x); } elseif (debug) { q(); }']
    ms = ['macro e() { }' if rng.random() < 0.4 else rng.choice(['macro e() { return; }', 'macro e() { @z; }', 'macro e() { jump @z; @z; }']),
          'macro in($x) { ' + rng.choice(['i($x);', 'i($x); return;', '~e(); i($x); ~e();', 'if ($x == 7) { i(); }', 'i(); j(); k();']) + ' }',
          'macro m($x) { ' + ' '.join([rng.choice(first), rng.choice(mid), rng.choice(last)]).strip() + ' }',
          'macro o($x) { ' + rng.choice(['~m($x);', '~m($x); ~m(1);', 'p(); ~m($x);', '~m($x); p();', '~e(); ~m($x); ~e();', 'if ($x == 5) { ~m($x); } r();']) + ' }']
    rng.shuffle(ms)
    body = []
    for _ in range(rng.randrange(1, 5)):
        call = rng.choice(['~m(V);', '~o(V);', '~m(1);', '~e();', '~in(2);', '~o($V);'])
        call = call.replace('1)', '$W)').replace('(2)', '($W)')
        k = rng.random()
        if k < 0.3:
            call = rng.choice(['if ($V == 1) {{ {0} }}', 'forever {{ {0} break_loop; }}', 'switch ($V) {{ case 1: {0} break; case 2: {0} default: {0} }}',
                               'if ($V == 2) {{ {0} }} elseif ($V == 3) {{ {0} {0} }} else {{ {0} }}', 'switch ($V) {{ default: {0} case 3: {0} }}',
                               'while ($V == 2) {{ {0} }}', '{0} {0}', '@l{1}; {0} if ($V == 9) {{ jump @l{1}; }}']).format(call, len(body))
        body.append(call)
        if rng.random() < 0.4:
            body.append(rng.choice(['w();', '$V = 3;', 'if ($V == 1) { w(); }', 'w<actor A>();', 'call @q%d; @q%d;' % (len(body), len(body))]))
    routines = ['def 0 {\n    ' + ' '.join(body) + '\n}']
    if rng.random() < 0.4:
        routines.append('def 1 { ~m($V); }')
    sep = rng.choice(['\n', ' ', '\n\n    '])
    src = sep.join(ms + routines if rng.random() < 0.7 else routines + ms)
    if rng.random() < 0.5:
        src = src.replace('; ', ';\n' + ' ' * rng.randrange(9))
    return src


def marks_program(rng):
    def num():
        return rng.choice(['0', '1', '-1', '12', '1.5', '-0.5', '0x10', '300.5', '2.0'])

    n = [0]

    def mark():
        n[0] += 1
        return f'Position<{rng.choice(chr(34) + chr(39)) * 0}\'p{rng.randrange(4) if rng.random() < 0.3 else n[0]}\', {num()}, {num()}>'

    def stmts(params, callees, k):
        out = []
        for _ in range(k):
            r = rng.random()
            if callees and r < 0.3:
                name, np = rng.choice(callees)
                out.append(f'~{name}({", ".join(rng.choice(params + [mark(), mark(), "3"]) for _ in range(np))});')
            elif r < 0.4:
                out.append(f'if ($V == 1) {{ {" ".join(stmts(params, callees, 1))} }}')
            elif r < 0.5:
                out.append(f'switch ($V) {{ case 1: {" ".join(stmts(params, callees, 1))} break; default: {" ".join(stmts(params, callees, 1))} }}')
            elif r < 0.6:
                out.append(f'with (actor A) {{ mv({mark()}); }}')
            elif r < 0.65:
                out.append(f'forever {{ {" ".join(stmts(params, callees, 1))} break_loop; }}')
            else:
                out.append(f'op{rng.choice(["", "<object 3>"])}({", ".join(rng.choice(params + [mark(), mark(), "1", "\"s\""]) for _ in range(rng.randrange(1, 4)))});')
        return out

    ms = []
    callees = []
    for i in range(rng.choice([0, 1, 2, 3])):
        ps = [f'$p{i}{j}' for j in range(rng.choice([0, 1, 2]))]
        # every parameter is used, so that every argument is emitted
        body = stmts(ps, list(callees), rng.randrange(1, 4)) + ([f'use({", ".join(ps)});'] if ps else [])
        ms.append(f'macro m{i}({", ".join(ps)}) {{ {" ".join(body)} }}')
        callees.append((f'm{i}', len(ps)))
    rng.shuffle(ms)
    rs = [f'def {i} {{ {" ".join(stmts([], callees, rng.randrange(1, 6)))} }}' for i in range(rng.choice([1, 1, 2]))]
    src = '\n'.join(ms + rs)
    if rng.random() < 0.5:
        src = src.replace('; ', ';\n    ').replace('{ ', '{\n  ')
    return src


# ---------------------------------------------------------------- the monitor
def where(p):
    return f'{p[0]}:{p[1]}'


def nodes(n, out):
    """places of everything that is written below a node"""
    if isinstance(n, lang.Node):
        out.add((n.line, n.col))
        for v in n.f.values():
            nodes(v, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            nodes(v, out)


JUMPS = ('jump', 'break', 'continue', 'break_loop', 'return')


def plain(n):
    """a statement that is one op, after which the next statement runs"""
    return n.kind == 'assign' or n.kind == 'call' or (n.kind == 'op' and n.ctx is None and n.name not in sem.ENDERS)


def kept_jumps(n, out, loop=None):
    """{place of a plain statement: place of the jump statement behind it, which can not be dropped as its target is not behind it}"""
    if isinstance(n, lang.Node):
        loop = n.kind if n.kind in ('forever', 'while', 'for') else loop
        for v in n.f.values():
            kept_jumps(v, out, loop)
    elif isinstance(n, (list, tuple)):
        for i, v in enumerate(n):
            kept_jumps(v, out, loop)
            if i and isinstance(v, lang.Node) and v.kind in JUMPS and isinstance(n[i - 1], lang.Node) and plain(n[i - 1]):
                behind = n[i + 1] if i + 1 < len(n) else None
                if v.kind == 'break_loop' or (v.kind == 'continue' and loop == 'forever') or (behind is not None and plain(behind)):
                    out[n[i - 1].pos] = v.pos
    return out


class Place:
    """where something is written: file (None: the compiled one), macro (None: a routine), line and column"""


def judge(files, main, c, ctx, shown):
    macros = {}
    mainast = None
    parsers = {}
    asts = {}
    for p, t in files.items():
        try:
            ps = lang.Parser(t)
            ast = ps.parse()
        except lang.LangError:
            raise Skip('not readable by the reference')
        parsers[p] = ps
        asts[p] = ast
        if p == main:
            mainast = ast
        for d in ast.defs:
            if d.kind == 'macro':
                macros[d.name] = (d, None if p == main else p)
    r = sem.Ref(mainast, env.PERF, macros)
    try:
        ref = r.build()
    except sem.Meaningless:
        raise Skip('meaningless')
    if r.states > MAX_STATES:
        raise Skip('too big')
    if progs.by_id(ref) is None:
        raise Skip('gaps in routine ids')
    sm = c.source_map
    fail = semcheck.failer(source=shown, ops=lambda: semcheck.dump(c.routine_ops), map=lambda: sm.serialize(True))
    fail.shown = shown
    base = os.path.dirname(main)

    def rel(fid):
        return None if fid is None else os.path.relpath(fid, base)

    # 1. every op has one entry
    entry = {}
    flat = []
    for ri, ops in enumerate(c.routine_ops):
        for i, op in enumerate(ops):
            d, m = sm.get_op_line_and_col__direct(op.offset), sm.get_op_line_and_col__macros(op.offset)
            if d is None and m is None:
                fail(f'op {op.offset} ({op.op_code.name}) has no entry')
            if d is not None and m is not None:
                fail(f'op {op.offset} ({op.op_code.name}) has two entries')
            e = sm.get_op_line_and_col(op.offset)
            if e is not (m or d):
                fail(f'op {op.offset}: get_op_line_and_col gives another entry than the table')
            for x in (e.line, e.column):
                if type(x) is not int or x < 0:
                    fail(f'op {op.offset}: entry {e.line!r}:{e.column!r}')
            entry[ri, i] = (m.relpath_included_file, m.macro_name, m.line, m.column) if m else (False, None, d.line, d.column)
            flat.append((ri, i))
    index = {k: n for n, k in enumerate(flat)}

    # what is written where
    written = {}
    for st in r.log:
        fid, mac = (False, None) if st.mac is None else (rel(st.mac[-1][0]), st.mac[-1][1])
        written.setdefault((fid, mac) + tuple(st.pos), set()).add((st.op, len(st.params)) if st.k != 'jmp' else st.tag)
        if st.tag is not None and st.k == 'test':
            pass
    struct = {}
    behind = {}
    for p in files:
        defs = asts[p].defs
        rid = -1
        for i, d in enumerate(defs):
            end = (defs[i + 1].line, defs[i + 1].col) if i + 1 < len(defs) else (1 << 60, 0)
            if d.kind != 'macro':
                rid = rid + 1 if d.kind == 'coro' else d.rid
                key = (False, None, rid)
                if p != main:
                    continue
            else:
                key = (None if p == main else rel(p), d.name)
            s = struct[key] = {(t.line, t.col) for t in parsers[p].toks if t.k == 'kw' and (d.line, d.col) <= (t.line, t.col) < end}
            nodes(d, s)
            kept_jumps(d, behind.setdefault(key[:2], {}))

    # 2. every op that runs is paired with the step it is
    frame = {}
    placed = {}

    def on_pair(a, b, pa, pb):
        for st in pb:
            if st.ref is not None:
                jumps.setdefault(st.ref, []).append(pa)
        if b.ref is None or a.pos is None or a.tag == 'offend':
            return
        key = b.ref
        fid, mac = (False, None) if a.mac is None else (rel(a.mac[-1][0]), a.mac[-1][1])
        want = (fid, mac) + tuple(a.pos)
        got = entry[key]
        if got != want:
            op = c.routine_ops[key[0]][key[1]]
            fail(f'op {op.offset} ({op.op_code.name}) is written in {say(want)}, but its entry says {say(got)}')
        if frame.setdefault(key, a.mac) != a.mac:
            ambiguous.add(key)
        if key not in placed:
            placed[key] = a
            ctx.saw('kinds', (a.k, a.op if a.k == 'test' or a.tag else '', a.tag if isinstance(a.tag, str) else '', a.mac is not None))

    jumps = {}
    ambiguous = set()
    semcheck.check_flow(ref, c.routine_ops, fail, None, on_pair)
    ctx.count('programs')
    ctx.count('ops_paired', len(placed))
    ctx.count('macro_ops_paired', sum(1 for a in placed.values() if a.mac is not None))
    lines = Counter(e[:3] for e in entry.values())
    ctx.count('several_per_line', sum(n for n in lines.values() if n > 1))

    # 3. the others: dead code by what is written there, jumps and closing ends by where their block is
    for ri, i in flat:
        if (ri, i) in placed:
            continue
        op = c.routine_ops[ri][i]
        name = op.op_code.name
        e = entry[ri, i]
        places = struct.get((False, None, ri) if e[0] is False else (e[0], e[1]))
        if places is None:
            fail(f'op {op.offset} ({name}): its entry names {say(e)}, where nothing is written')
        if (e[2], e[3]) not in places:
            fail(f'op {op.offset} ({name}): its entry says {say(e)}, where nothing begins')
        here = written.get(e, set())
        n = len(op.params) - (1 if name in ssb.JUMPERS else 0)
        if name in ('Jump', 'Return', 'End'):
            ctx.count('jumps_placed')
            # a jump statement written here is this jump
            continue
        if (name, n) not in here:
            fail(f'op {op.offset} ({name}) is not what is written in {say(e)}: {sorted(map(str, here))}')
        ctx.count('dead_ops_placed')
    # jumps that run: if they are written as a statement, then as one that is passed at this point
    for key, passed in jumps.items():
        op = c.routine_ops[key[0]][key[1]]
        e = entry[key]
        here = {t for t in written.get(e, set()) if isinstance(t, str)}
        if here & {'jump', 'break', 'continue', 'break_loop', 'return'}:
            for pa in passed:
                at = {((False, None) if st.mac is None else (rel(st.mac[-1][0]), st.mac[-1][1])) + tuple(st.pos) for st in pa if st.pos is not None}
                if e not in at:
                    fail(f'op {op.offset} ({op.op_code.name}) is not the statement in {say(e)}, which is not passed there')
            ctx.count('jump_statements_placed')
    # a jump statement behind an op that runs, which can not be dropped, has the entry of its own place
    for (ri, i), a in placed.items():
        e = entry[ri, i]
        want = behind.get(e[:2], {}).get(e[2:]) if a.k in ('act', 'call') else None
        if want is None:
            continue
        op = c.routine_ops[ri][i + 1] if i + 1 < len(c.routine_ops[ri]) else None
        if op is None or op.op_code.name not in ('Jump', 'Return', 'End') or entry[ri, i + 1] != e[:2] + tuple(want):
            fail(f'the jump statement in {say(e[:2] + tuple(want))} is not the op behind the one of {say(e)}: '
                 + ('nothing' if op is None else f'{op.op_code.name}, {say(entry[ri, i + 1])}'))
        ctx.count('jump_statements_behind_ops')
    # 4. expansions
    expansions(r, c, sm, flat, index, frame, ambiguous, entry, rel, fail, ctx)
    # 5. files
    named = {m.relpath_included_file for _, m in sm.collect_mappings__macros()} - {None}
    contributed = {e[0] for e in entry.values() if e[0] not in (False, None)}
    if named != contributed:
        fail(f'files named by macro entries: {sorted(named)}, files that contributed ops: {sorted(contributed)}')
    inc = set(IncludedUsageMap(sm, main).included_files)
    want = {fid for f in frame.values() if f is not None for fid in (f[-1][0],) if fid is not None}
    if os.path.isabs(main):
        # ops that are not paired only come from these files or from ones that are paired
        extra = inc - want
        if want - inc or any(os.path.relpath(x, base) not in contributed for x in extra):
            fail(f'IncludedUsageMap gives {sorted(inc)}, ops came from {sorted(want)}')
        ctx.count('files_named', len(inc))
    for off, m in sm.collect_mappings__macros():
        if m.called_in is not None and m.called_in[0] is not None and m.called_in[0] not in {rel(f) for _, f in macros.values()}:
            fail(f'entry {off} is called in {m.called_in[0]!r}, which is no file of the program')
    offs = [op.offset for ops in c.routine_ops for op in ops]
    if offs != sorted(offs):
        ctx.count('numbers_out_of_order')
    ctx.count('dropped_ops', len(range(min(offs, default=0), max(offs, default=-1) + 1)) - len(offs))
    # 6. position marks
    marks(c, sm, files, main, macros, parsers, rel, fail, ctx)
    if len(placed) >= 2:
        ctx.nontrivial(shown)


def say(e):
    f, m, ln, col = e
    return (f'line {ln}, column {col}' if f is False else f'macro {m} of {f or "the compiled file"}, line {ln}, column {col}')


def expansions(r, c, sm, flat, index, frame, ambiguous, entry, rel, fail, ctx):
    ex = {}     # expansion number -> [first, last op index], frame tuple
    for key, f in frame.items():
        if f is None or key in ambiguous:
            continue
        for depth in range(len(f)):
            no = f[depth][3]
            if no not in ex:
                ex[no] = [index[key], index[key], f[:depth + 1]]
            else:
                x = ex[no]
                x[0], x[1] = min(x[0], index[key]), max(x[1], index[key])
    op = lambda n: c.routine_ops[flat[n][0]][flat[n][1]]

    def definitely_outside(n, no):
        k = flat[n]
        if entry[k][0] is False:
            return True
        f = frame.get(k)
        if k in ambiguous or k not in frame:
            return False
        return f is None or all(x[3] != no for x in f)

    number = {op(m).offset: m for m in range(len(flat))}
    begins = {}
    for no, (lo, hi, f) in ex.items():
        ctx.count('expansions_judged')
        if len(f) > 1:
            ctx.count('nested_expansions')
        for n in range(lo, hi + 1):
            if definitely_outside(n, no):
                fail(f'op {op(n).offset} lies between ops of an expansion of {f[-1][1]}, but its entry is {say(entry[flat[n]])}')
        last = max(op(n).offset for n in range(lo, hi + 1))
        nxt = next((n for n in range(hi + 1, len(flat)) if definitely_outside(n, no)), None)
        limit = None if nxt is None else op(nxt).offset
        # ops directly in this expansion
        for n in range(lo, hi + 1):
            k = flat[n]
            if frame.get(k) is None or k in ambiguous or frame[k][-1][3] != no:
                continue
            ra = sm.get_op_line_and_col__macros(op(n).offset).return_addr
            if ra is None:
                fail(f'op {op(n).offset} of an expansion of {f[-1][1]} has no return address')
            if ra <= last:
                fail(f'op {op(n).offset} of the expansion of {f[-1][1]} called in line {f[-1][2]} returns to {ra}, but op {last} is still of it')
            if limit is not None and ra > limit:
                fail(f'op {op(n).offset} of the expansion of {f[-1][1]} called in line {f[-1][2]} returns to {ra}, but op {limit} follows it already')
            ctx.count('return_addresses')
            if number.get(ra, hi + 1) <= hi:
                fail(f'op {op(n).offset} of the expansion of {f[-1][1]} called in line {f[-1][2]} returns to {ra}, which is placed before or in it')
        # where it begins
        start = lo
        while start > 0 and flat[start - 1] not in frame and entry[flat[start - 1]][0] is not False:
            start -= 1
        begins.setdefault(lo, []).append((start, f))
    # ops that carry a call position
    calls = {}
    for no, (lo, hi, f) in ex.items():
        caller = None if len(f) == 1 else rel(f[-2][0])
        calls[no] = (caller,) + tuple(f[-1][2])
    for lo, fs in begins.items():
        allowed = {calls[f[-1][3]] for _, f in fs}
        start = min(s for s, _ in fs)
        got = [(n, sm.get_op_line_and_col__macros(op(n).offset).called_in) for n in range(start, lo + 1)
               if sm.get_op_line_and_col__macros(op(n).offset) is not None]
        ci = got[-1][1]
        if not any(x is not None and tuple(x) in allowed for _, x in got):
            if ci is not None:
                fail(f'op {op(lo).offset} is the first of an expansion called in {sorted(allowed, key=str)}, but its call position is {ci}')
            elif any(begins_with_dropped_call(r, ex, f) for _, f in fs):
                ctx.finding('call-lost-to-dropped-nested-call', f'op {op(lo).offset} has no call position', {'source': fail.shown})
            else:
                fail(f'no op from {op(start).offset} to {op(lo).offset} has the call position of the expansion called in {sorted(allowed, key=str)}')
        ctx.count('call_positions')
    # no other op has one
    for n, k in enumerate(flat):
        m = sm.get_op_line_and_col__macros(op(n).offset)
        if m is not None and m.called_in is not None and k in frame and k not in ambiguous and n not in begins:
            fail(f'op {op(n).offset} ({op(n).op_code.name}) is not the first of an expansion, but has the call position {m.called_in}')


def begins_with_dropped_call(r, ex, f):
    """does the macro of this expansion begin with a call of a macro of which no op is left?"""
    def first(body):
        for s in body or ():
            if s.kind == 'forever':
                return first(s.body)
            if s.kind == 'mcall':
                gone = any(len(g) == len(f) + 1 and g[:len(f)] == f and g[-1][2] == s.pos and g[-1][3] not in ex for g in r.frames)
                if gone and r.macros[s.name][0].body:
                    return True
                if not gone:
                    return False
            elif s.kind != 'label':
                return False
        return False

    return first(r.macros[f[-1][1]][0].body)


def mark_key(m):
    return m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative


def marks(c, sm, files, main, macros, parsers, rel, fail, ctx):
    emitted = Counter(mark_key(p) for ops in c.routine_ops for o in ops for p in o.params if isinstance(p, env.SsbOpParamPositionMarker))
    direct = [mark_key(m) for m in sm.get_position_marks__direct()]
    mac = [(f, n, mark_key(m)) for f, n, m in sm.get_position_marks__macros()]
    recorded = Counter(direct + [m for _, _, m in mac])
    only = set(recorded) - set(emitted)
    if only and not set(emitted) - set(recorded):
        written = set()
        for p in parsers.values():
            written |= {x[2][1:] for x in p.call_marks}
        if only <= written:
            ctx.finding('marks-of-unused-arguments', f'marks recorded, but in no emitted parameter: {sorted(only)}', {'source': files[main]})
            return
    if set(recorded) != set(emitted):
        fail(f'position marks recorded only: {sorted(set(recorded) - set(emitted))}, emitted only: {sorted(set(emitted) - set(recorded))}')
    if not any(p.call_marks for p in parsers.values()):
        if recorded != emitted:
            fail(f'position marks recorded {dict(recorded - emitted)} times too often, {dict(emitted - recorded)} times too few')
        ctx.count('mark_multiplicities', len(emitted))
    ctx.count('marks_compared', len(emitted))
    ctx.count('macro_marks', len(mac))


# ---------------------------------------------------------------- SsbScript
SEPS = [' ', '\n', '  ', '\t', '\n\n   ', '/* c */', '/* a\n b */ ', '// c\n', '\r\n', '\\\n']


def ssbs(rng, ctx):
    """SsbScript, read on its own or as an ExplorerScript file that is marked as such"""
    infos, ops, coros = gs.finish(check_c07.any_set(rng), rng)
    try:
        text, _ = env.decompile_ssbs(infos, ops, coros)
        toks = lang.tokenize(text)[:-1]
    except Exception:
        raise Skip('no text')
    marked = rng.random() < 0.4
    dense = rng.random() < 0.3
    src = '//?: is-ssb-script: true\n' if marked else ''
    for t in toks:
        src += t.t
        src += rng.choice(SEPS) if not dense or t.k not in ('op', 'str') else ''
    try:
        if marked:
            c = env.compile_text(src)
        else:
            c = env.SsbScriptSsbCompiler()
            c.compile(src)
    except Exception:
        raise Skip('rejected')
    places = []
    braces = parens = 0
    toks = lang.tokenize(src)[:-1]
    for t, u in zip(toks, toks[1:]):
        if braces == 1 and parens == 0 and u.t == '(':
            places.append((t.t, t.line, t.col))
        if t.t in '()':
            parens += 1 if t.t == '(' else -1
        elif t.t in '{}' and parens == 0:
            braces += 1 if t.t == '{' else -1
    fail = semcheck.failer(source=src, ops=lambda: semcheck.dump(c.routine_ops), map=lambda: c.source_map.serialize())
    flat = [o for row in c.routine_ops for o in row]
    if len(flat) != len(places):
        raise Skip('not the ops that are written')
    sm = c.source_map
    for o, (name, line, col) in zip(flat, places):
        if o.op_code.name != name:
            raise Skip('not the ops that are written')
        e = sm.get_op_line_and_col__direct(o.offset)
        if e is None:
            fail(f'op {o.offset} ({name}) has no entry')
        if (e.line, e.column) != (line, col):
            fail(f'op {o.offset} ({name}) is written in line {line}, column {col}, but its entry says {e.line}:{e.column}')
        ctx.count('ssbs_ops')
    if list(sm.collect_mappings__macros()):
        fail('a SsbScript file has macro entries')
    if len(list(sm)) != len(flat):
        fail(f'{len(list(sm))} entries for {len(flat)} ops')
    emitted = Counter(mark_key(p) for o in flat for p in o.params if isinstance(p, env.SsbOpParamPositionMarker))
    recorded = Counter(mark_key(m) for m in sm.get_position_marks__direct())
    if emitted != recorded:
        fail(f'position marks recorded {dict(recorded - emitted)} times too often, {dict(emitted - recorded)} times too few')
    ctx.count('ssbs_marks', sum(emitted.values()))
    if len(flat) >= 2:
        ctx.nontrivial(src)
