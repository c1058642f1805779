"""C09: the source map of a decompilation points at the statement printed for every op."""
from . import check_c07, deco, env, equiv, gen_ssb as gs, lang, sem, semcheck, ssb
from .core import Skip

ID = 'C09'
RULE = ('well-formed routine sets are decompiled by the real decompiler. An independent reading of the text knows where every statement '
        'begins; running it in lock-step with the input tells which input op every statement was printed for, so the entry of the op is '
        'compared with that place (line and column). The text is compiled again, and the map of the compiler has to place the op that pairs '
        'with the same statement on the same line. SsbScript texts (fallback or asked for) list their ops in order and are compared op by '
        'op. Non-trivial: entries of at least two ops compared; distinct by text.')
REQUIRE = {'texts': 3000, 'ops_placed': 60000, 'recompiled_ops': 40000, 'jump_statements': 2000, 'jump_statements_owed': 100, 'elseif_headers': 500, 'or_headers': 300,
           'multi_line_before': 5000, 'fallback_ops': 500, 'ssbs_ops': 5000, 'with_blocks': 100, 'loop_statements': 500, 'seen:forms': 45,
           'seen:indents': 5}
CASE_LIMIT = 60
JUMPING = ('jump', 'break', 'continue', 'break_loop')
ASSUMPTIONS = ['of the ops of one `||` header only one needs an entry', 'strings for which the language has no literal are kept out of the inputs']


def plan(tier, seed):
    k = 1 if tier == 'quick' else 12
    return [('comp', 3000 * k), ('perm', 4000 * k), ('rand', 4000 * k), ('small', 3000 * k), ('cross', 1500 * k), ('irr', 800 * k),
            ('poison', 500 * k), ('big', 40 * k), ('ssbs', 600 * k), ('tiny4', 2744), ('tiny6s', 3000 * k)]


def run_case(kind, index, rng, ctx):
    if kind == 'ssbs':
        infos, ops, coros = gs.finish(check_c07.any_set(rng), rng)
        try:
            text, sm = env.decompile_ssbs(infos, ops, coros)
        except Exception:
            raise Skip('no text')
        ctx.count('ssbs_ops', flat_text(infos, ops, coros, text, sm, ctx))
        return
    infos, ops, coros = deco.make_set(kind, rng, index)
    shown = deco.show_set(infos, ops, coros)
    try:
        text, sm = env.decompile(infos, ops, coros)
    except Exception:
        raise Skip('decompiler raised (C06)')
    if env.is_fallback(text):
        ctx.count('fallback_ops', flat_text(infos, ops, coros, text, sm, ctx))
        return
    judge(ops, text, sm, ctx, shown)
    if index < 1:
        ctx.sample({'text': text[:600], 'map': sm.serialize()[:600]})


def entries(sm, ops, fail):
    """offset -> (line, column)"""
    out = {}
    known = {o.offset for row in ops for o in row}
    for off, m in sm:
        if off in out:
            fail(f'two entries for the offset {off}')
        out[off] = (m.line, m.column)
        if off not in known:
            fail(f'there is an entry for the offset {off}, which no op of the input has')
        d = sm.get_op_line_and_col__direct(off)
        if d is None or (d.line, d.column) != out[off]:
            fail(f'entry {off} is not in the table of direct entries')
        e = sm.get_op_line_and_col(off)
        if e is None or (e.line, e.column) != out[off]:
            fail(f'entry {off} is not what get_op_line_and_col gives')
        if type(m.line) is not int or type(m.column) is not int:
            fail(f'entry {off} says {m.line!r}:{m.column!r}')
    if list(sm.collect_mappings__macros()):
        fail('the map of a decompilation has macro entries')
    return out


# ---------------------------------------------------------------- SsbScript
def flat_text(infos, ops, coros, text, sm, ctx):
    fail = semcheck.failer(input=deco.show_set(infos, ops, coros), text=text, map=lambda: sm.serialize(True))
    ent = entries(sm, ops, fail)
    try:
        toks = lang.tokenize(text)[:-1]
    except lang.LangError:
        raise Skip('not readable')
    places = []
    braces = parens = 0
    for t, u in zip(toks, toks[1:]):
        if braces == 1 and parens == 0 and u.t == '(':
            places.append((t.t, t.line, t.col))
        if t.t in '()':
            parens += 1 if t.t == '(' else -1
        elif t.t in '{}' and parens == 0:
            braces += 1 if t.t == '{' else -1
    flat = [o for row in ops for o in row]
    if [p[0] for p in places] != [o.op_code.name for o in flat]:
        raise Skip('not the ops that are given (C07)')
    try:
        if env.is_fallback(text):
            c = env.compile_text(text)
        else:
            c = env.SsbScriptSsbCompiler()
            c.compile(text)
    except Exception:
        raise Skip('the compiler does not accept the text (C07)')
    back = [o for row in c.routine_ops for o in row]
    if len(back) != len(flat):
        raise Skip('not the ops that are given (C07)')
    for o, b, (name, line, col) in zip(flat, back, places):
        if o.offset not in ent:
            fail(f'op {o.offset} ({name}) is printed in line {line}, but has no entry')
        if ent[o.offset] != (line, col):
            fail(f'op {o.offset} ({name}) is printed in line {line}, column {col}, but its entry says {ent[o.offset]}')
        e = c.source_map.get_op_line_and_col__direct(b.offset)
        if e is None or e.line != ent[o.offset][0]:
            fail(f'op {o.offset} ({name}) is printed in line {ent[o.offset][0]}, but compiling the text places it in {e and e.line}')
    if len(flat) >= 2:
        ctx.nontrivial(text)
    return len(flat)


# ---------------------------------------------------------------- structured texts
def judge(ops, text, sm, ctx, shown):
    fail = semcheck.failer(input=shown, text=text, map=lambda: sm.serialize(True))
    fail.shown = shown
    ent = entries(sm, ops, fail)
    try:
        reader = lang.Parser(text)
        ast = reader.parse()
        r = sem.Ref(ast, env.PERF)
        ref = r.build()
        starts = [x['start'] for x in ref]
        deco.norm_dmode(deco.all_nodes(starts))
        want = deco.machine(ops)
        comp = env.compile_text(text)
        got = deco.machine(comp.routine_ops)
    except Exception as e:
        raise Skip(f'text not usable (C02): {type(e).__name__}')
    if [x['id'] for x in ref] != list(range(len(ops))) or len(got) != len(ops):
        raise Skip('other routines (C02)')
    follows, kinds, inside = {}, {}, {}
    for d in ast.defs:
        after(d, follows, kinds, inside)
    targets = {o.params[-1] if not hasattr(o.params[-1], 'value') else o.params[-1].value for row in ops for o in row
               if o.op_code.name in ssb.JUMPERS and o.params}

    places = {}      # input op -> places of its statements
    who = {}         # statement -> input ops
    passed = {}      # input jump -> places of the jump statements that are passed with it
    must = {}        # input jump -> the statement that is printed for it
    compiled = {}    # statement -> lines that the compiler says
    loops = 0

    def edge(tr, a, b, pa, pb):
        sts = {st.pos for st in pa if st.pos is not None and st.tag in JUMPING}
        for st in pb:
            if st.ref is not None:
                passed.setdefault(st.ref, set()).update(sts)
        if pb and pb[0].ref is not None and sts:
            ri, i = pb[0].ref
            if ops[ri][i].offset not in targets and i > 0 and tr is not None and tr[1].k == 'act' and tr[2] == 'n':
                first = follows.get(tr[1].pos)
                if first is not None and first in sts and places.get((ri, i - 1)) == {(tr[1].pos, 0)}:
                    must[ri, i] = first
        if b.ref is None or a.pos is None:
            return
        at = a.at or (a.pos, 0)
        places.setdefault(b.ref, set()).add(at)
        who.setdefault(id(a), (a, set()))[1].add(b.ref)

    def edge2(tr, a, b, pa, pb):
        if b.ref is None or a.pos is None:
            return
        o = comp.routine_ops[b.ref[0]][b.ref[1]]
        e = comp.source_map.get_op_line_and_col__direct(o.offset)
        compiled.setdefault(id(a), set()).add(None if e is None else e.line)
        sts = {st.pos for st in pa if st.pos is not None and st.tag in JUMPING}
        if len(sts) == 1 and tr is not None and tr[1].k in ('act', 'call') and tr[2] == 'n' and follows.get(tr[1].pos) in sts:
            js = [comp.routine_ops[st.ref[0]][st.ref[1]] for st in pb if st.ref is not None]
            if js:
                es = [comp.source_map.get_op_line_and_col__direct(j.offset) for j in js]
                jlines.setdefault(next(iter(sts)), set()).update(None if e is None else e.line for e in es)

    jlines = {}
    lines = {m.line for _, m in comp.source_map}
    try:
        for a, b, c in zip(starts, want, got):
            if a is None or b is None or c is None:
                if not (a is None and b is None and c is None):
                    raise Skip('other routines (C02)')
                continue
            equiv.compare(a, b, on_edge=edge)
            equiv.compare(a, c, on_edge=edge2)
    except equiv.Diff:
        raise Skip('another behaviour (C02)')
    ctx.count('texts')

    # every op that runs
    n = 0
    heads = {}
    for (ri, i), ps in places.items():
        o = ops[ri][i]
        own = {p for p, k in ps if k == 0}
        e = ent.get(o.offset)
        for p, k in ps:
            heads.setdefault(p, []).append((o, k))
        if not own:
            if e is not None and e not in {p for p, _ in ps}:
                fail(f'op {o.offset} ({o.op_code.name}) is printed in the header at {sorted(p for p, _ in ps)}, but its entry says {e}')
            continue
        if e is None:
            if any(len([1 for st in r.log if st.at and st.at[0] == p]) > 1 for p in own):
                continue    # one of several conditions: judged below
            fail(f'op {o.offset} ({o.op_code.name}) is printed at {sorted(own)}, but has no entry')
        if e not in own:
            fail(f'op {o.offset} ({o.op_code.name}) is printed at {sorted(own)}, but its entry says {e}')
        n += 1
        ctx.saw('forms', o.op_code.name)
        ctx.saw('indents', e[1])
    for p, os in heads.items():
        if not any(ent.get(o.offset) == p for o, _ in os):
            fail(f'the ops {[(o.offset, o.op_code.name) for o, _ in os]} are printed at {p}, but none of them has an entry that says so')
        if any(k for _, k in os):
            ctx.count('or_headers')
    ctx.count('ops_placed', n)
    # jumps
    for (ri, i), ps in passed.items():
        o = ops[ri][i]
        e = ent.get(o.offset)
        if e is None:
            continue
        if e not in ps:
            fail(f'the jump {o.offset} has an entry that says {e}, but no statement is printed for it there (passed: {sorted(ps)})')
        ctx.count('jump_statements')
        if e in jlines and e[0] not in jlines[e] and not (kinds.get(e) == 'break' and e[0] not in lines):
            # (compiling drops the jump of a break that is followed by the end of its switch)
            fail(f'the jump {o.offset} is printed in line {e[0]}, but compiling the text places it in {jlines[e]}')
    for (ri, i), p in must.items():
        o = ops[ri][i]
        ctx.count(kinds[p] + ' statements behind ops')
        if ent.get(o.offset) == p:
            ctx.count(kinds[p] + ' statements of their jumps')
        if ent.get(o.offset) != p:
            fail(f'the jump {o.offset} is printed at {p}, but its entry says {ent.get(o.offset)}')
        ctx.count('jump_statements_owed')
    # ops that never run, if they are printed
    written = {}
    for st in r.log:
        at = st.at or (st.pos, 0)
        written.setdefault(at[0], set()).add(st.op if st.k != 'jmp' else st.tag)
    for ri, row in enumerate(ops):
        for i, o in enumerate(row):
            if (ri, i) in places or (ri, i) in passed or o.offset not in ent:
                continue
            here = written.get(ent[o.offset], set())
            name = o.op_code.name
            if name == 'Jump':
                ok = bool(here & set(JUMPING))
            else:
                # (BranchValue(x, 2, y) is x == y)
                ok = name in here or name == 'BranchValue' and o.params[1] == 2 and 'Branch' in here
            if not ok:
                fail(f'op {o.offset} ({name}) has an entry that says {ent[o.offset]}, where {sorted(map(str, here))} is printed')
            ctx.count('dead_ops_placed')
    have = set(ent.values())
    for st in r.log:
        if id(st) in who or st.k == 'jmp' or st.tag == 'offend':
            continue
        at = st.at or (st.pos, 0)
        if at[0] not in have and st.op not in ('Return', 'End', 'Hold'):
            fail(f'a {st.op} is printed at {at[0]}, but no entry says so')
        ctx.count('dead_statements')
    # compiled again
    for a, refs in who.values():
        if id(a) not in compiled:
            continue
        for ri, i in refs:
            o = ops[ri][i]
            e = ent.get(o.offset)
            if e is None:
                continue
            if compiled[id(a)] != {e[0]}:
                fail(f'op {o.offset} ({o.op_code.name}) is printed in line {e[0]}, but compiling the text places it in {compiled[id(a)]}')
            ctx.count('recompiled_ops')
    # what was seen
    multi = [t for t in reader.toks if t.k in ('mstr', 'str') and '\n' in t.t] + [t for t in reader.toks if t.t in ('english',)]
    first = min((t.line for t in multi), default=None)
    if first is not None:
        ctx.count('multi_line_before', sum(1 for e in ent.values() if e[0] > first))
    for t in reader.toks:
        if t.k == 'kw' and t.t == 'elseif':
            ctx.count('elseif_headers')
        elif t.k == 'kw' and t.t == 'with':
            ctx.count('with_blocks')
        elif t.k == 'kw' and t.t in ('break_loop', 'continue'):
            ctx.count('loop_statements')
    if n >= 2:
        ctx.nontrivial(text)


def after(n, out, kinds, inside, heads=()):
    """place of a statement -> place of the jump statement printed right after it in the same block; the kinds of these and the places of
    the headers of the ifs and switches they are in"""
    if isinstance(n, lang.Node):
        if n.kind == 'if':
            heads += tuple(n.kws) + tuple(c.pos for _, cs, _ in n.arms for c in cs)
        elif n.kind == 'switch':
            heads += (n.pos, n.hpos) + tuple(p for a in n.cases for p in (a.pos, a.header and a.header.pos))
        for v in n.f.values():
            after(v, out, kinds, inside, heads)
    elif isinstance(n, (list, tuple)):
        for x, y in zip(n, n[1:]):
            if isinstance(x, lang.Node) and isinstance(y, lang.Node) and y.kind in ('jump', 'break_loop', 'continue', 'break'):
                out[x.pos] = y.pos
                kinds[y.pos] = y.kind
                inside[y.pos] = set(heads)
        for v in n:
            after(v, out, kinds, inside, heads)
