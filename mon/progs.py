"""Profiles of random programs shared by the checks."""
from __future__ import annotations
from .gen_prog import G, render
from . import lang, sem

PROFILES = {
    'mixed': {},
    'deep': dict(max_depth=6, max_body=2),
    'wide': dict(max_body=11, max_depth=2),
    'loops': dict(switches=False, msg=False, jumps=False, max_depth=4),
    'structured': dict(jumps=False, labels=False, calls=False),
    'switches': dict(loops=False, jumps=False, max_depth=3, ifs=False),
    'labels': dict(max_depth=2, msg=False, ctx=False, max_body=7),
    'ctx': dict(ctx_flow=True, max_depth=2),
    'noend': dict(terminate=0.0),
    'tiny': dict(max_depth=1, max_body=2),
    'tinydeep': dict(max_depth=3, max_body=1, strs=False, pos=False),
}
STYLES = ['pretty', 'pretty', 'dense', 'oneline', 'random']


def make(rng, profile=None, style=None, rich=False, routines=None, coro=None, **opt):
    profile = profile or rng.choice(list(PROFILES))
    g = G(rng, **dict(PROFILES[profile], **opt))
    if routines is None and profile in ('deep', 'wide') and rng.random() < 0.05:
        routines = rng.randrange(5, 14)
    g.file(routines=routines, coro=coro)
    return g.t, render(g.t, rng, style or rng.choice(STYLES), rich), profile


def reference(src, perf):
    """(ast, routines) or raises Meaningless / LangError"""
    ast = lang.parse(src)
    return ast, sem.Ref(ast, perf).build()


def by_id(ref):
    """routines in table order, or None if the ids are not 0, 1, 2 ... (no meaning is documented for gaps)"""
    if [r['id'] for r in ref] != list(range(len(ref))):
        return None
    return ref


def macro_set(rng, k=None, **opt):
    """[(name, params, tokens)] of an acyclic set; macro i only calls macros j > i"""
    k = k or rng.choice([1, 1, 2, 2, 3, 3, 4, 6] if rng.random() < 0.97 else [9, 12])
    pool = ['$a', '$b', '$c', '$p0', '$a1']
    heads = []
    for i in range(k):
        n = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.96 else rng.randrange(4, 13)
        ps = rng.sample(pool, n) if n <= len(pool) and rng.random() < 0.7 else [f'$m{i}_{j}' for j in range(n)]
        heads.append((rng.choice(['m', 'macro_', 'M']) + str(i), ps))
    out = []
    for i, (name, ps) in enumerate(heads):
        callees = [(n, p, False) for n, p in heads[i + 1:]]
        rng.shuffle(callees)
        callees = callees[:2]
        o = dict(max_depth=rng.choice([0, 1, 1, 2]), max_body=rng.choice([1, 2, 3]), macros=tuple(callees),
                 params=tuple(ps), macro_body=True, block_enders=True, terminate=0.25)
        o.update(opt)
        g = G(rng, **o)
        g.w('macro', name, '(')
        for j, p in enumerate(ps):
            if j:
                g.w(',')
            g.w(p)
        g.w(')', '{', ('in',))
        g.nl()
        g.body()
        if g.lrefs and not g.labels:
            g.w(('ldef',), g.new_label(), ';')
            g.nl()
        g.resolve_labels()
        g.w(('out',), '}')
        g.nl()
        out.append((name, ps, g.t))
    return out


CONSTS_PERF = ['ACTOR_PLAYER', 'LEVEL_T00', '$GLOBAL', '$VAR_2', 'PERFORMANCE_PROGRESS_LIST', 'b_1']


def with_macros(rng, tokens_only=False, **opt):
    ms = macro_set(rng, plain_consts=CONSTS_PERF if rng.random() < 0.4 else None, **opt)
    g = G(rng, **dict(dict(max_depth=2, max_body=4, macros=tuple((n, p, False) for n, p, _ in ms),
                           plain_consts=CONSTS_PERF if rng.random() < 0.4 else None), **opt))
    g.file()
    order = [t for _, _, t in ms]
    rng.shuffle(order)
    if rng.random() < 0.2:
        cut = rng.randrange(len(order) + 1)
        toks = [x for t in order[:cut] for x in t] + g.t + [x for t in order[cut:] for x in t]
    else:
        toks = [x for t in order for x in t] + g.t
    if tokens_only:
        return toks
    return render(toks, rng, rng.choice(STYLES), rng.random() < 0.2)
