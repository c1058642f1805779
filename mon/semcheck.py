"""Monitor: a compilation result behaves like the reference automaton of its source."""
from __future__ import annotations
from . import ssb, equiv
from .core import Violation


KIND_TYPES = {'generic': 'GENERIC', 'actor': 'ACTOR', 'object': 'OBJECT', 'performer': 'PERFORMER', 'coro': 'COROUTINE'}


def norm_link(link):
    if link[0] == 'int':
        return link[1], None
    return -1, link[1]


def info_of(info):
    """(kind, target, name of target) of a compiled / given routine info"""
    return info.type.name, info.linked_to, info.linked_to_name


def check_tables(ref, infos, names, fail):
    """ids, kinds, targets, names"""
    if len(ref) != len(infos):
        fail(f'{len(ref)} routines in the source, {len(infos)} in the result')
    for r, info in zip(ref, infos):
        want = KIND_TYPES[r['kind']]
        if info.type.name != want:
            fail(f'routine {r["id"]} is {want} in the source, but {info.type.name} in the result')
        if r['link'] is not None and r['link'][0] in ('int', 'const'):
            wi, wn = norm_link(r['link'])
            if (info.linked_to, info.linked_to_name) != (wi, wn):
                fail(f'routine {r["id"]} targets {r["link"][1]!r} in the source, but '
                     f'{(info.linked_to, info.linked_to_name)} in the result')
    if any(r['kind'] == 'coro' for r in ref):
        want = [r['name'] for r in ref]
        if list(names) != want:
            fail(f'coroutine names {want} in the source, {list(names)} in the result')


def check_flow(ref, routine_ops, fail, ctx=None, on_pair=None):
    """each routine of the result runs like the reference; returns (pairs, tests)"""
    try:
        m = ssb.Machine(routine_ops)
        pairs = tests = 0
        for i, r in enumerate(ref):
            if r['alias']:
                if routine_ops[i]:
                    fail(f'routine {i} is an alias, but has {len(routine_ops[i])} ops of its own')
                continue
            p, t = equiv.compare(r['start'], m.start(i), on_pair)
            pairs += p
            tests += t
        return pairs, tests
    except equiv.Diff as d:
        tr = d.trace
        fail(f'routine {i}: {d.msg}\nafter: ' + ' ; '.join(tr[-25:]))
    except ssb.Malformed as e:
        fail(f'the result can not be run: {e}')


def dump(routine_ops):
    return '\n'.join(f'[{i}] ' + ' | '.join(
        f'{o.offset}:{o.op_code.name}({", ".join(map(_show, o.params))})' for o in ops) for i, ops in enumerate(routine_ops))


def _show(p):
    if isinstance(p, int):
        return str(p)
    return repr(ssb.canon(p)[1:])


def failer(**payload):
    def fail(msg, key=None):
        raise Violation(msg, {k: (v() if callable(v) else v) for k, v in payload.items()}, key)
    return fail
