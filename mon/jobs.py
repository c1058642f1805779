"""Calls of the compiler and the decompiler as data, and what they return in full."""
from __future__ import annotations
import json
import os
import pickle
import sys
from . import env

# a job is a dict: op = exps | ssbs | dec | decs | cli | compdec, and its input


def param(p):
    t = type(p).__name__
    if isinstance(p, int):
        return (t, p)
    if t == 'SsbOpParamConstString':
        return (t, p.name)
    if t == 'SsbOpParamLanguageString':
        return (t, tuple(p.strings.items()))
    if t == 'SsbOpParamPositionMarker':
        return (t, p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    return (t, str(p))


def ops(rows):
    if rows is None:
        return None
    return [[(o.offset, o.op_code.id, o.op_code.name, [param(p) for p in o.params]) for o in row] for row in rows]


def infos(xs):
    if xs is None:
        return None
    return [None if i is None else (i.type.name, i.linked_to, i.linked_to_name) for i in xs]


def smap(m):
    return None if m is None else m.serialize()


def compiled(c):
    out = {'infos': infos(c.routine_infos), 'ops': ops(c.routine_ops), 'names': None if c.named_coroutines is None else list(c.named_coroutines),
           'map': smap(c.source_map)}
    if hasattr(c, 'macros'):
        out['macros'] = {k: (m.name, list(m.variables), m.included__relative_path, m.included__absolute_path) for k, m in c.macros.items()}
        out['imports'] = list(c.imports)
    return out


def show_set(s):
    i, rows, coros = s
    return repr((infos(i), ops(rows), [(c.id, c.name) for c in coros]))


class State:
    """what one process keeps between jobs: instances to use again, sets given more than once, results held"""

    def __init__(self, root=None):
        self.root = root
        self.compilers = {}
        self.sets = {}
        self.decompilers = {}
        self.held = []

    def run(self, job, mode=''):
        """('ok', result) | ('raised', type); mode: letters r = reuse instances, s = the same set object, h = hold the result"""
        try:
            return ('ok', getattr(self, 'do_' + job['op'])(job, mode))
        except Exception as e:
            return ('raised', type(e).__name__)

    def hold(self, mode, view, *objs):
        out = view(*objs)
        if 'h' in mode:
            self.held.append((view, objs, out))
        return out

    def check_held(self):
        """results that are not what they were when they were returned"""
        bad = []
        for view, objs, out in self.held:
            now = view(*objs)
            if now != out:
                bad.append((repr(out)[:3000], repr(now)[:3000]))
        return bad

    def do_exps(self, job, mode):
        files = job.get('files') or {}
        for rel, text in files.items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf8', newline='') as f:
                f.write(text)
        for rel in job.get('missing') or ():
            p = os.path.join(self.root, rel)
            if os.path.exists(p):
                os.remove(p)
        lookup = tuple(os.path.join(self.root, d) for d in job.get('lookup') or ())
        key = ('exps', lookup, job.get('perf', env.PERF))
        c = self.compilers.get(key) if 'r' in mode else None
        if c is None:
            c = env.ExplorerScriptSsbCompiler(job.get('perf', env.PERF), list(lookup))
            if 'r' in mode:
                self.compilers[key] = c
        name = os.path.join(self.root, job['main']) if job.get('main') else job.get('name', 'main.exps')
        try:
            c.compile(job['text'], name)
        except Exception:
            if c.routine_ops is not None:
                raise AssertionError('failed, but has ops')
            raise
        return self.parts(mode, c) if 'h' in mode else compiled(c)

    def parts(self, mode, c):
        self.hold(mode, lambda i, o, n, m: (infos(i), ops(o), list(n), smap(m)), c.routine_infos, c.routine_ops, c.named_coroutines, c.source_map)
        return compiled(c)

    def do_ssbs(self, job, mode):
        c = self.compilers.get('ssbs') if 'r' in mode else None
        if c is None:
            c = env.SsbScriptSsbCompiler()
            if 'r' in mode:
                self.compilers['ssbs'] = c
        c.compile(job['text'])
        return self.parts(mode, c) if 'h' in mode else compiled(c)

    def the_set(self, job, mode):
        if 's' not in mode:
            return pickle.loads(job['set'])
        k = job['set']
        if k not in self.sets:
            self.sets[k] = pickle.loads(k)
        return self.sets[k]

    def do_dec(self, job, mode, cls='es'):
        s = self.the_set(job, mode)
        before = show_set(s)
        key = (job['set'], cls)
        d = self.decompilers.get(key) if 'r' in mode and 's' in mode else None
        if d is None:
            if cls == 'es':
                d = env.ExplorerScriptSsbDecompiler(s[0], s[1], s[2], job.get('perf', env.PERF), env.dmc())
            else:
                d = env.SsbScriptSsbDecompiler(s[0], s[1], s[2])
            if 'r' in mode and 's' in mode:
                self.decompilers[key] = d
        try:
            text, m = d.convert()
        finally:
            after = show_set(s)
        out = (text, self.hold(mode, smap, m))
        return out if after == before else out + ('the set changed', before, after)

    def do_decs(self, job, mode):
        return self.do_dec(job, mode, 'ssbs')

    def do_compdec(self, job, mode):
        """a text compiled and its result, as it is, decompiled"""
        c = env.ExplorerScriptSsbCompiler(env.PERF, [])
        c.compile(job['text'], 'main.exps')
        coros = [env.SsbCoroutine(i, n) for i, n in enumerate(c.named_coroutines) if isinstance(n, str)]
        before = compiled(c)
        text, m = env.ExplorerScriptSsbDecompiler(c.routine_infos, c.routine_ops, coros, env.PERF, env.dmc()).convert()
        out = (before, text, smap(m))
        return out if compiled(c) == before else out + ('the ops changed',)

    def do_cli(self, job, mode):
        import explorerscript.cli.decompile as cli
        if not hasattr(cli, 'read_routines'):
            return ('', '')
        i, coros, rows = cli.read_routines(json.loads(job['doc'])['routines'])
        text, m = env.ExplorerScriptSsbDecompiler(i, rows, coros, env.PERF, env.dmc()).convert()
        return (text, smap(m))


def under_limit(n, f):
    """run f with n frames left at most; what it does is of no interest"""
    depth = 0
    fr = sys._getframe()
    while fr is not None:
        depth += 1
        fr = fr.f_back
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(depth + n)
        f()
    except RecursionError:
        pass
    finally:
        sys.setrecursionlimit(old)
