"""Runs jobs in several threads under schedules that are made, not met."""
import os
import random
import sys
import threading
import time
import traceback
from . import jobs

HERE = os.path.dirname(os.path.abspath(__file__))


class Sched:
    """only the thread with the token runs; at traced points it may have to hand the token over"""

    def __init__(self, n, rng, p, burst):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.blocked = set()  # threads that wait for something of another thread, as far as known
        self.holder = None
        self.rng, self.p, self.burst = rng, p, burst
        self.me = threading.local()
        self.idents = {}
        self.points = self.switches = self.rescued = 0
        self.trail = 0
        self.left = 0
        self.guard = threading.Lock()

    def enter(self, i):
        self.me.i = i
        self.idents[i] = threading.get_ident()
        self.sems[i].acquire()

    def start(self):
        self.give(self.rng.randrange(len(self.sems)))

    def give(self, j):
        self.holder = j
        self.sems[j].release()

    def ready(self, but):
        return sorted(self.alive - self.blocked - {but})

    def point(self):
        i = getattr(self.me, 'i', None)
        if i is None:
            return
        wait = False
        with self.guard:
            if self.holder != i:  # had been taken for blocked, and goes on now
                self.blocked.discard(i)
                if self.holder is None:
                    self.holder = i
                else:
                    wait = True
            else:
                self.points += 1
                if self.left > 0:
                    self.left -= 1
                    go = True
                else:
                    go = self.rng.random() < self.p
                    if go and self.burst:
                        self.left = self.rng.randrange(self.burst)  # several switches close together
                if go:
                    others = self.ready(i)
                    if others and (j := self.rng.choice(others + [i])) != i:
                        self.switches += 1
                        self.trail = hash((self.trail, i, j, self.points))
                        self.give(j)
                        wait = True
        if wait:
            self.sems[i].acquire()

    def leave(self, i):
        with self.guard:
            self.alive.discard(i)
            self.blocked.discard(i)
            self.me.i = None
            if self.holder == i:
                self.pass_on(i)

    def pass_on(self, i):
        others = self.ready(i)
        if others:
            self.give(self.rng.choice(others))
        else:
            self.holder = None  # the first of the blocked threads that goes on takes it

    def watch(self, done):
        """a thread that has the token, but waits for another one: let the others go on"""
        last, same = None, 0
        while not done.wait(0.01):
            h = self.holder
            f = sys._current_frames().get(self.idents.get(h))
            if h is None or f is None:
                continue
            now = (h, self.points, id(f), f.f_lasti)
            same = same + 1 if now == last else 0
            last = now
            if same >= (2 if 'importlib._bootstrap' in f.f_code.co_filename and f.f_code.co_name == 'acquire' else 30):
                with self.guard:
                    if self.holder == h and self.points == now[1] and h in self.alive:
                        self.rescued += 1
                        self.blocked.add(h)
                        self.pass_on(h)
                same = 0


def tracer(files, hit, opcodes):
    """a trace function that calls hit at every line (or opcode) of code in the given files"""
    cache = {}

    def local(frame, event, arg):
        if event == 'line' or event == 'opcode':
            hit()
        return local

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        w = cache.get(name)
        if w is None:
            w = cache[name] = any(f in name for f in files) and not name.startswith(HERE)
        if w:
            if opcodes:
                frame.f_trace_opcodes = True
            hit()
            return local
        return None
    return trace


def serve(req):
    """req: root, jobs, threads = [[(index, mode)]], how = {...} -> dict"""
    how = req['how']
    rng = random.Random(how['seed'])
    n = len(req['threads'])
    results = [[] for _ in range(n)]
    held = [None] * n
    states = [jobs.State(req['root']) for _ in range(n)]
    barrier = threading.Barrier(n + 1)
    info = {'points': 0, 'switches': 0, 'rescued': 0, 'trail': 0, 'sleeps': 0}
    sched = None
    trace = None
    if how['mode'] == 'sched':
        sched = Sched(n, rng, how['p'], how.get('burst', 0))
        trace = tracer(how['files'], sched.point, how.get('opcodes', False))
    elif how['mode'] == 'delay':
        rnd, p, longest = rng.random, how['p'], how['longest']

        def hit():
            info['points'] += 1
            if rnd() < p:
                info['sleeps'] += 1
                time.sleep(rnd() * longest)
        trace = tracer(how['files'], hit, how.get('opcodes', False))
    for i in how.get('warm', ()):
        jobs.State(req['root']).run(req['jobs'][i])

    def work(t):
        barrier.wait()
        if sched:
            sched.enter(t)
        try:
            if trace:
                sys.settrace(trace)
            for i, mode in req['threads'][t]:
                results[t].append(states[t].run(req['jobs'][i], mode))
            sys.settrace(None)
            held[t] = states[t].check_held()
        finally:
            sys.settrace(None)
            if sched:
                sched.leave(t)

    old = sys.getswitchinterval()
    sys.setswitchinterval(how.get('interval', old))
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(n)]
    for t in ts:
        t.start()
    barrier.wait()
    done = threading.Event()
    if sched:
        w = threading.Thread(target=sched.watch, args=(done,), daemon=True)
        w.start()
        sched.start()
    end = time.time() + how.get('patience', 70)
    for t in ts:
        t.join(max(0, end - time.time()))
    done.set()
    sys.setswitchinterval(old)
    stuck = [t for t in range(n) if ts[t].is_alive()]
    if sched:
        info.update(points=sched.points, switches=sched.switches, rescued=sched.rescued, trail=sched.trail)
    stacks = ''
    if stuck:
        fr = sys._current_frames()
        stacks = '\n'.join(''.join(traceback.format_stack(fr[ts[t].ident])[-6:]) for t in stuck if ts[t].ident in fr)
    return {'results': [list(r) for r in results], 'held': [h for h in held], 'stuck': stuck, 'stacks': stacks, 'info': info}
