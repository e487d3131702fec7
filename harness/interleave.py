"""Several threads, or a fault at any line, inside the library. Runs in a child of a process which has only imported the library.

Only one thread runs at a time; a schedule says after how many lines of the library which thread goes on, so that a run can be repeated."""
import json, os, sys, threading
import core

ROOT = os.path.join(core.REPO, "pash_annotations") + os.sep


class Schedule:
    def __init__(self, n, steps, period):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive, self.steps, self.period = [True] * n, list(steps), period
        self.current, self.left, self.switches, self.lines, self.k, self.free = 0, 0, 0, [0] * n, 0, False

    def target(self):
        """next step: number of lines, then who goes on"""
        if self.k < len(self.steps) or self.period:
            self.left, to = self.steps[self.k] if self.k < len(self.steps) else [self.period, self.k]
            self.k += 1
            return to % len(self.alive)
        return None

    def start(self):
        t = self.target()
        self.current = t or 0
        if t is None: self.left = 1 << 60
        self.sems[self.current].release()

    def line(self, me):
        self.lines[me] += 1
        self.left -= 1
        if self.left >= 0 or self.free: return
        to = self.target()
        if to is None: self.left = 1 << 60
        elif to != me and self.alive[to]:
            self.switches += 1
            self.sems[to].release()
            self.wait(me)

    def wait(self, me):
        """a thread which does not go on waits for a lock held by another one: then all of them run freely"""
        seen = None
        while not self.sems[me].acquire(timeout=STALL_S):
            if seen == self.lines:
                self.free = True
                for s in self.sems: s.release()
            seen = list(self.lines)

    def finish(self, me):
        self.alive[me] = False
        rest = [i for i, a in enumerate(self.alive) if a]
        if rest: self.sems[rest[me % len(rest)]].release()


def tracer(on_line):
    def local(frame, event, arg):
        if event == "line": on_line()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    return trace


STALL_S = 3
SHARED = ("io", "para", "applied", "inferred", "derived", "parse")


class Shared:
    """what was asked before the threads start, or before the fault: commands and their annotations"""
    def __init__(self, texts, indices):
        import history, lib
        self.inv, self.info, self.para, self.cmd = {}, {}, {}, {}
        for i in indices:
            self.inv[i] = history.obtain(texts[i])
            self.info[i], self.para[i] = lib.io_info(self.inv[i]), lib.para_info(self.inv[i])
            self.cmd[i] = None
            if self.info[i] is not None:
                from checks.c12 import to_vars
                import objs
                cmd = to_vars(self.info[i].apply_input_output_info_to_command_invocation(self.inv[i]))
                if sorted(r for r in cmd[6].values() if r in ("sin", "sout")) == ["sin", "sout"]: self.cmd[i] = objs.build(cmd)

    def ask(self, texts, kind, i):
        """a part of history.view"""
        import history, lib, paraview
        if kind == "view": return history.view(texts[i])
        inv = self.inv[i]
        fos = inv.flag_option_list
        if kind == "parse": return lib.parsed(lib.parse(texts[i]) if isinstance(texts[i], str) else inv)
        if kind in ("io", "applied"):
            info = self.info[i] if kind == "applied" else lib.io_info(inv)
            return None if info is None else [lib.io_view(info.apply_input_output_info_to_command_invocation(inv)), bool(info.has_other_outputs())]
        para = self.para[i] if kind != "para" else lib.para_info(inv)
        if para is None: return None
        ps = para.get_inferred_parallelizer_list()
        if kind == "derived": return None if self.cmd[i] is None else [history.derive(p, self.cmd[i]) for p in ps]
        return [[paraview.parallelizer_view(p, fos) for p in para.parallelizer_list], [paraview.parallelizer_view(p, fos) for p in ps], bool(para.round_robin_compatible_with_cat), bool(para.is_commutative)]


def prepare(case, ops):
    return Shared(case["texts"], sorted({op[1] % len(case["texts"]) for op in ops if op[0] != "view"}))


def run_threads(case):
    texts, work = case["texts"], case["work"]
    shared = prepare(case, [op for w in work for op in w])
    plan = Schedule(len(work), case["steps"], case["period"])
    answers = []

    def body(me):
        plan.wait(me)
        sys.settrace(tracer(lambda: plan.line(me)))
        try:
            for kind, i in work[me]:
                i %= len(texts)
                try: a = shared.ask(texts, kind, i)
                except Exception as e: a = dict(exception="%s: %s" % (type(e).__name__, e))
                answers.append([kind, i, a])
        finally:
            sys.settrace(None)
            plan.finish(me)
    threads = [threading.Thread(target=body, args=(i,)) for i in range(len(work))]
    for t in threads: t.start()
    plan.start()
    for t in threads: t.join()
    for i in range(len(texts)): answers.append(["view", i, shared.ask(texts, "view", i)])
    return dict(answers=answers, switches=plan.switches, lines=plan.lines)


def run_meanwhile(case):
    """at every step-th line of one query, another thread makes a whole query of its own"""
    texts, shared = case["texts"], prepare(case, [case["a"], case["b"]])
    answers, hit, n = {}, 0, case["start"] + 1

    def ask(kind, i):
        i %= len(texts)
        try: a = shared.ask(texts, kind, i)
        except Exception as e: a = dict(exception="%s: %s" % (type(e).__name__, e))
        answers[json.dumps([kind, i, a], sort_keys=True)] = True
    while hit < case["most"]:
        other, left = None, n

        def line():
            nonlocal left, other
            left -= 1
            if left == 0:
                other = threading.Thread(target=ask, args=case["b"])
                other.start()
                other.join(STALL_S)     # it may wait for a lock
        sys.settrace(tracer(line))
        try: ask(*case["a"])
        finally: sys.settrace(None)
        if other is None: break
        other.join()
        hit += 1
        n += case["step"]
    return dict(answers=[json.loads(a) for a in answers], hit=hit)


class Interrupted(BaseException):
    pass


FAULTS = [Interrupted, KeyboardInterrupt, MemoryError, RecursionError, OSError]


def run_faults(case):
    texts, ops = case["texts"], case["ops"]
    shared = prepare(case, ops)
    hit, left = 0, 0

    def line():
        nonlocal left, hit
        left -= 1
        if left == 0:
            hit += 1
            raise error("fault")
    for (kind, i), (n, f) in zip(ops, case["faults"]):
        left, error = n, FAULTS[f % len(FAULTS)]
        sys.settrace(tracer(line))
        try: shared.ask(texts, kind, i % len(texts))
        except BaseException: pass
        finally: sys.settrace(None)
    answers = []
    for kind, i in ops + [["view", i] for i in range(len(texts))]:
        try: a = shared.ask(texts, kind, i % len(texts))
        except Exception as e: a = dict(exception="%s: %s" % (type(e).__name__, e))
        answers.append([kind, i % len(texts), a])
    return dict(answers=answers, hit=hit)
