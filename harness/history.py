"""Answers of the library in pristine processes: a server which has only imported the library and forks a child for every request.

view(text)     everything the library says about a command line (or a command made by the program), through public names
run(history)   does the operations of a history and afterwards asks about commands
"""
import enum, json, os, signal, subprocess, sys


def obtain(text):
    """a command: parsed from a text, or made by the program from [name, flags and options, operands]"""
    import lib
    if isinstance(text, str): return lib.parse(text)
    return lib.CommandInvocationInitial(text[0], [lib.Flag(f[0]) if len(f) == 1 else lib.Option(f[0], f[1]) for f in text[1]], [lib.Operand(o) for o in text[2]])


def view(text):
    import lib, objs, paraview
    from checks.c12 import to_vars
    from core import Violation
    try:
        inv = obtain(text)
        out = dict(parse=lib.parsed(inv), io=None, para=None)
        info, para = lib.io_info(inv), lib.para_info(inv)
        cmd = None
        if info is not None:
            with_io = info.apply_input_output_info_to_command_invocation(inv)
            out["io"] = [lib.io_view(with_io), bool(info.has_other_outputs())]
            cmd = to_vars(with_io)
        if para is not None:
            fos = inv.flag_option_list
            ps = para.get_inferred_parallelizer_list()
            out["para"] = [[paraview.parallelizer_view(p, fos) for p in para.parallelizer_list], [paraview.parallelizer_view(p, fos) for p in ps],
                           bool(para.round_robin_compatible_with_cat), bool(para.is_commutative)]
            if cmd is not None and sorted(r for r in cmd[6].values() if r in ("sin", "sout")) == ["sin", "sout"]:
                out["derived"] = [derive(p, objs.build(cmd)) for p in ps]
        if lib.parsed(inv) != out["parse"]:
            raise Violation("asking about %r changed the command to %r" % (text, lib.parsed(inv)))
        return json.loads(json.dumps(out))
    except Violation:
        raise
    except Exception as e:
        return dict(exception=type(e).__name__)


def derive(p, C):
    import objs
    k = p.get_info_mapper_aggregator()
    m = p.get_actual_mapper(C, 1000, 1001, [1002 + j for j in range(k)])
    if k:
        a = p.get_actual_2_ary_aggregator_with_aux(10, [11 + j for j in range(k)], 20, [21 + j for j in range(k)], 30, [31 + j for j in range(k)])
    else:
        a = p.get_actual_aggregator(C, [1000] if p.get_aggregator_spec().is_aggregator_spec_adj_lines_func() else [1000, 1001], 1100)
    return [None if x is None else objs.vcmd(x) for x in (m, a)]


def deep_damage(x, how, lib):
    """any object, list or map an answer consists of is changed"""
    parts, seen, todo = [], set(), [x]
    while todo:
        y = todo.pop()
        if id(y) in seen: continue
        seen.add(id(y))
        if isinstance(y, (list, dict)):
            parts.append(y)
            todo.extend(y if isinstance(y, list) else y.values())
        elif isinstance(y, tuple): todo.extend(y)
        elif not isinstance(y, (enum.Enum, type)) and lib.attributes(y):
            parts.append(y)
            todo.extend(lib.attributes(y).values())
    if not parts: return
    y = parts[how % len(parts)]
    if isinstance(y, (list, dict)): y.clear()
    else:
        names = sorted(lib.attributes(y))
        setattr(y, names[how // len(parts) % len(names)], "junk")


def damage(x, how, lib):
    """a caller changes an answer: its lists, maps and attributes, but no values (flags, options, access kinds)"""
    name = type(x).__name__
    if isinstance(x, list):
        for y in list(x):
            if type(y).__name__ == "Parallelizer": damage(y, how, lib)
        if how % 4 == 0: x.clear()
        elif how % 4 == 1: x.append(None)
        elif how % 4 == 2: x.reverse()
        else: x.extend(list(x))
        return
    if isinstance(x, dict):
        if how % 2: x.clear()
        else: x["junk"] = None
        return
    if name == "InputOutputInfo":
        if how % 3 == 0:
            x.set_typer_for_flagoptions([])
        elif how % 3 == 1:
            x.all_operands_are_other_outputs(); x.set_implicit_use_of_streaming_input(None); x.set_implicit_use_of_streaming_output(None)
        else:
            x.set_all_operands_as_config_arg_type_string(); x.set_implicit_use_of_stdin(True); x.set_implicit_use_of_stdout(True)
    elif name == "ParallelizabilityInfo":
        if how % 3 == 0: x.set_commutative()
        elif how % 3 == 1: x.append_to_parallelizer_list(lib.PZ.make_parallelizer_indiv_files())
        else: x.round_robin_compatible_with_cat = not x.round_robin_compatible_with_cat
    elif name == "Parallelizer":
        if how % 5 == 0: x.splitter = lib.SP.make_splitter_indiv_files()
        elif how % 5 == 1: x.core_mapper_spec.is_implemented = not x.core_mapper_spec.is_implemented
        elif how % 5 == 2: x.core_aggregator_spec.is_implemented = not x.core_aggregator_spec.is_implemented
        elif how % 5 == 3: x.info_mapper_aggregator += 1
        else: x.core_aggregator_spec.kind = lib.AGK.AggregatorKindEnum.CONCATENATE
        return
    elif hasattr(x, "cmd_name"):
        if how % 2:
            x.cmd_name = "junk"
            for a in ("implicit_use_of_streaming_input", "implicit_use_of_streaming_output"):
                if hasattr(x, a): setattr(x, a, None)
    for y in list((lib.attributes(x) or {}).values()):
        if isinstance(y, (list, dict)) and how % 7: damage(y, how // 7, lib)


def modifiable(x, out, lib):
    """identities of the modifiable parts of an answer: the objects, lists and maps it consists of"""
    if isinstance(x, tuple):
        for y in x: modifiable(y, out, lib)
    elif isinstance(x, (list, dict)):
        out[id(x)] = "list or map %.200r" % (x,)
        for y in (x if isinstance(x, list) else x.values()): modifiable(y, out, lib)
    elif not isinstance(x, (enum.Enum, type)) and lib.attributes(x) is not None:
        if id(x) in out: return
        out[id(x)] = "%s %.200r" % (type(x).__name__, x)
        for y in lib.attributes(x).values(): modifiable(y, out, lib)


def run(case):
    """list of [index, view], in the order in which the history asks; raises Violation"""
    import lib, objs
    from checks.c12 import to_vars
    from core import Violation
    texts = case["texts"]
    invs, state, views, keep, tainted = {}, {}, [], [], set()
    counts = dict(queries=0, damages=0)

    def inv(i, fresh=False):
        if fresh or i not in invs or i in tainted:
            invs[i] = obtain(texts[i])
            tainted.discard(i)
            state.pop(i, None)
            keep.append((i, invs[i]))
        return invs[i]

    def answer(i, kind):
        st = state.setdefault(i, {})
        c = inv(i)
        st = state.setdefault(i, {})
        before = lib.dump(c)
        counts["queries"] += 1
        if kind == "io": r = lib.io_info(c)
        elif kind == "para": r = lib.para_info(c)
        elif kind == "applied":
            info = answer(i, "io")
            r = None if info is None else info.apply_input_output_info_to_command_invocation(c)
        elif kind == "inferred":
            info = answer(i, "para")
            r = None if info is None else info.get_inferred_parallelizer_list()
        elif kind == "derived":
            ps, a = answer(i, "inferred"), answer(i, "applied")
            r = None
            if ps and a is not None:
                cmd = to_vars(a)
                if sorted(x for x in cmd[6].values() if x in ("sin", "sout")) == ["sin", "sout"]:
                    C = objs.build(cmd)
                    r = []
                    for p in ps:
                        k = p.get_info_mapper_aggregator()
                        r.append(p.get_actual_mapper(C, 1000, 1001, [1002 + j for j in range(k)]))
                        if not k:
                            r.append(p.get_actual_aggregator(C, [1000] if p.get_aggregator_spec().is_aggregator_spec_adj_lines_func() else [1000, 1001], 1100))
        if lib.dump(c) != before:
            raise Violation("asking for %s changed the command %r to %r" % (kind, texts[i], lib.parsed(c)))
        st[kind] = r
        keep.append((i, r))
        return r
    for op in case["ops"]:
        kind, i = op[0], op[1] % len(texts)
        try:
            if kind == "parse": inv(i, True)
            elif kind == "view": views.append([i, view(texts[i])])
            elif kind == "damage":
                what = ["io", "para", "applied", "inferred", "derived", "command"][op[2] % 6]
                r = inv(i) if what == "command" else state.get(i, {}).get(what)
                if r is not None:
                    counts["damages"] += 1
                    for y in r if what == "derived" else [r]:
                        if y is not None: (deep_damage if op[3] > 70 else damage)(y, op[3], lib)
                    tainted.add(i)
            else: answer(i, kind)
        except Violation: raise
        except Exception: tainted.add(i)        # lookups must not fail, but that is another property (C07)
    for i in range(len(texts)):
        views.append([i, view(texts[i])])
    # no two commands share a modifiable part of their answers (what was damaged may contain anything)
    if not counts["damages"]:
        owner = {}
        for i, x in keep:
            parts = {}
            for y in (x if isinstance(x, list) else [x]): modifiable(y, parts, lib)
            if isinstance(x, list): parts[id(x)] = "list"
            for k, what in parts.items():
                if owner.setdefault(k, i) != i and texts[owner[k]] != texts[i]:
                    raise Violation("answers for %r and %r share the %s" % (texts[owner[k]], texts[i], what))
    return dict(views=views, counts=counts)


def serve():
    import lib, objs, paraview, core, interleave        # only imported: nothing was ever asked in this process
    from checks import c12
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    inp, answers = os.fdopen(int(sys.argv[1])), os.fdopen(int(sys.argv[2]), "w")
    for line in inp:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                try:
                    if "history" in req: out = run(req["history"])
                    elif "threads" in req: out = interleave.run_threads(req["threads"])
                    elif "faults" in req: out = interleave.run_faults(req["faults"])
                    elif "meanwhile" in req: out = interleave.run_meanwhile(req["meanwhile"])
                    else: out = dict(view=view(req["text"]))
                except core.Violation as e:
                    out = dict(violation=str(e))
                except Exception as e:
                    import traceback
                    out = dict(error=traceback.format_exc())
                with os.fdopen(w, "w") as f: f.write(json.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f: data = f.read()
        os.waitpid(pid, 0)
        answers.write((data or json.dumps(dict(error="child died"))) + "\n")
        answers.flush()


class Server:
    """requests and answers go through pipes of their own, so that the standard streams can be anything"""
    def __init__(self, hashseed, cwd, env={}, terminal=False, args=()):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), **env)
        r, out = os.pipe()
        inp, w = os.pipe()
        tty = os.openpty() if terminal else None
        std = tty[1] if tty else subprocess.DEVNULL
        self.p = subprocess.Popen([sys.executable, *args, os.path.abspath(__file__), str(inp), str(out)], stdin=std, stdout=std, stderr=std if tty else None, cwd=cwd, env=env, pass_fds=[inp, out])
        for fd in [inp, out] + ([tty[1]] if tty else []): os.close(fd)
        self.tty = tty and tty[0]
        self.w, self.r = os.fdopen(w, "w"), os.fdopen(r)

    def ask(self, **req):
        self.w.write(json.dumps(req) + "\n")
        self.w.flush()
        line = self.r.readline()
        if not line: raise RuntimeError("server died")
        out = json.loads(line)
        if "error" in out: raise RuntimeError(out["error"])
        return out


if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    import core
    sys.path.insert(0, core.REPO)
    serve()
