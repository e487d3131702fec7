"""C14: operations on commands with variables touch exactly the selected variables."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import lib, objs

PROPERTY, LEVEL = "C14", "exploration"
RULE = ("history: a command with variables in options, operands and implicit streams, then up to 8 operations (substitute inputs, outputs or both with "
        "fitting or wrong numbers of new variables, rename, remove streaming inputs or outputs, list inputs or outputs, group by role), each applied to the command "
        "and to a model, compared completely after every step. large: the same for commands with up to some hundred options and operands. cat: the concatenating command for any inputs. Non-trivial: the command has variables "
        "and an operation changed something or listed something.")
ASSUMPTIONS = ["every variable occurs once in a command and new variables do not occur in it (as PaSh uses them)"]
IN, OUT = ("sin",), ("sout",)


class Model:
    def __init__(self, d):
        _, self.cmd, fos, ops, self.stdin, self.stdout, amap = d
        self.fos, self.ops, self.amap = [list(f) for f in fos], [list(o) for o in ops], {int(k): r for k, r in amap.items()}

    def places(self):
        """setter, variable for every variable in order"""
        out = []
        for i, f in enumerate(self.fos):
            if f[0] == "optionvar" and f[2][0] == "var": out.append(("fos", i, f[2][1]))
        for i, o in enumerate(self.ops):
            if o[0] == "var": out.append(("ops", i, o[1]))
        if self.stdin is not None: out.append(("stdin", None, self.stdin))
        if self.stdout is not None: out.append(("stdout", None, self.stdout))
        return out

    def select(self, roles):
        return [v for _, _, v in self.places() if self.amap[v] in roles]

    def rename(self, a, b):
        for where, i, v in self.places():
            if v == a:
                if where == "fos": self.fos[i] = [self.fos[i][0], self.fos[i][1], ["var", b]]
                elif where == "ops": self.ops[i] = ["var", b]
                else: setattr(self, where, b)
                self.amap[b] = self.amap.pop(a)

    def remove(self, roles):
        gone = set(self.select(roles))
        self.fos = [f for f in self.fos if not (f[0] == "optionvar" and f[2][0] == "var" and f[2][1] in gone)]
        self.ops = [o for o in self.ops if not (o[0] == "var" and o[1] in gone)]
        if self.stdin in gone: self.stdin = None
        if self.stdout in gone: self.stdout = None
        for v in gone: del self.amap[v]

    def grouped(self):
        """operands and options by the role of their variable; strings count as configuration"""
        role = lambda a: self.amap[a[1]] if a[0] == "var" else "string"
        out = {r: [o for o in self.ops if role(o) == r] for r in ("sin", "oin", "sout", "oout")}
        out["cfg"] = [o for o in self.ops if role(o) in ("cfg", "string")]
        out["options"] = [f for f in self.fos if f[0] == "optionvar" and role(f[2]) == "oout"]
        return out

    def view(self):
        present = {v for _, _, v in self.places()}
        return [self.cmd, self.fos, self.ops, self.stdin, self.stdout, {str(k): r for k, r in self.amap.items() if k in present}]


@st.composite
def history(draw, large=False):
    cmd = draw(objs.large_command_vars() if large else objs.command_vars())
    ops = []
    for _ in range(draw(st.integers(1, 4 if large else 8))):
        k = draw(st.sampled_from(["in", "out", "both", "in+", "in-", "out+", "out-", "both+", "both-", "rename", "rename", "rename-none", "rm-in", "rm-out", "gen-in", "gen-out", "others", "rename-kind", "grouped", "grouped"]))
        ops.append([k, draw(st.integers(0, 300 if large else 9))])
        if k[-1] in "+-":
            break
    return dict(cmd=cmd, ops=ops, step=draw(st.sampled_from([1, 1, 5, -3])), base=draw(st.sampled_from([100, 100, 250, 2 ** 31 - 3, 2 ** 41])), again=draw(st.integers(0, 3)))


def rejected(f, *args):
    try:
        f(*args)
    except Exception:
        return True
    return False


def check_history(case):
    c, m = objs.build(case["cmd"]), Model(case["cmd"])
    fresh, seen = [case["base"]], [v for _, _, v in m.places()]     # again: variables which were replaced before are taken again

    def new(n):
        present, out = {v for _, _, v in m.places()}, []
        for _ in range(n):
            if case["again"]:
                unused = [v for v in seen if v not in present and v not in out]
                if unused:
                    out.append(unused[(case["again"] * 7 + len(out)) % len(unused)])
                    continue
            fresh[0] += case["step"]
            if case["step"] < 0 and fresh[0] <= 40: fresh[0] += 5000
            while fresh[0] in present or fresh[0] in out: fresh[0] += abs(case["step"])
            out.append(fresh[0])
        seen.extend(v for v in out if v not in seen)
        return out
    labels = set()
    for n, (op, k) in enumerate(case["ops"]):
        what = "%s (operation %d of %r on %r)" % (op, n, case["ops"], case["cmd"])
        if op in ("in", "out", "both"):
            ins, outs = m.select(IN), m.select(OUT)
            both = new(len(ins) + len(outs))
            ni, no = both[:len(ins)], both[len(ins):]
            if op != "out":
                for a, b in zip(ins, ni): m.rename(a, b)
            if op != "in":
                for a, b in zip(outs, no): m.rename(a, b)
            if op == "in": c.substitute_inputs_in_cmd_invocation(list(ni))
            elif op == "out": c.substitute_outputs_in_cmd_invocation(list(no))
            else: c.substitute_inputs_and_outputs_in_cmd_invocation(list(ni), list(no))
            if (op != "out" and ins) or (op != "in" and outs): labels.add("substituted")
        elif op[-1] in "+-" and op[:-1] in ("in", "out"):
            have = m.select(IN if op[:-1] == "in" else OUT)
            number = len(have) + (1 + k % 2) if op[-1] == "+" else len(have) - 1
            if number < 0: continue
            f = c.substitute_inputs_in_cmd_invocation if op[:-1] == "in" else c.substitute_outputs_in_cmd_invocation
            expect(rejected(f, new(number)), "%d variables for %d places are not rejected: %s", number, len(have), what)
            labels.add("rejected")
            break
        elif op in ("both+", "both-"):      # the number of new inputs, of new outputs, or both, does not fit
            ins, outs = len(m.select(IN)), len(m.select(OUT))
            d = 1 if op == "both+" else -1
            numbers = [(ins + d, outs), (ins, outs + d), (ins + d, outs + d), (ins + d, outs - d)][k % 4]
            if min(numbers) < 0: continue
            both = new(sum(numbers))
            expect(rejected(c.substitute_inputs_and_outputs_in_cmd_invocation, both[:numbers[0]], both[numbers[0]:]),
                   "%r variables for %r places are not rejected: %s", numbers, (ins, outs), what)
            labels.add("rejected")
            break
        elif op.startswith("rename"):
            places = m.places()
            (b,) = new(1)
            if op == "rename-none" or not places:
                c.replace_var(7777, b)
            else:
                a = places[k % len(places)][2]
                m.rename(a, b)
                c.replace_var(a, b)
                labels.add("renamed")
        elif op == "rm-in":
            if m.select(IN): labels.add("removed")
            m.remove(IN); c.remove_streaming_inputs()
        elif op == "rm-out":
            if m.select(OUT): labels.add("removed")
            m.remove(OUT); c.remove_streaming_outputs()
        elif op == "gen-in":
            got = c.generate_inputs()
            same(inputs_view(got), ([], m.select(IN)), "inputs listed by " + what)
            if m.select(IN): labels.add("listed")
        elif op == "gen-out":
            same(list(c.generate_outputs()), m.select(("sout", "oout")), "outputs listed by " + what)
            if m.select(("sout", "oout")): labels.add("listed")
        elif op == "grouped":
            same(grouped_view(c), m.grouped(), "operands and options grouped by role: " + what)
            if any(m.grouped().values()): labels.add("grouped")
        else:
            same(bool(c.has_other_outputs()), bool(m.select(("oout",))), "has_other_outputs: " + what)
        same(objs.vcmd(c), m.view(), "command after " + what)
        for f in c.flag_option_list:
            expect(type(f) in (lib.Flag, lib.OptionWithIOVar), "%s in the options after %s", type(f).__name__, what)
    return sorted(labels) if labels else None


def grouped_view(c):
    operands = dict(cfg=c.get_operands_with_config_input, sin=c.get_operands_with_stream_input, oin=c.get_operands_with_other_input,
                    sout=c.get_operands_with_stream_output, oout=c.get_operands_with_other_output)
    out = {r: [objs.varg(o) for o in f()] for r, f in operands.items()}
    out["options"] = [objs.vfo(o) for o in c.get_options_with_other_output()]
    return out


def inputs_view(i):
    expect(i.is_streaming(), "inputs are not streaming")
    same(list(i.get_all_inputs()), list(i.get_config_inputs()) + list(i.get_streaming_inputs()), "all inputs")
    return (list(i.get_config_inputs()), list(i.get_streaming_inputs()))


@st.composite
def cat(draw):
    return draw(st.one_of(st.lists(st.integers(0, 50), min_size=1, max_size=6, unique=True), st.tuples(st.integers(1, 300), st.sampled_from([1, 3, -1])).map(
        lambda t: [1000 + t[1] * k for k in range(t[0])])))


def check_cat(case):
    ins, out = case[1:], case[0]
    c = lib.CommandInvocationWithIOVars.make_cat_command_invocation_with_io_vars(list(ins), out)
    same(objs.vcmd(c), ["cat", [], [["var", v] for v in ins], None, out, {str(v): "sin" for v in ins} | {str(out): "sout"}], "concatenating command for %r" % (case,))
    return ["cat"] if ins else None


def subs():
    return [Sub("history", history, check_history, 20000, 150000), Sub("large", lambda: history(True), check_history, 3000, 25000), Sub("cat", cat, check_cat, 500, 2000)]
