"""extserver.py COPY: asks a scratch copy of the library, to which commands were added, about command lines.
Input: one JSON list of command lines; output: one JSON list of the answers."""
import json, os, sys


def answer(lib, paraview, line):
    inv = lib.parse(line)
    info, para = lib.io_info(inv), lib.para_info(inv)
    out = dict(parsed=lib.parsed(inv), io=None, para=None)
    if info is not None:
        out["io"] = dict(lib.io_view(info.apply_input_output_info_to_command_invocation(inv)), other_outputs=bool(info.has_other_outputs()))
    if para is not None:
        view = lambda l: [paraview.parallelizer_view(p, inv.flag_option_list) for p in l]
        inferred, rr, commutative = para.unpack_info()
        out["para"] = dict(parallelizers=view(para.parallelizer_list), inferred=view(inferred), round_robin_compatible=bool(rr), commutative=bool(commutative))
    return out


if __name__ == "__main__":
    copy = sys.argv[1]
    sys.path[:0] = [copy, os.path.dirname(os.path.abspath(__file__))]
    import lib, paraview
    for m in ("pash_annotations.parser.parser", "pash_annotations.annotation_generation.AnnotationGeneration"):
        assert sys.modules[m].__file__.startswith(copy)
    out = []
    for line in json.load(sys.stdin):
        try:
            out.append(["ok", answer(lib, paraview, line)])
        except Exception as e:
            out.append(["exception", "%s: %s" % (type(e).__name__, e)])
    json.dump(out, sys.stdout)
