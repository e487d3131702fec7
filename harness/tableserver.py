"""tableserver.py COPY: parses command lines with given tables, in a scratch copy of the library whose data directory it may write.
Input: one JSON object per line, {"name": command name, "table": table, "lines": [command lines]}; output: the parses."""
import json, os, sys

if __name__ == "__main__":
    copy = sys.argv[1]
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [copy, here]
    import lib
    assert sys.modules["pash_annotations"].__file__ is None or sys.modules["pash_annotations"].__file__.startswith(copy)
    assert sys.modules["pash_annotations.parser.parser"].__file__.startswith(copy)
    data = os.path.join(copy, "pash_annotations", "parser", "command_flag_option_info", "data")
    for line in sys.stdin:
        req = json.loads(line)
        path = os.path.join(data, req["name"] + ".json")
        with open(path, "w") as f: f.write(req["table"])
        out = []
        for l in req["lines"]:
            try:
                inv = lib.parse(l)
                out.append(["ok", lib.parsed(inv)])
            except Exception as e:
                out.append(["exception", "%s: %s" % (type(e).__name__, e)])
        os.unlink(path)
        print(json.dumps(out), flush=True)
