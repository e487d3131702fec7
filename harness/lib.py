"""Access to the code under test (public names only) and structural views of its values."""
import enum
from pash_annotations.parser.parser import parse
from pash_annotations.datatypes.BasicDatatypes import (Flag, Option, Operand, ArgStringType, FileName, StdDescriptor, StdDescriptorEnum,
                                                       WhichClassForArg, get_stdin_fd, get_stdout_fd, get_stderr_fd)
from pash_annotations.datatypes.BasicDatatypesWithIO import (FileNameWithIOInfo, StdDescriptorWithIOInfo, OptionWithIO, OperandWithIO,
                                                             make_stdin_with_access_stream_input, make_stdout_with_access_output)
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
from pash_annotations.datatypes.CommandInvocationPrefix import CommandInvocationPrefix
from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars
from pash_annotations.datatypes import AccessKind as AK
from pash_annotations.annotation_generation.AnnotationGeneration import (get_input_output_info_from_cmd_invocation as io_info,
                                                                         get_parallelizability_info_from_cmd_invocation as para_info)
from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.annotation_generation.datatypes.parallelizability import (Aggregator as AGG, AggregatorKind as AGK, AggregatorSpec as AGS,
                                                                                Mapper as MAP, MapperSpec as MS, Parallelizer as PZ,
                                                                                Splitter as SP, TransformerFlagOptionList as TR)

ACCESS = {  # short role -> factory
    "cfg": AK.make_config_input, "sin": AK.make_stream_input, "oin": AK.make_other_input, "container": AK.make_container_for_input,
    "excludes": AK.make_excludes_from_input, "sout": AK.make_stream_output, "oout": AK.make_other_output,
}
PREDICATES = [("cfg", "is_config_input"), ("sin", "is_stream_input"), ("oin", "is_other_input"), ("container", "is_container_for_input"),
              ("excludes", "is_excludes_from_input"), ("sout", "is_stream_output"), ("oout", "is_other_output")]


def role(access):
    """the one role of an access kind"""
    got = [short for short, pred in PREDICATES if getattr(access, pred)()]
    if len(got) != 1:
        from core import Violation
        raise Violation("access kind %r has the roles %r" % (access, got))
    return got[0]


def flagoption(x):
    """(name,) for a flag, (name, argument) for an option"""
    return (x.get_name(),) if isinstance(x, Flag) else (x.get_name(), x.get_arg())


def parsed(inv):
    return (inv.cmd_name, tuple(flagoption(x) for x in inv.flag_option_list), tuple(o.get_name() for o in inv.operand_list))


def arg_view(a):
    """(role, text) of an option argument or operand with I/O info: text is a name or 0/1/2 for a descriptor"""
    if isinstance(a, ArgStringType):
        return ("str", a.get_name())
    if isinstance(a, FileNameWithIOInfo):
        return (role(a.get_access()), a.get_name())
    if isinstance(a, StdDescriptorWithIOInfo):
        return (role(a.get_access()), a.get_type().value)
    from core import Violation
    raise Violation("argument of unexpected type %s" % type(a).__name__)


def io_view(inv):
    """command name, flags/options, operands, implicit input, implicit output of a command with I/O info"""
    return dict(name=inv.cmd_name,
                flagoptions=[(x.get_name(),) if isinstance(x, Flag) else (x.get_name(), arg_view(x.get_arg())) for x in inv.flag_option_list],
                operands=[arg_view(o) for o in inv.operand_list],
                stdin=None if inv.implicit_use_of_streaming_input is None else arg_view(inv.implicit_use_of_streaming_input),
                stdout=None if inv.implicit_use_of_streaming_output is None else arg_view(inv.implicit_use_of_streaming_output))


def attributes(x):
    """the attributes of an object without private ones (which can be caches), or None"""
    if not hasattr(x, "__dict__") and not any("__slots__" in vars(c) for c in type(x).__mro__): return None
    out = dict(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        slots = vars(c).get("__slots__", ())
        out.update({n: getattr(x, n) for n in ([slots] if isinstance(slots, str) else slots) if hasattr(x, n)})
    return {n: v for n, v in out.items() if not n.startswith("_")}


def dump(x, depth=0):
    """structure of any value, independent of its repr and eq"""
    assert depth < 400
    if x is None or isinstance(x, (str, int, float, bool, bytes)):
        return x
    if isinstance(x, enum.Enum):
        return ["enum", type(x).__name__, x.name]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [dump(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return ["dict"] + sorted(([dump(k, depth + 1), dump(v, depth + 1)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((dump(y, depth + 1) for y in x), key=repr)
    a = attributes(x)
    if a is not None:
        return ["obj", type(x).__name__, dump(a, depth + 1)]
    return ["other", type(x).__name__]
