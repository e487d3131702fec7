From 8e7a69e88e26ad7b567dd007d6cebbe302a7d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 01/42] fix: inferring parallelizers must not change the stored
 parallelizer list

get_inferred_parallelizer_list appended to (and iterated over) the list held by
the ParallelizabilityInfo, so every further unpack_info added duplicates.
---
 .../annotation_generation/datatypes/ParallelizabilityInfo.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
index c329b81..af80928 100644
--- a/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
+++ b/pash_annotations/annotation_generation/datatypes/ParallelizabilityInfo.py
@@ -29,7 +29,7 @@ class ParallelizabilityInfo:
 
     def get_inferred_parallelizer_list(self):
         # add round robin with unwrap parallelizer for commutative command
-        parallelizer_list = self.parallelizer_list
+        parallelizer_list = list(self.parallelizer_list) # copy: inferring must not change what the generator gave
         for parallelizer in self.parallelizer_list:
             if self.is_commutative and parallelizer.splitter.is_splitter_consec_chunks():
                 parallelizer_list.append(make_parallelizer_round_robin_with_unwrap_from_other(parallelizer))
-- 
2.43.0


From 6a758fc70bd46067d6230ce93ea84fb772424f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 02/42] fix: compare OptionWithIOVar by value like the other
 datatypes

It had identity equality, so copies of equal command invocations compared
unequal and the add-transformer added options which were already present.
---
 pash_annotations/datatypes/BasicDatatypesWithIOVar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
index fe85c1f..b81791b 100644
--- a/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
+++ b/pash_annotations/datatypes/BasicDatatypesWithIOVar.py
@@ -1,9 +1,9 @@
 from typing import Union
-from pash_annotations.datatypes.BasicDatatypes import ArgStringType
+from pash_annotations.datatypes.BasicDatatypes import ArgStringType, BaseClassForBasicDatatypes
 
 IOVar = int
 
-class OptionWithIOVar:
+class OptionWithIOVar(BaseClassForBasicDatatypes):
 
     def __init__(self, name: str, option_arg: Union[IOVar, ArgStringType]) -> None:
         self.option_name : str = name
-- 
2.43.0


From a9c3563781174b81323061b6887535f2c1d0246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 03/42] fix: visit variables in option arguments of invocations
 with IO variables

The traversal only looked at OptionWithIO, which never occurs in a
CommandInvocationWithIOVars, so e.g. the file of 'sort -o FILE' was neither
reported by generate_outputs nor substituted, replaced or removed.
---
 pash_annotations/datatypes/CommandInvocationWithIOVars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index b18b7ea..5ad2874 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -116,9 +116,10 @@ class CommandInvocationWithIOVars:
         new_flag_option_list = []
         for i in range(len(self.flag_option_list)):
             flagoption = self.flag_option_list[i]
-            if isinstance(flagoption, OptionWithIO):
-                [new_option_arg] = function_to_apply(flagoption.option_arg)
-                new_flag_option_list.append(OptionWithIO(flagoption.option_name, new_option_arg))
+            if isinstance(flagoption, (OptionWithIO, OptionWithIOVar)):
+                # an option whose argument is removed is removed as a whole
+                for new_option_arg in function_to_apply(flagoption.option_arg):
+                    new_flag_option_list.append(type(flagoption)(flagoption.option_name, new_option_arg))
             else:
                 new_flag_option_list.append(flagoption)
         self.flag_option_list = new_flag_option_list
-- 
2.43.0


From 91a5492a03c7b7b7613bb341ccb36080863f0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 04/42] fix: aggregators derived from the command always get
 the requested output

For an invocation without implicit stdout (sort -o FILE), the aggregator had
no output at all while its access map still listed the original one.
---
 .../datatypes/parallelizability/AggregatorSpec.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index f45e508..65f3335 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -226,15 +226,17 @@ class AggregatorSpecFuncTransformer(AggregatorSpec):
         elif self.kind == AggregatorKindEnum.CUSTOM_2_ARY:
             assert(len(inputs_from) == 2)
         aggregator_cmd_inv = deepcopy(original_cmd_invocation)
-        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(original_cmd_invocation.flag_option_list)
         # access map modifications
         # Hard-coded how to provide input and get output -> TODO: move to spec
         aggregator_cmd_inv.remove_streaming_inputs()
+        aggregator_cmd_inv.remove_streaming_outputs()
+        aggregator_cmd_inv.flag_option_list = self.flag_option_list_transformer.get_flag_option_list_after_transformer_application(aggregator_cmd_inv.flag_option_list)
         aggregator_cmd_inv.operand_list = inputs_from
         for input_id in inputs_from:
             assert not input_id in aggregator_cmd_inv.access_map and isinstance(input_id, IOVar)
             aggregator_cmd_inv.access_map[input_id] = make_stream_input()
-        aggregator_cmd_inv.replace_var(aggregator_cmd_inv.implicit_use_of_streaming_output, output_to)
+        aggregator_cmd_inv.implicit_use_of_streaming_output = output_to
+        aggregator_cmd_inv.access_map[output_to] = make_stream_output()
         return Aggregator.make_aggregator_from_cmd_inv_with_io(aggregator_cmd_inv, self.kind)
 
     def get_actual_2_ary_aggregator_with_aux(self,
-- 
2.43.0


From 6661f95a2ba4848fdb24e9b38be4876841597216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 05/42] fix: use the default data for every command name
 without a file

Names such as 'cat.json/x' or longer than a file name can be made parse crash
with NotADirectoryError or another OSError instead of falling back.
---
 pash_annotations/parser/util_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 4cfd818..28aa657 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -7,7 +7,7 @@ def get_json_data(cmd_name):
     # get man page data for command as dict
     try:
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
-    except FileNotFoundError:
+    except (OSError, ValueError): # also names which cannot be a file name, e.g. too long or with a file as directory
         try:
             json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/_default_data_for_commands.json')
         except FileNotFoundError:
-- 
2.43.0


From 065f0260d34c34ef1d4f2dc29332a2ead20ccd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 06/42] fix: import the CLI's dependencies from the package

annotation_cli mixed top-level imports with a package whose modules import
each other as pash_annotations.*, so it could not be run as a module.
---
 pash_annotations/annotation_cli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 1a57178..3c6926e 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -2,13 +2,13 @@ import argparse
 from typing import Optional
 
 # create parser
-from annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
+from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation, \
     get_parallelizability_info_from_cmd_invocation
 
-from annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
-from annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
-from datatypes.CommandInvocationInitial import CommandInvocationInitial
-from parser.parser import parse
+from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
+from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
+from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
+from pash_annotations.parser.parser import parse
 
 parser = argparse.ArgumentParser()
 
-- 
2.43.0


From 0a4c4a2ae8337bd7a398909ea552f84bc84c3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 07/42] fix: resolve --save_to relative to where the CLI is
 called from

As its help text says; it was resolved relative to the script's directory.
---
 pash_annotations/annotation_cli.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 3c6926e..67d7ff4 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -22,10 +22,6 @@ parser.add_argument('--save_to', metavar='FILE', type=str, default=None,
 # parse the arguments
 options = parser.parse_args()
 
-script_path = __file__
-split_path = script_path.rpartition('/')
-script_prefix = "".join(split_path[:2])
-
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
@@ -33,7 +29,7 @@ shall_we_write_to_file = False
 if where_to_save is not None:
     shall_we_write_to_file = True
     try:
-        text_file = open(script_prefix + where_to_save)
+        text_file = open(where_to_save)
         text_file.close()
     except IOError:
         shall_we_write_to_file = False
@@ -66,7 +62,7 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(script_prefix + where_to_save, "w+")
+    text_file = open(where_to_save, "w+")
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From 442f9d8022aac3595892d5a2736e6cf255bd068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 08/42] fix: --save_to writes new files and never overwrites
 existing ones

The test was inverted: an existing file was overwritten, and a new path was
refused with the message that it exists.
---
 pash_annotations/annotation_cli.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/annotation_cli.py b/pash_annotations/annotation_cli.py
index 67d7ff4..996c1a8 100644
--- a/pash_annotations/annotation_cli.py
+++ b/pash_annotations/annotation_cli.py
@@ -1,4 +1,5 @@
 import argparse
+import os
 from typing import Optional
 
 # create parser
@@ -25,16 +26,10 @@ options = parser.parse_args()
 where_to_save = options.save_to
 cmd_invocation = options.command_invocation
 
-shall_we_write_to_file = False
-if where_to_save is not None:
-    shall_we_write_to_file = True
-    try:
-        text_file = open(where_to_save)
-        text_file.close()
-    except IOError:
-        shall_we_write_to_file = False
-    if not shall_we_write_to_file:
-        print("There exists a file on the provided path so the result will be output (only). ")
+shall_we_write_to_file = where_to_save is not None
+if shall_we_write_to_file and os.path.lexists(where_to_save):
+    shall_we_write_to_file = False
+    print("There exists a file on the provided path so the result will be output (only). ")
 
 
 result = ""
@@ -62,7 +57,7 @@ result += ">>> PARALLELIZABILITY INFORMATION: \n"
 result += str(para_info)
 
 if shall_we_write_to_file:
-    text_file = open(where_to_save, "w+")
+    text_file = open(where_to_save, "x")
     text_file.write(result)
     text_file.close()
 else:
-- 
2.43.0


From d0ee84e534d30334c47a7066263018d546117e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 09/42] fix: compare a splitter with a value of another type
 without failing

---
 .../datatypes/parallelizability/Splitter.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
index 6d5930d..5bdad01 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/Splitter.py
@@ -1,5 +1,7 @@
 from enum import Enum
 
+from pash_annotations.util_standard import standard_eq
+
 
 class SplitterKindEnum(Enum):
     INDIV_FILES = 1
@@ -14,7 +16,7 @@ class Splitter:
         self.kind = kind
 
     def __eq__(self, other) -> bool:
-        return self.kind == other.kind
+        return standard_eq(self, other)
 
     def __repr__(self) -> str:
         return f'{self.kind}'
-- 
2.43.0


From 7e3c145d6560b33c5955be517a6c0ddb40b6ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 10/42] fix: uniq's -f, -s and -w take an argument

They were listed as bare strings among the flags, so that their characters
('-', 'f', 's', 'w') were taken as flags and their arguments as operands, and
--all-repeated and --group swallowed the next operand as argument.
---
 .../command_flag_option_info/data/uniq.json   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/uniq.json b/pash_annotations/parser/command_flag_option_info/data/uniq.json
index 5ef076d..cc5a724 100644
--- a/pash_annotations/parser/command_flag_option_info/data/uniq.json
+++ b/pash_annotations/parser/command_flag_option_info/data/uniq.json
@@ -9,14 +9,16 @@
             "--repeated"
         ],
         [
-            "-D"
+            "-D",
+            "--all-repeated"
         ],
-        "-f",
         [
             "-i",
             "--ignore-case"
         ],
-        "-s",
+        [
+            "--group"
+        ],
         [
             "-u",
             "--unique"
@@ -25,7 +27,6 @@
             "-z",
             "--zero-terminated"
         ],
-        "-w",
         [
             "--help"
         ],
@@ -35,22 +36,17 @@
     ],
     "option": [
         [
-            "--all-repeated",
-            "METHOD"
-        ],
-        [
+            "-f",
             "--skip-fields",
             "N"
         ],
         [
-            "--group",
-            "METHOD"
-        ],
-        [
+            "-s",
             "--skip-chars",
             "N"
         ],
         [
+            "-w",
             "--check-chars",
             "N"
         ]
-- 
2.43.0


From 79cf4097bd3f128d2ff02289cacd2d3312f5fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 11/42] fix: tail's -c, -n and -s take an argument

Listed as flags, their argument was annotated as input file.
---
 .../command_flag_option_info/data/tail.json   | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tail.json b/pash_annotations/parser/command_flag_option_info/data/tail.json
index 215f6e4..3c443f2 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tail.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tail.json
@@ -1,17 +1,9 @@
 {
     "flag": [
-        [
-            "-c",
-            "--bytes"
-        ],
         [
             "-f",
             "--follow"
         ],
-        [
-            "-n",
-            "--lines"
-        ],
         [
             "-q",
             "--quiet",
@@ -20,9 +12,6 @@
         [
             "--retry"
         ],
-        [
-            "-s"
-        ],
         [
             "-v",
             "--verbose"
@@ -39,6 +28,16 @@
         ]
     ],
     "option": [
+        [
+            "-c",
+            "--bytes",
+            "NUM"
+        ],
+        [
+            "-n",
+            "--lines",
+            "NUM"
+        ],
         [
             "--max-unchanged-stats",
             "N"
@@ -48,6 +47,7 @@
             "PID"
         ],
         [
+            "-s",
             "--sleep-interval",
             "N"
         ]
-- 
2.43.0


From 22354fa4aff402f52408812da637a358e10b3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 12/42] fix: grep's long option names mean the same as the
 short ones

--regexp, --max-count, --*-context etc. had no link to -e, -m, -A, ... which
the annotation generators look for; so the first file of a --regexp was taken
as pattern, and context or -m did not affect parallelizability. --color takes
an argument only after '='.
---
 .../command_flag_option_info/data/grep.json   | 33 +++----------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/grep.json b/pash_annotations/parser/command_flag_option_info/data/grep.json
index 11aa936..fe305d4 100644
--- a/pash_annotations/parser/command_flag_option_info/data/grep.json
+++ b/pash_annotations/parser/command_flag_option_info/data/grep.json
@@ -117,6 +117,10 @@
         [
             "--line-buffered"
         ],
+        [
+            "--color",
+            "--colour"
+        ],
         [
             "-U",
             "--binary"
@@ -129,9 +133,6 @@
     "option": [
         [
             "-e",
-            "PATTERNS"
-        ],
-        [
             "--regexp",
             "PATTERNS"
         ],
@@ -140,19 +141,8 @@
             "--file",
             ["FILE", "CONFIG_INPUT"]
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
-        [
-            "--colour",
-            "WHEN"
-        ],
         [
             "-m",
-            "NUM"
-        ],
-        [
             "--max-count",
             "NUM"
         ],
@@ -162,25 +152,16 @@
         ],
         [
             "-A",
-            "NUM"
-        ],
-        [
             "--after-context",
             "NUM"
         ],
         [
             "-B",
-            "NUM"
-        ],
-        [
             "--before-context",
             "NUM"
         ],
         [
             "-C",
-            "NUM"
-        ],
-        [
             "--context",
             "NUM"
         ],
@@ -194,17 +175,11 @@
         ],
         [
             "-D",
-            "ACTION"
-        ],
-        [
             "--devices",
             "ACTION"
         ],
         [
             "-d",
-            "ACTION"
-        ],
-        [
             "--directories",
             "ACTION"
         ],
-- 
2.43.0


From 72320b37811b322997ad27af7a4e0a35caa73dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 13/42] fix: diff's -c, -u, --context, --unified and --color
 take no separate argument

'diff -u a b' was read as option -u with argument a.
---
 .../command_flag_option_info/data/diff.json   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/diff.json b/pash_annotations/parser/command_flag_option_info/data/diff.json
index 206275f..98bd6b9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/diff.json
+++ b/pash_annotations/parser/command_flag_option_info/data/diff.json
@@ -11,6 +11,14 @@
             "-s",
             "--report-identical-files"
         ],
+        [
+            "-c",
+            "--context"
+        ],
+        [
+            "-u",
+            "--unified"
+        ],
         [
             "-e",
             "--ed"
@@ -106,6 +114,9 @@
         [
             "--speed-large-files"
         ],
+        [
+            "--color"
+        ],
         [
             "--help"
         ],
@@ -116,15 +127,11 @@
     ],
     "option": [
         [
-            "-c",
             "-C",
-            "--context",
             "NUM"
         ],
         [
-            "-u",
             "-U",
-            "--unified",
             "NUM"
         ],
         [
@@ -186,10 +193,6 @@
             "--horizon-lines",
             "NUM"
         ],
-        [
-            "--color",
-            "WHEN"
-        ],
         [
             "--palette",
             "PALETTE"
-- 
2.43.0


From 0beddc683b49a3d1dfb7ac4c6f4f7c1e59b17673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 14/42] fix: which of xargs' options take a separate argument

-s, --max-chars and --process-slot-var do; -e, -i, -l and their long forms do
not (their argument is optional and attached), so 'xargs -i echo {}' was read
as option -I with argument echo. -0 is --null.
---
 .../command_flag_option_info/data/xargs.json  | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 533ebec..18c236e 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,8 +1,21 @@
 {
     "flag": [
         [
+            "-0",
             "--null"
         ],
+        [
+            "-e",
+            "--eof"
+        ],
+        [
+            "-i",
+            "--replace"
+        ],
+        [
+            "-l",
+            "--max-lines"
+        ],
         [
             "-o",
             "--open-tty"
@@ -11,17 +24,10 @@
             "-p",
             "--interactive"
         ],
-        [
-            "--process-slot-var"
-        ],
         [
             "-r",
             "--no-run-if-empty"
         ],
-        [
-            "-s",
-            "--max-chars"
-        ],
         [
             "--show-limits"
         ],
@@ -53,20 +59,14 @@
         ],
         [
             "-E",
-            "-e",
-            "--eof",
             "EOF_STR"
         ],
         [
             "-I",
-            "-i",
-            "--replace",
             "REPLACE-STR"
         ],
         [
             "-L",
-            "-l",
-            "--max-lines",
             "max-lines"
         ],
         [
@@ -78,6 +78,15 @@
             "-P",
             "--max-procs",
             "max-procs"
+        ],
+        [
+            "-s",
+            "--max-chars",
+            "max-chars"
+        ],
+        [
+            "--process-slot-var",
+            "NAME"
         ]
     ]
 }
-- 
2.43.0


From b1190486e759adaf306eca466f42e2f3d8a6b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 15/42] fix: options of mkfifo, mv, rm and tee with and without
 separate argument

mkfifo -m takes an argument; mkfifo --context, mv --backup, rm --interactive,
rm --preserve-root and tee --output-error take one only after '=', so that
e.g. 'rm --interactive a b' and 'tee --output-error a' lost their first file.
---
 .../command_flag_option_info/data/mkfifo.json   | 11 +++--------
 .../command_flag_option_info/data/mv.json       |  4 ----
 .../command_flag_option_info/data/rm.json       | 17 +++++++----------
 .../command_flag_option_info/data/tee.json      | 10 +++-------
 4 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
index 327ae40..03bc933 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mkfifo.json
@@ -1,10 +1,8 @@
 {
     "flag": [
         [
-            "-m"
-        ],
-        [
-            "-Z"
+            "-Z",
+            "--context"
         ],
         [
             "--help"
@@ -15,12 +13,9 @@
     ],
     "option": [
         [
+            "-m",
             "--mode",
             "MODE"
-        ],
-        [
-            "--context",
-            "CTX"
         ]
     ]
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/mv.json b/pash_annotations/parser/command_flag_option_info/data/mv.json
index 8b53afa..8b3d71a 100644
--- a/pash_annotations/parser/command_flag_option_info/data/mv.json
+++ b/pash_annotations/parser/command_flag_option_info/data/mv.json
@@ -43,10 +43,6 @@
         ]
     ],
     "option": [
-        [
-            "--backup",
-            "CONTROL"
-        ],
         [
             "-S",
             "--suffix",
diff --git a/pash_annotations/parser/command_flag_option_info/data/rm.json b/pash_annotations/parser/command_flag_option_info/data/rm.json
index d5832af..d3c3b9f 100644
--- a/pash_annotations/parser/command_flag_option_info/data/rm.json
+++ b/pash_annotations/parser/command_flag_option_info/data/rm.json
@@ -10,12 +10,18 @@
         [
             "-I"
         ],
+        [
+            "--interactive"
+        ],
         [
             "--one-file-system"
         ],
         [
             "--no-preserve-root"
         ],
+        [
+            "--preserve-root"
+        ],
         [
             "-r",
             "-R",
@@ -36,14 +42,5 @@
             "--version"
         ]
     ],
-    "option": [
-        [
-            "--interactive",
-            "WHEN"
-        ],
-        [
-            "--preserve-root",
-            "all"
-        ]
-    ]
+    "option": []
 }
diff --git a/pash_annotations/parser/command_flag_option_info/data/tee.json b/pash_annotations/parser/command_flag_option_info/data/tee.json
index 52fb895..f324ecb 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tee.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tee.json
@@ -9,7 +9,8 @@
             "--ignore-interrupts"
         ],
         [
-            "-p"
+            "-p",
+            "--output-error"
         ],
         [
             "--help"
@@ -18,10 +19,5 @@
             "--version"
         ]
     ],
-    "option": [
-        [
-            "--output-error",
-            "MODE"
-        ]
-    ]
+    "option": []
 }
-- 
2.43.0


From 91c8cc96aad1a7e4ceff00a671c25bc9f0bbf096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 16/42] fix: --truncate-set1 is tr's -t

---
 pash_annotations/parser/command_flag_option_info/data/tr.json | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/tr.json b/pash_annotations/parser/command_flag_option_info/data/tr.json
index 8e8b092..53b9d81 100644
--- a/pash_annotations/parser/command_flag_option_info/data/tr.json
+++ b/pash_annotations/parser/command_flag_option_info/data/tr.json
@@ -14,7 +14,8 @@
             "--squeeze-repeats"
         ],
         [
-            "-t"
+            "-t",
+            "--truncate-set1"
         ],
         [
             "--help"
-- 
2.43.0


From 852c1e5d0b4f2d0a2020872bea182cc1d0d9899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 17/42] fix: sed's -e and -f take an argument, --in-place has
 only an optional one

With -e and -f as flags, the script was annotated as input file.
---
 .../command_flag_option_info/data/sed.json    | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/sed.json b/pash_annotations/parser/command_flag_option_info/data/sed.json
index 06f9e9e..a220701 100644
--- a/pash_annotations/parser/command_flag_option_info/data/sed.json
+++ b/pash_annotations/parser/command_flag_option_info/data/sed.json
@@ -8,14 +8,6 @@
         [
             "--debug"
         ],
-        [
-            "-e",
-            "--expression"
-        ],
-        [
-            "-f",
-            "--file"
-        ],
         [
             "--follow-symlinks"
         ],
@@ -51,14 +43,17 @@
     ],
     "option": [
         [
-            "--in-place",
-            "SUFFIX"
+            "-e",
+            "--expression",
+            "SCRIPT"
         ],
         [
-            "-l",
-            "N"
+            "-f",
+            "--file",
+            ["FILE", "CONFIG_INPUT"]
         ],
         [
+            "-l",
             "--line-length",
             "N"
         ]
-- 
2.43.0


From d00080068ab8f9877dac22f98191064f2b048fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 18/42] fix: sed reads stdin only if it is given no input file

An invocation with input files was annotated to read stdin as well.
---
 .../annotation_generators/InputOutputInfoGeneratorSed.py   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
index b72ed43..8938e1a 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSed.py
@@ -4,11 +4,14 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorSed(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
         if not self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             self.set_first_operand_as_config_arg_type_string()
-            self.all_but_first_operand_is_streaming_input()
+            if self.get_operand_list_length() == 1:
+                self.set_implicit_use_of_stdin()
+            else:
+                self.all_but_first_operand_is_streaming_input()
         else:
+            self.if_no_operands_given_stdin_implicitly_used()
             self.all_operands_are_streaming_inputs()
 
-- 
2.43.0


From ed4619a46da95db35bb65ca04e0a505b3fb13a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 19/42] fix: parallelize sed only for scripts which treat every
 line on its own

Scripts such as '$!N;P', '=', '2p' or 'N;s/\n/,/' were considered stateless,
and those given with -e were not looked at.
---
 .../ParallelizabilityInfoGeneratorSed.py      | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
index 8ee05c2..171da6d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSed.py
@@ -1,3 +1,5 @@
+import re
+
 from pash_annotations.annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface
 from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import \
     make_parallelizer_round_robin
@@ -7,11 +9,32 @@ from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregat
 
 class ParallelizabilityInfoGeneratorSed(ParallelizabilityInfoGeneratorInterface):
 
+    # What sed prints for a line may depend on other lines (line numbers, '$', ranges, q, N, hold space, ...),
+    # so it is only parallelized for scripts which consist of these commands, with a regular expression as address or none:
+    #   s (without flags e, m and w), y, d, p
+    # An empty regular expression (the last one used) and scripts given in a file are not considered.
+    PART = r"(?:(?!{d})[^\\\n]|\\(?:.|\n))"
+    ADDRESS = r"(?:(?P<a>/)" + PART.format(d="(?P=a)") + r"+/I?|\\(?P<b>[^\\\n])" + PART.format(d="(?P=b)") + r"+(?P=b)I?)?\s*!?\s*"
+    COMMAND = r"(?:s(?P<s>[^\\\n])" + PART.format(d="(?P=s)") + r"+(?P=s)" + PART.format(d="(?P=s)") + r"*(?P=s)[gpiI0-9]*" \
+              r"|y(?P<y>[^\\\n])" + PART.format(d="(?P=y)") + r"+(?P=y)" + PART.format(d="(?P=y)") + r"+(?P=y)" \
+              r"|d|p)"
+    LINE_LOCAL_COMMAND = re.compile(r"[\s;]*" + ADDRESS + COMMAND + r"[ \t]*(?:[;\n]|$)")
+
     def generate_info(self) -> None:
-        # TODO: Logic copied from PaSh, but does this not depend how the script is given?
-        if  self.does_first_operand_start_with("-") \
-            or self.does_first_operand_start_with("s") \
-            or not (self.does_first_operand_contain("d") or self.does_first_operand_contain("q")):
+        if self.does_flag_option_list_contain_at_least_one_of(["-f", "-z", "--debug"]):
+            return
+        scripts = [option.get_arg() for option in self.get_flag_option_list_filtered_with(["-e"])]
+        if len(scripts) == 0:
+            scripts = [self.get_first_operand_name_as_string()]
+        if all(self.is_script_line_local(str(script)) for script in scripts):
             self.append_to_parallelizer_list_cc_seq_conc()
             self.append_to_parallelizer_list_rr_seq_conc()
 
+    def is_script_line_local(self, script: str) -> bool:
+        position = 0
+        while script[position:].strip("; \t\n") != "":
+            match = self.LINE_LOCAL_COMMAND.match(script, position)
+            if match is None:
+                return False
+            position = match.end()
+        return True
-- 
2.43.0


From f9da21a871cdd990579b70c6acaa946178ffe2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 20/42] fix: recognise when tr squeezes across line boundaries

A newline was missed at the start of a set and in other notations (classes,
octal, ranges), and when it is translated to or preceded by a squeezed
character (the newline is in the first of two sets).
---
 .../ParallelizabilityInfoGeneratorTr.py       | 26 ++++++++--------
 pash_annotations/datatypes/BasicDatatypes.py  | 30 +++++++++++++++++--
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
index 562f815..3361260 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorTr.py
@@ -24,11 +24,12 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
         # res = self.does_last_set_effectively_contain_newline()
         # print("res: " + res)
         does_delete_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-d"]) and \
-                                     self.does_last_set_effectively_contain_newline()  # only allowed to have a single set
-        # check for squeezing newlines
+                                     self.does_set_effectively_contain_newline(0)  # only the first set is deleted
+        # check for squeezing newlines, or what they are translated to, or what precedes them if they are deleted
         does_squeeze_newlines: bool = self.does_flag_option_list_contain_at_least_one_of(["-s"]) and \
-                                      self.does_last_set_effectively_contain_newline()
-        if does_delete_newlines:
+                                      (self.does_set_effectively_contain_newline(0) or
+                                       self.does_last_set_effectively_contain_newline())
+        if does_delete_newlines and not does_squeeze_newlines:
             # for RR, we need an adjacent aggregator
             self.append_to_parallelizer_list_cc_seq_adjm()
             self.append_to_parallelizer_list_rr_seq_adjm()
@@ -42,13 +43,14 @@ class ParallelizabilityInfoGeneratorTr(ParallelizabilityInfoGeneratorInterface):
             self.append_to_parallelizer_list_rr_seq_conc()
 
     def does_last_set_effectively_contain_newline(self) -> bool:
-        last_operand: Operand = self.cmd_inv.operand_list[-1]
+        return self.does_set_effectively_contain_newline(-1)
+
+    # sets are given by their index in the operand list
+    def does_set_effectively_contain_newline(self, index: int) -> bool:
+        operand: Operand = self.cmd_inv.operand_list[index]
+        is_first_set: bool = index == 0 or len(self.cmd_inv.operand_list) == 1
         # is contained if (a) no -c and in set, or (b) -c and not in set
-        last_operand_contains_newline: bool = last_operand.contains_new_line()
-        last_operand_contains_null_char: bool = last_operand.contains_null_char()
-        if len(self.cmd_inv.operand_list) == 1 and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
-            return not (last_operand_contains_newline or last_operand_contains_null_char)
+        if is_first_set and self.does_flag_option_list_contain_at_least_one_of(["-c"]):
+            return not operand.contains_new_line()
         else:  # '-c' (if existent) does not refer to the given set
-            return (last_operand_contains_newline or last_operand_contains_null_char)
-
-
+            return operand.contains_new_line()
diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index e370463..a55efef 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -1,3 +1,4 @@
+import re
 from typing import Union
 
 from pash_annotations.util_standard import standard_eq, standard_repr
@@ -109,18 +110,41 @@ class Operand(BaseClassForBasicDatatypes):
     def get_name(self) -> str:
         return self.name
 
+    # whether the newline is in this set of characters, in the notation of tr
     def contains_new_line(self):
-        name_as_string = str(self.name)
-        return name_as_string.find(r"\n") > 0
+        newline = ord("\n")
+        elements = re.findall(r"\[:\w+:\]|\\[0-7]{1,3}|\\.|.", str(self.name), re.DOTALL)
+        index = 0
+        while index < len(elements):
+            if elements[index] in ("[:space:]", "[:cntrl:]"):
+                return True
+            first = last = code_of_tr_set_element(elements[index])
+            if elements[index + 1:index + 2] == ["-"] and index + 2 < len(elements): # a range
+                last = code_of_tr_set_element(elements[index + 2])
+                index += 2
+            if first <= newline <= last:
+                return True
+            index += 1
+        return False
 
     def contains_null_char(self):
         name_as_string = str(self.name)
-        return name_as_string.find(r"\0") > 0
+        return r"\0" in name_as_string
 
     def to_arg_string_type(self):
         return ArgStringType(self.name)
 
 
+def code_of_tr_set_element(element: str) -> int:
+    if len(element) == 1:
+        return ord(element)
+    elif element[0] == "\\" and element[1] in "01234567":
+        return int(element[1:], 8)
+    elif element[0] == "\\":
+        return ord({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}.get(element[1], element[1]))
+    else:   # other character classes
+        return -1
+
 class WhichClassForArg(Enum):
     FILESTD = 'filestd'
     ARGSTRING = 'argstring'
-- 
2.43.0


From 120b9ad30156de3255010d230c7cc9cdcb549763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 21/42] fix: do not parallelize sort when it sorts randomly or
 annotates its output

--sort=random and a key with R are -R, which was excluded already; what
--debug prints is not sorted input.
---
 .../ParallelizabilityInfoGeneratorCustomSort.py           | 8 +++++++-
 .../ParallelizabilityInfoGeneratorSort.py                 | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
index b614186..d341203 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCustomSort.py
@@ -13,7 +13,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
     def generate_info(self) -> None:
         # copied from sort
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--debug", "--files0-from", "--random-source"]) \
+                or self.does_sort_randomly():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -26,3 +27,8 @@ class ParallelizabilityInfoGeneratorCustomSort(ParallelizabilityInfoGeneratorInt
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    # -R can also be given as argument of --sort (possibly abbreviated) or for a single key
+    def does_sort_randomly(self) -> bool:
+        return any(str(option.get_arg()).startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+               or any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
index c6eadf0..44ba395 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorSort.py
@@ -14,7 +14,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
 
     def generate_info(self) -> None:
         self.set_commutative()
-        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--debug", "--files0-from", "--random-source"]) \
+                or self.does_sort_randomly():
             pass    # no parallelization
         else:
             # Build aggregator spec: keep certain flags with filtering and add -m
@@ -27,3 +28,8 @@ class ParallelizabilityInfoGeneratorSort(ParallelizabilityInfoGeneratorInterface
             # Build parallelizers and append
             parallelizer_cc_seq_cus = make_parallelizer_consec_chunks(aggregator_spec=aggregator_spec)
             self.append_to_parallelizer_list(parallelizer_cc_seq_cus)
+
+    # -R can also be given as argument of --sort (possibly abbreviated) or for a single key
+    def does_sort_randomly(self) -> bool:
+        return any(str(option.get_arg()).startswith("r") for option in self.get_flag_option_list_filtered_with(["--sort"])) \
+               or any("R" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-k"]))
-- 
2.43.0


From 76af8684a75eacaa0fe63889aaf9ce0a1b00cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 22/42] fix: do not parallelize cut with newline as delimiter

---
 .../ParallelizabilityInfoGeneratorCut.py                    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
index 0290e7f..bdfb895 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorCut.py
@@ -8,5 +8,7 @@ class ParallelizabilityInfoGeneratorCut(ParallelizabilityInfoGeneratorInterface)
     # list_of_all_options = ["-b", "-c", "-d", "-f", "--output-delimiter", ]
 
     def generate_info(self) -> None:
-        self.append_to_parallelizer_list_cc_seq_conc()
-        self.append_to_parallelizer_list_rr_seq_conc()
+        # with lines as fields, the input is not cut line by line
+        if not any("\n" in str(option.get_arg()) for option in self.get_flag_option_list_filtered_with(["-d"])):
+            self.append_to_parallelizer_list_cc_seq_conc()
+            self.append_to_parallelizer_list_rr_seq_conc()
-- 
2.43.0


From ce74d2b89d94429016ac03dbcbc37617a8fb2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 23/42] fix: do not parallelize uniq with -u, --group or -z

Applying the command again to the first and last lines of the results gives
another output for these flags: a line which occurs once in two chunks is
printed by -u.
---
 .../ParallelizabilityInfoGeneratorUniq.py                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
index 87f6959..c267a85 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorUniq.py
@@ -16,11 +16,11 @@ class ParallelizabilityInfoGeneratorUniq(ParallelizabilityInfoGeneratorInterface
     # -d, -D and --all-repeated renders parallelization infeasible (at least very hard)
     # -c makes it harder but feasible:
     #   one needs to cut the prefix of numbers, run the sequential and see whether it is merged
-    # TODO: what does --group do?
 
     def generate_info(self) -> None:
         # check for flags/options that make it hard to parallelize
-        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated"]):
+        # (-u needs to know how often a line occurs, --group where groups end, and -z does not compare lines)
+        if not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "--all-repeated", "-u", "--group", "-z"]):
             if self.does_flag_option_list_contain_at_least_one_of(["-c"]):
                 # we need a special merge
                 aggregator_spec = make_aggregator_spec_adj_lines_func_from_string_representation(cmd_inv_as_str='PLACEHOLDER:uniq_merge_count_uniq', is_implemented=False)
-- 
2.43.0


From e3036cc36b13447e19c4808bca5e4dee3af05728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 24/42] fix: do not parallelize grep if its output depends on
 context or file names

---
 .../ParallelizabilityInfoGeneratorGrep.py                    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
index b8b9e4a..5e2bb0d 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorGrep.py
@@ -23,7 +23,10 @@ class ParallelizabilityInfoGeneratorGrep(ParallelizabilityInfoGeneratorInterface
     # for -m, we only do IF
 
     def generate_info(self) -> None:
-        if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
+        # for -A, -B, -C and -m, what is printed depends on earlier and later lines, -z does not consider lines at all and
+        # for the other ones, the output depends on the names of the files
+        if not self.does_flag_option_list_contain_at_least_one_of(["-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d",
+                                                                   "--include", "--exclude", "--exclude-from"]):
             # # for indiv files
             # self.append_to_parallelizer_list_if_seq_conc()
             # rest for round-robin
-- 
2.43.0


From 560017113e9ba52ff5bc901fd4240ead78528fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 25/42] fix: no I/O info for grep -r without operands, which
 does not read stdin

---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index b3640b7..16aa58c 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -20,15 +20,18 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # --help and --version overrules -q (and no actual result returned) but we assume no help/version
         if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
             self.set_implicit_use_of_stdout()
+        is_recursive: bool = self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"])
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
+                assert not is_recursive # working directory would be searched
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_operands_are_streaming_inputs() # this is true also if empty
         else:
             self.set_first_operand_as_config_arg_type_string()
             if self.get_operand_list_length() == 1:
+                assert not is_recursive # working directory would be searched
                 self.set_implicit_use_of_stdin()
             else:
                 self.all_but_first_operand_is_streaming_input()
-- 
2.43.0


From 0d5e8174d9f0e84817386fd787b8dc4760bea8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 26/42] fix: do not parallelize xargs if its input is not made
 of independent lines

---
 .../ParallelizabilityInfoGeneratorXargs.py                | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
index 0d459ab..de22e8c 100644
--- a/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/ParallelizabilityInfoGeneratorXargs.py
@@ -3,9 +3,11 @@ from pash_annotations.annotation_generation.annotation_generators.Parallelizabil
 class ParallelizabilityInfoGeneratorXargs(ParallelizabilityInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        # in original, there is a case distinction but same info
-        self.append_to_parallelizer_list_cc_seq_conc()
-        self.append_to_parallelizer_list_rr_seq_conc()
+        # no line-wise input (-0, -d), input not from stdin (-a, --arg-file), or dependency on earlier lines or processes
+        if not self.does_flag_option_list_contain_at_least_one_of(["-0", "--delimiter", "-a", "-e", "-E", "--process-slot-var"]):
+            # in original, there is a case distinction but same info
+            self.append_to_parallelizer_list_cc_seq_conc()
+            self.append_to_parallelizer_list_rr_seq_conc()
 
 
 
-- 
2.43.0


From e53d7e5f469b63c2c8da6cca148c13d2d4247bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 27/42] fix: awk's -F, -v, -e, -E, -i and -l take an argument

---
 .../command_flag_option_info/data/awk.json    | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 1863995..92e9ee6 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,9 +1,5 @@
 {
     "flag": [
-        [
-            "-F",
-            "--field-separator"
-        ],
         [
             "-b",
             "--characters-as-bytes"
@@ -24,14 +20,6 @@
             "-D",
             "--debug"
         ],
-        [
-            "-e",
-            "--source"
-        ],
-        [
-            "-E",
-            "--exec"
-        ],
         [
             "-g",
             "--gen-pot"
@@ -40,14 +28,6 @@
             "-h",
             "--help"
         ],
-        [
-            "-i",
-            "--include"
-        ],
-        [
-            "-l",
-            "--load"
-        ],
         [
             "-L",
             "--lint"
@@ -98,10 +78,40 @@
         ]
     ],
     "option": [
+        [
+            "-F",
+            "--field-separator",
+            "FS"
+        ],
+        [
+            "-v",
+            "--assign",
+            "ASSIGNMENT"
+        ],
         [
             "-f",
             "--file",
             ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-e",
+            "--source",
+            "PROGRAM"
+        ],
+        [
+            "-E",
+            "--exec",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-i",
+            "--include",
+            ["FILE", "CONFIG_INPUT"]
+        ],
+        [
+            "-l",
+            "--load",
+            "LIB"
         ]
     ]
 }
-- 
2.43.0


From 8b1496eb9567e16d6e8b181c6e20b0c7fcdb971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 28/42] fix: awk's program can also be given with -e or -E

---
 .../annotation_generators/InputOutputInfoGeneratorAwk.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 5a43f70..3ac1aae 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -4,10 +4,12 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        # options which make awk write files itself or not run the program on the inputs
+        assert not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "-g", "-ofile", "-p"])
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-        if self.does_flag_option_list_contain_at_least_one_of(["-f"]):
+        if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f", "-E"]):
             if self.get_operand_list_length() == 0:
                 self.set_implicit_use_of_stdin()
             else:
-- 
2.43.0


From 418080ad422143a4a0cd85afbc0b6b7eb32313d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 29/42] fix: no I/O info for awk if it changes files itself or
 gets assignments as operands

---
 .../annotation_generators/InputOutputInfoGeneratorAwk.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
index 3ac1aae..b3c927f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorAwk.py
@@ -1,11 +1,15 @@
+import re
+
 from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
 
 
 class InputOutputInfoGeneratorAwk(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
-        # options which make awk write files itself or not run the program on the inputs
-        assert not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "-g", "-ofile", "-p"])
+        # options which make awk change files itself or not run the program on the inputs
+        assert not self.does_flag_option_list_contain_at_least_one_of(["-d", "-D", "-g", "-i", "-ofile", "-p"])
+        # operands of the form var=value are assignments instead of inputs
+        assert not any(re.match("[A-Za-z_][A-Za-z_0-9]*=", str(operand.get_name())) for operand in self.cmd_inv.operand_list)
         self.set_implicit_use_of_stdout()
 
         ## Does this set -f as configuration input?
-- 
2.43.0


From c3269e9450ae1e329e2d497d77a054f43868df6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 30/42] fix: no I/O info if an operand may be an option unknown
 to the parser

---
 .../InputOutputInfoGeneratorSeq.py                  |  7 +++++++
 .../InputOutputInfoGeneratorXargs.py                |  7 +++++++
 .../InputOutputInfoGenerator_Interface.py           | 13 ++++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSeq.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSeq.py
index f52d4c9..27faf00 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSeq.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSeq.py
@@ -1,3 +1,6 @@
+from typing import List
+
+from pash_annotations.datatypes.BasicDatatypes import Operand
 from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
 
 
@@ -6,3 +9,7 @@ class InputOutputInfoGeneratorSeq(InputOutputInfoGeneratorInterface):
     def generate_info(self) -> None:
         self.set_implicit_use_of_stdout()
         self.set_all_operands_as_config_arg_type_string()
+
+    # operands can be negative numbers
+    def get_operands_which_could_be_unknown_options(self) -> List[Operand]:
+        return []
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorXargs.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorXargs.py
index 2faab83..b897fc9 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorXargs.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorXargs.py
@@ -1,3 +1,6 @@
+from typing import List
+
+from pash_annotations.datatypes.BasicDatatypes import Operand
 from pash_annotations.annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
 
 
@@ -8,3 +11,7 @@ class InputOutputInfoGeneratorXargs(InputOutputInfoGeneratorInterface):
         self.set_all_operands_as_arg_string()
         self.set_implicit_use_of_stdin()
         self.set_implicit_use_of_stdout()
+
+    # operands after the first one, the command, belong to the command
+    def get_operands_which_could_be_unknown_options(self) -> List[Operand]:
+        return self.cmd_inv.operand_list[:1]
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
index d34b4b8..b9c143f 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGenerator_Interface.py
@@ -2,7 +2,7 @@ from typing import List, Tuple, Union, Literal, Dict
 
 from pash_annotations.config.definitions import INDICATORS_FOR_FILENAMES
 
-from pash_annotations.datatypes.BasicDatatypes import Flag, Option, WhichClassForArg
+from pash_annotations.datatypes.BasicDatatypes import Flag, Operand, Option, WhichClassForArg
 from pash_annotations.datatypes.AccessKind import AccessKind, get_access_from_string
 from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
 from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
@@ -39,8 +39,19 @@ class InputOutputInfoGeneratorInterface(Generator_Interface, ABC):
         pass
 
     def get_info(self) -> InputOutputInfo:
+        # an option the parser does not know is an operand for the parser but nothing is known about what it does
+        assert not any(self.looks_like_option(operand) for operand in self.get_operands_which_could_be_unknown_options())
         return self.input_output_info
 
+    # to be overridden if operands of the command can start with '-'
+    def get_operands_which_could_be_unknown_options(self) -> List[Operand]:
+        return self.cmd_inv.operand_list
+
+    @staticmethod
+    def looks_like_option(operand: Operand) -> bool:
+        operand_name = str(operand.get_name())
+        return operand_name.startswith("-") and operand_name != "-"
+
     def get_cmd_inv_with_io(self, cmd_inv: CommandInvocationInitial) -> CommandInvocationWithIO:
         return self.input_output_info.apply_input_output_info_to_command_invocation(cmd_inv)
 
-- 
2.43.0


From 5338477b001e39a2ad332530a64bb7f46613613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 31/42] fix: no I/O info for tee - and sort -o -, which write a
 file and not stdout

---
 .../annotation_generators/InputOutputInfoGeneratorSort.py        | 1 +
 .../annotation_generators/InputOutputInfoGeneratorTee.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
index 7d860c5..b1ac349 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorSort.py
@@ -7,6 +7,7 @@ class InputOutputInfoGeneratorSort(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
         # self.set_multiple_inputs_possible()
+        assert not any(str(option.get_arg()) == "-" for option in self.get_flag_option_list_filtered_with(["-o"])) # a file, not stdout
         if not self.does_flag_option_list_contain_at_least_one_of(["-o"]):
             self.set_implicit_use_of_stdout()
         if self.get_operand_list_length() == 0 and not self.does_flag_option_list_contain_at_least_one_of(["--files0-from"]):
diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
index 68b7705..2b39a8e 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorTee.py
@@ -4,6 +4,7 @@ from pash_annotations.annotation_generation.annotation_generators.InputOutputInf
 class InputOutputInfoGeneratorTee(InputOutputInfoGeneratorInterface):
 
     def generate_info(self) -> None:
+        assert not any(str(operand.get_name()) == "-" for operand in self.cmd_inv.operand_list) # a file for tee, not stdout
         self.set_implicit_use_of_stdin()
         # copies to both operands and stdout
         self.set_implicit_use_of_stdout()
-- 
2.43.0


From a3490fdc39422e270b8abd42b266a7332d56855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 32/42] fix: split --option=argument on the equal sign as
 documented

---
 pash_annotations/parser/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 1cc3a2e..d7cc829 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -38,6 +38,11 @@ def parse(command) -> CommandInvocationInitial:
             option = Option(option_name_as_string, option_arg_as_string)
             flag_option_list.append(option)
             i += 1  # since we consumed another term for the argument
+        elif potential_flag_or_option.startswith('--') and (potential_flag_or_option.partition('=')[0] in set_of_all_options) \
+                and ('=' in potential_flag_or_option):
+            option_name_as_string, _, option_arg_as_string = potential_flag_or_option.partition('=')
+            option_name_as_string = dict_option_to_primary_repr.get(option_name_as_string, option_name_as_string)
+            flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
                 flag: Flag = Flag(f'-{split_el}')
-- 
2.43.0


From 8faa9e843c1b627e78a886b58851e99864de0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 33/42] fix: flags on a line with an option are lists of names
 like all others

---
 .../parser/command_flag_option_info/args-to-json.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/args-to-json.py b/pash_annotations/parser/command_flag_option_info/args-to-json.py
index 222f7ed..5f5fbd4 100644
--- a/pash_annotations/parser/command_flag_option_info/args-to-json.py
+++ b/pash_annotations/parser/command_flag_option_info/args-to-json.py
@@ -57,7 +57,7 @@ def parse_args(args):
         else:
             for arg in line_args:
                 if type(arg)==str:
-                    args_dict["flag"].append(arg)
+                    args_dict["flag"].append([arg])
                 else:
                     args_dict["option"].append(list(arg))
     return args_dict
-- 
2.43.0


From e4a91f27141f430538f5b75091fd85bb0eb36e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:22 +0000
Subject: [PATCH 34/42] fix: use the primary name also for flags given in a
 cluster

---
 pash_annotations/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index d7cc829..4888d5c 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -45,7 +45,7 @@ def parse(command) -> CommandInvocationInitial:
             flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
         elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
             for split_el in list(potential_flag_or_option[1:]):
-                flag: Flag = Flag(f'-{split_el}')
+                flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
         else:
             break  # next one is Operand, and we keep these in separate list
-- 
2.43.0


From 4c4eb009b0d31421e6b369d2cc5fb68ecaf86646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 35/42] fix: col's -l takes an argument

---
 .../parser/command_flag_option_info/data/col.json    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pash_annotations/parser/command_flag_option_info/data/col.json b/pash_annotations/parser/command_flag_option_info/data/col.json
index 0b46446..f2241e9 100644
--- a/pash_annotations/parser/command_flag_option_info/data/col.json
+++ b/pash_annotations/parser/command_flag_option_info/data/col.json
@@ -12,10 +12,6 @@
             "-h",
             "--tabs"
         ],
-        [
-            "-l",
-            "--lines"
-        ],
         [
             "-p",
             "--pass"
@@ -33,5 +29,11 @@
             "--help"
         ]
     ],
-    "option": []
+    "option": [
+        [
+            "-l",
+            "--lines",
+            "NUM"
+        ]
+    ]
 }
-- 
2.43.0


From d5bc21c93723f0fa8a542a277a3b8b8aa6a38f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 36/42] fix: access map of a mapper with auxiliary outputs has
 no entries for replaced streams

---
 .../datatypes/parallelizability/MapperSpec.py                  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
index eab2f9d..6f61a6a 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/MapperSpec.py
@@ -84,6 +84,9 @@ class MapperSpec:
             for operand in mapper.operand_list:
                 assert(isinstance(operand, IOVar))
                 mapper.access_map.pop(operand)
+            for implicit_stream in [mapper.implicit_use_of_streaming_input, mapper.implicit_use_of_streaming_output]:
+                if implicit_stream is not None:
+                    mapper.access_map.pop(implicit_stream)
             # trick for typing...
             new_operand_list = []
             for x in [input_from, output_to] + [aux_output_to for aux_output_to in aux_output_tos]:
-- 
2.43.0


From 248ef05ea14402282a2c69ff2e7136b7334423a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 37/42] fix: no aggregator with auxiliary streams if it is not
 implemented

---
 .../datatypes/parallelizability/AggregatorSpec.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
index 65f3335..ccdd1c2 100644
--- a/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
+++ b/pash_annotations/annotation_generation/datatypes/parallelizability/AggregatorSpec.py
@@ -303,6 +303,8 @@ class AggregatorSpecFuncStringRepresentation(AggregatorSpec):
                                              output_to: IOVar,
                                              aux_outputs_to: List[IOVar]
                                              ):
+        if not self.is_implemented:
+            return None
         assert(len(fst_aux_inputs_from) == len(snd_aux_inputs_from))
         assert(len(fst_aux_inputs_from) == len(aux_outputs_to))
         agg_cmd_inv = parse(self.cmd_inv_as_str)
-- 
2.43.0


From a8d480804b5ef599a9227b30b87016f6478bd962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 38/42] fix: no range starts with a character class in tr's
 sets

---
 pash_annotations/datatypes/BasicDatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pash_annotations/datatypes/BasicDatatypes.py b/pash_annotations/datatypes/BasicDatatypes.py
index a55efef..fddc5f0 100644
--- a/pash_annotations/datatypes/BasicDatatypes.py
+++ b/pash_annotations/datatypes/BasicDatatypes.py
@@ -119,7 +119,7 @@ class Operand(BaseClassForBasicDatatypes):
             if elements[index] in ("[:space:]", "[:cntrl:]"):
                 return True
             first = last = code_of_tr_set_element(elements[index])
-            if elements[index + 1:index + 2] == ["-"] and index + 2 < len(elements): # a range
+            if first >= 0 and elements[index + 1:index + 2] == ["-"] and index + 2 < len(elements): # a range
                 last = code_of_tr_set_element(elements[index + 2])
                 index += 2
             if first <= newline <= last:
-- 
2.43.0


From 176b67d13b3650b69e111c2ddb5a5fde8ef19218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 39/42] fix: a command given by its path does not get the table
 of another command

'./cat' and 'x/../cat' were parsed with cat's flags and '/tmp/x' with the file /tmp/x.json, if it exists.
---
 pash_annotations/parser/util_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pash_annotations/parser/util_parser.py b/pash_annotations/parser/util_parser.py
index 28aa657..e149521 100644
--- a/pash_annotations/parser/util_parser.py
+++ b/pash_annotations/parser/util_parser.py
@@ -6,6 +6,8 @@ def get_json_data(cmd_name):
     command_json_fn = f'{cmd_name}.json'
     # get man page data for command as dict
     try:
+        if os.path.basename(cmd_name) != cmd_name: # a command given by its path is none of the commands with a file
+            raise FileNotFoundError(command_json_fn)
         json_data_bytes = pkgutil.get_data(__name__, 'command_flag_option_info/data/' + command_json_fn)
     except (OSError, ValueError): # also names which cannot be a file name, e.g. too long or with a file as directory
         try:
-- 
2.43.0


From 7f56df36d04f68289a4fed57b93925246f514434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 40/42] fix: what is attached to a flag with an optional
 argument is no cluster of flags

---
 pash_annotations/parser/command_flag_option_info/README.md | 2 ++
 .../parser/command_flag_option_info/data/awk.json          | 1 +
 .../parser/command_flag_option_info/data/xargs.json        | 1 +
 pash_annotations/parser/parser.py                          | 7 ++++++-
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/parser/command_flag_option_info/README.md b/pash_annotations/parser/command_flag_option_info/README.md
index feaf12f..f8b3f61 100644
--- a/pash_annotations/parser/command_flag_option_info/README.md
+++ b/pash_annotations/parser/command_flag_option_info/README.md
@@ -5,6 +5,8 @@
     "option": [ <list of [ <option_flag> , <option_arg> ] values ]
 }
 ```
+Flags which can have an argument attached to them (such as `-l` and `-l1` of xargs) can additionally be listed as
+`"flag_with_attached_argument": [ <list of short flags> ]`.
 
 ## Script
 
diff --git a/pash_annotations/parser/command_flag_option_info/data/awk.json b/pash_annotations/parser/command_flag_option_info/data/awk.json
index 92e9ee6..724d180 100644
--- a/pash_annotations/parser/command_flag_option_info/data/awk.json
+++ b/pash_annotations/parser/command_flag_option_info/data/awk.json
@@ -1,4 +1,5 @@
 {
+    "flag_with_attached_argument": ["-d", "-D", "-L", "-p"],
     "flag": [
         [
             "-b",
diff --git a/pash_annotations/parser/command_flag_option_info/data/xargs.json b/pash_annotations/parser/command_flag_option_info/data/xargs.json
index 18c236e..ff03276 100644
--- a/pash_annotations/parser/command_flag_option_info/data/xargs.json
+++ b/pash_annotations/parser/command_flag_option_info/data/xargs.json
@@ -1,4 +1,5 @@
 {
+    "flag_with_attached_argument": ["-e", "-i", "-l"],
     "flag": [
         [
             "-0",
diff --git a/pash_annotations/parser/parser.py b/pash_annotations/parser/parser.py
index 4888d5c..29cb4f5 100644
--- a/pash_annotations/parser/parser.py
+++ b/pash_annotations/parser/parser.py
@@ -43,7 +43,8 @@ def parse(command) -> CommandInvocationInitial:
             option_name_as_string, _, option_arg_as_string = potential_flag_or_option.partition('=')
             option_name_as_string = dict_option_to_primary_repr.get(option_name_as_string, option_name_as_string)
             flag_option_list.append(Option(option_name_as_string, option_arg_as_string))
-        elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
+        elif are_all_individually_flags(potential_flag_or_option, set_of_all_flags) \
+                and not contains_attached_argument(potential_flag_or_option, json_data.get("flag_with_attached_argument", [])):
             for split_el in list(potential_flag_or_option[1:]):
                 flag: Flag = Flag(dict_flag_to_primary_repr.get(f'-{split_el}', f'-{split_el}'))
                 flag_option_list.append(flag)
@@ -124,6 +125,10 @@ def are_all_individually_flags(potential_flag_or_option, set_of_all_flags):
     if potential_flag_or_option[0] != '-' or potential_flag_or_option == '-':
         return False
     return all(f'-{split_el}' in set_of_all_flags for split_el in list(potential_flag_or_option[1:]))
+
+# what follows a flag which may have an argument attached to it is this argument and not further flags
+def contains_attached_argument(cluster_of_flags, flags_with_attached_argument):
+    return any(f'-{split_el}' in flags_with_attached_argument for split_el in list(cluster_of_flags[1:-1]))
 #
 # class WhichClassForArg(Enum):
 #     FILENAME = 'filename'
-- 
2.43.0


From 453a5090fd1c13d357e57f10dbe065069b90fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 41/42] fix: no I/O info for grep -d recurse without operands,
 which does not read stdin

---
 .../annotation_generators/InputOutputInfoGeneratorGrep.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
index 16aa58c..89c859a 100644
--- a/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
+++ b/pash_annotations/annotation_generation/annotation_generators/InputOutputInfoGeneratorGrep.py
@@ -20,7 +20,8 @@ class InputOutputInfoGeneratorGrep(InputOutputInfoGeneratorInterface):
         # --help and --version overrules -q (and no actual result returned) but we assume no help/version
         if not self.does_flag_option_list_contain_at_least_one_of(["-q"]):
             self.set_implicit_use_of_stdout()
-        is_recursive: bool = self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"])
+        is_recursive: bool = self.does_flag_option_list_contain_at_least_one_of(["-r", "-R"]) \
+                             or any(str(option.get_arg()).startswith("rec") for option in self.get_flag_option_list_filtered_with(["-d"]))
         # case analysis how script is provided
         if self.does_flag_option_list_contain_at_least_one_of(["-e", "-f"]):
             if self.get_operand_list_length() == 0:
-- 
2.43.0


From 73a43cffb9a030d8bd1e4cdd7915a0f89a314773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 42/42] fix: grouped views of commands with variables use the
 access map

---
 .../datatypes/CommandInvocationWithIOVars.py  | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/pash_annotations/datatypes/CommandInvocationWithIOVars.py b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
index 5ad2874..1fd57ef 100644
--- a/pash_annotations/datatypes/CommandInvocationWithIOVars.py
+++ b/pash_annotations/datatypes/CommandInvocationWithIOVars.py
@@ -2,8 +2,7 @@ from copy import deepcopy
 from typing import List, Union, Optional, Dict
 
 from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType, FileNameOrStdDescriptor
-from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO, FileNameOrStdDescriptorWithIOInfo, FileNameWithIOInfo, \
-    StdDescriptorWithIOInfo
+from pash_annotations.datatypes.BasicDatatypesWithIO import OptionWithIO
 from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output, AccessKind
 from pash_annotations.annotation_generation.datatypes.Inputs import Inputs, InputsEnum
 from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar, IOVar
@@ -194,30 +193,29 @@ class CommandInvocationWithIOVars:
 
 
     # for test cases:
-    def get_operands_with_config_input(self) -> List[Union[ArgStringType, FileNameOrStdDescriptorWithIOInfo]]:
+    def get_operands_with_config_input(self) -> List[Union[ArgStringType, IOVar]]:
         return [x for x in self.operand_list if
                 isinstance(x, ArgStringType) or
-                ((isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_config_input())]
+                (isinstance(x, IOVar) and self.access_map[x].is_config_input())]
 
-    def get_operands_with_stream_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_input()]
+    def get_operands_with_stream_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar)
+                and self.access_map[x].is_stream_input()]
 
-    def get_operands_with_other_input(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_input()]
+    def get_operands_with_other_input(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar)
+                and self.access_map[x].is_other_input()]
 
-    def get_operands_with_stream_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_stream_output()]
+    def get_operands_with_stream_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar)
+                and self.access_map[x].is_stream_output()]
 
-    def get_operands_with_other_output(self) -> List[FileNameOrStdDescriptorWithIOInfo]:
-        return [x for x in self.operand_list if (isinstance(x, FileNameWithIOInfo) or isinstance(x, StdDescriptorWithIOInfo))
-                and x.access.is_other_output()]
+    def get_operands_with_other_output(self) -> List[IOVar]:
+        return [x for x in self.operand_list if isinstance(x, IOVar)
+                and self.access_map[x].is_other_output()]
 
-    def get_options_with_other_output(self) -> List[OptionWithIO]:
-        only_options: List[OptionWithIO] = [x for x in self.flag_option_list if isinstance(x, OptionWithIO)]
+    def get_options_with_other_output(self) -> List[OptionWithIOVar]:
+        only_options: List[OptionWithIOVar] = [x for x in self.flag_option_list if isinstance(x, OptionWithIOVar)]
         return [x for x in only_options if
-                ((isinstance(x.option_arg, FileNameWithIOInfo) or isinstance(x.option_arg, StdDescriptorWithIOInfo)))
-                and x.option_arg.access.is_other_output()]
+                isinstance(x.option_arg, IOVar)
+                and self.access_map[x.option_arg].is_other_output()]
-- 
2.43.0

