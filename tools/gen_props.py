#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script only for readability of the long texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Dependency records survive the write/read cycle",
  "Every dependency recorded for a product (file, file standing behind an alias, environment variable, system variable, tracked value, unconditionally outdated mark) is read back "
  "from the record file with the same kind, flags and text, in the order written, and with the timestamp taken at registration. "
  "Nothing is invented, dropped or merged: a recorded value may hold any characters including newlines (texts without the control byte 2; names without byte 1; file names without newlines; lines below the reader's 256 KiB line buffer).",
  ["inputs", "histories"], "all sequences of registrations, all texts of the stated kind",
  "tests register a handful of plain file names; values with newlines, spaces, aliases and long texts are never read back",
  ["deps.c", "deps.h"], [("record writer", "deps.c deps_add, deps_add_alias, deps_add_env, deps_add_sys_env"), ("record reader", "deps.c deps_cur_next")],
  ["the dependency record file and the reader's current entry"])
p("C02", "A dependency is outdated exactly when its subject changed",
  "A recorded file is reported outdated exactly when it does not exist or its modification time is newer than the recorded one (a file that was missing when recorded: exactly when it is missing or exists now with any time); an aliased record "
  "is judged by the file named as its alias; a recorded environment or system variable is "
  "outdated exactly when its current value differs from the recorded one (an unset variable counts as empty). A record registered as unconditionally outdated always is; tracked node values are never outdated by themselves (the rule judges them).",
  ["inputs", "histories"], "all record kinds, recorded and current timestamps/values",
  "tests touch one file once; they never cover vanished files, aliases, unset variables and timestamp extremes",
  ["deps.c", "utils.c", "paths.c"], [("outdated test", "deps.c deps_cur_is_outdated"), ("mtime", "paths.c path_mtime, utils.h")])
p("C03", "A rule is skipped only if its record exists and nothing in it changed",
  "When a rule with recorded dependencies is resolved, its action runs if there is no successful record, if any recorded dependency is outdated, "
  "or if one of its tracked values differs from the recorded one; otherwise the action does not run. "
  "When it runs it sees which recorded dependencies and values changed, and what it registers replaces the old record. Recorded are the script files, the files a rule consumes, the values of its variable arguments, and for a check its script and what it registers.",
  ["inputs", "histories"], "all record contents and all sets of tracked values",
  "tests exercise a few fixed project edits; combinations of value counts, partial records and mixed dependency kinds are not sampled",
  ["script.c", "deps.c"], [("resolve driver", "script.c node_resolve"), ("tracked values", "script.c node_resolve, node_val_deps vectors")])
p("C04", "An interrupted or failed action never leaves a record of success",
  "The record that makes a later build skip a rule is put in place only after the rule's action has returned successfully and the record was fully written; "
  "a build that stops anywhere before that point leaves either the previous record or none under the final name, and leftovers of an interrupted run are not taken as input.",
  ["crash_points", "histories"], "every point at which the process may stop or fail during a rule",
  "tests never interrupt a build", ["script.c", "deps.c"], [("temporary record and rename", "script.c node_resolve"), ("close", "deps.c deps_close")])
p("C05", "Only changed sources are recompiled; a failed compile fails the build",
  "A compile rule compiles every source which has not been compiled successfully yet or which changed itself or through a header it includes, all sources when options or compiler changed, and no other. "
  "If any compiler run fails, the build fails and that source is compiled again by the next build.",
  ["inputs", "histories", "schedules"], "all source sets, change sets, finishing orders and failing subsets",
  "tests compile two or three sources successfully", ["node_cc.c"], [("selection", "node_cc.c _cc_on_resolve, _cc_on_build_source"), ("reaping", "node_cc.c _cc_on_task_finish and friends")])
p("C06", "Parallel compile jobs never exceed the limit and are all waited for",
  "At no moment are more compiler processes running than the job limit given by the user, and every started one is waited for and its result consumed exactly once before the rule finishes.",
  ["schedules", "inputs"], "all job limits, source counts and finishing orders", "tests run with one limit and two sources",
  ["node_cc.c", "spawn.c"], [("task loop", "node_cc.c"), ("process handles", "spawn.c")])
p("C07", "A failing external command fails the build",
  "If an external command started for a rule cannot be started, exits with a nonzero status or is killed by a signal, the build stops with an error (nonzero exit), unless the script marked that command's failure as acceptable. "
  "A command counts as successful only when it was run to its end and exited with status 0.",
  ["inputs", "fault_sequences"], "all exit statuses, signals and start failures; every rule that runs commands",
  "tests run succeeding commands and one or two failing ones", ["spawn.c", "node_run.c", "node_check.c", "node_subst.c"],
  [("status", "spawn.c spawn_do, spawn_wait, spawn_exit_code"), ("users", "node_run.c, node_subst.c, node_check.c")])
p("C08", "Captured command output is complete and in order",
  "Everything a command writes to its standard output and error before closing them is delivered to the consumer, byte for byte and in order, and the data supplied for its standard input is passed to it completely, "
  "regardless of how the operating system splits reads and writes or interrupts them. "
  "Output which the build passes on to its own standard output or error arrives there byte for byte, also when the build fails afterwards.",
  ["schedules", "fault_sequences"], "all splits of the stream into reads, hang-up timings and interruptions", "tests see short outputs read at once",
  ["spawn.c", "node_run.c", "node_subst.c", "node_check.c", "log.c"],
  [("poll loop", "spawn.c spawn_do"), ("output passed on", "node_run.c, node_subst.c, node_check.c output handlers; log.c akfatal2")])
p("C09", "A command gets exactly the intended arguments and environment",
  "The argument vector of a started command is the program followed by the added arguments in order, each unchanged; its environment is the inherited one with the build's additions replacing variables of the same name, every other variable once and unchanged.",
  ["inputs"], "all argument lists, environments and override sets", "tests cannot enumerate environments (entries without '=', prefixes of each other, empty values)",
  ["spawn.c"], [("argv", "spawn.c spawn_arg_add, spawn_create"), ("environment", "spawn.c spawn_env_set, _env_create")])
p("C10", "Path normalization gives the canonical form of the same path",
  "Normalizing a path yields an absolute path without empty, '.' or '..' components and without trailing slash that names what the input names relative to the given directory; normalizing again changes nothing; '..' never escapes the root and a path too long is reported, not cut.",
  ["inputs"], "all path strings and base directories", "tests compare a dozen fixed strings",
  ["paths.c"], [("normalization", "paths.c path_normalize_cwd, path_normalize")])
p("C11", "A relative path computed between two paths leads back to the target",
  "For canonical absolute paths a and b, the computed relative path, joined to directory a and normalized, is b.",
  ["inputs"], "all pairs of canonical paths", "tests compare a few fixed pairs", ["paths.c"], [("relativization", "paths.c path_relativize_cwd, path_relativize")])
p("C12", "Path prefix, base name and directory name are cut at component boundaries",
  "A path is reported as lying inside a directory exactly when the directory's components are a proper prefix of the path's components ('/a/b' is not a prefix of '/a/bc'); base name and directory name of a path are what basename(3) and dirname(3) give for it.",
  ["inputs"], "all path strings", "tests compare fixed strings", ["paths.c"], [("prefix", "paths.c path_is_prefix_for"), ("parts", "paths.c path_basename, path_dirname")])
p("C13", "Cleaning removes only the build cache",
  "Removing the build cache deletes nothing outside the cache directory: symbolic links are removed, not followed, and directories marked as kept stay. "
  "A cache directory that equals or contains the project root is refused.",
  ["inputs", "configurations"], "all directory contents (links, nesting) and cache locations", "tests clean an ordinary cache directory only",
  ["paths.c", "autark_core.c", "utils.c"], [("tree removal", "paths.c path_rm_cache"), ("cache location", "autark_core.c autark_build_prepare")])
p("C14", "Conditions evaluate to their documented truth value",
  "A condition written with the documented operators eq, defined, or, and, prefix, contains and their '!' negations has the truth value the documentation gives for it, for every nesting and number of operands (list operands have non-empty items).",
  ["programs", "inputs"], "all condition expressions and variable values", "tests sample a few conditions with one or two operands",
  ["node_if.c", "script.c"], [("evaluation", "node_if.c _if_defined_eval and friends")])
p("C15", "A conditional leaves exactly the selected branch in place, in order",
  "After a conditional is evaluated, the nodes of the taken branch (and only those) stand in the script where the conditional stood, in their written order, the untaken branch is never set up, and surrounding nodes are untouched. "
  "Source-tree redirection likewise keeps its children in order in its place.",
  ["programs"], "all trees around and inside the conditional, both truth values, with and without else", "tests sample a few scripts",
  ["node_if.c", "node_in_sources.c"], [("replacement", "node_if.c _if_init/_if_pull"), ("in-sources", "node_in_sources.c")])
p("C16", "List values keep their items, order and count",
  "A list built from non-empty items is iterated as exactly these items in order, for every length and content (empty items take no part in iteration by design); splitting a value into words follows shell-like quoting (quotes group, a backslash takes the next character, blanks separate) and loses and adds nothing.",
  ["inputs"], "all item sequences", "tests use short fixed lists", ["utils.c", "script.c", "ulist.c"],
  [("iteration", "utils.c vlist_iter_init, vlist_iter_next"), ("join", "ulist.c ulist_to_vlist"), ("split", "utils.c utils_split_values_add")])
p("C17", "A variable reference gets the value of the nearest enclosing definition",
  "Looking up a variable yields the value set in the nearest unit on the way from the current unit to the root, otherwise the process environment value, otherwise nothing; setting a variable in one unit never changes the value seen by unrelated units.",
  ["programs", "configurations"], "all unit nestings and definition sets", "tests use at most two nested units", ["autark_core.c", "script.c", "node_set.c"],
  [("lookup", "script.c node_env_get"), ("definition", "script.c node_env_set")])
p("C18", "Template substitution changes only the substitution markers",
  "When a template is configured, text outside substitution markers and definition directives is copied byte for byte (line ends and a missing final newline included); each @NAME@ of a defined variable becomes its value, and each definition directive becomes the definition or its commented-out form.",
  ["inputs"], "all template texts and variable values", "tests configure two small templates", ["node_configure.c"],
  [("line substitution", "node_configure.c _line_replace_subs, _line_replace_def")])
p("C19", "The string builder holds exactly the text put into it",
  "After any sequence of append, prepend, insert, trim and clear operations the string builder holds exactly the corresponding byte sequence, NUL-terminated, with the right length, and never accesses memory outside its buffer.",
  ["inputs", "histories"], "all operation sequences and all texts below 1 GiB", "tests append a few short strings", ["xstr.c"],
  [("operations", "xstr.c")])
p("C20", "Lists behave as sequences under any operation history",
  "A list always holds the elements a sequence under the same push, pop, insert, remove, shift, unshift, set, find and clone operations would hold, in order; elements not addressed are unchanged and no access leaves the list's memory.",
  ["inputs", "histories"], "all operation histories, element sizes and values", "tests use short push-only lists",
  ["ulist.c"], [("operations", "ulist.c")])
p("C21", "Maps return for each key the last value put",
  "After any sequence of put, remove and clear, a map lookup returns the value last put for an equal key and nothing otherwise, the count is the number of distinct live keys, and iteration visits every live entry exactly once, across growth and shrinkage of the table.",
  ["inputs", "histories"], "all operation histories, keys and hash collisions", "tests put a few keys with no forced collisions or shrinkage",
  ["map.c"], [("operations", "map.c")])
p("C22", "Memory from a pool is distinct, aligned, and lives until the pool ends",
  "Each allocation from a pool returns at least the requested number of usable, suitably aligned bytes that overlap no other live allocation, zeroed where promised; copies made in the pool equal their source; everything stays valid until the pool is destroyed.",
  ["inputs", "histories"], "all allocation size sequences", "tests allocate small sizes only", ["pool.c"], [("allocation", "pool.c pool_alloc"), ("copies", "pool.c pool_strdup, pool_strndup, pool_calloc, pool_printf")])
p("C23", "Files are read, written and copied whole or an error is reported",
  "Reading, writing, copying or renaming a file either transfers every byte or reports failure: short reads, short writes, interrupted calls and I/O errors never yield a silently truncated or altered result.",
  ["inputs", "fault_sequences"], "all contents, sizes and outcomes of the system calls", "tests never make a system call fail or return short",
  ["utils.c"], [("file helpers", "utils.c utils_file_as_buf, utils_file_write_buf, utils_copy_file, utils_rename_file")])
p("C24", "Installation puts the right files at the right places or fails",
  "Each listed file is installed at the documented target below the install prefix with its content and permission bits, a link as a link to the same target, and no other file is changed; any file that cannot be installed makes the build fail.",
  ["inputs", "fault_sequences"], "all source kinds, prefixes and system call outcomes", "tests install a few plain files",
  ["node_install.c"], [("install", "node_install.c")])
p("C25", "Each rule is built at most once and cycles are fatal",
  "During one build every rule reached is completed exactly once, before anything that depends on it continues; a dependency cycle or a product claimed by two rules stops the build with an error.",
  ["programs"], "all dependency graphs and product claims", "tests build small acyclic graphs", ["script.c"],
  [("build", "script.c node_build"), ("ownership", "script.c node_product_add")])
p("C26", "Command line options have their documented effect",
  "A job count from 1 to 16 is used as given, a larger one means 16, an absent or non-positive one the documented default of 4; each option has its documented effect whether given before or behind the sources directory; each -D NAME[=VALUE] option defines exactly that variable with exactly that value (line ends at its end apart); unknown options are refused.",
  ["inputs"], "all argument vectors", "tests run few command lines", ["autark_core.c"], [("options", "autark_core.c autark_run, _build")])
p("C27", "Script text reaches rules literally apart from documented escapes",
  "Comment lines (first non-blank character #) are removed and the escapes \\n \\r \\t \\{ \\} \\\\ of bare words are decoded; everything else in quoted and bare words of a script reaches the rules byte for byte, and no script text, malformed ones included, makes reading it access memory outside its buffers.",
  ["inputs"], "all script texts", "tests parse a few scripts", ["script.c", "scriptx.leg"], [("preprocessing", "script.c _preprocess_script"), ("escapes", "script.c _text_escape/_node_text")])
p("C28", "Fatal errors end the build with a failure status",
  "Every reported fatal error ends the program with a nonzero status, and user-controlled text shown in messages is never interpreted as a format.",
  ["inputs", "programs"], "all error codes and message texts", "tests only see benign messages", ["log.c", "node_error.c", "script.c"],
  [("fatal", "log.c _akfatal, _akfatal_va"), ("error rule", "node_error.c")])
p("C29", "Values set by check scripts arrive in the build unchanged",
  "Each NAME=VALUE a check script emits defines exactly that variable with exactly that value, also when the check is skipped because nothing changed; empty values, values with newlines inside, with '=' and of any length included (carriage returns at the very end of a value are cut, the control byte 2 cannot be carried).",
  ["inputs"], "all line sequences", "tests have two short checks", ["script.c", "node_check.c", "autark_core.c"], [("env file", "script.c node_resolve"), ("emission", "autark_core.c set command")])
p("C30", "Loops and macro calls substitute exactly their arguments",
  "A loop body is processed once per (nonempty) list item, in order, with the loop variable set to that item (when only some of the files listed by the loop have changed since the last build, for exactly those); a macro call is replaced, at its place, by the macro body with each parameter replaced by the corresponding argument and nothing else changed; more than 64 arguments or a parameter without argument is a fatal error.",
  ["programs", "inputs"], "all item lists, argument counts and parameter references", "tests use two items and two arguments",
  ["node_foreach.c", "node_call.c", "node_macro.c"], [("foreach", "node_foreach.c"), ("call", "node_call.c")])
p("C31", "The path-without-extension rule cuts exactly the extension",
  "The path rule yields its argument with the extension of the final component removed, or replaced by the given one, the directory part kept as it is; dots in directory names are irrelevant.",
  ["inputs"], "all path texts and replacements", "tests use one path", ["node_basename.c"], [("value", "node_basename.c _basename_value")])
p("C32", "Every build eventually terminates",
  "A build of a finite script whose commands terminate terminates.", ["programs", "schedules"], "all finite scripts", "no test bounds running time", ["script.c", "spawn.c"], [("build", "script.c node_build")])
p("C33", "Concurrent builds of one cache do not corrupt each other",
  "Two builds of the same project running at the same time leave records and products that one of them alone could have left.",
  ["schedules"], "all interleavings of two processes", "tests run one build at a time", ["autark_core.c", "script.c"], [("none", "no locking found")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
