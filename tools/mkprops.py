#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- the library
p("C01", "Concurrent callers get the results they would get alone",
  "Any number of threads may at the same time parse expressions, evaluate, list, clone, compare, format and drop shared expressions and their errors, look up built-in targets and match predicates against targets. "
  "Every such call returns exactly what the same call returns when it is the only one in the process: for an evaluation, the value that the not/all/any structure of the text gives for this caller's own predicate answers. "
  "No interleaving makes a call panic, block forever, or see another caller's data, and expressions and target descriptions can be moved to and shared with other threads.",
  ["schedules", "inputs"], "every interleaving of the calls of 1 to 4 threads, at every branch inside the library and at every callback; every workload of calls over shared and freshly parsed expressions",
  "All existing tests are single-threaded; none shares an Expression, a target or an error between threads, so no schedule at all is sampled today.",
  ["src/expr.rs", "src/expr/parser.rs", "src/expr/lexer.rs", "src/targets.rs"],
  [("Expression is immutable after parse; eval and predicates take &self and keep all state on the caller's stack", "src/expr.rs: Expression::eval, Expression::predicates"),
   ("parser state is local to one call", "src/expr/parser.rs: Expression::parse"),
   ("the builtin table is constant data", "src/targets.rs: get_builtin_target_by_triple")],
  ["return values of the public API on every thread"])

p("C02", "Each predicate is queried exactly once per evaluation and its answer used once",
  "During one evaluation the caller's closure is called exactly once for every predicate occurrence in the expression, with that predicate, and each answer it returns is combined into the result exactly once, by the logic operations that the enclosing not/all/any prescribe, or is dropped if the evaluation is abandoned. "
  "This holds for every Logic type (no answer is skipped, repeated, cached from an earlier query or evaluation, or leaked), also when the closure answers differently each time, when other evaluations of the same expression are in progress, and when an evaluation is cut short at any callback by a panic of the caller: then the calls made so far are distinct occurrences and none follows the panic.",
  ["histories", "fault_sequences", "schedules", "inputs"], "every expression shape (including lists and nesting beyond any inline or integer capacity), every history of callbacks, every callback at which the caller's code fails",
  "Tests look only at final bool results of a few small expressions with side-effect-free closures; none counts calls, uses a custom Logic type, or has a closure that fails.",
  ["src/expr.rs", "src/expr/parser.rs"],
  [("postfix walk with one result stack per call", "src/expr.rs: Expression::eval"), ("operand counts of all/any/not", "src/expr/parser.rs: CloseParen branch (num_predicates, nest_level)"), ("a single root", "src/expr/parser.rs: root_predicate_count")],
  ["sequence of closure and Logic calls", "number of live answer values"])

p("C03", "A caller's panic in a callback is contained",
  "A panic raised by caller code that the library has called (a predicate closure, a Logic operation, an iterator given to a set constructor, a text sink being formatted into) propagates to that caller and nowhere else. "
  "Afterwards the same expression, every other expression, error, iterator and target, on this and every other thread, behaves exactly as if the abandoned call had never been made, and the abandoned call's answers and memory have been released.",
  ["fault_sequences", "schedules", "histories"], "every callback index at which a panic can be raised, nested inside any call, followed by any history of calls on any thread",
  "No test panics inside a callback and then continues; the state after an unwound call is never observed.",
  ["src/expr.rs", "src/targets.rs", "src/error.rs"],
  [("no state outlives a call: result stack and borrowed predicate are owned by the frame and dropped on unwind", "src/expr.rs: Expression::eval"), ("no locks or thread-locals", "src/")],
  ["results of calls made after the unwound one", "live answer values and live library memory"])

p("C04", "The library is reentrant from every callback",
  "Code called by the library (predicate closure, Logic operation, iterator, text sink) may itself call any part of the library, on the same or on other expressions, to any depth, and may hold other iterators and evaluations open meanwhile. "
  "Both the inner and the outer calls return exactly what they would return without the nesting, and neither panics nor blocks.",
  ["schedules", "histories", "inputs"], "every placement of nested calls inside callbacks, up to three levels, interleaved with other threads",
  "No test calls the library from inside a callback.",
  ["src/expr.rs", "src/targets.rs", "src/error.rs"],
  [("eval and predicates only borrow the expression immutably; no scratch state is shared between calls", "src/expr.rs")],
  ["return values of inner and outer calls"])

p("C05", "Token and predicate streams survive pausing, interleaving and cancelling",
  "A token stream or a predicate listing can be paused at any item, advanced in any interleaving with other streams and calls, handed to another thread, or abandoned; each stream yields exactly the items it yields when drained in one go: for a predicate listing every predicate occurrence of the expression once, for a well-formed text its tokens in order with the spans they occupy. "
  "Every stream ends after finitely many polls, also over text that was cut short or corrupted: a token stream yields at most one error, as its last item, and once a stream has ended it stays ended.",
  ["schedules", "histories", "fault_sequences", "inputs"], "every polling history, hand-over and cancellation point, over intact, truncated and corrupted text",
  "Lexer tests drain one stream over a handful of valid texts in one go; none polls after an error or the end, none interleaves or abandons a stream.",
  ["src/expr/lexer.rs", "src/expr.rs"],
  [("the lexer keeps its remaining text and offset per stream", "src/expr/lexer.rs: Iterator for Lexer"), ("predicates() maps over the stored nodes", "src/expr.rs: Expression::predicates")],
  ["items yielded by each stream"])

p("C06", "Formatting into a failing sink stops and reports the failure",
  "When a parse error, error reason, token, target field, family set or atomic set is formatted into a sink that fails at some write, formatting returns an error, makes no further write after the failed one, and what the sink has accepted is a prefix of the complete rendering. "
  "If the sink never fails, formatting succeeds and writes the complete rendering, however the sink is interleaved with other callers or calls the library itself.",
  ["fault_sequences", "schedules", "inputs"], "every byte position at which the sink can start to fail (or panic), for every displayable value, under every interleaving",
  "Tests only ever format into a String, which cannot fail.",
  ["src/error.rs", "src/targets.rs", "src/expr/lexer.rs"],
  [("every write result is propagated with ?", "src/error.rs: Display for ParseError and Reason; src/targets.rs: Display impls")],
  ["bytes accepted by the sink and the returned fmt::Result"])

p("C07", "Nesting depth does not consume stack",
  "Parsing, evaluating, listing, cloning, comparing, formatting and dropping an expression, or the error for a malformed one, works on a thread with a small fixed stack (256 KiB) however deeply the expression is nested and however long its lists are. "
  "Each call finishes within a number of steps bounded by a small multiple of the length of the text.",
  ["inputs", "fault_sequences", "configurations"], "every nesting depth and list width up to tens of thousands, every call, on threads with scarce stack",
  "Tests nest at most four levels, on full-size stacks.",
  ["src/expr/parser.rs", "src/expr.rs"],
  [("explicit function stack and postfix queue instead of recursion", "src/expr/parser.rs: Expression::parse; src/expr.rs: Expression::eval")],
  ["termination of the thread, number of executed branches"])

p("C08", "Memory is released, and running out of it never yields a wrong answer",
  "All memory obtained by a call is released when its results are dropped, so any history of calls, including failed and abandoned ones, ends with no more memory held than a bounded amount independent of how many calls were made. "
  "If an allocation fails inside the library, the process ends there or the call still gives the correct answer: it never returns a wrong value, a truncated expression or a made-up parse error.",
  ["fault_sequences", "histories", "inputs"], "every allocation of every call as the one that fails; every history length",
  "Tests never fail an allocation and never measure memory.",
  ["src/expr.rs", "src/expr/parser.rs", "src/targets.rs", "src/error.rs"],
  [("owned Strings and SmallVecs dropped with their value; Cow::Owned predicate fields", "src/expr.rs: InnerPredicate::to_pred"), ("infallible allocation aborts the process", "std")],
  ["live bytes allocated by the library", "values returned after an injected allocation failure"])

p("C09", "Results depend on the arguments only, not on surroundings or history",
  "The result of every library call is a function of its arguments alone: it does not change with environment variables, working directory, clock (including jumps), random numbers, process or thread identity, number of CPUs, or with which calls were made before, in which order, on which thread. "
  "In particular a text gives the same expression or the same error each time it is parsed, also after other texts of the same length or with a common prefix, and also when a new expression occupies the memory of a dropped one.",
  ["histories", "configurations", "schedules"], "every history of earlier calls and every ambient configuration, with clock jumps during calls",
  "Each test makes a few calls in one fresh process with one environment; nothing is repeated under another history, environment, clock or hash randomisation.",
  ["src/expr.rs", "src/expr/parser.rs", "src/targets.rs"],
  [("no global state, no I/O, no clock, no randomised containers", "src/")],
  ["results of calls compared with the same call in a fresh process under a reference environment"])

# ---------------------------------------------------------------- the update tool
U = ["update/src/main.rs"]
p("C10", "A regeneration that cannot gather everything changes nothing",
  "If any query of the compiler (its version, its target list, the cfg of any listed target) cannot be started, fails, is killed or gives output that cannot be interpreted (not UTF-8, an attribute missing or unknown), or if the README cannot be read or has no version marker, then the target-table generator exits with a failure status. "
  "In that case the generated table, the README and every other file are byte for byte what they were before, whatever the timing of its two concurrent parts.",
  ["fault_sequences", "schedules"], "every placement of query and read failures, under every interleaving of the generator's threads and children",
  "The generator has no tests at all.",
  U + ["README.md", "src/targets/builtins.rs"],
  [("both parts are assembled in memory and joined before anything is written; an error exits the process", "update/src/main.rs: main, assemble, assemble_readme, finalize")],
  ["exit status and file contents after the run"])

p("C11", "A successful regeneration is complete",
  "If the target-table generator exits successfully, the table file holds, formatted, one entry for every target the compiler listed with exactly the attributes the compiler reported for that target, every name it refers to defined exactly once, and the compiler's version; the README names that version and is otherwise unchanged; and no other file has changed. "
  "Short reads and writes, interrupted system calls, slow children and chatty standard error do not make it fail; full disks, I/O errors, and a missing, failing or killed formatter are never reported as success.",
  ["fault_sequences", "schedules", "inputs"], "every placement of transient and hard faults on files, pipes, children and threads; every compiler answer set",
  "The generator has no tests at all; CI never runs it with a failing disk, pipe or formatter.",
  U + ["src/targets/builtins.rs"],
  [("status of every child checked, every io::Result propagated", "update/src/main.rs: assemble, finalize"), ("sorted constant tables built with binary search insertion", "update/src/main.rs: insert, insert_group, write_impls, write_group_impls")],
  ["exit status and file contents after the run"])

p("C12", "The README never runs ahead of the table",
  "At every instant of a regeneration, and therefore after a crash or kill at any point, the README differs from its previous contents only if the table file already holds the complete, formatted table for the version that the README announces.",
  ["crash_points", "fault_sequences", "schedules"], "every crash point and every file-system state that becomes visible during a run, with every fault before it",
  "The generator has no tests; no test can stop it at an arbitrary instruction.",
  U, [("table written and formatted, and the formatter's status checked, before the README is written", "update/src/main.rs: finalize")],
  ["file contents after every file-system operation and after every kill"])

p("C13", "An interrupted regeneration can simply be run again",
  "After a regeneration was killed, or failed on a disk, pipe or child error, at any point, running the generator once more without faults succeeds and leaves all files exactly as an undisturbed run would have left them.",
  ["crash_points", "fault_sequences", "histories"], "every sequence of up to three crashes or faults at arbitrary points followed by one undisturbed run",
  "The generator has no tests; recovery from a torn file is never exercised.",
  U, [("the table is rebuilt from the compiler's answers alone", "update/src/main.rs: assemble"), ("the README is the only file that is input as well as output, so it must never be left torn", "update/src/main.rs: assemble_readme, finalize")],
  ["exit status and file contents after the last run"])

p("C14", "Regeneration output does not depend on timing",
  "For the same compiler answers and the same README the generator produces the same bytes in both files, whatever the interleaving of its threads, the speed and completion order of its children, the chunking of their output, the clock, the environment's randomness and the number of CPUs. "
  "Entries appear in the order in which the compiler lists its targets, each with its own target's answers.",
  ["schedules", "configurations", "fault_sequences"], "every interleaving, child latency and chunking, with interrupted and short I/O",
  "The generator has no tests; a single manual run shows one timing only.",
  U, [("targets are queried and emitted in list order; groups and names are kept in sorted vectors", "update/src/main.rs: assemble")],
  ["bytes of both files across schedules"])

p("C15", "Regeneration never hangs and leaves no children behind",
  "As long as each child it starts eventually writes its output and exits, the generator terminates within a bounded number of steps, however much its children write to standard output and standard error, in whatever order and chunking, through pipes of limited capacity. "
  "When it succeeds, it has asked the compiler exactly once for every listed target and has waited for every child it started.",
  ["schedules", "fault_sequences"], "every interleaving and every volume and order of child output relative to the pipe capacity, with interrupted system calls",
  "The generator has no tests; real compilers rarely fill a pipe, so a deadlock would surface only in the field.",
  U, [("Command::output drains both pipes concurrently and reaps the child", "update/src/main.rs: assemble"), ("scoped threads are joined", "update/src/main.rs: main")],
  ["termination, unreaped children, multiset of queries"])

# ---------------------------------------------------------------- pure functions: not applicable
p("C16", "The parser accepts exactly the documented cfg() grammar",
  "A text parses if and only if it is one configuration predicate of the documented cfg grammar (optional cfg() wrapper, identifiers, key = \"value\", not/all/any lists with optional trailing comma), and the parsed expression has the structure the grammar gives it.",
  ["inputs"], "every text", "Tests sample about fifty texts.",
  ["src/expr/parser.rs", "src/expr/lexer.rs"], [("token-pair checks and shunting-yard", "src/expr/parser.rs")])
p("C17", "Predicates are classified by their key",
  "Every key, bare or with a value, is reported as the documented kind of predicate with exactly the value written in the text; the reserved keys reject the forms the documentation excludes.",
  ["inputs"], "every key and value", "Tests cover one or two values per key.",
  ["src/expr/parser.rs", "src/expr.rs"], [("parse_predicate, to_pred", "src/expr/parser.rs, src/expr.rs")])
p("C18", "Parsing any text returns, and errors point into the text",
  "Parsing any string returns without panicking; an error carries the parsed text and a span that lies inside it, on character boundaries, at the offending part.",
  ["inputs"], "every string, including arbitrary Unicode", "Tests check spans of about twenty ASCII texts.",
  ["src/expr/lexer.rs", "src/expr/parser.rs", "src/error.rs"], [("offset bookkeeping in the lexer", "src/expr/lexer.rs")])
p("C19", "The built-in target table is rustc's, and lookup is complete",
  "Every target of the announced rustc version is in the table once, with rustc's attributes, in sorted order, and looking up a triple finds it if and only if it is in the table.",
  ["inputs"], "every triple", "Tests check sorting and a few triples.",
  ["src/targets/builtins.rs", "src/targets.rs"], [("generated table, binary search", "src/targets.rs")])
p("C20", "Built-in target matching follows rustc's cfg values",
  "A target predicate matches a built-in target exactly if rustc sets that cfg for the target (with an absent abi or env matching the empty string, an absent os matching none, an absent vendor matching unknown).",
  ["inputs"], "every predicate and target", "Tests check a few predicates over all targets.",
  ["src/expr.rs"], [("TargetMatcher for TargetInfo", "src/expr.rs")])
p("C21", "target-lexicon triples match like the built-in target",
  "For every built-in triple that target-lexicon can parse, every target predicate other than abi, has_atomic and panic gives the same answer on the parsed triple as on the built-in target.",
  ["inputs"], "every predicate and every built-in triple", "Tests compare a few dozen expressions.",
  ["src/expr.rs"], [("TargetMatcher for target_lexicon::Triple", "src/expr.rs")])
p("C22", "bool and Option<bool> follow Boolean and Kleene logic",
  "The provided Logic implementations satisfy the truth tables of two-valued and of Kleene's three-valued logic.",
  ["inputs"], "every combination of operands", "Finite and small; tests cover two of the combinations.",
  ["src/expr.rs"], [("impl Logic for bool and Option<bool>", "src/expr.rs")])
p("C23", "Expressions remember and compare by their text",
  "original() returns the parsed text without its cfg() wrapper, and two expressions are equal exactly if those texts are equal.",
  ["inputs"], "every pair of texts", "One doc-test each.",
  ["src/expr.rs"], [("original field, PartialEq", "src/expr.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P), "properties")
