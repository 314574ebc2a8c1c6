"""The parts of DESIGN.md that are written by hand."""
INTRO = """# Verification of edulint by property-based testing and fuzzing

edulint configures and runs pylint and flake8 for courses, adds some sixty checks of its own, and explains, translates,
caches and filters what they find. The properties in `properties.jsonl` are the guarantees a course relies on: the
configuration means what the documentation says (C01–C07, C17), what is reported is complete, attributed, stable and
printed faithfully (C08–C16), every own check's claim about the student's program is true (C20–C27), and the
analyses these claims rest on are right (C30–C32, C40). They quantify over all configurations, programs or histories,
which is why the 313 example-based tests cannot settle them.

## Machinery

`run.py <id> --tier quick|thorough` decides one property. `vlib/core.py` is a small search engine (the repository's
interpreter has no Hypothesis and the sandbox cannot install it there): a property module in `props/` gives

- `generate(rng)` – a random structured case, a plain JSON value, from a seeded generator;
- `run_case(case)` – runs the real code from /repo's working tree on it and compares with the oracle; it returns the violations, whether the case
  was non-trivial by the stated rule, and the classes it covers (shown in the evidence);
- `shrink(case)` – smaller variants; the engine greedily minimises every failure with them, keeping its signature;
- `fixed_cases()` – hand-picked cases that are always run, `known_match` – the predicate of a listed finding.

Eight worker processes search in parallel until the number of cases or the time is used up (55 s quick; a quick check thus ends well within a
minute of search plus set-up, the thorough one takes up to half an hour). A failure is minimised, written to `replays/<id>-<hash>.json`, confirmed by running it again in a fresh
process, and printed as `VIOLATION property=<id> replay=<path>`; `run.py <id> --replay <path>` runs it alone. Failures of the harness itself are errors (exit 2), not violations.
`evidence/<id>.json` reports cases, evaluations, distinct non-trivial cases, the classes hit and samples. `VERIF_SEED` moves the search.

The code under test is imported from /repo (or `VERIF_REPO`) in the worker and, wherever state could leak (pylint keeps global state, lint calls change
streams), in a forked child per lint (`vlib/lint.py`). Everything runs in a scratch HOME/XDG/TMPDIR; network access is replaced by a fake (`vlib/fakenet.py`: histories of
answers, outages, broken bodies; fake clock; disk writes that stop half-way). No check writes outside its scratch directory and /verif/evidence, /verif/replays.

Common generators: `vlib/confgen.py` (worlds of inheriting TOML files, groups, in-file lines, command lines, with their independent model), `vlib/gen.py` (grammar-based Python programs),
`vlib/patterns.py` (one instance generator per own check), `vlib/progs.py` (small terminating-or-cut programs with a log of effects, executed before and after a rewriting), `vlib/conds.py` (conditions
over integers and exact rationals with grids of interesting values around their constants).

The oracles are written from the documentation and the meaning of Python, not from the implementation: reference models for configuration, histories and ordering; differential execution of
the original and the suggested code for every claim about programs (the decisive one for about fifty of the own checks); metamorphic relations (batch/single, subset/all, naming by code/symbol, path
spellings, renaming); and round trips for output. No check looks at how the code is written.

No hooks were needed in /repo (MANIFEST `hooks` is empty).
"""

NOTES = {
    "C01": {"oracle": "an independent model of precedence, accumulation and cancelling of all-options.", "why": "tests fix a handful of combinations; here chains of any depth mix every option, order and source."},
    "C02": {"oracle": "the model, and the same world with groups written out by hand.", "why": "interplay of redefinition, inheritance and position of groups is combinatorial."},
    "C03": {"oracle": "each file configured alone, and the model.", "why": "sharing between files only shows in trees with several configurations in one run."},
    "C04": {"oracle": "comments planted at known positions by the generator; options with in-file lines left out.", "why": "spellings accepted by the linters are many; strings, encodings and positions interact."},
    "C05": {"oracle": "a model of the documented search, evaluated from several working directories.", "why": "depends on the shape of the tree and the working directory."},
    "C06": {"oracle": "the same world without the malformed parts.", "why": "the space of malformed input is open-ended; tests cover some five of its members."},
    "C07": {"oracle": "a model of the history: which bodies were sent when, and which of them may be served.", "why": "only histories with outages and interrupted writes reach the states in question."},
    "C08": {"oracle": "the linters run on their own for the same arguments, filtered by a model of overrides and tweaks.", "why": "which findings coincide on a line varies with programs and options."},
    "C09": {"oracle": "the file linted alone under its absolute path; a walk of the tree for coverage.", "why": "spellings, groupings and working directories multiply."},
    "C10": {"oracle": "a fresh process on the same tree for every call of the history.", "why": "caches in pylint, astroid and edulint are keyed by things tests never vary in one process."},
    "C11": {"oracle": "the programming interface's problems, a model of the text form, JSON read back.", "why": "names, texts and encodings of every kind go through printing."},
    "C12": {"oracle": "no exception, no crash report of pylint, no hang, positions inside the file.", "why": "grammar-based programs reach node combinations nobody writes in a test."},
    "C13": {"oracle": "the problems with all checks enabled, filtered.", "why": "hidden coupling between checks depends on which subset is enabled on which code."},
    "C14": {"oracle": "the untranslated run and the snippets the checkers passed.", "why": "texts with quotes, braces and repeated snippets are generated for real messages."},
    "C15": {"oracle": "a model of the history of downloads.", "why": "interrupted and malformed downloads in sequence are not in the tests."},
    "C16": {"oracle": "independent version ordering and a model of the cache.", "why": "orderings of pre-/post-/dev-releases and cache states are generated."},
    "C17": {"oracle": "a model of the documented attribution.", "why": "attribution depends on chains of sources naming overlapping checks."},
    "C20": {"oracle": "both conditions evaluated exactly on grids around their constants.", "why": "equivalence for all integers cannot be sampled by three examples; off-by-one and sign cases are hit by construction."},
    "C21": {"oracle": "evaluation of chains on grids.", "why": "claims about all values of the variables."},
    "C22": {"oracle": "execution of both versions with logged effects on mixed values.", "why": "truthiness, effects and order differ only for unusual operands."},
    "C23": {"oracle": "execution of the joined chain.", "why": "requires bodies that modify variables of later conditions."},
    "C24": {"oracle": "execution of the rewritten loop.", "why": "bodies that modify index, bounds or structure on some path only."},
    "C25": {"oracle": "events recorded at the loop in executions; poisoned values.", "why": "claims about every run; tests only match expected messages."},
    "C26": {"oracle": "execution of the rewritten statement.", "why": "values at the borders of letters, ranges, truth."},
    "C27": {"oracle": "the syntax trees compared, and executions of the joined code.", "why": "near-identical code differing in one place is generated."},
    "C30": {"oracle": "traces of real executions walked through the graph.", "why": "every nesting of compound statements and jumps is generated."},
    "C31": {"oracle": "definition-use pairs observed in executions.", "why": "paths through loops, calls and handlers combine."},
    "C32": {"oracle": "Python's own evaluation of the expressions.", "why": "all operand types and operators are combined."},
    "C40": {"oracle": "the same file before the change, with lines and names mapped.", "why": "layout and neighbours are varied at random for every defect pattern."},
}

FALSE_ALARMS = """## False alarms met, and what was corrected

- C20: floats were compared after rounding; the harness now uses exact rationals, and skips conditions mixing `%`/`//` with quotients. A suggestion that replaces some operands of a longer condition only is allowed by the statement.
- C21/C23: assignments for which the original raises by itself are outside the statement.
- C22: a condition whose suggested text astroid prints without the brackets an assignment expression needs is a listed finding (C22-printing): the text is astroid's.
- C24: the value of the control variable after a loop with tightened bounds, and reads of the counter of a while loop after its change, are outside the property (the message leaves adapting them to the author).
- C25: what a nested function does to the iterated list is not judged (the tool assumes that a nested function may be called); paths are chosen by chance, not by the conditions, when looking for one on which the very list is modified; addresses in printed functions are ignored.
- C13: a finding missing from the run with all checks is accepted only if the documented override table explains it.
- C04: a pragma in a string literal is a genuine finding (C04-string), recorded.
- C09: directories pylint itself does not walk into (C09-pylint-recursion) are a genuine finding, recorded.
- Programs under test once grew until memory ran out; executions now have limits on iterations, time and memory. Running into one counts as no answer for that input.
"""

CAUGHT_NOTE = """Each bug changes lines of the original repository, passes all stable tests, and was confirmed in a private copy together with its demonstration (`tools/seed.py`). `python3 tools/seed.py check ID` runs the property's quick check on a patched copy. All of those listed are reported by the quick check of their property."""

OUTRO = """## Limits

The assurance is statistical within the generated vocabulary; the evidence files say how many distinct non-trivial cases there were. Timing-dependent behaviour is restricted to the injected clock. Windows and
symbolic links are not covered. Two tools in the sandbox that could have been used are not: Hypothesis/atheris live in another interpreter than the repository's dependencies, and coverage guidance
was not needed once the generators were built around the patterns each check looks for (the classes in the evidence show every check code being hit)."""
