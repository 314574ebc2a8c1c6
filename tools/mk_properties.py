#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
        },
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


CFG = "edulint/config/config.py"
LINT = "edulint/linting/linting.py"
SIF = "edulint/linting/checkers/simplifiable_if.py"
LOC = "edulint/linting/checkers/local_defects.py"
LOOP = "edulint/linting/checkers/unsuited_loop.py"
UT = "edulint/linting/analyses/utils.py"
DUP = "edulint/linting/checkers/duplication/"

prop(
    "C01", "Effective options follow the documented precedence and combination rules",
    """For every chain of inheriting configuration files, set of in-file configuration lines and list of command-line
    options, the options a file is linted with are exactly those obtained by applying base files, then the chosen file,
    then the in-file lines in order, then the command line in order. A later value of a single-valued option replaces
    the earlier one, linter arguments from all sources are kept in that order, and of several enable-all/disable-all
    arguments only the last counts, cancelling opposite arguments given before it but none given after it.""",
    ["configurations"],
    "all TOML files (tables, lists, strings, inheritance chains), in-file lines, CLI option lists over all options",
    """tests fix about a dozen hand-written combinations; the rule quantifies over all interleavings of four sources,
    ten options and two spellings of linter arguments""",
    [CFG, "edulint/option_parses.py", "edulint/config/file_config.py", "edulint/config/utils.py"],
    [("combination of sources", CFG + ": Config.combine, Config._combine, get_config_many"),
     ("enable/disable all", CFG + ": Config._resolve_enable_disable_all"),
     ("inheritance", CFG + ": parse_config_file")],
    ["get_config_one / get_config_many / check_code's returned configuration"],
)
prop(
    "C02", "Selecting an option group equals writing out its options at that place",
    """Selecting option groups, in any configuration source, gives the linters the same arguments as writing the options the
    groups stand for directly after the place where the effective selection is written, in the order the groups are listed. A group defined
    in an inherited file is available to the inheriting one, whose own definition of the same name replaces it; an unknown group changes
    nothing.""",
    ["configurations"],
    "all group tables over all levels of inheritance, selected from file, in-file or CLI",
    "one packaged group and one combination are tested; definitions, overriding and the place of expansion are unbounded",
    [CFG, "edulint/config/option_sets.py"],
    [("group expansion", CFG + ": Config._translate, Config.to_immutable"),
     ("group tables", "edulint/config/option_sets.py: parse_option_sets")],
    ["returned configuration", "problems reported by check_code"],
)
prop(
    "C03", "Every file gets exactly its own configuration, however files are grouped",
    """Configuring many files and directories at once assigns every Python file below the given paths to exactly one
    configuration, and to the same options and message translations it would get if it were configured alone. The
    command line applies to all of them, in-file lines only to their own file.""",
    ["inputs", "configurations"],
    "all directory trees of files with and without in-file configuration, all lists of given paths",
    "tests partition a few fixture files; grouping by directory, translations and sharing depend on the whole tree",
    [CFG, "edulint/config/language_translations.py"],
    [("grouping", CFG + ": _parse_infile_configs, get_config_many")],
    ["get_config_many"],
)
prop(
    "C04", "Suppression comments are reported, and in-file configuration can be shut out",
    """When in-file configuration is to be ignored for some linters, every line carrying such a linter's suppression or configuration
    comment - and no other line - is reported, once for every kind of such comment on it, at its own line and the column of the comment. When in-file configuration of the tool itself is
    to be ignored, no in-file line has any effect on the options the file is linted with.""",
    ["inputs", "configurations"],
    "all source texts with arbitrary comment spellings and all sets of ignored linters from any source",
    "tests cover five fixtures of one spelling each; the recogniser must decide every line text",
    ["edulint/linting/nonparsing_checkers.py", CFG, LINT],
    [("recogniser", "edulint/linting/nonparsing_checkers.py: report_infile_config"),
     ("ignoring", CFG + ": resolve_ignore_infile_config, _ignore_infile")],
    ["check_code"],
)
prop(
    "C05", "Configuration files are found where the documentation says",
    """A file without a configured configuration file uses the implicit configuration file in its own directory or
    the nearest ancestor directory that has one. A relative path to a configuration or language file is resolved against the
    file that mentions it (the working directory for the command line), independently of the directory the tool is run from, and an
    explicitly configured file always wins over an implicit one.""",
    ["configurations", "inputs"],
    "all directory trees with implicit files at any depth, references between files in different directories, working directories",
    "no test places an implicit file; two fixtures exercise relative paths",
    [CFG, "edulint/config/file_config.py"],
    [("implicit search", CFG + ": search_for_config_in_parents, parse_infile_config"),
     ("relative paths", "edulint/config/file_config.py: get_path_relative_to; " + CFG + ": resolve_relative_option_path")],
    ["get_config_many, check_code"],
)
prop(
    "C06", "Malformed configuration is rejected piecewise, never fatal",
    """Whatever a configuration file, language file, in-file line or command-line option contains - unknown names, values of the wrong type,
    missing values, broken TOML, missing files - configuring and linting does not fail with an exception. The malformed parts are
    ignored and every well-formed part keeps exactly the effect it has without them. A configuration file that cannot be loaded at all (missing,
    broken TOML, inheriting from itself, or inheriting from one that cannot be loaded) is reported, and only the files depending on it are left out.""",
    ["configurations"],
    "all TOML documents with values of arbitrary type at any place, all option strings",
    "tests use well-formed configurations with a handful of unknown names",
    [CFG, "edulint/config/option_sets.py", "edulint/config/language_translations.py", "edulint/config/utils.py", "edulint/option_parses.py"],
    [("validation", CFG + ": parse_option, parse_args, parse_config_file"),
     ("type checks", "edulint/config/utils.py: config_file_val_to_str"),
     ("tables", "edulint/config/option_sets.py: parse_option_sets; edulint/config/language_translations.py: parse_lang_translations")],
    ["get_config_many, check_code"],
)
prop(
    "C07", "Remote configuration survives outages and is never stale or mixed up",
    """A remote configuration is served from the local copy while that is fresh, refetched when it is not, and served from an older copy
    within the offline limit only when the refetch fails. For every history of fetches, outages, error answers, time steps and
    failed local writes, what is served is a complete body the server once sent for that very address, and no older than the rule allows;
    otherwise the configuration is reported missing.""",
    ["fault_sequences", "histories", "crash_points"],
    "all interleavings of requests for several addresses, server changes, HTTP failures, forward clock steps, interrupted writes, local files that are truncated or unreadable",
    "tests make one request to the network; no fault or time step is ever exercised",
    ["edulint/config/file_config.py"],
    [("cache", "edulint/config/file_config.py: CachedHTTPGet")],
    ["loading a configuration by URL"],
    [("cached body and its metadata", "last good answer per address", "edulint/config/file_config.py: _write_version_to_disk")],
)
prop(
    "C08", "Reported problems are the linters' findings minus documented filtering",
    """For every file and configuration, the reported problems are exactly those the underlying linters themselves produce for the resulting
    arguments, each reported once, except those overridden by another finding on the same line of the same file and those
    dropped or reworded by a documented tweak. They keep code, position and text, and come in
    the order of the given paths, then file, line and column.""",
    ["inputs", "configurations"],
    "all source files and enabled sets of checks of both linters",
    "tests look at single expected problems; loss, duplication, wrong filtering and ordering need the whole list compared to the raw linters",
    [LINT, "edulint/linting/overrides.py", "edulint/linting/tweakers.py"],
    [("conversion", LINT + ": flake8_to_problem, pylint_to_problem"), ("overrides", LINT + ": apply_overrides"),
     ("tweaks", LINT + ": apply_tweaks; edulint/linting/tweakers.py"), ("order", LINT + ": sort")],
    ["check_code"],
)
prop(
    "C09", "A file's problems do not depend on what else is linted or how it is named",
    """Linting several files or directories together reports for each file the same per-file problems as linting it alone,
    whichever of the spellings of its path is used - relative, absolute, with detours - and whatever the working directory.
    Reported paths lead to the file, keep the given form (relative or absolute), and every Python file below a given directory is covered.""",
    ["inputs", "configurations"],
    "all directory trees (packages, nested, same base names), lists of given paths, working directories",
    "tests lint one absolute path at a time, a few pairs; grouping and path mapping depend on the tree and on the working directory",
    [LINT, CFG],
    [("path mapping", LINT + ": get_proper_path, pylint_to_problem"), ("batching", LINT + ": lint, lint_many; " + CFG + ": get_config_many")],
    ["check_code"],
)
prop(
    "C10", "Each lint call answers for the current files, whatever ran before it",
    """In one process, the problems a lint call returns are those a fresh process would return for the files and options as they are at that
    call, whatever calls, edits of the files, changes of options or failures came before. A call leaves the process's output streams, working
    directory and the checked files as they were.""",
    ["histories"],
    "all sequences of edits, option changes, failing and succeeding calls on the same and different files",
    "each test lints a fresh temporary file, and never the same path twice with different contents",
    [LINT, "edulint/linting/analyses/patcher.py", "edulint/edulint.py"],
    [("in-process linters", LINT + ": lint_flake8, lint_pylint"), ("analysis hook", "edulint/linting/analyses/patcher.py: patch_ast_transforms")],
    ["check_code called repeatedly"],
    [("module cache of the parser library", "parsed modules kept between calls", LINT + ": lint_pylint")],
)
prop(
    "C11", "CLI output and exit status tell exactly what was found",
    """The text output, the JSON output and the programming interface report the same problems in the same order for the same
    input; whenever linting was done, the JSON output is one valid document from which every field of every problem and the
    configuration used can be read back unchanged. The exit status is 0 exactly when no problem is reported, 1 when some is, and 2 when linting could not be
    done.""",
    ["inputs", "configurations"],
    "all sets of files (including missing ones), options and messages, with arbitrary characters in names, paths and messages",
    "one snapshot test compares a JSON output of a fixture",
    ["edulint/edulint.py", "edulint/linting/problem.py"],
    [("output", "edulint/edulint.py: check_and_print, to_json, main"), ("record", "edulint/linting/problem.py: Problem")],
    ["edulint check [--json]"],
)
prop(
    "C12", "Every syntactically valid Python file can be linted by every check",
    """Linting any file that Python itself can parse, with any of the tool's own checks enabled, terminates and never fails or reports an internal
    error. Every problem it reports lies inside the file: line and column exist there and the end is not before the start.""",
    ["programs"],
    "all programs of the supported grammar, including rare statements, degenerate constants and deep nesting",
    "tests lint ordinary student programs; a checker meets every construct of the language",
    [LOC, LOOP, SIF, DUP + "checker.py", "edulint/linting/analyses/cfg/visitor.py", "edulint/linting/analyses/variable_scope.py",
     "edulint/linting/analyses/data_dependency.py", UT],
    [("analyses before checking", "edulint/linting/analyses/patcher.py: run_analyses"), ("checkers", "edulint/linting/checkers/")],
    ["check_code with all own checks enabled"],
)
prop(
    "C13", "Enabling a check shows exactly its own findings",
    """For each of the tool's own checks that does not belong to the duplicate-code family, enabling it alone reports exactly the problems carrying
    its code that are reported when all the tool's checks are enabled, overriding aside. Disabling a check removes exactly its own problems,
    and a check may be named by symbol or by code with the same effect.""",
    ["programs", "configurations"],
    "all programs and all subsets of own checks",
    "tests enable one check at a time and look only at its messages",
    [LOC, LOOP, SIF, "edulint/linting/checkers/basic_checker.py", "edulint/linting/checkers/python_ta_checkers.py"],
    [("callback selection", "only_required_for_messages declarations of all checkers")],
    ["check_code with different pylint=--enable lists"],
)
prop(
    "C14", "Message translations keep the snippets and touch nothing else",
    """A problem whose code or symbol has a translation is shown with the translated template filled with the code snippets
    of its original message in the places the template asks for them, translated word by word where word translations are given; a problem
    without a translation keeps its original text. Translation changes no other field, no other problem, and the set and order of problems never
    depend on it.""",
    ["inputs", "configurations"],
    "all message templates of all linters, all snippet texts, all translation tables and word tables",
    "tests translate a few messages of one or two arguments",
    ["edulint/config/language_translations.py", LINT],
    [("extraction", "edulint/config/language_translations.py: to_pattern, Translation.translate"), ("application", LINT + ": translate")],
    ["check_code with language translations"],
)
prop(
    "C15", "Explanations survive any update history",
    """Asking for explanations returns, for every requested message that has one, the explanation of the newest successfully downloaded
    data, or else of the packaged data, and nothing for others; it never fails. Failed, malformed or interrupted downloads leave the
    previous explanations in effect. An update is attempted when none was in the last ten minutes, and a disabled
    update touches neither network nor disk.""",
    ["fault_sequences", "histories"],
    "all sequences of update attempts with network and content failures, clock steps, process restarts, requested message lists",
    "tests do not exercise explanations at all",
    ["edulint/explanations.py", "edulint/edulint.py"],
    [("update", "edulint/explanations.py"), ("lookup", "edulint/edulint.py: get_message_explanations")],
    ["get_message_explanations, edulint explain"],
)
prop(
    "C16", "Update notices name a real, newer, installable release and are rate limited",
    """The user is told about an update exactly when the package index lists a release newer than the installed one that is neither
    withdrawn nor without installable files, and the notice names the highest such release in version order. The index is asked at most once
    per period, a failing index never breaks or fakes a notice, and the answer kept on disk is equivalent to asking
    again within the period.""",
    ["fault_sequences", "histories", "inputs"],
    "all index answers (version sets, withdrawn files, odd version strings), installed versions, histories of outages and clock steps",
    "tests do not exercise the version check at all",
    ["edulint/versions/version_checker.py", "edulint/versions/pypi_helper.py", "edulint/versions/utils.py"],
    [("index parsing", "edulint/versions/pypi_helper.py"), ("cache", "edulint/versions/version_checker.py: PackageInfoManager")],
    ["PackageInfoManager, edulint check's notice"],
)
prop(
    "C17", "Every problem names the configuration source that enabled it",
    """Each problem whose check was enabled by name carries the source that last did so: the configuration file's
    name, in-file, or the command line, in that order of increasing precedence, else a selected option group that names it. Naming by code precedes naming by symbol;
    a problem enabled only in bulk carries none. This holds for codes and symbols, both linters, and every chain of
    sources.""",
    ["configurations"],
    "all chains of files, groups, in-file lines and command lines enabling overlapping sets of checks",
    "tests look at one or two combinations of sources",
    [CFG, "edulint/config/utils.py", LINT],
    [("attribution", "edulint/config/utils.py: add_enabled; " + CFG + ": Config.combine, to_immutable")],
    ["enabled_by of problems"],
)

prop(
    "C20", "Suggested condition simplifications are logically equivalent",
    """Whenever the tool suggests replacing a boolean condition by another - an absolute value, a merged or dropped comparison, a minimum or
    maximum, an equality, a modulo test, a condition without its redundant part - the two conditions have the same truth value for all integer values of their
    variables (for all real values where no integer operation is involved) for which both can be evaluated, and what is to be replaced is that condition or some of its operands.""",
    ["programs", "inputs"],
    "all pure conditions over arithmetic, comparisons and boolean operators, all values of the variables",
    "tests compare message texts of chosen conditions; equivalence over all values and all condition shapes is never evaluated",
    [SIF, "edulint/linting/analyses/z3_analysis.py"],
    [("grouping and merging of comparisons", SIF + ": visit_boolop and its helpers"), ("solver encoding", "edulint/linting/analyses/z3_analysis.py")],
    ["messages of the condition checks"],
)
prop(
    "C21", "Claims about elif chains and constant conditions are true",
    """A condition reported as always true or always false is so whenever it is evaluated; an elif or else reported as unreachable, or an
    elif reported as always or never taken, behaves so for all integer values of the variables. A suggested removal of redundant parts or reordering of an elif chain selects,
    for all values, the same branch body as the original chain.""",
    ["programs", "inputs"],
    "all if/elif/else chains of pure conditions, all values of the variables",
    "tests compare message texts for chosen chains",
    [SIF, "edulint/linting/analyses/z3_analysis.py", LOC],
    [("chain analysis", SIF + ": visit_if and its helpers"), ("negation test", UT + ": is_negation")],
    ["messages about elif chains"],
)
prop(
    "C22", "Replacing an if statement or if expression as suggested keeps its result",
    """Where the tool says that an if statement or expression can be replaced by a return, an assignment or an expression,
    that nested or consecutive ifs can be merged, or that a pass branch can be dropped, the rewritten code yields a value of the same truth,
    assigns the same variable, executes the same branch and evaluates the same side effects as the original for
    all values of the variables.""",
    ["programs", "inputs"],
    "all shapes of tests, branches and following statements around an if",
    "tests compare message texts only; no suggestion is ever executed",
    [SIF],
    [("basic checks", SIF + ": _basic_checks, _refactored_cond_from_then_orelse, _get_refactored, _merge_sequential"), ("if expressions", SIF + ": visit_ifexp")],
    ["messages of the simplifiable-if checks"],
)
prop(
    "C23", "Consecutive ifs suggested as elif are mutually exclusive",
    """When the tool says that the next N ifs after an if can be elifs (or that an if in an else branch can be an elif), turning exactly those into an
    if/elif/else chain leaves the behaviour of the code - the bodies executed and the final values of variables - unchanged
    for all integer values of the variables.""",
    ["programs", "inputs"],
    "all sequences of ifs with arbitrary bodies modifying the tested variables or not, all values",
    "tests count messages on chosen programs; exclusivity over all values and all bodies is never evaluated",
    [SIF, "edulint/linting/analyses/z3_block_analysis.py", LOC],
    [("mergeable ifs", SIF + ": _check_for_use_if_elif_else and helpers"), ("effect of bodies", "edulint/linting/analyses/z3_block_analysis.py")],
    ["messages of use-if-elif-else checks"],
)
prop(
    "C24", "Rewriting a loop as suggested keeps its behaviour",
    """Where the tool suggests a for loop instead of a while loop, direct iteration or enumerate instead of indices, tighter range bounds, or a loop condition
    instead of an endless loop with a break, the rewritten loop performs the same iterations with the same effects as the original for all inputs on which the original terminates
    normally.""",
    ["programs", "inputs"],
    "all loop shapes near the recognised patterns with arbitrary bodies, bounds and data",
    "tests compare message positions on fixture programs; nothing is executed",
    [LOOP, "edulint/linting/analyses/data_dependency.py", UT],
    [("patterns", LOOP), ("ranges", UT + ": get_range_params"), ("changes of variables", "edulint/linting/analyses/data_dependency.py: is_changed_between")],
    ["messages of the unsuited-loop checks"],
)
prop(
    "C25", "Claims about loop execution are true in every run",
    """A loop reported to be infinite never ends by its condition, a loop reported to make no or at most one iteration does so in every
    run, a loop reported to shadow or change a control variable really rebinds it, and a loop reported to modify the iterated structure has a statement that
    modifies that very structure.""",
    ["programs", "inputs"],
    "all loops with arbitrary control flow (break, continue, return, raise, else, nested loops, try), all inputs",
    "tests compare message positions on chosen loops; no loop is run",
    [LOOP, LOC, "edulint/linting/checkers/python_ta_checkers.py", "edulint/linting/analyses/z3_block_analysis.py"],
    [("iteration counts", LOC + ": at-most-one-iteration"), ("one iteration", "edulint/linting/checkers/python_ta_checkers.py: OneIterationChecker"),
     ("infinite loops", LOOP + "; edulint/linting/analyses/z3_block_analysis.py"), ("control variables", LOOP)],
    ["messages of the loop checks"],
)
prop(
    "C26", "Suggested local rewrites compute the same value",
    """Where the tool suggests an equivalent expression or statement - augmented assignment, append, dropping redundant arithmetic, an
    operator instead of repetition, a letter instead of its number, membership in a range instead of comparisons, a truth value instead of a
    comparison with it - evaluating the suggestion gives the same result as the original for all values of the types the construct
    is meant for.""",
    ["programs", "inputs"],
    "all operand shapes, constants (signs, zero, bounds) and nesting around the recognised patterns, all values",
    "tests compare message texts on chosen expressions",
    [LOC, UT],
    [("local checks", LOC), ("constant values", UT + ": get_const_value"), ("ranges", UT + ": get_range_params")],
    ["messages of the local-defects checks"],
)
prop(
    "C27", "Code reported as identical or mergeable really is",
    """Branches, parts of branches and consecutive ifs reported as identical are the same code with the same effect, and moving, joining or removing them as the message says
    keeps the program's behaviour. A condition, if expression, loop range or collection
    suggested to avoid similar code regenerates exactly the repeated statements.""",
    ["programs", "inputs"],
    "all if statements and statement sequences built from near-identical parts",
    "tests compare messages on fixture programs; suggestions are never executed",
    [DUP + "checker.py", DUP + "duplicate_if.py", DUP + "duplicate_sequence.py", DUP + "duplicate_block.py", "edulint/linting/analyses/antiunify.py"],
    [("generalisation of code pieces", "edulint/linting/analyses/antiunify.py"), ("if suggestions", DUP + "duplicate_if.py"), ("loop suggestions", DUP + "duplicate_sequence.py"),
     ("calls", DUP + "duplicate_block.py")],
    ["messages of the duplicate-code checks"],
)
prop(
    "C30", "The control-flow graph covers every execution",
    """For every program, each step of each execution follows an edge of the control-flow graph built for it, every statement that is ever executed is
    reachable in the graph, and every statement belongs to exactly one block.""",
    ["programs", "inputs"],
    "all programs with nested control flow (loops with else, break, continue, return, raise, try/finally, with, match) and all their runs",
    "tests compare graphs of chosen snippets with expected ones; no program is run",
    ["edulint/linting/analyses/cfg/graph.py", "edulint/linting/analyses/cfg/visitor.py", "edulint/linting/analyses/cfg/utils.py"],
    [("construction", "edulint/linting/analyses/cfg/visitor.py: CFGVisitor"), ("traversal", "edulint/linting/analyses/cfg/utils.py")],
    ["graph attached to the parsed module"],
)
prop(
    "C31", "Data-flow facts cover every definition-use pair of every execution",
    """For every program, when an execution reads a variable, the definition that produced the value is among the definitions computed for that
    read, and the read among the uses computed for that definition; a variable stated not to change between two points has not been
    rebound or modified there in any run.""",
    ["programs", "inputs"],
    "all programs with nested scopes, functions, loops, augmented assignments, deletions and all their runs",
    "tests compare computed sets for chosen snippets with expected ones; no program is run",
    ["edulint/linting/analyses/data_dependency.py", "edulint/linting/analyses/variable_scope.py", "edulint/linting/analyses/var_events.py"],
    [("reaching definitions", "edulint/linting/analyses/data_dependency.py"), ("scopes", "edulint/linting/analyses/variable_scope.py")],
    ["definitions/uses attached to the parsed module"],
)
prop(
    "C32", "Static judgements about expressions agree with evaluating them",
    """The constant value computed for an expression is the value and type Python computes for it, two expressions judged to be negations of each
    other have opposite truth for all values, two judged identical always have equal values, an expression judged free of effects
    changes nothing when evaluated, and the guessed type includes the type of the value.""",
    ["programs", "inputs"],
    "all expressions of the supported grammar, all values of their variables",
    "tests exercise these judgements only through a few messages",
    [UT, "edulint/linting/analyses/types.py"],
    [("constants", UT + ": get_const_value"), ("negation", UT + ": is_negation"), ("identity", UT + ": are_identical"), ("purity", UT + ": is_pure_expression"), ("types", "edulint/linting/analyses/types.py: guess_type")],
    ["the judgements and the messages based on them"],
)
prop(
    "C40", "Findings do not depend on layout, comments, names or neighbouring code",
    """Adding comments and blank lines, renaming variables consistently, redundant parentheses, and adding unrelated functions before or after
    change the tool's own findings only by the corresponding shift of lines and names. In particular a documented
    defect pattern is found wherever in a program it stands.""",
    ["programs"],
    "all programs containing findings, all such rewritings",
    "each test lints one fixed text; no pair of texts is compared",
    [LOC, LOOP, SIF, DUP + "checker.py", "edulint/linting/checkers/basic_checker.py", UT],
    [("checkers", "edulint/linting/checkers/"), ("counting of statements and tokens", UT + ": get_statements_count, get_token_count")],
    ["check_code on related sources"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
