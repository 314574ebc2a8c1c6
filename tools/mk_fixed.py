#!/usr/bin/env python3
"""Fills the "fixed" list of known_findings.json from the fix: commits of /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the commit -> (properties, what failed)
WHAT = {
    "find implicit configuration files in the directory of the file and its ancestors": ("C05", "an implicit edulint.toml beside the linted file or above it was not found"),
    "pass pylint arguments on in their original letter case": ("C01", "upper-case letters of pylint arguments were lost"),
    "keep the implicit configuration file when in-file configuration is ignored": ("C05", "ignoring in-file configuration also dropped the implicit configuration file"),
    "apply an implicit configuration file that forbids in-file configuration": ("C04", "an implicit configuration file that forbids in-file configuration was dropped itself"),
    "ignore options with unbalanced quotes instead of failing": ("C06", "an unbalanced quote in an in-file line or option raised ValueError"),
    "read in-file configuration of files in other encodings than UTF-8": ("C06", "a Latin-1 source file raised UnicodeDecodeError"),
    "ignore configuration file lists with values other than strings": ("C06", "a list with a number as an option value raised TypeError"),
    "ignore language files given by other values than strings": ("C06", "language-file = 5 raised an exception"),
    "ignore group and translation tables that are no tables": ("C06", "translations = 5 and similar raised AttributeError"),
    "keep translations of one configuration out of others with the same language file": ("C03", "two configurations naming one language file shared and polluted one dictionary of translations"),
    "ignore malformed tables of translated extracts": ("C06", "translated_extracts that is no table raised an exception"),
    "keep the original message if its translation template is invalid": ("C06", "a template with too many or malformed fields raised an exception"),
    "reject configuration files inheriting from themselves": ("C06", "cyclic inheritance ended in RecursionError"),
    "ignore enabler names that are no strings": ("C06", "default-enabler-name = 5 raised an exception"),
    "name only selected groups as enabling a check": ("C17", "problems were attributed to groups that were not selected"),
    "report all spellings of comments suppressing the linters": ("C04", "'# flake8=noqa', 'pylint: enable/skip-file' with spaces and other spellings the linters honour were not reported"),
    "tell apart files setting an option to its default from files not setting it": ("C03", "a file setting an option to its default in-file shared the configuration of files not setting it"),
    "read in-file configuration on the first line of files with a byte order mark": ("C01", "an in-file line after a byte order mark was ignored"),
    "include match, finally, except* and asynchronous loops and withs in control flow graphs": ("C12", "statements in match, finally and except* were in no block: crashes, and missing from the graph (C30)"),
    "merge only assignments of values in branches of an if": ("C12", "augmented or annotated assignments without a value in both branches crashed the check"),
    "find what is assigned to names destructured by with and match statements": ("C12", "with/match destructuring crashed the type analysis"),
    "do not fail on a list multiplied by a list": ("C12", "[[]] * [2] crashed multiplied-list"),
    "compare ord only to integers when suggesting letters": ("C12", "ord(c) < 3.5 crashed use-ord-letter"),
    "compare names of classes and coroutines, conversions and other plain fields when looking for similar code": ("C27", "class A / class B, {x!r} / {x!s} counted as identical code; other nodes crashed"),
    "do not take equal constants of different types for identical code": ("C27", "1 and True and 1.0 counted as identical code"),
    "accept complex constants in similar code": ("C12", "complex constants crashed the duplicate-code checks"),
    "survive constant expressions that fail or are too large to evaluate": ("C12", "1 / 0, 1 << 10**9 and the like crashed or hung linting"),
    "serve empty remote configurations from the local copy": ("C07", "an empty remote configuration was refetched every time and lost in an outage"),
    "keep the local copy of a remote configuration whole": ("C07", "an interrupted write left a truncated copy that was served later; line ends were changed"),
    "order pre-releases and post-releases when looking for the latest version": ("C16", "the highest release was picked wrongly among pre- and post-releases"),
    "announce only known versions newer than the installed one": ("C16", "a missing or older release was announced as an update"),
    "read downloaded explanations instead of the packaged ones": ("C15", "downloaded explanations were never read"),
    "keep the previous explanations if an update is malformed or interrupted": ("C15", "a malformed or interrupted download destroyed the explanations"),
    "do not update explanations when explaining with updates disabled": ("C15", "explain downloaded even with updates disabled"),
    "do not hang on an interrupted record of the last update of explanations": ("C15", "a truncated dbm file hung or failed every later explain"),
    "exit with a failure status after an unexpected error": ("C11", "an unexpected error ended with exit status 0"),
    "record definitions of functions and classes in nested blocks": ("C12", "a function defined inside a loop or if and called crashed the data-dependency analysis"),
    "look for updates even if the record of the last look is damaged": ("C16", "a damaged or truncated version cache silenced update announcements for good"),
    "forget the latest version if the index no longer lists any": ("C16", "a version the index no longer lists went on being announced"),
    "announce the update that was found waiting": ("C16", "the update found by the check of this very run was announced only by the next run"),
    "look at the whole expression when filtering repeated operations": ("C08", "a whole-line repeated operation inside a larger expression was filtered or kept by the wrong threshold"),
    "tell files named like a command line from problems of pylint's options": ("C09", "a file named 'Command line' and the like was taken for a problem of pylint's options"),
    "report and order problems of files given by any spelling of a path": ("C09", "files given as ./a.py, a/../b.py or by absolute path failed an assertion or were ordered wrongly"),
    "lint files covered by several of the given paths only once": ("C09", "files given twice, or together with their directory, were reported twice"),
    "restore the standard streams when a linter fails": ("C10", "after a failing linter the standard streams of the process stayed redirected"),
    "lint files as they are now, not as an earlier call in the process saw them": ("C10", "an imported module changed between two calls in one process was seen in its old state"),
    "analyse every file once, however many runs there were in the process": ("C10", "state left by earlier runs in the process changed the problems of later runs"),
    "find modules created or deleted between calls in one process": ("C10", "modules created or deleted between calls in one process were not noticed"),
    "clear the caches of the parser library once per call": ("C10", "(speed of the preceding repairs)"),
}
try:
    from tools.fixed_more import MORE
except ImportError:
    try:
        from fixed_more import MORE
    except ImportError:
        MORE = {}
WHAT.update(MORE)

if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
    fixed = []
    for line in log.splitlines():
        h, subject = line.split(" ", 1)
        if not subject.startswith("fix: "):
            continue
        if subject[5:] not in WHAT:
            print("no description:", line)
            continue
        props, what = WHAT[subject[5:]]
        fixed.append(f"fixed: property={props} {h} {what}")
    p = os.path.join(HERE, "known_findings.json")
    d = json.load(open(p))
    d["fixed"] = fixed
    json.dump(d, open(p, "w"), indent=1)
    open(p, "a").write("\n")
    print(len(fixed), "fixes")
