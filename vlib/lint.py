"""Linting through the documented package API, each call in its own forked process."""
import os
import shutil
import sys
import tempfile

from vlib.core import forked

OWN_PREFIXES = ("R6", "E9984", "E9996", "E9988", "E9992")
Z3_CHECKS = (
    "redundant-condition-part", "unreachable-elif-else", "condition-always-true-in-elif",
    "redundant-condition-part-in-elif", "redundant-condition-part-in-elif-reorder",
    "condition-always-false-in-elif", "condition-always-true-or-false", "use-if-elif-else",
    "use-if-elif-else-modifying", "explicit-infinite-loop", "implicit-infinite-loop",
)
PLUGINS = (
    "edulint.linting.checkers.basic_checker",
    "edulint.linting.checkers.local_defects",
    "edulint.linting.checkers.unsuited_loop",
    "edulint.linting.checkers.simplifiable_if",
    "edulint.linting.checkers.python_ta_checkers",
    "edulint.linting.checkers.duplication.checker",
)


def preload():
    import edulint  # noqa
    import edulint.edulint  # noqa
    import pylint.lint  # noqa
    import flake8.main.application  # noqa
    import z3  # noqa
    import importlib

    for p in PLUGINS:
        importlib.import_module(p)
    # importing the plugins pulls nothing else in; one throw-away run warms every lazy import
    forked_lint({"warm.py": "x = 1\n"}, ["warm.py"], ["config-file=empty"], timeout=120)
    import pylint.checkers  # noqa


def own_messages():
    """{code: (template, symbol)} of the tool's own checks."""
    import importlib

    res = {}
    for p in PLUGINS:
        mod = importlib.import_module(p)
        for c in vars(mod).values():
            if isinstance(c, type) and "msgs" in vars(c) and c.__module__ == p:
                for code, info in c.msgs.items():
                    res[code] = (info[0], info[1])
    return res


def write_tree(root, files):
    for name, content in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8", "surrogateescape"))


def problem_dict(p):
    return {
        "source": p.source.to_name() if hasattr(p.source, "to_name") else str(p.source),
        "enabled_by": p.enabled_by,
        "path": str(p.path),
        "line": p.line,
        "column": p.column,
        "code": p.code,
        "text": p.text,
        "end_line": p.end_line,
        "end_column": p.end_column,
        "symbol": p.symbol,
    }


def config_dict(config):
    return {arg.option.to_name(): (list(arg.val) if isinstance(arg.val, tuple) else arg.val) for arg in config.config}


def call_check_code(paths, options):
    """check_code in this process -> dict with problems, configs and the log."""
    from loguru import logger
    from edulint import check_code

    logs = []
    logger.remove()
    logger.add(lambda m: logs.append((m.record["level"].name, m.record["message"])), level="WARNING", format="{message}")
    res = check_code(paths, options)
    logger.remove()
    if res is None:
        return {"problems": None, "configs": None, "log": logs}
    configs, problems = res
    return {
        "problems": [problem_dict(p) for p in problems],
        "configs": [
            {
                "files": [str(f) for f in files],
                "options": config_dict(cfg),
                "enablers": dict(cfg.enablers),
                "translations": {k: (t.translation, t.extracts) for k, t in trans.items()},
            }
            for files, cfg, trans in configs
        ],
        "log": logs,
    }


def _lint_child(files, paths, options, root, cwd):
    write_tree(root, files)
    os.chdir(os.path.join(root, cwd) if cwd else root)
    return call_check_code([p.replace("{root}", root) for p in paths], options)


def forked_lint(files, paths, options, timeout=60.0, cwd=None, root=None):
    own = root is None
    root = root or os.path.realpath(tempfile.mkdtemp(prefix="l-"))
    try:
        return forked(_lint_child, files, paths, options, root, cwd, timeout=timeout)
    finally:
        if own:
            shutil.rmtree(root, ignore_errors=True)


def lint_source(source, enable, extra=(), timeout=60.0):
    """Problems (dicts) of one source under the given own checks only."""
    opts = ["config-file=empty", "no-flake8", "pylint=--enable=" + ",".join(enable)] + list(extra)
    res = forked_lint({"m.py": source}, ["m.py"], opts, timeout=timeout)
    return res
