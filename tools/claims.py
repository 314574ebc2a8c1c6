"""Claimed properties: id -> (technique, level note)."""
CLAIMS = {
    "C01": ("property-based testing against a reference model of option combination",
            "Random configuration worlds (inheritance chains, in-file lines, CLI) are resolved by the real code and by an independent model; "
            "assurance is statistical within the generated option and value vocabulary. Trusts CPython's tomllib for packaged files."),
    "C02": ("property-based testing: reference model and metamorphic relation (written-out groups)",
            "Random group tables at every level of inheritance; both oracles must agree. Statistical assurance within the generated vocabulary."),
    "C03": ("property-based testing: batch versus single resolution (metamorphic) and reference model",
            "Random directory trees with implicit, explicit and in-file configuration and shared language files; every file's options and translations "
            "in a batch must equal those alone and those of the model. No symbolic links."),
    "C04": ("property-based testing: planted comments with known positions; model of ignored in-file configuration",
            "Generated comment spellings are limited to those the linters honour; a pylint pragma inside a string literal is a listed finding."),
    "C05": ("property-based testing against a reference model of file lookup, from several working directories",
            "Random trees, references and working directories; at most one implicit file per directory."),
    "C06": ("property-based testing with injected malformed parts; model of the well-formed rest; end-to-end lint of a sample",
            "Wrong TOML types, names, quotes, templates, missing/cyclic/broken files injected into well-formed worlds."),
    "C17": ("property-based testing against a reference model of attribution, on problems reported by real lints",
            "Chains of sources enabling overlapping checks by code, symbol and bulk on one problem-rich file."),
    "C07": ("stateful property-based testing against a fake network, clock and disk with a history model",
            "Histories of fetches, outages, error answers, clock steps, process deaths in writes and damaged files; clock steps are forward only."),
    "C12": ("fuzzing with grammar-generated and mutated Python programs; crash, hang and position oracle",
            "Random programs biased to the constructs the checks look at, linted with all of the tool's checks; statistical assurance."),
    "C15": ("stateful property-based testing against a fake network, clock and disk with a history model",
            "Histories of explanations requests, updates, malformed answers, interrupted writes and damaged records."),
    "C08": ("property-based testing: differential against the raw linters plus a model of overrides and tweaks",
            "Problem-rich generated files and random options; the raw linters are run for the same arguments and a model of the override table and the tweaks filters them."),
    "C09": ("property-based testing: metamorphic relation over path spellings, grouping and working directory; coverage model",
            "Random trees and path spellings, single and overlapping; no symbolic links; one listed finding in pylint's recursion."),
    "C10": ("stateful property-based testing: histories of lint calls in one process versus fresh processes",
            "Histories of edits, creations, deletions and lint calls; every call's problems equal those of a fresh process on the same tree."),
    "C16": ("stateful property-based testing against a fake package index, clock and disk with a history model",
            "Histories of version answers, outages, damaged caches and clock steps; model of PEP 440 ordering written independently."),
    "C14": ("property-based testing: translated versus untranslated runs (metamorphic) plus captured snippet arguments",
            "Random translation tables over messages of both linters triggered by generated files; the snippets are those the checkers passed to the linter. "
            "Two messages whose text does not tell the snippets apart are a listed finding."),
    "C20": ("property-based testing: suggested and original conditions evaluated on grids with exact arithmetic (differential)",
            "Random conditions near the recognised patterns; equivalence is tested on up to 2000 assignments around all constants per suggestion."),
    "C21": ("property-based testing: claims about chains and conditions evaluated on grids with exact arithmetic",
            "Random elif chains and conditions; every claim is tested on up to 2000 assignments around all constants."),
    "C22": ("property-based testing: suggested rewritings applied to the parsed code and both versions executed (differential)",
            "Random if statements and expressions; each suggestion is executed on 60 assignments of mixed values. Conditions that astroid prints wrongly are a listed finding."),
    "C23": ("property-based testing: joined and original ifs executed on grids of integers (differential)",
            "Random sequences of ifs with modifying bodies; each suggestion is executed on up to 500 assignments around all constants."),
    "C13": ("property-based testing: all checks enabled versus random subsets of them (metamorphic), with the override table as model",
            "Files built from the defect patterns of every check; six subsets per file, named by code or symbol, selected in three ways. Statistical assurance."),
    "C11": ("property-based testing: text, JSON and interface compared (differential), with a model of the printed form",
            "Random trees, names, options, translations and output encodings; the command runs in forked processes through the module's entry point."),
    "C26": ("property-based testing: original and rewritten statements executed on random values (differential)",
            "Random statements around the patterns of the local checks; each suggestion is applied to the text and executed on 40 assignments of the types the construct is for."),
    "C24": ("property-based testing: loops rewritten as suggested and executed on random inputs (differential)",
            "Random loops with bodies around the recognised patterns; each suggestion is applied to the syntax tree and executed on 40 inputs; counting loops are observed at their tests."),
    "C25": ("property-based testing: claims about loops tested on instrumented executions over random inputs",
            "Random loops around the recognised patterns, run 40 times each with the loops instrumented; values assigned in vain are replaced by others and the runs compared."),
}
