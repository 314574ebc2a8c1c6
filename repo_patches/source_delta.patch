From 6d3acc873b33ed8d9e0b16a3eaed364194cb9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 01/97] fix: find implicit configuration files in the directory
 of the file and its ancestors

---
 edulint/config/config.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..9c724df 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -338,13 +338,12 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
 
 
 def search_for_config_in_parents(path):
-    path = Path(path)
-    path = (path.parent if path.is_file() else path).absolute()
-    while path.parent != path:
-        for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
-                return str(path / elem)
-        path = path.parent
+    path = Path(os.path.abspath(path))
+    directory = path.parent if path.is_file() else path
+    for ancestor in (directory, *directory.parents):
+        for name in IMPLICIT_CONFIG_FILENAMES:
+            if (ancestor / name).is_file():
+                return str(ancestor / name)
     return None
 
 
-- 
2.43.0


From 402087a6ebe5770c29efa2a002a1eadff09e9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 02/97] fix: pass pylint arguments on in their original letter
 case

---
 edulint/config/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 9c724df..a77c40e 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,17 +156,17 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lowered = arg.lower()
+            if lowered == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lowered in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lowered == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lowered.startswith("--disable") and enable)
+                or (lowered.startswith("--enable") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From 0b6d3b40d60b3aa370b0db4e5ef1fe0527847d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 03/97] fix: keep the implicit configuration file when in-file
 configuration is ignored

---
 edulint/config/config.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a77c40e..c4c24fe 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -321,7 +321,9 @@ def resolve_relative_option_path(path: str, config: Config, option: Option) -> N
     config.config.append(ProcessedArg(option, config_abspath))
 
 
-def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -> Config:
+def resolve_ignore_infile_config(
+    implicit: List[UnprocessedArg], parsed: List[UnprocessedArg], config: Config
+) -> Config:
     if not _ignore_infile(config):
         return config
 
@@ -330,9 +332,13 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
     ignore_infile_str = ",".join(ignore_infile_val)
 
     if "edulint" in ignore_infile_val or "all" in ignore_infile_val:
-        parsed = [UnprocessedArg(Option.IGNORE_INFILE_CONFIG_FOR, ignore_infile_str)]
+        parsed = [*implicit, UnprocessedArg(Option.IGNORE_INFILE_CONFIG_FOR, ignore_infile_str)]
     else:
-        parsed.append(UnprocessedArg(Option.IGNORE_INFILE_CONFIG_FOR, ignore_infile_str))
+        parsed = [
+            *implicit,
+            *parsed,
+            UnprocessedArg(Option.IGNORE_INFILE_CONFIG_FOR, ignore_infile_str),
+        ]
 
     return Config("in-file", parsed, config.option_parses)
 
@@ -347,20 +353,23 @@ def search_for_config_in_parents(path):
     return None
 
 
-def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) -> Config:
-    extracted = extract_args(path)
+def parse_infile_config(
+    path: str, option_parses: Dict[Option, OptionParse], ignore_infile: bool = False
+) -> Config:
+    extracted = extract_args(path) if not ignore_infile else []
     parsed = parse_args(extracted, option_parses)
 
+    implicit = []
     config_from_parent = search_for_config_in_parents(path)
     if config_from_parent is not None:
-        parsed.insert(0, UnprocessedArg(Option.CONFIG_FILE, config_from_parent))
+        implicit.append(UnprocessedArg(Option.CONFIG_FILE, config_from_parent))
 
-    infile_config = Config("in-file", parsed, option_parses)
+    infile_config = Config("in-file", implicit + parsed, option_parses)
 
     resolve_relative_option_path(path, infile_config, Option.CONFIG_FILE)
     resolve_relative_option_path(path, infile_config, Option.LANGUAGE_FILE)
 
-    return resolve_ignore_infile_config(parsed, infile_config)
+    return resolve_ignore_infile_config(implicit, parsed, infile_config)
 
 
 def parse_config_file(
@@ -520,10 +529,11 @@ def _parse_infile_configs(
 
     def _parse_infile_configs_rec(path: str):
         if not os.path.isdir(path):
-            if not os.path.splitext(path)[1].lower() == ".py":
+            is_python = os.path.splitext(path)[1].lower() == ".py"
+            if not is_python and not (ignore_infile and path in files_or_dirs):
                 return {}
 
-            infile_config = parse_infile_config(path, option_parses)
+            infile_config = parse_infile_config(path, option_parses, ignore_infile)
             return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
@@ -534,10 +544,7 @@ def _parse_infile_configs(
         iconfig, (config, _paths) = list(result.items())[0]
         return {iconfig: (config, [path])}
 
-    if _ignore_infile(cmd_config):
-        default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
-
+    ignore_infile = _ignore_infile(cmd_config)
     return aggregate_subresults(files_or_dirs)
 
 
-- 
2.43.0


From d77bc37b2dd1d2ecfb3a965fbbd375edaa20f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/97] fix: apply an implicit configuration file that forbids
 in-file configuration

---
 edulint/config/config.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index c4c24fe..2576cd8 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -38,6 +38,7 @@ IMPLICIT_CONFIG_FILENAMES = ("edulint.toml", ".edulint.toml")
 
 class Config:
     config: List[Optional[ProcessedArg]]
+    implicit_config_file: Optional[str] = None
 
     def _convert(self, args: List[UnprocessedArg]) -> List[ProcessedArg]:
         return [
@@ -369,7 +370,9 @@ def parse_infile_config(
     resolve_relative_option_path(path, infile_config, Option.CONFIG_FILE)
     resolve_relative_option_path(path, infile_config, Option.LANGUAGE_FILE)
 
-    return resolve_ignore_infile_config(implicit, parsed, infile_config)
+    result = resolve_ignore_infile_config(implicit, parsed, infile_config)
+    result.implicit_config_file = config_from_parent
+    return result
 
 
 def parse_config_file(
@@ -571,19 +574,18 @@ def get_config_many(
     result: List[Tuple[List[str], ImmutableConfig, LangTranslations]] = []
     for infile_config, paths in infile_configs.values():
         combined = Config.combine(infile_config, cmd_config)
-        config_file_result = (
-            config_file_results[cmd_config_path]
+        config_path = (
+            cmd_config_path
             if cmd_config_path is not None
-            else config_file_results[
-                infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
-            ]
+            else infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
         )
+        config_file_result = config_file_results[config_path]
         if config_file_result is None:
             continue
         file_config, option_sets, lang_translations = config_file_result
 
         if _ignore_infile(file_config):
-            if cmd_config_path is not None:
+            if config_path in (cmd_config_path, infile_config.implicit_config_file):
                 config = Config.combine(file_config, cmd_config)
             else:
                 config = cmd_config
-- 
2.43.0


From 12ef4843b51f50786129f6cb052171237b29590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/97] fix: ignore options with unbalanced quotes instead of
 failing

---
 edulint/config/config.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 2576cd8..a34eb3b 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -234,6 +234,14 @@ class ImmutableConfig:
 # %% components
 
 
+def split_args(raw_args: str) -> List[str]:
+    try:
+        return shlex.split(raw_args)
+    except ValueError as e:
+        logger.warning("cannot split arguments {args}: {e}", args=raw_args, e=e)
+        return []
+
+
 def extract_args(path: str) -> List[str]:
     edulint_re = re.compile(r"\s*#[\s#]*edulint:\s*", re.IGNORECASE)
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
@@ -246,7 +254,7 @@ def extract_args(path: str) -> List[str]:
             edmatch = edulint_re.match(line)
             if edmatch:
                 raw_args = line[edmatch.end() :]
-                result.extend(shlex.split(raw_args))
+                result.extend(split_args(raw_args))
 
             ibmatch = ib111_re.match(line)
             if ibmatch:
@@ -607,4 +615,4 @@ def get_config_many(
 
 
 def get_cmd_args(options: List[str]) -> List[str]:
-    return [s for arg in options for s in shlex.split(arg)]
+    return [s for arg in options for s in split_args(arg)]
-- 
2.43.0


From 98bb93737a91230042a7e93b51f701674a04bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 06/97] fix: read in-file configuration of files in other
 encodings than UTF-8

---
 edulint/config/config.py               | 2 +-
 edulint/linting/nonparsing_checkers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a34eb3b..323793d 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -247,7 +247,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8") as f:
+    with open(path, encoding="utf-8", errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9d94afc..5ae0448 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -52,7 +52,7 @@ def report_infile_config(
     results = []
     ib111_re = re.compile(r".*from\s+ib111\s+import", re.IGNORECASE)
     for file_path in to_file_paths(files_or_dirs):
-        with open(file_path, encoding="utf-8") as f:
+        with open(file_path, encoding="utf-8", errors="replace") as f:
             for i, line in enumerate(f, 1):
                 for pattern in patterns:
                     match = pattern.match(line)
-- 
2.43.0


From d57e67d4cb9c00f5a14a5d5e09668be05dc20d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 07/97] fix: ignore configuration file lists with values other
 than strings

---
 edulint/config/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..b0ff055 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -18,7 +18,7 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
         return str(val)
     if isinstance(val, str):
         return val
-    if isinstance(val, list):
+    if isinstance(val, list) and all(isinstance(v, str) for v in val):
         return ",".join(val)
     if isinstance(val, tuple):
         key, value = val
-- 
2.43.0


From c66f56dd3ca15808d5ab4eb632a16fd136d644df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 08/97] fix: ignore language files given by other values than
 strings

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 323793d..0378f8b 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -424,7 +424,7 @@ def parse_config_file(
             ):  # config is handled as the first option
                 continue
 
-            if option == Option.LANGUAGE_FILE:
+            if option == Option.LANGUAGE_FILE and isinstance(val, str):
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
-- 
2.43.0


From 0531c996bf1c22a19a857d8cbc0c295af728adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 09/97] fix: ignore group and translation tables that are no
 tables

---
 edulint/config/language_translations.py | 2 +-
 edulint/config/option_sets.py           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..b810a57 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -114,7 +114,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             val=raw_lang_translations,
             type=type(raw_lang_translations),
         )
-        return None
+        return {}
 
     translated_extracts = raw_lang_translations.get(LANG_TRANSLATED_EXTRACTS_LABEL, {})
     if not isinstance(translated_extracts, dict):
diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index ae33a68..e0269dc 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -1,4 +1,4 @@
-from typing import Dict, Any, Optional, List
+from typing import Dict, Any, List
 from dataclasses import dataclass, field
 from loguru import logger
 
@@ -16,14 +16,14 @@ class OptionSet:
 OptionSets = Dict[str, OptionSet]
 
 
-def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
+def parse_option_sets(raw_option_sets: Any) -> OptionSets:
     if not isinstance(raw_option_sets, dict):
         logger.warning(
             "option sets are not a dictionary but a value {val} of type {type}",
             val=raw_option_sets,
             type=type(raw_option_sets),
         )
-        return None
+        return {}
 
     option_sets = {}
     for name, to in raw_option_sets.items():
-- 
2.43.0


From 130a3ae0c36e44f9b1afffca9dfabb8b36002998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 10/97] fix: keep translations of one configuration out of
 others with the same language file

---
 edulint/config/config.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 0378f8b..97ffb1f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -603,12 +603,9 @@ def get_config_many(
         iconfig = config.to_immutable(option_sets)
         language_file = iconfig[Option.LANGUAGE_FILE]
         if language_file is not None:
-            lang_file_translations = lang_file_results.get(
-                language_file, parse_lang_file(iconfig[Option.LANGUAGE_FILE])
-            )
-            if lang_file_translations is not None:
-                lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
+            if language_file not in lang_file_results:
+                lang_file_results[language_file] = parse_lang_file(language_file)
+            lang_translations = {**lang_translations, **lang_file_results[language_file]}
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From 93799d92bf0ed1964e56ee15317fed111ad65a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 11/97] fix: ignore malformed tables of translated extracts

---
 edulint/config/language_translations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index b810a57..f1fce67 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -123,6 +123,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             type=type(translated_extracts),
         )
         translated_extracts = {}
+    valid_extracts = {}
     for id_, val in translated_extracts.items():
         if not isinstance(val, dict):
             logger.warning(
@@ -131,6 +132,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                 type=type(val),
             )
             continue
+        valid_extracts[id_] = {}
         for order, mapping in val.items():
             if not order.isdecimal():
                 logger.warning(
@@ -146,6 +148,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                     type=type(mapping),
                 )
                 continue
+            valid_extracts[id_][order] = {}
             for extract, translated in mapping.items():
                 if not isinstance(translated, str):
                     logger.warning(
@@ -155,6 +158,8 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                         id_=id_,
                         type=type(translated),
                     )
+                    continue
+                valid_extracts[id_][order][extract] = translated
 
     lang_translations = {}
     for id_, translation in raw_lang_translations.items():
@@ -168,7 +173,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        lang_translations[id_] = Translation(translation, valid_extracts.get(id_, {}))
 
     return lang_translations
 
-- 
2.43.0


From 73bfcdae161b5789f4f0adbd7d9376bce56b76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 12/97] fix: keep the original message if its translation
 template is invalid

---
 edulint/config/language_translations.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index f1fce67..f68b679 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -101,7 +101,16 @@ class Translation:
         match = re.match(pattern, message, flags=re.IGNORECASE)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
+            logger.warning(
+                "invalid translation {translation} for {code}: {e}",
+                translation=self.translation,
+                code=code,
+                e=e,
+            )
+            return message
 
 
 LangTranslations = Dict[str, Translation]
-- 
2.43.0


From 7aea24d83783446fd976d37e54a5e8ded751d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 13/97] fix: reject configuration files inheriting from
 themselves

---
 edulint/config/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 97ffb1f..b5d9eef 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -384,7 +384,7 @@ def parse_infile_config(
 
 
 def parse_config_file(
-    path: str, option_parses: Dict[Option, OptionParse]
+    path: str, option_parses: Dict[Option, OptionParse], inheriting: Tuple[str, ...] = ()
 ) -> Optional[Tuple[Config, OptionSets, LangTranslations]]:
     def parse_base_config(config_dict: Dict[str, Any]) -> Optional[Config]:
         rec_config = config_dict.get(Option.CONFIG_FILE.to_name(), BASE_CONFIG)
@@ -392,7 +392,11 @@ def parse_config_file(
             print_invalid_type_message(Option.CONFIG_FILE, rec_config)
             rec_config = BASE_CONFIG
         rec_config_abspath = get_path_relative_to(rec_config, path)
-        return parse_config_file(rec_config_abspath, option_parses)
+        return parse_config_file(rec_config_abspath, option_parses, (*inheriting, path))
+
+    if path in inheriting:
+        logger.error("config file '{f}' inherits from itself", f=path)
+        return None
 
     config_dict = load_toml_file(path)
     if config_dict is None:
-- 
2.43.0


From 0633c387ef3ba28a5349ba11a8dfa6c4eae6380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 14/97] fix: ignore enabler names that are no strings

---
 edulint/config/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index b5d9eef..afc8d94 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -445,6 +445,9 @@ def parse_config_file(
                     result.append(UnprocessedArg(option, str_val))
 
     enabler_name = config_dict.get(DEFAULT_ENABLER_LABEL, Path(path).stem)
+    if not isinstance(enabler_name, str):
+        print_invalid_type_message(DEFAULT_ENABLER_LABEL, enabler_name)
+        enabler_name = Path(path).stem
     this_file_config = Config(enabler_name, result, option_parses)
     return (
         Config.combine(base_config, this_file_config),
-- 
2.43.0


From 80098d1eb079017156088f24ee04d9ff5ae20e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 15/97] fix: name only selected groups as enabling a check

---
 edulint/config/config.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index afc8d94..25625ef 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -190,8 +190,11 @@ class Config:
             ordered_args[int(arg.option)] = arg
 
         enablers_from_option_sets = {}
-        for name, option_set in option_sets.items():
-            for linter, vals in option_set.to.items():
+        set_options = [arg.option.to_name() for arg in self.config if arg is not None]
+        for name in ordered_args[int(Option.SET_GROUPS)].val + set_options:
+            if name not in option_sets:
+                continue
+            for linter, vals in option_sets[name].to.items():
                 for val in vals:
                     add_enabled(name, enablers_from_option_sets, linter.to_option(), val)
 
-- 
2.43.0


From a287fb358e09f8e573c238f2a9a7964a2d075712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 16/97] fix: report all spellings of comments suppressing the
 linters

---
 edulint/linting/nonparsing_checkers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 5ae0448..9b49b35 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -11,11 +11,12 @@ from edulint.linting.problem import Problem
 CONFIG_PATTERNS = {
     Linter.FLAKE8: [
         re.compile(r"(.*)#\s*(noqa)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(flake8: *noqa)", re.IGNORECASE),
+        re.compile(r"(.*)#\s*(flake8[:=]\s*noqa)", re.IGNORECASE),
     ],
     Linter.PYLINT: [
-        re.compile(r"(.*)#\s*(pylint:\s*disable)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(pylint:\s*enable)", re.IGNORECASE),
+        re.compile(r"(.*)#[^#]*\b(pylint:\s*disable)", re.IGNORECASE),
+        re.compile(r"(.*)#[^#]*\b(pylint:\s*enable)", re.IGNORECASE),
+        re.compile(r"(.*)#[^#]*\b(pylint:\s*skip-file)", re.IGNORECASE),
     ],
     Linter.EDULINT: [],  # handled in config
 }
-- 
2.43.0


From 62b4a902c3b13646a532358a2890c982143625c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 17/97] fix: tell apart files setting an option to its default
 from files not setting it

---
 edulint/config/config.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 25625ef..b29e603 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -148,6 +148,14 @@ class Config:
                 return arg.val
         return None if not use_default else self.option_parses[option].default
 
+    def to_key(self) -> Tuple[ImmutableArg, ...]:
+        # unlike an immutable config, tells an option set to its default from one not set
+        return tuple(
+            ImmutableArg(arg.option, self._to_immutable(arg.val))
+            for arg in self.config
+            if arg is not None
+        )
+
     @staticmethod
     def _to_immutable(val: UnionT) -> ImmutableT:
         return val if not isinstance(val, list) else tuple(val)
@@ -528,7 +536,7 @@ def _ignore_infile(config: Config) -> bool:
 
 def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
-) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
+) -> Dict[Tuple[ImmutableArg, ...], Tuple[Config, List[str]]]:
 
     def add_to_result(result, config, path, iconfig=None):
         iconfig = config.to_immutable() if iconfig is None else iconfig
@@ -555,7 +563,7 @@ def _parse_infile_configs(
                 return {}
 
             infile_config = parse_infile_config(path, option_parses, ignore_infile)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
+            return {infile_config.to_key(): (infile_config, [path])}
 
         result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
 
@@ -582,7 +590,10 @@ def get_config_many(
     if cmd_config_path is not None:
         config_paths = {cmd_config_path}
     else:
-        config_paths = {iconfig[Option.CONFIG_FILE] for iconfig in infile_configs.keys()}
+        config_paths = {
+            infile_config.get_last_value(Option.CONFIG_FILE, use_default=True)
+            for infile_config, _paths in infile_configs.values()
+        }
 
     config_file_results = {
         config_path: parse_config_file(config_path, option_parses) for config_path in config_paths
-- 
2.43.0


From c3125ebcdd63b5b777ca36d97cf2c855bd1c14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 18/97] fix: read in-file configuration on the first line of
 files with a byte order mark

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index b29e603..37e103f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -258,7 +258,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8", errors="replace") as f:
+    with open(path, encoding="utf-8-sig", errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
-- 
2.43.0


From c2794abd55cde8693c846ef70db1a56bbe8a72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 19/97] fix: include match, finally, except* and asynchronous
 loops and withs in control flow graphs

---
 edulint/linting/analyses/cfg/graph.py   |  3 ++
 edulint/linting/analyses/cfg/utils.py   | 13 +++++---
 edulint/linting/analyses/cfg/visitor.py | 40 ++++++++++++++++++++++++-
 3 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/cfg/graph.py b/edulint/linting/analyses/cfg/graph.py
index f734422..1006102 100644
--- a/edulint/linting/analyses/cfg/graph.py
+++ b/edulint/linting/analyses/cfg/graph.py
@@ -224,6 +224,9 @@ class CFGBlock:
         elif isinstance(statement, nodes.For):
             pos = len(self.locs) - 1
             assert self.locs[pos].node == statement.iter
+        elif isinstance(statement, nodes.Match):
+            pos = len(self.locs) - 1
+            assert self.locs[pos].node == statement.subject
         elif isinstance(statement, (nodes.Try, nodes.TryStar)):
             pos = 0
             statement_loc = statement.body[0].cfg_loc
diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 90fe845..e1a0b66 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -401,7 +401,10 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
     parent = loc.node.parent
 
     if isinstance(loc.node, nodes.Arguments) or (
-        isinstance(parent, nodes.For) and loc.node == parent.target
+        isinstance(parent, nodes.For)
+        and loc.node == parent.target
+        or isinstance(parent, nodes.MatchCase)
+        and loc.node in (parent.pattern, parent.guard)
     ):
         return None, None
 
@@ -412,12 +415,14 @@ def get_stmt_locs(loc: CFGLoc) -> Tuple[Optional[CFGLoc], Optional[CFGLoc]]:
             return None, None
         return loc, None
 
-    if (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test) or (
-        isinstance(parent, nodes.For) and loc.node == parent.iter
+    if (
+        (isinstance(parent, (nodes.If, nodes.While)) and loc.node == parent.test)
+        or (isinstance(parent, nodes.For) and loc.node == parent.iter)
+        or (isinstance(parent, nodes.Match) and loc.node == parent.subject)
     ):
         return None, parent.cfg_loc
 
-    if isinstance(parent, nodes.Try) and loc.node == parent.body[0]:
+    if isinstance(parent, (nodes.Try, nodes.TryStar)) and loc.node == parent.body[0]:
         return loc, parent.cfg_loc
 
     return loc, None
diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..2a0aa2b 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -293,6 +293,9 @@ class CFGVisitor:
         self._current_cfg.link_or_merge(end_else, after_for_block)
         self._current_block = after_for_block
 
+    def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
+        self.visit_for(node)
+
     def visit_break(self, node: nodes.Break) -> None:
         self._visit_jump(node)
 
@@ -407,9 +410,41 @@ class CFGVisitor:
 
         self._current_cfg.link_or_merge(temp, end_body)
         self._current_cfg.multiple_link_or_merge(end_body, after_body)
-        self._current_cfg.link_or_merge(finally_block, end_block)
+
+        self._current_block = finally_block
+        for child in node.finalbody:
+            child.accept(self)
+        self._current_cfg.link_or_merge(self._current_block, end_block)
         self._current_block = end_block
 
+    def visit_trystar(self, node: nodes.TryStar) -> None:
+        self.visit_try(node)
+
+    def visit_match(self, node: nodes.Match) -> None:
+        # When only creating cfgs for functions, _current_cfg will only be None outside of functions
+        if self._current_cfg is None:
+            return
+
+        self._current_block.add_statement(node.subject)
+        self._current_block.add_CF_statement(node)
+
+        case_block = self._current_block
+        after_match_block = self._current_cfg.create_block()
+
+        for case in node.cases:
+            case_block = self._current_cfg.create_block(case_block)
+            case_block.add_statement(case.pattern)
+            if case.guard is not None:
+                case_block.add_statement(case.guard)
+
+            self._current_block = self._current_cfg.create_block(case_block)
+            for child in case.body:
+                child.accept(self)
+            self._current_cfg.link_or_merge(self._current_block, after_match_block)
+
+        self._current_cfg.link_or_merge(case_block, after_match_block)
+        self._current_block = after_match_block
+
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
@@ -424,6 +459,9 @@ class CFGVisitor:
         for child in node.body:
             child.accept(self)
 
+    def visit_asyncwith(self, node: nodes.AsyncWith) -> None:
+        self.visit_with(node)
+
 
 def _extract_exceptions(node: nodes.ExceptHandler) -> List[str]:
     """A helper method that returns a list of all the exceptions handled by this except block as a
-- 
2.43.0


From cea5da142896b599ec3f7e4af14bdd3e64533362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 20/97] fix: merge only assignments of values in branches of an
 if

---
 edulint/linting/checkers/simplifiable_if.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 55e54a4..14f00fd 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -538,7 +538,11 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         if isinstance(node1, nodes.Return):
             return node1.value is not None and node2.value is not None
 
-        if is_any_assign(node1) and not isinstance(node1, nodes.For):
+        if (
+            isinstance(node1, (nodes.Assign, nodes.AnnAssign))
+            and node1.value is not None
+            and node2.value is not None
+        ):
             assigned_to1 = get_assigned_to(node1)
             assigned_to2 = get_assigned_to(node2)
             return (
-- 
2.43.0


From 7a1d73a1e073e2ba39aa7f3ec4a346a2d71d8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 21/97] fix: find what is assigned to names destructured by
 with and match statements

---
 edulint/linting/analyses/data_dependency.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6edfadf..4df73a2 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -599,7 +599,13 @@ def get_assigned_expressions(
         else:
 
             parents = [def_event.node]
-            while not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+            while not isinstance(
+                parent,
+                _ASSIGNING_EXPRESSIONS
+                + _ASSIGNING_ITERS
+                + _ASSIGNING_PARENT_STATEMENTS
+                + (nodes.MatchCase,),
+            ):
                 parents.append(parent)
                 parent = parent.parent
             assigning = parent
@@ -607,6 +613,9 @@ def get_assigned_expressions(
             if isinstance(assigning, _ASSIGNING_ITERS):
                 if include_destructuring:
                     yield assigning.iter
+            elif not isinstance(assigning, _ASSIGNING_EXPRESSIONS):
+                if include_destructuring and type(assigning) in include_nodes:
+                    yield assigning
             else:
                 expr = assigning.value
 
-- 
2.43.0


From 05bb8687e1082da98762c4b03580f2b9730a948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 22/97] fix: do not fail on a list multiplied by a list

---
 edulint/linting/checkers/local_defects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 983c7ce..a37ea3f 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -317,10 +317,9 @@ class Local(BaseChecker):
         ):
             return
 
-        assert not isinstance(node.left, nodes.List) or not isinstance(node.right, nodes.List)
-        lst = node.left if isinstance(node.left, nodes.List) else node.right
+        lists = [lst for lst in (node.left, node.right) if isinstance(lst, nodes.List)]
 
-        if any(is_mutable(elem) for elem in lst.elts):
+        if any(is_mutable(elem) for lst in lists for elem in lst.elts):
             self.add_message("do-not-multiply-mutable", node=node)
 
     def _check_redundant_elif(self, node: nodes.If) -> None:
-- 
2.43.0


From d5d7d7ef6aa314117f1984423881a8c2042b29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 23/97] fix: compare ord only to integers when suggesting
 letters

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index a37ea3f..b0a052e 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -431,7 +431,7 @@ class Local(BaseChecker):
 
         for i, (op, param) in enumerate([(None, node.left), node.ops[-1]]):
             value = get_const_value(param)
-            if value is None or not self._in_suggestable_range(value):
+            if not isinstance(value, int) or not self._in_suggestable_range(value):
                 continue
 
             if i == 0:
-- 
2.43.0


From 12b93ef14875ad912cd22c18b452ab5d75207f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 24/97] fix: compare names of classes and coroutines,
 conversions and other plain fields when looking for similar code

---
 edulint/linting/analyses/antiunify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 5343dfe..c4dcaf4 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -65,12 +65,17 @@ ASTROID_EXTRA_FIELDS = {
     nodes.UnaryOp: ("op",),
     nodes.AugAssign: ("op",),
     nodes.FunctionDef: ("name",),
+    nodes.AsyncFunctionDef: ("name",),
+    nodes.ClassDef: ("name",),
+    nodes.FormattedValue: ("conversion",),
+    nodes.Comprehension: ("is_async",),
     nodes.Const: ("value",),
     nodes.Nonlocal: ("names",),
     nodes.Global: ("names",),
     nodes.ImportFrom: (
         "modname",
         "names",
+        "level",
     ),
     nodes.Import: ("names",),
     nodes.Keyword: ("arg",),
@@ -79,6 +84,7 @@ ASTROID_EXTRA_FIELDS = {
     nodes.DelName: ("name",),
     nodes.DelAttr: ("attrname",),
     nodes.MatchSingleton: ("value",),
+    nodes.MatchClass: ("kwd_attrs",),
 }
 
 
-- 
2.43.0


From 46a291cd385f53e4d7f225be143a69656f5a41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 25/97] fix: do not take equal constants of different types for
 identical code

---
 edulint/linting/analyses/antiunify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index c4dcaf4..546f96d 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -112,7 +112,7 @@ class Antiunify:
         return avar, [avar]
 
     def _aunify_consts(self, vals: List[Any], stop_on: Callable[[List[AunifyVar]], bool]):
-        if all(v == vals[0] for v in vals):
+        if all(type(v) is type(vals[0]) and v == vals[0] for v in vals):
             return vals[0], []
 
         return self._new_aunifier(vals, stop_on)
-- 
2.43.0


From 871d362a68f704c3628751bc982e27e6a8926bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 26/97] fix: accept complex constants in similar code

---
 edulint/linting/analyses/antiunify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 546f96d..65cf2e3 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -511,7 +511,7 @@ def set_parents(parent: nodes.NodeNG, node: Any, recursive):
             set_parents(parent, elem, recursive)
 
     elif node is not None and not isinstance(
-        node, (str, bool, int, float, bytes, type(Ellipsis), Enum)
+        node, (str, bool, int, float, complex, bytes, type(Ellipsis), Enum)
     ):
         assert False, f"unreachable, but {type(node)}"
 
-- 
2.43.0


From f69e7d7e6719d91206e5ca5e04b4a53b8e8c7819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 27/97] fix: survive constant expressions that fail or are too
 large to evaluate

---
 edulint/linting/analyses/utils.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..85849e4 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -411,6 +411,22 @@ BINARY_SYMBOL_TO_OP = {
 }
 
 
+_MAX_CONST_SIZE = 10_000
+
+
+def _is_too_large(op: str, left: Any, right: Any) -> bool:
+    """Whether the value of a constant expression would be unreasonably large to compute."""
+    if op == "**" and isinstance(left, int) and isinstance(right, int):
+        return left.bit_length() * right > _MAX_CONST_SIZE
+    if op == "<<" and isinstance(right, int):
+        return right > _MAX_CONST_SIZE
+    if op == "*":
+        for val, times in ((left, right), (right, left)):
+            if isinstance(val, (str, bytes)) and isinstance(times, int):
+                return len(val) * times > _MAX_CONST_SIZE
+    return False
+
+
 def get_const_value_rec(node: Any) -> Any:
     if not isinstance(node, nodes.NodeNG):
         return node
@@ -426,7 +442,9 @@ def get_const_value_rec(node: Any) -> Any:
     if isinstance(node, nodes.BinOp):
         rt_val = get_const_value_rec(node.right)
         if node.op not in ("/", "//", "%") or rt_val != 0:
-            return BINARY_SYMBOL_TO_OP[node.op](get_const_value_rec(node.left), rt_val)
+            lt_val = get_const_value_rec(node.left)
+            if not _is_too_large(node.op, lt_val, rt_val):
+                return BINARY_SYMBOL_TO_OP[node.op](lt_val, rt_val)
 
     if isinstance(node, nodes.BoolOp):
         assert len(node.values) > 1
@@ -443,7 +461,7 @@ def get_const_value_rec(node: Any) -> Any:
 def get_const_value(node: Any) -> Any:
     try:
         return get_const_value_rec(node)
-    except (ValueError, KeyError, TypeError):
+    except (ValueError, KeyError, TypeError, ArithmeticError):
         return None
 
 
-- 
2.43.0


From 22a5c7c5fd5dbae5274c996bbf3dfb1a9c9bf282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 28/97] fix: serve empty remote configurations from the local
 copy

---
 edulint/config/file_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..d39b25e 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -135,7 +135,7 @@ class CachedHTTPGet:
         """
 
         cached_version: str = cls._read_version_from_disk(url, max_age_in_seconds=max_cache_time)
-        if cached_version:
+        if cached_version is not None:
             return cached_version
 
         try:
@@ -158,7 +158,7 @@ class CachedHTTPGet:
         cached_version: str = cls._read_version_from_disk(
             url, max_age_in_seconds=max_cache_time_when_offline
         )
-        if cached_version:
+        if cached_version is not None:
             return cached_version
         raise FileNotFoundError(
             f"request for external config '{url}' failed -- maybe you are offline or the URL is incorrect."
-- 
2.43.0


From ed3317d8cd65dd3b90f456015e9b01732325b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 29/97] fix: keep the local copy of a remote configuration
 whole

---
 edulint/config/file_config.py | 37 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index d39b25e..f29ae74 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -191,21 +191,30 @@ class CachedHTTPGet:
         base_filepath = cls._get_filepath_from_source(source)
         return base_filepath.with_suffix(base_filepath.suffix + ".metadata")
 
+    @staticmethod
+    def _write_atomically(path: Path, content: str):
+        # an interrupted write must not damage the version written before
+        tmp_path = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+        try:
+            with open(tmp_path, "w", encoding="utf8", newline="") as f:
+                f.write(content)
+            os.replace(tmp_path, path)
+        except Exception:
+            tmp_path.unlink(missing_ok=True)
+            raise
+
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            metadata = {
+                "timestamp": cls._get_timestamp(),
+                "source": source,
+            }
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            cls._write_atomically(cls._get_filepath_from_source(source), content)
+            cls._write_atomically(
+                cls._get_metadata_filepath(source), json.dumps(metadata, indent=4)
+            )
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
@@ -219,7 +228,9 @@ class CachedHTTPGet:
             if metadata["timestamp"] + max_age_in_seconds <= cls._get_timestamp():  # todo: int
                 return None
 
-            with open(cls._get_filepath_from_source(source), "r", encoding="utf8") as f:
+            with open(
+                cls._get_filepath_from_source(source), "r", encoding="utf8", newline=""
+            ) as f:
                 return f.read()
         except FileNotFoundError:
             return None
-- 
2.43.0


From 6f84a472b9ad89c72bb42a1f1bd5d7d02e28d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 30/97] fix: order pre-releases and post-releases when looking
 for the latest version

---
 edulint/versions/version_checker.py | 219 ++++++++++++++--------------
 1 file changed, 109 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..8ca41ed 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,109 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            latest_version_str = str(max(versions))
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        
+        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From 77e1b7dd478b13cbd4a931f007da958de9a50101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 31/97] fix: announce only known versions newer than the
 installed one

---
 edulint/versions/version_checker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 8ca41ed..de633bc 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -9,6 +9,7 @@ from platformdirs import PlatformDirs
 from dataclasses_json import dataclass_json
 
 from edulint.versions import pypi_helper
+from edulint.versions.utils import Version
 
 def current_timestamp() -> int:
     return int(time.time())
@@ -99,8 +100,11 @@ class PackageInfoManager:
             return False
 
         latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+        if latest_version is None:  # unable to determine the latest version
+            return False
+
+        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
+        return local is not None and latest is not None and local < latest
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ffc0ea81389f258b3dd27747a34872c7d51b3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 32/97] fix: read downloaded explanations instead of the
 packaged ones

---
 edulint/explanations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..3e68cee 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,7 +44,7 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "rb") as f:
             return tomli.load(f)
     except:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
-- 
2.43.0


From eeccc9bc5bbc065d6646b9df0259147490a53610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 33/97] fix: keep the previous explanations if an update is
 malformed or interrupted

---
 edulint/explanations.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 3e68cee..d92fcea 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -75,8 +75,18 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
+        explanations = tomli.loads(resp.text)
+        if not explanations or not all(
+            isinstance(expl, dict) and all(isinstance(text, str) for text in expl.values())
+            for expl in explanations.values()
+        ):
+            return
+
+        # an interrupted write must not damage the explanations downloaded before
+        tmp_path = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
+        with open(tmp_path, "w", encoding="utf8") as f:
             f.write(resp.text)
+        os.replace(tmp_path, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 8de8bc0fd5f2e780b41daca4b1fba521746615e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 34/97] fix: do not update explanations when explaining with
 updates disabled

---
 edulint/edulint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..68fb63c 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -230,7 +230,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -239,13 +241,15 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Whether not to look for newer explanations.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -262,7 +266,7 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    m_id_expls = get_message_explanations(message_ids, args.disable_explanations_update)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
-- 
2.43.0


From f08692d3535bce20f8e1c403a322e6d82e5f3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 35/97] fix: exit with a failure status after an unexpected
 error

---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index 68fb63c..5c6d086 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -290,7 +290,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From c4f6446a115657a61b3782a95c9e94d2dc417f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 36/97] fix: do not hang on an interrupted record of the last
 update of explanations

---
 edulint/explanations.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index d92fcea..cc85eb2 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -3,9 +3,7 @@ import os
 from threading import Thread
 from pathlib import Path
 from typing import Optional, Dict
-import dbm
 import time
-import random
 
 import tomli
 import requests
@@ -18,7 +16,7 @@ EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH = os.path.join(SCRIPT_PATH, "explanations.
 
 EDULINT_LOCAL_DATA_FOLDER = PlatformDirs(appname="edulint").user_data_dir
 EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_online.toml")
-EXPLANATIONS_DBM = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations.dbm")
+EXPLANATIONS_LAST_UPDATE_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_last_update.txt")
 GITHUB_URL = "https://raw.githubusercontent.com/GiraffeReversed/edulint/main/edulint/explanations.toml"
 
 try:
@@ -61,15 +59,28 @@ def update_explanations(disable_explanations_update: bool = False):
     Thread(target=_thread_update_explanations).start()
 
 
+def _get_last_update() -> int:
+    try:
+        with open(EXPLANATIONS_LAST_UPDATE_FILEPATH, encoding="utf8") as f:
+            return int(f.read())
+    except (FileNotFoundError, ValueError):
+        return 0
+
+
+def _write_atomically(filepath: str, content: str):
+    # an interrupted write must not damage the content written before
+    tmp_path = f"{filepath}.{os.getpid()}.tmp"
+    with open(tmp_path, "w", encoding="utf8") as f:
+        f.write(content)
+    os.replace(tmp_path, filepath)
+
+
 def _thread_update_explanations(ttl: int = 600): 
     try:
-        if not Path(EXPLANATIONS_DBM).exists():
-            time.sleep(random.randint(1,30)/1000)  # Small random delay to lower the chance for file creation race condition 
-        with dbm.open(EXPLANATIONS_DBM, 'c') as db:
-            if current_timestamp() < int(db.get('last_update', b'0')) + ttl:
-                return
-            db['last_update'] = str(current_timestamp())  # We're counting any update attempt, not just the succesfull ones
-        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_DBM}.")
+        if current_timestamp() < _get_last_update() + ttl:
+            return
+        _write_atomically(EXPLANATIONS_LAST_UPDATE_FILEPATH, str(current_timestamp()))  # We're counting any update attempt, not just the succesfull ones
+        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_LAST_UPDATE_FILEPATH}.")
 
         resp = requests.get(GITHUB_URL, timeout=3)
         if resp.status_code != 200:
@@ -82,11 +93,7 @@ def _thread_update_explanations(ttl: int = 600):
         ):
             return
 
-        # an interrupted write must not damage the explanations downloaded before
-        tmp_path = f"{EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH}.{os.getpid()}.tmp"
-        with open(tmp_path, "w", encoding="utf8") as f:
-            f.write(resp.text)
-        os.replace(tmp_path, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
+        _write_atomically(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, resp.text)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From c0f48786f33cffc2b4f3f48ac4d057cd5fe268ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 37/97] fix: record definitions of functions and classes in
 nested blocks

A function or class defined inside an if, a loop, a with or a try had no
event for the assignment of its name, which the analysis of calls then
asserted to be there.
---
 edulint/linting/analyses/variable_scope.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 465ef7f..f78bfc4 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -177,8 +177,20 @@ class VarEventListener(BaseVisitor[None]):
     def visit_module(self, node: nodes.Module):
         return self.visit_many(self.statements_before_definitions(node))
 
-    @in_new_scope
+    def _init_nested_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
+        # definitions directly in a scope's body are handled by statements_before_definitions
+        if not isinstance(
+            node.parent,
+            (nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef),
+        ):
+            self._init_var_in_scope(node.name, node)
+
     def visit_functiondef(self, node: nodes.FunctionDef):
+        self._init_nested_definition(node)
+        return self._visit_functiondef(node)
+
+    @in_new_scope
+    def _visit_functiondef(self, node: nodes.FunctionDef):
         self.function_defs.append(node)
 
         # args
@@ -215,8 +227,12 @@ class VarEventListener(BaseVisitor[None]):
     def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
         self.visit_functiondef(node)
 
-    @in_new_scope
     def visit_classdef(self, node: nodes.ClassDef):
+        self._init_nested_definition(node)
+        return self._visit_classdef(node)
+
+    @in_new_scope
+    def _visit_classdef(self, node: nodes.ClassDef):
         return self.visit_many(self.statements_before_definitions(node))
 
     @in_new_scope
-- 
2.43.0


From 64ef8d2d0c37002908da8bcaf9f8b10bf4cc1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 38/97] fix: look for updates even if the record of the last
 look is damaged

The record is written whole or not at all, and one that is not a JSON
document, left by an interrupted write, no longer fails every later run.
---
 edulint/versions/version_checker.py | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index de633bc..37b25d1 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,6 +1,7 @@
-from typing import Optional, Tuple
+from typing import Any, Dict, Optional, Tuple
 import os
 import json
+import tempfile
 from dataclasses import dataclass
 import time
 from pathlib import Path
@@ -53,10 +54,30 @@ class PackageInfoManager:
         cls._create_json_file_if_doesnt_exist(filepath)
         return filepath 
 
+    @classmethod
+    def _load_package_infos(cls) -> Dict[str, Any]:
+        try:
+            with open(cls._package_info_path(), "r", encoding="utf8") as f:
+                data = json.load(f)
+        except ValueError:  # not a whole JSON document, the write may have been interrupted
+            return {}
+        return data if isinstance(data, dict) else {}
+
+    @classmethod
+    def _save_package_infos(cls, data: Dict[str, Any]) -> None:
+        filepath = cls._package_info_path()
+        fd, temp_path = tempfile.mkstemp(dir=os.path.dirname(filepath))
+        try:
+            with open(fd, "w", encoding="utf8") as f:
+                json.dump(data, f, indent=4)
+            os.replace(temp_path, filepath)
+        except BaseException:
+            os.unlink(temp_path)
+            raise
+
     @classmethod
     def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
+        data = cls._load_package_infos()
 
         package_info = PackageInfo.from_dict(data.get(package_name, {}))
 
@@ -66,17 +87,13 @@ class PackageInfoManager:
             package_info.last_update_started = last_update_started
             
         data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
+        cls._save_package_infos(data)  # I'm aware there is possible race condition between read write. Risk accepted.
+
         return package_info
 
     @classmethod
     def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
+        return PackageInfo.from_dict(cls._load_package_infos().get(package_name, {}))
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-- 
2.43.0


From e3dc76614e5a6760f8305ce5967d128595e665de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 39/97] fix: forget the latest version if the index no longer
 lists any

---
 edulint/versions/version_checker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 37b25d1..155f253 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -81,8 +81,8 @@ class PackageInfoManager:
 
         package_info = PackageInfo.from_dict(data.get(package_name, {}))
 
-        if version:
-            package_info.version = version
+        if version is not None:
+            package_info.version = version or None  # empty if there is no version
         if last_update_started:
             package_info.last_update_started = last_update_started
             
@@ -104,9 +104,9 @@ class PackageInfoManager:
         try:
             cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
             versions = pypi_helper.get_versions(package_name)
-            latest_version_str = str(max(versions))
+            latest_version_str = str(max(versions)) if len(versions) > 0 else ""
             cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
+            return latest_version_str or None
         except Exception as _:
             return None
 
-- 
2.43.0


From a795f2c1dea5135d626712c21c357daf66a4a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 40/97] fix: announce the update that was found waiting

The latest version was looked up again for the notice, which gave None if
the record of the last look had expired in the meantime.
---
 edulint/edulint.py                  |  5 +++--
 edulint/versions/version_checker.py | 12 ++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index 5c6d086..e28a04b 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -144,10 +144,11 @@ def _update_check():
         "python" if os.name == "nt" else "python3"
     )  # nt is Windows
     version_ttl = 600
-    if PackageInfoManager.is_update_waiting("edulint", ttl=version_ttl):
+    latest_version = PackageInfoManager.get_waiting_update("edulint", ttl=version_ttl)
+    if latest_version is not None:
         try:
             logger.warning(
-                f"Update for EduLint ({PackageInfoManager.get_latest_version('edulint', version_ttl)}) is available. "
+                f"Update for EduLint ({latest_version}) is available. "
                 f"You can upgrade using `{python_executable} -m pip install --upgrade --user edulint`"
             )
         except ValueError as e:
diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 155f253..1322344 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -111,17 +111,21 @@ class PackageInfoManager:
             return None
 
     @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+    def get_waiting_update(cls, package_name: str, ttl = 600) -> Optional[str]:
         local_package_version = cls.get_local_module_version(package_name)
         if local_package_version is None: # unable to determine local package version
-            return False
+            return None
 
         latest_version = cls.get_latest_version(package_name, ttl)
         if latest_version is None:  # unable to determine the latest version
-            return False
+            return None
 
         local, latest = Version.parse(local_package_version), Version.parse(latest_version)
-        return local is not None and latest is not None and local < latest
+        return latest_version if local is not None and latest is not None and local < latest else None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        return cls.get_waiting_update(package_name, ttl) is not None
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c531725a0e7af05eec652fd3bb1e49890062fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 41/97] fix: look at the whole expression when filtering
 repeated operations

The expression was cut at its first dot, so x.y * x.y * x.y was taken for
one without any multiplication.
---
 edulint/linting/tweakers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/tweakers.py b/edulint/linting/tweakers.py
index 7169472..d9c7275 100644
--- a/edulint/linting/tweakers.py
+++ b/edulint/linting/tweakers.py
@@ -134,7 +134,7 @@ TWEAKERS = {
     ),
     (Linter.PYLINT, "R6607"): Tweaker(  # no-repeated-op
         set([Option.SET_GROUPS]),
-        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in ([^\.]*)."),
+        re.compile(r"^Use [^ ]* instead of repeated [^ ]* in (.*)\.$", re.DOTALL),
         no_repeated_op_keep,
     ),
     (Linter.PYLINT, "C0325"): Tweaker(  # superfluous-parens
-- 
2.43.0


From 65bd52e625a24a4e9301d942115cd3b9a3f1d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 42/97] fix: tell files named like a command line from problems
 of pylint's options

---
 edulint/linting/linting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..abaea8c 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -46,7 +46,7 @@ def flake8_to_problem(enablers: Dict[str, str], raw: ProblemJson) -> Problem:
 
 
 def is_pylint_out_of_file_problem(path):
-    return any(segment in path.lower() for segment in ("command line", "configuration file"))
+    return path in ("Command line", "Command line or configuration file")
 
 
 def pylint_to_problem(
-- 
2.43.0


From c4245eb937b8dd48568ee8b40767f29b1d8ead27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 43/97] fix: report and order problems of files given by any
 spelling of a path

Paths are compared resolved, so detours, parent directories and the
working directory itself no longer fail or yield a wrong path.
---
 edulint/linting/linting.py             | 33 ++++++++------------------
 edulint/linting/nonparsing_checkers.py |  4 ++--
 edulint/linting/problem.py             |  6 +++++
 3 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index abaea8c..2f96383 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -1,6 +1,6 @@
 from io import StringIO
 from typing import List, Callable, Tuple, Dict, Set, Any
-from edulint.linting.problem import ProblemJson, Problem
+from edulint.linting.problem import ProblemJson, Problem, get_proper_path
 from edulint.linting.nonparsing_checkers import report_infile_config
 from edulint.linting.process_handler import ProcessHandler
 from edulint.linting.overrides import get_overriders
@@ -9,7 +9,7 @@ from edulint.config.config import ImmutableConfig
 from edulint.config.language_translations import LangTranslations
 from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
-from functools import partial
+from functools import lru_cache, partial
 import sys
 import json
 import os
@@ -21,10 +21,6 @@ class EduLintLinterFailedException(Exception):
     pass
 
 
-def get_proper_path(path: str) -> str:
-    return os.path.abspath(path) if os.path.isabs(path) else os.path.relpath(path)
-
-
 def flake8_to_problem(enablers: Dict[str, str], raw: ProblemJson) -> Problem:
     assert isinstance(raw["filename"], str), f'got {type(raw["filename"])} for filename'
     assert isinstance(raw["line_number"], int), f'got {type(raw["line_number"])} for line_number'
@@ -74,18 +70,8 @@ def pylint_to_problem(
         for fd in [Path(path) for path in files_or_dirs]:
             abs_fd = fd.resolve()
             if abs_fd == abs_path or abs_fd in abs_path.parents:
-                if fd.is_absolute():
-                    return abs_path
-                else:
-                    cwd_parts = Path.cwd().parts
-                    abs_path_parts = abs_path.parts
-
-                    for i in range(min(len(cwd_parts), len(abs_path_parts))):
-                        if cwd_parts[i] != abs_path_parts[i]:
-                            break
-
-                    return Path(*[".."] * (len(cwd_parts) - i), *abs_path_parts[i:])
-        assert False, f"unreachable, but {path}"
+                return str(abs_path) if fd.is_absolute() else os.path.relpath(abs_path)
+        return str(path)  # the problem is in a configuration file of pylint
 
     code_enabler = enablers.get(raw["messageId"])
     symbol_enabler = enablers.get(raw["symbol"])
@@ -258,17 +244,18 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
+    abs_files_or_dirs = [Path(path).resolve() for path in files_or_dirs]
 
+    @lru_cache(maxsize=None)
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
-        for i, fd in enumerate(files_or_dirs):
-            if fd == path or fd in path.parents:
+        abs_path = Path(path).resolve()
+        for i, fd in enumerate(abs_files_or_dirs):
+            if fd == abs_path or fd in abs_path.parents:
                 return i
-        assert False, "unreachable"
+        return -1  # the problem is in a configuration file of pylint
 
     problems.sort(
         key=lambda problem: (
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9b49b35..737e5b8 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -5,7 +5,7 @@ import os
 
 from edulint.linters import Linter
 from edulint.options import Option
-from edulint.linting.problem import Problem
+from edulint.linting.problem import Problem, get_proper_path
 
 
 CONFIG_PATTERNS = {
@@ -62,7 +62,7 @@ def report_infile_config(
                             Problem(
                                 source=Linter.EDULINT,
                                 enabled_by=enablers.get("EDL001"),
-                                path=file_path,
+                                path=get_proper_path(file_path),
                                 line=i,
                                 column=len(match.group(1)),
                                 code="EDL001",
diff --git a/edulint/linting/problem.py b/edulint/linting/problem.py
index 0ecfb6b..aa58681 100644
--- a/edulint/linting/problem.py
+++ b/edulint/linting/problem.py
@@ -1,9 +1,15 @@
+import os
 from edulint.linters import Linter
 from dataclasses import dataclass, field, fields
 from dataclasses_json import dataclass_json, config
 from marshmallow import fields as mm_fields
 from typing import Optional, Dict, Union, List
 
+
+def get_proper_path(path: str) -> str:
+    return os.path.abspath(path) if os.path.isabs(path) else os.path.relpath(path)
+
+
 ProblemJson = Dict[str, Union[str, int]]
 
 
-- 
2.43.0


From 9c96c1628d0fd21244beeff60441fa18120fea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 44/97] fix: lint files covered by several of the given paths
 only once

---
 edulint/config/config.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 37e103f..ce7c7f8 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -534,6 +534,18 @@ def _ignore_infile(config: Config) -> bool:
 #     return config_paths, filename_mapping
 
 
+def _leave_out_covered(files_or_dirs: List[str]) -> List[str]:
+    """Leaves out paths given repeatedly and Python files and directories below given directories."""
+    unique = list({Path(path).resolve(): path for path in reversed(files_or_dirs)}.items())[::-1]
+    dirs = {abs_path for abs_path, _path in unique if abs_path.is_dir()}
+    return [
+        path
+        for abs_path, path in unique
+        if not (abs_path in dirs or abs_path.suffix.lower() == ".py")
+        or all(parent not in dirs for parent in abs_path.parents)
+    ]
+
+
 def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
 ) -> Dict[Tuple[ImmutableArg, ...], Tuple[Config, List[str]]]:
@@ -574,7 +586,7 @@ def _parse_infile_configs(
         return {iconfig: (config, [path])}
 
     ignore_infile = _ignore_infile(cmd_config)
-    return aggregate_subresults(files_or_dirs)
+    return aggregate_subresults(_leave_out_covered(files_or_dirs))
 
 
 def get_config_many(
-- 
2.43.0


From 8e228cbbcf22e19539799d9cc4ad7970ea9362ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 45/97] fix: restore the standard streams when a linter fails

---
 edulint/linting/linting.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 2f96383..f03b341 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -9,6 +9,7 @@ from edulint.config.config import ImmutableConfig
 from edulint.config.language_translations import LangTranslations
 from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
+from contextlib import redirect_stderr, redirect_stdout
 from functools import lru_cache, partial
 import sys
 import json
@@ -145,21 +146,14 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     from flake8.main.application import Application
 
     new_stdout = StringIO()
-    old_stdout = sys.stdout
-    sys.stdout = new_stdout
-
     new_stderr = StringIO()
-    old_stderr = sys.stderr
-    sys.stderr = new_stderr
-
-    try:
-        Application()._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
-        return_code = 0
-    except SystemExit as e:
-        return_code = e.code
 
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    with redirect_stdout(new_stdout), redirect_stderr(new_stderr):
+        try:
+            Application()._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
+            return_code = 0
+        except SystemExit as e:
+            return_code = e.code
 
     return process_results(
         Linter.FLAKE8,
@@ -182,16 +176,13 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     reporter = JSON2Reporter(output)
 
     new_stderr = StringIO()
-    old_stderr = sys.stderr
-    sys.stderr = new_stderr
-
-    try:
-        Run(pylint_args, reporter=reporter, exit=False)
-        return_code = 0
-    except SystemExit as e:
-        return_code = e.code
 
-    sys.stderr = old_stderr
+    with redirect_stderr(new_stderr):
+        try:
+            Run(pylint_args, reporter=reporter, exit=False)
+            return_code = 0
+        except SystemExit as e:
+            return_code = e.code
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From dba86385f93966689169c7414786e8b91573dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 46/97] fix: lint files as they are now, not as an earlier call
 in the process saw them

---
 edulint/linting/linting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index f03b341..5b91d8b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -169,9 +169,15 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
+    from astroid import MANAGER
+    from pylint.checkers.utils import clear_lru_caches
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
 
+    # files may have changed since they were parsed and inferred by a previous run in this process
+    clear_lru_caches()
+    MANAGER.clear_cache()
+
     output = StringIO()
     reporter = JSON2Reporter(output)
 
-- 
2.43.0


From b61166f613d841dfe1d9c739f456c796fd0fefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 47/97] fix: analyse every file once, however many runs there
 were in the process

---
 edulint/linting/analyses/patcher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/patcher.py b/edulint/linting/analyses/patcher.py
index aa280e1..cd44655 100644
--- a/edulint/linting/analyses/patcher.py
+++ b/edulint/linting/analyses/patcher.py
@@ -34,6 +34,11 @@ def run_analyses(ast: astroid.nodes.Module):
 
 
 def patch_ast_transforms():
+    astroid.raw_building._CONST_PROXY[AunifyVar] = None
+
+    if hasattr(PyLinter.get_ast, "edulint_original"):
+        return  # already patched by a previous run in this process
+
     old_get_ast = PyLinter.get_ast
 
     def new_get_ast(self, filepath, modname, data=None):
@@ -44,8 +49,8 @@ def patch_ast_transforms():
         run_analyses(ast)
         return ast
 
+    new_get_ast.edulint_original = old_get_ast
     PyLinter.get_ast = new_get_ast
-    astroid.raw_building._CONST_PROXY[AunifyVar] = None
 
 
 def register(_linter: "PyLinter") -> None:
-- 
2.43.0


From 040621d881f1c79b38c771a5c5fdd46d0abb660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 48/97] fix: find modules created or deleted between calls in
 one process

---
 edulint/linting/linting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 5b91d8b..ec26ae4 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -11,6 +11,7 @@ from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
 from contextlib import redirect_stderr, redirect_stdout
 from functools import lru_cache, partial
+import importlib
 import sys
 import json
 import os
@@ -177,6 +178,8 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     # files may have changed since they were parsed and inferred by a previous run in this process
     clear_lru_caches()
     MANAGER.clear_cache()
+    MANAGER._mod_file_cache.clear()  # where modules are, left by clear_cache
+    importlib.invalidate_caches()
 
     output = StringIO()
     reporter = JSON2Reporter(output)
-- 
2.43.0


From 1f8be712161129da6a8a24ae81311d01a7fc38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 49/97] fix: clear the caches of the parser library once per
 call

---
 edulint/linting/linting.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index ec26ae4..ce41482 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -170,17 +170,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
-    from astroid import MANAGER
-    from pylint.checkers.utils import clear_lru_caches
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
 
-    # files may have changed since they were parsed and inferred by a previous run in this process
-    clear_lru_caches()
-    MANAGER.clear_cache()
-    MANAGER._mod_file_cache.clear()  # where modules are, left by clear_cache
-    importlib.invalidate_caches()
-
     output = StringIO()
     reporter = JSON2Reporter(output)
 
@@ -292,9 +284,30 @@ def translate(lang_translations: LangTranslations, problem: Problem):
     return problem
 
 
+linted_before = False
+
+
+def forget_previous_calls() -> None:
+    global linted_before
+    if not linted_before:  # there is nothing to forget, and forgetting takes time
+        linted_before = True
+        return
+
+    from astroid import MANAGER
+    from pylint.checkers.utils import clear_lru_caches
+
+    clear_lru_caches()
+    MANAGER.clear_cache()
+    MANAGER._mod_file_cache.clear()  # where modules are, left by clear_cache
+    importlib.invalidate_caches()
+
+
 def lint_many(
     partition: List[Tuple[List[str], ImmutableConfig, LangTranslations]],
 ) -> List[Problem]:
+    # files may have changed since they were parsed and inferred by a previous call in this process
+    forget_previous_calls()
+
     return [
         translate(lang_translations, problem)
         for files_or_dirs, config, lang_translations in partition
-- 
2.43.0


From b7ab113613b6b15939235b1cd2aead25860714f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 50/97] fix: put snippets into translations of more of Flake8's
 messages

---
 edulint/config/raw_flake8_patterns.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edulint/config/raw_flake8_patterns.py b/edulint/config/raw_flake8_patterns.py
index 86c6ce8..d091c44 100644
--- a/edulint/config/raw_flake8_patterns.py
+++ b/edulint/config/raw_flake8_patterns.py
@@ -6,7 +6,7 @@ FLAKE8 = {
     "F404": "future import(s) name after other statements",
     "F405": "%r may be undefined, or defined from star imports: %s",
     "F406": "'from %s import *' only allowed at module level",
-    "F407": "an undefined __future__ feature name was imported",
+    "F407": "future feature %s is not defined",
     "F501": "'...' %% ... has invalid format string: %s",
     "F502": "'...' %% ... expected mapping but got sequence",
     "F503": "'...' %% ... expected sequence but got mapping",
@@ -46,11 +46,13 @@ FLAKE8 = {
     "F823": "local variable %r %s referenced before assignment",
     "F831": "duplicate argument %r in function definition",
     "F841": "local variable %r is assigned to but never used",
+    "F842": "local variable %r is annotated but never used",
     "F901": "'raise NotImplemented' should be 'raise NotImplementedError'",
     # pycodestyle
     "E101": "indentation contains mixed spaces and tabs",
     "E111": "indentation is not a multiple of %d",
     "E112": "expected an indented block",
+    "E114": "indentation is not a multiple of %d (comment)",
     "W191": "indentation contains tabs",
     "W291": "trailing whitespace",
     "W293": "blank line contains whitespace",
@@ -64,6 +66,8 @@ FLAKE8 = {
     "E302": "expected %s blank lines, found %d",
     "E305": "expected %s blank lines after class or function definition, found %d",
     "E201": "whitespace after '%s'",
+    "E202": "whitespace before '%s'",
+    "E203": "whitespace before '%s'",
     "E274": "tab before keyword",
     "E272": "multiple spaces before keyword",
     "E273": "tab after keyword",
@@ -86,6 +90,7 @@ FLAKE8 = {
     "E224": "tab after operator",
     "E222": "multiple spaces after operator",
     "E225": "missing whitespace around operator",
+    "E231": "missing whitespace after %r",
     "E242": "tab after '%s'",
     "E241": "multiple spaces after '%s'",
     "E251": "unexpected spaces around keyword / parameter equals",
@@ -114,4 +119,9 @@ FLAKE8 = {
     "E741": "ambiguous variable name '%s'",
     "W605": "invalid escape sequence '\\%s'",
     "W505": "doc line too long (%d > %d characters)",
+    # mccabe
+    "C901": "%r is too complex (%d)",
+    # errors
+    "E902": "%s",
+    "E999": "%s",
 }
-- 
2.43.0


From ba22341a7fb7063eb6d2b345f91eb4378c6e319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 51/97] fix: extract all kinds of snippets, including
 multi-line ones, for translations

---
 edulint/config/language_translations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index f68b679..75418f2 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -16,8 +16,13 @@ from edulint.config.raw_flake8_patterns import FLAKE8
 from edulint.linting import checkers as edulint_checkers
 
 
+CONVERSION = re.compile(r"%(?:\(\w+\))?[-+#0]*\d*(?:\.\d+)?[a-z]", flags=re.IGNORECASE)
+
+
 def to_pattern(message: str):
-    return re.sub("%[rsd]", "(.*)", re.escape(message), flags=re.IGNORECASE)
+    return "(.*)".join(
+        re.escape(literal.replace("%%", "%")) for literal in CONVERSION.split(message)
+    )
 
 
 def checker_classes(module):
@@ -98,7 +103,7 @@ class Translation:
         if pattern is None or "(.*)" not in pattern:
             return self.translation
 
-        match = re.match(pattern, message, flags=re.IGNORECASE)
+        match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
         try:
-- 
2.43.0


From 11b3cf68795019b9b5eedfd6b23b3a7b8bfd333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 52/97] fix: put the name into translations of reworded
 messages on disallowed names

---
 edulint/config/language_translations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 75418f2..02b4b5a 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -49,11 +49,18 @@ def get_pylint_patterns():
     return messages
 
 
+# messages that are reworded before they are translated
+REWORDED = {
+    "C0104": r'Disallowed (?:single\-character variable )?name "(.*)"',
+}
+
+
 def get_patterns():
-    return {
+    patterns = {
         code: to_pattern(message)
         for code, message in {**get_pylint_patterns(), **get_edulint_patterns(), **FLAKE8}.items()
     }
+    return {**patterns, **REWORDED}
 
 
 @dataclass
-- 
2.43.0


From 9558d36c703cb5269bb84ce1c945621034a6d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 53/97] fix: put snippets into translations of pylint's own
 messages

---
 edulint/config/language_translations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 02b4b5a..87215c4 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -9,6 +9,7 @@ from loguru import logger
 
 import pylint
 from pylint.checkers import BaseChecker
+from pylint.lint.pylinter import MSGS as PYLINT_OWN_MESSAGES
 
 from edulint.option_parses import LANG_TRANSLATED_EXTRACTS_LABEL
 from edulint.config.file_config import load_toml_file
@@ -42,7 +43,7 @@ def get_edulint_patterns():
 
 
 def get_pylint_patterns():
-    messages = {}
+    messages = {code: info[0] for code, info in PYLINT_OWN_MESSAGES.items()}
     for checker in checker_classes(pylint.checkers):
         messages.update({code: info[0] for code, info in checker.msgs.items()})
 
-- 
2.43.0


From 66b380b983f06c042c53f31dedefaa7d393debc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 54/97] fix: report arguments pylint refuses instead of failing

---
 edulint/linting/linting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index ce41482..ad399b4 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -170,6 +170,7 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
+    from pylint.config.exceptions import ArgumentPreprocessingError
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
 
@@ -184,6 +185,9 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
             return_code = 0
         except SystemExit as e:
             return_code = e.code
+        except ArgumentPreprocessingError as e:
+            print(e, file=sys.stderr)
+            return_code = 32
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From 5d64504222722c55fcab6c63106ac81c2c78fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 55/97] fix: put snippets into translations of messages of
 checkers in sub-packages

---
 edulint/config/language_translations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 87215c4..a2ae686 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -27,8 +27,8 @@ def to_pattern(message: str):
 
 
 def checker_classes(module):
-    for module_info in pkgutil.walk_packages(module.__path__):
-        submodule = importlib.import_module(f"{module.__name__}.{module_info.name}")
+    for module_info in pkgutil.walk_packages(module.__path__, module.__name__ + "."):
+        submodule = importlib.import_module(module_info.name)
         for name, obj in inspect.getmembers(submodule):
             if inspect.isclass(obj) and issubclass(obj, BaseChecker) and obj != BaseChecker:
                 yield obj
-- 
2.43.0


From 1f8b77ab81eefc6a73b8e949fadae888f36e1c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 56/97] fix: tell the operator from the value in translations
 of augmented assignment

---
 edulint/config/language_translations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index a2ae686..468f1da 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -50,9 +50,11 @@ def get_pylint_patterns():
     return messages
 
 
-# messages that are reworded before they are translated
-REWORDED = {
+SPECIAL_PATTERNS = {
+    # reworded before it is translated
     "C0104": r'Disallowed (?:single\-character variable )?name "(.*)"',
+    # the assigned value may contain other operators and equality signs
+    "R6609": r"Use augmented assignment: '(.*?) (\*\*|//|<<|>>|[-+*/%@&|^])= (.*)'",
 }
 
 
@@ -61,7 +63,7 @@ def get_patterns():
         code: to_pattern(message)
         for code, message in {**get_pylint_patterns(), **get_edulint_patterns(), **FLAKE8}.items()
     }
-    return {**patterns, **REWORDED}
+    return {**patterns, **SPECIAL_PATTERNS}
 
 
 @dataclass
-- 
2.43.0


From 4572e707870c98b614093623c78ccd629274409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 57/97] fix: bracket compared expressions that bind less than
 the comparison

---
 edulint/linting/checkers/simplifiable_if.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 14f00fd..3fe71c6 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -178,6 +178,15 @@ def add_brackets_if_composed(node: nodes.NodeNG, is_standalone: bool) -> str:
     )
 
 
+def as_comparison_operand(node: nodes.NodeNG) -> str:
+    string = node.as_string()
+    binds_less_than_comparison = isinstance(
+        node, (nodes.BoolOp, nodes.Compare, nodes.IfExp, nodes.Lambda, nodes.NamedExpr)
+    ) or (isinstance(node, nodes.UnaryOp) and node.op == "not")
+
+    return f"({string})" if binds_less_than_comparison else string
+
+
 def get_boolOp_as_condition(operands: List[z3.ExprRef], is_or: bool):
     return z3.Or(operands) if is_or else z3.And(operands)
 
@@ -1715,7 +1724,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             if len(current_group) < 2:
                 continue
 
-            self._suggestion_for_group_of_boolops(expr1.as_string(), current_group, node)
+            self._suggestion_for_group_of_boolops(as_comparison_operand(expr1), current_group, node)
 
     def _update_comparisons(
         self,
@@ -2242,7 +2251,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 comparison_operands.append(operand)
                 self._update_comparisons(
                     comparisons_with_numbers,
-                    operand[0].as_string(),
+                    as_comparison_operand(operand[0]),
                     operand[1],
                     str(operand[2]),
                     value.ops[0][0] != operand[1],
@@ -2250,16 +2259,16 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             elif self._is_comparison_not_between_numbers(value):
                 self._update_comparisons(
                     comparisons,
-                    value.left.as_string(),
+                    as_comparison_operand(value.left),
                     value.ops[0][0],
-                    value.ops[0][1].as_string(),
+                    as_comparison_operand(value.ops[0][1]),
                     False,
                 )
                 self._update_comparisons(
                     comparisons,
-                    value.ops[0][1].as_string(),
+                    as_comparison_operand(value.ops[0][1]),
                     self.SWITCHED_COMPARATOR[value.ops[0][0]],
-                    value.left.as_string(),
+                    as_comparison_operand(value.left),
                     True,
                 )
             elif node_is_or and self._is_conjunction_of_two_equalities(value):
-- 
2.43.0


From 6606035dd13ac6b98243f2ad2d285e01b159efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 58/97] fix: recognise only whole calls of abs, max and min in
 suggested comparisons

---
 edulint/linting/checkers/simplifiable_if.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 3fe71c6..7158ae3 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -1497,7 +1497,8 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         return [cmp2, const2]
 
     def _add_abs_if_necessary(self, expr_string: str) -> str:
-        if expr_string.startswith("abs("):
+        expr = extract_node(expr_string)
+        if isinstance(expr, nodes.Call) and expr.func.as_string() == "abs":
             return expr_string + " "
 
         return "abs(" + expr_string + ") "
@@ -1797,8 +1798,13 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         all_switched_or_all_not_switched = True
 
         for i in range(len(expressions)):
-            if expressions[i].startswith(function):
-                result.append(expressions[i][4:-1])
+            expr = extract_node(expressions[i])
+            if (
+                isinstance(expr, nodes.Call)
+                and f"{expr.func.as_string()}(" == function
+                and len(expr.args) > 1
+            ):
+                result.append(", ".join(arg.as_string() for arg in expr.args))
             else:
                 result.append(expressions[i])
 
-- 
2.43.0


From d0bde6edae83545f31e6d121eaead57626a14dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 59/97] fix: round divisions by a negative number down when
 converting them for Z3

---
 edulint/linting/analyses/z3_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..5ecddf9 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -321,7 +321,9 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            divisor = get_const_value(node.right)
+            # integer division in Z3 rounds down only if the divisor is positive
+            z3_expr = left / divisor if divisor > 0 else -left / -divisor
         elif node.op == "/":
             z3_expr = left / float(get_const_value(node.right))
         elif node.op == "+":
-- 
2.43.0


From 486168a0b30500dcdf2ee3651297a71c38ec094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 60/97] fix: do not take chained comparisons with negated
 operators for negations

---
 edulint/linting/analyses/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 85849e4..bdf017e 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -696,7 +696,8 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if negated_rt and ops_match(lt, rt, lambda op: op):
             return all_are_negations(to_values(lt), to_values(rt), negated_rt)
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+        # negating a chained comparison does not negate each of its parts
+        if not negated_rt and len(lt.ops) == 1 and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
             return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
 
         if not negated_rt and mod_two_negation(lt, rt):
-- 
2.43.0


From b3ce3eb8683bf3a483f956835e6c5ccfd63e341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 61/97] fix: compare operators and values of modulo two tests
 when looking for negations

---
 edulint/linting/analyses/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index bdf017e..c0834cb 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -661,20 +661,21 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if op not in ("==", "!=") or is_mod_two(left) == is_mod_two(right):
             return False
 
-        # MAYBE check if value equal to mod is 0 or 1?
-        return True
+        value = get_const_value(right if is_mod_two(left) else left)
+        return isinstance(value, int) and value in (0, 1)
 
     def mod_two_negation(lt: nodes.NodeNG, rt: nodes.NodeNG):
         if not is_eq_mod_two(lt) or not is_eq_mod_two(rt):
             return False
 
-        lt_lt, (_, lt_rt) = lt.left, lt.ops[0]
-        rt_lt, (_, rt_rt) = rt.left, rt.ops[0]
+        lt_lt, (lt_op, lt_rt) = lt.left, lt.ops[0]
+        rt_lt, (rt_op, rt_rt) = rt.left, rt.ops[0]
 
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        same_result = get_const_value(lt_val) == get_const_value(rt_val)
+        return have_same_value(lt_mod.left, rt_mod.left) and (lt_op == rt_op) != same_result
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
-- 
2.43.0


From ad785bc392fefa981af9b2cb77360f7803d2affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 62/97] fix: bracket if expressions, lambdas and assignment
 expressions in refactored conditions

---
 edulint/linting/checkers/simplifiable_if.py | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 7158ae3..72a31e1 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -450,6 +450,11 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             )
 
     def _get_refactored(self, *args: Union[str, nodes.NodeNG]) -> str:
+        def needs_brackets_in(node: nodes.NodeNG, op: str) -> bool:
+            return isinstance(node, (nodes.IfExp, nodes.Lambda, nodes.NamedExpr)) or (
+                isinstance(node, nodes.BoolOp) and node.op != op
+            )
+
         result = []
         i = 0
         while i < len(args):
@@ -458,7 +463,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 v = args[i + 1]
                 assert isinstance(v, nodes.NodeNG)
                 refactored = v.as_string()
-                if isinstance(v, nodes.BoolOp):
+                if needs_brackets_in(v, "not"):
                     result.append(f"<negated ({refactored})>")
                 else:
                     result.append(f"<negated {refactored}>")
@@ -466,19 +471,18 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             elif isinstance(arg, str) and arg in ("and", "or"):
                 prev = args[i - 1]
                 next_ = args[i + 1]
-                if (
-                    isinstance(prev, nodes.BoolOp)
-                    and prev.op != arg
-                    and (i - 2 < 0 or args[i - 2] != "not")
-                ):
-                    result[-1] = f"({result[-1]})"
+                if needs_brackets_in(prev, arg) and (i - 2 < 0 or args[i - 2] != "not"):
+                    result[-1] = f"({prev.as_string()})"
                 result.append(arg)
                 i += 1
-                if isinstance(next_, nodes.BoolOp) and next_.op != arg:
+                if needs_brackets_in(next_, arg):
                     result.append(f"({next_.as_string()})")
                     i += 1
             elif isinstance(arg, nodes.NodeNG):
-                result.append(arg.as_string())
+                refactored = arg.as_string()
+                result.append(
+                    f"({refactored})" if isinstance(arg, nodes.NamedExpr) else refactored
+                )
                 i += 1
 
         return " ".join(result)
-- 
2.43.0


From e0e74d3b184f238b5833dc8f08eee8456ba10884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 63/97] fix: do not analyse blocks that assign non-integers to
 variables used as integers

---
 edulint/linting/analyses/z3_block_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_block_analysis.py b/edulint/linting/analyses/z3_block_analysis.py
index e3c68b2..e284451 100644
--- a/edulint/linting/analyses/z3_block_analysis.py
+++ b/edulint/linting/analyses/z3_block_analysis.py
@@ -501,7 +501,11 @@ def _update_vars_after_assignment(
 
         converted = _convert_expression_in_assignment_to_Z3(values[i], initialized_variables)
 
-        if converted is None:
+        if converted is None or (
+            # an integer variable cannot represent a value that does not have to be an integer
+            initialized_variables[target.name].is_int()
+            and z3.is_real(converted)
+        ):
             return None
 
         var = _update_relations_between_vars(
-- 
2.43.0


From bcb2bad8cfa031fd3011b69e8385ab3e6ab644a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 64/97] fix: decide whether ifs can be elifs without what later
 ifs assert or return

---
 edulint/linting/analyses/z3_block_analysis.py | 18 ++++++++++--------
 edulint/linting/checkers/simplifiable_if.py   | 10 +++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/edulint/linting/analyses/z3_block_analysis.py b/edulint/linting/analyses/z3_block_analysis.py
index e284451..b8db412 100644
--- a/edulint/linting/analyses/z3_block_analysis.py
+++ b/edulint/linting/analyses/z3_block_analysis.py
@@ -581,18 +581,18 @@ def convert_conditions_with_blocks_after_each_to_Z3(
     conditions: List[List[nodes.NodeNG]],
     blocks: List[List[nodes.NodeNG]],
     initialized_variables: Dict[str, z3.ArithRef],
-) -> Tuple[z3.BoolRef, List[List[z3.ExprRef]]]:
+) -> Tuple[List[z3.BoolRef], List[List[z3.ExprRef]]]:
     """
     Before using this function use `validate_and_initialize_variables_for_Z3_block_analysis` to get `initialized_variables`.
     This function converts the `conditions` with `blocks` in between them (there cannot be any cycles).
 
     Returns:
-        A tuple where the first entry is BoolRef representing relations between all the newly created variables and the second entry
-        are the `conditions` converted into Z3. (the code blocks between the conditions are taken into account - the first entry)
+        A tuple where the first entry are BoolRefs representing relations between all the newly created variables that hold whenever
+        the conditions at the same position are evaluated and the second entry are the `conditions` converted into Z3. (the code blocks between the conditions are taken into account - the first entry)
 
     When you want to know if when some condition holds and then some block of code is executed whether another condition
     holds you can use this function - `conditions = [[first condition], [second condition]]`, `blocks = [block of code between them]`.
-    And then from the result you just test if `relations => (converted_first_cond => converted_second_cond)`.
+    And then from the result you just test if `relations[1] => (converted_first_cond => converted_second_cond)`.
 
     Note:
         `conditions[i]` is a list of conditions and `blocks[i]` is a block (list of nodes) between the conditions
@@ -601,16 +601,18 @@ def convert_conditions_with_blocks_after_each_to_Z3(
     assert len(conditions) == len(blocks) + 1
 
     accumulated_relations_between_vars: List[z3.ExprRef] = []
+    relations_between_vars: List[z3.BoolRef] = []
     converted_conditions: List[List[z3.ExprRef]] = []
 
     var_rewrite_counts = {var: 0 for var in initialized_variables}
 
     for i, conds in enumerate(conditions):
+        relations_between_vars.append(z3.And(accumulated_relations_between_vars))
         converted_conditions.append([])
         for cond in conds:
             converted = convert_condition_to_z3_expression(cond, initialized_variables, None)[0]
             if converted is None:
-                return (z3.And(), [])
+                return ([], [])
 
             converted_conditions[i].append(converted)
 
@@ -623,14 +625,14 @@ def convert_conditions_with_blocks_after_each_to_Z3(
             )
 
             if after_block is None:
-                return (z3.And(), [])
+                return ([], [])
 
             new_vars, assertions, _ = after_block
 
             initialized_variables.update(new_vars)
             accumulated_relations_between_vars.extend(assertions)
 
-    return z3.And(accumulated_relations_between_vars), converted_conditions
+    return relations_between_vars, converted_conditions
 
 
 def condition_implies_another_with_block_in_between(
@@ -670,5 +672,5 @@ def condition_implies_another_with_block_in_between(
     )
 
     return conditions and implies(
-        relations_between_vars, z3.Implies(conditions[0][0], conditions[1][0]), 3000
+        relations_between_vars[1], z3.Implies(conditions[0][0], conditions[1][0]), 3000
     )
diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 72a31e1..266825d 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -1119,7 +1119,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
     def _count_of_mergeable_consecutive_ifs(
         self,
-        relations_between_vars: z3.BoolRef,
+        relations_between_vars: List[z3.BoolRef],
         converted_conditions: List[List[z3.ExprRef]],
         start_if_index: int,
     ) -> int:
@@ -1128,7 +1128,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
         i = start_if_index + 1
         while i < len(converted_conditions) and self.can_merge_ifs_together(
-            merged_if_conditions, converted_conditions[i], relations_between_vars
+            merged_if_conditions, converted_conditions[i], relations_between_vars[i]
         ):
             merged_if_conditions.extend(converted_conditions[i])
             i += 1
@@ -1137,7 +1137,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
     def _get_most_consecutive_ifs_suitable_for_z3_block_analysis(
         self, consecutive_ifs: List[nodes.If], start_index: int
-    ) -> Tuple[z3.BoolRef, List[List[z3.ExprRef]]]:
+    ) -> Tuple[List[z3.BoolRef], List[List[z3.ExprRef]]]:
         initialized_variables: Dict[str, z3.ArithRef] = {}
 
         i = start_index
@@ -1153,7 +1153,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             i += 1
 
         if i <= start_index + 1:
-            return z3.BoolVal(True), []
+            return [], []
 
         relations_between_vars, converted_conditions = (
             convert_conditions_with_blocks_after_each_to_Z3(
@@ -1258,7 +1258,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 return
 
             mergeable_count_unmodified = self._count_of_mergeable_consecutive_ifs(
-                z3.BoolVal(True),
+                [z3.BoolVal(True)] * len(most_consecutive_converted_ifs_unmodified),
                 most_consecutive_converted_ifs_unmodified,
                 corresponding_index_unmodified,
             )
-- 
2.43.0


From 7b89d2d4eaa5dcf9a8a8af81cf7b253f09cff0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 65/97] fix: look for unreachable else when only that check is
 enabled

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index b0a052e..a0805a0 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -723,7 +723,7 @@ class Local(BaseChecker):
         self._check_loop_else(node.orelse, "for")
         self._check_iteration_count(node)
 
-    @only_required_for_messages("use-elif", "redundant-elif", "use-early-return")
+    @only_required_for_messages("use-elif", "redundant-elif", "unreachable-else", "use-early-return")
     def visit_if(self, node: nodes.If) -> None:
         self._check_else_if(node)
         self._check_redundant_elif(node)
-- 
2.43.0


From d5b402cb16e158ab87cf2132e83b8f8d3caae231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 66/97] fix: print problems with characters that the output
 encoding lacks

---
 edulint/edulint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index e28a04b..cd074c7 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -9,6 +9,7 @@ from edulint.explanations import update_explanations, get_explanations
 from edulint.version import version
 from typing import List, Dict, Tuple, Any, Optional
 import argparse
+import io
 import os
 import sys
 import json
@@ -291,9 +292,16 @@ def print_message_explanations(args):
     return 0
 
 
+def setup_stdout() -> None:
+    # characters the output cannot represent must not prevent the problems from being reported
+    if isinstance(sys.stdout, io.TextIOWrapper) and sys.stdout.errors == "strict":
+        sys.stdout.reconfigure(errors="backslashreplace")
+
+
 @logger.catch(default=2)
 def main() -> int:
     setup_logger()
+    setup_stdout()
     option_parses = get_option_parses()
     args = setup_argparse(option_parses)
 
-- 
2.43.0


From 21a625b501c6ea2080efb69d58a695557c7ed20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 67/97] fix: suggest append only for single elements, and
 bracket what it is called on

---
 edulint/linting/analyses/utils.py         | 18 ++++++++++++++++++
 edulint/linting/checkers/local_defects.py | 11 +++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index c0834cb..9579d0c 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -465,6 +465,24 @@ def get_const_value(node: Any) -> Any:
         return None
 
 
+def bracketed_if_compound(node: nodes.NodeNG) -> str:
+    """Source of the expression, bracketed unless it can be followed by an attribute or a subscript as it is."""
+    simple = (
+        nodes.Name,
+        nodes.Attribute,
+        nodes.Subscript,
+        nodes.Call,
+        nodes.List,
+        nodes.Tuple,
+        nodes.Set,
+        nodes.Dict,
+        nodes.ListComp,
+        nodes.SetComp,
+        nodes.DictComp,
+    )
+    return node.as_string() if isinstance(node, simple) else f"({node.as_string()})"
+
+
 def infer_to_value(node: nodes.NodeNG) -> Optional[nodes.NodeNG]:
     if isinstance(node, nodes.Name):
         inferred = utils.safe_infer(node)
diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index a0805a0..6cc6aa8 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -11,6 +11,7 @@ from edulint.linting.analyses.types import guess_type, Type
 from edulint.linting.analyses.utils import (
     get_range_params,
     get_const_value,
+    bracketed_if_compound,
     is_parents_elif,
     get_statements_count,
     is_negation,
@@ -133,19 +134,25 @@ class Local(BaseChecker):
             and len(node.args) == 1
             and isinstance(node.args[0], nodes.List)
             and len(node.args[0].elts) == 1
+            and not isinstance(node.args[0].elts[0], nodes.Starred)
         ):
             self.add_message(
                 "use-append",
                 node=node,
                 args=(
-                    node.func.expr.as_string(),
+                    bracketed_if_compound(node.func.expr),
                     node.args[0].elts[0].as_string(),
                     node.as_string(),
                 ),
             )
 
     def _check_augassign_extend(self, node: nodes.AugAssign) -> None:
-        if node.op == "+=" and isinstance(node.value, nodes.List) and len(node.value.elts) == 1:
+        if (
+            node.op == "+="
+            and isinstance(node.value, nodes.List)
+            and len(node.value.elts) == 1
+            and not isinstance(node.value.elts[0], nodes.Starred)
+        ):
             self.add_message(
                 "use-append",
                 node=node,
-- 
2.43.0


From e29d34a8f8db82b2d575c0d48b5b616aef119c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 68/97] fix: report a repeated operation only if all the
 operands are the same

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 6cc6aa8..8752ee7 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -223,7 +223,7 @@ class Local(BaseChecker):
                 return None
 
             count_rt, _ = rt
-            return count_lt + count_rt, name
+            return count_lt + count_rt, name_lt
 
         if (
             name is None and type(node) in (nodes.Name, nodes.Attribute, nodes.Subscript)
-- 
2.43.0


From 1b67551e11f1458826f0c062d1bc88eb9d8f4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 69/97] fix: do not report repeated operations with operands
 that have effects

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 8752ee7..edac399 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -234,7 +234,7 @@ class Local(BaseChecker):
     def _check_repeated_operation(self, node: nodes.BinOp) -> None:
         if node.op in ("+", "*"):
             result = self._check_repeated_operation_rec(node, node.op)
-            if result is None:
+            if result is None or not is_pure_expression(node):
                 return
 
             # DANGER: on some structures, + may be available but not *
-- 
2.43.0


From 6cc3d5c069a8e219959f431e1820d5a7778ef021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 70/97] fix: do not take operands that have effects for equal

---
 edulint/linting/checkers/local_defects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index edac399..ae7ad9d 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -270,8 +270,10 @@ class Local(BaseChecker):
                 and (
                     isinstance(node, nodes.BinOp)
                     and node.left.as_string() == node.right.as_string()
+                    and is_pure_expression(node.left)
                     or isinstance(node, nodes.AugAssign)
                     and node.target.as_string() == node.value.as_string()
+                    and is_pure_expression(node.value)
                 )
             )
             or (op == "**" and right in (0, 1))
-- 
2.43.0


From cc9535c6cdd9e61e178d10eb3bfd0e687896a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 71/97] fix: suggest augmented assignments only where they have
 the same effect

---
 edulint/linting/checkers/local_defects.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index ae7ad9d..3fa6890 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -286,14 +286,29 @@ class Local(BaseChecker):
             self.add_message(
                 "use-augmented-assign",
                 node=node,
-                args=(target, node.value.op, param.as_string()),
+                args=(target, node.value.op, bracketed_if_walrus(param)),
             )
 
+        def bracketed_if_walrus(param: nodes.NodeNG) -> str:
+            if isinstance(param, nodes.NamedExpr):
+                return f"({param.as_string()})"
+            return param.as_string()
+
+        def can_be_evaluated_later(param: nodes.NodeNG) -> bool:
+            if isinstance(bin_op.right, nodes.Name):
+                return not any(
+                    walrus.target.name == target
+                    for walrus in param.nodes_of_class(nodes.NamedExpr)
+                )
+            return is_pure_expression(param)
+
         if not isinstance(node.value, nodes.BinOp):
             return
         bin_op = node.value
 
         if isinstance(node, nodes.Assign):
+            if len(node.targets) > 1:
+                return
             target = node.targets[0].as_string()
         elif isinstance(node, nodes.AnnAssign):
             target = node.target.as_string()
@@ -310,6 +325,7 @@ class Local(BaseChecker):
             bin_op.op in "+*|&"
             and target == bin_op.right.as_string()
             and not result_type.any_container()
+            and can_be_evaluated_later(bin_op.left)
         ):
             add_message(target, bin_op.left)
 
-- 
2.43.0


From 7e2443b64a6ff0b60b48b11e2bfaf0a35b9adfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 72/97] fix: bracket the operand of is where the suggestion
 negates it

---
 edulint/linting/checkers/local_defects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3fa6890..0e6d2af 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -367,6 +367,11 @@ class Local(BaseChecker):
                 self.add_message("unreachable-else", node=node.orelse[0].orelse[0])
 
     def _check_no_is(self, node: nodes.Compare) -> None:
+        def bracketed(val: nodes.NodeNG) -> str:
+            if isinstance(val, (nodes.BoolOp, nodes.IfExp, nodes.Lambda, nodes.NamedExpr)):
+                return f"({val.as_string()})"
+            return val.as_string()
+
         for i, (op, val) in enumerate(node.ops):
             if (
                 op in ("is", "is not")
@@ -379,7 +384,7 @@ class Local(BaseChecker):
                     "no-is-bool",
                     node=node,
                     args=(
-                        f"{'not ' if negate else ''}{prev_val.as_string()}",
+                        f"not {bracketed(prev_val)}" if negate else prev_val.as_string(),
                         f"{prev_val.as_string()} {op} {val.as_string()}",
                     ),
                 )
-- 
2.43.0


From d84385edc07646897868db787557dede0b6a6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 73/97] fix: bracket and quote the suggestions to use ord

---
 edulint/linting/checkers/local_defects.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 0e6d2af..3dd4a18 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -427,13 +427,11 @@ class Local(BaseChecker):
             elif self._is_preffered(value - 1):
                 suggestion = f"ord('{chr(value - 1)}') + 1"
             elif not isinstance(ord_param, nodes.BinOp) or self._is_preffered(value):
-                suggestion = f"ord('{chr(value)}')"
+                suggestion = f"ord({chr(value)!r})"
             else:
                 continue
 
-            if (node.op == "-" and const_param == node.right and suggestion.endswith("+ 1")) or (
-                node.op == "+" and const_param == node.left and suggestion.endswith("- 1")
-            ):
+            if node.op == "-" and const_param == node.right and not suggestion.endswith(")"):
                 add_message(const_param, value, f"({suggestion})")
             else:
                 add_message(const_param, value, suggestion)
-- 
2.43.0


From 9cced62aee81a2c6fa80f6eaa91e7721c97297cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 74/97] fix: quote the suggested letters

---
 edulint/linting/checkers/local_defects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3dd4a18..7bcdb27 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -473,7 +473,7 @@ class Local(BaseChecker):
                     or not isinstance(other, nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"'{chr(value)}' {op}")
+                    add_message(param, value, f"{chr(value)!r} {op}")
             else:
                 if self._is_preffered(value + 1) and op in (">", "<="):
                     add_message(param, value, f"{change(op)} '{chr(value + 1)}'")
@@ -484,7 +484,7 @@ class Local(BaseChecker):
                     or not isinstance(all_ops[-2][1], nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"{op} '{chr(value)}'")
+                    add_message(param, value, f"{op} {chr(value)!r}")
 
     def _check_use_early_return(self, node: nodes.If):
         def ends_block(node: nodes.NodeNG) -> bool:
-- 
2.43.0


From 09f8e2d8976f3d873a1d895856975722314a36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 75/97] fix: suggest letters only for numbers that are compared
 with a call of ord

---
 edulint/linting/checkers/local_defects.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 7bcdb27..3d7c538 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -462,28 +462,23 @@ class Local(BaseChecker):
             if not isinstance(value, int) or not self._in_suggestable_range(value):
                 continue
 
+            if not contains_ord[1 if i == 0 else -2]:
+                continue
+
             if i == 0:
                 op, other = node.ops[0]
                 if self._is_preffered(value + 1) and op in ("<", ">="):
                     add_message(param, value, f"'{chr(value + 1)}' {change(op)}")
                 elif self._is_preffered(value - 1) and op in (">", "<="):
                     add_message(param, value, f"'{chr(value - 1)}' {change(op)}")
-                elif (
-                    not contains_ord[1]
-                    or not isinstance(other, nodes.BinOp)
-                    or self._is_preffered(value)
-                ):
+                elif not isinstance(other, nodes.BinOp) or self._is_preffered(value):
                     add_message(param, value, f"{chr(value)!r} {op}")
             else:
                 if self._is_preffered(value + 1) and op in (">", "<="):
                     add_message(param, value, f"{change(op)} '{chr(value + 1)}'")
                 elif self._is_preffered(value - 1) and op in ("<", ">="):
                     add_message(param, value, f"{change(op)} '{chr(value - 1)}'")
-                elif (
-                    not contains_ord[-2]
-                    or not isinstance(all_ops[-2][1], nodes.BinOp)
-                    or self._is_preffered(value)
-                ):
+                elif not isinstance(all_ops[-2][1], nodes.BinOp) or self._is_preffered(value):
                     add_message(param, value, f"{op} {chr(value)!r}")
 
     def _check_use_early_return(self, node: nodes.If):
-- 
2.43.0


From a7afc0c7533badfa7046c5a2d1e905b7b20a4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 76/97] fix: do not compute the range values of what is not an
 integer

---
 edulint/linting/checkers/local_defects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3d7c538..adf36ff 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -551,12 +551,21 @@ class Local(BaseChecker):
                 return var, const
 
             if isinstance(node, nodes.BinOp) and (node.op == "+" or node.op == "-"):
-                if is_var(node.left) and isinstance(node.right, nodes.Const):
+                if (
+                    is_var(node.left)
+                    and isinstance(node.right, nodes.Const)
+                    and is_integer(node.right.value)
+                ):
                     var = node.left.as_string()
                     const = node.right.value if node.op == "+" else -node.right.value
                     return var, const
 
-                if is_var(node.right) and isinstance(node.left, nodes.Const) and node.op == "+":
+                if (
+                    is_var(node.right)
+                    and isinstance(node.left, nodes.Const)
+                    and is_integer(node.left.value)
+                    and node.op == "+"
+                ):
                     var = node.right.as_string()
                     const = node.left.value
                     return var, const
-- 
2.43.0


From dfced77616889feb539b701a098099232a5cee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 77/97] fix: do not suggest evaluating an expression with
 effects other than once

---
 edulint/linting/checkers/local_defects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index adf36ff..f350819 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -621,6 +621,7 @@ class Local(BaseChecker):
             len(node.ops) != 1
             or (node.ops[0][0] != "in" and node.ops[0][0] != "not in")
             or not is_var(node.left)
+            or not is_pure_expression(node.left)
             or not takes_only_int_values(node.left)
         ):
             return
-- 
2.43.0


From 1b5ba0d76684dfcfd95af99ae7f76572e44f812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 78/97] fix: bracket the bounds in suggested comparisons

---
 edulint/linting/checkers/local_defects.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index f350819..0f14393 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -539,7 +539,15 @@ class Local(BaseChecker):
             return guessed_type is not None and guessed_type.has_only(Type.INT)
 
         def add_brackets_if_necessary(node: nodes.NodeNG) -> str:
-            if isinstance(node, (nodes.BinOp, nodes.UnaryOp)):
+            if isinstance(node, (nodes.BinOp, nodes.UnaryOp, nodes.Compare, nodes.BoolOp)):
+                return f"({node.as_string()})"
+
+            return node.as_string()
+
+        def compare_operand(node: nodes.NodeNG) -> str:
+            if isinstance(node, (nodes.Compare, nodes.BoolOp)) or (
+                isinstance(node, nodes.UnaryOp) and node.op == "not"
+            ):
                 return f"({node.as_string()})"
 
             return node.as_string()
@@ -668,8 +676,8 @@ class Local(BaseChecker):
 
         left_compare = "<="
         right_compare = "<"
-        left = start.as_string()
-        right = stop.as_string()
+        left = compare_operand(start)
+        right = compare_operand(stop)
 
         if step_val < 0:
             left_compare, right_compare, left, right = right_compare, left_compare, right, left
-- 
2.43.0


From 8e08dc63bf68ee73792939afa541b2a194841fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 79/97] fix: do not take a condition that has effects for the
 negation of another

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 0f14393..cab848c 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -357,7 +357,7 @@ class Local(BaseChecker):
         else:
             return
 
-        if is_negation(if_test, next_if.test, negated_rt=False):
+        if is_negation(if_test, next_if.test, negated_rt=False) and is_pure_expression(if_test):
             self.add_message("redundant-elif", node=next_if)
             if (
                 node.has_elif_block()
-- 
2.43.0


From a102adbe77a59c3df4796b8d2c91f0c19f2d1187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 80/97] fix: suggest tighter boundaries only where the first
 iteration does not end the loop

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 495c925..59511af 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -322,7 +322,7 @@ class UnsuitedLoop(BaseChecker):
                 and len(if_.body) == 1
                 and type(if_.body[-1]) in (nodes.Break, nodes.Continue)
             ):
-                if compares_to_start(test, var, start):
+                if compares_to_start(test, var, start) and isinstance(if_.body[-1], nodes.Continue):
                     self.add_message("use-tighter-boundaries", node=node, args=("first",))
                 elif compares_to_last_before_end(test, var, stop, step):
                     self.add_message("use-tighter-boundaries", node=node, args=("last",))
-- 
2.43.0


From 15a46e5b458de8bdd75de7769d52147fb5d53048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 81/97] fix: suggest a for loop only if evaluating its bound
 once is the same

---
 edulint/linting/checkers/unsuited_loop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 59511af..20ded75 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -12,6 +12,7 @@ from edulint.linting.analyses.utils import (
     get_range_params,
     get_const_value,
     is_builtin,
+    is_pure_expression,
     requires_data_dependency_analysis,
     is_in_try_block,
     contains_node_of_type_or_exit,
@@ -225,7 +226,8 @@ class UnsuitedLoop(BaseChecker):
             return
 
         if (
-            var_can_be_from_range(only_var, test)
+            is_pure_expression(test)
+            and var_can_be_from_range(only_var, test)
             and changes_towards_limit(test, only_var, change)
             and not modification_after_modification(events)
             and not any(event_in_loop(node, e) for e in events)
-- 
2.43.0


From 7589060d8ed2d178c6c74ddea67d799e3f1b6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:54 +0000
Subject: [PATCH 82/97] fix: suggest direct iteration only if the index is not
 used after the loop

---
 edulint/linting/checkers/unsuited_loop.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 20ded75..798a888 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -439,6 +439,13 @@ class UnsuitedLoop(BaseChecker):
                 for e in structure_events
             )
 
+        def is_index_used_after() -> bool:
+            return any(
+                all(stmt not in use.node.node_ancestors() for stmt in node.body)
+                for definition in get_events_for([index_var], [node.target])
+                for use in definition.uses
+            )
+
         def is_structure_directly_modified(structure_events: List[VarEvent]) -> bool:
             return any(
                 (
@@ -509,7 +516,9 @@ class UnsuitedLoop(BaseChecker):
         ):
             return
 
-        if is_index_used_outside_subscript(events_by_var[index_var], structure):
+        if is_index_used_outside_subscript(
+            events_by_var[index_var], structure
+        ) or is_index_used_after():
             self.add_message("use-enumerate", args=(index_var.name, structure_var.name), node=node)
         else:
             self.add_message("use-foreach", args=structure_var.name, node=node)
-- 
2.43.0


From 7d8191330934f6595c59366cf4cea845f8d32a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 83/97] fix: do not take subtracting a variable from a number
 for a decrement

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 798a888..d780695 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -127,7 +127,7 @@ class UnsuitedLoop(BaseChecker):
                     op = binop.op
                     if binop.left.as_string() == node.as_string():
                         const = get_const_value(binop.right)
-                    if binop.right.as_string() == node.as_string():
+                    if op == "+" and binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
             if const is None:
                 return None
-- 
2.43.0


From de9eac5137a7c0c3274a7ffe8296e6da7aa9cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 84/97] fix: suggest tighter boundaries only where the
 iteration that does nothing is the last

---
 edulint/linting/checkers/unsuited_loop.py | 25 ++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index d780695..81c22b8 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -26,6 +26,7 @@ from edulint.linting.analyses.data_dependency import (
     get_events_for,
     get_events_by_var,
     filter_events_for,
+    modified_in,
 )
 from edulint.linting.analyses.mutability import vars_from_node_may_be_modified_in
 from edulint.linting.analyses.z3_block_analysis import (
@@ -262,6 +263,7 @@ class UnsuitedLoop(BaseChecker):
         ):
             self._check_infinite_loop(node)
 
+    @requires_data_dependency_analysis()
     def _check_use_tighter_bounds(self, node: nodes.For) -> None:
         def compares_equality(node: nodes.NodeNG) -> bool:
             return isinstance(node, nodes.Compare) and len(node.ops) == 1 and node.ops[0][0] == "=="
@@ -297,6 +299,21 @@ class UnsuitedLoop(BaseChecker):
                 is_last_before_end(left, stop, step) and right.as_string() == var
             )
 
+        def reaches_last_before_end(
+            start: nodes.NodeNG, stop: nodes.NodeNG, step: nodes.NodeNG
+        ) -> bool:
+            const_start, const_stop, const_step = map(get_const_value, (start, stop, step))
+            if const_step in (1, -1):
+                return True
+            return (
+                all(isinstance(const, int) for const in (const_start, const_stop, const_step))
+                and const_step != 0
+                and (const_stop - const_start) % const_step == 0
+            )
+
+        def is_compared_to_changing(test: nodes.Compare, var: str) -> bool:
+            return modified_in([v for v in vars_in(test) if v.name != var], node.body)
+
         def relevant_nodes(body: List[nodes.NodeNG]) -> Iterator[nodes.If]:
             first = body[0]
             if isinstance(first, nodes.If):
@@ -323,10 +340,16 @@ class UnsuitedLoop(BaseChecker):
                 compares_equality(test)
                 and len(if_.body) == 1
                 and type(if_.body[-1]) in (nodes.Break, nodes.Continue)
+                and is_pure_expression(test)
+                and not is_compared_to_changing(test, var)
             ):
                 if compares_to_start(test, var, start) and isinstance(if_.body[-1], nodes.Continue):
                     self.add_message("use-tighter-boundaries", node=node, args=("first",))
-                elif compares_to_last_before_end(test, var, stop, step):
+                elif (
+                    compares_to_last_before_end(test, var, stop, step)
+                    and reaches_last_before_end(start, stop, step)
+                    and (not node.orelse or isinstance(if_.body[-1], nodes.Continue))
+                ):
                     self.add_message("use-tighter-boundaries", node=node, args=("last",))
             # TODO expand, tips: len(node.body) == 1, isinstance(if_.body[-1], nodes.Return), allow nodes in the middle,
             #                    allow longer bodies
-- 
2.43.0


From a617dff037dbe44230c14d69feb2613de2d65e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 85/97] fix: keep definitions from before a for loop that may
 make no iterations

---
 edulint/linting/analyses/data_dependency.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 4df73a2..42c4841 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -303,6 +303,18 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
             all_parent_kills.append(result)
 
+    def leaves_for_loop(block, edge):
+        """
+        Returns true iff the edge leads out of a for loop, and so is also taken when nothing
+        (else) was assigned to the target of the loop.
+        """
+        loc_node = block.locs[-1].node
+        return (
+            isinstance(loc_node.parent, nodes.For)
+            and loc_node == loc_node.parent.target
+            and edge != block.successors[0]
+        )
+
     def fixpoint(
         original_gens_kills, computed_kills, all_parent_kills, blocks, init_occupied_blocks
     ):
@@ -319,12 +331,16 @@ def collect_reaching_definitions(  # blocks fun gen kills
                     computed_kill[var_i] = val
                     updated.append((var_i, val))
 
+            skipped = [
+                (var_i, val) for var_i, val in parent_kills.items() if len(original_kill[var_i]) > 0
+            ]
+
             for edge in block.successors:
                 if len(edge.target.locs) == 0:
                     continue
                 j = blocks[edge.target]
                 child_kills = all_parent_kills[init_occupied_blocks + j]
-                for var_i, val in updated:
+                for var_i, val in updated + (skipped if leaves_for_loop(block, edge) else []):
                     if val & child_kills[var_i] != val:
                         child_kills[var_i] |= val
                         if (j, edge.target) not in to_process:
-- 
2.43.0


From c9fbbc281cc8a7bdaebd53b7f2399da86ae317f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 86/97] fix: notice that loops and deletions modify what they
 subscript

---
 edulint/linting/analyses/variable_scope.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index f78bfc4..fc1a0d3 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -346,8 +346,21 @@ class VarEventListener(BaseVisitor[None]):
             )
         return self.visit_many(node.get_children())
 
+    def _add_subscript_modifications(self, targets: List[nodes.NodeNG]) -> None:
+        for target in self._names_from_tuple(targets):
+            stripped = strip_to_name(target)
+            if isinstance(target, nodes.Subscript) and stripped is not None:
+                self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+
     def visit_for(self, node: nodes.For):
-        return self.visit_many(node.get_children())
+        self.visit_many(node.get_children())
+        self._add_subscript_modifications([node.target])
+        return self.default
+
+    def visit_delete(self, node: nodes.Delete):
+        self.visit_many(node.get_children())
+        self._add_subscript_modifications(node.targets)
+        return self.default
 
     def visit_name(self, node: nodes.Name) -> None:
         self._add_var_event(node.name, node, VarEventType.READ)
-- 
2.43.0


From 0968271586ab9b50e32bacd1a5ae3a30e3d00013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 87/97] fix: do not suggest iterating a structure whose
 subscript changes in the loop

---
 edulint/linting/checkers/unsuited_loop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 81c22b8..aa83a96 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -534,6 +534,7 @@ class UnsuitedLoop(BaseChecker):
             or not is_structure_indexed_just_by(index_var, indexing_events)
             or not is_index_used_just_for(structure, events_by_var[index_var])
             or is_index_modified(events_by_var[index_var])
+            or modified_in([v for v in vars_in(structure) if v != structure_var], node.body)
             or is_structure_directly_modified(events_by_var[structure_var])
             or is_structure_assigned_into(events_by_var[structure_var])
         ):
-- 
2.43.0


From beaed8117eedc2353e386e1cb7d945cbe4b5b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 88/97] fix: do not suggest a loop condition that does not
 always end the loop

---
 edulint/linting/checkers/unsuited_loop.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index aa83a96..0b55edb 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -106,7 +106,17 @@ class UnsuitedLoop(BaseChecker):
             return
 
         first = node.body[0]
-        if isinstance(first, nodes.If) and isinstance(first.body[-1], nodes.Break):
+        if (
+            isinstance(first, nodes.If)
+            and isinstance(first.body[-1], nodes.Break)
+            and not any(
+                continue_
+                for stmt in first.body
+                for continue_ in stmt.nodes_of_class(
+                    nodes.Continue, skip_klass=(nodes.For, nodes.While)
+                )
+            )
+        ):
             self.add_message("no-while-true", node=node, args=(first.test.as_string(),))
 
     @requires_data_dependency_analysis()
-- 
2.43.0


From 16b22842894f53663cfddd4e4828dfea73671ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:50 +0000
Subject: [PATCH 89/97] fix: notice that a loop with else need not change its
 control variable

---
 edulint/linting/checkers/unsuited_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 0b55edb..96ec647 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -177,6 +177,10 @@ class UnsuitedLoop(BaseChecker):
                 if (
                     loc is None
                     or node not in loc.node.node_ancestors()
+                    or any(
+                        stmt == loc.node or stmt in loc.node.node_ancestors()
+                        for stmt in node.orelse
+                    )
                     or (
                         isinstance(loc.node, (nodes.Break, nodes.Return))
                         and any(
-- 
2.43.0


From 5a759cb7d3b838d5ef4fdc22206dc98a024dfda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 90/97] fix: tell leaving the loop from leaving an inner one
 when an iterated structure is modified

---
 edulint/linting/checkers/unsuited_loop.py | 36 +++++++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 96ec647..8a14a01 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -382,6 +382,19 @@ class UnsuitedLoop(BaseChecker):
             node = node.next_sibling()
         return node
 
+    @staticmethod
+    def _leaves_loop_right_after(node: nodes.NodeNG, loop: nodes.For) -> bool:
+        last = UnsuitedLoop._get_last_block_line(node)
+        if isinstance(last, nodes.Return):
+            return True
+        if not isinstance(last, nodes.Break):
+            return False
+
+        parent = last.parent
+        while not isinstance(parent, (nodes.For, nodes.While)):
+            parent = parent.parent
+        return parent == loop
+
     @requires_data_dependency_analysis()
     def _check_modifying_iterable(self, node: nodes.For) -> None:
         iterated = node.iter
@@ -402,9 +415,7 @@ class UnsuitedLoop(BaseChecker):
             if (
                 event.type == VarEventType.MODIFY
                 and event.is_direct_modify()
-                and not isinstance(
-                    self._get_last_block_line(event.node), (nodes.Break, nodes.Return)
-                )
+                and not self._leaves_loop_right_after(event.node, node)
             ):
                 self.add_message(
                     "modifying-iterated-structure", node=event.node.parent, args=iterated_var.name
@@ -483,13 +494,26 @@ class UnsuitedLoop(BaseChecker):
                 for use in definition.uses
             )
 
-        def is_structure_directly_modified(structure_events: List[VarEvent]) -> bool:
+        def is_indexed_after(event: VarEvent, indexing_events: List[VarEvent]) -> bool:
+            later = self._get_block_line(event.node).next_sibling()
+            while later is not None:
+                if any(later in e.node.node_ancestors() for e in indexing_events):
+                    return True
+                later = later.next_sibling()
+            return False
+
+        def is_structure_directly_modified(
+            structure_events: List[VarEvent], indexing_events: List[VarEvent]
+        ) -> bool:
             return any(
                 (
                     (e.type == VarEventType.MODIFY and e.is_direct_modify())
                     or (e.type not in (VarEventType.READ, VarEventType.MODIFY))
                 )
-                and not isinstance(self._get_last_block_line(e.node), (nodes.Break, nodes.Return))
+                and (
+                    not self._leaves_loop_right_after(e.node, node)
+                    or is_indexed_after(e, indexing_events)
+                )
                 for e in structure_events
             )
 
@@ -549,7 +573,7 @@ class UnsuitedLoop(BaseChecker):
             or not is_index_used_just_for(structure, events_by_var[index_var])
             or is_index_modified(events_by_var[index_var])
             or modified_in([v for v in vars_in(structure) if v != structure_var], node.body)
-            or is_structure_directly_modified(events_by_var[structure_var])
+            or is_structure_directly_modified(events_by_var[structure_var], indexing_events)
             or is_structure_assigned_into(events_by_var[structure_var])
         ):
             return
-- 
2.43.0


From e671275bfefb6b5759d359e548944180680ca159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 91/97] fix: take an assignment of an attribute for an event of
 that attribute

---
 edulint/linting/analyses/data_dependency.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 42c4841..494a249 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -519,10 +519,13 @@ def _get_matching_superpart(var_node: nodes.NodeNG, super_node: nodes.NodeNG):
         stripped = stripped.parent
         var_node = var_node.parent
 
-        if not isinstance(var_node, type(stripped)):
+        attributes = (nodes.Attribute, nodes.AssignAttr, nodes.DelAttr)
+        if not isinstance(var_node, type(stripped)) and not (
+            isinstance(var_node, attributes) and isinstance(stripped, attributes)
+        ):
             return None
 
-        if isinstance(stripped, (nodes.Attribute, nodes.AssignAttr, nodes.DelAttr)):
+        if isinstance(stripped, attributes):
             if stripped.attrname != var_node.attrname:
                 return None
 
-- 
2.43.0


From 226d6be0bae30d12280a8dae3d1daf3c045789e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:51 +0000
Subject: [PATCH 92/97] fix: compare the variables of an index alone, not of
 its whole statement

---
 edulint/linting/analyses/data_dependency.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 494a249..ad3fcca 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -513,6 +513,15 @@ def name_to_var(name: str, node: nodes.NodeNG) -> Optional[Variable]:
     return None
 
 
+def _get_events_in_slice(slice_: nodes.NodeNG) -> Dict[Variable, List[VarEvent]]:
+    result = {}
+    for var, events in get_events_by_var(list(vars_in(slice_).keys()), [slice_]).items():
+        in_slice = [e for e in events if e.node == slice_ or slice_ in e.node.node_ancestors()]
+        if in_slice:
+            result[var] = in_slice
+    return result
+
+
 def _get_matching_superpart(var_node: nodes.NodeNG, super_node: nodes.NodeNG):
     stripped = strip_to_name(super_node)
     while stripped != super_node:
@@ -530,11 +539,9 @@ def _get_matching_superpart(var_node: nodes.NodeNG, super_node: nodes.NodeNG):
                 return None
 
         elif isinstance(stripped, nodes.Subscript):
-            stripped_vars = set(vars_in(stripped.slice).keys())
-            node_vars = set(vars_in(var_node.slice).keys())
-            stripped_events = get_events_by_var(stripped_vars, [stripped.slice])
-            node_events = get_events_by_var(node_vars, [var_node.slice])
-            if list(stripped_events.keys()) != list(node_events.keys()):
+            stripped_events = _get_events_in_slice(stripped.slice)
+            node_events = _get_events_in_slice(var_node.slice)
+            if stripped_events.keys() != node_events.keys():
                 return None
 
             for var in stripped_events.keys():
-- 
2.43.0


From 9a72e5316aadf70b8a20528d2371b7e819a37004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 93/97] fix: keep a variable in its scope where it may be
 deleted

---
 edulint/linting/analyses/variable_scope.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index fc1a0d3..0c51d02 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -154,12 +154,8 @@ class VarEventListener(BaseVisitor[None]):
         )
 
     def _del_var_from_scope(self, name: VarName, node: nodes.NodeNG):
+        # the variable stays one of its scope, it may not be deleted on every path
         self._add_var_event(name, node, VarEventType.DELETE)
-        scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
-            return
-
-        self.stack[scope_index].pop(name)
 
     def statements_before_definitions(
         self, node: Union[nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef]
-- 
2.43.0


From f367c6574a6bdc8415b93e6519a9fed6c5087481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 94/97] fix: take a method passed to a function for no call of
 that method

---
 edulint/linting/analyses/var_events.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/var_events.py b/edulint/linting/analyses/var_events.py
index 8e3fd1b..d26d882 100644
--- a/edulint/linting/analyses/var_events.py
+++ b/edulint/linting/analyses/var_events.py
@@ -69,8 +69,10 @@ class VarEvent:
     def is_direct_modify(self):
         """Checks if method is called on the var, e.g., append, insert"""
         assert self.type == VarEventType.MODIFY
-        return isinstance(self.node.parent, nodes.Attribute) and isinstance(
-            self.node.parent.parent, nodes.Call
+        return (
+            isinstance(self.node.parent, nodes.Attribute)
+            and isinstance(self.node.parent.parent, nodes.Call)
+            and self.node.parent == self.node.parent.parent.func
         )
 
 
-- 
2.43.0


From 7d2335a67848384e5150164b14d4c259fcce880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 95/97] fix: do not take a structure assigned in a loop for the
 iterated one

---
 edulint/linting/checkers/unsuited_loop.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 8a14a01..e9203f8 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -395,6 +395,23 @@ class UnsuitedLoop(BaseChecker):
             parent = parent.parent
         return parent == loop
 
+    @staticmethod
+    def _may_keep_value_from_before(event: VarEvent, loop: nodes.For) -> bool:
+        """
+        Returns false iff the variable was always assigned to in the loop's body before the event.
+        """
+        visited = [event]
+        for current in visited:
+            if len(current.definitions) == 0:
+                return True
+
+            for definition in current.definitions:
+                if loop not in definition.node.node_ancestors():
+                    return True
+                if definition.type == VarEventType.MODIFY and definition not in visited:
+                    visited.append(definition)
+        return False
+
     @requires_data_dependency_analysis()
     def _check_modifying_iterable(self, node: nodes.For) -> None:
         iterated = node.iter
@@ -415,6 +432,7 @@ class UnsuitedLoop(BaseChecker):
             if (
                 event.type == VarEventType.MODIFY
                 and event.is_direct_modify()
+                and self._may_keep_value_from_before(event, node)
                 and not self._leaves_loop_right_after(event.node, node)
             ):
                 self.add_message(
-- 
2.43.0


From 1a56af24f27bb6095851881edef704172d537fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:28 +0000
Subject: [PATCH 96/97] fix: lead the control flow through exception handlers
 and finally branches

---
 edulint/linting/analyses/cfg/visitor.py | 139 +++++++++++++++---------
 1 file changed, 90 insertions(+), 49 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 2a0aa2b..9ec622a 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -6,6 +6,8 @@ from astroid import nodes
 
 from edulint.linting.analyses.cfg.graph import CFGBlock, ControlFlowGraph
 
+_FINALLY = "Finally"
+
 
 class CFGVisitor:
     """An astroid visitor that creates a control flow graph for a given Python module.
@@ -34,6 +36,7 @@ class CFGVisitor:
     _current_cfg: Optional[ControlFlowGraph]
     _current_block: Optional[CFGBlock]
     _control_boundaries: List[Tuple[nodes.NodeNG, Dict[str, CFGBlock]]]
+    _jumps_through_finally: Dict[nodes.NodeNG, List[nodes.NodeNG]]
 
     def __init__(self, options: Optional[Dict[str, Any]] = None) -> None:
         super().__init__()
@@ -48,6 +51,7 @@ class CFGVisitor:
         self._current_cfg = None
         self._current_block = None
         self._control_boundaries = []
+        self._jumps_through_finally = {}
 
     def __getattr__(self, attr: str):
         if attr.startswith("visit_"):
@@ -317,19 +321,30 @@ class CFGVisitor:
 
         old_curr = self._current_block
         old_curr.add_statement(node)
+        target = self._get_jump_target(node)
+        if target is not None:
+            self._current_cfg.link(old_curr, target)
+        unreachable_block = self._current_cfg.create_block()
+        self._current_block = unreachable_block
+
+    def _get_jump_target(
+        self, node: Union[nodes.Break, nodes.Continue, nodes.Return, nodes.Raise]
+    ) -> Optional[CFGBlock]:
         for boundary, exits in reversed(self._control_boundaries):
             if isinstance(node, nodes.Raise):
                 exc_name = _get_raise_exc(node)
 
                 if exc_name in exits:
-                    self._current_cfg.link(old_curr, exits[exc_name])
-                    break
+                    return exits[exc_name]
 
             if type(node).__name__ in exits:
-                self._current_cfg.link(old_curr, exits[type(node).__name__])
-                break
-        unreachable_block = self._current_cfg.create_block()
-        self._current_block = unreachable_block
+                return exits[type(node).__name__]
+
+            if _FINALLY in exits:
+                # the jump continues when the finally branch ends
+                self._jumps_through_finally[boundary].append(node)
+                return exits[_FINALLY]
+        return None
 
     def visit_try(self, node: nodes.Try) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
@@ -339,62 +354,56 @@ class CFGVisitor:
         if self._current_block.locs != []:
             self._current_block = self._current_cfg.create_block(self._current_block)
         node_block = self._current_block
+        blocks_before = [edge.source for edge in node_block.predecessors]
 
-        # Construct the exception handlers first
-        # Initialize a temporary block to later merge with end_body
-        self._current_block = self._current_cfg.create_block()
-        temp = self._current_block
         finally_block = self._current_cfg.create_block()
         end_block = self._current_cfg.create_block()
-        # Case where Raise is not handled in the try block
-        self._control_boundaries.append((node, {nodes.Raise.__name__: end_block}))
-        cbs_added = 1
-
-        after_body = []
-        # Construct blocks in reverse to give precedence to the first block in overlapping except
-        # branches
-        for handler in reversed(node.handlers):
-            h = self._current_cfg.create_block()
-            self._current_block = h
+        first_own_id = self._current_cfg.block_count
 
-            exceptions = _extract_exceptions(handler)
-            # Edge case: catch-all except clause (i.e. except: ...)
-            if exceptions == []:
-                self._control_boundaries.append((node, {nodes.Raise.__name__: h}))
-                cbs_added += 1
+        if len(node.finalbody) > 0:
+            self._jumps_through_finally[node] = []
+            self._control_boundaries.append((node, {_FINALLY: finally_block}))
 
-            # General case: specific except clause
-            for exception in exceptions:
-                self._control_boundaries.append((node, {f"{nodes.Raise.__name__} {exception}": h}))
-                cbs_added += 1
+        # Construct the exception handlers first, the try body needs to know where they start
+        branch_ends = []
+        handler_blocks = []
+        for handler in node.handlers:
+            h = self._current_cfg.create_block()
+            self._current_block = h
 
             if handler.name is not None:  # The name assigned to the caught exception.
                 handler.name.accept(self)
             for child in handler.body:
                 child.accept(self)
-            end_handler = self._current_block
-
-            if len(h.locs) == 0:
-                # h was overtaken by link_or_merge
-                assert len(handler.body) > 0
-                handler.body[0].cfg_loc.block.add_CF_statement(handler)
-            else:
-                h.add_CF_statement(handler)
 
-            self._current_cfg.link_or_merge(end_handler, finally_block)
-            after_body.append(h)
+            # h may have been overtaken by link_or_merge
+            first = handler.body[0] if handler.name is None else handler.name
+            handler_block = first.cfg_loc.block
+            handler_block.add_CF_statement(handler)
+            handler_blocks.append(handler_block)
+            branch_ends.append((h, self._current_block))
 
-        if node.orelse == []:
-            after_body.append(finally_block)
-        else:
-            self._current_block = self._current_cfg.create_block()
-            after_body.append(self._current_block)
+        if len(node.orelse) > 0:
+            orelse_block = self._current_cfg.create_block()
+            self._current_block = orelse_block
             for child in node.orelse:
                 child.accept(self)
-            self._current_cfg.link_or_merge(self._current_block, finally_block)
+            branch_ends.append((orelse_block, self._current_block))
+            after_body = node.orelse[0].cfg_loc.block
+        else:
+            after_body = finally_block
+
+        # In reverse to give precedence to the first block in overlapping except branches
+        for handler, handler_block in reversed(list(zip(node.handlers, handler_blocks))):
+            # no exceptions is an edge case: catch-all except clause (i.e. except: ...)
+            exits = [f"{nodes.Raise.__name__} {exc}" for exc in _extract_exceptions(handler)]
+            self._control_boundaries.append(
+                (node, {exit: handler_block for exit in exits or [nodes.Raise.__name__]})
+            )
 
         # Construct the try body so reset current block to this node's block
         self._current_block = node_block
+        first_body_id = self._current_cfg.block_count
 
         for child in node.body:
             child.accept(self)
@@ -405,16 +414,48 @@ class CFGVisitor:
         node.body[0].cfg_loc.block.add_CF_statement(node)
 
         # Remove each control boundary that we added in this method
-        for _ in range(cbs_added):
+        for _ in range(len(node.handlers) + (1 if len(node.finalbody) > 0 else 0)):
             self._control_boundaries.pop()
 
-        self._current_cfg.link_or_merge(temp, end_body)
-        self._current_cfg.multiple_link_or_merge(end_body, after_body)
+        if len(node.orelse) == 0:
+            branch_ends.append((node_block, end_body))
+        ends_normally = any(
+            end is start or len(end.predecessors) > 0 for start, end in branch_ends
+        )
+
+        # An exception may be raised by any statement
+        own_blocks = [node_block] + sorted(
+            (b for b in self._current_cfg.unreachable_blocks if b.id >= first_own_id),
+            key=lambda b: b.id,
+        )
+        raising_blocks = [b for b in own_blocks if len(b.locs) > 0]
+
+        if len(node.orelse) > 0:
+            self._current_cfg.link_or_merge(end_body, after_body)
+        for _start, end in branch_ends:
+            self._current_cfg.link_or_merge(end, finally_block)
+
+        for source in [*blocks_before, *raising_blocks]:
+            targets = []
+            if source not in own_blocks or source is node_block or source.id >= first_body_id:
+                targets.extend(handler_blocks)
+            if len(node.finalbody) > 0:
+                targets.append(finally_block)
+            for target in targets:
+                if all(edge.target is not target for edge in source.successors):
+                    self._current_cfg.link(source, target)
 
         self._current_block = finally_block
         for child in node.finalbody:
             child.accept(self)
-        self._current_cfg.link_or_merge(self._current_block, end_block)
+
+        after_finally = [end_block] if ends_normally or len(node.finalbody) == 0 else []
+        for jump in self._jumps_through_finally.pop(node, []):
+            target = self._get_jump_target(jump)
+            if target is not None and target not in after_finally:
+                after_finally.append(target)
+        self._current_cfg.multiple_link_or_merge(self._current_block, after_finally)
+
         self._current_block = end_block
 
     def visit_trystar(self, node: nodes.TryStar) -> None:
-- 
2.43.0


From 0bd4bfcdb69022437ba27492b67042db222ea7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 97/97] fix: keep the line ends version_checker.py had

---
 edulint/versions/version_checker.py | 268 ++++++++++++++--------------
 1 file changed, 134 insertions(+), 134 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1322344..759e088 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,134 +1,134 @@
-from typing import Any, Dict, Optional, Tuple
-import os
-import json
-import tempfile
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-from edulint.versions.utils import Version
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _load_package_infos(cls) -> Dict[str, Any]:
-        try:
-            with open(cls._package_info_path(), "r", encoding="utf8") as f:
-                data = json.load(f)
-        except ValueError:  # not a whole JSON document, the write may have been interrupted
-            return {}
-        return data if isinstance(data, dict) else {}
-
-    @classmethod
-    def _save_package_infos(cls, data: Dict[str, Any]) -> None:
-        filepath = cls._package_info_path()
-        fd, temp_path = tempfile.mkstemp(dir=os.path.dirname(filepath))
-        try:
-            with open(fd, "w", encoding="utf8") as f:
-                json.dump(data, f, indent=4)
-            os.replace(temp_path, filepath)
-        except BaseException:
-            os.unlink(temp_path)
-            raise
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        data = cls._load_package_infos()
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version is not None:
-            package_info.version = version or None  # empty if there is no version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        cls._save_package_infos(data)  # I'm aware there is possible race condition between read write. Risk accepted.
-
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        return PackageInfo.from_dict(cls._load_package_infos().get(package_name, {}))
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            latest_version_str = str(max(versions)) if len(versions) > 0 else ""
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str or None
-        except Exception as _:
-            return None
-
-    @classmethod
-    def get_waiting_update(cls, package_name: str, ttl = 600) -> Optional[str]:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return None
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        if latest_version is None:  # unable to determine the latest version
-            return None
-
-        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
-        return latest_version if local is not None and latest is not None and local < latest else None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        return cls.get_waiting_update(package_name, ttl) is not None
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Any, Dict, Optional, Tuple
+import os
+import json
+import tempfile
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+from edulint.versions.utils import Version
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _load_package_infos(cls) -> Dict[str, Any]:
+        try:
+            with open(cls._package_info_path(), "r", encoding="utf8") as f:
+                data = json.load(f)
+        except ValueError:  # not a whole JSON document, the write may have been interrupted
+            return {}
+        return data if isinstance(data, dict) else {}
+
+    @classmethod
+    def _save_package_infos(cls, data: Dict[str, Any]) -> None:
+        filepath = cls._package_info_path()
+        fd, temp_path = tempfile.mkstemp(dir=os.path.dirname(filepath))
+        try:
+            with open(fd, "w", encoding="utf8") as f:
+                json.dump(data, f, indent=4)
+            os.replace(temp_path, filepath)
+        except BaseException:
+            os.unlink(temp_path)
+            raise
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_package_infos()
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version is not None:
+            package_info.version = version or None  # empty if there is no version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        cls._save_package_infos(data)  # I'm aware there is possible race condition between read write. Risk accepted.
+
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        return PackageInfo.from_dict(cls._load_package_infos().get(package_name, {}))
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            latest_version_str = str(max(versions)) if len(versions) > 0 else ""
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str or None
+        except Exception as _:
+            return None
+
+    @classmethod
+    def get_waiting_update(cls, package_name: str, ttl = 600) -> Optional[str]:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return None
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        if latest_version is None:  # unable to determine the latest version
+            return None
+
+        local, latest = Version.parse(local_package_version), Version.parse(latest_version)
+        return latest_version if local is not None and latest is not None and local < latest else None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        return cls.get_waiting_update(package_name, ttl) is not None
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0

