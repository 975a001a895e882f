From a032923f813095cac1647b2cb4d884d99a3ba27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:05 +0000
Subject: [PATCH 01/20] fix: create_dir fails when another run creates the
 directory at the same time

---
 ocelot/filesystem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..73ab10b 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -37,8 +37,7 @@ def safe_filename(string):
 
 def create_dir(dirpath):
     """Create directory tree to `dirpath`; ignore if already exists"""
-    if not os.path.isdir(dirpath):
-        os.makedirs(dirpath)
+    os.makedirs(dirpath, exist_ok=True)
     return dirpath
 
 
-- 
2.43.0


From 0fa54d12bf719fb5383689c82cf06c8df96e391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:05 +0000
Subject: [PATCH 02/20] fix: a run stopped while writing the cache leaves a
 damaged cache behind

---
 ocelot/filesystem.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 73ab10b..7866d6e 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -114,9 +114,21 @@ def get_from_cache(data_path):
 
 
 def cache_data(data, data_path):
-    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
-    with open(get_cache_filepath_for_data_path(data_path), "wb") as f:
-        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
+
+    The cache file only appears under its name once it is complete on disk."""
+    cache_fp = get_cache_filepath_for_data_path(data_path)
+    temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
+    try:
+        with open(temp_fp, "wb") as f:
+            pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temp_fp, cache_fp)
+    except BaseException:
+        if os.path.exists(temp_fp):
+            os.remove(temp_fp)
+        raise
 
 
 class OutputDir(object):
-- 
2.43.0


From d98fcb21637d493a8ad8b599475882580c022ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 03/20] fix: source files changed during extraction leave a
 stale cache that looks fresh

---
 ocelot/filesystem.py  | 8 +++++++-
 ocelot/io/__init__.py | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 7866d6e..57dcbdb 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -5,6 +5,7 @@ import hashlib
 import os
 import pickle
 import re
+import time
 import unicodedata
 import uuid
 
@@ -113,10 +114,14 @@ def get_from_cache(data_path):
     return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
 
 
-def cache_data(data, data_path):
+def cache_data(data, data_path, extracted=None):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
 
+    ``extracted`` is the time when the extraction of ``data`` started. The cache is dated two seconds before it, so that source files changed during extraction invalidate the cache even if file times are coarse.
+
     The cache file only appears under its name once it is complete on disk."""
+    if extracted is None:
+        extracted = time.time()
     cache_fp = get_cache_filepath_for_data_path(data_path)
     temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
     try:
@@ -124,6 +129,7 @@ def cache_data(data, data_path):
             pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
             f.flush()
             os.fsync(f.fileno())
+        os.utime(temp_fp, (extracted - 2, extracted - 2))
         os.replace(temp_fp, cache_fp)
     except BaseException:
         if os.path.exists(temp_fp):
diff --git a/ocelot/io/__init__.py b/ocelot/io/__init__.py
index 6515bd4..39162d7 100644
--- a/ocelot/io/__init__.py
+++ b/ocelot/io/__init__.py
@@ -10,6 +10,7 @@ __all__ = (
 from .extract_ecospold2 import extract_ecospold2_directory
 from ..filesystem import check_cache_directory, get_from_cache, cache_data
 import os
+import time
 
 
 def extract_directory(data_path, use_cache=True, use_mp=True):
@@ -25,8 +26,9 @@ def extract_directory(data_path, use_cache=True, use_mp=True):
         print("Using cached ecospold2 data")
         return get_from_cache(data_path)
     else:
+        start = time.time()
         data = extract_ecospold2_directory(data_path, use_mp)
-        cache_data(data, data_path)
+        cache_data(data, data_path, start)
     return data
 
 from .cleanup import cleanup_data_directory
-- 
2.43.0


From b28f0f3ab056fb14142c6b9fa69c937b5a87d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 04/20] fix: cache is used although files with old modification
 times or hidden files changed

---
 ocelot/filesystem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 57dcbdb..57409aa 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -97,14 +97,12 @@ def check_cache_directory(data_path):
     if not os.path.exists(cache_fp):
         return False
     cache_time = os.stat(cache_fp).st_mtime
-    source_time = max([
-        os.stat(data_path).st_mtime,
-        max(
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
-        )
-    ])
-    return cache_time > source_time
+    # Files copied or moved in place can have old modification times; hidden ``.spold`` files are extracted too
+    source_stats = [os.stat(data_path)] + [
+        os.stat(os.path.join(data_path, fn)) for fn in os.listdir(data_path)
+        if not fn.startswith(".") or fn.lower().endswith(".spold")
+    ]
+    return cache_time > max(max(st.st_mtime, st.st_ctime) for st in source_stats)
 
 
 def get_from_cache(data_path):
-- 
2.43.0


From f2c4a7ea34f65dc6c05f88ec122c4ea66d05d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 05/20] fix: cache of a replaced source directory is used for
 its successor

---
 ocelot/filesystem.py  | 15 ++++++++++-----
 ocelot/io/__init__.py | 11 ++++++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 57409aa..9106e3b 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -79,11 +79,13 @@ def get_base_directory():
 def get_cache_filepath_for_data_path(data_path):
     """Return the cache directory for source directory ``data_path``.
 
-    The cache filepath is in the directory returned by ``get_cache_directory``. The file name is the MD5 hash of the string ``data_path`` + ``__io_version__``, plus the suffix ``".pickle"``"""
+    The cache filepath is in the directory returned by ``get_cache_directory``. The file name is the MD5 hash of the string ``data_path``, the identity of the directory itself (which is different when another directory has taken its place) and ``__io_version__``, plus the suffix ``".pickle"``"""
+    st = os.stat(data_path)
+    identity = "{}:{}:{}".format(os.path.abspath(data_path), st.st_dev, st.st_ino)
     return os.path.join(
         get_cache_directory(),
         hashlib.md5(
-            (os.path.abspath(data_path) + __io_version__).encode("utf-8")
+            (identity + __io_version__).encode("utf-8")
         ).hexdigest() + ".pickle"
     )
 
@@ -112,15 +114,18 @@ def get_from_cache(data_path):
     return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
 
 
-def cache_data(data, data_path, extracted=None):
+def cache_data(data, data_path, extracted=None, cache_fp=None):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
 
-    ``extracted`` is the time when the extraction of ``data`` started. The cache is dated two seconds before it, so that source files changed during extraction invalidate the cache even if file times are coarse.
+    ``extracted`` is the time when the extraction of ``data`` started. The cache is dated two seconds before it, so that source files changed during extraction invalidate the cache even if file times are coarse. ``cache_fp`` is the cache filepath at that time; nothing is cached if another directory has taken the place of ``data_path`` meanwhile.
 
     The cache file only appears under its name once it is complete on disk."""
     if extracted is None:
         extracted = time.time()
-    cache_fp = get_cache_filepath_for_data_path(data_path)
+    if cache_fp is None:
+        cache_fp = get_cache_filepath_for_data_path(data_path)
+    elif cache_fp != get_cache_filepath_for_data_path(data_path):
+        return
     temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
     try:
         with open(temp_fp, "wb") as f:
diff --git a/ocelot/io/__init__.py b/ocelot/io/__init__.py
index 39162d7..1bcf1e8 100644
--- a/ocelot/io/__init__.py
+++ b/ocelot/io/__init__.py
@@ -8,7 +8,12 @@ __all__ = (
 )
 
 from .extract_ecospold2 import extract_ecospold2_directory
-from ..filesystem import check_cache_directory, get_from_cache, cache_data
+from ..filesystem import (
+    cache_data,
+    check_cache_directory,
+    get_cache_filepath_for_data_path,
+    get_from_cache,
+)
 import os
 import time
 
@@ -26,9 +31,9 @@ def extract_directory(data_path, use_cache=True, use_mp=True):
         print("Using cached ecospold2 data")
         return get_from_cache(data_path)
     else:
-        start = time.time()
+        start, cache_fp = time.time(), get_cache_filepath_for_data_path(data_path)
         data = extract_ecospold2_directory(data_path, use_mp)
-        cache_data(data, data_path, start)
+        cache_data(data, data_path, start, cache_fp)
     return data
 
 from .cleanup import cleanup_data_directory
-- 
2.43.0


From 3d9832b23f48053c125313b1828371bd846ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 06/20] fix: nested lists of transformation functions can't be
 applied

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From 82e9369bf96c6e06c330dba74f7bc95873229ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 07/20] fix: log files stay open after a model run, and record
 the events of later runs

---
 ocelot/logger.py | 10 ++++++++++
 ocelot/model.py  |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..04db35f 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -62,3 +62,13 @@ def create_detailed_log(output_dir):
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
     return filepath
+
+
+def close_logs():
+    """Close the log files of a model run, so that nothing is added to them by later runs."""
+    for name in ('ocelot', 'ocelot-detailed'):
+        logger = logging.getLogger(name)
+        for handler in list(logger.handlers):
+            if isinstance(handler.formatter, (JsonFormatter, DatasetJsonFormatter)):
+                logger.removeHandler(handler)
+                handler.close()
diff --git a/ocelot/model.py b/ocelot/model.py
index 3aff193..12bb60b 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -11,7 +11,7 @@ from .filesystem import (
     save_specific_dataset,
 )
 from .io import extract_directory
-from .logger import create_log, create_detailed_log
+from .logger import close_logs, create_log, create_detailed_log
 from .report import HTMLReport
 from .results import SaveStrategy
 from .utils import get_function_meta, validate_configuration
@@ -109,6 +109,7 @@ def system_model(data_path, config=None, show=False, use_cache=True,
     output_manager = OutputDir(follow=follow)
     try:
         counter = itertools.count()
+        close_logs()
         logfile_path = create_log(output_manager.directory)
         create_detailed_log(output_manager.directory)
 
@@ -141,3 +142,5 @@ def system_model(data_path, config=None, show=False, use_cache=True,
         print("Deleting output directory:\n{}".format(output_manager.directory))
         shutil.rmtree(output_manager.directory)
         sys.exit(1)
+    finally:
+        close_logs()
-- 
2.43.0


From 06c2b035aca1aa94db2bbb22e6d5c0b81bd54100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:53 +0000
Subject: [PATCH 08/20] fix: CTRL-C is swallowed or turned into another error
 by bare except clauses

---
 ocelot/filesystem.py                                          | 4 ++--
 ocelot/results.py                                             | 4 ++--
 .../transformations/parameterization/python_compatibility.py  | 2 +-
 ocelot/utils.py                                               | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 9106e3b..9b378f1 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -56,7 +56,7 @@ def get_output_directory():
         assert env_var
         print("Using environment variable OCELOT_OUTPUT:\n", env_var)
         return env_var
-    except:
+    except Exception:
         return create_dir(os.path.join(get_base_directory(), "model-runs"))
 
 
@@ -153,7 +153,7 @@ class OutputDir(object):
             assert check_dir(self.directory)
             if follow:
                 create_dir(os.path.join(self.directory, "follow"))
-        except:
+        except Exception:
             raise OutputDirectoryError(
                 "Can't find or write to output directory:\n\t{}".format(
                 self.directory)
diff --git a/ocelot/results.py b/ocelot/results.py
index 21bedf9..b0a9f5c 100644
--- a/ocelot/results.py
+++ b/ocelot/results.py
@@ -42,7 +42,7 @@ class SaveStrategy(object):
         elif ":" not in str(arg):
             try:
                 arg = int(arg)
-            except:
+            except Exception:
                 raise ValueError("Can't parse {} as integer".format(arg))
             if arg < 1:
                 raise ValueError("Input value must be >= 1")
@@ -50,7 +50,7 @@ class SaveStrategy(object):
         else:
             try:
                 arg = [int(x) for x in arg.split(":")]
-            except:
+            except Exception:
                 raise ValueError("Can't split and parse integers from {}".format(arg))
             arg[1] += 1  # We are inclusive of top value
             possibles = list(range(*arg))
diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..4820133 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -186,7 +186,7 @@ def get_ast_names(string):
     finder = NameFinder()
     try:
         finder.generic_visit(ast.parse(string))
-    except:
+    except Exception:
         raise UnparsableFormula
     return finder.names
 
diff --git a/ocelot/utils.py b/ocelot/utils.py
index 5ae533d..9fd4571 100644
--- a/ocelot/utils.py
+++ b/ocelot/utils.py
@@ -28,7 +28,7 @@ def validate_configuration(config):
     for function in as_iterable:
         try:
             assert get_function_meta(function)
-        except:
+        except Exception:
             message = "Transformation function {} has no metadata"
             raise InvalidTransformationFunction(message.format(function))
     return config
-- 
2.43.0


From fba57a8c2a6b2bf62ebf16b335d56fa2a1777812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:47 +0000
Subject: [PATCH 09/20] fix: consequential functions log to the root logger,
 not to the model run's log

---
 ocelot/transformations/consequential/constrained_markets.py | 6 ++++--
 ocelot/transformations/consequential/technology_levels.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e6d7fcc 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount and formula of an exchange"""
@@ -58,7 +60,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -96,7 +98,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..c8f9b23 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
-- 
2.43.0


From 4d68628674ae371ad81ddd0aebf71b59615349b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:47 +0000
Subject: [PATCH 10/20] fix: order of extracted datasets depends on the file
 system

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..6112199 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -221,7 +221,7 @@ def extract_ecospold2_directory(dirpath, use_mp=True):
 
     assert os.path.isdir(dirpath), "Can't find directory {}".format(dirpath)
     filelist = [os.path.join(dirpath, filename)
-                for filename in os.listdir(dirpath)
+                for filename in sorted(os.listdir(dirpath))
                 if filename.lower().endswith(".spold")
                 ]
 
-- 
2.43.0


From deb78e9a1ac36fd704afd0d0f1afcbb5bd31d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 11/20] fix: repaired formulas depend on the hash seed

---
 .../transformations/parameterization/python_compatibility.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 4820133..9207f74 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -28,10 +28,10 @@ RESERVED_WORDS = {
 }
 
 RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
-                     for word in RESERVED_WORDS]
+                     for word in sorted(RESERVED_WORDS)]
 
 RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
+                           for word in sorted(RESERVED_WORDS)]
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
-- 
2.43.0


From 493b72bbcfe963d2ad13fbcbc0569a4c4ee41836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 12/20] fix: cleanup deletes directories which are not model
 runs

---
 ocelot/io/cleanup.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/cleanup.py b/ocelot/io/cleanup.py
index 460e776..0071d86 100644
--- a/ocelot/io/cleanup.py
+++ b/ocelot/io/cleanup.py
@@ -1,9 +1,13 @@
 # -*- coding: utf-8 -*-
 from ..filesystem import get_output_directory
 import os
+import re
 import shutil
 import time
 
+# Model runs are stored in directories named after their hexadecimal id
+re_report = re.compile("[0-9a-f]{32}")
+
 
 def cleanup_data_directory():
     base_dir = get_output_directory()
@@ -12,9 +16,14 @@ def cleanup_data_directory():
     print("\nCleaning up data directory {}".format(base_dir))
     for report in os.listdir(base_dir):
         dirpath = os.path.join(base_dir, report)
-        if not os.path.isdir(dirpath):
+        if (not re_report.fullmatch(report) or os.path.islink(dirpath)
+                or not os.path.isdir(dirpath)):
+            continue
+        try:
+            created = os.path.getctime(dirpath)
+        except FileNotFoundError:
+            # Model run was interrupted just now
             continue
-        created = os.path.getctime(dirpath)
         if created < now - one_week:
             to_delete.append((created, report, dirpath))
 
-- 
2.43.0


From d40967993c2ad54866dc3bde9a49d139a77d1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:39 +0000
Subject: [PATCH 13/20] fix: CTRL-C is lost while the cache is loaded

An interrupt pending while an unclosed file is destroyed is swallowed by Python.
---
 ocelot/filesystem.py | 3 ++-
 ocelot/report.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 9b378f1..f108717 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -111,7 +111,8 @@ def get_from_cache(data_path):
     """Return cached extracted data from directory ``data_path``.
 
     This function only loads the pickled cache data; use ``check_cache_directory`` to make sure cache is not expired."""
-    return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
+    with open(get_cache_filepath_for_data_path(data_path), "rb") as f:
+        return pickle.load(f)
 
 
 def cache_data(data, data_path, extracted=None, cache_fp=None):
diff --git a/ocelot/report.py b/ocelot/report.py
index b65ba48..7c80102 100644
--- a/ocelot/report.py
+++ b/ocelot/report.py
@@ -68,7 +68,8 @@ class HTMLReport(object):
 
     def write_page(self, data, base_dir):
         template_filepath = os.path.join(data_dir, "report-template.jinja2")
-        template = jinja2.Template(open(template_filepath).read())
+        with open(template_filepath) as f:
+            template = jinja2.Template(f.read())
         self.report_fp = os.path.join(base_dir, "report.html")
         with open(self.report_fp, "w", encoding='utf-8') as f:
             f.write(template.render(**data))
-- 
2.43.0


From ed7b7f94ffcbc8dd949c3bb5664cecddd2341c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 14/20] fix: report loses function names and table cells that
 contain < or &

The template did not escape them, so that browsers took them for markup.
---
 ocelot/data/report-template.jinja2 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocelot/data/report-template.jinja2 b/ocelot/data/report-template.jinja2
index 2ab5f49..76cde3c 100644
--- a/ocelot/data/report-template.jinja2
+++ b/ocelot/data/report-template.jinja2
@@ -33,7 +33,7 @@
           </ul>
       </nav>
       <h2 class="brand-title" style="margin-top: 1em;">Functions</h2>
-      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name }}</a></p>{% endfor %}
+      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name|e }}</a></p>{% endfor %}
     </div>
   </div>
   <div class="content pure-u-1 pure-u-md-3-4">
@@ -43,7 +43,7 @@
     <div id="countChart"></div>
     <h1>Transform functions</h1>
     {% for func in functions %}
-      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name }} <span class="pure-button toggle-button">toggle</span></h2>
+      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name|e }} <span class="pure-button toggle-button">toggle</span></h2>
       <div id="{{ func.id }}-container">
         <ul>
             <li>Total time: {{ func.time|int }} seconds</li>
@@ -52,19 +52,19 @@
         <h3>Description</h3>
         <p>{{ func.description|safe }}</p>
         {% if func.table %}
-        <h3>{{ func.table.title }}</h3>
+        <h3>{{ func.table.title|e }}</h3>
         <table class="table" data-paging="true" data-filtering="true" data-sorting="true">
             <thead>
                 <tr>
                     {% for col in func.table.columns %}
-                    <th data-breakpoints="xs">{{ col }}</th>
+                    <th data-breakpoints="xs">{{ col|e }}</th>
                     {% endfor %}
                 </tr>
             </thead>
             <tbody>
                 {% for row in func.tabledata %}
                 <tr>
-                    {% for elem in row %}<td>{{ elem }}</td>
+                    {% for elem in row %}<td>{{ elem|e }}</td>
                     {% endfor %}
                 </tr>
                 {% endfor %}
-- 
2.43.0


From 8cd39045ed69e74a670402659bc23a79a1c5796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:17 +0000
Subject: [PATCH 15/20] fix: validate reports only the last dataset with each
 kind of error

---
 ocelot/io/validate_ecospold2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index 59a96d9..a870559 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -38,16 +38,15 @@ def validate_directory_against_xsd(dirpath, schema):
 
 
 def validate_directory(dirpath):
-    data, errors = extract_directory(dirpath, False), {}
+    data, errors = extract_directory(dirpath, False), []
     print("Validating datasets:")
     for ds in pyprind.prog_bar(data):
         try:
             dataset_schema(ds)
         except Invalid as err:
-            errors[err.msg] = {"path": err.path, "dataset": ds}
+            errors.append((err.msg, err.path, ds))
     if errors:
         logfile = "ocelot-validation-errors.log"
-        errors = [(k, v['path'], v['dataset']) for k, v in errors.items()]
         print("{} errors found.\nSee error logfile {} for details.".format(
             len(errors), logfile)
         )
-- 
2.43.0


From 19926e1a746cbae4a936f7b86708cd1a97078e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:23 +0000
Subject: [PATCH 16/20] fix: an I/O error while one log file is closed leaves
 the other open

---
 ocelot/logger.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index 04db35f..19dbb25 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import contextlib
 import json
 import logging
 import os
@@ -66,9 +67,10 @@ def create_detailed_log(output_dir):
 
 def close_logs():
     """Close the log files of a model run, so that nothing is added to them by later runs."""
-    for name in ('ocelot', 'ocelot-detailed'):
-        logger = logging.getLogger(name)
-        for handler in list(logger.handlers):
-            if isinstance(handler.formatter, (JsonFormatter, DatasetJsonFormatter)):
-                logger.removeHandler(handler)
-                handler.close()
+    with contextlib.ExitStack() as stack:  # Close all files, even if one of them fails
+        for name in ('ocelot', 'ocelot-detailed'):
+            logger = logging.getLogger(name)
+            for handler in list(logger.handlers):
+                if isinstance(handler.formatter, (JsonFormatter, DatasetJsonFormatter)):
+                    stack.callback(handler.close)
+                    logger.removeHandler(handler)
-- 
2.43.0


From fd26513df9c65b9e7e05f063cb118896b05ad7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 17/20] fix: CTRL-C while the logs of a run are being closed
 leaves a log file open

---
 ocelot/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 12bb60b..c121a89 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -143,4 +143,7 @@ def system_model(data_path, config=None, show=False, use_cache=True,
         shutil.rmtree(output_manager.directory)
         sys.exit(1)
     finally:
-        close_logs()
+        try:
+            close_logs()
+        finally:  # Again, as CTRL-C can hit while the logs are being closed
+            close_logs()
-- 
2.43.0


From 69c56e439b786bf71303aaf09dad135db0fc6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 18/20] fix: validate_directory_against_xsd decodes files with
 the locale's encoding, so valid files fail to be validated where that is not
 UTF-8

---
 ocelot/io/validate_ecospold2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index a870559..8a39c92 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -23,10 +23,10 @@ def validate_directory_against_xsd(dirpath, schema):
     print("Validating {} undefined datasets".format(len(filelist)))
 
     errors = []
-    ecospold2_schema = etree.XMLSchema(etree.parse(open(schema)))
+    ecospold2_schema = etree.XMLSchema(etree.parse(open(schema, "rb")))
 
     for fp in pyprind.prog_bar(filelist):
-        file = etree.parse(open(fp))
+        file = etree.parse(open(fp, "rb"))
         if not ecospold2_schema.validate(file):
             errors.append(os.path.basename(fp))
 
-- 
2.43.0


From 13e319443caa52e9926222334fa6e0f0555dec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 19/20] fix: do not lose a keyboard interrupt during parameter
 recalculation

---
 .../parameterization/recalculation.py         | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..987e6f0 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -4,12 +4,37 @@ from ..utils import iterate_all_parameters, iterate_all_uncertainties
 from asteval import Interpreter
 from bw2parameters import ParameterSet
 from bw2parameters.errors import ParameterError, DuplicateName
+import functools
 import logging
+import signal
+import threading
 
 logger = logging.getLogger('ocelot')
 detailed = logging.getLogger('ocelot-detailed')
 
 
+def defer_keyboard_interrupt(func):
+    """Handle a keyboard interrupt only after ``func`` has finished.
+
+    ``asteval`` swallows a ``KeyboardInterrupt`` raised while it parses or evaluates a formula, and returns ``None`` for this formula."""
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        handler = signal.getsignal(signal.SIGINT)
+        if (threading.current_thread() is not threading.main_thread()
+                or not callable(handler)):
+            return func(*args, **kwargs)
+
+        received = []
+        try:
+            signal.signal(signal.SIGINT, lambda *args: received.append(args))
+            return func(*args, **kwargs)
+        finally:
+            signal.signal(signal.SIGINT, handler)
+            if received:
+                handler(*received[0])
+    return wrapper
+
+
 def extract_named_parameters(dataset):
     """Extract named parameters from ``dataset``.
 
@@ -49,6 +74,7 @@ class TolerantParameterSet(ParameterSet):
         return result
 
 
+@defer_keyboard_interrupt
 def recalculate(dataset):
     """Recalculate parameterized relationships within a dataset.
 
-- 
2.43.0


From 5dcb8736ac85af5f44221e53ca84c312cb386a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 20/20] fix: cleanup fails when another cleanup deletes the
 same model runs at the same time

---
 ocelot/io/cleanup.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ocelot/io/cleanup.py b/ocelot/io/cleanup.py
index 0071d86..2dcc6d8 100644
--- a/ocelot/io/cleanup.py
+++ b/ocelot/io/cleanup.py
@@ -37,4 +37,9 @@ def cleanup_data_directory():
     print(template.format(count=len(to_delete), items=items))
 
     for _, _, dirpath in to_delete:
-        shutil.rmtree(dirpath)
+        while os.path.isdir(dirpath):
+            try:
+                shutil.rmtree(dirpath)
+            except FileNotFoundError:
+                # Another cleanup is deleting the same reports
+                continue
-- 
2.43.0

