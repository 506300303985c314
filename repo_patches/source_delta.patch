From c05d4f3f6b9ab648c9fe8af319ac2532539ed630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 01/73] fix: reject INF as integer with a ValueError

Infinite values raised an OverflowError from Decimal.as_integer_ratio.
---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..fa98ad1 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -614,6 +614,8 @@ class integer(decimal):
     @classmethod
     def to_python(cls, v, **kw):
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            cls.value_error(v)
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
-- 
2.43.0


From 1f702d8d95e76f70683d24347036b5e876fd9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 02/73] fix: check datatype facets with a value of 0 and bounds
 given as minimum/maximum

Facets were tested for truth, so contradictory descriptions were accepted if one of
the facets was 0, and contradicting minimum/maximum were never rejected.
---
 src/csvw/metadata.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..8d1cf50 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,8 +579,8 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
-                    'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
+            if any(getattr(self, at) is not None for at in
+                   'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
                     'maxInclusive, minExclusive, or maxExclusive are specified and the base '
@@ -589,24 +589,26 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(getattr(self, at) is not None for at in ['length', 'minLength', 'maxLength']):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        # Note: minimum and maximum are aliases for minInclusive and maxInclusive.
+        min_in, min_ex, max_in, max_ex = [
+            [getattr(self, at) for at in attrs.split() if getattr(self, at) is not None] for attrs in
+            ['minimum minInclusive', 'minExclusive', 'maximum maxInclusive', 'maxExclusive']]
+
+        if (min_in and min_ex) or (max_in and max_ex):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
-            raise ValueError('')
-
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
-            raise ValueError('')
+        if any(hi < lo for lo in min_in for hi in max_in) or \
+                any(hi <= lo for lo in min_in for hi in max_ex) or \
+                any(hi <= lo for lo in min_ex for hi in max_in + max_ex):
+            raise ValueError('The lower bound of a datatype must not exceed the upper bound.')
 
         if 'id' in self.at_props and any(
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
-- 
2.43.0


From 4b7bf28c6a46eaf5ba0c2802b1046dd48982c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 03/73] fix: apply length constraints only to values with a
 length

Falsy JSON values like 0 and false were treated as if they had length 0.
---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8d1cf50..fb09d95 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -651,7 +651,7 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v or '')
+            l_ = len(v)
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
-- 
2.43.0


From e41eec29a211a43999997d1fb73218fc0d0b85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 04/73] fix: resolve links of tables in a group against the
 @base of the group

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fb09d95..df39545 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1125,7 +1125,7 @@ class TableLike(Description):
         """
         at_props = self._parent.at_props if self._parent else self.at_props
         ctxbase = None
-        for obj in self.at_props.get('context', []):
+        for obj in at_props.get('context', []):
             if isinstance(obj, dict) and '@base' in obj:
                 ctxbase = obj['@base']
         if 'base' in at_props:
-- 
2.43.0


From 92e80dff5a15605eafe9859467a7f4d5e0b19c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 05/73] fix: inherit default and lang from the enclosing
 descriptions

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index df39545..8fa6301 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -737,7 +737,7 @@ class Description(DescriptionBase):
 
     def inherit(self, attr):
         v = getattr(self, attr)
-        if v is None and self._parent:
+        if (v is None or (attr, v) in [('default', ''), ('lang', 'und')]) and self._parent:
             return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \
                 else getattr(self._parent, attr)
         return v
-- 
2.43.0


From e5838cd1d62b3475e62962df93ab8c505fba353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 06/73] fix: read decimals and integers of any length without
 rounding

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index fa98ad1..cbad9f2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -560,7 +560,8 @@ class decimal(anyAtomicType):
             else:
                 factor = 1
         try:
-            return _decimal.Decimal(v) * factor
+            # Make sure the result is not rounded to the precision of the current context.
+            return _decimal.Context(prec=_decimal.MAX_PREC).multiply(_decimal.Decimal(v), factor)
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From fd379354d34ef3eb876bb0d4413bfc47c669572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 07/73] fix: format decimals without exponents and with the
 declared separators

---
 src/csvw/datatypes.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index cbad9f2..79b55fc 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -527,6 +527,13 @@ class decimal(anyAtomicType):
                 else {'pattern': datatype.format}
         return {}
 
+    @staticmethod
+    def _translate(v, chars):
+        """
+        Replace group and decimal characters simultaneously, because they may be swapped.
+        """
+        return re.sub('|'.join(re.escape(c) for c in chars), lambda m: chars[m.group()], v)
+
     @staticmethod
     def to_python(v, pattern=None, decimalChar=None, groupChar=None):
         if isinstance(v, str) and 'e' in v.lower():
@@ -540,7 +547,7 @@ class decimal(anyAtomicType):
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
         if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
+                decimal._translate(v, {groupChar or ',': ',', decimalChar or '.': '.'})):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
@@ -572,13 +579,13 @@ class decimal(anyAtomicType):
 
         if pattern:
             v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return decimal._translate(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
-        fmt = '{}' if groupChar is None else '{:,}'
+        if isinstance(v, float):
+            v = _decimal.Decimal(repr(v))
+        fmt = '{:,f}' if groupChar else '{:f}'
+        if not isinstance(v, _decimal.Decimal):
+            fmt = fmt.replace('f', '')
         try:
             neg = v < 0
         except TypeError:
@@ -593,15 +600,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return decimal._translate(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
 
 @register
-- 
2.43.0


From 43bb232cf9ffdf1d59c0a1ae33646b2ce9949bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 08/73] fix: count leading zeros as digits when matching number
 patterns

---
 src/csvw/datatypes.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 79b55fc..5ab65c7 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1239,21 +1239,8 @@ class NumberPattern:
         integral_part, _, decimal_part = s.partition('.')
         decimal_part, _, exponent = decimal_part.lower().partition('e')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(integral_part)) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
-- 
2.43.0


From 2820850a5b2358338e011457b871c087b14f67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 09/73] fix: do not crash when checking integrity with invalid
 foreign keys and a log

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8fa6301..a537933 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1587,8 +1587,8 @@ class TableGroup(TableLike):
             self.validate_schema()
             success = True
         except ValueError as e:
-            success = False
             log_or_raise(str(e), log=log, level='error')
+            return False
         fkeys = self.foreign_keys()
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
-- 
2.43.0


From 862e9cfc576a5c09c0ec87c8aa4573a61ef48490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 10/73] fix: respect inherited required when checking tables
 for missing columns and cells

---
 src/csvw/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a537933..af4d89a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1339,8 +1339,8 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
-                requiredcols.add(col.header)
+                if col.inherit('required'):
+                    requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
@@ -1406,7 +1406,7 @@ class Table(TableLike):
                 raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
-- 
2.43.0


From f99349f1488b1be71f5f79488370aa0b1610fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 11/73] fix: strip the whole comment prefix from comments, not
 its characters

---
 src/csvw/dsv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..1910c09 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -228,10 +228,12 @@ class UnicodeReader:
                 if (row and self.dialect.commentPrefix and  # noqa: W504
                         row[0].startswith(self.dialect.commentPrefix)) or \
                         (row and self.lineno < self.dialect.skipRows):
-                    self.comments.append((
-                        self.lineno,
-                        self.dialect.delimiter.join(row).lstrip(self.dialect.commentPrefix).strip(),
-                    ))
+                    text = self.dialect.delimiter.join(row)
+                    if self.dialect.commentPrefix:
+                        # Note: str.lstrip would strip the characters of a longer prefix.
+                        while text.startswith(self.dialect.commentPrefix):
+                            text = text[len(self.dialect.commentPrefix):]
+                    self.comments.append((self.lineno, text.strip()))
                 row = self._next_row()
             row = [self.dialect.trimmer(s) for s in row][self.dialect.skipColumns:]
         return row
-- 
2.43.0


From bbc4935eb7505868cefa276ba62a9ad60f5ec8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 12/73] fix: recognise a byte order mark whatever the spelling
 of utf-8 in the dialect

---
 src/csvw/dsv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 1910c09..8191223 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -172,7 +172,7 @@ class UnicodeReader:
         self.newline = kw.pop('lineterminator', None)
         self.dialect = dialect if isinstance(dialect, Dialect) else None
         if self.dialect:
-            self.encoding = self.dialect.python_encoding
+            self.encoding = normalize_encoding(self.dialect.python_encoding)
             self.kw = dialect.as_python_formatting_parameters()
             self.kw.update(kw)
         else:
-- 
2.43.0


From a604dafbc5d26461d2ec753aa5cc7a9037796fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 13/73] fix: do not double escape characters which csv.writer
 escapes itself

---
 src/csvw/dsv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 8191223..216d473 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -13,6 +13,7 @@ The original implementations were largely copied from
 """
 import io
 import csv
+import sys
 import codecs
 import shutil
 import typing
@@ -75,8 +76,9 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
-            # work around https://bugs.python.org/issue12178
+        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE \
+                and sys.version_info < (3, 10):
+            # work around https://bugs.python.org/issue12178, fixed in Python 3.10
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
                                _type=str,
-- 
2.43.0


From 9626656095e46e92c4bfc6cae28334a5c2d255e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:03 +0000
Subject: [PATCH 14/73] fix: record validation problems whatever the warning
 filters

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index af4d89a..104a45d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1649,6 +1649,8 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                # Problems must be recorded, whatever the warning filters set by the user.
+                warnings.simplefilter('default', UserWarning)
 
             no_header = False
             try:
@@ -1702,6 +1704,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('default', UserWarning)
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From 3fc2d5529289374661d8471dafc84181ae46ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 15/73] fix: report violated keys and references as invalid
 data instead of failing the validation

---
 src/csvw/metadata.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 104a45d..096e514 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1708,10 +1708,16 @@ class CSVW:
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-                if not table.check_primary_key():  # pragma: no cover
-                    warnings.warn('Duplicate primary key')
-            if not self.tablegroup.check_referential_integrity(strict=True):
-                warnings.warn('Referential integrity check failed')
+                try:  # Note: Without log, the first problem is raised.
+                    if not table.check_primary_key():  # pragma: no cover
+                        warnings.warn('Duplicate primary key')
+                except ValueError as e:
+                    warnings.warn('Primary key check failed: {}'.format(e))
+            try:
+                if not self.tablegroup.check_referential_integrity(strict=True):
+                    warnings.warn('Referential integrity check failed')
+            except ValueError as e:
+                warnings.warn('Referential integrity check failed: {}'.format(e))
             if w:
                 self.warnings.extend(w)
         return not bool(self.warnings)
-- 
2.43.0


From 7aaad3c50a96176f3cbc09a00c90f823fc5d9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 16/73] fix: fall back to the default for atomic properties
 given as lists, unknown trim values and non-list foreignKeys

---
 src/csvw/dsv_dialects.py | 3 ++-
 src/csvw/metadata.py     | 7 ++++---
 src/csvw/utils.py        | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..d04be63 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -113,7 +113,8 @@ class Dialect(object):
         validator=attr.validators.in_(['true', 'false', 'start', 'end']),
         converter=lambda v: functools.partial(
             utils.converter,
-            (str, bool), 'false')('{0}'.format(v).lower() if isinstance(v, bool) else v))
+            str, 'false', cond=lambda s: s in ['true', 'false', 'start', 'end']
+        )('{0}'.format(v).lower() if isinstance(v, bool) else v))
 
     def updated(self, **kw):
         res = self.__class__(**attr.asdict(self))
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 096e514..1a8b5d0 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -713,7 +713,7 @@ class Description(DescriptionBase):
         converter=lambda v: v if not v else Datatype.fromvalue(v))
     default = attr.ib(
         default="",
-        converter=functools.partial(utils.converter, str, "", allow_list=False),
+        converter=functools.partial(utils.converter, str, ""),
     )
     lang = attr.ib(default="und", converter=converter_lang)
     null = attr.ib(default=attr.Factory(lambda: [""]), converter=converter_null)
@@ -899,7 +899,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in utils.converter(dict, [], v, allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
@@ -921,7 +921,8 @@ class Schema(Description):
     columns = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [
-            Column.fromvalue(c) for c in functools.partial(utils.converter, dict, None)(
+            Column.fromvalue(c) for c in functools.partial(
+                utils.converter, dict, None, allow_list=True)(
                 functools.partial(utils.converter, list, [])(v))])
     foreignKeys = attr.ib(
         default=attr.Factory(list),
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..c0ca9b7 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -16,8 +16,8 @@ def is_url(s):
     return re.match(r'https?://', str(s))
 
 
-def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
-    if allow_list and type_ != list and isinstance(s, list):
+def converter(type_, default, s, allow_none=False, cond=None, allow_list=False):
+    if allow_list and isinstance(s, list):
         return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
 
     if allow_none and s is None:
-- 
2.43.0


From 66cf0baa13459f04dae8b03a4061bc73b20356d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 17/73] fix: accept a single string as lineTerminators, and
 only lists of strings

---
 src/csvw/dsv_dialects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index d04be63..d680309 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -55,7 +55,9 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=functools.partial(
+            utils.converter, (str, list), ['\r\n', '\n'],
+            cond=lambda s: all(isinstance(ss, str) for ss in s)),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-- 
2.43.0


From 228de90a8006b3853c04069ed723b3953bd64af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 18/73] fix: fall back to string for datatypes with base null

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1a8b5d0..f2d4633 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -521,8 +521,8 @@ class Datatype(DescriptionBase):
         default=None,
         converter=functools.partial(
             utils.converter,
-            str, 'string', allow_none=True, cond=lambda ss: ss is None or ss in DATATYPES),
-        validator=attr.validators.optional(attr.validators.in_(DATATYPES)))
+            str, 'string', cond=lambda ss: ss in DATATYPES),
+        validator=attr.validators.in_(DATATYPES))
     format = attr.ib(default=None)
     length = optional_int()
     minLength = optional_int()
-- 
2.43.0


From 397442a3209b82d6b799b4b1c3dd66e1c9d60fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 19/73] fix: drop unknown dialect properties with a warning
 instead of failing

---
 src/csvw/metadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f2d4633..9655909 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -997,6 +997,10 @@ def dialect_props(d):
     del partitioned['common_props']
     if partitioned.get('headerRowCount'):
         partitioned['header'] = True
+    fields = attr.fields_dict(Dialect)
+    for k in [k for k in partitioned if k not in fields]:
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+        del partitioned[k]
     return partitioned
 
 
-- 
2.43.0


From 8e89c9a94be8078eae7bfd7ab9d548a76c226cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 20/73] fix: fall back to the default for transformations which
 are not a list

---
 src/csvw/metadata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9655909..ecfddda 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1004,9 +1004,14 @@ def dialect_props(d):
     return partitioned
 
 
-def valid_transformations(instance, attribute, value):
-    if not isinstance(value, list):
+def converter_transformations(v):
+    if not isinstance(v, list):
         warnings.warn('Invalid transformations property')
+        return []
+    return v
+
+
+def valid_transformations(instance, attribute, value):
     for tr in value:
         Description.partition_properties(tr, type_name='Template')
 
@@ -1052,6 +1057,7 @@ class TableLike(Description):
         default=None,
         converter=lambda v: Schema.fromvalue(v))
     transformations = attr.ib(
+        converter=converter_transformations,
         validator=valid_transformations,
         default=attr.Factory(list),
     )
-- 
2.43.0


From 04547d7590498a8f48bb05c074eb024069962a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 21/73] fix: fall back to the default for suppressOutput of
 tables which is not boolean

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ecfddda..fc7f09c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1204,7 +1204,9 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False,
+        converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
-- 
2.43.0


From 2418d741cd9f41eaebc4e97d42453b80cd458d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 22/73] fix: warn about foreignKeys given as an object

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fc7f09c..d9893f4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -899,6 +899,9 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
+    if not isinstance(v, list):
+        warnings.warn('Invalid foreignKeys spec')
+        return res
     for d in utils.converter(dict, [], v, allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
-- 
2.43.0


From 7ccbf38598e607eae662de49b9684a008756a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 23/73] fix: truncate fractions of seconds to the precision of
 the format instead of rounding them

---
 src/csvw/datatypes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5ab65c7..4a346dc 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -295,6 +295,17 @@ def with_tz(v, func, args, kw):
     return res
 
 
+def with_fraction(v, pattern):
+    """
+    Inserts the digits of fractions of seconds, truncated to the precision of the pattern, because
+    babel rounds them, e.g. .96 to .10 for the pattern .S
+    """
+    return re.sub(
+        'S+',
+        lambda m: '{:06d}'.format(v.microsecond)[:len(m.group())].ljust(len(m.group()), '0'),
+        pattern)
+
+
 @register
 class dateTime(anyAtomicType):
     """
@@ -347,7 +358,8 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
+            return babel.dates.format_datetime(
+                v, tzinfo=v.tzinfo, format=with_fraction(v, pattern))
         return v.isoformat()
 
 
@@ -425,7 +437,8 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        return babel.dates.format_time(
+            v, tzinfo=v.tzinfo, format=with_fraction(v, pattern))
 
 
 @register
-- 
2.43.0


From 3fcdc65a92e82235f564994122694ffc3c178afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 24/73] fix: count all zeros before the decimal point of number
 patterns, e.g. 4 in 0,000

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4a346dc..8a2aaa5 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1206,9 +1206,9 @@ class NumberPattern:
     @property
     def min_digits_before_decimal_point(self):
         integral_part = self.positive.split('.')[0]
-        match = re.search('([0]+)$', integral_part)
+        match = re.search('(0[0,]*)$', integral_part)
         if match:
-            return len(match.groups()[0])
+            return match.groups()[0].count('0')
 
     @property
     def exponent_digits(self):
-- 
2.43.0


From df1f02cd783ad1129c4737394871bc3fba02d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 25/73] fix: regular expressions given as format match whole
 texts, as they are

---
 src/csvw/datatypes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 8a2aaa5..cf586f6 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,17 +95,16 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
-            # make sure the whole string is matched when validating.
+            # Note that the whole string must be matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(datatype.format)}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
 
     @staticmethod
     def to_python(v, regex=None):
-        if regex and not regex.match(v):
+        if regex and not regex.fullmatch(v):
             string.value_error(v)
         return v
 
-- 
2.43.0


From ce9cd30376e3c7a0d922a220802d810470f2cef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 26/73] fix: normalizedString respects its format

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index cf586f6..2dc4bd9 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -900,7 +900,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From 9c435181c54e8d0b20fea725872753be197e8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 27/73] fix: the JSON schema false rejects all values

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 2dc4bd9..20b9d6d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1025,7 +1025,7 @@ class json(string):
     @staticmethod
     def to_python(v, schema=None, **kw):
         res = _json.loads(v, object_pairs_hook=collections.OrderedDict)
-        if schema:
+        if schema is not None:
             try:
                 jsonschema.validate(res, schema=schema)
             except jsonschema.ValidationError:
-- 
2.43.0


From 1fe337d63ce812e484a808934e3e57f6033f4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 28/73] fix: formats of durations match whole texts

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 20b9d6d..cd4510b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -463,7 +463,7 @@ class duration(anyAtomicType):
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
+        if format and not re.fullmatch(format, v):
             raise ValueError
         return isodate.parse_duration(v)
 
-- 
2.43.0


From de2e3a958b0426632d68d4f043cc27bd8e36d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 29/73] fix: names which become keywords when normalized get an
 underscore, too

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index c0ca9b7..6c2aa60 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -77,9 +77,9 @@ def normalize_name(s):
     '_1'
     """
     s = s.replace('-', '_').replace('.', '_').replace(' ', '_')
+    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if s in keyword.kwlist:
         return s + '_'
-    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if not s:
         s = '_'
     if s[0] not in string.ascii_letters + '_':
-- 
2.43.0


From 20333bb41c4dfed89f57efdbc9acd51e040e9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 30/73] fix: keep empty values other than defaults when
 serialising descriptions

---
 src/csvw/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d9893f4..e4572e2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -490,13 +490,13 @@ class DescriptionBase:
                 yield k, _asdict_multiple(v)
 
     def asdict(self, omit_defaults=True) -> dict:
-        # Note: The `null` property is the only inherited, list-valued property where the default
-        # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
-        # special case here.
+        # Note: Empty values are the same as missing ones only for properties which are empty by
+        # default, whereas e.g. an empty `null` list, dialect or common property must be kept.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if v not in ([], {}) or (k != 'tableSchema' and defaults.get(k) != []))
+        defaults = utils.attr_defaults(self.__class__)
 
 
 def optional_int():
-- 
2.43.0


From ae1042f0ead45d7e406d53addff51809c009128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 31/73] fix: serialise a dialect without header such that it
 can be read again

---
 src/csvw/dsv_dialects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index d680309..da25ae6 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -143,7 +143,12 @@ class Dialect(object):
         }[self.trim]
 
     def asdict(self, omit_defaults=True):
-        return utils.attr_asdict(self, omit_defaults=omit_defaults)
+        res = utils.attr_asdict(self, omit_defaults=omit_defaults)
+        if not self.header and self.headerRowCount == 1:
+            # A header row count means there is a header (see metadata.dialect_props), so the default
+            # must not be given.
+            res.pop('headerRowCount', None)
+        return res
 
     @property
     def python_encoding(self):
-- 
2.43.0


From 23e2675dbd7072902f75374b149fb097f9fb5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 32/73] fix: titles without language survive serialisation

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e4572e2..8f081b3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -347,7 +347,8 @@ class NaturalLanguage(collections.OrderedDict):
                         titles.append(vv)
                     else:
                         warnings.warn('Title with value which is not a string is ignored')
-                self[k] = titles
+                # Titles without language are serialised with language tag "und".
+                self[None if k == 'und' else k] = titles
         else:
             raise ValueError('invalid value type for NaturalLanguage')
 
@@ -362,6 +363,7 @@ class NaturalLanguage(collections.OrderedDict):
 
     def add(self, string, lang=None):
         if lang not in self:
+        lang = None if lang == 'und' else lang
             self[lang] = []
         self[lang].append(string)
 
@@ -369,7 +371,7 @@ class NaturalLanguage(collections.OrderedDict):
         return self.getfirst() or next(iter(self.values()))[0]
 
     def getfirst(self, lang=None):
-        return self.get(lang, [None])[0]
+        return (self.get(None if lang == 'und' else lang) or [None])[0]
 
 
 def valid_id_property(v):
-- 
2.43.0


From 5114abe3a2df8588c746a22bee097127dff67b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 33/73] fix: serialise datatypes without bounds if defaults are
 not omitted

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8f081b3..8b356e8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -627,7 +627,7 @@ class Datatype(DescriptionBase):
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-            if attr_ in res:
+            if res.get(attr_) is not None:
                 res[attr_] = self.formatted(res[attr_])
         if len(res) == 1 and 'base' in res:
             return res['base']
-- 
2.43.0


From 0937f008345d97ed646ebb1b81c46fb15cb00df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 34/73] fix: bounds given as JSON numbers for number formats

---
 src/csvw/datatypes.py |  4 ++--
 src/csvw/metadata.py  | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index cd4510b..c989441 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -558,7 +558,7 @@ class decimal(anyAtomicType):
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
+        if pattern and isinstance(v, str) and not NumberPattern(pattern).is_valid(
                 decimal._translate(v, {groupChar or ',': ',', decimalChar or '.': '.'})):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
@@ -846,7 +846,7 @@ class _float(anyAtomicType):
 
     @staticmethod
     def to_python(v, pattern=None, **kw):
-        if pattern and not NumberPattern(pattern).is_valid(v):
+        if pattern and isinstance(v, str) and not NumberPattern(pattern).is_valid(v):
             raise ValueError(
                 'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
 
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8b356e8..b31d178 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -12,6 +12,7 @@ import re
 import json
 import shutil
 import decimal
+import numbers
 import pathlib
 import typing
 import zipfile
@@ -362,8 +363,8 @@ class NaturalLanguage(collections.OrderedDict):
             for k, v in self.items())
 
     def add(self, string, lang=None):
-        if lang not in self:
         lang = None if lang == 'und' else lang
+        if lang not in self:
             self[lang] = []
         self[lang].append(string)
 
@@ -495,10 +496,10 @@ class DescriptionBase:
         # Note: Empty values are the same as missing ones only for properties which are empty by
         # default, whereas e.g. an empty `null` list, dialect or common property must be kept.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
+        defaults = utils.attr_defaults(self.__class__)
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
             if v not in ([], {}) or (k != 'tableSchema' and defaults.get(k) != []))
-        defaults = utils.attr_defaults(self.__class__)
 
 
 def optional_int():
@@ -628,11 +629,23 @@ class Datatype(DescriptionBase):
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
             if res.get(attr_) is not None:
-                res[attr_] = self.formatted(res[attr_])
+                res[attr_] = self._formatted_bound(res[attr_])
         if len(res) == 1 and 'base' in res:
             return res['base']
         return res
 
+    def _formatted_bound(self, v):
+        res = self.formatted(v)
+        if isinstance(v, numbers.Number) and 'pattern' in self.derived_description:
+            try:
+                if self.parse(res) == v:
+                    return res
+            except ValueError:
+                pass
+            # Numbers which don't match the pattern must have been specified as JSON number.
+            return v if isinstance(v, int) else float(v)
+        return res
+
     @property
     def basetype(self):
         return DATATYPES[self.base]
-- 
2.43.0


From 92b277abf23cd3a3b000253d8efbdc4318b8b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 35/73] fix: bareNumber: true, the default, is what CSVW
 supports

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..66b2801 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -44,7 +44,7 @@ def convert_column_spec(spec):
                 res['datatype']['format'] = '{}|{}'.format(
                     spec['trueValues'][0], spec['falseValues'][0])
             if spec['type'] in ['number', 'integer']:
-                if spec.get('bareNumber') is True:  # pragma: no cover
+                if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
                         'bareNumber is not supported in CSVW. It may be possible to translate to '
                         'a number pattern, though. See '
-- 
2.43.0


From cdcc760ecdfc7eddb3b88cc408d1f48dc3292857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 36/73] fix: keep the properties of a dialect next to a nested
 csv object

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 66b2801..df93382 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -132,7 +132,7 @@ def convert_dialect(rsc):
     d = rsc.get('dialect', {})
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
-        d = d['csv']
+        d = dict({k: v for k, v in d.items() if k != 'csv'}, **d['csv'])
     res = {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
-- 
2.43.0


From bc8cdf22fcbc7105c96f6b8cfcb7e27fbc432aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:49 +0000
Subject: [PATCH 37/73] fix: convert only constraints that CSVW allows for the
 datatype, required being one of the column

---
 src/csvw/frictionless.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index df93382..93abad9 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -70,13 +70,29 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:
+        res['required'] = constraints['required']
+    # Only some of the constraints are allowed for each of the CSVW datatypes.
+    base = res['datatype']['base']
+    for prop in {
+        'string': ['minLength', 'maxLength'],
+        'anyURI': ['minLength', 'maxLength'],
+        'binary': ['minLength', 'maxLength'],
+        'number': ['minimum', 'maximum'],
+        'integer': ['minimum', 'maximum'],
+        'date': ['minimum', 'maximum'],
+        'time': ['minimum', 'maximum'],
+        'datetime': ['minimum', 'maximum'],
+        'duration': ['minimum', 'maximum'],
+    }.get(base, []):
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
-        if ('pattern' in constraints) and ('format' not in res['datatype']):
+    if 'pattern' in constraints and 'format' not in res['datatype']:
+        # The format of other datatypes is not a regular expression.
+        if base not in ['number', 'integer', 'boolean', 'date', 'time', 'datetime', 'json']:
             res['datatype']['format'] = constraints['pattern']
-        # FIXME: we could transform the "enum" constraint for string into
-        # a regular expression in the "format" property.
+    # FIXME: we could transform the "enum" constraint for string into
+    # a regular expression in the "format" property.
     return res
 
 
-- 
2.43.0


From 678d54853831065b04d4acc6a14e1054f5b3ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 38/73] fix: order any number of tables in the database schema

---
 src/csvw/db.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..b7c384c 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -326,19 +326,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    while tables:
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
                 break
-    if tables:  # pragma: no cover
-        raise ValueError('there seem to be cyclic dependencies between the tables')
+        else:
+            raise ValueError('there seem to be cyclic dependencies between the tables')
 
     return list(ordered.values())
 
-- 
2.43.0


From 879b44676cdabd03111ae6d8c62067ae4cde51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 39/73] fix: keep the columns of composite foreign keys paired
 in the database schema

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index b7c384c..7c96fdf 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -246,9 +246,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        list(fk.columnReference),
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        list(fk.reference.columnReference),
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From a96a67c8bc983ec9c30c7c966a1246c0eb086a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:45 +0000
Subject: [PATCH 40/73] fix: a list-valued foreign key may inherit its
 separator

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 7c96fdf..8affcd0 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -225,7 +225,7 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
-- 
2.43.0


From 87ce4e057ecdb5bd88b42c7c6888d467c1d8bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 41/73] fix: check all length and range constraints in the
 database, and only for atomic values

---
 src/csvw/db.py | 52 +++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8affcd0..6515985 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -26,6 +26,7 @@ SQLite support has the following limitations:
   not enforced by the database.
 """
 import json
+import math
 import typing
 import decimal
 import pathlib
@@ -154,32 +155,35 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:  # Lists are stored as text.
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, quoted(translate(self.name))
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
-            func = {
-                'date': 'date',
-                'datetime': 'datetime',
-            }.get(self.csvw_type)
-            if c.minimum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
-            if c.maximum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
-            if c.minLength:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+        datatype = DATATYPES[self.csvw_type]
+        for op, bounds in [
+            ('>=', [c.minimum, c.minInclusive]),
+            ('>', [c.minExclusive]),
+            ('<=', [c.maximum, c.maxInclusive]),
+            ('<', [c.maxExclusive]),
+        ]:
+            for bound in bounds:
+                if bound is None:
+                    continue
+                if issubclass(datatype, (DATATYPES['decimal'], DATATYPES['float'])):
+                    if math.isfinite(bound):
+                        # Some numeric datatypes are stored as text.
+                        constraints.append('{0} {1} {2}'.format(
+                            'CAST({0} AS NUMERIC)'.format(cname)
+                            if self.db_type == 'TEXT' else cname, op, bound))
+                elif issubclass(datatype, DATATYPES['datetime']) and self.csvw_type != 'time':
+                    # Note: SQLite's datetime function has a resolution of seconds.
+                    constraints.append("datetime({0}) {1} datetime('{2}')".format(
+                        cname, op if op.endswith('=') else op + '=', bound))
+        if self.db_type == 'BLOB' or \
+                (issubclass(datatype, DATATYPES['string']) and self.csvw_type != 'json'):
+            for op, length in [('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]:
+                if length is not None:
+                    constraints.append('length({0}) {1} {2}'.format(cname, op, length))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
-- 
2.43.0


From ae742406ce8ba6f14ac4421a06f1f428bd6fb04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:52 +0000
Subject: [PATCH 42/73] fix: escape names of tables and columns in SQL

---
 src/csvw/db.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 6515985..d2f675a 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -81,7 +81,7 @@ class ColumnTranslator(typing.Protocol):
 
 
 def quoted(*names):
-    return ','.join('`{0}`'.format(name) for name in names)
+    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)
 
 
 def insert(db: sqlite3.Connection,
@@ -188,8 +188,8 @@ class ColSpec:
 
     def sql(self, translate: ColumnTranslator) -> str:
         _check = self.check(translate)
-        return '`{0}` {1}{2}{3}'.format(
-            translate(self.name),
+        return '{0} {1}{2}{3}'.format(
+            quoted(translate(self.name)),
             self.db_type,
             ' NOT NULL' if self.required else '',
             ' CHECK ({0})'.format(_check) if _check else '')
@@ -304,8 +304,8 @@ class TableSpec(object):
                 quoted(*[col_translate(c) for c in fk]),
                 quoted(translate(ref)),
                 quoted(*[translate(ref, c) for c in refcols])))
-        return "CREATE TABLE IF NOT EXISTS `{0}` (\n    {1}\n)".format(
-            translate(self.name), ',\n    '.join(clauses))
+        return "CREATE TABLE IF NOT EXISTS {0} (\n    {1}\n)".format(
+            quoted(translate(self.name)), ',\n    '.join(clauses))
 
 
 def schema(tg: csvw.TableGroup,
-- 
2.43.0


From 542976deed25ee03d97ec0b2cbb3af4c5a75d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 43/73] fix: store all values in their own column, whatever the
 order of the keys in a row

---
 src/csvw/db.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index d2f675a..4f42125 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -538,15 +538,15 @@ FROM {2} {3} GROUP BY {0}""".format(
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows = []
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
+                for row in items[t.name]:
                     pk = row[t.primary_key[0]] \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
@@ -571,11 +571,10 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = json.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            values[col.name] = v
+                    rows.append(tuple(values.get(name) for name in cols))
+                if cols:
+                    insert(db, self.translate, t.name, list(cols), *rows)
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From b6dd59c368b5ea002f38c2c6183d65d49fed7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 44/73] fix: read list-valued foreign keys back, whatever the
 type and text of the keys

---
 src/csvw/db.py | 59 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 4f42125..3376df9 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -218,7 +218,9 @@ class TableSpec(object):
     @classmethod
     def from_table_metadata(cls,
                             table: csvw.Table,
-                            drop_self_referential_fks: typing.Optional[bool] = True) -> 'TableSpec':
+                            drop_self_referential_fks: typing.Optional[bool] = True,
+                            tabledict: typing.Optional[typing.Dict[str, csvw.Table]] = None,
+                            ) -> 'TableSpec':
         """
         Create a `TableSpec` from the schema description of a `csvw.metadata.Table`.
 
@@ -226,6 +228,7 @@ class TableSpec(object):
         :param drop_self_referential_fks: Flag signaling whether to drop self-referential foreign \
         keys. This may be necessary, if the order of rows in a CSVW table does not guarantee \
         referential integrity when inserted in order (e.g. an eralier row refering to a later one).
+        :param tabledict: The tables which may be referenced by list-valued foreign keys, by name.
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
@@ -247,6 +250,10 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        atype=TableSpec._csvw_type(table, spec.primary_key[0]),
+                        btype=TableSpec._csvw_type(
+                            (tabledict or {}).get(fk.reference.resource.string),
+                            fk.reference.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -266,8 +273,16 @@ class TableSpec(object):
                 ))
         return spec
 
+    @staticmethod
+    def _csvw_type(table: typing.Optional[csvw.Table], column: str) -> typing.Optional[str]:
+        for c in table.tableSchema.columns if table else []:
+            if c.header == column:
+                datatype = c.inherit('datatype')
+                return datatype.base if datatype else None
+
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(
+            cls, atable, apk, btable, bpk, atype=None, btype=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -275,8 +290,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=atype)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=btype)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -323,7 +338,7 @@ def schema(tg: csvw.TableGroup,
     tables = {}
     for tname, table in tg.tabledict.items():
         t = TableSpec.from_table_metadata(
-            table, drop_self_referential_fks=drop_self_referential_fks)
+            table, drop_self_referential_fks=drop_self_referential_fks, tabledict=tg.tabledict)
         tables[t.name] = t
         for at in t.many_to_many.values():
             tables[at.name] = at
@@ -406,21 +421,19 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
+        acol, bcol, ccol = table.columns
+        sql = "SELECT {0} FROM {1}".format(
+            quoted(*[self.translate(table.name, c.name) for c in table.columns]),
+            quoted(self.translate(table.name)))
         if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
-        else:
-            context_sql = ''
-        sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+            sql += " WHERE {0} = ?".format(quoted(self.translate(table.name, ccol.name)))
+        cu = db.execute(sql + " ORDER BY rowid", [] if context is None else [context])
+        res = collections.OrderedDict()
+        for k, v, ctx in cu.fetchall():
+            v = v if v is None else bcol.read(v)
+            res.setdefault(k if k is None else acol.read(k), []).append(
+                (v, ctx or '') if context is None else v)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -487,7 +500,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
@@ -551,9 +564,13 @@ FROM {2} {3} GROUP BY {0}""".format(
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
                             # values of list-valued columns.
+                            acol, bcol = at.columns[:2]
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append((
+                                    acol.convert(pk),
+                                    fkey if fkey is None else bcol.convert(fkey),
+                                    context))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From 3d2c2bd2914bdfae1f4ad9eee01985cdc989422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 45/73] fix: store lists of values without JSON equivalent

---
 src/csvw/db.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3376df9..afcc561 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -147,6 +147,10 @@ class ColSpec:
             self.read = DATATYPES[self.csvw_type].to_python
         if self.separator and self.db_type != 'TEXT':
             self.db_type = 'TEXT'
+            if self.csvw_type in ['decimal', 'hexBinary']:
+                # Items of lists are serialized as JSON.
+                self.convert = DATATYPES[self.csvw_type].to_string
+                self.read = DATATYPES[self.csvw_type].to_python
 
     def check(self, translate: ColumnTranslator) -> typing.Optional[str]:
         """
@@ -461,17 +465,12 @@ class Database(object):
                 # FIXME: how much do we want to use DB types? Probably as much as possible!
                 # Thus we need to convert on write **and** read!
                 #
-                convert, seps, refs = {}, {}, collections.defaultdict(dict)
+                cspecs, seps, refs = {}, {}, collections.defaultdict(dict)
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
                 for col in table.columns:
-                    convert[self.translate(tname, col.name)] = [col.name, identity]
-                    if col.csvw_type in TYPE_MAP:
-                        convert[self.translate(tname, col.name)][1] = TYPE_MAP[col.csvw_type][2]
-                    else:
-                        convert[self.translate(tname, col.name)][1] = \
-                            DATATYPES[col.csvw_type].to_python
+                    cspecs[self.translate(tname, col.name)] = col
                     if col.separator:
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
@@ -493,11 +492,15 @@ class Database(object):
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                # Only items without JSON equivalent have been converted to text.
+                                d[k] = [
+                                    cspecs[k].read(vv)
+                                    if isinstance(vv, str) and cspecs[k].csvw_type != 'json'
+                                    else vv for vv in json.loads(v)]
                             else:
-                                d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
+                                d[k] = v.split(seps[k])
                         else:
-                            d[k] = convert[k][1](v) if v is not None else None
+                            d[k] = cspecs[k].read(v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
                     d.update({self.translate(tname, k): [] for k in table.many_to_many})
@@ -585,7 +588,10 @@ class Database(object):
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = json.dumps([
+                                        vv if col.csvw_type == 'json' or vv is None
+                                        or isinstance(vv, (str, bool, int, float))
+                                        else col.convert(vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
                             values[col.name] = v
-- 
2.43.0


From 45983a7f3ee85fe324edb9422b50a6210499ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 46/73] fix: read the decimals written to the database, not the
 nearest binary fraction

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index afcc561..c791cde 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -62,7 +62,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(repr(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From 96718d18e8762acd9e24f3d750b7c5d15267309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 47/73] fix: store times

---
 src/csvw/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index c791cde..cb51667 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -67,6 +67,10 @@ TYPE_MAP = {
         'BLOB',
         identity,
         identity),
+    'time': (
+        'TEXT',
+        DATATYPES['datetime'].to_string,
+        DATATYPES['datetime'].to_python),
 }
 
 
-- 
2.43.0


From 0af5e66b61792cadfe2ce9c14fba7b11badb9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 48/73] fix: the separator of a list of strings may be "json"

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index cb51667..903ab0e 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -479,7 +479,7 @@ class Database(object):
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
-                            seps[self.translate(tname, col.name)] = 'json'
+                            seps[self.translate(tname, col.name)] = None  # i.e. JSON
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -495,7 +495,7 @@ class Database(object):
                                 d[k] = None
                             elif not v:
                                 d[k] = []
-                            elif seps[k] == 'json':
+                            elif seps[k] is None:
                                 # Only items without JSON equivalent have been converted to text.
                                 d[k] = [
                                     cspecs[k].read(vv)
-- 
2.43.0


From fc7686106f1b88f68ef42a169ffe894e5ffdf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 49/73] fix: simplify JSON-LD values that are numbers or
 booleans

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..5f14bc0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -118,7 +118,7 @@ def to_json(obj, flatten_list=False):
     if isinstance(obj, dict):
         if '@value' in obj:
             obj = obj['@value']
-        if len(obj) == 1 and '@id' in obj:
+        elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
         return {
-- 
2.43.0


From fdce916957fcb997324d80bdeb1592aa1a13a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 50/73] fix: format values of columns with inherited datatype

---
 src/csvw/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 5f14bc0..0387ea9 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,11 +21,12 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             stamp, _, milliseconds = res.partition('.')
@@ -33,15 +34,15 @@ def format_value(value, col):
                 else stamp.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From b96a0e3ebe2aa61666bb5d23e8038c11c4ff8908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 51/73] fix: keep the UTC offset when stripping zeros from
 fractions of seconds

---
 src/csvw/jsonld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 0387ea9..85215c4 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -29,9 +29,8 @@ def format_value(value, col):
         if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            # Only digits of the fraction may be stripped, not the ones of a UTC offset.
+            return re.sub(r'(\.[0-9]*[1-9])0+', r'\1', res).replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
         return datatype.formatted(value)
-- 
2.43.0


From cbce0f24071edf2f7374ed453a710ba9dc9a6f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 52/73] fix: format the items of lists

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 85215c4..a7a0db3 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -32,6 +32,8 @@ def format_value(value, col):
             # Only digits of the fraction may be stripped, not the ones of a UTC offset.
             return re.sub(r'(\.[0-9]*[1-9])0+', r'\1', res).replace('+00:00', 'Z')
         return res  # pragma: no cover
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
     if isinstance(value, datetime.timedelta):
         return datatype.formatted(value)
     if isinstance(value, Duration):
-- 
2.43.0


From 408d147937a4fddb3938b77a7e8e953d20883f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:37 +0000
Subject: [PATCH 53/73] fix: only merge lists of values of the same subject

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index a7a0db3..2abc97d 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -141,7 +141,8 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     for triple in triples:
         if isinstance(triple.value, list):
             for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
+                if t.property == triple.property and t.about == triple.about \
+                        and isinstance(t.value, list):
                     t.value.extend(triple.value)
                     break
             else:
-- 
2.43.0


From 79b743f550e1489255c03a5b3375dd69c0ff247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 54/73] fix: keep described objects which reference themselves
 or each other

---
 src/csvw/jsonld.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 2abc97d..fe9e36d 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -96,7 +96,7 @@ def frame(data: list) -> list:
 
     .. see:: https://w3c.github.io/json-ld-framing/#introduction
     """
-    items, refs = collections.OrderedDict(), {}
+    items, refs, inlined = collections.OrderedDict(), {}, {}
     for item in data:
         itemid = item.get('@id')
         if itemid:
@@ -109,7 +109,13 @@ def frame(data: list) -> list:
                         refs.setdefault(refid, (v, []))[1].append(item)
     for ref, subjects in refs.values():
         if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
+            # Items which (indirectly) reference themselves can't be inlined everywhere.
+            root = subjects[0].get('@id')
+            while root in inlined:
+                root = inlined[root]
+            if root != ref['@id']:
+                inlined[ref['@id']] = subjects[0].get('@id')
+                ref.update(items.pop(ref['@id']))
     return list(items.values())
 
 
-- 
2.43.0


From 042ae82ab5510f8e4db1dd58b0cf77066c072f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 55/73] fix: keep cells without aboutUrl in rows with several
 subjects

---
 src/csvw/jsonld.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index fe9e36d..7dc544f 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -191,8 +191,10 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
-    if grouped and ('@id' not in grouped) and len(res) == 1:
-        grouped.update(res[0])
-        return [grouped]
+    if grouped and ('@id' not in grouped):
+        if len(res) == 1:
+            grouped.update(res[0])
+            return [grouped]
+        res = [grouped] + res
 
     return res
-- 
2.43.0


From bd93e958aa55b02f851c6f399cf02ff1e68878d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 56/73] fix: list all described objects in minimal mode

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b31d178..7e8ba4a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1835,7 +1835,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From 111322ca8878e71708a5cd39865eb9b7608a1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 57/73] fix: skip empty lists of columns with inherited
 separator

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7e8ba4a..9a03609 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1897,7 +1897,7 @@ class CSVW:
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
             if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From 6118adc8db9dff9c84ca3af2407e2e3b42309035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 58/73] fix: skip virtual columns which are suppressed or have
 no value

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9a03609..83aad17 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1910,6 +1910,8 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
-                triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
+            if col.virtual and not col.suppressOutput:
+                triple = jsonld.Triple.from_col(table, col, row, col.header, None, rownum)
+                if triple.value is not None:
+                    triples.append(triple)
         return jsonld.group_triples(triples)
-- 
2.43.0


From 55103affb8a76b34fce0dfdb79631fbc2b2d83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 59/73] fix: keep lists and JSON objects as values of described
 objects

---
 src/csvw/jsonld.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 7dc544f..1cbaf61 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -8,7 +8,7 @@ import datetime
 import collections
 
 import attr
-from rdflib import Graph, URIRef, Literal
+from rdflib import Graph, URIRef, Literal, RDF
 from rfc3986 import URIReference
 from isodate.duration import Duration
 
@@ -62,10 +62,11 @@ class Triple:
     value = attr.ib()
 
     def as_rdflib_triple(self):
-        return (
-            URIRef(self.about),
-            URIRef(self.property),
-            URIRef(self.value) if is_url(self.value) else Literal(self.value))
+        if isinstance(self.value, (list, dict)):
+            value = Literal(json.dumps(self.value), datatype=RDF.JSON)
+        else:
+            value = URIRef(self.value) if is_url(self.value) else Literal(self.value)
+        return (URIRef(self.about), URIRef(self.property), value)
 
     @classmethod
     def from_col(cls, table, col, row, prop, val, rownum):
@@ -125,6 +126,8 @@ def to_json(obj, flatten_list=False):
     """
     if isinstance(obj, dict):
         if '@value' in obj:
+            if obj.get('@type') == str(RDF.JSON):
+                return json.loads(obj['@value'])
             obj = obj['@value']
         elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
@@ -180,9 +183,9 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     for triple in triples:
         g.add(triple.as_rdflib_triple())
     if '@id' in grouped:
-        for prop, val in grouped.items():
-            if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
+        for triple in merged:
+            if not triple.about and triple.property != '@id':
+                g.add(attr.evolve(triple, about=grouped['@id']).as_rdflib_triple())
     res = g.serialize(format='json-ld')
     # Frame and simplify the resulting objects, augment with list index:
     res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
-- 
2.43.0


From b0c7d33e96dfdcd61aecd7204afd4ce4320b0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 60/73] fix: expand templates which are prefixed names

---
 src/csvw/metadata.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 83aad17..ffddecd 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1185,19 +1185,18 @@ class TableLike(Description):
         if tmpl is INVALID:
             return self.url.resolve(self.base)
 
+        expanded = tmpl.expand(
+            _row=_row,
+            _name=_name,
+            **{_k: _v for _k, _v in row.items() if isinstance(_k, str)})
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
-                res = '{}{}'.format(url, tmpl.uri.split(':')[1])
+                res = '{}{}'.format(url, expanded.split(':', maxsplit=1)[1])
                 break
         else:
-            res = Link(
-                tmpl.expand(
-                    _row=_row,
-                    _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
-                )).resolve(self.url.resolve(self.base) if self.url else self.base)
+            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
                 for prefix, url in NAMESPACES.items():
-- 
2.43.0


From 91420144357782e1a91342b20bde10200c3b8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 61/73] fix: expand templates to texts, also relative to local
 files

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ffddecd..3f500a7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1183,7 +1183,7 @@ class TableLike(Description):
 
         """
         if tmpl is INVALID:
-            return self.url.resolve(self.base)
+            return str(self.url.resolve(self.base))
 
         expanded = tmpl.expand(
             _row=_row,
@@ -1203,7 +1203,7 @@ class TableLike(Description):
                     if res.startswith(url):
                         res = res.replace(url, prefix + ':')
                         break
-        return res
+        return str(res)
 
 
 @attr.s
-- 
2.43.0


From 3685c2a5c9847f40e2d69c526ad6101f6ec34821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 62/73] fix: keep empty strings which are not null

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3f500a7..806b4d5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1895,7 +1895,7 @@ class CSVW:
 
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or v == "" or (v is None) or \
+            if (null and v in null) or (v is None) or \
                     (col and col.inherit('separator') and v == []):
                 continue
 
-- 
2.43.0


From 212f25a77a1227dea625e0a3d7eba6ab366936fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 63/73] fix: keep all values of a property when merging objects

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 1cbaf61..7bf4238 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -195,7 +195,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
     if grouped and ('@id' not in grouped):
-        if len(res) == 1:
+        if len(res) == 1 and not any(prop in grouped for prop in res[0]):
             grouped.update(res[0])
             return [grouped]
         res = [grouped] + res
-- 
2.43.0


From 268433fe36ffaac14198c0450dff0f047d0e7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 64/73] fix: name columns of local files without metadata by
 their header

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 806b4d5..ca16114 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1691,7 +1691,7 @@ class CSVW:
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-            self.no_metadata = set(md.keys()) == {'@context', 'url'}
+            self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
-- 
2.43.0


From 22ac9b92b9bb25c1c10e29e1b8535e03cc8f85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 65/73] fix: strip only trailing zeros from fractions of
 seconds

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 7bf4238..05cd68a 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -30,7 +30,8 @@ def format_value(value, col):
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             # Only digits of the fraction may be stripped, not the ones of a UTC offset.
-            return re.sub(r'(\.[0-9]*[1-9])0+', r'\1', res).replace('+00:00', 'Z')
+            res = re.sub(r'\.[0-9]+', lambda m: m.group().rstrip('0'), res)
+            return res.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, list):
         return [format_value(v, col) for v in value]
-- 
2.43.0


From cf196a3aaccbc0680a80f9aa42c51cfbf54feb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 66/73] fix: do not add values of a property to lists of other
 triples

---
 src/csvw/jsonld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 05cd68a..d8e315d 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -174,7 +174,9 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
                         grouped[triple.property] = [grouped[triple.property]]
                     grouped[triple.property].append(triple.value)
                 else:
-                    grouped[triple.property] = triple.value
+                    # Values may be appended below, which must not change the triple.
+                    grouped[triple.property] = list(triple.value) \
+                        if isinstance(triple.value, list) else triple.value
             else:
                 triples.append(triple)
     if not triples:
-- 
2.43.0


From b9529aa73ff6275a7a726301d3c8860e9299f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 67/73] fix: abbreviate only the namespace of a URL

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ca16114..86c9108 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1201,7 +1201,7 @@ class TableLike(Description):
             if qname:
                 for prefix, url in NAMESPACES.items():
                     if res.startswith(url):
-                        res = res.replace(url, prefix + ':')
+                        res = prefix + ':' + res[len(url):]
                         break
         return str(res)
 
-- 
2.43.0


From 3a8202a7c3ed60f8de521235331bf604ae5e0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 68/73] fix: expand URI templates for columns named "self" or
 "var_dict"

---
 src/csvw/metadata.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 86c9108..8077270 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1185,10 +1185,9 @@ class TableLike(Description):
         if tmpl is INVALID:
             return str(self.url.resolve(self.base))
 
-        expanded = tmpl.expand(
-            _row=_row,
-            _name=_name,
-            **{_k: _v for _k, _v in row.items() if isinstance(_k, str)})
+        # Columns may have the names of keyword arguments of `URITemplate.expand`.
+        variables = {_k: _v for _k, _v in row.items() if isinstance(_k, str)}
+        expanded = tmpl.expand(dict(variables, _row=_row, _name=_name))
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
-- 
2.43.0


From d15b3e7f789a532209eace0cfb7e45b5d05f9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 69/73] fix: keep JSON strings equal to a null value

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8077270..13d3027 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1894,6 +1894,9 @@ class CSVW:
 
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
+            datatype = col.inherit('datatype') if col else None
+            if datatype and datatype.base == 'json':
+                null = None  # JSON strings are not to be mistaken for null cells.
             if (null and v in null) or (v is None) or \
                     (col and col.inherit('separator') and v == []):
                 continue
-- 
2.43.0


From 3414ad03938412482a21d3c422979615a0d0a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:53 +0000
Subject: [PATCH 70/73] fix: compare lengths of URIs with length constraints

The URIs returned by anyURI.to_python are tuples of five components, so
their len is always 5.
---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 13d3027..580e074 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -28,6 +28,7 @@ from language_tags import tags
 import attr
 import requests
 import uritemplate
+from rfc3986 import URIReference
 
 from . import utils
 from .datatypes import DATATYPES
@@ -666,7 +667,8 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v)
+            # Note: The URIs returned by `anyURI.to_python` are tuples of components.
+            l_ = len(v.unsplit() if isinstance(v, URIReference) else v)
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
-- 
2.43.0


From 9be1c1ab928507c44a9264221cd1487cea0932aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:55 +0000
Subject: [PATCH 71/73] fix: header cells match titles in any matching
 language, with an inherited lang

---
 src/csvw/metadata.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 580e074..4e2a318 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -804,13 +804,14 @@ class Column(Description):
             (self.titles and self.titles.getfirst()) or \
             '_col.{}'.format(self._number)
 
-    def has_title(self, v):
+    def has_title(self, v, lang=None):
         if self.name and self.name == v:
             return True
-        for tag, titles in (self.titles or {}).items():
-            if v in titles:
-                return tag or 'und'
-        return False
+        tags_ = [tag or 'und' for tag, titles in (self.titles or {}).items() if v in titles]
+        for tag in tags_:  # The same title may be given for several languages.
+            if tag.split('-')[0] in ['und', (lang or 'und').split('-')[0]]:
+                return tag
+        return tags_[0] if tags_ else False
 
     @property
     def header(self):
@@ -1397,14 +1398,15 @@ class Table(TableLike):
                 try:
                     _, header = next(reader)
                     if not strict:
+                        lang = self.inherit('lang') or 'und'
                         if self.tableSchema.columns and len(self.tableSchema.columns) < len(header):
                             warnings.warn('Column number mismatch')
                         for name, col in zip(header, self.tableSchema.columns):
-                            res = col.has_title(name)
+                            res = col.has_title(name, lang)
                             if (not col.name) and not res:
                                 warnings.warn('Incompatible table models')
                             if isinstance(res, str) and res.split('-')[0] not in [
-                                    'und', (self.lang or 'und').split('-')[0]]:
+                                    'und', lang.split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     return
-- 
2.43.0


From f9544b87feab8709d24edceceede3d64c3f10945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:21 +0000
Subject: [PATCH 72/73] fix: columns with titles in named languages only are no
 duplicates

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4e2a318..b8bf267 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -957,6 +957,7 @@ class Schema(Description):
     def __attrs_post_init__(self):
         virtual, seen, names = False, set(), set()
         for i, col in enumerate(self.columns):
+            col._number = i + 1  # Must be set before col.header is accessed.
             if col.name and (col.name.startswith('_') or re.search(r'\s', col.name)):
                 warnings.warn('Invalid column name')
             if col.virtual:  # first virtual column sets the flag
@@ -972,7 +973,6 @@ class Schema(Description):
                     names.add(col.name)
                 seen.add(col.header)
             col._parent = self
-            col._number = i + 1
         for colref in self.primaryKey or []:
             col = self.columndict.get(colref)
             if col and not col.name:
-- 
2.43.0


From 726861ff719f6e90e4b65e49bcb66fdc5a17128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:13 +0000
Subject: [PATCH 73/73] fix: numbers with a fraction are valid values of common
 properties

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b8bf267..cba55f8 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -396,7 +396,8 @@ def valid_common_property(v):
             if len(v) > 1:
                 if len(v) > 2 \
                         or set(v.keys()) not in [{'@value', '@language'}, {'@value', '@type'}] \
-                        or not isinstance(v['@value'], (str, bool, int, decimal.Decimal)):
+                        or not isinstance(
+                            v['@value'], (str, bool, int, float, decimal.Decimal)):
                     raise ValueError(
                         "If a @value property is used on an object, that object MUST NOT have "
                         "any other properties aside from either @type or @language, and MUST "
-- 
2.43.0

