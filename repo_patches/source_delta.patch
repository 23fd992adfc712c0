From 85b18a61df14b7aa11be808d3a48fe5c8f4912a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 01/53] fix: keep fractional bounds of floats in the generated
 code

---
 mapry/parse.py                    | 26 ++++++++++++++++++++++++--
 mapry/py/generate/fromjsonable.py |  4 ++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..e07b242 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -103,6 +103,28 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound_from_mapping(mapping: Mapping[str, Any],
+                              key: str) -> Optional[float]:
+    """
+    Parse the bound of a floating-point number from the type definition.
+
+    Whole bounds are represented as integers so that they are rendered
+    without the fraction in the generated code.
+
+    :param mapping: representing the type definition
+    :param key: of the bound in the mapping
+    :return: parsed bound, if specified
+    """
+    if key not in mapping:
+        return None
+
+    bound = mapping[key]
+    if abs(bound) < 2**53 and int(bound) == bound:
+        return int(bound)
+
+    return float(bound)
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +154,10 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound_from_mapping(mapping=mapping, key='minimum'),
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound_from_mapping(mapping=mapping, key='maximum'),
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..915f2b8 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -396,7 +396,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.minimum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
@@ -408,7 +408,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.maximum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
-- 
2.43.0


From f74939beeb984c2f13957dce90b6bf51bbc9ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/53] fix: keep the prefix when looking up an irregular
 plural

---
 mapry/naming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..7f0f5a4 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -75,7 +75,7 @@ def plural(identifier: str) -> str:
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return '_'.join(parts[:-1] + [PLURAL_TABLE[last_part]])
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From bd58a4bcf55b6b9de463f681c46eb2c8b6bcd7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/53] fix: serialize Python attributes of classes and embeds
 by their Python names

---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From a18856b8e7cb8208be6cba93a5ae4c3e03f4dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 04/53] fix: define and serialize the C++ fields by their C++
 names

---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..6580f1a 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..8b59352 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -234,6 +235,8 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
     blocks = []  # type: List[str]
 
     for prop in composite.properties.values():
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
+
         block = []  # type: List[str]
         if prop.description:
             block.append(mapry.cpp.generate.comment(text=prop.description))
@@ -257,9 +260,9 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From 11c774f93ec91db5b4288b7b790f933ba6a7399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/53] fix: escape braces of patterns and formats in the
 generated Python messages

---
 mapry/py/generate/__init__.py     | 14 ++++++++++++++
 mapry/py/generate/fromjsonable.py | 10 +++++-----
 mapry/py/jinja2_env.py            |  1 +
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 406bfea..ffbc30f 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -29,6 +29,20 @@ def comment(text: str) -> str:
     return '\n'.join(comment_lines)
 
 
+def escaped_braces(text: str) -> str:
+    """
+    Escape the braces so that the text can be embedded in a format string.
+
+    :param text: to be embedded literally in a format string
+    :return: text with escaped braces
+
+    >>> escaped_braces(text='[0-9]{2}')
+    '[0-9]{{2}}'
+
+    """
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 def type_repr(a_type: mapry.Type, py: mapry.Py) -> str:
     """
     Generate the Python type representation of the given mapry type.
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 915f2b8..83356ba 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -472,7 +472,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escaped_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -546,7 +546,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escaped_braces)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_braces)|repr }}.format(
                 {{ value }}))
 ''')
 
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..5a40aa2 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -20,6 +20,7 @@ ENV.filters.update({
     'as_composite': mapry.py.naming.as_composite,
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
+    'escaped_braces': mapry.py.generate.escaped_braces,
     'repr': repr,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
-- 
2.43.0


From ce95c875c8a4a742c92cb011e1c1a4eb883b0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 06/53] fix: generate valid Python string literals for patterns

---
 mapry/py/generate/__init__.py     | 23 +++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py |  6 +++---
 mapry/py/jinja2_env.py            |  1 +
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index ffbc30f..ababa33 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -43,6 +43,29 @@ def escaped_braces(text: str) -> str:
     return text.replace('{', '{{').replace('}', '}}')
 
 
+def raw_str(text: str) -> str:
+    """
+    Translate the text into a raw Python string literal, if possible.
+
+    If the text can not be represented as a raw string literal, it is
+    translated to a common string literal.
+
+    :param text: to be translated
+    :return: Python string literal
+
+    >>> print(raw_str(text='[a-z]*'))
+    r'[a-z]*'
+
+    >>> print(raw_str(text="it's"))
+    "it's"
+
+    """
+    if "'" in text or text.endswith('\\') or not text.isprintable():
+        return repr(text)
+
+    return "r'{}'".format(text)
+
+
 def type_repr(a_type: mapry.Type, py: mapry.Py) -> str:
     """
     Generate the Python type representation of the given mapry type.
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 83356ba..0481001 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,7 +466,7 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_raw_str }},
             {{ value }}):
         errors.add(
             '/'.join((
@@ -540,7 +540,7 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_raw_str }},
             {{ value }}):
         errors.add(
             '/'.join((
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|as_raw_str }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 5a40aa2..012ae8c 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -20,6 +20,7 @@ ENV.filters.update({
     'as_composite': mapry.py.naming.as_composite,
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
+    'as_raw_str': mapry.py.generate.raw_str,
     'escaped_braces': mapry.py.generate.escaped_braces,
     'repr': repr,
     'json_plural': mapry.naming.json_plural,
-- 
2.43.0


From 9b2f51f107e34a5d278938fc582fdb608f95c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 07/53] fix: generate compilable Go code for a graph without
 properties and classes

---
 mapry/go/generate/fromjsonable.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..f20a96c 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,12 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    if graph.classes or graph.properties or any(
+            embed.properties for embed in graph.embeds.values()):
+        # needed to join the reference paths
+        import_set.add('strings')
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
@@ -1641,7 +1646,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0


From 6af2b262622558dfc6ab81860164a608fb65dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 08/53] fix: escape percents of patterns and formats in the
 generated Go messages

---
 mapry/go/generate/fromjsonable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index f20a96c..d06607a 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -697,7 +697,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|replace('%', '%%'))|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -766,7 +766,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|replace('%', '%%'))|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1697,7 +1697,7 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|replace('%', '%%'))|escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
-- 
2.43.0


From fb0fb2f84ea1fac39c8fcad8c16c49b4b13dd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 09/53] fix: use the Go layouts Mon and Monday for weekday
 directives

---
 mapry/go/timeformat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..013bf44 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -8,8 +8,8 @@ import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
-- 
2.43.0


From f3d9a20798cf90134402d1a156dd33afaadb5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 10/53] fix: detect all the date/time formats which Go would
 misinterpret

---
 mapry/go/timeformat.py | 40 +++++++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py | 17 +++++++++++++++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 013bf44..6b3a0ef 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
+import re
+from typing import List, Optional  # pylint: disable=unused-import
 
 from icontract import ensure
 
@@ -63,3 +64,40 @@ def convert(a_format: str) -> str:
                 parts.append(tkn.content)
 
     return ''.join(parts)
+
+
+# Mimics how the Go package ``time`` searches for the directives in a layout
+_GO_DIRECTIVE_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST|002|0[1-6]|15|1|2006|2|'
+    r'(?<=_)2006|__2|_2(?!006)|3|4|5|PM|pm|'
+    r'-070000|-07:00:00|-0700|-07:00|-07|'
+    r'Z070000|Z07:00:00|Z0700|Z07:00|Z07|'
+    r'[.,](?:0+|9+)(?![0-9])')
+
+
+def find_conflict(a_format: str) -> Optional[str]:
+    """
+    Search for a part of the converted format which Go would misinterpret.
+
+    :param a_format: strftime/strptime directives
+    :return:
+        the first Go directive which does not correspond to a directive in
+        the format, if any
+
+    >>> find_conflict(a_format="%Y-%m-%d %H:%M:%SZ")
+
+    >>> find_conflict(a_format="5 o'clock")
+    '5'
+
+    """
+    expected = []  # type: List[str]
+    for tkn_line in mapry.strftime.tokenize(format=a_format):
+        for tkn in tkn_line:
+            if tkn.identifier == 'directive' and tkn.content != '%%':
+                expected.append(_STRFTIME_TO_GO[tkn.content])
+
+    for mtch in _GO_DIRECTIVE_RE.finditer(convert(a_format=a_format)):
+        if not expected or mtch.group() != expected.pop(0):
+            return mtch.group()
+
+    return expected[0] if expected else None
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..36c6611 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,6 +3,7 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
 import mapry.strftime
 import mapry.validation
@@ -306,6 +307,22 @@ def _validate_date_time_formats(graph: mapry.Graph
                                     type_str, directive, a_type.format),
                             ref=ref))
                     break
+
+        if not any(directive in tkn.content
+                   for tkn in text_tkns
+                   for directive in _GO_TIME_FORMAT_DIRECTIVES):
+            # Search also for the directives which are not listed or which
+            # result from the concatenation of the tokens.
+            conflict = mapry.go.timeformat.find_conflict(a_format=a_type.format)
+            if conflict is not None:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            'Format contains a conflicting '
+                            'Go time.Format directive {}: {}').format(
+                                conflict, a_type.format),
+                        ref=ref))
+
     return errs
 
 
-- 
2.43.0


From fd092736ddb0b2d1357d3e04fa3a5e444cac9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 11/53] fix: parse optional dates and datetimes with date.h

---
 mapry/cpp/generate/jsoncpp_impl.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 6580f1a..aa0bd88 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1880,9 +1880,16 @@ def _parse_property(
     needs_emplace = isinstance(
         a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
 
+    # date::parse can not parse directly into an optional.
+    parses_in_place = (
+        cpp.datetime_library == 'date.h'
+        and isinstance(a_property.type, (mapry.Date, mapry.Datetime)))
+    needs_emplace = needs_emplace or parses_in_place
+
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
+        if parses_in_place or isinstance(
+                a_property.type, (mapry.Array, mapry.Map)):
             parsing_target_expr = "*{}".format(property_target_expr)
         elif isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
-- 
2.43.0


From b91f88283be5b0badbd5c94f258bd75977206b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 12/53] fix: do not continue C++ comments on the next line

---
 mapry/cpp/generate/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..388a394 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -14,9 +14,20 @@ def comment(text: str) -> str:
 
     :param text: of the comment
     :return: non-indented comment
+
+    >>> comment(text='some text')
+    '// some text'
+
+    A backslash at the end would continue the comment on the next line:
+
+    >>> comment(text='some text\\\\')
+    '// some text\\\\.'
     """
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
+        if line.rstrip().endswith('\\'):
+            line = line.rstrip() + '.'
+
         if line.strip():
             comment_lines.append('// {}'.format(line))
         else:
-- 
2.43.0


From 668fa26a89ab75a194a5fbf4898a4c3bfe70ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 13/53] fix: define nested embeddable structures first in C++

---
 mapry/cpp/generate/types_header.py | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 8b59352..81b16fd 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -367,6 +367,36 @@ def _graph_definition(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
                                                       cpp=cpp)).strip()
 
 
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Order the embeddable structures so that the nested ones are defined first.
+
+    C++ requires the types of the fields to be complete. The order from the
+    schema is kept otherwise.
+
+    :param graph: mapry definition of the object graph
+    :return: embeddable structures in the order of definition
+    """
+    result = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[mapry.Embed]
+
+    def visit(embed: mapry.Embed) -> None:
+        if embed in visited:
+            return
+        visited.add(embed)
+
+        for prop in embed.properties.values():
+            if isinstance(prop.type, mapry.Embed):
+                visit(embed=prop.type)
+
+        result.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed=embed)
+
+    return result
+
+
 @ensure(lambda result: result.endswith('\n'))
 def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     """
@@ -392,7 +422,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From e09aa0e7414ac2d07b4fcdaca36f00994f8bc5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 14/53] fix: refuse the graph as a type of a property

---
 mapry/validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..013b7ef 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -36,7 +36,9 @@ def _validate_names(mapping: Mapping[str, Any],
 
     :param mapping: representing the mapry schema
     :param ref: reference path to the mapry definition
-    :return: set of structure names, list of errors
+    :return:
+        set of names which can be used as types (the graph can not be nested),
+        list of errors
     """
     errs = []  # type: List[SchemaError]
 
@@ -64,7 +66,7 @@ def _validate_names(mapping: Mapping[str, Any],
 
             names.add(name)
 
-    return names, errs
+    return names - {mapping['name']}, errs
 
 
 def _validate_class(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
-- 
2.43.0


From a31d65246a96cc507a04d0f6538bd54f0476d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 15/53] fix: report missing and non-string types of nested
 values

---
 mapry/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index 013b7ef..1d85d07 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -421,7 +421,11 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
-    if mapping['type'] not in types:
+    if 'type' not in mapping:
+        return SchemaError(
+            message="'type' is a required property", ref=ref)
+
+    if not isinstance(mapping['type'], str) or mapping['type'] not in types:
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
-- 
2.43.0


From 3df615da13f2989a4b28d2f58ce75acb9e5a658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 16/53] fix: refuse bounds of floats which are not finite

---
 mapry/validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 1d85d07..23e9716 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -2,6 +2,7 @@
 """Validate the mapry schema."""
 
 import collections
+import math
 import re
 from typing import Any, Dict, List, Mapping, Optional, Set, Tuple
 
@@ -197,6 +198,17 @@ def _validate_float(mapping: Mapping[str, Any],
     :param ref: reference to the type definition
     :return: error, if any
     """
+    for key in ['minimum', 'maximum']:
+        try:
+            representable = math.isfinite(float(mapping.get(key, 0)))
+        except OverflowError:
+            representable = False
+
+        if not representable:
+            return SchemaError(
+                message="{} is not a finite floating-point number".format(key),
+                ref='{}/{}'.format(ref, key))
+
     if 'minimum' in mapping and 'maximum' in mapping:
         minimum = mapping['minimum']
         maximum = mapping['maximum']
-- 
2.43.0


From fdfd5b1988a0532b53188ac2837deb411f370ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 17/53] fix: refuse properties with the same JSON name

---
 mapry/validation.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 23e9716..e812cb3 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -548,7 +548,20 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
     if 'properties' not in mapping:
         return []
 
+    json_to_name = dict()  # type: Dict[str, str]
     for name, property_mapping in mapping['properties'].items():
+        json_name = property_mapping.get('json', name)
+        if json_name in json_to_name:
+            errs.append(
+                SchemaError(
+                    message=(
+                        "Duplicate JSON name {!r} of the properties "
+                        "{!r} and {!r}").format(
+                            json_name, json_to_name[json_name], name),
+                    ref="{}/properties/{}".format(ref, name)))
+
+        json_to_name[json_name] = name
+
         if not _PROPERTY_RE.match(name):
             errs.append(
                 SchemaError(
-- 
2.43.0


From 5ad31f5c4a0434f05da1d82570b3e6ebc4ac6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 18/53] fix: detect all the conflicts of the instance
 registries

---
 mapry/validation.py | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index e812cb3..672518d 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -582,9 +582,9 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
 def _validate_plurals(mapping: Mapping[str, Any],
                       ref: str) -> List[SchemaError]:
     """
-    Check that no graph field conflicts with a instance registry field.
+    Check that the instance registries conflict with no other graph field.
 
-     The instance registry field is identified with a plural of the class.
+    The instance registry field is identified with a plural of the class.
 
     :param mapping: schema mapping to be validated
     :param ref: reference to the schema
@@ -593,12 +593,11 @@ def _validate_plurals(mapping: Mapping[str, Any],
     if 'classes' not in mapping:
         return []
 
-    if 'properties' not in mapping:
-        return []
+    errs = []  # type: List[SchemaError]
 
     registry_property_to_class_name = dict()  # type: Dict[str, str]
 
-    for cls_mapping in mapping['classes']:
+    for i, cls_mapping in enumerate(mapping['classes']):
         if 'plural' in cls_mapping:
             plural = cls_mapping['plural']
         else:
@@ -611,10 +610,25 @@ def _validate_plurals(mapping: Mapping[str, Any],
             plural = mapry.naming.plural(identifier=cls_mapping['name'])
 
         plural_as_property = mapry.naming.json_plural(a_plural=plural)
+        # The duplicate names of the classes are reported separately.
+        if (registry_property_to_class_name.get(
+                plural_as_property, cls_mapping['name']) !=
+                cls_mapping['name']):
+            errs.append(
+                SchemaError(
+                    message=(
+                        'The registry {!r} of class {!r} conflicts with '
+                        'the registry of class {!r}').format(
+                            plural_as_property, cls_mapping['name'],
+                            registry_property_to_class_name[plural_as_property]
+                        ),
+                    ref='{}/classes/{}'.format(ref, i)))
+
         registry_property_to_class_name[plural_as_property] = (
             cls_mapping['name'])
 
-    errs = []  # type: List[SchemaError]
+    if 'properties' not in mapping:
+        return errs
 
     if isinstance(mapping['properties'], collections.OrderedDict):
         property_names = list(mapping['properties'].keys())
@@ -622,15 +636,20 @@ def _validate_plurals(mapping: Mapping[str, Any],
         property_names = sorted(mapping['properties'].keys())
 
     for property_name in property_names:
-        if property_name in registry_property_to_class_name:
-            errs.append(
-                SchemaError(
-                    message=(
-                        'Graph property {!r} conflicts with the plural '
-                        'necessary for the registry of class {!r}').format(
-                            property_name,
-                            registry_property_to_class_name[property_name]),
-                    ref='{}/{}'.format(ref, property_name)))
+        json_name = mapping['properties'][property_name].get(
+            'json', property_name)
+
+        for name in [property_name, json_name]:
+            if name in registry_property_to_class_name:
+                errs.append(
+                    SchemaError(
+                        message=(
+                            'Graph property {!r} conflicts with the plural '
+                            'necessary for the registry of class {!r}').format(
+                                property_name,
+                                registry_property_to_class_name[name]),
+                        ref='{}/{}'.format(ref, property_name)))
+                break
 
     return errs
 
-- 
2.43.0


From b8fa73ddb6470f550085de11d3188bfff8679730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 19/53] fix: anchor the patterns of names in the schema fully

---
 mapry/schemas.py    | 18 +++++++++---------
 mapry/validation.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..b1e833d 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "type": "string",
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$(?!\\n)"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*$(?!\\n)"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*$(?!\\n)"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$(?!\n)"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*$(?!\\n)"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,7 +162,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "type": "string",
@@ -175,7 +175,7 @@ GRAPH = {
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "id_pattern": {
                     "type":
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?$(?!\\n)"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
diff --git a/mapry/validation.py b/mapry/validation.py
index 672518d..798de37 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -562,7 +562,7 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
 
         json_to_name[json_name] = name
 
-        if not _PROPERTY_RE.match(name):
+        if not _PROPERTY_RE.fullmatch(name):
             errs.append(
                 SchemaError(
                     message=("Property name invalid, expected {}, "
-- 
2.43.0


From 3d974e6577d29e3bfe5a9138312e38676f53cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 20/53] fix: refuse an empty indention of the Python code

---
 mapry/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index b1e833d..481ff46 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$(?!\\n)"
+                    "pattern": "^[ \t]+$(?!\\n)"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
-- 
2.43.0


From aefc6ce79e0c13353e7c636bfefdddd2e87ec5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 21/53] fix: refuse embeddable structures which contain
 themselves

---
 mapry/validation.py | 47 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 798de37..a913ba4 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -579,6 +579,50 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
     return errs
 
 
+def _validate_finite_embeds(mapping: Mapping[str, Any],
+                            ref: str) -> List[SchemaError]:
+    """
+    Check that no embeddable structure needs to contain itself.
+
+    A mandatory property of an embeddable structure which directly or
+    indirectly nests the very same structure can not be instantiated.
+
+    :param mapping: schema mapping to be validated
+    :param ref: reference to the schema
+    :return: list of schema errors or an empty list, if no errors
+    """
+    nested = dict()  # type: Dict[str, Set[str]]
+    for embed_mapping in mapping.get('embeds', []):
+        nested[embed_mapping['name']] = {
+            property_mapping['type']
+            for property_mapping in embed_mapping.get('properties',
+                                                      dict()).values()
+            if not property_mapping.get('optional', False)
+        }
+
+    errs = []  # type: List[SchemaError]
+    for i, embed_mapping in enumerate(mapping.get('embeds', [])):
+        name = embed_mapping['name']
+
+        reachable = set()  # type: Set[str]
+        stack = [name]
+        while stack:
+            for other in nested[stack.pop()]:
+                if other in nested and other not in reachable:
+                    reachable.add(other)
+                    stack.append(other)
+
+        if name in reachable:
+            errs.append(
+                SchemaError(
+                    message=(
+                        "Embeddable structure {!r} contains itself").format(
+                            name),
+                    ref='{}/embeds/{}'.format(ref, i)))
+
+    return errs
+
+
 def _validate_plurals(mapping: Mapping[str, Any],
                       ref: str) -> List[SchemaError]:
     """
@@ -738,6 +782,9 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
                     ref='{}/embeds/{}'.format(ref, i),
                     types=types))
 
+    # Check that the embeddable structures do not contain themselves
+    errors.extend(_validate_finite_embeds(mapping=mapping, ref=ref))
+
     # Check that all the plurals of the classes
     # do not conflict any of the graph properties
     errors.extend(_validate_plurals(mapping=mapping, ref=ref))
-- 
2.43.0


From 876b8c950211e5cd3dd832a3b95f874007550da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 22/53] fix: detect composites whose identifier conflicts with
 the graph

---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 36c6611..de7e381 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -347,7 +347,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From aadbe9222486397b16cc7494a0be8e9cf1676057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 23/53] fix: refuse structures named as the generated Go
 functions

---
 mapry/go/validation.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index de7e381..19cf8a6 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -202,31 +202,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From 1a4a309cf7b28edf9230dd85b93526099066f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 24/53] fix: reserve all the generated Go identifiers

---
 mapry/go/validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 19cf8a6..d351e84 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -183,7 +183,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Error', 'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
-- 
2.43.0


From ee93d9f84a0016d8770729c0af54adc53203fb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 25/53] fix: reserve async, await and self as Python attributes

---
 mapry/py/validation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..9b7757a 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -7,8 +7,8 @@ import mapry.py.naming
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
     'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
     'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
@@ -70,6 +70,15 @@ def _validate_attributes(attributes: List[_Attribute]
                         "is reserved in Python").format(attribute.name),
                     ref=attribute.ref))
 
+        if attribute.name == 'self':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "conflicts with the first argument of "
+                        "the constructor").format(attribute.name),
+                    ref=attribute.ref))
+
         if attribute.name in name_to_attributes:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From 614a6f435028da832568c6a0a1ccfbdcfc500e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 26/53] fix: refuse registries and properties which shadow
 names in the Python graph

---
 mapry/py/validation.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 9b7757a..982b082 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -145,9 +145,40 @@ def _validate_graph_attributes(graph: mapry.Graph
 
     registry_attribute_map = dict()  # type: MutableMapping[str, mapry.Class]
 
+    if graph.classes:
+        # The constructor of the graph initializes the registries with
+        # the module ``collections``.
+        attribute_refs = [(attribute.name, attribute.ref)
+                          for attribute in attributes]
+
+        attribute_refs.extend(
+            (mapry.py.naming.as_attribute(identifier=cls.plural), cls.ref)
+            for cls in graph.classes.values())
+
+        for name, ref in attribute_refs:
+            if name == 'collections':
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The Python attribute identifier {!r} "
+                            "of the object graph conflicts with the module "
+                            "used in the constructor").format(name),
+                        ref=ref))
+
     for cls in graph.classes.values():
         plural_attribute = mapry.py.naming.as_attribute(identifier=cls.plural)
 
+        if plural_attribute == 'self':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "corresponding to the registry of the class {!r} "
+                        "in the object graph conflicts with "
+                        "the first argument of the constructor").format(
+                            plural_attribute, cls.name),
+                    ref=cls.ref))
+
         if plural_attribute in _KEYWORDS:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From db6aab5be8d786affcf1bc75ee5a296cba86927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 27/53] fix: refuse composites with the same Python functions

---
 mapry/py/validation.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 982b082..3f1456c 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -305,6 +305,31 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
             _validate_attributes(
                 _properties_to_attributes(properties=embed.properties)))
 
+    # Check that the names of the generated functions do not conflict
+    variable_to_composite = dict()  # type: Dict[str, mapry.Composite]
+    composites = [schema.graph]  # type: List[mapry.Composite]
+    composites.extend(schema.graph.classes.values())
+    composites.extend(schema.graph.embeds.values())
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+        identifier = mapry.py.naming.as_composite(identifier=composite.name)
+
+        other = variable_to_composite.get(variable, None)
+        if other is None:
+            variable_to_composite[variable] = composite
+
+        # The conflicts of the type names have been already reported.
+        elif mapry.py.naming.as_composite(
+                identifier=other.name) != identifier:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The functions of the composite {!r} and "
+                        "of the composite {!r} ({}) "
+                        "have conflicting Python identifiers: {!r}".format(
+                            composite.name, other.name, other.ref, variable)),
+                    ref=composite.ref))
+
     # Check that the attributes of the object graph are valid
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
-- 
2.43.0


From 285967e141c7367908e903ca21f254f033b69422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 28/53] fix: convert identifiers with consecutive underscores

---
 mapry/naming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index 7f0f5a4..994716e 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -140,7 +140,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -176,6 +176,6 @@ def ucamel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From c38144be6da652798e55600425dabcf3f3f6e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 29/53] fix: refuse integer constraints beyond 64 bits in Go
 and C++

---
 mapry/cpp/validation.py | 36 +++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 7c127a6..0475f9b 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Optional)
 
 import mapry
 import mapry.cpp
@@ -193,6 +193,38 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_integers(graph: mapry.Graph
+                       ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that all the integer constraints can be represented in C++.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        constraints = []  # type: List[Optional[int]]
+        if isinstance(a_type, mapry.Integer):
+            constraints = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            constraints = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for constraint in constraints:
+            if (constraint is not None
+                    and not -2**63 <= constraint <= 2**63 - 1):
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The constraint {} can not be represented "
+                            "as a 64-bit integer").format(constraint),
+                        ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -277,4 +309,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    errs.extend(_validate_integers(graph=schema.graph))
+
     return errs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index d351e84..e4ed419 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Optional)
 
 import mapry
 import mapry.go.timeformat
@@ -330,6 +330,38 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_integers(graph: mapry.Graph
+                       ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that all the integer constraints can be represented in Go.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        constraints = []  # type: List[Optional[int]]
+        if isinstance(a_type, mapry.Integer):
+            constraints = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            constraints = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for constraint in constraints:
+            if (constraint is not None
+                    and not -2**63 <= constraint <= 2**63 - 1):
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The constraint {} can not be represented "
+                            "as a 64-bit integer").format(constraint),
+                        ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Go code for the given mapry schema.
@@ -417,4 +449,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
+    errs.extend(_validate_integers(graph=schema.graph))
+
     return errs
-- 
2.43.0


From cba6dc769905669cdba557c275de66557e22fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 30/53] fix: refuse recursive optional embeds in C++

---
 mapry/cpp/validation.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 0475f9b..84dd604 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -225,6 +225,40 @@ def _validate_integers(graph: mapry.Graph
     return errs
 
 
+def _validate_complete_embeds(graph: mapry.Graph
+                              ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that no embeddable structure is held by value in itself.
+
+    The mandatory properties have been already validated in the schema, so only
+    the optional properties can be involved in such a recursion.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for embed in graph.embeds.values():
+        reachable = dict()  # type: Dict[str, mapry.Embed]
+        stack = [embed]
+        while stack:
+            for prop in stack.pop().properties.values():
+                if (isinstance(prop.type, mapry.Embed)
+                        and prop.type.name not in reachable):
+                    reachable[prop.type.name] = prop.type
+                    stack.append(prop.type)
+
+        if embed.name in reachable:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The embeddable structure {!r} contains itself and "
+                        "would be incomplete in C++").format(embed.name),
+                    ref=embed.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -309,6 +343,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    errs.extend(_validate_complete_embeds(graph=schema.graph))
+
     errs.extend(_validate_integers(graph=schema.graph))
 
     return errs
-- 
2.43.0


From ae962bb6d5f810385b58755375c58a176186c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 31/53] fix: read the schema and write the code independently
 of the locale

---
 mapry/main.py  | 6 +++---
 mapry/parse.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..78835a7 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -79,7 +79,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -132,7 +132,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -183,7 +183,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
diff --git a/mapry/parse.py b/mapry/parse.py
index e07b242..4b54728 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -402,7 +402,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         try:
@@ -412,7 +412,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = path.read_text(encoding='utf-8').splitlines()
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From 0c86095e6fba71d41cc0d3fbfa557b4bde79fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 32/53] fix: name the missing settings of the language

---
 mapry/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/main.py b/mapry/main.py
index 78835a7..e94ca9d 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -108,7 +108,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     if go is None:
         print(
-            'Expected the C++ settings to be set in the schema, '
+            'Expected the Go settings to be set in the schema, '
             'but found none (no "go" field)',
             file=sys.stderr)
         return 1
-- 
2.43.0


From 9436d8988456643c10df9c06d5ab51520a561e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 33/53] fix: report JSON errors at the end of the schema file

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4b54728..9204d96 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -412,7 +412,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text(encoding='utf-8').splitlines()
+            lines = path.read_text(encoding='utf-8').split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From e0c530d9ef27e17b413cbea6e4083e824c4e04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 34/53] fix: keep the line breaks of the date/time formats in
 Go

---
 mapry/go/timeformat.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 6b3a0ef..faa6174 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -3,8 +3,6 @@
 import re
 from typing import List, Optional  # pylint: disable=unused-import
 
-from icontract import ensure
-
 import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
@@ -31,7 +29,6 @@ _STRFTIME_TO_GO = {
 }
 
 
-@ensure(lambda result: not result.endswith('\n'))
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
@@ -48,12 +45,16 @@ def convert(a_format: str) -> str:
     """
     tkn_lines = mapry.strftime.tokenize(format=a_format)
 
-    parts = []  # type: List[str]
+    # The line breaks are not tokenized, but they are part of the format.
+    lines = a_format.splitlines()
+    line_breaks = [
+        full_line[len(line):]
+        for line, full_line in zip(lines, a_format.splitlines(True))
+    ]
 
-    for i, tkn_line in enumerate(tkn_lines):
-        if i > 0:
-            parts.append('\n')
+    parts = []  # type: List[str]
 
+    for tkn_line, line_break in zip(tkn_lines, line_breaks):
         for tkn in tkn_line:
             if tkn.identifier == 'directive':
                 assert tkn.content in _STRFTIME_TO_GO, \
@@ -63,6 +64,8 @@ def convert(a_format: str) -> str:
             elif tkn.identifier == 'text':
                 parts.append(tkn.content)
 
+        parts.append(line_break)
+
     return ''.join(parts)
 
 
-- 
2.43.0


From 46f3d9cd6a76322a1b85ddf92618cded19fee638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 35/53] fix: escape the unprintable characters in Go string
 literals

---
 mapry/go/generate/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..86a3c38 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -86,6 +86,12 @@ def type_repr(a_type: mapry.Type, go: mapry.Go) -> str:
             "Unhandled Go represenation of a type: {}".format(type(a_type)))
 
 
+# Go refuses some of these characters in the source code, and the templates
+# break the lines at others.
+_UNPRINTABLE_RE = re.compile(
+    r'[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]')
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def escaped_str(text: str) -> str:
     r"""
@@ -113,14 +119,16 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
+    result = _UNPRINTABLE_RE.sub(
+        lambda mtch: '\\u{:04x}'.format(ord(mtch.group(0))), result)
+
     return '"{}"'.format(result)
 
 
-- 
2.43.0


From b22ab1d93cc9c143453f8e45e8a79411532187e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 36/53] fix: escape the unprintable characters of the patterns
 in Go

---
 mapry/go/generate/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 86a3c38..773929b 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -151,6 +151,10 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
+    if _UNPRINTABLE_RE.search(text):
+        # Such characters are not kept verbatim between the backticks.
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
-- 
2.43.0


From 06ffa869ad41835303b2c7c86a28bd8d2b8b3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 37/53] fix: escape the unprintable characters in C++ string
 literals

---
 mapry/cpp/generate/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 388a394..3dbea67 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -1,5 +1,6 @@
 """Generate the C++ code to parse and serialize a mapry object graph."""
 import collections
+import re
 from typing import List
 
 import mapry
@@ -129,6 +130,11 @@ def type_repr(a_type: mapry.Type, cpp: mapry.Cpp) -> str:
             "Unhandled C++ represenation of a type: {}".format(type(a_type)))
 
 
+# The templates break the lines at some of these characters, and the compilers
+# do not keep the others verbatim.
+_UNPRINTABLE_RE = re.compile(r'[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff]')
+
+
 def escaped_str(text: str) -> str:
     r"""
     Convert the ``text`` into a C++ escaped string.
@@ -153,12 +159,16 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
+    result = _UNPRINTABLE_RE.sub(
+        lambda mtch: ''.join(
+            '\\{:03o}'.format(byte)
+            for byte in mtch.group(0).encode('utf-8')), result)
+
     return '"{}"'.format(result)
-- 
2.43.0


From 71490907d84777aff9d2d9e6fa8c791cd146ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 38/53] fix: escape the unprintable characters of the patterns
 in C++

---
 mapry/cpp/generate/__init__.py     | 18 ++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  9 +++++----
 mapry/cpp/jinja2_env.py            |  1 +
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 3dbea67..2cc4146 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -172,3 +172,21 @@ def escaped_str(text: str) -> str:
             for byte in mtch.group(0).encode('utf-8')), result)
 
     return '"{}"'.format(result)
+
+
+def regex_str(text: str) -> str:
+    """
+    Convert the regular expression into a C++ string literal.
+
+    :param text: regular expression
+    :return: C++ string literal
+
+    >>> regex_str(text=r'^\\s*"')
+    'R"v0g0n(^\\\\s*")v0g0n"'
+
+    """
+    if _UNPRINTABLE_RE.search(text) or ')v0g0n"' in text:
+        # Such texts are not kept verbatim in a raw string.
+        return escaped_str(text=text)
+
+    return 'R"v0g0n({})v0g0n"'.format(text)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index aa0bd88..51c87ed 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.regex_str(
+                        text=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|regex_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|regex_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..2f48878 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -24,5 +24,6 @@ ENV.filters.update({
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
+    'regex_str': mapry.cpp.generate.regex_str,
     '_raise': _raise
 })
-- 
2.43.0


From bc40d4e64bbb56dc1942574b0ba1e38c2dddfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 39/53] fix: refuse formats where Go takes the next directive
 for fractional seconds

---
 mapry/go/timeformat.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index faa6174..35ca31f 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -77,6 +77,10 @@ _GO_DIRECTIVE_RE = re.compile(
     r'Z070000|Z07:00:00|Z0700|Z07:00|Z07|'
     r'[.,](?:0+|9+)(?![0-9])')
 
+# The parser of the Go package ``time`` takes the digits after the seconds for
+# the fraction of a second even if the layout does not mention it.
+_GO_FRACTION_RE = re.compile(r'05[.,](?=[0-9]|_2)')
+
 
 def find_conflict(a_format: str) -> Optional[str]:
     """
@@ -92,15 +96,24 @@ def find_conflict(a_format: str) -> Optional[str]:
     >>> find_conflict(a_format="5 o'clock")
     '5'
 
+    >>> find_conflict(a_format="%S.%M")
+    '05.'
+
     """
+    layout = convert(a_format=a_format)
+
     expected = []  # type: List[str]
     for tkn_line in mapry.strftime.tokenize(format=a_format):
         for tkn in tkn_line:
             if tkn.identifier == 'directive' and tkn.content != '%%':
                 expected.append(_STRFTIME_TO_GO[tkn.content])
 
-    for mtch in _GO_DIRECTIVE_RE.finditer(convert(a_format=a_format)):
+    for mtch in _GO_DIRECTIVE_RE.finditer(layout):
         if not expected or mtch.group() != expected.pop(0):
             return mtch.group()
 
-    return expected[0] if expected else None
+    if expected:
+        return expected[0]
+
+    fraction = _GO_FRACTION_RE.search(layout)
+    return fraction.group() if fraction is not None else None
-- 
2.43.0


From 05c893c462cf5f2631dd3725837613d85b0b6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 40/53] fix: avoid the trigraphs in C++ string literals

---
 mapry/cpp/generate/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 2cc4146..efe4187 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -171,6 +171,9 @@ def escaped_str(text: str) -> str:
             '\\{:03o}'.format(byte)
             for byte in mtch.group(0).encode('utf-8')), result)
 
+    # Avoid the trigraphs.
+    result = re.sub(r'(?<=\?)\?', r'\\?', result)
+
     return '"{}"'.format(result)
 
 
-- 
2.43.0


From 5bfd055c857c0067005c6383d06656bff02e0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 41/53] fix: do not continue C++ comments by a trigraph

---
 mapry/cpp/generate/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index efe4187..51b44f7 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -26,7 +26,8 @@ def comment(text: str) -> str:
     """
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
-        if line.rstrip().endswith('\\'):
+        # A trigraph may also denote a backslash.
+        if line.rstrip().endswith(('\\', '??/')):
             line = line.rstrip() + '.'
 
         if line.strip():
-- 
2.43.0


From dfcb7150f41d036a856b4aecb57cef756e844ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 42/53] fix: refuse composites whose C++ variables or ID
 patterns clash

---
 mapry/cpp/validation.py | 54 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 84dd604..37bc2ed 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -259,6 +259,58 @@ def _validate_complete_embeds(graph: mapry.Graph
     return errs
 
 
+def _validate_variables(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate the C++ variables which are named after the composites.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.cpp.naming.as_variable(identifier=composite.name)
+        if variable in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "C++ variable ({!r}) corresponding to the name of "
+                        "the composite ({!r}) is a keyword in C++").format(
+                            variable, composite.name),
+                    ref=composite.ref))
+
+    # The patterns of the identifiers are kept in namespaces named after
+    # the variables.
+    variable_to_class = dict()  # type: Dict[str, mapry.Class]
+    for cls in graph.classes.values():
+        if cls.id_pattern is None:
+            continue
+
+        variable = mapry.cpp.naming.as_variable(identifier=cls.name)
+        other = variable_to_class.get(variable, None)
+        if other is None:
+            variable_to_class[variable] = cls
+
+        # The conflicts of the type names are reported elsewhere.
+        elif (mapry.cpp.naming.as_composite(identifier=other.name) !=
+              mapry.cpp.naming.as_composite(identifier=cls.name)):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The ID patterns of the class {!r} and "
+                        "of the class {!r} ({}) "
+                        "have conflicting C++ identifiers: {!r}".format(
+                            cls.name, other.name, other.ref, variable)),
+                    ref=cls.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -340,6 +392,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
         # Check that the fields are valid
         errs.extend(_validate_embed_fields(embed=embed))
 
+    errs.extend(_validate_variables(graph=schema.graph))
+
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
-- 
2.43.0


From 5bdd724593f59af0dd5119759270646866bed114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 43/53] fix: serialize registries named as the graph in C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 31 +++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 51c87ed..118e7d2 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -497,6 +497,20 @@ class _AutoID:
         return str(result)
 
 
+def _distinct_variable(name: str, taken: Set[str]) -> str:
+    """
+    Generate the name of a local variable distinct from the other variables.
+
+    :param name: preferred name
+    :param taken: names of the other variables
+    :return: the preferred name, suffixed by underscores if already taken
+    """
+    while name in taken:
+        name += '_'
+
+    return name
+
+
 _PARSE_BOOLEAN_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {# Assume `errors` is defined to collect errors. #}
@@ -2713,7 +2727,6 @@ _SERIALIZE_GRAPH_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 Json::Value serialize_{{ graph.name|as_variable }}(
         const {{ graph.name|as_composite }}& {{ graph.name|as_variable }}) {
-    {% set value = "%s_as_value"|format(graph.name|as_variable) %}
     {% if property_serializations or graph.classes %}
     Json::Value {{ value }};
     {% for serialization in property_serializations %}
@@ -2774,14 +2787,20 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     """
     value_expr = mapry.cpp.naming.as_variable(graph.name)
 
+    value = _distinct_variable(
+        name="{}_as_value".format(value_expr),
+        taken={
+            "{}_as_value".format(mapry.cpp.naming.as_variable(cls.plural))
+            for cls in graph.classes.values()
+        })
+
     auto_id = _AutoID()
 
     # yapf: disable
     property_serializations = [
         _serialize_property(
-            target_expr="{}_as_value[{}]".format(
-                mapry.cpp.naming.as_variable(graph.name),
-                mapry.cpp.generate.escaped_str(prop.json)),
+            target_expr="{}[{}]".format(
+                value, mapry.cpp.generate.escaped_str(prop.json)),
             value_expr="{}.{}".format(
                 value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
@@ -2792,7 +2811,9 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     # yapf: enable
 
     return _SERIALIZE_GRAPH_TPL.render(
-        graph=graph, property_serializations=property_serializations)
+        graph=graph,
+        value=value,
+        property_serializations=property_serializations)
 
 
 @ensure(lambda result: result.endswith('\n'))
-- 
2.43.0


From 4df60fe11e98d18260aec148a4d24a8cdecb62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 44/53] fix: parse the registry Instance in C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 118e7d2..f4b50df 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2111,7 +2111,7 @@ void {{ graph.name|as_variable }}_from(
 
     // Keep the prefix fixed in this buffer so that
     // it is copied as little as possible
-    std::string instance_ref;
+    std::string {{ instance_ref }};
 {% endif %}
 {% for cls in graph.classes.values() %}
 
@@ -2121,20 +2121,20 @@ void {{ graph.name|as_variable }}_from(
 
     // clear() does not shrink the reserved memory,
     // see https://en.cppreference.com/w/cpp/string/basic_string/clear
-    instance_ref.clear();
-    instance_ref += {{ cls.plural|as_variable }}_ref;
-    instance_ref += '/';
+    {{ instance_ref }}.clear();
+    {{ instance_ref }} += {{ cls.plural|as_variable }}_ref;
+    {{ instance_ref }} += '/';
 
     if (value.isMember({{ cls.plural|json_plural|escaped_str }})) {
         const Json::Value& obj = value[{{
             cls.plural|json_plural|escaped_str }}];
 
         for (Json::ValueConstIterator it = obj.begin(); it != obj.end(); ++it) {
-            instance_ref.reserve(
+            {{ instance_ref }}.reserve(
                 {{ cls.plural|as_variable }}_ref.size() + 1 + it.name().size());
-            instance_ref.resize(
+            {{ instance_ref }}.resize(
                 {{ cls.plural|as_variable }}_ref.size() + 1);
-            instance_ref.append(
+            {{ instance_ref }}.append(
                 it.name());
 
             {{ cls.name|as_composite }}* instance(
@@ -2144,7 +2144,7 @@ void {{ graph.name|as_variable }}_from(
                 {% for ref_cls in references[cls] %}
                 target->{{ ref_cls.plural|as_field }},
                 {% endfor %}
-                instance_ref,
+                {{ instance_ref }},
                 instance,
                 errors);
 
@@ -2203,8 +2203,18 @@ def _parse_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
                 auto_id=auto_id,
                 cpp=cpp))
 
+    instance_ref = _distinct_variable(
+        name='instance_ref',
+        taken={
+            '{}_ref'.format(mapry.cpp.naming.as_variable(cls.plural))
+            for cls in graph.classes.values()
+        })
+
     text = _PARSE_GRAPH_TPL.render(
-        graph=graph, references=references, property_parsings=property_parsings)
+        graph=graph,
+        references=references,
+        property_parsings=property_parsings,
+        instance_ref=instance_ref)
 
     assert isinstance(text, str)
     return text.rstrip("\n")
-- 
2.43.0


From 9ff51b6d7f2f34b0d1f9717bd5967db6ef9061bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 45/53] fix: refuse C++ namespaces and types which break the
 generated code

---
 mapry/cpp/validation.py | 46 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 37bc2ed..52ec050 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -24,6 +24,9 @@ _KEYWORDS = {
     'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'
 }
 
+# List the namespaces of the libraries used in the generated code.
+_LIBRARY_NAMESPACES = {'Json', 'boost', 'date', 'std'}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -284,6 +287,17 @@ def _validate_variables(graph: mapry.Graph
                             variable, composite.name),
                     ref=composite.ref))
 
+        type_name = mapry.cpp.naming.as_composite(identifier=composite.name)
+        if type_name in _LIBRARY_NAMESPACES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "C++ type ({!r}) corresponding to the name of "
+                        "the composite ({!r}) hides a library used by "
+                        "the generated code").format(
+                            type_name, composite.name),
+                    ref=composite.ref))
+
     # The patterns of the identifiers are kept in namespaces named after
     # the variables.
     variable_to_class = dict()  # type: Dict[str, mapry.Class]
@@ -311,6 +325,36 @@ def _validate_variables(graph: mapry.Graph
     return errs
 
 
+def _validate_namespace(schema: mapry.Schema
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the generated code can live in the namespace.
+
+    :param schema: mapry schema
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    if schema.cpp is None:
+        return errs
+
+    for part in schema.cpp.namespace.split('::'):
+        if part in _KEYWORDS:
+            message = "is a keyword in C++"
+        elif part in _LIBRARY_NAMESPACES:
+            message = "hides a library used by the generated code"
+        else:
+            continue
+
+        errs.append(
+            mapry.validation.SchemaError(
+                message="The part {!r} of the C++ namespace {!r} {}".format(
+                    part, schema.cpp.namespace, message),
+                ref='{}/cpp/namespace'.format(schema.graph.ref)))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -322,6 +366,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    errs.extend(_validate_namespace(schema=schema))
+
     graph_name = mapry.cpp.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 06565b79d3c6c915007dbdef17f39043b6a79759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 46/53] fix: refuse Go packages named as Go keywords

---
 mapry/go/validation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index e4ed419..faad6fd 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -373,6 +373,13 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.go is not None and schema.go.package in _KEYWORDS:
+        errs.append(
+            mapry.validation.SchemaError(
+                message="The Go package {!r} is a keyword in Go".format(
+                    schema.go.package),
+                ref='{}/go/package'.format(schema.graph.ref)))
+
     graph_name = mapry.naming.ucamel_case(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 9595fb2ac4445dcd3883cc5471e5036727d3a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 47/53] fix: refuse Python modules which the generated code
 would hide

---
 mapry/py/validation.py | 76 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 3f1456c..e708d6f 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -1,4 +1,6 @@
 """Validate that the Python code can be generated according to the schema."""
+import builtins
+import re
 from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
@@ -13,6 +15,20 @@ _KEYWORDS = {
     'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
 
+# List the modules imported by the generated code.
+_IMPORTED_MODULES = {
+    'collections', 'datetime', 'pathlib', 'pytz', 're', 'typing'
+}
+
+# List the global and local variables in the functions of the generated code
+# which do not depend on the schema.
+_VARIABLES = {
+    'Error', 'Errors', 'err', 'errors', 'graph', 'id', 'instance_value', 'ref',
+    'registry_value', 'target', 'value'
+}
+
+_AUTO_VARIABLE_RE = re.compile(r'(i|item|key|target|target_item|value)_[0-9]+')
+
 
 class _Attribute:
     """Represent a Python attribute of a composite."""
@@ -221,6 +237,64 @@ def _validate_graph_attributes(graph: mapry.Graph
     return errs
 
 
+def _validate_module_name(schema: mapry.Schema
+                          ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the generated code can refer to its own module.
+
+    :param schema: mapry schema
+    :return: list of errors, or an empty list if no errors
+    """
+    if schema.py is None:
+        return []
+
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    parts = schema.py.module_name.split('.')
+    for part in parts:
+        if part in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the Python module name {!r} "
+                        "is reserved in Python").format(
+                            part, schema.py.module_name),
+                    ref='{}/py/module_name'.format(schema.graph.ref)))
+
+    # The variables and the functions of the generated code must not hide
+    # the top-level module.
+    variables = {
+        '{}_registry'.format(
+            mapry.py.naming.as_attribute(identifier=cls.plural))
+        for cls in schema.graph.classes.values()
+    }
+
+    composites = [schema.graph]  # type: List[mapry.Composite]
+    composites.extend(schema.graph.classes.values())
+    composites.extend(schema.graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+        variables.add('target_{}'.format(variable))
+        variables.add('placeholder_{}'.format(variable))
+        variables.add('serialize_{}'.format(variable))
+        variables.add('{}_from'.format(variable))
+
+    if (hasattr(builtins, parts[0]) or parts[0] in _IMPORTED_MODULES
+            or parts[0] in _VARIABLES
+            or parts[0] in variables
+            or _AUTO_VARIABLE_RE.fullmatch(parts[0])):
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The top-level module {!r} of the Python module name {!r} "
+                    "conflicts with an identifier in the generated code"
+                ).format(parts[0], schema.py.module_name),
+                ref='{}/py/module_name'.format(schema.graph.ref)))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -232,6 +306,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    errs.extend(_validate_module_name(schema=schema))
+
     graph_name = mapry.py.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From e077a18f82f984e0830692c8ac3c989d3103b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 48/53] fix: distinguish composites from C++ variables ending
 in a number

---
 mapry/cpp/generate/jsoncpp_impl.py | 39 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index f4b50df..d5bb44e 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2679,11 +2679,27 @@ def _serialize_property(
         value_expr=value_expr, serialization=serialization)
 
 
+def _composite_parameter(composite: mapry.Composite) -> str:
+    """
+    Name the parameter of the function that serializes the composite.
+
+    The name is distinct from the variables with automatically generated
+    identifiers, which all end in a number.
+
+    :param composite: mapry definition of the composite
+    :return: C++ identifier
+    """
+    name = mapry.cpp.naming.as_variable(composite.name)
+    if re.search(r'_[0-9]+$', name):
+        name += '_'
+
+    return name
+
+
 _SERIALIZE_CLASS_OR_EMBED_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 Json::Value serialize_{{ composite.name|as_variable }}(
-        const {{ composite.name|as_composite }}& {{
-            composite.name|as_variable }}) {
+        const {{ composite.name|as_composite }}& {{ parameter }}) {
     {% set value = "%s_as_value"|format(composite.name|as_variable) %}
     {% if property_serializations %}
     Json::Value {{ value }};
@@ -2709,7 +2725,7 @@ def _serialize_class_or_embed(
     :param cpp: C++ settings
     :return: generated code
     """
-    value_expr = mapry.cpp.naming.as_variable(class_or_embed.name)
+    parameter = _composite_parameter(class_or_embed)
 
     auto_id = _AutoID()
 
@@ -2720,7 +2736,7 @@ def _serialize_class_or_embed(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
             value_expr="{}.{}".format(
-                value_expr, mapry.cpp.naming.as_field(prop.name)),
+                parameter, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2730,13 +2746,14 @@ def _serialize_class_or_embed(
 
     return _SERIALIZE_CLASS_OR_EMBED_TPL.render(
         composite=class_or_embed,
+        parameter=parameter,
         property_serializations=property_serializations)
 
 
 _SERIALIZE_GRAPH_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 Json::Value serialize_{{ graph.name|as_variable }}(
-        const {{ graph.name|as_composite }}& {{ graph.name|as_variable }}) {
+        const {{ graph.name|as_composite }}& {{ parameter }}) {
     {% if property_serializations or graph.classes %}
     Json::Value {{ value }};
     {% for serialization in property_serializations %}
@@ -2745,10 +2762,9 @@ Json::Value serialize_{{ graph.name|as_variable }}(
     {% endfor %}{# /for property_serializations #}
     {% for cls in graph.classes.values() %}
 
-    if (!{{ graph.name|as_variable }}.{{ cls.plural|as_variable }}.empty()) {
+    if (!{{ parameter }}.{{ cls.plural|as_variable }}.empty()) {
         Json::Value {{ cls.plural|as_variable }}_as_value;
-        for (const auto& kv : {{
-                graph.name|as_variable }}.{{ cls.plural|as_variable }}) {
+        for (const auto& kv : {{ parameter }}.{{ cls.plural|as_variable }}) {
             const std::string& id = kv.first;
             const {{ cls.name|as_composite }}* instance = kv.second.get();
 
@@ -2795,10 +2811,10 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
     :param cpp: C++ settings
     :return: generated code
     """
-    value_expr = mapry.cpp.naming.as_variable(graph.name)
+    parameter = _composite_parameter(graph)
 
     value = _distinct_variable(
-        name="{}_as_value".format(value_expr),
+        name="{}_as_value".format(mapry.cpp.naming.as_variable(graph.name)),
         taken={
             "{}_as_value".format(mapry.cpp.naming.as_variable(cls.plural))
             for cls in graph.classes.values()
@@ -2812,7 +2828,7 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}[{}]".format(
                 value, mapry.cpp.generate.escaped_str(prop.json)),
             value_expr="{}.{}".format(
-                value_expr, mapry.cpp.naming.as_field(prop.name)),
+                parameter, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2822,6 +2838,7 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     return _SERIALIZE_GRAPH_TPL.render(
         graph=graph,
+        parameter=parameter,
         value=value,
         property_serializations=property_serializations)
 
-- 
2.43.0


From 2827646f501aa92b115a9692c4f28ff9712c7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 49/53] fix: keep the serialized registries apart from the
 instances in Python

---
 mapry/py/generate/tojsonable.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index bf87884..d9ae0db 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -1,7 +1,8 @@
 """Generate the code that serializes the object graph to a JSONable."""
 
 import textwrap
-from typing import List, Optional, Union  # pylint: disable=unused-import
+from typing import (  # pylint: disable=unused-import
+    Dict, List, Optional, Union)
 
 from icontract import ensure
 
@@ -625,6 +626,7 @@ serializes an instance of {{ graph.name|as_composite }} to a JSONable.
     ##
     # Serialize instance registry of {{ cls.name|as_composite }}
     ##
+    {% set instance_variable = instance_variables[cls] %}
 
     if len(instance.{{ cls.plural|as_variable }}) > 0:
         if ordered:
@@ -634,17 +636,17 @@ serializes an instance of {{ graph.name|as_composite }} to a JSONable.
         else:
             target_{{ cls.plural|as_variable }} = dict()
 
-        for id, {{ cls.name|as_variable }}_instance in instance.{{
+        for id, {{ instance_variable }} in instance.{{
             cls.plural|as_attribute }}.items():
-            if id != {{ cls.name|as_variable }}_instance.id:
+            if id != {{ instance_variable }}.id:
                 raise ValueError(
                     {{ "Expected ID {!r} of the instance of %s, but got: {!r}"|
                         format(cls.name|as_composite)|repr }}.format(
-                        id, {{ cls.name|as_variable }}_instance.id))
+                        id, {{ instance_variable }}.id))
 
             target_{{ cls.plural|as_variable }}[id] = serialize_{{
                 cls.name|as_variable }}(
-                instance={{ cls.name|as_variable }}_instance,
+                instance={{ instance_variable }},
                 ordered=ordered)
         target[{{ cls.plural|json_plural|repr }}] = target_{{
             cls.plural|as_variable }}
@@ -678,8 +680,26 @@ def _serialize_graph(graph: mapry.Graph, py: mapry.Py) -> str:
     ]
     # yapf: enable
 
+    # The variables of the loops over the registries must not overwrite
+    # the serialized registries.
+    registry_variables = {
+        'target_{}'.format(mapry.py.naming.as_variable(cls.plural))
+        for cls in graph.classes.values()
+    }
+
+    instance_variables = dict()  # type: Dict[mapry.Class, str]
+    for cls in graph.classes.values():
+        variable = '{}_instance'.format(
+            mapry.py.naming.as_variable(cls.name))
+        while variable in registry_variables:
+            variable += '_'
+
+        instance_variables[cls] = variable
+
     return _SERIALIZE_GRAPH_TPL.render(
-        graph=graph, property_serializations=property_serializations,
+        graph=graph,
+        property_serializations=property_serializations,
+        instance_variables=instance_variables,
         py=py).rstrip('\n')
 
 
-- 
2.43.0


From 1164dab419535041e87f1514dd6619d91bca48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 50/53] fix: compare with the smallest int64 in the generated
 C++ code

---
 mapry/cpp/generate/jsoncpp_impl.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index d5bb44e..1ee3616 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -593,7 +593,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.minimum is not none %}
 
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ minimum }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.minimum)|escaped_str }}
@@ -611,7 +611,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.maximum is not none %}
 
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ maximum }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.maximum)|escaped_str }}
@@ -635,6 +635,22 @@ if (!{{ value }}.isInt64()) {
 ''')
 
 
+def _int64_literal(value: int) -> str:
+    """
+    Translate the integer to a C++ expression.
+
+    There are no negative literals in C++. The magnitude of the smallest int64
+    does not fit into an int64 so that the smallest int64 needs to be computed.
+
+    :param value: to be translated
+    :return: C++ expression
+    """
+    if value == -2**63:
+        return '(-{} - 1)'.format(2**63 - 1)
+
+    return str(value)
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def _parse_integer(
         value_expr: str, target_expr: str, ref_parts: List[str],
@@ -658,7 +674,12 @@ def _parse_integer(
         value_expr=value_expr,
         ref_parts=ref_parts,
         target_expr=target_expr,
-        a_type=a_type).rstrip("\n")
+        a_type=a_type,
+        minimum=(
+            None if a_type.minimum is None else _int64_literal(a_type.minimum)),
+        maximum=(
+            None if a_type.maximum is None else _int64_literal(
+                a_type.maximum))).rstrip("\n")
 
 
 _PARSE_FLOAT_TPL = mapry.cpp.jinja2_env.ENV.from_string(
-- 
2.43.0


From b439060031149f58eed4df264780c16712f8ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 51/53] fix: Refused C++ names which hide the types used
 without a namespace

A property "int64_t" (or a plural "Int64_t") hid the type of the integer
fields which followed it, and the namespaces "int64_t", "size_t" and "tm"
hid the types used by the generated code, so that it did not compile.
---
 mapry/cpp/validation.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 52ec050..aa7a70f 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -27,6 +27,12 @@ _KEYWORDS = {
 # List the namespaces of the libraries used in the generated code.
 _LIBRARY_NAMESPACES = {'Json', 'boost', 'date', 'std'}
 
+# List the types used without a namespace in the generated structures.
+_UNQUALIFIED_FIELD_TYPES = {'int64_t'}
+
+# List the types used without a namespace anywhere in the generated code.
+_UNQUALIFIED_TYPES = {'int64_t', 'size_t', 'tm'}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -82,6 +88,15 @@ def _validate_fields(fields: List[_Field]
                         "is a keyword in C++").format(field.name),
                     ref=field.ref))
 
+        if field.name in _UNQUALIFIED_FIELD_TYPES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} "
+                        "hides a type used by the generated code").format(
+                            field.name),
+                    ref=field.ref))
+
         if field.name in name_to_fields:
             errs.append(
                 mapry.validation.SchemaError(
@@ -166,6 +181,16 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        if plural_field in _UNQUALIFIED_FIELD_TYPES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} corresponding "
+                        "to the registry of the class {!r} in the object "
+                        "graph hides a type used by "
+                        "the generated code").format(plural_field, cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
@@ -343,6 +368,8 @@ def _validate_namespace(schema: mapry.Schema
             message = "is a keyword in C++"
         elif part in _LIBRARY_NAMESPACES:
             message = "hides a library used by the generated code"
+        elif part in _UNQUALIFIED_TYPES:
+            message = "hides a type used by the generated code"
         else:
             continue
 
-- 
2.43.0


From 97c5eb55dacc1dc8a71bfd8ca6603115cf6f045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 52/53] fix: Refused C++ variables hiding the serialization
 functions

The composite "Serialize_foo" next to the composite "Foo" gave C++ code
which did not compile when the former contained the latter, as the variable
"serialize_foo" hid the function. The field "tm" hid the type of the dates
and times which followed it.
---
 mapry/cpp/validation.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index aa7a70f..8068cea 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -28,7 +28,7 @@ _KEYWORDS = {
 _LIBRARY_NAMESPACES = {'Json', 'boost', 'date', 'std'}
 
 # List the types used without a namespace in the generated structures.
-_UNQUALIFIED_FIELD_TYPES = {'int64_t'}
+_UNQUALIFIED_FIELD_TYPES = {'int64_t', 'tm'}
 
 # List the types used without a namespace anywhere in the generated code.
 _UNQUALIFIED_TYPES = {'int64_t', 'size_t', 'tm'}
@@ -301,6 +301,13 @@ def _validate_variables(graph: mapry.Graph
     composites.extend(graph.classes.values())
     composites.extend(graph.embeds.values())
 
+    # The serialized composites are passed in as variables.
+    function_to_composite = dict()  # type: Dict[str, mapry.Composite]
+    for composite in composites:
+        function = 'serialize_{}'.format(
+            mapry.cpp.naming.as_variable(identifier=composite.name))
+        function_to_composite[function] = composite
+
     for composite in composites:
         variable = mapry.cpp.naming.as_variable(identifier=composite.name)
         if variable in _KEYWORDS:
@@ -312,6 +319,18 @@ def _validate_variables(graph: mapry.Graph
                             variable, composite.name),
                     ref=composite.ref))
 
+        if variable in function_to_composite:
+            other_composite = function_to_composite[variable]
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "C++ variable ({!r}) corresponding to the name of "
+                        "the composite ({!r}) hides the C++ function which "
+                        "serializes the composite {!r} ({})").format(
+                            variable, composite.name, other_composite.name,
+                            other_composite.ref),
+                    ref=composite.ref))
+
         type_name = mapry.cpp.naming.as_composite(identifier=composite.name)
         if type_name in _LIBRARY_NAMESPACES:
             errs.append(
-- 
2.43.0


From e7882080f29338d3036729b81ee5202b77d11a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:45 +0000
Subject: [PATCH 53/53] fix: import datetime for the annotations of time zones
 in Python

---
 mapry/py/generate/fromjsonable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 0481001..0c6b1ad 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -43,6 +43,12 @@ def _imports(graph: mapry.Graph, py: mapry.Py) -> str:
             third_party_block.update(
                 ('import pytz', 'import pytz.exceptions  # type: ignore'))
 
+            # Items and values are annotated as ``datetime.tzinfo``.
+            if any(isinstance(a_type, (mapry.Array, mapry.Map))
+                   and isinstance(a_type.values, mapry.TimeZone)
+                   for a_type, _ in mapry.iterate_over_types(graph=graph)):
+                stdlib_block.add('import datetime')
+
         else:
             raise NotImplementedError(
                 'Unhandled timezone_as: {}'.format(py.timezone_as))
-- 
2.43.0

