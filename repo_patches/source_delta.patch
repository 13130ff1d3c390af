From 20e27a367acfb85d798ead0d4667bed91a8e39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 01/36] fix: a paragraph needs at least one line of text

Input like ':name' reached the paragraph processor without any text and
crashed with an IndexError instead of a Mau error.
---
 mau/parsers/document_processors/paragraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..cf4a7cb 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,8 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    # There must be at least one line of text.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From 029fd61156613ed5a545f7bee54a9adcbe6a1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 02/36] fix: report a missing group in a blockgroup include

'<< blockgroup' without a group crashed with a KeyError.
---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..50caed9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -351,7 +351,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From ee6deb739b74a2b709be908f41ae9e0b9a57ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/36] fix: report a list start that is not a number

'[start=abc]' crashed with a raw ValueError.
---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..8d22974 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -162,7 +162,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"List start '{start}' is not a number.",
+                context=nodes[0].info.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From 5400a51983fa31f5d9ea9da13bd0f64144cdc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 04/36] fix: report an empty condition

'@if' without a condition (or with a condition that becomes empty after
replacing variables) and '[if:](text)' crashed with an AttributeError.
---
 mau/parsers/condition_parser.py | 8 +++++++-
 mau/parsers/text_parser.py      | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/condition_parser.py b/mau/parsers/condition_parser.py
index 49dc6c2..0cb6d98 100644
--- a/mau/parsers/condition_parser.py
+++ b/mau/parsers/condition_parser.py
@@ -5,7 +5,7 @@ from mau.lexers.condition_lexer import ConditionLexer
 from mau.message import BaseMessageHandler
 from mau.nodes.condition import ConditionNode
 from mau.nodes.node import NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
@@ -96,4 +96,10 @@ def process_condition_with_variables(
         source_filename=source_filename,
     )
 
+    if condition_parser.condition_node is None:
+        raise create_parser_exception(
+            "The condition is empty.",
+            context=condition_token.context,
+        )
+
     return condition_parser
diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..e4a703a 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -868,6 +868,12 @@ class TextParser(BaseParser):
         # At the moment we support only one condition.
         condition_node = condition_parser.condition_node
 
+        if condition_node is None:
+            raise create_parser_exception(
+                "The condition is empty.",
+                condition_context,
+            )
+
         control = Control(
             operator,
             condition_node.variable,
-- 
2.43.0


From fd9cbb409cbdf929e1037bb0283cdd7e5bbcf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 05/36] fix: headers and list items whose text produces no
 nodes

A header or a list item that contains only a control macro with a false
condition crashed with an IndexError.
---
 mau/parsers/document_processors/header.py | 11 ++++++++---
 mau/parsers/document_processors/list.py   | 11 +++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..47d1619 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -64,9 +64,14 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text might not produce any node, for
+    # example when it contains only a control
+    # macro whose condition is false.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 8d22974..b27c849 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -30,7 +30,12 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # The text might not produce any node, for
+    # example when it contains only a control
+    # macro whose condition is false.
+    context = Context.merge_contexts(
+        header.context, content[-1].info.context if content else text.context
+    )
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +76,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            context = Context.merge_contexts(
+                header.context, content[-1].info.context if content else text.context
+            )
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From df83451952c582723f074aab0a0d9ff6f981bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 06/36] fix: the value of ifeval can be any type of variable

[ifeval:...](variable) crashed with an AttributeError when the variable
is not a string (e.g. it comes from the configuration) or is a namespace.
---
 mau/parsers/text_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index e4a703a..5f04083 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -911,16 +911,16 @@ class TextParser(BaseParser):
                 )
 
             # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
-
+            # As it happens for variables between curly
+            # braces, the value has to be a string.
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            try:
+                variable_value = str(self.environment[result.value])
+            except KeyError as exc:
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
-                )
+                ) from exc
 
             result.value = variable_value
 
-- 
2.43.0


From f9d02f1b33d15c379966824b0f7fd8f981a3a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 07/36] fix: report any unreadable included file

Including a directory, a file without read permission, or a file that is
not UTF-8 crashed instead of reporting that the file cannot be read.
---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 50caed9..83f0d5c 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -220,7 +220,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, UnicodeDecodeError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -293,7 +293,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, UnicodeDecodeError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 235b9dbd71e62d8c602bbe3832c7a3f0428a09c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 08/36] fix: clone environments where a variable is also a
 namespace

With ':a:1' and ':a.b:2' (in any order) cloning the environment for an
included file either crashed with a TypeError or lost 'a.b'.
---
 mau/environment/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..d64e222 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,7 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        return cls().from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From 6eadc5558a163cba069d0183ace896d3119f96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 09/36] fix: allow JinjaVisitor to be created without an
 environment

---
 mau/visitors/jinja_visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..7cc0c4b 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -348,7 +348,7 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get("mau.visitor.templates.prefixes", [])
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -369,7 +369,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0


From f5741042dc092e324e473a6218321bc639ec6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 10/36] fix: detect recursive inclusions that go through a
 block

The content of a block didn't know which files are being included, so a
file including itself from inside a block ended in a RecursionError.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..efb848b 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,6 +34,7 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=parser.forbidden_includes,
     )
 
     if update:
-- 
2.43.0


From 8dbc6e5917b29de74cbf262bbb77bf699db75c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 11/36] fix: a file can be included more than once when there
 is no recursion

Included files were never removed from the list of forbidden inclusions,
so the second inclusion of the same file was reported as a recursion even
if none of the files involved includes itself.
---
 mau/parsers/document_processors/include.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 83f0d5c..d2c124b 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -183,15 +183,20 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # We work on a copy of the list, as the new
+    # prohibitions hold only for the included file. Files
+    # included later by this one are free to include
+    # the same files.
+    forbidden_includes = parser.forbidden_includes.copy()
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -213,8 +218,8 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    if uri not in forbidden_includes:
+        forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -251,7 +256,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From 91a58e2666781a2c0a3f80689c12e5cbb8a7df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 12/36] fix: report duplicated footnotes defined in a non
 isolated block

A footnote defined in a block with isolate=false silently replaced the one
with the same name defined before the block.
---
 mau/parsers/managers/footnotes_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..f987fab 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -75,7 +75,9 @@ class FootnotesManager:
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+        for name, body in other.bodies.items():
+            self.add_body(name, body)
+
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From a9a004aa526e4e8ab642d55a2baa24f7777ce949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 13/36] fix: a false control excludes the whole element

The stored control was checked after the element had been parsed. Because
of this, an excluded element could still register footnotes, header links,
ToC and block group nodes, read files, define variables, or stop the
process with an error. Moreover, blocks that contain footnotes or that
belong to a group ignored the control, which was then applied to the
element after them.
---
 mau/parsers/document_parser.py                | 15 ++++++++
 mau/parsers/document_processors/block.py      | 14 ++++----
 mau/parsers/document_processors/header.py     | 14 ++++----
 .../document_processors/horizontal_rule.py    | 14 ++++----
 mau/parsers/document_processors/include.py    | 34 +++++++++----------
 mau/parsers/document_processors/list.py       | 19 ++++++-----
 mau/parsers/document_processors/paragraph.py  | 14 ++++----
 7 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..1400dce 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -221,6 +221,21 @@ class DocumentParser(BaseParser):
         # Assign the labels to the node.
         node.labels = labels
 
+    def skip_element(self) -> bool:
+        # Check the stored control to decide if
+        # the next element has to be skipped.
+        # The arguments and the labels of a skipped
+        # element must be skipped as well.
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def _process_eol(self) -> bool:
         # This simply ignores the end of line.
 
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..7d6a4a7 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -50,6 +50,12 @@ def block_processor(parser: DocumentParser):
         opening_delimiter.context, closing_delimiter.context
     )
 
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        return True
+
     # Get the stored arguments.
     # Paragraphs can receive arguments
     # only through the arguments manager.
@@ -104,14 +110,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 47d1619..d083237 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,12 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -83,14 +89,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..a615fda 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,12 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +43,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d2c124b..b0651f9 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -30,7 +30,7 @@ from mau.parsers.arguments_parser import (
 )
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import TokenType
+from mau.token import Token, TokenType
 
 
 @dataclass
@@ -67,11 +67,25 @@ def include_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix.context, content_type.context)
 
-    arguments: NodeArguments | None = parser.arguments_buffer.pop()
+    # If there is a colon, arguments are inline.
+    arguments_token: Token | None = None
 
     if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
-        # In this case arguments are inline
+        # Get the colon.
+        parser.tm.get_token(TokenType.LITERAL, ":")
+
+        # Get the inline arguments.
+        arguments_token = parser.tm.get_token(TokenType.TEXT)
+
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        return True
+
+    arguments: NodeArguments | None = parser.arguments_buffer.pop()
 
+    if arguments_token is not None:
         # Check if boxed arguments have been defined.
         # In that case we need to stop with an error.
         if arguments:
@@ -81,12 +95,6 @@ def include_processor(parser: DocumentParser):
                 help_text=INCLUDE_HELP,
             )
 
-        # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
-
-        # Get the inline arguments.
-        arguments_token = parser.tm.get_token(TokenType.TEXT)
-
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
         ).arguments
@@ -119,14 +127,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index b27c849..d44d97e 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -151,6 +151,17 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        # Discard all the items of the list.
+        while parser.tm.peek_token_is(TokenType.LIST):
+            parser.tm.get_token(TokenType.LIST)
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -191,14 +202,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index cf4a7cb..d269114 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -27,6 +27,12 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Check the stored control. If it is False
+    # we need to stop before the element
+    # leaves any trace in the document.
+    if parser.skip_element():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -67,14 +73,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From aa78132bf933e9acdde9ae86c05f5d764dccdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 14/36] fix: report the position of a duplicated footnote

---
 mau/parsers/document_processors/block.py  | 2 +-
 mau/parsers/managers/footnotes_manager.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 7d6a4a7..cb28490 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -95,7 +95,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index f987fab..5323b7c 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -54,13 +55,13 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
-- 
2.43.0


From 45f28e163a2f06a1e25c9b915853a3a4855507b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 15/36] fix: connect footnotes and header links used inside
 other macros

Footnote and header macros in the text of links, header links, classes,
and controls were ignored, thus they were never connected with the footnote
or the header they mention.
---
 mau/parsers/text_parser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 5f04083..e32687d 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -60,6 +60,14 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+    def _inherit_links(self, parser: "TextParser"):
+        # The text contained in a macro is processed
+        # by another parser. The footnote macros and the
+        # internal links found there are part of
+        # this piece of text.
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -509,6 +517,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_links(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -575,6 +584,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_links(parser)
             node.content = parser.nodes
 
         self.header_links.append(node)
@@ -622,6 +632,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._inherit_links(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -675,6 +686,7 @@ class TextParser(BaseParser):
             start_column=start_column,
             source_filename=source_filename,
         )
+        self._inherit_links(parser)
 
         node = MacroClassNode(
             classes,
@@ -933,6 +945,7 @@ class TextParser(BaseParser):
                 *result.info.context.start_position,
                 result.info.context.source,
             )
+            self._inherit_links(parser)
             nodes = parser.nodes
 
         return nodes
-- 
2.43.0


From 5b3244d9e287a2f182f5e1842f9b98b13fae4537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 16/36] fix: import header links from non isolated blocks

The headers found in a block with isolate=false are part of the main
document, but links in the main document couldn't reach them.
---
 mau/parsers/document_processors/block_engines/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index efb848b..7f8d3f7 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -47,6 +47,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From 208568bdc4f5f11858a0f3a9dfb48ea1b55f2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 17/36] fix: keep track of files included inside blocks

The calls made by includes inside a block were dropped from the list of
include calls of the document.
---
 mau/parsers/document_processors/block_engines/default.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 7f8d3f7..e9d6234 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -37,6 +37,10 @@ def parse_block_content(
         forbidden_includes=parser.forbidden_includes,
     )
 
+    # Files included by the block are included
+    # by the main document.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From aff6cee4d01d23922916095d181c579aad73c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 18/36] fix: source marker delimiters of any length

An empty delimiter crashed with a ValueError, while delimiters and
highlight markers longer than one character were not removed completely.
---
 .../document_processors/block_engines/source.py   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..7ba2526 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -14,6 +14,7 @@ from mau.nodes.source import (
     SourceMarkerNode,
     SourceNode,
 )
+from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 from mau.token import Token
 
@@ -67,6 +68,12 @@ def parse_source_engine(
     # Get the delimiter for markers
     marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
 
+    if not marker_delimiter:
+        raise create_parser_exception(
+            "The marker delimiter cannot be empty.",
+            context=content.context,
+        )
+
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
 
@@ -113,7 +120,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content[: -len(marker_delimiter)].split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +139,7 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = marker[len(highlight_prefix) :] or highlight_default_style
 
             # Replace the highlight style
             # if it is an alias.
@@ -145,8 +152,8 @@ def parse_source_engine(
         # If there is a marker, change the line
         # context to remove the marker.
         if marker:
-            # Take into account the two colons.
-            marker_length = len(marker) + 2
+            # Take into account the two delimiters.
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From bd7104239b1d633123bfdea40f497a0dd4a3f8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 19/36] fix: keep the order of the arguments added by an alias

The arguments were extracted from a set, so their order in the output
could change at each execution.
---
 mau/parsers/arguments_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..fc7dce4 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,9 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            missing_keys = [
+                key for key in replacement_args if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From 596f0c3c9b31dd671529aebf9a9526a8967ecf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 20/36] fix: load template files in a defined order

The order of templates loaded from files depended on the file system.
---
 mau/visitors/jinja_visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 7cc0c4b..4cd577d 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -254,7 +254,9 @@ def _load_templates_from_path(
     preprocess = preprocess or (lambda x: x)
 
     # Scan all directories in the given path.
-    for obj in templates_path.iterdir():
+    # The order is important because two templates can
+    # have the same specificity.
+    for obj in sorted(templates_path.iterdir()):
         # If the object is a directory,
         # recursively load templates from there.
         if obj.is_dir():
-- 
2.43.0


From b0b0883334b470bcd9a71b50061fa992806d4e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 21/36] fix: never overwrite the input file with the output

When the name of the input file didn't contain '.mau' and no output file
was given, the output was written on the input file.
---
 mau/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..b4a8e96 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,8 +284,9 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    output_file = (
+        args.output_file
+        or f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 1b71af1bf54f726ffcd255064cc06cbb80ad83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 22/36] fix: environment variables can contain an equal sign

---
 mau/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..24750aa 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -146,7 +146,10 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, separator, value = variable.partition("=")
+
+        if not separator:
+            raise ConfigurationError(f"Variable {variable} is not in the form key=value")
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From 02389b463180f461a415900ad34f9fad62cc8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 23/36] fix: accept an empty configuration file

---
 mau/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/cli.py b/mau/cli.py
index b4a8e96..95ec12c 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -190,7 +190,8 @@ def main():
     config = {}
     if args.config_file:
         with open(args.config_file, "r", encoding="utf-8") as config_file:
-            config = yaml.safe_load(config_file)
+            # The content of an empty file is None.
+            config = yaml.safe_load(config_file) or {}
 
     # Build the initial environment.
     environment = Environment.from_dict(config, BASE_NAMESPACE)
-- 
2.43.0


From ca35258c0da06a8f6092e7b06d095f3e5e59b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 24/36] fix: an inline element without nodes does not end the
 sentence

---
 mau/parsers/text_parser.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index e32687d..a6a0657 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -171,14 +171,12 @@ class TextParser(BaseParser):
         # EOF and EOL always act as stoppers.
         stop_tokens = stop_tokens.union({EOF, EOL})
 
-        # Try to parse some text.
-        nodes = self._parse_text(stop_tokens)
-
-        # Continue parsing text until it
-        # stops returning nodes.
-        while nodes:
-            content.extend(nodes)
-            nodes = self._parse_text(stop_tokens)
+        # Continue parsing text until one of the stop
+        # tokens. Some elements might not return any
+        # node (for example the control macros), so
+        # that can't be used to detect the end.
+        while self.tm.peek_token() not in stop_tokens:
+            content.extend(self._parse_text(stop_tokens))
 
         # Group consecutive WordNode nodes into a single TextNode.
         # This scans the nodes we found and tries to collect consecutive
-- 
2.43.0


From 9da46563f2f0c02625cf468cbe625be6c35f70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 25/36] fix: each argument is only a tag, or the subtype, or an
 alias

---
 mau/parsers/arguments_parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index fc7dce4..39070bf 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,14 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
-        # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        # Isolate all subtypes. Each argument has a single role,
+        # whatever comes after the prefix we just removed.
+        candidates = [i for i in self.unnamed_argument_nodes if i not in self.tag_nodes]
+        subtypes = self._isolate_by_prefix("*", candidates, unique=True)
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        candidates = [i for i in candidates if i not in subtypes]
+        aliases = self._isolate_by_prefix("@", candidates, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
-- 
2.43.0


From b01dd59da32365a4712a1894804c9fc3aa455607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 26/36] fix: start=auto continues the numbering of the latest
 ordered list

---
 mau/parsers/document_parser.py          | 8 ++++----
 mau/parsers/document_processors/list.py | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 1400dce..078e7c3 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -109,10 +109,10 @@ class DocumentParser(BaseParser):
         self.label_buffer: LabelBuffer = LabelBuffer()
         self.control_buffer: ControlBuffer = ControlBuffer()
 
-        # The last index in the latest ordered list,
-        # used to calculate the beginning value of them
-        # next one when start=auto
-        self.latest_ordered_list_index = 0
+        # The index that follows the last one in the
+        # latest ordered list, used as the beginning
+        # value of the next one when start=auto
+        self.latest_ordered_list_index = 1
 
         # This is a list of files that cannot
         # be included by this file. This is a
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index d44d97e..297e588 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -178,7 +178,6 @@ def list_processor(parser: DocumentParser):
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
     else:
         try:
             start = int(start)
@@ -188,7 +187,11 @@ def list_processor(parser: DocumentParser):
                 context=nodes[0].info.context,
             ) from exc
 
-        parser.latest_ordered_list_index = len(nodes) + start
+    # Unordered lists and nested lists
+    # do not affect the numbering.
+    if ordered:
+        items = [n for n in nodes if isinstance(n, ListItemNode)]
+        parser.latest_ordered_list_index = start + len(items)
 
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-- 
2.43.0


From 7541256a2c8ae337e1eeb29b600da1f1d4295bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 27/36] fix: a source line that ends with two delimiters has no
 marker and is kept

---
 mau/parsers/document_processors/block_engines/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 7ba2526..5069770 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -122,8 +122,9 @@ def parse_source_engine(
         # Split without the final delimiter
         splits = line_content[: -len(marker_delimiter)].split(marker_delimiter)
 
-        if len(splits) < 2:
-            # It's a trap! There are no separators left.
+        if len(splits) < 2 or not splits[-1]:
+            # It's a trap! There are no separators left,
+            # or there is nothing between the last two.
             # Just add the line as it is.
             create_source_line(
                 code,
-- 
2.43.0


From b4f46c3875a6e536a46aa37bfb08c9586a10909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 28/36] fix: the value of a variable is on the line of its
 definition

A definition without value (`:+flag:`) used the text of the following line as
value, and that text was lost.
---
 mau/parsers/document_processors/variable_definition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..a4a5fe7 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -38,8 +38,13 @@ def variable_definition_processor(parser: DocumentParser):
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
     # Get the optional variable value.
+    # The value is on the same line of the name, a
+    # text that comes later is another element.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    if (
+        parser.tm.peek_token_is(TokenType.TEXT)
+        and parser.tm.peek_token().context.start_line == context.end_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From 79b34450dd755dc26a4334b381be7613c3fddfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 29/36] fix: inline arguments of an include are on its line

`<< toc:` used the text of the following line as arguments.
---
 mau/parsers/document_processors/include.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index b0651f9..1819d35 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -77,6 +77,15 @@ def include_processor(parser: DocumentParser):
         # Get the inline arguments.
         arguments_token = parser.tm.get_token(TokenType.TEXT)
 
+        # The arguments are on the same line of the content
+        # type, a text that comes later is another element.
+        if arguments_token.context.start_line != context.end_line:
+            raise create_parser_exception(
+                "Syntax error. There are no inline arguments after the colon.",
+                context,
+                help_text=INCLUDE_HELP,
+            )
+
     # Check the stored control. If it is False
     # we need to stop before the element
     # leaves any trace in the document.
-- 
2.43.0


From bc0ab6f2d447969a3d287db9e859c0659fb2b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 30/36] fix: a URI that is not a valid file name is reported as
 an unreadable file

---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 1819d35..9d063bd 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -234,7 +234,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except (OSError, UnicodeDecodeError) as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -307,7 +307,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except (OSError, UnicodeDecodeError) as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 26c13b6577cc50b5a1629671a3641c21f75d3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:52 +0000
Subject: [PATCH 31/36] fix: report the position of footnotes defined twice
 across blocks

A footnote defined twice, once in a block with isolate=false, was reported
at the position 0,0 of no file.
---
 mau/parsers/managers/footnotes_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 5323b7c..febc1c7 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -43,6 +43,9 @@ class FootnotesManager:
         # created through blocks.
         self.bodies: dict[str, BlockNode] = {}
 
+        # The position of each body in the source.
+        self.contexts: dict[str, Context | None] = {}
+
         # The list of footnote lists created through includes.
         self.footnotes_list_nodes: list[FootnotesNode] = []
 
@@ -65,6 +68,7 @@ class FootnotesManager:
             )
 
         self.bodies[name] = data
+        self.contexts[name] = context
 
     def add_footnotes_list(self, data: FootnotesNode):
         """Add a footnotes list node to
@@ -77,7 +81,7 @@ class FootnotesManager:
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
         for name, body in other.bodies.items():
-            self.add_body(name, body)
+            self.add_body(name, body, other.contexts.get(name))
 
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
-- 
2.43.0


From 2ca0e6f5e44054432c32826bbcdadc8bb99cb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:19 +0000
Subject: [PATCH 32/36] fix: debug messages of nodes visited without their
 context

---
 mau/visitors/base_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..9755899 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -22,7 +22,7 @@ def create_visitor_message(
     additional_info: dict[str, str] | None = None,
 ):
     context = None
-    if data:
+    if data and "_context" in data:
         context = adjust_context_dict(data["_context"])
     elif node:
         context = adjust_context(node.info.context)
-- 
2.43.0


From 8b23609eccf7c1aded33f49f21493569a661752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:35 +0000
Subject: [PATCH 33/36] fix: the text of a macro has the macro as its parent

---
 mau/parsers/text_parser.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index a6a0657..9f2b7a0 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -532,6 +532,11 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro node the parent
+        # of each text node in it.
+        for i in node.content:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_header_link(
@@ -585,6 +590,11 @@ class TextParser(BaseParser):
             self._inherit_links(parser)
             node.content = parser.nodes
 
+            # Make the macro node the parent
+            # of each text node in it.
+            for i in node.content:
+                i.parent = node
+
         self.header_links.append(node)
 
         return [node]
@@ -647,6 +657,11 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro node the parent
+        # of each text node in it.
+        for i in node.content:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_class(
@@ -693,6 +708,11 @@ class TextParser(BaseParser):
             info=NodeInfo(context=context),
         )
 
+        # Make the macro node the parent
+        # of each text node in it.
+        for i in node.content:
+            i.parent = node
+
         return [node]
 
     def _parse_macro_unicode(
-- 
2.43.0


From 93a4b29ea5a348e2ea2cbc258892000ee8904b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:42 +0000
Subject: [PATCH 34/36] fix: the marker of a source line has the line as its
 parent

---
 mau/parsers/document_processors/block_engines/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 5069770..5680cc7 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -39,6 +39,7 @@ def create_source_line(
 
     if marker_node:
         source_line_node.marker = marker_node
+        marker_node.parent = source_line_node
 
     code.append(source_line_node)
 
-- 
2.43.0


From 1771746297a673eb204a1c4d12545193b6459d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:25 +0000
Subject: [PATCH 35/36] fix: read the templates as UTF-8 whatever the locale

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 4cd577d..be53f84 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -281,7 +281,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0


From 9fc3dedb5878a8d86c7c32b5135aaaa088c0cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:06 +0000
Subject: [PATCH 36/36] fix: locate the errors in the value of a variable at
 the value

---
 mau/parsers/document_processors/variable_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index a4a5fe7..e2a6f38 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -63,8 +63,8 @@ def variable_definition_processor(parser: DocumentParser):
         # other variables, so we need to
         # replace them.
 
-        # Unpack the text initial position.
-        start_line, start_column = context.start_position
+        # Unpack the initial position of the value.
+        start_line, start_column = value_token.context.start_position
 
         # Get the text source.
         source_filename = context.source
-- 
2.43.0

