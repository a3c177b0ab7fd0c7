From 8671fdba9e507701ec377f6639d21c19fe814120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 01/38] fix: append_line() appends the given text, not
 '__undefined__'

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..76b6cfa 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3096,7 +3096,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
+            self.ConfigObjs.append(IOSCfgLine(line=str(linespec)))
         elif isinstance(linespec, IOSCfgLine):
             self.ConfigObjs.append(linespec)
         else:
-- 
2.43.0


From c88b97ddc1cccaae556ca829fe7538775730d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 02/38] fix: junos_unsupported() returns the wrapped method's
 return value

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..5482ce3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -464,7 +464,7 @@ def junos_unsupported(func):
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 83245075f1bbd6754349fa815d1f3ad734854c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 03/38] fix: ConfigList.insert() (and prepend_line()) works
 with factory=True

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 76b6cfa..e429982 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5496,7 +5496,8 @@ class ConfigList(MutableSequence):
         if getattr(val, "capitalize", False):
             if self.factory:
                 obj = config_line_factory(
-                    text=val,
+                    all_lines=self._list,
+                    line=val,
                     comment_delimiter=self.comment_delimiter,
                     syntax=self.syntax,
                 )
-- 
2.43.0


From b444f4ab3e9a3a077ecf76eff3a884d5f5f131eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 04/38] fix: delete() removes exactly the given line object and
 its children

---
 ciscoconfparse/ccp_abc.py | 60 ++++++++++++---------------------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..2335ce9 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -670,53 +670,29 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
-        # Build a set of all IOSCfgLine() object instances to be deleted...
-        delete_these = set(
-            {
-                self,
-            }
-        )
+        current_objs = self.confobj._list
+        if not any(obj is self for obj in current_objs):
+            # This object is not in the configuration any more (i.e. it was
+            # already deleted, or the config was reparsed).  Only delete the
+            # reparsed copy of this object, never an unrelated line...
+            if 0 <= self.linenum < len(current_objs):
+                candidate = current_objs[self.linenum]
+                if candidate.linenum == self.linenum and candidate.text == self.text:
+                    return candidate.delete(recurse=recurse)
+            logger.warning("{} is not in the configuration; cannot delete it.".format(self))
+            return False
 
+        # Build a set of all object instances to be deleted... line numbers
+        # can be stale here, so only rely on the identity of the objects...
+        delete_these = {id(self)}
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
-            for child in self.all_children:
-                delete_these.add(child)
-
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
+            delete_these.update(id(child) for child in self.all_children)
 
-        else:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
-
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+        self.confobj._list = [obj for obj in current_objs if id(obj) not in delete_these]
+        if self.parent is not self:
+            self.parent.children = [obj for obj in self.parent.children if obj is not self]
 
         self.confobj.reassign_linenums()
         return True
-- 
2.43.0


From 0618be1c566c1014e98ef0c638b675cef8cd27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 05/38] fix: insert_before() / insert_after() insert once per
 matching line object

---
 ciscoconfparse/ccp_abc.py        |  12 ++--
 ciscoconfparse/ciscoconfparse.py | 104 +++++++++++++++++--------------
 2 files changed, 63 insertions(+), 53 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 2335ce9..cccd5f8 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -782,10 +782,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -801,7 +801,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -816,11 +816,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e429982..fc71bc0 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2883,11 +2883,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3001,11 +3001,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3048,11 +3048,14 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+
+        if atomic is True:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -5254,6 +5257,33 @@ class ConfigList(MutableSequence):
 
     ##############################################################################
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _build_new_obj(self, new_val):
+        """Build a new config line object for the text in new_val."""
+        if self.factory is False:
+            new_obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+            )
+
+        elif self.factory is True:
+            new_obj = config_line_factory(
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+
+        else:
+            error = "Cannot build an object for `{}` with factory={}".format(new_val, self.factory)
+            logger.error(error)
+            raise ValueError(error)
+
+        new_obj.confobj = self
+        return new_obj
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def insert_before(self, exist_val=None, new_val=None, atomic=False):
@@ -5304,11 +5334,13 @@ class ConfigList(MutableSequence):
             raise InvalidParameters(error)
 
         # exist_val MUST be a string
+        exist_obj = None
         if isinstance(exist_val, str) is True and exist_val != "":
             pass
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
+            exist_obj = exist_val
             exist_val = exist_val.text
 
         else:
@@ -5326,35 +5358,23 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
+        # ... if exist_val was a config line object, only modify that line
         all_idx = [
             idx
             for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
+            if list_obj is exist_obj
         ]
+        if len(all_idx) == 0:
+            all_idx = [
+                idx
+                for idx, list_obj in enumerate(self._list)
+                if re.search(exist_val, list_obj.text)
+            ]
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._build_new_obj(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5426,11 +5446,13 @@ class ConfigList(MutableSequence):
             raise InvalidParameters(error)
 
         # exist_val MUST be a string
+        exist_obj = None
         if isinstance(exist_val, str) is True and exist_val != "":
             pass
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
+            exist_obj = exist_val
             exist_val = exist_val.text
 
         else:
@@ -5448,34 +5470,22 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
+        # ... if exist_val was a config line object, only modify that line
         all_idx = [
             idx
             for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
+            if list_obj is exist_obj
         ]
+        if len(all_idx) == 0:
+            all_idx = [
+                idx
+                for idx, list_obj in enumerate(self._list)
+                if re.search(exist_val, list_obj._text)
+            ]
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self._build_new_obj(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
-- 
2.43.0


From 814219ab4c4c129fd1181892cd097556c6a1cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 06/38] fix: parse a macro which is not terminated by '@'

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index fc71bc0..473f768 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5673,6 +5673,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # the macro is not terminated by '@'
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From 9029e935e4fdea5f40c1a95e8014a574d6c2597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 07/38] fix: config lines with different line numbers or text
 never compare equal

---
 ciscoconfparse/ccp_abc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index cccd5f8..18a92f0 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -150,9 +150,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
             # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            return (self.linenum, self.text) == (val.linenum, val.text)
         except Exception:
             return False
 
-- 
2.43.0


From ec5e29012c7b34e708f5638432e7c390a9a0e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 08/38] fix: re_sub() keeps the line's indent in step with its
 text

---
 ciscoconfparse/ccp_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 18a92f0..4d88e11 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1064,6 +1064,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             return
 
         self._text = retval
+        self.indent = len(retval) - len(retval.lstrip())
         self.set_comment_bool()
         return retval
 
-- 
2.43.0


From f5e73a1fa3fd53d0da8179354c69838e047a7797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 09/38] fix: HDiff() output does not depend on the python hash
 seed

---
 ciscoconfparse/ciscoconfparse.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 473f768..3a9cbf1 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4799,7 +4799,6 @@ class HDiff(object):
 
                 # Calculate values associated with lines...
                 line_id_len = len(line_dict["diff_id_list"])
-                line_id_csv = ",".join([str(ii) for ii in line_dict["diff_id_list"]])
 
                 # check retval and find where we should "add" the
                 # line_dict...
@@ -4817,13 +4816,11 @@ class HDiff(object):
                         )
 
                     this_id_len = len(this_dict["diff_id_list"])
-                    this_id_csv = ",".join(
-                        [str(ii) for ii in this_dict["diff_id_list"]]
-                    )
-
-                    # if this_dict (as a string csv) is a substring of line's csv,
+                    # if this_dict's ids are line's ids, without the first or last,
                     # check whether this_dict should be line's parent...
-                    if this_id_csv in line_id_csv:
+                    if this_dict["diff_id_list"] in (
+                        line_dict["diff_id_list"][1:], line_dict["diff_id_list"][:-1]
+                    ):
 
                         # If the length of this_dict["diff_id_list"] is one element
                         # longer than line_dict["diff_id_list"], it's a pretty
-- 
2.43.0


From 51f025a1925c97a5c64e76d57787d33a4dbe1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 10/38] fix: dns_query() sends its queries to the requested
 server

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5482ce3..9fb095f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2618,7 +2618,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     # input = input_str.strip()
     retval = set()
     rr = Resolver()
-    rr.server = [socket.gethostbyname(server)]
+    rr.nameservers = [socket.gethostbyname(server)]
     rr.timeout = float(timeout)
     rr.lifetime = float(timeout)
     start = time.time()
-- 
2.43.0


From b1e1b375ca98e4a2e8f7d7d28a8c445f6a9a148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 11/38] fix: dns_query() can query A and AAAA records

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 9fb095f..f866dda 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2624,7 +2624,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     start = time.time()
     if (query_type == "A") or (query_type == "AAAA"):
         try:
-            answer = query(input_str, query_type)
+            answer = rr.query(input_str, query_type)
             duration = time.time() - start
             for result in answer:
                 response = DNSResponse(
-- 
2.43.0


From a93ace3025bb2039d446b665186ea5fcb35158b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 12/38] fix: dns_query() returns MX and TXT answers

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index f866dda..76191e3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2690,8 +2690,9 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
+                    duration=duration,
                     input_str=input_str,
-                    result_str=str(result.target),
+                    result_str=str(result.exchange),
                 )
                 response.preference = int(result.preference)
                 retval.add(response)
@@ -2787,7 +2788,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response = DNSResponse(
                     query_type=query_type,
                     duration=duration,
-                    input_str=inaddr,
+                    input_str=input_str,
                     result_str=str(result.strings),
                 )
                 retval.add(response)
-- 
2.43.0


From 121c521a8004d8c9b469b65721258ac368f10999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 13/38] fix: dns_lookup() returns DNS errors in its result

---
 ciscoconfparse/ccp_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 76191e3..c40aa4a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2830,11 +2830,7 @@ def dns_lookup(input_str, timeout=3, server="", record_type="A"):
     rr.lifetime = float(timeout)
     if server != "":
         rr.nameservers = [server]
-    # dns_session = rr.resolve(input_str, record_type)
-    dns_session = rr.query(input_str, record_type)
     responses = list()
-    for rdata in dns_session:
-        responses.append(str(rdata))
 
     """
     from dns import resolver
@@ -2847,6 +2843,10 @@ def dns_lookup(input_str, timeout=3, server="", record_type="A"):
     """
 
     try:
+        # dns_session = rr.resolve(input_str, record_type)
+        dns_session = rr.query(input_str, record_type)
+        for rdata in dns_session:
+            responses.append(str(rdata))
         return {
             "record_type": record_type,
             "addrs": responses,
-- 
2.43.0


From f6a75784b8b7bb0f16ef84b51f2ebf36db5ce183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 14/38] fix: check_valid_ipaddress() accepts IPv6 addresses

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c40aa4a..9a9edd2 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2906,8 +2906,8 @@ def check_valid_ipaddress(input_addr=None):
     try:
         IPv4Obj(input_addr)
         ipaddr_family = 4
-    except BaseException:
-        raise ValueError(input_addr)
+    except Exception:
+        pass
 
     if ipaddr_family == 0:
         try:
-- 
2.43.0


From 2051330a2c58f6b51741220fd6b7011b206cd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 15/38] fix: a config file's final newline does not add a blank
 config line

---
 ciscoconfparse/ciscoconfparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3a9cbf1..a5552a3 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -897,6 +897,10 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            # The newline at the end of the last line does not start another
+            #     (empty) config line
+            if len(config_lines) > 1 and config_lines[-1] == "":
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From 239639d61585b630d5708a1ff02de290584fbb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 16/38] fix: dns_query() durations do not depend on wall-clock
 adjustments

---
 ciscoconfparse/ccp_util.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 9a9edd2..5f2eedb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2621,11 +2621,11 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     rr.nameservers = [socket.gethostbyname(server)]
     rr.timeout = float(timeout)
     rr.lifetime = float(timeout)
-    start = time.time()
+    start = time.monotonic()
     if (query_type == "A") or (query_type == "AAAA"):
         try:
             answer = rr.query(input_str, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2635,7 +2635,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 )
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2643,7 +2643,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             response.error_str = e
             retval.add(response)
         except BaseException as eee:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2658,7 +2658,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     elif query_type == "CNAME":
         try:
             answer = rr.query(input_str, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2668,7 +2668,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 )
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2676,7 +2676,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             response.error_str = e
             retval.add(response)
         except BaseException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2686,7 +2686,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     elif query_type == "MX":
         try:
             answer = rr.query(input_str, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2697,7 +2697,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response.preference = int(result.preference)
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2705,7 +2705,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             response.error_str = e
             retval.add(response)
         except BaseException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2715,7 +2715,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     elif query_type == "NS":
         try:
             answer = rr.query(input_str, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2725,7 +2725,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 )
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2733,7 +2733,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
             response.error_str = e
             retval.add(response)
         except BaseException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2763,7 +2763,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
 
         try:
             answer = rr.query(inaddr, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2773,7 +2773,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 )
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
@@ -2783,7 +2783,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     elif query_type == "TXT":
         try:
             answer = rr.query(input_str, query_type)
-            duration = time.time() - start
+            duration = time.monotonic() - start
             for result in answer:
                 response = DNSResponse(
                     query_type=query_type,
@@ -2793,7 +2793,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 )
                 retval.add(response)
         except DNSException as e:
-            duration = time.time() - start
+            duration = time.monotonic() - start
             response = DNSResponse(
                 input_str=input_str, duration=duration, query_type=query_type
             )
-- 
2.43.0


From da518909443ee4727fa3873b8a435e31099a38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 17/38] fix: re_match_iter_typed(groupdict=..., recurse=False)
 checks every child

---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 4d88e11..d826b7b 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1364,12 +1364,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From dfef4f7c07ac1fb64a485802902b381148858142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 18/38] fix: commit() publishes the reparsed configuration in a
 single step

---
 ciscoconfparse/ciscoconfparse.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a5552a3..78fdeb7 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5556,7 +5556,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def _banner_mark_regex(self, regex):
+    def _banner_mark_regex(self, regex, obj_list):
         """
         Use the regex input parameter to identify all banner parent
         objects. Find banner object children and formally build references
@@ -5567,7 +5567,7 @@ class ConfigList(MutableSequence):
         """
         # Build a list of all banner parent objects...
         banner_objs = list(
-            filter(lambda obj: regex.search(obj.text), self._list),
+            filter(lambda obj: regex.search(obj.text), obj_list),
         )
 
         banner_re_str = r"^(?:(?P<btype>(?:set\s+)*banner\s\w+\s+)(?P<bchar>\S))"
@@ -5616,7 +5616,7 @@ class ConfigList(MutableSequence):
                 ## Use code below to identify children of the banner line
                 idx += 1
                 try:
-                    obj = self._list[idx]
+                    obj = obj_list[idx]
                     if obj.text is None:
                         if self.debug > 0:
                             logger.warning(
@@ -5657,7 +5657,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def _macro_mark_children(self, macro_parent_idx_list):
+    def _macro_mark_children(self, macro_parent_idx_list, obj_list):
         """
         Set the blank_line_keep attribute for all banner parent / child objs.
 
@@ -5665,7 +5665,7 @@ class ConfigList(MutableSequence):
         """
         # Mark macro children appropriately...
         for idx in macro_parent_idx_list:
-            pobj = self._list[idx]
+            pobj = obj_list[idx]
             # blank_line_keep for Github Issue #229
             pobj.blank_line_keep = True
             pobj.child_indent = 0
@@ -5674,10 +5674,10 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
-                if idx >= len(self._list):
+                if idx >= len(obj_list):
                     # the macro is not terminated by '@'
                     break
-                cobj = self._list[idx]
+                cobj = obj_list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
                 cobj.parent = pobj
@@ -5815,8 +5815,10 @@ class ConfigList(MutableSequence):
 
             retval.append(obj)
 
-        # Manually assign a parent on all closing braces
-        self._list = assign_parent_to_closing_braces(input_list=retval)
+        # Manually assign a parent on all closing braces... do not assign
+        # self._list here, because the parse is not finished yet; the caller
+        # assigns the returned list.
+        retval = assign_parent_to_closing_braces(input_list=retval)
 
         # Call _banner_mark_regex() to process banners in the returned obj
         # list.
@@ -5826,22 +5828,21 @@ class ConfigList(MutableSequence):
         #    and nxos share the same method...
         if syntax not in ALL_BRACE_SYNTAX:
             banner_re = self._build_banner_re_ios()
-            self._banner_mark_regex(banner_re)
+            self._banner_mark_regex(banner_re, retval)
 
             # We need to use a different method for macros than banners because
             #   macros don't specify a delimiter on their parent line, but
             #   banners call out a delimiter.
-            self._macro_mark_children(macro_parent_idx_list)  # Process macros
+            self._macro_mark_children(macro_parent_idx_list, retval)  # Process macros
 
         # change ignore_blank_lines behavior for Github Issue #229...
         #    Always allow a blank line if it's in a banner or macro...
         if self.ignore_blank_lines is True:
             retval = [
                 obj
-                for obj in self._list
+                for obj in retval
                 if obj.text.strip() != "" or obj.blank_line_keep is True
             ]
-            self._list = retval
 
         return retval
 
-- 
2.43.0


From 5ba41512fa127200e3352ee138eebac286dd240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 19/38] fix: prepend_line() / ConfigList.insert() build lines
 which can be edited

---
 ciscoconfparse/ciscoconfparse.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 78fdeb7..9b7aff7 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5505,24 +5505,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    all_lines=self._list,
-                    line=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self._build_new_obj(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 96c6aa22c1d231ced0ed6a6b87f90d8723628868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 20/38] fix: banner and macro lines have one parent, and are
 listed once in its children

---
 ciscoconfparse/ciscoconfparse.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 9b7aff7..96080bb 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5618,9 +5618,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        self._move_child_to_parent(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5630,14 +5629,29 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    self._move_child_to_parent(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
                     break
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _move_child_to_parent(self, parentobj, childobj):
+        """
+        Make ``childobj`` a child of ``parentobj`` only.
+
+        An indented banner or macro line already got a parent from its
+        indentation; it must not be listed in the children of both parents, nor
+        twice in the children of one of them.
+        """
+        old_parent = childobj.parent
+        if old_parent is not childobj:
+            old_parent.children = [obj for obj in old_parent.children if obj is not childobj]
+        parentobj.children.append(childobj)
+        childobj.parent = parentobj
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _macro_mark_children(self, macro_parent_idx_list, obj_list):
@@ -5663,8 +5677,7 @@ class ConfigList(MutableSequence):
                 cobj = obj_list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                self._move_child_to_parent(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From 326b1ea739be850fa28bb1a6352c7dcbc5e1302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 21/38] fix: comparing config lines does not hide errors such
 as MemoryError

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index d826b7b..d74eca2 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -151,7 +151,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   self.__hash__() I *must* change this
             # FIXME
             return (self.linenum, self.text) == (val.linenum, val.text)
-        except Exception:
+        except AttributeError:
             return False
 
     # On BaseCfgLine()
-- 
2.43.0


From e53493856aa34ed5d1f7b50d4281533a63cc4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 22/38] fix: deleting an already deleted line does not delete
 an identical line

---
 ciscoconfparse/ccp_abc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index d74eca2..e96d595 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -44,6 +44,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     indent = 0  # assign indent in the self.text setter method
     confobj = None  # Reference to the list object which owns it
     blank_line_keep = False  # CiscoConfParse() uses blank_line_keep
+    is_deleted = False  # delete() removed this object from the configuration
 
     all_text = []
     text = DEFAULT_TEXT  # Use self.text setter method to set this value
@@ -673,7 +674,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             # This object is not in the configuration any more (i.e. it was
             # already deleted, or the config was reparsed).  Only delete the
             # reparsed copy of this object, never an unrelated line...
-            if 0 <= self.linenum < len(current_objs):
+            if self.is_deleted is False and 0 <= self.linenum < len(current_objs):
                 candidate = current_objs[self.linenum]
                 if candidate.linenum == self.linenum and candidate.text == self.text:
                     return candidate.delete(recurse=recurse)
@@ -688,6 +689,9 @@ class BaseCfgLine(metaclass=ABCMeta):
             #        to self.all_children
             delete_these.update(id(child) for child in self.all_children)
 
+        for obj in current_objs:
+            if id(obj) in delete_these:
+                obj.is_deleted = True
         self.confobj._list = [obj for obj in current_objs if id(obj) not in delete_these]
         if self.parent is not self:
             self.parent.children = [obj for obj in self.parent.children if obj is not self]
-- 
2.43.0


From bf2b9018aebb51b458d36c4748de9cd4b960d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 23/38] fix: replace_all_children() reaches all descendants

---
 ciscoconfparse/ciscoconfparse.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 96080bb..14bef44 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3964,14 +3964,7 @@ class CiscoConfParse(object):
         """SEMI-PRIVATE: Takes a single object and returns a list of
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
-        # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return lineobject.all_children
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 1e8ff11d86f55782bea50c8f875f25d08422d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 24/38] fix: inserting next to a line object only touches that
 line

---
 ciscoconfparse/ciscoconfparse.py | 48 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 14bef44..8d49229 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5278,6 +5278,36 @@ class ConfigList(MutableSequence):
         new_obj.confobj = self
         return new_obj
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _find_obj_idx(self, exist_obj):
+        """
+        Return the list index of the config line object ``exist_obj``.
+
+        If ``exist_obj`` was replaced when the configuration was reparsed, find
+        its reparsed copy: the line with the same number and text, or the only
+        line which has the same text.
+        """
+        for idx, list_obj in enumerate(self._list):
+            if list_obj is exist_obj:
+                return idx
+
+        if exist_obj.is_deleted is False:
+            same_text = [
+                idx
+                for idx, list_obj in enumerate(self._list)
+                if list_obj.text == exist_obj.text
+            ]
+            for idx in same_text:
+                if self._list[idx].linenum == exist_obj.linenum:
+                    return idx
+            if len(same_text) == 1:
+                return same_text[0]
+
+        error = "{} is not in the configuration".format(exist_obj)
+        logger.error(error)
+        raise ValueError(error)
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def insert_before(self, exist_val=None, new_val=None, atomic=False):
@@ -5355,12 +5385,9 @@ class ConfigList(MutableSequence):
         # Find all config lines which need to be modified... store in all_idx
 
         # ... if exist_val was a config line object, only modify that line
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if list_obj is exist_obj
-        ]
-        if len(all_idx) == 0:
+        if exist_obj is not None:
+            all_idx = [self._find_obj_idx(exist_obj)]
+        else:
             all_idx = [
                 idx
                 for idx, list_obj in enumerate(self._list)
@@ -5467,12 +5494,9 @@ class ConfigList(MutableSequence):
         # Find all config lines which need to be modified... store in all_idx
 
         # ... if exist_val was a config line object, only modify that line
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if list_obj is exist_obj
-        ]
-        if len(all_idx) == 0:
+        if exist_obj is not None:
+            all_idx = [self._find_obj_idx(exist_obj)]
+        else:
             all_idx = [
                 idx
                 for idx, list_obj in enumerate(self._list)
-- 
2.43.0


From 52380a1bf4763532baeb019531050b932294bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 25/38] fix: the children of banner and macro lines are in line
 number order

---
 ciscoconfparse/ciscoconfparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8d49229..8a5e17b 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -32,6 +32,7 @@ from datetime import datetime
 from functools import partial
 from operator import is_not
 import warnings
+import bisect
 import inspect
 import pathlib
 import locale
@@ -5664,9 +5665,12 @@ class ConfigList(MutableSequence):
         twice in the children of one of them.
         """
         old_parent = childobj.parent
+        if old_parent is parentobj:
+            return
         if old_parent is not childobj:
             old_parent.children = [obj for obj in old_parent.children if obj is not childobj]
-        parentobj.children.append(childobj)
+        # keep the children in line number order
+        bisect.insort(parentobj.children, childobj)
         childobj.parent = parentobj
 
     # This method is on ConfigList()
-- 
2.43.0


From 27636310aa6a59ded195e24c697e7fa864dba0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 26/38] fix: find_object_branches() accepts a branchspec of one
 element

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8a5e17b..1177d29 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1240,8 +1240,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 26873e6ebfb51b068e9a5d34a4e60e61a012822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 27/38] fix: find_object_branches(regex_groups=True) honors
 regex_flags

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1177d29..bdfef3f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1260,7 +1260,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From ea32af97deed63106a632f39a3090536049c56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 28/38] fix: find_object_branches() honors regex_flags for the
 first branchspec element

---
 ciscoconfparse/ciscoconfparse.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bdfef3f..bf46d00 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1169,10 +1169,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
-- 
2.43.0


From cbe6889dacec0ee3eff77cd4280216ccc4253327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:15 +0000
Subject: [PATCH 29/38] fix: Diff() accepts new_config as a file

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bf46d00..e6265cf 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4043,8 +4043,8 @@ class Diff(object):
         if new_config is None:
             new_config = []
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
-            # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            # load the new config from a file as a string...
+            new_config = open(new_config).read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
-- 
2.43.0


From fce0b57c0fe56b4fb05452d2220cdc465e99d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:21 +0000
Subject: [PATCH 30/38] fix: Diff() treats a missing configuration as empty

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e6265cf..f71c9bd 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4024,7 +4024,7 @@ class Diff(object):
         # Handle old_config
         ######################################################################
         if old_config is None:
-            old_config = []
+            old_config = ""
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
             old_config = open(old_config).read()
@@ -4041,7 +4041,7 @@ class Diff(object):
         # Handle new_config
         ######################################################################
         if new_config is None:
-            new_config = []
+            new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
             # load the new config from a file as a string...
             new_config = open(new_config).read()
-- 
2.43.0


From 3275767aebcee230be7a75015986aa787b1b02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 31/38] fix: CiscoConfParse() accepts a pathlib.Path

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f71c9bd..4c9f854 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -726,7 +726,7 @@ class CiscoConfParse(object):
         self.encoding = encoding or ENCODING
         self.read_only = read_only
 
-        if len(config) > 0:
+        if not isinstance(config, pathlib.Path) and len(config) > 0:
             try:
                 correct_element_types = []
                 for ii in config:
-- 
2.43.0


From f8c4f6bb90e3e9c6c44ab5379496089c86d53c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 32/38] fix: an empty config file does not hold a blank config
 line

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 4c9f854..15738a3 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -900,7 +900,7 @@ class CiscoConfParse(object):
             config_lines = rgx.split(text)
             # The newline at the end of the last line does not start another
             #     (empty) config line
-            if len(config_lines) > 1 and config_lines[-1] == "":
+            if config_lines[-1] == "":
                 config_lines.pop()
             return config_lines
 
-- 
2.43.0


From 47728b97bf7db4e6f7c6e76be3208b375f0cc78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:02 +0000
Subject: [PATCH 33/38] fix: dns_query() accepts the IPv6 address of a server

---
 ciscoconfparse/ccp_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5f2eedb..22b23c1 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2618,7 +2618,11 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     # input = input_str.strip()
     retval = set()
     rr = Resolver()
-    rr.nameservers = [socket.gethostbyname(server)]
+    try:
+        nameserver = str(IPv6Address(server))
+    except AddressValueError:
+        nameserver = socket.gethostbyname(server)
+    rr.nameservers = [nameserver]
     rr.timeout = float(timeout)
     rr.lifetime = float(timeout)
     start = time.monotonic()
-- 
2.43.0


From 5b5aab784d8fb3168e1afe25dc9570be5944bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 34/38] fix: dns_query() zone transfers work when the server is
 given by name

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 22b23c1..581b5fb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2657,7 +2657,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
 
     elif query_type == "AXFR":
         """This is a hack: return text of zone transfer, instead of axfr objs"""
-        _zone = zone.from_xfr(query.xfr(server, input_str, lifetime=timeout))
+        _zone = zone.from_xfr(query.xfr(nameserver, input_str, lifetime=timeout))
         return [_zone[node].to_text(node) for node in _zone.nodes.keys()]
     elif query_type == "CNAME":
         try:
-- 
2.43.0


From 6cc7b0ecd3739f42d3d26ba32045c681cf347e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:27 +0000
Subject: [PATCH 35/38] fix: parse with read_only=True after the application
 removed the log handler

---
 ciscoconfparse/ccp_util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 581b5fb..1739285 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -376,7 +376,12 @@ def configure_loguru(
         if isinstance(handler_id, int):
             if debug > 0:
                 print(f"Disabling loguru handler: {handler_id}")
-            ccp_logger_control(action="remove", read_only=read_only, active_handlers=[handler_id])
+            try:
+                ccp_logger_control(action="remove", read_only=read_only, active_handlers=[handler_id])
+            except ValueError:
+                # The application already removed this handler, for
+                # instance when it called logger.remove()...
+                pass
         else:
             raise ValueError(f"handler_id must be an integer -->{handler_id}<--")
 
-- 
2.43.0


From f72ef1b90762ab8611038be82da86deb8ef50687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 36/38] fix: an error below the repr() of an interface logged
 itself without end

---
 ciscoconfparse/ccp_util.py     | 7 +++++++
 ciscoconfparse/models_cisco.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1739285..eec3adb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -41,6 +41,7 @@ from functools import wraps
 import subprocess
 import locale
 import socket
+import reprlib
 import shlex
 import time
 import copy
@@ -3547,6 +3548,9 @@ class CiscoIOSInterface(object):
         return self.render_as_string()
 
     # This method is on CiscoIOSInterface()
+    #    loguru calls repr() while it logs an error... recursive_repr() ensures
+    #    that an error below __repr__() does not log itself forever
+    @reprlib.recursive_repr(fillvalue="<CiscoIOSInterface ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return f"""<CiscoIOSInterface {self.__str__()}>"""
@@ -4431,6 +4435,9 @@ class CiscoIOSXRInterface(object):
         return self.render_as_string()
 
     # This method is on CiscoIOSXRInterface()
+    #    loguru calls repr() while it logs an error... recursive_repr() ensures
+    #    that an error below __repr__() does not log itself forever
+    @reprlib.recursive_repr(fillvalue="<CiscoIOSXRInterface ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return f"""<CiscoIOSXRInterface {self.__str__()}>"""
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..d81053b 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import
 import re
+import reprlib
 
 from ciscoconfparse.errors import DynamicAddressException
 
@@ -880,6 +881,9 @@ class BaseIOSIntfLine(IOSCfgLine):
         self.default_ipv6_addr_object = IPv6Obj()
 
     # This method is on BaseIOSIntfLine()
+    #    loguru calls repr() while it logs an error... recursive_repr() ensures
+    #    that an error below __repr__() does not log itself forever
+    @reprlib.recursive_repr(fillvalue="<BaseIOSIntfLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         if not self.is_switchport:
-- 
2.43.0


From a52c7ea329ac691c6d50a8e2064ff7da5ec9a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:52 +0000
Subject: [PATCH 37/38] fix: an error below the repr() of other configuration
 lines logged itself without end

---
 ciscoconfparse/models_all.py   | 2 ++
 ciscoconfparse/models_asa.py   | 6 ++++++
 ciscoconfparse/models_cisco.py | 6 ++++++
 ciscoconfparse/models_iosxr.py | 2 ++
 ciscoconfparse/models_junos.py | 3 +++
 ciscoconfparse/models_nxos.py  | 7 +++++++
 6 files changed, 26 insertions(+)

diff --git a/ciscoconfparse/models_all.py b/ciscoconfparse/models_all.py
index 7cae699..911bd6f 100644
--- a/ciscoconfparse/models_all.py
+++ b/ciscoconfparse/models_all.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from abc import abstractmethod
 import copy
 import re
+import reprlib
 import os
 
 from ciscoconfparse.errors import DynamicAddressException
@@ -2204,6 +2205,7 @@ class BaseIOSRouteLine(BaseCfgLine):
     def __init__(self, *args, **kwargs):
         super(BaseIOSRouteLine, self).__init__(*args, **kwargs)
 
+    @reprlib.recursive_repr(fillvalue="<BaseIOSRouteLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<%s # %s '%s' info: '%s'>" % (
diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..638b273 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -31,6 +31,7 @@ r""" models_asa.py - Parse, Query, Build, and Modify IOS-style configurations
 ###   Use models_asa.py at your own risk.  You have been warned :-)
 
 import re
+import reprlib
 
 from loguru import logger
 import ipaddress
@@ -162,6 +163,7 @@ class BaseASAIntfLine(ASACfgLine):
         self.ifindex = None  # Optional, for user use
         self.default_ipv4_addr_object = IPv4Obj()
 
+    @reprlib.recursive_repr(fillvalue="<BaseASAIntfLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         if not self.is_switchport:
@@ -813,6 +815,7 @@ class ASAObjGroupService(ASACfgLine):
             return True
         return False
 
+    @reprlib.recursive_repr(fillvalue="<ASAObjGroupService ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<ASAObjGroupService {} protocol: {}>".format(
@@ -928,6 +931,7 @@ class ASAIntfGlobal(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "interface global"
 
+    @reprlib.recursive_repr(fillvalue="<ASAIntfGlobal ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<{} # {} '{}'>".format(self.classname, self.linenum, self.text)
@@ -951,6 +955,7 @@ class ASAHostnameLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "hostname"
 
+    @reprlib.recursive_repr(fillvalue="<ASAHostnameLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<{} # {} '{}'>".format(self.classname, self.linenum, self.hostname)
@@ -979,6 +984,7 @@ class BaseASARouteLine(BaseCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @reprlib.recursive_repr(fillvalue="<BaseASARouteLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<{} # {} '{}' info: '{}'>".format(
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d81053b..4e12314 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -83,6 +83,7 @@ class TrackingInterface(BaseCfgLine):
         return f"'{self.name}' group: {self.group}, weighting: {self.weighting}, decrement: {self.decrement}"
 
     # This method is on TrackingInterface()
+    @reprlib.recursive_repr(fillvalue="<TrackingInterface ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return f"<TrackingInterface {self.__str__()}>"""
@@ -197,6 +198,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         return f"'{self.interface_name}' version: {self.version}, group: {self.group}, ipv4: {self.ipv4}, has_ipv6: {self.has_ipv6}, priority: {self.priority}, preempt: {self.preempt}, preempt_delay: {self.preempt_delay}, hello_timer: {self.hello_timer}, hold_timer: {self.hold_timer}"
 
     # This method is on HSRPInterfaceGroup()
+    @reprlib.recursive_repr(fillvalue="<HSRPInterfaceGroup ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return f"<HSRPInterfaceGroup {self.__str__()}>"""
@@ -2695,6 +2697,7 @@ class IOSIntfGlobal(IOSCfgLine):
         self.feature = "interface global"
 
     # This method is on IOSIntGlobal()
+    @reprlib.recursive_repr(fillvalue="<IOSIntfGlobal ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<%s # %s '%s'>" % (self.classname, self.linenum, self.text)
@@ -2756,6 +2759,7 @@ class IOSHostnameLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "hostname"
 
+    @reprlib.recursive_repr(fillvalue="<IOSHostnameLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<%s # %s '%s'>" % (self.classname, self.linenum, self.hostname)
@@ -2785,6 +2789,7 @@ class IOSAccessLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "access line"
 
+    @reprlib.recursive_repr(fillvalue="<IOSAccessLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<%s # %s '%s' info: '%s'>" % (
@@ -2875,6 +2880,7 @@ class BaseIOSRouteLine(IOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @reprlib.recursive_repr(fillvalue="<BaseIOSRouteLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<%s # %s '%s' info: '%s'>" % (
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..7be5404 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -23,6 +23,7 @@ r""" models_iosxr.py - Parse, Query, Build, and Modify IOS-style configurations
 """
 
 import re
+import reprlib
 
 from loguru import logger
 
@@ -371,6 +372,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         self.default_ipv4_addr_object = IPv4Obj("0.0.0.1/32", strict=False)
 
     # This method is on BaseIOSXRIntfLine()
+    @reprlib.recursive_repr(fillvalue="<BaseIOSXRIntfLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         if not self.is_switchport:
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 53acb37..0362f40 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -31,6 +31,7 @@ r""" models_junos.py - Parse, Query, Build, and Modify Junos-style configuration
 
 import ipaddress
 import re
+import reprlib
 
 from ciscoconfparse.ccp_abc import BaseCfgLine
 from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj
@@ -358,6 +359,7 @@ class BaseJunosIntfLine(JunosCfgLine):
         self.default_ipv4_addr_object = IPv4Obj("0.0.0.1/32", strict=False)
 
     # This method is on BaseJunosIntfLine()
+    @reprlib.recursive_repr(fillvalue="<BaseJunosIntfLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         if not self.is_switchport:
@@ -710,6 +712,7 @@ class BaseJunosRouteLine(BaseCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @reprlib.recursive_repr(fillvalue="<BaseJunosRouteLine ...>")
     @logger.catch(reraise=True)
     def __repr__(self):
         return "<{} # {} '{}' info: '{}'>".format(
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..d19018d 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -31,6 +31,7 @@
 ###   You have been warned :-)
 
 import re
+import reprlib
 
 from ciscoconfparse.errors import DynamicAddressException
 
@@ -309,6 +310,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         self.ifindex = None  # Optional, for user use
         self.default_ipv4_addr_object = IPv4Obj("0.0.0.1/32", strict=False)
 
+    @reprlib.recursive_repr(fillvalue="<BaseNXOSIntfLine ...>")
     def __repr__(self):
         if not self.is_switchport:
             try:
@@ -1734,6 +1736,7 @@ class NXOSIntfGlobal(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "interface global"
 
+    @reprlib.recursive_repr(fillvalue="<NXOSIntfGlobal ...>")
     def __repr__(self):
         return "<{} # {} '{}'>".format(self.classname, self.linenum, self.text)
 
@@ -1779,6 +1782,7 @@ class NXOSvPCLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "vpc"
 
+    @reprlib.recursive_repr(fillvalue="<NXOSvPCLine ...>")
     def __repr__(self):
         return "<{} # {} '{}'>".format(self.classname, self.linenum, self.vpc_domain_id)
 
@@ -1928,6 +1932,7 @@ class NXOSHostnameLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "hostname"
 
+    @reprlib.recursive_repr(fillvalue="<NXOSHostnameLine ...>")
     def __repr__(self):
         return "<{} # {} '{}'>".format(self.classname, self.linenum, self.hostname)
 
@@ -1953,6 +1958,7 @@ class NXOSAccessLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "access line"
 
+    @reprlib.recursive_repr(fillvalue="<NXOSAccessLine ...>")
     def __repr__(self):
         return "<{} # {} '{}' info: '{}'>".format(
             self.classname,
@@ -2031,6 +2037,7 @@ class BaseNXOSRouteLine(BaseCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @reprlib.recursive_repr(fillvalue="<BaseNXOSRouteLine ...>")
     def __repr__(self):
         return "<{} # {} '{}' info: '{}'>".format(
             self.classname,
-- 
2.43.0


From 915e8735ab4593b8b9b84843478bf9e2c4fe22d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:09 +0000
Subject: [PATCH 38/38] fix: debug messages describe lines without repr(),
 which can raise

---
 ciscoconfparse/ccp_abc.py        | 18 +++++++++---------
 ciscoconfparse/ciscoconfparse.py |  8 ++++----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index e96d595..a8e5fbf 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -667,7 +667,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def delete(self, recurse=True):
         """Delete this object.  By default, if a parent object is deleted, the child objects are also deleted; this happens because ``recurse`` defaults True."""
         if self.confobj.debug >= 1:
-            logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
+            logger.info("'{}'.delete(recurse={}) was called.".format(self.text, recurse))
 
         current_objs = self.confobj._list
         if not any(obj is self for obj in current_objs):
@@ -678,7 +678,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                 candidate = current_objs[self.linenum]
                 if candidate.linenum == self.linenum and candidate.text == self.text:
                     return candidate.delete(recurse=recurse)
-            logger.warning("{} is not in the configuration; cannot delete it.".format(self))
+            logger.warning("'{}' is not in the configuration; cannot delete it.".format(self.text))
             return False
 
         # Build a set of all object instances to be deleted... line numbers
@@ -814,7 +814,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         calling_function = inspect.stack()[calling_fn_index].function
         calling_lineno = inspect.stack()[calling_fn_index].lineno
         if self.confobj.debug >= 1:
-            logger.debug("Inserting '{}' after '{}'".format(insertstr, self))
+            logger.debug("Inserting '{}' after '{}'".format(insertstr, self.text))
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
@@ -984,7 +984,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         """
         retval = {}
         if debug is True:
-            logger.info(f"{self}.get_typed_dict(`regex`={regex}, `type_dict`={type_dict}, `default`='{default}', debug={debug}) was called")
+            logger.info(f"'{self.text}'.get_typed_dict(`regex`={regex}, `type_dict`={type_dict}, `default`='{default}', debug={debug}) was called")
 
         # If the `regex` is a string, compile so we can access match group info
         if isinstance(regex, str):
@@ -1316,11 +1316,11 @@ class BaseCfgLine(metaclass=ABCMeta):
         ##   this while I build the API
         #    raise NotImplementedError
         if debug is True:
-            logger.info(f"{self}.re_match_iter_typed(`regex`={regex}, `group`={group}, `result_type`={result_type}, `recurse`={recurse}, `untyped_default`={untyped_default}, `default`='{default}', `groupdict`={groupdict}, `debug`={debug}) was called")
+            logger.info(f"'{self.text}'.re_match_iter_typed(`regex`={regex}, `group`={group}, `result_type`={result_type}, `recurse`={recurse}, `untyped_default`={untyped_default}, `default`='{default}', `groupdict`={groupdict}, `debug`={debug}) was called")
 
         if groupdict is None:
             if debug is True:
-                logger.debug(f"    {self}.re_match_iter_typed() is checking with `groupdict`=None")
+                logger.debug(f"    '{self.text}'.re_match_iter_typed() is checking with `groupdict`=None")
 
             # Return the result if the parent line matches the regex...
             mm = re.search(regex, self.text)
@@ -1330,7 +1330,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     if debug is True:
-                        logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
+                        logger.debug(f"    '{self.text}'.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj.text}<--")
                     mm = re.search(regex, cobj.text)
                     if isinstance(mm, re.Match):
                         return result_type(mm.group(group))
@@ -1342,7 +1342,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             else:
                 for cobj in self.all_children:
                     if debug is True:
-                        logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
+                        logger.debug(f"    '{self.text}'.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj.text}<--")
                     mm = re.search(regex, cobj.text)
                     if isinstance(mm, re.Match):
                         return result_type(mm.group(group))
@@ -1353,7 +1353,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     return result_type(default)
         elif isinstance(groupdict, dict) is True:
             if debug is True:
-                logger.debug(f"    {self}.re_match_iter_typed() is checking with `groupdict`={groupdict}")
+                logger.debug(f"    '{self.text}'.re_match_iter_typed() is checking with `groupdict`={groupdict}")
 
             # Return the result if the parent line matches the regex...
             mm = re.search(regex, self.text)
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 15738a3..5504086 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5637,7 +5637,7 @@ class ConfigList(MutableSequence):
                     else:
                         # all non-banner-parent lines should hit this condition
                         if self.debug > 0:
-                            logger.debug("found banner child {}".format(obj))
+                            logger.debug("found banner child {}".format(obj.text))
 
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
@@ -5755,7 +5755,7 @@ class ConfigList(MutableSequence):
 
         else:
             if debug:
-                logger.debug("    root obj assign: %s" % obj)
+                logger.debug("    root obj assign: %s" % obj.text)
 
         return retval, parents_cache, parent
 
@@ -5890,11 +5890,11 @@ class ConfigList(MutableSequence):
 
         if self.debug >= 4:
             logger.debug(
-                "Adding child '{}' to parent" " '{}'".format(childobj, parentobj),
+                "Adding child '{}' to parent" " '{}'".format(childobj.text, parentobj.text),
             )
             logger.debug(
                 "BEFORE parent.children - {}".format(
-                    parentobj.children,
+                    [ii.text for ii in parentobj.children],
                 ),
             )
 
-- 
2.43.0

