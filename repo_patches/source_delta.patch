From ba0791d67d134af187069319e4458cae13543b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 01/28] fix: report values without a length given for a fixed
 size tuple

Loading a number or None into Tuple[int, str] ended in an AssertionError
and prevented the other members of a union from being tried.
---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..607c667 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -434,6 +434,10 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
+    try:
+        len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     if l.failonextra and len(value) > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
     elif len(value) < len(args):
-- 
2.43.0


From 6e914483e474489d90fbf0662efac45621426891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 02/28] fix: keep errors of dictionary entries and report
 unhashable keys

A TypedloadAttributeError of an entry was replaced by a new one, losing
its trace. Keys that load into something not hashable ended in an
AssertionError.
---
 typedload/dataloader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 607c667..21b86a4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -418,8 +418,13 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except TypeError as e:
+        # The loaded key is not hashable
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
-- 
2.43.0


From ca1f7d6dc7d1c4ba6ce3e88cc0fd54cd7b1ccbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 03/28] fix: do not use the handler of dictionary values for
 the keys

The first time a type was found as value of a dictionary, its handler
replaced the one of the keys.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 21b86a4..e49668c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From f56c125296740ca80304391ef2adc7abc128daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 04/28] fix: accept values that are not hashable as tag of a
 tagged union

They ended in an AssertionError, even if a member of the union could
have loaded the value.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e49668c..34e0198 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -711,7 +711,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # Not hashable, so it is none of the literals
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From 7525b1a1965762259d6b5c5e6b140c3d7fb27ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 05/28] fix: report all the errors of dates, timedelta and
 regular expressions

nan or inf as timedelta, huge numbers in dates, and patterns such as
'a{99999999999}' ended in an AssertionError.
---
 typedload/dataloader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 34e0198..5091430 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -830,6 +830,8 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except ValueError as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
@@ -843,6 +845,10 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except ValueError as e:
+        raise TypedloadValueError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
 
 def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
@@ -850,6 +856,10 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except ValueError as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From a35814711153b9e95ae579fd393ce61f03348643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 06/28] fix: report extra fields whose name is not a string

With failonextra such a field ended in an AssertionError.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5091430..bc37615 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -577,7 +577,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(str(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From 676c12c4c9990e00f8d5a4cd9c49a5e7607110e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 07/28] fix: report all the errors of the constructors of the
 loaded objects

Errors other than TypeError and ValueError ended in an AssertionError,
the others had neither value nor type_ set.
---
 typedload/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index bc37615..c75de23 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -613,9 +613,11 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 1f71b4698d29708ef695593c22696b5605067c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 08/28] fix: set value and type_ in the errors about wrong
 handlers

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c75de23..c0200a0 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -466,7 +466,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
 
 
 def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra: bool) -> Dict[str, Any]:
@@ -966,4 +966,4 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
-- 
2.43.0


From 1311f9777428e8cf034567827828d3554e08df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 09/28] fix: only list exceptions of the library as cause of an
 enum error

The message of the error could not be created if the list contained
the ValueError raised by the enum.
---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c0200a0..054d5f5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -796,8 +796,10 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     for _, t in get_type_hints(type_).items():
         try:
             return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            exceptions.append(TypedloadValueError(str(e), value=value, type_=t))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From a0aa2b794b4134fcd25e5c18e436b19e88133e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 10/28] fix: do not modify the annotations of a TypedDict

Loading removed the NotRequired from the annotations of the class.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 054d5f5..56ac765 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -642,7 +642,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From a154b18d0d1f1464e59177bd325383d3878781fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 11/28] fix: load argparse.Namespace into objects with mangled
 names

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 56ac765..6678a76 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -526,7 +526,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
     try:
-        value = _mangle_names(transforms, value, l.failonextra)
+        value = _mangle_names(transforms, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
@@ -898,7 +898,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
     try:
-        value = _mangle_names(namesmap, value, l.failonextra)
+        value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
-- 
2.43.0


From 654d59c29fa774f57c247cae8ec75c732c656da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 12/28] fix: check the type of the value for Pattern[str] and
 Pattern[bytes]

The condition looked at type rather than at type_ so the check never
happened.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6678a76..8b999c6 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -839,7 +839,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From e99c25c60e5c8c1aca0267af929e8b347886e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 13/28] fix: attrs converters that only have the type of the
 return value

Loading ended in an AssertionError caused by a StopIteration.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8b999c6..70e3b45 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -877,7 +877,7 @@ def _get_attr_converter_type(c: "Callable"):
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-        return next(iter(hints.values()))
+        return next(iter(hints.values()), Any)
     return Any
 
 
-- 
2.43.0


From 50ed9f571360ea733e9c0cd4f53851fac1fa5551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 14/28] fix: mangle the name of a dataclass field to the empty
 string

The dumper writes it with that name, but the loader ignored it.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 70e3b45..97e430a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -521,7 +521,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         for pyname in fields:
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
+                if name is not None:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
-- 
2.43.0


From 7e520003ef853b51608084d57a022038bd14ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 15/28] fix: accept None as annotation

The fields of dataclasses and attrs and generics such as list[None]
have None rather than its type.
---
 typedload/typechecks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 3bcc7ee..3c4692f 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -144,7 +144,7 @@ def is_nonetype(type_: Any) -> bool:
     '''
     type_ == type(None)
     '''
-    return type_ == NONETYPE
+    return type_ is None or type_ == NONETYPE
 
 
 def _generic_type_check(type_: Any, native, from_typing) -> bool:
-- 
2.43.0


From 33dc776c17c169a512e731ea40aaab87c381a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 16/28] fix: only load the fields that the constructor accepts

A ClassVar was considered a necessary field, InitVar could not be loaded
and init=False fields were passed to the constructor.
---
 typedload/dataloader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 97e430a..792b9d3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -21,6 +21,7 @@ Module to load data into typed data structures
 # author Salvo "LtWorf" Tomaselli <tiposchi@tiscali.it>
 
 
+import dataclasses
 import datetime
 from enum import Enum
 import ipaddress
@@ -504,15 +505,19 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
+        # Only what the constructor accepts: no init=False, no ClassVar
+        fields = {k for k,v in type_.__dataclass_fields__.items() if
+                  v.init == True and v._field_type is not dataclasses._FIELD_CLASSVAR
+                  }
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
-                            v.init == True and # Is a field for the constructor
+                            k in fields and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
                             }
         if l.pep563:
             type_hints = get_type_hints(type_)
         else:
             type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
+        type_hints = {k: v.type if isinstance(v, dataclasses.InitVar) else v for k,v in type_hints.items()}
 
         #Name mangling
 
@@ -884,7 +889,7 @@ def _get_attr_converter_type(c: "Callable"):
 def _attrload(l: Loader, value: Any, type_) -> Any:
     from attr._make import _Nothing as NOTHING
 
-    fields = {i.name for i in type_.__attrs_attrs__}
+    fields = {i.name for i in type_.__attrs_attrs__ if i.init}
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
-- 
2.43.0


From 6bebefafcd4f5616fe91fb65d6b1fe9060b0ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 17/28] fix: dump dataclasses with InitVar, ClassVar or local
 forward references

InitVar gave an AttributeError, forward references to types that are not
global gave a NameError, ClassVar were dumped as if they were fields.
---
 typedload/datadumper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..c1ee0ba 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -20,6 +20,7 @@ data structures to things that json can serialize.
 #
 # author Salvo "LtWorf" Tomaselli <tiposchi@tiscali.it>
 
+import dataclasses
 import datetime
 import ipaddress
 from inspect import signature
@@ -264,11 +265,15 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        fields = {f.name for f in dataclasses.fields(value)}
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(value)
+        except Exception:
+            # Forward references that can't be resolved. They are only needed to be faster
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From f70c1e12a17994558b931dc969e1649aca6f65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 18/28] fix: dump attrs with a default factory that takes self

---
 typedload/datadumper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index c1ee0ba..bd93901 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -215,7 +215,7 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
+            elif hasattr(attr.default, 'factory') and attrval == (attr.default.factory(value) if attr.default.takes_self else attr.default.factory()):
                 continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
-- 
2.43.0


From e6a1ef41b0fd9e3caa39728fa21b733d92308561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 19/28] fix: dump the elements whose type is a subclass of a
 basic type

A List[int] containing an IntEnum was dumped with the enum in it.
---
 typedload/datadumper.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index bd93901..eb914bf 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -295,12 +295,7 @@ def _iteratordump(d: Dumper, value: Any, t: Any) -> List[Any]:
 
     if itertype in d.basictypes and d.handlers[0][1] == _identitydump:
         # Iterable of basic types, unchanged default handler for basic types
-        if isinstance(value, list):
-            # Just copy the list if it's a list
-            return value.copy()
-        else:
-            # Create a list and return it otherwise
-            return [i for i in value]
+        return [i if type(i) in d.basictypes else d.dump(i) for i in value]
 
     return [d.dump(i) for i in value]
 
-- 
2.43.0


From 2f88392f584cfb36978cf9f20a53d98e0c07ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 20/28] fix: do not accept subclasses of basic types inside
 collections

True was accepted for List[int] and Dict[str, int], even without
basiccast, while it is converted or refused everywhere else.
---
 typedload/dataloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 792b9d3..2c18b18 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -407,8 +407,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     # Try fast load
     try:
         return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
+            k if key_type_basic and type(k) == key_type else key_f(l, k, key_type): \
+            v if value_type_basic and type(v) == value_type else value_f(l, v, value_type) \
             for k, v in value.items()
         }
     except Exception:
@@ -960,7 +960,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     try:
         ctr = count(1)
         if t in l.basictypes:
-            return function((i if isinstance(i, t) else f(l, i, t) for i in compress(value, ctr)))
+            return function((i if type(i) == t else f(l, i, t) for i in compress(value, ctr)))
         elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
-- 
2.43.0


From 351dfc85f97a9dc08c428ae18b9b14afd831ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 21/28] fix: resolve forward references to types found inside
 other types

Only the types passed to load() were known, those that were fields,
elements or members of an union were not.
---
 typedload/dataloader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 2c18b18..76db2d5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -258,6 +258,11 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__'):
+                    typename = type_.__name__
+                    if typename not in self.frefs:
+                        self.frefs[typename] = type_
                 return i
         raise ValueError('No matching condition found')
 
@@ -290,12 +295,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From c1005df57024de04076519d91e73cadd0eee0a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 22/28] fix: use custom handlers for the basic types found
 inside collections

A handler for int placed before the default one was used for int but
not for List[int], Dict[str, int] and Tuple[int, str].
---
 typedload/dataloader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 76db2d5..c496b85 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -406,8 +406,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     # Try fast load
     try:
         return {
-            k if key_type_basic and type(k) == key_type else key_f(l, k, key_type): \
-            v if value_type_basic and type(v) == value_type else value_f(l, v, value_type) \
+            k if key_f is _basicload and key_type_basic and type(k) == key_type else key_f(l, k, key_type): \
+            v if value_f is _basicload and value_type_basic and type(v) == value_type else value_f(l, v, value_type) \
             for k, v in value.items()
         }
     except Exception:
@@ -451,7 +451,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     ctr = count(1)  # Keep track of the position in the tuple
 
     try:
-        return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
+        return tuple(v if h is _basicload and t in l.basictypes and type(v) == t else h(l, v, t)
             for v, h, t in zip(
                 compress(value, ctr),
                 (l._indexcache.get(t) or l.handlers[l.index(t)][1] for t in args),
@@ -958,9 +958,9 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     # load calling the handler directly, skipping load()
     try:
         ctr = count(1)
-        if t in l.basictypes:
+        if f is _basicload and t in l.basictypes:
             return function((i if type(i) == t else f(l, i, t) for i in compress(value, ctr)))
-        elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
+        elif f is _unionload and is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
             return function(map(f, repeat(l), compress(value, ctr), repeat(t)))
-- 
2.43.0


From 83dc853982f0203a3e13d92d0239879ab051ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 23/28] fix: dump the fields of dataclasses in the order of
 their declaration

---
 typedload/datadumper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index eb914bf..a8a3a85 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -265,7 +265,7 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = {f.name for f in dataclasses.fields(value)}
+        fields = [f.name for f in dataclasses.fields(value)]
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From dabcda8fb5d4fa8972990e12f9778b3f0a03e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 24/28] fix: do not mix up unions that list the same types in
 different orders

---
 typedload/dataloader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c496b85..efd5a9d 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -241,7 +241,7 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -694,7 +694,9 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasattr(value, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        # The order of the members decides, but is ignored when comparing unions
+        cachekey = tuple(args)
+        discriminatorscache = l._unionload_discriminatorcache.get(cachekey)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -712,7 +714,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[cachekey] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From d30e5b70e420fdea9609f17f5391c3fed33662c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 25/28] fix: choose the discriminator of a union regardless of
 the hash seed

---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index efd5a9d..1627069 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -707,7 +707,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
 
             cachedict = {}
             if keys:
-                key = keys.pop()
+                # Any of them would do, but always pick the same one
+                key = min(keys)
                 for t, d in data.items():
                     for literal in d[key]:
                         cachedict[literal] = t
-- 
2.43.0


From 77fc4425c677825a4c588379b8ebe35370dce2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 26/28] fix: a Namespace can have attributes named like the
 methods of a dict

Loading argparse.Namespace(keys=1) into a NamedTuple or a TypedDict
called the attribute, and failed with an AssertionError.
---
 typedload/dataloader.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1627069..70f84c3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -533,7 +533,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         value = _mangle_names(transforms, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
@@ -559,16 +559,12 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     '''
     Helper function to load dict-like data into an object.
     '''
+    # Needs to be done first, a Namespace can have an attribute called keys
+    value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
-    except AttributeError as e:
-        newvalue = _dictequivalence(l, value)
-
-        if newvalue is value:
-            raise TypedloadAttributeError(str(e), value=value, type_=type_)
-        else:
-            value = newvalue
-            vfields = set(value.keys())
+    except (AttributeError, TypeError) as e:
+        raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -908,7 +904,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
-- 
2.43.0


From 2f78cdde099b75884e14e52554e2a2560df68f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:27 +0000
Subject: [PATCH 27/28] fix: attrs converters that are not functions no longer
 break loading

get_type_hints() refuses partials and objects with __call__, and fails on
unknown names in the hints. Its exception left load() as AssertionError.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 70f84c3..2d2bd1b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -876,7 +876,11 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    try:
+        hints = get_type_hints(c)
+    except Exception:
+        # Not a function (a partial, an object with __call__), or unknown names in the hints
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-- 
2.43.0


From 1544d295317fed08a05a13db76edb6e754e73ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:37 +0000
Subject: [PATCH 28/28] fix: load attrs classes whose constructor names a field
 differently

---
 typedload/dataloader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 2d2bd1b..cf7d445 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -555,9 +555,12 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     return value
 
 
-def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_) -> Any:
+def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, aliases: Dict[str, str] = {}) -> Any:
     '''
     Helper function to load dict-like data into an object.
+
+    aliases gives the parameter of the constructor, for the fields where
+    it differs from the name of the field.
     '''
     # Needs to be done first, a Namespace can have an attribute called keys
     value = _dictequivalence(l, value)
@@ -605,7 +608,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
                     type_=field_type
                 )
         try:
-            params[k] = loader_f(l, v, field_type)
+            params[aliases.get(k, k)] = loader_f(l, v, field_type)
         except TypedloadException as e:
             annotation=Annotation(AnnotationType.FIELD, k)
             e.trace.insert(0, TraceItem(value, type_, annotation))
@@ -895,6 +898,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
+    # Private fields lose the underscore in the constructor
+    aliases = {i.name: getattr(i, 'alias', i.name.lstrip('_')) for i in type_.__attrs_attrs__}
 
     for attribute in type_.__attrs_attrs__:
         if attribute.default is NOTHING and attribute.init:
@@ -911,7 +916,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_)
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, aliases)
 
 
 def _strconstructload(l: Loader, value, type_):
-- 
2.43.0

