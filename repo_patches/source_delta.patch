From 6a87b115e998831bd546c170563618e90bbd298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 001/152] fix: deleting an item of an object goes through its
 property descriptor

`del obj['key']` removed required properties and skipped the deleter, and failed
half-way for additional properties, whose inputs are not recorded.
---
 ngoschema/protocols/object_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..84c78d5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -439,9 +439,14 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 delattr(self, trans)
                 break
         else:
+            raw, _ = self._properties_raw_trans(key)
+            desc = self._propertiesDescriptor.get(raw)
+            if desc:
+                return desc.__delete__(self)
             del self._data[key]
-            del self._itemsInputs[key]
             del self._dataValidated[key]
+            self._itemsInputs.pop(key, None)
+            self._dataAdditional.pop(key, None)
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
-- 
2.43.0


From 8f0c8821c40eefbaea8cc16278b7903ae58a81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 002/152] fix: reading a negated alias negates the value

The closure looked up the name after it had been replaced by the aliased one.
---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 84c78d5..454fdf5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -294,7 +294,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        negated = name in self._aliasesNegated
+        op = lambda x: neg(x) if negated else x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -396,7 +397,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        negated = key in self._aliasesNegated
+        op = lambda x: neg(x) if negated else x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From 215224c7105da975cdc88442c2c66004d83d869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 003/152] fix: the type of an aliased item is the type of the
 property it stands for

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 454fdf5..9e0e0bd 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -506,7 +506,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         t = self._items_type_cache.get(item)
         if t is None:
             i = self._aliases.get(item, item)
-            i = self._aliasesNegated.get(item, item)
+            i = self._aliasesNegated.get(i, i)
             t = Object._items_type(self, i)
             self._items_type_cache[item] = t
             if t and hasattr(t, '_proxyUri'):
-- 
2.43.0


From 9af069824cd446532d793e41f0035d4a8c30a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 004/152] fix: writing an item of a lazy collection outdates
 its evaluated value

---
 ngoschema/protocols/collection_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..4cdb3ae 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -142,6 +142,7 @@ class CollectionProtocol(Collection):
         return t._serialize(t, v, **opts)
 
     def __setitem__(self, item, value):
+        self._items_touch(item)
         self._data[item] = value
         if not self._lazyLoading:
             self._itemsInputs[item] = self._items_inputs_evaluate(item)
-- 
2.43.0


From 8c88c1d94df917553fe393a7ae09f85324ca90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 005/152] fix: inserting in an array outdates its cached
 representation

---
 ngoschema/protocols/array_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..cb0f261 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -73,6 +73,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return len(self._data)
 
     def insert(self, item, value):
+        CollectionProtocol._touch(self)
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-- 
2.43.0


From e2a53aaca1810951446167df6c43bd98affefe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 006/152] fix: inserting in an array validates the array, not
 the item against the array schema

---
 ngoschema/protocols/array_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index cb0f261..cb533dc 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -82,7 +82,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
             self._set_dataValidated(item, self._items_evaluate(item))
         elif isinstance(value, TypeProtocol):
             value.set_context(self._context)
-        self._validate(self, value, items=False)
+        self._validate(self, self, items=False)
 
     def _str_list(self):
         if self._str is None:
-- 
2.43.0


From 6f74dfce2df6f5ecd5757863150195313939f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 007/152] fix: a deleted property can be assigned again

---
 ngoschema/protocols/collection_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 4cdb3ae..538d0d5 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -169,7 +169,7 @@ class CollectionProtocol(Collection):
 
     def _set_data(self, item, value):
         t = self._items_type(self, item)
-        orig = self._data[item]
+        orig = self._data.get(item)
         # to avoid comparison of objects (often equality which is the longest to validate), only touch for changed primitives
         if t.is_primitive():
             if value != orig:
-- 
2.43.0


From 3d990ef07ee357ffea0ca68515ef04086eaa9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 008/152] fix: a refused property assignment leaves the
 previous value

---
 ngoschema/protocols/object_protocol.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9e0e0bd..5783c01 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,11 +95,18 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
+            orig = obj._data.get(key)
             obj._set_data(key, value)
             if not obj._lazyLoading:
-                obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
-                iopts = {'validate': False} if key in obj._notValidated else {}
-                obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
+                try:
+                    obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
+                    iopts = {'validate': False} if key in obj._notValidated else {}
+                    obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
+                except Exception:
+                    # the value is refused, restore the previous one
+                    obj._data[key] = orig
+                    obj._items_touch(key)
+                    raise
                 if self.fset:
                     self.fset(obj, obj._dataValidated[key])
         except Exception as er:
-- 
2.43.0


From 28e85fe131c96ff6d281876ce30e662153b9661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 009/152] fix: a refused collection item leaves the previous
 value

---
 ngoschema/protocols/collection_protocol.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 538d0d5..25f0549 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -142,11 +142,18 @@ class CollectionProtocol(Collection):
         return t._serialize(t, v, **opts)
 
     def __setitem__(self, item, value):
+        orig = self._data[item]
         self._items_touch(item)
         self._data[item] = value
         if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
+            try:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            except Exception:
+                # the value is refused, restore the previous one
+                self._data[item] = orig
+                self._items_touch(item)
+                raise
 
     def __getitem__(self, item):
         if self._dataValidated[item] is None:
-- 
2.43.0


From 29113af672f35cdbb1eec61ca622fe8ac1ecf846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 010/152] fix: a value refused by an array is not left in it

The index is normalized first, as list.insert accepts any index.
---
 ngoschema/protocols/array_protocol.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index cb533dc..c6ed1d4 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -74,15 +74,23 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
 
     def insert(self, item, value):
         CollectionProtocol._touch(self)
+        item = slice(item, None).indices(len(self._data))[0]
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
-        elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
-        self._validate(self, self, items=False)
+        try:
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            elif isinstance(value, TypeProtocol):
+                value.set_context(self._context)
+            self._validate(self, self, items=False)
+        except Exception:
+            # the value is refused, remove it
+            del self._itemsInputs[item]
+            del self._dataValidated[item]
+            del self._data[item]
+            raise
 
     def _str_list(self):
         if self._str is None:
-- 
2.43.0


From 0c1fceb35e76d88aa6a9ec0d4deb2024c3681f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 011/152] fix: an additional property is evaluated with its
 type when it is assigned

---
 ngoschema/protocols/object_protocol.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5783c01..7ad7b13 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -439,8 +439,24 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             return desc.__set__(self, op(value))
         if not self._propertiesAdditional:
             raise KeyError(key)
-        v = op(value)
-        self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
+        known, orig = key in self._data, self._data.get(key)
+        self._items_touch(key)
+        self._data[key] = op(value)
+        if not self._lazyLoading:
+            try:
+                self._itemsInputs[key] = self._items_inputs_evaluate(key)
+                iopts = {'validate': False} if key in self._notValidated else {}
+                self._set_dataValidated(key, self._items_evaluate(key, **iopts))
+            except Exception:
+                # the value is refused, restore the previous one
+                self._data[key] = orig
+                self._items_touch(key)
+                if not known:
+                    del self._data[key]
+                    del self._dataValidated[key]
+                    del self._itemsInputs[key]
+                raise
+        self._dataAdditional[key] = self._dataValidated[key]
 
     def __delitem__(self, key):
         for trans, raw in self._propertiesTranslation.items():
-- 
2.43.0


From 26c71b59c9b0191f49cfc8b1bfcb473195c90ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 012/152] fix: deleting an item outdates the cached
 representation

---
 ngoschema/protocols/collection_protocol.py | 1 +
 ngoschema/protocols/object_protocol.py     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 25f0549..95fa595 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -162,6 +162,7 @@ class CollectionProtocol(Collection):
         return self._dataValidated[item]
 
     def __delitem__(self, index):
+        CollectionProtocol._touch(self)
         del self._data[index]
         del self._dataValidated[index]
         del self._itemsInputs[index]
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 7ad7b13..57159e0 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -121,6 +121,7 @@ class PropertyDescriptor:
             raise AttributeError('%s is a required argument.' % key)
         if self.fdel:
             self.fdel(obj)
+        CollectionProtocol._touch(obj)
         del obj._data[key]
         del obj._dataValidated[key]
         del obj._itemsInputs[key]
@@ -468,6 +469,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             desc = self._propertiesDescriptor.get(raw)
             if desc:
                 return desc.__delete__(self)
+            CollectionProtocol._touch(self)
             del self._data[key]
             del self._dataValidated[key]
             self._itemsInputs.pop(key, None)
-- 
2.43.0


From f2a5782c9f46ee3d39378c800f87695927032caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 013/152] fix: a failed type construction is not left marked as
 under construction

The next build of the same id returned a proxy to a type which never gets built.
---
 ngoschema/managers/type_builder.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..804c43c 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -80,19 +80,21 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema:
+                    cls = cls.extend_type(id, **schema)
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        finally:
+            self._on_construction.pop(id)
         self._registry[id] = cls
         NamespaceManager.register_ns(id)
         return cls
-- 
2.43.0


From ecc928557352d877e60d0a1271a8cdb77d26dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 014/152] fix: resolve documents from the current document
 store

The cache kept returning replaced and unregistered documents. An unknown document
is now reported with InvalidValue like the other resolution errors.
---
 ngoschema/resolvers/uri_resolver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..807e225 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
@@ -52,7 +51,7 @@ def resolve_doc(uri_id, remote=False):
         doc = requests.get(uri).json()
         UriResolver.register_doc(doc, uri)
         return doc
-    raise Exception('Unresolvable uri %s' % uri_id)
+    raise InvalidValue('Unresolvable uri %s' % uri_id)
 
 
 def resolve_fragment(doc, fragment):
-- 
2.43.0


From bc80b54377d7ff4303b1a72bef1ea95190a5e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 015/152] fix: changing the namespaces of a manager discards
 its cached translations

---
 ngoschema/managers/namespace_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..7807df7 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -44,6 +44,11 @@ class NamespaceManager(Registry):
         if not uri.split('#')[0]:
             uri = self._registry[''].split('#')[0] + uri
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
+        self._clear_cache()
+
+    def _clear_cache(self):
+        self._get_id_cname.cache_clear()
+        self._get_cname_id.cache_clear()
 
     def set_current(self, name):
         ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
@@ -51,6 +56,7 @@ class NamespaceManager(Registry):
         cname = ns_names[-1]
         self._current_ns = cname
         self._current_ns_uri = self._local[''] = self._registry[cname]
+        self._clear_cache()
 
     @property
     def currentNs(self):
-- 
2.43.0


From d9c264cc8f6982d53e5884106679e04f791755db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 016/152] fix: brackets, backslash, caret and backquote are
 removed from attribute names

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 7807df7..74aa1c4 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -12,7 +12,7 @@ from .. import settings
 from ..utils import ReadOnlyChainMap as ChainMap, Registry
 from ngoschema.resolvers.uri_resolver import resolve_uri, UriResolver
 
-CLEAN_JS_NAME_REGEX = re.compile(r"[^a-zA-z0-9\.\-_]+")
+CLEAN_JS_NAME_REGEX = re.compile(r"[^a-zA-Z0-9\.\-_]+")
 MS_NETLOC = urlparse(settings.MS_DOMAIN).netloc
 
 
-- 
2.43.0


From 47a6a9c8072750d713011851f480525054d2ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 017/152] fix: a class does not look up its names in the cache
 of its parent

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 57159e0..c72e9c2 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -267,7 +267,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-        if cls.__properties_raw_trans is None:
+        if '_ObjectProtocol__properties_raw_trans' not in cls.__dict__:
+            # each class has its own cache, a subclass can define the name differently
             cls.__properties_raw_trans = {}
         cached = cls.__properties_raw_trans.get(name)
         if cached:
-- 
2.43.0


From 30fb216fdb5ee2e2892d3b7c8a193e8ed2a1271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 018/152] fix: creating a collection type does not modify the
 sets of its class

---
 ngoschema/types/collection.py | 4 ++--
 ngoschema/types/object.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..ea83930 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -56,8 +56,8 @@ class Collection(Type, CollectionSerializer):
     _items_type_cache = None
 
     def __init__(self, items=None, notValidated=None, notSerialized=None, **opts):
-        self._notValidated.update(notValidated or [])
-        self._notSerialized.update(notSerialized or [])
+        self._notValidated = self._notValidated.union(notValidated or [])
+        self._notSerialized = self._notSerialized.union(notSerialized or [])
         Type.__init__(self, **opts)
         self._items = items or self._items
 
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..806ab2d 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -141,7 +141,7 @@ class Object(Collection, ObjectSerializer):
         if additionalProperties is not None:
             self._propertiesAdditional = type_builder.build(f'{cls_name}/additionalProperties', additionalProperties)
         self._propertiesWithDefault = set(k for k, t in self._properties.items() if t.has_default())
-        self._required.difference_update(self._propertiesWithDefault)
+        self._required = self._required.difference(self._propertiesWithDefault)
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-- 
2.43.0


From ac11c3063a48cee41f8cb91b17cfe79bb42cad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 019/152] fix: serializing without read-only properties does
 not modify the excluded keys given

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 806ab2d..c1dd33b 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -89,7 +89,7 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
             if k in self._required:
                 yield k
-- 
2.43.0


From 6c87e8756f2cb1d932b7b7f897c68df03471557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 020/152] fix: ordering the calls does not modify the
 dependencies of the class

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index c72e9c2..63fcf95 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -198,7 +198,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _call_order(self, value, items=True, **opts):
         # make a local copy which is transfered to the sorter
-        dependencies = defaultdict(set, **self._dependencies)
+        dependencies = defaultdict(set, {k: set(v) for k, v in self._dependencies.items()})
         if items:
             for k, t in self._items_types(self, value):
                 if self._is_included(k, value, **opts):
-- 
2.43.0


From d11867b72121a6856ac96d77a28d74d535041721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 021/152] fix: casted_as restores the class of the instance on
 errors

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..d9355bc 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -523,8 +523,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From 2707feb0a91e3c3aa2a169dd6e800c4a8e700617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 022/152] fix: evaluating a number does not replace the decimal
 context of the thread

---
 ngoschema/types/numerics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index 737bbdf..d8cc5a6 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -47,8 +47,8 @@ class Number(Numeric):
 
     @staticmethod
     def _evaluate(self, value, **opts):
-        decimal.setcontext(self._dcmContext)
-        return Primitive._evaluate(self, value, **opts)
+        with decimal.localcontext(self._dcmContext):
+            return Primitive._evaluate(self, value, **opts)
 
 
 @register_type('integer')
-- 
2.43.0


From 1cceebe2d1d62f801bf3e963d5b31a6d1b495d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 023/152] fix: topological_sort does not modify its argument

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index d9355bc..ecb9dfa 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -682,8 +682,8 @@ def topological_sort(data):
     from functools import reduce
     if not data:
         return {}
-    for k, v in data.items():
-        v.discard(k) # Ignore self dependencies
+    # Ignore self dependencies (and work on a copy)
+    data = {k: set(v) - {k} for k, v in data.items()}
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     data.update({item: set() for item in extra_items_in_deps})
     while True:
-- 
2.43.0


From fc4cf559a3ac96706b4dc930ff891dec680024cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 024/152] fix: testing an object does not modify the criteria
 of the filter

---
 ngoschema/query.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..680f439 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -134,6 +134,8 @@ class Filter(object):
         test = not self.anyOf
         for k, v2 in self.attrs_value.items():
             ks, ops, ops_negate = self.attrs_ops[k]
+            # the parsed criteria are shared by all the objects tested
+            ks, ops = list(ks), list(ops)
             o = get_descendant(obj, ks)
             if o is None:
                 # breaking the look we never go in the for/ELSE statement where
@@ -142,7 +144,7 @@ class Filter(object):
                 break
             elif ops and utils.is_mapping(o):
                 # check if it s not a child
-                for op in ops:
+                for op in list(ops):
                     o2 = get_descendant(o, op)
                     if o2:
                         o = o2
-- 
2.43.0


From eef74736dd2e8fec95598c5a1dac332614a90a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 025/152] fix: a missing attribute does not discard the other
 criteria of an any-of filter

---
 ngoschema/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 680f439..faa9393 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -138,6 +138,9 @@ class Filter(object):
             ks, ops = list(ks), list(ops)
             o = get_descendant(obj, ks)
             if o is None:
+                if self.anyOf:
+                    # another criteria can be satisfied
+                    continue
                 # breaking the look we never go in the for/ELSE statement where
                 # an object is potentially yielded
                 test = False
-- 
2.43.0


From ce7a7f099494ab0a553d3df732ec71ab08dfa91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 026/152] fix: the union of queries does not modify the results
 of its operand

---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index faa9393..2779f0d 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -441,7 +441,7 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
         return Query(res, self._distinct, self._order_by)
-- 
2.43.0


From 859b04e588e18405dd3bdff1f436af568a7dceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 027/152] fix: ordering, reversing and reading the last item of
 a query

---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 2779f0d..b509007 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -414,9 +414,9 @@ class Query(object):
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
                 self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                                            key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                self._result_cache = list(reversed(self._result_cache))
         return self._result_cache
 
     def __getitem__(self, k):
@@ -488,13 +488,13 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
     def reverse(self):
         ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
+        ret._reverse = not self._reverse
         return ret
 
     def count(self):
-- 
2.43.0


From 58cff6ff651727afbf54d09d4d5ce5f7bbd4dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 028/152] fix: a query can be evaluated and refined several
 times

---
 ngoschema/query.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index b509007..4e73b10 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -231,8 +231,16 @@ class Query(object):
         self._order_by = order_by
         self._reverse = reverse
 
+    def _items(self):
+        # an iterator can only be consumed once, whereas a query can be evaluated
+        # and refined several times
+        if iter(self._iterable) is self._iterable:
+            self._iterable = list(self._iterable)
+        for x in self._iterable:
+            yield x
+
     def _chain(self):
-        return Query(self._iterable, self._distinct, self._order_by, self._reverse)
+        return Query(self._items(), self._distinct, self._order_by, self._reverse)
 
     @staticmethod
     def _filter_or_exclude(iterable,
@@ -347,7 +355,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
@@ -361,7 +369,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -376,7 +384,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     any_of=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -391,7 +399,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     any_of=True,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
@@ -407,7 +415,7 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
+            self._result_cache = list(self._items())
 
             ob = self._order_by
             if ob:
@@ -461,7 +469,7 @@ class Query(object):
         return Query(res, self._distinct, self._order_by)
 
     def get(self, *attrs, **attrs_value):
-        ret = list(Query._filter_or_exclude(self._iterable,
+        ret = list(Query._filter_or_exclude(self._items(),
                                         *attrs,
                                         distinct=self._distinct,
                                         **attrs_value))
@@ -475,7 +483,7 @@ class Query(object):
 
     def next(self, *attrs, **attrs_value):
         return next(
-                Query._filter_or_exclude(self._iterable,
+                Query._filter_or_exclude(self._items(),
                                          *attrs,
                                          distinct=self._distinct,
                                          **attrs_value))
@@ -504,7 +512,7 @@ class Query(object):
         return len(self) == 0
 
     def order_by(self, order_by, reverse=False):
-        return Query(self._iterable, self._distinct, order_by, reverse=reverse)
+        return Query(self._items(), self._distinct, order_by, reverse=reverse)
 
     def all(self):
         """
-- 
2.43.0


From 1c7f5e06162e4f450cee2c400acc488f1c352321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 029/152] fix: case-insensitive operators compare text, not
 regular expressions

---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 4e73b10..8b96a80 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -95,13 +95,13 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'endswith':
             return a.endswith(b)
         if op == 'ieq':
-            return re.match('^%s$' % b, a, re.IGNORECASE)
+            return a.lower() == b.lower()
         if op == 'istartswith':
-            return re.match('^%s' % b, a, re.IGNORECASE)
+            return a.lower().startswith(b.lower())
         if op == 'iendswith':
-            return re.match('%s$' % b, a, re.IGNORECASE)
+            return a.lower().endswith(b.lower())
         if op == 'icontains':
-            return re.search('%s' % b, a, re.IGNORECASE)
+            return b.lower() in a.lower()
         if op == 'regex':
             return re.match(b, a)
 
-- 
2.43.0


From 09369ea2a8d946e9bf86381aff21d7fa2b054772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 030/152] fix: the XML deserializer reads its own options

---
 ngoschema/serializers/xml_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index 66c6b16..c2c3dfe 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -37,10 +37,10 @@ class XmlDeserializer(Deserializer):
     @staticmethod
     def _deserialize_xml(self, value, **opts):
         charset = opts.get('charset', self._charset)
-        process_namespaces = opts.get('attr_prefix', self._processNamespaces)
+        process_namespaces = opts.get('process_namespaces', self._processNamespaces)
         namespace_separator = opts.get('namespace_separator', self._namespaceSeparator)
         disable_entities = opts.get('disable_entities', self._disableEntities)
-        process_comments = opts.get('attr_prefix', self._processComments)
+        process_comments = opts.get('process_comments', self._processComments)
         force_list = opts.get('force_list', self._forceList)
         value = xmltodict.parse(value,
                                  encoding=charset,
-- 
2.43.0


From 7a9d594144311e721ace22456f5b1ddb632b4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 031/152] fix: values which are no date or time are refused as
 invalid values

---
 ngoschema/types/datetime.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 532600b..2abaf34 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -41,7 +41,8 @@ class Date(Primitive):
         if value is None:
             return value
         if isinstance(value, (arrow.Arrow, datetime.datetime)):
-            assert value.time() == datetime.time(0, 0), value.time()
+            if value.time() != datetime.time(0, 0):
+                raise InvalidValue("{0} is not a date: its time is set".format(value))
             return value.date()
         if isinstance(value, datetime.date):
             return value
@@ -60,7 +61,7 @@ class Date(Primitive):
                     return a.date()
                 except Exception:
                     pass
-        raise InvalidValue("{0} is not detected as a date: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a date".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -87,7 +88,8 @@ class Time(Primitive):
         if isinstance(value, datetime.time):
             return value
         if isinstance(value, (datetime.datetime, arrow.Arrow)):
-            assert value.date() == datetime.date(1, 1, 1)
+            if value.date() != datetime.date(1, 1, 1):
+                raise InvalidValue("{0} is not a time: its date is set".format(value))
             return value.time()
         if String.check(value, **opts):
             value = String.convert(value, **opts)
@@ -100,7 +102,7 @@ class Time(Primitive):
                 return a.time()
             except Exception:
                 pass
-        raise InvalidValue("{0} is not detected as a time: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a time".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -141,6 +143,7 @@ class Datetime(Date, Time):
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
+        raise InvalidValue("{0} is not detected as a datetime".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 30dbcfab354b5c4d435b22c5f79fa2312ba6213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 032/152] fix: an index out of an enum is refused as a
 conversion error

---
 ngoschema/types/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 9ba2485..08fa796 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -102,6 +102,7 @@ class Enum(Primitive):
         from .numerics import Integer
         from .strings import String
         enum = self._enum
+        s = value
         if String.check(value):
             s = String.convert(value, **opts)
             if s in enum:
@@ -110,7 +111,7 @@ class Enum(Primitive):
             i = Integer.convert(value)
             if i in enum:
                 return i
-            if i > len(enum):
+            if not 0 <= i < len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-- 
2.43.0


From 65b1a63dfd558f9f3cc29f1ef68907cc8c80943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 033/152] fix: argument assertion of methods does not depend on
 the truth value of the instance

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..5f140c3 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -137,7 +137,7 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if not instance and arg_i is not None else arg_i - 1
+            arg_i2 = arg_i if instance is None and arg_i is not None else arg_i - 1
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From d5229b155da8c893ddd23ed634c980825b0098d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 034/152] fix: errors located by an index are reported as
 invalid values

---
 ngoschema/protocols/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/validator.py b/ngoschema/protocols/validator.py
index d44d44a..f3dbcc5 100644
--- a/ngoschema/protocols/validator.py
+++ b/ngoschema/protocols/validator.py
@@ -54,7 +54,7 @@ class Validator(Converter, Context):
         if not with_type:
             excludes = list(excludes) + ['type']
         schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes}
-        return {'/'.join(e.schema_path): e.message
+        return {'/'.join(str(p) for p in e.schema_path): e.message
                 for e in self._jsValidator.iter_errors(value, schema)}
 
     def _format_errors(self, value, **opts):
-- 
2.43.0


From 87bd1692494c0e6b08fef9b9fd351cf2e9996c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 035/152] fix: comparing and hashing objects looks at their
 keys and values

---
 ngoschema/protocols/collection_protocol.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 95fa595..dd08400 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -224,11 +224,14 @@ class CollectionProtocol(Collection):
             return False
         if len(self) != len(other):
             return False
-        for i, v in enumerate(other):
-            if self[i] != v:
+        for k, _ in self._items_types(self, self._data):
+            try:
+                if self[k] != other[k]:
+                    return False
+            except (KeyError, IndexError):
                 return False
         return True
 
     def __hash__(self):
-        return hash(tuple(self._id, tuple((k, hash(v)) for k, v in enumerate(self._dataValidated))))
+        return hash((self._id, tuple((k, hash(self[k])) for k, _ in self._items_types(self, self._data))))
 
-- 
2.43.0


From 766f6a8fe341a87662739b12add3f898fb48e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 036/152] fix: the maximal size and the uniqueness of the items
 of an array are enforced

---
 ngoschema/types/array.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..60fa13c 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 
 from collections import Mapping, Sequence, deque, OrderedDict
 
-from ..exceptions import ValidationError, ConversionError
+from ..exceptions import ValidationError, ConversionError, InvalidValue
 from ..utils import ReadOnlyChainMap as ChainMap
 from ..decorators import log_exceptions
 from ..managers.type_builder import register_type
@@ -57,10 +57,13 @@ class ArrayDeserializer(CollectionDeserializer):
     @staticmethod
     def _validate(self, value, **opts):
         value = CollectionDeserializer._validate(self, value, **opts)
+        lv = len(value)
+        if self._maxItems is not None and lv > self._maxItems:
+            raise InvalidValue('%i items are expected at most: %s.' % (self._maxItems, value))
         if self._uniqueItems:
-            hashes = set([hash(v) for v in value])
-            if len(hashes) != len(value):
-                ValidationError('Duplicate items in %s.' % value)
+            items = [v for v in value if v is not None]
+            if any(v in items[:i] for i, v in enumerate(items)):
+                raise InvalidValue('Duplicate items in %s.' % value)
         return value
 
     @staticmethod
-- 
2.43.0


From 1b847573d078e735c775195cac8b5987b79637ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 037/152] fix: a refused deletion leaves the items

---
 ngoschema/protocols/collection_protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index dd08400..1a8dbd2 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
+from copy import copy
 from abc import abstractmethod
 from operator import neg
 
@@ -163,10 +164,16 @@ class CollectionProtocol(Collection):
 
     def __delitem__(self, index):
         CollectionProtocol._touch(self)
+        stores = copy(self._data), copy(self._dataValidated), copy(self._itemsInputs)
         del self._data[index]
         del self._dataValidated[index]
         del self._itemsInputs[index]
-        CollectionProtocol._validate(self, self, items=False)
+        try:
+            CollectionProtocol._validate(self, self, items=False)
+        except Exception:
+            # the deletion is refused, restore the items
+            self._data, self._dataValidated, self._itemsInputs = stores
+            raise
 
     def get(self, key, default=None):
         try:
-- 
2.43.0


From d415e1f73c2705f2416aaca55de1b2a5687c1368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 038/152] fix: a file is compared and written with the same
 encoding

---
 ngoschema/protocols/file_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 43ab0da..5be08a3 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -106,13 +106,13 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, Path)
     def _write_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.setdefault('binary', self._binary)
         mode = 'wb' if binary else 'w'
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
         if filepath.exists():
-            content = self.read_file(filepath)
+            content = self.read_file(filepath, **opts)
             if value == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
@@ -123,7 +123,7 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, PathFileExists)
     def _append_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.setdefault('binary', self._binary)
         mode = 'ab' if binary else 'a'
         with self._open_file(self, filepath, mode=mode, **opts) as f:
             return f.write(value)
-- 
2.43.0


From 0661825a7724a185381e772a6b44e23f3001e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 039/152] fix: a class registry returns the default given

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index ecb9dfa..3c19044 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -267,7 +267,7 @@ class GenericClassRegistry(Registry):
         return f
 
     def get(self, id, default=None):
-        return self._registry.get(id)
+        return self._registry.get(id, default)
 
     def contains(self, id):
         return id in self._registry
-- 
2.43.0


From 1393a5f29d6ffc0425d01ebe1ae0498341d597f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 040/152] fix: a weak registry returns the registered object

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 3c19044..1188fb3 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -246,8 +246,8 @@ class WeakRegistry(Registry):
         self._registry = weakref.WeakValueDictionary()
 
     def __getitem__(self, key):
-        # callv weak reference
-        return self._registry[key]()
+        # WeakValueDictionary dereferences its values
+        return self._registry[key]
 
 
 class GenericClassRegistry(Registry):
-- 
2.43.0


From a2cede9def2df2d0d84237d5a216971a97b872fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 041/152] fix: an unresolvable uri is refused

---
 ngoschema/resolvers/uri_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 807e225..1c269c2 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -202,6 +202,7 @@ class UriResolver(RefResolver):
                 return resolve_fragment(doc, frag)
         except Exception as er:
             raise InvalidValue("Impossible to resolve uri %s. %s" % (value, str(er)))
+        raise InvalidValue("Unresolvable uri %s" % value)
 
 
 def scope(uri, base_id):
-- 
2.43.0


From 71b8b4d5aa52f996b7f2c5926daa76194e52fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 042/152] fix: a read-only additional property is not assigned

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 63fcf95..a35e531 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -441,6 +441,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             return desc.__set__(self, op(value))
         if not self._propertiesAdditional:
             raise KeyError(key)
+        if key in self._readOnly:
+            raise AttributeError("'%s' is read only" % key)
         known, orig = key in self._data, self._data.get(key)
         self._items_touch(key)
         self._data[key] = op(value)
-- 
2.43.0


From d6338d0cdb1804ac65eb3523029b2f367e054b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 043/152] fix: a required additional property is not deleted

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index a35e531..76a0c01 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -472,6 +472,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             desc = self._propertiesDescriptor.get(raw)
             if desc:
                 return desc.__delete__(self)
+            if key in self._required:
+                raise AttributeError('%s is a required argument.' % key)
             CollectionProtocol._touch(self)
             del self._data[key]
             del self._dataValidated[key]
-- 
2.43.0


From fffd1a9f5f0fc16acd60a155ebc3d32adedc5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 044/152] fix: writing through a path which is not set is
 refused

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 76a0c01..7fb6515 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -430,7 +430,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 for p in parts[:-1]:
                     cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
-                        return
+                        # nothing to write to, do not drop the value silently
+                        raise KeyError(key)
                 cur[parts[-1]] = value
                 return
             except Exception as er:
-- 
2.43.0


From 40da00d0b0588a08ed8d8cb084efc1f2f19193e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 045/152] fix: accessors defined by a class apply to inherited
 properties

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 7fb6515..ebe1349 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -764,10 +764,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                d = getattr(b, '_propertiesDescriptor', {}).get(pname)
+                if d is not None:
+                    d = copy.copy(d)
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From f78a539f60660ebc06653a698120d18eb1c62e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 046/152] fix: accessors of extended schemas apply to redefined
 properties

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index ebe1349..dc0a127 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -730,7 +730,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 fname = f'{PROP_PREF[prop]}{ptrans}'
                 fun = attrs.get(fname)
                 if not fun:
-                    fun = [getattr(b, fname) for b in bases if hasattr(b, fname)]
+                    fun = [getattr(b, fname) for b in bases + bases_extended if hasattr(b, fname)]
                     fun = None if not fun else fun[0]
                 if fun:
                     insp = inspect_function(fun)
-- 
2.43.0


From 31e2144eb0e6f59fe7ce8dfa0e974bf27839c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 047/152] fix: a hidden or unselected required property is not
 serialized

---
 ngoschema/types/object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index c1dd33b..206eade 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -88,10 +88,11 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         all_ordered += list(keys.difference(all_ordered))
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
+        hidden = list(excludes)
         if no_readOnly:
-            excludes = list(excludes) + list(self._readOnly)
+            excludes = hidden + list(self._readOnly)
         for k in all_ordered:
-            if k in self._required:
+            if k in self._required and ObjectSerializer._is_included(k, excludes=hidden, only=only):
                 yield k
             elif ObjectSerializer._is_included(k, value, excludes=excludes, only=only, no_defaults=no_defaults):
                 yield k
-- 
2.43.0


From 8f635dee0ccfcaa761df08684fa34c1a119ef1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 048/152] fix: names hidden by a class are not removed from its
 nested objects

---
 ngoschema/protocols/collection_protocol.py |  5 ++---
 ngoschema/types/collection.py              | 12 +++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 1a8dbd2..bb7f75d 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -82,9 +82,8 @@ class CollectionProtocol(Collection):
         return self._collection._evaluate(self, value, excludes=excludes, **opts)
 
     @staticmethod
-    def _serialize(self, value, excludes=[], **opts):
-        excludes = list(self._notSerialized.union(excludes))
-        return self._collection._serialize(self, value, excludes=excludes, **opts)
+    def _serialize(self, value, **opts):
+        return self._collection._serialize(self, value, **opts)
 
     def _touch(self):
         self._repr = None
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index ea83930..460fec7 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -113,15 +113,17 @@ class Collection(Type, CollectionSerializer):
         return Type._evaluate(self, value, convert=False, validate=validate, **opts)
 
     @staticmethod
-    def _serialize(self, value, items=True, only=[], **opts):
+    def _serialize(self, value, items=True, only=[], excludes=[], **opts):
         opts.setdefault('no_defaults', True)
-        ret = value = self._serializer._serialize(self, value, only=only, **opts)
+        hidden = list(self._notSerialized.union(excludes))
+        ret = value = self._serializer._serialize(self, value, only=only, excludes=hidden, **opts)
         if items:
-            ret = self.null(value, only=only, **opts)
+            ret = self.null(value, only=only, excludes=hidden, **opts)
             for k, t in self._items_types(self, ret):
-                if self._is_included(k, value, only=only, **opts):
+                if self._is_included(k, value, only=only, excludes=hidden, **opts):
                     v = value[k]
-                    ret[k] = t._serialize(t, v, **opts)
+                    # names hidden by this class are not those of its items
+                    ret[k] = t._serialize(t, v, excludes=excludes, **opts)
                     #ret[k] = v.do_serialize(**opts) if hasattr(v, 'do_serialize') else t._serialize(t, v, **opts)
         return self._collType(ret)
 
-- 
2.43.0


From 5c023443eb58573f7b4b55cb577bffbb6f265fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:19 +0000
Subject: [PATCH 049/152] fix: objects of types which are not classes are
 serialized

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 460fec7..92f7c41 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -118,7 +118,7 @@ class Collection(Type, CollectionSerializer):
         hidden = list(self._notSerialized.union(excludes))
         ret = value = self._serializer._serialize(self, value, only=only, excludes=hidden, **opts)
         if items:
-            ret = self.null(value, only=only, excludes=hidden, **opts)
+            ret = self._null(self, value, only=only, excludes=hidden, **opts)
             for k, t in self._items_types(self, ret):
                 if self._is_included(k, value, only=only, excludes=hidden, **opts):
                     v = value[k]
-- 
2.43.0


From aa4d3e5629f05022b8833359b895dc1710a93ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 050/152] fix: the complex types of the draft-06 meta-schema
 are where it refers to them

---
 ngoschema/schemas/ngo-draft-06.json | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ngoschema/schemas/ngo-draft-06.json b/ngoschema/schemas/ngo-draft-06.json
index 9ff7b16..c5e78f7 100644
--- a/ngoschema/schemas/ngo-draft-06.json
+++ b/ngoschema/schemas/ngo-draft-06.json
@@ -35,6 +35,20 @@
       "$ref": "https://json-schema.org/draft/2019-09/meta/content"
     }
   ],
+  "$defs": {
+    "complexTypes": {
+      "enum": [
+        "importable",
+        "path",
+        "uri",
+        "date",
+        "time",
+        "datetime",
+        "foreignKey",
+        "canonicalName"
+      ]
+    }
+  },
   "properties": {
     "definitions": {
       "$comment": "While no longer an official keyword as it is replaced by $defs, this keyword is retained in the meta-schema to prevent incompatible extensions as it remains in common use.",
@@ -107,18 +121,6 @@
         "type": "string"
       }
     },
-    "complexTypes": {
-      "enum": [
-        "importable",
-        "path",
-        "uri",
-        "date",
-        "time",
-        "datetime",
-        "foreignKey",
-        "canonicalName"
-      ]
-    },
     "type": {
       "anyOf": [
         {
-- 
2.43.0


From 8f5da1eef106d792faf10f40d568e5a6e82d2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 051/152] fix: an expression depends on the names it reads on
 the object itself

---
 ngoschema/types/strings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..1cd3cb5 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -59,7 +59,9 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        names = set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        # names of the object itself are given without prefix, as in patterns
+        return set(re.sub(r'^this\.', '', n) for n in names)
 
 
 class Pattern(String):
-- 
2.43.0


From 3c8396f56a74c2da73a15e8366b944e3e909cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 052/152] fix: a template depends on all the names it uses, in
 any output or block

---
 ngoschema/utils/jinja2.py | 58 +++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..abf7166 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -11,12 +11,14 @@ from __future__ import unicode_literals
 import logging
 import re
 import functools
+from collections import OrderedDict
 from builtins import object
 from builtins import str
 
 import inflection
 import jinja2
-import jinja2.parser
+import jinja2.meta
+import jinja2.nodes
 from slugify import slugify as _slugify
 
 from .utils import GenericClassRegistry
@@ -68,29 +70,37 @@ class TemplatedString(object):
 
 @functools.lru_cache(512)
 def get_jinja2_variables(source, remove_this=True):
-    """return the list of variables in jinja2 source (no filters)"""
-    env = default_jinja2_env()
-    parser = jinja2.parser.Parser(env, source)
-    vars = []
-    var = []
-    processing = False
-    for t in parser.stream:
-        if t.type == 'variable_begin':
-            processing = True
-            continue
-        if processing:
-            if t.type == 'variable_end' or t.value == '|':
-                processing=False
-                vars.append(''.join(var))
-                var = []
-                continue
-            if t.type == 'integer' and var[-1] == '.':
-                var.pop(-1)
-                var.append(f'[{t.value}]')
-            else:
-                var.append(t.value)
-    return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+    """return the list of variables used in jinja2 source, in its outputs and its blocks (no filters)"""
+    ast = default_jinja2_env().parse(source)
+    undeclared = jinja2.meta.find_undeclared_variables(ast)
+
+    def path(node):
+        """canonical name of a chain of attributes and items, None for any other expression"""
+        if isinstance(node, jinja2.nodes.Name):
+            return node.name if node.name in undeclared else None
+        if isinstance(node, jinja2.nodes.Getattr):
+            base, item = path(node.node), node.attr
+        elif isinstance(node, jinja2.nodes.Getitem) and isinstance(node.arg, jinja2.nodes.Const):
+            base, item = path(node.node), node.arg.value
+        else:
+            return None
+        if base is not None:
+            return f'{base}[{item}]' if isinstance(item, int) else f'{base}.{item}'
+
+    def variables(node):
+        if isinstance(node, jinja2.nodes.Call) and isinstance(node.node, jinja2.nodes.Getattr):
+            # the last attribute is a method
+            children = [node.node.node] + [n for n in node.iter_child_nodes(exclude=['node'])]
+        elif path(node) is not None:
+            return [path(node)]
+        else:
+            children = node.iter_child_nodes()
+        return [v for n in children for v in variables(n)]
+
+    vars = list(OrderedDict.fromkeys(variables(ast)))
+    if remove_this:
+        vars = [re.sub(r'^(this|self)\.', '', v) for v in vars if v not in ('this', 'self')]
+    return vars
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From 0cd2fd7fc3981eddd6942d7657f1c8203032e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 053/152] fix: 0, False and the empty string are defaults

---
 ngoschema/types/type.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 08fa796..8fa7aa6 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -43,6 +43,11 @@ class Primitive(Type):
         Type.__init__(self, **opts)
         self._rawLiterals = self._schema.get('rawLiterals', self._rawLiterals)
 
+    @staticmethod
+    def _has_default(self, value=None, **opts):
+        # 0, False and the empty string are defaults too
+        return value is not None or self._default is not None
+
     @staticmethod
     def _check(self, value, **opts):
         from collections import Mapping, Sequence
@@ -88,7 +93,7 @@ class Enum(Primitive):
     def __init__(self, **opts):
         Primitive.__init__(self, **opts)
         self._enum = self._schema.get('enum', [])
-        if self._enum and not self._default:
+        if self._enum and self._default is None:
             self._default = self._enum[0]
 
     @staticmethod
-- 
2.43.0


From 94d4b2d7bd10e5ac4edc33e7336978895ab0b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 054/152] fix: a type under construction tells its default like
 any other type

---
 ngoschema/protocols/type_proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index a3cebaa..42c05a0 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -41,9 +41,9 @@ class TypeProxy(TypeProtocol):
         return p and p.check(value, **opts)
 
     @classmethod
-    def has_default(cls):
+    def has_default(cls, value=None, **opts):
         p = cls.proxy_type()
-        return p and p.has_default()
+        return p and p.has_default(value, **opts)
 
     @classmethod
     def convert(cls, value, **opts):
-- 
2.43.0


From 48dcdf238cf03e84d788a8b6fbe0bfdd3e873781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 055/152] fix: the schemas an inline schema extends are kept
 when its class has bases

---
 ngoschema/protocols/type_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..2936ba3 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -171,7 +171,10 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema['extends'] = [b._id for b in bases if hasattr(b, '_id')]
+            # the bases come with the schemas which are already extended
+            extends = list(schema.get('extends', []))
+            extends += [b._id for b in bases if hasattr(b, '_id') and b._id not in extends]
+            schema = dict(schema, extends=extends)
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 709dc1d9ea5d3b571b8ec1d32758e51dbcd92b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:44 +0000
Subject: [PATCH 056/152] fix: an attribute named after an operator can be
 searched

---
 ngoschema/query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 8b96a80..482ddf4 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -57,7 +57,8 @@ def _comparable(obj):
 def _sort_criteria(criteria):
     elts = criteria.split('__')
     ops = []
-    for e in reversed(elts):
+    # the first element is always the name of an attribute
+    for e in reversed(elts[1:]):
         if e not in _operators and not e.startswith('@'):
             break
         ops.insert(0, e)
-- 
2.43.0


From 39eb907db28b9917685a601624a9df1d10e35d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:44 +0000
Subject: [PATCH 057/152] fix: an empty value has no descendants

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 1188fb3..58999c1 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -673,7 +673,7 @@ def get_descendant(obj, key_list):
     except Exception as er:
         child = None
     return get_descendant(child, key_list[1:]) \
-        if child and len(key_list) > 1 else child
+        if child is not None and len(key_list) > 1 else child
 
 
 def topological_sort(data):
-- 
2.43.0


From 30d44ebec85c975a5ac8c329023351861ca49fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 058/152] fix: a distinct query has no duplicates, and one
 which cannot be ordered always raises

---
 ngoschema/query.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 482ddf4..1d35434 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -416,16 +416,18 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._items())
+            res = list(self._items())
 
+            if self._distinct:
+                res = [x for i, x in enumerate(res) if x not in res[:i]]
             ob = self._order_by
             if ob:
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
-                self._result_cache = sorted(self._result_cache,
-                                            key=lambda x: get_descendant(x, ks))
+                res = sorted(res, key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = list(reversed(self._result_cache))
+                res = list(reversed(res))
+            self._result_cache = res
         return self._result_cache
 
     def __getitem__(self, k):
-- 
2.43.0


From f64e2691cd24b19a19f62903636e4730f151bed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:37 +0000
Subject: [PATCH 059/152] fix: builtins can be named by a symbol whatever the
 interpreter

---
 ngoschema/types/symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..00c7d2f 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import builtins
 import logging
 import importlib
 import inspect
@@ -25,7 +26,7 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-- 
2.43.0


From 9686d19c0687178125389d0eb6e9cfbf178a7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 060/152] fix: calling a loader or a saver gives what it loads
 or saves

---
 ngoschema/protocols/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/loader.py b/ngoschema/protocols/loader.py
index b48ba03..827cbe0 100644
--- a/ngoschema/protocols/loader.py
+++ b/ngoschema/protocols/loader.py
@@ -30,7 +30,7 @@ class Loader(Deserializer):
 
     def __call__(self, value, **opts):
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
-        raise self._load(self, value, **opts)
+        return self._load(self, value, **opts)
 
     #@classmethod
     def load(self, value, **opts):
@@ -57,7 +57,7 @@ class Saver(Serializer, Loader):
 
     def __call__(self, value, load=False, **opts):
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
-        raise self._save(self, value, **opts)
+        return self._save(self, value, load=load, **opts)
 
     #@classmethod
     def save(self, value, **opts):
-- 
2.43.0


From 24db09062e40d2c03b6ccc1ff853f53d2250fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 061/152] fix: the json serializer reads json

---
 ngoschema/serializers/json_serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/serializers/json_serializer.py b/ngoschema/serializers/json_serializer.py
index a02be67..1f996bb 100644
--- a/ngoschema/serializers/json_serializer.py
+++ b/ngoschema/serializers/json_serializer.py
@@ -26,14 +26,14 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     _ensure_ascii = False
     _separators = None
     _default = None
-    _encoder = json.JSONEncoder(indent=_indent, ensure_ascii=_ensure_ascii, separators=_separators, default=_default)
+    _json_encoder = json.JSONEncoder(indent=_indent, ensure_ascii=_ensure_ascii, separators=_separators, default=_default)
 
     def __init__(self, value=None, indent=2, ensure_ascii=False, separators=None, default=None, meta_opts=None, **opts):
         self._indent = indent
         self._ensure_ascii = ensure_ascii
         self._separators = separators
         self._default = default
-        self._encoder = json.JSONEncoder(indent=indent, ensure_ascii=ensure_ascii, separators=separators, default=default)
+        self._json_encoder = json.JSONEncoder(indent=indent, ensure_ascii=ensure_ascii, separators=separators, default=default)
         #ObjectProtocol.__init__(self, value, **opts)
         #Serializer.__init__(self, **(meta_opts or {}), **self)
 
@@ -44,7 +44,7 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     @staticmethod
     def _deserialize_json(self, value, **opts):
         value = Serializer._deserialize(self, value, **opts)
-        value = self._encoder.decode(value)
+        value = json.loads(value)
         return value
 
     @staticmethod
@@ -54,7 +54,7 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     @staticmethod
     def _serialize_json(self, value, **opts):
         value = Serializer._serialize(self, value, **opts)
-        return self._encoder.encode(value)
+        return self._json_encoder.encode(value)
 
     #@classmethod
     def deserialize_json(self, value, **opts):
-- 
2.43.0


From 63050480e979b7d14a8b0a4f6032e1622c468e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:57 +0000
Subject: [PATCH 062/152] fix: an index from the end is not a json pointer

---
 ngoschema/resolvers/uri_resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1c269c2..c3d2dff 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -61,6 +61,8 @@ def resolve_fragment(doc, fragment):
         try:
             part = part.replace(u"~1", u"/").replace(u"~0", u"~")
             if is_sequence(doc):
+                if not part.isdigit():
+                    raise ValueError("'%s' is not an index." % part)
                 part = int(part)
             doc = doc[part]
         except:
-- 
2.43.0


From 6b48f7178fa8cdb1e04ad898ba093c0b6d9454d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 063/152] fix: a schema which is not registered finds the
 others whatever the case of their addresses

---
 ngoschema/resolvers/uri_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index c3d2dff..12daa5b 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -143,7 +143,7 @@ class UriResolver(RefResolver):
         # not in doc store, create a resolver with a copy
         if schema is None:
             schema = resolve_uri(uri)
-        return UriResolver(uri, schema, store=dict(UriResolver._doc_store))
+        return UriResolver(uri, schema, store=UriDict(UriResolver._doc_store))
 
     def _expand(self, uri, schema, doc_scope):
         """ expand a schema to add properties of all definitions it extends
-- 
2.43.0


From 7d91dae650a1580e1f2957d0fb3bab212f6c5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 064/152] fix: a schema with a title only can be loaded

---
 ngoschema/loaders/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index 9fd191b..c5f2f2f 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -38,7 +38,7 @@ def load_schema(schema, schemas_store=None):
     :type schemas_store: dict
     """
     from ngoschema.resolvers.uri_resolver import UriResolver
-    uri = _id_of(schema).rstrip('#')
+    uri = (_id_of(schema) or '').rstrip('#')
     if not uri and "title" in schema:
         uri = inflection.parameterize(six.text_type(schema["title"]), "_")
     if not uri:
-- 
2.43.0


From 00433c2f85573070a63f7c8ab48f436d92d96556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:05 +0000
Subject: [PATCH 065/152] fix: a schema file is registered at the address it
 tells

---
 ngoschema/loaders/schemas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index c5f2f2f..3469c34 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -68,7 +68,8 @@ def load_schema_file(schema_path, schemas_store=None):
     with open(str(schema_path), "rb") as f:
         try:
             schema = json.loads(f.read().decode("utf-8"), object_pairs_hook=collections.OrderedDict)
-            schema.setdefault('$id', pathlib.Path(schema_path).stem)
+            if not _id_of(schema):
+                schema['$id'] = pathlib.Path(schema_path).stem
             return load_schema(schema, schemas_store)
         except Exception as er:
             logger.error(schema_path)
-- 
2.43.0


From 0357c57d9a8937f6b200ea5b736106428afa28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:46 +0000
Subject: [PATCH 066/152] fix: a namespace encloses whole names, most closely
 by the longest address

---
 ngoschema/managers/namespace_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 74aa1c4..6ef53f4 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -51,7 +51,7 @@ class NamespaceManager(Registry):
         self._get_cname_id.cache_clear()
 
     def set_current(self, name):
-        ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
+        ns_names = sorted([k for k in self._registry.keys() if not k or k == name or name.startswith(k + '.')])
         assert ns_names, name
         cname = ns_names[-1]
         self._current_ns = cname
@@ -80,9 +80,11 @@ class NamespaceManager(Registry):
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if uri.startswith(u)], reverse=True)
+        # only whole components are enclosed, most closely by the longest uri
+        ns_names = sorted([(len(u), c) for c, u in reg.items() if uri == u or uri.startswith(u) and (
+            u[-1:] == '#' or uri[len(u)] == ('/' if '#' in u else '#'))], reverse=True)
         if ns_names:
-            cn = ns_names[0]
+            cn = ns_names[0][1]
             return cn, reg[cn]
         uri_ns = uri.split('#')[0] if '#' in uri else uri
         if uri_ns in UriResolver._doc_store.keys():
@@ -99,7 +101,7 @@ class NamespaceManager(Registry):
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
         cname = self._get_id_cname(ref, rcn)
-        if relative and rcn and cname.startswith(rcn):
+        if relative and rcn and (cname == rcn or cname.startswith(rcn + '.')):
             local_cn = cname[len(rcn):].split('.')
             if local_cn and not local_cn[0]:
                 return '.'.join(local_cn[1:])
-- 
2.43.0


From 8aa42ab696dd3f24752a59d8e8080ea74d29743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 067/152] fix: names are looked up among what is declared and
 registered now

---
 ngoschema/managers/namespace_manager.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 6ef53f4..8eda984 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -34,8 +34,6 @@ class NamespaceManager(Registry):
     _builder_ns = {}
 
     def __init__(self, *parents, **local):
-        self._get_id_cname = lru_cache(1024)(self._get_id_cname_cached)
-        self._get_cname_id = lru_cache(1024)(self._get_cname_id_cached)
         self._local = dict(local)
         self._local.setdefault('', self._current_ns_uri)
         self._registry = ChainMap(self._local, *parents)
@@ -44,11 +42,6 @@ class NamespaceManager(Registry):
         if not uri.split('#')[0]:
             uri = self._registry[''].split('#')[0] + uri
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
-        self._clear_cache()
-
-    def _clear_cache(self):
-        self._get_id_cname.cache_clear()
-        self._get_cname_id.cache_clear()
 
     def set_current(self, name):
         ns_names = sorted([k for k in self._registry.keys() if not k or k == name or name.startswith(k + '.')])
@@ -56,7 +49,6 @@ class NamespaceManager(Registry):
         cname = ns_names[-1]
         self._current_ns = cname
         self._current_ns_uri = self._local[''] = self._registry[cname]
-        self._clear_cache()
 
     @property
     def currentNs(self):
@@ -108,7 +100,7 @@ class NamespaceManager(Registry):
             return rcn
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _get_id_cname(self, ref, current_ns):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -136,7 +128,7 @@ class NamespaceManager(Registry):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _get_cname_id(self, cname, current_ns):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
-- 
2.43.0


From b6e203fc57dd394497c2eef42d788311a73f9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:37 +0000
Subject: [PATCH 068/152] fix: building an object does not remove the schema
 told by the data given

---
 ngoschema/protocols/object_protocol.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index dc0a127..5f2cddd 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -166,10 +166,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers import type_builder
         data = args[0] if args else kwargs
         if isinstance(data, Mapping) and data.get('$schema'):
-            s_id = Id.convert(scope(data.pop('$schema'), cls._id), **kwargs)
+            s_id = Id.convert(scope(data['$schema'], cls._id), **kwargs)
             if s_id != cls._id:
-                cls = type_builder.load(s_id)
-                return cls(*args, **kwargs)
+                type_ = type_builder.load(s_id)
+                if type_ is not cls:
+                    return type_(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
     @staticmethod
@@ -190,6 +191,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers.type_builder import type_builder
         #value = self._collType(value)
         if value.get('$schema'):
+            # the value given is not modified
+            value = dict(value)
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
-- 
2.43.0


From 3ce77ca16c4bab703c5071ae2f4e3d4866007beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 069/152] fix: building a class does not modify the schema it
 is given

---
 ngoschema/protocols/object_protocol.py | 5 +++--
 ngoschema/protocols/type_protocol.py   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5f2cddd..5f144c0 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -562,6 +562,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             logging.warning(er)
             inspect_function = lambda x: {'arguments': []}
         attrs = attrs or {}
+        # the schema given is not modified
+        schema = dict(schema)
         cname = default_ns_manager.get_id_cname(id)
         clsname = attrs.pop('_clsname', None) or cname.split('.')[-1]
 
@@ -748,8 +750,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if extra_schema_properties:
             local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
                                      for k, sch in extra_schema_properties.items()})
-            schema.setdefault('properties', {})
-            schema['properties'].update(extra_schema_properties)
+            schema['properties'] = dict(schema.get('properties', {}), **extra_schema_properties)
 
         # create descriptors
         # go through local properties and create descriptors
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 2936ba3..59b8fa0 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -175,6 +175,7 @@ class SchemaMetaclass(type):
             extends = list(schema.get('extends', []))
             extends += [b._id for b in bases if hasattr(b, '_id') and b._id not in extends]
             schema = dict(schema, extends=extends)
+        schema = dict(schema)
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 54a42e913a89590505f4fcc07093fdd39e6cfa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:19 +0000
Subject: [PATCH 070/152] fix: a file does not modify the options given for its
 loader

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 077d2ea..98c824b 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -46,7 +46,7 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
 
     def __init__(self, value=None, meta_opts=None, **opts):
         Entity.__init__(self, value, **opts)
-        meta_opts = meta_opts or {}
+        meta_opts = dict(meta_opts or {})
         meta_opts.setdefault('binary', self.binary)
         FileSaver.__init__(self, **meta_opts)
 
-- 
2.43.0


From 4538f0fe8ce009ba813cf80822e34d8ef1629e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 071/152] fix: the yaml serializer writes yaml

---
 ngoschema/serializers/yaml_serializer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ngoschema/serializers/yaml_serializer.py b/ngoschema/serializers/yaml_serializer.py
index cba9bd5..99d3e40 100644
--- a/ngoschema/serializers/yaml_serializer.py
+++ b/ngoschema/serializers/yaml_serializer.py
@@ -2,7 +2,6 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
-from ruamel import yaml
 from ruamel.yaml import YAML
 try:
     from StringIO import StringIO
@@ -51,13 +50,15 @@ class YamlSerializer(with_metaclass(SchemaMetaclass, Serializer, YamlDeserialize
 
     @staticmethod
     def _serialize_yaml(self, value, **opts):
-        __doc__ = self._yaml.safe_dump.__doc__
-        yaml.indent = opts.get('indent', self._indent)
-        yaml.allow_unicode = opts.get('charset', self._charset)
+        value = Serializer._serialize(self, value, deserialize=False, **opts)
+        # options are those of this serialization only
+        dumper = YAML(typ="safe")
+        dumper.default_flow_style = False
+        dumper.allow_unicode = opts.get('charset', self._charset) == 'utf-8'
+        dumper.indent(opts.get('indent', self._indent))
         output = StringIO()
-        self._yaml.safe_dump(value, output, default_flow_style=False, **opts)
-        value = output.getvalue()
-        return Serializer._serialize(self, value, **opts)
+        dumper.dump(value, output)
+        return output.getvalue()
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From faa70b2534b6f17858ba838d378944cdf9864875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 072/152] fix: the yaml repository does not change the settings
 of the yaml module

---
 ngoschema/repositories/file_repositories.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ngoschema/repositories/file_repositories.py b/ngoschema/repositories/file_repositories.py
index 818f851..b23f84d 100644
--- a/ngoschema/repositories/file_repositories.py
+++ b/ngoschema/repositories/file_repositories.py
@@ -22,7 +22,6 @@ except ImportError:
     from io import StringIO
 
 import json
-from ruamel import yaml
 from ruamel.yaml import YAML
 
 from ..decorators import assert_arg
@@ -134,12 +133,7 @@ class YamlFileRepository(with_metaclass(SchemaMetaclass)):
         return data
 
     def serialize_data(self, data):
-        yaml.indent = self.get("indent", 2)
-        yaml.allow_unicode = self.get("encoding", "utf-8") == "utf-8"
-
-        output = StringIO()
-        self._yaml.safe_dump(data, output, default_flow_style=False, **self._extended_properties)
-        return output.getvalue()
+        return self._encoder.serialize(data, indent=self.get("indent", 2), charset=self.get("encoding", "utf-8"))
 
 
 @assert_arg(0, PathFile)
-- 
2.43.0


From 6248595ded801136dea2987ea516c377b7ecfc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:19 +0000
Subject: [PATCH 073/152] fix: the default of an object type is used

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5f144c0..b7aca3b 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -814,6 +814,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         attrs['_jsValidator'] = DefaultValidator(schema, resolver=UriResolver.create(uri=id, schema=schema))
         attrs['_items_type_cache'] = {}
         attrs['_mroType'] = pbases
+        if 'default' in schema:
+            attrs['_default'] = schema['default']
         if 'lazyLoading' in schema:
             attrs['_lazyLoading'] = schema['lazyLoading']
         # add inner definitions
-- 
2.43.0


From 590be1ffd14b717d6d56ff3904b09ed1b0fafb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 074/152] fix: the response of a remote file is closed

---
 ngoschema/models/files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 98c824b..788be4d 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -10,6 +10,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import codecs
+import contextlib
 import os
 
 import arrow
@@ -109,11 +110,11 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
                     sha.update(block)
                     block = source.read(2 ** 16)
         elif self.uri:
-            response = urlopen(str(self.uri))
-            block = response.read(2 ** 16)
-            while len(block) != 0:
-                sha.update(block)
+            with contextlib.closing(urlopen(str(self.uri))) as response:
                 block = response.read(2 ** 16)
+                while len(block) != 0:
+                    sha.update(block)
+                    block = response.read(2 ** 16)
         return sha.hexdigest()
 
 
-- 
2.43.0


From 16a23656bc8529a354d3a2dc4d7240e21a0012e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 075/152] fix: the last instance of a context can be found

---
 ngoschema/utils/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 58999c1..62323a9 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -148,10 +148,8 @@ class Context(ReadOnlyChainMap):
         self._maps.append(mapping)
 
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
-        gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
-        if reverse:
-            gen = reversed(gen)
-        return next(gen, default)
+        maps = reversed(self.maps) if reverse else self.maps
+        return next((m for m in maps if isinstance(m, cls) and m is not exclude), default)
 
     def __hash__(self):
         return hash(repr(sorted(self.merged.items())))
-- 
2.43.0


From 8ec5f9aee2d502c07c3798c5dcc9231d42b350d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 076/152] fix: the maps of a context are those it has now

---
 ngoschema/utils/utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 62323a9..69fb330 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -95,18 +95,15 @@ class ReadOnlyChainMap(Mapping):
     def __str__(self):
         return str(self.merged)
 
-    _maps_flattened = None
     @property
     def maps_flattened(self):
-        if self._maps_flattened is None:
-            mf = []
-            for m in self._maps:
-                if isinstance(m, ReadOnlyChainMap):
-                    mf.extend(m.maps_flattened)
-                else:
-                    mf.append(m)
-            self._maps_flattened = mf
-        return self._maps_flattened
+        mf = []
+        for m in self._maps:
+            if isinstance(m, ReadOnlyChainMap):
+                mf.extend(m.maps_flattened)
+            else:
+                mf.append(m)
+        return mf
 
     @property
     def merged(self):
-- 
2.43.0


From 69981202ea09daea93f71e457619f680089193fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 077/152] fix: slices of arrays are made of evaluated items

---
 ngoschema/protocols/collection_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index bb7f75d..9b30490 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -156,6 +156,9 @@ class CollectionProtocol(Collection):
                 raise
 
     def __getitem__(self, item):
+        if isinstance(item, slice):
+            # each item is read, some may not have been evaluated yet
+            return [self[i] for i in range(*item.indices(len(self._data)))]
         if self._dataValidated[item] is None:
             self._itemsInputs[item] = self._items_inputs_evaluate(item)
             self._set_dataValidated(item, self._items_evaluate(item))
-- 
2.43.0


From 20046a32a38de2cbb8865151b3b291e6aba17d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 078/152] fix: equal objects have the same hash

---
 ngoschema/protocols/collection_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 9b30490..8c4b965 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -242,5 +242,6 @@ class CollectionProtocol(Collection):
         return True
 
     def __hash__(self):
-        return hash((self._id, tuple((k, hash(self[k])) for k, _ in self._items_types(self, self._data))))
+        # equal collections have the same hash, whatever their class and the order of their items
+        return hash(frozenset((k, hash(self[k])) for k, _ in self._items_types(self, self._data)))
 
-- 
2.43.0


From 96b6f23b818775e9dc8882b1b5cbb05fde8b439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:21 +0000
Subject: [PATCH 079/152] fix: operators can be applied to a mapping and falsy
 children are found

---
 ngoschema/query.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 1d35434..c0f9c23 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -150,12 +150,11 @@ class Filter(object):
                 # check if it s not a child
                 for op in list(ops):
                     o2 = get_descendant(o, op)
-                    if o2:
-                        o = o2
-                        ks.append(ops.pop(0))
-                    else:
-                        test = False
+                    if o2 is None:
+                        # an operator on the child itself
                         break
+                    o = o2
+                    ks.append(ops.pop(0))
             ops = ops or ['eq']
             v = _comparable(o)
             test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
-- 
2.43.0


From f353b29d139068bc0b79adedecafd53660eb46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:56 +0000
Subject: [PATCH 080/152] fix: the root is found through empty parents

---
 ngoschema/contexts/object_protocol_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/contexts/object_protocol_context.py b/ngoschema/contexts/object_protocol_context.py
index eb8f79a..3fbb8a6 100644
--- a/ngoschema/contexts/object_protocol_context.py
+++ b/ngoschema/contexts/object_protocol_context.py
@@ -19,5 +19,5 @@ class ObjectProtocolContext(NsManagerContext):
 
     @property
     def _root(self):
-        return self._parent._root if self._parent else self
+        return self._parent._root if self._parent is not None else self
 
-- 
2.43.0


From 9e2934d68d43cf664a07e2c75be5f96196831cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:56 +0000
Subject: [PATCH 081/152] fix: an empty context which is given is used

---
 ngoschema/protocols/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/context.py b/ngoschema/protocols/context.py
index 7a5566c..402e021 100644
--- a/ngoschema/protocols/context.py
+++ b/ngoschema/protocols/context.py
@@ -20,7 +20,7 @@ class Context:
     _context = DEFAULT_CONTEXT
 
     def __init__(self, context=None, **opts):
-        self._context = context or self._context
+        self._context = self._context if context is None else context
 
     def __call__(self, **opts):
         return self._create_context(self, **opts)
@@ -31,7 +31,7 @@ class Context:
 
     @staticmethod
     def _create_context(self, *parents, context=None, **local):
-        context = context or self._context
+        context = self._context if context is None else context
         ctx = context.create_child(*parents, **local)
         ctx._session = getattr(context, '_session', None)
         return ctx
-- 
2.43.0


From 73fafcc81ebc4160b467235494a3de0fa5e71eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:19 +0000
Subject: [PATCH 082/152] fix: building a class does not change its schema

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b7aca3b..433e4a3 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -652,7 +652,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 rs = v['foreignKey']
                 ra = {}
                 # treat backpopulates
-                bps = v.get('backPopulates', {})
+                bps = dict(v.get('backPopulates', {}))
                 if not bps:
                     # add a pointer
                     bps[f'{k}_ptr'] = {'foreignSchema': rs['foreignSchema'], 'foreignKeys': [k]}
-- 
2.43.0


From 798f4b65bc5de19b1dc90a25a59e4ea6a11be98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 083/152] fix: exceptions of functions called without
 positional arguments are logged

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 5f140c3..41d8476 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -195,7 +195,7 @@ def log_exceptions(method, instance, args, kwargs):
     SHOULDN T BE USED FOR __init__, use log_init instead
     """
     # special case happening for getters/setters
-    if instance is None:
+    if instance is None and args:
         instance = args[0]
     try:
         if hasattr(instance, "_logger"):
-- 
2.43.0


From 91f71d11ca1ed7708fdec8d97b43dad437f35002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 084/152] fix: arguments which are only given by name are
 validated

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 41d8476..bba5b39 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -137,7 +137,7 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if instance is None and arg_i is not None else arg_i - 1
+            arg_i2 = arg_i if instance is None or arg_i is None else arg_i - 1
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From aa205296e90593dc621908edf6573d0da2bd9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 085/152] fix: methods take arrays too

---
 ngoschema/decorators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index bba5b39..b56c660 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -53,7 +53,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                         or len(args[narg2]) == 1):
                     for v in args[narg1]:
                         new_args[narg1] = v
-                        ret.append(wrapped(*new_args, **kwargs))
+                        ret.append(method(*new_args, **kwargs))
                 # both are list
                 else:
                     # same size - call with zipped values
@@ -61,7 +61,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                         for v1, v2 in zip(args[narg1], args[narg2]):
                             new_args[narg1] = v1
                             new_args[narg2] = v2
-                            ret.append(wrapped(*new_args, **kwargs))
+                            ret.append(method(*new_args, **kwargs))
                     # different size
                     else:
                         raise InvalidValue(
@@ -69,7 +69,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                             (narg1, narg2))
             else:
                 # if the first one is not a string, ignore and call func
-                return wrapped(*args, **kwargs)
+                return method(*args, **kwargs)
             if flatten:
                 return [item for sublist in ret for item in sublist]
             return ret
-- 
2.43.0


From 34d5b38ac7439e0b6931d941b59806ee5a09ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:40 +0000
Subject: [PATCH 086/152] fix: two arrays of one item are taken together

---
 ngoschema/decorators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index b56c660..58dcc88 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -51,6 +51,8 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                 # only first argument is an array
                 if (narg2 == -1 or not type(args[narg2]) in (list, set, tuple)
                         or len(args[narg2]) == 1):
+                    if narg2 != -1 and type(args[narg2]) in (list, set, tuple):
+                        new_args[narg2], = args[narg2]
                     for v in args[narg1]:
                         new_args[narg1] = v
                         ret.append(method(*new_args, **kwargs))
-- 
2.43.0


From 4fc7abd715433e5efeab416909bc87aad854f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 087/152] fix: a schema is expanded with the schemas it extends

---
 ngoschema/managers/type_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 804c43c..e317291 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -112,7 +112,7 @@ class TypeBuilder(GenericClassRegistry):
         for error in default_meta_validator.iter_errors(schema):
             raise SchemaError.create_from(error)
 
-    def schema_mro(id, schema=None):
+    def schema_mro(self, id, schema=None):
         schema = schema or resolve_uri(id)
         def _schema_mro(id, sch):
             for e in sch.get('extends', []):
-- 
2.43.0


From 7b5320ed950793ad8f8571e10680ce8d5da48c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 088/152] fix: a file repository commits its content to its
 file

---
 ngoschema/repositories/file_repositories.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/ngoschema/repositories/file_repositories.py b/ngoschema/repositories/file_repositories.py
index b23f84d..9891dd2 100644
--- a/ngoschema/repositories/file_repositories.py
+++ b/ngoschema/repositories/file_repositories.py
@@ -58,23 +58,10 @@ class FileRepository(with_metaclass(SchemaMetaclass, Repository, FileSaver)):
 
     @staticmethod
     def _commit(self, value, **opts):
-        value = Repository._commit(self, value, **opts)
-
-
+        value = Repository._commit(self, value, save=False, **opts)
         stream = self._encoder.serialize(value, **opts)
         filepath = opts.get('filepath', self._filepath)
-        if not filepath.parent.exists():
-            self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
-            os.makedirs(str(filepath.parent))
-        if filepath.exists():
-            doc.load()
-            if stream == doc.contentRaw:
-                self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(fpath))
-                return
-
-        self._logger.info("DUMP %s", file_link_format(fpath))
-        self._logger.debug("data:\n%r ", stream)
-        doc.write(stream)
+        FileSaver._write_file(self, stream, filepath)
         return self
 
 
-- 
2.43.0


From b4b340e8002c7ac856c8b9fc492f10ccd0911f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 089/152] fix: arguments given to a scoped session which exists
 are refused with an exception which exists

---
 ngoschema/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..8a1389a 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -14,6 +14,7 @@ import functools
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
 from . import utils
+from .exceptions import InvalidOperation
 from .decorators import assert_arg
 from .protocols import ObjectProtocol, ArrayProtocol, SchemaMetaclass, with_metaclass
 from .types import Tuple, Array
@@ -304,12 +305,12 @@ class scoped_session(object):
          :attr:`.scoped_session.session_factory` callable, if an existing
          :class:`.Session` is not present.  If the :class:`.Session` is present
          and keyword arguments have been passed,
-         :exc:`~sqlalchemy.exc.InvalidRequestError` is raised.
+         :exc:`.InvalidOperation` is raised.
 
         """
         if kw:
             if self.registry.has():
-                raise sa_exc.InvalidRequestError(
+                raise InvalidOperation(
                     "Scoped session is already present; "
                     "no new arguments may be specified."
                 )
-- 
2.43.0


From 52862429fc3f08fb4ada3afb1f306527b973cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 090/152] fix: an ambiguous XML document is refused with an
 exception

---
 ngoschema/serializers/xml_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index c2c3dfe..207899e 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -53,7 +53,7 @@ class XmlDeserializer(Deserializer):
         if not self._tag:
             keys = list(value.keys())
             if len(keys) != 1:
-                raise NotImplemented('ambiguous request. use tag argument.')
+                raise NotImplementedError('ambiguous request. use tag argument.')
             self._tag = keys[0]
         return value[self._tag]
 
-- 
2.43.0


From ecaa25afdeeff1a6a92fb9303c3d787d357443ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:07 +0000
Subject: [PATCH 091/152] fix: filter_collection keeps or removes the keys it
 is given

---
 ngoschema/utils/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 69fb330..578152a 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -444,14 +444,14 @@ def filter_collection(data,
 
     def _filter_keys(container, keys, keep=True):
         if is_mapping(container):
-            for k in keys.intersection(container.keys()):
-                if not keep:
+            for k in list(container.keys()):
+                if (k in keys) != keep:
                     container.pop(k)
                 elif recursive:
-                    _filter_keys(container[k], keys, keep, recursive)
+                    _filter_keys(container[k], keys, keep)
         elif is_sequence(container):
             for v in container:
-                _filter_keys(v, keys, keep, recursive)
+                _filter_keys(v, keys, keep)
         return container
 
     if only or but:
-- 
2.43.0


From a32b0b87cc75ba2fc2b62fea91c05d4dcbca40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:01 +0000
Subject: [PATCH 092/152] fix: a foreign schema which cannot be loaded is told
 as such

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 59b8fa0..bc5e3e0 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -55,8 +55,8 @@ class TypeProtocol(Serializer):
             from ..types.foreign_key import ForeignKey
             fs = schema.get('foreignKey', {}).get('foreignSchema')
             attrs['_foreignSchema'] = fs = scope(fs, id)
+            fc = type_builder.load(fs)
             try:
-                fc = type_builder.load(fs)
                 attrs['_foreignClass'] = fc
                 #attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
                 attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', getattr(fc._schema, 'primaryKeys', ['id']))
-- 
2.43.0


From 1bb4dcd266413dda80528b3a958f7eac1b6dda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:56 +0000
Subject: [PATCH 093/152] fix: canonical names are resolved in the repositories
 of the session

---
 ngoschema/session.py           | 2 +-
 ngoschema/types/foreign_key.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 8a1389a..c3ddb65 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -69,7 +69,7 @@ class Session(with_metaclass(SchemaMetaclass)):
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
-        for repo in [r for r in self._repos if issubclass(r.instanceClass, Entity)]:
+        for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
             if rn in repo:
                 v = repo.resolve_fkey(rn)
                 return v if not cn else v.resolve_cname(cn)
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 9819e9a..74f6ef4 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -198,7 +198,7 @@ class CanonicalName(ForeignKey):
     def _resolve(self, cname, session=None, **opts):
         from ..models.instances import Instance
         session = session or scoped_session(session_maker())()
-        fc_repos = [r for r in session._repos if issubclass(r.instanceClass, Instance)]
+        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, Instance)]
         root = cname[0]
         ns = cname[1:]
         for r in fc_repos:
-- 
2.43.0


From 8e713ad6d02bf63c510742fe30cd1e1a94bf824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:37 +0000
Subject: [PATCH 094/152] fix: a canonical name is converted as it is given

---
 ngoschema/types/foreign_key.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 74f6ef4..b7989e8 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -188,9 +188,10 @@ class CanonicalName(ForeignKey):
 
     @staticmethod
     def _convert(self, value, **opts):
-        fc = self.foreignClass
-        if fc and isinstance(value, fc):
-            value = [getattr(value, k) for k in self._foreignKeys]
+        if value is None:
+            return None
+        fc = ForeignKey.get_foreignClass(self)
+        value = [getattr(value, k) for k in self._foreignKeys] if fc and isinstance(value, fc) else [value]
         return tuple(t._convert(t, v, **opts) for t, v in zip(self._foreignKeysType, value))[0]
 
     @staticmethod
-- 
2.43.0


From 2dd2bfd50e1da39639863bc909b815c485ab7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:08 +0000
Subject: [PATCH 095/152] fix: a loader and a saver load and save the file they
 were made with

---
 ngoschema/protocols/file_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 5be08a3..3c542ca 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -84,7 +84,7 @@ class FileLoader(Loader):
         return self._load_file(self, filepath, **opts)
 
     def load(self, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or getattr(self, 'filepath', self._filepath)
         return FileLoader._load(self, filepath, **opts)
 
 
@@ -161,5 +161,5 @@ class FileSaver(Saver, FileLoader):
         return FileSaver._save_file(self, value, self.filepath, **opts)
 
     def save(self, value, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or getattr(self, 'filepath', self._filepath)
         return FileSaver._save_file(self, value, filepath, **opts)
-- 
2.43.0


From 1256416fe628847dc873f479e50449d1384a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 096/152] fix: the file information of a path is that of its
 file

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 788be4d..38631cd 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -74,7 +74,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
     _lazyLoading = True
 
     def __init__(self, file=None, filepath=None, **opts):
-        file = file or File(filepath)
+        file = file or File(filepath=filepath)
         ObjectProtocol.__init__(self, file=file, **opts)
 
     def get_dateCreated(self):
-- 
2.43.0


From c27fbcee0424bff0c844f3019c2c87384ff85c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:34 +0000
Subject: [PATCH 097/152] fix: content which cannot be written leaves the file
 as it was

---
 ngoschema/protocols/file_loader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 3c542ca..65b598c 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -111,8 +111,17 @@ class FileSaver(Saver, FileLoader):
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
+        # a value which can not be written is refused now: opening the file empties it
+        if binary:
+            memoryview(value)
+        else:
+            value.encode(opts.get('charset', self._charset))
         if filepath.exists():
-            content = self.read_file(filepath, **opts)
+            try:
+                content = self.read_file(filepath, **opts)
+            except UnicodeError:
+                # the existing content is not in this charset
+                content = None
             if value == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
-- 
2.43.0


From 04f7a2188fe0b73c0d56f8d554e56ea5a0d763ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:00 +0000
Subject: [PATCH 098/152] fix: a document tells whether its content is loaded

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 38631cd..0b27891 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -202,7 +202,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
 
     @property
     def loaded(self):
-        return bool(self._content)
+        return bool(self._data.get('content'))
 
     def unload(self):
         # remove reference from main registry
-- 
2.43.0


From 2ad42405cbb7572e15d4c2b735098405362880ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:13 +0000
Subject: [PATCH 099/152] fix: the separator asked is the one of all levels of
 a nested dictionary

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 578152a..2373e59 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -469,7 +469,7 @@ def nested_dict_iter(nested, separator='.'):
     """
     for key, value in nested.items():
         if isinstance(value, collections.Mapping):
-            for inner_key, inner_value in nested_dict_iter(value):
+            for inner_key, inner_value in nested_dict_iter(value, separator):
                 yield f'{key}{separator}{inner_key}', inner_value
         else:
             yield key, value
-- 
2.43.0


From 3fb195f870334130567c067c41cd9a253754c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:37 +0000
Subject: [PATCH 100/152] fix: nested brackets are found, one inside the other

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 2373e59..d439038 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -562,7 +562,7 @@ class Bracket:
         raise InvalidValue('unknown bracket type %s (only %s)' % (bracket, ''.join(brs)))
 
     def is_in(self, other):
-        return self._pos[0] < other._pos[0] and other._pos[1] > self._pos[1]
+        return other._pos[0] < self._pos[0] and self._pos[1] < other._pos[1]
 
     def content(self):
         return self._context[self._pos[0]+1 : self._pos[1]]
@@ -596,7 +596,7 @@ class Bracket:
 
     @staticmethod
     def find_nested_brackets(context, bracket='('):
-        all = Bracket.find_closed_brackets(context, bracket)
+        all = Bracket.find_brackets(context, bracket)
 
         def order_brackets(pos_brs):
             reg = odict({pos_brs.pop(): odict()})
-- 
2.43.0


From 677d649a3503e4b26c10f550608e80d166a48105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:46 +0000
Subject: [PATCH 101/152] fix: a string is left as it is when nothing is to be
 replaced

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index b040d99..49f7069 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -158,7 +158,7 @@ def multiple_replace(string, key_values):
     :type key_values: dict
     :rtype: str
     """
-    return _multiple_replacer(key_values)(string)
+    return _multiple_replacer(key_values)(string) if key_values else string
 
 
 @take_arrays(0)
-- 
2.43.0


From 79109de38a3dd3f043ad55db8fa7f73a9e6ce378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 102/152] fix: a datetime is read in the form in which it is
 serialized

---
 ngoschema/types/datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 2abaf34..de708af 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -137,6 +137,9 @@ class Datetime(Date, Time):
                     return arrow.utcnow()
                 if value in settings.DATE_TODAY_STRINGS:
                     return arrow.get(arrow.utcnow().date())
+                if 'T' in value:
+                    # ISO 8601, the form in which a datetime is serialized
+                    return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
                 dt = datetime.datetime.combine(a_d.date(), a_t.time())
-- 
2.43.0


From c85d85c689e2cc15d084274ad029f6e46f6e7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 103/152] fix: a datetime keeps the time zone it is given with

---
 ngoschema/types/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index de708af..42ade08 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -142,7 +142,7 @@ class Datetime(Date, Time):
                     return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
-                dt = datetime.datetime.combine(a_d.date(), a_t.time())
+                dt = datetime.datetime.combine(a_d.date(), a_t.timetz())
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
-- 
2.43.0


From 628effeb79fb7e33b654af9175b26274df2bed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 104/152] fix: what is not callable is not a callable

---
 ngoschema/types/symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 00c7d2f..cf340b8 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -58,7 +58,8 @@ class Symbol(Primitive):
 
     @staticmethod
     def _check(self, value, **opts):
-        if self.check_symbol(value) or TypeProtocol._check(self, value, **opts):
+        # without a python type, the symbol is only what check_symbol says
+        if self.check_symbol(value) or (self._pyType and TypeProtocol._check(self, value, **opts)):
             return value
         raise TypeError('%s is not of type symbol.' % value)
 
-- 
2.43.0


From d4eee82436ba64f8d5c37cac4286f94915583abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 105/152] fix: an empty object can be imported

---
 ngoschema/types/symbols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index cf340b8..2dee10c 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -42,9 +42,9 @@ class Symbol(Primitive):
                     for a in typed[pos + 1:].split("."):
                         if not a:
                             continue
-                        ret = getattr(ret, a, None)
-                        if not ret:
+                        if not hasattr(ret, a):
                             raise ConversionError("%s is not an importable object" % value)
+                        ret = getattr(ret, a)
                     typed = ret
                     break
                 except Exception as er:
-- 
2.43.0


From 1014602dc2c5ca05f18e5c558851f39b95381690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 106/152] fix: no uri is no uri, not an empty one of bytes

---
 ngoschema/types/uri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index cdc7acc..88cf882 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -43,6 +43,8 @@ class Uri(Primitive, Resolver):
         :param context: evaluation context
         :return: urllib.parse.ParsedResult instance
         """
+        if value is None:
+            return value
         if not isinstance(value, urllib.parse.ParseResult):
             s = value.resolve().as_uri() if isinstance(value, pathlib.Path) else String.convert(value, **opts)
             return urllib.parse.urlparse(s)
@@ -56,7 +58,8 @@ class Uri(Primitive, Resolver):
         :param context: evaluation context
         :return: json data
         """
-        return Uri._convert(self, value, **opts).geturl()
+        value = Uri._convert(self, value, **opts)
+        return value if value is None else value.geturl()
 
     @staticmethod
     def _resolve(self, value, **opts):
-- 
2.43.0


From f7c509253296d77fa7ecf53a62aefad1ffd7973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 107/152] fix: no path is neither expanded nor resolved

---
 ngoschema/types/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index 88cf882..a055968 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -149,9 +149,9 @@ class Path(Uri):
             # cast to str to make sure the path is converted
             typed = pathlib.Path(String.convert(str(typed), **opts))
         expand_user = opts.get('expand_user', self._expandUser)
-        if expand_user:
+        if expand_user and typed:
             typed = typed.expanduser()
-        if resolve:
+        if resolve and typed:
             typed = typed.resolve()
         return typed
 
-- 
2.43.0


From 5bc805ec877702acbd779b9376fae6c68b507be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:29 +0000
Subject: [PATCH 108/152] fix: the context of an object is not one of its
 properties

---
 ngoschema/types/object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 206eade..07a499f 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -146,7 +146,9 @@ class Object(Collection, ObjectSerializer):
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-        value = value or opts  # to allow initialization by keywords
+        if value is None:
+            # to allow initialization by keywords
+            value = {k: v for k, v in opts.items() if k != 'context'}
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From e566da7b7999feaae27decd577564ad9f8269758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:29 +0000
Subject: [PATCH 109/152] fix: an object type can have pattern properties

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 07a499f..8e6ef86 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -135,7 +135,7 @@ class Object(Collection, ObjectSerializer):
                                    for name, sch in properties.items()]))
             self._properties = ps
         if patternProperties:
-            pps = set(self.patternProperties)
+            pps = set(self._propertiesPattern)
             pps.update([(re.compile(k), type_builder.build(
                 f'{cls_name}/patternProperties/{k}', v)) for k, v in patternProperties.items()])
             self._propertiesPattern = pps
-- 
2.43.0


From 9a73010c5a26c4326a717fde63e628e1d4042bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:29 +0000
Subject: [PATCH 110/152] fix: an object of a type which is not a class can be
 serialized

---
 ngoschema/types/object.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 8e6ef86..1dcfa6f 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -115,6 +115,7 @@ class Object(Collection, ObjectSerializer):
     _propertiesPattern = set()
     _propertiesAdditional = _True()
     _propertiesWithDefault = set()
+    _aliasesNegated = {}
 
     @classmethod
     def is_object(cls):
-- 
2.43.0


From 9bd484eaa03871232965e74ee0320316a0d595a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 111/152] fix: 0, False and the empty string are defaults of
 values of any type

---
 ngoschema/protocols/type_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index bc5e3e0..5d1ec87 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -7,7 +7,7 @@ import copy
 from abc import abstractmethod
 from collections import OrderedDict, Mapping, Sequence
 
-from ..utils import ReadOnlyChainMap, shorten
+from ..utils import ReadOnlyChainMap, shorten, is_collection
 from ngoschema.resolvers.uri_resolver import resolve_uri, scope, UriResolver
 from .context import Context
 from .validator import Validator
@@ -95,7 +95,9 @@ class TypeProtocol(Serializer):
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-        return bool(value or self._default)
+        value = self._default if value is None else value
+        # 0, False and the empty string are defaults too, empty collections are not
+        return value is not None and (bool(value) or not is_collection(value))
 
     @classmethod
     def has_default(cls, value=None, **opts):
-- 
2.43.0


From 5783eddb49ddde2035b956df51b5a2e29435968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 112/152] fix: 0, False and the empty string in an array are
 not replaced by the default of its items

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 5d1ec87..7d96b76 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -105,7 +105,7 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, value or cls._default, raw_literals=raw_literals, **opts)
+        return cls._deserialize(cls, cls._default if value is None else value, raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
-- 
2.43.0


From a4c5a2fa02cd47ea3900eccd326dec8caebfeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 113/152] fix: an array is made of all the values it is given,
 0 included

---
 ngoschema/types/array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 60fa13c..fdcab14 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -120,7 +120,11 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = value or list(values)  # to allow initialization by varargs
+        # to allow initialization by varargs
+        if values:
+            value = [value, *values]
+        elif value is None:
+            value = []
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From 3b7369facc04b2dbcc845c8a22ee22f300268ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 114/152] fix: a set is made of the items of a set

---
 ngoschema/types/array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index fdcab14..1321a69 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import Mapping, Sequence, deque, OrderedDict
+from collections.abc import Set as AbstractSet
 
 from ..exceptions import ValidationError, ConversionError, InvalidValue
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -46,7 +47,7 @@ class ArrayDeserializer(CollectionDeserializer):
             str_del = opts.get('strDelimiter', self._strDelimiter)
             value = [s.strip() for s in value.split(str_del)] if split_string else [value]
         else:
-            value = list(value) if isinstance(value, (Sequence, deque)) else [value]
+            value = list(value) if isinstance(value, (Sequence, deque, AbstractSet)) else [value]
         many = opts.get('many', self._many)
         lv = len(value)
         if lv > 1 and not many:
@@ -181,7 +182,7 @@ class Array(Collection, ArraySerializer):
             if not split_string:
                 raise TypeError('%s is a string and is not allowed in this array. Use split_string.')
             value = Array._convert(self, value)
-        if not isinstance(value, Sequence):
+        if not isinstance(value, (Sequence, AbstractSet)):
             raise TypeError('%s is not a sequence or array.')
         return Collection._check(self, value, **opts)
 
-- 
2.43.0


From 843b1eda3d6ecafa695595eab68f5b658a1a4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 115/152] fix: an array serialized as a string is one

---
 ngoschema/types/array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 1321a69..5bc1d0e 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -194,6 +194,12 @@ class Array(Collection, ArraySerializer):
         value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
         return value
 
+    @staticmethod
+    def _serialize(self, value, as_string=False, **opts):
+        value = Collection._serialize(self, value, **opts)
+        # items are joined once they are serialized
+        return self._strDelimiter.join([String.serialize(v, **opts) for v in value]) if as_string else value
+
     @staticmethod
     def _inputs(self, value, items=False, **opts):
         inputs = set()
-- 
2.43.0


From 78924382ac1efa391315c2d0e4419bd3c67e542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:07 +0000
Subject: [PATCH 116/152] fix: an empty collection or 0 given to one is not
 replaced by its default

---
 ngoschema/protocols/collection_protocol.py | 4 ++--
 ngoschema/types/array.py                   | 5 +++--
 ngoschema/types/collection.py              | 4 +++-
 ngoschema/types/object.py                  | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 8c4b965..0abb029 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -40,8 +40,8 @@ class CollectionProtocol(Collection):
         lz = self._lazyLoading if items is None else not items
         #Collection.__init__(self, **opts)
         if value is None:
-            # to allow initialization by keywords
-            value = opts
+            # to allow initialization by keywords, the default is used when there is none
+            value = opts or self._default
             opts = {}
         self._data = self._deserialize(self, value, items=False, evaluate=False, **opts)  #, convert=False, **opts)
         # touch allocates storage for data, need to call _create_context again
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 5bc1d0e..ba429a1 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -45,7 +45,8 @@ class ArrayDeserializer(CollectionDeserializer):
         if String.check(value):
             split_string = opts.get('split_string', self._splitString)
             str_del = opts.get('strDelimiter', self._strDelimiter)
-            value = [s.strip() for s in value.split(str_del)] if split_string else [value]
+            # an empty string has no items
+            value = ([s.strip() for s in value.split(str_del)] if split_string else [value]) if value else []
         else:
             value = list(value) if isinstance(value, (Sequence, deque, AbstractSet)) else [value]
         many = opts.get('many', self._many)
@@ -166,7 +167,7 @@ class Array(Collection, ArraySerializer):
         return True
 
     def default(self, value=None, **opts):
-        value = value or self._default
+        value = self._default if value is None else value
         ret = [None] * len(value)
         for k, t in self._items_types(self, value):
             ret[k] = t.default(value[k], **opts) if t.has_default(value[k]) else None
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 92f7c41..7e97096 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -74,7 +74,9 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        # an empty collection is not replaced by the default
+        value = self._default if value is None else value
+        ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 1dcfa6f..f8aca31 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -193,7 +193,7 @@ class Object(Collection, ObjectSerializer):
         return sch_repr
 
     def default(self, value=None, **opts):
-        ret = self._collType(value or self._default)
+        ret = self._collType(self._default if value is None else value)
         for k in list(self._propertiesWithDefault):
             t = self._items_type(self, k)
             v = ret.get(k)
@@ -207,7 +207,7 @@ class Object(Collection, ObjectSerializer):
 
     @staticmethod
     def _deserialize(self, value, items=True, evaluate=True, raw_literals=False, **opts):
-        value = self._collType(value or self._default)
+        value = self._collType(self._default if value is None else value)
         #value = ObjectDeserializer._deserialize(self, value, items=False, evaluate=evaluate, **opts)
         value.update({k: self._items_type(self, k).default(raw_literals=True, evaluate=evaluate, **opts)
                       for k in self._propertiesWithDefault if k not in value})
-- 
2.43.0


From 5dfe578a94fa58ceeff289f01c78768730688faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:52 +0000
Subject: [PATCH 117/152] fix: a type called without a value gives its default

---
 ngoschema/types/array.py  | 2 +-
 ngoschema/types/object.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index ba429a1..1c2b75c 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -126,7 +126,7 @@ class Array(Collection, ArraySerializer):
         if values:
             value = [value, *values]
         elif value is None:
-            value = []
+            value = list(self._default)
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index f8aca31..917d9a1 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -149,7 +149,7 @@ class Object(Collection, ObjectSerializer):
     def __call__(self, value=None, **opts):
         if value is None:
             # to allow initialization by keywords
-            value = {k: v for k, v in opts.items() if k != 'context'}
+            value = {k: v for k, v in opts.items() if k != 'context'} or self._default
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From 71f9858ad56436b36ad49a9c69bf1006d76bb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 118/152] fix: no path is serialized as nothing, not as a path
 named None

---
 ngoschema/types/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index a055968..459387b 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -166,7 +166,7 @@ class Path(Uri):
                 fp = fr.document.filepath
                 from pathlib import Path
                 p = value.relative_to(fp)
-        return str(value)
+        return value if value is None else str(value)
 
     @staticmethod
     def _resolve(self, typed, **opts):
-- 
2.43.0


From 83591d5e39bfd304412128a81d205ea5912f26b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:28 +0000
Subject: [PATCH 119/152] fix: what is neither null nor accepted is refused,
 not replaced by nothing

---
 ngoschema/types/constants.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ngoschema/types/constants.py b/ngoschema/types/constants.py
index 6502ca3..162dfee 100644
--- a/ngoschema/types/constants.py
+++ b/ngoschema/types/constants.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 
 from ..protocols import TypeProtocol, Serializer
 from ..managers.type_builder import register_type
-from ..exceptions import InvalidValue
+from ..exceptions import ConversionError, InvalidValue
 
 
 class Constant(TypeProtocol):
@@ -26,15 +26,23 @@ class Constant(TypeProtocol):
     def __bool__(cls):
         return bool(cls._pyType)
 
-    @staticmethod
-    def _serialize(self, value, **opts):
-        return value if self._pyType else None
-
 
 @register_type('null')
 class Null(Constant):
     _pyType = None
 
+    @staticmethod
+    def _check(self, value, **opts):
+        if value is not None:
+            raise TypeError('%r is not null.' % (value,))
+        return value
+
+    @staticmethod
+    def _convert(self, value, **opts):
+        if value is not None:
+            raise ConversionError('%r is not null.' % (value,))
+        return value
+
 
 @register_type('true')
 class _True(Constant):
@@ -62,6 +70,12 @@ class _True(Constant):
 class _False(Constant):
     _pyType = False
 
+    @staticmethod
+    def _convert(self, value, **opts):
+        if value is not None:
+            raise InvalidValue('no value is accepted: %r' % (value,))
+        return value
+
     @staticmethod
     def _validate(self, value, **opts):
-        raise InvalidValue(value)
+        raise InvalidValue('no value is accepted: %r' % (value,))
-- 
2.43.0


From 9748370a219e05d77f1a65da85ae25e7173ad146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 120/152] fix: a class can be told to be an ObjectProtocol

---
 ngoschema/protocols/type_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 7d96b76..cdf46ab 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -168,6 +168,9 @@ class SchemaMetaclass(type):
 
     def __new__(cls, clsname, bases, attrs):
         from ..managers.type_builder import type_builder
+        from .object_protocol import ObjectProtocol
+        # the base of all classes has no schema of its own, it is added when the class is built
+        bases = tuple(b for b in bases if b is not ObjectProtocol)
         schema = attrs.get('_schema', {})
         id = attrs.get('_id')
         if not schema and id:
-- 
2.43.0


From 3c6b382ddad4a32a9a1b9a7d150eb6bf670a9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 121/152] fix: a number between the brackets of a path is an
 index

---
 ngoschema/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index d439038..3e4e140 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -647,9 +647,10 @@ def split_path(path):
     """ return a path as a list of attributes and key, index"""
     paths = []
     for part in path.split('.'):
-        for key in part.split('['):
+        for i, key in enumerate(part.split('[')):
             key = key.strip('[]')
-            paths.append(int(key) if is_integer(key) else key)
+            # what is between brackets is an index if it is a number
+            paths.append(int(key) if i and key.isdigit() else key)
     return paths
 
 
-- 
2.43.0


From 796ffa8652248f9af26b0aa28f89127ab83d250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 122/152] fix: pages are not followed by an empty one

---
 ngoschema/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 3e4e140..a64336a 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -508,7 +508,8 @@ def grouper( page_size, iterable ):
         if len(page) == page_size:
             yield page
             page= []
-    yield page
+    if page:
+        yield page
 
 
 @contextlib.contextmanager
-- 
2.43.0


From af8063efdf35a51b323a5e0f0926f06b4274fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 123/152] fix: sets and queues can be written in a message

---
 ngoschema/utils/str_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 49f7069..a4d6d74 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -94,7 +94,8 @@ class PrettyShortPrinter(pprint.PrettyPrinter):
                 if len(rep) >= max_coll_len:
                     rep = rep[:max_coll_len] + '...}'
             else:
-                rep = self._repr([v for v in object[0:self._maxEl]], context, level)
+                # sets and queues can not be sliced
+                rep = self._repr(list(islice(object, 0, self._maxEl)), context, level)
                 if len(object) >= self._maxEl:
                     rep = rreplace(rep, ']', '+%i...]' % (len(object)-self._maxEl))
                 if len(rep) >= max_coll_len:
-- 
2.43.0


From 7d02bb9edfca845507b0f81d69c6e3e35395bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 124/152] fix: a message is the same each time it is written

---
 ngoschema/utils/str_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index a4d6d74..8aa834e 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -136,12 +136,14 @@ class lazy_format(object):
         self.to_format = to_format
 
     def __str__(self):
+        # a message is formatted by each of the handlers which write it
+        args, kwargs = list(self.args), dict(self.kwargs)
         for a in self.to_format:
             if utils.is_integer(a):
-                self.args[a] = log_format(list(self.args)[a])
+                args[a] = log_format(args[a])
             else:
-                self.kwargs[a] = log_format(self.kwargs[a])
-        return self.fmt.format(*self.args, **self.kwargs)
+                kwargs[a] = log_format(kwargs[a])
+        return self.fmt.format(*args, **kwargs)
 
 
 def _multiple_replacer(replace_dict):
-- 
2.43.0


From 96315e1a6931d1d4ce4959ca4d1b399c617226b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 125/152] fix: nested brackets are given in their order at each
 level

---
 ngoschema/utils/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index a64336a..47eb2f9 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -611,10 +611,7 @@ class Bracket:
             for pos in reversed(pos_brs):
                 do_order(pos, reg)
             def do_reverse(registry):
-                res = odict(reversed(list(registry.items())))
-                for r in res.values():
-                    do_reverse(r)
-                return res
+                return odict((k, do_reverse(r)) for k, r in reversed(list(registry.items())))
             return do_reverse(reg)
 
         return order_brackets(all)
-- 
2.43.0


From 490ecb71ff37ff7f2d86adc2cc1a814345a9dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 126/152] fix: bytes are decoded when a text is asked

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 8aa834e..9269eea 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -183,7 +183,7 @@ def split_string(string, delimiters=" ", strip=True):
 
 
 def get_unicode(str_or_unicode, encoding='utf-8'):
-    if isinstance(str_or_unicode, (str, basestring)):
+    if isinstance(str_or_unicode, str):
         return str_or_unicode
     return str(str_or_unicode, encoding, errors='ignore')
 
-- 
2.43.0


From f19430fc83e5768ef2349dbf3309924d3b967894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:50 +0000
Subject: [PATCH 127/152] fix: the dependencies declared by accessors are those
 of the class

depend_on_prop was only understood through the optional package ngoinsp,
which is not among the requirements: without it a property computed from
others kept its value when they changed.
---
 ngoschema/decorators.py                | 13 ++++++++++++-
 ngoschema/protocols/object_protocol.py |  7 +++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 58dcc88..52c3d86 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -274,10 +274,21 @@ def assert_prop(*args2check):
 
 
 def depend_on_prop(*prop_names):
+    """
+    Declare the properties the decorated accessor depends on
+
+    :param prop_names: list of property names
+    """
     @wrapt.decorator
     def wrapper(wrapped, instance, args, kwargs):
         return wrapped(*args, **kwargs)
-    return wrapper
+
+    def to_decorate(wrapped):
+        # read when the class is built to declare the dependencies of the property
+        wrapped.depend_on_props = getattr(wrapped, 'depend_on_props', ()) + prop_names
+        return wrapper(wrapped)
+
+    return to_decorate
 
 
 class ClassPropertyDescriptor(object):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 433e4a3..148b637 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -738,10 +738,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     fun = [getattr(b, fname) for b in bases + bases_extended if hasattr(b, fname)]
                     fun = None if not fun else fun[0]
                 if fun:
-                    insp = inspect_function(fun)
-                    for d in insp.get('decorators', []):
-                        if 'depend_on_prop' == d['name']:
-                            dependencies[pname].update(d['varargs']['valueLiteral'])
+                    depend_on = getattr(fun, 'depend_on_props', ())
+                    if depend_on:
+                        dependencies[pname].update(depend_on)
                 pfun[prop] = fun
             if any(pfun.values()):
                 descriptor_funs[pname] = pfun
-- 
2.43.0


From ee2672df2bf9c202b9c51289d4b44d352c671151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:17 +0000
Subject: [PATCH 128/152] fix: an object built as a loader keeps its
 dependencies

The constructor of deserializers replaced those of the class by none.
---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 7e97096..ea85a54 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -19,7 +19,7 @@ class CollectionDeserializer(Deserializer):
     def __init__(self, collType=None, dependencies=None, **opts):
         Deserializer.__init__(self, **opts)
         self._collType = collType or self._collType
-        self._dependencies = defaultdict(list, dependencies or {})
+        self._dependencies = defaultdict(list, dependencies or self._dependencies)
 
     @staticmethod
     def _call_order(self, value, **opts):
-- 
2.43.0


From 0474f17427857933b49bdcb5f90f63918ca11d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:39 +0000
Subject: [PATCH 129/152] fix: what accessors of files read is declared

The size, the dates and the digest of a file stayed those of the previous
path, and the content the one read in the previous mode.
---
 ngoschema/models/files.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 0b27891..9fbbd6f 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -57,7 +57,7 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
     def set_binary(self, binary):
         self._binary = binary
 
-    @depend_on_prop('filepath')
+    @depend_on_prop('filepath', 'binary')
     def get_contentRaw(self):
         fp = self.filepath
         if fp and fp.exists():
@@ -77,15 +77,19 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
         file = file or File(filepath=filepath)
         ObjectProtocol.__init__(self, file=file, **opts)
 
+    @depend_on_prop('file.filepath')
     def get_dateCreated(self):
         return arrow.get(self.file.filepath.stat().st_ctime)
 
+    @depend_on_prop('file.filepath')
     def get_dateModified(self):
         return arrow.get(self.file.filepath.stat().st_mtime)
 
+    @depend_on_prop('file.filepath')
     def get_contentSize(self):
         return self.file.filepath.stat().st_size
 
+    @depend_on_prop('file.filepath')
     def get_mimetype(self):
         import magic
         return magic.Magic(mime=True).from_file(str(self.file.filepath))
@@ -99,6 +103,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
             num /= 1024.0
         return num
 
+    @depend_on_prop('file.filepath')
     def get_sha1(self):
         import hashlib
         sha = hashlib.sha1()
@@ -177,7 +182,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
         if content:
             return content.get('$id')
 
-    @depend_on_prop('contentRaw')
+    @depend_on_prop('contentRaw', 'binary')
     def get_content(self):
         if not self.binary:
             try:
-- 
2.43.0


From 10126646ae3d1613b1c6e01d28b60378c6957ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:33 +0000
Subject: [PATCH 130/152] fix: an instance knows the instance it is in

The attribute of the class hid the property, which was set and never read:
the canonical name of an instance was not that of its parent followed by its
name, and did not follow it.
---
 ngoschema/contexts/instance_context.py | 2 --
 ngoschema/models/instances.py          | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngoschema/contexts/instance_context.py b/ngoschema/contexts/instance_context.py
index f8c52d0..fb37534 100644
--- a/ngoschema/contexts/instance_context.py
+++ b/ngoschema/contexts/instance_context.py
@@ -6,8 +6,6 @@ from .object_protocol_context import ObjectProtocolContext
 
 
 class InstanceContext(ObjectProtocolContext):
-    _parentInstance = None
-
     def set_context(self, context, **opts):
         from ..models.instances import Instance
         ObjectProtocolContext.set_context(self, context, **opts)
diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index ca2e648..4204251 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -30,7 +30,7 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
             self._str = '<%s %s>' % (self.qualname(), ' '.join(a))
         return self._str
 
-    @depend_on_prop('name')
+    @depend_on_prop('name', '_parentInstance.canonicalName')
     def get_canonicalName(self):
         return self._canonicalName
 
-- 
2.43.0


From 265a7f69cbdfb15a0f471d381f23d6f2e5df4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:33 +0000
Subject: [PATCH 131/152] fix: what the context gives is not part of the
 content of a collection

The parent was compared, hashed and written with the items of an object, and
it holds the object: these did not end.
---
 ngoschema/protocols/collection_protocol.py | 7 ++++++-
 ngoschema/protocols/object_protocol.py     | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 0abb029..6055b04 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -233,7 +233,11 @@ class CollectionProtocol(Collection):
             return False
         if len(self) != len(other):
             return False
+        # items given by the context (such as the parent) are not part of the content
+        contextual = self._notSerialized.intersection(self._notValidated)
         for k, _ in self._items_types(self, self._data):
+            if k in contextual:
+                continue
             try:
                 if self[k] != other[k]:
                     return False
@@ -243,5 +247,6 @@ class CollectionProtocol(Collection):
 
     def __hash__(self):
         # equal collections have the same hash, whatever their class and the order of their items
-        return hash(frozenset((k, hash(self[k])) for k, _ in self._items_types(self, self._data)))
+        contextual = self._notSerialized.intersection(self._notValidated)
+        return hash(frozenset((k, hash(self[k])) for k, _ in self._items_types(self, self._data) if k not in contextual))
 
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 148b637..55eb2d6 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -516,7 +516,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __repr__(self):
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+            contextual = self._notSerialized.intersection(self._notValidated)
+            ks = list(self._print_order(self, self._data, excludes=contextual, no_defaults=True, no_readOnly=True))
             hidden = max(0, len(ks) - m)
             a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
@@ -526,7 +527,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __str__(self):
         if self._str is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+            contextual = self._notSerialized.intersection(self._notValidated)
+            ks = list(self._print_order(self, self._data, excludes=contextual, no_defaults=True, no_readOnly=False))
             hidden = max(0, len(ks) - m)
             a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
-- 
2.43.0


From 7772ad3165700e6370eb0491a1f1766406b3b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:33 +0000
Subject: [PATCH 132/152] fix: a copy is in the context of the original

It was in the original itself, which was its parent.
---
 ngoschema/protocols/collection_protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 6055b04..431289c 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -9,6 +9,7 @@ from operator import neg
 
 from ..exceptions import InvalidValue, InvalidOperation
 from ..decorators import assert_arg
+from ..utils import Context
 from ..managers.type_builder import DefaultValidator
 from ..managers.namespace_manager import default_ns_manager, clean_js_name
 from .. import settings
@@ -222,7 +223,12 @@ class CollectionProtocol(Collection):
         return self._serializer._serialize(self, self, deserialize=deserialize, **opts)
 
     def copy(self):
-        return self.create(self._data, context=self._context)
+        # the copy is in the same context as the original, not in the original
+        maps = self._context.maps
+        inner = max((i for i, m in enumerate(maps) if m is self), default=-1)
+        context = Context(*maps[inner + 1:])
+        context._session = self.session
+        return self.create(self._data, context=context)
 
     def __eq__(self, other):
         if other is None:
-- 
2.43.0


From 5ab616453028b3050920b16cf52b2999156d3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:55 +0000
Subject: [PATCH 133/152] fix: the text of an entity shows its current keys

It was made of the keys computed when the entity was created, whatever had been
written to them since.
---
 ngoschema/models/instances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 4204251..78ece4f 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -78,7 +78,7 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
 
     def __str__(self):
         if self._str is None:
-            ks = [str(k) for k in self._identityKeys]
+            ks = [str(k) for k in self.identityKeys]
             self._str = '<%s %s>' % (self.qualname(), ', '.join(ks))
         return self._str
 
-- 
2.43.0


From cdb6f0de0925a8abead1a9879ae9337d726d05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:55 +0000
Subject: [PATCH 134/152] fix: what represents an object does not show outdated
 items

An item computed by an accessor was shown with the value it had before what it
depends on changed, until it was read again.
---
 ngoschema/protocols/object_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 55eb2d6..3b27703 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -517,7 +517,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
             contextual = self._notSerialized.intersection(self._notValidated)
-            ks = list(self._print_order(self, self._data, excludes=contextual, no_defaults=True, no_readOnly=True))
+            # what is computed is not shown when it is outdated
+            outdated = (k for k, d in self._propertiesDescriptor.items() if d.fget and self._dataValidated.get(k) is None)
+            ks = list(self._print_order(self, self._data, excludes=contextual.union(outdated), no_defaults=True, no_readOnly=True))
             hidden = max(0, len(ks) - m)
             a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
@@ -528,7 +530,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if self._str is None:
             m = settings.PPRINT_MAX_EL
             contextual = self._notSerialized.intersection(self._notValidated)
-            ks = list(self._print_order(self, self._data, excludes=contextual, no_defaults=True, no_readOnly=False))
+            # what is computed is not shown when it is outdated
+            outdated = (k for k, d in self._propertiesDescriptor.items() if d.fget and self._dataValidated.get(k) is None)
+            ks = list(self._print_order(self, self._data, excludes=contextual.union(outdated), no_defaults=True, no_readOnly=False))
             hidden = max(0, len(ks) - m)
             a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
-- 
2.43.0


From b7ee27282de2e23b96d0d3021f99c90b67e40c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:21 +0000
Subject: [PATCH 135/152] fix: a scoped session can be configured when a
 session is present

The warning was given to a logger which does not exist, and nothing was
configured.
---
 ngoschema/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index c3ddb65..3fc569d 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -8,6 +8,7 @@ licence: GNU GPLv3
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import logging
 import weakref
 import functools
 
@@ -20,6 +21,8 @@ from .protocols import ObjectProtocol, ArrayProtocol, SchemaMetaclass, with_meta
 from .types import Tuple, Array
 from .query import Query
 
+logger = logging.getLogger(__name__)
+
 _sessions = weakref.WeakValueDictionary()
 
 _new_sessionid = utils.threadsafe_counter()
@@ -347,7 +350,7 @@ class scoped_session(object):
         """
 
         if self.registry.has():
-            self._logger.warning(
+            logger.warning(
                 "At least one scoped session is already present. "
                 " configure() can not affect sessions that have "
                 "already been created."
-- 
2.43.0


From 52bbc60ef9ee3d55c8cf0e2a604206a841c8ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:21 +0000
Subject: [PATCH 136/152] fix: several keys which are not resolved are told

The message failed to be made when there was not exactly one key.
---
 ngoschema/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3fc569d..29be73e 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -84,7 +84,7 @@ class Session(with_metaclass(SchemaMetaclass)):
             if keys in repo:
                 return repo.resolve_fkey(keys)
         else:
-            raise Exception("Impossible to resolve '%s'" % keys)
+            raise Exception("Impossible to resolve '%s'" % ', '.join(str(k) for k in keys))
 
     def query(self, *attrs, order_by=False, **attrs_value):
         """
-- 
2.43.0


From f0ed95d6b76b7461966510fe6ae1394b09c7b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:26 +0000
Subject: [PATCH 137/152] fix: a canonical name is resolved from the object it
 is given to

The name given was replaced by the one of the object, a text was taken for a list
of characters, and the arrays of an object were not searched.
---
 ngoschema/protocols/object_protocol.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3b27703..fc543c6 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -12,7 +12,7 @@ from operator import neg
 import copy
 
 from ..exceptions import InvalidValue
-from ..utils import ReadOnlyChainMap as ChainMap, shorten
+from ..utils import ReadOnlyChainMap as ChainMap, shorten, is_sequence
 from .. import decorators
 from ..resolvers.uri_resolver import UriResolver, resolve_uri
 from ..types.array import Array
@@ -334,7 +334,6 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                                 name, self.__class__.__name__))
 
     def resolve_cname_path(self, cname):
-        from ..models.instances import Instance
         # use generators because of 'null' which might lead to different paths
         def _resolve_cname_path(cn, cur, cur_cn, cur_path):
             # empty path, yield current path and doc
@@ -346,22 +345,22 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     if cn2 == cn:
                         yield cur, cn, cur_path
                     for k, v in cur.items():
-                        if Object.check(v) or Array.check(v, split_string=False):
+                        if Object.check(v) or is_sequence(v):
                             for _ in _resolve_cname_path(cn, v, cn2, cur_path + [k]):
                                 yield _
-            if Array.check(cur, split_string=False):
+            if is_sequence(cur):
                 for i, v in enumerate(cur):
                     for _ in _resolve_cname_path(cn, v, cur_cn, cur_path + [i]):
                         yield _
 
-        cname = [self.name] if isinstance(self, Instance) else []
-        cname += [e.split(':')[-1] for e in cname]
+        # the search goes through the object itself, which the canonical name does not include
+        cname = [(self.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1]] + [e.split(':')[-1] for e in cname]
         cur = self
         cur_cn = []
         # first search without last element, as last one might not be a named object
         # but the name of an attribute
         for d, c, p in _resolve_cname_path(cname[:-1], cur, cur_cn, []):
-            if cname[-1] in d or (d.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1] == cname[-1]:
+            if cname[-1] in d:
                 p.append(cname[-1])
                 return p
             # we can continue the search from last point. we remove the last element of the
@@ -372,7 +371,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     #@assert_arg(1, Tuple, strDelimiter='.')
     def resolve_cname(self, cname):
-        cname = cname if Array.check(cname) else cname.split('.')
+        cname = cname if is_sequence(cname) else cname.split('.')
         cur, path = self, self.resolve_cname_path(cname)
         for p in path:
             cur = cur[p]
-- 
2.43.0


From 6b9920422dd9c684858d7182f1f51ec7bee90a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:00 +0000
Subject: [PATCH 138/152] fix: a session resolves canonical names in its
 repositories

The first name was looked for among the keys of the repositories, which are
tuples: nothing was ever found. What was found once is not kept either, as
repositories change.
---
 ngoschema/session.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 29be73e..d742c6c 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -10,7 +10,6 @@ from __future__ import unicode_literals
 
 import logging
 import weakref
-import functools
 
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
@@ -44,7 +43,6 @@ class Session(with_metaclass(SchemaMetaclass)):
     _id = "https://numengo.org/ngoschema#/$defs/session/$defs/Session"
 
     def __init__(self, **kwargs):
-        self._resolve_cname = functools.lru_cache(1024)(self._resolve_cname_cached)
         ObjectProtocol.__init__(self, value=kwargs)
         self._new = {}  # InstanceState->object, strong refs object
         self._deleted = {}  # same
@@ -65,16 +63,13 @@ class Session(with_metaclass(SchemaMetaclass)):
         return r(session=self)
 
     def resolve_cname(self, cname):
-        return self._resolve_cname(cname)
-
-    def _resolve_cname_cached(self, cname):
         from .models.instances import Entity
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
         for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
-            if rn in repo:
-                v = repo.resolve_fkey(rn)
+            if (rn, ) in repo:
+                v = repo.resolve_fkey((rn, ))
                 return v if not cn else v.resolve_cname(cn)
         raise Exception("Impossible to resolve '%s'" % cname)
 
-- 
2.43.0


From b241248b725b503ff71dc1e14ab163d919d1a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:02 +0000
Subject: [PATCH 139/152] fix: repositories without a class hold nothing that
 is asked by its class

They made all resolutions in their session fail.
---
 ngoschema/session.py           | 4 ++--
 ngoschema/types/foreign_key.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index d742c6c..d6cadff 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -67,7 +67,7 @@ class Session(with_metaclass(SchemaMetaclass)):
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
-        for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
+        for repo in [r for r in self.repositories if r.instanceClass and issubclass(r.instanceClass, Entity)]:
             if (rn, ) in repo:
                 v = repo.resolve_fkey((rn, ))
                 return v if not cn else v.resolve_cname(cn)
@@ -75,7 +75,7 @@ class Session(with_metaclass(SchemaMetaclass)):
 
     @assert_arg(1, Tuple, strDelimiter=',')
     def resolve_fkey(self, keys, object_class):
-        for repo in [r for r in self.repositories if issubclass(r.instanceClass, object_class)]:
+        for repo in [r for r in self.repositories if r.instanceClass and issubclass(r.instanceClass, object_class)]:
             if keys in repo:
                 return repo.resolve_fkey(keys)
         else:
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index b7989e8..c126639 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -154,7 +154,7 @@ class ForeignKey(Ref):
     def _resolve(self, key, session=None, **opts):
         session = session or scoped_session(session_maker())()
         ric = [r.instanceClass for r in session.repositories]
-        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
+        fc_repos = [r for r in session.repositories if r.instanceClass and issubclass(r.instanceClass, self._foreignClass)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
             v = r.resolve_fkey(key)
@@ -199,7 +199,7 @@ class CanonicalName(ForeignKey):
     def _resolve(self, cname, session=None, **opts):
         from ..models.instances import Instance
         session = session or scoped_session(session_maker())()
-        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, Instance)]
+        fc_repos = [r for r in session.repositories if r.instanceClass and issubclass(r.instanceClass, Instance)]
         root = cname[0]
         ns = cname[1:]
         for r in fc_repos:
-- 
2.43.0


From 7432f08fe92bcf8d44b802f8c78cec9fe1dfa7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:58 +0000
Subject: [PATCH 140/152] fix: foreign keys and canonical names are resolved in
 the session they are asked in

A key which the first repository of its class does not hold was not looked for in
the next ones, a canonical name was neither split nor looked for among keys, and
a new session, which holds nothing, was made when none was given.
---
 ngoschema/types/foreign_key.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index c126639..343489a 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -9,7 +9,7 @@ from .. import settings
 from ..exceptions import InvalidValue
 from ..decorators import assert_arg
 from ngoschema.resolvers.uri_resolver import resolve_uri
-from ..session import Session, scoped_session, session_maker
+from ..session import default_session
 from ..protocols import TypeProtocol, Resolver
 from ..managers.type_builder import register_type
 from .strings import String
@@ -152,14 +152,12 @@ class ForeignKey(Ref):
     @staticmethod
     @assert_arg(1, Tuple, strDelimiter=',')
     def _resolve(self, key, session=None, **opts):
-        session = session or scoped_session(session_maker())()
-        ric = [r.instanceClass for r in session.repositories]
+        session = session or default_session
         fc_repos = [r for r in session.repositories if r.instanceClass and issubclass(r.instanceClass, self._foreignClass)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
-            v = r.resolve_fkey(key)
-            if v is not None:
-                return v
+            if key in r:
+                return r.resolve_fkey(key)
         raise InvalidValue('impossible to resolve foreign key %s' % repr(key))
 
 
@@ -195,18 +193,18 @@ class CanonicalName(ForeignKey):
         return tuple(t._convert(t, v, **opts) for t, v in zip(self._foreignKeysType, value))[0]
 
     @staticmethod
-    @assert_arg(1, Array, strDelimiter='.')
+    @assert_arg(1, Array, splitString=True, strDelimiter='.')
     def _resolve(self, cname, session=None, **opts):
         from ..models.instances import Instance
-        session = session or scoped_session(session_maker())()
+        session = session or default_session
         fc_repos = [r for r in session.repositories if r.instanceClass and issubclass(r.instanceClass, Instance)]
         root = cname[0]
-        ns = cname[1:]
+        ns = list(cname[1:])
         for r in fc_repos:
-            v = r.get(root)
-            if v is not None:
+            if (root, ) in r:
+                v = r.resolve_fkey((root, ))
                 return v if not ns else v.resolve_cname(ns)
-        raise InvalidValue('impossible to resolve %s in context' % repr('.'.join(cname[1:])))
+        raise InvalidValue('impossible to resolve %s in context' % repr('.'.join(cname)))
 
         from ..utils import Context
         cur = Type.make_context(self, context)
-- 
2.43.0


From afc942367c149729d0c1441f53a7c406a6f54ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:56 +0000
Subject: [PATCH 141/152] fix: an entity made from its key is looked for in the
 default session

When no context is given, the attribute which was read does not exist.
---
 ngoschema/models/instances.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 78ece4f..31db760 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -16,6 +16,7 @@ from .. import settings
 from ..decorators import memoized_property, depend_on_prop
 from ..protocols import SchemaMetaclass, ObjectProtocol, ArrayProtocol, Context
 from ..contexts import InstanceContext, EntityContext
+from ..session import default_session
 
 ATTRIBUTE_NAME_FIELD = settings.ATTRIBUTE_NAME_FIELD
 
@@ -61,7 +62,7 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         if args and args[0] and not isinstance(args[0], Mapping):
             context = kwargs.get('context')
             session = context._session if context else None
-            session = session or cls._session
+            session = session or default_session
             inst = session.resolve_fkey(args, cls)
             cls = inst.__class__
         return ObjectProtocol.__new__(cls, *args, **kwargs)
@@ -71,7 +72,7 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         if value and not isinstance(value, Mapping):
             context = opts.get('context')
             session = context._session if context else None
-            session = session or self._session
+            session = session or default_session
             value = session.resolve_fkey(value, self.__class__)
         Instance.__init__(self, value, **opts)
         self.identityKeys
-- 
2.43.0


From b8ea51cc9f550c7230d0510e5d8c1803a2b26df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:53 +0000
Subject: [PATCH 142/152] fix: a session gives the repository made from a
 registered name

It was made for the default session, looked for under the name of its class only,
and made again at each call; a name which is not registered is told.
---
 ngoschema/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index d6cadff..e8780b9 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -54,13 +54,15 @@ class Session(with_metaclass(SchemaMetaclass)):
         repo._session = self
 
     def get_or_create_repo(self, name):
+        from .repositories import repositories_registry
+        cls = repositories_registry.get(name)
         for r in self.repositories:
-            if r.__class__.__name__ == name:
+            if r.__class__ is cls or r.__class__.__name__ == name:
                 return r
         # not found, create binded repository
-        from .repositories import repositories_registry
-        r = repositories_registry.get(name)
-        return r(session=self)
+        if cls is None:
+            raise InvalidOperation("No repository is registered under '%s'." % name)
+        return cls(meta_opts={'session': self})
 
     def resolve_cname(self, cname):
         from .models.instances import Entity
-- 
2.43.0


From 3bf7fa387f564cd983986f46e5a2c7d7a2e7d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:44 +0000
Subject: [PATCH 143/152] fix: the catalog of a repository in memory is that of
 its content

What it was created with was not in its catalog, an entity was still found under
keys which it had before, and one which holds a single entity took none.
---
 ngoschema/repositories/memory_repository.py | 40 ++++++++++++---------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 4b6435f..ff2f08e 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -20,7 +20,9 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
         ObjectProtocol.__init__(self, **opts)
         Repository.__init__(self, **(meta_opts or {}), **self)
         self._catalog = OrderedDict()
-        self._content = Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value)
+        self._content = []
+        for c in Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value):
+            self._commit(self, c)
 
     def __contains__(self, item):
         return item in self._catalog
@@ -32,22 +34,26 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
     def _commit(self, value, save=False, **opts):
         """ optionally load the value (at least validate it) and add it to content """
         value = self._saver._save(self, value, **opts) if save else value
-        if self._many:
-            # check/set identity keys
-            pk = value.identityKeys
-            for i, k in enumerate(pk):
+        if not self._many:
+            # there is only one, which replaces the previous one
+            self._content = []
+            self._catalog.clear()
+        # check/set identity keys
+        pk = value.identityKeys
+        for i, k in enumerate(pk):
+            if k is None:
                 iks = [c.identityKeys[i] for c in self._content]
-                if k is None:
-                    k = max([-1] + iks) + 1
-                    value._set_data(value.primaryKeys[i], k)
-            pk = value.identityKeys
-            self._catalog[value._identityKeys] = value
-            for i, c in enumerate(self._content):
-                if pk == c.identityKeys:
-                    self._content[i] = value
-                    break
-            else:
-                self._content.append(value)
+                k = max([-1] + iks) + 1
+                value._set_data(value.primaryKeys[i], k)
+        pk = value.identityKeys
+        # the keys can have changed since it was committed
+        for k in [k for k, c in self._catalog.items() if c is value]:
+            del self._catalog[k]
+        self._catalog[value._identityKeys] = value
+        for i, c in enumerate(self._content):
+            if pk == c.identityKeys:
+                self._content[i] = value
+                break
         else:
-            self._content = self._content(value)
+            self._content.append(value)
         return self._content
-- 
2.43.0


From f74e7125ccb95c794047b3bbd11a7169109261dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:44 +0000
Subject: [PATCH 144/152] fix: a resolver gives what it resolves

It was raised, which fails.
---
 ngoschema/protocols/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/resolver.py b/ngoschema/protocols/resolver.py
index 42082f1..a818f98 100644
--- a/ngoschema/protocols/resolver.py
+++ b/ngoschema/protocols/resolver.py
@@ -19,7 +19,7 @@ class Resolver(Converter):
 
     def __call__(self, value, convert=True, **opts):
         value = self._convert(self, value, **opts) if convert else value
-        raise self._resolve(self, value, **opts)
+        return self._resolve(self, value, **opts)
 
     @classmethod
     def resolve(cls, value, convert=True, **opts):
-- 
2.43.0


From bda6266b496a9e597137bf9a06cdec9b629c12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:27 +0000
Subject: [PATCH 145/152] fix: what an entity holds is serialized to its keys

The keys were asked to the class instead of the entity when it is not itself
which is serialized.
---
 ngoschema/models/instances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 31db760..49be1ba 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -100,9 +100,9 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
                 ik = value.identityKeys
                 return ik[0] if len(ik) == 1 else ik
             if use_entity_keys:
-                keys = self.primaryKeys
+                keys = value.primaryKeys
                 assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): self.identityKeys[0]}
+                return {(keys[0] if keys[0] != '$id' else '$ref'): value.identityKeys[0]}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
             for k in self._primaryKeys:
-- 
2.43.0


From 74d0baea3685f46f7ab4b76eeb8153835d84aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:09 +0000
Subject: [PATCH 146/152] fix: a tuple which is refused is told

---
 ngoschema/protocols/object_protocol.py | 2 +-
 ngoschema/types/array.py               | 2 +-
 ngoschema/types/boolean.py             | 2 +-
 ngoschema/types/datetime.py            | 6 +++---
 ngoschema/types/foreign_key.py         | 2 +-
 ngoschema/types/numerics.py            | 2 +-
 ngoschema/types/object.py              | 4 ++--
 ngoschema/types/strings.py             | 4 ++--
 ngoschema/types/symbols.py             | 2 +-
 ngoschema/types/uri.py                 | 4 ++--
 10 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index fc543c6..92fb772 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -176,7 +176,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _check(self, value, **opts):
         if not isinstance(value, Mapping):
-            raise TypeError('%s if not of type mapping.' % value)
+            raise TypeError('%s if not of type mapping.' % (value, ))
         value = self._collType(value)
         keys = set(value)
         for k1, k2 in ChainMap(self._propertiesTranslation, self._aliases, self._aliasesNegated).items():
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 1c2b75c..aba9c23 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -65,7 +65,7 @@ class ArrayDeserializer(CollectionDeserializer):
         if self._uniqueItems:
             items = [v for v in value if v is not None]
             if any(v in items[:i] for i, v in enumerate(items)):
-                raise InvalidValue('Duplicate items in %s.' % value)
+                raise InvalidValue('Duplicate items in %s.' % (value, ))
         return value
 
     @staticmethod
diff --git a/ngoschema/types/boolean.py b/ngoschema/types/boolean.py
index 1f8415f..4c80821 100644
--- a/ngoschema/types/boolean.py
+++ b/ngoschema/types/boolean.py
@@ -53,5 +53,5 @@ class Boolean(Primitive):
             value = Integer.convert(value, **opts)
             if value in [0, 1]:
                 return bool(value)
-        raise ConversionError('Impossible to convert %s to boolean.' % value)
+        raise ConversionError('Impossible to convert %s to boolean.' % (value, ))
 
diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 42ade08..75dcbc6 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -34,7 +34,7 @@ class Date(Primitive):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError('%s is not of type date.' % (value, ))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -79,7 +79,7 @@ class Time(Primitive):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError('%s is not of type date.' % (value, ))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -120,7 +120,7 @@ class Datetime(Date, Time):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError('%s is not of type date.' % (value, ))
 
     @staticmethod
     def _convert(self, value, **opts):
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 343489a..00bb765 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -123,7 +123,7 @@ class ForeignKey(Ref):
     def _check(self, value, **opts):
         if all(t._check(t, v, **opts) for t, v in zip(self._foreignKeysType, Array.deserialize(value, **opts))):
             return value
-        raise TypeError('%s is not of type foreignKey.' % value)
+        raise TypeError('%s is not of type foreignKey.' % (value, ))
 
     @staticmethod
     def _serialize(self, value, **opts):
diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index d8cc5a6..34f9a39 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -43,7 +43,7 @@ class Number(Numeric):
     def _check(self, value, **opts):
         if isinstance(value, (numbers.Number, decimal.Decimal, float, int)):
             return value
-        raise TypeError('%s is not of type "number".' % value)
+        raise TypeError('%s is not of type "number".' % (value, ))
 
     @staticmethod
     def _evaluate(self, value, **opts):
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 917d9a1..3740935 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -48,7 +48,7 @@ class ObjectDeserializer(CollectionDeserializer):
     @staticmethod
     def _check(self, value, **opts):
         if not isinstance(value, Mapping):
-            raise TypeError('%s is not of type mapping.' % value)
+            raise TypeError('%s is not of type mapping.' % (value, ))
         #value = self._collType(value)
         return value
 
@@ -226,7 +226,7 @@ class Object(Collection, ObjectSerializer):
                    break
            else:
                if not self._propertiesAdditional:
-                   raise InvalidValue('No additional properties allowed for %s' % value)
+                   raise InvalidValue('No additional properties allowed for %s' % (value, ))
         opts['with_type'] = False
         value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
         return value
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 1cd3cb5..8a71199 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -47,7 +47,7 @@ class Expr(String):
     def _check(self, value, **opts):
         if String.check(value) and value.startswith("`"):
             return value
-        raise TypeError('%s is not of type "expr".' % value)
+        raise TypeError('%s is not of type "expr".' % (value, ))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
@@ -70,7 +70,7 @@ class Pattern(String):
     def _check(self, value, **opts):
         if String.check(value) and ("{{" in value or "{%" in value):
             return value
-        raise TypeError('%s is not of type "pattern".' % value)
+        raise TypeError('%s is not of type "pattern".' % (value, ))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 2dee10c..7b837bc 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -61,7 +61,7 @@ class Symbol(Primitive):
         # without a python type, the symbol is only what check_symbol says
         if self.check_symbol(value) or (self._pyType and TypeProtocol._check(self, value, **opts)):
             return value
-        raise TypeError('%s is not of type symbol.' % value)
+        raise TypeError('%s is not of type symbol.' % (value, ))
 
     @classmethod
     def check_symbol(cls, value):
diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index 459387b..1addfce 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -32,7 +32,7 @@ class Uri(Primitive, Resolver):
         """
         if Primitive._check(self, value) or isinstance(value, pathlib.Path) or String.check(value, **opts):
             return value
-        raise TypeError('%s is not type Uri.' % value)
+        raise TypeError('%s is not type Uri.' % (value, ))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -86,7 +86,7 @@ class Id(NsManagerContext, String):
         if m and canonical:
             uri = find_ns_mgr(context).get_cname_id(m.group())
             return value
-        raise TypeError('%s is not type Id.' % value)
+        raise TypeError('%s is not type Id.' % (value, ))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
-- 
2.43.0


From 859088bd1656e3f0c095bc70f53ad0a769530d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:21 +0000
Subject: [PATCH 147/152] fix: an entity is made from a key which is 0 or has
 several values

---
 ngoschema/models/instances.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 49be1ba..1c342a4 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -59,17 +59,17 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
     _identityKeys = None
 
     def __new__(cls, *args, **kwargs):
-        if args and args[0] and not isinstance(args[0], Mapping):
+        if args and (args[0] or args[0] == 0) and not isinstance(args[0], Mapping):
             context = kwargs.get('context')
             session = context._session if context else None
             session = session or default_session
-            inst = session.resolve_fkey(args, cls)
+            inst = session.resolve_fkey(args[0], cls)
             cls = inst.__class__
         return ObjectProtocol.__new__(cls, *args, **kwargs)
 
     def __init__(self, value=None, primaryKeys=None, **opts):
         self._primaryKeys = primaryKeys or self._primaryKeys
-        if value and not isinstance(value, Mapping):
+        if (value or value == 0) and not isinstance(value, Mapping):
             context = opts.get('context')
             session = context._session if context else None
             session = session or default_session
-- 
2.43.0


From 3f2724c6cc5813b3afc159aa468e5c189cd8774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:13 +0000
Subject: [PATCH 148/152] fix: a foreign key has as many values as there are
 keys, a text being split only then

---
 ngoschema/types/foreign_key.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 00bb765..ed2d694 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -6,7 +6,7 @@ from collections import OrderedDict, defaultdict, Mapping, Sequence
 import re
 
 from .. import settings
-from ..exceptions import InvalidValue
+from ..exceptions import ConversionError, InvalidValue
 from ..decorators import assert_arg
 from ngoschema.resolvers.uri_resolver import resolve_uri
 from ..session import default_session
@@ -112,9 +112,12 @@ class ForeignKey(Ref):
                 return None
             value = [value]
         else:
-            value = Array.deserialize(value, split_string=True, **opts)
+            # a text is split when there are several keys
+            value = Array.deserialize(value, split_string=len(self._foreignKeysType) > 1, **opts)
         opts['raw_literals'] = False
         fkt = self._foreignKeysType
+        if len(value) != len(fkt):
+            raise ConversionError('%i keys are expected: %r' % (len(fkt), value))
         return fkt[0]._convert(fkt[0], value[0], **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts) for t, v in zip(fkt, value))
         #return tuple(t._convert(t, v, **opts) for t, v in zip(self._foreignKeysType, value))
 
-- 
2.43.0


From 0b3ab0a69319bebae25c214a5209c615b72a82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:26 +0000
Subject: [PATCH 149/152] fix: a foreign key to a class which is being built
 has the keys of this class

---
 ngoschema/types/foreign_key.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index ed2d694..9402a27 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -81,7 +81,10 @@ class ForeignKey(Ref):
         from ..protocols import TypeProxy
         from ..models.instances import Entity
         fc = foreign_class
-        if fc and not issubclass(fc, TypeProxy):
+        if fc and issubclass(fc, TypeProxy):
+            # its keys are known once it is built
+            self._foreignClass = fc
+        elif fc:
             if not issubclass(fc, Entity):
                 raise ValueError('target class (%r) must implement (%r) interface.' \
                                  % (fc, Entity))
@@ -95,7 +98,7 @@ class ForeignKey(Ref):
         from ..protocols.type_proxy import TypeProxy
         fc, fs = self._foreignClass, self._foreignSchema
         if fc and issubclass(fc, TypeProxy):
-            self._foreignClass = fc.proxy_type()
+            ForeignKey.set_foreignClass(self, fc.proxy_type())
         if not fc and fs:
             ForeignKey.set_foreignSchema(self, self._foreignSchema)
         return self._foreignClass
@@ -124,12 +127,14 @@ class ForeignKey(Ref):
     @staticmethod
     @assert_arg(1, Array, strDelimiter=',')
     def _check(self, value, **opts):
+        ForeignKey.get_foreignClass(self)
         if all(t._check(t, v, **opts) for t, v in zip(self._foreignKeysType, Array.deserialize(value, **opts))):
             return value
         raise TypeError('%s is not of type foreignKey.' % (value, ))
 
     @staticmethod
     def _serialize(self, value, **opts):
+        ForeignKey.get_foreignClass(self)
         fkt = self._foreignKeysType
         return fkt[0]._convert(fkt[0], value, **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts)\
                                                                                   for t, v in zip(fkt, value))
-- 
2.43.0


From 74001e6cd1c17dd0a02d12141d21531d4f4e85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:05 +0000
Subject: [PATCH 150/152] fix: the items of an array serialized as a text are
 made texts

---
 ngoschema/types/array.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index aba9c23..eae2696 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -90,6 +90,7 @@ class ArraySerializer(CollectionSerializer, ArrayDeserializer):
         value = CollectionSerializer._serialize(self, value, **opts)
         value = self._collType([value[k] for k in self._print_order(self, value, **opts)])
         if as_string:
+            opts['deserialize'] = True  # items are made texts, whatever they are made of
             value = self._strDelimiter.join([String.serialize(v, **opts) for v in value])
         return value
 
@@ -198,8 +199,11 @@ class Array(Collection, ArraySerializer):
     @staticmethod
     def _serialize(self, value, as_string=False, **opts):
         value = Collection._serialize(self, value, **opts)
-        # items are joined once they are serialized
-        return self._strDelimiter.join([String.serialize(v, **opts) for v in value]) if as_string else value
+        if as_string:
+            # items are joined once they are serialized, as texts
+            opts['deserialize'] = True
+            value = self._strDelimiter.join([String.serialize(v, **opts) for v in value])
+        return value
 
     @staticmethod
     def _inputs(self, value, items=False, **opts):
-- 
2.43.0


From 338a5a20ed5da9b3adbbca46712babf6124d0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:28 +0000
Subject: [PATCH 151/152] fix: no text of an element is lost or glued when XML
 is read

---
 ngoschema/utils/xmltodict.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 09c5764..b2eac2c 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -120,7 +120,7 @@ class _DictSAXHandler(object):
             item = self.item
             if item is None:
                 item = (None if not self.data
-                        else self.cdata_separator.join(self.data))
+                        else self.cdata_separator.join([d for d in self.data if d is not None]))
 
             should_continue = self.item_callback(self.path, item)
             if not should_continue:
@@ -128,16 +128,12 @@ class _DictSAXHandler(object):
         if len(self.stack):
             text, tail = None, None
             data = self.data
-            #data = (None if not self.data
-            #        else self.cdata_separator.join(self.data))
             item = self.item
             self.item, self.data = self.stack.pop()
-            if self.strip_whitespace and data:
-                data = [d.strip() for d in data]
             if data:
-                text = data[0]
-                if len(data) > 1:
-                    tail = data[1]
+                # the tail is all what comes after the first child
+                i = data.index(None) if None in data else len(data)
+                text, tail = self._join_data(data[:i]), self._join_data(data[i:])
                 if (text or tail) and self.force_cdata and item is None:
                     item = self.dict_constructor()
             if item is not None:
@@ -147,12 +143,18 @@ class _DictSAXHandler(object):
                 if tail:
                     self.push_data(item, self.cdata_tail_key, tail)
             else:
-                self.item = self.push_data(self.item, name, self.cdata_separator.join(data))
+                self.item = self.push_data(self.item, name, self._join_data(data))
+            # a child separates the texts
+            self.data.append(None)
         else:
             self.item = None
             self.data = []
         self.path.pop()
 
+    def _join_data(self, data):
+        text = self.cdata_separator.join([d for d in data if d is not None])
+        return text.strip() if self.strip_whitespace else text
+
     def characters(self, data):
         if not self.data:
             self.data = [data]
-- 
2.43.0


From 161d5a85af997b7b7f28ff33ff3e3b59749cdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:06 +0000
Subject: [PATCH 152/152] fix: numbers and booleans are written as texts and
 attributes in XML

---
 ngoschema/utils/xmltodict.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index b2eac2c..523e892 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -368,6 +368,12 @@ def _process_namespace(name, namespaces, ns_sep=':', attr_prefix='@'):
     return name
 
 
+def _to_text(value):
+    if isinstance(value, bool):
+        return 'true' if value else 'false'
+    return str(value)
+
+
 def _emit(key, value, content_handler,
           attr_prefix='@',
           cdata_key='#text',
@@ -397,10 +403,7 @@ def _emit(key, value, content_handler,
         if v is None:
             v = OrderedDict()
         elif isinstance(v, bool):
-            if v:
-                v = 'true'
-            else:
-                v = 'false'
+            v = _to_text(v)
         elif not isinstance(v, dict):
             if expand_iter and hasattr(v, '__iter__') and not isinstance(v, str):
                 v = OrderedDict(((expand_iter, v),))
@@ -414,10 +417,10 @@ def _emit(key, value, content_handler,
         children = []
         for ik, iv in v.items():
             if ik == cdata_key:
-                text = iv
+                text = iv if iv is None else _to_text(iv)
                 continue
             if ik == cdata_tail_key:
-                tail = iv
+                tail = iv if iv is None else _to_text(iv)
                 continue
             if ik.startswith(attr_prefix):
                 ik = _process_namespace(ik, namespaces, namespace_separator,
@@ -428,7 +431,7 @@ def _emit(key, value, content_handler,
                         attrs[attr] = str(v)
                     continue
                 if not isinstance(iv, str):
-                    iv = str(iv)
+                    iv = _to_text(iv)
                 attrs[ik[len(attr_prefix):]] = iv
                 continue
             children.append((ik, iv))
-- 
2.43.0

