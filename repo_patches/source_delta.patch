From cde54da720f763a25b0687e690a0f8fb31d949c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 01/26] fix: keep already written attributes when a set of
 attributes is added

---
 pydantic_xml/element/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/element.py b/pydantic_xml/element/element.py
index 6bcdb63..90c6126 100644
--- a/pydantic_xml/element/element.py
+++ b/pydantic_xml/element/element.py
@@ -375,7 +375,10 @@ class XmlElement(XmlElementReader, XmlElementWriter, Generic[NativeElement]):
         self._state.attrib[name] = value
 
     def set_attributes(self, attributes: Dict[str, str]) -> None:
-        self._state.attrib = dict(attributes)
+        if self._state.attrib is None:
+            self._state.attrib = {}
+
+        self._state.attrib.update(attributes)
 
     def append_element(self, element: 'XmlElement[NativeElement]') -> None:
         self._state.elements.append(element)
-- 
2.43.0


From 223f1841d3e6f91c4f79cd0b3862b0c48c24f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 02/26] fix: resolve inherited namespace prefixes through the
 nearest declaration

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From 219d6a64974427bc7e77b9b704c178201588b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 03/26] fix: do not attribute source lines recorded for one
 model to another one

---
 pydantic_xml/serializers/factories/model.py | 2 ++
 pydantic_xml/utils.py                       | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..ea6cdc6 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,6 +207,7 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        sourcemap = {}  # locations are relative to the model
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
@@ -334,6 +335,7 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        sourcemap, loc = {(): element.get_sourceline()}, ()  # locations are relative to the model
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..90b89ca 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -137,8 +137,8 @@ def set_validation_error_sourceline(
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
-        loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        loc = error['loc']
+        while (sourceline := sourcemap.get(loc, -1)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From 11ab327db96246218994eaf6dfc074514e0dcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:51 +0000
Subject: [PATCH 04/26] fix: encode mapping values the way all other primitive
 values are encoded

---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..e8a57ad 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
+            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
             for attr, enc in encoded.items()
         })
 
-- 
2.43.0


From 621bc3845b5fceea16eb56f9bf98545d84c7d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:51 +0000
Subject: [PATCH 05/26] fix: leave out a None mapping element if none or empty
 entities are excluded

---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8a57ad..9a35389 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From ffe009d8a123eb3629e557cc93623b83376470f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 06/26] fix: pass the module name to the dynamically created
 model

---
 pydantic_xml/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..bdf16b8 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -88,6 +88,9 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
+    if __module__ is not None:
+        kwargs['__module__'] = __module__
+
     model = pd.create_model(__model_name, __base__=model_base, **kwargs)
 
     return typing.cast(Type[Model], model)
-- 
2.43.0


From 7f650bc8e3e3ce6206dc63ba417210c7fb1e1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:47 +0000
Subject: [PATCH 07/26] fix: keep the text around comments and skip processing
 instructions

---
 pydantic_xml/element/native/lxml.py | 24 ++++++++++++++++--------
 pydantic_xml/element/native/std.py  | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..67acadb 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import List, Optional, Union
 
 from lxml import etree
 
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        sub_elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                sub_elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # a comment is not a part of the element content, the text that follows it is
+                if sub_elements:
+                    sub_elements[-1]._state.tail = (sub_elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=sub_elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
@@ -62,4 +70,4 @@ def force_str(val: Union[str, bytes]) -> str:
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return isinstance(element, etree._Comment)
+    return isinstance(element, (etree._Comment, etree._ProcessingInstruction))
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..db08ea9 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        sub_elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                sub_elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # a comment is not a part of the element content, the text that follows it is
+                if sub_elements:
+                    sub_elements[-1]._state.tail = (sub_elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=sub_elements,
         )
 
     def to_native(self) -> ElementT:
@@ -44,4 +52,4 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)
-- 
2.43.0


From b6ecd56286d5d7988c94b8d7a6f0ef1747d2635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 08/26] fix: do not ignore aliases passed to wrapped

---
 pydantic_xml/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..a53a3dd 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,6 +108,10 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
+    if kwargs.get('alias') in (None, pdc.PydanticUndefined):
+        # aliases that are not provided must not be marked as set since they would override the provided ones on merge
+        return kwargs
+
     if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
         kwargs['serialization_alias'] = kwargs.get('alias')
 
@@ -199,6 +203,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From 431dac85d815c5182719211a966ade0787fc95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 09/26] fix: keep computed entity parameters when its decorator
 is applied again

---
 pydantic_xml/fields.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a53a3dd..db0c02d 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -263,12 +263,13 @@ def computed_entity(
         prop: Optional[PropertyT] = None,
         **kwargs: Any,
 ) -> Union[PropertyT, Callable[[PropertyT], PropertyT]]:
-    def decorator(prop: Any) -> Any:
-        path = kwargs.pop('path', None)
-        ns = kwargs.pop('ns', None)
-        nsmap = kwargs.pop('nsmap', None)
-        nillable = kwargs.pop('nillable', None)
+    # entity parameters are extracted only once since the decorator can be applied to several properties
+    path = kwargs.pop('path', None)
+    ns = kwargs.pop('ns', None)
+    nsmap = kwargs.pop('nsmap', None)
+    nillable = kwargs.pop('nillable', None)
 
+    def decorator(prop: Any) -> Any:
         descriptor_proxy = pd.computed_field(**kwargs)(prop)
         descriptor_proxy.decorator_info = ComputedXmlEntityInfo(
             location=location,
-- 
2.43.0


From 9ee585b5fdb7fe17da1181bb9b4b6be997793310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 10/26] fix: recognise field functions in the mypy plugin

---
 pydantic_xml/mypy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..b885fc5 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -5,9 +5,9 @@ from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
-- 
2.43.0


From ae3f6b25eb0f66ecbc855e40217cf4eda84630d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 11/26] fix: take an entity passed to wrapped into account in
 the mypy plugin

---
 pydantic_xml/mypy.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b885fc5..e9fd1ff 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -15,6 +15,19 @@ def plugin(version: str) -> type[Plugin]:
     return PydanticXmlPlugin
 
 
+def get_wrapped_entity(expr: nodes.CallExpr) -> Optional[nodes.Expression]:
+    """
+    Returns an entity passed to the wrapped function if any.
+    """
+
+    if isinstance(expr.callee, nodes.RefExpr) and expr.callee.fullname == WRAPPED_FULLNAME:
+        for idx, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
+            if name == 'entity' or (name is None and idx == 1):
+                return arg
+
+    return None
+
+
 class PydanticXmlPlugin(PydanticPlugin):
     def get_metaclass_hook(self, fullname: str) -> Optional[Callable[[ClassDefContext], None]]:
         if fullname == MODEL_METACLASS_FULLNAME:
@@ -44,6 +57,9 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
                 if name == 'default_factory':
                     return not (isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.None')
 
+            if entity := get_wrapped_entity(expr):
+                return PydanticXmlModelTransformer.get_has_default(nodes.AssignmentStmt(stmt.lvalues, entity))
+
             return False
 
         return PydanticModelTransformer.get_has_default(stmt)
@@ -67,6 +83,9 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
                 else:
                     return None, True
 
+            if entity := get_wrapped_entity(expr):
+                return PydanticXmlModelTransformer.get_alias_info(nodes.AssignmentStmt(stmt.lvalues, entity))
+
         return PydanticModelTransformer.get_alias_info(stmt)
 
     @staticmethod
-- 
2.43.0


From c9ccdaaecbc8c7332d285f0acc13177438a36d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 12/26] fix: make derived class field serializers and
 validators override the inherited ones

---
 pydantic_xml/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index bdf16b8..ef417e3 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -132,7 +132,15 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        skipped_attrs = set(dir(BaseModel))
+        attr_names: Dict[str, None] = {}
+        for base in reversed(cls.__mro__):  # attributes of derived classes go last to override the inherited ones
+            for attr_name in vars(base):
+                if attr_name not in skipped_attrs:
+                    attr_names.pop(attr_name, None)
+                    attr_names[attr_name] = None
+
+        for attr_name in attr_names:
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 482cea45af4fd9296d3e384629c7b5b85f3fb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:15 +0000
Subject: [PATCH 13/26] fix: rebuild models using the caller namespace

---
 pydantic_xml/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index ef417e3..2cbef44 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -251,12 +251,17 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, *, _parent_namespace_depth: int = 2, **kwargs: Any) -> Optional[bool]:
+        if _parent_namespace_depth > 0:
+            _parent_namespace_depth += 1  # forward refs are resolved in the caller namespace not in the current one
+
+        result = super().model_rebuild(_parent_namespace_depth=_parent_namespace_depth, **kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From 19362399fcdbada74d0f25ec1fd1282e65fefa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 14/26] fix: refuse collections of primitive unions without an
 entity name

---
 pydantic_xml/serializers/factories/homogeneous.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index 3d134ed..d7fc249 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -6,6 +6,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors, utils
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.serializers.factories import union
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import EntityLocation, Location
 
@@ -29,6 +30,8 @@ class ElementSerializer(Serializer):
             items_schema = items_schema[0]
 
         inner_serializer = Serializer.parse_core_schema(items_schema, ctx)
+        if ctx.entity_location is None and isinstance(inner_serializer, union.PrimitiveTypeSerializer):
+            raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
         return cls(model_name, computed, inner_serializer, ctx.hide_input_in_errors)
 
-- 
2.43.0


From d8da57224c70408f04bc4e5e384ce18235a67d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:01 +0000
Subject: [PATCH 15/26] fix: don't access deprecated pydantic attributes
 collecting field serializers and validators

---
 pydantic_xml/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2cbef44..d086b52 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -132,11 +132,11 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        skipped_attrs = set(dir(BaseModel))
+        defined_attrs = set(dir(cls)) - set(dir(BaseModel))
         attr_names: Dict[str, None] = {}
         for base in reversed(cls.__mro__):  # attributes of derived classes go last to override the inherited ones
             for attr_name in vars(base):
-                if attr_name not in skipped_attrs:
+                if attr_name in defined_attrs:
                     attr_names.pop(attr_name, None)
                     attr_names[attr_name] = None
 
-- 
2.43.0


From f484f41e07852e4d6cac160d1b531d8d2006fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 16/26] fix: provide source lines for model-level errors and
 errors located by a validation alias

---
 pydantic_xml/serializers/factories/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ea6cdc6..2467795 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,12 +207,13 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
-        sourcemap = {}  # locations are relative to the model
+        sourcemap = {(): element.get_sourceline()}  # locations are relative to the model
+        loc_by_alias = self._model.model_config.get('loc_by_alias', True)
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name) if loc_by_alias else field_name,)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
-- 
2.43.0


From 27f26f9250accde496d354c4b9fd84aecb111e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 17/26] fix: bind the rejected element when all the union
 alternatives fail

---
 pydantic_xml/serializers/factories/union.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..e8266b2 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -5,7 +5,7 @@ from pydantic_core import core_schema as pcs
 
 import pydantic_xml as pxml
 from pydantic_xml import errors, utils
-from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element import XmlElement, XmlElementReader, XmlElementWriter
 from pydantic_xml.serializers.factories.model import ModelProxySerializer
 from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, Serializer
 from pydantic_xml.typedefs import Location
@@ -133,6 +133,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        rejected: Optional[XmlElement[Any]] = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -148,9 +149,10 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                rejected = snapshot if rejected is None else rejected
 
-        if union_errors:
-            element.step_forward()
+        if rejected is not None:
+            element.apply_snapshot(rejected)  # the rejected element is bound too
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From c259d4b5bfff1f96c56aa0abceac2f152cacea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 18/26] fix: keep the comment check of the std backend accepted
 by mypy

---
 pydantic_xml/element/native/std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index db08ea9..433bbed 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -52,4 +52,4 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 
 def is_xml_comment(element: ElementT) -> bool:
-    return element.tag in (etree.Comment, etree.ProcessingInstruction)
+    return element.tag in (etree.Comment, etree.ProcessingInstruction)  # type: ignore[comparison-overlap]
-- 
2.43.0


From 8ff4d06691b1e99acdf5c1b39212386605168a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 19/26] fix: report errors of all union alternatives even if
 they have the same name

---
 pydantic_xml/serializers/factories/heterogeneous.py | 2 +-
 pydantic_xml/serializers/factories/homogeneous.py   | 2 +-
 pydantic_xml/serializers/factories/model.py         | 4 ++--
 pydantic_xml/serializers/factories/union.py         | 6 +++---
 pydantic_xml/utils.py                               | 7 +++----
 5 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/pydantic_xml/serializers/factories/heterogeneous.py b/pydantic_xml/serializers/factories/heterogeneous.py
index 53536ae..e31d05e 100644
--- a/pydantic_xml/serializers/factories/heterogeneous.py
+++ b/pydantic_xml/serializers/factories/heterogeneous.py
@@ -89,7 +89,7 @@ class ElementSerializer(Serializer):
         if item_errors:
             raise utils.into_validation_error(
                 title=self._model_name,
-                errors_map=item_errors,
+                errors=item_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/homogeneous.py b/pydantic_xml/serializers/factories/homogeneous.py
index d7fc249..780ee25 100644
--- a/pydantic_xml/serializers/factories/homogeneous.py
+++ b/pydantic_xml/serializers/factories/homogeneous.py
@@ -100,7 +100,7 @@ class ElementSerializer(Serializer):
         if item_errors:
             raise utils.into_validation_error(
                 title=self._model_name,
-                errors_map=item_errors,
+                errors=item_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 2467795..b376994 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -231,7 +231,7 @@ class ModelSerializer(BaseModelSerializer):
         if field_errors:
             raise utils.into_validation_error(
                 title=self._model.__name__,
-                errors_map=field_errors,
+                errors=field_errors.items(),
                 hide_input=self._hide_input_in_errors,
             )
 
@@ -346,7 +346,7 @@ class RootModelSerializer(BaseModelSerializer):
         except pd.ValidationError as err:
             raise utils.into_validation_error(
                 title=self._model.__name__,
-                errors_map={None: err},
+                errors=[(None, err)],
                 hide_input=self._hide_input_in_errors,
             )
 
diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index e8266b2..b4efb77 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -132,7 +132,7 @@ class ModelSerializer(Serializer):
         if element is None:
             return None
 
-        union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        union_errors: List[Tuple[Union[None, str, int], pd.ValidationError]] = []
         rejected: Optional[XmlElement[Any]] = None
         result: Any = None
         for serializer in self._inner_serializers:
@@ -148,13 +148,13 @@ class ModelSerializer(Serializer):
                     element.apply_snapshot(snapshot)
                     return result
             except pd.ValidationError as e:
-                union_errors[e.title] = e
+                union_errors.append((e.title, e))  # alternatives may have the same name
                 rejected = snapshot if rejected is None else rejected
 
         if rejected is not None:
             element.apply_snapshot(rejected)  # the rejected element is bound too
             raise utils.into_validation_error(
-                title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
+                title=self._model_name, errors=union_errors, hide_input=self._hide_input_in_errors,
             )
 
         return result
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index 90b89ca..7f8bc2e 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -2,7 +2,7 @@ import dataclasses as dc
 import itertools as it
 import re
 from collections import ChainMap
-from typing import Dict, Iterable, List, Optional, Union, cast
+from typing import Dict, Iterable, List, Optional, Tuple, Union, cast
 
 import pydantic as pd
 import pydantic_core as pdc
@@ -107,12 +107,11 @@ def select_ns(*nss: Optional[str]) -> Optional[str]:
 
 def into_validation_error(
         title: str,
-        errors_map: Dict[Union[None, str, int], pd.ValidationError],
+        errors: Iterable[Tuple[Union[None, str, int], pd.ValidationError]],
         hide_input: bool,
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
-    for location in list(errors_map):
-        validation_error = errors_map.pop(location)
+    for location, validation_error in errors:
         for error in validation_error.errors():
             line_errors.append(
                 pdc.InitErrorDetails(
-- 
2.43.0


From 155cc4990dbe848fe07469ced045ed5d9dba7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 20/26] fix: create_model dropped the class keyword arguments
 given by the caller

---
 pydantic_xml/model.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index d086b52..a79b598 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -63,15 +63,19 @@ def create_model(
     :return: created model
     """
 
-    cls_kwargs = kwargs.setdefault('__cls_kwargs__', {})
-    cls_kwargs['metaclass'] = XmlModelMeta
-
-    cls_kwargs['tag'] = __tag__
-    cls_kwargs['ns'] = __ns__
-    cls_kwargs['nsmap'] = __nsmap__
-    cls_kwargs['ns_attrs'] = __ns_attrs__
-    cls_kwargs['skip_empty'] = __skip_empty__
-    cls_kwargs['search_mode'] = __search_mode__
+    cls_kwargs = dict(kwargs.get('__cls_kwargs__') or {})  # the caller's arguments must not be changed
+    cls_kwargs.setdefault('metaclass', XmlModelMeta)
+
+    xml_kwargs = {
+        'tag': __tag__,
+        'ns': __ns__,
+        'nsmap': __nsmap__,
+        'ns_attrs': __ns_attrs__,
+        'skip_empty': __skip_empty__,
+        'search_mode': __search_mode__,
+    }
+    cls_kwargs.update((key, value) for key, value in xml_kwargs.items() if value is not None)
+    kwargs['__cls_kwargs__'] = cls_kwargs
 
     model_base: Union[Type[BaseModel], Tuple[Type[BaseModel], ...]] = __base__ or BaseXmlModel
 
-- 
2.43.0


From a383de2f9a99e35ffde644711e505c2913ab0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 21/26] fix: don't build root model serializers until all the
 generic parameters are provided

---
 pydantic_xml/model.py |  2 +-
 pydantic_xml/utils.py | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index a79b598..ccbab0b 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -223,7 +223,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         # checks that all generic parameters are provided
         if cls.__pydantic_root_model__:
             if cls.__pydantic_generic_metadata__['parameters']:
-                if cls.model_fields.get('root') is None or isinstance(cls.model_fields['root'].annotation, TypeVar):
+                if cls.model_fields.get('root') is None or utils.has_type_vars(cls.model_fields['root'].annotation):
                     cls.__xml_serializer__ = None
                     return
         else:
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index 7f8bc2e..d95a23b 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -2,7 +2,7 @@ import dataclasses as dc
 import itertools as it
 import re
 from collections import ChainMap
-from typing import Dict, Iterable, List, Optional, Tuple, Union, cast
+from typing import Any, Dict, Iterable, List, Optional, Tuple, TypeVar, Union, cast, get_args
 
 import pydantic as pd
 import pydantic_core as pdc
@@ -157,3 +157,13 @@ def set_validation_error_sourceline(
         line_errors=line_errors,
         hide_input=hide_input,
     )
+
+
+def has_type_vars(annotation: Any) -> bool:
+    """
+    Checks whether the annotation contains unresolved type variables.
+
+    :param annotation: type annotation
+    """
+
+    return isinstance(annotation, TypeVar) or any(has_type_vars(arg) for arg in get_args(annotation))
-- 
2.43.0


From 9026ef60d498731e35fab3f5f3e8b931f1c2b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 22/26] fix: take validation aliases into account in the mypy
 plugin

---
 pydantic_xml/mypy.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index e9fd1ff..a1fb20d 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -75,13 +75,14 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
-                if arg_name != 'alias':
-                    continue
-                if isinstance(arg, nodes.StrExpr):
-                    return arg.value, False
-                else:
-                    return None, True
+            for alias_name in ('validation_alias', 'alias'):
+                for arg, arg_name in zip(expr.args, expr.arg_names):
+                    if arg_name != alias_name:
+                        continue
+                    if isinstance(arg, nodes.StrExpr):
+                        return arg.value, False
+                    else:
+                        return None, True
 
             if entity := get_wrapped_entity(expr):
                 return PydanticXmlModelTransformer.get_alias_info(nodes.AssignmentStmt(stmt.lvalues, entity))
-- 
2.43.0


From f7b4642f0f953a4d3bb4f10343cca6553f9c368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 23/26] fix: take strictness and frozenness of a wrapped entity
 into account in the mypy plugin

---
 pydantic_xml/mypy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a1fb20d..b6f7a84 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -107,6 +107,9 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
                         return False
                 return None
 
+            if entity := get_wrapped_entity(expr):
+                return PydanticXmlModelTransformer.get_strict(nodes.AssignmentStmt(stmt.lvalues, entity))
+
         return PydanticModelTransformer.get_strict(stmt)
 
     @staticmethod
@@ -127,4 +130,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
                 arg = expr.args[i]
                 return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
+        if entity := get_wrapped_entity(expr):
+            return PydanticXmlModelTransformer.is_field_frozen(nodes.AssignmentStmt(stmt.lvalues, entity))
+
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 76c9dd5131642a3d94b3a7ac5d294ec72f4b00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 24/26] fix: recognise frozen pydantic fields of xml models in
 the mypy plugin

---
 pydantic_xml/mypy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b6f7a84..6cc7024 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -123,7 +123,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            return False
+            return PydanticModelTransformer.is_field_frozen(stmt)
 
         for i, arg_name in enumerate(expr.arg_names):
             if arg_name == 'frozen':
-- 
2.43.0


From 4b7d26bed49a46be949dd5ca5d66c3e4ed17f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:08 +0000
Subject: [PATCH 25/26] fix: let type checkers accept the positional argument
 of root models

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index ccbab0b..a6a8118 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -371,7 +371,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         )
 
 
-@te.dataclass_transform(kw_only_default=True, field_specifiers=(attr, element, wrapped, pd.Field))
+@te.dataclass_transform(kw_only_default=False, field_specifiers=(attr, element, wrapped, pd.Field))
 class RootXmlModelMeta(XmlModelMeta, RootModelMetaclass):
     pass
 
-- 
2.43.0


From b256b50a92154315701bc57e0b002b79a5d7774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 26/26] fix: don't take wrapped entity None for a default in
 the mypy plugin

---
 pydantic_xml/mypy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index 6cc7024..8539cfc 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -23,7 +23,8 @@ def get_wrapped_entity(expr: nodes.CallExpr) -> Optional[nodes.Expression]:
     if isinstance(expr.callee, nodes.RefExpr) and expr.callee.fullname == WRAPPED_FULLNAME:
         for idx, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
             if name == 'entity' or (name is None and idx == 1):
-                return arg
+                is_none = isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.None'
+                return arg if not is_none else None
 
     return None
 
-- 
2.43.0

