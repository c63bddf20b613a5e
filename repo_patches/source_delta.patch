From 2dcfeed8c7dae3da89ecc068e21ec4568dd86eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 001/119] fix: Ty.insert at a negative index dropped an atomic
 type

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..a8d81b0 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -257,7 +257,7 @@ class Ty(Entity):
                 return other @ self
             elif index == len(self):
                 return self @ other
-            objects = self.objects.copy()
+            objects = [*self]
             objects = objects[:index] + [*other] + objects[index:]
             return self._fromiter(objects)
 
-- 
2.43.0


From 031c377c23e20f040d667f254589f632f634fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 002/119] fix: Diagram.tensor() and spiders on the empty type
 raised TypeError

---
 lambeq/backend/grammar.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index a8d81b0..9b6f7da 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -967,9 +967,7 @@ class Diagram(Entity):
         except ValueError:
             return NotImplemented   # type: ignore[no-any-return]
 
-        right = dom = self.dom.tensor(*[
-            diagram.to_diagram().dom for diagram in diagrams
-        ])
+        right = dom = self.dom.tensor([diag.dom for diag in diags[1:]])
         left = self.category.Ty()
         layers = []
         for diagram in diags:
-- 
2.43.0


From 5077a4dd0f5e3f16e2e53a346a1d146094f1a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 003/119] fix: partial reversed slices of a diagram had the
 wrong domain and codomain

---
 lambeq/backend/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 9b6f7da..530b42a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -998,7 +998,9 @@ class Diagram(Entity):
         if isinstance(key, slice):
             if key.step == -1:
                 layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if not layers:
+                    return self.id(self.cod)
+                return type(self)(layers[0].dom, layers[-1].cod, layers)
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From 195f6ea7ea1a96911661db9cc5eb14f89403996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 004/119] fix: reversed cups and caps of compound types were
 refused

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 530b42a..4382173 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1462,7 +1462,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1589,7 +1589,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
-- 
2.43.0


From 61f1aa0df08517b685467f1ecbebb106eea13dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 005/119] fix: an ill-defined functor was only refused on its
 first application

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 4382173..8e84053 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2079,8 +2079,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2088,6 +2086,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From f0cbfa2f34dce1f8e42e1d439d4c5d96df0a707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 006/119] fix: circuits differing only in control distance were
 conflated by functor and model caches

---
 lambeq/backend/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..38005a3 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -947,8 +947,12 @@ class Controlled(Parametrized):
                          controlled.data,
                          controlled.is_mixed)
 
+    def __repr__(self) -> str:
+        return (f'[C({self.distance}){repr(self.controlled)}; '
+                f'{repr(self.dom)} -> {repr(self.cod)}]')
+
     def __hash__(self) -> int:
-        return hash((self.controlled, self.distance))
+        return hash(repr(self))
 
     def __setattr__(self, __name: str, __value: Any) -> None:
         if __name == 'data':
-- 
2.43.0


From fcc3e7a13f924a7dbe39520f8dc81464d9307c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 007/119] fix: decoding JSON data destroyed the dictionary
 passed in

---
 lambeq/backend/grammar.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 8e84053..8553568 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -96,7 +96,7 @@ class Category:
             a :py:class:`~lambeq.backend.Box` subclass,
             or a :py:class:`~lambeq.backend.Diagram` instance.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _entity_mapping = {
             'Cap': Cap,
             'Cup': Cup,
@@ -365,7 +365,7 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +540,7 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +647,7 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1336,7 +1336,7 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1507,7 +1507,7 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1637,7 +1637,7 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1694,7 +1694,7 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.Box.from_json(data_dict['box'])
 
@@ -1797,7 +1797,7 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1890,7 +1890,7 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1951,7 +1951,7 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2187,7 +2187,7 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2273,7 +2273,7 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From 6b4842baff80f92988e6fe55125eedb7ba09aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 008/119] fix: daggered words could not be decoded from JSON

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 8553568..34d91aa 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1696,7 +1696,7 @@ class Daggered(Box):
     def from_json(cls, data: _JSONDictT | str) -> Self:
         data_dict = json.loads(data) if isinstance(data, str) else {**data}
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
-- 
2.43.0


From d8cb83446a7033f5f0f15e0bfd412caae82a83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 009/119] fix: frames holding boxes, words or daggers could not
 be decoded from JSON

---
 lambeq/backend/grammar.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 34d91aa..1e5268f 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2191,21 +2191,10 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [
+            cls.category.from_json(component_json)
+            for component_json in data_dict['components']
+        ]
 
         return cls(**data_dict)
 
-- 
2.43.0


From 1a406161d5ba5e178c8600cd65b14eea17bf8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 010/119] fix: frames: nesting order, repeated rotation and
 functors on daggered frames

---
 lambeq/backend/grammar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 1e5268f..3284844 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2156,7 +2156,7 @@ class Frame(Box):
                        cod=self.cod.rotate(z),
                        z=self.z + z,
                        components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                                   self.components[::-1 if z % 2 else 1]])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
@@ -2173,9 +2173,11 @@ class Frame(Box):
     def frame_order(self):
         """The level of nesting in the frame increasing from the inside
         going outward."""
-        component_frame_orders = [c.frame_order if isinstance(c, Frame) else 0
-                                  for c in self.components]
-        return max(component_frame_orders) + 1
+        return 1 + max((box.frame_order
+                        for component in self.components
+                        for box in component.to_diagram().boxes
+                        if isinstance(box, Frame)),
+                       default=0)
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
@@ -2257,6 +2259,9 @@ class DaggeredFrame(Frame):
     def dagger(self) -> Frame:
         return self.frame
 
+    def apply_functor(self, functor: Functor) -> Diagrammable:
+        return functor(self.frame).dagger()
+
     def __hash__(self) -> int:
         return hash(repr(self))
 
-- 
2.43.0


From 90d490e417ecc284e6777a66115e6bcee836711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 011/119] fix: snake removal straightened caps and cups whose
 outer wires differ in type

---
 lambeq/backend/snake_removal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..6bfc434 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -113,7 +113,13 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
                                 or (left_snake
                                     and diagram.offsets[cup] + 1 != wire)
                                 or (not left_snake
-                                    and diagram.offsets[cup] != wire))
+                                    and diagram.offsets[cup] != wire)
+                                or (left_snake
+                                    and diagram.boxes[cup].left
+                                    != diagram.boxes[cap].right)
+                                or (not left_snake
+                                    and diagram.boxes[cup].right
+                                    != diagram.boxes[cap].left))
                 if not_yankable:
                     continue
                 return cup, cap, obstructions, left_snake
-- 
2.43.0


From 73ff250d57e3709fea86ab5e2fab1af3a650aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 012/119] fix: pregroup_normal_form failed on diagrams with a
 domain

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 3284844..62a7bc7 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1190,7 +1190,7 @@ class Diagram(Entity):
         is_pregroup = is_pregroup and all(
             isinstance(box, (Cup, Cap, Swap)) for box in wires.boxes)
 
-        if not is_pregroup or not words.cod:
+        if self.dom or not is_pregroup or not words.cod:
             return self.normal_form()
 
         return words.normal_form() >> wires.normal_form()
-- 
2.43.0


From 643faf051c8e86825a9807230701e8b11bdd2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 013/119] fix: planar generalised crossed composition dropped a
 constituent; unary swaps typed backwards

---
 lambeq/text2diagram/ccg_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..74df26a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -392,11 +392,11 @@ class CCGTree:
                 #  Ty() << (Ty() << Y)       -> Y.l.l
                 # (Ty() << (Ty() << Y)) >> X -> Y.l.l.r @ X = Y.l @ X
                 other_direction = '\\' if output.direction == '/' else '/'
-                resolved_dom = (output.argument.slash(
+                resolved_dom = (output.result.slash(
                     other_direction,
                     CCGType().slash(
                         output.direction,
-                        CCGType().slash(output.direction, output.result)
+                        CCGType().slash(output.direction, output.argument)
                     )
                 ),)
             else:
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From da83176e9e25409a7e39484204e7c4dd61848a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 014/119] fix: changing the type of a type-raised functor left
 its consumed type behind

---
 lambeq/text2diagram/ccg_tree.py | 55 ++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 74df26a..d2b27e4 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -362,9 +362,9 @@ class CCGTree:
         - unary rules that involve a swap in the direction of the type
         are not changed.
         - conjunctions are replaced by applications.
-        - one other special case: rewriting the type of a forward
-        composition which has a type-raising child requires special
-        handling to ensure that the composed (middle) type is correct.
+        - one other special case: rewriting the type of a rule whose
+        functor is a type-raising child requires special handling to
+        ensure that the consumed (middle) type is correct.
 
         Resolution starts from the root of the tree, and then rewritten
         types are propagated towards the leaves by recursive calls with
@@ -401,17 +401,12 @@ class CCGTree:
                 ),)
             else:
                 return self.child._resolved(output)
-        elif (rule == CCGRule.FORWARD_COMPOSITION
-                and self.left.rule == CCGRule.FORWARD_TYPE_RAISING):
-            left = output.left
-            right = output.right
-            mid = self.left.biclosed_type.right.left >> left
-
-            resolved_dom = rule.resolve((left << mid, mid << right), output)
         else:
             child_types = [child.biclosed_type
                            for child in self.children]
-            resolved_dom = rule.resolve(child_types, output)
+            resolved_dom = self._resolve_type_raising(
+                rule.resolve(child_types, output)
+            )
 
             if rule == CCGRule.CONJUNCTION:
                 if self.children[0].biclosed_type.is_conjoinable:
@@ -428,6 +423,44 @@ class CCGTree:
         else:
             return CCGTree(rule=rule, biclosed_type=output, children=children)
 
+    def _resolve_type_raising(
+            self, resolved_dom: tuple[CCGType, ...]) -> tuple[CCGType, ...]:
+        """Fix the resolved domain of a rule with a type-raised functor.
+
+        The result of a type-raised type `T/(T\\X)` occurs twice in it,
+        so when it is resolved to a different type, the type that is
+        consumed (`T\\X`) has to change too, in both children.
+
+        """
+        if (self.rule in (CCGRule.FORWARD_APPLICATION,
+                          CCGRule.FORWARD_COMPOSITION,
+                          CCGRule.FORWARD_CROSSED_COMPOSITION,
+                          CCGRule.GENERALIZED_FORWARD_COMPOSITION,
+                          CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION)
+                and self.left.rule == CCGRule.FORWARD_TYPE_RAISING):
+            functor, arg = resolved_dom
+        elif (self.rule in (CCGRule.BACKWARD_APPLICATION,
+                            CCGRule.BACKWARD_COMPOSITION,
+                            CCGRule.BACKWARD_CROSSED_COMPOSITION,
+                            CCGRule.GENERALIZED_BACKWARD_COMPOSITION,
+                            CCGRule.GENERALIZED_BACKWARD_CROSSED_COMPOSITION)
+                and self.right.rule == CCGRule.BACKWARD_TYPE_RAISING):
+            arg, functor = resolved_dom
+        else:
+            return resolved_dom
+
+        mid = functor.argument
+        new_mid = functor.result.slash(mid.direction, mid.argument)
+        if new_mid == mid:
+            return resolved_dom
+
+        functor = functor.result.slash(functor.direction, new_mid)
+        if arg == mid:
+            arg = new_mid
+        else:
+            arg, _ = arg.replace_result(mid, new_mid)
+        return (functor, arg) if functor.is_over else (arg, functor)
+
     def to_diagram(self,
                    planar: bool = False,
                    collapse_noun_phrases: bool = True) -> Diagram:
-- 
2.43.0


From 0450f56b3f594c7f1d250decc3a5b462b4acbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 015/119] fix: malformed bracketed CCG categories raised
 AssertionError

---
 lambeq/text2diagram/ccg_type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 1f6b35e..50606b3 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -382,7 +382,11 @@ class CCGType:
                     cat,
                     f'input ended with unmatched "(" at index {start}'
                 )
-            assert cat[end] == ')'
+            if cat[end] != ')':
+                raise CCGParseError(
+                    cat,
+                    f'expected ")" at index {end}, got {repr(cat[end])}'
+                )
             end += 1
 
         return biclosed_type, end
-- 
2.43.0


From d334f2c4812e6af7ece6a8c1e6f0928b2ed0885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 016/119] fix: replacing inside a CCG category with an empty
 part raised AttributeError

---
 lambeq/text2diagram/ccg_type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 50606b3..dca4543 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -396,7 +396,7 @@ class CCGType:
 
         if self == original:
             return replacement
-        elif self.is_atomic:
+        elif not self.is_complex:
             return self
         else:
             new_result = self.result.replace(original, replacement)
@@ -491,7 +491,7 @@ class CCGType:
         """
         if not (len(direction) in (1, 2) and set(direction).issubset(r'\|/')):
             raise ValueError(f'Invalid direction: `{direction}`')
-        if self.is_atomic:
+        if not self.is_complex:
             return self, None
 
         # `replace` indicates whether `self.result` should be replaced,
@@ -500,7 +500,7 @@ class CCGType:
         # - `self.result` is an atomic type
         # - `self.direction` does not match the required operation
         # - attempting to replace any inner category fails
-        replace = self.result == original or self.result.is_atomic
+        replace = self.result == original or not self.result.is_complex
         if not replace:
             if self.direction != direction[-1] != '|':
                 replace = True
-- 
2.43.0


From 0644d31e64cdbe17ec47dc5e2c5df4c646336d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 017/119] fix: match words of simple rewrite rules
 case-insensitively

---
 lambeq/rewrite/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..9f5790b 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -169,9 +169,17 @@ class SimpleRewriteRule(RewriteRule):
         self.case_sensitive = case_sensitive
 
     def matches(self, box: Box) -> bool:
-        word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        return (box.cod == self.cod
+                and (self.words is None or self._matches_word(box.name)))
+
+    def _matches_word(self, word: str) -> bool:
+        assert self.words is not None
+        if self.case_sensitive:
+            return word in self.words
+        word = word.lower()
+        return (word in self.words
+                or (isinstance(self.words, Iterable)
+                    and any(word == w.lower() for w in self.words)))
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
-- 
2.43.0


From 05826259f0d85d82fda8e0907af4c30b8b82403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 018/119] fix: do not match boxes with inputs in state rewrite
 rules

---
 lambeq/rewrite/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 9f5790b..2a663b9 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -170,6 +170,7 @@ class SimpleRewriteRule(RewriteRule):
 
     def matches(self, box: Box) -> bool:
         return (box.cod == self.cod
+                and box.dom == self.template.dom
                 and (self.words is None or self._matches_word(box.name)))
 
     def _matches_word(self, word: str) -> bool:
@@ -278,7 +279,8 @@ class CoordinationRewriteRule(RewriteRule):
         self.words = ['and'] if words is None else words
 
     def matches(self, box: Box) -> bool:
-        if box.name in self.words and len(box.cod) % 3 == 0:
+        if (box.name in self.words
+                and not box.dom and len(box.cod) % 3 == 0):
             n = len(box.cod) // 3
             left, mid, right = box.cod[:n], box.cod[n:2*n], box.cod[2*n:]
             return bool(right.r == mid == left.l)
-- 
2.43.0


From 8998c949cb51a16c9ba44939a6b901f801716149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 019/119] fix: apply rules added to a rewriter after its first
 use

---
 lambeq/rewrite/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2a663b9..7b0cd1d 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -412,6 +412,10 @@ class Rewriter:
         else:
             self.rules = []
             self.add_rules(*rules)
+        self._reset_functor()
+
+    def _reset_functor(self) -> None:
+        """Create a functor free of images cached for earlier rules."""
         self.apply_rewrites = Functor(target_category=grammar,
                                       ob=self._ob,
                                       ar=self._ar)
@@ -433,6 +437,7 @@ class Rewriter:
                     raise ValueError(
                         f'`{rule}` is not a valid rewrite rule.'
                     ) from e
+        self._reset_functor()
 
     def __call__(self, diagram: Diagram) -> Diagram:
         """Apply the rewrite rules to the given diagram."""
-- 
2.43.0


From f4ffd3820a7c08a6f1c7ad6b12b6c4716f01a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 020/119] fix: contract only the state that a cup actually
 consumes when removing cups

---
 lambeq/rewrite/rewrite_diagram.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..0e0f0c8 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -164,12 +164,14 @@ class RemoveCupsRewriter(DiagramRewriter):
                     # contract greedily, else combine
                     pg_len = len(box.dom) // 2
                     pg_type1, pg_type2 = box.dom[:pg_len], box.dom[pg_len:]
-                    if len(left.cod) == pg_len and not left.dom:
+                    if (off == 0
+                            and len(left.cod) == pg_len and not left.dom):
                         if pg_type1.r == pg_type2:
                             new_diag = right >> (left.dagger().r @ wires_r)
                         else:  # illegal cup
                             new_diag = right >> (left.dagger().l @ wires_r)
-                    elif len(right.cod) == pg_len and not right.dom:
+                    elif (len(left.cod) == off + pg_len
+                            and len(right.cod) == pg_len and not right.dom):
                         if pg_type1.r == pg_type2:
                             new_diag = left >> (wires_l @ right.dagger().l)
                         else:
-- 
2.43.0


From 6f8b33c7ed904389f3dad193f7f9b9ba3e40bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 021/119] fix: do not compress legal and illegal cups into one
 when removing cups

---
 lambeq/rewrite/rewrite_diagram.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 0e0f0c8..54508fb 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -125,6 +125,11 @@ class RemoveCupsRewriter(DiagramRewriter):
                           and offset == layers[-1][1] - 1)
             if nested_cup:
                 dom = box.dom[:1] @ layers[-1][0].dom @ box.dom[1:]
+                mid = len(dom) // 2
+                # legal and illegal cups cannot be contracted together
+                nested_cup = dom[mid:] in (dom[:mid].l, dom[:mid].r)
+
+            if nested_cup:
                 layers[-1] = (Box(CUP_TOKEN, dom, Ty()), offset)
             else:
                 layers.append((box, offset))
-- 
2.43.0


From 10e1b5a2dee5d4f7353dd82943de48329e21d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 022/119] fix: track wires instead of stale offsets when
 removing detached cups

---
 lambeq/rewrite/rewrite_diagram.py | 120 ++++++++++--------------------
 1 file changed, 40 insertions(+), 80 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 54508fb..666c7c3 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -276,25 +276,6 @@ class RemoveSwapsRewriter(DiagramRewriter):
 
     """
 
-    @dataclass
-    class _Word:
-        """Helper class for
-        :py:method:`RemoveSwapsRewriter._remove_detached_cups`
-        method."""
-        word: Word
-        offset: int
-
-    @dataclass
-    class _Morphism:
-        """Helper class for
-        :py:method:`RemoveSwapsRewriter._remove_detached_cups`
-        method."""
-        morphism: Box
-        start: int
-        end: int
-        offset: int
-        deleted: bool = False
-
     def matches(self, diagram: Diagram) -> bool:
         if not diagram.is_pregroup:
             try:
@@ -314,80 +295,59 @@ class RemoveSwapsRewriter(DiagramRewriter):
         if not diagram.is_pregroup:
             raise ValueError('Not a valid pregroup diagram.')
 
-        atomic_types = [ob for b in diagram.boxes
-                        for ob in b.cod if isinstance(b, Word)]
+        # Find the word that each wire comes from, and the wires that
+        # each cup joins
+        words = [box for box in diagram.boxes if isinstance(box, Word)]
+        atomic_types = [ob for word in words for ob in word.cod]
+        owner = [i for i, word in enumerate(words) for _ in word.cod]
         scan = list(range(len(atomic_types)))
-
-        # Create lists with offset info for words and morphisms
-        words: list[RemoveSwapsRewriter._Word] = []
-        morphisms: list[RemoveSwapsRewriter._Morphism] = []
+        cups: list[tuple[Box, int, int]] = []
         for box, offset in zip(diagram.boxes, diagram.offsets):
-            if isinstance(box, Word):
-                words.append(self._Word(box, offset))
-            else:
-                start = scan[offset]
-                end = scan[offset + len(box.dom) - 1]
-                if isinstance(box, Cup):
-                    del scan[offset : offset + len(box.dom)]
-                morphisms.append(self._Morphism(box, start, end, offset))
+            if isinstance(box, Cup):
+                start, end = scan[offset : offset + 2]
+                del scan[offset : offset + 2]
+                cups.append((box, start, end))
+
+        # Remove the wires that a cup joins within a single word
+        detached = {wire for _, start, end in cups for wire in (start, end)
+                    if owner[start] == owner[end]}
 
-        # Scan each word for detached cups
         new_words: list[Word] = []
-        for w_idx, wrd in enumerate(words):
-            rng = range(wrd.offset, wrd.offset + len(wrd.word.cod))
-            scan = list(rng)
-            for mor in morphisms:
-                if (isinstance(mor.morphism, Cup) and mor.start in rng
-                        and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
-                    mor.deleted = True
-
-            if len(scan) == len(rng):
-                # word type hasn't changed
-                new_words.append(wrd.word)
-            elif len(scan) > 0:
-                # word type has been reduced in length
-                typ = Ty().tensor(*[atomic_types[i] for i in scan])
-                new_words.append(Word(wrd.word.name, typ))
+        prefix = ''
+        for i, word in enumerate(words):
+            wires = [j for j, own in enumerate(owner) if own == i]
+            kept = [j for j in wires if j not in detached]
+            name = prefix + word.name
+            if kept or not wires:
+                typ = Ty().tensor(*[atomic_types[j] for j in kept])
+                new_words.append(Word(name, typ))
+                prefix = ''
             else:
                 # word type has been eliminated, merge word label
                 # with next one
-                next_wrd = words[w_idx + 1]
-                new_wrd = Word(f'{wrd.word.name} {next_wrd.word.name}',
-                               next_wrd.word.cod)
-                next_wrd.word = new_wrd
-
-        # Compute new word offsets
-        total_ofs = 0
-        wrd_offsets = []
-        for w in new_words:
-            wrd_offsets.append(total_ofs)
-            total_ofs += len(w.cod)
-
-        # Create new morphism and offset lists
-        new_morphisms: list[Box] = []
-        mor_offsets: list[int] = []
-        for m_idx, m in enumerate(morphisms):
-            if not m.deleted:
-                # morphism is not deleted, add it with its offset
-                new_morphisms.append(m.morphism)
-                mor_offsets.append(m.offset)
-            else:
-                # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
+                prefix = f'{name} '
+        if prefix:
+            # no next word, merge with the last one left
+            last = new_words.pop() if new_words else Word('', Ty())
+            new_words.append(Word(f'{last.name} {prefix}'.strip(), last.cod))
 
         new_diag = Id(diagram.dom)
-        for box, offset in zip(new_words+new_morphisms,
-                               wrd_offsets+mor_offsets):
-            new_diag = new_diag.then_at(box, offset)
+        for word in new_words:
+            new_diag @= word
+
+        scan = [j for j in range(len(atomic_types)) if j not in detached]
+        for box, start, end in cups:
+            if start not in detached:
+                offset = scan.index(start)
+                new_diag = new_diag.then_at(box, offset)
+                del scan[offset : offset + 2]
 
         return new_diag
 
     def rewrite(self, diagram: Diagram) -> Diagram:
+        if not diagram.is_pregroup:
+            raise ValueError('Not a valid pregroup diagram.')
+
         atomic_types = [ob for b in diagram.boxes
                         for ob in b.cod if isinstance(b, Word)]
         scan = list(range(len(atomic_types)))
-- 
2.43.0


From c5d68f23113d5f57aa57694b37f0d4031443e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 023/119] fix: CCGBankParser: do not return a tree for a
 sentence with trailing text when errors are suppressed

---
 lambeq/text2diagram/ccgbank_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..96a6b05 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -376,10 +376,11 @@ class CCGBankParser(CCGParser):
             assert isinstance(sentence, str)
             tree = None
             try:
-                tree, pos = CCGBankParser._build_ccgtree(sentence, 0)
+                parsed, pos = CCGBankParser._build_ccgtree(sentence, 0)
                 if pos < len(sentence):
                     raise CCGBankParseError(f'extra text from index {pos+1} - '
                                             f'{repr(sentence[pos:])}')
+                tree = parsed
             except Exception as e:
                 if not suppress_exceptions:
                     raise CCGBankParseError(sentence, str(e)) from e
-- 
2.43.0


From fc71088b8ebe61b430e1fb2a263c58fc125198fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 024/119] fix: CCGBankParser: an entry without a tree no longer
 takes down its neighbours

---
 lambeq/text2diagram/ccgbank_parser.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index 96a6b05..1beba60 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -197,19 +197,25 @@ class CCGBankParser(CCGParser):
             with open(file) as f:
                 if verbose == VerbosityLevel.TEXT.value:
                     print(f'Parsing `{file}`', file=sys.stderr)
-                line_no = 0
-                for line in tqdm(
-                        f,
-                        desc=f'Parsing `{file}`',
-                        leave=False,
-                        disable=verbose != VerbosityLevel.PROGRESS.value):
-                    line_no += 1
+                lines = iter(tqdm(
+                    f,
+                    desc=f'Parsing `{file}`',
+                    leave=False,
+                    disable=verbose != VerbosityLevel.PROGRESS.value))
+                line_no = 1
+                line = next(lines, None)
+                while line is not None:
                     match = self.id_regex.fullmatch(line)
                     if match:
                         line_no += 1
+                        line = next(lines, None)
+                        has_tree = not (line is None
+                                        or self.id_regex.fullmatch(line))
                         tree = None
                         try:
-                            tree = self.sentence2tree(next(f).strip())
+                            if not has_tree:
+                                raise CCGBankParseError('missing tree')
+                            tree = self.sentence2tree(line.strip())
                         except CCGBankParseError as e:
                             if not suppress_exceptions:
                                 raise CCGBankParseError(
@@ -217,9 +223,13 @@ class CCGBankParser(CCGParser):
                                     f'line {line_no}: {e.message}'
                                 ) from e
                         yield match['id'], tree
+                        if not has_tree:
+                            continue
                     elif not suppress_exceptions:
                         raise CCGBankParseError('Failed to parse ID in '
                                                 f'`{file}` line {line_no}')
+                    line_no += 1
+                    line = next(lines, None)
 
     def section2diagrams(
         self,
-- 
2.43.0


From 661a6d88defe4addb7eccce94f5914372bfc06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 025/119] fix: CCGBankParser: undecodable bytes only fail their
 own entry

---
 lambeq/text2diagram/ccgbank_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index 1beba60..addf937 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -194,7 +194,7 @@ class CCGBankParser(CCGParser):
                              'CCGBankParser.')
         path = self.root / 'data' / 'AUTO' / f'{section_id:02}'
         for file in sorted(path.iterdir()):
-            with open(file) as f:
+            with open(file, encoding='utf-8', errors='surrogateescape') as f:
                 if verbose == VerbosityLevel.TEXT.value:
                     print(f'Parsing `{file}`', file=sys.stderr)
                 lines = iter(tqdm(
@@ -215,6 +215,11 @@ class CCGBankParser(CCGParser):
                         try:
                             if not has_tree:
                                 raise CCGBankParseError('missing tree')
+                            try:
+                                line.encode('utf-8')
+                            except UnicodeEncodeError as e:
+                                raise CCGBankParseError(
+                                    'invalid UTF-8') from e
                             tree = self.sentence2tree(line.strip())
                         except CCGBankParseError as e:
                             if not suppress_exceptions:
-- 
2.43.0


From 982612c73aac5e0596387935d91de48d3c582f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 026/119] fix: tree2diagram: only swap neighbouring wires when
 a cup crosses several others

---
 .../text2diagram/pregroup_tree_converter.py   | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 4e56ff9..7341398 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -823,10 +823,8 @@ def tree2diagram(
             morphisms.append(('Cup', sn, en))
 
     morphisms = sorted(morphisms, key=lambda t: abs(t[1] - t[2]) - 1)
-    free_wires_morphisms_inds = {}
     for free_wire in free_wires:
         morphisms.append(('Free', free_wire, free_wire))
-        free_wires_morphisms_inds[free_wire] = len(morphisms) - 1
 
     # Build words
     word_boxes = []
@@ -843,36 +841,38 @@ def tree2diagram(
     for i in range(n_morphisms):
         m_t, m_l, m_r = morphisms[i]
         swaps = []
-        for j in range(i + 1, n_morphisms):
-            o_t, o_l, o_r = morphisms[j]
-            if o_l == o_r and m_l < o_l < m_r:
-                # o_l == o_r indicates a free string
-                swaps.append(('Swap', m_l, o_l))
-                morphisms[j] = (o_t, m_l, m_l)
-                m_l = o_l
-            if o_l != o_r:
-                # Always introduce swaps with the free wires
-                # if they are in between wires that will get swapped
-                if o_l < m_l < o_r < m_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if m_l < free_wire < o_r:
-                            swaps.append(('Swap', m_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', m_l, m_l)
-                            m_l = free_wire
-                    swaps.append(('Swap', m_l, o_r))
-                    morphisms[j] = (o_t, o_l, m_l)
-                    m_l = o_r
-                elif m_l < o_l < m_r < o_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if o_l < free_wire < m_r:
-                            swaps.append(('Swap', o_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', o_l, o_l)
-                            o_l = free_wire
-                    swaps.append(('Swap', o_l, m_r))
-                    morphisms[j] = (o_t, m_r, o_r)
-                    m_r = o_l
+        while True:
+            # The wires that are still between the ends of this cup, from
+            # left to right: the ends of longer cups, and the free wires
+            between = sorted(
+                (end, j) for j in range(i + 1, n_morphisms)
+                for end in set(morphisms[j][1:]) if m_l < end < m_r
+            )
+            if not between:
+                break
+
+            # Only neighbouring wires can be swapped. The left end of
+            # this cup moves past the first wire between its ends,
+            # unless that wire goes to the right, and its right end past
+            # the last one, provided that wire goes to the right.
+            (first, first_j), (last, last_j) = between[0], between[-1]
+            to_right = [morphisms[j][2] > m_r for _, j in between]
+            if to_right[-1] and (to_right[0] or last_j < first_j):
+                wires = [(last, last_j), (m_r, i)]
+            elif not to_right[0]:
+                wires = [(m_l, i), (first, first_j)]
+            else:
+                k = max(k for k, right in enumerate(to_right) if right)
+                wires = between[k:k + 2]
+
+            (left, left_j), (right, right_j) = wires
+            swaps.append(('Swap', left, right))
+            for j, old, new in ((left_j, left, right),
+                                (right_j, right, left)):
+                t, *ends = morphisms[j]
+                l_end, r_end = (new if end == old else end for end in ends)
+                morphisms[j] = (t, l_end, r_end)
+            m_t, m_l, m_r = morphisms[i]
 
         new_morphism = (m_t, m_l, m_r)
         new_morphisms.extend(swaps)
-- 
2.43.0


From 2ba19770973c063231f518be46a49dac91092f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 027/119] fix: tree2diagram: allow wireless children of
 auxiliary verbs

---
 lambeq/text2diagram/pregroup_tree_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 7341398..bdf6c33 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -679,7 +679,8 @@ def _fix_auxiliary_types(
                 assert len(word_components_dicts[i]) == 2
                 start_ind = min([min(inds)
                                  for inds
-                                 in word_components_dicts[i].values()])
+                                 in word_components_dicts[i].values()
+                                 if inds])
                 for component in word_components[i]:
                     end_ind = start_ind + len(component[1])
                     word_components_dict[component[0]] = list(range(
-- 
2.43.0


From 1e6f044e9d33ff5675c24d435c1c9d644d0a783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 028/119] fix: create_pregroup_diagram: follow the types
 through swaps

---
 lambeq/backend/grammar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 62a7bc7..26ffa92 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -881,6 +881,10 @@ class Diagram(Entity):
             if typ not in (Cup, Swap):
                 raise ValueError(f'Unknown morphism type: {typ}')
             box = typ(types[start:start+1], types[end:end+1])
+            if typ is Swap:
+                types = (types[:start] @ types[end:end+1]
+                         @ types[start+1:end] @ types[start:start+1]
+                         @ types[end+1:])
 
             boxes.append(box)
             actual_idx = start
-- 
2.43.0


From dd967c1fabf1597d991bf86ced1a88cdc0f5ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 029/119] fix: DepCCGParser: do not remove blank sentences from
 the caller's list

---
 lambeq/text2diagram/depccg_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index 3d844a7..5ee5de3 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -256,9 +256,7 @@ class DepCCGParser(CCGParser):
                 raise ValueError('`tokenised` set to `True`, but variable '
                                  '`sentences` does not have type '
                                  '`list[list[str]]`.')
-            if TYPE_CHECKING:  # temporary fix
-                from typing import cast     # noqa: I100
-                sentences = cast(list[list[str]], sentences)
+            sentences = list(sentences)     # type: ignore[assignment]
         else:
             if not untokenised_batch_type_check(sentences):
                 raise ValueError('`tokenised` set to `False`, but variable '
-- 
2.43.0


From 96f6d9b528702f8bd99d20905104e843aeb0462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 030/119] fix: WebParser: treat replies that are not trees as
 parse failures

---
 lambeq/text2diagram/web_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/web_parser.py b/lambeq/text2diagram/web_parser.py
index ee15246..1dedb6b 100644
--- a/lambeq/text2diagram/web_parser.py
+++ b/lambeq/text2diagram/web_parser.py
@@ -160,7 +160,12 @@ class WebParser(CCGParser):
                 else:
                     raise e
             else:
-                tree = CCGTree.from_json(data)
+                try:
+                    tree = CCGTree.from_json(data)
+                except Exception as e:
+                    if not suppress_exceptions:
+                        raise WebParseError(str(sentence)) from e
+                    tree = None
             trees.append(tree)
 
         for i in empty_indices:
-- 
2.43.0


From e626bfb82e3f6277e20cdf5ecad78c562d098872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 031/119] fix: Bobcat tagger: never take the scores of padding
 for a word

---
 lambeq/bobcat/tagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 9ad8e31..f0060e5 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -345,7 +345,9 @@ class Tagger:
         tag_output: list[list[TagListT]] = []
         span_output: list[list[TagListT]] = []
 
-        tag_lengths = [len(sentence) for sentence in inputs]
+        # Some words may have no token, e.g. after truncation
+        tag_lengths = [sum(map(bool, word_mask))
+                       for word_mask in encodings['word_mask']]
         span_lengths = [chart_size(length) for length in tag_lengths]
 
         tag_args = (tag_output,
-- 
2.43.0


From 6138577aff7bcef83fd00a2e9c5572a7ba78436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 032/119] fix: Bobcat no longer returns a parse of a prefix
 when a word has no supertags

---
 lambeq/bobcat/parser.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/lambeq/bobcat/parser.py b/lambeq/bobcat/parser.py
index 14e5909..06e8858 100644
--- a/lambeq/bobcat/parser.py
+++ b/lambeq/bobcat/parser.py
@@ -211,30 +211,20 @@ class ParseResult:
     ----------
     chart : Chart
         The parse chart.
+    words : list[str]
+        The words in the sentence.
 
     Attributes
     ----------
-    words : list[str]
-        The words in the sentence.
     root : list[str]
         The most probable parse trees, in order.
 
     """
     chart: Chart
-    words: list[str] = field(init=False)
+    words: list[str]
     root: list[ParseTree] = field(init=False)
 
     def __post_init__(self) -> None:
-        self.words = []
-        while True:
-            try:
-                tree = self.chart[len(self.words), len(self.words)][0]
-            except KeyError:
-                break
-            else:
-                while tree.left:
-                    tree = tree.left
-                self.words.append(tree.word)
         try:
             self.root = self.chart[0, len(self.words) - 1]
         except KeyError:
@@ -464,7 +454,7 @@ class ChartParser:
                                 else:
                                     self.calc_score_unary(tree, span_scores)
                             chart.add(start, end, results)
-        return ParseResult(chart)
+        return ParseResult(chart, sentence.words)
 
     def calc_score_unary(self,
                          tree: ParseTree,
-- 
2.43.0


From e68967db0850176772d2e11184729efe43fff10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 033/119] fix: Oncilla never forces a special token to be the
 root

---
 lambeq/oncilla/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/oncilla/parser.py b/lambeq/oncilla/parser.py
index 5d88456..73750d4 100644
--- a/lambeq/oncilla/parser.py
+++ b/lambeq/oncilla/parser.py
@@ -799,7 +799,7 @@ class BertForSentenceToTree(BertPreTrainedModel):
         # Use `word_ids` to mask the root logits
         curr_word_id = None
         for i, word_id in enumerate(word_ids):
-            if word_id in {-1000, 0} or curr_word_id == word_id:
+            if word_id in {None, -1000, 0} or curr_word_id == word_id:
                 root_logits[i] = -torch.inf
             curr_word_id = word_id
 
-- 
2.43.0


From 143c6135f5831128c2619654df39c1256666766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 034/119] fix: caps and cups of dimension above two are the
 identity, not a GHZ state

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..21f757b 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -453,10 +453,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -494,10 +491,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From 4586d648b8770bd84ad43c5a2772e477dd994a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 035/119] fix: rotated boxes evaluate with flat data and in
 every backend

---
 lambeq/backend/tensor.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 21f757b..47258b7 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -187,22 +187,24 @@ class Box(grammar.Box):
 
         arr = self.array
 
-        source = range(len(self.dom @ self.cod))
-        target = [i + len(self.cod) if i < len(self.dom) else
-                  i - len(self.dom) for i in range(len(self.dom @ self.cod))]
+        source = tuple(range(len(self.dom @ self.cod)))
+        target = tuple(i + len(self.cod) if i < len(self.dom) else
+                       i - len(self.dom) for i in source)
         with backend() as np:
-            return np.conjugate(np.moveaxis(arr, source, target))
+            return np.conj(np.moveaxis(arr, source, target))
 
     def _conjugate_array(self):
         """Returns the diagrammtic conjugate of the box's data"""
 
         dom, cod = self.dom, self.cod
         with backend() as np:
-            array = np.moveaxis(self.data,
-                                range(len(dom @ cod)),
-                                [len(dom) - i - 1
-                                    for i in range(len(dom @ cod))])
-            return np.conjugate(array)
+            # The data has the shape of the unrotated box.
+            array = np.array(self.data).reshape(dom.dim[::-1] + cod.dim[::-1])
+            array = np.moveaxis(array,
+                                tuple(range(len(dom @ cod))),
+                                tuple(len(dom) - i - 1
+                                      for i in range(len(dom @ cod))))
+            return np.conj(array)
 
     def dagger(self):
         """Get the dagger (adjoint) of the box.
-- 
2.43.0


From 27b97775d9f17903398042889e7c55e406dde4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 036/119] fix: substituting into a rotated symbolic box keeps
 the rotation

---
 lambeq/backend/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 47258b7..1d1bc5f 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -282,7 +282,8 @@ class Box(grammar.Box):
 
         return lambda *xs: type(self)(
             self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+            lambdify(symbols, self.data)(*xs),
+            z=self.z)
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From 63ffb9e4240dfab613531226f9d4fbd47638bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 037/119] fix: tensor boxes of different winding are not equal

---
 lambeq/backend/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 1d1bc5f..8104c01 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -170,6 +170,7 @@ class Box(grammar.Box):
         return (self.name == other.name
                 and self.dom == other.dom
                 and self.cod == other.cod
+                and self.z == other.z
                 and np.equal(self.data, other.data).all())
 
     @property
-- 
2.43.0


From d811018852279b7849c716d5fa46e6454cc63701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 038/119] fix: the empty diagram evaluates to 1

---
 lambeq/backend/quantum.py | 4 ++++
 lambeq/backend/tensor.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 38005a3..3a8e983 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -583,6 +583,10 @@ class Diagram(tensor.Diagram):
 
         outputs = c_scan + q_scan1 + q_scan2
 
+        if not nodes:
+            # The empty network is the scalar 1.
+            nodes.append(tn.CopyNode(0, 1, dtype=complex))
+
         return nodes, inputs + outputs
 
     __hash__: Callable[[], int] = tensor.Diagram.__hash__
diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 8104c01..87a9b08 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -420,6 +420,10 @@ class Diagram(grammar.Diagram):
                         + node[len(box.dom):]
                         + scan[len(l) + len(box.dom):])
 
+        if not nodes:
+            # The empty network is the scalar 1.
+            nodes.append(tn.CopyNode(0, 1, dtype=dtype, backend=backend))
+
         # nodes, input_edge_order, output_edge_order
         return nodes, inputs + scan
 
-- 
2.43.0


From f918a3a2a3316170a7c486a22e5017540a1f303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 039/119] fix: build caps of a tensor network in the requested
 dtype and backend

---
 lambeq/backend/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 87a9b08..a83f64b 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -406,6 +406,9 @@ class Diagram(grammar.Diagram):
                     node = tn.CopyNode(box.n_legs_in + box.n_legs_out,
                                        box.type.product, dtype=dtype,
                                        backend=backend)
+                elif isinstance(box, Cap):
+                    node = tn.CopyNode(2, box.left.product, dtype=dtype,
+                                       backend=backend)
                 else:
                     node = tn.Node(box.array,
                                    str(box.name),
-- 
2.43.0


From 547d4f755409340fe8b0eae4a5dfb18e3663a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 040/119] fix: exchange the right wires for swaps of bits in
 mixed circuits

---
 lambeq/backend/quantum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 3a8e983..b79ceb2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -515,8 +515,13 @@ class Diagram(tensor.Diagram):
             q_offset = list(left).count(qubit)
 
             if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+                c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
+                                                          c_scan[c_offset])
+
+            elif isinstance(box, Swap) and bit in box.dom:
+                # Bits and qubits are kept apart, so exchanging a bit
+                # and a qubit changes neither order.
+                continue
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
-- 
2.43.0


From 4fc2d0ef810a8e2ea5744f59e6f516104d4e8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 041/119] fix: treat classical boxes as classical in mixed
 circuits

---
 lambeq/backend/quantum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index b79ceb2..7aa831e 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -528,14 +528,15 @@ class Diagram(tensor.Diagram):
                 del q_scan1[q_offset]
                 del q_scan2[q_offset]
 
-            elif box.is_mixed:
+            elif box.is_mixed or box.is_classical:
                 if isinstance(box, (Measure, Encode)):
                     node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex)
 
                 elif isinstance(box, (MixedState)):
                     node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex)
                 else:
-                    node = tn.Node(box.data + 0j, 'cq_' + str(box))
+                    data = box.array if box.is_classical else box.data
+                    node = tn.Node(data + 0j, 'cq_' + str(box))
 
                 c_dom = list(box.dom).count(bit)
                 q_dom = list(box.dom).count(qubit)
-- 
2.43.0


From f8ca5ce20f6907ca3bc80aaea7c5afc095549754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 042/119] fix: let bits be rotated

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 7aa831e..434769f 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1168,7 +1168,7 @@ class Daggered(tensor.Daggered, Box):
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
 
 
-class Bit(Box):
+class Bit(SelfConjugate):
     """Classical state for a given bit."""
 
     def __new__(cls, *bitstring: int):
-- 
2.43.0


From c9ca60bd22a52725ef191dfb2894b311ff0213e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 043/119] fix: let scalars be rotated

---
 lambeq/backend/quantum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 434769f..f24f540 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1102,6 +1102,11 @@ class Scalar(Box):
     def dagger(self):
         return replace(self, data=self.data.conjugate())
 
+    def rotate(self, z):
+        if z % 2 == 0:
+            return self
+        return self.dagger()
+
 
 @dataclass
 class Sqrt(Scalar):
-- 
2.43.0


From c40b50d39ab0d4f7fb4959aafd553d818b2e016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 044/119] fix: give quantum swaps their matrix

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f24f540..05a59a5 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -733,6 +733,7 @@ class Swap(tensor.Swap, SelfConjugate, Box):
 
         """
 
+        tensor.Swap.__init__(self, left, right)
         Box.__init__(self,
                      'SWAP',
                      left @ right,
@@ -741,7 +742,6 @@ class Swap(tensor.Swap, SelfConjugate, Box):
                                [0, 0, 1, 0],
                                [0, 1, 0, 0],
                                [0, 0, 0, 1]]))
-        tensor.Swap.__init__(self, left, right)
 
     __hash__: Callable[[], int] = tensor.Swap.__hash__
     __repr__: Callable[[], str] = tensor.Swap.__repr__
-- 
2.43.0


From 7acddfae9f09fe14eabbfa4a8dd03b3a9b1c2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 045/119] fix: evaluate mixed circuits in the chosen numerical
 backend

---
 lambeq/backend/quantum.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 05a59a5..3920b4b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -495,11 +495,16 @@ class Diagram(tensor.Diagram):
 
             diag >>= Id(left) @ subdiag @ Id(right)
 
-        c_nodes = [tn.CopyNode(2, 2, f'c_input_{i}', dtype=complex)
+        tn_backend = get_backend().name
+
+        c_nodes = [tn.CopyNode(2, 2, f'c_input_{i}', dtype=complex,
+                               backend=tn_backend)
                    for i in range(list(diag.dom).count(bit))]
-        q_nodes1 = [tn.CopyNode(2, 2, f'q1_input_{i}', dtype=complex)
+        q_nodes1 = [tn.CopyNode(2, 2, f'q1_input_{i}', dtype=complex,
+                                backend=tn_backend)
                     for i in range(list(diag.dom).count(qubit))]
-        q_nodes2 = [tn.CopyNode(2, 2, f'q2_input_{i}', dtype=complex)
+        q_nodes2 = [tn.CopyNode(2, 2, f'q2_input_{i}', dtype=complex,
+                                backend=tn_backend)
                     for i in range(list(diag.dom).count(qubit))]
 
         inputs = [n[0] for n in c_nodes + q_nodes1 + q_nodes2]
@@ -530,13 +535,16 @@ class Diagram(tensor.Diagram):
 
             elif box.is_mixed or box.is_classical:
                 if isinstance(box, (Measure, Encode)):
-                    node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex)
+                    node = tn.CopyNode(3, 2, 'cq_' + str(box), dtype=complex,
+                                       backend=tn_backend)
 
                 elif isinstance(box, (MixedState)):
-                    node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex)
+                    node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex,
+                                       backend=tn_backend)
                 else:
                     data = box.array if box.is_classical else box.data
-                    node = tn.Node(data + 0j, 'cq_' + str(box))
+                    node = tn.Node(data + 0j, 'cq_' + str(box),
+                                   backend=tn_backend)
 
                 c_dom = list(box.dom).count(bit)
                 q_dom = list(box.dom).count(qubit)
@@ -571,10 +579,12 @@ class Diagram(tensor.Diagram):
                                                 scan[q_offset])
                 else:
                     utensor = box.array
-                    node1 = tn.Node(utensor + 0j, 'q1_' + str(box))
+                    node1 = tn.Node(utensor + 0j, 'q1_' + str(box),
+                                    backend=tn_backend)
                     with backend() as np:
                         node2 = tn.Node(np.conj(utensor) + 0j,
-                                        'q2_' + str(box))
+                                        'q2_' + str(box),
+                                        backend=tn_backend)
 
                     for i in range(len(box.dom)):
                         tn.connect(q_scan1[q_offset + i], node1[i])
@@ -591,7 +601,8 @@ class Diagram(tensor.Diagram):
 
         if not nodes:
             # The empty network is the scalar 1.
-            nodes.append(tn.CopyNode(0, 1, dtype=complex))
+            nodes.append(tn.CopyNode(0, 1, dtype=complex,
+                                     backend=tn_backend))
 
         return nodes, inputs + outputs
 
-- 
2.43.0


From b2efa1075253dc6a49980093dde530d16582e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 046/119] fix: apply builder gates to non-neighbouring qubits

---
 lambeq/backend/quantum.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 3920b4b..7b8af48 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -251,7 +251,17 @@ class Diagram(tensor.Diagram):
 
         else:
             assert len(qubits) == len(gate.dom)
-            return self.then_at(gate, min(qubits))
+            start, width = min(qubits), max(qubits) - min(qubits) + 1
+            rel_idx = [idx - start for idx in qubits]
+            if rel_idx == list(range(width)):
+                return self.then_at(gate, start)
+
+            # Bring the qubits next to each other and back
+            skipped = [i for i in range(width) if i not in rel_idx]
+            perm = self.permutation(self.cod[start:start + width],
+                                    rel_idx + skipped)
+            return self.then_at(perm >> gate @ qubit ** len(skipped)
+                                >> perm.dagger(), start)
 
     @property
     def is_mixed(self) -> bool:
-- 
2.43.0


From f15f0ad6c51ceb24f67bb7455c554e26eb1ef6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:45 +0000
Subject: [PATCH 047/119] fix: widen nested controlled gates correctly in
 to_circuital

---
 lambeq/backend/quantum.py | 47 +++++++++++++++------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 7b8af48..e8876b4 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1399,6 +1399,23 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return gates, q_idx
 
+    def widen(box: Box, idx: int) -> Controlled:
+        """Let a qubit pass through a controlled gate, at `idx`."""
+
+        if not isinstance(box, Controlled):
+            raise NotImplementedError(f'Cannot pull qubit through box {box}')
+
+        inner = box.controlled
+        distance = box.distance
+        start = distance if distance > 0 else 0
+
+        if start < idx < start + len(inner.dom):
+            inner = widen(inner, idx - start)
+        else:
+            distance += 1 if distance > 0 else -1
+
+        return Controlled(inner, distance)
+
     def pull_qubit_through(q_idx: int,
                            gates: list[Layer],
                            dom: Ty = qubit) -> tuple[list[Layer], int]:  # noqa: E501
@@ -1429,35 +1446,7 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             else:
                 if isinstance(gate_layer.box, Controlled):
-                    gate_qubits = [len(gate_layer.left) + j
-                                   for j in range(len(gate_layer.box.dom))]
-
-                    # Initial control qubit box
-                    dists = [0]
-                    curr_box: Box | Controlled = gate_layer.box
-                    while isinstance(curr_box, Controlled):
-                        # Compute relative index control qubits
-                        dists.append(curr_box.distance + sum(dists))
-                        curr_box = curr_box.controlled
-
-                    prev_pos = -1 * min(dists) + gate_qubits[0]
-                    curr_box = gate_layer.box
-
-                    while isinstance(curr_box, Controlled):
-                        curr_pos = prev_pos + curr_box.distance
-                        if prev_pos < q_idx and q_idx <= curr_pos:
-                            curr_box.distance = curr_box.distance + 1
-
-                        elif q_idx <= prev_pos and q_idx > curr_pos:
-                            curr_box.distance = curr_box.distance - 1
-
-                        prev_pos = curr_pos
-                        curr_box = curr_box.controlled
-
-                    box = gate_layer.box
-
-                    box.dom = box.dom.insert(dom, q_idx - l_size)
-                    box.cod = box.cod.insert(dom, q_idx - l_size)
+                    gate_layer.box = widen(gate_layer.box, q_idx - l_size)
                     new_gates.append(gate_layer)
 
                 if isinstance(gate_layer.box, Swap):
-- 
2.43.0


From db2190a1b1c42c645d12796ef1d878f2fcd7b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 048/119] fix: refuse gates to_circuital cannot widen

---
 lambeq/backend/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index e8876b4..0744e29 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1449,7 +1449,7 @@ def to_circuital(diagram: Diagram) -> Diagram:
                     gate_layer.box = widen(gate_layer.box, q_idx - l_size)
                     new_gates.append(gate_layer)
 
-                if isinstance(gate_layer.box, Swap):
+                elif isinstance(gate_layer.box, Swap):
 
                     """
                     Replace single swap with a series of swaps
@@ -1466,6 +1466,10 @@ def to_circuital(diagram: Diagram) -> Diagram:
                                      Swap(qubit, qubit),
                                      dom >> gate_layer.right))
 
+                else:
+                    raise NotImplementedError('Cannot pull qubit through '
+                                              f'box {gate_layer.box}')
+
         return new_gates, q_idx
 
     def build_left_right(q_idx: int,
-- 
2.43.0


From 63f07a2b95b7082fb961d1a4ac2a2b82ae005602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 049/119] fix: key exported post-selections by bit

---
 lambeq/backend/converters/tk.py | 4 +++-
 lambeq/backend/quantum.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..de84764 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -237,9 +237,11 @@ def to_tk(diagram: Diagram) -> Circuit:
 
     circuit_info = readoff_circuital(diagram, use_sympy=True)
 
+    post_selection = {circuit_info.bitmap[qi]: value
+                      for qi, value in circuit_info.postmap.items()}
     circuit = Circuit(circuit_info.total_qubits,
                       len(circuit_info.bitmap),
-                      post_selection=circuit_info.postmap)
+                      post_selection=post_selection)
 
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar':
diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 0744e29..1f5c9f1 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -433,7 +433,7 @@ class Diagram(tensor.Diagram):
         ...     >> CX\\
         ...     >> Id(qubit) @ Bra(0)
         >>> circuit3.to_tk()
-        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({1: 0})
+        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({0: 0})
         """
         from lambeq.backend.converters.tk import to_tk
         return to_tk(self)
-- 
2.43.0


From 4cec8ce09881f372a3817e714e72309dd11f5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 050/119] fix: number exported bits in wire order

---
 lambeq/backend/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1f5c9f1..f0a5065 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1734,6 +1734,9 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Bits are numbered in the order of their wires
+    bitmap = {qi: i for i, qi in enumerate(sorted(bitmap))}
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 02c6899e1ea086d26f4b9750098cdcebad28fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 051/119] fix: follow measured wires through swaps when
 exporting

---
 lambeq/backend/quantum.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f0a5065..8353525 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1734,6 +1734,14 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+            if (isinstance(layer.box, Swap)
+                    and layer.box.left != layer.box.right):
+                # The measured wire moves to the other qubit
+                moved = {qi: qi + 1, qi + 1: qi}
+                bitmap = {moved.get(q, q): i for q, i in bitmap.items()}
+                available_qubits = sorted(moved.get(q, q)
+                                          for q in available_qubits)
+
     # Bits are numbered in the order of their wires
     bitmap = {qi: i for i, qi in enumerate(sorted(bitmap))}
 
-- 
2.43.0


From f292e2000a7168fa1f4973d876b4bdc26aa12391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 052/119] fix: gates after a post-selection are not circuital

---
 lambeq/backend/quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8353525..85ebfce 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -311,7 +311,7 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
+        # Check there are no gates between or after post-selections.
         measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
                        if isinstance(layer.box, (Discard, Bra))]
         if not measure_idx:
@@ -320,7 +320,7 @@ class Diagram(tensor.Diagram):
         mmin = min(measure_idx)
         for i, gate in enumerate(layers[num_qubits:]):
             if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
+                if i > mmin and (i < mmax or gate.box.dom or gate.box.cod):
                     return False
 
         return True
-- 
2.43.0


From 11c4fd1ec87f8ea39f909f27945381dc788bbdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 053/119] fix: export rotations by zero

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index de84764..29f6623 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -253,7 +253,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From a945b6feb934641be07ca093396b2c70d0ed2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 054/119] fix: export controlled Ry gates

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 85ebfce..c20fab3 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1633,7 +1633,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 149b3d6e24e867b415ba60b9aad286aa9c45ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 055/119] fix: give imported symbols a plain float scale

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 29f6623..37cebd0 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -205,7 +205,7 @@ def _tk_to_lmbq_param(theta):
         if not isinstance(symbol, sympy.Symbol):
             raise ValueError('Parameter must be a (possibly scaled) sympy'
                              'Symbol')
-        return Symbol(symbol.name, scale=scale)
+        return Symbol(symbol.name, scale=float(scale))
     else:
         raise ValueError('Parameter must be a (possibly scaled) sympy Symbol')
 
-- 
2.43.0


From 8159659dc889316c0909cb0d10bb745d75a73b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 056/119] fix: measure at the end when importing from pytket

---
 lambeq/backend/converters/tk.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 37cebd0..a4cc98a 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -340,26 +340,33 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             return box.to_diagram(), offset  # type: ignore [return-value]
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
-    bras = {}
+    # Measurement and post selection happen at the end
+    effects: dict[int, Box] = {}
+    bit_indices: dict[int, int] = {}
     for tk_gate in tk_circ.get_commands():
+        indices = [q.index[0] for q in tk_gate.qubits]
+        if not effects.keys().isdisjoint(indices):
+            raise NotImplementedError('Gates after a measurement are not '
+                                      'supported.')
         if tk_gate.op.type.name == 'Measure':
-            offset: int = tk_gate.qubits[0].index[0]
+            offset: int = indices[0]
             bit_index: int = tk_gate.bits[0].index[0]
             if bit_index in tk_circ.post_selection:
-                bras[offset] = tk_circ.post_selection[bit_index]
-                continue  # post selection happens at the end
-            left = circuit.cod[:offset]
-            right = circuit.cod[offset + 1:]
-            circuit = circuit >> left @ Measure() @ right
+                effects[offset] = Bra(tk_circ.post_selection[bit_index])
+            else:
+                effects[offset] = Measure()
+                bit_indices[offset] = bit_index
         else:
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
             right = circuit.cod[offset + len(box.dom):]
             circuit = circuit >> left @ box @ right
     circuit = circuit >> Id().tensor(*(
-        Bra(bras[i]) if i in bras
-        else Discard() if x == qubit else Id(bit)
-        for i, x in enumerate(circuit.cod)))
+        effects[i] if i in effects else Discard() for i in range(n_qubits)))
+    # Put the bits in the order of their indices
+    wires = [bit_indices[i] for i in sorted(bit_indices)]
+    circuit = circuit >> Diagram.permutation(
+        circuit.cod, sorted(range(len(wires)), key=wires.__getitem__))
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From f1b8bcee73994271737d4065bda1b5754769e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:52 +0000
Subject: [PATCH 057/119] fix: import plain pytket circuits

---
 lambeq/backend/converters/tk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index a4cc98a..e6970b2 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -67,9 +67,9 @@ class Circuit(tk.Circuit):
         """
         result = Circuit(tk_circuit.n_qubits,
                          len(tk_circuit.bits),
-                         tk_circuit.post_selection,
-                         tk_circuit.scalar,
-                         tk_circuit.post_processing)
+                         getattr(tk_circuit, 'post_selection', None),
+                         getattr(tk_circuit, 'scalar', None),
+                         getattr(tk_circuit, 'post_processing', None))
         for gate in tk_circuit:
             name, inputs = gate.op.type.name, gate.op.params + [
                 x.index[0] for x in gate.qubits + gate.bits]
-- 
2.43.0


From 7248dce5be938451f2d70a684538c865c5d211fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 058/119] fix: keep pytket registers apart

---
 lambeq/backend/converters/tk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index e6970b2..5bfc20a 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -70,9 +70,12 @@ class Circuit(tk.Circuit):
                          getattr(tk_circuit, 'post_selection', None),
                          getattr(tk_circuit, 'scalar', None),
                          getattr(tk_circuit, 'post_processing', None))
+        # Units of any register are numbered in order
+        index = {unit: i for units in (tk_circuit.qubits, tk_circuit.bits)
+                 for i, unit in enumerate(units)}
         for gate in tk_circuit:
             name, inputs = gate.op.type.name, gate.op.params + [
-                x.index[0] for x in gate.qubits + gate.bits]
+                index[x] for x in gate.qubits + gate.bits]
             result.__getattribute__(name)(*inputs)
         return result
 
-- 
2.43.0


From 98fe21a189070938f4e3029de86732a90bfb709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 059/119] fix: keep a zero scale in pytket circuits

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 5bfc20a..4fc4040 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -85,7 +85,7 @@ class Circuit(tk.Circuit):
                  scalar: float | None = None,
                  post_processing: Diagram | None = None) -> None:
         self.post_selection = post_selection or {}
-        self.scalar = scalar or 1
+        self.scalar = 1 if scalar is None else scalar
         self.post_processing = (
             post_processing or Id(bit ** (n_bits - len(self.post_selection))))
         super().__init__(n_qubits, n_bits)
-- 
2.43.0


From e4ad58395076a51f31bef6efac9fe3afca7f45d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 060/119] fix: place imported CCX gates relative to their first
 qubit

---
 lambeq/backend/converters/tk.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 4fc4040..1fcfbef 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -328,14 +328,14 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
                 box = Controlled(Z, distance)
 
         if len(tk_gate.args) == 3:  # three qubit gate
-            controls = (tk_gate.args[0].index[0], tk_gate.args[1].index[0])
-            target = tk_gate.args[2].index[0]
-            span = max(controls + (target,)) - min(controls + (target,)) + 1
+            indices = [arg.index[0] for arg in tk_gate.args]
+            offset = min(indices)
+            span = max(indices) - offset + 1
+            rel_idx = [idx - offset for idx in indices]
             if name == 'CCX':
-                box = Id(qubit**span).apply_gate(CCX, *controls, target)
+                box = Id(qubit**span).apply_gate(CCX, *rel_idx)
             elif name == 'CCZ':
-                box = Id(qubit**span).apply_gate(CCZ, *controls, target)
-            offset = min(controls + (target,))
+                box = Id(qubit**span).apply_gate(CCZ, *rel_idx)
 
         if box is None:
             raise NotImplementedError
-- 
2.43.0


From b9290052c1418df6d03306163cb52fe6f89f6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 061/119] fix: export kets of one

---
 lambeq/backend/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index c20fab3..9934c76 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1715,7 +1715,8 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From 5ac5b2028e28278e954f025b16aa25991c4431cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 062/119] fix: export conjugated S and T gates

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 9934c76..6f6fe54 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1601,6 +1601,10 @@ class Gate:
             dagger = True
             gtype = box.name.split('(')[0]
 
+        if gtype in ('S', 'T') and box.z % 2:
+            # The conjugates of these gates are their adjoints
+            dagger = not dagger
+
         if isinstance(box, (Rx, Ry, Rz)):
             phase = box.phase
             if use_sympy and isinstance(box.phase, Symbol):
-- 
2.43.0


From 518245140f6137b686bef7198c7ff300698045c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 063/119] fix: keep zero phases in PennyLane circuits

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a20d9aa..2223de2 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -119,7 +119,7 @@ def extract_ops_from_circuital(
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-                                               if x.phase
+                                               if x.phase is not None
                                                else []
                                                for x in gates]
 
-- 
2.43.0


From 8591abd411c1eb46ab627f60f2831677bd5f4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 064/119] fix: collect unscaled symbols in PennyLane circuits

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 2223de2..c15fc0a 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -135,7 +135,7 @@ def extract_ops_from_circuital(
         elif not isinstance(param, Symbol):
             param = torch.tensor(param)
         else:
-            symbols.add(param)
+            symbols.add(param.unscaled)
 
         remapped_params.append([param])
 
-- 
2.43.0


From 79670b490cc37504134c37e6d0728832ab88f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 065/119] fix: remove every scalar from PennyLane circuits

---
 lambeq/backend/pennylane.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index c15fc0a..0a8d102 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -198,12 +198,14 @@ def to_pennylane(diagram: Diagram,
     circuit_info = readoff_circuital(diagram)
 
     scalar = 1.0
+    gates = []
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
-            circuit_info.gates.remove(gate)
+        else:
+            gates.append(gate)
 
-    ex_ops = extract_ops_from_circuital(circuit_info.gates)
+    ex_ops = extract_ops_from_circuital(gates)
     op_list, params_list, symbols_set, wires_list = ex_ops
 
     # Get post selection bits
-- 
2.43.0


From 00fd6a789d9120b9e6d25bd38b301e29713018fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 066/119] fix: scale PennyLane probabilities by the squared
 modulus

---
 lambeq/backend/pennylane.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 0a8d102..f9f3f10 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -413,8 +413,9 @@ class PennyLaneCircuit:
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-        post_selected_states *= (self._scale ** 2 if self._probabilities
-                                 else self._scale)
+        scale = (abs(self._scale) ** 2 if self._probabilities
+                 else self._scale)
+        post_selected_states = post_selected_states * scale
 
         if post_selected_states.shape[0] == 1:
             return post_selected_states
-- 
2.43.0


From 5b69c93bdeb6d0e254fed9975fc350af70fdcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 067/119] fix: apply scalars and post-selected bits in mixed
 PennyLane circuits

---
 lambeq/backend/pennylane.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index f9f3f10..9759eff 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -382,7 +382,7 @@ class PennyLaneCircuit:
                 op(*[2 * torch.pi * p for p in params], wires=wires)
 
             if self._mixed:
-                return qml.density_matrix(self._post_selection.keys())
+                return qml.density_matrix(list(self._post_selection) or [0])
             if self._probabilities:
                 return qml.probs(wires=range(self._n_qubits))
             else:
@@ -408,8 +408,14 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
-            # Select the all-zeros subsystem
-            return states[0][0]
+            if self._post_selection:
+                # Select the post-selected subsystem
+                bits = ''.join(map(str, self._post_selection.values()))
+                index = int(bits, 2)
+                prob = states[index][index]
+            else:
+                prob = states.trace()
+            return prob * abs(self._scale) ** 2
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From 917ed327156f9dc1c88c9347c0c9a077d686646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 068/119] fix: label post-selected wires in PennyLane drawings

---
 lambeq/backend/pennylane.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 9759eff..7d0ffc1 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -336,8 +336,11 @@ class PennyLaneCircuit:
 
         wires = (qml.draw(self._circuit)
                  (self._concrete_params).split('\n'))
-        for k, v in self._post_selection.items():
-            wires[k] = wires[k].split('┤')[0] + '┤' + str(v) + '>'
+        for i, wire in enumerate(wires):
+            label = wire.split(':')[0].strip()
+            if label.isdigit() and int(label) in self._post_selection:
+                bit = self._post_selection[int(label)]
+                wires[i] = wire.split('┤')[0] + '┤' + str(bit) + '>'
 
         print('\n'.join(wires))
 
-- 
2.43.0


From 4e7d8f6da65bbd2f03802c4ff0a6bd941a3a8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 069/119] fix: export adjoint gates to PennyLane

---
 lambeq/backend/pennylane.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 7d0ffc1..148cd76 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -84,6 +84,16 @@ OP_MAP = {
 }
 
 
+class Adjoint:
+    """The adjoint of a PennyLane operation."""
+
+    def __init__(self, op):
+        self.op = op
+
+    def __call__(self, *params, wires):
+        return qml.adjoint(self.op)(*params, wires=wires)
+
+
 def extract_ops_from_circuital(
     gates: List['Gate']
 ) -> Tuple[
@@ -115,7 +125,8 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [OP_MAP[x.gtype] for x in gates]
+    ops = [Adjoint(OP_MAP[x.gtype]) if x.dagger else OP_MAP[x.gtype]
+           for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-- 
2.43.0


From df529d79115f26de5e45265f0110954869bea247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 070/119] fix: export the sign of conjugated Y gates

---
 lambeq/backend/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 6f6fe54..f2af20d 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1739,6 +1739,12 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+            base = (layer.box.dagger() if isinstance(layer.box, Daggered)
+                    else layer.box)
+            if base.name == 'Y' and base.z % 2:
+                # The conjugate of Y is its negation
+                gates.append(Gate.from_box(Scalar(-1), qi))
+
             if (isinstance(layer.box, Swap)
                     and layer.box.left != layer.box.right):
                 # The measured wire moves to the other qubit
-- 
2.43.0


From 0bed473a7642a99fc5419599549944be9cd227cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 071/119] fix: compare daggered quantum boxes by their box

---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f2af20d..99f513d 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1192,6 +1192,7 @@ class Daggered(tensor.Daggered, Box):
 
     __hash__: Callable[[Box], int] = Box.__hash__   # type: ignore[assignment]
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
+    __eq__ = tensor.Daggered.__eq__
 
 
 class Bit(SelfConjugate):
-- 
2.43.0


From 2137f64e3a45a042625f4c0c8023880664114559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 072/119] fix: refuse to convert frames to DisCoPy

---
 lambeq/backend/converters/discopy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/converters/discopy.py b/lambeq/backend/converters/discopy.py
index dd59e17..c608b3c 100644
--- a/lambeq/backend/converters/discopy.py
+++ b/lambeq/backend/converters/discopy.py
@@ -334,6 +334,9 @@ def convert_tensor_d2l(box: dt.Box) -> lt.Box:
 
 def convert_grammar_l2d(box: lg.Box) -> dg.Box:
 
+    if isinstance(box, (lg.Frame, lg.DaggeredFrame)):
+        raise NotImplementedError(f'Frame {box} not supported.')
+
     if isinstance(box, lg.Daggered):
         op = convert_grammar_l2d(box.dagger()).dagger()
 
-- 
2.43.0


From 11b80f7a8133a4f0af879c803c18258accda27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 073/119] fix: substitute symbols inside arrays of parameters

---
 lambeq/backend/symbol.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/symbol.py b/lambeq/backend/symbol.py
index fb14ca2..f9953a2 100644
--- a/lambeq/backend/symbol.py
+++ b/lambeq/backend/symbol.py
@@ -95,8 +95,8 @@ def lambdify(symbol: Sequence[Symbol],
         List of symbols in the order in which they will be
         provided during lambda invocation.
     expr : `lambeq.backend.symbol.Symbol` or float or None
-        Symbolic expression for which lambda invocation
-        will return the concrete value.
+        Symbolic expression, or array of symbolic expressions, for
+        which lambda invocation will return the concrete value.
 
     Returns
     -------
@@ -104,6 +104,12 @@ def lambdify(symbol: Sequence[Symbol],
         Lambda function for returning evaluation of expr
 
     """
+    if isinstance(expr, np.ndarray) and expr.dtype == object:
+        entries = [lambdify(symbol, entry) for entry in expr.flat]
+        shape = expr.shape
+        return lambda *lx: np.array(
+            [entry(*lx) for entry in entries]).reshape(shape)
+
     if not isinstance(expr, Symbol):
         return lambda *_lx: expr
 
-- 
2.43.0


From dcd3432d77653f9e6e0c77a068d5cde84ec08f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 074/119] fix: keep mixedness of boxes when substituting

---
 lambeq/backend/quantum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 99f513d..be3926c 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -161,6 +161,18 @@ class Box(tensor.Box):
 
         return Daggered(self)
 
+    def lambdify(self, *symbols, **kwargs):
+        """Return a lambda function that evaluates the box."""
+        fn = super().lambdify(*symbols, **kwargs)
+
+        def lambda_box(*xs):
+            box = fn(*xs)
+            box.is_mixed = self.is_mixed
+            box.self_adjoint = self.self_adjoint
+            return box
+
+        return lambda_box
+
     def __hash__(self) -> int:
         return super().__hash__()
 
-- 
2.43.0


From b65e81784a4fd2e6fe8c1d822a6c8a8895640492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 075/119] fix: replace checkpoint files atomically

---
 lambeq/training/checkpoint.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/checkpoint.py b/lambeq/training/checkpoint.py
index 7eb8036..2c6e671 100644
--- a/lambeq/training/checkpoint.py
+++ b/lambeq/training/checkpoint.py
@@ -119,17 +119,28 @@ class Checkpoint(Mapping):
     def to_file(self, path: StrPathT) -> None:
         """Save entries to a file and deletes the in-memory copy.
 
+        The file is replaced only once the new contents are written
+        completely, so that an earlier checkpoint survives a failure.
+
         Parameters
         ----------
         path : str or PathLike
             Path to the checkpoint file.
 
         """
+        path = os.path.realpath(path)
+        temp_path = f'{path}.{os.getpid()}.tmp'
         try:
-            with open(path, 'wb+') as ckp:
+            with open(temp_path, 'wb') as ckp:
                 pickle.dump(self.entries, ckp)
+                ckp.flush()
+                os.fsync(ckp.fileno())
+            os.replace(temp_path, path)
         except FileNotFoundError as e:
             raise FileNotFoundError(
-                'The directory does not exist. Check path `{path}`'
+                f'The directory does not exist. Check path `{path}`'
             ) from e
+        finally:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
         self.entries = {}
-- 
2.43.0


From 2e370258e91a8303fe9ad8920cdc856ef5a98aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 076/119] fix: evaluate rotations by constant angles in the
 torch backend

---
 lambeq/backend/quantum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index be3926c..92a57c2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -921,8 +921,8 @@ class Rx(AntiConjugate, Rotation):
     def array(self):
         with backend() as np:
             half_theta = np.pi * self.phase
-            sin = self.modules.sin(half_theta)
-            cos = self.modules.cos(half_theta)
+            sin = self.modules.sin(np.array(half_theta))
+            cos = self.modules.cos(np.array(half_theta))
 
             I_arr = np.eye(2)
             X_arr = np.array([[0, 1], [1, 0]])
@@ -937,8 +937,8 @@ class Ry(SelfConjugate, Rotation):
     def array(self):
         with backend() as np:
             half_theta = np.pi * self.phase
-            sin = self.modules.sin(half_theta)
-            cos = self.modules.cos(half_theta)
+            sin = self.modules.sin(np.array(half_theta))
+            cos = self.modules.cos(np.array(half_theta))
 
             I_arr = np.eye(2)
             Y_arr = np.array([[0, 1j], [-1j, 0]])
-- 
2.43.0


From 218b68aa5e58e8759a3ebfa1833f85884911a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 077/119] fix: evaluate nested controlled gates in the torch
 backend

---
 lambeq/backend/quantum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 92a57c2..2f7e0e1 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1049,9 +1049,10 @@ class Controlled(Parametrized):
                 d = 1 << n_qubits - 1
                 part1 = np.array([[1, 0], [0, 0]])
                 part2 = np.array([[0, 0], [0, 1]])
-                array = (np.kron(part1, np.eye(d))
-                         + np.kron(part2,
-                                   np.array(controlled.array.reshape(d, d))))
+                target = np.array(controlled.array.reshape(d, d))
+                # Kronecker products, which torch refuses on some strides
+                array = (part1[:, None, :, None] * np.eye(d)[:, None, :]
+                         + part2[:, None, :, None] * target[:, None, :])
             else:
                 array = self.decompose().eval()
             return array.reshape(*[2] * 2 * n_qubits)
-- 
2.43.0


From 6590ae20a5c7e19cbc2b12cda3ce4e3b74114503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:12 +0000
Subject: [PATCH 078/119] fix: substitute weights into nested controlled gates

---
 lambeq/training/quantum_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..a27ddba 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -138,6 +138,7 @@ class QuantumModel(Model):
         for diagram in diagrams:
             for b in diagram.boxes:
                 if b.free_symbols:
+                    outer = b
                     while hasattr(b, 'controlled'):
                         b = b.controlled
                     syms, values = [], []
@@ -149,7 +150,8 @@ class QuantumModel(Model):
                             raise KeyError(
                                 f'Unknown symbol: {repr(sym)}'
                             ) from e
-                    b.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
+                    # also sets the data of all nested controlled boxes
+                    outer.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
                     del b.free_symbols
         return diagrams
 
-- 
2.43.0


From 2af3cff3149a1e394efffa59c36ce1240a505a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 079/119] fix: compute controlled gates at a distance without
 contracting mixed dtypes

---
 lambeq/backend/quantum.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 2f7e0e1..f80a2a6 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1045,17 +1045,27 @@ class Controlled(Parametrized):
             controlled, distance = self.controlled, self.distance
 
             n_qubits = len(self.dom)
-            if distance == 1:
-                d = 1 << n_qubits - 1
-                part1 = np.array([[1, 0], [0, 0]])
-                part2 = np.array([[0, 0], [0, 1]])
-                target = np.array(controlled.array.reshape(d, d))
-                # Kronecker products, which torch refuses on some strides
-                array = (part1[:, None, :, None] * np.eye(d)[:, None, :]
-                         + part2[:, None, :, None] * target[:, None, :])
+            n_skipped = abs(distance) - 1
+            d = 1 << len(controlled.dom)
+            part1 = np.array([[1, 0], [0, 0]])
+            part2 = np.array([[0, 0], [0, 1]])
+            target = np.array(controlled.array.reshape(d, d))
+            # Kronecker products, which torch refuses on some strides
+            array = (part1[:, None, :, None] * np.eye(d)[:, None, :]
+                     + part2[:, None, :, None] * target[:, None, :])
+            array = (array[:, :, None, :, :, None]
+                     * np.eye(1 << n_skipped)[:, None, None, :])
+            array = array.reshape(*[2] * 2 * n_qubits)
+
+            # the qubits are (control, controlled, skipped) so far
+            if distance > 0:
+                start = tuple(range(n_qubits - n_skipped, n_qubits))
+                end = tuple(range(1, 1 + n_skipped))
             else:
-                array = self.decompose().eval()
-            return array.reshape(*[2] * 2 * n_qubits)
+                start, end = (0,), (n_qubits - 1,)
+            return np.moveaxis(array,
+                               start + tuple(i + n_qubits for i in start),
+                               end + tuple(i + n_qubits for i in end))
 
     def dagger(self):
         """Return the dagger of the box."""
-- 
2.43.0


From 8ff22a69f5ef927f2622b92d535494074fe34702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 080/119] fix: keep traced nodes when contracting in order

---
 lambeq/training/tn_path_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..ffd1c56 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -319,8 +319,11 @@ def ordered_nodes_contractor(
         if not edge.is_disabled:
             # if it is disabled we already contracted it
             if edge.is_trace():
-                nodes_set.remove(edge.node1)
-                nodes_set.add(contract_parallel(edge))
+                traced = edge.node1
+                nodes_set.remove(traced)
+                new_node = contract_parallel(edge)
+                nodes_set.add(new_node)
+                nodes = [new_node if n is traced else n for n in nodes]
 
     if len(nodes_set) == 1:
         # There's nothing to contract.
-- 
2.43.0


From d7727992f251317d232fdaf5e3e14f3dbd16df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 081/119] fix: recompile predictions after loading a model

---
 lambeq/training/numpy_model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lambeq/training/numpy_model.py b/lambeq/training/numpy_model.py
index f45efb0..0c125c1 100644
--- a/lambeq/training/numpy_model.py
+++ b/lambeq/training/numpy_model.py
@@ -35,6 +35,7 @@ from numpy.typing import ArrayLike
 from lambeq.backend import numerical_backend
 from lambeq.backend.quantum import Diagram as Circuit
 from lambeq.backend.tensor import Diagram
+from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.quantum_model import QuantumModel
 
 if TYPE_CHECKING:
@@ -60,6 +61,21 @@ class NumpyModel(QuantumModel):
         self.use_jit = use_jit
         self.lambdas: dict[Diagram, Callable[..., Any]] = {}
 
+    def _load_checkpoint(self, checkpoint: Checkpoint) -> None:
+        """Load the model weights and symbols from a lambeq
+        :py:class:`.Checkpoint`.
+
+        Parameters
+        ----------
+        checkpoint : :py:class:`.Checkpoint`
+            Checkpoint containing the model weights,
+            symbols and additional information.
+
+        """
+        super()._load_checkpoint(checkpoint)
+        # These were compiled for the previous symbols.
+        self.lambdas = {}
+
     def _get_lambda(self, diagram: Diagram) -> Callable[[Any], Any]:
         """Get lambda function that evaluates the provided diagram.
 
-- 
2.43.0


From 139a84c53823fdce950d201e7f771d9ce446c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 082/119] fix: order symbols of one name by their dimensions

---
 lambeq/backend/symbol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/symbol.py b/lambeq/backend/symbol.py
index f9953a2..4b75b09 100644
--- a/lambeq/backend/symbol.py
+++ b/lambeq/backend/symbol.py
@@ -83,7 +83,10 @@ class Symbol:
         return self.directed_dom * self.directed_cod
 
     def __lt__(self, other):
-        return (self.name, self.scale) < (other.name, other.scale)
+        return ((self.name, self.scale,
+                 self.directed_dom, self.directed_cod)
+                < (other.name, other.scale,
+                   other.directed_dom, other.directed_cod))
 
 
 def lambdify(symbol: Sequence[Symbol],
-- 
2.43.0


From 04807f054cfa746620d3c33cbf1259da81e09c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 083/119] fix: stop early when the criterion does not improve
 but stays equal

---
 lambeq/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..c63a8c9 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -466,7 +466,7 @@ class Trainer(ABC):
                 factor * val for val in
                 criterion_vals[-early_stopping_interval:]
             ]
-            early_stopping = reference < min(latter_vals)
+            early_stopping = reference <= min(latter_vals)
 
         return early_stopping
 
-- 
2.43.0


From 793712e971704e4a8c7437e4f9e0acf1bddca5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 084/119] fix: keep the best model over resumed training

---
 lambeq/training/trainer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index c63a8c9..bafcb23 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -568,6 +568,19 @@ class Trainer(ABC):
         with backend(self.backend):
             early_stopping = False
             best_val_criterion = float('inf')
+            if self.from_checkpoint:
+                # the best model so far may be of an earlier run
+                previous_vals = self.val_costs
+                if early_stopping_criterion is not None:
+                    previous_vals = self.val_eval_results[
+                        early_stopping_criterion
+                    ]
+                for i, val in enumerate(previous_vals, 1):
+                    if factor * val < best_val_criterion:
+                        best_val_criterion = factor * val
+                        best_step = i * evaluation_step
+                        best_epoch = ceil(best_step
+                                          / train_dataset.batches_per_epoch)
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
-- 
2.43.0


From 2f2d267fe03e73243caf80fe84f512836f790b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:56 +0000
Subject: [PATCH 085/119] fix: keep metrics between evaluations in training
 checkpoints

---
 lambeq/training/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index bafcb23..58cabce 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -272,6 +272,8 @@ class Trainer(ABC):
         self.train_epoch_costs = checkpoint['train_epoch_costs']
         self.train_epoch_durations = checkpoint['train_epoch_durations']
         self.train_eval_results = checkpoint['train_eval_results']
+        if 'train_eval_running' in checkpoint:
+            self._train_eval_running = checkpoint['train_eval_running']
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
@@ -795,6 +797,7 @@ class Trainer(ABC):
                      'train_durations': self.train_durations,
                      'train_epoch_costs': self.train_epoch_costs,
                      'train_eval_results': self.train_eval_results,
+                     'train_eval_running': self._train_eval_running,
                      'train_epoch_durations': self.train_epoch_durations,
                      'val_costs': self.val_costs,
                      'val_durations': self.val_durations,
-- 
2.43.0


From 58baaa7ddb78c9786355691624f2fb76bb689c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 086/119] fix: continue training when the optimizer has
 converged

---
 lambeq/training/quantum_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/training/quantum_trainer.py b/lambeq/training/quantum_trainer.py
index 0a02309..91d312e 100644
--- a/lambeq/training/quantum_trainer.py
+++ b/lambeq/training/quantum_trainer.py
@@ -161,6 +161,9 @@ class QuantumTrainer(Trainer):
         """
         self.model._clear_predictions()
         loss = self.optimizer.backward(batch)
+        if not self.model._train_predictions:
+            # e.g. a converged optimizer, which has nothing to evaluate
+            self.model._log_prediction(self.model.forward(batch[0]))
         y_hat = self.model._train_predictions[-1]
         self.train_costs.append(loss)
         self.optimizer.step()
-- 
2.43.0


From b6091dc81c581e5a067b99fbd2d462b8b713cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 087/119] fix: SPSA held in place by its bounds keeps its
 weights

---
 lambeq/training/spsa_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..0f45fd2 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,10 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            # a parameter held in place by its bounds has no gradient
+            diff = np.asarray(xplus - xminus, dtype=float)
+            grad = np.divide(loss0 - loss1, diff,
+                             out=np.zeros_like(diff), where=diff != 0)
 
         self.gradient += grad * mask
 
-- 
2.43.0


From 383351a4f96bcde4c51433f46dbe9eadfffbc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 088/119] fix: flatten ignores strings in nested batches

---
 lambeq/training/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/dataset.py b/lambeq/training/dataset.py
index 7b2243b..766e8d9 100644
--- a/lambeq/training/dataset.py
+++ b/lambeq/training/dataset.py
@@ -155,5 +155,5 @@ def flatten(diagrams: Iterable[Any]) -> Iterator[Diagram]:
             yield d
         elif isinstance(d, Mapping):
             yield from flatten(d.values())
-        elif isinstance(d, Iterable):
+        elif isinstance(d, Iterable) and not isinstance(d, (str, bytes)):
             yield from flatten(d)
-- 
2.43.0


From d3abf8cb9c746d87ed6df82a085337a92df12af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 089/119] fix: Rotosolve wraps negative angles by their period

---
 lambeq/training/rotosolve_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..76acf1c 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -77,7 +77,7 @@ class RotosolveOptimizer(Optimizer):
 
     @staticmethod
     def project(x: np.ndarray) -> np.ndarray:
-        return abs(x) % 1
+        return x % 1
 
     def backward(self,
                  batch: tuple[Iterable[Any], np.ndarray]) -> float:
-- 
2.43.0


From 859068407bea78f234100c4ca08964e5892d3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 090/119] fix: a restored SPSA optimiser continues with its
 restored learning rates

---
 lambeq/training/spsa_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 0f45fd2..7b87b23 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -195,8 +195,8 @@ class SPSAOptimizer(Optimizer):
         self.current_sweep += 1
         a_decay = (self.current_sweep+self.A)**self.alpha
         c_decay = (self.current_sweep)**self.gamma
-        self.ak = self.hyperparams['a']/a_decay
-        self.ck = self.hyperparams['c']/c_decay
+        self.ak = self.a/a_decay
+        self.ck = self.c/c_decay
 
     def state_dict(self) -> dict[str, Any]:
         """Return optimizer states as dictionary.
-- 
2.43.0


From ea35979f8d0402059eded01587073fe1428fce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 091/119] fix: a saved Nelder-Mead state does not share its
 simplex with the optimiser

---
 lambeq/training/nelder_mead_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..630d4e6 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -398,8 +398,8 @@ class NelderMeadOptimizer(Optimizer):
             'initial_simplex': self.initial_simplex,
             'xatol': self.xatol,
             'fatol': self.fatol,
-            'sim': self.sim,
-            'fsim': self.fsim,
+            'sim': self.sim.copy(),
+            'fsim': self.fsim.copy(),
             'ncalls': self.ncalls,
             'first_iter': self.first_iter,
             'current_sweep': self.current_sweep,
@@ -418,8 +418,8 @@ class NelderMeadOptimizer(Optimizer):
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-        self.sim = state_dict['sim']
-        self.fsim = state_dict['fsim']
+        self.sim = state_dict['sim'].copy()
+        self.fsim = state_dict['fsim'].copy()
         self.ncalls = state_dict['ncalls']
         self.first_iter = state_dict['first_iter']
         self.current_sweep = state_dict['current_sweep']
-- 
2.43.0


From 5391f8ce67abd17419bdafd8b8761221d249e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 092/119] fix: restoring a Nelder-Mead state restores the
 coefficients it moves by

---
 lambeq/training/nelder_mead_optimizer.py | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 630d4e6..20f46a2 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -140,17 +140,7 @@ class NelderMeadOptimizer(Optimizer):
         self.xatol = hyperparams.get('xatol', 1e-4)
         self.fatol = hyperparams.get('fatol', 1e-4)
 
-        if self.adaptive:
-            self.dim = float(len(self.model.weights))
-            self.rho = 1
-            self.chi = 1 + 2 / self.dim
-            self.psi = 0.75 - 1 / (2 * self.dim)
-            self.sigma = 1 - 1 / self.dim
-        else:
-            self.rho = 1
-            self.chi = 2
-            self.psi = 0.5
-            self.sigma = 0.5
+        self._set_coefficients()
 
         self.nonzdelt = 0.05
         self.zdelt = 0.00025
@@ -218,6 +208,20 @@ class NelderMeadOptimizer(Optimizer):
         self.fsim = np.full((self.N + 1,), np.inf, dtype=float)
         self.first_iter = True  # flag for first iteration
 
+    def _set_coefficients(self) -> None:
+        """Set the coefficients by which the simplex is moved."""
+        if self.adaptive:
+            self.dim = float(len(self.model.weights))
+            self.rho = 1
+            self.chi = 1 + 2 / self.dim
+            self.psi = 0.75 - 1 / (2 * self.dim)
+            self.sigma = 1 - 1 / self.dim
+        else:
+            self.rho = 1
+            self.chi = 2
+            self.psi = 0.5
+            self.sigma = 0.5
+
     def project(self, x: np.ndarray) -> np.ndarray:
         if self.bounds is None:
             return x
@@ -415,6 +419,7 @@ class NelderMeadOptimizer(Optimizer):
 
         """
         self.adaptive = state_dict['adaptive']
+        self._set_coefficients()
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-- 
2.43.0


From f8f297819b2ec98e5460a1ec4e9e4eaf35253c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 093/119] fix: the mean squared error can be differentiated
 with Jax

---
 lambeq/training/loss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/loss.py b/lambeq/training/loss.py
index fe69532..1f5586c 100644
--- a/lambeq/training/loss.py
+++ b/lambeq/training/loss.py
@@ -220,4 +220,6 @@ class MSELoss(LossFunction):
 
         self._match_shapes(y_pred, y_true)
 
-        return float(self.backend.mean((y_pred - y_true) ** 2))
+        loss_val: float = self.backend.mean((y_pred - y_true) ** 2)
+
+        return loss_val
-- 
2.43.0


From ec1ace26b020f8119d77df66a8068e22ab747d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 094/119] fix: a missing cache file of contraction paths can be
 created

---
 lambeq/training/tn_path_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index ffd1c56..33cc145 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,7 +194,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                Path(self.filepath).parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
-- 
2.43.0


From 811e7715bc0742e9619ac8f238db0bad3fec5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 095/119] fix: a damaged cache file of contraction paths is
 ignored

---
 lambeq/training/tn_path_optimizer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 33cc145..df4f9e7 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -22,6 +22,7 @@ import pickle
 from typing import (
     Collection, Iterable, Sequence, TypeVar
 )
+import warnings
 
 import opt_einsum as oe     # type: ignore[import-untyped]
 from tensornetwork import (
@@ -191,13 +192,23 @@ class CachedTnPathOptimizer(TnPathOptimizer):
         if self.filepath is not None:
             try:
                 with open(self.filepath, 'rb') as f:
-                    self.cached_paths = pickle.load(f)
+                    cached_paths = pickle.load(f)
+                if not isinstance(cached_paths, dict):
+                    raise ValueError('File does not contain paths.')
+                self.cached_paths = cached_paths
             except FileNotFoundError:
                 # Make sure the path exists for future use.
                 Path(self.filepath).parent.mkdir(parents=True, exist_ok=True)
+            except OSError:
+                raise
             except EOFError:
                 # No previous paths present; continue.
                 pass
+            except Exception:
+                # A damaged cache costs no more than finding paths again.
+                warnings.warn(f'Ignoring the contents of {self.filepath}: '
+                              'they could not be read as cached paths.',
+                              stacklevel=2)
 
     def __call__(
         self,
-- 
2.43.0


From 52fbcffa0b0d6f0cedc836addd2cc7791c65516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 096/119] fix: contract paths found under a memory limit

---
 lambeq/training/tn_path_optimizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index df4f9e7..7363f3c 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -347,13 +347,16 @@ def ordered_nodes_contractor(
         _dedup([n for n in nodes if n in nodes_set]),
         algorithm
     )
-    for a, b in path:
-        new_node = contract_between(
-            nodes[a],
-            nodes[b], allow_outer_product=True
-        )
+    for first, *rest in path:
+        new_node = nodes[first]
+        # with a memory limit, a step may contract more than two nodes
+        for other in rest:
+            new_node = contract_between(
+                new_node,
+                nodes[other], allow_outer_product=True
+            )
         nodes.append(new_node)
-        nodes = utils.multi_remove(nodes, [a, b])
+        nodes = utils.multi_remove(nodes, [first, *rest])
 
     # if the final node has more than one edge,
     # output_edge_order has to be specified
-- 
2.43.0


From 82048ea34940ad132e5bc5687bd63d1febde2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 097/119] fix: a downloaded model is installed whole

---
 .../model_based_reader/model_downloader.py    | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 4496379..02c90ff 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -208,13 +208,34 @@ class ModelDownloader:
 
             model_file.close()
 
-            # Copy extracted model to model_dir
-            copytree(extraction_target,
-                     str(self.model_dir),
-                     dirs_exist_ok=True)
+            self._install_model(extraction_target)
 
-        with open(self.model_dir / VERSION_FNAME, 'w') as w:
-            w.write(self.remote_version)
+    def _install_model(self, extracted_dir: str) -> None:
+        """Replace the contents of `model_dir` with the extracted model.
+
+        The complete model is prepared next to `model_dir` and then
+        moved into place, so that `model_dir` never holds only part of a
+        model, nor a mix of the files of two versions."""
+
+        assert self.remote_version is not None
+
+        with tempfile.TemporaryDirectory(
+                dir=self.model_dir.parent) as staging_dir:
+            new_dir = Path(staging_dir) / 'new'
+            old_dir = Path(staging_dir) / 'old'
+
+            copytree(extracted_dir, new_dir)
+            with open(new_dir / VERSION_FNAME, 'w') as w:
+                w.write(self.remote_version)
+
+            try:
+                if self.model_dir.is_dir():
+                    self.model_dir.rename(old_dir)
+                new_dir.rename(self.model_dir)
+            except BaseException:
+                if old_dir.is_dir() and not self.model_dir.is_dir():
+                    old_dir.rename(self.model_dir)
+                raise
 
     def get_latest_remote_version(self) -> str:
         """Retrieve the latest model version number from server."""
-- 
2.43.0


From d89361974e956591275329eecff144e50be3af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 098/119] fix: an error page is not taken as a model version

---
 .../model_based_reader/model_downloader.py             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 02c90ff..77f6de9 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -243,14 +243,20 @@ class ModelDownloader:
         ver_url = self.model_url + '/' + VERSION_FNAME
 
         try:
-            remote_version: str = requests.get(ver_url,
-                                               headers=HEADERS).text.strip()
+            response = requests.get(ver_url, headers=HEADERS)
+            remote_version: str = response.text.strip()
         except Exception as e:
             raise ModelDownloaderError(
                 'Failed to retrieve remote version number from '
                 f'{ver_url}'
             ) from e
 
+        if response.status_code != 200:
+            raise ModelDownloaderError(
+                'Failed to retrieve remote version number from '
+                f'{ver_url}. Received response status code: '
+                f'{response.status_code}')
+
         return remote_version
 
     def _get_remote_checksum(self) -> str:
-- 
2.43.0


From 4b07a292c29447ae73b93e85dcff99f3cc4a627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:03 +0000
Subject: [PATCH 099/119] fix: boxes after a closed part are not drawn over it

---
 lambeq/backend/drawing/drawable.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ad792a1..033b5f8 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -435,12 +435,11 @@ class DrawableDiagram:
             The x and y coordinates of the box.
         """
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
@@ -788,12 +787,15 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         """Determines x and y coords for a new box.
         Modifies x coordinates of existing nodes to make space."""
 
-        if not scan:
+        if not scan and not box.dom and not box.cod:
+            # Floating boxes are relocated afterwards
             return 0, 0
 
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
@@ -827,6 +829,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         y = 0.0
 
         for upstream_box in self.boxes:
+            if not scan and not upstream_box.has_wires:
+                continue
+
             if upstream_box.parent is None:
                 bl, br = upstream_box.get_x_lims(self)
 
-- 
2.43.0


From 332992094ce5203a8e458264502cf7e18bf573fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 100/119] fix: TikZ wires never end at a label

---
 lambeq/backend/drawing/tikz_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/tikz_backend.py b/lambeq/backend/drawing/tikz_backend.py
index 2eb5477..7671382 100644
--- a/lambeq/backend/drawing/tikz_backend.py
+++ b/lambeq/backend/drawing/tikz_backend.py
@@ -44,6 +44,7 @@ class TikzBackend(DrawingBackend):
         self.node_styles: list[str] = []
         self.edge_styles: list[str] = []
         self.nodes: dict[tuple[float, float], int] = {}
+        self.node_count = 0
         self.nodelayer: list[str] = []
         self.edgelayer: list[str] = []
         self.label_layer: list[str] = []
@@ -73,7 +74,8 @@ class TikzBackend(DrawingBackend):
                  options: str | None = None) -> int:
         """ Add a node to the tikz picture, return its unique id. """
 
-        node = max(self.nodes.values()) + 1 if self.nodes else 1
+        self.node_count += 1
+        node = self.node_count
         text = '' if text is None else text
         if is_label:
             self.label_layer.append(
@@ -83,7 +85,8 @@ class TikzBackend(DrawingBackend):
             self.nodelayer.append(
                 f'\\node [{options or ""}] ({node}) '
                 f'at ({x}, {y}) {{{text}}};\n')
-        self.nodes.update({(x, y): node})
+            # Edges come before the labels, so cannot refer to them
+            self.nodes.update({(x, y): node})
 
         self.max_width = max(self.max_width, x)
 
-- 
2.43.0


From 547acc703f92b3d6c6a68386278f35b0696a41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:55 +0000
Subject: [PATCH 101/119] fix: draw frames next to no wires

---
 lambeq/backend/drawing/drawable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 033b5f8..9f926b9 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1243,6 +1243,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             if box.parent is None and not (box.dom_wires or box.cod_wires):
                 floating_boxes.append(box)
 
+        if not floating_boxes:
+            return
+
         floating_boxes = sorted(
             floating_boxes,
             key=lambda b: b.get_x_lims(self)[0]
-- 
2.43.0


From d9727c15c709f63acae292888e7f9a275d5ad174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 102/119] fix: empty diagrams can be drawn

---
 lambeq/backend/drawing/drawable.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 9f926b9..b1e17eb 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -488,12 +488,15 @@ class DrawableDiagram:
         """
 
         min_x = min(
-            [node.x for node in self.boxes + self.wire_endpoints])
+            [node.x for node in self.boxes + self.wire_endpoints],
+            default=0)
 
         min_y = min(
-            [node.y for node in self.boxes + self.wire_endpoints])
+            [node.y for node in self.boxes + self.wire_endpoints],
+            default=0)
         max_y = max(
-            [node.y for node in self.boxes + self.wire_endpoints])
+            [node.y for node in self.boxes + self.wire_endpoints],
+            default=0)
 
         mid_y = (min_y + max_y) / 2
 
@@ -574,8 +577,10 @@ class DrawableDiagram:
 
         """
 
-        min_x = min([node.x for node in self.boxes + self.wire_endpoints])
-        min_y = min([node.y for node in self.boxes + self.wire_endpoints])
+        min_x = min([node.x for node in self.boxes + self.wire_endpoints],
+                    default=0)
+        min_y = min([node.y for node in self.boxes + self.wire_endpoints],
+                    default=0)
 
         for wire_end in self.wire_endpoints:
             wire_end.x = min_x + (wire_end.x - min_x) * scale[0] + pad[0]
@@ -1067,6 +1072,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             all_xs.extend(box.get_x_lims(self))
             all_ys.extend(box.get_y_lims(self))
 
+        if not all_xs:
+            return 0, 0, 0, 0
+
         return min(all_xs), min(all_ys), max(all_xs), max(all_ys)
 
     def get_noun_id(self) -> int:
@@ -1570,8 +1578,10 @@ class DrawableDiagramWithFrames(DrawableDiagram):
 
         """
 
-        min_x = min([node.x for node in self.boxes + self.wire_endpoints])
-        min_y = min([node.y for node in self.boxes + self.wire_endpoints])
+        min_x = min([node.x for node in self.boxes + self.wire_endpoints],
+                    default=0)
+        min_y = min([node.y for node in self.boxes + self.wire_endpoints],
+                    default=0)
 
         for wire_end in self.wire_endpoints:
             wire_end.x = min_x + (wire_end.x - min_x) * scale[0] + pad[0]
-- 
2.43.0


From cf048950bffddc2e1e5d85c1429075c2a3e750bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 103/119] fix: draw swaps after a frame whatever came before

---
 lambeq/backend/drawing/drawable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index b1e17eb..c83eb0c 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -876,7 +876,7 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         node = BoxNode(box, x_pos, y_pos)
 
         box_ind = self._add_boxnode(node)
-        num_input = len(box.dom)
+        num_input = off + len(box.dom)
         input_nouns = input_nouns or []
         for i in range(num_input):
             if i < len(input_nouns):
-- 
2.43.0


From ad163ffa4cf4afc43ce05194d8665540b8a5784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 104/119] fix: floating boxes are not drawn over closed parts

---
 lambeq/backend/drawing/drawable.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index c83eb0c..26e0aaf 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1179,7 +1179,7 @@ class DrawableDiagramWithFrames(DrawableDiagram):
 
         # Push top-level floating boxes, i.e. boxes without
         # any wires to the right.
-        drawable._relocate_floating_boxes(scan)
+        drawable._relocate_floating_boxes()
 
         # Center top-level frames on its dom/cod wires
         drawable._center_frames_on_wires()
@@ -1227,24 +1227,20 @@ class DrawableDiagramWithFrames(DrawableDiagram):
                         (ref_wires_center - box.x, 0)
                     )
 
-    def _relocate_floating_boxes(self,
-                                 diagram_output: list[int]) -> None:
+    def _relocate_floating_boxes(self) -> None:
         """Push floating boxes to rightmost side of diagram."""
 
-        connected_components = self._get_components_connected_to_top(
-            diagram_output,
-        )
+        rightmost_edge: float | None = None
+        for obj in self.boxes + self.wire_endpoints:
+            if obj.parent is None and (isinstance(obj, WireEndpoint)
+                                       or obj.has_wires):
+                if isinstance(obj, WireEndpoint):
+                    obj_right = obj.x
+                else:
+                    obj_right = obj.get_x_lims(self)[1]
 
-        rightmost_edge = None
-        if connected_components:
-            rightmost_edge = float('-inf')
-            for obj in connected_components:
-                if obj.parent is None:
-                    if isinstance(obj, WireEndpoint):
-                        obj_right = obj.x
-                    else:
-                        obj_right = obj.get_x_lims(self)[1]
-                    rightmost_edge = max(rightmost_edge, obj_right)
+                if rightmost_edge is None or obj_right > rightmost_edge:
+                    rightmost_edge = obj_right
 
         floating_boxes = []
         for box in self.boxes:
-- 
2.43.0


From 8e9330b58bfa58f369cf343f22126e3f000687f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 105/119] fix: text wires start under their types

---
 lambeq/backend/drawing/text_printer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index aef8711..f4cad84 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -149,14 +149,16 @@ class PregroupTextPrinter(DiagramTextPrinter):
             type_str = type_sep.join(types)
             width = max(len(word), len(type_str))
 
-            last_pos = len(type_line) + (width - len(type_str)) // 2
+            type_str = type_str.center(width)
+            last_pos = (len(type_line) + len(type_str)
+                        - len(type_str.lstrip(' ')))
             for t in types:
                 pos.append(last_pos + (len(t) - 1) // 2)
                 last_pos += len(t) + len(type_sep)
 
             word_line += word.center(width)
             underlines += self.chr_set['LINE'] * width
-            type_line += type_str.center(width)
+            type_line += type_str
 
         # process layers
         scan = [*range(len(pos))]
-- 
2.43.0


From 91c761129c5ff30724aacaf586bd10c452749819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:53 +0000
Subject: [PATCH 106/119] fix: stored modes are used again

---
 lambeq/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..8125bf7 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -615,8 +615,10 @@ def main() -> None:
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
                                Loader=yaml.FullLoader)
+        # `mode` has a default value, so find out whether it was given
+        given = parser.parse_args(namespace=argparse.Namespace(mode=None))
         for key, value in saved_args.items():
-            if not getattr(cl_args, key, False):
+            if not getattr(given, key, False):
                 setattr(cl_args, key, value)
     for key, value in DEFAULT_ARG_VALUES.items():
         if not getattr(cl_args, key, False):
-- 
2.43.0


From b24feeb2276569aded52aa3c0861a1870701cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:22 +0000
Subject: [PATCH 107/119] fix: root categories reach an explicit Bobcat parser

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 8125bf7..63ad300 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -442,7 +442,7 @@ class ParserModule(CLIModule):
             read_sents = reader.sentences2diagrams(sentences,
                                                    tokenised=cl_args.tokenise)
             return [sent for sent in read_sents if sent is not None]
-        elif cl_args.parser is not None:
+        elif cl_args.parser not in (None, 'bobcat'):
             parser = AVAILABLE_PARSERS[cl_args.parser]()
         else:
             parser = AVAILABLE_PARSERS['bobcat'](
-- 
2.43.0


From 227d7d02d6da7e4fec05b7bd4317fd4a300a4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 108/119] fix: keep the image type of output files

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 63ad300..f238048 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -592,7 +592,7 @@ class DiagramSaveModule(CLIModule):
                 else:
                     image_path = cl_args.output_file
                     file_name, file_extension = os.path.splitext(image_path)
-                    if file_extension not in AVAILABLE_IMAGE_TYPES:
+                    if file_extension[1:] not in AVAILABLE_IMAGE_TYPES:
                         image_path = f'{file_name}.{cl_args.image_format}'
                 draw_args: dict[str, Any] = {'path': image_path}
                 if ('fig_width' in cl_args.output_options
-- 
2.43.0


From c3e1bd3273fc3d9a0317db1a621a6a42c09aa45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 109/119] fix: ansatz options have their default values

---
 lambeq/cli.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index f238048..a90337e 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -81,6 +81,15 @@ DEFAULT_ARG_VALUES: dict[str, str] = {
     'mode': 'string-diagram'
 }
 
+ANSATZ_OPTIONS: list[tuple[str, type, Any]] = [
+    ('dim_n', int, 2),
+    ('dim_s', int, 2),
+    ('n_layers', int, 2),
+    ('n_single_qubit_params', int, 3),
+    ('bond_dim', int, 3),
+    ('max_order', int, 3)
+]
+
 
 class ArgumentList:
     """List of arguments of type key=value to pass to argparse.
@@ -304,12 +313,7 @@ def prepare_parser() -> argparse.ArgumentParser:
             choices=AVAILABLE_ANSATZE.keys(),
             help='Ansatz to be used. This determines if the result will be a '
                  'quantum circuit or a tensor network.')
-    ansatz_arglist = ArgumentList([('dim_n', int, 2),
-                                   ('dim_s', int, 2),
-                                   ('n_layers', int, 2),
-                                   ('n_single_qubit_params', int, 3),
-                                   ('bond_dim', int, 3),
-                                   ('max_order', int, 3)])
+    ansatz_arglist = ArgumentList(ANSATZ_OPTIONS)
 
     ansatz_group.add_argument(
             '-n',
@@ -491,14 +495,16 @@ class AnsatzModule(CLIModule):
         S = lambeq.core.types.AtomicType.SENTENCE
         if cl_args.ansatz is None:
             return module_input
-        n_dim = cl_args.ansatz_options['dim_n']
-        s_dim = cl_args.ansatz_options['dim_s']
+        ansatz_options = {k: default for k, _, default in ANSATZ_OPTIONS}
+        ansatz_options.update(cl_args.ansatz_options)
+        n_dim = ansatz_options['dim_n']
+        s_dim = ansatz_options['dim_s']
 
         ansatz_type: type[BaseAnsatz]
         ansatz_type = AVAILABLE_ANSATZE[cl_args.ansatz.casefold()]
 
         supported_args, *_ = inspect.getfullargspec(ansatz_type.__init__)
-        remaining_args = {k: v for k, v in cl_args.ansatz_options.items()
+        remaining_args = {k: v for k, v in ansatz_options.items()
                           if k in supported_args}
 
         ansatz: BaseAnsatz
-- 
2.43.0


From 8e3189b9dcf8774d6ab8673a1c705ec12b7dbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 110/119] fix: read texts before any noun appears

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 1e2476c..2da9107 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -410,7 +410,7 @@ class DisCoCircReader(Reader):
                   else Spider(NOUN,
                               1,
                               wire_counter[wid])
-                  for wid in range(max(wire_ids)+1)])
+                  for wid in range(len(noun2wire))])
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-- 
2.43.0


From f856e3112cb4dfecba79123b8b7bf3d61863d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 111/119] fix: keep the missing noun apart from the last word

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 2da9107..12e4ed6 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -99,7 +99,7 @@ class DisCoCircReader(Reader):
         if root.typ not in (Ty('s'), Ty('n')):
             root.typ = Ty('s')
             root.children.append(PregroupTreeNode(
-                '', len(sentence)-1, Ty('n'), [], [], []))
+                '', len(sentence), Ty('n'), parent=root))
         return root
 
     def _tree2circuital(self,
-- 
2.43.0


From 188ad0a7d395c38454cff6bf83363c95dfa3f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 112/119] fix: drop merged nodes from rewritten trees

---
 lambeq/experimental/discocirc/pregroup_tree_rewriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/experimental/discocirc/pregroup_tree_rewriter.py b/lambeq/experimental/discocirc/pregroup_tree_rewriter.py
index 5190e2c..dad5ca0 100644
--- a/lambeq/experimental/discocirc/pregroup_tree_rewriter.py
+++ b/lambeq/experimental/discocirc/pregroup_tree_rewriter.py
@@ -59,8 +59,8 @@ class TreeRewriteRule:
             if self.max_depth is None or (n_merges < self.max_depth):
                 return replace(child,
                                word=word_mergers[self.word_join](
-                                node.word, child.word)
-                               ), n_merges + 1
+                                node.word, child.word),
+                               parent=node.parent), n_merges + 1
             # Not strictly necessary, but reduces eliminates recomputation
             return replace(node, children=[child]), n_merges
 
-- 
2.43.0


From 938b17d5baab1bc4fc911d7cd34032636db58010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 113/119] fix: prune every mention of pruned nouns

---
 lambeq/experimental/discocirc/reader.py | 55 +++++++++----------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 12e4ed6..f5c630f 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -262,39 +262,24 @@ class DisCoCircReader(Reader):
 
         return bigdiag, nouns, noun_inds, noun_cursor
 
-    def _get_index(self, s, pnoun):
-        for j, w in enumerate(s):
-            if w == pnoun:
-                return j
-        return -1
-
     def _prune_indices(self,
                        sentences,
-                       corefs,
-                       pruned_nouns: Iterable[str] = ()):
-        initial_ids = []
-
-        pruned_ids = [[] for _ in sentences]
-        # Find first coref of each pruned noun
-        for pnoun in pruned_nouns:
-            for i, s in enumerate(sentences):
-                j = self._get_index(s, pnoun)
-                if j != -1:
-                    initial_ids.append((i, j))
-                    break
-
-        for i, j in initial_ids:
-            pruned_ids[i].append(j)
-            for p in corefs:
-                if i >= len(p):
-                    break
-                elif j in p[i]:
-                    for h, hword in enumerate(p):
-                        if len(hword) > 0 and h != i:
-                            pruned_ids[h].append(hword[0])
-                    break
-
-        return pruned_ids
+                       corefd,
+                       pruned_nouns: Iterable[str] = (),
+                       pruned_nids: Iterable[tuple[int, int]] = ()):
+        pruned_words = set(pruned_nouns)
+
+        # Find the entities referred to by the pruned nouns
+        pruned_entities = set(pruned_nids)
+        for i, s in enumerate(sentences):
+            for j, word in enumerate(s):
+                if word in pruned_words:
+                    pruned_entities.add(corefd.get((i, j), (i, j)))
+
+        # Prune every mention of these entities
+        return [[j for j in range(len(s))
+                 if corefd.get((i, j), (i, j)) in pruned_entities]
+                for i, s in enumerate(sentences)]
 
     def text2circuit(self,
                      text: str,
@@ -349,10 +334,10 @@ class DisCoCircReader(Reader):
         freq_pruned_ids = [nid for nid, count in noun_counts.items()
                            if count < min_noun_freq]
 
-        pruned_nouns = set(pruned_nouns).union(
-                        {sentences[i][j] for (i, j) in freq_pruned_ids})
-
-        pruned_ids = self._prune_indices(sentences, corefs, pruned_nouns)
+        pruned_ids = self._prune_indices(sentences,
+                                         corefd,
+                                         pruned_nouns,
+                                         freq_pruned_ids)
 
         rewriter = TreeRewriter(rewrite_rules)
 
-- 
2.43.0


From b34977fbe0321d682240467cef5fb639ebe76d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 114/119] fix: do not use a cached model without a version when
 offline

---
 lambeq/text2diagram/model_based_reader/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/model_based_reader/base.py b/lambeq/text2diagram/model_based_reader/base.py
index 189175f..434de0f 100644
--- a/lambeq/text2diagram/model_based_reader/base.py
+++ b/lambeq/text2diagram/model_based_reader/base.py
@@ -110,6 +110,7 @@ class ModelBasedReader(Reader):
             self.model_dir = downloader.model_dir
             if (self.force_download
                     or not self.model_dir.is_dir()
+                    or downloader.get_local_model_version() is None
                     or downloader.model_is_stale()):
                 try:
                     downloader.download_model(self.verbose)
-- 
2.43.0


From 3badc51f00b93e9bb6dc45e251df7c0cae6109ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 115/119] fix: never report the empty label of a span

---
 lambeq/bobcat/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index f0060e5..bab678a 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -383,7 +383,7 @@ class Tagger:
                     for score, index in zip(scores, indices):
                         if score < threshold:
                             break
-                        elif index != 0 or output_batch == tag_output:
+                        elif index != 0 or output_batch is tag_output:
                             output.append((index, score))
 
         spans_list = [[(*idx2span(i), output)
-- 
2.43.0


From c3f38269472090f94be00b01b92090bfd01c00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:41 +0000
Subject: [PATCH 116/119] fix: trees of diagrams whose caps meet each other,
 swaps or several outputs

---
 .../text2diagram/pregroup_tree_converter.py   | 77 +++----------------
 1 file changed, 12 insertions(+), 65 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index bdf6c33..a8bef6d 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -79,47 +79,11 @@ def diagram2tree(diagram: Diagram,
                 box_ends = types_ind[left_len:]
 
             if isinstance(l.box, Cap):
-                if left_len < len(types_ind):
-                    box_left_end = types_ind[left_len]
-                else:
-                    box_left_end = types_ind[left_len - 1] + 1
-                words_by_typ_index = (words_by_typ_index[:box_left_end]
-                                      + [(None, None), (None, None)]
-                                      + words_by_typ_index[box_left_end:])
-                types = (types[:box_left_end]
-                         + [l.box.left, l.box.right]
-                         + types[box_left_end:])
-
-                box_ends = [box_left_end, box_left_end + 1]
-                new_boxes_absolute = []
-                for box_abs in boxes_absolute:
-                    if box_abs[1] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1] + 2,
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[1])] += 2
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    elif box_abs[2] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1],
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    else:
-                        new_boxes_absolute.append(box_abs)
-                boxes_absolute = new_boxes_absolute
-
-                # update node type indices
-                right_cod = [ind + 2 for ind in right_cod]
+                # the wires of a cap come after those of all words
+                box_ends = [len(types), len(types) + 1]
+                words_by_typ_index += [(None, None), (None, None)]
+                types += [l.box.left, l.box.right]
+                right_cod = types_ind[left_len:]
 
             assert len(box_ends) == 2
 
@@ -170,36 +134,19 @@ def diagram2tree(diagram: Diagram,
                     and (cap[1] in box[1:] or cap[2] in box[1:]))]
 
         if len(cups) == 2:
-            # three cases:
-            if max(cups[0][1], cups[1][1]) < cap[1]:
-                # cap is to the right of cups
-                new_cup_ends = [cups[0][1], cups[1][1]]
-            elif min(cups[0][2], cups[1][2]) > cap[2]:
-                # cap is to the left of cups
-                new_cup_ends = [cups[0][2], cups[1][2]]
-            else:
-                # cap is in the middle of the cups
-                new_cup_ends = [
-                    min(cups[0][1], cups[1][1]),
-                    max(cups[0][2], cups[1][2]),
-                ]
+            # the cups become one between their other ends
+            new_cup_ends = [end for cup in cups for end in cup[1:]
+                            if end not in cap[1:]]
 
             boxes_absolute.append((
                 'Cup', min(new_cup_ends), max(new_cup_ends)
             ))
         elif len(cups) == 1:
             # this cup-cap can be yanked to the free index
-            snake_inds = [
-                cups[0][1], cups[0][2],
-                cap[1], cap[2]
-            ]
-            assert types_ind[0] in snake_inds
-            if types_ind[0] == min(snake_inds):
-                types_ind = [max(snake_inds)]
-            elif types_ind[0] == max(snake_inds):
-                types_ind = [min(snake_inds)]
-            else:
-                raise Exception('Impossible case when removing caps.')
+            cup_ends, cap_ends = set(cups[0][1:]), set(cap[1:])
+            (free_end,) = cap_ends - cup_ends
+            (word_end,) = cup_ends - cap_ends
+            types_ind[types_ind.index(free_end)] = word_end
 
         for cup in cups:
             boxes_absolute.remove(cup)
-- 
2.43.0


From f243cd465daf7bd330906623650db978319550dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:16 +0000
Subject: [PATCH 117/119] fix: Decode words that look like Oncilla's root token

---
 lambeq/oncilla/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/oncilla/parser.py b/lambeq/oncilla/parser.py
index 73750d4..e24e0df 100644
--- a/lambeq/oncilla/parser.py
+++ b/lambeq/oncilla/parser.py
@@ -769,8 +769,8 @@ class BertForSentenceToTree(BertPreTrainedModel):
         current_wid = None
         for wid, t, p in zip(word_ids, type_preds, parent_preds):
             if wid is not None:
-                w = sentence_w_root[wid]
-                if w != ROOT_TOKEN and current_wid != wid:
+                # Word 0 is the root token
+                if wid != 0 and current_wid != wid:
                     current_wid = wid
                     true_type_preds.append(t)
                     true_parent_preds.append(p)
-- 
2.43.0


From 974184fd1335dfb81ca4d4a6f4e970fcc44ed26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:30 +0000
Subject: [PATCH 118/119] fix: currying no wires leaves the diagram as it is

---
 lambeq/backend/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 26ffa92..261bf4a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1129,7 +1129,8 @@ class Diagram(Entity):
         Id = self.id
 
         if left:
-            base, exponent = self.dom[:-n], self.dom[-n:]
+            split = max(len(self.dom) - n, 0)
+            base, exponent = self.dom[:split], self.dom[split:]
 
             return (Id(base) @ Cap(exponent, exponent.l)
                     >> self @ Id(exponent.l))
-- 
2.43.0


From a7bff22478a4de88099cfc9bf1eacbb96bfebdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:18 +0000
Subject: [PATCH 119/119] fix: adjoints and rotations of boxes given as maps of
 mixed states

---
 lambeq/backend/quantum.py | 50 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f80a2a6..4c69e63 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -154,6 +154,46 @@ class Box(tensor.Box):
     def is_classical(self) -> bool:
         return set(self.dom @ self.cod) == {bit}
 
+    @property
+    def array(self):
+        if not self.is_mixed or self.data is None:
+            return super().array
+        if self.z % 2:
+            return self._conjugate_array()
+        return get_backend().array(self.data)
+
+    @property
+    def _mixed_axes(self) -> list[int]:
+        """The groups of axes in the data of a mixed box.
+
+        These are the bits, then both copies of the qubits, of the
+        domain and then of the codomain.
+
+        """
+        return [list(ty).count(wire) for ty in (self.dom, self.cod)
+                for wire in (bit, qubit, qubit)]
+
+    def _adjoint_array(self):
+        if not self.is_mixed:
+            return super()._adjoint_array()
+        axes = self._mixed_axes
+        n_axes, n_dom = sum(axes), sum(axes[:3])
+        with backend() as np:
+            return np.conj(np.moveaxis(
+                self.array, tuple(range(n_axes)),
+                tuple((i - n_dom) % n_axes for i in range(n_axes))))
+
+    def _conjugate_array(self):
+        if not self.is_mixed:
+            return super()._conjugate_array()
+        target: list[int] = []
+        for n in self._mixed_axes:
+            target += range(len(target) + n - 1, len(target) - 1, -1)
+        with backend() as np:
+            return np.conj(np.moveaxis(
+                np.array(self.data), tuple(range(len(target))),
+                tuple(target)))
+
     def dagger(self) -> Daggered | Box:
         """Return the dagger of the box."""
         if self.self_adjoint:
@@ -161,6 +201,13 @@ class Box(tensor.Box):
 
         return Daggered(self)
 
+    def rotate(self, z: int) -> Self:
+        """Rotate the box, keeping what is known about it."""
+        box = super().rotate(z)
+        box.is_mixed = self.is_mixed
+        box.self_adjoint = self.self_adjoint
+        return box
+
     def lambdify(self, *symbols, **kwargs):
         """Return a lambda function that evaluates the box."""
         fn = super().lambdify(*symbols, **kwargs)
@@ -564,8 +611,7 @@ class Diagram(tensor.Diagram):
                     node = tn.CopyNode(2, 2, 'cq_' + str(box), dtype=complex,
                                        backend=tn_backend)
                 else:
-                    data = box.array if box.is_classical else box.data
-                    node = tn.Node(data + 0j, 'cq_' + str(box),
+                    node = tn.Node(box.array + 0j, 'cq_' + str(box),
                                    backend=tn_backend)
 
                 c_dom = list(box.dom).count(bit)
-- 
2.43.0

