From 45f0c9666c14c6658fd4c985228e1ae87e2ac584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 01/41] fix: keep the binding schema apart from the bound value

Bound values were merged into the model which is also the description of
values used by template. Values of other types destroyed this description,
arrays and objects used as leaf values lost or kept stale items (or panicked),
transformers got empty objects, and callbacks sent only the tracked fields.
---
 src/view_model.rs | 186 ++++++++++++++--------------------------------
 1 file changed, 55 insertions(+), 131 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 2e36b42..6857da4 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -18,8 +18,10 @@ pub type Transformer = fn(Value) -> Value;
 
 pub struct ViewModel {
     pub(crate) bindings: Bindings,
-    model: Value,
-    model_array_default: HashMap<String, Value>,
+    /// The structure of the values used by bindings, never changed by bound values.
+    schema: Value,
+    /// The last bound value, not defined until the first binding.
+    value: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
     // state
     // pub(crate) focus: Option<NodeId>,
@@ -33,12 +35,10 @@ pub struct ViewModel {
 
 impl ViewModel {
     pub fn create(bindings: Bindings, model: Value) -> Self {
-        let mut model_array_default = HashMap::new();
-        Self::memorize_array_default("", &model, &mut model_array_default);
         Self {
             bindings,
-            model,
-            model_array_default,
+            schema: model,
+            value: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
             elements_under_mouse: Vec::new(),
@@ -49,159 +49,79 @@ impl ViewModel {
         }
     }
 
-    fn memorize_array_default(
-        type_path: &str,
-        value: &Value,
-        default: &mut HashMap<String, Value>,
-    ) {
-        match value {
-            Value::Array(array) => {
-                default.insert(type_path.to_string(), array[0].clone());
-                Self::memorize_array_default(type_path, &array[0], default)
-            }
-            Value::Object(object) => {
-                for (key, value) in object {
-                    Self::memorize_array_default(&format!("{type_path}/{key}"), value, default)
-                }
-            }
-            _ => {}
-        }
-    }
-
     pub fn bind(&mut self, value: &Value) -> Vec<Reaction> {
         let mut reactions = vec![];
+        let current = self.value.replace(value.clone());
         Self::bind_value(
-            &mut self.model,
+            &self.schema,
+            current.as_ref(),
             value,
             "",
-            "",
             &self.bindings,
             &mut reactions,
             &self.transformers,
-            &self.model_array_default,
         );
         reactions
     }
 
+    /// Compares the current value (if it was bound before) with the next one following
+    /// the structure of schema and collects reactions of all bindings affected by changes.
     pub fn bind_value(
-        mut dst: &mut Value,
-        src: &Value,
+        schema: &Value,
+        current: Option<&Value>,
+        next: &Value,
         path: &str,
-        arrays_path: &str,
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
-        default: &HashMap<String, Value>,
-    ) -> bool {
-        match (&mut dst, src) {
-            (Value::Array(current), Value::Array(next)) => {
-                let mut array_changed = false;
-                if current.len() != next.len() {
-                    if let Some(default) = default.get(arrays_path).cloned() {
-                        array_changed = true;
-                        current.resize(next.len(), default);
-                        Self::react(path, src, bindings, reactions, transformers);
-                    } else {
-                        error!("unable to resize array {path} default not found");
-                    }
-                }
-                for (index, dst) in current.iter_mut().enumerate() {
-                    let src = &next[index];
-                    let path = format!("{path}/{index}");
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        arrays_path,
-                        bindings,
-                        reactions,
-                        transformers,
-                        default,
-                    );
-                    array_changed = array_changed || changed;
-                }
-                array_changed
-            }
-            (Value::Array(current), Value::Null) => {
-                if current.len() != 0 {
-                    current.clear();
-                    Self::react(
-                        path,
-                        &Value::Array(vec![]),
-                        bindings,
-                        reactions,
-                        transformers,
-                    );
-                    true
-                } else {
-                    false
+    ) {
+        if current == Some(next) {
+            return;
+        }
+        match schema {
+            Value::Array(schema) => {
+                if !next.is_array() && !next.is_null() {
+                    error!("unable to bind '{path}', must be array");
                 }
-            }
-            (Value::Array(_), _) => {
-                error!("unable to bind '{path}', must be array");
-                false
-            }
-            (Value::Object(object), Value::Object(src)) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let undefined = Value::Null;
-                    let src = match src.get(key) {
-                        Some(src) => src,
-                        None => {
-                            // error!("unable to bind '{path}', must be specified");
-                            &undefined
-                        }
-                    };
-                    let changed = Self::bind_value(
-                        dst,
-                        src,
-                        &path,
-                        &arrays_path,
+                // everything that is not array treated as empty array
+                let empty = Value::Array(vec![]);
+                let next = if next.is_array() { next } else { &empty };
+                let items = next.as_array().unwrap();
+                let current = current.map(|current| match current {
+                    Value::Array(current) => current.as_slice(),
+                    _ => &[],
+                });
+                let resized = current.map(|current| current.len()) != Some(items.len());
+                // bindings without transformers do not depend on array items
+                Self::react(path, next, bindings, reactions, transformers, !resized);
+                for (index, (schema, next)) in schema.iter().zip(items).enumerate() {
+                    Self::bind_value(
+                        schema,
+                        current.and_then(|current| current.get(index)),
+                        next,
+                        &format!("{path}/{index}"),
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
                 }
-                if object_changed {
-                    Self::react(path, &json!({}), bindings, reactions, transformers);
-                }
-                object_changed
             }
-            (Value::Object(object), Value::Null) => {
-                let mut object_changed = false;
-                for (key, dst) in object.iter_mut() {
-                    let path = format!("{path}/{key}");
-                    let arrays_path = format!("{arrays_path}/{key}");
-                    let changed = Self::bind_value(
-                        dst,
-                        &Value::Null,
-                        &path,
-                        &arrays_path,
+            Value::Object(schema) => {
+                let undefined = Value::Null;
+                for (key, schema) in schema {
+                    Self::bind_value(
+                        schema,
+                        current.map(|current| current.get(key).unwrap_or(&undefined)),
+                        next.get(key).unwrap_or(&undefined),
+                        &format!("{path}/{key}"),
                         bindings,
                         reactions,
                         transformers,
-                        default,
                     );
-                    object_changed = object_changed || changed;
-                }
-                if object_changed {
-                    Self::react(path, &Value::Null, bindings, reactions, transformers);
-                }
-                object_changed
-            }
-            (dst, src) => {
-                if *dst != src {
-                    **dst = src.clone();
-                    Self::react(path, src, bindings, reactions, transformers);
-                    true
-                } else {
-                    false
                 }
+                Self::react(path, next, bindings, reactions, transformers, false);
             }
+            _ => Self::react(path, next, bindings, reactions, transformers, false),
         }
     }
 
@@ -212,6 +132,7 @@ impl ViewModel {
         bindings: &Bindings,
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
+        only_transformed: bool,
     ) {
         if let Some(bindings) = bindings.get(path) {
             for binding in bindings {
@@ -228,7 +149,7 @@ impl ViewModel {
                         }
                     }
                     reactions.push(binding.react_value_change(&value));
-                } else {
+                } else if !only_transformed {
                     reactions.push(binding.react_value_change(value))
                 }
             }
@@ -460,8 +381,11 @@ impl ViewModel {
                         }
                     },
                     HandlerArgument::Binder { path, pipe } => {
-                        let mut value = match self.model.pointer(&path).cloned() {
+                        let value = self.value.as_ref().and_then(|value| value.pointer(&path));
+                        let mut value = match value.cloned() {
                             Some(value) => value,
+                            // specified by template but undefined in the current value
+                            None if self.schema.pointer(&path).is_some() => Value::Null,
                             None => {
                                 error!("unable to get value at {path:?}, not found");
                                 continue;
-- 
2.43.0


From 1d6edfc572c38e189733777ad98f9c5d7639b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 02/41] fix: show repeated elements at their places among
 siblings

Elements hidden by a reduced array and shown again were added after all
siblings which follow the repeated element.
---
 src/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 447100f..b907c65 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -240,7 +240,12 @@ impl View {
                 let hidden = &children[cursor..end];
                 for node in shown {
                     if !visible.contains(node) {
-                        self.tree.add_child(parent, *node)?;
+                        // siblings after repeated elements must keep their places
+                        self.update_tree(Reaction::Reattach {
+                            parent,
+                            node: *node,
+                            visible: true,
+                        })?;
                     }
                 }
                 for node in hidden {
-- 
2.43.0


From 5bb7dfdef8415934f284362495416f31fdfb56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 03/41] fix: reset layout, cursor and visibility when styles
 stop matching

These values were written over the values of the previous frame, so properties
of a style that no longer applies to an element were never removed.
---
 src/styles/default.rs | 2 ++
 src/view.rs           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/styles/default.rs b/src/styles/default.rs
index 3f85bcf..8f1a595 100644
--- a/src/styles/default.rs
+++ b/src/styles/default.rs
@@ -28,6 +28,8 @@ pub(crate) fn reset_element_style(element: &mut Element) {
         align: TextAlign::Start,
     };
     element.self_opacity = 1.0;
+    element.pointer = Pointer::Auto;
+    element.visible = true;
 }
 
 pub fn create_element(node: NodeId) -> Element {
diff --git a/src/view.rs b/src/view.rs
index b907c65..9a4de89 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -2,7 +2,7 @@ use crate::css::{match_style, read_css, read_inline_css, Css, PseudoClassMatcher
 use crate::html::{read_html, ElementBinding, Html};
 use crate::metrics::ViewMetrics;
 use crate::rendering::{Renderer, RendererTranslator};
-use crate::styles::{inherit, Cascade, Scrolling, Sizes, Variables};
+use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
 use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
@@ -375,7 +375,8 @@ impl View {
             // TODO:
             &*ptr
         };
-        let mut layout = self.tree.style(node)?.clone();
+        // styles that no longer match must not leave their values
+        let mut layout = default_layout();
         let element = unsafe {
             let ptr = self.tree.get_element_mut(node)? as *mut Element;
             &mut *ptr
-- 
2.43.0


From a01f12fc4761337d27d89c099183302ba9575a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 04/41] fix: measure text again when its font changes

Layout cache of a text node was kept after changes of inherited font, so text
kept the size measured with the previous font.
---
 src/element.rs | 4 ++--
 src/view.rs    | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 4331351..ad8201f 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -278,7 +278,7 @@ pub enum ObjectFit {
     ScaleDown,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub struct FontFace {
     /// The font family.
     pub family: String,
@@ -297,7 +297,7 @@ pub struct FontFace {
     pub align: TextAlign,
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum TextAlign {
     Start,
     End,
diff --git a/src/view.rs b/src/view.rs
index 9a4de89..567b6a6 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -383,7 +383,12 @@ impl View {
         };
 
         if element.text.is_some() {
+            let font = element.font.clone();
             inherit(parent, element);
+            if element.font != font {
+                // text size depends on font
+                self.tree.mark_dirty(node)?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From 5fc0ef4f4f217492c64802e460b5f10b9c85025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 05/41] fix: do not scroll in direction where content does not
 overflow

Scroll offset was limited by negative overflow, which moved all children of
an element with the content that overflows it only in the other direction.
---
 src/styles/scrolling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/styles/scrolling.rs b/src/styles/scrolling.rs
index 5c7b80a..e3fba24 100644
--- a/src/styles/scrolling.rs
+++ b/src/styles/scrolling.rs
@@ -17,8 +17,9 @@ impl Scrolling {
             .map(|current| [current.x, current.y])
             .unwrap_or_default();
         if content.width > size.width || content.height > size.height {
-            let scroll_x = content.width - size.width;
-            let scroll_y = content.height - size.height;
+            // content can overflow the element only in one direction
+            let scroll_x = (content.width - size.width).max(0.0);
+            let scroll_y = (content.height - size.height).max(0.0);
             let scrolling = Scrolling {
                 x: x.min(scroll_x),
                 y: y.min(scroll_y),
-- 
2.43.0


From 0bb412c679f0cce0baaeb67cf48a4766307335cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 06/41] fix: bound the time of animations

Cycles were subtracted one by one, which takes forever after a long frame or
with a duration that is too small for the accumulated time, and the ever
growing time of infinite animations stopped them because of f32 precision.
Zero duration produced NaN progress.
---
 src/animation.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 9f40a49..0433ee6 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -149,7 +149,10 @@ impl Animator {
     }
 
     pub fn update(&mut self, time: f32) -> Option<f32> {
-        if self.running && self.duration > 0.0 {
+        if self.duration <= 0.0 {
+            return None;
+        }
+        if self.running {
             self.time += time;
         }
         let t = self.time - self.delay;
@@ -160,9 +163,16 @@ impl Animator {
             AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
             AnimationIterations::Infinite => t,
         };
-        // use this loop instead of % to stop at last frame 1.0 (100%)
-        while t > self.duration {
-            t -= self.duration;
+        if t > self.duration {
+            t %= self.duration;
+            // stop at last frame 1.0 (100%)
+            if t == 0.0 {
+                t = self.duration;
+            }
+            if let AnimationIterations::Infinite = self.iterations {
+                // forget completed cycles to not lose precision of the growing time
+                self.time = self.delay + t;
+            }
         }
         let x = t / self.duration;
         Some(x)
-- 
2.43.0


From daa81e9abe487c6dd8c1cd30b0c621217328e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 07/41] fix: transitions without initial value, duration or
 with delay

Transition of a property that had no value before looped forever, the final
value was shown until delay expired, and zero duration produced NaN values.
---
 src/animation.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 0433ee6..c34b460 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -47,10 +47,13 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        let time = match self.animator.update(time) {
-            Some(time) => time,
-            None => return,
-        };
+        if self.animator.duration <= 0.0 {
+            // value changes immediately
+            self.range = None;
+            return;
+        }
+        // hold the initial value until delay expires
+        let time = self.animator.update(time).unwrap_or(0.0);
         let mut index = 0;
         loop {
             let descriptor = PropertyDescriptor::new(key, index);
@@ -60,9 +63,7 @@ impl Transition {
             };
             let (from, to) = match self.range.as_ref() {
                 Some(range) => range,
-                None => {
-                    continue;
-                }
+                None => return,
             };
             let current = animate(key, &from, &to, time);
             if to != value {
-- 
2.43.0


From 708b8ad458bef5294f53e1dccc39f9018f93f7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 08/41] fix: stop animations and transitions which are no
 longer specified

Animators were configured by applied styles but never removed or reset, so
animation continued after the style that starts it stopped matching.
---
 src/animation.rs  |  9 +++++++++
 src/styles/mod.rs | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c34b460..745a131 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -3,6 +3,7 @@ use crate::css::{
     AnimationTrack, ComputedStyle, ComputedValue, Dim, PropertyDescriptor, PropertyKey,
 };
 use crate::Rgba;
+use std::mem::take;
 
 #[derive(Clone)]
 pub struct Transition {
@@ -115,6 +116,14 @@ impl Animator {
         self.time = 0.0;
     }
 
+    pub fn reset_settings(&mut self) {
+        *self = Self {
+            name: take(&mut self.name),
+            time: self.time,
+            ..Default::default()
+        };
+    }
+
     pub fn play(&mut self, time: f32, tracks: &Vec<AnimationTrack>, style: &mut ComputedStyle) {
         if let Some(time) = self.update(time) {
             let step = (time * 100.0) as u32;
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 76607ea..4fef65a 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -16,9 +16,10 @@ use log::error;
 use std::collections::HashMap;
 use taffy::{NodeId, TaffyTree};
 
+use crate::animation::{Animator, Transition};
 use crate::css::{
-    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PseudoClassMatcher,
-    Shorthand, Variable,
+    match_style, ComputedStyle, ComputedValue, Css, Declaration, Definition, PropertyDescriptor,
+    PropertyKey, PseudoClassMatcher, Shorthand, Variable,
 };
 
 use crate::styles::stats::CascadeStats;
@@ -95,7 +96,11 @@ impl<'c> Cascade<'c> {
         }
         // 3: animations
         let time = input.time.as_secs_f32();
+        drop_unused_animators(element, &computed_style);
         for animator in element.animators.iter_mut() {
+            if animator.name.is_empty() {
+                continue;
+            }
             // TODO: animation blending
             let animation = match self.css.animations.get(&animator.name) {
                 Some(animation) => animation,
@@ -113,6 +118,13 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.play(time, &mut computed_style);
         }
+        // settings of animators must be defined only by current styles
+        for animator in element.animators.iter_mut() {
+            animator.reset_settings();
+        }
+        for transition in element.transitions.iter_mut() {
+            transition.animator.reset_settings();
+        }
         for (property, value) in &computed_style {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
@@ -178,6 +190,28 @@ impl<'c> Cascade<'c> {
     }
 }
 
+/// Animations and transitions that are no longer specified must not be played,
+/// the other ones specified instead of them must start from the beginning.
+fn drop_unused_animators(element: &mut Element, style: &ComputedStyle) {
+    let keyword = |key: PropertyKey, index: usize| {
+        match style.get(&PropertyDescriptor::new(key, index)) {
+            Some(ComputedValue::Keyword(keyword)) => Some(keyword.as_str()),
+            _ => None,
+        }
+    };
+    for (index, animator) in element.animators.iter_mut().enumerate() {
+        if keyword(PropertyKey::AnimationName, index) != Some(animator.name.as_str()) {
+            *animator = Animator::default();
+        }
+    }
+    for (index, transition) in element.transitions.iter_mut().enumerate() {
+        let property = keyword(PropertyKey::TransitionProperty, index);
+        if property.and_then(PropertyKey::parse) != transition.key {
+            *transition = Transition::default();
+        }
+    }
+}
+
 #[derive(Clone, Copy)]
 pub struct Sizes {
     pub root_font_size: f32,
-- 
2.43.0


From 5a3aa6fadab9a2c5c509d90fb969902901a35aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 09/41] fix: interpolate numbers and dimensions from and to
 zero

Zero is a separate computed value, so animations like opacity from 0 to 1 were
discrete.
---
 src/animation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 745a131..38e49aa 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -208,6 +208,10 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
             }
         }
         (Zero, Percentage(b)) => percentage(&0.0, b, t),
+        (Number(a), Zero) => number(a, &0.0, t),
+        (Zero, Number(b)) => number(&0.0, b, t),
+        (Dimension(a), Zero) => dimension(a, &Dim { value: 0.0, ..*a }, t),
+        (Zero, Dimension(b)) => dimension(&Dim { value: 0.0, ..*b }, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
         (Color(a), Color(b)) => color(a, b, t),
         (a, b) => {
-- 
2.43.0


From 880849a6d6b1b75451178b421822e145577e6392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 10/41] fix: support zero as value of flex factors, border
 radius

These properties ignored zero, flex-shrink: 0 left the default value of 1.
---
 src/styles/apply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 934bb8d..5eb38e4 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -233,7 +233,9 @@ impl<'c> Cascade<'c> {
                 }
             }
             (PropertyKey::FlexBasis, value) => layout.flex_basis = dimension(value, self)?,
+            (PropertyKey::FlexGrow, ComputedValue::Zero) => layout.flex_grow = 0.0,
             (PropertyKey::FlexGrow, ComputedValue::Number(value)) => layout.flex_grow = *value,
+            (PropertyKey::FlexShrink, ComputedValue::Zero) => layout.flex_shrink = 0.0,
             (PropertyKey::FlexShrink, ComputedValue::Number(value)) => layout.flex_shrink = *value,
             (PropertyKey::ColumnGap, column) => {
                 layout.gap.width = lengthp(column, self)?;
@@ -503,6 +505,7 @@ fn dimension(value: &ComputedValue, cascade: &Cascade) -> Result<Dimension, Casc
 
 fn length(value: &ComputedValue, cascade: &Cascade) -> Result<Length, CascadeError> {
     let value = match value {
+        ComputedValue::Zero => Length::zero(),
         ComputedValue::Dimension(dimension) => {
             let length = parse_dimension_length(dimension, cascade)?;
             Length::Number(length)
-- 
2.43.0


From 476d545155bca9633d83c4e424c2545628c285a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 11/41] fix: match the sibling right before element by
 next-sibling combinator

Selector took the sibling before the previous one and panicked on the second
child because of index underflow.
---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 6619247..342427c 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -55,7 +55,7 @@ fn find_next_target(combinator: char, target: &mut NodeId, tree: &TaffyTree<Elem
                     .iter()
                     .skip(1)
                     .position(|child| *child == *target)
-                    .and_then(|child| children.get(child - 1).cloned())
+                    .and_then(|previous| children.get(previous).cloned())
             }),
         _ => {
             // TODO: multi-target selector match
-- 
2.43.0


From 4173288654907e5ffebf21b72eec287a54807391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 12/41] fix: match rules with combinators against changed
 ancestors and siblings

Rules were classified as static by attributes of the target element only, so
rule that depends on a dynamic attribute of the parent or on a shown sibling
was applied or discarded forever.
---
 src/css/matching.rs |  9 +++++++++
 src/view.rs         | 25 ++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 342427c..56193d8 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -150,6 +150,15 @@ impl Style {
         })
     }
 
+    pub fn has_combinator(&self, combinator: char) -> bool {
+        self.selectors.iter().any(|complex| {
+            complex
+                .selectors
+                .iter()
+                .any(|selector| selector.as_combinator() == Some(combinator))
+        })
+    }
+
     pub fn has_pseudo_class_selector(&self) -> bool {
         self.selectors.iter().any(|complex| {
             complex.selectors.iter().any(|selector| match selector {
diff --git a/src/view.rs b/src/view.rs
index 567b6a6..ede53fd 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -5,7 +5,10 @@ use crate::rendering::{Renderer, RendererTranslator};
 use crate::styles::{default_layout, inherit, Cascade, Scrolling, Sizes, Variables};
 use crate::tree::ViewTreeExtensions;
 use crate::view_model::{Reaction, ViewModel};
-use crate::{BindingParams, Element, ElementStyle, Fonts, Input, Output, Transformer, ViewError};
+use crate::{
+    BindingParams, Element, ElementStyle, ElementStyleHints, Fonts, Input, Output, Transformer,
+    ViewError,
+};
 use log::error;
 use mesura::GaugeValue;
 use serde_json::Value;
@@ -329,15 +332,27 @@ impl View {
                 true
             }
         }
+        let mut ancestors_hints = vec![];
+        let mut ancestor = self.tree.parent(node);
+        while let Some(node) = ancestor {
+            ancestors_hints.push(self.tree.get_element(node)?.style_hints.clone());
+            ancestor = self.tree.parent(node);
+        }
         for style in self.css.styles.iter() {
             let matches_ignoring_pseudo = match_style(style, node, &self.tree, &Matcher);
             let element = self.tree.get_element_mut(node)?;
             let hints = &element.style_hints;
             let has_pseudo = style.has_pseudo_class_selector();
-            let is_static = !hints.has_dynamic_properties()
-                || (!style.has_attrs_selector(&hints.dynamic_attrs)
-                    && (!hints.has_dynamic_classes || !style.has_class_selector())
-                    && (!hints.has_dynamic_id || !style.has_id_selector()));
+            let is_static_by = |hints: &ElementStyleHints| {
+                !hints.has_dynamic_properties()
+                    || (!style.has_attrs_selector(&hints.dynamic_attrs)
+                        && (!hints.has_dynamic_classes || !style.has_class_selector())
+                        && (!hints.has_dynamic_id || !style.has_id_selector()))
+            };
+            // siblings can be shown or hidden, attributes of ancestors can be changed
+            let is_static = is_static_by(hints)
+                && !style.has_combinator('+')
+                && (!style.has_combinator('>') || ancestors_hints.iter().all(is_static_by));
             if matches_ignoring_pseudo {
                 if is_static && !has_pseudo {
                     element.styles.push(ElementStyle::Static(style.clone()));
-- 
2.43.0


From a409c2b233b16c9198337a67ea56a48cc4dabfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/41] fix: match attribute values with dash suffix

[attr|=value] must match values which start with the value followed by hyphen.
---
 src/css/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 56193d8..33fec12 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -103,7 +103,7 @@ fn match_simple_selector(
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
                     Matcher::Include => attr.split(" ").any(|word| word == value),
-                    Matcher::DashMatch => attr == value || attr == &format!("-{value}"),
+                    Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
                     Matcher::Suffix => attr.ends_with(value),
-- 
2.43.0


From da7c6df3e0210b51b311f47acf2f4c1e6e69b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/41] fix: handle batched events with mouse position of their
 time

All events of a batch reported the last position, and events before the first
move were sent to elements which could be already hidden or moved away.
---
 src/view_model.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 6857da4..3ac4198 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -162,17 +162,11 @@ impl ViewModel {
         body: NodeId,
         tree: &mut TaffyTree<Element>,
     ) -> Result<Output, ViewError> {
-        let mut has_mouse_move = false;
         let mut events = input.events.clone();
-        for event in events.iter() {
-            match *event {
-                InputEvent::MouseMove(mouse) => {
-                    self.mouse = mouse;
-                    has_mouse_move = true;
-                }
-                _ => {}
-            }
-        }
+        let has_mouse_move = match events.first() {
+            Some(InputEvent::MouseMove(_)) => true,
+            _ => false,
+        };
         if !has_mouse_move {
             // fake event to recalculate hovers event user not move mouse
             // need because CSS animation can change elements size and we need handle this
@@ -206,6 +200,7 @@ impl ViewModel {
             match event {
                 InputEvent::Unknown => {}
                 InputEvent::MouseMove(position) => {
+                    self.mouse = position;
                     let previous_update = take(&mut self.elements_under_mouse);
                     self.calculate_mouse_hovers(tree, body, position)?;
                     for node in previous_update.iter().rev() {
-- 
2.43.0


From af80ee9131d3e7d76e320474bdd70a4c76eae65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 15/41] fix: end drag released outside of drop targets

Drag was ended only by release over an element with ondrop listener, otherwise
it captured input and suppressed all clicks forever. Nested draggable elements
started two drags but only one of them was ended.
---
 src/view_model.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 3ac4198..727549c 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -237,6 +237,10 @@ impl ViewModel {
                     }
                 }
                 InputEvent::MouseButtonDown(button) => {
+                    if button == MouseButtons::Left {
+                        // release of the previous drag was lost
+                        self.end_drag(tree)?;
+                    }
                     if let Some(focus) = self.focus {
                         if !self.elements_under_mouse.contains(&focus) {
                             self.focus = None;
@@ -275,7 +279,11 @@ impl ViewModel {
 
                         let event = MouseEvent::new(self.mouse, element);
                         self.emit(&element, "onmousedown", event);
-                        if button == MouseButtons::Left && element.draggable() {
+                        // only the innermost draggable element can be dragged
+                        if button == MouseButtons::Left
+                            && element.draggable()
+                            && self.drag.is_none()
+                        {
                             let event = MouseEvent::new(self.mouse, element);
                             self.emit(element, "ondragstart", event);
                             self.drag = DragContext::new(node);
@@ -310,6 +318,10 @@ impl ViewModel {
                             }
                         }
                     }
+                    if button == MouseButtons::Left {
+                        // released outside of drop targets
+                        self.end_drag(tree)?;
+                    }
                     for node in take(&mut self.elements_in_action) {
                         let element = tree.get_element_mut(node)?;
                         element.state.active = false;
@@ -342,6 +354,15 @@ impl ViewModel {
         Ok(())
     }
 
+    fn end_drag(&mut self, tree: &mut TaffyTree<Element>) -> Result<(), ViewError> {
+        if let Some(drag) = self.drag.take() {
+            let element = tree.get_element_mut(drag.source)?;
+            let event = MouseEvent::new(self.mouse, element);
+            self.emit(element, "ondragend", event);
+        }
+        Ok(())
+    }
+
     fn calculate_mouse_hovers(
         &mut self,
         tree: &TaffyTree<Element>,
-- 
2.43.0


From d09e65efe281bcc3a25bfba0e7d067846553b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 16/41] fix: do not click ancestors of the drop target

Release that ends drag was handled as click by elements under the drop target.
---
 src/view_model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 727549c..8b0f102 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -291,6 +291,7 @@ impl ViewModel {
                     }
                 }
                 InputEvent::MouseButtonUp(button) => {
+                    let is_drag = self.drag.is_some();
                     let elements_under_mouse = self.elements_under_mouse.clone();
                     for node in elements_under_mouse.iter().rev() {
                         let element = tree.get_element_mut(*node)?;
@@ -307,7 +308,7 @@ impl ViewModel {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(element, "ondragend", event);
                             }
-                        } else {
+                        } else if !is_drag {
                             if button == MouseButtons::Left && element.state.active {
                                 let event = MouseEvent::new(self.mouse, element);
                                 self.emit(&element, "onclick", event);
-- 
2.43.0


From 782f96d8cc7b1ed98b4ec9b0bf22e339211311cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 17/41] fix: blur focused element when it is hidden

Element removed by a condition or repeat kept focus and keyboard events.
---
 src/view_model.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 8b0f102..d31c5a8 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -174,6 +174,7 @@ impl ViewModel {
             events.insert(0, InputEvent::MouseMove(self.mouse))
         }
         self.output = Output::new();
+        self.blur_hidden_element(body, tree)?;
         self.handle_elements_input(events, body, tree)?;
         for node in self.elements_under_mouse.iter() {
             if let Ok(element) = tree.get_element(*node) {
@@ -355,6 +356,28 @@ impl ViewModel {
         Ok(())
     }
 
+    /// Element that is not shown anymore can't keep keyboard focus.
+    fn blur_hidden_element(
+        &mut self,
+        body: NodeId,
+        tree: &mut TaffyTree<Element>,
+    ) -> Result<(), ViewError> {
+        if let Some(focus) = self.focus {
+            let mut shown = Some(focus);
+            while shown.is_some() && shown != Some(body) {
+                shown = shown.and_then(|node| tree.parent(node));
+            }
+            if shown.is_none() {
+                self.focus = None;
+                let element = tree.get_element_mut(focus)?;
+                element.state.focus = false;
+                let event = MouseEvent::new(self.mouse, element);
+                self.emit(element, "onblur", event);
+            }
+        }
+        Ok(())
+    }
+
     fn end_drag(&mut self, tree: &mut TaffyTree<Element>) -> Result<(), ViewError> {
         if let Some(drag) = self.drag.take() {
             let element = tree.get_element_mut(drag.source)?;
-- 
2.43.0


From a0d98bf0acaae95eb81f431cb08c0057013e7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 18/41] fix: forget the previous id of element

get_element_by_id returned elements by all identifiers they ever had.
---
 src/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/view.rs b/src/view.rs
index ede53fd..f64dc57 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -288,6 +288,7 @@ impl View {
                     }
                 }
                 if key == "id" {
+                    self.identified.retain(|_, identified| *identified != node);
                     self.identified.insert(value.clone(), node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
-- 
2.43.0


From d7df16233438a15b49d989517be3f8ff0bfa591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 19/41] fix: do not panic in duration transformer

Negative and too large numbers can't be represented as duration.
---
 src/view_model.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index d31c5a8..613ef27 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -728,11 +728,13 @@ fn default_transformers() -> HashMap<String, Transformer> {
     fn duration(value: Value) -> Value {
         match value.as_f64() {
             None => value,
-            Some(value) => {
-                let value = Duration::from_secs_f64(value);
-                let value = format!("{value:?}");
-                Value::String(value)
-            }
+            Some(seconds) => match Duration::try_from_secs_f64(seconds) {
+                Ok(duration) => Value::String(format!("{duration:?}")),
+                Err(error) => {
+                    error!("unable to represent {value} as duration, {error}");
+                    value
+                }
+            },
         }
     }
     let mut transformers = HashMap::new();
-- 
2.43.0


From 923c0dadc268764380977c6f9b5fa43cdcccfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 20/41] fix: trim names of transformers

Transformer was not found when its name is followed by space: { value | name }
---
 src/html/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/reader.rs b/src/html/reader.rs
index 5f2adaa..ae818ee 100644
--- a/src/html/reader.rs
+++ b/src/html/reader.rs
@@ -257,7 +257,7 @@ fn parse_binder(pair: Pair<Rule>) -> Binder {
                     .map(|key| key.as_str().to_string())
                     .collect();
             }
-            Rule::Transformer => pipe.push(next.as_str().to_string()),
+            Rule::Transformer => pipe.push(next.as_str().trim().to_string()),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From f78661b2d440bb385850a6844ad3dcfb2325f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 21/41] fix: detect cyclic dependencies of variables

Variable that refers to itself overflowed the stack.
---
 src/styles/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index 4fef65a..b30c2e8 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -13,6 +13,7 @@ pub use inherit::inherit;
 pub use scrolling::*;
 
 use log::error;
+use std::cell::RefCell;
 use std::collections::HashMap;
 use taffy::{NodeId, TaffyTree};
 
@@ -30,6 +31,8 @@ use crate::{Element, ElementStyle, Input};
 pub struct Cascade<'c> {
     css: &'c Css,
     pub variables: Variables,
+    /// The names of variables which values are being computed.
+    resolving: RefCell<Vec<String>>,
     sizes: Sizes,
     pub stats: CascadeStats,
 }
@@ -55,6 +58,7 @@ impl<'c> Cascade<'c> {
         Self {
             css,
             variables,
+            resolving: RefCell::new(vec![]),
             sizes,
             stats: CascadeStats::default(),
         }
@@ -171,7 +175,14 @@ impl<'c> Cascade<'c> {
                             continue;
                         }
                     };
+                    if self.resolving.borrow().contains(name) {
+                        error!("unable to compute variable {name}, cyclic dependency");
+                        shorthand.push(ComputedValue::Error);
+                        continue;
+                    }
+                    self.resolving.borrow_mut().push(name.clone());
                     self.compute_shorthand(definition, shorthand);
+                    self.resolving.borrow_mut().pop();
                 }
                 Definition::Function(function) => self.compute_function(function, shorthand),
                 Definition::Explicit(value) => shorthand.push(value.clone()),
-- 
2.43.0


From 045ea7813925881c59a3211afa5f0a0ee94bcc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 22/41] fix: resolve items of repeat outside of the scope of
 its item name

Nested repeat over a part of the outer item, which uses the same name, was
bound to wrong paths.
---
 src/rendering.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index a090120..b027936 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -262,9 +262,12 @@ impl Renderer {
                             .entry(array.clone())
                             .or_default()
                             .push(binding);
+                        // array can be specified using local with the same name as item has
+                        let items: Vec<String> = (0..count)
+                            .map(|n| self.schema.index(binder, n, &self.locals))
+                            .collect();
                         let overridden = self.locals.remove(name);
-                        for n in 0..count {
-                            let path = self.schema.index(binder, n, &self.locals);
+                        for path in items {
                             self.locals.insert(name.to_string(), path);
                             let child = child.clone();
                             let child = self.render_node(child)?;
-- 
2.43.0


From 4c9709e911a36ce2ac9395121b5429c41eafed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 23/41] fix: keep other elements with the same id when one of
 them loses it

---
 src/rendering.rs |  4 ++--
 src/view.rs      | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index b027936..670c809 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,7 +14,7 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
-    pub static_id: HashMap<String, NodeId>,
+    pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
 
@@ -119,7 +119,7 @@ impl Renderer {
                         }
                     }
                     if key == "id" {
-                        self.static_id.insert(value.clone(), node);
+                        self.static_id.entry(value.clone()).or_default().push(node);
                     }
                     element.attrs.insert(key, value);
                 }
diff --git a/src/view.rs b/src/view.rs
index f64dc57..232ec69 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -27,7 +27,8 @@ pub struct View {
     resources: String,
     pub fonts: Box<dyn Fonts>,
     metrics: ViewMetrics,
-    identified: HashMap<String, NodeId>,
+    /// Elements by identifier, the last one is the latest which got it.
+    identified: HashMap<String, Vec<NodeId>>,
 }
 
 impl View {
@@ -288,8 +289,11 @@ impl View {
                     }
                 }
                 if key == "id" {
-                    self.identified.retain(|_, identified| *identified != node);
-                    self.identified.insert(value.clone(), node);
+                    self.identified.retain(|_, identified| {
+                        identified.retain(|identified| *identified != node);
+                        !identified.is_empty()
+                    });
+                    self.identified.entry(value.clone()).or_default().push(node);
                 }
                 match (element.tag.as_str(), key.as_str()) {
                     ("img", "src") => self.model.update_img_src(node, value, &mut self.tree)?,
@@ -467,6 +471,7 @@ impl View {
     pub fn get_element_by_id(&self, id: &str) -> Option<&Element> {
         self.identified
             .get(id)
+            .and_then(|nodes| nodes.last())
             .and_then(|node| self.tree.get_element(*node).ok())
     }
 
-- 
2.43.0


From 06e37468b2e007a2903e786b16728258340cd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 24/41] fix: process id and style of bound attributes without
 bindings

---
 src/rendering.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 670c809..6c6c536 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -105,6 +105,19 @@ impl Renderer {
         let mut element = create_element(node);
         element.tag = template.tag.clone();
         for binding in template.bindings {
+            let binding = match binding {
+                ElementBinding::Attribute(key, text) => match text.as_simple_text() {
+                    Some(value) => {
+                        warn!(
+                            "element {} attribute {} has no bindings, you can just use HTML tag",
+                            element.tag, key
+                        );
+                        ElementBinding::None(key, value)
+                    }
+                    None => ElementBinding::Attribute(key, text),
+                },
+                binding => binding,
+            };
             match binding {
                 ElementBinding::None(key, value) => {
                     if key == "style" {
@@ -134,14 +147,6 @@ impl Renderer {
                     element.style_hints.dynamic_attrs.insert(key);
                 }
                 ElementBinding::Attribute(key, text) => {
-                    if let Some(value) = text.as_simple_text() {
-                        warn!(
-                            "element {} attribute {} has no bindings, you can just use HTML tag",
-                            element.tag, key
-                        );
-                        element.attrs.insert(key, value);
-                        continue;
-                    }
                     let spans = text
                         .spans
                         .into_iter()
-- 
2.43.0


From 862119681271f3cc48dd81246d41164e1bb4878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 25/41] fix: apply values of the same property in a defined
 order

---
 src/styles/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index b30c2e8..ca23af3 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -129,7 +129,10 @@ impl<'c> Cascade<'c> {
         for transition in element.transitions.iter_mut() {
             transition.animator.reset_settings();
         }
-        for (property, value) in &computed_style {
+        // the last of values wins if the property supports only one
+        let mut properties: Vec<_> = computed_style.iter().collect();
+        properties.sort_by_key(|(property, _)| property.index);
+        for (property, value) in properties {
             if let Err(error) = self.apply(property.key, property.index, &value, layout, element) {
                 error!("unable to apply {property:?}:{value:?} because of {error:?}");
                 self.stats.apply_error += 1;
-- 
2.43.0


From 322c26fda61b39f6cd66006d9c194109f23302f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 26/41] fix: keep transition range of each layer and forget it
 with the value

---
 src/animation.rs | 60 ++++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 38e49aa..a4dbf21 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -9,7 +9,8 @@ use std::mem::take;
 pub struct Transition {
     pub key: Option<PropertyKey>,
     pub animator: Animator,
-    pub range: Option<(ComputedValue, ComputedValue)>,
+    /// Start and target values of each layer, empty if there is no previous value.
+    pub range: Vec<(ComputedValue, ComputedValue)>,
 }
 
 impl Default for Transition {
@@ -17,30 +18,23 @@ impl Default for Transition {
         Self {
             key: None,
             animator: Default::default(),
-            range: None,
+            range: vec![],
         }
     }
 }
 
 impl Transition {
     pub fn init_after_style_applied(&mut self, style: &mut ComputedStyle) {
-        if self.range.is_some() {
+        if !self.range.is_empty() {
             return;
         }
         let key = match self.key {
             Some(key) => key,
             None => return,
         };
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
-            };
-            self.range = Some((value.clone(), value.clone()));
-            index += 1;
-        }
+        self.range = layers(key, style)
+            .map(|value| (value.clone(), value.clone()))
+            .collect();
     }
 
     pub fn play(&mut self, time: f32, style: &mut ComputedStyle) {
@@ -48,37 +42,33 @@ impl Transition {
             Some(key) => key,
             None => return,
         };
-        if self.animator.duration <= 0.0 {
+        let values: Vec<ComputedValue> = layers(key, style).cloned().collect();
+        if self.animator.duration <= 0.0 || self.range.len() != values.len() {
             // value changes immediately
-            self.range = None;
+            self.range.clear();
             return;
         }
         // hold the initial value until delay expires
         let time = self.animator.update(time).unwrap_or(0.0);
-        let mut index = 0;
-        loop {
-            let descriptor = PropertyDescriptor::new(key, index);
-            let value = match style.get(&descriptor) {
-                Some(value) => value,
-                None => return,
-            };
-            let (from, to) = match self.range.as_ref() {
-                Some(range) => range,
-                None => return,
-            };
-            let current = animate(key, &from, &to, time);
-            if to != value {
-                self.range = Some((current.clone(), value.clone()));
-                self.animator.restart();
-            }
-            if &current != value {
-                style.insert(descriptor, current);
-            }
-            index += 1;
+        let current: Vec<ComputedValue> = self
+            .range
+            .iter()
+            .map(|(from, to)| animate(key, from, to, time))
+            .collect();
+        if self.range.iter().zip(&values).any(|((_, to), value)| to != value) {
+            self.range = current.iter().cloned().zip(values).collect();
+            self.animator.restart();
+        }
+        for (index, current) in current.into_iter().enumerate() {
+            style.insert(PropertyDescriptor::new(key, index), current);
         }
     }
 }
 
+fn layers(key: PropertyKey, style: &ComputedStyle) -> impl Iterator<Item = &ComputedValue> {
+    (0..).map_while(move |index| style.get(&PropertyDescriptor::new(key, index)))
+}
+
 #[derive(Clone)]
 pub struct Animator {
     pub(crate) name: String,
-- 
2.43.0


From 67b4f876c3a54e3a31eacd8afa8e3c163e116f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 27/41] fix: end animations with several cycles at the last
 frame

---
 src/animation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index a4dbf21..5d36cc7 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -160,8 +160,12 @@ impl Animator {
             return None;
         }
         let mut t = match self.iterations {
-            AnimationIterations::Number(iterations) => t.min(iterations * self.duration),
-            AnimationIterations::Infinite => t,
+            AnimationIterations::Number(iterations) if t >= iterations * self.duration => {
+                // the last frame must not depend on precision of time
+                let rest = iterations.fract();
+                return Some(if rest == 0.0 && iterations > 0.0 { 1.0 } else { rest });
+            }
+            _ => t,
         };
         if t > self.duration {
             t %= self.duration;
-- 
2.43.0


From 49f06cedb8cc5ee4335aa4ca0b34821b970541c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 28/41] fix: keep elapsed time of infinite animations when
 their settings change

---
 src/animation.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 5d36cc7..cd6cb5d 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -82,7 +82,7 @@ pub struct Animator {
     pub(crate) timing: TimingFunction,
     pub(crate) iterations: AnimationIterations,
     pub(crate) running: bool,
-    pub(crate) time: f32,
+    pub(crate) time: f64,
 }
 
 impl Default for Animator {
@@ -153,33 +153,30 @@ impl Animator {
             return None;
         }
         if self.running {
-            self.time += time;
+            self.time += time as f64;
         }
-        let t = self.time - self.delay;
+        let duration = self.duration as f64;
+        let t = self.time - self.delay as f64;
         if t < 0.0 {
             return None;
         }
         let mut t = match self.iterations {
-            AnimationIterations::Number(iterations) if t >= iterations * self.duration => {
+            AnimationIterations::Number(iterations) if t >= iterations as f64 * duration => {
                 // the last frame must not depend on precision of time
                 let rest = iterations.fract();
                 return Some(if rest == 0.0 && iterations > 0.0 { 1.0 } else { rest });
             }
             _ => t,
         };
-        if t > self.duration {
-            t %= self.duration;
+        if t > duration {
+            t %= duration;
             // stop at last frame 1.0 (100%)
             if t == 0.0 {
-                t = self.duration;
-            }
-            if let AnimationIterations::Infinite = self.iterations {
-                // forget completed cycles to not lose precision of the growing time
-                self.time = self.delay + t;
+                t = duration;
             }
         }
-        let x = t / self.duration;
-        Some(x)
+        let x = t / duration;
+        Some(x as f32)
     }
 }
 
-- 
2.43.0


From 39b9da2bf5641082b98e4c2b34912c09dc75f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 29/41] fix: resolve currentcolor of body as the initial color

---
 src/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view.rs b/src/view.rs
index 232ec69..26c41f6 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -131,7 +131,7 @@ impl View {
         let sizes = Sizes {
             root_font_size: 16.0,
             parent_font_size: 16.0,
-            parent_color: [0; 4],
+            parent_color: [0, 0, 0, 255],
             viewport_width,
             viewport_height,
         };
-- 
2.43.0


From 9414093791d18a1a1fc91504bfb19df35d4f3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 30/41] fix: do not mix cached layouts with layouts of the
 changed tree

Results cached by taffy depend on sizes of parents which are not a part of
cache keys, and measuring of a node overwrites layouts of its descendants.
Only when nothing changed it is correct to keep them.
---
 src/view.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/view.rs b/src/view.rs
index 26c41f6..e14a0e9 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -136,6 +136,9 @@ impl View {
             viewport_height,
         };
         self.apply_styles(self.body, &input, sizes, Variables::default())?;
+        if self.tree.dirty(self.body)? {
+            self.reset_layout_cache(self.body)?;
+        }
         self.tree.compute_layout_with_measure(
             self.body,
             Size::MAX_CONTENT,
@@ -146,6 +149,19 @@ impl View {
         self.model.handle_output(&input, self.body, &mut self.tree)
     }
 
+    /// Cached layouts depend on parent sizes and the layouts computed along with them,
+    /// so results of previous updates must not be mixed with layouts of the changed tree.
+    fn reset_layout_cache(&mut self, node: NodeId) -> Result<(), ViewError> {
+        let children = self.tree.children(node)?;
+        if children.is_empty() {
+            self.tree.mark_dirty(node)?;
+        }
+        for child in children {
+            self.reset_layout_cache(child)?;
+        }
+        Ok(())
+    }
+
     fn compute_final_positions_and_clipping(
         &mut self,
         node: NodeId,
-- 
2.43.0


From a849204d351bb7ef9c45a2a57616768de4ce705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 31/41] fix: bind values which are not arrays where arrays are
 repeated

---
 src/view_model.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 613ef27..8caff82 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -83,17 +83,13 @@ impl ViewModel {
                 if !next.is_array() && !next.is_null() {
                     error!("unable to bind '{path}', must be array");
                 }
-                // everything that is not array treated as empty array
-                let empty = Value::Array(vec![]);
-                let next = if next.is_array() { next } else { &empty };
-                let items = next.as_array().unwrap();
-                let current = current.map(|current| match current {
-                    Value::Array(current) => current.as_slice(),
-                    _ => &[],
-                });
-                let resized = current.map(|current| current.len()) != Some(items.len());
+                // everything that is not array has no items
+                let items = next.as_array().map(Vec::as_slice).unwrap_or_default();
+                let current_items = current.and_then(Value::as_array);
+                let resized = !next.is_array() || current_items.map(Vec::len) != Some(items.len());
                 // bindings without transformers do not depend on array items
                 Self::react(path, next, bindings, reactions, transformers, !resized);
+                let current = current.map(|_| current_items.map(Vec::as_slice).unwrap_or_default());
                 for (index, (schema, next)) in schema.iter().zip(items).enumerate() {
                     Self::bind_value(
                         schema,
-- 
2.43.0


From 5770c9bc783d07478927be3cb172f04e333c8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 32/41] fix: report templates which include themselves

---
 src/error.rs     |  1 +
 src/rendering.rs | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0bb9ea5..3f70974 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,6 +19,7 @@ pub enum ViewError {
     ElementInvalidBehaviour,
     AttributeBindingNotFound(String),
     TemplateNotFound(String),
+    TemplateRecursion(String),
 }
 
 impl From<TaffyError> for ViewError {
diff --git a/src/rendering.rs b/src/rendering.rs
index 6c6c536..24ae28b 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -14,6 +14,8 @@ pub struct Renderer {
     pub locals: HashMap<String, String>,
     pub schema: Schema,
     pub templates: HashMap<String, Html>,
+    /// Templates which are being rendered at the moment.
+    pub templates_path: Vec<String>,
     pub static_id: HashMap<String, Vec<NodeId>>,
     pub translator: Box<dyn RendererTranslator>,
 }
@@ -31,6 +33,7 @@ impl Renderer {
             locals,
             schema,
             templates,
+            templates_path: vec![],
             static_id,
             translator,
         }
@@ -221,12 +224,16 @@ impl Renderer {
             "wbr" => {}
             _ => {
                 for child in template.children {
+                    let templates_depth = self.templates_path.len();
                     let child = if let Some((id, mut bindings)) = child.as_template_link() {
-                        let mut template = self
-                            .templates
-                            .get(&id)
-                            .ok_or(ViewError::TemplateNotFound(id))?
-                            .clone();
+                        if self.templates_path.contains(&id) {
+                            return Err(ViewError::TemplateRecursion(id));
+                        }
+                        let mut template = match self.templates.get(&id) {
+                            Some(template) => template.clone(),
+                            None => return Err(ViewError::TemplateNotFound(id)),
+                        };
+                        self.templates_path.push(id);
                         // handle link bindings first
                         bindings.extend(template.bindings);
                         template.bindings = bindings;
@@ -295,6 +302,7 @@ impl Renderer {
                             self.locals.remove(&key);
                         }
                     }
+                    self.templates_path.truncate(templates_depth);
                 }
             }
         }
-- 
2.43.0


From 0497828a54ddcc174a4d1d759baa26c3e10be42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 33/41] fix: restore scope after aliases with the same name

---
 src/rendering.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rendering.rs b/src/rendering.rs
index 24ae28b..c10336f 100644
--- a/src/rendering.rs
+++ b/src/rendering.rs
@@ -246,10 +246,9 @@ impl Renderer {
                     for binding in &child.bindings {
                         if let ElementBinding::Alias(name, binder) = binding {
                             let path = self.schema.field(binder, &mut self.locals);
-                            overridden.insert(
-                                name.to_string(),
-                                self.locals.insert(name.to_string(), path),
-                            );
+                            let value = self.locals.insert(name.to_string(), path);
+                            // link and template can have aliases with the same name
+                            overridden.entry(name.to_string()).or_insert(value);
                         }
                     }
 
-- 
2.43.0


From 45fd035556258f6ad390ab2fa2b98f5334dbc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 34/41] fix: bind negative zero after zero

---
 src/view_model.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/view_model.rs b/src/view_model.rs
index 8caff82..770f6f4 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -75,7 +75,7 @@ impl ViewModel {
         reactions: &mut Vec<Reaction>,
         transformers: &HashMap<String, Transformer>,
     ) {
-        if current == Some(next) {
+        if current.map_or(false, |current| is_same(current, next)) {
             return;
         }
         match schema {
@@ -749,6 +749,25 @@ impl DragContext {
     }
 }
 
+/// Values are the same if they are displayed the same: negative zero is equal to zero,
+/// but its text is different.
+fn is_same(a: &Value, b: &Value) -> bool {
+    match (a, b) {
+        (Value::Number(x), Value::Number(y)) => {
+            let negative = |n: &serde_json::Number| n.as_f64().map(f64::is_sign_negative);
+            x == y && negative(x) == negative(y)
+        }
+        (Value::Array(x), Value::Array(y)) => {
+            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| is_same(x, y))
+        }
+        (Value::Object(x), Value::Object(y)) => {
+            let same = |(key, x): (&String, &Value)| y.get(key).map_or(false, |y| is_same(x, y));
+            x.len() == y.len() && x.iter().all(same)
+        }
+        (x, y) => x == y,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 57ec712712abf66f2e124157bc3bb29af82987af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:04 +0000
Subject: [PATCH 35/41] fix: interpolate named colors

---
 src/animation.rs    | 19 ++++++++++++++-----
 src/styles/apply.rs | 24 +++++++++++++++++-------
 src/styles/mod.rs   |  1 +
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index cd6cb5d..e2a469c 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1,7 +1,8 @@
-use crate::css::ComputedValue::{Color, Dimension, Number, Percentage, Zero};
+use crate::css::ComputedValue::{Color, Dimension, Keyword, Number, Percentage, Zero};
 use crate::css::{
     AnimationTrack, ComputedStyle, ComputedValue, Dim, PropertyDescriptor, PropertyKey,
 };
+use crate::styles::named_color;
 use crate::Rgba;
 use std::mem::take;
 
@@ -204,11 +205,19 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
         (Dimension(a), Zero) => dimension(a, &Dim { value: 0.0, ..*a }, t),
         (Zero, Dimension(b)) => dimension(&Dim { value: 0.0, ..*b }, b, t),
         (Dimension(a), Dimension(b)) => dimension(a, b, t),
-        (Color(a), Color(b)) => color(a, b, t),
-        (a, b) => {
+        (a, b) => match (as_color(a), as_color(b)) {
+            (Some(a), Some(b)) => color(&a, &b, t),
             // discrete
-            (if t < 0.5 { a } else { b }).clone()
-        }
+            _ => (if t < 0.5 { a } else { b }).clone(),
+        },
+    }
+}
+
+fn as_color(value: &ComputedValue) -> Option<Rgba> {
+    match value {
+        Color(color) => Some(*color),
+        Keyword(keyword) => named_color(keyword),
+        _ => None,
     }
 }
 
diff --git a/src/styles/apply.rs b/src/styles/apply.rs
index 5eb38e4..b53a81b 100644
--- a/src/styles/apply.rs
+++ b/src/styles/apply.rs
@@ -325,18 +325,28 @@ fn resolve_font_weight(value: &ComputedValue, _cascade: &Cascade) -> Result<u16,
     Ok(value)
 }
 
+pub(crate) fn named_color(keyword: &str) -> Option<[u8; 4]> {
+    let color = match keyword {
+        "black" => [0, 0, 0, 255],
+        "white" => [255, 255, 255, 255],
+        "red" => [255, 0, 0, 255],
+        "blue" => [0, 0, 255, 255],
+        "green" => [0, 255, 0, 255],
+        "transparent" => [0, 0, 0, 0],
+        _ => return None,
+    };
+    Some(color)
+}
+
 fn resolve_color(value: &ComputedValue, cascade: &Cascade) -> Result<[u8; 4], CascadeError> {
     let value = match value {
         ComputedValue::Color(color) => *color,
         ComputedValue::Keyword(keyword) => match keyword.as_str() {
-            "black" => [0, 0, 0, 255],
-            "white" => [255, 255, 255, 255],
-            "red" => [255, 0, 0, 255],
-            "blue" => [0, 0, 255, 255],
-            "green" => [0, 255, 0, 255],
-            "transparent" => [0, 0, 0, 0],
             "currentcolor" | "currentColor" => cascade.sizes.parent_color,
-            keyword => return Err(CascadeError::InvalidKeyword(keyword.to_string())),
+            keyword => match named_color(keyword) {
+                Some(color) => color,
+                None => return Err(CascadeError::InvalidKeyword(keyword.to_string())),
+            },
         },
         _ => return Err(CascadeError::ValueNotSupported),
     };
diff --git a/src/styles/mod.rs b/src/styles/mod.rs
index ca23af3..633238b 100644
--- a/src/styles/mod.rs
+++ b/src/styles/mod.rs
@@ -8,6 +8,7 @@ mod initial;
 mod scrolling;
 mod stats;
 
+pub(crate) use apply::named_color;
 pub use default::*;
 pub use inherit::inherit;
 pub use scrolling::*;
-- 
2.43.0


From df6d86fdeb313d5d4c0979d9415110d1607749fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 36/41] fix: huge index in a path of binding exhausted memory

---
 src/view_model.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/view_model.rs b/src/view_model.rs
index 770f6f4..ffae084 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -672,6 +672,9 @@ pub struct Schema {
 impl Schema {
     const THIS: &'static str = "/this";
 
+    /// Memory is allocated for all items of array up to the specified one.
+    const MAX_INDEX: usize = u16::MAX as usize;
+
     pub fn new() -> Self {
         Self { value: json!({}) }
     }
@@ -695,6 +698,10 @@ impl Schema {
         }
         for token in pointer.split('/').skip(1) {
             match token.parse::<usize>() {
+                Ok(index) if index > Self::MAX_INDEX => {
+                    error!("unable to define {pointer}, index {index} is too large");
+                    return;
+                }
                 Ok(index) => {
                     if !target.is_array() {
                         *target = json!([]);
-- 
2.43.0


From 0be5ea34e6936eae274683d05584cb93cfcacaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 37/41] fix: bindings of array items by index were not bound
 when the array is shorter

---
 src/view.rs       |  3 ++-
 src/view_model.rs | 33 +++++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/view.rs b/src/view.rs
index e14a0e9..f308ab6 100644
--- a/src/view.rs
+++ b/src/view.rs
@@ -81,7 +81,8 @@ impl View {
         let schema = renderer.schema;
         let tree = renderer.tree;
         let identified = renderer.static_id;
-        let model = ViewModel::create(bindings, schema.value);
+        let mut model = ViewModel::create(bindings, schema.value);
+        model.indexed = schema.indexed;
         let mut view = Self {
             model,
             tree,
diff --git a/src/view_model.rs b/src/view_model.rs
index ffae084..98d7dc3 100644
--- a/src/view_model.rs
+++ b/src/view_model.rs
@@ -7,7 +7,7 @@ use log::error;
 use crate::tree::ViewTreeExtensions;
 use serde::{Deserialize, Serialize};
 use serde_json::{json, Map, Value};
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::mem::take;
 use std::time::Duration;
 use taffy::{NodeId, TaffyTree};
@@ -20,6 +20,8 @@ pub struct ViewModel {
     pub(crate) bindings: Bindings,
     /// The structure of the values used by bindings, never changed by bound values.
     schema: Value,
+    /// The array items used by bindings directly, not as copies of repeated elements.
+    pub(crate) indexed: BTreeSet<String>,
     /// The last bound value, not defined until the first binding.
     value: Option<Value>,
     pub(crate) transformers: HashMap<String, Transformer>,
@@ -38,6 +40,7 @@ impl ViewModel {
         Self {
             bindings,
             schema: model,
+            indexed: BTreeSet::new(),
             value: None,
             transformers: default_transformers(),
             mouse: [0.0, 0.0],
@@ -54,6 +57,7 @@ impl ViewModel {
         let current = self.value.replace(value.clone());
         Self::bind_value(
             &self.schema,
+            &self.indexed,
             current.as_ref(),
             value,
             "",
@@ -68,6 +72,7 @@ impl ViewModel {
     /// the structure of schema and collects reactions of all bindings affected by changes.
     pub fn bind_value(
         schema: &Value,
+        indexed: &BTreeSet<String>,
         current: Option<&Value>,
         next: &Value,
         path: &str,
@@ -90,12 +95,20 @@ impl ViewModel {
                 // bindings without transformers do not depend on array items
                 Self::react(path, next, bindings, reactions, transformers, !resized);
                 let current = current.map(|_| current_items.map(Vec::as_slice).unwrap_or_default());
-                for (index, (schema, next)) in schema.iter().zip(items).enumerate() {
+                for (index, schema) in schema.iter().enumerate() {
+                    let path = format!("{path}/{index}");
+                    let next = match items.get(index) {
+                        Some(next) => next,
+                        // copies of repeated elements are hidden, there is nothing to bind
+                        None if !indexed.contains(&path) => continue,
+                        None => &Value::Null,
+                    };
                     Self::bind_value(
                         schema,
+                        indexed,
                         current.and_then(|current| current.get(index)),
                         next,
-                        &format!("{path}/{index}"),
+                        &path,
                         bindings,
                         reactions,
                         transformers,
@@ -107,6 +120,7 @@ impl ViewModel {
                 for (key, schema) in schema {
                     Self::bind_value(
                         schema,
+                        indexed,
                         current.map(|current| current.get(key).unwrap_or(&undefined)),
                         next.get(key).unwrap_or(&undefined),
                         &format!("{path}/{key}"),
@@ -667,6 +681,7 @@ fn hovers(point: [f32; 2], element: &Element) -> bool {
 
 pub struct Schema {
     pub value: Value,
+    pub indexed: BTreeSet<String>,
 }
 
 impl Schema {
@@ -676,7 +691,10 @@ impl Schema {
     const MAX_INDEX: usize = u16::MAX as usize;
 
     pub fn new() -> Self {
-        Self { value: json!({}) }
+        Self {
+            value: json!({}),
+            indexed: BTreeSet::new(),
+        }
     }
 
     pub fn index(&mut self, binder: &Binder, i: usize, locals: &HashMap<String, String>) -> String {
@@ -689,6 +707,13 @@ impl Schema {
     pub fn field(&mut self, binder: &Binder, locals: &HashMap<String, String>) -> String {
         let pointer = binder.to_json_pointer(locals);
         Self::define_value(&mut self.value, &pointer);
+        let mut item = pointer.as_str();
+        for key in binder.path[1..].iter().rev() {
+            if key.parse::<usize>().is_ok() {
+                self.indexed.insert(item.to_string());
+            }
+            item = &item[..item.len() - key.len() - 1];
+        }
         pointer
     }
 
-- 
2.43.0


From f8cce38a5481e92665723143cc5399f7243f5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 38/41] fix: transition restarted when the same color was
 specified in another way

---
 src/animation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index e2a469c..940752e 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -56,7 +56,7 @@ impl Transition {
             .iter()
             .map(|(from, to)| animate(key, from, to, time))
             .collect();
-        if self.range.iter().zip(&values).any(|((_, to), value)| to != value) {
+        if self.range.iter().zip(&values).any(|((_, to), value)| !is_same(to, value)) {
             self.range = current.iter().cloned().zip(values).collect();
             self.animator.restart();
         }
@@ -213,6 +213,14 @@ pub fn animate(_key: PropertyKey, a: &ComputedValue, b: &ComputedValue, t: f32)
     }
 }
 
+/// The same color can be specified in different ways.
+fn is_same(a: &ComputedValue, b: &ComputedValue) -> bool {
+    match (as_color(a), as_color(b)) {
+        (Some(a), Some(b)) => a == b,
+        _ => a == b,
+    }
+}
+
 fn as_color(value: &ComputedValue) -> Option<Rgba> {
     match value {
         Color(color) => Some(*color),
-- 
2.43.0


From 1d683bb1508085fb88c2916eecd4ec98633290cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:31 +0000
Subject: [PATCH 39/41] fix: classes separated by tabs or line breaks were not
 matched

---
 src/css/matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/matching.rs b/src/css/matching.rs
index 33fec12..5e68b54 100644
--- a/src/css/matching.rs
+++ b/src/css/matching.rs
@@ -102,7 +102,7 @@ fn match_simple_selector(
                 .map(|attr| match operator {
                     Matcher::Exist => true,
                     Matcher::Equal => attr == value,
-                    Matcher::Include => attr.split(" ").any(|word| word == value),
+                    Matcher::Include => attr.split_ascii_whitespace().any(|word| word == value),
                     Matcher::DashMatch => attr == value || attr.starts_with(&format!("{value}-")),
                     Matcher::Prefix => attr.starts_with(value),
                     Matcher::Substring => attr.contains(value),
@@ -171,7 +171,7 @@ impl Style {
 
 #[inline(always)]
 fn match_class(classes: &str, ident: &str) -> bool {
-    classes.split(" ").any(|class| class == ident)
+    classes.split_ascii_whitespace().any(|class| class == ident)
 }
 
 pub trait PseudoClassMatcher {
-- 
2.43.0


From c16ceb0ce76df41ba17c41738a1b6379f8fa9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:31 +0000
Subject: [PATCH 40/41] fix: elements whose name starts with a name of a void
 element were not parsed

---
 src/html/html.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html/html.pest b/src/html/html.pest
index abaa099..42c6264 100644
--- a/src/html/html.pest
+++ b/src/html/html.pest
@@ -20,7 +20,9 @@ Children = { Content* }
 // https://www.w3.org/TR/2012/WD-html-markup-20120329/syntax.html#syntax-elements
 Void = { "<" ~ VoidTag ~ Attributes ~ ("/")? ~ ">" }
 
-VoidTag = {
+VoidTag = @{ VoidTagName ~ !TChar }
+
+VoidTagName = {
     ^"area"
     | ^"base"
     | ^"br"
-- 
2.43.0


From 47e95191674637bd54d8d03537e3601df774ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:31 +0000
Subject: [PATCH 41/41] fix: layers of an overridden list remained when the new
 list was shorter

---
 src/styles/compute_style.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/styles/compute_style.rs b/src/styles/compute_style.rs
index 4160380..1c9b55d 100644
--- a/src/styles/compute_style.rs
+++ b/src/styles/compute_style.rs
@@ -16,7 +16,15 @@ impl<'c> Cascade<'c> {
             return;
         }
         let mut overwrite = |key: PropertyKey, value: &ComputedValue| {
-            style.insert(PropertyDescriptor::new(key, index), value.clone())
+            style.insert(PropertyDescriptor::new(key, index), value.clone());
+            if index == 0 {
+                // layers of the overridden list must not be mixed with layers of this one
+                for layer in 1.. {
+                    if style.remove(&PropertyDescriptor::new(key, layer)).is_none() {
+                        break;
+                    }
+                }
+            }
         };
         match (key, shorthand.as_slice()) {
             //
-- 
2.43.0

