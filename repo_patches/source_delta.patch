From 173067fdcfdbb063b2b2a848b921087ad823de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 01/20] fix: ref_count/replay connect without holding a lock or
 a reference cycle

---
 src/operators/ref_count.rs | 81 +++++++++++++++++++++-----------------
 src/operators/replay.rs    | 81 +++++++++++++++++++++-----------------
 2 files changed, 88 insertions(+), 74 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..331e7f3 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -27,51 +27,58 @@ where
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    Observable::create(move |s| {
+      _self.subject.observable().inner_subscribe(s.clone());
+      _self.connect(&s);
+    })
   }
 
   fn set_ref_count(&self) {
-    {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        }
-      });
-    }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
     let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
+    self.subject.set_on_unsubscribe(move |count| {
+      if count == 0 {
+        let sbsc = subscription.read().unwrap().clone();
+        if let Some(sbsc) = sbsc {
+          sbsc.unsubscribe();
         }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
       }
     });
   }
+
+  fn connect(&self, subscriber: &Observer<'a, Item>) {
+    let sbj_next = self.subject.clone();
+    let sbj_error = self.subject.clone();
+    let sbj_complete = self.subject.clone();
+    let observer = Observer::new(
+      move |x| {
+        sbj_next.next(x);
+      },
+      move |e| {
+        sbj_error.error(e);
+      },
+      move || {
+        sbj_complete.complete();
+      },
+    );
+
+    {
+      let mut subscription = self.subscription.write().unwrap();
+      if subscription.is_some() || !subscriber.is_subscribed() {
+        return;
+      }
+      let unsub_observer = observer.clone();
+      let issub_observer = observer.clone();
+      *subscription = Some(Subscription::new(
+        move || unsub_observer.unsubscribe(),
+        move || issub_observer.is_subscribed(),
+      ));
+    }
+
+    // The connection is stored and no lock is held: the subscribers can leave
+    // while the source is emitting.
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..296ee12 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -26,51 +26,58 @@ where
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    Observable::create(move |s| {
+      _self.subject.observable().inner_subscribe(s.clone());
+      _self.connect(&s);
+    })
   }
 
   fn set_ref_count(&self) {
-    {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        }
-      });
-    }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
     let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
+    self.subject.set_on_unsubscribe(move |count| {
+      if count == 0 {
+        let sbsc = subscription.read().unwrap().clone();
+        if let Some(sbsc) = sbsc {
+          sbsc.unsubscribe();
         }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
       }
     });
   }
+
+  fn connect(&self, subscriber: &Observer<'a, Item>) {
+    let sbj_next = self.subject.clone();
+    let sbj_error = self.subject.clone();
+    let sbj_complete = self.subject.clone();
+    let observer = Observer::new(
+      move |x| {
+        sbj_next.next(x);
+      },
+      move |e| {
+        sbj_error.error(e);
+      },
+      move || {
+        sbj_complete.complete();
+      },
+    );
+
+    {
+      let mut subscription = self.subscription.write().unwrap();
+      if subscription.is_some() || !subscriber.is_subscribed() {
+        return;
+      }
+      let unsub_observer = observer.clone();
+      let issub_observer = observer.clone();
+      *subscription = Some(Subscription::new(
+        move || unsub_observer.unsubscribe(),
+        move || issub_observer.is_subscribed(),
+      ));
+    }
+
+    // The connection is stored and no lock is held: the subscribers can leave
+    // while the source is emitting.
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
-- 
2.43.0


From 13c3f25cf472f15809fecba8dc7c68c573f03ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 02/20] fix: an Observer delivers at most one terminal event
 and is closed by it

---
 src/internals/function_wrapper.rs | 24 ++++++++++++------------
 src/observer.rs                   | 22 ++++++++++++++++++----
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..0345703 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -35,8 +35,18 @@ where
       ))),
     }
   }
+  fn take_function(&self) -> Option<FunctionWrapperInner<'a, In, Out>> {
+    self.inner.write().unwrap().take()
+  }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    self.clear_if_available();
+  }
+  /// Clears the function; `true` if there was one (exactly one of several
+  /// concurrent callers gets `true`).
+  pub fn clear_if_available(&self) -> bool {
+    // the function is dropped after the lock has been released
+    let f = self.take_function();
+    f.is_some()
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
@@ -68,17 +78,7 @@ where
     }
   }
   pub fn call_and_clear_if_available(&self, indata: In) -> Option<Out> {
-    let f = {
-      let mut f = self.inner.write().unwrap();
-      if let Some(x) = &*f {
-        let x = x.clone();
-        *f = None;
-        Some(x)
-      } else {
-        None
-      }
-    };
-    if let Some(f) = f {
+    if let Some(f) = self.take_function() {
       Some((f.func)(indata))
     } else {
       None
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..0f15eb5 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -38,19 +38,29 @@ where
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    // whoever takes `fn_next` closes the observer: only one terminal event is
+    // delivered and nothing is delivered after it
+    if self.fn_next.clear_if_available() {
+      self.fn_complete.clear();
+      self.fn_error.call_and_clear_if_available(x);
+      self.unsubscribe();
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.fn_next.clear_if_available() {
+      self.fn_error.clear();
+      self.fn_complete.call_and_clear_if_available(());
+      self.unsubscribe();
+    }
   }
   pub fn unsubscribe(&self) {
     self.fn_next.clear();
     self.fn_error.clear();
     self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
       f.call(());
     }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
   }
   pub fn is_subscribed(&self) -> bool {
     self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
@@ -61,6 +71,10 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      // already closed, nobody else would call it
+      self.unsubscribe();
+    }
   }
 }
 
-- 
2.43.0


From 9835ab7d587251f8cba52c607a11595c032fb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 03/20] fix: StreamController calls out without holding its
 locks and tears down late registrations

---
 src/internals/stream_controller.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..4e78cb0 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,10 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      // already ended
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +77,14 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
+    self.unscribers.write().unwrap().insert(
       serial.clone(),
       FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
     );
+    if !self.subscriber.is_subscribed() {
+      // already ended, nobody else would unsubscribe it
+      self.finalize();
+    }
     observer
   }
 
@@ -122,25 +129,22 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
-      x.1.call(());
-    });
-    self.unscribers.write().unwrap().clear();
+    // no lock is held while calling out
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.into_values().for_each(|x| x.call(()));
     if self.subscriber.is_subscribed() {
       self.subscriber.unsubscribe();
     }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From 8451e98324e3a8539bf0d55d7ac180ecc9892029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 04/20] fix: take_while, contains and dematerialize stop their
 source when they complete early

---
 src/operators/contains.rs      | 1 +
 src/operators/dematerialize.rs | 5 ++++-
 src/operators/take_while.rs    | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/operators/contains.rs b/src/operators/contains.rs
index 43ecdb9..af0d5ee 100644
--- a/src/operators/contains.rs
+++ b/src/operators/contains.rs
@@ -28,6 +28,7 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |serial, x| {
           if x == target {
+            sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_next(true);
             sctl_next.sink_complete(&serial);
           }
diff --git a/src/operators/dematerialize.rs b/src/operators/dematerialize.rs
index 843a345..fc9ce71 100644
--- a/src/operators/dematerialize.rs
+++ b/src/operators/dematerialize.rs
@@ -33,7 +33,10 @@ where
         move |serial, x: Material<Item>| match x {
           Material::Next(x) => sctl_next.sink_next(x),
           Material::Error(x) => sctl_next.sink_error(x),
-          Material::Complete => sctl_next.sink_complete(&serial),
+          Material::Complete => {
+            sctl_next.upstream_abort_observe(&serial);
+            sctl_next.sink_complete(&serial);
+          }
         },
         move |_, e| {
           sctl_error.sink_error(e);
diff --git a/src/operators/take_while.rs b/src/operators/take_while.rs
index 52ddb0b..45e701a 100644
--- a/src/operators/take_while.rs
+++ b/src/operators/take_while.rs
@@ -35,6 +35,7 @@ where
           if f.call(x.clone()) {
             sctl_next.sink_next(x);
           } else {
+            sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_complete(&serial)
           }
         },
-- 
2.43.0


From 302bf7e4807f81e107c0b5602ad5280980cd3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 05/20] fix: amb completes when the winning source completes

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From 838b27c9c054deb211b2309edd9e769ccc1e393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:51 +0000
Subject: [PATCH 06/20] fix: combine_latest combines the latest items instead
 of zipping

---
 src/operators/combine_latest.rs | 66 ++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..14eb357 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,55 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
-    Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
+    Observable::<Out>::create(move |s| {
       let sctl = StreamController::new(s);
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      let latests =
+        Arc::new(RwLock::new(vec![None::<Item>; observables.len() + 1]));
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter((0..(observables.len() + 1)).map(move |id| {
+          let latests = Arc::clone(&latests);
+          let combine_f = combine_f.clone();
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x| {
+              let items = {
+                let mut latests = latests.write().unwrap();
+                latests[id] = Some(x);
+                latests.iter().cloned().collect::<Option<Vec<Item>>>()
+              };
+              if let Some(items) = items {
+                sctl_next.sink_next(combine_f.call(items));
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |serial| {
+              sctl_complete.sink_complete(&serial);
+            },
+          )
+        }))
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From ab7cf36b51dacc26f6bc0eca1e8ed6d25513316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 07/20] fix: concat, default_if_empty and tap keep their state
 per subscription

---
 src/operators/concat.rs           |  7 ++++---
 src/operators/default_if_empty.rs |  2 +-
 src/operators/tap.rs              | 26 ++++++++++++++++----------
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..4ae95c6 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,10 +21,11 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let all_observables = self.observables.clone();
     Observable::create(move |s| {
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        all_observables.clone().into_iter(),
+      )));
       let sctl = StreamController::new(s);
 
       fn complete_and_next<'a, Item>(
diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..0061553 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,10 +19,10 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
       let default_complete = default.clone();
+      let emitted = Arc::new(RwLock::new(false));
 
       let emitted_next = Arc::clone(&emitted);
       let emitted_complete = Arc::clone(&emitted);
diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..b19211c 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  next_f: FunctionWrapper<'a, Item, ()>,
+  error_f: FunctionWrapper<'a, RxError, ()>,
+  complete_f: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      next_f: FunctionWrapper::new(next),
+      error_f: FunctionWrapper::new(error),
+      complete_f: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let next_f = self.next_f.clone();
+    let error_f = self.error_f.clone();
+    let complete_f = self.complete_f.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let next_f = next_f.clone();
+      let error_f = error_f.clone();
+      let complete_f = complete_f.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          next_f.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          error_f.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          complete_f.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From aa5e01748ee868c5275eac4161ce5e0118bce9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 08/20] fix: window_with_count(1) closes its windows; windows
 emit without holding a lock

---
 src/operators/window_with_count.rs | 47 +++++++++++++++++-------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..176d8cc 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -28,43 +28,50 @@ where
     let count = self.count;
 
     Observable::create(move |s| {
-      let n = Arc::new(RwLock::new(0));
-      let sbj = Arc::new(RwLock::new(
+      // items in the current window, and the current window
+      let window = Arc::new(RwLock::new((
+        0,
         subjects::Subject::<Item>::new(),
-      ));
+      )));
 
       let sctl = StreamController::new(s);
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let sbj_next = Arc::clone(&sbj);
-      let sbj_error = Arc::clone(&sbj);
-      let sbj_complete = Arc::clone(&sbj);
+      let window_next = Arc::clone(&window);
+      let window_error = Arc::clone(&window);
+      let window_complete = Arc::clone(&window);
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-            if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
-              *n = 0;
+          let (sbj, opened, closed) = {
+            let mut window = window_next.write().unwrap();
+            let sbj = window.1.clone();
+            let opened = window.0 == 0;
+            window.0 += 1;
+            let closed = window.0 == count;
+            if closed {
+              *window = (0, subjects::Subject::<Item>::new());
             }
+            (sbj, opened, closed)
+          };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
+          sbj.next(x);
+          if closed {
+            sbj.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let sbj = window_error.read().unwrap().1.clone();
+          sbj.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let sbj = window_complete.read().unwrap().1.clone();
+          sbj.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From ad4995a6c9adf8f45725fd90b5320e6c4353092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 09/20] fix: group_by, scan and time_interval emit without
 holding a lock

---
 src/operators/group_by.rs      | 22 ++++++++++++++--------
 src/operators/scan.rs          | 18 +++++++++---------
 src/operators/time_interval.rs |  6 ++++--
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..bda87a0 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,28 +50,34 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, opened) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
-            x.1.error(e.clone());
+          let sbjs =
+            Vec::from_iter(sbjmap_error.read().unwrap().values().cloned());
+          sbjs.iter().for_each(|x| {
+            x.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
-            x.1.complete();
+          let sbjs =
+            Vec::from_iter(sbjmap_complete.read().unwrap().values().cloned());
+          sbjs.iter().for_each(|x| {
+            x.complete();
           });
           sctl_complete.sink_complete(&serial);
         },
diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..f812e13 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
+            let x = if let Some(xx) = &*r {
+              f.call((xx.clone(), x))
             } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+              x
+            };
+            *r = Some(x.clone());
+            x
+          };
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
diff --git a/src/operators/time_interval.rs b/src/operators/time_interval.rs
index 291c5ff..9b510e3 100644
--- a/src/operators/time_interval.rs
+++ b/src/operators/time_interval.rs
@@ -37,7 +37,8 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, _| {
-          if let Some(start_time) = *start_time_next.read().unwrap() {
+          let start_time = *start_time_next.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_next.sink_next(start_time.elapsed());
           }
           *start_time_next.write().unwrap() = Some(Instant::now());
@@ -46,7 +47,8 @@ where
           sctl_error.sink_error(e);
         },
         move |serial| {
-          if let Some(start_time) = *start_time_complete.read().unwrap() {
+          let start_time = *start_time_complete.read().unwrap();
+          if let Some(start_time) = start_time {
             sctl_complete.sink_next(start_time.elapsed());
           }
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 05538be4616997a19eee3d0dc7b808521ad4b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 10/20] fix: skip_while skips while the predicate holds

---
 src/operators/skip_while.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,9 +38,9 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
-              sctl_next.sink_next(x);
+            if !f.call(x.clone()) {
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From 96edb909de1f30eabd87d4bef4795ab198b9d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:50 +0000
Subject: [PATCH 11/20] fix: element_at emits nothing when the source is too
 short

---
 src/operators/element_at.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..9a94697 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip_op: operators::Skip<Item>,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip_op: operators::Skip::<Item>::new(count.saturating_sub(1)),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip_op = self.skip_op.clone();
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -29,9 +32,8 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      take_op
-        .execute(source)
-        .last()
+      skip_op
+        .execute(take_op.execute(source))
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 3265ad2b75456777729acfe451aa0fa963f28c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 12/20] fix: sequence_equal compares the length of the
 sequences too

---
 src/operators/sequence_equal.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..40ce2b0 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -6,7 +6,7 @@ pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  zip_op: operators::Zip<'a, Option<Item>>,
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,13 +14,23 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    let observables =
+      Vec::from_iter(observables.iter().map(Self::with_end_mark));
+    SequenceEqual {
+      zip_op: operators::Zip::new(&observables),
+    }
+  }
+  // A sequence that ends early differs from the others at its end.
+  fn with_end_mark(
+    o: &Observable<'a, Item>,
+  ) -> Observable<'a, Option<Item>> {
+    o.map(|x| Some(x)).concat(&[observables::just(None)])
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
     let zip_op = self.zip_op.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
+      let source = Self::with_end_mark(&source);
 
       let sctl = StreamController::new(s);
 
@@ -29,7 +39,7 @@ where
       let sctl_complete = sctl.clone();
 
       zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
+        move |serial, x: Vec<Option<Item>>| {
           let check = x.get(0).unwrap();
           if !x.iter().all(|i| i == check) {
             sctl_next.upstream_abort_observe(&serial);
-- 
2.43.0


From 3878d4e6395d375b61117682e555a55719edc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 13/20] fix: switch_on_next keeps its target when the source
 completes synchronously

---
 src/operators/switch_on_next.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/operators/switch_on_next.rs b/src/operators/switch_on_next.rs
index d999a14..01e9d3f 100644
--- a/src/operators/switch_on_next.rs
+++ b/src/operators/switch_on_next.rs
@@ -23,13 +23,14 @@ where
       let sctl = StreamController::new(s);
       let emitted = Arc::new(RwLock::new(false));
 
-      {
+      // prepare subscribers
+      let obs_source = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
 
-        source.inner_subscribe(sctl.new_observer(
+        sctl.new_observer(
           move |serial, x| {
             if *emitted.read().unwrap() {
               sctl_next.upstream_abort_observe(&serial);
@@ -41,15 +42,16 @@ where
             sctl_error.sink_error(e);
           },
           move |serial| sctl_complete.sink_complete(&serial),
-        ));
+        )
       };
 
-      {
+      let obs_target = {
         let emitted = Arc::clone(&emitted);
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
         let sctl_complete = sctl.clone();
-        target.inner_subscribe(sctl.new_observer(
+
+        sctl.new_observer(
           move |_, x| {
             *emitted.write().unwrap() = true;
             sctl_next.sink_next(x);
@@ -58,8 +60,11 @@ where
             sctl_error.sink_error(e);
           },
           move |_| sctl_complete.sink_complete_force(),
-        ));
-      }
+        )
+      };
+
+      source.inner_subscribe(obs_source);
+      target.inner_subscribe(obs_target);
     })
   }
 }
-- 
2.43.0


From 790588e8b0c96ecf88e19d6c8d187fd965a78e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 14/20] fix: Subject registers and releases observers
 atomically and calls out without holding a lock

---
 src/subjects/subject.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..0f25e9e 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -34,6 +34,12 @@ where
     Vec::from_iter(x)
   }
 
+  // for a terminal event: whoever subscribes later gets the next one
+  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+    let observers = std::mem::take(&mut *self.observers.write().unwrap());
+    Vec::from_iter(observers.into_values())
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,13 +47,11 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(|x| x.complete());
   }
 
@@ -64,26 +68,32 @@ where
         *serial += 1;
         *serial
       };
+      if !s.is_subscribed() {
+        return;
+      }
+      let len = {
+        let mut observers = observers.write().unwrap();
+        observers.insert(serial, s.clone());
+        observers.len()
+      };
       {
+        // runs at once if `s` has ended in the meantime
         let observers = Arc::clone(&observers);
         let on_unsubscribe = Arc::clone(&on_unsubscribe);
         s.set_on_unsubscribe(move || {
-          let len = {
+          // `removed` is dropped after the lock has been released
+          let (_removed, len) = {
             let mut observers = observers.write().unwrap();
-            observers.remove(&serial);
-            observers.len()
+            (observers.remove(&serial), observers.len())
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+          let on_unsubscribe = on_unsubscribe.read().unwrap().clone();
+          if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
         });
       }
-      let len = {
-        let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
-        observers.len()
-      };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+      let on_subscribe = on_subscribe.read().unwrap().clone();
+      if let Some(on_subscribe) = on_subscribe {
         on_subscribe.call(len);
       }
     })
-- 
2.43.0


From 504b8a38210d9e1d2f5738be3593bd5925651cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 15/20] fix: ReplaySubject hands every observer the whole
 history once, in order, without holding a lock

---
 src/subjects/replay_subject.rs | 118 ++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 46 deletions(-)

diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..a4f5183 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -6,12 +6,61 @@ pub struct ReplaySubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  // tells the observers that the history has grown
+  subject: Arc<subject::Subject<'a, ()>>,
   items: Arc<RwLock<Vec<Item>>>,
   was_error: Arc<RwLock<Option<RxError>>>,
   was_completed: Arc<RwLock<bool>>,
 }
 
+// Hands the history to one observer, from the beginning, each item once.
+struct Player<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  observer: Observer<'a, Item>,
+  // next item to deliver, and whether a thread is delivering
+  position: RwLock<(usize, bool)>,
+  items: Arc<RwLock<Vec<Item>>>,
+  was_error: Arc<RwLock<Option<RxError>>>,
+  was_completed: Arc<RwLock<bool>>,
+}
+
+impl<'a, Item> Player<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  fn play(&self) {
+    // no lock is held while calling the observer
+    while self.play_one() {}
+  }
+
+  fn play_one(&self) -> bool {
+    let item = {
+      let mut position = self.position.write().unwrap();
+      if position.1 {
+        // the thread that is delivering looks again before it leaves
+        return false;
+      }
+      let was_error = self.was_error.read().unwrap().clone();
+      let was_completed = *self.was_completed.read().unwrap();
+      let item = self.items.read().unwrap().get(position.0).cloned();
+      if item.is_none() && was_error.is_none() && !was_completed {
+        return false;
+      }
+      *position = (position.0 + 1, true);
+      item.ok_or(was_error)
+    };
+    match item {
+      Ok(x) => self.observer.next(x),
+      Err(Some(e)) => self.observer.error(e),
+      Err(None) => self.observer.complete(),
+    }
+    self.position.write().unwrap().1 = false;
+    self.observer.is_subscribed()
+  }
+}
+
 impl<'a, Item> ReplaySubject<'a, Item>
 where
   Item: Clone + Send + Sync,
@@ -26,8 +75,8 @@ where
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
-    self.subject.next(item);
+    (*self.items.write().unwrap()).push(item);
+    self.subject.next(());
   }
   pub fn error(&self, err: RxError) {
     *self.was_error.write().unwrap() = Some(err.clone());
@@ -44,52 +93,29 @@ where
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
+      let player = Arc::new(Player {
+        observer: s.clone(),
+        position: RwLock::new((0, false)),
+        items: Arc::clone(&items),
+        was_error: Arc::clone(&was_error),
+        was_completed: Arc::clone(&was_completed),
+      });
+
+      let player_next = Arc::clone(&player);
+      let player_error = Arc::clone(&player);
+      let player_complete = Arc::clone(&player);
+      let observer = Observer::new(
+        move |_| player_next.play(),
+        move |_| player_error.play(),
+        move || player_complete.play(),
+      );
       {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
       }
 
-      let items = Arc::clone(&items);
-      let was_error = Arc::clone(&was_error);
-      let was_completed = Arc::clone(&was_completed);
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
-              s.complete();
-              return;
-            }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
-      );
+      subject.observable().inner_subscribe(observer);
+      player.play();
     })
   }
 
-- 
2.43.0


From 7a542cef23ad34a4e3b75399f0cdb7dc0f47af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 16/20] fix: BehaviorSubject hands over the latest value
 without a gap and without holding a lock

---
 src/subjects/behavior_subject.rs | 151 ++++++++++++++++++++++---------
 src/subjects/subject.rs          |   4 +-
 2 files changed, 109 insertions(+), 46 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..aa6dbf7 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,5 +1,8 @@
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct BehaviorSubject<'a, Item>
@@ -7,8 +10,60 @@ where
   Item: Clone + Send + Sync,
 {
   subject: Arc<subject::Subject<'a, Item>>,
-  last_item: Arc<RwLock<Option<Item>>>,
-  last_error: Arc<RwLock<Option<RxError>>>,
+  last: Arc<RwLock<Last<Item>>>,
+}
+
+// Changes together with the set of observers: the lock is held while observers
+// are registered or fetched, never while they are called.
+struct Last<Item> {
+  item: Option<Item>,
+  error: Option<RxError>,
+}
+
+// Delivers the events of one observer in order, starting with the hand-over.
+struct Courier<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  observer: Observer<'a, Item>,
+  // events to deliver, and whether a thread is delivering
+  queue: RwLock<(VecDeque<Material<Item>>, bool)>,
+}
+
+impl<'a, Item> Courier<'a, Item>
+where
+  Item: Clone + Send + Sync,
+{
+  fn post(&self, x: Material<Item>) {
+    self.queue.write().unwrap().0.push_back(x);
+    self.deliver();
+  }
+
+  fn deliver(&self) {
+    // no lock is held while calling the observer
+    while self.deliver_one() {}
+  }
+
+  fn deliver_one(&self) -> bool {
+    let event = {
+      let mut queue = self.queue.write().unwrap();
+      if queue.1 {
+        // the thread that is delivering looks again before it leaves
+        return false;
+      }
+      let event = queue.0.pop_front();
+      queue.1 = event.is_some();
+      event
+    };
+    match event {
+      Some(Material::Next(x)) => self.observer.next(x),
+      Some(Material::Error(e)) => self.observer.error(e),
+      Some(Material::Complete) => self.observer.complete(),
+      None => return false,
+    }
+    self.queue.write().unwrap().1 = false;
+    self.observer.is_subscribed()
+  }
 }
 
 impl<'a, Item> BehaviorSubject<'a, Item>
@@ -18,65 +73,73 @@ where
   pub fn new(initial: Item) -> BehaviorSubject<'a, Item> {
     BehaviorSubject {
       subject: Arc::new(subjects::Subject::new()),
-      last_item: Arc::new(RwLock::new(Some(initial))),
-      last_error: Arc::new(RwLock::new(None)),
+      last: Arc::new(RwLock::new(Last {
+        item: Some(initial),
+        error: None,
+      })),
     }
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    let obs = {
+      let mut last = self.last.write().unwrap();
+      last.item = Some(item.clone());
+      self.subject.fetch_observers()
+    };
+    obs.into_iter().for_each(|x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    let obs = {
+      let mut last = self.last.write().unwrap();
+      last.error = Some(err.clone());
+      self.subject.take_observers()
+    };
+    obs.into_iter().for_each(|x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
-    self.subject.complete();
+    let obs = {
+      let mut last = self.last.write().unwrap();
+      last.item = None;
+      self.subject.take_observers()
+    };
+    obs.into_iter().for_each(|x| x.complete());
   }
   pub fn observable(&self) -> Observable<'a, Item> {
-    let last_item = Arc::clone(&self.last_item);
-    let last_error = Arc::clone(&self.last_error);
+    let last = Arc::clone(&self.last);
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
+      let courier = Arc::new(Courier {
+        observer: s.clone(),
+        queue: RwLock::new((VecDeque::new(), false)),
+      });
+
+      let courier_next = Arc::clone(&courier);
+      let courier_error = Arc::clone(&courier);
+      let courier_complete = Arc::clone(&courier);
+      let observer = Observer::new(
+        move |x| courier_next.post(Material::Next(x)),
+        move |e| courier_error.post(Material::Error(e)),
+        move || courier_complete.post(Material::Complete),
+      );
       {
-        let last_item = &*last_item.read().unwrap();
-        let last_error = &*last_error.read().unwrap();
-
-        if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
-        } else {
-          s.complete();
-          return;
-        }
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
       }
 
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
       {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
+        let last = last.read().unwrap();
+        let event = if let Some(err) = &last.error {
+          Material::Error(err.clone())
+        } else if let Some(item) = &last.item {
+          subject.observable().inner_subscribe(observer);
+          Material::Next(item.clone())
+        } else {
+          Material::Complete
+        };
+        courier.queue.write().unwrap().0.push_front(event);
       }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
+      courier.deliver();
     })
   }
 }
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 0f25e9e..75f77de 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -28,14 +28,14 @@ where
     }
   }
 
-  fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
+  pub(crate) fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
     let binding = self.observers.read().unwrap();
     let x = binding.iter().map(|x| x.1.clone());
     Vec::from_iter(x)
   }
 
   // for a terminal event: whoever subscribes later gets the next one
-  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+  pub(crate) fn take_observers(&self) -> Vec<Observer<'a, Item>> {
     let observers = std::mem::take(&mut *self.observers.write().unwrap());
     Vec::from_iter(observers.into_values())
   }
-- 
2.43.0


From 1a90c2cc9347b2d93ec543752e3f41603867b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:48 +0000
Subject: [PATCH 17/20] fix: AsyncSubject hands the last item to late
 subscribers too

---
 src/subjects/async_subject.rs | 63 ++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..b410cb3 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -1,5 +1,5 @@
 use crate::prelude::*;
-use std::sync::Arc;
+use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
 pub struct AsyncSubject<'a, Item>
@@ -7,6 +7,13 @@ where
   Item: Clone + Send + Sync,
 {
   subject: Arc<subject::Subject<'a, Item>>,
+  // the terminal event, for those who subscribe after it
+  last: Arc<RwLock<Last<Item>>>,
+}
+
+struct Last<Item> {
+  item: Option<Item>,
+  result: Option<Result<(), RxError>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -16,20 +23,66 @@ where
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
       subject: Arc::new(subjects::Subject::new()),
+      last: Arc::new(RwLock::new(Last { item: None, result: None })),
     }
   }
 
   pub fn next(&self, item: Item) {
-    self.subject.next(item);
+    let mut last = self.last.write().unwrap();
+    if last.result.is_none() {
+      last.item = Some(item);
+    }
   }
   pub fn error(&self, err: RxError) {
-    self.subject.error(err);
+    self.finish(Err(err));
   }
   pub fn complete(&self) {
-    self.subject.complete();
+    self.finish(Ok(()));
+  }
+
+  fn finish(&self, result: Result<(), RxError>) {
+    let obs = {
+      let mut last = self.last.write().unwrap();
+      if last.result.is_some() {
+        return;
+      }
+      last.result = Some(result);
+      self.subject.take_observers()
+    };
+    obs.iter().for_each(|x| Self::hand_over(&self.last, x));
   }
+
+  fn hand_over(last: &RwLock<Last<Item>>, observer: &Observer<'a, Item>) {
+    let (item, result) = {
+      let last = last.read().unwrap();
+      (last.item.clone(), last.result.clone())
+    };
+    match result {
+      Some(Ok(())) => {
+        if let Some(item) = item {
+          observer.next(item);
+        }
+        observer.complete();
+      }
+      Some(Err(err)) => observer.error(err),
+      None => {}
+    }
+  }
+
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable().take_last(1).clone()
+    let last = Arc::clone(&self.last);
+    let subject = Arc::clone(&self.subject);
+
+    Observable::create(move |s| {
+      {
+        let last = last.read().unwrap();
+        if last.result.is_none() {
+          subject.observable().inner_subscribe(s);
+          return;
+        }
+      }
+      Self::hand_over(&last, &s);
+    })
   }
 }
 
-- 
2.43.0


From d3f8051a7f5df12c160ecea8030fc478af22413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:24 +0000
Subject: [PATCH 18/20] fix: timeout cancels its timer when the subscription
 ends

---
 src/operators/timeout.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..44a01b6 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,34 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      // replaces the timer, the previous one is cancelled
+      let set_timer = {
+        let timer = Arc::clone(&timer);
+        move |x: Option<Subscription<'a>>| {
+          let old = std::mem::replace(&mut *timer.write().unwrap(), x);
+          if let Some(old) = old {
+            old.unsubscribe();
+          }
+        }
+      };
+      {
+        let set_timer = set_timer.clone();
+        sctl.set_on_finalize(move || set_timer(None));
+      }
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          set_timer(None);
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            set_timer(Some(
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -73,7 +82,11 @@ where
                   junk_error!(),
                   junk_complete!(),
                 ),
-            );
+            ));
+            if !sctl_next.is_subscribed() {
+              // ended while the timer was being started
+              set_timer(None);
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From 80bdd89d0e2fb4197661041cc2db15a7b8001478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 19/20] fix: to_vec wakes the task without holding the waker
 lock

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..1e53dd4 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let waker = waker_error.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let waker = waker_complete.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
-- 
2.43.0


From 561c639f8542a510ed5e09ec609dacf86a20fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 20/20] fix: concurrent Subscription::unsubscribe calls return
 only after it took effect

---
 src/subscription.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/subscription.rs b/src/subscription.rs
index e9691ce..446ac6f 100644
--- a/src/subscription.rs
+++ b/src/subscription.rs
@@ -18,7 +18,10 @@ impl<'a> Subscription<'a> {
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_unsubscribe.call_and_clear_if_available(());
+    // cleared only after the call: when several threads unsubscribe at once,
+    // each returns only when the subscription has ended
+    self.fn_unsubscribe.call_if_available(());
+    self.fn_unsubscribe.clear();
   }
   pub fn is_subscribed(&self) -> bool {
     if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
-- 
2.43.0

