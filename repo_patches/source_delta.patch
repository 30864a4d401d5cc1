From c7ab8770a65f3167c4f12f28cf012f844a4876f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 01/20] fix: match resolved dependencies to the declaration
 that produced them

A resolved dependency was matched to any declaration whose name was equal to
either the package name or the extern name, so eg. swapped renames, or a crate
whose library has the same name as another dependency, used the features of the
wrong declaration, or panicked
---
 src/builder.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..6701465 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -778,6 +778,8 @@ impl Builder {
             name: String,
             pkg: Kid,
             version: semver::Version,
+            /// The name of the library target of the package, if it has one
+            lib_name: Option<String>,
             dep_kinds: Vec<DepKindInfo>,
         }
 
@@ -800,6 +802,45 @@ impl Builder {
             false
         }
 
+        /// Gets the name of the package's library target
+        #[inline]
+        fn lib_name(pkg: &crate::Package) -> Option<&str> {
+            use cm::TargetKind as Tk;
+
+            pkg.targets
+                .iter()
+                .find(|targ| {
+                    targ.kind.iter().any(|kind| {
+                        matches!(
+                            kind,
+                            Tk::Lib
+                                | Tk::RLib
+                                | Tk::DyLib
+                                | Tk::CDyLib
+                                | Tk::StaticLib
+                                | Tk::ProcMacro
+                        )
+                    })
+                })
+                .map(|targ| targ.name.as_str())
+        }
+
+        /// Determines if the dependency declaration could have resulted in the
+        /// specified resolved dependency
+        ///
+        /// The resolved name is either the name the declaration gives to the
+        /// package, or, if it doesn't rename it, the name of the package's
+        /// library target
+        #[inline]
+        fn is_declaration_of(decl: &cm::Dependency, dep: &NodeDep) -> bool {
+            decl.name == dep.pkg.name()
+                && match (&decl.rename, &dep.lib_name) {
+                    (Some(rename), _) => pkg_name_equals(&dep.name, rename),
+                    (None, Some(lib_name)) => pkg_name_equals(&dep.name, lib_name),
+                    (None, None) => true,
+                }
+        }
+
         #[derive(Debug)]
         struct Node {
             id: Kid,
@@ -870,10 +911,17 @@ impl Builder {
                             }
                         };
 
+                        let lib_name = packages
+                            .binary_search_by(|(id, _)| id.cmp(&pkg))
+                            .ok()
+                            .and_then(|i| lib_name(&packages[i].1))
+                            .map(|name| name.to_owned());
+
                         NodeDep {
                             name: dn.name,
                             pkg,
                             version,
+                            lib_name,
                             dep_kinds,
                         }
                     })
@@ -1272,7 +1320,6 @@ impl Builder {
                     uses_default_features: bool,
                 }
 
-                let maybe_real_name = pkg.name();
                 let strong = features.is_some();
 
                 // If there are multiple versions of the same package we use the
@@ -1310,8 +1357,7 @@ impl Builder {
                             }
 
                             // Crates can rename the dependency package themselves
-                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
+                            if !is_declaration_of(dep, rdep) {
                                 return false;
                             }
 
@@ -1337,8 +1383,7 @@ impl Builder {
 
 
                                 // Crates can rename the dependency package themselves
-                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
+                                if !is_declaration_of(dep, rdep) {
                                     return false;
                                 }
 
-- 
2.43.0


From 2417892e6e42ed23394cb64430aea77b2584ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 02/20] fix: resolve the dependency of a feature by its name in
 the manifest

---
 src/builder.rs | 136 +++++++++++++------------------------------------
 1 file changed, 34 insertions(+), 102 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6701465..a086844 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -609,16 +609,6 @@ impl Builder {
     {
         let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;
 
-        // Crates can rename their lib target via
-        // [lib]
-        // name = "ihateyou"
-        // which will be the name that appears in the resolved node graph unless the dependent also renames it. This
-        // case is super rare, but we need to handle it to prevent crates being pruned from the graph due to not matching
-        // a <actual-crate-name>/feature to the resolve node
-        struct Renames<'p> {
-            inner: BTreeMap<&'p str, Vec<(&'p semver::Version, &'p str)>>,
-        }
-
         #[inline]
         fn pkg_name_equals(krate: &str, human: &str) -> bool {
             krate.len() == human.len()
@@ -628,58 +618,6 @@ impl Builder {
                     .all(|(a, b)| a == b || a == '_' && b == '-')
         }
 
-        impl<'p> Renames<'p> {
-            #[inline]
-            fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
-                    return;
-                };
-
-                if pkg_name_equals(&targ.name, &pkg.name) {
-                    return;
-                }
-
-                let v = self.inner.entry(&pkg.name).or_default();
-
-                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
-                    v.insert(i, (&pkg.version, &targ.name));
-                }
-            }
-
-            #[inline]
-            fn resolve_feature<'n>(
-                &self,
-                feature_krate_name: &str,
-                rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
-                    if pkg_name_equals(&rdep.name, feature_krate_name) {
-                        return true;
-                    }
-
-                    if feature_krate_name != rdep.pkg.name() {
-                        return false;
-                    }
-
-                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
-                        else {
-                            return false;
-                        };
-                        renames[i].1 == rdep.name
-                    })
-                })
-            }
-        }
-
-        let mut renames = Renames {
-            inner: Default::default(),
-        };
-
         let mut packages: Vec<_> = md
             .packages
             .into_iter()
@@ -700,10 +638,6 @@ impl Builder {
             }
         }
 
-        for (_, pkg) in &packages {
-            renames.maybe_insert(pkg);
-        }
-
         let mut workspace_members: Vec<_> =
             md.workspace_members.into_iter().map(Kid::from).collect();
         workspace_members.sort();
@@ -1252,49 +1186,47 @@ impl Builder {
                         }
                     };
 
-                    // Note that we don't care about the package name here, as cargo resolves feature by the manifest
-                    // name for the package only, since it's possible to have multiple versions of the same crate that
-                    // each need a unique name
-                    //
-                    // ...except we do have to care! While the above is the **overwhelming** majority of cases, packages
-                    // can also rename their `lib` target, which will mean that the resolved nodes use that name,
-                    // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
-                    // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
+                    // Cargo resolves features by the manifest name for the package only, since it's possible to have
+                    // multiple versions of the same crate that each need a unique name. However, the same manifest
+                    // name can be used for different packages in different dependency tables
+                    for ndep in rnode.deps.iter().filter(|ndep| {
+                        krate.dependencies.iter().any(|decl| {
+                            decl.rename.as_ref().unwrap_or(&decl.name) == krate_name
+                                && is_declaration_of(decl, ndep)
+                        })
+                    }) {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+
+                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                            let feature = rdep_node.feature_index(feature.unwrap());
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                            continue;
+                        }
 
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
-                        let feature = rdep_node.feature_index(feature.unwrap());
-                        krate_features
-                            .pending_weak
+                        let feats = deps
                             .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
-                        continue;
-                    }
-
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
+                            .unwrap();
 
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
-
-                    if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        if let Some(feature) = feature {
+                            feats.insert(rdep_node.feature_index(feature));
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 150cb5dbe33c61e3bff4d37f95e0611b1cb0660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 03/20] fix: a strong feature reference enables the feature
 named after the optional dependency

---
 src/builder.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index a086844..ab53046 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1186,6 +1186,24 @@ impl Builder {
                         }
                     };
 
+                    // If the dependency is optional, a strong reference to one of its features also enables the
+                    // feature with the same name as the dependency, which only matters if that isn't just
+                    // the implicit feature for the dependency
+                    if let Feature::Strong { krate: dep_name, .. } = pf.feat()
+                        && krate.dependencies.iter().any(|decl| {
+                            decl.optional
+                                && decl.rename.as_deref().unwrap_or(&decl.name) == dep_name
+                        })
+                        && krate.features.get(dep_name).is_some_and(|subs| {
+                            subs.len() != 1 || subs[0].strip_prefix("dep:") != Some(dep_name)
+                        })
+                        && let Ok(feat) = rnode
+                            .features
+                            .binary_search_by(|f| f.as_str().cmp(dep_name))
+                    {
+                        visit_stack.push_with_feature(pid, feat);
+                    }
+
                     // Cargo resolves features by the manifest name for the package only, since it's possible to have
                     // multiple versions of the same crate that each need a unique name. However, the same manifest
                     // name can be used for different packages in different dependency tables
-- 
2.43.0


From 44a4b2da5cba8442f7a7a51dcae32d1327b885ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:38 +0000
Subject: [PATCH 04/20] fix: only list features of the crate itself as enabled

---
 src/builder.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ab53046..83817de 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1792,21 +1792,12 @@ impl Builder {
                     } else {
                         let feat_name = feat_name.unwrap_or_else(|| sub_feat.kid.name().to_owned());
 
-                        let target_id = graph.add_node(crate::Node::Feature {
+                        // Note that the flat list of enabled features for the crate is already complete, this
+                        // can be the name of a dependency, or a feature of one, which is not a feature of this crate
+                        graph.add_node(crate::Node::Feature {
                             krate_index: kind,
-                            name: feat_name.clone(),
-                        });
-
-                        // Ensure that all of the subfeatures enabled by the parent feature are added to the
-                        // flat list of enabled features for the crate
-                        if let crate::Node::Krate { features, .. } = &mut graph[kind] {
-                            if !features.contains(&feat_name) {
-                                features.insert(feat_name.clone());
-                                feature_stack.push(feat_name);
-                            }
-                        }
-
-                        target_id
+                            name: feat_name,
+                        })
                     };
 
                     graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));
-- 
2.43.0


From 5009c518d091a48f09c208d6bf1df41bfaa0c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 05/20] fix: a weak feature reference does not enable the
 optional dependency

---
 src/builder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 83817de..36cc5bb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1216,13 +1216,21 @@ impl Builder {
                         let rdep_node = get_rnode(&ndep.pkg);
                         let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                        // A weak reference never enables the optional dependency itself, it only enables the
+                        // feature if the dependency is otherwise enabled
+                        if is_weak {
                             let feature = rdep_node.feature_index(feature.unwrap());
-                            krate_features
-                                .pending_weak
-                                .entry(&ndep.pkg)
-                                .or_default()
-                                .insert(feature);
+
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                            } else {
+                                krate_features
+                                    .pending_weak
+                                    .entry(&ndep.pkg)
+                                    .or_default()
+                                    .insert(feature);
+                            }
                             continue;
                         }
 
-- 
2.43.0


From ef967e873b35d53021c8323fd15272e1082f0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 06/20] fix: metadata without a resolution graph can be
 deserialized

---
 src/cm/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..d7d7522 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,8 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            // This is `null` if cargo was run with `--no-deps`
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 9144e3ab36fa01f005759f6eadd98819c63e9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:41 +0000
Subject: [PATCH 07/20] fix: a rust-version with a single component can be
 deserialized

---
 src/cm/de.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index d7d7522..1cd7d5d 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -420,12 +420,12 @@ impl<'de> Deserialize<'de> for Source {
 
 /// As per the Cargo Book the [`rust-version` field](https://doc.rust-lang.org/cargo/reference/manifest.html#the-rust-version-field) must:
 ///
-/// > be a bare version number with two or three components;
+/// > be a bare version number with at least one component;
 /// > it cannot include semver operators or pre-release identifiers.
 ///
 /// [`semver::Version`] however requires three components. This function takes
-/// care of appending `.0` if the provided version number only has two components
-/// and ensuring that it does not contain a pre-release version or build metadata.
+/// care of appending `.0` for each missing component and ensuring that it does
+/// not contain a pre-release version or build metadata.
 fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version, E> {
     for c in buf.chars() {
         if c == '-' {
@@ -437,8 +437,8 @@ fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version
         }
     }
 
-    if buf.matches('.').count() == 1 {
-        // e.g. 1.0 -> 1.0.0
+    // e.g. 1 -> 1.0.0, 1.0 -> 1.0.0
+    for _ in buf.matches('.').count()..2 {
         buf.push_str(".0");
     }
 
-- 
2.43.0


From 0caa161d23a6b18115ca37589ea6c81fcdd28ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 08/20] fix: serialize the required features of a target under
 cargo's name for them

---
 src/cm/ser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..0cc37bc 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -145,20 +145,9 @@ map!(Dependency, map, self, {
 });
 
 map!(Target, map, self, {
-    entries!(
-        map,
-        self,
-        name,
-        kind,
-        crate_types,
-        required_features,
-        src_path,
-        edition,
-        doctest,
-        doctest,
-        test,
-        doc
-    );
+    entries!(map, self, name, kind, crate_types);
+    entry!(map, self, required_features, "required-features");
+    entries!(map, self, src_path, edition, doctest, test, doc);
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From 9c5d0a71c299b364aa33d689a79fbe144f90875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 09/20] fix: evaluate cfg(true) and cfg(false) as the constants
 they are

---
 src/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 36cc5bb..566080d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -253,6 +253,7 @@ impl TargetFilter {
                 // is being filtered
                 self.features.iter().any(|f| f == feat)
             }
+            cfg_expr::expr::Predicate::Flag("true") => true,
             // We *could* warn here about an invalid expression, but
             // presumably cargo will be responsible for that, so don't bother
             _ => false,
@@ -1427,7 +1428,13 @@ impl Builder {
 
                                 // We can't just do an eval and always return true, as that then would cause any
                                 // not() expressions to evaluate to false
-                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {
+                                let is_constant = expr.predicates().all(|pred| {
+                                    matches!(pred, cfg_expr::Predicate::Flag("true" | "false"))
+                                });
+
+                                if is_constant
+                                    && !expr.eval(|pred| matches!(pred, cfg_expr::Predicate::Flag("true")))
+                                {
                                     return None;
                                 }
                             }
-- 
2.43.0


From c5468c8b1136e1aa4b79f9df001e46d683d63948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 10/20] fix: hash package identifiers consistently with their
 equality

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..c7c170b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,11 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Only what is compared for equality, the full package id of a git source
+        // can have a commit that is not part of the identity of the package
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From 32d060716c5392840b7483d71aa20d12dae59fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 11/20] fix: decode the query of every git package id

Neither ids that also contain the name of the package, nor references
with characters outside of the short list were decoded.
---
 src/lib.rs | 152 +++++++++++++++++------------------------------------
 1 file changed, 49 insertions(+), 103 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c7c170b..630e857 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,6 +86,36 @@ impl Kid {
     }
 }
 
+/// Decodes the percent encoded characters in the query of a git source
+///
+/// <https://en.wikipedia.org/wiki/Percent-encoding>
+fn percent_decode(encoded: &str) -> String {
+    let mut decoded = Vec::with_capacity(encoded.len());
+    let mut rest = encoded.as_bytes();
+
+    while let Some((&b, tail)) = rest.split_first() {
+        if b != b'%' {
+            decoded.push(b);
+            rest = tail;
+            continue;
+        }
+
+        let hex = |i: usize| tail.get(i).and_then(|b| char::from(*b).to_digit(16));
+        let (Some(hi), Some(lo)) = (hex(0), hex(1)) else {
+            // This _should_ never happen, but just in case
+            panic!("invalid percent encoding in '{encoded}'");
+        };
+
+        decoded.push((hi << 4 | lo) as u8);
+        rest = &tail[2..];
+    }
+
+    match String::from_utf8(decoded) {
+        Ok(decoded) => decoded,
+        Err(_) => panic!("'{encoded}' is not percent encoded utf-8"),
+    }
+}
+
 #[allow(clippy::fallible_impl_from)]
 impl From<PackageId> for Kid {
     fn from(pid: PackageId) -> Self {
@@ -106,112 +136,28 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
+                let mut path_end = vmn;
+
+                if repr.starts_with("git+")
+                    && let Some(query) = repr[..vmn].rfind('?')
+                {
+                    // Unfortunately the stable format percent encodes the source url in the metadata, and since
+                    // git branches/tags can contain various special characters, notably '/', we need to decode them
+                    // to be able to match against the non-encoded url used...everywhere else
+                    path_end = query;
+
+                    if repr[query..vmn].contains('%') {
+                        let decoded = percent_decode(&repr[query..vmn]);
+                        repr.replace_range(query..vmn, &decoded);
+                        vmn = query + decoded.len();
+                    }
+                }
+
                 let (name, version) = if let Some(split) = repr[vmn..].find('@') {
                     ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
                 } else {
-                    let begin = repr.rfind('/')? + 1;
-                    let end = if repr.starts_with("git+") {
-                        // Unfortunately the stable format percent encodes the source url in the metadata, and since
-                        // git branches/tags can contain various special characters, notably '/', we need to decode them
-                        // to be able to match against the non-encoded url used...everywhere else
-                        let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);
-
-                        if repr[end..].contains('%') {
-                            let mut decoded = String::new();
-                            let mut encoded = &repr[end..];
-                            let before = encoded.len();
-
-                            loop {
-                                let Some(pi) = encoded.find('%') else {
-                                    decoded.push_str(encoded);
-                                    break;
-                                };
-
-                                decoded.push_str(&encoded[..pi]);
-
-                                let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
-                                    // This _should_ never happen, but just in case
-                                    panic!(
-                                        "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
-                                        &repr[end..],
-                                        &encoded[pi..]
-                                    );
-                                };
-
-                                // https://en.wikipedia.org/wiki/Percent-encoding
-                                // Reserved characters after percent-encoding
-                                //
-                                // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
-                                // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
-                                //
-                                // Common characters after percent-encoding (ASCII or UTF-8 based)
-                                //
-                                // -   .   <   >   \   ^   _   `   {   |   }   ~
-                                // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
-                                //
-                                // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                                // I don't feel like supporting it until someone actually complains
-
-                                let c = match encoding {
-                                    // By far the most likely one
-                                    "2F" | "2f" => '/',
-                                    "21" => '!',
-                                    "22" => '"',
-                                    "23" => '#',
-                                    "24" => '$',
-                                    "25" => '%',
-                                    "26" => '&',
-                                    "27" => '\'',
-                                    "28" => '(',
-                                    "29" => ')',
-                                    "2A" | "2a" => '*',
-                                    "2B" | "2b" => '+',
-                                    "2C" | "2c" => ',',
-                                    "2D" | "2d" => '-',
-                                    "2E" | "2e" => '.',
-                                    "3B" | "3b" => ';',
-                                    "3C" | "3c" => '<',
-                                    "3D" | "3d" => '=',
-                                    "3E" | "3e" => '>',
-                                    "40" => '@',
-                                    "5D" | "5d" => ']',
-                                    "5F" | "5f" => '_',
-                                    "60" => '`',
-                                    "7B" | "7b" => '{',
-                                    "7C" | "7c" => '|',
-                                    "7D" | "7d" => '}',
-                                    // These are invalid in branches/tags, but meh
-                                    // https://git-scm.com/docs/git-check-ref-format
-                                    "20" => ' ',
-                                    "3A" | "3a" => ':',
-                                    "3F" | "3f" => '?',
-                                    "5B" | "5b" => '[',
-                                    "5C" | "5c" => '\\',
-                                    "5E" | "5e" => '^',
-                                    "7E" | "7e" => '~',
-                                    _ => panic!(
-                                        "unknown percent encoding '%{encoding}' in '{}'",
-                                        &repr[end..]
-                                    ),
-                                };
-
-                                decoded.push(c);
-                                encoded = &encoded[pi + 3..];
-                            }
-
-                            repr.truncate(end);
-                            repr.push_str(&decoded);
-
-                            // move the version string back to account for the now shorter decoded repr
-                            vmn -= before - decoded.len();
-                        }
-
-                        end
-                    } else {
-                        vmn
-                    };
-
-                    ((begin, end), (vmn + 1, repr.len()))
+                    let begin = repr[..path_end].rfind('/')? + 1;
+                    ((begin, path_end), (vmn + 1, repr.len()))
                 };
 
                 [name, version, (0, vmn)]
-- 
2.43.0


From 750fa3f68f91d2c98e83ab6e6d3c55f39e4cf7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 12/20] fix: a package spec with a url does not match every
 path package of that name

---
 src/pkgspec.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 9488370..799bb40 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -23,14 +23,19 @@ impl PkgSpec {
             }
         }
 
-        let Some((url, src)) = self
-            .url
-            .as_ref()
-            .zip(krate.source.as_ref().map(|s| s.repr.as_str()))
-        else {
+        let Some(url) = &self.url else {
             return true;
         };
 
+        // Path dependencies don't have a source, only their id has the url of the path
+        let path_id;
+        let src = if let Some(src) = &krate.source {
+            src.repr.as_str()
+        } else {
+            path_id = crate::Kid::from(krate.id.clone());
+            path_id.source()
+        };
+
         let begin = src.find('+').map_or(0, |i| i + 1);
         let end = src.find('?').or_else(|| src.find('#')).unwrap_or(src.len());
 
-- 
2.43.0


From e448974f355c20c7defd1ab766f2617324d60d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 13/20] fix: a package spec must name a package

---
 src/pkgspec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 799bb40..5d6627d 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -51,7 +51,10 @@ impl std::str::FromStr for PkgSpec {
                                    url: Option<&str>|
          -> Result<(String, Option<Version>), Self::Err> {
             let validate_name = |n: &str| -> Result<String, Self::Err> {
-                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
+                if n.is_empty() {
+                    Err(Error::InvalidPkgSpec("package name cannot be empty"))
+                } else if n
+                    .find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                     .is_some()
                 {
                     Err(Error::InvalidPkgSpec(
-- 
2.43.0


From 82661f59fe8fae1639ee9963606074711f77de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:36 +0000
Subject: [PATCH 14/20] fix: find the workspace manifest if the workspace is
 behind a symlink

---
 src/builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 566080d..b495366 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -668,9 +668,14 @@ impl Builder {
                 }
             } else {
                 // If the filters only contain 1 path, and it is the path to a
-                // workspace toml, then we disregard the filters
+                // workspace toml, then we disregard the filters. Note that the
+                // filters are canonicalized if possible
+                let workspace_root = md.workspace_root.as_std_path();
+                let canonical_root = workspace_root.canonicalize();
+                let workspace_root = canonical_root.as_deref().unwrap_or(workspace_root);
+
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && Some(workspace_root) == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From f7ef9cf59d745aeeb6b1693b07a8fc572d858fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 15/20] fix: match a dependency for a triple however the triple
 is written

---
 src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b495366..e6f0a15 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -264,10 +264,10 @@ impl TargetFilter {
         match &self.inner {
             Target::Builtin(bi) => bi.triple.as_str() == triple,
             #[cfg(feature = "targets")]
-            Target::Triple(trip) => {
-                let as_triple = format!("{}", trip);
-                as_triple == triple
-            }
+            // The normalized form of a triple can differ from how it was written
+            Target::Triple(trip) => triple
+                .parse::<cfg_expr::target_lexicon::Triple>()
+                .is_ok_and(|other| other == *trip),
             Target::Unknown(unknown) => unknown == triple,
         }
     }
-- 
2.43.0


From 2920951bf2c214f6276f1214cbc7284d962390bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:48 +0000
Subject: [PATCH 16/20] fix: tolerate references to dependency features cargo
 didn't enable

---
 src/builder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e6f0a15..5d159ab 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -790,6 +790,13 @@ impl Builder {
         }
 
         impl Node {
+            #[inline]
+            fn find_feature(&self, feat: &str) -> Option<usize> {
+                self.features
+                    .binary_search_by(|f| f.as_str().cmp(feat))
+                    .ok()
+            }
+
             #[inline]
             fn feature_index(&self, feat: &str) -> usize {
                 match self.features.binary_search_by(|f| f.as_str().cmp(feat)) {
@@ -1222,10 +1229,16 @@ impl Builder {
                         let rdep_node = get_rnode(&ndep.pkg);
                         let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
+                        // The referenced feature might not be enabled, as cargo doesn't consider the features of
+                        // dev-dependencies when the feature that references them is enabled by another crate
+                        let feature = feature.and_then(|feat| rdep_node.find_feature(feat));
+
                         // A weak reference never enables the optional dependency itself, it only enables the
                         // feature if the dependency is otherwise enabled
                         if is_weak {
-                            let feature = rdep_node.feature_index(feature.unwrap());
+                            let Some(feature) = feature else {
+                                continue;
+                            };
 
                             if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
                                 visit_stack.push_with_feature(&ndep.pkg, feature);
@@ -1257,7 +1270,7 @@ impl Builder {
                             .unwrap();
 
                         if let Some(feature) = feature {
-                            feats.insert(rdep_node.feature_index(feature));
+                            feats.insert(feature);
                         }
                     }
                 }
-- 
2.43.0


From b41339cdd2254f239ceda3dcfac7d360a8469b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 17/20] fix: choose between declarations with the same name by
 source for every git dependency

The sources of dependencies in the same git repository have the revision at
the end with either package id format, which ended in a panic, and features of
such a dependency could be given to the other one with the same name. Packages
can also be patched, so that no declaration has their source.
---
 src/builder.rs | 173 +++++++++++++++++++------------------------------
 1 file changed, 67 insertions(+), 106 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5d159ab..75cbc5b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -720,6 +720,8 @@ impl Builder {
             version: semver::Version,
             /// The name of the library target of the package, if it has one
             lib_name: Option<String>,
+            /// The source of the package, which has the precise revision of git sources
+            source: Option<String>,
             dep_kinds: Vec<DepKindInfo>,
         }
 
@@ -767,18 +769,66 @@ impl Builder {
 
         /// Determines if the dependency declaration could have resulted in the
         /// specified resolved dependency
-        ///
-        /// The resolved name is either the name the declaration gives to the
-        /// package, or, if it doesn't rename it, the name of the package's
-        /// library target
-        #[inline]
-        fn is_declaration_of(decl: &cm::Dependency, dep: &NodeDep) -> bool {
+        fn could_be_declaration_of(decl: &cm::Dependency, dep: &NodeDep) -> bool {
+            // The resolved name is either the name the declaration gives to the
+            // package, or, if it doesn't rename it, the name of the package's
+            // library target
             decl.name == dep.pkg.name()
                 && match (&decl.rename, &dep.lib_name) {
                     (Some(rename), _) => pkg_name_equals(&dep.name, rename),
                     (None, Some(lib_name)) => pkg_name_equals(&dep.name, lib_name),
                     (None, None) => true,
                 }
+                // Handle case where a dependency may not have a version requirement, which
+                // typically happens in the case of non-registry dependencies that use a pre-release
+                // semver, if the version _is_ a prelease it will never match the empty
+                // requirement
+                && ((!dep.version.pre.is_empty() && decl.req.comparators.is_empty())
+                    || decl.req.matches(&dep.version))
+        }
+
+        /// Determines if the declaration has the source of the resolved dependency
+        fn has_same_source(decl: &cm::Dependency, dep: &NodeDep) -> bool {
+            if let Some(dsrc) = &decl.source {
+                let Some(psrc) = dep.source.as_deref() else {
+                    return false;
+                };
+
+                // The source of a git package has the full revision at the end, which is only part
+                // of the declaration's source if both packages are in the same repository
+                dsrc == psrc
+                    || psrc.starts_with("git+")
+                        && psrc.rsplit_once('#').is_some_and(|(psrc, _)| dsrc == psrc)
+            } else if let Some(dpath) = &decl.path {
+                compare_paths(dpath, dep.pkg.source())
+            } else {
+                false
+            }
+        }
+
+        /// Determines if the dependency declaration resulted in the specified
+        /// resolved dependency, of all of the krate's
+        ///
+        /// Even if the name matches and the version matches, the source for the package might
+        /// be different, as there is an _extreme_ edge case where the name given to a package, or its lib
+        /// target, is the same as the name of another package's lib target. This actually would mean that the
+        /// code won't compile. The source can only be used to choose though, as packages can be patched to
+        /// come from another source than the one declared
+        #[inline]
+        fn is_declaration_of(
+            krate: &crate::Package,
+            deps: &[NodeDep],
+            decl: &cm::Dependency,
+            dep: &NodeDep,
+        ) -> bool {
+            let exact = |decl: &cm::Dependency, dep: &NodeDep| {
+                could_be_declaration_of(decl, dep) && has_same_source(decl, dep)
+            };
+
+            could_be_declaration_of(decl, dep)
+                && (has_same_source(decl, dep)
+                    || !krate.dependencies.iter().any(|other| exact(other, dep))
+                        && !deps.iter().any(|other| exact(decl, other)))
         }
 
         #[derive(Debug)]
@@ -816,10 +866,6 @@ impl Builder {
             }
         }
 
-        // We need to establish if the package ids are in the opaque or stable format as
-        // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
-
         let mut nodes: Vec<_> = resolved
             .nodes
             .into_iter()
@@ -858,17 +904,21 @@ impl Builder {
                             }
                         };
 
-                        let lib_name = packages
+                        let krate = packages
                             .binary_search_by(|(id, _)| id.cmp(&pkg))
                             .ok()
-                            .and_then(|i| lib_name(&packages[i].1))
-                            .map(|name| name.to_owned());
+                            .map(|i| &packages[i].1);
+                        let lib_name = krate.and_then(lib_name).map(|name| name.to_owned());
+                        let source = krate
+                            .and_then(|krate| krate.source.as_ref())
+                            .map(|src| src.repr.clone());
 
                         NodeDep {
                             name: dn.name,
                             pkg,
                             version,
                             lib_name,
+                            source,
                             dep_kinds,
                         }
                     })
@@ -1223,7 +1273,7 @@ impl Builder {
                     for ndep in rnode.deps.iter().filter(|ndep| {
                         krate.dependencies.iter().any(|decl| {
                             decl.rename.as_ref().unwrap_or(&decl.name) == krate_name
-                                && is_declaration_of(decl, ndep)
+                                && is_declaration_of(krate, &rnode.deps, decl, ndep)
                         })
                     }) {
                         let rdep_node = get_rnode(&ndep.pkg);
@@ -1299,23 +1349,6 @@ impl Builder {
 
                 let strong = features.is_some();
 
-                // If there are multiple versions of the same package we use the
-                // version to disambiguate references to them, unfortunately,
-                // though (it should be) extremely rare to do this, we always
-                // check that versions match once a crate is found, as nodes can
-                // not be resolved due to features, but will still be listed as
-                // a dependency
-                //
-                // Note that cargo _should_ fail to resolve nodes if the same
-                // package is referenced with two `^` (compatible) semvers, ie,
-                // you can't reference both ">= 0.2.12" and "=0.2.7" of a package
-                // even if they could never point to the same package, this _may_
-                // mean there could be a situation where a single crate _could_
-                // be referenced with 0.0.x versions, but...I'll fix that if
-                // someone reports an issue
-                let rdep_version = &rdep.version;
-                let has_prelease = !rdep_version.pre.is_empty();
-
                 let edges = rdep.dep_kinds.iter().filter_map(|dk| {
                         let mask = match dk.kind {
                             DepKind::Normal => 0x1,
@@ -1328,86 +1361,14 @@ impl Builder {
                             return None;
                         }
 
-                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
-                            if dk.kind != dep.kind {
-                                return false;
-                            }
-
-                            // Crates can rename the dependency package themselves
-                            if !is_declaration_of(dep, rdep) {
-                                return false;
-                            }
-
-                            // Handle case where a dependency may not have a version requirement, which
-                            // typically happens in the case of non-registry dependencies that use a pre-release
-                            // semver, if the version _is_ a prelease it will never match the empty
-                            // requirement
-                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                return false;
-                            }
-
-                            crate::targets_eq(&dk.cfg, &dep.target)
-                        }).count() > 1;
-
                         let Some((dep_index, dep)) = krate
                             .dependencies
                             .iter()
                             .enumerate()
                             .find(|(_, dep)| {
-                                if dk.kind != dep.kind {
-                                    return false;
-                                }
-
-
-                                // Crates can rename the dependency package themselves
-                                if !is_declaration_of(dep, rdep) {
-                                    return false;
-                                }
-
-                                // Handle case where a dependency may not have a version requirement, which
-                                // typically happens in the case of non-registry dependencies that use a pre-release
-                                // semver, if the version _is_ a prelease it will never match the empty
-                                // requirement. Note this will pass through eg. path dependencies that don't specify a
-                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
-                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                    return false;
-                                }
-
-                                if !crate::targets_eq(&dk.cfg, &dep.target) {
-                                    return false;
-                                }
-
-                                if !multiple_candidates {
-                                    return true;
-                                }
-
-                                // Finally, even if the name matches and the version matches, the source for the package might
-                                // be different if there are multiple git dependencies at different revisions :(, or if
-                                // There is also an _extreme_ edge case where a package's lib target can be the same
-                                // name as another package. This actually would mean that the code won't compile, but I
-                                // encountered it in testing (eg. the `md-5` crate names its lib target `md5`, and you
-                                // can have a dependency on the `md5` crate, they both get resolved to the same name, but
-                                // then rustc can't compile `md5::compute` because there are two libs that satisfy that name)
-                                if let Some(dsrc) = &dep.source {
-                                    let psrc = rdep.pkg.source();
-                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
-                                        return dsrc == psrc;
-                                    };
-
-                                    // The opaque git sources can have the full revision spec at the end, which is not part of
-                                    // source declaration
-                                    let dgit = if is_opaque {
-                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
-                                    } else {
-                                        dgit
-                                    };
-
-                                    dgit == pgit
-                                } else if let Some(dpath) = &dep.path {
-                                    compare_paths(dpath, rdep.pkg.source())
-                                } else {
-                                    false
-                                }
+                                dk.kind == dep.kind
+                                    && is_declaration_of(krate, &rnode.deps, dep, rdep)
+                                    && crate::targets_eq(&dk.cfg, &dep.target)
                             }) else {
                                 unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
                             };
-- 
2.43.0


From 2cc91d6cfe0338ef7359a15be94e9875ab38cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 18/20] fix: compare the paths of dependencies in directories
 whose name needs encoding in a url

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 75cbc5b..92c5e2b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1814,10 +1814,13 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
         return false;
     };
 
+    // The source is a url, the path isn't
+    let rpath = crate::percent_decode(rpath);
+
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-        rpath == dpath
+        *dpath == *rpath
     } else {
         // Skip the leading /
         let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();
-- 
2.43.0


From bfa7259f29eaa4c4a318275c1cf0c6260121cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 19/20] fix: don't take a path dependency for the patched one
 of the same name

---
 src/builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 92c5e2b..59f2189 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -827,8 +827,13 @@ impl Builder {
 
             could_be_declaration_of(decl, dep)
                 && (has_same_source(decl, dep)
-                    || !krate.dependencies.iter().any(|other| exact(other, dep))
-                        && !deps.iter().any(|other| exact(decl, other)))
+                    || !krate.dependencies.iter().any(|other| {
+                        exact(other, dep)
+                            // A path can't be patched
+                            || decl.path.is_some()
+                                && other.path.is_none()
+                                && could_be_declaration_of(other, dep)
+                    }) && !deps.iter().any(|other| exact(decl, other)))
         }
 
         #[derive(Debug)]
-- 
2.43.0


From 0ec315d35c4e80b5fa59c761a9f12e1d2bbd1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 20/20] fix: tell apart the declarations of a package that
 share their extern name

Cargo accepts the same package under two manifest names as long as the extern
names coincide, eg. `m5 = { package = "m-5" }` next to `m-5` whose library is
called m5. Only the first declaration was looked at: the features of the other
were lost, a reference to one enabled the other, and only one was mapped.
---
 src/builder.rs | 151 ++++++++++++++++++++++++++-----------------------
 1 file changed, 80 insertions(+), 71 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 59f2189..89fe5a5 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -767,6 +767,12 @@ impl Builder {
                 .map(|targ| targ.name.as_str())
         }
 
+        /// The name of the dependency in the manifest, which is what features refer to
+        #[inline]
+        fn manifest_name(decl: &cm::Dependency) -> &str {
+            decl.rename.as_deref().unwrap_or(&decl.name)
+        }
+
         /// Determines if the dependency declaration could have resulted in the
         /// specified resolved dependency
         fn could_be_declaration_of(decl: &cm::Dependency, dep: &NodeDep) -> bool {
@@ -1011,6 +1017,7 @@ impl Builder {
             cfg: Option<String>,
             features: Vec<usize>,
             dep_index: usize,
+            is_direct: bool,
         }
 
         #[derive(Debug)]
@@ -1047,7 +1054,7 @@ impl Builder {
             /// The actual set of features enabled by 1 or more parent krates
             actual: BTreeSet<usize>,
             /// Weakly referenced features
-            pending_weak: BTreeMap<&'p Kid, BTreeSet<usize>>,
+            pending_weak: BTreeMap<(&'p Kid, String), BTreeSet<usize>>,
             filled_non_optional: bool,
         }
 
@@ -1219,7 +1226,9 @@ impl Builder {
                 deps: BTreeMap::new(),
             });
 
-            let mut deps = BTreeMap::<&Kid, (&NodeDep, Option<BTreeSet<usize>>)>::new();
+            // The same package can be declared with multiple manifest names, each of which enables
+            // only the dependencies with that name. Without a name it's the non-optional ones
+            let mut deps = BTreeMap::<(&Kid, Option<&str>), (&NodeDep, BTreeSet<usize>)>::new();
 
             if let Some(feature) = feature {
                 if !krate_features.actual.insert(feature) {
@@ -1275,10 +1284,11 @@ impl Builder {
                     // Cargo resolves features by the manifest name for the package only, since it's possible to have
                     // multiple versions of the same crate that each need a unique name. However, the same manifest
                     // name can be used for different packages in different dependency tables
-                    for ndep in rnode.deps.iter().filter(|ndep| {
-                        krate.dependencies.iter().any(|decl| {
-                            decl.rename.as_ref().unwrap_or(&decl.name) == krate_name
-                                && is_declaration_of(krate, &rnode.deps, decl, ndep)
+                    for (ndep, name) in rnode.deps.iter().filter_map(|ndep| {
+                        krate.dependencies.iter().find_map(|decl| {
+                            (manifest_name(decl) == krate_name
+                                && is_declaration_of(krate, &rnode.deps, decl, ndep))
+                            .then_some((ndep, manifest_name(decl)))
                         })
                     }) {
                         let rdep_node = get_rnode(&ndep.pkg);
@@ -1295,34 +1305,27 @@ impl Builder {
                                 continue;
                             };
 
-                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg).filter(|dep| {
+                                dep.edges.iter().any(|edge| {
+                                    manifest_name(&krate.dependencies[edge.dep_index]) == name
+                                })
+                            }) {
                                 visit_stack.push_with_feature(&ndep.pkg, feature);
                                 dep.features.insert(feature);
                             } else {
                                 krate_features
                                     .pending_weak
-                                    .entry(&ndep.pkg)
+                                    .entry((&ndep.pkg, name.to_owned()))
                                     .or_default()
                                     .insert(feature);
                             }
                             continue;
                         }
 
-                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                            deps.entry(&ndep.pkg)
-                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                                .1
-                                .as_mut()
-                                .unwrap()
-                                .append(&mut pending);
-                        }
-
-                        let feats = deps
-                            .entry(&ndep.pkg)
-                            .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                            .1
-                            .as_mut()
-                            .unwrap();
+                        let feats = &mut deps
+                            .entry((&ndep.pkg, Some(name)))
+                            .or_insert_with(|| (ndep, BTreeSet::new()))
+                            .1;
 
                         if let Some(feature) = feature {
                             feats.insert(feature);
@@ -1331,7 +1334,12 @@ impl Builder {
                 }
             } else {
                 krate_features.filled_non_optional = true;
-                deps.extend(rnode.deps.iter().map(|ndep| (&ndep.pkg, (ndep, None))));
+                deps.extend(
+                    rnode
+                        .deps
+                        .iter()
+                        .map(|ndep| ((&ndep.pkg, None), (ndep, BTreeSet::new()))),
+                );
             }
 
             let targets = &targets;
@@ -1340,7 +1348,7 @@ impl Builder {
             // for the crate to list the same dependency multiple times, with different
             // dependency kinds, or different target configurations, so each one gets its
             // own edge
-            for (pkg, (rdep, mut features)) in deps {
+            for ((pkg, name), (rdep, features)) in deps {
                 let rdep_node = get_rnode(pkg);
 
                 #[derive(Debug)]
@@ -1352,9 +1360,24 @@ impl Builder {
                     uses_default_features: bool,
                 }
 
-                let strong = features.is_some();
+                let edges = rdep.dep_kinds.iter().flat_map(|dk| {
+                        let mut decls = krate
+                            .dependencies
+                            .iter()
+                            .enumerate()
+                            .filter(|(_, dep)| {
+                                dk.kind == dep.kind
+                                    && is_declaration_of(krate, &rnode.deps, dep, rdep)
+                                    && crate::targets_eq(&dk.cfg, &dep.target)
+                            })
+                            .peekable();
+
+                        if decls.peek().is_none() {
+                            unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
+                        }
 
-                let edges = rdep.dep_kinds.iter().filter_map(|dk| {
+                        decls.map(move |(dep_index, dep)| (dk, dep_index, dep))
+                    }).filter_map(|(dk, dep_index, dep)| {
                         let mask = match dk.kind {
                             DepKind::Normal => 0x1,
                             DepKind::Dev => 0x8,
@@ -1366,19 +1389,7 @@ impl Builder {
                             return None;
                         }
 
-                        let Some((dep_index, dep)) = krate
-                            .dependencies
-                            .iter()
-                            .enumerate()
-                            .find(|(_, dep)| {
-                                dk.kind == dep.kind
-                                    && is_declaration_of(krate, &rnode.deps, dep, rdep)
-                                    && crate::targets_eq(&dk.cfg, &dep.target)
-                            }) else {
-                                unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
-                            };
-
-                        if dep.optional && !strong {
+                        if name.map_or(dep.optional, |name| manifest_name(dep) != name) {
                             return None;
                         }
 
@@ -1452,43 +1463,35 @@ impl Builder {
                     features: BTreeSet::new(),
                 });
 
-                let mut visit_dep = Some(pkg);
+                visit_stack.push(pkg);
+
+                for feat in features {
+                    visit_stack.push_with_feature(pkg, feat);
+                    dep.features.insert(feat);
+                }
 
                 for edge in edges {
-                    if let Some(features) = features.take() {
-                        if let Some(vd) = visit_dep.take() {
-                            visit_stack.push(vd);
-                            if let Some(kf) = krate_features.pending_weak.remove(vd) {
-                                for feat in kf {
-                                    visit_stack.push_with_feature(vd, feat);
-                                    dep.features.insert(feat);
-                                }
-                            }
-                        }
+                    if dep.edges.iter().any(|d| d.dep_index == edge.dep_index) {
+                        continue;
+                    }
 
-                        for feat in features {
+                    let decl = &krate.dependencies[edge.dep_index];
+                    let pending_key = (pkg, manifest_name(decl).to_owned());
+                    if let Some(pending) = krate_features.pending_weak.remove(&pending_key) {
+                        for feat in pending {
                             visit_stack.push_with_feature(pkg, feat);
                             dep.features.insert(feat);
                         }
                     }
 
-                    if dep
-                        .edges
-                        .iter()
-                        .any(|d| d.kind == edge.kind && d.cfg.as_deref() == edge.cfg)
-                    {
-                        continue;
-                    }
-
-                    if let Some(vd) = visit_dep.take() {
-                        visit_stack.push(vd);
-                        if let Some(kf) = krate_features.pending_weak.remove(vd) {
-                            for feat in kf {
-                                visit_stack.push_with_feature(vd, feat);
-                                dep.features.insert(feat);
-                            }
-                        }
-                    }
+                    // Another declaration might already have the same edge
+                    let is_known = |feat: Option<usize>| {
+                        dep.edges.iter().any(|d| {
+                            d.kind == edge.kind
+                                && d.cfg.as_deref() == edge.cfg
+                                && feat.map_or(d.is_direct, |feat| d.features.contains(&feat))
+                        })
+                    };
 
                     let mut features = Vec::new();
                     for feat in edge
@@ -1499,12 +1502,18 @@ impl Builder {
                     {
                         let feat_index = rdep_node.feature_index(feat);
                         visit_stack.push_with_feature(pkg, feat_index);
-                        features.push(feat_index);
+
+                        if !is_known(Some(feat_index)) {
+                            features.push(feat_index);
+                        }
                     }
 
+                    let is_direct = edge.features.is_empty() && !edge.uses_default_features;
+
                     let edge = DependencyEdge {
                         kind: edge.kind,
                         dep_index: edge.dep_index,
+                        is_direct: is_direct && !is_known(None),
                         cfg: edge.cfg.map(|s| s.into()),
                         features,
                     };
@@ -1671,7 +1680,7 @@ impl Builder {
                 // Add the features that were explicitly enabled by the specific
                 // normal/dev/build dependency
                 for edge in dep.edges {
-                    let attach_direct_edge = edge.features.is_empty();
+                    let attach_direct_edge = edge.is_direct;
 
                     for feat in edge.features {
                         let feat = rnode.feature(feat);
-- 
2.43.0

