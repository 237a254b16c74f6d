From 6378cf9b3b390fee6dd918eb2c076c365a636381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 01/10] fix: decode percent-encoded git references in
 'name@version' package ids

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..51e5321 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,7 +106,9 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
+                let at = repr[vmn..].find('@');
+                let is_git = repr.starts_with("git+");
+                let (name, version) = if let (Some(split), false) = (at, is_git) {
                     ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
                 } else {
                     let begin = repr.rfind('/')? + 1;
@@ -211,7 +213,11 @@ impl From<PackageId> for Kid {
                         vmn
                     };
 
-                    ((begin, end), (vmn + 1, repr.len()))
+                    if let Some(split) = at {
+                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                    } else {
+                        ((begin, end), (vmn + 1, repr.len()))
+                    }
                 };
 
                 [name, version, (0, vmn)]
-- 
2.43.0


From ce31a5395347b549b70ed1104ad030dd0c96f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 02/10] fix: weak features no longer add optional edges to a
 dependency already present via another kind

---
 src/builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..00c6dab 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1219,8 +1219,16 @@ impl Builder {
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                    if is_weak {
                         let feature = rdep_node.feature_index(feature.unwrap());
+
+                        // A weak feature never adds the dependency, only a feature to it if something else did
+                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                            visit_stack.push_with_feature(&ndep.pkg, feature);
+                            dep.features.insert(feature);
+                            continue;
+                        }
+
                         krate_features
                             .pending_weak
                             .entry(&ndep.pkg)
-- 
2.43.0


From 9fe119d19fcca439094953aba029ff712da14d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 03/10] fix: use the rename to choose between a renamed and a
 non-renamed dependency on the same package

---
 src/builder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 00c6dab..c46d01b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1334,6 +1334,15 @@ impl Builder {
                             crate::targets_eq(&dk.cfg, &dep.target)
                         }).count() > 1;
 
+                        // The name in the resolve graph is the rename, if the dependency has one
+                        let is_rename = |dep: &cm::Dependency| -> bool {
+                            dk.kind == dep.kind
+                                && maybe_real_name == dep.name
+                                && dep.rename.as_deref().is_some_and(|rename| pkg_name_equals(&rdep.name, rename))
+                                && crate::targets_eq(&dk.cfg, &dep.target)
+                        };
+                        let renamed = multiple_candidates && krate.dependencies.iter().any(is_rename);
+
                         let Some((dep_index, dep)) = krate
                             .dependencies
                             .iter()
@@ -1367,6 +1376,10 @@ impl Builder {
                                     return true;
                                 }
 
+                                if renamed {
+                                    return is_rename(dep);
+                                }
+
                                 // Finally, even if the name matches and the version matches, the source for the package might
                                 // be different if there are multiple git dependencies at different revisions :(, or if
                                 // There is also an _extreme_ edge case where a package's lib target can be the same
-- 
2.43.0


From f3ef53b844a49c438715ce6961c773e3f5a3eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 04/10] fix: hash Kid consistently with its equality

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 51e5321..beffb81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -258,7 +258,10 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Only the components are compared by `Eq`, the rest of the repr can differ
+        for (s, e) in self.components {
+            self.repr[s..e].hash(state);
+        }
     }
 }
 
-- 
2.43.0


From 42b4c871132fe10f640477e13800d393fc1cc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 05/10] fix: report an empty resolve graph as having no root
 crates instead of panicking

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index c46d01b..db95f5a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -830,7 +830,10 @@ impl Builder {
 
         // We need to establish if the package ids are in the opaque or stable format as
         // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|node| node.id.repr.splitn(3, ' ').count() == 3);
 
         let mut nodes: Vec<_> = resolved
             .nodes
-- 
2.43.0


From 24a16cfce91b43cfed1d862e56412435639c4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 06/10] fix: accept metadata without a resolve graph

---
 src/cm/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..49456d3 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,8 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            // null if `--no-deps` was used
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 5349ff7c89f20b635cec6014296ffb3b995bc67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 07/10] fix: serialize the required features of a target under
 the key cargo uses

---
 src/cm/ser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..0cc37bc 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -145,20 +145,9 @@ map!(Dependency, map, self, {
 });
 
 map!(Target, map, self, {
-    entries!(
-        map,
-        self,
-        name,
-        kind,
-        crate_types,
-        required_features,
-        src_path,
-        edition,
-        doctest,
-        doctest,
-        test,
-        doc
-    );
+    entries!(map, self, name, kind, crate_types);
+    entry!(map, self, required_features, "required-features");
+    entries!(map, self, src_path, edition, doctest, test, doc);
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From 8fe29314845f6e035ca71f995040ff7ff19dbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 08/10] fix: recognize the workspace root in
 include_workspace_crates when it is reached through a symlink

---
 src/builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index db95f5a..05a8f47 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -734,8 +734,12 @@ impl Builder {
             } else {
                 // If the filters only contain 1 path, and it is the path to a
                 // workspace toml, then we disregard the filters
+                let ws_root = md.workspace_root.as_std_path();
+                let canonical_root = ws_root.canonicalize();
+                let ws_root = canonical_root.as_deref().unwrap_or(ws_root);
+
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && Some(ws_root) == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From 79855f47cb5293eef16b75fff5be0a7247c18f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 09/10] fix: apply a dependency feature to every version its
 name resolves to

---
 src/builder.rs | 73 +++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 05a8f47..3be64f6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -655,8 +655,8 @@ impl Builder {
                 &self,
                 feature_krate_name: &str,
                 rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
+            ) -> impl Iterator<Item = &'n NodeDep> {
+                rnode.deps.iter().filter(move |rdep| {
                     if pkg_name_equals(&rdep.name, feature_krate_name) {
                         return true;
                     }
@@ -1219,49 +1219,50 @@ impl Builder {
                     // can also rename their `lib` target, which will mean that the resolved nodes use that name,
                     // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
                     // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
-
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
-
-                    if is_weak {
-                        let feature = rdep_node.feature_index(feature.unwrap());
+                    //
+                    // The same name can also stand for different versions of a package, eg for different targets, in
+                    // which case cargo applies the feature to each of them
+                    for ndep in renames.resolve_feature(krate_name, rnode) {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+
+                        if is_weak {
+                            let feature = rdep_node.feature_index(feature.unwrap());
+
+                            // A weak feature never adds the dependency, only a feature to it if something else did
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                                continue;
+                            }
 
-                        // A weak feature never adds the dependency, only a feature to it if something else did
-                        if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
-                            visit_stack.push_with_feature(&ndep.pkg, feature);
-                            dep.features.insert(feature);
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
                             continue;
                         }
 
-                        krate_features
-                            .pending_weak
-                            .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
-                        continue;
-                    }
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
 
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
+                        let feats = deps
+                            .entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
-
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
+                            .unwrap();
 
-                    if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        if let Some(feature) = feature {
+                            feats.insert(rdep_node.feature_index(feature));
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 2b5012ff5db3991bfb9c2bd2145ec064a8057df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 10/10] fix: a selected triple that is not a builtin target
 matches dependencies restricted to it

With the targets feature such a triple is parsed, and its display form, which may
be longer than what was given (mips -> mips-unknown-unknown-elf), was compared
with the text of the dependency's target.
---
 src/builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 3be64f6..923c4d4 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -264,8 +264,14 @@ impl TargetFilter {
             Target::Builtin(bi) => bi.triple.as_str() == triple,
             #[cfg(feature = "targets")]
             Target::Triple(trip) => {
+                // The same triple can be written in several ways, eg `mips` is
+                // displayed as `mips-unknown-unknown-elf`, so a string comparison
+                // is not enough
                 let as_triple = format!("{}", trip);
                 as_triple == triple
+                    || triple
+                        .parse::<cfg_expr::target_lexicon::Triple>()
+                        .is_ok_and(|other| other == *trip)
             }
             Target::Unknown(unknown) => unknown == triple,
         }
-- 
2.43.0

