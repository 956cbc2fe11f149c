From b99b625dc2a05ae1b50c95d47faa8a478974bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 01/16] fix: return an overflow error for duration values
 larger than a u64

duration::parse() panicked ("value is ASCII digits only") when a run of
digits did not fit in a u64, e.g. "99999999999999999999s".
---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..931920d 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,8 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` is ASCII digits only, so parsing only fails if it does not fit in a `u64`.
+        let value: u64 = value.parse().map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 8c138d0481ab890c9f68f52b4331084044eabbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 02/16] fix: keep the tag or digest position when building an
 image from parts

---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From eaab77c898c2346a0651a077559ae9300045a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 03/16] fix: do not panic when removing a registry which is the
 entire image name

---
 src/service/image.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..7ab31e5 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,8 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// Removing the registry does nothing if the registry is the entire image name.
+    ///
     /// # Examples
     ///
     /// ```
@@ -227,6 +229,10 @@ impl Image {
             }
             // Remove registry
             (None, Some(mut end)) => {
+                // Nothing would be left of a name which is only a registry, so it is kept.
+                if end == self.name_end() {
+                    return;
+                }
                 // Add one to end for '/' separator.
                 end += 1;
                 self.inner.replace_range(..end, "");
-- 
2.43.0


From 96429b5d524969dc90f597cbdadbd1f9bc229777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 04/16] fix: keep an image's registry consistent with its text
 when setting the registry

---
 src/service/image.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 7ab31e5..1916b98 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -214,17 +214,16 @@ impl Image {
         match (registry, self.registry_end) {
             // Replace registry
             (Some(registry), Some(end)) => {
+                self.registry_end = registry.registry_end();
                 let registry = registry.into_inner();
                 self.inner.replace_range(..end, registry);
-                let new_len = registry.len();
-                self.registry_end = Some(new_len);
-                self.update_tag_or_digest_start(end, new_len);
+                self.update_tag_or_digest_start(end, registry.len());
             }
             // Add registry
             (Some(registry), None) => {
+                self.registry_end = registry.registry_end();
                 let registry = registry.into_inner();
                 self.inner = format!("{registry}/{}", &self.inner);
-                self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
             // Remove registry
@@ -236,8 +235,11 @@ impl Image {
                 // Add one to end for '/' separator.
                 end += 1;
                 self.inner.replace_range(..end, "");
-                self.registry_end = None;
                 self.update_tag_or_digest_start(end, 0);
+                // The first part of the remaining name may also be a registry.
+                self.registry_end = Name::new(self.name())
+                    .ok()
+                    .and_then(|name| name.registry_end());
             }
             // Status quo
             (None, None) => {}
-- 
2.43.0


From 55fd6745454f926313f91571830e9598028d95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 05/16] fix: reject port ranges whose start is greater than the
 end when parsing

---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..eda6e8c 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        Ok(Self::new(
+            parse_range_int(start)?,
+            end.map(parse_range_int).transpose()?,
+        )?)
     }
 }
 
-- 
2.43.0


From 8b473ff8afeb9ad5d1380ad516c0bb84e71ead44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 06/16] fix: do not overflow when computing the size of the
 full port range

---
 src/service/ports.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index eda6e8c..f59f425 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -497,9 +497,9 @@ fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRange
 )]
 pub struct ShortRangesError {
     /// Size of the host port [`Range`].
-    host_size: u16,
+    host_size: usize,
     /// Size of the container port [`Range`].
-    container_size: u16,
+    container_size: usize,
 }
 
 impl From<u16> for ShortRanges {
@@ -677,8 +677,9 @@ impl Range {
     /// # }
     /// ```
     #[must_use]
-    pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+    pub fn size(&self) -> usize {
+        self.end
+            .map_or(1, |end| usize::from(end - self.start) + 1)
     }
 }
 
-- 
2.43.0


From 43e879cb65833d3144b4edafc8c6093ec79068f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 07/16] fix: keep VolumesFrom of a container named ro or rw
 readable

`container:ro:rw` was printed as `container:ro`, which parses as a read-only service.
---
 src/service.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..7b7eb30 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,9 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which marks the source volumes as writable, the default.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1467,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1485,8 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if source.ends_like_suffix() {
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,7 +1504,7 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
+        if value.read_only || value.source.ends_like_suffix() {
             value.to_string()
         } else {
             value.source.into()
@@ -1541,6 +1546,15 @@ impl VolumesFromSource {
             .map(|container| container.parse().map(Self::Container))
             .unwrap_or_else(|| source.try_into().map(Self::Service).map_err(Into::into))
     }
+
+    /// Returns `true` if the source's string ends like a [`VolumesFrom`] access mode suffix, i.e. it
+    /// is a container named `ro` or `rw`.
+    fn ends_like_suffix(&self) -> bool {
+        match self {
+            Self::Service(_) => false,
+            Self::Container(container) => matches!(container.as_str(), "ro" | "rw"),
+        }
+    }
 }
 
 impl_from_str!(VolumesFromSource => InvalidIdentifierError);
-- 
2.43.0


From 19695e268b489f4067fd8cbd013bd68aeb32cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 08/16] fix: parse build caches which only have a type

`type=local` was taken for an image, although it is how such a cache is printed.
---
 src/service/build/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..00eb0b5 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,8 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        // Images cannot contain `,` or `=`.
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From 533a2ed34959ce3ed75a9d1f2e69effc0d897db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 09/16] fix: do not drop read_only from anonymous volume mounts
 in short form

---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..449ef48 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // The short syntax cannot make an anonymous volume read-only.
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From 1ae3d130149b3a7d8d928a614090f8b7f5668c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 10/16] fix: do not turn bind mounts without options into short
 form, which creates the host path

---
 src/service/volumes/mount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index 449ef48..affb489 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -418,8 +418,8 @@ impl Bind {
                         consistency: None,
                         extensions,
                     },
-            } if bind.as_ref().map_or(
-                true,
+            } if bind.as_ref().is_some_and(
+                // The short syntax implies `create_host_path`.
                 |BindOptions {
                      propagation,
                      create_host_path,
-- 
2.43.0


From 69631857e67c4a11bd388fe640483830337b8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 11/16] fix: accept whole numbers as cpus when deserializing

---
 src/service/deploy/resources.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..6bd76bc 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -322,6 +322,16 @@ impl<'de> Visitor<'de> for CpusVisitor {
         visit_i32: i32,
     }
 
+    #[allow(clippy::cast_precision_loss)]
+    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
+        self.visit_f64(v as f64)
+    }
+
+    #[allow(clippy::cast_precision_loss)]
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_f64(v as f64)
+    }
+
     fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
         v.try_into().map_err(E::custom)
     }
-- 
2.43.0


From 1c37be76c3f82a8797ebdeb510a11eb2e0ed1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 12/16] fix: do not require a volume used by only one service
 to be defined

---
 src/lib.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..4494791 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@ pub mod service;
 mod volume;
 
 use std::{
-    collections::{hash_map::Entry, HashMap},
+    collections::HashMap,
     error::Error,
     fmt::{self, Display, Formatter},
     path::PathBuf,
@@ -299,26 +299,16 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
-
-        let mut seen_volumes = HashMap::new();
-        for volume in volumes {
-            match seen_volumes.entry(volume) {
-                Entry::Occupied(mut entry) => {
-                    if !entry.get() && !self.volumes.contains_key(volume) {
-                        return Err(ValidationError {
-                            service: None,
-                            resource: volume.clone(),
-                            kind: ResourceKind::Volume,
-                        });
-                    }
-                    *entry.get_mut() = true;
-                }
-                Entry::Vacant(entry) => {
-                    entry.insert(false);
+        let mut users = HashMap::new();
+        for (name, service) in &self.services {
+            for volume in service::volumes::named_volumes_iter(&service.volumes) {
+                let user = *users.entry(volume).or_insert(name);
+                if user != name && !self.volumes.contains_key(volume) {
+                    return Err(ValidationError {
+                        service: None,
+                        resource: volume.clone(),
+                        kind: ResourceKind::Volume,
+                    });
                 }
             }
         }
-- 
2.43.0


From db30c47ea4e092b732119d4b8e30b0f1510631b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 13/16] fix: validate the secrets used by a service's build

---
 src/service.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 7b7eb30..6acde7d 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -733,6 +733,16 @@ impl Service {
             }
         }
 
+        if let Some(ShortOrLong::Long(build)) = &self.build {
+            for ShortOrLong::Short(source) | ShortOrLong::Long(ConfigOrSecret { source, .. }) in
+                &build.secrets
+            {
+                if !secrets.contains_key(source) {
+                    return Err(source.clone());
+                }
+            }
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 1f100d2a3f5a79896b0be4367880878b4280d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 14/16] fix: reject a healthcheck with `disable: false` and
 `test: [NONE]` in either order

---
 src/service/healthcheck.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..f034ee8 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -248,9 +248,9 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
+                if self.disable.is_some() {
                     Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
+                        "cannot set `disable` and set `test` to `NONE` \
                             or set `test` to `NONE` multiple times",
                     ))
                 } else {
-- 
2.43.0


From 0bb68f63872bd29e80bd76ab1d306e3102e4f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 15/16] fix: reject repeated keys in a top-level resource and
 keep the order of its extensions

---
 src/common.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..937fc3c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -22,6 +21,7 @@ use serde::{
     ser::SerializeMap,
     Deserialize, Deserializer, Serialize, Serializer,
 };
+use serde_yaml::Mapping;
 pub use serde_yaml::Value as YamlValue;
 use thiserror::Error;
 
@@ -965,10 +965,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = Mapping::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +976,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
@@ -989,7 +989,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
                 ))
             }
         } else {
-            T::deserialize(map.into_deserializer())
+            T::deserialize(YamlValue::Mapping(map).into_deserializer())
                 .map(Self::Compose)
                 .map_err(de::Error::custom)
         }
-- 
2.43.0


From dcbff9de87748a9ee34b4fe70e90efd5fc0910f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 16/16] fix: keep the text of list values when converting a
 list into a map

---
 src/common.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 937fc3c..b3f0b13 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -228,6 +228,9 @@ impl ListOrMap {
     /// delimiter, then the whole item is used as the key and the value is [`None`].
     /// If the value is an empty string, then it will also be converted to [`None`].
     ///
+    /// Values are only converted into a number if it displays as the same string, e.g. "1.10" stays
+    /// a string.
+    ///
     /// # Errors
     ///
     /// Returns an error if a key is not a valid [`MapKey`].
@@ -241,7 +244,9 @@ impl ListOrMap {
                         .map_or((item.as_str(), None), |(key, value)| (key, Some(value)));
                     Ok((
                         key.parse()?,
-                        value.filter(|value| !value.is_empty()).map(Value::parse),
+                        value
+                            .filter(|value| !value.is_empty())
+                            .map(Value::parse_exact),
                     ))
                 })
                 .collect(),
@@ -314,6 +319,19 @@ impl Value {
             .unwrap_or_else(|_| Self::String(string.into()))
     }
 
+    /// Parse the given string into a [`Value`] which displays as the same string.
+    ///
+    /// A number which is not in its canonical form, e.g. "007" or "1.10", is kept as a
+    /// [`Value::String`].
+    fn parse_exact(string: &str) -> Self {
+        let value = Self::parse(string);
+        if value.to_string() == string {
+            value
+        } else {
+            string.into()
+        }
+    }
+
     /// Returns `true` if the value is a [`String`].
     #[must_use]
     pub const fn is_string(&self) -> bool {
-- 
2.43.0

