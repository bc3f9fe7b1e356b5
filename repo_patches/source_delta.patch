From 05f046e43174e5082ad0bd55a486384b0ca69535 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 01/88] fix: keep the unit of millisecond time-of-day filter
 values

---
 src/common/src/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/src/scalar.rs b/src/common/src/scalar.rs
index 7b1986c..581602a 100644
--- a/src/common/src/scalar.rs
+++ b/src/common/src/scalar.rs
@@ -74,7 +74,7 @@ impl From<ScalarValueRef> for ScalarValue {
             ScalarValueRef::IntervalYearMonth(v) => ScalarValue::IntervalYearMonth(v),
             ScalarValueRef::FixedSizeBinary(a, b) => ScalarValue::FixedSizeBinary(a, b),
             ScalarValueRef::Time32Second(v) => ScalarValue::Time32Second(v),
-            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Second(v),
+            ScalarValueRef::Time32Millisecond(v) => ScalarValue::Time32Millisecond(v),
             ScalarValueRef::Time64Microsecond(v) => ScalarValue::Time64Microsecond(v),
             ScalarValueRef::Time64Nanosecond(v) => ScalarValue::Time64Nanosecond(v),
             _ => unimplemented!(),
@@ -111,7 +111,7 @@ impl From<&ScalarValue> for ScalarValueRef {
             ScalarValue::IntervalYearMonth(v) => ScalarValueRef::IntervalYearMonth(v),
             ScalarValue::FixedSizeBinary(a, b) => ScalarValueRef::FixedSizeBinary(a, b),
             ScalarValue::Time32Second(v) => ScalarValueRef::Time32Second(v),
-            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Second(v),
+            ScalarValue::Time32Millisecond(v) => ScalarValueRef::Time32Millisecond(v),
             ScalarValue::Time64Microsecond(v) => ScalarValueRef::Time64Microsecond(v),
             ScalarValue::Time64Nanosecond(v) => ScalarValueRef::Time64Nanosecond(v),
             _ => unimplemented!(),
-- 
2.43.0


From 4aaf37bab13d8105b2e871c62b18d20682a59774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 02/88] fix: apply the role of an account update

---
 src/metadata/src/accounts.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 03b2835..707c462 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -145,6 +145,9 @@ impl Accounts {
         if let OptionalProperty::Some(force_update_password) = req.force_update_password {
             account.force_update_password = force_update_password;
         }
+        if let OptionalProperty::Some(role) = req.role {
+            account.role = role;
+        }
         if let OptionalProperty::Some(organizations) = req.organizations {
             account.organizations = organizations;
         }
-- 
2.43.0


From 3b186770d7dcd7b3b17588b66ad9f67e65a240b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 03/88] fix: save the start hour of the backup schedule

---
 src/metadata/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index b97d03b..2ebc261 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -183,7 +183,7 @@ fn serialize(v: &Settings) -> Result<Vec<u8>> {
             BackupScheduleInterval::Monthly => pbconfig::BackupScheduleInterval::Monthly as i32,
             BackupScheduleInterval::Yearly => pbconfig::BackupScheduleInterval::Yearly as i32,
         },
-        backup_schedule_start_hour: 0,
+        backup_schedule_start_hour: v.backup_schedule_start_hour as u32,
     };
 
     Ok(backup.encode_to_vec())
-- 
2.43.0


From 553b4e42f6ed37b88d9d097b49f31369ff8845c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 04/88] fix: apply the type of a report update

---
 src/metadata/src/reports.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index c86d381..d2fed42 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -137,6 +137,9 @@ impl Reports {
         if let OptionalProperty::Some(tags) = req.tags {
             report.tags = tags;
         }
+        if let OptionalProperty::Some(typ) = req.typ {
+            report.typ = typ;
+        }
         if let OptionalProperty::Some(query) = req.query {
             report.query = query;
         }
-- 
2.43.0


From aa77951f128dfcbe52049a75e15935d949eaa2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 05/88] fix: create a custom event and its name in one
 transaction

---
 src/metadata/src/custom_events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 0aaac3d..8a897d5 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -160,7 +160,7 @@ impl CustomEvents {
             events: req.events,
         };
         let data = serialize(&event)?;
-        self.db.put(
+        tx.put(
             make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event.id),
             data,
         )?;
-- 
2.43.0


From c7c5a76e61109c1d7faeded238198c9582955069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 06/88] fix: lock what a unique name or the next id depends on

---
 src/metadata/src/dictionaries.rs | 7 ++-----
 src/metadata/src/groups.rs       | 8 ++++----
 src/metadata/src/index.rs        | 9 +++++----
 src/metadata/src/properties.rs   | 2 +-
 4 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index f78749e..18df486 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -66,11 +66,8 @@ impl Dictionaries {
         dict: &str,
         value: &str,
     ) -> Result<u64> {
-        let res = match tx.get(make_value_key(
-            project_id,
-            tbl_dict(table, dict).as_str(),
-            value,
-        ))? {
+        let value_key = make_value_key(project_id, tbl_dict(table, dict).as_str(), value);
+        let res = match tx.get_for_update(value_key, true)? {
             None => {
                 let key = make_id_seq_key(
                     project_ns(
diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index e4da52a..3dea2fb 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -36,7 +36,7 @@ impl Groups {
         anon_key: &str,
     ) -> Result<u64> {
         let key = format!("projects/{project_id}/groups/{group_id}/anonymous/keys/{anon_key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -109,7 +109,7 @@ impl Groups {
         values: Vec<PropertyValue>,
     ) -> Result<GroupValues> {
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        match tx.get(key.as_bytes())? {
+        match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -148,7 +148,7 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/{group_id}/real/keys/{key}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let group_key = format!("groups/{group_id}");
                 let id = next_seq(
@@ -216,7 +216,7 @@ impl Groups {
     ) -> Result<Group> {
         let tx = self.db.transaction();
         let key = format!("projects/{project_id}/groups/names/{name}");
-        let group = match tx.get(key.as_bytes())? {
+        let group = match tx.get_for_update(key.as_bytes(), true)? {
             None => {
                 let id = next_zero_seq(
                     &tx,
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index 53b7b1c..e3fe1b5 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -9,7 +9,8 @@ pub fn check_insert_constraints(
     keys: &[Option<Vec<u8>>],
 ) -> Result<()> {
     for key in keys.iter().flatten() {
-        if tx.get(key)?.is_some() {
+        // locked, so that nobody else takes it before this transaction ends
+        if tx.get_for_update(key, true)?.is_some() {
             return Err(MetadataError::AlreadyExists(String::from_utf8(
                 key.to_owned(),
             )?));
@@ -36,7 +37,7 @@ pub fn check_update_constraints(
 ) -> Result<()> {
     for (key, prev_key) in keys.iter().zip(prev_keys) {
         if let Some(key_v) = key {
-            if key != prev_key && (tx.get(key_v)?).is_some() {
+            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key_v.to_owned(),
                 )?));
@@ -90,7 +91,7 @@ where
 }
 
 pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 1,
@@ -101,7 +102,7 @@ pub fn next_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Resu
 }
 
 pub fn next_zero_seq<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<u64> {
-    let id = tx.get(key.as_ref())?;
+    let id = tx.get_for_update(key.as_ref(), true)?;
     let result: u64 = match id {
         Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
         None => 0,
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index e8e1917..8381f66 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -225,7 +225,7 @@ impl Properties {
         let mut idx_keys = index_keys(project_id, &self.typ, &req.name, req.display_name.clone());
 
         for key in idx_keys.iter().flatten() {
-            if tx.get(key)?.is_some() {
+            if tx.get_for_update(key, true)?.is_some() {
                 return Err(MetadataError::AlreadyExists(String::from_utf8(
                     key.to_owned(),
                 )?));
-- 
2.43.0


From 2be17ee8edc46814a8a1040b38c41eecd1e113fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:46 +0000
Subject: [PATCH 07/88] fix: keep the id sequence of a group intact when
 merging an anonymous user

---
 src/metadata/src/groups.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/metadata/src/groups.rs b/src/metadata/src/groups.rs
index 3dea2fb..0a69e7a 100644
--- a/src/metadata/src/groups.rs
+++ b/src/metadata/src/groups.rs
@@ -77,14 +77,10 @@ impl Groups {
     ) -> Result<GroupValues> {
         let tx = self.db.transaction();
         let user_key = format!("projects/{project_id}/groups/{group_id}/real/keys/{id}");
-        let res = match tx.get(user_key.as_bytes())? {
+        let res = match tx.get_for_update(user_key.as_bytes(), true)? {
             None => {
                 let anonymous_id =
-                    self.get_or_create_anonymous_id(project_id, group_id, anonymous)?;
-                let group_key = format!("groups/{group_id}");
-                let seq_key =
-                    make_id_seq_key(project_ns(project_id, group_key.as_bytes()).as_slice());
-                tx.put(seq_key, anonymous_id.to_string().as_bytes())?;
+                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                 let group = GroupValues {
                     id: anonymous_id,
                     values,
-- 
2.43.0


From d1694a051fbc73d9aff6377e3917516c3bdfc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 08/88] fix: tell the user id from the anonymous id when a
 track has both

---
 src/ingester/src/executor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index aa7dea7..e4d1029 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -167,7 +167,7 @@ impl Executor<Track> {
 
                 (id, None)
             }
-            (Some(aid), Some(uid)) => {
+            (Some(uid), Some(aid)) => {
                 let group = self.md.groups.merge_with_anonymous(
                     ctx.project_id.unwrap(),
                     GROUP_USER_ID as u64,
@@ -175,6 +175,13 @@ impl Executor<Track> {
                     uid.as_str(),
                     vec![],
                 )?;
+                self.md.dictionaries.create_key(
+                    ctx.project_id.unwrap(),
+                    TABLE_EVENTS,
+                    group_col(GROUP_USER_ID).as_str(),
+                    group.id,
+                    uid.as_str(),
+                )?;
                 (group.id, None)
             }
             _ => {
-- 
2.43.0


From 490b3da87380f5934021dafa7218ef4f11d94b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 09/88] fix: store the time of a session begin event in
 milliseconds

---
 src/ingester/src/destinations/local/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index fbf3398..9641450 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -238,7 +238,7 @@ impl Destination<Track> for Local {
                 vec![
                     NamedValue::new(
                         COLUMN_CREATED_AT.to_string(),
-                        Value::Timestamp(Some(req.timestamp.timestamp())),
+                        Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                     ),
                     NamedValue::new(
                         COLUMN_EVENT_ID.to_string(),
-- 
2.43.0


From 05261149050a32c19fb93c366f19932c07826da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 10/88] fix: store date properties as timestamps

---
 src/ingester/src/executor.rs | 2 +-
 src/ingester/src/lib.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index e4d1029..ea50168 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -44,7 +44,7 @@ fn resolve_property(
     val: PropValue,
 ) -> Result<PropertyAndValue> {
     let data_type = match val {
-        PropValue::Date(_) => DType::Int64,
+        PropValue::Date(_) => DType::Timestamp,
         PropValue::String(_) => DType::String,
         PropValue::Number(_) => DType::Decimal,
         PropValue::Bool(_) => DType::Boolean,
diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0f0717a..879a7e2 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -125,7 +125,7 @@ fn property_to_value(
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
             (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
-            (DType::Timestamp, PropValue::Date(v)) => Value::Int64(Some(v.timestamp())),
+            (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
                 return Err(IngesterError::Internal(
                     "property should be a string".to_string(),
-- 
2.43.0


From 4a6176a65249e1cd04bfc26a61485e5d7b8d86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 11/88] fix: store decimal properties with the scale of their
 column

---
 src/ingester/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 879a7e2..71fd653 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::types::DType;
+use common::DECIMAL_SCALE;
 use error::Result;
 use metadata::dictionaries::Dictionaries;
 use metadata::events;
@@ -91,6 +92,10 @@ pub enum PropValue {
     Bool(bool),
 }
 
+fn out_of_range(v: &Decimal) -> IngesterError {
+    IngesterError::BadRequest(format!("number {v} is out of range"))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -123,7 +128,14 @@ fn property_to_value(
             (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
             (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
             (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
-            (DType::Decimal, PropValue::Number(v)) => Value::Decimal(Some(v.mantissa())),
+            (DType::Decimal, PropValue::Number(v)) => {
+                let mut v = *v;
+                v.rescale(DECIMAL_SCALE as u32);
+                if v.scale() != DECIMAL_SCALE as u32 {
+                    return Err(out_of_range(&v));
+                }
+                Value::Decimal(Some(v.mantissa()))
+            }
             (DType::Boolean, PropValue::Bool(v)) => Value::Boolean(Some(*v)),
             (DType::Timestamp, PropValue::Date(v)) => Value::Timestamp(Some(v.timestamp_millis())),
             _ => {
-- 
2.43.0


From ca36fcb4ff8f5ab311a7396e6999855c78948cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 12/88] fix: refuse numbers that do not fit their property
 instead of panicking

---
 src/ingester/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 71fd653..0c087df 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -124,10 +124,10 @@ fn property_to_value(
     } else {
         match (&prop.property.data_type, &prop.value) {
             (DType::String, PropValue::String(v)) => Value::String(Some(v.to_owned())),
-            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().unwrap())), /* todo change to mantissa */
-            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().unwrap())),
-            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().unwrap())),
-            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().unwrap())),
+            (DType::Int8, PropValue::Number(v)) => Value::Int8(Some(v.to_i8().ok_or_else(|| out_of_range(v))?)), /* todo change to mantissa */
+            (DType::Int16, PropValue::Number(v)) => Value::Int16(Some(v.to_i16().ok_or_else(|| out_of_range(v))?)),
+            (DType::Int32, PropValue::Number(v)) => Value::Int32(Some(v.to_i32().ok_or_else(|| out_of_range(v))?)),
+            (DType::Int64, PropValue::Number(v)) => Value::Int64(Some(v.to_i64().ok_or_else(|| out_of_range(v))?)),
             (DType::Decimal, PropValue::Number(v)) => {
                 let mut v = *v;
                 v.rescale(DECIMAL_SCALE as u32);
-- 
2.43.0


From 135a968acca9baa35a212df9605912a38e552c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 13/88] fix: list every team of an organization

---
 src/metadata/src/teams.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index 98d8d4a..f3ab54a 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -121,7 +121,6 @@ impl Teams {
                 continue;
             }
             list.push(deserialize(&value)?);
-            break;
         }
 
         Ok(ListResponse {
-- 
2.43.0


From 6bf4deab7f868689c9f76a40afa585c951422567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 14/88] fix: do not take the name of a project for its token

---
 src/metadata/src/projects.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 99fc5ed..04b7429 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -105,7 +105,14 @@ impl Projects {
             index_token_key(token).unwrap(),
             "project can't be found by token",
         )?;
-        self.get_by_id_(&tx, id)
+        let project = self.get_by_id_(&tx, id)?;
+        // names are in the same index
+        if project.token != token {
+            return Err(MetadataError::NotFound(
+                "project can't be found by token".to_string(),
+            ));
+        }
+        Ok(project)
     }
 
     pub fn list(&self) -> Result<ListResponse<Project>> {
-- 
2.43.0


From 03dda714d8d0c19338b41575f4c9744e241f98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 15/88] fix: store the properties attached to an event

---
 src/metadata/src/events.rs      | 9 ++++++---
 src/metadata/src/pb/event.proto | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index c858bd8..2da63ca 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -489,6 +489,9 @@ fn serialize(v: &Event) -> Result<Vec<u8>> {
             Status::Disabled => 2,
         },
         is_system: v.is_system,
+        event_properties: v.event_properties.clone().unwrap_or_default(),
+        user_properties: v.user_properties.clone().unwrap_or_default(),
+        custom_properties: v.custom_properties.clone().unwrap_or_default(),
     };
 
     Ok(d.encode_to_vec())
@@ -520,9 +523,9 @@ fn deserialize(data: &[u8]) -> Result<Event> {
             _ => unreachable!(),
         },
         is_system: from.is_system,
-        event_properties: None,
-        user_properties: None,
-        custom_properties: None,
+        event_properties: Some(from.event_properties).filter(|v| !v.is_empty()),
+        user_properties: Some(from.user_properties).filter(|v| !v.is_empty()),
+        custom_properties: Some(from.custom_properties).filter(|v| !v.is_empty()),
     })
 }
 
diff --git a/src/metadata/src/pb/event.proto b/src/metadata/src/pb/event.proto
index 1ac389e..feddf0c 100644
--- a/src/metadata/src/pb/event.proto
+++ b/src/metadata/src/pb/event.proto
@@ -14,6 +14,9 @@ message Event {
   optional string description = 10;
   Status status = 11;
   bool is_system = 12;
+  repeated uint64 event_properties = 13;
+  repeated uint64 user_properties = 14;
+  repeated uint64 custom_properties = 15;
 }
 
 enum Status {
-- 
2.43.0


From 2f525ea8fdcd90dffd0bfdacc3fe8e8d1db10d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:24 +0000
Subject: [PATCH 16/88] fix: do not let two callers create an idle backup at
 once

---
 src/metadata/src/backups.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 1fe5bd1..3e85b6e 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -111,6 +111,8 @@ impl Backups {
 
     pub fn create(&self, req: CreateBackupRequest) -> Result<Backup> {
         let tx = self.db.transaction();
+        // locks the sequence, so that nobody else creates a backup before this transaction ends
+        let id = next_seq(&tx, make_id_seq_key(NAMESPACE))?;
         if req.status == Status::Idle {
             let list = self.list_(&tx)?;
             for backup in list.data {
@@ -122,7 +124,6 @@ impl Backups {
             }
         }
         let created_at = Utc::now();
-        let id = next_seq(&tx, make_id_seq_key(NAMESPACE))?;
 
         let backup = Backup {
             id,
-- 
2.43.0


From a197ff423f887d2f7951e90afced4991aec8b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 17/88] fix: lock what is read to be changed

---
 src/metadata/src/accounts.rs      |  6 ++++++
 src/metadata/src/backups.rs       |  3 +++
 src/metadata/src/bookmarks.rs     |  3 ++-
 src/metadata/src/custom_events.rs |  3 +++
 src/metadata/src/dashboards.rs    |  3 +++
 src/metadata/src/events.rs        |  6 ++++++
 src/metadata/src/index.rs         |  6 ++++++
 src/metadata/src/organizations.rs |  6 ++++++
 src/metadata/src/projects.rs      |  4 ++++
 src/metadata/src/properties.rs    |  3 +++
 src/metadata/src/reports.rs       |  3 +++
 src/metadata/src/sessions.rs      | 12 +++++++++---
 src/metadata/src/teams.rs         |  3 +++
 13 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/metadata/src/accounts.rs b/src/metadata/src/accounts.rs
index 707c462..431f57b 100644
--- a/src/metadata/src/accounts.rs
+++ b/src/metadata/src/accounts.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -121,6 +122,7 @@ impl Accounts {
     pub fn update(&self, account_id: u64, req: UpdateAccountRequest) -> Result<Account> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, account_id))?;
         let prev_account = self.get_by_id_(&tx, account_id)?;
         let mut account = prev_account.clone();
 
@@ -171,6 +173,7 @@ impl Accounts {
 
     pub fn delete(&self, id: u64) -> Result<Account> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let account = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
@@ -186,6 +189,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().any(|(id, _)| *id == org_id) {
@@ -206,6 +210,7 @@ impl Accounts {
         member_id: u64,
         org_id: u64,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         if orgs.iter().all(|(id, _)| *id != org_id) {
@@ -227,6 +232,7 @@ impl Accounts {
         org_id: u64,
         role: OrganizationRole,
     ) -> Result<()> {
+        lock(tx, make_data_value_key(NAMESPACE, member_id))?;
         let mut account = self.get_by_id_(tx, member_id)?;
         let orgs = account.organizations.get_or_insert(Vec::new());
         for (id, r) in orgs.iter_mut() {
diff --git a/src/metadata/src/backups.rs b/src/metadata/src/backups.rs
index 3e85b6e..a470b37 100644
--- a/src/metadata/src/backups.rs
+++ b/src/metadata/src/backups.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::backup;
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -178,6 +179,7 @@ impl Backups {
     pub fn update_status(&self, backup_id: u64, status: Status) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, backup_id))?;
         let mut backup = self.get_by_id_(&tx, backup_id)?;
         backup.status = status;
         backup.updated_at = Some(Utc::now());
@@ -190,6 +192,7 @@ impl Backups {
 
     pub fn delete(&self, id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let _ = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/bookmarks.rs b/src/metadata/src/bookmarks.rs
index 094e074..106283d 100644
--- a/src/metadata/src/bookmarks.rs
+++ b/src/metadata/src/bookmarks.rs
@@ -78,8 +78,9 @@ impl Bookmarks {
 
     pub fn delete(&self, project_id: u64, account_id: u64, id: &str) -> Result<Bookmark> {
         let tx = self.db.transaction();
-        let bookmark = self.get_by_id_(&tx, project_id, account_id, id)?;
         let key = format!("projects/{project_id}/{NAMESPACE}/accounts/{account_id}/{id}");
+        tx.get_for_update(key.as_str(), true)?;
+        let bookmark = self.get_by_id_(&tx, project_id, account_id, id)?;
         tx.delete(key)?;
         tx.commit()?;
         Ok(bookmark)
diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 8a897d5..861dc85 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -26,6 +26,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -219,6 +220,7 @@ impl CustomEvents {
     ) -> Result<CustomEvent> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
 
@@ -271,6 +273,7 @@ impl CustomEvents {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<CustomEvent> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/dashboards.rs b/src/metadata/src/dashboards.rs
index 4525103..b8082e1 100644
--- a/src/metadata/src/dashboards.rs
+++ b/src/metadata/src/dashboards.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 
 use crate::dashboard;
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -118,6 +119,7 @@ impl Dashboards {
     ) -> Result<Dashboard> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), dashboard_id))?;
         let prev_dashboard = self.get_by_id_(&tx, project_id, dashboard_id)?;
         let mut dashboard = prev_dashboard.clone();
 
@@ -147,6 +149,7 @@ impl Dashboards {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Dashboard> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let dashboard = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 2da63ca..99176b9 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -21,6 +21,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -64,6 +65,7 @@ macro_rules! attach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id))?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => Some(vec![$prop_id]),
@@ -89,6 +91,7 @@ macro_rules! attach_property {
 macro_rules! detach_property {
     ($self:expr,$project_id:expr,$event_id:expr,$prop_id:expr,$prop:ident) => {{
         let tx = $self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns($project_id, NAMESPACE).as_slice(), $event_id))?;
         let mut event = $self.get_by_id_(&tx, $project_id, $event_id)?;
         event.$prop = match event.$prop {
             None => {
@@ -265,6 +268,7 @@ impl Events {
     pub fn update(&self, project_id: u64, event_id: u64, req: UpdateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let prev_event = self.get_by_id_(&tx, project_id, event_id)?;
         let mut event = prev_event.clone();
 
@@ -324,6 +328,7 @@ impl Events {
     ) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), event_id))?;
         let mut event = self.get_by_id_(&tx, project_id, event_id)?;
         for prop in event_props {
             match &event.event_properties {
@@ -385,6 +390,7 @@ impl Events {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Event> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let event = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/index.rs b/src/metadata/src/index.rs
index e3fe1b5..eec5da8 100644
--- a/src/metadata/src/index.rs
+++ b/src/metadata/src/index.rs
@@ -4,6 +4,12 @@ use rocksdb::TransactionDB;
 use crate::error::MetadataError;
 use crate::Result;
 
+/// Locks what is read to be changed until the end of the transaction.
+pub fn lock<K: AsRef<[u8]>>(tx: &Transaction<TransactionDB>, key: K) -> Result<()> {
+    tx.get_for_update(key, true)?;
+    Ok(())
+}
+
 pub fn check_insert_constraints(
     tx: &Transaction<TransactionDB>,
     keys: &[Option<Vec<u8>>],
diff --git a/src/metadata/src/organizations.rs b/src/metadata/src/organizations.rs
index 9ae7758..bbebc6d 100644
--- a/src/metadata/src/organizations.rs
+++ b/src/metadata/src/organizations.rs
@@ -18,6 +18,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_key;
@@ -127,6 +128,7 @@ impl Organizations {
         id: u64,
         req: UpdateOrganizationRequest,
     ) -> Result<Organization> {
+        lock(tx, make_data_value_key(NAMESPACE, id))?;
         let prev_org = self.get_by_id_(tx, id)?;
 
         let mut org = prev_org.clone();
@@ -160,6 +162,7 @@ impl Organizations {
 
     pub fn add_member(&self, id: u64, member_id: u64, role: OrganizationRole) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::AlreadyExists(
@@ -177,6 +180,7 @@ impl Organizations {
 
     pub fn remove_member(&self, id: u64, member_id: u64) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if !org.members.iter().any(|(id, _)| *id == member_id) {
             return Err(MetadataError::NotFound(
@@ -199,6 +203,7 @@ impl Organizations {
         role: OrganizationRole,
     ) -> Result<()> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let mut org = self.get_by_id_(&tx, id)?;
         if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
             member.1 = role.clone();
@@ -219,6 +224,7 @@ impl Organizations {
     pub fn delete(&self, id: u64) -> Result<Organization> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, id))?;
         let org = self.get_by_id_(&tx, id)?;
         tx.delete(make_data_value_key(NAMESPACE, id))?;
 
diff --git a/src/metadata/src/projects.rs b/src/metadata/src/projects.rs
index 04b7429..54a9fe0 100644
--- a/src/metadata/src/projects.rs
+++ b/src/metadata/src/projects.rs
@@ -18,6 +18,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -142,6 +143,7 @@ impl Projects {
     pub fn update(&self, project_id: u64, req: UpdateProjectRequest) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let prev_project = self.get_by_id_(&tx, project_id)?;
         let mut project = prev_project.clone();
 
@@ -183,6 +185,7 @@ impl Projects {
     pub fn increment_events_counter(&self, project_id: u64) -> Result<()> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let mut project = self.get_by_id_(&tx, project_id)?;
         project.events_count += 1;
         let data = serialize(&project)?;
@@ -194,6 +197,7 @@ impl Projects {
     pub fn delete(&self, project_id: u64) -> Result<Project> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(NAMESPACE, project_id))?;
         let project = self.get_by_id_(&tx, project_id)?;
         tx.delete(make_data_value_key(NAMESPACE, project_id))?;
 
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index 8381f66..ee6a506 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -30,6 +30,7 @@ use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::get_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::next_zero_seq;
 use crate::index::update_index;
@@ -424,6 +425,7 @@ impl Properties {
     ) -> Result<Property> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(project_ns(project_id, self.typ.path().as_bytes()).as_slice(), property_id))?;
         let prev_prop = self.get_by_id(project_id, property_id)?;
         let mut prop = prev_prop.clone();
 
@@ -517,6 +519,7 @@ impl Properties {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Property> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, self.typ.path().as_bytes()).as_slice(), id))?;
         let prop = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
diff --git a/src/metadata/src/reports.rs b/src/metadata/src/reports.rs
index d2fed42..ab7bbf6 100644
--- a/src/metadata/src/reports.rs
+++ b/src/metadata/src/reports.rs
@@ -16,6 +16,7 @@ use serde::Deserialize;
 use serde::Serialize;
 
 use crate::error::MetadataError;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::make_data_key;
 use crate::make_data_value_key;
@@ -123,6 +124,7 @@ impl Reports {
         req: UpdateReportRequest,
     ) -> Result<Report> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), report_id))?;
         let prev_report = self.get_by_id_(&tx, project_id, report_id)?;
         let mut report = prev_report.clone();
 
@@ -155,6 +157,7 @@ impl Reports {
 
     pub fn delete(&self, project_id: u64, id: u64) -> Result<Report> {
         let tx = self.db.transaction();
+        lock(&tx, make_data_value_key(project_ns(project_id, NAMESPACE).as_slice(), id))?;
         let report = self.get_by_id_(&tx, project_id, id)?;
         tx.delete(make_data_value_key(
             project_ns(project_id, NAMESPACE).as_slice(),
diff --git a/src/metadata/src/sessions.rs b/src/metadata/src/sessions.rs
index a04bd52..dc21bdc 100644
--- a/src/metadata/src/sessions.rs
+++ b/src/metadata/src/sessions.rs
@@ -81,7 +81,7 @@ impl Sessions {
         let tx = self.db.transaction();
         let key = make_data_key(project_id, user_id);
         let mut is_new = false;
-        let mut session = match tx.get(key)? {
+        let mut session = match tx.get_for_update(key, true)? {
             None => {
                 is_new = true;
                 Session {
@@ -110,7 +110,7 @@ impl Sessions {
 
         let prefix = format!("projects/{project_id}/sessions/data");
         let iter = tx.prefix_iterator(prefix.clone());
-        let mut list = vec![];
+        let mut list: Vec<Session> = vec![];
         for kv in iter {
             let (key, value) = kv?;
             // check if key contains the prefix
@@ -122,8 +122,14 @@ impl Sessions {
 
         let tx = self.db.transaction();
         for s in list.into_iter() {
+            let key = make_data_key(project_id, s.user_id);
+            // the session may have been used or deleted since it was listed
+            let s = match tx.get_for_update(key.as_slice(), true)? {
+                None => continue,
+                Some(value) => deserialize(&value)?,
+            };
             if callback(&s)? {
-                tx.delete(make_data_key(project_id, s.user_id).as_slice())?;
+                tx.delete(key.as_slice())?;
             }
         }
         tx.commit()?;
diff --git a/src/metadata/src/teams.rs b/src/metadata/src/teams.rs
index f3ab54a..3fbce0f 100644
--- a/src/metadata/src/teams.rs
+++ b/src/metadata/src/teams.rs
@@ -14,6 +14,7 @@ use crate::index::check_insert_constraints;
 use crate::index::check_update_constraints;
 use crate::index::delete_index;
 use crate::index::insert_index;
+use crate::index::lock;
 use crate::index::next_seq;
 use crate::index::update_index;
 use crate::make_data_value_key;
@@ -137,6 +138,7 @@ impl Teams {
     ) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id))?;
         let prev_team = self.get_by_id_(&tx, organization_id, team_id)?;
         let mut team = prev_team.clone();
 
@@ -167,6 +169,7 @@ impl Teams {
     pub fn delete(&self, organization_id: u64, team_id: u64) -> Result<Team> {
         let tx = self.db.transaction();
 
+        lock(&tx, make_data_value_key(org_ns(organization_id, NAMESPACE).as_slice(), team_id))?;
         let team = self.get_by_id_(&tx, organization_id, team_id)?;
         tx.delete(make_data_value_key(
             org_ns(organization_id, NAMESPACE).as_slice(),
-- 
2.43.0


From 1b17b159b336d1be02d1d5a02db0adf6174792d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:07 +0000
Subject: [PATCH 18/88] fix: get or create a property or event under a lock and
 cache it only then

---
 src/metadata/src/events.rs     |  9 +++++++++
 src/metadata/src/properties.rs | 33 +++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index 99176b9..d764fd9 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -219,6 +219,15 @@ impl Events {
 
     pub fn get_or_create(&self, project_id: u64, req: CreateEventRequest) -> Result<Event> {
         let tx = self.db.transaction();
+        // nobody else creates or deletes it meanwhile
+        lock(
+            &tx,
+            make_index_key(
+                project_ns(project_id, NAMESPACE).as_slice(),
+                IDX_NAME,
+                req.name.as_str(),
+            ),
+        )?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
diff --git a/src/metadata/src/properties.rs b/src/metadata/src/properties.rs
index ee6a506..d840e57 100644
--- a/src/metadata/src/properties.rs
+++ b/src/metadata/src/properties.rs
@@ -217,6 +217,18 @@ impl Properties {
         }
     }
 
+    // only while the property is locked, or an older version may end up in the cache
+    fn cache(&self, prop: &Property) {
+        self.name_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.name.to_string()), prop.clone());
+        self.id_cache
+            .write()
+            .unwrap()
+            .put((prop.project_id, prop.id), prop.clone());
+    }
+
     fn create_(
         &self,
         tx: &Transaction<TransactionDB>,
@@ -277,16 +289,6 @@ impl Properties {
             project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
             prop.id,
         );
-        self.name_cache
-            .write()
-            .unwrap()
-            .put((project_id, prop.name.to_string()), prop.clone());
-
-        self.id_cache
-            .write()
-            .unwrap()
-            .put((project_id, id), prop.clone());
-
         let data = serialize(&prop)?;
         tx.put(idx_key, data)?;
 
@@ -351,6 +353,7 @@ impl Properties {
     pub fn create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
         let ret = self.create_(&tx, project_id, req)?;
+        self.cache(&ret);
         tx.commit()?;
 
         Ok(ret)
@@ -358,6 +361,15 @@ impl Properties {
 
     pub fn get_or_create(&self, project_id: u64, req: CreatePropertyRequest) -> Result<Property> {
         let tx = self.db.transaction();
+        // nobody else creates or deletes it meanwhile
+        lock(
+            &tx,
+            make_index_key(
+                project_ns(project_id, self.typ.path().as_bytes()).as_slice(),
+                IDX_NAME,
+                req.name.as_str(),
+            ),
+        )?;
         match self.get_by_name_(&tx, project_id, req.name.as_str()) {
             Ok(event) => return Ok(event),
             Err(MetadataError::NotFound(_)) => {}
@@ -365,6 +377,7 @@ impl Properties {
         }
         let ret = self.create_(&tx, project_id, req)?;
 
+        self.cache(&ret);
         tx.commit()?;
 
         Ok(ret)
-- 
2.43.0


From 9d29f679674dff30d540235157007c8757cab1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 19/88] hook: under the feature mc the store starts no
 background threads; compact_now and gc_now run one round

---
 src/storage/src/compaction.rs |  6 +++---
 src/storage/src/db.rs         | 38 ++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index ff012df..a12f9a5 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -86,7 +86,7 @@ impl Compactor {
     }
     pub fn run(self) {
         loop {
-            #[cfg(not(test))]
+            #[cfg(not(any(test, feature = "mc")))]
             {
                 match self.inbox.try_recv() {
                     Ok(v) => match v {
@@ -102,10 +102,10 @@ impl Compactor {
                     Err(TryRecvError::Empty) => {}
                 }
             }
-            #[cfg(not(test))]
+            #[cfg(not(any(test, feature = "mc")))]
             thread::sleep(Duration::from_secs(1)); // todo make configurable
 
-            #[cfg(test)]
+            #[cfg(any(test, feature = "mc"))]
             {
                 match self.inbox.recv() {
                     Ok(msg) => match msg {
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 7ad6214..0da6502 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -162,6 +162,7 @@ fn collect_metrics(tables: Arc<RwLock<Vec<Table>>>) {
 
 fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
     loop {
+        #[cfg(not(feature = "mc"))]
         thread::sleep(Duration::from_secs(1));
         let tbl = tables.read().clone();
         for tbl in tbl {
@@ -217,6 +218,8 @@ fn gc(tables: Arc<RwLock<Vec<Table>>>, path: PathBuf, fs: Arc<Fs>) {
                 }
             }
         }
+        #[cfg(feature = "mc")]
+        return;
     }
 }
 
@@ -423,13 +426,19 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let lock = Arc::new(RwLock::new(()));
     let fs = Arc::new(Fs::new());
     let compactor = Compactor::new(tables.clone(), path, fs.clone(), rx, lock.clone());
-    thread::spawn(move || compactor.run());
-    let tables_cloned = tables.clone();
-    thread::spawn(move || collect_metrics(tables_cloned));
-    let tables_cloned = tables.clone();
-    let fs_cloned = fs.clone();
-    let path_cloned = path.to_owned();
-    thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    // under the model checker the background work is done when it says so
+    #[cfg(feature = "mc")]
+    drop(compactor);
+    #[cfg(not(feature = "mc"))]
+    {
+        thread::spawn(move || compactor.run());
+        let tables_cloned = tables.clone();
+        thread::spawn(move || collect_metrics(tables_cloned));
+        let tables_cloned = tables.clone();
+        let fs_cloned = fs.clone();
+        let path_cloned = path.to_owned();
+        thread::spawn(move || gc(tables_cloned.clone(), path_cloned, fs_cloned));
+    }
     Ok(OptiDBImpl {
         opts,
         tables,
@@ -1185,6 +1194,21 @@ impl OptiDBImpl {
             .unwrap();
     }
 
+    /// one round of the compactor, in the calling thread
+    #[cfg(feature = "mc")]
+    pub fn compact_now(&self) {
+        let (outbox, rx) = mpsc::channel();
+        outbox.send(CompactorMessage::Compact).unwrap();
+        outbox.send(CompactorMessage::Stop(mpsc::channel().0)).unwrap();
+        Compactor::new(self.tables.clone(), &self.path, self.fs.clone(), rx, self.global_lock.clone()).run();
+    }
+
+    /// one round of the removal of unused files, in the calling thread
+    #[cfg(feature = "mc")]
+    pub fn gc_now(&self) {
+        gc(self.tables.clone(), self.path.clone(), self.fs.clone());
+    }
+
     pub fn flush(&self, tbl_name: &str) -> Result<()> {
         let _g = self.global_lock.read();
         let tables = self.tables.read();
-- 
2.43.0


From e05b4211fb43bb7a27e8f715776e80d809e87b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 20/88] fix: keep the dictionary keys of an identify in the
 dictionary of its group

---
 src/ingester/src/executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index ea50168..744ee50 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -314,7 +314,7 @@ impl Executor<Identify> {
             for prop in props {
                 let v = property_to_value(
                     &ctx,
-                    group_col(req.group_id as usize).as_str(),
+                    group_col(group.id as usize).as_str(),
                     prop,
                     &self.md.dictionaries,
                 )?;
-- 
2.43.0


From bd1ef1179da810df96ead25b8790c2628b3245fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 21/88] fix: refuse a string a small dictionary has no number
 for instead of storing another

---
 src/ingester/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ingester/src/lib.rs b/src/ingester/src/lib.rs
index 0c087df..7781dfe 100644
--- a/src/ingester/src/lib.rs
+++ b/src/ingester/src/lib.rs
@@ -96,6 +96,10 @@ fn out_of_range(v: &Decimal) -> IngesterError {
     IngesterError::BadRequest(format!("number {v} is out of range"))
 }
 
+fn dictionary_is_full(prop: &properties::Property) -> IngesterError {
+    IngesterError::BadRequest(format!("property {} has too many values", prop.name))
+}
+
 fn property_to_value(
     ctx: &RequestContext,
     tbl: &str,
@@ -111,9 +115,9 @@ fn property_to_value(
                 str_v.as_str(),
             )?;
             match prop.property.dictionary_type.clone().unwrap() {
-                DictionaryType::Int8 => Value::Int8(Some(dict_id as i8)),
-                DictionaryType::Int16 => Value::Int16(Some(dict_id as i16)),
-                DictionaryType::Int32 => Value::Int32(Some(dict_id as i32)),
+                DictionaryType::Int8 => Value::Int8(Some(dict_id.try_into().map_err(|_| dictionary_is_full(&prop.property))?)),
+                DictionaryType::Int16 => Value::Int16(Some(dict_id.try_into().map_err(|_| dictionary_is_full(&prop.property))?)),
+                DictionaryType::Int32 => Value::Int32(Some(dict_id.try_into().map_err(|_| dictionary_is_full(&prop.property))?)),
                 DictionaryType::Int64 => Value::Int64(Some(dict_id as i64)),
             }
         } else {
-- 
2.43.0


From 40dbfa0a890719ebdf6f3f37160ec31e88ea5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 22/88] fix: begin a session only with an event that is not
 refused

---
 src/ingester/src/destinations/local/track.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ingester/src/destinations/local/track.rs b/src/ingester/src/destinations/local/track.rs
index 9641450..0f1a113 100644
--- a/src/ingester/src/destinations/local/track.rs
+++ b/src/ingester/src/destinations/local/track.rs
@@ -43,13 +43,6 @@ impl Local {
 
 impl Destination<Track> for Local {
     fn send(&self, ctx: &RequestContext, req: Track) -> Result<()> {
-        let ts = Utc::now();
-        let is_new_session = self.md.sessions.set_current_time(
-            ctx.project_id.unwrap(),
-            req.resolved_user_id.unwrap() as u64,
-            ts,
-        )?;
-
         // fill group id for each of GROUPS_COUNT groups
         let groups = if let Some(groups) = &req.resolved_group_values {
             let mut found = HashMap::new();
@@ -210,6 +203,13 @@ impl Destination<Track> for Local {
         } else {
             vec![]
         };
+        // nothing of the request may be refused past this point: the session would be without its first event
+        let ts = Utc::now();
+        let is_new_session = self.md.sessions.set_current_time(
+            ctx.project_id.unwrap(),
+            req.resolved_user_id.unwrap() as u64,
+            ts,
+        )?;
         if is_new_session {
             let record_id = self
                 .md
-- 
2.43.0


From 27a8bd356a9fd7f017785b6e43caef1a0f3814e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 23/88] fix: the last of the rows of one key replaces the
 others whatever the sort does

---
 src/storage/src/memtable.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/memtable.rs b/src/storage/src/memtable.rs
index 1791d31..b921811 100644
--- a/src/storage/src/memtable.rs
+++ b/src/storage/src/memtable.rs
@@ -143,9 +143,14 @@ impl Memtable {
                 .collect::<Vec<_>>(),
         };
 
+        // rows of one key stay in the order they were inserted in: the last of them replaces the others,
+        // and the sort itself is not stable
+        let row_ids = Int64Array::from_vec((0..self.len() as i64).collect());
         let sort_cols = (0..index_cols)
-            .map(|v| SortColumn {
-                values: arrs[v].as_ref(),
+            .map(|v| arrs[v].as_ref())
+            .chain(std::iter::once(&row_ids as &dyn Array))
+            .map(|values| SortColumn {
+                values,
                 options: Some(SortOptions {
                     descending: false,
                     nulls_first: false,
-- 
2.43.0


From 22a438a0c5de419971c6d16e7a6974843afc49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 24/88] fix: keep the columns of merged rows together when
 older rows of a key are left out

---
 src/storage/src/parquet/arrow_merger.rs      | 10 ++--
 src/storage/src/parquet/merge_data_arrays.rs | 54 +++++++++++++-------
 src/storage/src/parquet/mod.rs               |  4 +-
 src/storage/src/parquet/parquet_merger.rs    | 10 ++--
 4 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/storage/src/parquet/arrow_merger.rs b/src/storage/src/parquet/arrow_merger.rs
index fbcf022..cc4dc0a 100644
--- a/src/storage/src/parquet/arrow_merger.rs
+++ b/src/storage/src/parquet/arrow_merger.rs
@@ -99,7 +99,8 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    out.push(-1);
+                    // left out: the stream moves past it
+                    out.push(-1 - row_idx as i64);
 
                     continue;
                 }
@@ -361,7 +362,8 @@ impl MergingIterator {
                 let mut arr_cursors = vec![0; arrs.len()];
                 let mut growable = make_growable(&arrs, false, reorder.len());
                 for idx in reorder.iter() {
-                    if *idx == -1 {
+                    if *idx < 0 {
+                        arr_cursors[(-1 - *idx) as usize] += 1;
                         continue;
                     }
                     growable.extend(*idx as usize, arr_cursors[*idx as usize], 1);
@@ -375,7 +377,7 @@ impl MergingIterator {
         let mut out = vec![];
 
         let mut len = arrs[0].len();
-        for i in (0..reorder.len()).step_by(self.array_size) {
+        for i in (0..len).step_by(self.array_size) {
             let arrs = arrs
                 .iter_mut()
                 .map(|arr| arr.sliced(i, min(self.array_size, len)))
@@ -452,6 +454,8 @@ impl Iterator for MergingIterator {
         }
         // check queue len. Queue len may be 1 if there is no intersection
         if merge_queue.len() > 1 {
+            // of rows of one key, the row of the last stream is the newest
+            merge_queue.sort_by_key(|chunk| chunk.stream);
             // in case of intersection, merge queue
             let res = self
                 .merge_queue(
diff --git a/src/storage/src/parquet/merge_data_arrays.rs b/src/storage/src/parquet/merge_data_arrays.rs
index 8e23b72..3af2419 100644
--- a/src/storage/src/parquet/merge_data_arrays.rs
+++ b/src/storage/src/parquet/merge_data_arrays.rs
@@ -53,13 +53,18 @@ macro_rules! merge_arrays_inner {
         let mut out = <$out_ty>::with_capacity($reorder.len());
         // go through each row idx in reorder, get stream id for row
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // a negative number is of a row that is left out, which its stream has to move past
+            let skip = $reorder[idx] < 0;
+            let stream_id = (if skip {
+                -1 - $reorder[idx]
+            } else {
+                $reorder[idx]
+            }) as usize;
             // push null if column doesn't exist
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -76,7 +81,8 @@ macro_rules! merge_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let arr = arrs[stream_id].as_ref().unwrap();
-            if arr.is_null(cur_idx) {
+            if skip {
+            } else if arr.is_null(cur_idx) {
                 out.push_null();
             } else {
                 out.push(Some(arr.value(cur_idx)));
@@ -177,12 +183,17 @@ macro_rules! merge_list_arrays_inner {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // a negative number is of a row that is left out, which its stream has to move past
+            let skip = $reorder[idx] < 0;
+            let stream_id = (if skip {
+                -1 - $reorder[idx]
+            } else {
+                $reorder[idx]
+            }) as usize;
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -210,7 +221,8 @@ macro_rules! merge_list_arrays_inner {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if skip {
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
@@ -304,12 +316,17 @@ macro_rules! merge_list_primitive_arrays {
 
         let mut out = <$out_ty>::with_capacity($reorder.len());
         for idx in 0..$reorder.len() {
-            if $reorder[idx] == -1 {
-                continue;
-            }
-            let stream_id = $reorder[idx] as usize;
+            // a negative number is of a row that is left out, which its stream has to move past
+            let skip = $reorder[idx] < 0;
+            let stream_id = (if skip {
+                -1 - $reorder[idx]
+            } else {
+                $reorder[idx]
+            }) as usize;
             if !col_exist_per_stream[stream_id] {
-                out.push_null();
+                if !skip {
+                    out.push_null();
+                }
                 continue;
             }
 
@@ -338,7 +355,8 @@ macro_rules! merge_list_primitive_arrays {
 
             let cur_idx = arrs_idx[stream_id];
             let (arr, offsets, validity, num_vals) = arrs[stream_id].as_ref().unwrap();
-            if validity
+            if skip {
+            } else if validity
                 .as_ref()
                 .map(|x| !x.get_bit(cur_idx))
                 .unwrap_or(false)
diff --git a/src/storage/src/parquet/mod.rs b/src/storage/src/parquet/mod.rs
index 10d5bd7..312b806 100644
--- a/src/storage/src/parquet/mod.rs
+++ b/src/storage/src/parquet/mod.rs
@@ -187,7 +187,9 @@ where
     B: Ord,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        (&self.1, &self.2).cmp(&(&other.1, &other.2)).reverse()
+        (&self.1, &self.2, self.0)
+            .cmp(&(&other.1, &other.2, other.0))
+            .reverse()
     }
 }
 
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index f7ab56c..277484c 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -215,10 +215,10 @@ pub fn check_intersection(
     let mut max_values = first.max_values()[..index_cols - offset].to_vec();
     for row in iter {
         if row.min_values()[..index_cols - offset].to_vec() <= min_values {
-            min_values = row.min_values();
+            min_values = row.min_values()[..index_cols - offset].to_vec();
         }
         if row.max_values()[..index_cols - offset].to_vec() >= max_values {
-            max_values = row.max_values();
+            max_values = row.max_values()[..index_cols - offset].to_vec();
         }
     }
 
@@ -504,7 +504,7 @@ pub fn merge_two_primitives<T1: NativeType + Ord, T2: NativeType + Ord>(
         if is_replacing {
             if let Some(v) = sort.peek() {
                 if v1 == v.1 {
-                    order.push(-1);
+                    order.push(-1 - chunks[arr_id].stream as i64);
 
                     continue;
                 }
@@ -765,7 +765,7 @@ where R: Read
 pub enum MergeReorder {
     // pick page from stream, e.g. don't merge and write as is
     PickFromStream(usize, usize),
-    // first vector - stream_id to pick from, second vector - streams which are merged
+    // first vector - stream_id to pick from (-1 - stream_id: leave out), second vector - streams which are merged
     Merge(Vec<i64>, Vec<usize>),
 }
 
@@ -1286,6 +1286,8 @@ where R: Read + Seek
     // Queue merger
     fn merge_queue(&mut self) -> Result<()> {
         let mut buf = vec![];
+        // of rows of one key, the row of the last stream is the newest
+        self.merge_queue.sort_by_key(|chunk| chunk.stream);
         // read page chunks from queue and convert to arrow chunks
         let arrow_chunks = self
             .merge_queue
-- 
2.43.0


From 5683baca720561c76e3c079914a4f8102b7959e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 25/88] fix: merge each part once, with all parts it overlaps,
 from the oldest to the newest

---
 src/storage/src/compaction.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index a12f9a5..696bc73 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -228,6 +228,14 @@ pub(crate) fn determine_compaction(
                 to_compact.push(ToCompact::new(level_id, part.id));
             }
         }
+        // a part that is merged twice is there twice; and older parts come first
+        let chosen = std::mem::take(&mut to_compact);
+        for part in level_parts {
+            let tc = ToCompact::new(level_id, part.id);
+            if chosen.contains(&tc) {
+                to_compact.push(tc);
+            }
+        }
     } else {
         return Ok(None);
     }
@@ -245,10 +253,12 @@ pub(crate) fn determine_compaction(
         .max()
         .unwrap();
     for part in &next_level.parts {
-        if cmp::max(part.min.clone(), min.clone()) < cmp::min(part.max.clone(), max.clone()) {
+        if cmp::max(part.min.clone(), min.clone()) <= cmp::min(part.max.clone(), max.clone()) {
             to_compact.push(ToCompact::new(level_id + 1, part.id));
         }
     }
+    // from the oldest to the newest: what is in a level is newer than what is in the next one
+    to_compact.sort_by_key(|tc| cmp::Reverse(tc.level));
     Ok(Some(to_compact))
 }
 
-- 
2.43.0


From abdda74a5aae8f872d4dce6f9e1186b82c8a0aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 26/88] fix: recover rows that were logged before a column was
 added

---
 src/storage/src/db.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 0da6502..a4970d5 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -271,7 +271,9 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     match op {
         LogOp::Insert(k, v) => {
             let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
-            let vv = [kv, v].concat();
+            let mut vv = [kv, v].concat();
+            // the columns added since
+            vv.resize(memtable.cols_len(), Value::Null);
             for (idx, val) in vv.into_iter().enumerate() {
                 memtable.push_value(idx, val);
             }
-- 
2.43.0


From 0fd1fd51ed8c1d3d7c2c48768edfd4db816c9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 27/88] fix: scan and insert hold the locks of what they read
 and write together

---
 src/storage/src/db.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index a4970d5..4a5950b 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -637,9 +637,10 @@ impl OptiDBImpl {
         };
 
         drop(tables);
+        // held until the parts are opened: rows must not move from the memtable to a part in between,
+        // nor parts be removed
         let md = tbl.metadata.lock();
         let metadata = md.clone();
-        drop(md);
 
         let start_time = Instant::now();
         let memtable = tbl.memtable.lock();
@@ -668,7 +669,8 @@ impl OptiDBImpl {
         let mut rdrs = vec![];
         // todo remove?
 
-        for (level_id, level) in metadata.levels.iter().enumerate() {
+        // from the oldest to the newest: what is in a level is newer than what is in the next one
+        for (level_id, level) in metadata.levels.iter().enumerate().rev() {
             for part in &level.parts {
                 let path = part_path(&self.path, tbl_name, level_id, part.id);
                 self.fs.open(&path)?;
@@ -676,6 +678,8 @@ impl OptiDBImpl {
                 rdrs.push(rdr);
             }
         }
+        drop(memtable);
+        drop(md);
         gauge!(METRIC_STORE_SCAN_PARTS, "table"=>tbl_name.to_string()).set(rdrs.len() as f64);
         let iter = if rdrs.is_empty() {
             Box::new(MemChunkIterator::new(maybe_chunk))
@@ -720,9 +724,8 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
+        // held until the row is in the memtable: neither a flush nor a new field may come between the log and the memtable
+        let mut metadata = tbl.metadata.lock();
         for v in values.iter() {
             match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                 None => {
@@ -774,15 +777,14 @@ impl OptiDBImpl {
 
             final_values.push(Value::Null);
         }
+        let mut memtable = tbl.memtable.lock();
         let mut log = tbl.log.lock();
         let logged = log_op(
             LogOp::Insert(pk_values.clone(), final_values.clone()),
             log.get_mut(),
         )?;
         drop(log);
-        let mut metadata = tbl.metadata.lock();
         metadata.stats.logged_bytes += logged as u64;
-        let mut memtable = tbl.memtable.lock();
         for (idx, val) in pk_values.iter().enumerate() {
             memtable.push_value(idx, val.into());
         }
-- 
2.43.0


From ce38e2092cde6275babf41051858e7e8c0bf4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 28/88] fix: what is on disk is complete at every moment, of a
 flush, a compaction or a new column

---
 src/storage/src/compaction.rs             |  39 ++++--
 src/storage/src/db.rs                     | 160 +++++++++++-----------
 src/storage/src/lib.rs                    |   8 +-
 src/storage/src/parquet/parquet_merger.rs |   1 +
 src/storage/src/table.rs                  |   1 -
 5 files changed, 110 insertions(+), 99 deletions(-)

diff --git a/src/storage/src/compaction.rs b/src/storage/src/compaction.rs
index 696bc73..7c4efbd 100644
--- a/src/storage/src/compaction.rs
+++ b/src/storage/src/compaction.rs
@@ -1,4 +1,5 @@
 use std::cmp;
+use std::fs as std_fs;
 use std::fs::File;
 use std::path::Path;
 use std::path::PathBuf;
@@ -57,6 +58,8 @@ impl ToCompact {
 pub struct CompactResult {
     l0_remove: Vec<usize>,
     levels: Vec<Level>,
+    // files of new parts, opened to not be removed before the metadata has them
+    created: Vec<PathBuf>,
     fs_ops: Vec<FsOp>,
 }
 
@@ -141,7 +144,8 @@ impl Compactor {
                     Ok(res) => match res {
                         None => continue,
                         Some(res) => {
-                            let mut metadata = table.metadata.lock();
+                            let mut md = table.metadata.lock();
+                            let mut metadata = md.clone();
                             for rem in &res.l0_remove {
                                 metadata.levels[0].parts = metadata.levels[0]
                                     .parts
@@ -153,19 +157,20 @@ impl Compactor {
                             for (idx, l) in res.levels.iter().enumerate().skip(1) {
                                 metadata.levels[idx] = l.clone();
                             }
-                            let mut manifest = table.metadata_f.lock();
-                            write_metadata(manifest.get_mut(), &mut metadata).unwrap();
-                            drop(metadata);
+                            write_metadata(
+                                &self.path.join("tables").join(&table.name),
+                                &metadata,
+                            )
+                            .unwrap();
+                            *md = metadata;
+                            drop(md);
+                            // the new parts are kept by the metadata now
+                            for path in res.created {
+                                self.fs.close(&path).expect("close failed");
+                            }
                             // drop because next fs operation is with locking
                             for op in res.fs_ops {
                                 match op {
-                                    FsOp::Rename(from, to) => {
-                                        trace!("renaming {from:?} to {to:?}");
-                                        // todo handle error
-                                        self.fs.rename(&from, &to).expect("rename failed");
-                                        self.fs.close(&from).expect("close failed");
-                                        self.fs.close(&to).expect("close failed");
-                                    }
                                     FsOp::Delete(path) => {
                                         trace!("deleting {:?}", &path);
                                         self.fs.close(&path).expect("close failed");
@@ -271,6 +276,7 @@ fn compact(
 ) -> Result<Option<CompactResult>> {
     let init_time = Instant::now();
     let mut fs_ops = vec![];
+    let mut created = vec![];
     let mut l0_rem: Vec<usize> = Vec::new();
     let mut tmp_levels = levels.clone();
     let mut compacted = false;
@@ -308,7 +314,13 @@ fn compact(
                     let to = part_path(path, tbl_name, level_id + 1, part.id);
                     fs.open(&from)?;
                     fs.open(&to)?;
-                    fs_ops.push(FsOp::Rename(from, to));
+                    // not renamed: until the metadata is written the part is where it was
+                    std_fs::copy(&from, &to)?;
+                    created.push(to);
+                    fs_ops.push(FsOp::Delete(from));
+                    if level_id == 0 {
+                        l0_rem.push(to_compact[0].part);
+                    }
 
                     tmp_levels[level_id + 1].parts.push(part.clone());
                     tmp_levels[level_id + 1].part_id += 1;
@@ -361,7 +373,7 @@ fn compact(
                 counter!(METRIC_STORE_MERGES_TOTAL,"table"=>tbl_name.to_string()).increment(1);
                 histogram!(METRIC_STORE_MERGE_TIME_SECONDS,"table"=>tbl_name.to_string(),"level"=>level_id.to_string()).record(start_time.elapsed());
                 for f in merge_result {
-                    fs.open(&f.path)?;
+                    created.push(f.path.clone());
                     let final_part = {
                         Part {
                             id: tmp_levels[level_id + 1].part_id + 1,
@@ -405,6 +417,7 @@ fn compact(
     Ok(Some(CompactResult {
         l0_remove: l0_rem,
         levels: tmp_levels,
+        created,
         fs_ops,
     }))
 }
diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 4a5950b..46e9bea 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -1,5 +1,3 @@
-use std::collections::BinaryHeap;
-use std::ffi::OsStr;
 use std::fs;
 use std::fs::File;
 use std::fs::OpenOptions;
@@ -283,7 +281,8 @@ fn recover_op(op: LogOp, memtable: &mut Memtable) -> Result<()> {
     Ok(())
 }
 
-pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Result<usize> {
+/// replaces the metadata file as a whole: at no time there is a part of it only
+pub(crate) fn write_metadata(table_path: &Path, metadata: &Metadata) -> Result<usize> {
     let data = serialize_md(metadata)?;
     let mut a = Vec::with_capacity(1024 * 10);
     let crc = hash_crc32(&data);
@@ -292,8 +291,9 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
     let vv = (data.len() as u64).to_le_bytes();
     a.push(vv.as_slice());
     a.push(&data);
-    manifest.rewind()?;
-    manifest.write_all(a.concat().as_slice())?;
+    let tmp_path = table_path.join("metadata.tmp");
+    fs::write(&tmp_path, a.concat().as_slice())?;
+    fs::rename(&tmp_path, table_path.join("metadata"))?;
     let logged_size = 8 + 4 + data.len();
     // !@#trace!("logged size: {}", logged_size);
     // log.flush()?;
@@ -302,10 +302,7 @@ pub(crate) fn write_metadata(manifest: &mut File, metadata: &mut Metadata) -> Re
 
 fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     let start_time = Instant::now();
-    let mut mdf = OpenOptions::new()
-        .read(true)
-        .write(true)
-        .open(path.join("metadata"))?;
+    let mut mdf = File::open(path.join("metadata"))?;
     let mut crc_b = [0u8; mem::size_of::<u32>()];
     let read_bytes = mdf.read(&mut crc_b)?;
     if read_bytes == 0 {
@@ -326,52 +323,39 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
     }
 
     let mut md = deserialize_md(&data_b)?;
-    let dir = fs::read_dir(path.clone())?;
-    let mut logs = BinaryHeap::new();
-
-    for f in dir {
-        let f = f?;
-        match f.path().extension() {
-            None => {}
-            Some(n) => {
-                if n == OsStr::new("log") {
-                    logs.push(f.path());
-                }
-            }
-        };
-    }
-
-    if logs.is_empty() {
-        return Err(StoreError::Internal("no logs found".to_string()));
-    }
-
-    // !@#trace!("found {} logs", logs.len());
-
-    let log_path = logs.pop().unwrap();
+    // other logs are of rows that are in a part already, or of a flush that has not been finished
+    let log_path = path.join(log_name(md.log_id));
     // todo make a buffered read. Currently something odd happens with reading the length of the record
     let mut log = OpenOptions::new().read(true).write(true).open(&log_path)?;
+    let log_len = log.metadata()?.len();
+    let mut recovered_len = 0;
 
     let mut memtable = Memtable::new();
 
     for f in &md.schema.fields {
         memtable.add_column(f.data_type.clone().try_into()?);
     }
-    loop {
-        let mut crc_b = [0u8; mem::size_of::<u32>()];
-        let read_bytes = log.read(&mut crc_b)?;
-        if read_bytes == 0 {
+    while recovered_len < log_len {
+        let left = log_len - recovered_len;
+        let header_len = (mem::size_of::<u32>() + mem::size_of::<u64>()) as u64;
+        // the last record may have been written in part only: it has not been acknowledged
+        if left < header_len {
             break;
         }
+        let mut crc_b = [0u8; mem::size_of::<u32>()];
+        log.read_exact(&mut crc_b)?;
         let crc32 = u32::from_le_bytes(crc_b);
         // !@#trace!("crc32: {}", crc32);
 
         let mut len_b = [0u8; mem::size_of::<u64>()];
-        _ = log.read(&mut len_b)?;
+        log.read_exact(&mut len_b)?;
         let len = u64::from_le_bytes(len_b);
         // !@#trace!("len: {}", len);
+        if left - header_len < len {
+            break;
+        }
         let mut data_b = vec![0u8; len as usize];
-        _ = log.read(&mut data_b)?;
-        // todo recover from this case
+        log.read_exact(&mut data_b)?;
         let cur_crc32 = hash_crc32(&data_b);
         if crc32 != cur_crc32 {
             return Err(StoreError::Internal(format!(
@@ -382,10 +366,14 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         let op = deserialize::<LogOp>(&data_b)?;
 
         recover_op(op, &mut memtable)?;
+        recovered_len += header_len + len;
     }
     // !@#trace!("operations recovered: {}", ops);
 
-    md.stats.logged_bytes = log_path.metadata().unwrap().len();
+    // what follows is appended to what has been recovered
+    log.set_len(recovered_len)?;
+    log.seek(io::SeekFrom::Start(recovered_len))?;
+    md.stats.logged_bytes = recovered_len;
 
     let log = BufWriter::new(log);
     // if trigger_compact {
@@ -396,7 +384,6 @@ fn try_recover_table(path: PathBuf, name: String) -> Result<Table> {
         name,
         memtable: Arc::new(Mutex::new(memtable)),
         metadata: Arc::new(Mutex::new(md)),
-        metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
         log: Arc::new(Mutex::new(log)),
         cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
     })
@@ -410,6 +397,10 @@ fn recover<P: AsRef<Path>>(path: P, opts: Options) -> Result<OptiDBImpl> {
     let dir = fs::read_dir(path.join("tables"))?;
     for f in dir {
         let f = f?;
+        // the metadata is what a table is created with at last
+        if !f.path().join("metadata").exists() {
+            continue;
+        }
         tables.push(try_recover_table(
             f.path(),
             f.file_name().to_os_string().into_string().unwrap(),
@@ -486,7 +477,8 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
         metadata.levels[0].part_id,
     );
     // !@#trace!("creating part file {:?}", p);
-    let w = OpenOptions::new().create_new(true).write(true).open(path)?;
+    // there may be a file of a flush that has not been finished
+    let w = File::create(path)?;
     let mut writer =
         parquet::write::FileWriter::try_new(BufWriter::new(w), metadata.schema.clone(), popts)?;
     // Write the part
@@ -505,6 +497,16 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
     Ok(part)
 }
 
+fn create_log(path: &Path) -> Result<File> {
+    // there may be a file of a flush that has not been finished
+    Ok(OpenOptions::new()
+        .create(true)
+        .truncate(true)
+        .write(true)
+        .read(true)
+        .open(path)?)
+}
+
 fn flush_log_(
     fs: &Fs,
     memtable: &mut Memtable,
@@ -519,9 +521,7 @@ fn flush_log_(
     // !@#trace!("writing to parquet");
     // !@#trace!("part id: {}", md.levels[0].part_id);
 
-    let empty_memtable = memtable.create_empty();
-    let memtable = mem::replace(memtable, empty_memtable);
-
+    let mut new_metadata = metadata.clone();
     let ppath = part_path(
         path,
         metadata.table_name.as_str(),
@@ -530,38 +530,43 @@ fn flush_log_(
     );
     fs.open(&ppath)?;
 
-    let part = write_level0(metadata, &memtable, path)?;
-    metadata.levels[0].parts.push(part.clone());
+    let part = write_level0(metadata, memtable, path)?;
+    new_metadata.levels[0].parts.push(part.clone());
     // increment table id
-    metadata.levels[0].part_id += 1;
-    metadata.stats.written_bytes += part.size_bytes;
+    new_metadata.levels[0].part_id += 1;
+    new_metadata.stats.written_bytes += part.size_bytes;
 
-    metadata.stats.logged_bytes = 0;
+    new_metadata.stats.logged_bytes = 0;
     // increment log id
-    metadata.log_id += 1;
+    new_metadata.log_id += 1;
 
     fs.close(&ppath)?;
 
     // create new log
-    trace!("creating new log file {:?}", log_name(metadata.log_id));
-
-    let mut manifest = OpenOptions::new()
-        .write(true)
-        .read(true)
-        .open(path.join(format!("tables/{}/metadata", metadata.table_name)))?;
-
-    write_metadata(&mut manifest, metadata)?;
+    trace!("creating new log file {:?}", log_name(new_metadata.log_id));
+    let log = create_log(&log_path(
+        path,
+        &metadata.table_name,
+        new_metadata.log_id,
+    ))?;
+
+    // from here on the rows are in the part, and not in the log
+    write_metadata(
+        &path.join("tables").join(&metadata.table_name),
+        &new_metadata,
+    )?;
+    *memtable = memtable.create_empty();
+    *metadata = new_metadata;
 
     trace!(
         "removing previous log file {:?}",
         log_name(metadata.log_id - 1)
     );
-    fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))?;
-    let log = OpenOptions::new()
-        .create_new(true)
-        .write(true)
-        .read(true)
-        .open(log_path(path, &metadata.table_name, metadata.log_id))?;
+    if let Err(err) = fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))
+    {
+        // it is removed as unused later
+        error!("remove failed: {}", err);
+    }
     histogram!(METRIC_STORE_FLUSH_TIME_SECONDS,"table"=>metadata.table_name.clone())
         .record(start_time.elapsed());
     counter!(METRIC_STORE_FLUSHES_TOTAL,"table"=>metadata.table_name.clone()).increment(1);
@@ -1285,9 +1290,10 @@ impl OptiDBImpl {
         }
 
         let field = Field::new(field_name.to_string(), dt.clone().try_into()?, is_nullable);
-        metadata.schema.fields.push(field.clone());
-        let mut mdf = tbl.metadata_f.lock();
-        write_metadata(mdf.get_mut(), &mut metadata)?;
+        let mut new_metadata = metadata.clone();
+        new_metadata.schema.fields.push(field.clone());
+        write_metadata(&self.path.join("tables").join(tbl_name), &new_metadata)?;
+        *metadata = new_metadata;
 
         let mut memtable = tbl.memtable.lock();
         if memtable.cols_len() < metadata.schema.fields.len() {
@@ -1316,7 +1322,7 @@ impl OptiDBImpl {
             fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
         }
 
-        let mut metadata = Metadata {
+        let metadata = Metadata {
             version: 0,
             log_id: 0,
             table_name: table_name.clone(),
@@ -1327,22 +1333,12 @@ impl OptiDBImpl {
         };
 
         let memtable = Memtable::new();
-        let log = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join(log_name(0)))?;
-        let mut mdf = OpenOptions::new()
-            .create_new(true)
-            .write(true)
-            .read(true)
-            .open(path.join("metadata"))?;
-        write_metadata(&mut mdf, &mut metadata)?;
+        let log = create_log(&path.join(log_name(0)))?;
+        write_metadata(&path, &metadata)?;
         let tbl = Table {
             name: table_name.clone(),
             memtable: Arc::new(Mutex::new(memtable)),
             metadata: Arc::new(Mutex::new(metadata)),
-            metadata_f: Arc::new(Mutex::new(BufWriter::new(mdf))),
             log: Arc::new(Mutex::new(BufWriter::new(log))),
             cas: Arc::new(RwLock::new(LruCache::new(NonZeroUsize::new(10).unwrap()))),
         };
@@ -1490,12 +1486,10 @@ impl OptiDBImpl {
         for tbl in tables {
             fs::create_dir_all(path.join(format!("tables/{}", tbl.name)))?;
             // md
-            let md_path = path.join(format!("tables/{}/metadata", tbl.name));
-            let mut md_w = File::create(md_path)?;
             let mut md = tbl.metadata.clone();
             md.log_id = 0;
             md.version = version;
-            write_metadata(&mut md_w, &mut md)?;
+            write_metadata(&path.join(format!("tables/{}", tbl.name)), &md)?;
 
             // log
             let mut log_len_b = [0u8; mem::size_of::<u64>()];
diff --git a/src/storage/src/lib.rs b/src/storage/src/lib.rs
index e869265..1cc47e0 100644
--- a/src/storage/src/lib.rs
+++ b/src/storage/src/lib.rs
@@ -18,6 +18,7 @@ pub mod test_util;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs;
+use std::io::ErrorKind;
 use std::path::Path;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -172,7 +173,11 @@ impl Fs {
     }
     pub fn try_remove_file<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         if !self.is_opened(&path) {
-            return Ok(fs::remove_file(path)?);
+            return match fs::remove_file(path) {
+                // someone else has removed it
+                Err(err) if err.kind() == ErrorKind::NotFound => Ok(()),
+                res => Ok(res?),
+            };
         }
         Ok(())
     }
@@ -196,6 +201,5 @@ impl Fs {
 
 #[derive(Debug, Clone)]
 pub(crate) enum FsOp {
-    Rename(PathBuf, PathBuf),
     Delete(PathBuf),
 }
diff --git a/src/storage/src/parquet/parquet_merger.rs b/src/storage/src/parquet/parquet_merger.rs
index 277484c..350dfe6 100644
--- a/src/storage/src/parquet/parquet_merger.rs
+++ b/src/storage/src/parquet/parquet_merger.rs
@@ -1021,6 +1021,7 @@ where R: Read + Seek
                 merged_files.push(mf);
             } else {
                 // delete empty file. We can do this safely because we write to temp file and then rename it
+                self.fs.close(path)?;
                 fs::remove_file(path)?;
             }
             break;
diff --git a/src/storage/src/table.rs b/src/storage/src/table.rs
index 21c86c0..bc6441b 100644
--- a/src/storage/src/table.rs
+++ b/src/storage/src/table.rs
@@ -112,7 +112,6 @@ pub(crate) struct Table {
     pub(crate) name: String,
     pub(crate) memtable: Arc<Mutex<Memtable>>,
     pub(crate) metadata: Arc<Mutex<Metadata>>,
-    pub(crate) metadata_f: Arc<Mutex<BufWriter<File>>>,
     pub(crate) log: Arc<Mutex<BufWriter<File>>>,
     pub(crate) cas: Arc<RwLock<LruCache<Vec<Value>, i64>>>,
 }
-- 
2.43.0


From 4846ce9c15c04b26a0b3efbba2cc64c742584b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 29/88] fix: leave nothing in the log of a row that could not
 be written

---
 src/storage/src/db.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 46e9bea..88a4aea 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -787,9 +787,15 @@ impl OptiDBImpl {
         let logged = log_op(
             LogOp::Insert(pk_values.clone(), final_values.clone()),
             log.get_mut(),
-        )?;
+        );
+        if logged.is_err() {
+            // what has been written of the refused row must not stay before the rows to come
+            let log = log.get_mut();
+            log.set_len(metadata.stats.logged_bytes)?;
+            log.seek(io::SeekFrom::Start(metadata.stats.logged_bytes))?;
+        }
         drop(log);
-        metadata.stats.logged_bytes += logged as u64;
+        metadata.stats.logged_bytes += logged? as u64;
         for (idx, val) in pk_values.iter().enumerate() {
             memtable.push_value(idx, val.into());
         }
-- 
2.43.0


From b97e120d2cacff292d23bfb8d80ca504a461d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 30/88] fix: let go of the parts of a scan that is not read to
 its end

---
 src/storage/src/db.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 88a4aea..67e77f7 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -574,13 +574,30 @@ fn flush_log_(
     Ok(log)
 }
 
+// the parts a scan reads from, kept until it is dropped
+struct OpenedParts {
+    path: PathBuf,
+    md: Metadata,
+    table_name: String,
+    fs: Arc<Fs>,
+}
+
+impl Drop for OpenedParts {
+    fn drop(&mut self) {
+        for (level_id, level) in self.md.levels.iter().enumerate() {
+            for part in &level.parts {
+                let path = part_path(&self.path, &self.table_name, level_id, part.id);
+                _ = self.fs.close(&path);
+            }
+        }
+    }
+}
+
 pub struct ScanStream {
     pub iter: Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>,
     start_time: Instant,
-    path: PathBuf,
-    md: Metadata,
     table_name: String, // for metrics
-    fs: Arc<Fs>,
+    _parts: OpenedParts,
 }
 
 impl ScanStream {
@@ -594,10 +611,13 @@ impl ScanStream {
         Self {
             iter,
             start_time: Instant::now(),
-            path,
-            md,
-            table_name,
-            fs,
+            table_name: table_name.clone(),
+            _parts: OpenedParts {
+                path,
+                md,
+                table_name,
+                fs,
+            },
         }
     }
 }
@@ -608,13 +628,6 @@ impl Stream for ScanStream {
     fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         match self.iter.next() {
             None => {
-                for (level_id, level) in self.md.levels.iter().enumerate() {
-                    for part in &level.parts {
-                        let path = part_path(&self.path, &self.table_name, level_id, part.id);
-                        self.fs.close(&path)?;
-                    }
-                }
-
                 histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                     .record(self.start_time.elapsed());
                 Poll::Ready(None)
-- 
2.43.0


From 49a6322cf72ea2c6be95a86dc841980a1e35b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 31/88] fix: a backup holds the log and the parts of one moment

---
 src/storage/src/db.rs | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index 67e77f7..e6f393f 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -497,6 +497,10 @@ fn write_level0(metadata: &Metadata, memtable: &Memtable, path: &Path) -> Result
     Ok(part)
 }
 
+fn log_bak_path(log_path: &Path) -> PathBuf {
+    PathBuf::from(format!("{}.bak", log_path.display()))
+}
+
 fn create_log(path: &Path) -> Result<File> {
     // there may be a file of a flush that has not been finished
     Ok(OpenOptions::new()
@@ -1393,31 +1397,27 @@ impl OptiDBImpl {
         let start_time = Instant::now();
         let lock = self.global_lock.write();
         let tables = self.tables.read();
-        let mut mds = vec![];
+        // the backup is of this moment: metadata and the log are copied before anything goes on
+        let mut tbls = vec![];
         for tbl in tables.iter() {
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.lock().log_id);
-            self.fs.open(&log_path)?;
-            // md snapshot here prevents metadata changes during backup
-            let md = tbl.metadata.lock().clone();
-            for (lid, lvl) in md.levels.iter().enumerate() {
+            let tbl = table::serialize_table(tbl);
+            for (lid, lvl) in tbl.metadata.levels.iter().enumerate() {
                 for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
+                    let path = part_path(&self.path, &tbl.name, lid, part.id);
                     // prevent file deletion
                     self.fs.open(&path)?;
                 }
             }
-            mds.push(md);
+            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
+            fs::copy(&log_path, log_bak_path(&log_path))?;
+            tbls.push(tbl);
         }
-        let tables = tables.clone();
+        drop(tables);
         drop(lock);
         // version
         writer.write_all(VERSION.to_le_bytes().as_slice())?;
 
         // tables
-        let tbls = tables
-            .iter()
-            .map(table::serialize_table)
-            .collect::<Vec<_>>();
         let parts_size = tbls
             .iter()
             .map(|tbl| {
@@ -1434,15 +1434,10 @@ impl OptiDBImpl {
         writer.write_all(data.as_slice())?;
 
         // table
-        for tbl in tbls {
+        for tbl in tbls.iter() {
             // log
-            let log_path = log_path(&self.path, &tbl.name, tbl.metadata.log_id);
-            let log_bak_path = format!(
-                "{}.bak",
-                log_path.clone().into_os_string().into_string().unwrap()
-            );
-            fs::copy(&log_path, &log_bak_path)?;
-            self.fs.close(&log_path)?;
+            let log_bak_path =
+                log_bak_path(&log_path(&self.path, &tbl.name, tbl.metadata.log_id));
             let mut log = OpenOptions::new().read(true).open(&log_bak_path).unwrap();
             writer.write_all(log.metadata()?.size().to_le_bytes().as_slice())?;
             io::copy(&mut log, writer)?;
@@ -1463,10 +1458,10 @@ impl OptiDBImpl {
             }
         }
         writer.write_all(&BACKUP_MAGIC)?;
-        for md in mds.iter() {
-            for (lid, lvl) in md.levels.iter().enumerate() {
+        for tbl in tbls.iter() {
+            for (lid, lvl) in tbl.metadata.levels.iter().enumerate() {
                 for part in &lvl.parts {
-                    let path = part_path(&self.path, &md.table_name, lid, part.id);
+                    let path = part_path(&self.path, &tbl.name, lid, part.id);
                     self.fs.close(&path)?;
                 }
             }
-- 
2.43.0


From f0c0a0b456e60df879ba8ac22058d6a17d1d1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 32/88] fix: break down by flags, times and small numbers

---
 src/query/src/physical_plan/limit_groups.rs | 46 +++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/query/src/physical_plan/limit_groups.rs b/src/query/src/physical_plan/limit_groups.rs
index deba152..958bda8 100644
--- a/src/query/src/physical_plan/limit_groups.rs
+++ b/src/query/src/physical_plan/limit_groups.rs
@@ -8,14 +8,20 @@ use std::task::Poll;
 
 use arrow::array::Array;
 use arrow::array::ArrayRef;
+use arrow::array::BooleanArray;
 use arrow::array::Decimal128Array;
+use arrow::array::Int16Array;
+use arrow::array::Int32Array;
 use arrow::array::Int64Array;
 use arrow::array::Int64Builder;
+use arrow::array::Int8Array;
 use arrow::array::RecordBatch;
 use arrow::array::StringArray;
+use arrow::array::TimestampMillisecondArray;
 use arrow::compute::take;
 use arrow::datatypes::DataType;
 use arrow::datatypes::SchemaRef;
+use arrow::datatypes::TimeUnit;
 use async_trait::async_trait;
 use datafusion::execution::RecordBatchStream;
 use datafusion::execution::SendableRecordBatchStream;
@@ -35,6 +41,11 @@ use crate::Result;
 
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 enum Value {
+    Boolean(Option<bool>),
+    Int8(Option<i8>),
+    Int16(Option<i16>),
+    Int32(Option<i32>),
+    Timestamp(Option<i64>),
     Int64(Option<i64>),
     Decimal(Option<i128>),
     String(Option<String>),
@@ -150,6 +161,41 @@ impl Stream for AggregateAndSortColumnsStream {
                     .take(self.groups) // get all groups, ignore agg_name
                     .zip(batch.schema().fields().iter().skip(self.skip))
                     .map(|(col, f)| match f.data_type() {
+                        DataType::Boolean => col
+                            .as_any()
+                            .downcast_ref::<BooleanArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Boolean)
+                            .collect::<Vec<_>>(),
+                        DataType::Int8 => col
+                            .as_any()
+                            .downcast_ref::<Int8Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int8)
+                            .collect::<Vec<_>>(),
+                        DataType::Int16 => col
+                            .as_any()
+                            .downcast_ref::<Int16Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int16)
+                            .collect::<Vec<_>>(),
+                        DataType::Int32 => col
+                            .as_any()
+                            .downcast_ref::<Int32Array>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Int32)
+                            .collect::<Vec<_>>(),
+                        DataType::Timestamp(TimeUnit::Millisecond, _) => col
+                            .as_any()
+                            .downcast_ref::<TimestampMillisecondArray>()
+                            .unwrap()
+                            .iter()
+                            .map(Value::Timestamp)
+                            .collect::<Vec<_>>(),
                         DataType::Int64 => col
                             .as_any()
                             .downcast_ref::<Int64Array>()
-- 
2.43.0


From a8706c7b11f728a3e744d675e4e0e6b274dd6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 33/88] fix: a missing value of a property is not a zero in an
 aggregate per user

---
 .../expressions/aggregate/partitioned/aggregate.rs           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
index ee8b263..62705bf 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/aggregate.rs
@@ -220,6 +220,11 @@ macro_rules! agg {
                         }
                     }
 
+                    // there is nothing to aggregate
+                    if predicate.is_null(row_id) {
+                        continue;
+                    }
+
                     let bucket = if let Some(groups) = &mut self.groups {
                         groups
                             .groups
-- 
2.43.0


From 7c17cdfe33bc21b4fccaf84a7c83c3c67fc36fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 34/88] fix: queries of one event do not add zeros to each
 other

---
 src/query/src/logical_plan/unpivot.rs         |  2 +-
 .../src/physical_plan/segmented_aggregate.rs  | 21 ++-----------------
 src/query/src/physical_plan/unpivot.rs        |  2 +-
 3 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/query/src/logical_plan/unpivot.rs b/src/query/src/logical_plan/unpivot.rs
index 706273a..e9cabd1 100644
--- a/src/query/src/logical_plan/unpivot.rs
+++ b/src/query/src/logical_plan/unpivot.rs
@@ -49,7 +49,7 @@ impl UnpivotNode {
 
             let name_field = Arc::new(Field::new(name_col.as_str(), DataType::Utf8, false));
             fields.push(name_field);
-            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, false));
+            let value_field = Arc::new(Field::new(value_col.as_str(), value_type, true));
             fields.push(value_field);
 
             Arc::new(DFSchema::from_unqualifed_fields(
diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index d505d7d..cc18749 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -24,8 +24,6 @@ use arrow::record_batch::RecordBatch;
 use arrow_row::SortField;
 use axum::async_trait;
 use common::types::COLUMN_PROJECT_ID;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion::execution::context::TaskContext;
 use datafusion::physical_expr::expressions::col;
 use datafusion::physical_expr::expressions::Column;
@@ -483,23 +481,8 @@ impl Stream for PartialAggregateStream {
                         |field| match batch.schema().index_of(field.name().as_str()) {
                             Ok(col_idx) => Ok(batch.column(col_idx).clone()),
                             Err(_) => {
-                                let v = match field.data_type() {
-                                    DataType::Int8 => ScalarValue::Int8(Some(0)),
-                                    DataType::Int16 => ScalarValue::Int16(Some(0)),
-                                    DataType::Int32 => ScalarValue::Int32(Some(0)),
-                                    DataType::Int64 => ScalarValue::Int64(Some(0)),
-                                    DataType::UInt8 => ScalarValue::UInt8(Some(0)),
-                                    DataType::UInt16 => ScalarValue::UInt16(Some(0)),
-                                    DataType::UInt32 => ScalarValue::UInt32(Some(0)),
-                                    DataType::UInt64 => ScalarValue::UInt64(Some(0)),
-                                    DataType::Decimal128(_, _) => ScalarValue::Decimal128(
-                                        Some(0),
-                                        DECIMAL_PRECISION,
-                                        DECIMAL_SCALE,
-                                    ),
-                                    DataType::Float64 => ScalarValue::Float64(Some(0.)),
-                                    _ => unimplemented!("{:?}", field.data_type()),
-                                };
+                                // the row has nothing to say about other aggregates
+                                let v = ScalarValue::try_from(field.data_type())?;
                                 Ok(v.to_array_of_size(batch.column(0).len())?)
                             }
                         },
diff --git a/src/query/src/physical_plan/unpivot.rs b/src/query/src/physical_plan/unpivot.rs
index 490af00..0b4477c 100644
--- a/src/query/src/physical_plan/unpivot.rs
+++ b/src/query/src/physical_plan/unpivot.rs
@@ -111,7 +111,7 @@ impl UnpivotExec {
 
             let name_field = Field::new(name_col.as_str(), DataType::Utf8, false);
             fields.push(FieldRef::new(name_field));
-            let value_field = Field::new(value_col.as_str(), value_type, false);
+            let value_field = Field::new(value_col.as_str(), value_type, true);
             fields.push(FieldRef::new(value_field));
 
             Arc::new(Schema::new(fields))
-- 
2.43.0


From ce5f8f3637277c989935a9bd1bb918ef7a7da36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 35/88] fix: an average over all users, not of the averages of
 the partitions

---
 src/query/src/physical_plan/segmented_aggregate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/src/physical_plan/segmented_aggregate.rs b/src/query/src/physical_plan/segmented_aggregate.rs
index cc18749..e330773 100644
--- a/src/query/src/physical_plan/segmented_aggregate.rs
+++ b/src/query/src/physical_plan/segmented_aggregate.rs
@@ -241,6 +241,14 @@ impl ExecutionPlan for SegmentedAggregatePartialExec {
     }
 
     fn required_input_distribution(&self) -> Vec<Distribution> {
+        // averages of partitions can't be combined into the average of all
+        let has_avg = self
+            .agg_expr
+            .iter()
+            .any(|(agg, _)| agg.lock().unwrap().op() == "avg");
+        if has_avg {
+            return vec![Distribution::SinglePartition; self.children().len()];
+        }
         // todo make it configurable, don't use project_id and user_id entities
         vec![Distribution::HashPartitioned(vec![
             Arc::new(Column::new_with_schema("project_id", &self.input.schema()).unwrap()),
-- 
2.43.0


From b7683b3716426b1a3f59a4df8534638252d5dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:26 +0000
Subject: [PATCH 36/88] fix: not equal to any of several values, and no filter
 without its values

---
 src/query/src/expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index d7c78e2..195f8ce 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -301,6 +301,8 @@ pub fn named_property_expression(
     operation: &PropValueOperation,
     values: Option<Vec<ScalarValue>>,
 ) -> Result<Expr> {
+    // a filter without values makes no sense for operations which need them
+    let values = values.filter(|values| !values.is_empty());
     match operation {
         PropValueOperation::Eq
         | PropValueOperation::Neq
@@ -336,7 +338,11 @@ pub fn named_property_expression(
                         })
                         .collect();
 
-                    multi_or(exprs)
+                    // none of the values, but any of them for other operations
+                    match operation {
+                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
+                        _ => multi_or(exprs),
+                    }
                 }
             })
         }
@@ -378,7 +384,7 @@ pub fn named_property_expression(
                         .map(|v| prop_col.to_owned().not_like(lit(v.to_owned())))
                         .collect();
 
-                    multi_or(exprs)
+                    multi_and(exprs)
                 }
             })
         }
-- 
2.43.0


From b0217b799c919678ea9d92518a89d1cbeaff3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 37/88] fix: filter by a value which no event has

---
 src/query/src/expr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 195f8ce..2be8fd4 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -24,6 +24,7 @@ use datafusion_expr::Expr;
 use datafusion_expr::ExprSchemable;
 use datafusion_expr::Operator;
 use metadata::dictionaries::Dictionaries;
+use metadata::error::MetadataError;
 use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
@@ -177,8 +178,17 @@ pub fn encode_property_dict_values(
     for value in values.iter() {
         if let ScalarValue::Utf8(inner) = value {
             if let Some(str_value) = inner {
-                let key =
-                    dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str())?;
+                let key = match dictionaries.get_key(
+                    ctx.project_id,
+                    tbl,
+                    col_name,
+                    str_value.as_str(),
+                ) {
+                    Ok(key) => key,
+                    // nothing has this value: keys start with 1
+                    Err(MetadataError::NotFound(_)) => 0,
+                    Err(err) => return Err(err.into()),
+                };
 
                 let scalar_value = match dict_type {
                     DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
-- 
2.43.0


From 1615faa4c8d2d49ff8e31d4a13344478b8456384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 38/88] fix: filters with patterns next to other filters of the
 same property

---
 src/query/src/event_records.rs      |  4 +--
 src/query/src/event_segmentation.rs | 15 ++++++-----
 src/query/src/expr.rs               | 39 ++++++++++++++++++++++++-----
 src/query/src/funnel.rs             | 10 ++++----
 src/query/src/group_records.rs      |  2 +-
 src/query/src/lib.rs                |  5 ++--
 src/query/src/properties.rs         |  3 ++-
 7 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index da18973..f858df3 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -282,14 +282,14 @@ pub fn build_search_plan(
         let mut exprs = vec![];
         for event in events {
             // event expression
-            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+            let mut expr = event_expression(&ctx, &metadata, &event.event, input.schema())?;
             // apply event filters
             if let Some(filters) = &event.filters
                 && !filters.is_empty()
             {
                 expr = and(
                     expr.clone(),
-                    event_filters_expression(&ctx, &metadata, filters)?,
+                    event_filters_expression(&ctx, &metadata, filters, input.schema())?,
                 )
             }
 
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 127c8ea..3dab0aa 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -264,7 +264,8 @@ impl LogicalPlanBuilder {
                 for conditions in segment.conditions {
                     let mut and: Option<SegmentExpr> = None;
                     for condition in conditions {
-                        let expr = builder.build_segment_condition(&condition, es.group_id)?;
+                        let expr =
+                            builder.build_segment_condition(&condition, es.group_id, &input)?;
                         and = match and {
                             None => Some(expr),
                             Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
@@ -457,6 +458,7 @@ impl LogicalPlanBuilder {
         &self,
         condition: &SegmentCondition,
         group_id: usize,
+        input: &LogicalPlan,
     ) -> Result<SegmentExpr> {
         let expr = match condition {
             SegmentCondition::HasPropertyValue { .. } => unimplemented!(),
@@ -473,6 +475,7 @@ impl LogicalPlanBuilder {
                     property,
                     operation,
                     value.to_owned(),
+                    input.schema(),
                 )?;
 
                 SegmentExpr::Count {
@@ -491,12 +494,12 @@ impl LogicalPlanBuilder {
                 aggregate,
             } => {
                 // event expression
-                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
+                let mut event_expr = event_expression(&self.ctx, &self.metadata, event, input.schema())?;
                 // apply event filters
                 if let Some(filters) = &filters {
                     event_expr = and(
                         event_expr.clone(),
-                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                        event_filters_expression(&self.ctx, &self.metadata, filters, input.schema())?,
                     )
                 }
                 match aggregate {
@@ -748,13 +751,13 @@ impl LogicalPlanBuilder {
         // event expression
         expr = and(
             expr,
-            event_expression(&self.ctx, &self.metadata, &event.event)?,
+            event_expression(&self.ctx, &self.metadata, &event.event, input.schema())?,
         );
         // apply event filters
         if let Some(filters) = &event.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, filters, input.schema())?,
             )
         }
 
@@ -762,7 +765,7 @@ impl LogicalPlanBuilder {
         if let Some(filters) = &self.es.filters {
             expr = and(
                 expr.clone(),
-                event_filters_expression(&self.ctx, &self.metadata, filters)?,
+                event_filters_expression(&self.ctx, &self.metadata, filters, input.schema())?,
             );
         }
 
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index 2be8fd4..bda54da 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -13,6 +13,7 @@ use common::query::QueryTime;
 use common::types::COLUMN_EVENT;
 use common::types::TABLE_EVENTS;
 use datafusion_common::Column;
+use datafusion_common::DFSchema;
 use datafusion_common::ExprSchema;
 use datafusion_common::ScalarValue;
 use datafusion_expr::col;
@@ -62,6 +63,7 @@ pub fn event_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
     event: &EventRef,
+    schema: &DFSchema,
 ) -> Result<Expr> {
     Ok(match &event {
         // regular event
@@ -85,20 +87,25 @@ pub fn event_expression(
             for event in e.events.iter() {
                 let mut expr = match &event.event {
                     EventRef::RegularName(name) => {
-                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
+                        event_expression(
+                            ctx,
+                            metadata,
+                            &EventRef::RegularName(name.to_owned()),
+                            schema,
+                        )?
                     }
                     EventRef::Regular(id) => {
-                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
+                        event_expression(ctx, metadata, &EventRef::Regular(*id), schema)?
                     }
                     EventRef::Custom(id) => {
-                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
+                        event_expression(ctx, metadata, &EventRef::Custom(*id), schema)?
                     }
                 };
 
                 if let Some(filters) = &event.filters {
                     expr = and(
                         expr.clone(),
-                        event_filters_expression(ctx, metadata, filters)?,
+                        event_filters_expression(ctx, metadata, filters, schema)?,
                     );
                 }
 
@@ -120,6 +127,7 @@ pub fn event_filters_expression(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
     filters: &[PropValueFilter],
+    schema: &DFSchema,
 ) -> Result<Expr> {
     // iterate over filters
     let filters_exprs = filters
@@ -137,7 +145,15 @@ pub fn event_filters_expression(
                         PropertyRef::Event(_) => TABLE_EVENTS.to_string(),
                         PropertyRef::Custom(_) => unimplemented!(),
                     };
-                    property_expression(ctx, metadata, &tbl, property, operation, value.clone())
+                    property_expression(
+                        ctx,
+                        metadata,
+                        &tbl,
+                        property,
+                        operation,
+                        value.clone(),
+                        schema,
+                    )
                 }
             }
         })
@@ -221,6 +237,7 @@ fn prop_expression(
     prop_name: &str,
     operation: &PropValueOperation,
     values: Option<Vec<ScalarValue>>,
+    schema: &DFSchema,
 ) -> Result<Expr> {
     let prop = prop.get_by_name(ctx.project_id, prop_name)?;
     let col_name = prop.column_name();
@@ -240,7 +257,14 @@ fn prop_expression(
         _ => {}
     }
 
-    if let Some(dict_type) = prop.dictionary_type {
+    // another filter may need the strings of this column, then it's already decoded
+    let decoded = schema
+        .field_with_unqualified_name(col_name.as_str())
+        .is_ok_and(|f| f.data_type() == &DataType::Utf8);
+
+    if let Some(dict_type) = prop.dictionary_type
+        && !decoded
+    {
         let dict_values = encode_property_dict_values(
             ctx,
             tbl,
@@ -263,6 +287,7 @@ pub fn property_expression(
     property: &PropertyRef,
     operation: &PropValueOperation,
     values: Option<Vec<ScalarValue>>,
+    schema: &DFSchema,
 ) -> Result<Expr> {
     match property {
         PropertyRef::Group(prop_name, group) => prop_expression(
@@ -273,6 +298,7 @@ pub fn property_expression(
             prop_name,
             operation,
             values,
+            schema,
         ),
         PropertyRef::Event(prop_name) => prop_expression(
             ctx,
@@ -282,6 +308,7 @@ pub fn property_expression(
             prop_name,
             operation,
             values,
+            schema,
         ),
         PropertyRef::Custom(_) => unimplemented!(),
     }
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 4a1bf68..fd93d10 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -259,7 +259,7 @@ pub fn build(
 
     let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
     if let Some(filters) = &req.filters {
-        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
+        expr = and(expr, event_filters_expression(&ctx, &metadata, filters, input.schema())?)
     }
     let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
 
@@ -273,9 +273,9 @@ pub fn build(
         for step in req.steps.iter() {
             let mut exprs = vec![];
             for event in step.events.iter() {
-                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
+                let mut expr = event_expression(&ctx, &metadata, &event.event, input.schema())?;
                 if let Some(filters) = &event.filters {
-                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters, input.schema())?);
                 }
                 exprs.push(expr)
             }
@@ -293,9 +293,9 @@ pub fn build(
     let exclude = if let Some(excludes) = &req.exclude {
         let mut out = vec![];
         for exclude in excludes {
-            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
+            let mut expr = event_expression(&ctx, &metadata, &exclude.event, input.schema())?;
             if let Some(filters) = &exclude.filters {
-                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
+                expr = and(expr, event_filters_expression(&ctx, &metadata, filters, input.schema())?);
             }
             let steps = if let Some(steps) = &exclude.steps {
                 let steps = match steps {
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 3cacf3e..f3edc9f 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -265,7 +265,7 @@ pub fn build_search_plan(
     }
 
     if let Some(filters) = &req.filters {
-        let expr = event_filters_expression(&ctx, &metadata, filters)?;
+        let expr = event_filters_expression(&ctx, &metadata, filters, input.schema())?;
         filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
     }
 
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 6564a0a..94bf67e 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -487,12 +487,11 @@ pub fn decode_filter_single_dictionary(
                     col_name.clone(),
                     metadata.dictionaries.clone(),
                 );
-                let col = datafusion_common::Column::from_name(col_name);
-                decode_cols.push((col, Arc::new(dict)));
-
                 if cols_hash.contains_key(prop.column_name().as_str()) {
                     return Ok(());
                 }
+                let col = datafusion_common::Column::from_name(col_name);
+                decode_cols.push((col, Arc::new(dict)));
                 cols_hash.insert(prop.column_name(), ());
             }
             _ => {}
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index c252562..03d5e86 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -129,7 +129,7 @@ impl LogicalPlanBuilder {
         );
 
         if let Some(event) = &req.event {
-            expr = and(expr, event_expression(&ctx, &metadata, event)?);
+            expr = and(expr, event_expression(&ctx, &metadata, event, input.schema())?);
         }
 
         let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
@@ -170,6 +170,7 @@ impl LogicalPlanBuilder {
                     &req.property,
                     &filter.operation,
                     filter.value.clone(),
+                    input.schema(),
                 )?,
                 Arc::new(input),
             )?),
-- 
2.43.0


From 8361ba4b5b2f8140f4410f62f230fad936e6a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 39/88] fix: filters of events in searches, of custom events
 and of excluded steps A search for events dropped the filters of the request
 and the events without filters, and didn't read the columns of the filters of
 its events. The columns of filters of custom events were never read, and
 patterns in them and in the excluded events of a funnel weren't decoded.

---
 src/query/src/event_records.rs      | 54 +++++++++++++++++++++--------
 src/query/src/event_segmentation.rs | 35 ++++++++++---------
 src/query/src/funnel.rs             | 53 ++++++++++++++++------------
 src/query/src/lib.rs                | 24 +++++++++++++
 4 files changed, 113 insertions(+), 53 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index f858df3..65a7c4e 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -51,6 +51,7 @@ use metrics::histogram;
 use storage::db::OptiDBImpl;
 use tracing::debug;
 
+use crate::all_event_filters;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
@@ -298,6 +299,17 @@ pub fn build_search_plan(
         filter_exprs.push(multi_or(exprs))
     }
 
+    if let Some(filters) = &req.filters
+        && !filters.is_empty()
+    {
+        filter_exprs.push(event_filters_expression(
+            &ctx,
+            &metadata,
+            filters,
+            input.schema(),
+        )?)
+    }
+
     let input = LogicalPlan::Filter(PlanFilter::try_new(
         multi_and(filter_exprs),
         Arc::new(input),
@@ -503,16 +515,19 @@ fn decode_filter_dictionaries(
 
     if let Some(events) = events {
         for event in events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in all_event_filters(
+                ctx,
+                metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
@@ -542,6 +557,15 @@ fn projection(
         COLUMN_CREATED_AT.to_string(),
         COLUMN_EVENT_ID.to_string(),
     ];
+    for event in req.events.iter().flatten() {
+        for filter in all_event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
+                }
+            }
+        }
+    }
     if let Some(filters) = &req.filters {
         for filter in filters {
             match filter {
@@ -584,12 +608,12 @@ pub fn fix_search_request(
                         of.push(f);
                     }
                 }
-                let e = Event {
-                    event: event.event.clone(),
-                    filters: if of.is_empty() { None } else { Some(of) },
-                };
-                oe.push(e);
             }
+            let e = Event {
+                event: event.event.clone(),
+                filters: if of.is_empty() { None } else { Some(of) },
+            };
+            oe.push(e);
         }
         out.events = Some(oe);
     }
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 3dab0aa..ac3d152 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -42,6 +42,7 @@ use metrics::histogram;
 use storage::db::OptiDBImpl;
 use tracing::debug;
 
+use crate::all_event_filters;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::context::Format;
@@ -176,12 +177,10 @@ fn projection(
     ];
 
     for event in &req.events {
-        if let Some(filters) = &event.filters {
-            for filter in filters {
-                match filter {
-                    PropValueFilter::Property { property, .. } => {
-                        fields.push(col_name(ctx, property, md)?)
-                    }
+        for filter in all_event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+            match filter {
+                PropValueFilter::Property { property, .. } => {
+                    fields.push(col_name(ctx, &property, md)?)
                 }
             }
         }
@@ -231,6 +230,7 @@ fn projection(
         }
     }
 
+    fields.sort();
     fields.dedup();
 
     Ok(fields)
@@ -555,16 +555,19 @@ impl LogicalPlanBuilder {
         let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
 
         for event in &self.es.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        &self.ctx,
-                        &self.metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in all_event_filters(
+                &self.ctx,
+                &self.metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )? {
+                decode_filter_single_dictionary(
+                    &self.ctx,
+                    &self.metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
 
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index fd93d10..99619bc 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -46,6 +46,7 @@ use rust_decimal::Decimal;
 use storage::db::OptiDBImpl;
 use tracing::debug;
 
+use crate::all_event_filters;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
@@ -436,20 +437,31 @@ fn decode_filter_dictionaries(
 
     for step in &funnel.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    decode_filter_single_dictionary(
-                        ctx,
-                        metadata,
-                        cols_hash,
-                        &mut decode_cols,
-                        filter,
-                    )?;
-                }
+            for filter in all_event_filters(
+                ctx,
+                metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )? {
+                decode_filter_single_dictionary(
+                    ctx,
+                    metadata,
+                    cols_hash,
+                    &mut decode_cols,
+                    &filter,
+                )?;
             }
         }
     }
 
+    for exclude in funnel.exclude.iter().flatten() {
+        for filter in
+            all_event_filters(ctx, metadata, &exclude.event, exclude.filters.as_ref())?
+        {
+            decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, &filter)?;
+        }
+    }
+
     if let Some(filters) = &funnel.filters {
         for filter in filters {
             decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
@@ -499,12 +511,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     for step in &req.steps {
         for event in &step.events {
-            if let Some(filters) = &event.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in all_event_filters(ctx, md, &event.event, event.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
@@ -519,12 +529,10 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
 
     if let Some(exclude) = &req.exclude {
         for e in exclude {
-            if let Some(filters) = &e.filters {
-                for filter in filters {
-                    match filter {
-                        PropValueFilter::Property { property, .. } => {
-                            fields.push(col_name(ctx, property, md)?)
-                        }
+            for filter in all_event_filters(ctx, md, &e.event, e.filters.as_ref())? {
+                match filter {
+                    PropValueFilter::Property { property, .. } => {
+                        fields.push(col_name(ctx, &property, md)?)
                     }
                 }
             }
@@ -549,6 +557,7 @@ fn projection(ctx: &Context, req: &Funnel, md: &Arc<MetadataProvider>) -> Result
         }
     }
 
+    fields.sort();
     fields.dedup();
     Ok(fields)
 }
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 94bf67e..e0fd125 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -51,6 +51,7 @@ use arrow::datatypes::SchemaRef;
 use arrow::datatypes::TimeUnit;
 use arrow2::array::Int128Array;
 use common::group_col;
+use common::query::EventRef;
 use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
@@ -501,6 +502,29 @@ pub fn decode_filter_single_dictionary(
     Ok(())
 }
 
+/// filters of the event and, if it's a custom one, of the events it's made of
+fn all_event_filters(
+    ctx: &Context,
+    metadata: &Arc<MetadataProvider>,
+    event: &EventRef,
+    filters: Option<&Vec<PropValueFilter>>,
+) -> crate::Result<Vec<PropValueFilter>> {
+    let mut out = filters.cloned().unwrap_or_default();
+    if let EventRef::Custom(id) = event {
+        let custom = metadata.custom_events.get_by_id(ctx.project_id, *id)?;
+        for event in custom.events.iter() {
+            out.extend(all_event_filters(
+                ctx,
+                metadata,
+                &event.event,
+                event.filters.as_ref(),
+            )?);
+        }
+    }
+
+    Ok(out)
+}
+
 fn segment_projection(
     ctx: &Context,
     segments: &Vec<Segment>,
-- 
2.43.0


From 828521bacb43e338a91f90de194040b95cf94322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 40/88] fix: columns of found records belong to their own
 properties With some properties requested the event id came first and shifted
 the others, without them the columns came in the order of the table.
 Dictionaries were applied to the columns by their position in the plan, not
 by name.

---
 src/query/src/event_records.rs                | 29 +++++-------------
 src/query/src/group_records.rs                | 30 +++++--------------
 src/query/src/lib.rs                          | 21 +++++++++++++
 .../src/physical_plan/dictionary_decode.rs    |  4 ++-
 4 files changed, 40 insertions(+), 44 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 65a7c4e..ef49463 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -66,6 +66,7 @@ use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::record_names;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -198,15 +199,19 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_search").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        let names = record_names(&props);
         let cols = result
             .schema()
             .fields()
             .iter()
             .enumerate()
             .map(|(idx, field)| {
-                let prop = &props[idx];
+                let property = names
+                    .iter()
+                    .position(|(_, name)| name == field.name())
+                    .map(|pos| props[pos].reference());
                 crate::Column {
-                    property: Some(prop.reference()),
+                    property,
                     name: field.name().to_owned(),
                     typ: ColumnType::Dimension,
                     is_nullable: field.is_nullable(),
@@ -404,25 +409,7 @@ pub fn build_search_plan(
         input
     };
 
-    let mut rename = vec![];
-    let mut rename_found: Vec<String> = vec![];
-    for prop in &properties {
-        let mut found = 0;
-        for f in rename_found.iter() {
-            if f == &prop.name() {
-                found += 1;
-            }
-        }
-        let col_name = prop.column_name();
-
-        let new_name = if found == 0 {
-            prop.name()
-        } else {
-            format!("{} {}", prop.name(), found + 1)
-        };
-        rename.push((col_name, new_name));
-        rename_found.push(prop.name());
-    }
+    let rename = record_names(&properties);
     let input = LogicalPlan::Extension(Extension {
         node: Arc::new(RenameColumnsNode::try_new(input, rename)?),
     });
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index f3edc9f..e7c3b29 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -61,6 +61,7 @@ use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::rename_columns::RenameColumnsNode;
+use crate::record_names;
 use crate::ColumnType;
 use crate::ColumnarDataTable;
 use crate::Context;
@@ -194,15 +195,19 @@ impl GroupRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_search").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        let names = record_names(&props);
         let cols = result
             .schema()
             .fields()
             .iter()
             .enumerate()
             .map(|(idx, field)| {
-                let prop = &props[idx];
+                let property = names
+                    .iter()
+                    .position(|(_, name)| name == field.name())
+                    .map(|pos| props[pos].reference());
                 crate::Column {
-                    property: Some(prop.reference()),
+                    property,
                     name: field.name().to_owned(),
                     typ: ColumnType::Dimension,
                     is_nullable: field.is_nullable(),
@@ -335,26 +340,7 @@ pub fn build_search_plan(
     } else {
         input
     };
-    let mut rename = vec![];
-    let mut rename_found: Vec<String> = vec![];
-    for prop in &properties {
-        let mut found = 0;
-        for f in rename_found.iter() {
-            if f == &prop.name() {
-                found += 1;
-            }
-        }
-        let col_name = prop.column_name();
-
-        let new_name = if found == 0 {
-            prop.name()
-        } else {
-            format!("{} {}", prop.name(), found + 1)
-        };
-        rename.push((col_name, new_name));
-        rename_found.push(prop.name());
-    }
-
+    let rename = record_names(&properties);
     let input = LogicalPlan::Extension(Extension {
         node: Arc::new(RenameColumnsNode::try_new(input, rename)?),
     });
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index e0fd125..289e0f0 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -74,6 +74,7 @@ use datafusion_expr::Extension;
 use datafusion_expr::LogicalPlan;
 pub use error::Result;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::properties::Property;
 use metadata::MetadataProvider;
 use storage::db::OptiDBImpl;
 use tracing::debug;
@@ -502,6 +503,26 @@ pub fn decode_filter_single_dictionary(
     Ok(())
 }
 
+/// names of the result columns of a search: names of properties, numbered if they're not unique
+pub(crate) fn record_names(properties: &[Property]) -> Vec<(String, String)> {
+    let mut names: Vec<(String, String)> = vec![];
+    for (idx, prop) in properties.iter().enumerate() {
+        let found = properties[..idx]
+            .iter()
+            .filter(|p| p.name() == prop.name())
+            .count();
+
+        let name = if found == 0 {
+            prop.name()
+        } else {
+            format!("{} {}", prop.name(), found + 1)
+        };
+        names.push((prop.column_name(), name));
+    }
+
+    names
+}
+
 /// filters of the event and, if it's a custom one, of the events it's made of
 fn all_event_filters(
     ctx: &Context,
diff --git a/src/query/src/physical_plan/dictionary_decode.rs b/src/query/src/physical_plan/dictionary_decode.rs
index a94037f..d5eb773 100644
--- a/src/query/src/physical_plan/dictionary_decode.rs
+++ b/src/query/src/physical_plan/dictionary_decode.rs
@@ -200,7 +200,9 @@ impl DictionaryDecodeStream {
                     .iter()
                     .enumerate()
                     .map(|(idx, array_ref)| {
-                        match self.decode_cols.iter().find(|(col, _)| idx == col.index()) {
+                        // inputs may have the columns in another order than it was planned
+                        let name = self.schema.field(idx).name();
+                        match self.decode_cols.iter().find(|(col, _)| name == col.name()) {
                             None => array_ref.to_owned(),
                             Some((_, dict)) => match array_ref.data_type() {
                                 DataType::Int8 => decode_array!(array_ref, Int8Array, dict),
-- 
2.43.0


From 5a6383689da4ff265fd73b9badbb9d465306d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 41/88] fix: search for groups by filters, time and order;
 records with missing values

A search for groups ignored the time when it had filters, and could not sort by
a property it didn't return. A record read by its id showed missing values as
default ones, and one which doesn't exist caused a panic.
---
 src/query/src/event_records.rs | 56 +++----------------------
 src/query/src/group_records.rs | 76 ++++++++--------------------------
 2 files changed, 22 insertions(+), 110 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index ef49463..535d96e 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::EventRef;
 use common::query::PropValueFilter;
@@ -24,8 +14,6 @@ use common::types::COLUMN_PROJECT_ID;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
 use common::types::TABLE_EVENTS;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use common::GROUPS_COUNT;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
@@ -43,6 +31,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::properties::Type;
 use metadata::MetadataProvider;
@@ -98,6 +87,9 @@ impl EventRecordsProvider {
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"event_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
 
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("event {id}")).into());
+        }
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -121,45 +113,7 @@ impl EventRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
-
+                let value = ScalarValue::try_from_array(col, 0)?;
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
                     value,
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index e7c3b29..b1298e6 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -2,16 +2,6 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::Instant;
 
-use arrow::array::Array;
-use arrow::array::BooleanArray;
-use arrow::array::Decimal128Array;
-use arrow::array::Int16Array;
-use arrow::array::Int32Array;
-use arrow::array::Int64Array;
-use arrow::array::Int8Array;
-use arrow::array::StringArray;
-use arrow::array::TimestampMillisecondArray;
-use arrow::datatypes::DataType;
 use common::group_col;
 use common::query::PropValueFilter;
 use common::query::PropertyRef;
@@ -23,8 +13,6 @@ use common::types::GROUP_COLUMN_PROJECT_ID;
 use common::types::GROUP_COLUMN_VERSION;
 use common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS;
 use common::types::METRIC_QUERY_QUERIES_TOTAL;
-use common::DECIMAL_PRECISION;
-use common::DECIMAL_SCALE;
 use datafusion_common::Column;
 use datafusion_common::ScalarValue;
 use datafusion_expr::and;
@@ -41,6 +29,7 @@ use datafusion_expr::Operator;
 use datafusion_expr::Projection;
 use datafusion_expr::Sort;
 use metadata::dictionaries::SingleDictionaryProvider;
+use metadata::error::MetadataError;
 use metadata::properties::Property;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -88,7 +77,7 @@ impl GroupRecordsProvider {
         let projection = (0..schema.fields.len()).collect::<Vec<_>>();
 
         let (session_ctx, state, plan) = initial_plan(&self.db, group_col(group_id), projection)?;
-        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id)?;
+        let plan = build_get_by_id_plan(&ctx, self.metadata.clone(), plan, group_id, id.clone())?;
         println!("{plan:?}");
         let result = execute(session_ctx, state, plan).await?;
         let duration = start.elapsed();
@@ -98,6 +87,9 @@ impl GroupRecordsProvider {
             .record(elapsed);
         counter!(METRIC_QUERY_QUERIES_TOTAL,"query"=>"group_records_get_by_id").increment(1);
         debug!("elapsed: {:?}", elapsed);
+        if result.num_rows() == 0 {
+            return Err(MetadataError::NotFound(format!("group {id}")).into());
+        }
         let mut properties = vec![];
 
         for (field, col) in result.schema().fields().iter().zip(result.columns().iter()) {
@@ -113,45 +105,7 @@ impl GroupRecordsProvider {
             }
 
             if let Some(prop) = property {
-                let value = match field.data_type() {
-                    DataType::Boolean => {
-                        let a = col.as_any().downcast_ref::<BooleanArray>().unwrap();
-                        ScalarValue::Boolean(Some(a.value(0)))
-                    }
-                    DataType::Int8 => {
-                        let a = col.as_any().downcast_ref::<Int8Array>().unwrap();
-                        ScalarValue::Int8(Some(a.value(0)))
-                    }
-                    DataType::Int16 => {
-                        let a = col.as_any().downcast_ref::<Int16Array>().unwrap();
-                        ScalarValue::Int16(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int32 => {
-                        let a = col.as_any().downcast_ref::<Int32Array>().unwrap();
-                        ScalarValue::Int32(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Int64 => {
-                        let a = col.as_any().downcast_ref::<Int64Array>().unwrap();
-                        ScalarValue::Int64(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Utf8 => {
-                        let a = col.as_any().downcast_ref::<StringArray>().unwrap();
-                        ScalarValue::Utf8(Some(a.value(0).to_owned()))
-                    }
-                    DataType::Decimal128(_, _) => {
-                        let a = col.as_any().downcast_ref::<Decimal128Array>().unwrap();
-                        ScalarValue::Decimal128(Some(a.value(0)), DECIMAL_PRECISION, DECIMAL_SCALE)
-                    }
-                    DataType::Timestamp(_, _) => {
-                        let a = col
-                            .as_any()
-                            .downcast_ref::<TimestampMillisecondArray>()
-                            .unwrap();
-                        ScalarValue::TimestampMillisecond(Some(a.value(0)), None).to_owned()
-                    }
-                    _ => unimplemented!("unimplemented {}", field.data_type().to_string()),
-                };
-
+                let value = ScalarValue::try_from_array(col, 0)?;
                 properties.push(PropertyAndValue {
                     property: prop.reference(),
                     value,
@@ -271,7 +225,7 @@ pub fn build_search_plan(
 
     if let Some(filters) = &req.filters {
         let expr = event_filters_expression(&ctx, &metadata, filters, input.schema())?;
-        filter_exprs = vec![and(filter_exprs[0].clone(), expr)];
+        filter_exprs.push(expr);
     }
 
     let input = LogicalPlan::Filter(PlanFilter::try_new(
@@ -279,12 +233,6 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
-    let input = if exprs.is_empty() {
-        input
-    } else {
-        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
-    };
-
     let input = if let Some((prop, sort)) = &req.sort {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(property_col(&ctx, &metadata, prop)?),
@@ -301,6 +249,12 @@ pub fn build_search_plan(
         input
     };
 
+    let input = if exprs.is_empty() {
+        input
+    } else {
+        LogicalPlan::Projection(Projection::try_new(exprs, Arc::new(input))?)
+    };
+
     let input = LogicalPlan::Limit(Limit {
         skip: 0,
         fetch: Some(100),
@@ -464,6 +418,10 @@ fn projection(
         }
     }
 
+    if let Some((prop, _)) = &req.sort {
+        fields.push(col_name(ctx, prop, md)?);
+    }
+
     for prop in req.properties.clone().unwrap() {
         fields.push(col_name(ctx, &prop, md)?);
     }
-- 
2.43.0


From 3cf3125f5bac48d258b33c8597d5d1b4d9bc5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:46 +0000
Subject: [PATCH 42/88] fix: decimals and times in filters of custom events

The scale of a decimal wasn't stored but assumed, filters by time kept the
number they came with, and several times in one filter multiplied.
---
 src/metadata/src/custom_events.rs | 16 ++++++++++++++--
 src/query/src/expr.rs             |  5 +++++
 src/query/src/lib.rs              | 19 +++----------------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index 861dc85..cab6457 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -337,6 +337,16 @@ pub struct UpdateCustomEventRequest {
     pub events: OptionalProperty<Vec<Event>>,
 }
 
+// the scale isn't stored, decimals are read with the default one
+fn to_default_scale(v: i128, scale: i8) -> i128 {
+    let factor = 10i128.saturating_pow(DECIMAL_SCALE.abs_diff(scale) as u32);
+    if scale <= DECIMAL_SCALE {
+        v.saturating_mul(factor)
+    } else {
+        v / factor
+    }
+}
+
 fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
     let status = match v.status {
         Status::Enabled => custom_event::Status::Enabled as i32,
@@ -418,13 +428,15 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                                         bool: v.map(|v| v as u32),
                                         timestamp: None,
                                     },
-                                    ScalarValue::Decimal128(v, _, _) => custom_event::Value {
+                                    ScalarValue::Decimal128(v, _, scale) => custom_event::Value {
                                         string: None,
                                         int8: None,
                                         int16: None,
                                         int32: None,
                                         int64: None,
-                                        decimal: v.map(|v| v.to_le_bytes().to_vec()),
+                                        decimal: v
+                                            .map(|v| to_default_scale(v, *scale))
+                                            .map(|v| v.to_le_bytes().to_vec()),
                                         bool: None,
                                         timestamp: None,
                                     },
diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index bda54da..cf83d19 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -30,6 +30,7 @@ use metadata::properties::DictionaryType;
 use metadata::MetadataProvider;
 
 use crate::error::QueryError;
+use crate::fix_filter;
 use crate::logical_plan::expr::lit_timestamp;
 use crate::logical_plan::expr::multi_and;
 use crate::logical_plan::expr::multi_or;
@@ -103,6 +104,10 @@ pub fn event_expression(
                 };
 
                 if let Some(filters) = &event.filters {
+                    let filters = &filters
+                        .iter()
+                        .map(|filter| fix_filter(metadata, ctx.project_id, filter))
+                        .collect::<Result<Vec<_>>>()?;
                     expr = and(
                         expr.clone(),
                         event_filters_expression(ctx, metadata, filters, schema)?,
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index 289e0f0..d30fcf3 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -633,22 +633,9 @@ pub fn fix_filter(
             if let Some(value) = value {
                 for value in value {
                     match (&prop.data_type, value) {
-                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
-                            match filter.clone() {
-                                PropValueFilter::Property { value, .. } => {
-                                    for value in value.unwrap().iter() {
-                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
-                                            let sv = ScalarValue::TimestampMillisecond(
-                                                Some(*ts as i64),
-                                                None,
-                                            );
-                                            ev.push(sv);
-                                        } else {
-                                            unreachable!()
-                                        }
-                                    }
-                                }
-                            };
+                        (&DType::Timestamp, &ScalarValue::Decimal128(Some(ts), _, scale)) => {
+                            let ts = ts / 10i128.pow(scale.max(0) as u32);
+                            ev.push(ScalarValue::TimestampMillisecond(Some(ts as i64), None));
                         }
                         _ => ev.push(value.to_owned()),
                     }
-- 
2.43.0


From f1218828bfa917460b103ef5ac8efd18dbe34e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 43/88] fix: events by name and group properties by id The
 handlers did not take the parameters of their paths as the routes give them:
 the event by name failed always, the group property by id took the id for the
 group (and panicked for large ones).

---
 src/platform/src/http/events.rs     | 3 +--
 src/platform/src/http/properties.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/http/events.rs b/src/platform/src/http/events.rs
index 0837c3c..064b794 100644
--- a/src/platform/src/http/events.rs
+++ b/src/platform/src/http/events.rs
@@ -38,8 +38,7 @@ async fn get_by_id(
 async fn get_by_name(
     ctx: Context,
     Extension(provider): Extension<Arc<Events>>,
-    Path(project_id): Path<u64>,
-    Path(event_name): Path<String>,
+    Path((project_id, event_name)): Path<(u64, String)>,
 ) -> Result<Json<Event>> {
     Ok(Json(
         provider.get_by_name(ctx, project_id, &event_name).await?,
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index c906d5e..8ad8c1e 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -29,7 +29,7 @@ async fn get_event_by_id(
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
-    Path((project_id, property_id, group_id)): Path<(u64, u64, usize)>,
+    Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
         provider.groups[group_id]
-- 
2.43.0


From 67f1a1217b1e056898d1b2cc156d8e40d2e70bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 44/88] fix: a role in an organization is for the projects of
 that organization An owner or administrator of any organization was allowed
 everything in the projects of all other organizations.

---
 src/platform/src/context.rs  | 27 ++++++++++++++++++++++-----
 src/platform/src/http/mod.rs |  1 +
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/platform/src/context.rs b/src/platform/src/context.rs
index 7ca36ff..3a2dffb 100644
--- a/src/platform/src/context.rs
+++ b/src/platform/src/context.rs
@@ -27,6 +27,8 @@ use crate::Result;
 pub struct Context {
     pub account_id: u64,
     pub organization_id: u64,
+    /// projects of the organization
+    pub organization_projects: Vec<u64>,
     pub force_update_password: bool,
     pub force_update_email: bool,
     pub role: Option<Role>,
@@ -102,11 +104,14 @@ impl Context {
         if self.check_permission(Permission::ManageProjects).is_ok() {
             return Ok(());
         }
-        if let Ok(role) = self.get_organization_role(org_id) {
-            match role {
-                OrganizationRole::Owner => return Ok(()),
-                OrganizationRole::Admin => return Ok(()),
-                OrganizationRole::Member => {}
+        // the role in the organization is for the projects of that organization only
+        if org_id == self.organization_id && self.organization_projects.contains(&project_id) {
+            if let Ok(role) = self.get_organization_role(org_id) {
+                match role {
+                    OrganizationRole::Owner => return Ok(()),
+                    OrganizationRole::Admin => return Ok(()),
+                    OrganizationRole::Member => {}
+                }
             }
         }
 
@@ -179,10 +184,22 @@ where S: Send + Sync
                 .await
                 .map_err(|err| PlatformError::Internal(err.to_string()))?;
 
+        let Extension(md_proj_prov) =
+            Extension::<Arc<metadata::projects::Projects>>::from_request_parts(parts, state)
+                .await
+                .map_err(|err| PlatformError::Internal(err.to_string()))?;
+
         let acc = md_acc_prov.get_by_id(claims.account_id)?;
+        let organization_projects = md_proj_prov
+            .list()?
+            .into_iter()
+            .filter(|p| p.organization_id == claims.organization_id)
+            .map(|p| p.id)
+            .collect();
         let ctx = Context {
             account_id: acc.id,
             organization_id: claims.organization_id,
+            organization_projects,
             force_update_password: acc.force_update_password,
             force_update_email: acc.force_update_email,
             role: acc.role,
diff --git a/src/platform/src/http/mod.rs b/src/platform/src/http/mod.rs
index 101ac02..0e768a4 100644
--- a/src/platform/src/http/mod.rs
+++ b/src/platform/src/http/mod.rs
@@ -79,6 +79,7 @@ pub fn attach_routes(
         .layer(Extension(platform.backups.clone()))
         .layer(Extension(platform.settings.clone()))
         .layer(Extension(md.accounts.clone()))
+        .layer(Extension(md.projects.clone()))
         .layer(Extension(md.settings.clone()))
         .layer(Extension(platform.accounts.clone()))
         .layer(Extension(platform.auth.clone()))
-- 
2.43.0


From 887c6abeb524c5ed894deab190c27344e4192355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 45/88] fix: an update of an account needs not contain all of
 its fields

---
 src/platform/src/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 645cb7f..9e83618 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -162,13 +162,22 @@ pub struct CreateAccountRequest {
 #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 #[serde(rename_all = "camelCase")]
 pub struct UpdateAccountRequest {
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub salt: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub password: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub email: OptionalProperty<String>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub name: OptionalProperty<Option<String>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub force_update_password: OptionalProperty<bool>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub role: OptionalProperty<Option<Role>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub organizations: OptionalProperty<Option<Vec<(u64, OrganizationRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub projects: OptionalProperty<Option<Vec<(u64, ProjectRole)>>>,
+    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")]
     pub teams: OptionalProperty<Option<Vec<(u64, Role)>>>,
 }
-- 
2.43.0


From c614521d651340cd351185ad5c5935732b2575aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 46/88] fix: an update of an account can require a new password

---
 src/platform/src/accounts.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platform/src/accounts.rs b/src/platform/src/accounts.rs
index 9e83618..cdf4662 100644
--- a/src/platform/src/accounts.rs
+++ b/src/platform/src/accounts.rs
@@ -71,6 +71,7 @@ impl Accounts {
             updated_by: ctx.account_id,
             email: req.email,
             name: req.name,
+            force_update_password: req.force_update_password,
             role: req.role,
             organizations: req.organizations,
             projects: req.projects,
-- 
2.43.0


From 3f1f1c943fcbeb077bc7544fd4d2952ebe756cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 47/88] fix: set no e-mail address one can't log in with

---
 src/platform/src/auth/provider.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/platform/src/auth/provider.rs b/src/platform/src/auth/provider.rs
index 7055321..2a3abb5 100644
--- a/src/platform/src/auth/provider.rs
+++ b/src/platform/src/auth/provider.rs
@@ -295,6 +295,10 @@ impl Auth {
     }
 
     pub async fn set_email(&self, ctx: Context, req: SetEmailRequest) -> Result<TokensResponse> {
+        if !validate_email(&req.email) {
+            return Err(PlatformError::invalid_field("email", "invalid email"));
+        }
+
         let account = self.md.accounts.get_by_id(ctx.account_id)?;
         if !account.force_update_email {
             return Err(PlatformError::Forbidden("forbidden".to_string()));
-- 
2.43.0


From 5e77e7c47f30b2ba9b5ba5a441d64457b26de8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 48/88] fix: settings an update did not take over

---
 src/platform/src/settings.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/platform/src/settings.rs b/src/platform/src/settings.rs
index 1f20941..1c6019c 100644
--- a/src/platform/src/settings.rs
+++ b/src/platform/src/settings.rs
@@ -27,6 +27,9 @@ impl SettingsProvider {
         if let Some(v) = req.auth_refresh_token {
             settings.auth_refresh_token = v;
         }
+        if let Some(v) = req.auth_admin_default_password {
+            settings.auth_admin_default_password = v;
+        }
         if let Some(v) = req.backup_enabled {
             settings.backup_enabled = v;
         }
@@ -73,6 +76,29 @@ impl SettingsProvider {
         if let Some(v) = req.backup_provider_gcp_path {
             settings.backup_provider_gcp_path = v;
         }
+        if let Some(v) = req.backup_provider_gcp_key {
+            settings.backup_provider_gcp_key = v;
+        }
+        if let Some(v) = req.backup_schedule_interval {
+            settings.backup_schedule_interval = match v {
+                BackupScheduleInterval::Hourly => {
+                    metadata::settings::BackupScheduleInterval::Hourly
+                }
+                BackupScheduleInterval::Daily => metadata::settings::BackupScheduleInterval::Daily,
+                BackupScheduleInterval::Weekly => {
+                    metadata::settings::BackupScheduleInterval::Weekly
+                }
+                BackupScheduleInterval::Monthly => {
+                    metadata::settings::BackupScheduleInterval::Monthly
+                }
+                BackupScheduleInterval::Yearly => {
+                    metadata::settings::BackupScheduleInterval::Yearly
+                }
+            }
+        }
+        if let Some(v) = req.backup_schedule_start_hour {
+            settings.backup_schedule_start_hour = v;
+        }
 
         self.prov.save(&settings)?;
 
-- 
2.43.0


From 1cdb8d941078355ecd2784d2bc3c0fec0b31ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 49/88] fix: refuse an hour of backups that is on no clock

The scheduler of the backups panics on it and makes no backups any more.
---
 src/metadata/src/settings.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata/src/settings.rs b/src/metadata/src/settings.rs
index 2ebc261..fd3198b 100644
--- a/src/metadata/src/settings.rs
+++ b/src/metadata/src/settings.rs
@@ -81,6 +81,12 @@ impl Settings {
             ));
         }
 
+        if self.backup_schedule_start_hour > 23 {
+            return Err(MetadataError::BadRequest(
+                "backup schedule start hour must be less than 24".to_string(),
+            ));
+        }
+
         match self.backup_provider {
             BackupProvider::Local => {}
             BackupProvider::S3 => {
-- 
2.43.0


From 3f02dbf9d1f530a6fcc9e7a8820d0ee1bd4798d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 50/88] fix: the steps of an exclusion are numbered alike both
 ways

---
 src/platform/src/funnel.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 5a64fe5..b8ef77b 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -200,12 +200,13 @@ pub(crate) fn validate_request(
             match &exclude.steps {
                 Some(steps) => match steps {
                     ExcludeSteps::Between { from, to } => {
-                        if *from >= req.steps.len() {
+                        // steps are numbered from 1 here
+                        if *from < 1 || *from > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: from step index out of range".to_string(),
                             ));
                         }
-                        if *to >= req.steps.len() {
+                        if *to < 1 || *to > req.steps.len() {
                             return Err(PlatformError::BadRequest(
                                 "exclude: to step index out of range".to_string(),
                             ));
@@ -510,7 +511,10 @@ impl Into<ExcludeSteps> for common::funnel::ExcludeSteps {
     fn into(self) -> ExcludeSteps {
         match self {
             common::funnel::ExcludeSteps::All => ExcludeSteps::All,
-            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between { from, to },
+            common::funnel::ExcludeSteps::Between(from, to) => ExcludeSteps::Between {
+                from: from + 1,
+                to: to + 1,
+            },
         }
     }
 }
-- 
2.43.0


From c2e13531b0e92100b563810a16c5dba212ff79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 51/88] fix: values of filters read back as they were given

Integers lost what a float has no bits for, decimals of custom events were cut to 64 bits or failed, and null failed.
---
 src/metadata/src/custom_events.rs | 12 +++++++++++-
 src/platform/src/lib.rs           | 25 +++++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/metadata/src/custom_events.rs b/src/metadata/src/custom_events.rs
index cab6457..f9c2ffd 100644
--- a/src/metadata/src/custom_events.rs
+++ b/src/metadata/src/custom_events.rs
@@ -418,6 +418,16 @@ fn serialize(v: &CustomEvent) -> Result<Vec<u8>> {
                         let v = if let Some(v) = value {
                             v.iter()
                                 .map(|v| match v {
+                                    ScalarValue::Null => custom_event::Value {
+                                        string: None,
+                                        int8: None,
+                                        int16: None,
+                                        int32: None,
+                                        int64: None,
+                                        decimal: None,
+                                        bool: None,
+                                        timestamp: None,
+                                    },
                                     ScalarValue::Boolean(v) => custom_event::Value {
                                         string: None,
                                         int8: None,
@@ -607,7 +617,7 @@ fn deserialize(data: &[u8]) -> Result<CustomEvent> {
                 } else if let Some(v) = value.timestamp {
                     ScalarValue::TimestampMillisecond(Some(v), None)
                 } else {
-                    unimplemented!()
+                    ScalarValue::Null
                 };
                 vals.push(v);
             }
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index d5e934b..e9dd0ab 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -310,22 +310,39 @@ pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
         Value::Number(n) => {
-            let dec = Decimal::try_from(n.as_f64().unwrap()).unwrap();
+            // integers are taken exactly, as a float has only 53 bits for them
+            let dec = match (n.as_i64(), n.as_u64()) {
+                (Some(v), _) => Decimal::from(v),
+                (None, Some(v)) => Decimal::from(v),
+                _ => Decimal::try_from(n.as_f64().unwrap()).unwrap(),
+            };
             ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, dec.scale() as i8)
         }
         Value::String(v) => ScalarValue::Utf8(Some(v.to_string())),
+        Value::Null => ScalarValue::Null,
         _ => unreachable!("unexpected value"),
     }
 }
 
 pub fn scalar_to_json_value(v: &ScalarValue) -> Value {
     match v {
+        ScalarValue::Null => Value::Null,
         ScalarValue::Decimal128(None, _, _) => Value::Null,
         ScalarValue::Boolean(None) => Value::Null,
         ScalarValue::Utf8(None) => Value::Null,
-        ScalarValue::Decimal128(Some(v), _p, s) => Value::Number(
-            Number::from_f64(Decimal::new(*v as i64, *s as u32).to_f64().unwrap()).unwrap(),
-        ),
+        ScalarValue::Decimal128(Some(v), _p, s) => {
+            // mantissa of Decimal has only 96 bits
+            let (mut v, mut s) = (*v, *s as u32);
+            while s > 0 && v % 10 == 0 {
+                v /= 10;
+                s -= 1;
+            }
+            let dec = Decimal::from_i128_with_scale(v, s);
+            match dec.to_i64() {
+                Some(v) if dec.scale() == 0 => Value::Number(Number::from(v)),
+                _ => Value::Number(Number::from_f64(dec.to_f64().unwrap()).unwrap()),
+            }
+        }
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Utf8(Some(v)) => Value::String(v.to_owned()),
         _ => unreachable!("unexpected value"),
-- 
2.43.0


From 5cca3bfe21285f7391f412441f726d72f4e3f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 52/88] fix: an absent number in records is null, not zero

---
 src/platform/src/lib.rs | 59 +++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index e9dd0ab..b0f0bb9 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -164,19 +164,6 @@ macro_rules! arr_to_json_values {
     }};
 }
 
-#[macro_export]
-macro_rules! int_arr_to_json_values {
-    ($array_ref:expr,$array_type:ident) => {{
-        let arr = $array_ref.as_any().downcast_ref::<$array_type>().unwrap();
-        arr.iter()
-            .map(|value| match value {
-                None => Value::Number(Number::from_f64(0.0).unwrap()),
-                Some(v) => json!(v),
-            })
-            .collect()
-    }};
-}
-
 pub fn scalar_to_json(v: &ScalarValue) -> Value {
     if v.is_null() {
         return Value::Null;
@@ -211,31 +198,26 @@ pub fn scalar_to_json(v: &ScalarValue) -> Value {
 }
 pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
     match arr.data_type() {
-        arrow::datatypes::DataType::Int8 => int_arr_to_json_values!(arr, Int8Array),
-        arrow::datatypes::DataType::Int16 => int_arr_to_json_values!(arr, Int16Array),
-        arrow::datatypes::DataType::Int32 => int_arr_to_json_values!(arr, Int32Array),
-        arrow::datatypes::DataType::Int64 => int_arr_to_json_values!(arr, Int64Array),
-        arrow::datatypes::DataType::UInt8 => int_arr_to_json_values!(arr, UInt8Array),
-        arrow::datatypes::DataType::UInt16 => int_arr_to_json_values!(arr, UInt16Array),
-        arrow::datatypes::DataType::UInt32 => int_arr_to_json_values!(arr, UInt32Array),
-        arrow::datatypes::DataType::UInt64 => int_arr_to_json_values!(arr, UInt64Array),
+        arrow::datatypes::DataType::Int8 => arr_to_json_values!(arr, Int8Array),
+        arrow::datatypes::DataType::Int16 => arr_to_json_values!(arr, Int16Array),
+        arrow::datatypes::DataType::Int32 => arr_to_json_values!(arr, Int32Array),
+        arrow::datatypes::DataType::Int64 => arr_to_json_values!(arr, Int64Array),
+        arrow::datatypes::DataType::UInt8 => arr_to_json_values!(arr, UInt8Array),
+        arrow::datatypes::DataType::UInt16 => arr_to_json_values!(arr, UInt16Array),
+        arrow::datatypes::DataType::UInt32 => arr_to_json_values!(arr, UInt32Array),
+        arrow::datatypes::DataType::UInt64 => arr_to_json_values!(arr, UInt64Array),
         arrow::datatypes::DataType::Float32 => {
             let arr = arr.as_any().downcast_ref::<Float32Array>().unwrap();
             arr.iter()
                 .map(|value| {
-                    match value {
-                        None => Value::Number(Number::from_f64(0.0).unwrap()),
-                        Some(_) => {
-                            // https://stackoverflow.com/questions/73871891/how-to-serialize-a-struct-containing-f32-using-serde-json
-                            json!(value.map(|v| (v as f64 * 1000000.0).trunc() / 1000000.0))
-                        }
-                    }
+                    // https://stackoverflow.com/questions/73871891/how-to-serialize-a-struct-containing-f32-using-serde-json
+                    json!(value.map(|v| (v as f64 * 1000000.0).trunc() / 1000000.0))
                 })
                 .collect()
 
             // arr_to_json_values!(arr, Float32Array)
         }
-        arrow::datatypes::DataType::Float64 => int_arr_to_json_values!(arr, Float64Array),
+        arrow::datatypes::DataType::Float64 => arr_to_json_values!(arr, Float64Array),
         arrow::datatypes::DataType::Boolean => arr_to_json_values!(arr, BooleanArray),
         arrow::datatypes::DataType::Utf8 => arr_to_json_values!(arr, StringArray),
         arrow::datatypes::DataType::Timestamp(TIME_UNIT, _) => {
@@ -245,7 +227,7 @@ pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
             let arr = arr.as_any().downcast_ref::<Decimal128Array>().unwrap();
             arr.iter()
                 .map(|value| match value {
-                    None => Value::Number(Number::from_f64(0.0).unwrap()),
+                    None => Value::Null,
                     Some(v) => {
                         let d = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                             .round_dp(ROUND_DIGITS.into());
@@ -270,6 +252,19 @@ pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
     }
 }
 
+// a metric which has nothing to count is zero, while a dimension may have no value
+fn column_to_json_values(column: &query::Column) -> Vec<Value> {
+    let mut data = array_ref_to_json_values(&column.data);
+    if let query::ColumnType::Metric = column.typ
+        && column.data.data_type().is_numeric()
+    {
+        for value in data.iter_mut().filter(|value| value.is_null()) {
+            *value = Value::Number(Number::from_f64(0.0).unwrap());
+        }
+    }
+    data
+}
+
 #[derive(Serialize, Deserialize, Default, Debug, Eq, PartialEq)]
 #[serde(rename_all = "camelCase")]
 pub struct ResponseMetadata {
@@ -630,7 +625,7 @@ impl QueryResponse {
             .iter()
             .cloned()
             .map(|column| {
-                let data = array_ref_to_json_values(&column.data);
+                let data = column_to_json_values(&column);
                 Column {
                     property: column.property.map(|p| p.into()),
                     typ: column.typ.into(),
@@ -650,7 +645,7 @@ impl QueryResponse {
         let data = columns
             .iter()
             .cloned()
-            .map(|column| array_ref_to_json_values(&column.data))
+            .map(|column| column_to_json_values(&column))
             .collect::<Vec<_>>();
 
         Ok(Self::JSONCompact(JSONCompactQueryResponse(data)))
-- 
2.43.0


From 31bb1f797d56f12ed361b30997213520d08f1b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 53/88] fix: integers of 32 bits can be compared

---
 src/platform/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index b0f0bb9..54bee43 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1468,7 +1468,12 @@ pub fn validate_event_filter_property(
         | PropValueOperation::Gte
         | PropValueOperation::Lt
         | PropValueOperation::Lte => match prop.data_type {
-            DType::Int8 | DType::Int16 | DType::Int64 | DType::Decimal | DType::Timestamp => {}
+            DType::Int8
+            | DType::Int16
+            | DType::Int32
+            | DType::Int64
+            | DType::Decimal
+            | DType::Timestamp => {}
             _ => {
                 return Err(PlatformError::BadRequest(format!(
                     "{err_prefix}property \"{}\" is not numeric, but operation is \"{:?}\"",
-- 
2.43.0


From a2c9fdd271fd5da49adb51831e1ac1d2548d15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 54/88] fix: group records are sorted as asked

---
 src/platform/src/group_records.rs | 19 ++++++++++++++++++-
 src/query/src/group_records.rs    | 25 +++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 4b3ddc2..7df5c18 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -135,7 +135,24 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
                     .map(|prop| prop.to_owned().into())
                     .collect::<Vec<_>>()
             }),
-            sort: None,
+            sort: self.sort.map(|sort| match sort {
+                SortablePropertyRef::Group {
+                    property_name,
+                    group,
+                    direction,
+                } => (
+                    common::query::PropertyRef::Group(property_name, group),
+                    direction,
+                ),
+                SortablePropertyRef::Event {
+                    property_name,
+                    direction,
+                } => (common::query::PropertyRef::Event(property_name), direction),
+                SortablePropertyRef::Custom {
+                    property_id,
+                    direction,
+                } => (common::query::PropertyRef::Custom(property_id), direction),
+            }),
         }
     }
 }
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index b1298e6..daa331a 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -233,6 +233,31 @@ pub fn build_search_plan(
         Arc::new(input),
     )?);
 
+    // order of dictionary keys isn't the order of values
+    let input = match &req.sort {
+        Some((PropertyRef::Group(name, group), _)) => {
+            let prop = metadata.group_properties[*group].get_by_name(ctx.project_id, name)?;
+            if prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()) {
+                let dict = SingleDictionaryProvider::new(
+                    ctx.project_id,
+                    group_col(*group),
+                    prop.column_name(),
+                    metadata.dictionaries.clone(),
+                );
+                cols_hash.insert(prop.column_name(), ());
+                LogicalPlan::Extension(Extension {
+                    node: Arc::new(DictionaryDecodeNode::try_new(input, vec![(
+                        Column::from_name(prop.column_name()),
+                        Arc::new(dict),
+                    )])?),
+                })
+            } else {
+                input
+            }
+        }
+        _ => input,
+    };
+
     let input = if let Some((prop, sort)) = &req.sort {
         let s = Expr::Sort(expr::Sort {
             expr: Box::new(property_col(&ctx, &metadata, prop)?),
-- 
2.43.0


From 2c51ade5171c265d1884156d06d73df731281d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 55/88] fix: a request with no groups of filters has no filters

---
 src/platform/src/event_records.rs      | 21 +++++++++------------
 src/platform/src/event_segmentation.rs | 21 +++++++++------------
 src/platform/src/funnel.rs             | 14 ++++++++------
 src/platform/src/group_records.rs      | 21 +++++++++------------
 4 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 4eed8b4..cb32ca8 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -176,18 +176,15 @@ impl Into<event_records::EventRecordsSearchRequest> for EventRecordsSearchReques
             }),
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             properties: self.properties.map(|props| {
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 095dfd0..2e741bb 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -466,18 +466,15 @@ impl Into<common::event_segmentation::EventSegmentationRequest> for EventSegment
             events: self.events.iter().map(|v| v.into()).collect::<Vec<_>>(),
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             breakdowns: self.breakdowns.map_or_else(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index b8ef77b..ca70832 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -749,12 +749,14 @@ impl Into<common::funnel::Funnel> for FunnelRequest {
             segments: self
                 .segments
                 .map(|s| s.iter().map(|s| s.to_owned().into()).collect::<Vec<_>>()),
-            filters: self.filters.map(|v| {
-                v.groups[0]
-                    .filters
-                    .iter()
-                    .map(|f| f.to_owned().into())
-                    .collect::<Vec<_>>()
+            filters: self.filters.and_then(|v| {
+                v.groups.first().map(|group| {
+                    group
+                        .filters
+                        .iter()
+                        .map(|f| f.to_owned().into())
+                        .collect::<Vec<_>>()
+                })
             }),
         }
     }
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 7df5c18..e72eb91 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -115,18 +115,15 @@ impl Into<group_records::GroupRecordsSearchRequest> for GroupRecordsSearchReques
             group_id: self.group,
             filters: self.filters.map_or_else(
                 || None,
-                |v| {
-                    if v.groups[0].filters.is_empty() {
-                        None
-                    } else {
-                        Some(
-                            v.groups[0]
-                                .filters
-                                .iter()
-                                .map(|v| v.to_owned().into())
-                                .collect::<Vec<_>>(),
-                        )
-                    }
+                |v| match v.groups.first() {
+                    Some(group) if !group.filters.is_empty() => Some(
+                        group
+                            .filters
+                            .iter()
+                            .map(|v| v.to_owned().into())
+                            .collect::<Vec<_>>(),
+                    ),
+                    _ => None,
                 },
             ),
             properties: self.properties.map(|props| {
-- 
2.43.0


From f1a4fa4ba6d6c16fb2a8b4090b8a339e6e7f444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 56/88] fix: values of properties are found by filters of any
 type and for custom events

---
 src/query/src/properties.rs | 75 +++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 7 deletions(-)

diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 03d5e86..b06373f 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 use arrow::array::ArrayRef;
 use common::group_col;
 use common::query::EventRef;
+use common::query::PropValueFilter;
 use common::query::PropValueOperation;
 use common::query::PropertyRef;
 use common::types::COLUMN_EVENT;
@@ -36,12 +37,15 @@ use metrics::histogram;
 use storage::db::OptiDBImpl;
 use tracing::debug;
 
+use crate::all_event_filters;
 use crate::col_name;
+use crate::decode_filter_single_dictionary;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
 use crate::expr::event_expression;
 use crate::expr::property_expression;
+use crate::fix_filter;
 use crate::initial_plan;
 use crate::logical_plan::dictionary_decode::DictionaryDecodeNode;
 use crate::Context;
@@ -59,11 +63,14 @@ impl PropertiesProvider {
     pub async fn values(&self, ctx: Context, req: PropertyValues) -> Result<ArrayRef> {
         let start = Instant::now();
         let schema = self.db.schema1(TABLE_EVENTS)?;
+        let req = fix_request(&self.metadata, ctx.project_id, req)?;
         let projection = projection(&ctx, &req, &self.metadata)?;
-        let projection = projection
+        let mut projection: Vec<usize> = projection
             .iter()
             .map(|x| schema.index_of(x).unwrap())
             .collect();
+        projection.sort();
+        projection.dedup();
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let plan = LogicalPlanBuilder::build(ctx, self.metadata.clone(), plan, req.clone())?;
@@ -84,7 +91,7 @@ impl PropertiesProvider {
 pub struct LogicalPlanBuilder {}
 
 macro_rules! property_col {
-    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr) => {{
+    ($ctx:expr,$md:expr,$tbl:expr,$input:expr,$prop:expr,$decoded:expr) => {{
         let col_name = $prop.column_name();
         let expr = col(col_name.as_str());
         let _aggr_schema = DFSchema::new_with_metadata(
@@ -95,7 +102,7 @@ macro_rules! property_col {
         let input = LogicalPlan::Aggregate(agg_fn);
 
         match $prop.dictionary_type {
-            Some(_) => {
+            Some(_) if !$decoded.contains_key(&col_name) => {
                 let dict = SingleDictionaryProvider::new(
                     $ctx.project_id,
                     $tbl,
@@ -110,7 +117,7 @@ macro_rules! property_col {
                     )])?),
                 })
             }
-            None => input,
+            _ => input,
         }
     }};
 }
@@ -128,6 +135,27 @@ impl LogicalPlanBuilder {
             lit(ScalarValue::from(ctx.project_id as i64)),
         );
 
+        let mut decoded: HashMap<String, ()> = HashMap::new();
+        let mut decode_cols: Vec<(Column, Arc<SingleDictionaryProvider>)> = Vec::new();
+        if let Some(event) = &req.event {
+            for filter in all_event_filters(&ctx, &metadata, event, None)? {
+                decode_filter_single_dictionary(
+                    &ctx,
+                    &metadata,
+                    &mut decoded,
+                    &mut decode_cols,
+                    &filter,
+                )?;
+            }
+        }
+        let input = if decode_cols.is_empty() {
+            input
+        } else {
+            LogicalPlan::Extension(Extension {
+                node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols)?),
+            })
+        };
+
         if let Some(event) = &req.event {
             expr = and(expr, event_expression(&ctx, &metadata, event, input.schema())?);
         }
@@ -140,7 +168,7 @@ impl LogicalPlanBuilder {
                     metadata.group_properties[*group].get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, group_col(*group), input, prop),
+                    property_col!(ctx, metadata, group_col(*group), input, prop, decoded),
                     col_name,
                 )
             }
@@ -150,7 +178,14 @@ impl LogicalPlanBuilder {
                     .get_by_name(ctx.project_id, prop_name)?;
                 let col_name = prop.column_name();
                 (
-                    property_col!(ctx, metadata, TABLE_EVENTS.to_string(), input, prop),
+                    property_col!(
+                        ctx,
+                        metadata,
+                        TABLE_EVENTS.to_string(),
+                        input,
+                        prop,
+                        decoded
+                    ),
                     col_name,
                 )
             }
@@ -209,6 +244,27 @@ pub struct PropertyValues {
     pub filter: Option<Filter>,
 }
 
+fn fix_request(
+    md: &Arc<MetadataProvider>,
+    project_id: u64,
+    req: PropertyValues,
+) -> Result<PropertyValues> {
+    let filter = match req.filter {
+        Some(filter) => {
+            let PropValueFilter::Property {
+                operation, value, ..
+            } = fix_filter(md, project_id, &PropValueFilter::Property {
+                property: req.property.clone(),
+                operation: filter.operation,
+                value: filter.value,
+            })?;
+            Some(Filter { operation, value })
+        }
+        None => None,
+    };
+    Ok(PropertyValues { filter, ..req })
+}
+
 fn projection(
     ctx: &Context,
     req: &PropertyValues,
@@ -216,6 +272,11 @@ fn projection(
 ) -> Result<Vec<String>> {
     let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
     fields.push(col_name(ctx, &req.property, md)?);
-    fields.dedup();
+    if let Some(event) = &req.event {
+        for filter in all_event_filters(ctx, md, event, None)? {
+            let PropValueFilter::Property { property, .. } = filter;
+            fields.push(col_name(ctx, &property, md)?);
+        }
+    }
     Ok(fields)
 }
-- 
2.43.0


From d9ae02a2b4a67f56fb5eb4b045c638e650eb5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 57/88] fix: dictionaries of a project are applied to rows of
 the project only

---
 src/query/src/event_records.rs      |  8 ++------
 src/query/src/event_segmentation.rs |  9 ++-------
 src/query/src/funnel.rs             |  8 ++------
 src/query/src/group_records.rs      |  8 ++------
 src/query/src/lib.rs                | 23 +++++++++++++++++++++++
 src/query/src/properties.rs         |  9 ++-------
 6 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 535d96e..68ca107 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -43,6 +43,7 @@ use tracing::debug;
 use crate::all_event_filters;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::decode_project_dictionaries;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -479,12 +480,7 @@ fn decode_filter_dictionaries(
         }
     }
 
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_project_dictionaries(ctx, input, decode_cols)
 }
 
 fn projection(
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index ac3d152..1defbff 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -47,6 +47,7 @@ use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::context::Format;
 use crate::decode_filter_single_dictionary;
+use crate::decode_project_dictionaries;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -583,13 +584,7 @@ impl LogicalPlanBuilder {
             }
         }
 
-        if decode_cols.is_empty() {
-            return Ok(input);
-        }
-
-        Ok(LogicalPlan::Extension(Extension {
-            node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-        }))
+        decode_project_dictionaries(&self.ctx, input, decode_cols)
     }
 
     fn decode_breakdowns_dictionaries(
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 99619bc..660fbf2 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -50,6 +50,7 @@ use crate::all_event_filters;
 use crate::breakdowns_to_dicts;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::decode_project_dictionaries;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -467,12 +468,7 @@ fn decode_filter_dictionaries(
             decode_filter_single_dictionary(ctx, metadata, cols_hash, &mut decode_cols, filter)?;
         }
     }
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_project_dictionaries(ctx, input, decode_cols)
 }
 
 #[derive(Clone, Debug)]
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index daa331a..98d8c12 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -39,6 +39,7 @@ use tracing::debug;
 
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::decode_project_dictionaries;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -414,12 +415,7 @@ fn decode_filter_dictionaries(
         }
     }
 
-    if decode_cols.is_empty() {
-        return Ok(input);
-    }
-    Ok(LogicalPlan::Extension(Extension {
-        node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
-    }))
+    decode_project_dictionaries(ctx, input, decode_cols)
 }
 
 fn projection(
diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index d30fcf3..a48d0fd 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -447,6 +447,29 @@ pub async fn execute(
     Ok(res)
 }
 
+/// decodes dictionaries of rows of the project, as other projects have other dictionaries
+pub(crate) fn decode_project_dictionaries(
+    ctx: &Context,
+    input: LogicalPlan,
+    decode_cols: Vec<(datafusion_common::Column, Arc<SingleDictionaryProvider>)>,
+) -> crate::Result<LogicalPlan> {
+    if decode_cols.is_empty() {
+        return Ok(input);
+    }
+    let expr = datafusion_expr::binary_expr(
+        datafusion_expr::col(COLUMN_PROJECT_ID),
+        datafusion_expr::Operator::Eq,
+        datafusion_expr::lit(ScalarValue::from(ctx.project_id as i64)),
+    );
+    let input = LogicalPlan::Filter(datafusion_expr::Filter::try_new(expr, Arc::new(input))?);
+
+    Ok(LogicalPlan::Extension(datafusion_expr::Extension {
+        node: Arc::new(
+            logical_plan::dictionary_decode::DictionaryDecodeNode::try_new(input, decode_cols)?,
+        ),
+    }))
+}
+
 pub fn decode_filter_single_dictionary(
     ctx: &Context,
     metadata: &Arc<MetadataProvider>,
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index b06373f..6900171 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -40,6 +40,7 @@ use tracing::debug;
 use crate::all_event_filters;
 use crate::col_name;
 use crate::decode_filter_single_dictionary;
+use crate::decode_project_dictionaries;
 use crate::error::QueryError;
 use crate::error::Result;
 use crate::execute;
@@ -148,13 +149,7 @@ impl LogicalPlanBuilder {
                 )?;
             }
         }
-        let input = if decode_cols.is_empty() {
-            input
-        } else {
-            LogicalPlan::Extension(Extension {
-                node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols)?),
-            })
-        };
+        let input = decode_project_dictionaries(&ctx, input, decode_cols)?;
 
         if let Some(event) = &req.event {
             expr = and(expr, event_expression(&ctx, &metadata, event, input.schema())?);
-- 
2.43.0


From 30b066d1353b2f7989e0707d9aff786693950fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 58/88] fix: a funnel counted the users and events of every
 project

---
 src/query/src/funnel.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 660fbf2..076e4ed 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -32,11 +32,15 @@ use common::types::ROUND_DIGITS;
 use common::types::TABLE_EVENTS;
 use common::DECIMAL_SCALE;
 use datafusion_common::Column;
+use datafusion_common::ScalarValue;
 use datafusion_expr::and;
+use datafusion_expr::binary_expr;
 use datafusion_expr::col;
 use datafusion_expr::Extension;
 use datafusion_expr::Filter as PlanFilter;
+use datafusion_expr::lit;
 use datafusion_expr::LogicalPlan;
+use datafusion_expr::Operator;
 use metadata::dictionaries::SingleDictionaryProvider;
 use metadata::MetadataProvider;
 use metrics::counter;
@@ -259,7 +263,15 @@ pub fn build(
     let mut cols_hash: HashMap<String, ()> = HashMap::new();
     let input = decode_filter_dictionaries(&ctx, &metadata, &req, input, &mut cols_hash)?;
 
-    let mut expr = time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?;
+    let mut expr = binary_expr(
+        col(COLUMN_PROJECT_ID),
+        Operator::Eq,
+        lit(ScalarValue::from(ctx.project_id as i64)),
+    );
+    expr = and(
+        expr,
+        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
+    );
     if let Some(filters) = &req.filters {
         expr = and(expr, event_filters_expression(&ctx, &metadata, filters, input.schema())?)
     }
-- 
2.43.0


From 7ab1422b085ce7e7f5afd52aa0a8cb0c961c6103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 59/88] fix: filters of a funnel's steps and exclusions were
 not given the types of their properties

---
 src/query/src/funnel.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 076e4ed..fe9b0a8 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -582,6 +582,13 @@ pub fn fix_request(
             if let Some(filters) = &event.filters {
                 if filters.is_empty() {
                     out.steps[step_id].events[event_id].filters = None;
+                } else {
+                    out.steps[step_id].events[event_id].filters = Some(
+                        filters
+                            .iter()
+                            .map(|f| fix_filter(md, project_id, f))
+                            .collect::<crate::Result<_>>()?,
+                    );
                 }
             }
         }
@@ -596,6 +603,13 @@ pub fn fix_request(
                 if let Some(filters) = &exclude.filters {
                     if filters.is_empty() {
                         out_exclude[exclude_id].filters = None;
+                    } else {
+                        out_exclude[exclude_id].filters = Some(
+                            filters
+                                .iter()
+                                .map(|f| fix_filter(md, project_id, f))
+                                .collect::<crate::Result<_>>()?,
+                        );
                     }
                 }
             }
-- 
2.43.0


From 0ae2141daebf333f07310cdf5e201255892abeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 60/88] fix: a funnel with a step of a custom event panicked

---
 src/query/src/funnel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index fe9b0a8..39925bc 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -200,7 +200,12 @@ impl FunnelProvider {
             let name = match &step.events[0].event {
                 EventRef::RegularName(n) => n.clone(),
                 EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
-                EventRef::Custom(_) => unimplemented!(),
+                EventRef::Custom(id) => {
+                    self.metadata
+                        .custom_events
+                        .get_by_id(ctx.project_id, *id)?
+                        .name
+                }
             };
             let mut step = Step {
                 step: name.clone(),
-- 
2.43.0


From 3fbb6e00d14d85c0203b0d49806d5fd84da47e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 61/88] fix: the exclusions of certain steps of a funnel were
 never applied

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 5385def..32ac4a8 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -147,9 +147,8 @@ impl Group {
             let mut to_check = false;
             // check if this exclude is relevant to current step
             if let Some(steps) = &excl.steps {
-                if steps.from <= self.cur_step && steps.to >= self.cur_step {
+                if steps.from < self.cur_step && steps.to >= self.cur_step {
                     to_check = true;
-                    break;
                 }
             } else {
                 // check anyway
-- 
2.43.0


From b43995daeb51a4cdbf1854ce9713ddde022eae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 62/88] fix: the first event of a user in a funnel was judged
 by the window, exclusions and constants of the user before

---
 .../aggregate/partitioned/funnel/funnel.rs    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 32ac4a8..d9f59c7 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -540,6 +540,20 @@ impl Funnel {
 
             let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
+            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
+                group.push_result(&self.filter, &self.time_interval);
+                #[cfg(test)]
+                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
+                group.cur_partition = partitions.value(row_id);
+                self.cur_partition = partitions.value(row_id);
+                group.partition_start = Row {
+                    row_id: 0,
+                    _batch_id: self.batch_id,
+                };
+                group.cur_step = 0;
+                group.skip = false;
+                group.steps_completed = 0;
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -589,20 +603,6 @@ impl Funnel {
                 }
             }
 
-            if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
-                group.push_result(&self.filter, &self.time_interval);
-                #[cfg(test)]
-                self.debug.push(batch_id, row_id, DebugStep::NewPartition);
-                group.cur_partition = partitions.value(row_id);
-                self.cur_partition = partitions.value(row_id);
-                group.partition_start = Row {
-                    row_id: 0,
-                    _batch_id: self.batch_id,
-                };
-                group.cur_step = 0;
-                group.skip = false;
-                group.steps_completed = 0;
-            }
             let mut matched = false;
             match &self.steps_orders[group.cur_step] {
                 StepOrder::Exact => {
-- 
2.43.0


From 2351fc0b697c3cd59d4ad3fbe77f06464b109acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 63/88] fix: a user who had completed a funnel was counted
 again at the end of a batch and in the next one, and not in other groups

---
 .../aggregate/partitioned/funnel/funnel.rs    | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index d9f59c7..fcfea6f 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -278,7 +278,6 @@ pub struct Funnel {
     // groups when group by
     groups: Option<Groups<Group>>,
     cur_partition: i64,
-    skip_partition: bool,
     first: bool,
     // special case for non-group
     single_group: Group,
@@ -355,7 +354,6 @@ impl Funnel {
             time_interval: opts.time_interval.clone(),
             groups: Groups::maybe_from(opts.groups)?,
             cur_partition: 0,
-            skip_partition: false,
             first: true,
             single_group: Group::new(opts.steps.len(), &buckets),
             steps_len: opts.steps.len(),
@@ -502,14 +500,6 @@ impl Funnel {
         let mut row_id = 0;
         let mut batch_id = self.batch_id;
         loop {
-            if self.skip_partition {
-                while self.cur_partition == partitions.value(row_id)
-                    && row_id < batch.num_rows() - 1
-                {
-                    row_id += 1;
-                }
-                self.skip_partition = false;
-            }
             if let Some(exists) = partition_exist {
                 while !exists.contains_key(&partitions.value(row_id))
                     && row_id < batch.num_rows() - 1
@@ -538,6 +528,15 @@ impl Funnel {
                 group.cur_partition = partitions.value(row_id);
             }
 
+            // the rest of a partition that is done
+            if group.skip && partitions.value(row_id) == group.cur_partition {
+                row_id += 1;
+                if row_id >= batch.num_rows() {
+                    break;
+                }
+                continue;
+            }
+
             let batch = self.buf.get(&batch_id).unwrap();
             let cur_ts = batch.ts.value(row_id);
             if batch_id == self.batch_id && partitions.value(row_id) != group.cur_partition {
@@ -635,7 +634,7 @@ impl Funnel {
 
                     let is_completed = group.push_result(&self.filter, &self.time_interval);
                     if is_completed && self.count == Count::Unique {
-                        self.skip_partition = true;
+                        group.skip = true;
                     }
                     group.cur_step = 0;
                     group.steps_completed = 0;
-- 
2.43.0


From 9bb635f195f444a76b5fe1d684b8b8e407146ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 64/88] fix: an excluded event after the window of a funnel had
 ended took back what had been reached

---
 .../aggregate/partitioned/funnel/funnel.rs    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index fcfea6f..8f81e5a 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -553,6 +553,17 @@ impl Funnel {
                 group.skip = false;
                 group.steps_completed = 0;
             }
+            if group.cur_step > 0 {
+                if cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
+                    group.push_result(&self.filter, &self.time_interval);
+                    #[cfg(test)]
+                    self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
+                    group.steps[0] = group.steps[group.cur_step].clone();
+                    group.cur_step = 0;
+                    group.steps_completed = 0;
+                    // don't continue
+                }
+            }
             if group.cur_step > 0 {
                 if let Some(exclude) = &batch.exclude {
                     if !group.check_exclude(exclude, row_id) {
@@ -567,16 +578,6 @@ impl Funnel {
                         continue;
                     }
                 }
-
-                if cur_ts - group.steps[0].ts > self.window.num_milliseconds() {
-                    group.push_result(&self.filter, &self.time_interval);
-                    #[cfg(test)]
-                    self.debug.push(batch_id, row_id, DebugStep::OutOfWindow);
-                    group.steps[0] = group.steps[group.cur_step].clone();
-                    group.cur_step = 0;
-                    group.steps_completed = 0;
-                    // don't continue
-                }
             }
             if group.cur_step == 0 {
                 if batch.constants.is_some() {
-- 
2.43.0


From 15612bd21ddd6b06d2e9cbd23b03d3fc77cfce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 65/88] fix: properties held constant in a funnel: decimals
 panicked, missing values and those of an earlier batch were taken from
 elsewhere

---
 src/query/src/lib.rs                          |  9 ++++++---
 .../aggregate/partitioned/funnel/funnel.rs    | 19 ++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/query/src/lib.rs b/src/query/src/lib.rs
index a48d0fd..75f4ad6 100644
--- a/src/query/src/lib.rs
+++ b/src/query/src/lib.rs
@@ -158,7 +158,10 @@ macro_rules! impl_into_static_array {
         impl StaticArray {
     fn eq_values(&self, left_row_id: usize, right:&StaticArray,right_row_id: usize) -> bool {
         match (self,right) {
-             $((StaticArray::$ident(a),StaticArray::$ident(b))=>a.value(left_row_id) == b.value(right_row_id)),+,
+             $((StaticArray::$ident(a),StaticArray::$ident(b))=>match (a.is_null(left_row_id), b.is_null(right_row_id)) {
+                (false,false)=>a.value(left_row_id) == b.value(right_row_id),
+                (left,right)=>left && right,
+             }),+,
             _=>unreachable!()
         }
         }
@@ -166,9 +169,9 @@ macro_rules! impl_into_static_array {
     }
 }
 
-impl_into_static_array!( Int8 Int16 Int32 Int64 Int128 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
+impl_into_static_array!( Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Float16 Float32 Float64 Boolean
     TimestampNanosecond TimestampMicrosecond TimestampMillisecond  Time32Second Time32Millisecond  Time64Microsecond Time64Nanosecond DurationSecond DurationMillisecond DurationMicrosecond IntervalYearMonth IntervalDayTime IntervalMonthDayNano Date32 Date64 DurationNanosecond
-    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString);
+    TimestampSecond FixedSizeBinary Binary LargeBinary String LargeString Decimal128 Decimal256);
 
 impl From<ArrayRef> for StaticArray {
     fn from(arr: ArrayRef) -> Self {
diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index 8f81e5a..fd6e681 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -67,6 +67,13 @@ struct Row {
     _batch_id: usize,
 }
 
+// the row whose constants are held, with the arrays of its batch
+#[derive(Debug)]
+struct ConstRow {
+    row_id: usize,
+    constants: Vec<StaticArray>,
+}
+
 #[derive(Debug, Clone, Eq, PartialEq)]
 struct StepResult {
     total: i64,
@@ -89,7 +96,7 @@ struct Group {
     _cur_row_id: i64,
     partition_start: Row,
     _partition_len: i64,
-    const_row: Option<Row>,
+    const_row: Option<ConstRow>,
     cur_step: usize,
     steps: Vec<Step>,
     buckets: HashMap<i64, BucketResult, RandomState>,
@@ -165,9 +172,8 @@ impl Group {
 
     fn check_constants(&self, constants: &[StaticArray], cur_row_id: usize) -> bool {
         let const_row = self.const_row.as_ref().unwrap();
-        for (const_idx, first_const) in constants.iter().enumerate() {
+        for (first_const, cur_const) in const_row.constants.iter().zip(constants) {
             // compare the const values of current row and first row
-            let cur_const = &constants[const_idx];
             if !first_const.eq_values(const_row.row_id, cur_const, cur_row_id) {
                 return false;
             }
@@ -580,10 +586,10 @@ impl Funnel {
                 }
             }
             if group.cur_step == 0 {
-                if batch.constants.is_some() {
-                    group.const_row = Some(Row {
+                if let Some(constants) = &batch.constants {
+                    group.const_row = Some(ConstRow {
                         row_id,
-                        _batch_id: batch_id,
+                        constants: constants.clone(),
                     })
                 }
             } else {
@@ -686,7 +692,6 @@ impl Funnel {
             time_interval: self.time_interval.clone(),
             groups,
             cur_partition: 0,
-            skip_partition: false,
             first: true,
             single_group: Group::new(self.steps_len, &self.buckets),
             steps_len: self.steps_len,
-- 
2.43.0


From cce36a469e6a55325e687aa5b67cf418d813c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 66/88] fix: an event whose filter is unknown matched a step or
 exclusion of a funnel

---
 .../aggregate/partitioned/funnel/mod.rs         | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
index 6d00086..427fd25 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/mod.rs
@@ -1,8 +1,10 @@
 use std::sync::Arc;
 
+use arrow::array::Array;
 use arrow::array::BooleanArray;
 use arrow::array::Int64Array;
 use arrow::array::TimestampMillisecondArray;
+use arrow::compute::prep_null_mask_filter;
 use arrow::datatypes::Schema;
 use arrow::record_batch::RecordBatch;
 use chrono::Duration;
@@ -111,6 +113,15 @@ impl Batch {
     }
 }
 
+// unknown is not a match
+fn known(arr: BooleanArray) -> BooleanArray {
+    if arr.null_count() > 0 {
+        prep_null_mask_filter(&arr)
+    } else {
+        arr
+    }
+}
+
 // calculate expressions
 fn evaluate_batch(
     batch: RecordBatch,
@@ -126,11 +137,12 @@ fn evaluate_batch(
         // evaluate expr to bool result
         let arr = expr
             .evaluate(&batch)?
-            .into_array(0)?
+            .into_array(batch.num_rows())?
             .as_any()
             .downcast_ref::<BooleanArray>()
             .unwrap()
             .clone();
+        let arr = known(arr);
         // add steps to state
         steps.push(arr);
     }
@@ -141,11 +153,12 @@ fn evaluate_batch(
             let arr = expr
                 .expr
                 .evaluate(&batch)?
-                .into_array(0)?
+                .into_array(batch.num_rows())?
                 .as_any()
                 .downcast_ref::<BooleanArray>()
                 .unwrap()
                 .clone();
+            let arr = known(arr);
             if let Some(exclude) = &mut exclude {
                 let excl = Exclude {
                     exists: arr,
-- 
2.43.0


From 9e58999dd33e2988d4d72f5bee2b987d296a8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 67/88] fix: funnels over months or years lost users of all but
 the first period

---
 .../aggregate/partitioned/funnel/funnel.rs    | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index fd6e681..a11f152 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -313,18 +313,13 @@ impl Funnel {
         let buckets = if opts.time_interval.is_some() {
             let from = date_trunc(&opts.time_interval.clone().unwrap(), opts.from)?;
             let to = date_trunc(&opts.time_interval.clone().unwrap(), opts.to)?;
-            let mut buckets = (from.timestamp_millis()..=to.timestamp_millis())
-                .step_by(
-                    opts.time_interval
-                        .clone()
-                        .unwrap()
-                        .duration(1)
-                        .num_milliseconds() as usize,
-                )
-                .collect::<Vec<i64>>();
-            // case where bucket size is bigger than time range
-            if buckets.is_empty() {
-                buckets.push(from.timestamp_millis());
+            // months and years are not equally long
+            let unit = opts.time_interval.clone().unwrap();
+            let mut buckets = vec![];
+            let mut ts = from;
+            while ts <= to {
+                buckets.push(ts.timestamp_millis());
+                ts = ts + unit.relative_duration(1);
             }
             buckets
         } else {
-- 
2.43.0


From 9020d2caf7c83ac38c0e31dc10d88920b52d61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 68/88] fix: the average times to convert of a funnel were a
 hundred times too long

---
 .../expressions/aggregate/partitioned/funnel/funnel.rs        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
index a11f152..d8b9522 100644
--- a/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
+++ b/src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs
@@ -790,7 +790,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert as f64 / step.total as f64
                         } else {
                             0.
                         })
@@ -803,7 +803,7 @@ impl Funnel {
                         Decimal::from_f64(0.).unwrap()
                     } else {
                         Decimal::from_f64(if step.total > 0 {
-                            step.total_time_to_convert_from_start as f64 / step.total as f64 * 100.
+                            step.total_time_to_convert_from_start as f64 / step.total as f64
                         } else {
                             0.
                         })
-- 
2.43.0


From 690321864def42193f637f00c5fd67f566da25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 69/88] fix: ratios and average times of a funnel were the
 averages of the partitions' ones

---
 src/query/src/physical_plan/funnel.rs | 43 ++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/query/src/physical_plan/funnel.rs b/src/query/src/physical_plan/funnel.rs
index 0db852a..5a9f6cc 100644
--- a/src/query/src/physical_plan/funnel.rs
+++ b/src/query/src/physical_plan/funnel.rs
@@ -265,6 +265,46 @@ fn aggregate(
     Ok(cols)
 }
 
+// ratios and averages of all partitions together follow from the totals of all partitions
+fn merge_ratios(cols: &mut [ArrayRef], steps: usize) -> DFResult<()> {
+    let ratio = |a: i64, b: i64| -> i128 {
+        if b == 0 {
+            0
+        } else {
+            a as i128 * 10i128.pow(DECIMAL_SCALE as u32) / b as i128
+        }
+    };
+    let int = |arr: &ArrayRef| arr.as_any().downcast_ref::<Int64Array>().unwrap().clone();
+    let dec = |vals: Vec<i128>| -> DFResult<ArrayRef> {
+        Ok(Arc::new(
+            Decimal128Array::from(vals)
+                .with_precision_and_scale(DECIMAL_PRECISION, DECIMAL_SCALE)?,
+        ))
+    };
+    let first = int(&cols[0]);
+    let hundred = 100 * 10i128.pow(DECIMAL_SCALE as u32);
+    for step in 1..steps {
+        let cols = &mut cols[step * 8..(step + 1) * 8];
+        let total = int(&cols[0]);
+        let (time, time_from_start) = (int(&cols[6]), int(&cols[7]));
+        let rows = 0..total.len();
+        let converted = rows
+            .clone()
+            .map(|i| ratio(total.value(i) * 100, first.value(i)))
+            .collect::<Vec<_>>();
+        cols[5] = dec(converted.iter().map(|v| hundred - v).collect())?;
+        cols[1] = dec(converted)?;
+        cols[2] = dec(rows
+            .clone()
+            .map(|i| ratio(time.value(i), total.value(i)))
+            .collect())?;
+        cols[3] = dec(rows
+            .map(|i| ratio(time_from_start.value(i), total.value(i)))
+            .collect())?;
+    }
+    Ok(())
+}
+
 #[derive(Eq, PartialEq, Clone, Debug)]
 enum Stage {
     CollectSegments,
@@ -724,8 +764,9 @@ impl Stream for FinalFunnelStream {
             .collect::<Vec<_>>();
 
         let final_batch = concat_batches(&self.schema, &self.final_batches.borrow().to_vec())?;
-        let agg_arrs = aggregate(&final_batch, groups, aggs)
+        let mut agg_arrs = aggregate(&final_batch, groups, aggs)
             .map_err(QueryError::into_datafusion_execution_error)?;
+        merge_ratios(&mut agg_arrs[self.groups + 2..], self.steps)?;
         let result = RecordBatch::try_new(self.schema.clone(), agg_arrs)?;
         self.finished = true;
         Poll::Ready(Some(Ok(result)))
-- 
2.43.0


From 32d46fbd5151682035e34452d24f96068d15ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 70/88] fix: an event given by its number was compared as
 another type, so that funnels failed and large numbers were cut

---
 src/query/src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query/src/expr.rs b/src/query/src/expr.rs
index cf83d19..592d70d 100644
--- a/src/query/src/expr.rs
+++ b/src/query/src/expr.rs
@@ -79,7 +79,7 @@ pub fn event_expression(
         EventRef::Regular(id) => binary_expr(
             col(COLUMN_EVENT),
             Operator::Eq,
-            lit(ScalarValue::from(*id as u16)),
+            lit(ScalarValue::from(*id as i64)),
         ),
 
         EventRef::Custom(id) => {
-- 
2.43.0


From ae37c31532262194269a11ded8f95d354ea4a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 71/88] fix: values in filters of a funnel's steps and
 exclusions were not brought to the type of their property

---
 src/query/src/physical_plan/planner/funnel.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index 5a15531..c7e0e38 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -3,6 +3,8 @@ use std::sync::Mutex;
 
 use arrow_row::SortField;
 use datafusion::execution::context::ExecutionProps;
+use datafusion::optimizer::simplify_expressions::ExprSimplifier;
+use datafusion::optimizer::simplify_expressions::SimplifyContext;
 use datafusion::physical_expr::create_physical_expr;
 use datafusion::physical_expr::expressions::Column;
 use datafusion::physical_plan::ExecutionPlan;
@@ -49,23 +51,27 @@ pub(crate) fn build_funnel(
     let schema = physical_inputs[0].schema();
     let dfschema = schema.clone().to_dfschema()?;
     let execution_props = ExecutionProps::new();
+    // the analyzer doesn't see these expressions
+    let simplifier = ExprSimplifier::new(SimplifyContext::new(&execution_props));
     let steps = f
         .steps
         .iter()
         .map(|(expr, order)| {
-            let expr = create_physical_expr(expr, &dfschema, &execution_props).unwrap();
+            let expr = simplifier.coerce(expr.clone(), &dfschema)?;
+            let expr = create_physical_expr(&expr, &dfschema, &execution_props)?;
             let order = match order {
                 logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
                 logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.to_vec()),
             };
-            (expr, order)
+            Ok((expr, order))
         })
-        .collect::<Vec<_>>();
+        .collect::<Result<Vec<_>>>()?;
 
     let exclude = if let Some(exclude) = f.exclude {
         let mut out = vec![];
         for exclude in exclude {
-            let expr = create_physical_expr(&exclude.expr, &dfschema, &execution_props)?;
+            let expr = simplifier.coerce(exclude.expr.clone(), &dfschema)?;
+            let expr = create_physical_expr(&expr, &dfschema, &execution_props)?;
             let steps = exclude.steps.map(|steps| ExcludeSteps {
                 from: steps.from,
                 to: steps.to,
-- 
2.43.0


From 454de76f61bd92d5d6a4d670ddeb20cfd5e2f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 72/88] fix: a funnel broken down by a number panicked where it
 is missing

---
 src/query/src/funnel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index 39925bc..f5f36f1 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -145,6 +145,11 @@ impl FunnelProvider {
                             .unwrap();
                         let mut builder = StringBuilder::new();
                         for i in 0..arr.len() {
+                            // shown like a missing value of any other type
+                            if arr.is_null(i) {
+                                builder.append_value("");
+                                continue;
+                            }
                             let v = arr.value(i);
                             let vv = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
                                 .round_dp(ROUND_DIGITS.into());
-- 
2.43.0


From d3c8c8004d6e7072f328de7adc249dd5f1fff3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 73/88] fix: a funnel broken down by a property with a pattern
 in a filter failed

---
 src/query/src/physical_plan/planner/funnel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/query/src/physical_plan/planner/funnel.rs b/src/query/src/physical_plan/planner/funnel.rs
index c7e0e38..7fd6dd9 100644
--- a/src/query/src/physical_plan/planner/funnel.rs
+++ b/src/query/src/physical_plan/planner/funnel.rs
@@ -99,9 +99,10 @@ pub(crate) fn build_funnel(
         Some(
             groups
                 .iter()
-                .map(|(expr, name, sort_field)| {
+                .map(|(expr, name, _)| {
                     let expr = create_physical_expr(expr, &dfschema, &execution_props)?;
-                    let sf = SortField::new(sort_field.data_type.clone());
+                    // a dictionary may have been decoded for a filter
+                    let sf = SortField::new(expr.data_type(&schema)?);
                     Ok((expr, name.clone(), sf))
                 })
                 .collect::<Result<Vec<_>>>()?,
-- 
2.43.0


From f5e6aa9d9ad73ba75c77ad7c85d693ff8f68e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 74/88] fix: event segmentation in the compact format panicked
 on any request for one event

---
 src/query/src/event_segmentation.rs | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 1defbff..773ef33 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -712,23 +712,24 @@ impl LogicalPlanBuilder {
                     rename_rows,
                 )?),
             });
-        }
 
-        input = LogicalPlan::Extension(Extension {
-            node: Arc::new(AggregateAndSortColumnsNode::try_new(
-                input,
-                group_expr.len() - 1 + 2,
-            )?), // +2 is segment and agg_name cols that are groups as well
-        });
+            input = LogicalPlan::Extension(Extension {
+                node: Arc::new(AggregateAndSortColumnsNode::try_new(
+                    input,
+                    group_expr.len() - 1 + 2,
+                )?), // +2 is segment and agg_name cols that are groups as well
+            });
+
+            input = LogicalPlan::Extension(Extension {
+                node: Arc::new(LimitGroupsNode::try_new(
+                    input,
+                    1,
+                    group_expr.len() - 1,
+                    50,
+                )?),
+            });
+        }
 
-        input = LogicalPlan::Extension(Extension {
-            node: Arc::new(LimitGroupsNode::try_new(
-                input,
-                1,
-                group_expr.len() - 1,
-                50,
-            )?),
-        });
         Ok(input)
     }
 
-- 
2.43.0


From 5033b76a13d8ee57a81609d2d54780da583ccf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 75/88] fix: the API showed an event's custom properties as its
 user properties

---
 src/platform/src/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/src/events.rs b/src/platform/src/events.rs
index b58a8d5..7c53fdf 100644
--- a/src/platform/src/events.rs
+++ b/src/platform/src/events.rs
@@ -244,7 +244,7 @@ impl Into<Event> for metadata::events::Event {
             status: self.status.into(),
             is_system: self.is_system,
             event_properties: self.event_properties,
-            user_properties: self.custom_properties,
+            user_properties: self.user_properties,
         }
     }
 }
-- 
2.43.0


From c34f38dd771d9e2e408b1c881dbe49514b0d5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 76/88] fix: an event's name was shown for another event's
 records once their numbers came apart

The name of a new event was given the next key of the dictionary, or the key
the name had before, and the records refer to the event by its id. An event
deleted and tracked again has a new id.
---
 src/metadata/src/dictionaries.rs | 17 +++++++++++++++--
 src/metadata/src/events.rs       |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/metadata/src/dictionaries.rs b/src/metadata/src/dictionaries.rs
index 18df486..2ef5629 100644
--- a/src/metadata/src/dictionaries.rs
+++ b/src/metadata/src/dictionaries.rs
@@ -94,15 +94,15 @@ impl Dictionaries {
         res
     }
 
-    pub fn create_key(
+    pub fn _create_key(
         &self,
+        tx: &Transaction<TransactionDB>,
         project_id: u64,
         table: &str,
         dict: &str,
         key: u64,
         value: &str,
     ) -> Result<()> {
-        let tx = self.db.transaction();
         tx.put(
             make_key_key(project_id, tbl_dict(table, dict).as_str(), key),
             value.as_bytes(),
@@ -111,6 +111,19 @@ impl Dictionaries {
             make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
             key.to_le_bytes(),
         )?;
+        Ok(())
+    }
+
+    pub fn create_key(
+        &self,
+        project_id: u64,
+        table: &str,
+        dict: &str,
+        key: u64,
+        value: &str,
+    ) -> Result<()> {
+        let tx = self.db.transaction();
+        self._create_key(&tx, project_id, table, dict, key, value)?;
         tx.commit()?;
         Ok(())
     }
diff --git a/src/metadata/src/events.rs b/src/metadata/src/events.rs
index d764fd9..6f45f20 100644
--- a/src/metadata/src/events.rs
+++ b/src/metadata/src/events.rs
@@ -185,11 +185,13 @@ impl Events {
 
         insert_index(tx, idx_keys.as_ref(), event.id)?;
 
-        self.dicts._get_key_or_create(
+        // records refer to the event by its id
+        self.dicts._create_key(
             tx,
             project_id,
             TABLE_EVENTS,
             COLUMN_EVENT,
+            event.id,
             event.name.as_str(),
         )?;
         Ok(event)
-- 
2.43.0


From 331dd4debca644b1ff288f6000c4b5de896ab0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 77/88] fix: a tracked property named like a column of the
 server renamed events and users

Its value was given a key in the dictionary in which the server keeps the
names of events, users, groups or the project.
---
 src/ingester/src/executor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ingester/src/executor.rs b/src/ingester/src/executor.rs
index 744ee50..5dfd2af 100644
--- a/src/ingester/src/executor.rs
+++ b/src/ingester/src/executor.rs
@@ -4,6 +4,7 @@ use std::time::Instant;
 
 use common::group_col;
 use common::types::DType;
+use common::types::COLUMN_IP;
 use common::types::GROUP_COLUMN_ID;
 use common::types::METRIC_INGESTER_IDENTIFIED_TOTAL;
 use common::types::METRIC_INGESTER_IDENTIFY_TIME_SECONDS;
@@ -91,7 +92,11 @@ fn resolve_properties(
         .iter()
         .map(|(k, v)| resolve_property(ctx, properties, db, typ.clone(), k.to_owned(), v.clone()))
         .collect::<Result<Vec<PropertyAndValue>>>()?;
-    Ok(resolved_props)
+    // the server writes these itself: a value of the client must not get into their dictionaries
+    Ok(resolved_props
+        .into_iter()
+        .filter(|p| !p.property.is_system || p.property.name == COLUMN_IP)
+        .collect())
 }
 
 pub struct Executor<T> {
-- 
2.43.0


From b72927eb4ff18c181f1cb269bb65548ccedbdf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 78/88] fix: the patch version of a client was never stored

A project has a property for it and the parser finds it, but it was not among
what is taken from the user agent.
---
 src/ingester/src/transformers/user_agent/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ingester/src/transformers/user_agent/mod.rs b/src/ingester/src/transformers/user_agent/mod.rs
index 70865cb..f03685a 100644
--- a/src/ingester/src/transformers/user_agent/mod.rs
+++ b/src/ingester/src/transformers/user_agent/mod.rs
@@ -60,6 +60,18 @@ pub fn resolve_properties(
         props.push(prop);
     }
 
+    // client version patch
+    if let Some(v) = client.user_agent.patch {
+        let property =
+            props_prov.get_by_name(proj_id, types::EVENT_PROPERTY_CLIENT_VERSION_PATCH)?;
+
+        let prop = PropertyAndValue {
+            property,
+            value: PropValue::String(v.to_string()),
+        };
+        props.push(prop);
+    }
+
     // device family
     {
         let property = props_prov.get_by_name(proj_id, types::EVENT_PROPERTY_DEVICE_FAMILY)?;
-- 
2.43.0


From 52554b2b3edf963186113cc70be440b52914ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 79/88] fix: a look-up by key panicked at a text or a time of a
 part

The arrays of a part are arrow2's, and were taken for those of arrow.
---
 src/storage/src/db.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index e6f393f..da81466 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -31,6 +31,7 @@ use arrow2::array::Int32Array;
 use arrow2::array::Int64Array;
 use arrow2::array::Int8Array;
 use arrow2::array::ListArray;
+use arrow2::array::Utf8Array;
 use arrow2::chunk::Chunk;
 use arrow2::datatypes::DataType;
 use arrow2::datatypes::Field;
@@ -38,8 +39,6 @@ use arrow2::datatypes::Schema;
 use arrow2::io::parquet;
 use arrow2::io::parquet::read;
 use arrow2::io::parquet::write::transverse;
-use arrow_array::StringArray;
-use arrow_array::TimestampNanosecondArray;
 use bincode::deserialize;
 use bincode::serialize;
 use common::types::DType;
@@ -1093,14 +1092,14 @@ impl OptiDBImpl {
                                         DataType::Timestamp(_, _) => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<TimestampNanosecondArray>()
+                                                .downcast_ref::<Int64Array>()
                                                 .unwrap();
                                             vals.push(Value::Timestamp(Some(arr.value(row_id))));
                                         }
                                         DataType::Utf8 => {
                                             let arr = chunk.arrays()[field_id]
                                                 .as_any()
-                                                .downcast_ref::<StringArray>()
+                                                .downcast_ref::<Utf8Array<i32>>()
                                                 .unwrap();
                                             vals.push(Value::String(Some(
                                                 arr.value(row_id).to_string(),
@@ -1168,7 +1167,7 @@ impl OptiDBImpl {
                                                 DataType::Timestamp(_, _) => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<TimestampNanosecondArray>()
+                                                        .downcast_ref::<Int64Array>()
                                                         .unwrap();
                                                     vals.push(Value::Timestamp(Some(
                                                         arr.value(row_id),
@@ -1177,7 +1176,7 @@ impl OptiDBImpl {
                                                 DataType::Utf8 => {
                                                     let arr = arr
                                                         .as_any()
-                                                        .downcast_ref::<StringArray>()
+                                                        .downcast_ref::<Utf8Array<i32>>()
                                                         .unwrap();
                                                     vals.push(Value::String(Some(
                                                         arr.value(row_id).to_string(),
-- 
2.43.0


From a949c8b07e3ba42967745f96cccd20b84fec4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 80/88] fix: a look-up by key missed rows of parts

It ended at the first part whose range has the key, and looked into one row group of it;
a key of the first columns alone was compared with whole keys; and rows that were being
flushed could be found neither in memory nor in a part.
---
 src/storage/src/db.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/storage/src/db.rs b/src/storage/src/db.rs
index da81466..f8484c3 100644
--- a/src/storage/src/db.rs
+++ b/src/storage/src/db.rs
@@ -909,29 +909,27 @@ impl OptiDBImpl {
             Some(tbl) => tbl.to_owned(),
         };
         drop(tables);
+        // held until the row is found: rows must not move from the memtable to a part in between, nor parts be removed
+        let md = tbl.metadata.lock();
+        let metadata = md.clone();
         let mt = tbl.memtable.lock();
         if let Some(v) = mt.get(&key) {
             return Ok(Some(v));
         }
         drop(mt);
-        let md = tbl.metadata.lock();
-        let metadata = md.clone();
-        drop(md);
 
         for (level_id, level) in metadata.levels.iter().enumerate() {
             let mut parts = level.parts.clone();
             parts.reverse();
             for part in parts.iter() {
-                let _offset = if metadata.opts.is_replacing { 1 } else { 0 };
-                if key >= part.min[..part.min.len()].to_vec()
-                    && key <= part.max[..part.max.len()].to_vec()
-                {
+                // the key may be the first columns of the index only
+                if key[..] >= part.min[..key.len()] && key[..] <= part.max[..key.len()] {
                     let path = part_path(&self.path, tbl_name, level_id, part.id);
                     let mut rdr = File::open(path)?;
                     let parquet_md = read::read_metadata(&mut rdr)?;
                     let schema = read::infer_schema(&parquet_md)?;
 
-                    let mut found = None;
+                    let mut row_groups = vec![];
                     'g: for row_group_id in 0..parquet_md.row_groups.len() {
                         #[allow(clippy::needless_range_loop)]
                         for field_id in 0..key.len() {
@@ -962,17 +960,16 @@ impl OptiDBImpl {
                                 unreachable!();
                             }
                         }
-                        found = Some(row_group_id);
-                        break;
+                        row_groups.push(parquet_md.row_groups[row_group_id].clone());
                     }
 
-                    if found.is_none() {
-                        return Ok(None);
+                    if row_groups.is_empty() {
+                        continue;
                     }
 
                     let chunks = read::FileReader::new(
                         rdr,
-                        vec![parquet_md.row_groups[found.unwrap()].clone()],
+                        row_groups,
                         schema.clone(),
                         Some(1024 * 8 * 8), // todo make configurable?
                         None,
@@ -987,6 +984,8 @@ impl OptiDBImpl {
                         })
                         .collect::<Vec<_>>();
 
+                    // of the versions of a row the last one is the newest
+                    let mut found = None;
                     for chunk in chunks {
                         let chunk = chunk?;
                         let mut idx_cols = vec![];
@@ -1190,10 +1189,15 @@ impl OptiDBImpl {
                                 }
                             }
 
-                            return Ok(Some(vals));
+                            if !metadata.opts.is_replacing {
+                                return Ok(Some(vals));
+                            }
+                            found = Some(vals);
                         }
                     }
-                    return Ok(None);
+                    if found.is_some() {
+                        return Ok(found);
+                    }
                 }
             }
         }
-- 
2.43.0


From bef92c412fdab676018eb74223669c7d745e9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 81/88] fix: a value of a filter that is a list, an object or a
 number too big for a decimal made the server panic

---
 src/platform/src/lib.rs        | 53 ++++++++++++++++++++++++++++++++--
 src/platform/src/properties.rs |  2 ++
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 54bee43..8f8e94c 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -65,7 +65,9 @@ use query::group_records::GroupRecordsProvider;
 use query::properties::PropertiesProvider;
 use rust_decimal::prelude::ToPrimitive;
 use rust_decimal::Decimal;
+use serde::de::Error as _;
 use serde::Deserialize;
+use serde::Deserializer;
 use serde::Serialize;
 use serde_json::json;
 use serde_json::Number;
@@ -301,6 +303,38 @@ where
     }
 }
 
+fn is_scalar(v: &Value) -> bool {
+    match v {
+        Value::Array(_) | Value::Object(_) => false,
+        Value::Number(n) => {
+            n.is_i64() || n.is_u64() || n.as_f64().is_some_and(|v| Decimal::try_from(v).is_ok())
+        }
+        _ => true,
+    }
+}
+
+/// Value to compare with, has to be representable as a scalar
+fn deserialize_scalar<'de, D>(deserializer: D) -> std::result::Result<Option<Value>, D::Error>
+where D: Deserializer<'de> {
+    let value = Option::<Value>::deserialize(deserializer)?;
+    if value.as_ref().is_some_and(|v| !is_scalar(v)) {
+        return Err(D::Error::custom("unsupported value"));
+    }
+    Ok(value)
+}
+
+/// Values to compare with, every one has to be representable as a scalar
+pub(crate) fn deserialize_scalars<'de, D>(
+    deserializer: D,
+) -> std::result::Result<Option<Vec<Value>>, D::Error>
+where D: Deserializer<'de> {
+    let values = Option::<Vec<Value>>::deserialize(deserializer)?;
+    if values.iter().flatten().any(|v| !is_scalar(v)) {
+        return Err(D::Error::custom("unsupported value"));
+    }
+    Ok(values)
+}
+
 pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
@@ -519,7 +553,11 @@ pub enum PropValueFilter {
         #[serde(flatten)]
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            deserialize_with = "deserialize_scalars",
+            skip_serializing_if = "Option::is_none"
+        )]
         value: Option<Vec<Value>>,
     },
     // #[serde(rename_all = "camelCase")]
@@ -896,6 +934,7 @@ pub enum DidEventAggregate {
         property: PropertyRef,
         aggregate: QueryAggregate,
         operation: PropValueOperation,
+        #[serde(default, deserialize_with = "deserialize_scalar")]
         value: Option<Value>,
         time: SegmentTime,
     },
@@ -1018,14 +1057,22 @@ pub enum SegmentCondition {
     HasPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            deserialize_with = "deserialize_scalars",
+            skip_serializing_if = "Option::is_none"
+        )]
         value: Option<Vec<Value>>,
     },
     #[serde(rename_all = "camelCase")]
     HadPropertyValue {
         property: PropertyRef,
         operation: PropValueOperation,
-        #[serde(skip_serializing_if = "Option::is_none")]
+        #[serde(
+            default,
+            deserialize_with = "deserialize_scalars",
+            skip_serializing_if = "Option::is_none"
+        )]
         value: Option<Vec<Value>>,
         time: SegmentTime,
     },
diff --git a/src/platform/src/properties.rs b/src/platform/src/properties.rs
index 4b56e2f..5d522b0 100644
--- a/src/platform/src/properties.rs
+++ b/src/platform/src/properties.rs
@@ -15,6 +15,7 @@ use serde::Serialize;
 use serde_json::Value;
 
 use crate::array_ref_to_json_values;
+use crate::deserialize_scalars;
 use crate::json_value_to_scalar;
 use crate::validate_event_filter_property;
 use crate::Context;
@@ -342,6 +343,7 @@ pub struct UpdatePropertyRequest {
 #[serde(rename_all = "camelCase")]
 pub struct Filter {
     pub operation: PropValueOperation,
+    #[serde(default, deserialize_with = "deserialize_scalars")]
     pub value: Option<Vec<Value>>,
 }
 
-- 
2.43.0


From 17aee4d37c0b0eaaabddc3de1bcee0e3a65f9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 82/88] fix: a number of a group that there is not made the
 server panic

---
 src/platform/src/group_records.rs   | 13 +++++++++++++
 src/platform/src/http/properties.rs | 21 ++++++++++++++++-----
 src/platform/src/lib.rs             | 17 ++++++++++++++++-
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index e72eb91..2b4ed1c 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use chrono::DateTime;
 use chrono::Utc;
 use common::rbac::ProjectPermission;
+use common::GROUPS_COUNT;
 use metadata::MetadataProvider;
 use query::context::Format;
 use query::group_records;
@@ -159,6 +160,18 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &GroupRecordsSearchRequest,
 ) -> Result<()> {
+    if req.group > GROUPS_COUNT - 1 {
+        return Err(PlatformError::BadRequest(
+            "group id is out of range".to_string(),
+        ));
+    }
+
+    if req.group > GROUPS_COUNT - 1 {
+        return Err(PlatformError::BadRequest(
+            "group id is out of range".to_string(),
+        ));
+    }
+
     if let Some(QueryTime::Between { from, to }) = &req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/http/properties.rs b/src/platform/src/http/properties.rs
index 8ad8c1e..ddb2d29 100644
--- a/src/platform/src/http/properties.rs
+++ b/src/platform/src/http/properties.rs
@@ -1,3 +1,5 @@
+use std::sync::Arc;
+
 use axum::extract::Extension;
 use axum::extract::Path;
 use axum::routing;
@@ -7,10 +9,12 @@ use serde_json::Value;
 
 use crate::http::PropertiesLayer;
 use crate::properties::ListPropertyValuesRequest;
+use crate::properties::Properties;
 use crate::properties::Property;
 use crate::properties::UpdatePropertyRequest;
 use crate::Context;
 use crate::ListResponse;
+use crate::PlatformError;
 use crate::Result;
 
 async fn get_event_by_id(
@@ -26,13 +30,20 @@ async fn get_event_by_id(
     ))
 }
 
+fn group(provider: &PropertiesLayer, group_id: usize) -> Result<&Arc<Properties>> {
+    provider
+        .groups
+        .get(group_id)
+        .ok_or_else(|| PlatformError::NotFound(format!("group {group_id} not found")))
+}
+
 async fn get_group_by_id(
     ctx: Context,
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id, property_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .get_by_id(ctx, project_id, property_id)
             .await?,
     ))
@@ -57,7 +68,7 @@ async fn get_group_by_name(
     Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .get_by_name(ctx, project_id, &prop_name)
             .await?,
     ))
@@ -76,7 +87,7 @@ async fn list_group(
     Extension(provider): Extension<PropertiesLayer>,
     Path((project_id, group_id)): Path<(u64, usize)>,
 ) -> Result<Json<ListResponse<Property>>> {
-    Ok(Json(provider.groups[group_id].list(ctx, project_id).await?))
+    Ok(Json(group(&provider, group_id)?.list(ctx, project_id).await?))
 }
 
 async fn update_event(
@@ -100,7 +111,7 @@ async fn update_group(
     Json(request): Json<UpdatePropertyRequest>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .update(ctx, project_id, prop_id, request)
             .await?,
     ))
@@ -122,7 +133,7 @@ async fn delete_group(
     Path((project_id, group_id, prop_id)): Path<(u64, usize, u64)>,
 ) -> Result<Json<Property>> {
     Ok(Json(
-        provider.groups[group_id]
+        group(&provider, group_id)?
             .delete(ctx, project_id, prop_id)
             .await?,
     ))
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 8f8e94c..4172dff 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -335,6 +335,16 @@ where D: Deserializer<'de> {
     Ok(values)
 }
 
+/// Number of a group, has to be one of the groups a project can have
+pub(crate) fn deserialize_group<'de, D>(deserializer: D) -> std::result::Result<usize, D::Error>
+where D: Deserializer<'de> {
+    let group = usize::deserialize(deserializer)?;
+    if group >= GROUPS_COUNT {
+        return Err(D::Error::custom("group not found"));
+    }
+    Ok(group)
+}
+
 pub fn json_value_to_scalar(v: &Value) -> ScalarValue {
     match v {
         Value::Bool(v) => ScalarValue::Boolean(Some(*v)),
@@ -485,7 +495,11 @@ impl Into<EventRef> for common::query::EventRef {
 #[serde(tag = "propertyType", rename_all = "camelCase")]
 pub enum PropertyRef {
     #[serde(rename_all = "camelCase")]
-    Group { property_name: String, group: usize },
+    Group {
+        property_name: String,
+        #[serde(deserialize_with = "deserialize_group")]
+        group: usize,
+    },
     #[serde(rename_all = "camelCase")]
     Event { property_name: String },
     #[serde(rename_all = "camelCase")]
@@ -498,6 +512,7 @@ pub enum SortablePropertyRef {
     #[serde(rename_all = "camelCase")]
     Group {
         property_name: String,
+        #[serde(deserialize_with = "deserialize_group")]
         group: usize,
         direction: SortDirection,
     },
-- 
2.43.0


From 88096a8a465744b43c00b5d73447c9cf86de1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 83/88] fix: a query at a time out of range made the server
 panic

---
 src/platform/src/event_records.rs      | 4 +++-
 src/platform/src/event_segmentation.rs | 4 +++-
 src/platform/src/funnel.rs             | 4 +++-
 src/platform/src/group_records.rs      | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index cb32ca8..843ad58 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -69,7 +69,9 @@ impl EventRecords {
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
+                PlatformError::BadRequest("timestamp is out of range".to_string())
+            })?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index 2e741bb..e5944d9 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -61,7 +61,9 @@ impl EventSegmentation {
 
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
+                PlatformError::BadRequest("timestamp is out of range".to_string())
+            })?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index ca70832..7afc7c3 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -59,7 +59,9 @@ impl Funnel {
 
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
+                PlatformError::BadRequest("timestamp is out of range".to_string())
+            })?,
         };
         let ctx = query::Context {
             project_id,
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 2b4ed1c..54f606c 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -76,7 +76,9 @@ impl GroupRecords {
         let lreq = fix_search_request(&self.md, project_id, req.into())?;
         let cur_time = match query.timestamp {
             None => Utc::now(),
-            Some(ts_sec) => DateTime::from_timestamp_millis(ts_sec * 1000).unwrap(),
+            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0).ok_or_else(|| {
+                PlatformError::BadRequest("timestamp is out of range".to_string())
+            })?,
         };
         let ctx = query::Context {
             project_id,
-- 
2.43.0


From e9fef207101d23dbda8063676b1a8033021e1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 84/88] fix: a query over more time than a date can hold made
 the server panic

---
 src/platform/src/event_records.rs      |  2 ++
 src/platform/src/event_segmentation.rs |  2 ++
 src/platform/src/funnel.rs             |  8 ++++++++
 src/platform/src/group_records.rs      |  4 ++++
 src/platform/src/lib.rs                | 12 ++++++++++++
 5 files changed, 28 insertions(+)

diff --git a/src/platform/src/event_records.rs b/src/platform/src/event_records.rs
index 843ad58..add7c41 100644
--- a/src/platform/src/event_records.rs
+++ b/src/platform/src/event_records.rs
@@ -13,6 +13,7 @@ use serde::Serialize;
 use crate::scalar_to_json;
 use crate::validate_event;
 use crate::validate_event_filter;
+use crate::validate_time;
 use crate::Context;
 use crate::EventGroupedFilters;
 use crate::EventRef;
@@ -204,6 +205,7 @@ pub(crate) fn validate_search_request(
     project_id: u64,
     req: &EventRecordsSearchRequest,
 ) -> Result<()> {
+    validate_time(&req.time)?;
     if let QueryTime::Between { from, to } = req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/event_segmentation.rs b/src/platform/src/event_segmentation.rs
index e5944d9..00b6868 100644
--- a/src/platform/src/event_segmentation.rs
+++ b/src/platform/src/event_segmentation.rs
@@ -16,6 +16,7 @@ use crate::error::Result;
 use crate::validate_event;
 use crate::validate_event_filter;
 use crate::validate_event_property;
+use crate::validate_time;
 use crate::AggregateFunction;
 use crate::Breakdown;
 use crate::Context;
@@ -551,6 +552,7 @@ pub(crate) fn validate_request(
             "group id is out of range".to_string(),
         ));
     }
+    validate_time(&req.time)?;
     if let QueryTime::Between { from, to } = req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index 7afc7c3..c57e1fc 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -15,6 +15,7 @@ use serde::Serialize;
 use crate::validate_event;
 use crate::validate_event_filter;
 use crate::validate_event_property;
+use crate::validate_time;
 use crate::Breakdown;
 use crate::Context;
 use crate::EventGroupedFilterGroup;
@@ -31,6 +32,7 @@ use crate::QueryResponseFormat;
 use crate::QueryTime;
 use crate::Segment;
 use crate::TimeIntervalUnit;
+use crate::MAX_TIME_UNITS;
 
 pub struct Funnel {
     md: Arc<MetadataProvider>,
@@ -121,6 +123,12 @@ pub(crate) fn validate_request(
         ));
     }
 
+    validate_time(&req.time)?;
+    if req.time_window.n as u64 > MAX_TIME_UNITS {
+        return Err(PlatformError::BadRequest(
+            "time window is out of range".to_string(),
+        ));
+    }
     if let QueryTime::Between { from, to } = req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/group_records.rs b/src/platform/src/group_records.rs
index 54f606c..c840020 100644
--- a/src/platform/src/group_records.rs
+++ b/src/platform/src/group_records.rs
@@ -15,6 +15,7 @@ use serde::Serialize;
 use serde_json::Value;
 
 use crate::validate_event_filter;
+use crate::validate_time;
 use crate::Context;
 use crate::EventGroupedFilters;
 use crate::PlatformError;
@@ -174,6 +175,9 @@ pub(crate) fn validate_search_request(
         ));
     }
 
+    if let Some(time) = &req.time {
+        validate_time(time)?;
+    }
     if let Some(QueryTime::Between { from, to }) = &req.time {
         if from > to {
             return Err(PlatformError::BadRequest(
diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 4172dff..5aff1ec 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -1646,6 +1646,18 @@ pub fn validate_event_filter_property(
     Ok(())
 }
 
+/// The most units of time a request can go back or can wait for
+const MAX_TIME_UNITS: u64 = 100_000;
+
+pub(crate) fn validate_time(time: &QueryTime) -> Result<()> {
+    match time {
+        QueryTime::Last { last, .. } if last.unsigned_abs() > MAX_TIME_UNITS => Err(
+            PlatformError::BadRequest("last is out of range".to_string()),
+        ),
+        _ => Ok(()),
+    }
+}
+
 pub(crate) fn validate_event(
     md: &Arc<MetadataProvider>,
     project_id: u64,
-- 
2.43.0


From 70ae866077483b554deb3a087544e520acb68ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 85/88] fix: an exclusion between steps numbered from 0 made
 the server panic

---
 src/platform/src/funnel.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/platform/src/funnel.rs b/src/platform/src/funnel.rs
index c57e1fc..67b2c5a 100644
--- a/src/platform/src/funnel.rs
+++ b/src/platform/src/funnel.rs
@@ -9,7 +9,9 @@ use metadata::MetadataProvider;
 use query::context::Format;
 use query::funnel::fix_request;
 use query::funnel::FunnelProvider;
+use serde::de::Error as _;
 use serde::Deserialize;
+use serde::Deserializer;
 use serde::Serialize;
 
 use crate::validate_event;
@@ -501,7 +503,22 @@ impl Into<StepOrder> for common::funnel::StepOrder {
 #[serde(tag = "type", rename_all = "camelCase")]
 pub enum ExcludeSteps {
     All,
-    Between { from: usize, to: usize },
+    /// steps are numbered from 1
+    Between {
+        #[serde(deserialize_with = "deserialize_step")]
+        from: usize,
+        #[serde(deserialize_with = "deserialize_step")]
+        to: usize,
+    },
+}
+
+fn deserialize_step<'de, D>(deserializer: D) -> Result<usize, D::Error>
+where D: Deserializer<'de> {
+    let step = usize::deserialize(deserializer)?;
+    if step == 0 {
+        return Err(D::Error::custom("steps are numbered from 1"));
+    }
+    Ok(step)
 }
 
 #[allow(clippy::all)]
-- 
2.43.0


From 619e751bee4a23d3f3dcd5648c63b865a576c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 86/88] fix: a query for a property that its table has no
 column of made the server panic

---
 src/query/src/event_records.rs      | 4 +++-
 src/query/src/event_segmentation.rs | 8 ++++----
 src/query/src/funnel.rs             | 4 ++--
 src/query/src/group_records.rs      | 4 ++--
 src/query/src/properties.rs         | 4 ++--
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/query/src/event_records.rs b/src/query/src/event_records.rs
index 68ca107..efe273f 100644
--- a/src/query/src/event_records.rs
+++ b/src/query/src/event_records.rs
@@ -135,7 +135,9 @@ impl EventRecordsProvider {
         let schema = self.db.schema1(TABLE_EVENTS)?;
         let mut proj = if req.properties.is_some() {
             let p = projection(&ctx, &req, &self.metadata)?;
-            p.iter().map(|x| schema.index_of(x).unwrap()).collect()
+            p.iter()
+                .map(|x| schema.index_of(x))
+                .collect::<std::result::Result<Vec<_>, _>>()?
         } else {
             (0..schema.fields.len()).collect::<Vec<_>>()
         };
diff --git a/src/query/src/event_segmentation.rs b/src/query/src/event_segmentation.rs
index 773ef33..c471257 100644
--- a/src/query/src/event_segmentation.rs
+++ b/src/query/src/event_segmentation.rs
@@ -105,8 +105,8 @@ impl EventSegmentationProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let projection = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<std::result::Result<Vec<_>, _>>()?;
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
         let _segment_plan = if let Some(segments) = &req.segments {
@@ -114,8 +114,8 @@ impl EventSegmentationProvider {
                 segment_projection(&ctx, segments, req.group_id, &self.metadata)?;
             let segment_projection = segment_projection
                 .iter()
-                .map(|x| schema.index_of(x).unwrap())
-                .collect();
+                .map(|x| schema.index_of(x))
+                .collect::<std::result::Result<Vec<_>, _>>()?;
             Some(segment_plan(
                 &self.db,
                 TABLE_EVENTS.to_string(),
diff --git a/src/query/src/funnel.rs b/src/query/src/funnel.rs
index f5f36f1..4d6d9fb 100644
--- a/src/query/src/funnel.rs
+++ b/src/query/src/funnel.rs
@@ -87,8 +87,8 @@ impl FunnelProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let projection = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<std::result::Result<Vec<_>, _>>()?;
 
         let (session_ctx, state, plan) =
             initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
diff --git a/src/query/src/group_records.rs b/src/query/src/group_records.rs
index 98d8c12..6dd6299 100644
--- a/src/query/src/group_records.rs
+++ b/src/query/src/group_records.rs
@@ -129,8 +129,8 @@ impl GroupRecordsProvider {
             let projection = projection(&ctx, &req, &self.metadata)?;
             projection
                 .iter()
-                .map(|x| schema.index_of(x).unwrap())
-                .collect()
+                .map(|x| schema.index_of(x))
+                .collect::<std::result::Result<Vec<_>, _>>()?
         } else {
             (0..schema.fields.len()).collect::<Vec<_>>()
         };
diff --git a/src/query/src/properties.rs b/src/query/src/properties.rs
index 6900171..e6a9571 100644
--- a/src/query/src/properties.rs
+++ b/src/query/src/properties.rs
@@ -68,8 +68,8 @@ impl PropertiesProvider {
         let projection = projection(&ctx, &req, &self.metadata)?;
         let mut projection: Vec<usize> = projection
             .iter()
-            .map(|x| schema.index_of(x).unwrap())
-            .collect();
+            .map(|x| schema.index_of(x))
+            .collect::<std::result::Result<Vec<_>, _>>()?;
         projection.sort();
         projection.dedup();
         let (session_ctx, state, plan) =
-- 
2.43.0


From 8a74a56d09d3852a0d6b9ae1466a48b336a34e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 87/88] fix: a sum per group of values that can't be summed
 made the server panic

---
 .../src/logical_plan/partitioned_aggregate.rs     | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/query/src/logical_plan/partitioned_aggregate.rs b/src/query/src/logical_plan/partitioned_aggregate.rs
index 0f55d66..e04212d 100644
--- a/src/query/src/logical_plan/partitioned_aggregate.rs
+++ b/src/query/src/logical_plan/partitioned_aggregate.rs
@@ -200,8 +200,8 @@ impl AggregateExpr {
     }
 }
 
-fn return_type(dt: DataType, agg: &AggregateFunction, _schema: &DFSchema) -> DataType {
-    match agg {
+fn return_type(dt: DataType, agg: &AggregateFunction, _schema: &DFSchema) -> Result<DataType> {
+    let dt = match agg {
         AggregateFunction::Avg => DataType::Float64,
         AggregateFunction::Count => DataType::Int64,
         AggregateFunction::Min | AggregateFunction::Max => dt,
@@ -213,9 +213,10 @@ fn return_type(dt: DataType, agg: &AggregateFunction, _schema: &DFSchema) -> Dat
             | DataType::UInt64
             | DataType::Decimal128(_, _)
             | DataType::Timestamp(_, _) => DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),
-            _ => unimplemented!("{dt:?}"),
+            _ => return Err(QueryError::Plan(format!("can't sum values of {dt:?}"))),
         },
-    }
+    };
+    Ok(dt)
 }
 
 impl AggregateExpr {
@@ -266,7 +267,7 @@ impl AggregateExpr {
                             schema.field_from_column(predicate)?.data_type().to_owned(),
                             agg,
                             schema,
-                        ),
+                        )?,
                         true,
                     )]
                 }
@@ -288,7 +289,7 @@ impl AggregateExpr {
                 ..
             } => {
                 let dt = schema.field_from_column(predicate)?.data_type();
-                let rt1 = return_type(dt.to_owned(), inner_fn, schema);
+                let rt1 = return_type(dt.to_owned(), inner_fn, schema)?;
                 if final_ {
                     vec![Field::new(
                         RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE,
@@ -296,7 +297,7 @@ impl AggregateExpr {
                         true,
                     )]
                 } else {
-                    let rt2 = return_type(rt1, outer_fn, schema);
+                    let rt2 = return_type(rt1, outer_fn, schema)?;
 
                     vec![Field::new(
                         RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE,
-- 
2.43.0


From ac2c547823a330333a5f28e2029abfea193bf4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 88/88] fix: a sum of 8e12 and more made the server panic

---
 src/platform/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/platform/src/lib.rs b/src/platform/src/lib.rs
index 5aff1ec..e7c3c39 100644
--- a/src/platform/src/lib.rs
+++ b/src/platform/src/lib.rs
@@ -166,6 +166,15 @@ macro_rules! arr_to_json_values {
     }};
 }
 
+/// Decimal has a mantissa of 96 bits only: a greater one loses its last digits
+fn to_decimal(mut v: i128, mut scale: u32) -> Decimal {
+    while scale > 0 && Decimal::try_from_i128_with_scale(v, scale).is_err() {
+        v /= 10;
+        scale -= 1;
+    }
+    Decimal::from_i128_with_scale(v, scale)
+}
+
 pub fn scalar_to_json(v: &ScalarValue) -> Value {
     if v.is_null() {
         return Value::Null;
@@ -173,7 +182,7 @@ pub fn scalar_to_json(v: &ScalarValue) -> Value {
     match v {
         ScalarValue::Boolean(Some(v)) => Value::Bool(*v),
         ScalarValue::Decimal128(Some(v), _, _) => {
-            let d = Decimal::from_i128_with_scale(*v, DECIMAL_SCALE as u32)
+            let d = to_decimal(*v, DECIMAL_SCALE as u32)
                 .round_dp(ROUND_DIGITS.into());
             let d_f = match d.to_f64() {
                 None => {
@@ -231,7 +240,7 @@ pub fn array_ref_to_json_values(arr: &ArrayRef) -> Vec<Value> {
                 .map(|value| match value {
                     None => Value::Null,
                     Some(v) => {
-                        let d = Decimal::from_i128_with_scale(v, DECIMAL_SCALE as u32)
+                        let d = to_decimal(v, DECIMAL_SCALE as u32)
                             .round_dp(ROUND_DIGITS.into());
                         let d_f = match d.to_f64() {
                             None => {
-- 
2.43.0

