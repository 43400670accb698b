From 654616c73705f9f1c9956b412584125782a44f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 01/12] fix: in-memory pruning by length keeps the newest jobs
 instead of removing the first ones

PruneBy::MaxLength(n) removed the first n matching jobs and kept the rest; it
now keeps n jobs, the most recent ones for finished statuses and the soonest
ones otherwise, as documented and as the Postgres backend does.
---
 rexecutor/src/backend/memory.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index a432524..2549895 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -469,15 +469,27 @@ impl Backend for InMemoryBackend {
                 });
             }
             PruneBy::MaxLength(length) => {
-                let mut count = 0;
-                jobs.retain(|job| {
-                    if prune_spec.matches(job) {
-                        count += 1;
-                        count > length
-                    } else {
-                        true
+                let mut matching = jobs
+                    .iter()
+                    .filter(|job| prune_spec.matches(job))
+                    .map(|job| (job.scheduled_at, job.id))
+                    .collect::<Vec<_>>();
+                // The jobs to keep come first: for finished jobs the most recent, otherwise the
+                // ones which are due the soonest.
+                match prune_spec.status {
+                    JobStatus::Complete | JobStatus::Cancelled | JobStatus::Discarded => {
+                        matching.sort_by(|a, b| b.cmp(a))
                     }
-                });
+                    JobStatus::Scheduled | JobStatus::Retryable | JobStatus::Executing => {
+                        matching.sort()
+                    }
+                }
+                let pruned = matching
+                    .into_iter()
+                    .skip(length as usize)
+                    .map(|(_, id)| id)
+                    .collect::<Vec<_>>();
+                jobs.retain(|job| !pruned.contains(&job.id));
             }
         };
         Ok(())
-- 
2.43.0


From aae8a0a59ebab16d78df8332af9d7c573155b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 02/12] fix: Postgres IdIn query selects jobs with any of the
 ids

It compared with ALL, which no job satisfies for two or more distinct ids and
every job satisfies for an empty list.
---
 rexecutor-sqlx/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 8a8abef..857a7d2 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -131,7 +131,7 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
                 .iter()
                 .map(|job_id| Into::<i32>::into(*job_id))
                 .collect();
-            builder.push(" id = All(");
+            builder.push(" id = ANY(");
             builder.push_bind(ids);
             builder.push(")");
         }
-- 
2.43.0


From b43b3318eff113bffec37d58b8a91e33942315e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 03/12] fix: parenthesise nested boolean queries in the
 Postgres backend

And/Or were emitted without parentheses, so Or inside And (which every
executor-scoped query with or() is) and Not of a compound took the wrong
meaning; empty And/Or produced invalid SQL.
---
 rexecutor-sqlx/src/query.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rexecutor-sqlx/src/query.rs b/rexecutor-sqlx/src/query.rs
index 857a7d2..104f625 100644
--- a/rexecutor-sqlx/src/query.rs
+++ b/rexecutor-sqlx/src/query.rs
@@ -94,20 +94,28 @@ fn handle_query<'a>(builder: &mut QueryBuilder<'a, Postgres>, query: &'a Query<'
         }
         Query::And(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" AND");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" TRUE");
             }
         }
         Query::Or(queries) => {
             if let Some((last, elements)) = &queries[..].split_last() {
+                builder.push(" (");
                 elements.iter().for_each(|query| {
                     handle_query(builder, query);
                     builder.push(" OR");
                 });
                 handle_query(builder, last);
+                builder.push(")");
+            } else {
+                builder.push(" FALSE");
             }
         }
         Query::DataEquals(data) => {
-- 
2.43.0


From 634b53f21bb316f288a26e1625e2bbd6b314d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 04/12] fix: store the uniqueness key the Postgres duplicate
 lookup compares with

The row stored the advisory lock hash while the lookup compared the column with
the key of the criteria, so duplicates by key were never found.
---
 rexecutor-sqlx/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor-sqlx/src/lib.rs b/rexecutor-sqlx/src/lib.rs
index 34e50a7..a7a0f69 100644
--- a/rexecutor-sqlx/src/lib.rs
+++ b/rexecutor-sqlx/src/lib.rs
@@ -218,7 +218,7 @@ impl RexecutorPgBackend {
                     job.scheduled_at,
                     job.priority as i32,
                     &job.tags,
-                    unique_identifier,
+                    uniqueness_criteria.key,
                 )
                 .fetch_one(&mut *tx)
                 .await?;
-- 
2.43.0


From ff61b9e82189bac749824e7ae0dea244c212f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 05/12] fix: a job past its last permitted attempt is discarded
 when it fails

With equality a job whose attempts exceed max_attempts (max_attempts 0, or
lowered by an update or a replacement) was retried forever.
---
 rexecutor/src/job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexecutor/src/job.rs b/rexecutor/src/job.rs
index 7829447..1286e2e 100644
--- a/rexecutor/src/job.rs
+++ b/rexecutor/src/job.rs
@@ -138,7 +138,7 @@ where
 
 impl<D, M> Job<D, M> {
     pub(crate) fn is_final_attempt(&self) -> bool {
-        self.attempt == self.max_attempts
+        self.attempt >= self.max_attempts
     }
 }
 
-- 
2.43.0


From 44ffaf6eb6ca6341376d5e1016a40c34989470aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 06/12] fix: criteria without a key match in-memory jobs
 whatever their key

Without a key the criteria put no constraint on the key, as documented and as
the Postgres backend does; the in-memory backend only matched jobs without key.
---
 rexecutor/src/backend/queryable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backend/queryable.rs b/rexecutor/src/backend/queryable.rs
index 8bdd44a..a9f46d8 100644
--- a/rexecutor/src/backend/queryable.rs
+++ b/rexecutor/src/backend/queryable.rs
@@ -52,7 +52,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
         match self.uniqueness_criteria {
             None => false,
             Some(ref uniqueness_criteria @ UniquenessCriteria { duration: None, .. }) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
             }
@@ -62,7 +62,7 @@ impl<'a> Queryable for EnqueuableJob<'a> {
                     ..
                 },
             ) => {
-                uniqueness_criteria.key == job.key
+                (uniqueness_criteria.key.is_none() || uniqueness_criteria.key == job.key)
                     && (!uniqueness_criteria.executor || self.executor == job.executor)
                     && (uniqueness_criteria.statuses.contains(&job.status))
                     && (job.scheduled_at - Utc::now()).abs() < duration
-- 
2.43.0


From 2251c6bc4bd7cb5537b70c1b339443cf4ba1e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 07/12] fix: in-memory unique enqueue looks up and writes under
 one lock

Looking up duplicates and inserting (or writing back a stale copy) under
separate locks let concurrent enqueues both insert, and overwrote concurrent
updates to the matching job.
---
 rexecutor/src/backend/memory.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rexecutor/src/backend/memory.rs b/rexecutor/src/backend/memory.rs
index 2549895..2c272ee 100644
--- a/rexecutor/src/backend/memory.rs
+++ b/rexecutor/src/backend/memory.rs
@@ -227,16 +227,24 @@ impl InMemoryBackend {
     }
 
     async fn insert_unique_job(&self, job: EnqueuableJob<'_>) -> Result<JobId, BackendError> {
-        let matching_jobs = self.matching_jobs(&job)?;
-        if matching_jobs.is_empty() {
-            self.insert_new_job(job)
-        } else {
-            // TODO: what is the correct behaviour when there are multiple matching jobs
-            let mut matching_job = matching_jobs.into_iter().next().unwrap();
-            matching_job.replace(job);
-            let id = matching_job.id;
-            self.update_job(matching_job.job).await?;
-            Ok(id.into())
+        // The lookup and the insert or update need to happen under the same lock otherwise a
+        // concurrent call could insert a duplicate or have its changes overwritten.
+        let mut jobs = self.jobs.write().map_err(|_| BackendError::BadState)?;
+        // TODO: what is the correct behaviour when there are multiple matching jobs
+        match jobs.iter_mut().find(|existing| job.matches(existing)) {
+            None => {
+                let executor = job.executor.clone();
+                let scheduled_at = job.scheduled_at;
+                let id = self.id_counter.fetch_add(1, Ordering::SeqCst);
+                jobs.push(job.into_job(id));
+                self.notify_subscribers(executor.as_str(), scheduled_at)?;
+                Ok(id.into())
+            }
+            Some(existing) => {
+                existing.replace(job);
+                self.notify_subscribers(existing.executor.as_str(), existing.scheduled_at)?;
+                Ok(existing.id.into())
+            }
         }
     }
 }
-- 
2.43.0


From 5d99a5ad797599f10aab3200c99515798d611f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:18 +0000
Subject: [PATCH 08/12] fix: the pruner's max concurrency limits the prune
 calls

All prune calls were started at once and the limit only applied to logging
their errors.
---
 rexecutor/src/pruner/runner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index 0050e00..d864402 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -1,7 +1,7 @@
 use std::{ops::Sub, time::Duration};
 
 use chrono::{TimeDelta, Utc};
-use futures::{StreamExt, stream::FuturesOrdered};
+use futures::{StreamExt, stream};
 use tokio_util::sync::CancellationToken;
 
 use crate::backend::Backend;
@@ -54,14 +54,11 @@ where
     }
 
     async fn prune(&self) {
-        self.config
-            .pruners
-            .iter()
-            .map(|prune_spec| self.backend.prune_jobs(prune_spec))
-            .collect::<FuturesOrdered<_>>()
-            .filter_map(|res| async { res.err() })
-            .for_each_concurrent(self.config.max_concurrency, |err| async move {
-                tracing::error!(?err, "Failed to clean up jobs with error {err}")
+        stream::iter(&self.config.pruners)
+            .for_each_concurrent(self.config.max_concurrency, |prune_spec| async move {
+                if let Err(err) = self.backend.prune_jobs(prune_spec).await {
+                    tracing::error!(?err, "Failed to clean up jobs with error {err}")
+                }
             })
             .await;
     }
-- 
2.43.0


From ec59f3c293a802a563d23c98e62a475a5344aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:45 +0000
Subject: [PATCH 09/12] fix: backoff strategies saturate instead of panicking
 on overflow

Exponential backoff without a maximum panicked as soon as base^attempt left the
representable range, as did large linear and polynomial backoffs, offsets and
jitters; the panic ended the runner of the executor.
---
 rexecutor/src/backoff.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index 22fd077..b747656 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -110,7 +110,7 @@ impl Strategy for Exponential {
         if let Some(max) = self.max {
             seconds = seconds.min(max.num_seconds());
         }
-        TimeDelta::seconds(seconds)
+        TimeDelta::try_seconds(seconds).unwrap_or(TimeDelta::MAX)
     }
 }
 
@@ -143,7 +143,10 @@ pub struct Linear {
 
 impl Strategy for Linear {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * attempt.into();
+        let mut backoff = self
+            .factor
+            .checked_mul(attempt.into())
+            .unwrap_or(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -183,7 +186,10 @@ pub struct Polynomial {
 
 impl Strategy for Polynomial {
     fn backoff(&self, attempt: u16) -> TimeDelta {
-        let mut backoff = self.factor * (attempt as i32).pow(self.power);
+        let mut backoff = self
+            .factor
+            .checked_mul((attempt as i32).saturating_pow(self.power))
+            .unwrap_or(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -200,6 +206,14 @@ pub enum Jitter {
     Relative(f64),
 }
 
+fn saturating_add(lhs: TimeDelta, rhs: TimeDelta) -> TimeDelta {
+    lhs.checked_add(&rhs).unwrap_or(if rhs < TimeDelta::zero() {
+        TimeDelta::MIN
+    } else {
+        TimeDelta::MAX
+    })
+}
+
 impl Jitter {
     fn apply_jitter(&self, value: TimeDelta) -> TimeDelta {
         let milliseconds = match self {
@@ -207,7 +221,7 @@ impl Jitter {
             Self::Relative(ratio) => (value.num_milliseconds() as f64 * ratio).round() as i64,
         };
         let rand_jitter_seconds = rand::rng().random_range(-milliseconds..=milliseconds);
-        value + TimeDelta::milliseconds(rand_jitter_seconds)
+        saturating_add(value, TimeDelta::milliseconds(rand_jitter_seconds))
     }
 }
 
@@ -424,7 +438,7 @@ where
         let mut backoff = self.strategy.backoff(attempt);
 
         if let Some(additional_offset) = self.additional_offset {
-            backoff += additional_offset;
+            backoff = saturating_add(backoff, additional_offset);
         }
 
         if let Some(jitter) = self.jitter {
-- 
2.43.0


From 97b82e296448ca1a815d15f2064909e4fad056b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 10/12] fix: rescheduling a job saturates instead of panicking
 on overflow

A snooze or retry delay beyond the representable dates panicked in the runner
task, which stopped the executor for good and left the job executing.
---
 rexecutor/src/job/runner.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rexecutor/src/job/runner.rs b/rexecutor/src/job/runner.rs
index d22508e..ae712bb 100644
--- a/rexecutor/src/job/runner.rs
+++ b/rexecutor/src/job/runner.rs
@@ -1,6 +1,6 @@
 use std::{marker::PhantomData, time::Duration};
 
-use chrono::{TimeDelta, Utc};
+use chrono::{DateTime, TimeDelta, Utc};
 use futures::StreamExt;
 use serde::de::DeserializeOwned;
 use tokio::task::JoinError;
@@ -176,7 +176,7 @@ where
     }
 
     async fn handle_job_snoozed(&self, job_id: JobId, delay: TimeDelta) {
-        let next_scheduled_at = Utc::now() + delay;
+        let next_scheduled_at = scheduled_in(delay);
         tracing::info!(%job_id, "Job {job_id} snoozed until {next_scheduled_at}");
         let _ = self
             .backend
@@ -245,7 +245,7 @@ where
                     )
                 });
         } else {
-            let next_scheduled_at = Utc::now() + delay;
+            let next_scheduled_at = scheduled_in(delay);
             tracing::warn!(
                 %job_id,
                 ?error,
@@ -255,7 +255,7 @@ where
             );
             let _ = self
                 .backend
-                .mark_job_retryable(job_id, Utc::now() + delay, error)
+                .mark_job_retryable(job_id, next_scheduled_at, error)
                 .await
                 .inspect_err(|err| {
                     tracing::error!(
@@ -268,6 +268,16 @@ where
     }
 }
 
+fn scheduled_in(delay: TimeDelta) -> DateTime<Utc> {
+    Utc::now()
+        .checked_add_signed(delay)
+        .unwrap_or(if delay < TimeDelta::zero() {
+            DateTime::<Utc>::MIN_UTC
+        } else {
+            DateTime::<Utc>::MAX_UTC
+        })
+}
+
 impl From<JoinError> for crate::backend::ExecutionError {
     fn from(value: JoinError) -> Self {
         let msg = value.to_string();
-- 
2.43.0


From b3ec4c6fdb9855ce9125124b2d0ae902548b9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:30 +0000
Subject: [PATCH 11/12] fix: cron and pruner runners start no work once
 shutdown was requested

---
 rexecutor/src/cron_runner.rs   | 9 +++++----
 rexecutor/src/pruner/runner.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rexecutor/src/cron_runner.rs b/rexecutor/src/cron_runner.rs
index 25ef308..42723a6 100644
--- a/rexecutor/src/cron_runner.rs
+++ b/rexecutor/src/cron_runner.rs
@@ -56,6 +56,11 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.enqueue_job(next).await;
                             let delay = next - Utc::now();
@@ -63,10 +68,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         },
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down cron scheduler for {}", E::NAME);
-                            break;
-                        },
                     }
                 }
             }
diff --git a/rexecutor/src/pruner/runner.rs b/rexecutor/src/pruner/runner.rs
index d864402..434de56 100644
--- a/rexecutor/src/pruner/runner.rs
+++ b/rexecutor/src/pruner/runner.rs
@@ -36,6 +36,11 @@ where
                         .to_std()
                         .unwrap_or(Duration::ZERO);
                     tokio::select! {
+                        biased;
+                        _ = cancellation_token.cancelled() => {
+                            tracing::debug!("Shutting down the job pruner");
+                            break;
+                        },
                         _ = tokio::time::sleep(delay) => {
                             self.prune().await;
                             let delay = next - Utc::now();
@@ -43,10 +48,6 @@ where
                                 tokio::time::sleep(delay.to_std().unwrap()).await;
                             }
                         }
-                        _ = cancellation_token.cancelled() => {
-                            tracing::debug!("Shutting down the job pruner");
-                            break;
-                        },
                     }
                 }
             }
-- 
2.43.0


From 771c5d09671cef8406eaf2f59c410f5733448218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:45 +0000
Subject: [PATCH 12/12] fix: linear and polynomial backoffs stay within the
 range of TimeDelta

TimeDelta::checked_mul only refuses products whose seconds leave i64, so a
large factor gave a delay beyond TimeDelta::MAX, on which applying jitter
panics (or wraps).
---
 rexecutor/src/backoff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rexecutor/src/backoff.rs b/rexecutor/src/backoff.rs
index b747656..1a55f77 100644
--- a/rexecutor/src/backoff.rs
+++ b/rexecutor/src/backoff.rs
@@ -146,7 +146,9 @@ impl Strategy for Linear {
         let mut backoff = self
             .factor
             .checked_mul(attempt.into())
-            .unwrap_or(TimeDelta::MAX);
+            .unwrap_or(TimeDelta::MAX)
+            // `checked_mul` may return values beyond the range of `TimeDelta`
+            .min(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
@@ -189,7 +191,9 @@ impl Strategy for Polynomial {
         let mut backoff = self
             .factor
             .checked_mul((attempt as i32).saturating_pow(self.power))
-            .unwrap_or(TimeDelta::MAX);
+            .unwrap_or(TimeDelta::MAX)
+            // `checked_mul` may return values beyond the range of `TimeDelta`
+            .min(TimeDelta::MAX);
         if let Some(max) = self.max {
             backoff = backoff.min(max);
         }
-- 
2.43.0

