From 8b2a51fa47f2cbd860f8b647ff6fb785966bb265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 01/31] fix: call after_run of the plugins after a job ran

PluginCenter::after sent the hook message with before: true, so before_run
was called twice and after_run never.
---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 570dd4603d68ae3f0a9469b26424cdf3e56dd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 02/31] fix: concurrent first submissions of a job type share
 one queue

Two clients which both found no queue for the type both asked AJ to register
it; the second registration panicked and stopped the AJ actor.
---
 aj_core/src/aj.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..732a125 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,6 +278,10 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
+        // Another client may have registered the queue while this message was on its way
+        if let Some(addr) = get_work_queue_address::<M>() {
+            return addr;
+        }
         self.register(&msg.queue_name)
     }
 }
-- 
2.43.0


From 2006aaba3965f548a06b5bca651d45f7a6609f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 03/31] fix: AJ::start is atomic

Concurrent callers could each start an AJ (and get different addresses), and a
caller could panic or get no address because the lock was merely contended.
---
 aj_core/src/aj.rs | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 732a125..270f03e 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,11 +47,10 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
-    }
+    AJ_ADDR
+        .read()
+        .unwrap_or_else(|poisoned| poisoned.into_inner())
+        .clone()
 }
 
 pub struct AJ {
@@ -65,42 +64,41 @@ impl Actor for AJ {
 impl AJ {
     // Will use memory as Backend for AJ
     pub fn start(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
-        if let Some(aj_addr) = get_aj_address() {
+        // Hold the lock until AJ is started, concurrent callers must get the same AJ
+        let mut aj_addr = AJ_ADDR
+            .write()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
+        if let Some(aj_addr) = aj_addr.as_ref() {
             warn!("AJ is running. Return current AJ");
-            return aj_addr;
+            return aj_addr.clone();
         }
 
-        match System::try_current() {
+        let addr = match System::try_current() {
             Some(_) => {
                 info!("Found Actix Runtime, re-use it!");
-                Self::register_addr(backend);
+                Self::start_actor(backend)
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
                 std::thread::spawn(|| {
                     // Start the Actix runtime within this new thread
                     let _ = System::new();
-                    Self::register_addr(backend);
+                    Self::start_actor(backend)
                 })
                 .join()
-                .expect("Failed to start thread");
+                .expect("Failed to start thread")
             }
-        }
+        };
 
-        get_aj_address().expect("AJ address must be registered!")
+        *aj_addr = Some(addr.clone());
+        addr
     }
 
-    fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
+    fn start_actor(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
         let arbiter: Arbiter = Arbiter::new();
-        let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
+        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
-        });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
-
-        addr
+        })
     }
 
     pub fn quick_start() -> Addr<Self> {
-- 
2.43.0


From 5ce177e887cb28e70579b68ec63f98700fbe6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 04/31] fix: a cron job is done after its last slot

After max_repeat runs or the last slot before end_at the job was queued once
more and stayed Queued for ever; without any further slot it ran again at every
poll, because the old slot was kept.
---
 aj_core/src/job/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..ce8b15b 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -187,23 +187,22 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                let upcoming_event = schedule.after(&now).next()?;
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
-- 
2.43.0


From a5627b15042a0f399cbbb28c14b6db6adfabf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 05/31] fix: finish a queued cron job once its end has passed

When the poll after a slot came later than end_at the job could never be ready
again and stayed Queued for ever.
---
 aj_core/src/job/mod.rs | 13 +++++++++++++
 aj_core/src/queue.rs   |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index ce8b15b..b4fb472 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -172,6 +172,19 @@ where
         }
     }
 
+    /// A queued cron job which cannot be ready any more: it has used up its repeats or passed its end
+    pub(crate) fn is_expired(&self) -> bool {
+        match &self.context.job_type {
+            JobType::Cron(_, _, total_repeat, context) => {
+                context
+                    .max_repeat
+                    .is_some_and(|max_repeat| max_repeat < *total_repeat)
+                    || context.end_at.is_some_and(|end_at| end_at < get_now())
+            }
+            _ => false,
+        }
+    }
+
     pub(crate) fn next_tick(&mut self) -> Option<Self> {
         let now = get_now();
         match &self.context.job_type {
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..85eda50 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -269,6 +269,13 @@ where
             for job_id in job_ids {
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
+                    if job.is_expired() {
+                        // Will never be ready again
+                        self.mark_job_is_finished(job)?;
+                        self.backend.queue_remove(&idle_queue_name, &job_id)?;
+                        continue;
+                    }
+
                     if job.is_ready()
                         && ready_jobs.len() < total
                         && !ready_jobs
-- 
2.43.0


From 0d2de91a3d220d18da8cc13b25f7e6157859a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 06/31] fix: retrying a cron job does not end its recurrence

The retry replaced the cron type by ScheduledAt, so after one failed run the job
never followed its cron expression again.
---
 aj_core/src/queue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 85eda50..6b27229 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -347,7 +347,13 @@ where
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                 info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
+                // A cron job stays a cron job, it just has an extra tick
+                job.context.job_type = match job.context.job_type {
+                    JobType::Cron(expression, _, total_repeat, context) => {
+                        JobType::Cron(expression, next_retry_ms, total_repeat, context)
+                    }
+                    _ => JobType::ScheduledAt(next_retry_ms),
+                };
                 return self.re_enqueue(job);
             }
         }
-- 
2.43.0


From 9287437203a1c1a68f4e8d9a13511132e721814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 07/31] fix: exponential backoff does not overflow

From the 31st retry on (or earlier with a long initial backoff) computing the
next retry panicked and stopped the queue.
---
 aj_core/src/job/retry.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..04bb5c3 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -57,12 +57,16 @@ impl Retry {
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
         self.retried_times += 1;
         let final_now = now.unwrap_or(get_now());
-        match &self.strategy {
-            RetryStrategy::Interval(internal_time) => final_now + *internal_time,
-            RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
-            }
-        }
+        let delay = match &self.strategy {
+            RetryStrategy::Interval(internal_time) => Some(*internal_time),
+            RetryStrategy::ExponentialBackoff(initial_backoff) => 2_i32
+                .checked_pow(self.retried_times as u32)
+                .and_then(|factor| initial_backoff.checked_mul(factor)),
+        };
+        // A delay beyond the range of time types means as late as possible
+        delay
+            .and_then(|delay| final_now.checked_add_signed(delay))
+            .unwrap_or(DateTime::<Utc>::MAX_UTC)
     }
 }
 
-- 
2.43.0


From 029b3df258067f139d65e747c1836ce1826b4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:18 +0000
Subject: [PATCH 08/31] fix: enqueueing an existing job keeps its status and
 honours override_data

Overriding the data of a done job without re_run also replaced its status by
that of the new job: it was reported as queued but never ran again. And re_run
without override_data replaced the data all the same.
---
 aj_core/src/queue.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 6b27229..ab5eaac 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -115,13 +115,28 @@ where
     pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
-        if let Some(existing_job) = existing_job {
+        if let Some(mut existing_job) = existing_job {
+            if config.re_run && existing_job.is_done() {
+                info!("[WorkQueue] Re run job {}", existing_job.id());
+                return self.enqueue(if config.override_data {
+                    job
+                } else {
+                    existing_job
+                });
+            }
+
             if config.override_data && !existing_job.is_running() {
                 info!(
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
+                // The job stays where it is: a queued job waits on, a done job stays done
+                existing_job.data = job.data.clone();
+                if existing_job.is_queued() {
+                    existing_job.context = job.context.clone();
+                    existing_job.context.job_status = JobStatus::Queued;
+                }
+                upsert_to_storage(self.backend.deref(), key, &existing_job)?;
             } else {
                 info!(
                     "[WorkQueue] Job is running, skip update job data: {}",
@@ -129,11 +144,6 @@ where
                 );
             }
 
-            if config.re_run && existing_job.is_done() {
-                info!("[WorkQueue] Re run job {}", existing_job.id());
-                self.enqueue(job)?;
-            }
-
             return Ok(());
         }
 
-- 
2.43.0


From a7b746c01eeeb61502a73e3974997c9422f8bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:19 +0000
Subject: [PATCH 09/31] fix: an error of the storage is not a missing job

get_from_storage turned a failed read into None. Enqueueing an existing id then
overwrote it as if it were new, and cancel and retry reported success.
---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From 77d7b764dd79e4690fec216b50bd00c6511b47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:21 +0000
Subject: [PATCH 10/31] fix: do not exceed max_processing_jobs when counting
 fails

A failed count was taken as no running jobs.
---
 aj_core/src/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index ab5eaac..559eb69 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -251,7 +251,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
-- 
2.43.0


From c274428f2dee8a3bce294f32fdddb14b1e6a3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:54 +0000
Subject: [PATCH 11/31] fix: a backend error while picking jobs does not lose
 picked jobs

The jobs which were already moved to the running queue were dropped, and a job
whose move failed with them although it is picked again.
---
 aj_core/src/queue.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 559eb69..a4fa45f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -260,12 +260,20 @@ where
     }
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
+        let mut ready_jobs = vec![];
+        if let Err(err) = self.pick_ready_jobs(total, &mut ready_jobs) {
+            // The jobs picked so far are already marked as running, they must be executed
+            error!("[WorkQueue]: Cannot pick more jobs to process {err:?}");
+        }
+        Ok(ready_jobs)
+    }
+
+    fn pick_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         debug!("Try Picking {total} jobs in queue");
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -294,7 +302,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -302,6 +309,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -325,7 +333,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From de8f7bbf67adbbf9805942cadae1f3bdf5b6f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:56 +0000
Subject: [PATCH 12/31] fix: a job which is enqueued again is never left
 outside the queue

The job was stored as queued before it was put in the queue, and a failure to
put it there was only logged: the job was reported as queued and never ran.
---
 aj_core/src/queue.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index a4fa45f..cbe0eb4 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -162,11 +162,14 @@ where
         debug!("[WorkQueue] Re-run job {}", job.id());
 
         let current_queue = self.format_queue_name(job.context.job_status);
-        self.backend.queue_remove(&current_queue, job.id())?;
-        job.enqueue(self.backend.deref())?;
-
         let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
+        self.backend.queue_push(&queued_queue, job.id())?;
+        if let Err(e) = job.enqueue(self.backend.deref()) {
+            self.backend.queue_remove(&queued_queue, job.id())?;
+            return Err(e);
+        }
+
+        if let Err(e) = self.backend.queue_remove(&current_queue, job.id()) {
             error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
         };
         Ok(())
-- 
2.43.0


From aa54118caf126c1388c36d0f2b1d4fd5731a57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:57 +0000
Subject: [PATCH 13/31] fix: a job whose enqueueing failed leaves no trace in
 the queue

Its id stayed in the queue, and enqueueing it once more put it there twice.
---
 aj_core/src/queue.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index cbe0eb4..481162d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -153,9 +153,15 @@ where
     pub fn enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
         let key = job.id();
         info!("[WorkQueue] New Job {}", key);
-        self.backend
-            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
-        job.enqueue(self.backend.deref())
+        let queued_queue = self.format_queue_name(JobStatus::Queued);
+        // Left over by a failed attempt to enqueue or cancel it, it must not run twice
+        self.backend.queue_remove(&queued_queue, key)?;
+        self.backend.queue_push(&queued_queue, key)?;
+        if let Err(e) = job.enqueue(self.backend.deref()) {
+            self.backend.queue_remove(&queued_queue, job.id())?;
+            return Err(e);
+        }
+        Ok(())
     }
 
     pub fn re_enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
-- 
2.43.0


From 84bcd54bfd1cc1b4cc0f068903be6ee851d0375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:59 +0000
Subject: [PATCH 14/31] fix: a job which panics fails, its queue goes on

The panic ended the queue: its other jobs never ran, and every further request
failed.
---
 aj_core/src/queue.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 481162d..eceaada 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -349,9 +349,21 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
-                let _ = this.mark_job_is_failed(job);
+            let (queue, running_job) = (this.clone(), job.clone());
+            // In a task of its own, a job which panics must not take the queue down
+            let task = actix_rt::spawn(async move { queue.execute_job(running_job).await });
+            match task.await {
+                Ok(Ok(())) => {}
+                Ok(Err(err)) => {
+                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
+                Err(err) => {
+                    error!("[WorkQueue] Job {} panicked: {:?}", job.id(), err);
+                    let mut job = job;
+                    job.context.run_count += 1;
+                    let _ = this.mark_job_is_failed(job);
+                }
             }
         };
         wrap_future::<_, Self>(task).spawn(ctx);
-- 
2.43.0


From 6707074d9f162e4d6c46c7a76a28efb487043c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:01 +0000
Subject: [PATCH 15/31] fix: jobs which wait for a free slot keep their order

Once enough jobs were picked, the rest of the batch was moved behind all other
queued jobs.
---
 aj_core/src/queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index eceaada..bdf203a 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -294,6 +294,11 @@ where
             current_cursor -= job_ids.len() as i32;
 
             for job_id in job_ids {
+                if ready_jobs.len() >= total {
+                    // Do not rotate the others, they keep their place in the queue
+                    break;
+                }
+
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
                     if job.is_expired() {
-- 
2.43.0


From 3b77bddbb10d1d5f3477a18c161bd88ff43abbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:02 +0000
Subject: [PATCH 16/31] fix: queue_get of no items from Redis is empty

As with InMemory. It returned the whole queue.
---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..17eb8a4 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        if count == 0 {
+            // -1 and -0 mean the whole list
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From b44f098a8320de332a838d6df7625c0a6f406874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:16 +0000
Subject: [PATCH 17/31] fix: #[job] accepts a function without arguments

---
 aj_macro/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index ab82a2b..746cc9a 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -93,6 +93,10 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         })
         .collect();
 
+    // A list (not the raw punctuated inputs), so that a function without arguments
+    // (or with a trailing comma) can be followed by the context argument.
+    let input_args: Vec<_> = fn_inputs.iter().collect();
+
     let fn_output_type = match fn_output {
         ReturnType::Default => quote! { () },
         ReturnType::Type(_, ty) => quote! { #ty },
@@ -159,13 +163,13 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#fn_inputs, context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#input_args,)* context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().context(context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#fn_inputs, context: aj::JobContext) {
+            pub fn just_run_with_context(#(#input_args,)* context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().context(context).just_run();
             }
-- 
2.43.0


From c3978ffe3b105a9ecb96d81b79fe1c4725aee069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:21 +0000
Subject: [PATCH 18/31] fix: storing the failure of a panicked job is tried
 again like any other

---
 aj_core/src/queue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index bdf203a..c646d2d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -367,7 +367,10 @@ where
                     error!("[WorkQueue] Job {} panicked: {:?}", job.id(), err);
                     let mut job = job;
                     job.context.run_count += 1;
-                    let _ = this.mark_job_is_failed(job);
+                    if this.mark_job_is_failed(job.clone()).is_err() {
+                        // As above, try once more
+                        let _ = this.mark_job_is_failed(job);
+                    }
                 }
             }
         };
-- 
2.43.0


From 1e6169694c4ee6e14fdeac917989eb6b6f2865e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:33 +0000
Subject: [PATCH 19/31] fix: a queue name which is taken is an error, the
 engine goes on

---
 aj_core/src/aj.rs    | 17 ++++++++++++-----
 aj_core/src/error.rs |  2 ++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 270f03e..9eeb5a4 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -150,7 +150,7 @@ impl AJ {
                 _type: PhantomData,
             };
             let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
-            aj_addr.send(message).await?
+            aj_addr.send(message).await??
         };
         enqueue_job(addr, job, config).await
     }
@@ -258,7 +258,7 @@ impl AJ {
 }
 
 #[derive(Message)]
-#[rtype(result = "Addr<WorkQueue<M>>")]
+#[rtype(result = "Result<Addr<WorkQueue<M>>, Error>")]
 pub struct InitWorkQueue<M>
 where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
@@ -273,14 +273,21 @@ where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
     WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
 {
-    type Result = Addr<WorkQueue<M>>;
+    type Result = Result<Addr<WorkQueue<M>>, Error>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
         // Another client may have registered the queue while this message was on its way
         if let Some(addr) = get_work_queue_address::<M>() {
-            return addr;
+            return Ok(addr);
         }
-        self.register(&msg.queue_name)
+        // Another type with this name, do not take the engine down
+        if QUEUE_REGISTRY
+            .registry_by_name
+            .contains_key(&msg.queue_name)
+        {
+            return Err(Error::QueueNameTaken(msg.queue_name));
+        }
+        Ok(self.register(&msg.queue_name))
     }
 }
 
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..f17a782 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,8 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    // Another job type is registered with this queue name
+    QueueNameTaken(String),
 }
 
 impl From<RedisError> for Error {
-- 
2.43.0


From 11089c0bce609fcf169421271f724366e11304b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:02 +0000
Subject: [PATCH 20/31] fix: a job which cannot be stored and read back is
 refused, not lost

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 8 ++++++++
 aj_core/src/queue.rs         | 3 +++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 37660fe..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index f17a782..cfa6914 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -9,6 +9,8 @@ pub enum Error {
     NoQueueRegister,
     // Another job type is registered with this queue name
     QueueNameTaken(String),
+    // The job cannot be written to, or read back from, the storage
+    Serde(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -23,6 +25,12 @@ impl From<cron::error::Error> for Error {
     }
 }
 
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::Serde(value)
+    }
+}
+
 impl From<MailboxError> for Error {
     fn from(value: MailboxError) -> Self {
         Self::MailboxError(value)
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c646d2d..cb5f8bc 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -113,6 +113,9 @@ where
     }
 
     pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+        // A job which cannot be read back would be accepted and lost
+        serde_json::from_str::<Job<M>>(&serde_json::to_string(&job)?)?;
+
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(mut existing_job) = existing_job {
-- 
2.43.0


From 13dc5b7d5f2180cf8b68ba9b27f1e4a2a410052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:02 +0000
Subject: [PATCH 21/31] fix: #[job] accepts an argument named context

---
 aj_macro/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index 746cc9a..8db89dc 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -97,6 +97,9 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
     // (or with a trailing comma) can be followed by the context argument.
     let input_args: Vec<_> = fn_inputs.iter().collect();
 
+    // Must not collide with an argument of that name
+    let context = syn::Ident::new("context", proc_macro::Span::mixed_site().into());
+
     let fn_output_type = match fn_output {
         ReturnType::Default => quote! { () },
         ReturnType::Type(_, ty) => quote! { #ty },
@@ -163,15 +166,15 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#(#input_args,)* context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#input_args,)* #context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
-                let job_id = msg.job().context(context).run().await?;
+                let job_id = msg.job().context(#context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#(#input_args,)* context: aj::JobContext) {
+            pub fn just_run_with_context(#(#input_args,)* #context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
-                msg.job().context(context).just_run();
+                msg.job().context(#context).just_run();
             }
         }
     };
-- 
2.43.0


From 21fb22c52a2f39ad3028b853474fc5231b202327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:15 +0000
Subject: [PATCH 22/31] fix: #[job] accepts mut arguments

---
 aj_macro/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index 8db89dc..63d4986 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -3,7 +3,7 @@ extern crate proc_macro;
 use convert_case::{Case, Casing};
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatType, ReturnType};
+use syn::{parse_macro_input, DeriveInput, FnArg, ItemFn, Pat, PatIdent, PatType, ReturnType};
 
 #[proc_macro_derive(BackgroundJob)]
 pub fn background_job_derive(input: TokenStream) -> TokenStream {
@@ -47,7 +47,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! {
                         pub #ident: #ty
                     })
@@ -65,7 +65,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     // TODO: This is a not good way to pass variable from struct to fn logic.
                     // IMHO, the best apporach is transform the original fn code to mapping with struct like destructure, etc to remove clone memory value.
                     Some(quote! { self.#ident.clone() })
@@ -82,7 +82,7 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(PatIdent { ident, .. }) = &**pat {
                     Some(quote! { #ident })
                 } else {
                     None
@@ -95,7 +95,15 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
     // A list (not the raw punctuated inputs), so that a function without arguments
     // (or with a trailing comma) can be followed by the context argument.
-    let input_args: Vec<_> = fn_inputs.iter().collect();
+    // Without `mut`, which is of the function only.
+    let mut input_args: Vec<_> = fn_inputs.iter().cloned().collect();
+    for arg in input_args.iter_mut() {
+        if let FnArg::Typed(PatType { pat, .. }) = arg {
+            if let Pat::Ident(PatIdent { mutability, .. }) = &mut **pat {
+                *mutability = None;
+            }
+        }
+    }
 
     // Must not collide with an argument of that name
     let context = syn::Ident::new("context", proc_macro::Span::mixed_site().into());
@@ -148,20 +156,20 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             impl #job_struct_name {
-                fn new(#fn_inputs) -> Self {
+                fn new(#(#input_args),*) -> Self {
                     Self {
                         #(#input_names),*
                     }
                 }
             }
 
-            pub async fn run(#fn_inputs) -> Result<String, aj::Error> {
+            pub async fn run(#(#input_args),*) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run(#fn_inputs) {
+            pub fn just_run(#(#input_args),*) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().just_run();
             }
-- 
2.43.0


From 3b8b232170e36d306633f48cdb9afd60f4201763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:04 +0000
Subject: [PATCH 23/31] fix: Redis reads up to any number of items

---
 aj_core/src/backend/redis.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 17eb8a4..ad2a256 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -62,6 +62,8 @@ impl Redis {
             return Ok(vec![]);
         }
 
+        let count = count.min(isize::MAX as usize);
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From b448335f5c9c8a0652157e9dc7a19efc97cf54b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:04 +0000
Subject: [PATCH 24/31] fix: moving more items than there are ends with the
 last one

---
 aj_core/src/backend/mem.rs   | 2 ++
 aj_core/src/backend/redis.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aj_core/src/backend/mem.rs b/aj_core/src/backend/mem.rs
index d97dd5b..c728384 100644
--- a/aj_core/src/backend/mem.rs
+++ b/aj_core/src/backend/mem.rs
@@ -49,6 +49,8 @@ impl Backend for InMemory {
                 };
                 if let Some(item) = item {
                     moving_items.push(item);
+                } else {
+                    break;
                 }
             }
         }
diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index ad2a256..c466f3a 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -45,6 +45,8 @@ impl Redis {
 
             if let Some(item) = result {
                 items.push(item)
+            } else {
+                break;
             }
         }
 
-- 
2.43.0


From 6bb5f7f95c4862fa343f118c63af1f03f9cbbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:40 +0000
Subject: [PATCH 25/31] fix: reading more items than there are ends with the
 last one

---
 aj_core/src/backend/mem.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/backend/mem.rs b/aj_core/src/backend/mem.rs
index c728384..1a0d961 100644
--- a/aj_core/src/backend/mem.rs
+++ b/aj_core/src/backend/mem.rs
@@ -88,6 +88,8 @@ impl Backend for InMemory {
                     for index in 0..count {
                         if let Some(item) = queue.get(index) {
                             items.push(item.to_string());
+                        } else {
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 4cfb75e2ff2710729acb7b738fc373ff685652aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:16 +0000
Subject: [PATCH 26/31] fix: a retry delay beyond what can be stored does not
 make the engine panic

---
 aj_core/src/job/retry.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index 04bb5c3..2706bd0 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -30,6 +30,16 @@ impl Default for Retry {
 
 impl Retry {
     pub fn new(retried_times: i32, max_retries: Option<i32>, strategy: RetryStrategy) -> Self {
+        // The longest delay which can be stored, beyond all dates
+        let longest = Duration::microseconds(i64::MAX);
+        let strategy = match strategy {
+            RetryStrategy::Interval(delay) => {
+                RetryStrategy::Interval(delay.clamp(-longest, longest))
+            }
+            RetryStrategy::ExponentialBackoff(delay) => {
+                RetryStrategy::ExponentialBackoff(delay.clamp(-longest, longest))
+            }
+        };
         Self {
             retried_times,
             max_retries,
-- 
2.43.0


From a2e90e3ca9419826c554beeba61accaf3a1cc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:58 +0000
Subject: [PATCH 27/31] fix: a cron job without any slot left is done, not
 executed at once

---
 aj_core/src/job/job_context.rs |  6 +++++-
 aj_core/src/job/mod.rs         | 12 +++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/job/job_context.rs b/aj_core/src/job/job_context.rs
index f8e38be..ab73a38 100644
--- a/aj_core/src/job/job_context.rs
+++ b/aj_core/src/job/job_context.rs
@@ -46,7 +46,11 @@ impl JobType {
     pub fn new_cron(expression: &str, context: CronContext) -> Result<Self, Error> {
         let schedule = Schedule::from_str(expression)?;
         let now = get_now();
-        let next_tick = schedule.after(&now).next().unwrap_or(now);
+        // An expression without any slot left is never ready
+        let next_tick = schedule
+            .after(&now)
+            .next()
+            .unwrap_or(DateTime::<Utc>::MAX_UTC);
         Ok(Self::Cron(expression.into(), next_tick, 1, context))
     }
 }
diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index b4fb472..5f1087e 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -172,13 +172,15 @@ where
         }
     }
 
-    /// A queued cron job which cannot be ready any more: it has used up its repeats or passed its end
+    /// A queued cron job which cannot be ready any more: it has used up its repeats or slots or passed its end
     pub(crate) fn is_expired(&self) -> bool {
         match &self.context.job_type {
-            JobType::Cron(_, _, total_repeat, context) => {
-                context
-                    .max_repeat
-                    .is_some_and(|max_repeat| max_repeat < *total_repeat)
+            JobType::Cron(_, next_slot, total_repeat, context) => {
+                let never = DateTime::<Utc>::MAX_UTC.timestamp();
+                (self.context.run_count == 0 && next_slot.timestamp() == never)
+                    || context
+                        .max_repeat
+                        .is_some_and(|max_repeat| max_repeat < *total_repeat)
                     || context.end_at.is_some_and(|end_at| end_at < get_now())
             }
             _ => false,
-- 
2.43.0


From 3d90bbbe8c82cf840d0977d45af5e80b1c785ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:13 +0000
Subject: [PATCH 28/31] fix: a cancelled job is not executed, even if its
 cancellation was interrupted

---
 aj_core/src/queue.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index cb5f8bc..67d849d 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -304,6 +304,12 @@ where
 
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
+                    if job.is_done() {
+                        // Left over by a cancellation which was interrupted
+                        self.backend.queue_remove(&idle_queue_name, &job_id)?;
+                        continue;
+                    }
+
                     if job.is_expired() {
                         // Will never be ready again
                         self.mark_job_is_finished(job)?;
@@ -425,8 +431,13 @@ where
             // Only cancel queued job
             if job.is_queued() {
                 job.cancel(self.backend.deref())?;
-                self.backend
-                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
+                if let Err(e) = self
+                    .backend
+                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)
+                {
+                    // It is cancelled all the same, the next poll removes it
+                    error!("[WorkQueue] Cannot remove cancelled {}: {:?}", job_id, e);
+                }
             } else {
                 warn!("[WorkQueue] Cannot cancel {:?} job", job.context.job_status);
             }
@@ -446,6 +457,9 @@ where
         if let Some(job) = job {
             // Only allow retry done job is (cancelled, failed, finished).
             if job.is_done() {
+                // Left over by a cancellation, it must not run twice
+                self.backend
+                    .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
                 self.re_enqueue(job)?;
                 return Ok(true);
             } else {
-- 
2.43.0


From 8575113321bac2e84a48e1824fe14cebaebcd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:23 +0000
Subject: [PATCH 29/31] fix: counting retries never overflows

A policy without a maximum which was retried i32::MAX times panicked (or
wrapped around to no retries so far).
---
 aj_core/src/job/retry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index 2706bd0..a4f0ab1 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -65,7 +65,7 @@ impl Retry {
     }
 
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
-        self.retried_times += 1;
+        self.retried_times = self.retried_times.saturating_add(1);
         let final_now = now.unwrap_or(get_now());
         let delay = match &self.strategy {
             RetryStrategy::Interval(internal_time) => Some(*internal_time),
-- 
2.43.0


From 1ee39f58059c7fad8977a85a36c2b1622aa9ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 30/31] fix: counting repeats never overflows

---
 aj_core/src/job/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index 5f1087e..33d1c52 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -206,7 +206,7 @@ where
                 job.context.job_type = JobType::Cron(
                     cron_expression.clone(),
                     upcoming_event,
-                    *total_repeat + 1,
+                    total_repeat.saturating_add(1),
                     context.clone(),
                 );
 
-- 
2.43.0


From f9f14ad573dc489a4ac6d7b9f50169ded3b20ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:30 +0000
Subject: [PATCH 31/31] fix: update_job updates the job it names

---
 aj_core/src/aj.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 9eeb5a4..f65d753 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -203,6 +203,8 @@ impl AJ {
             job.data = data;
             if let Some(context) = context {
                 job.context = context;
+                // Whatever id the context has, it is this job which is updated
+                job.context.job_id = job_id.to_string();
             }
             Self::add_job(job, M::queue_name()).await?;
         } else {
-- 
2.43.0

