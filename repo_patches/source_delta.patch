From 78b45d3165f7674bb6a99d4d43b523dd7813be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 01/27] fix: call after_run, not before_run, once a job has run

---
 aj_core/src/plugin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/plugin/mod.rs b/aj_core/src/plugin/mod.rs
index 710b33a..8231760 100644
--- a/aj_core/src/plugin/mod.rs
+++ b/aj_core/src/plugin/mod.rs
@@ -50,7 +50,7 @@ impl PluginCenter {
     {
         let msg: RunHook<M> = RunHook {
             job_id,
-            before: true,
+            before: false,
             phantom: PhantomData,
         };
         let _ = Self::from_registry().send(msg).await;
-- 
2.43.0


From 0a4dc9a4e99a38661dcdbef6b0bd893cab73dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 02/27] fix: concurrent first submissions of a job type share
 one queue

---
 aj_core/src/aj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index fa47a65..7260787 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -278,6 +278,11 @@ where
     type Result = Addr<WorkQueue<M>>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
+        // Another submission of this job type can have created the queue meanwhile
+        if let Some(addr) = get_work_queue_address::<M>() {
+            return addr;
+        }
+
         self.register(&msg.queue_name)
     }
 }
-- 
2.43.0


From 43314582675794c1408d2dee8b9a5d0e604a5e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:02 +0000
Subject: [PATCH 03/27] fix: jobs that find no free slot keep their place in
 the queue

---
 aj_core/src/queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c2ddfb3..3b67fce 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -267,6 +267,11 @@ where
             current_cursor -= job_ids.len() as i32;
 
             for job_id in job_ids {
+                // No slot left: the remaining jobs keep their position
+                if ready_jobs.len() >= total {
+                    break;
+                }
+
                 let job = get_from_storage::<Job<M>>(self.backend.deref(), &job_id)?;
                 if let Some(mut job) = job {
                     if job.is_ready()
-- 
2.43.0


From 52349d8aea324b189be826a7d2afd3647f6602cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 04/27] fix: a cron job without a further occurrence, repeat or
 time left completes

---
 aj_core/src/job/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/aj_core/src/job/mod.rs b/aj_core/src/job/mod.rs
index aa2aae3..4194e8b 100644
--- a/aj_core/src/job/mod.rs
+++ b/aj_core/src/job/mod.rs
@@ -173,7 +173,6 @@ where
     }
 
     pub(crate) fn next_tick(&mut self) -> Option<Self> {
-        let now = get_now();
         match &self.context.job_type {
             JobType::Cron(cron_expression, _, total_repeat, context) => {
                 let mut job = self.clone();
@@ -187,23 +186,23 @@ where
                 }
 
                 let schedule = schedule.unwrap();
-                if let Some(upcoming_event) = schedule.after(&get_now()).next() {
-                    job.context.job_type = JobType::Cron(
-                        cron_expression.clone(),
-                        upcoming_event,
-                        *total_repeat + 1,
-                        context.clone(),
-                    );
-                }
+                // No occurrence left -> job is done
+                let upcoming_event = schedule.after(&get_now()).next()?;
+                job.context.job_type = JobType::Cron(
+                    cron_expression.clone(),
+                    upcoming_event,
+                    *total_repeat + 1,
+                    context.clone(),
+                );
 
                 if let Some(max_repeat) = context.max_repeat {
-                    if max_repeat < *total_repeat {
+                    if max_repeat <= *total_repeat {
                         return None;
                     }
                 }
 
                 if let Some(end_at) = context.end_at {
-                    if end_at < now {
+                    if end_at < upcoming_event {
                         return None;
                     }
                 }
-- 
2.43.0


From a0e7f2e36c07840986a87083b8cf46a8c0672053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:27 +0000
Subject: [PATCH 05/27] fix: a cron job that is retried stays a cron job

---
 aj_core/src/queue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 3b67fce..0d5a2bd 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -345,7 +345,13 @@ where
         if let Some(retry_context) = job.context.retry.as_mut() {
             if let Some(next_retry_ms) = job.data.retry_at(retry_context, job_output).await {
                 info!("[WorkQueue] Retry this job. {}", job.id());
-                job.context.job_type = JobType::ScheduledAt(next_retry_ms);
+                job.context.job_type = match job.context.job_type {
+                    // Cron job is still a cron job after the retry
+                    JobType::Cron(expression, _, total_repeat, context) => {
+                        JobType::Cron(expression, next_retry_ms, total_repeat, context)
+                    }
+                    _ => JobType::ScheduledAt(next_retry_ms),
+                };
                 return self.re_enqueue(job);
             }
         }
-- 
2.43.0


From b26c31c9c287c30ee77d67f6cf967f34403a93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:41 +0000
Subject: [PATCH 06/27] fix: retry time saturates instead of overflowing

---
 aj_core/src/job/retry.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/job/retry.rs b/aj_core/src/job/retry.rs
index f49f5fd..f8cdd57 100644
--- a/aj_core/src/job/retry.rs
+++ b/aj_core/src/job/retry.rs
@@ -55,14 +55,17 @@ impl Retry {
     }
 
     pub fn retry_at(&mut self, now: Option<DateTime<Utc>>) -> DateTime<Utc> {
-        self.retried_times += 1;
+        self.retried_times = self.retried_times.saturating_add(1);
         let final_now = now.unwrap_or(get_now());
-        match &self.strategy {
-            RetryStrategy::Interval(internal_time) => final_now + *internal_time,
+        let delay = match &self.strategy {
+            RetryStrategy::Interval(internal_time) => Some(*internal_time),
             RetryStrategy::ExponentialBackoff(initial_backoff) => {
-                final_now + *initial_backoff * 2_i32.pow(self.retried_times as u32)
+                initial_backoff.checked_mul(2_i32.saturating_pow(self.retried_times as u32))
             }
-        }
+        };
+        delay
+            .and_then(|delay| final_now.checked_add_signed(delay))
+            .unwrap_or(DateTime::<Utc>::MAX_UTC)
     }
 }
 
-- 
2.43.0


From e3bea45c8578256f28764fdca320a54ffb11aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:42 +0000
Subject: [PATCH 07/27] fix: overriding the data of a job keeps its status

---
 aj_core/src/queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 0d5a2bd..5bef016 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -112,7 +112,7 @@ where
         })
     }
 
-    pub fn run_with_config(&self, job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+    pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(existing_job) = existing_job {
@@ -121,7 +121,9 @@ where
                     "[WorkQueue] Update exising job with new job data: {}",
                     job.id()
                 );
-                upsert_to_storage(self.backend.deref(), key, &job)?;
+                // Replacing the data doesn't move the job
+                job.context.job_status = existing_job.context.job_status;
+                upsert_to_storage(self.backend.deref(), job.id(), &job)?;
             } else {
                 info!(
                     "[WorkQueue] Job is running, skip update job data: {}",
-- 
2.43.0


From 1bb966e8fa823264eb44a33774654cbe01628c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:25 +0000
Subject: [PATCH 08/27] fix: a job that panics fails alone and leaves its queue
 running

---
 aj_core/src/queue.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 5bef016..d2bb7e8 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -322,9 +322,18 @@ where
         let this = self.clone();
         let task = async move {
             // TODO: Consider Smart Pointer to wrap job instead of clone
-            if let Err(err) = this.execute_job(job.clone()).await {
-                error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
-                let _ = this.mark_job_is_failed(job);
+            let (runner, running_job) = (this.clone(), job.clone());
+            // A panic of the job ends its own task, not the queue
+            match actix_rt::spawn(async move { runner.execute_job(running_job).await }).await {
+                Ok(Ok(())) => {}
+                Ok(Err(err)) => {
+                    error!("[WorkQueue] Execute job {} fail: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
+                Err(err) => {
+                    error!("[WorkQueue] Job {} panicked: {:?}", job.id(), err);
+                    let _ = this.mark_job_is_failed(job);
+                }
             }
         };
         wrap_future::<_, Self>(task).spawn(ctx);
-- 
2.43.0


From 4b3b037b8ab66b65ae18910745f90a96c909442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:25 +0000
Subject: [PATCH 09/27] fix: a storage error is not a missing job

---
 aj_core/src/backend/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 4a2886e..37660fe 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -61,7 +61,7 @@ pub fn get_from_storage<T: DeserializeOwned>(
     backend: &dyn Backend,
     key: &str,
 ) -> Result<Option<T>, Error> {
-    let value = backend.storage_get(STORAGE_HASH, key).ok().flatten();
+    let value = backend.storage_get(STORAGE_HASH, key)?;
     let item = match value {
         Some(value) => serde_json::from_str(&value).ok(),
         _ => None,
-- 
2.43.0


From 1efcfca6f8a8fa35ae382b2e80e78622a9a69d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 10/27] fix: a backend error while picking jobs neither drops
 picked jobs nor lifts the limit

---
 aj_core/src/queue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index d2bb7e8..c47be8a 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -243,7 +243,7 @@ where
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
         let processing_queue = self.format_queue_name(JobStatus::Running);
-        let total_processing_jobs = self.backend.queue_count(&processing_queue).unwrap_or(0);
+        let total_processing_jobs = self.backend.queue_count(&processing_queue)?;
         if total_processing_jobs >= self.config.max_processing_jobs {
             return Ok(vec![]);
         }
@@ -252,12 +252,21 @@ where
     }
 
     pub fn try_pick_specific_ready_jobs(&self, total: usize) -> Result<Vec<Job<M>>, Error> {
+        let mut ready_jobs = vec![];
+        if let Err(err) = self.collect_ready_jobs(total, &mut ready_jobs) {
+            // The jobs picked so far are already moved to processing queue
+            error!("[WorkQueue] Cannot pick more jobs: {err:?}");
+        }
+
+        Ok(ready_jobs)
+    }
+
+    fn collect_ready_jobs(&self, total: usize, ready_jobs: &mut Vec<Job<M>>) -> Result<(), Error> {
         debug!("Try Picking {total} jobs in queue");
         let idle_queue_name = self.format_queue_name(JobStatus::Queued);
         let processing_queue_name = self.format_queue_name(JobStatus::Running);
 
         let idle_queue_length = self.backend.queue_count(&idle_queue_name)?;
-        let mut ready_jobs = vec![];
         let mut current_cursor = idle_queue_length as i32;
 
         loop {
@@ -284,7 +293,6 @@ where
                     {
                         // Job is read to process. Put it in the ready list
                         job.process(self.backend.deref())?;
-                        ready_jobs.push(job);
                         self.backend.queue_move(
                             &idle_queue_name,
                             &processing_queue_name,
@@ -292,6 +300,7 @@ where
                             QueueDirection::Back,
                             QueueDirection::Front,
                         )?;
+                        ready_jobs.push(job);
                         continue;
                     }
                 }
@@ -315,7 +324,7 @@ where
             }
         }
 
-        Ok(ready_jobs)
+        Ok(())
     }
 
     pub fn execute_job_task(&self, job: Job<M>, ctx: &mut Context<WorkQueue<M>>) {
-- 
2.43.0


From 8c87633192e41b0caa8c0fee89296a580c02be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:26 +0000
Subject: [PATCH 11/27] fix: submitting again after a failed submission queues
 the job once

---
 aj_core/src/queue.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c47be8a..03cb0e9 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -143,11 +143,20 @@ where
     }
 
     pub fn enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
-        let key = job.id();
-        info!("[WorkQueue] New Job {}", key);
-        self.backend
-            .queue_push(&self.format_queue_name(JobStatus::Queued), key)?;
-        job.enqueue(self.backend.deref())
+        info!("[WorkQueue] New Job {}", job.id());
+        self.push_queued_job(&mut job)
+    }
+
+    fn push_queued_job(&self, job: &mut Job<M>) -> Result<(), Error> {
+        let queued_queue = self.format_queue_name(JobStatus::Queued);
+        // An earlier attempt can have left the id in queue, don't queue it twice
+        self.backend.queue_remove(&queued_queue, job.id())?;
+        self.backend.queue_push(&queued_queue, job.id())?;
+        if let Err(err) = job.enqueue(self.backend.deref()) {
+            let _ = self.backend.queue_remove(&queued_queue, job.id());
+            return Err(err);
+        }
+        Ok(())
     }
 
     pub fn re_enqueue(&self, mut job: Job<M>) -> Result<(), Error> {
-- 
2.43.0


From cdd110e722275f9fee08a168530fe3826df31bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:27 +0000
Subject: [PATCH 12/27] fix: re-enqueueing a job does not lose it on a crash or
 backend error

---
 aj_core/src/queue.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 03cb0e9..0389671 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -163,12 +163,10 @@ where
         debug!("[WorkQueue] Re-run job {}", job.id());
 
         let current_queue = self.format_queue_name(job.context.job_status);
-        self.backend.queue_remove(&current_queue, job.id())?;
-        job.enqueue(self.backend.deref())?;
-
-        let queued_queue = self.format_queue_name(JobStatus::Queued);
-        if let Err(e) = self.backend.queue_push(&queued_queue, job.id()) {
-            error!("[WorkQueue] Cannot re enqueue {}: {:?}", job.id(), e);
+        // Job is always in at least one queue, whenever the process stops
+        self.push_queued_job(&mut job)?;
+        if let Err(e) = self.backend.queue_remove(&current_queue, job.id()) {
+            error!("[WorkQueue] Cannot remove {}: {:?}", job.id(), e);
         };
         Ok(())
     }
-- 
2.43.0


From 0b0becbbfa771a9114ee9f3b6a7081f81571a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:27 +0000
Subject: [PATCH 13/27] fix: a job that cannot be serialised is refused

---
 aj_core/src/backend/types.rs | 2 +-
 aj_core/src/error.rs         | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/backend/types.rs b/aj_core/src/backend/types.rs
index 37660fe..1878ba0 100644
--- a/aj_core/src/backend/types.rs
+++ b/aj_core/src/backend/types.rs
@@ -48,7 +48,7 @@ pub fn upsert_to_storage<T: Serialize>(
     key: &str,
     value: T,
 ) -> Result<(), Error> {
-    let value = serde_json::to_string(&value).unwrap_or("".into());
+    let value = serde_json::to_string(&value)?;
     let res = backend.storage_upsert(STORAGE_HASH, key, value);
     if let Err(e) = &res {
         warn!("[Storage] Upsert failed {key} Failed {:?}", e);
diff --git a/aj_core/src/error.rs b/aj_core/src/error.rs
index 5f25ffe..5c12b5a 100644
--- a/aj_core/src/error.rs
+++ b/aj_core/src/error.rs
@@ -7,6 +7,7 @@ pub enum Error {
     CronError(cron::error::Error),
     MailboxError(MailboxError),
     NoQueueRegister,
+    Serialize(serde_json::Error),
 }
 
 impl From<RedisError> for Error {
@@ -21,6 +22,12 @@ impl From<cron::error::Error> for Error {
     }
 }
 
+impl From<serde_json::Error> for Error {
+    fn from(value: serde_json::Error) -> Self {
+        Self::Serialize(value)
+    }
+}
+
 impl From<MailboxError> for Error {
     fn from(value: MailboxError) -> Self {
         Self::MailboxError(value)
-- 
2.43.0


From 4aa53ff7abc9dbf34f5f1f98a6fcb4969bb3671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:28 +0000
Subject: [PATCH 14/27] fix: reading zero items of a Redis queue returns none

---
 aj_core/src/backend/redis.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aj_core/src/backend/redis.rs b/aj_core/src/backend/redis.rs
index 76e81cc..b9214df 100644
--- a/aj_core/src/backend/redis.rs
+++ b/aj_core/src/backend/redis.rs
@@ -57,6 +57,11 @@ impl Redis {
         count: usize,
         queue_direction: QueueDirection,
     ) -> RedisResult<Vec<String>> {
+        // LRANGE 0 -1 is the whole list
+        if count == 0 {
+            return Ok(vec![]);
+        }
+
         let mut conn = self.client.get_connection()?;
         let items = match queue_direction {
             QueueDirection::Front => conn.lrange(queue, 0, count as isize - 1)?,
-- 
2.43.0


From b0e62eabb1f1faec71d6ea44467cccd705ac1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:28 +0000
Subject: [PATCH 15/27] fix: concurrent starts and address lookups see one AJ

---
 aj_core/src/aj.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 7260787..6f2d447 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -47,11 +47,7 @@ where
 }
 
 pub fn get_aj_address() -> Option<Addr<AJ>> {
-    if let Ok(addr) = AJ_ADDR.try_read() {
-        addr.clone()
-    } else {
-        None
-    }
+    AJ_ADDR.read().ok()?.clone()
 }
 
 pub struct AJ {
@@ -65,42 +61,39 @@ impl Actor for AJ {
 impl AJ {
     // Will use memory as Backend for AJ
     pub fn start(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
-        if let Some(aj_addr) = get_aj_address() {
+        // Hold the lock until AJ is registered, so that only one AJ is started
+        let mut aj_addr = AJ_ADDR.write().expect("AJ failed to start");
+        if let Some(aj_addr) = aj_addr.as_ref() {
             warn!("AJ is running. Return current AJ");
-            return aj_addr;
+            return aj_addr.clone();
         }
 
-        match System::try_current() {
+        let addr = match System::try_current() {
             Some(_) => {
                 info!("Found Actix Runtime, re-use it!");
-                Self::register_addr(backend);
+                Self::register_addr(backend)
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
                 std::thread::spawn(|| {
                     // Start the Actix runtime within this new thread
                     let _ = System::new();
-                    Self::register_addr(backend);
+                    Self::register_addr(backend)
                 })
                 .join()
-                .expect("Failed to start thread");
+                .expect("Failed to start thread")
             }
-        }
+        };
 
-        get_aj_address().expect("AJ address must be registered!")
+        *aj_addr = Some(addr.clone());
+        addr
     }
 
     fn register_addr(backend: impl Backend + Send + Sync + 'static) -> Addr<Self> {
         let arbiter: Arbiter = Arbiter::new();
-        let addr = <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
+        <Self as Actor>::start_in_arbiter(&arbiter.handle(), |_| Self {
             backend: Arc::new(backend),
-        });
-
-        if let Ok(ref mut aj_addr) = AJ_ADDR.try_write() {
-            **aj_addr = Some(addr.clone());
-        }
-
-        addr
+        })
     }
 
     pub fn quick_start() -> Addr<Self> {
-- 
2.43.0


From 8bc1f40ab6f3f87f7e675153f5833965c00056b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:29 +0000
Subject: [PATCH 16/27] fix: plugins work when AJ is started outside an Actix
 runtime

---
 aj_core/src/aj.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 6f2d447..cf20dea 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -75,13 +75,15 @@ impl AJ {
             }
             None => {
                 info!("No Actix Runtime, trying start new one in separated thread!");
-                std::thread::spawn(|| {
-                    // Start the Actix runtime within this new thread
-                    let _ = System::new();
-                    Self::register_addr(backend)
-                })
-                .join()
-                .expect("Failed to start thread")
+                let (sender, receiver) = std::sync::mpsc::channel();
+                std::thread::spawn(move || {
+                    // Start the Actix runtime within this new thread and keep it running,
+                    // it hosts the plugins
+                    let system = System::new();
+                    let _ = sender.send(Self::register_addr(backend));
+                    system.run()
+                });
+                receiver.recv().expect("Failed to start thread")
             }
         };
 
@@ -248,7 +250,23 @@ impl AJ {
         plugin: impl JobPlugin + Send + Sync + 'static,
     ) -> Result<(), Error> {
         let wrapper = JobPluginWrapper::new(plugin, vec![]);
-        PluginCenter::register(wrapper).await
+        match get_aj_address() {
+            // The caller isn't necessarily in the Actix runtime of AJ
+            Some(aj_addr) => aj_addr.send(AddPlugin(wrapper)).await?,
+            None => PluginCenter::register(wrapper).await,
+        }
+    }
+}
+
+#[derive(Message)]
+#[rtype(result = "Result<(), Error>")]
+struct AddPlugin(JobPluginWrapper);
+
+impl Handler<AddPlugin> for AJ {
+    type Result = ResponseFuture<Result<(), Error>>;
+
+    fn handle(&mut self, msg: AddPlugin, _: &mut Self::Context) -> Self::Result {
+        Box::pin(PluginCenter::register(msg.0))
     }
 }
 
-- 
2.43.0


From 0ab59d3af88d644e30717b5df6c38034d9376f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:30 +0000
Subject: [PATCH 17/27] fix: update_job does not overwrite a concurrent change
 with stale state

---
 aj_core/src/aj.rs    | 17 +++++-------
 aj_core/src/queue.rs | 62 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 12 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index cf20dea..4bd2591 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -13,8 +13,8 @@ use crate::mem::InMemory;
 use crate::queue::{cancel_job, enqueue_job, WorkQueue};
 use crate::types::Backend;
 use crate::{
-    get_job, retry_job, update_work_queue_config, BackgroundJob, EnqueueConfig, Error, Executable,
-    JobContext, JobPlugin, JobPluginWrapper, PluginCenter, WorkQueueConfig,
+    get_job, retry_job, update_job, update_work_queue_config, BackgroundJob, EnqueueConfig, Error,
+    Executable, JobContext, JobPlugin, JobPluginWrapper, PluginCenter, WorkQueueConfig,
 };
 
 lazy_static! {
@@ -195,18 +195,13 @@ impl AJ {
             + 'static,
         WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
     {
-        let job = Self::get_job::<M>(job_id).await;
-        if let Some(mut job) = job {
-            job.data = data;
-            if let Some(context) = context {
-                job.context = context;
-            }
-            Self::add_job(job, M::queue_name()).await?;
+        let addr: Option<Addr<WorkQueue<M>>> = get_work_queue_address();
+        if let Some(queue_addr) = addr {
+            update_job(queue_addr, job_id, data, context).await
         } else {
             warn!("Cannot update non existing job {job_id}");
+            Ok(())
         }
-
-        Ok(())
     }
 
     pub async fn retry_job<M>(job_id: &str) -> Result<bool, Error>
diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 0389671..9505891 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 
 use crate::job::{Job, JobStatus};
 use crate::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
-use crate::{Error, Executable, JobType};
+use crate::{Error, Executable, JobContext, JobType};
 
 const DEFAULT_TICK_DURATION: Duration = Duration::from_millis(100);
 const MAX_PROCESSING_JOBS: usize = 20;
@@ -415,6 +415,24 @@ where
         Ok(job)
     }
 
+    pub fn update_job(
+        &self,
+        job_id: &str,
+        data: M,
+        context: Option<JobContext>,
+    ) -> Result<(), Error> {
+        if let Some(mut job) = get_from_storage::<Job<M>>(self.backend.deref(), job_id)? {
+            job.data = data;
+            if let Some(context) = context {
+                job.context = context;
+            }
+            self.run_with_config(job, EnqueueConfig::new_re_run())
+        } else {
+            warn!("Cannot update non existing job {job_id}");
+            Ok(())
+        }
+    }
+
     pub fn retry_job(&self, job_id: &str) -> Result<bool, Error> {
         let job = get_from_storage::<Job<M>>(self.backend.deref(), job_id)?;
 
@@ -564,6 +582,48 @@ where
     addr.send::<RetryJob<M>>(msg).await?
 }
 
+/// Read and write the job in one message, so that no other change gets lost in between
+#[derive(Message, Debug)]
+#[rtype(result = "Result<(), Error>")]
+pub struct UpdateJob<M>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+{
+    pub job_id: String,
+    pub data: M,
+    pub context: Option<JobContext>,
+}
+
+impl<M> Handler<UpdateJob<M>> for WorkQueue<M>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+    WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
+{
+    type Result = Result<(), Error>;
+
+    fn handle(&mut self, msg: UpdateJob<M>, _: &mut Self::Context) -> Self::Result {
+        self.update_job(&msg.job_id, msg.data, msg.context)
+    }
+}
+
+pub async fn update_job<M>(
+    addr: Addr<WorkQueue<M>>,
+    job_id: &str,
+    data: M,
+    context: Option<JobContext>,
+) -> Result<(), Error>
+where
+    M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
+    WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
+{
+    let msg = UpdateJob {
+        job_id: job_id.to_string(),
+        data,
+        context,
+    };
+    addr.send::<UpdateJob<M>>(msg).await?
+}
+
 #[derive(Message)]
 #[rtype(result = "()")]
 pub struct UpdateWorkQueue {
-- 
2.43.0


From 858c7af8494a27313f52e15c35be5200bf1960b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:27 +0000
Subject: [PATCH 18/27] fix: count a run that panicked

---
 aj_core/src/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 9505891..9f04434 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -348,6 +348,8 @@ where
                 }
                 Err(err) => {
                     error!("[WorkQueue] Job {} panicked: {:?}", job.id(), err);
+                    let mut job = job;
+                    job.context.run_count += 1;
                     let _ = this.mark_job_is_failed(job);
                 }
             }
-- 
2.43.0


From 1a28b55b449dc54a26f24788a04a7959151212f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:28 +0000
Subject: [PATCH 19/27] fix: repeating a cancel that failed halfway completes
 it

---
 aj_core/src/queue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 9f04434..b0a8585 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -402,6 +402,10 @@ where
             // Only cancel queued job
             if job.is_queued() {
                 job.cancel(self.backend.deref())?;
+            }
+
+            if job.is_cancelled() {
+                // Also when an earlier cancel stopped halfway
                 self.backend
                     .queue_remove(&self.format_queue_name(JobStatus::Queued), job_id)?;
             } else {
-- 
2.43.0


From 455f732caed895d7cce94c5a9c7b710aeda38336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:28 +0000
Subject: [PATCH 20/27] fix: jobs interrupted by a crash run again after the
 restart

---
 aj_core/src/queue.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index b0a8585..c367a07 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -107,11 +107,28 @@ where
 
         <Self as Actor>::start_in_arbiter(&arbiter.handle(), |ctx| {
             let mut q = WorkQueue::<M>::new(name, backend);
+            if let Err(err) = q.recover_processing_jobs() {
+                error!("[WorkQueue] Cannot recover processing jobs: {err:?}");
+            }
             q.process_jobs(ctx);
             q
         })
     }
 
+    /// Jobs which a stopped process left in processing queue: nobody runs them any more,
+    /// but they occupy the slots of the queue.
+    fn recover_processing_jobs(&self) -> Result<(), Error> {
+        let processing_queue = self.format_queue_name(JobStatus::Running);
+        let total = self.backend.queue_count(&processing_queue)?;
+        for job_id in self.get_processing_job_ids(total)? {
+            match self.read_job(&job_id)? {
+                Some(job) if job.is_running() => self.re_enqueue(job)?,
+                _ => self.remove_processing_job(&job_id),
+            }
+        }
+        Ok(())
+    }
+
     pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
@@ -181,8 +198,8 @@ where
 
     pub fn mark_job_is_finished(&self, mut job: Job<M>) -> Result<(), Error> {
         info!("Finish job {}", job.id());
-        self.remove_processing_job(job.id());
         job.finish(self.backend.deref())?;
+        self.remove_processing_job(job.id());
 
         let finished_queue = self.format_queue_name(JobStatus::Finished);
         if let Err(e) = self.backend.queue_push(&finished_queue, job.id()) {
-- 
2.43.0


From 4ef29896deb6642e01f831899b4d452fb34b9d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 21/27] fix: the job macro accepts functions without arguments,
 trailing comma or mut

---
 aj_macro/src/lib.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/aj_macro/src/lib.rs b/aj_macro/src/lib.rs
index ab82a2b..6296bef 100644
--- a/aj_macro/src/lib.rs
+++ b/aj_macro/src/lib.rs
@@ -47,7 +47,8 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(pat) = &**pat {
+                    let ident = &pat.ident;
                     Some(quote! {
                         pub #ident: #ty
                     })
@@ -65,7 +66,8 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(pat) = &**pat {
+                    let ident = &pat.ident;
                     // TODO: This is a not good way to pass variable from struct to fn logic.
                     // IMHO, the best apporach is transform the original fn code to mapping with struct like destructure, etc to remove clone memory value.
                     Some(quote! { self.#ident.clone() })
@@ -82,7 +84,8 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         .iter()
         .filter_map(|arg| {
             if let FnArg::Typed(PatType { pat, .. }) = arg {
-                if let Pat::Ident(ident) = &**pat {
+                if let Pat::Ident(pat) = &**pat {
+                    let ident = &pat.ident;
                     Some(quote! { #ident })
                 } else {
                     None
@@ -93,6 +96,23 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
         })
         .collect();
 
+    // Typed arguments, also without argument or with a trailing comma in the original list
+    let input_args: Vec<_> = fn_inputs
+        .iter()
+        .filter_map(|arg| {
+            if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
+                if let Pat::Ident(pat) = &**pat {
+                    let ident = &pat.ident;
+                    Some(quote! { #ident: #ty })
+                } else {
+                    None
+                }
+            } else {
+                None
+            }
+        })
+        .collect();
+
     let fn_output_type = match fn_output {
         ReturnType::Default => quote! { () },
         ReturnType::Type(_, ty) => quote! { #ty },
@@ -141,31 +161,31 @@ pub fn job(_attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             impl #job_struct_name {
-                fn new(#fn_inputs) -> Self {
+                fn new(#(#input_args),*) -> Self {
                     Self {
                         #(#input_names),*
                     }
                 }
             }
 
-            pub async fn run(#fn_inputs) -> Result<String, aj::Error> {
+            pub async fn run(#(#input_args),*) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run(#fn_inputs) {
+            pub fn just_run(#(#input_args),*) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().just_run();
             }
 
-            pub async fn run_with_context(#fn_inputs, context: aj::JobContext) -> Result<String, aj::Error> {
+            pub async fn run_with_context(#(#input_args,)* context: aj::JobContext) -> Result<String, aj::Error> {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 let job_id = msg.job().context(context).run().await?;
                 Ok(job_id)
             }
 
-            pub fn just_run_with_context(#fn_inputs, context: aj::JobContext) {
+            pub fn just_run_with_context(#(#input_args,)* context: aj::JobContext) {
                 let msg = #job_struct_name::new(#(#input_names),*);
                 msg.job().context(context).just_run();
             }
-- 
2.43.0


From 2ee025ba4102005cbbfea46d56e2856d9a0719c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 22/27] fix: refuse jobs that can't be read back from storage
 instead of accepting and never running them

---
 aj_core/src/queue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index c367a07..ab2d21b 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -130,6 +130,9 @@ where
     }
 
     pub fn run_with_config(&self, mut job: Job<M>, config: EnqueueConfig) -> Result<(), Error> {
+        // A job that can't be read back from storage would be accepted, but never run
+        serde_json::from_str::<Job<M>>(&serde_json::to_string(&job)?)?;
+
         let key = job.id();
         let existing_job = get_from_storage::<Job<M>>(self.backend.deref(), key)?;
         if let Some(existing_job) = existing_job {
-- 
2.43.0


From ba0d8fa75acea398b2f66585ef77c12120dbdc56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 23/27] fix: a new tick duration takes effect at once, not
 after the tick in progress

---
 aj_core/src/queue.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index ab2d21b..97aeb6f 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -71,6 +71,7 @@ where
     config: WorkQueueConfig,
     _type: PhantomData<M>,
     backend: Arc<dyn Backend>,
+    next_process: Option<SpawnHandle>,
 }
 
 impl<M> Actor for WorkQueue<M>
@@ -91,6 +92,7 @@ where
             config: WorkQueueConfig::default(),
             _type: PhantomData,
             backend,
+            next_process: None,
         }
     }
 
@@ -263,9 +265,10 @@ where
                 error!("[WorkQueue]: Cannot pick jobs to process {err:?}",);
             }
         }
-        ctx.run_later(self.config.process_tick_duration, |work_queue, ctx| {
+        let next_process = ctx.run_later(self.config.process_tick_duration, |work_queue, ctx| {
             work_queue.process_jobs(ctx);
         });
+        self.next_process = Some(next_process);
     }
 
     pub fn pick_jobs_to_process(&self) -> Result<Vec<Job<M>>, Error> {
@@ -663,8 +666,13 @@ where
 {
     type Result = ();
 
-    fn handle(&mut self, msg: UpdateWorkQueue, _: &mut Self::Context) -> Self::Result {
+    fn handle(&mut self, msg: UpdateWorkQueue, ctx: &mut Self::Context) -> Self::Result {
         self.config = msg.config;
+        // Don't wait until the end of a tick of the former config
+        if let Some(next_process) = self.next_process.take() {
+            ctx.cancel_future(next_process);
+        }
+        self.process_jobs(ctx);
     }
 }
 
-- 
2.43.0


From de062c2f55f9c4ef93ad1cb6fbdc72c83fb9cf03 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 24/27] fix: update_job updates the job it names whatever id
 the given context has

---
 aj_core/src/queue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 97aeb6f..2a5edde 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -454,6 +454,8 @@ where
             job.data = data;
             if let Some(context) = context {
                 job.context = context;
+                // The context doesn't have to be made for this job
+                job.context.job_id = job_id.to_string();
             }
             self.run_with_config(job, EnqueueConfig::new_re_run())
         } else {
-- 
2.43.0


From 23dba972709b777a9499469e2dd70863f11cf286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:13 +0000
Subject: [PATCH 25/27] fix: a panicking plugin doesn't silence the other
 plugins

The panic ended the PluginCenter actor: no plugin was called any more until the process restarted. Catch it per call.
---
 aj_core/src/plugin/job_plugin.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/aj_core/src/plugin/job_plugin.rs b/aj_core/src/plugin/job_plugin.rs
index 4827f79..578b0fd 100644
--- a/aj_core/src/plugin/job_plugin.rs
+++ b/aj_core/src/plugin/job_plugin.rs
@@ -1,4 +1,7 @@
 use std::any::TypeId;
+use std::future::{poll_fn, Future};
+use std::panic::{catch_unwind, AssertUnwindSafe};
+use std::task::Poll;
 
 use async_trait::async_trait;
 
@@ -58,21 +61,21 @@ impl JobPluginWrapper {
     ) {
         let type_id = TypeId::of::<Job<M>>();
         if self.should_run(type_id) {
-            self.hook.change_status(job_id, status).await;
+            catch_panic(self.hook.change_status(job_id, status)).await;
         }
     }
 
     pub(crate) async fn before_run<M: Executable + Clone + 'static>(&self, job_id: &str) {
         let type_id = TypeId::of::<Job<M>>();
         if self.should_run(type_id) {
-            self.hook.before_run(job_id).await;
+            catch_panic(self.hook.before_run(job_id)).await;
         }
     }
 
     pub(crate) async fn after_run<M: Executable + Clone + 'static>(&self, job_id: &str) {
         let type_id = TypeId::of::<Job<M>>();
         if self.should_run(type_id) {
-            self.hook.after_run(job_id).await;
+            catch_panic(self.hook.after_run(job_id)).await;
         }
     }
 
@@ -85,6 +88,19 @@ impl JobPluginWrapper {
     }
 }
 
+/// A panic of one plugin ends its own call, not the other plugins
+async fn catch_panic(hook: impl Future<Output = ()>) {
+    let mut hook = Box::pin(hook);
+    poll_fn(move |cx| {
+        let poll = catch_unwind(AssertUnwindSafe(|| hook.as_mut().poll(cx)));
+        poll.unwrap_or_else(|_| {
+            error!("[Plugin] Plugin panicked");
+            Poll::Ready(())
+        })
+    })
+    .await
+}
+
 #[cfg(test)]
 mod tests {
     use std::{
-- 
2.43.0


From 469b0f9eea3e966f0b5ff714dbeb2cb5add93ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:59 +0000
Subject: [PATCH 26/27] fix: repeat the recovery of interrupted jobs if the
 backend fails at the start

A backend error while the queue starts left the jobs of the stopped process in the processing queue: they never ran and kept their slots. Try again in the next tick, and pick no job before.
---
 aj_core/src/queue.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/queue.rs b/aj_core/src/queue.rs
index 2a5edde..fe2f1ca 100644
--- a/aj_core/src/queue.rs
+++ b/aj_core/src/queue.rs
@@ -72,6 +72,7 @@ where
     _type: PhantomData<M>,
     backend: Arc<dyn Backend>,
     next_process: Option<SpawnHandle>,
+    recovered: bool,
 }
 
 impl<M> Actor for WorkQueue<M>
@@ -93,6 +94,7 @@ where
             _type: PhantomData,
             backend,
             next_process: None,
+            recovered: false,
         }
     }
 
@@ -109,14 +111,21 @@ where
 
         <Self as Actor>::start_in_arbiter(&arbiter.handle(), |ctx| {
             let mut q = WorkQueue::<M>::new(name, backend);
-            if let Err(err) = q.recover_processing_jobs() {
-                error!("[WorkQueue] Cannot recover processing jobs: {err:?}");
-            }
             q.process_jobs(ctx);
             q
         })
     }
 
+    /// Repeated in the next tick if backend fails, there is no job of this process to confuse
+    /// until it is done.
+    fn recover_once(&mut self) -> Result<(), Error> {
+        if !self.recovered {
+            self.recover_processing_jobs()?;
+            self.recovered = true;
+        }
+        Ok(())
+    }
+
     /// Jobs which a stopped process left in processing queue: nobody runs them any more,
     /// but they occupy the slots of the queue.
     fn recover_processing_jobs(&self) -> Result<(), Error> {
@@ -125,8 +134,9 @@ where
         for job_id in self.get_processing_job_ids(total)? {
             match self.read_job(&job_id)? {
                 Some(job) if job.is_running() => self.re_enqueue(job)?,
-                _ => self.remove_processing_job(&job_id),
+                _ => {}
             }
+            self.backend.queue_remove(&processing_queue, &job_id)?;
         }
         Ok(())
     }
@@ -255,7 +265,10 @@ where
     }
 
     pub fn process_jobs(&mut self, ctx: &mut Context<WorkQueue<M>>) {
-        match self.pick_jobs_to_process() {
+        match self
+            .recover_once()
+            .and_then(|_| self.pick_jobs_to_process())
+        {
             Ok(jobs) => {
                 for job in jobs {
                     self.execute_job_task(job, ctx);
-- 
2.43.0


From 2c290ad59e9fdeaceb1af381b402167013cb57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:43 +0000
Subject: [PATCH 27/27] fix: a job type that claims the queue name of another
 is refused, AJ goes on

The panic ended the AJ actor: no further job type could be registered, and just_run of every type was lost.
---
 aj_core/src/aj.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/aj_core/src/aj.rs b/aj_core/src/aj.rs
index 4bd2591..e8e5a73 100644
--- a/aj_core/src/aj.rs
+++ b/aj_core/src/aj.rs
@@ -147,7 +147,7 @@ impl AJ {
                 _type: PhantomData,
             };
             let aj_addr = get_aj_address().expect("AJ is not start, please start it via AJ::start");
-            aj_addr.send(message).await?
+            aj_addr.send(message).await??
         };
         enqueue_job(addr, job, config).await
     }
@@ -266,7 +266,7 @@ impl Handler<AddPlugin> for AJ {
 }
 
 #[derive(Message)]
-#[rtype(result = "Addr<WorkQueue<M>>")]
+#[rtype(result = "Result<Addr<WorkQueue<M>>, Error>")]
 pub struct InitWorkQueue<M>
 where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
@@ -281,15 +281,24 @@ where
     M: Executable + Send + Sync + Clone + Serialize + DeserializeOwned + 'static,
     WorkQueue<M>: Actor<Context = Context<WorkQueue<M>>>,
 {
-    type Result = Addr<WorkQueue<M>>;
+    type Result = Result<Addr<WorkQueue<M>>, Error>;
 
     fn handle(&mut self, msg: InitWorkQueue<M>, _: &mut Self::Context) -> Self::Result {
         // Another submission of this job type can have created the queue meanwhile
         if let Some(addr) = get_work_queue_address::<M>() {
-            return addr;
+            return Ok(addr);
         }
 
-        self.register(&msg.queue_name)
+        // Refuse this job type only, a panic would stop AJ for all of them
+        if QUEUE_REGISTRY
+            .registry_by_name
+            .contains_key(&msg.queue_name)
+        {
+            error!("Queue {} belongs to another job type", msg.queue_name);
+            return Err(Error::NoQueueRegister);
+        }
+
+        Ok(self.register(&msg.queue_name))
     }
 }
 
-- 
2.43.0

