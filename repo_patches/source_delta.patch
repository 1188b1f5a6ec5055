From 6fe32da2f409c0c88dad6ac06a16887624747940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/74] fix: rotate the workers in the right direction when
 resuming

The first worker process must yield the samples of worker worker_id_offset (as documented).
For three or more workers, the sign was wrong, so resuming changed the order of the samples.
---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From ca600d1c98bab092809e6e7197dbdfc04f44bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 02/74] fix: worker ids and seeds when restoring samples of
 worker 0 or without workers

The override of the global worker id 0 was ignored, and without worker processes it failed with a
division by zero, or used the seed of the restoring rank.
---
 src/megatron/energon/worker.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index d1f6aed..9f4a07e 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -157,9 +157,9 @@ class WorkerConfig:
 
     def rank_worker_id(self) -> int:
         """Returns the self worker id within the current rank."""
-        if self._worker_override_global_rank:
+        if self._worker_override_global_rank is not None:
             assert self.worker_id_offset == 0
-            return self._worker_override_global_rank % self.num_workers
+            return self._worker_override_global_rank % max(self.num_workers, 1)
         worker_info = torch.utils.data.get_worker_info()
         if worker_info is None:
             return self.worker_id_offset
@@ -192,10 +192,10 @@ class WorkerConfig:
             return self._worker_override_global_rank
 
         if override_local_worker_id is not None:
-            return self.rank * self.num_workers + override_local_worker_id
+            return self.rank * max(self.num_workers, 1) + override_local_worker_id
         else:
             self.assert_worker()
-            return self.rank * self.num_workers + self.rank_worker_id()
+            return self.rank * max(self.num_workers, 1) + self.rank_worker_id()
 
     def worker_seed(self, override_local_worker_id: Optional[int] = None) -> int:
         """Returns the seed for the current worker (or a specified worker).
@@ -208,11 +208,8 @@ class WorkerConfig:
                 the current worker, which is the default.
         """
 
-        if self.num_workers == 0:
-            # If we are not using workers, different ranks should still get a different seed
-            global_worker_id = self.rank
-        else:
-            global_worker_id = self.global_worker_id(override_local_worker_id)
+        # If we are not using workers, different ranks still get a different seed
+        global_worker_id = self.global_worker_id(override_local_worker_id)
 
         seed_offset = self.seed_offset
 
-- 
2.43.0


From cafcda5cdfdf5d5d2459a78fb974b934b922d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/74] fix: do not cache the worker seed in
 stateless(restore_seeds=True)

The seed of the first call was kept for all later uses of the function in the process, even when
a sample of another worker is restored or another worker config is active.
---
 src/megatron/energon/task_encoder/base.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..75a96cc 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,9 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
-
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +181,7 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From 9c883930edec58780593bd1d63ae14c28b2a4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 04/74] fix: LimitDataset fetched one sample more than the
 limit

The additional sample was dropped, but its side effects (e.g. on the random generators, or a
blocking read) made the epochs after a resume differ from the uninterrupted run.
---
 src/megatron/energon/wrappers/limit_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..09b54f7 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -86,9 +86,10 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
         )
         # Only iterate self.dataset if there are samples to iterate
         if len(offset_range) > 0:
-            for sample, offset in zip(
-                self.dataset,
+            # The offsets must come first, to not fetch a sample from the dataset which is dropped
+            for offset, sample in zip(
                 offset_range,
+                self.dataset,
             ):
                 self._current_offset[worker_id] = offset + 1
                 yield sample
-- 
2.43.0


From defca75129d3622fc4c0c0cc536e5ab2be4fa602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 05/74] fix: WorkerRng.restore_state(None) must reset to the
 initial state

Previously, the random generator just continued.
---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..015898e 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,8 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            # Back to the initial state, i.e. seeded again on next use
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From 4ad1fc1c7b854783f376a35fdd6be4923dbc3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/74] fix: RepeatDataset lost a repetition when resuming, and
 was empty when iterated again

The state saved within a repetition pointed to the next one, and the offset was never reset.
---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..c0cf41f 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                self._offset[worker_idx] = offset
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,8 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            # Start from the first repetition for the next iteration
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From 176fac86323488148aa41790e22e11899ad4cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 07/74] fix: EpochizeDataset kept the old inner iterator when
 restoring a state

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..f5511d5 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # The active iterator belongs to the previous state
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From aeab523a37052fea88c6f7bcf7e918022f2ec467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 08/74] fix: PackingDataset created bogus packs for a worker in
 its initial state

Merging the state of a worker which did not emit anything yet created two empty packs.
---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..f548dc2 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 0e3f7faa82e1f49844748bb1e54dfb66c2ee9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 09/74] fix: GroupBatchDataset restored the bucket contents to
 all workers but the own one

Also restoring to the initial state must reset the sample indexes.
---
 src/megatron/energon/wrappers/group_batch_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..ec53c38 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
@@ -273,7 +275,7 @@ class GroupBatchDataset(
                                 buffer=[
                                     (
                                         []
-                                        if gen_worker_idx == worker_idx
+                                        if gen_worker_idx != worker_idx
                                         else bucket_state.samples.buffer
                                     )
                                     for gen_worker_idx in range(
-- 
2.43.0


From 7760d1f23985b6b36d0dc7268a40e1fb3e882307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 10/74] fix: apply encode_batch and the stateless flag of batch
 when grouping batches

---
 src/megatron/energon/task_encoder/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 75a96cc..41118d2 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -395,9 +395,18 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0


From 6408616fed5d27dab4f58b55d3560c5eb774a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/74] fix: MapDataset resuming within a generator

The generator was restarted with the wrong sample index, its exceptions were not handled, and a
generator stopped by an exception was kept in the state, thus running again on resume.
---
 src/megatron/energon/wrappers/map_dataset.py | 53 +++++++++++---------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..c73f00a 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,33 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS as e:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -157,8 +163,6 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                             idx,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     yield add_sample_restore_key(
                         mapped_sample,
@@ -171,6 +175,9 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
                 self.error_handler(e, sample)
+            # Any generator is finished, also if it was stopped by an exception
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
     def save_state(self) -> MapState:
         state = MapState.extend(
-- 
2.43.0


From 7bfbd804f4bbfc5a8b59e25bb4024d843b7b2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 12/74] fix: BatchDataset restore keys after skipped batches,
 and resuming within a generator

The restore keys of a skipped or failed batch were added to the next batch. Resuming within a
generator used the wrong sample index, did not handle its exceptions, and a generator stopped by an
exception was kept in the state.
---
 .../energon/wrappers/batch_dataset.py         | 59 +++++++++++--------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..aa5ebac 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,37 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -182,25 +189,27 @@ class BatchDataset(
                             *sample_restore_keys,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
                 self.error_handler(e, batch)
+            # Any generator is finished, also if it was stopped by an exception
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
         for sample in self.dataset:
             batch.append(sample)
             sample_restore_keys.append(get_sample_restore_key(sample))
             if len(batch) == self.batch_size:
                 yield from flush()
+                # Start new lists also if the batch was skipped
                 batch = []
+                sample_restore_keys = []
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
 
-- 
2.43.0


From 1716cf0b28c1775214fb3aa678eea74aeafaafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 13/74] fix: BatchDataset length with an uneven number of
 samples per worker

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index aa5ebac..f32ca74 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 4bd12cd07ce17f9b50974174111f34f9144edf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 14/74] fix: BlendDataset restore keys if some datasets have no
 samples for the worker

The key referred to the filtered list of datasets, but restoring uses all datasets.
---
 src/megatron/energon/wrappers/blend_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..d19fdc9 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # The restore keys must refer to the index within all datasets
+        dataset_indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (dataset_idx, dataset, weight)
+                for dataset_idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +93,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, dataset_indexes[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From 026e27153014769133c637c39517541d967c24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 15/74] fix: ConcatDataset repeated the finished datasets when
 resuming

A finished dataset starts again when it is iterated again, thus the current dataset must be part of
the state.
---
 .../energon/wrappers/concat_dataset.py        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..6685371 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the dataset which is currently iterated
+    dataset_idx: int = 0
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the dataset which is currently iterated, for each worker
+    dataset_idxs: Optional[List[int]] = None
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -45,19 +49,24 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        # Start from the restored dataset, the datasets before were already iterated
+        for ds_idx in range(self._dataset_idx[worker_idx], len(self.datasets)):
+            self._dataset_idx[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._dataset_idx[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +74,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            dataset_idx=self._dataset_idx[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,9 +87,14 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            dataset_idxs=[0 if s is None else s.dataset_idx for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
+        if state is None or state.dataset_idxs is None:
+            self._dataset_idx = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            self._dataset_idx = list(state.dataset_idxs)
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
-- 
2.43.0


From 5b6e3cd21726c328e06bab34cf7b457b7feb1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 16/74] fix: IterMapDataset restore keys for multiple outputs
 per sample and after errors

Only the first sample yielded per inner sample had the key of the inner sample, and the key of a
failed sample was added to the next sample.
---
 src/megatron/energon/wrappers/iter_map_dataset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..e98b3b9 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -116,6 +116,10 @@ class IterMapDataset(
             # Resets the inner sample index
             nonlocal iter_idx, sample_restore_keys
             for entry in last_sample_wrapper:
+                if iter_idx > 0:
+                    # A new sample after samples were yielded. Until then, all yielded samples are
+                    # restored from the same inner samples.
+                    sample_restore_keys.clear()
                 iter_idx = 0
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
@@ -134,12 +138,13 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
                 self.error_handler(e, last_sample_wrapper.last_sample)
+                # The failed sample must not be part of the key of the next yielded sample
+                sample_restore_keys.clear()
             else:
                 break
 
-- 
2.43.0


From 0fcdb7be61745bea56b61936afcb5761ebefcf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 17/74] fix: restoring a state must not take over the lists of
 the state

The lists were modified while iterating, so a state could not be restored a second time (e.g.
to restart from the same checkpoint within one process).
---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 src/megatron/energon/rng.py                              | 2 +-
 src/megatron/energon/savable_loader.py                   | 2 +-
 src/megatron/energon/wrappers/base.py                    | 2 +-
 src/megatron/energon/wrappers/batch_dataset.py           | 4 ++--
 src/megatron/energon/wrappers/buffer.py                  | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py        | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py           | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py      | 2 +-
 src/megatron/energon/wrappers/map_dataset.py             | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py         | 2 +-
 src/megatron/energon/wrappers/repeat_dataset.py          | 2 +-
 12 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..d42b04c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -749,9 +749,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 015898e..8c291a2 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -116,7 +116,7 @@ class WorkerRng:
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-            self._restore_states = state.rng
+            self._restore_states = list(state.rng)
 
 
 @dataclass
diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..8aff309 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -570,7 +570,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self._restore_from = state.state
             self._worker_offset = worker_offset
             self.dataset.restore_state(state.dataset_state)
-            self._skip_samples = state.offset
+            self._skip_samples = list(state.offset)
 
     def can_restore_sample(self) -> bool:
         return self.dataset.can_restore_sample()
diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..c92ede5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,7 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index f32ca74..4f5e33e 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -260,8 +260,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..de17c04 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(keys) for keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index f5511d5..bebe2e6 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -130,7 +130,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index 09b54f7..d2e3a50 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -134,7 +134,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index c73f00a..f3df3d4 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -226,8 +226,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index f548dc2..d724ee5 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,7 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index c0cf41f..eb1be89 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -109,7 +109,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 4e541c831af64cde83fbfc51fb2e7c5f305f227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 18/74] fix: sample offsets and restore keys of shards with
 excluded samples

Excluded samples are part of the shard index, but did not count for the offset, so the restore keys
of the samples after an excluded sample referred to other samples.
---
 .../flavors/webdataset/single_shard_reader.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..daf7d53 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,10 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # Base name of the last entry (also if excluded), and number of excluded samples since the
+    # state offset was last updated.
+    _last_base_name: Optional[str] = None
+    _num_excluded: int = 0
 
     def __init__(
         self,
@@ -138,16 +142,27 @@ class SingleShardReader:
             self._cur_base_name, self._cur_ext = m.groups()
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
+            is_new_sample = self._cur_base_name != self._last_base_name
+            self._last_base_name = self._cur_base_name
             if self._cur_key in self.exclude:
+                if is_new_sample:
+                    self._num_excluded += 1
                 continue
             return
 
+    def _advance_offset(self, num_samples: int) -> None:
+        """Internally advances the sample offset, including the excluded samples before the next
+        sample, which also count as samples of the shard."""
+        self.shard_state.offset += num_samples + self._num_excluded
+        self._num_excluded = 0
+
     def read_next(
         self, for_group_name: Optional[str] = None, must_match: bool = False
     ) -> Tuple[str, FilteredSample]:
         """Gets the next sample, or raises StopIteration if exhausted."""
         if self._cur_tarinfo is None:
             self._next_tarinfo()
+            self._advance_offset(0)
         assert self._cur_tarinfo is not None
         assert self._cur_key is not None
 
@@ -179,7 +194,7 @@ class SingleShardReader:
                         next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
                     )
                     assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-                    self.shard_state.offset += 1
+                    self._advance_offset(1)
 
                     if self.worker_config.should_log(level=3):
                         self.worker_config.worker_log(
@@ -225,7 +240,7 @@ class SingleShardReader:
             next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
         )
         assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-        self.shard_state.offset += 1
+        self._advance_offset(1)
 
         if self.worker_config.should_log(level=3):
             self.worker_config.worker_log(
-- 
2.43.0


From fd2519f648924ebf7aef91871ec98e517d7c5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 19/74] fix: RetryReadStream returned only the last part of the
 data after short reads

Also, a failing open or seek was not retried properly, and the result was None if all retries were
short.
---
 src/megatron/energon/retry_stream.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..4b1766f 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -36,29 +36,32 @@ class RetryReadStream(BinaryIO):
 
     def read(self, n: int = -1) -> bytes:
         buf = b""
-        for retry in range(10):
+        retry = 0
+        while True:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                res = self._file.read(n if n < 0 else n - len(buf))
                 self._pos += len(res)
                 buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                if len(buf) == n or self._pos >= self._size:
+                    return buf
+                if len(res) > 0:
+                    # Short read, continue with the remaining data
+                    retry = 0
+                    continue
+                raise IOError(f"Unexpected end of file at {self._pos} of {self._size}")
             except IOError:
                 try:
-                    self._file.close()
+                    if self._file is not None:
+                        self._file.close()
                 except IOError:
                     pass
                 self._file = None
-                if retry == 9:
+                retry += 1
+                if retry == 10:
                     raise
-                continue
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
@@ -75,7 +78,8 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # Open the file again for the next read
+            self._file = None
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From 9ae5bb82636c9eaae79227ebd97f032e3c36ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 20/74] fix: save the sample index when not using workers

The batch index and the keys of the samples started from 0 again when resuming.
---
 src/megatron/energon/savable_loader.py | 33 +++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 8aff309..54d6c7a 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,35 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[MergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        elif isinstance(state, SimpleSavableDatasetMergedState):
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
+        else:
+            # State saved without the sample index
+            self.dataset.restore_state(state)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From 15eaddc9a5c2c6bcf8f3a88eeff68913e64c6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 21/74] fix: seed of workers without a sample when resuming

If the workers are rotated, the process was initialized with the seed of another worker.
---
 src/megatron/energon/savable_loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 54d6c7a..4d3c2a8 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -506,8 +506,11 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
     def _restore_state(self, state: SavableDatasetMergedState) -> None:
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
+        # Seed for a worker which did not emit a sample yet. Due to the worker offset, this process
+        # may have been initialized with the seed of another worker.
+        initial_seed = self.worker_config.worker_seed()
         if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
+            torch.manual_seed(initial_seed)
         else:
             torch.set_rng_state(
                 torch.frombuffer(
@@ -515,12 +518,12 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                 ).clone()
             )
         if state.numpy_rng[self._worker_id] is None:
-            np.random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            np.random.seed(initial_seed)
         else:
             np_tp, np_state, *np_rng = state.numpy_rng[self._worker_id]
             np.random.set_state((np_tp, np.frombuffer(np_state, dtype=np.uint32), *np_rng))
         if state.rng[self._worker_id] is None:
-            random.seed(torch.initial_seed() & 0xFFFFFFFF)
+            random.seed(initial_seed)
         else:
             random.setstate(state.rng[self._worker_id])
         self._sample_index = state.sample_index[self._worker_id]
-- 
2.43.0


From 5efd5f45896a142839f26c7f7925c5869230c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 22/74] fix: the final checkpoint of a worker must not remove a
 checkpoint still needed

Saving the state while the last samples of a worker were in the queues could fail with "No
checkpoint found".
---
 src/megatron/energon/savable_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 4d3c2a8..67c57dc 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -474,7 +474,10 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # A forced checkpoint does not have the minimum distance to the previous checkpoint, thus
+            # the previous ones may still be required for samples pending in the queues.
+            max_checkpoints = self.n_checkpoints + (1 if force else 0)
+            while len(self._last_checkpoints) > max_checkpoints:
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
-- 
2.43.0


From e2185628d831f3cd398f6342cfcd8984784a9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 23/74] fix: saving the state of the loader again shortly after
 restoring it

The sample counters and the next worker were not restored, so a state saved after a restore (before
all workers have emitted a sample) did not match the emitted samples, or saving failed with "No
checkpoint found". Saving before the first sample after restoring returned None, i.e. the initial
state. The same holds for workers which did not yet emit a sample at all: their counter started
with 0, i.e. their first sample was skipped when resuming.
---
 src/megatron/energon/savable_loader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 67c57dc..7052b61 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -701,7 +701,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     #: Instance of the current data iterator. There shall be only one active iterator, such that the
     # dataset is not iterated multiple times in parallel. The state will proceed.
     _persistent_iterator: Optional[Iterator[T]] = None
-    #: The index of the current worker
+    #: The restored state. Still the current state until the iteration starts.
+    _restored_state: Optional[SavableDataLoaderState] = None
+    #: The index of the last sample of each worker (-1 if nothing was emitted yet)
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
     _next_worker_id: int = 0
@@ -758,7 +760,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # Nothing emitted yet
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
@@ -919,8 +922,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial state, or the restored state
+            return self._restored_state
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -954,6 +957,15 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            # Proceed with the counters as if the samples before the state had been emitted here
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
+            self._next_worker_id = state.next_worker_id
+            self._restored_state = state
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 25a38a9d2ff0a50f963c71d545a159d2823a0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 24/74] fix: pass the sample key to the handler for samples
 that fail to load

---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..2763f03 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)):
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From 961e0b7dea13bb4a132be87ec2358848b15a7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 25/74] fix: report tar files with a damaged header instead of
 indexing them partially

---
 src/megatron/energon/flavors/webdataset/prepare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..a32fd93 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -96,6 +96,10 @@ class WebdatasetPreparator:
                             iw.append(member.offset)
                             last_base_name = base_name
                             count += 1
+                    # The iteration ends silently at a damaged header, verify that it is the end
+                    tar.fileobj.seek(tar.offset)
+                    if tar.fileobj.read(tarfile.BLOCKSIZE).strip(tarfile.NUL):
+                        raise tarfile.ReadError(f"Damaged header at offset {tar.offset}")
                     shard_info.count = count
                     iw.append(tar.offset)
             return shard_info, parts
-- 
2.43.0


From e13c4f47d69f15f11f37fe823459b72359116162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 26/74] fix: splitting by ratio could lose the last shard due
 to rounding

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index a32fd93..8dca606 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -239,7 +239,8 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                # The accumulated ratio is inexact, do not lose a shard by that
+                split_end = int(len(shards) * split_total + 1e-6)
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From 3ba684a5ab0f8f73e96c99c89ca32eed7598ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 27/74] fix: joining '..' to a remote path must not change the
 remote

---
 src/megatron/energon/epathlib/epath.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..95766de 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -196,6 +196,9 @@ class EPath:
 
     @property
     def parent(self):
+        if len(self.internal_path.parts) <= self.num_fs_path_parts:
+            # Like for the root folder, the parent of a remote's root is the root itself
+            return self
         new_path = EPath(self)
         new_path.internal_path = self.internal_path.parent
         return new_path
@@ -327,6 +330,9 @@ class EPath:
         new_path.internal_path = self._resolve(
             self.internal_path / (other if isinstance(other, str) else other.internal_path)
         )
+        if new_path._internal_fs_path != self._internal_fs_path:
+            # The remote name would change, but not the file system
+            raise ValueError(f"Path above root: {self} / {other}")
         return new_path
 
     def __rtruediv__(self, other: "EPath"):
-- 
2.43.0


From a7a774f23829f91be531fd53fb48005a2f6cbee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 28/74] fix: comparing an EPath with another type raised an
 AttributeError

---
 src/megatron/energon/epathlib/epath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 95766de..3e7d93b 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -370,4 +370,6 @@ class EPath:
         return hash((self.internal_path, self.protocol))
 
     def __eq__(self, other):
+        if not isinstance(other, EPath):
+            return NotImplemented
         return self.internal_path == other.internal_path and self.protocol == other.protocol
-- 
2.43.0


From 780124c16c46ad59128d7c86081e6cbdd9e7f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 29/74] fix: EPath.glob must take the path itself literally

---
 src/megatron/energon/epathlib/epath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 3e7d93b..faa8688 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2024, NVIDIA CORPORATION.
 # SPDX-License-Identifier: BSD-3-Clause
 
+import glob
 import os
 import re
 from pathlib import Path as PathlibPath
@@ -260,7 +261,10 @@ class EPath:
         self.fork_guard()
         assert self.is_absolute()
 
-        search_path_pattern = (self / pattern)._internal_nonfs_path
+        # The path itself is literal, only the argument is a pattern
+        base_path = EPath(self)
+        base_path.internal_path = PurePosixPath(glob.escape(str(self.internal_path)))
+        search_path_pattern = (base_path / pattern)._internal_nonfs_path
 
         if self.protocol != "local" and search_path_pattern.startswith("/"):
             # For some reason s3fs glob does not like leading /
-- 
2.43.0


From 5b75df76ab5677e6e0cbb20b5f72a8fda2875e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 30/74] fix: merged RandomRotation with expand at right angles
 has the size of the rotated image

The numerical error of sin/cos was rounded up to another pixel at both sides.
---
 src/megatron/energon/transforms/mappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 230218b..858d8d0 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -254,6 +254,9 @@ class RandomRotationMapper(TransformMapper[T.RandomRotation]):
             w = np.abs(np.sin(rads)) * dst_size[0] + np.abs(np.cos(rads)) * dst_size[1]
             h = np.abs(np.sin(rads)) * dst_size[1] + np.abs(np.cos(rads)) * dst_size[0]
 
+            # Remove the numerical error, such that right angles give integer sizes
+            w, h = np.round(w, 9), np.round(h, 9)
+
             # Round in the same way as PIL does
             rounded_w = np.ceil(orig_size[1] / 2 + w / 2) - np.floor(orig_size[1] / 2 - w / 2)
             rounded_h = np.ceil(orig_size[0] / 2 + h / 2) - np.floor(orig_size[0] / 2 - h / 2)
-- 
2.43.0


From ac5828d994ada7e01458b1d403269abffb7514db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 31/74] fix: merged RandomCrop applies the padding of the
 transform

The padding argument (and padding_mode) was ignored, and the size was modified in place.
---
 src/megatron/energon/transforms/mappers.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index 858d8d0..e2fc799 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -289,8 +289,21 @@ class RandomCropMapper(TransformMapper[T.RandomCrop]):
     def apply_transform(
         self, matrix: np.ndarray, dst_size: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, Any]:
+        assert self.transform.padding_mode == "constant", "Only constant padding is supported"
         th, tw = self.transform.size  # Target height and width
 
+        # Do not modify the size given
+        dst_size = dst_size.copy()
+
+        if self.transform.padding is not None:
+            padding = self.transform.padding
+            if isinstance(padding, numbers.Number):
+                padding = (padding,)
+            # left, top, right, bottom, the same ways to write it as for T.functional.pad
+            left, top, right, bottom = (tuple(padding) * 4)[:4]
+            matrix = self.translate(left, top) @ matrix
+            dst_size += (top + bottom, left + right)
+
         # pad the width if needed
         if self.transform.pad_if_needed and dst_size[1] < tw:
             padding = tw - dst_size[1]  # Pad this much on both left and right
-- 
2.43.0


From e30bbe6971ff24688b4c2046516392fafb32396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 32/74] fix: merged CenterCrop pads smaller images to the same
 sides as torchvision

---
 src/megatron/energon/transforms/mappers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/mappers.py b/src/megatron/energon/transforms/mappers.py
index e2fc799..b4335a9 100644
--- a/src/megatron/energon/transforms/mappers.py
+++ b/src/megatron/energon/transforms/mappers.py
@@ -418,8 +418,11 @@ class CenterCropMapper(TransformMapper[T.CenterCrop]):
         else:
             th, tw = self.transform.size
 
-        shift_y = round(float(th - dst_size[0]) / 2)
-        shift_x = round(float(tw - dst_size[1]) / 2)
+        # Same rounding as torchvision, which pads first and then crops
+        shift_y, shift_x = (
+            (target - size) // 2 if target > size else -round(float(size - target) / 2)
+            for target, size in ((th, int(dst_size[0])), (tw, int(dst_size[1])))
+        )
 
         matrix = self.translate(shift_x, shift_y) @ matrix
         dst_size = np.array((th, tw), dtype=dst_size.dtype)
-- 
2.43.0


From d20888741e49f143c3cdb25d7d1d2d7aa88a0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 33/74] fix: merged perspective transforms of tensors sample
 the pixel centers

The grid was aligned to the corners, while grid_sample is called with align_corners=False.
---
 src/megatron/energon/transforms/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/transforms/merge.py b/src/megatron/energon/transforms/merge.py
index 749b79d..d74ca6b 100644
--- a/src/megatron/energon/transforms/merge.py
+++ b/src/megatron/energon/transforms/merge.py
@@ -137,8 +137,9 @@ class MergeTransform(torch.nn.Module):
                     torch.Size((1, 3, *dst_size)),
                 )
             else:
-                xs = torch.linspace(-1, 1, dst_size[1], dtype=torch.float32)
-                ys = torch.linspace(-1, 1, dst_size[0], dtype=torch.float32)
+                # Pixel centers, as for affine_grid
+                xs = (torch.arange(dst_size[1], dtype=torch.float32) + 0.5) * (2 / dst_size[1]) - 1
+                ys = (torch.arange(dst_size[0], dtype=torch.float32) + 0.5) * (2 / dst_size[0]) - 1
                 zs = torch.ones((1,), dtype=torch.float32)
                 # shape: (2<x,y,1>, W, H)
                 grid = torch.stack(torch.meshgrid([xs, ys, zs], indexing="ij"))[..., 0]
-- 
2.43.0


From 3dc534a42c28952219bb32b48a69017a6db98f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:29 +0000
Subject: [PATCH 34/74] fix: padding a batch of tensors with different types
 must not truncate values

The batch got the type of the first tensor, e.g. cutting off the fractions of later samples.
---
 src/megatron/energon/task_encoder/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index 41118d2..eff23b7 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -92,7 +92,9 @@ def batch_stack(batch: List[Any]) -> Any:
 def batch_pad_stack(batch: List[Any]) -> Any:
     """Stack a batch of arbitrary-sized tensors padded with 0s."""
     max_size = [max(b.shape[dim] for b in batch) for dim in range(batch[0].ndim)]
-    batch_tensor = batch[0].new_zeros((len(batch), *max_size))
+    # As for stacking, mixed types are promoted instead of truncating to the type of the first tensor
+    dtype = functools.reduce(torch.promote_types, (b.dtype for b in batch))
+    batch_tensor = batch[0].new_zeros((len(batch), *max_size), dtype=dtype)
     for i, b in enumerate(batch):
         batch_tensor[(i, *(slice(0, s) for s in b.shape))] = b
     # Pad all tensors to max_size
-- 
2.43.0


From bf376912922127752ebb6a3547e7fa1e7429bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 35/74] fix: calling a function with a list of raw arguments
 bound them in reverse order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..1a54d91 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From 41973df19c9d5af3be39f8fc02ca508767bc2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 36/74] fix: raw_to_typed returned a list for tuples of fixed
 size

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 1a54d91..98afb5f 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 6adcc8e0a028d26db81940a46f75331938324344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 37/74] fix: defaults of typed fields and parameters are used
 as they are

They were converted like raw data, such that e.g. a tuple or an object as default was rejected as
wrong type when the field was missing.
---
 src/megatron/energon/typed_converter.py | 39 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 98afb5f..d72835e 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -300,7 +300,7 @@ def raw_to_typed(  # noqa: C901
         defaults = getattr(inst_type, "_field_defaults", {})
         kwargs = {
             field_name: raw_to_typed(
-                raw_data.get(field_name, defaults.get(field_name, _missing_value)),
+                raw_data.get(field_name, _missing_value),
                 field_type,
                 strict,
                 allow_imports,
@@ -308,6 +308,8 @@ def raw_to_typed(  # noqa: C901
                 _stage + (idx,),
             )
             for idx, (field_name, field_type) in enumerate(inst_type.__annotations__.items())
+            # Defaults are typed already
+            if field_name in raw_data or field_name not in defaults
         }
         if strict and not set(raw_data).issubset(inst_type.__annotations__):
             raise JsonValueError(
@@ -339,18 +341,7 @@ def raw_to_typed(  # noqa: C901
             )
         kwargs = {
             field.name: raw_to_typed(
-                raw_data.get(
-                    field.name,
-                    (
-                        (
-                            _missing_value
-                            if field.default_factory is dataclasses.MISSING
-                            else field.default_factory()
-                        )
-                        if field.default is dataclasses.MISSING
-                        else field.default
-                    ),
-                ),
+                raw_data.get(field.name, _missing_value),
                 field.type,
                 strict,
                 allow_imports,
@@ -359,6 +350,14 @@ def raw_to_typed(  # noqa: C901
             )
             for idx, field in enumerate(dataclasses.fields(inst_type))
             if field.init
+            # Defaults are typed already
+            and (
+                field.name in raw_data
+                or (
+                    field.default is dataclasses.MISSING
+                    and field.default_factory is dataclasses.MISSING
+                )
+            )
         }
         if strict and not set(raw_data).issubset(
             field.name for field in dataclasses.fields(inst_type) if field.init
@@ -556,8 +555,11 @@ def safe_call_function(
             ):
                 if param.default is inspect.Parameter.empty and key not in unused_args:
                     raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args:
+                    # Defaults are typed already
+                    continue
                 kwargs[key] = raw_to_typed(
-                    unused_args.pop(key, param.default),
+                    unused_args.pop(key),
                     t,
                     strict,
                     allow_imports,
@@ -589,6 +591,9 @@ def safe_call_function(
                     raise ValueError(
                         f"Missing required positional-only argument {key!r} at index {idx}"
                     )
+                if len(unused_args) == 0:
+                    # Defaults are typed already
+                    continue
                 args.append(
                     raw_to_typed(
                         unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
@@ -598,9 +603,9 @@ def safe_call_function(
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
                 if len(unused_args) == 0:
-                    arg_val = param.default
-                else:
-                    arg_val = unused_args.pop(0)
+                    # Defaults are typed already
+                    continue
+                arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From 0c18bcfc580b94f747213b6741034886c04df2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 38/74] fix: X | Y annotations were not checked when converting
 raw data

---
 src/megatron/energon/typed_converter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d72835e..19c911e 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -7,6 +7,7 @@ import importlib
 import inspect
 import json
 import re
+import types
 import typing
 from typing import Any, Callable, Dict, Literal, Optional, Tuple, Type, TypeVar, Union
 
@@ -37,6 +38,9 @@ class _MissingValue:
 
 _missing_value = _MissingValue()
 
+# `Union[X, Y]` and (Python >= 3.10) `X | Y`
+_union_types = (Union, getattr(types, "UnionType", Union))
+
 TType = TypeVar("TType")
 
 
@@ -46,7 +50,7 @@ def _check_instance_type(cls, inst_type: Type) -> bool:
         return True
     elif typing.get_origin(inst_type) is not None:
         org = typing.get_origin(inst_type)
-        if org is Union:
+        if org in _union_types:
             for check_type in typing.get_args(inst_type):
                 if _check_instance_type(cls, check_type):
                     return True
@@ -238,7 +242,7 @@ def raw_to_typed(  # noqa: C901
                 _stage,
             )
         return raw_data
-    elif typing.get_origin(inst_type) is Union:
+    elif typing.get_origin(inst_type) in _union_types:
         # Union[union_types[0], union_types[1], ...]
         union_types = typing.get_args(inst_type)
         if None in union_types:
@@ -782,7 +786,7 @@ def override(  # noqa: C901
                 _stage,
             )
         return value
-    elif typing.get_origin(inst_type) is Union:
+    elif typing.get_origin(inst_type) in _union_types:
         # Union[union_types[0], union_types[1], ...]
         union_types = typing.get_args(inst_type)
         if isinstance(overrides, str):
-- 
2.43.0


From 6d6bbd87f5ad15332b1094eaa7bc1397a1a85204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 39/74] fix: raw_to_typed failed for None, and for List, Set
 and Dict without inner types

---
 src/megatron/energon/typed_converter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 19c911e..d5c2527 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -209,6 +209,8 @@ def raw_to_typed(  # noqa: C901
         )
     elif inst_type in (str, int, float, bool, None, type(None)):
         # Literal types or missing data
+        if inst_type is None:
+            inst_type = type(None)
         if not isinstance(raw_data, inst_type) and not (
             isinstance(raw_data, int) and inst_type == float
         ):
@@ -385,7 +387,7 @@ def raw_to_typed(  # noqa: C901
             )
     elif typing.get_origin(inst_type) is list:
         # List[inner_type]
-        (inner_type,) = typing.get_args(inst_type)
+        (inner_type,) = typing.get_args(inst_type) or (Any,)
         if not isinstance(raw_data, list):
             raise JsonValueError(
                 f"Expected {type_name} at {_path}, got {raw_data!r}",
@@ -402,7 +404,7 @@ def raw_to_typed(  # noqa: C901
         ]
     elif typing.get_origin(inst_type) is set:
         # Set[inner_type]
-        (inner_type,) = typing.get_args(inst_type)
+        (inner_type,) = typing.get_args(inst_type) or (Any,)
         if not isinstance(raw_data, list):
             raise JsonValueError(
                 f"Expected {type_name} at {_path}, got {raw_data!r}",
@@ -465,7 +467,7 @@ def raw_to_typed(  # noqa: C901
             )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
-        key_type, value_type = typing.get_args(inst_type)
+        key_type, value_type = typing.get_args(inst_type) or (str, Any)
         assert key_type is str
         if not isinstance(raw_data, dict):
             raise JsonValueError(
-- 
2.43.0


From 5ce9bd0fda315b5d32f67171b7dc26da4ecba606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 40/74] fix: to_json_object supports all the types which
 raw_to_typed supports

---
 src/megatron/energon/typed_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d5c2527..3bb9f24 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -1134,8 +1134,10 @@ def to_json_object(obj: Any) -> Any:
             for field in dataclasses.fields(obj)
             if field.init
         }
-    elif isinstance(obj, (list, tuple)):
+    elif isinstance(obj, (list, tuple, set)):
         return [to_json_object(val) for val in obj]
+    elif isinstance(obj, EPath):
+        return str(obj)
     elif isinstance(obj, dict):
         return {key: to_json_object(val) for key, val in obj.items()}
     else:
-- 
2.43.0


From 0202117d0cc2e07f6de63f3c426c3ab5a7f1d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 41/74] fix: overriding a value with False set it to True

---
 src/megatron/energon/typed_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 3bb9f24..2c5b849 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -764,7 +764,7 @@ def override(  # noqa: C901
             elif overrides == "True":
                 return True
             elif overrides == "False":
-                return True
+                return False
             return overrides
         if isinstance(value, (dict, list, tuple)):
             # Merge with dict, list, str
-- 
2.43.0


From 547bec4aaa3dc32119daa2a2add5f01bc4e1e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 42/74] fix: write the metadata yaml files atomically

---
 .../energon/flavors/webdataset/prepare.py         | 15 +++++++++++----
 src/megatron/energon/tools/prepare.py             |  4 ++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index 8dca606..f6971a8 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -37,6 +37,15 @@ logger = logging.getLogger(__name__)
 T = TypeVar("T", covariant=True)
 
 
+def write_yaml(path: EPath, data: Any, **kwargs) -> None:
+    """Writes a yaml file. It is first written to a .tmp file and then moved, such that an
+    interruption never leaves a partial (but possibly valid) file."""
+    tmp_path = path.parent / (path.name + ".tmp")
+    with tmp_path.open("w") as wf:
+        yaml.dump(data, wf, **kwargs)
+    tmp_path.move(path)
+
+
 class WebdatasetPreparator:
 
     @staticmethod
@@ -221,8 +230,7 @@ class WebdatasetPreparator:
         info = WebdatasetInfo(
             shard_counts={shard.name: shard.count for shard in shards},
         )
-        with (parent_path / MAIN_FOLDER_NAME / info_config).open("w") as wf:
-            yaml.dump(to_json_object(info), wf)
+        write_yaml(parent_path / MAIN_FOLDER_NAME / info_config, to_json_object(info))
 
         if split_parts_ratio is not None:
             # Normalize ratio
@@ -260,7 +268,6 @@ class WebdatasetPreparator:
                 ]
         # Save split config
         splits_config = WebdatasetSplits(split_parts=split_shards)
-        with (parent_path / MAIN_FOLDER_NAME / split_config).open("w") as wf:
-            yaml.dump(to_json_object(splits_config), wf)
+        write_yaml(parent_path / MAIN_FOLDER_NAME / split_config, to_json_object(splits_config))
 
         return found_parts
diff --git a/src/megatron/energon/tools/prepare.py b/src/megatron/energon/tools/prepare.py
index 7c2a38d..5654048 100644
--- a/src/megatron/energon/tools/prepare.py
+++ b/src/megatron/energon/tools/prepare.py
@@ -16,6 +16,7 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors import BaseWebdatasetFactory, CrudeWebdataset
 from megatron.energon.flavors.base_dataset import Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
+from megatron.energon.flavors.webdataset.prepare import write_yaml
 
 
 class CrudeSampleDummy:
@@ -379,8 +380,7 @@ def command(
                 dataset_definition["part_filter"] = "sample_loader.py:part_filter"
 
         # Write the dataset.yaml file
-        with (path / MAIN_FOLDER_NAME / "dataset.yaml").open("w") as f:
-            yaml.dump(dataset_definition, f, sort_keys=False)
+        write_yaml(path / MAIN_FOLDER_NAME / "dataset.yaml", dataset_definition, sort_keys=False)
     else:
         click.echo("You will have to add a dataset.yaml manually.")
 
-- 
2.43.0


From 085c0e94435a014b63ff25e186130e5885af8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 43/74] fix: do not yield a stale column when reading a joined
 sample failed

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index d42b04c..a10c18c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    complete = True
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,10 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            # The column is not available, don't pair with the previous sample
+                            complete = False
+                    if complete:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From 26de117fb4fe71f745a36d2606162246948a9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 44/74] fix: restore keys of joined samples can be restored

---
 .../energon/flavors/webdataset/joined_webdataset.py    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..4468777 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -234,12 +234,18 @@ class JoinedWebdatasetFactory(
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-        return set_sample_restore_key(
+        sample = set_sample_restore_key(
             self._sample_joiner(*loaded_samples),
-            *restore_key,
+            *restore_key[1:],
             src=self,
             fail_otherwise=True,
         )
+        # The sample loader restores keys of type "Webdataset", regardless of the factory
+        if isinstance(sample, dict):
+            sample["__restore_key__"] = tuple(restore_key)
+        else:
+            sample.__restore_key__ = tuple(restore_key)
+        return sample
 
     def config(self) -> Dict[str, Any]:
         return dict(
-- 
2.43.0


From f5ad0b684889037a0c7d937d08aba92bc122c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 45/74] fix: an outer subflavor overrides the subflavor of the
 dataset config

---
 src/megatron/energon/dataset_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/dataset_config.py b/src/megatron/energon/dataset_config.py
index c225df8..7efbaf3 100644
--- a/src/megatron/energon/dataset_config.py
+++ b/src/megatron/energon/dataset_config.py
@@ -104,6 +104,9 @@ def get_dataset_from_config(
         ),
         default_type=StandardWebdatasetFactory,
     )
+    if subflavor is not None:
+        # The config might have set it, but the outer setting overrides
+        dataset.subflavor = subflavor
     if dataset.subflavors is None:
         dataset.subflavors = subflavors
     elif subflavors is not None:
-- 
2.43.0


From 2b9afab629b10d99b93df64d0bc7664609544313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 46/74] fix: the default split_config of a join does not
 override those of the joined datasets

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..507b630 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -116,7 +116,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    #: If set, overrides the split config of all joined datasets
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From 982ca84da69929e875a1b615a405a98cc8f0bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 47/74] fix: nested shuffle_over_epochs multipliers with -1
 stay infinite

---
 src/megatron/energon/metadataset/loader_interface.py | 7 +++++++
 src/megatron/energon/metadataset/metadataset.py      | 7 ++++---
 src/megatron/energon/metadataset/metadataset_v2.py   | 7 ++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/metadataset/loader_interface.py b/src/megatron/energon/metadataset/loader_interface.py
index 79984a7..cd73234 100644
--- a/src/megatron/energon/metadataset/loader_interface.py
+++ b/src/megatron/energon/metadataset/loader_interface.py
@@ -8,6 +8,13 @@ from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.worker import WorkerConfig
 
 
+def multiply_epochs(multiplier: int, inner_multiplier: int) -> int:
+    """Combines nested `shuffle_over_epochs_multiplier`s, where -1 stands for infinite epochs."""
+    if multiplier == -1 or inner_multiplier == -1:
+        return -1
+    return multiplier * inner_multiplier
+
+
 class DatasetLoaderInterface(ABC):
     """General interface for a dataset loader."""
 
diff --git a/src/megatron/energon/metadataset/metadataset.py b/src/megatron/energon/metadataset/metadataset.py
index 2bc82d4..4c8925e 100644
--- a/src/megatron/energon/metadataset/metadataset.py
+++ b/src/megatron/energon/metadataset/metadataset.py
@@ -9,7 +9,7 @@ from megatron.energon.epathlib import EPath
 from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface, multiply_epochs
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +71,9 @@ class DatasetReference:
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index 507b630..9219476 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -10,7 +10,7 @@ from megatron.energon.flavors import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
 from megatron.energon.metadataset.join_dataset_loader import JoinDatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface, multiply_epochs
 from megatron.energon.worker import WorkerConfig
 
 
@@ -71,8 +71,9 @@ class DatasetReference(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor or self.subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
-            * self.shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=multiply_epochs(
+                shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+            ),
             **kwargs,
         )
 
-- 
2.43.0


From b2c02e490b01688e4a5937b3acacc5b640728c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 48/74] fix: a join applies its own
 shuffle_over_epochs_multiplier

---
 src/megatron/energon/metadataset/join_dataset_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/metadataset/join_dataset_loader.py b/src/megatron/energon/metadataset/join_dataset_loader.py
index 1d8cd23..514cbb7 100644
--- a/src/megatron/energon/metadataset/join_dataset_loader.py
+++ b/src/megatron/energon/metadataset/join_dataset_loader.py
@@ -11,7 +11,7 @@ from megatron.energon.flavors import (
     Sample,
 )
 from megatron.energon.metadataset.dataset_loader import DatasetLoader
-from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface
+from megatron.energon.metadataset.loader_interface import DatasetLoaderInterface, multiply_epochs
 from megatron.energon.worker import WorkerConfig
 
 
@@ -130,7 +130,9 @@ class JoinDatasetLoader(DatasetLoaderInterface):
                     worker_config=worker_config,
                     subflavor=subflavor,
                     subflavors=subflavors,
-                    shuffle_over_epochs=shuffle_over_epochs_multiplier,
+                    shuffle_over_epochs=multiply_epochs(
+                        shuffle_over_epochs_multiplier, self.shuffle_over_epochs_multiplier
+                    ),
                     **kwargs,
                 ),
                 1.0,
-- 
2.43.0


From a64664cdad1e0c82126bc09b9e2522e88b1e72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 49/74] fix: restored seeds must not depend on the number of
 workers per rank

---
 src/megatron/energon/task_encoder/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index eff23b7..bd769da 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -144,8 +144,9 @@ def stateless(
 
             # Before constructing the generator and before the first
             # iteration, set inner RNG based on seed computed
-            # from worker_seed and current sample index
-            SystemRng.seed_args(worker_seed, self.current_sample_index)
+            # from worker_seed and the worker's own sample index
+            # (which does not depend on the number of workers per rank)
+            SystemRng.seed_args(worker_seed, WorkerConfig._sample_index_stack[-1])
 
             it = iter(fn(self, *args, **kwargs))
 
@@ -188,7 +189,7 @@ def stateless(
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
 
-            SystemRng.seed_args(worker_seed, self.current_sample_index)
+            SystemRng.seed_args(worker_seed, WorkerConfig._sample_index_stack[-1])
 
             try:
                 return fn(self, *args, **kwargs)
-- 
2.43.0


From 406bcb85a3da11c77e1ccdbcdc916410ddfb1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 50/74] fix: ranks without the state must take part in the
 scatter when restoring from a source rank

---
 src/megatron/energon/savable_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 7052b61..5c28fc8 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1027,7 +1027,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            # Ranks other than the source rank have no state, but need to receive theirs
+            and (isinstance(state, list) or (src_rank is not None and state is None))
         ):
             if src_rank is None:
                 # All ranks have the state
@@ -1036,8 +1037,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             else:
                 # Only the src_rank has the state
                 if self.worker_config.rank != src_rank:
-                    # Send the state to all other ranks
+                    # Receive the state from the source rank
                     assert state is None
+                if state is None:
                     # Must still be a list of Nones
                     state = [None] * self.worker_config.world_size
                 local_object = [None]
-- 
2.43.0


From 4cfbef12b37d033db99236455a906421ebe32b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 51/74] fix: the source and destination ranks for saving and
 restoring are data parallel ranks

---
 src/megatron/energon/savable_loader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 5c28fc8..58e4195 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1001,13 +1001,23 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 else:
                     output = None
                 torch.distributed.gather_object(
-                    merged_state, output, dst_rank, group=self.worker_config.data_parallel_group
+                    merged_state,
+                    output,
+                    self._global_rank(dst_rank),
+                    group=self.worker_config.data_parallel_group,
                 )
             return output
         else:
             # Not distributed -> return the merged state
             return merged_state
 
+    def _global_rank(self, rank: int) -> int:
+        """Translates a data parallel rank to the rank within the default process group."""
+        group = self.worker_config.data_parallel_group
+        if group is None:
+            return rank
+        return torch.distributed.get_global_rank(group, rank)
+
     def restore_state(
         self,
         state: Union[SavableDataLoaderState, List[SavableDataLoaderState], None, List[None]],
@@ -1046,7 +1056,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 torch.distributed.scatter_object_list(
                     local_object,
                     state,
-                    src=src_rank,
+                    src=self._global_rank(src_rank),
                     group=self.worker_config.data_parallel_group,
                 )
                 state = local_object[0]
-- 
2.43.0


From c220f5f1052d49a601e8d9b24dd4a69ee55bcc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 52/74] fix: logging must cope with batches whose keys are not
 lists of strings

---
 src/megatron/energon/wrappers/log_sample_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index b0582e5..79ea1c2 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -18,6 +18,8 @@ T_sample = TypeVar("T_sample")
 def default_get_keys(batch: Any) -> Optional[List[str]]:
     """Default get_keys, which has some heuristics to find the sample keys."""
     if isinstance(batch, list):
+        if len(batch) == 0:
+            return None
         batch = batch[0]
     if (
         hasattr(batch, "__key__")
@@ -34,18 +36,21 @@ def default_get_keys(batch: Any) -> Optional[List[str]]:
     elif (
         isinstance(batch, dict)
         and "__key__" in batch
+        and isinstance(batch["__key__"], (list, tuple, str))
         and all(isinstance(k, str) for k in batch["__key__"])
     ):
         return batch["__key__"]
     elif (
         isinstance(batch, dict)
         and "__keys__" in batch
+        and isinstance(batch["__keys__"], (list, tuple, str))
         and all(isinstance(k, str) for k in batch["__keys__"])
     ):
         return batch["__keys__"]
     elif (
         isinstance(batch, dict)
         and "keys" in batch
+        and isinstance(batch["keys"], (list, tuple, str))
         and all(isinstance(k, str) for k in batch["keys"])
     ):
         return batch["keys"]
-- 
2.43.0


From 15c433ff8ee492a5206e3953881f8f40e22400e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 53/74] fix: restoring a sample must not switch the log file of
 the main process

---
 src/megatron/energon/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index 9f4a07e..672a467 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -238,8 +238,8 @@ class WorkerConfig:
             in_worker = torch.utils.data.get_worker_info() is not None
             # Additional "worker" with rank_worker_id=0 is the main process. All workers have +1
             # as their worker_id.
-            worker_id = (
-                self.rank * (self.num_workers + 1) + self.rank_worker_id() + (1 if in_worker else 0)
+            worker_id = self.rank * (self.num_workers + 1) + (
+                self.rank_worker_id() + 1 if in_worker else 0
             )
             if self._worker_debug_file is None or self._worker_debug_file_worker_id != worker_id:
                 if self._worker_debug_file is not None:
-- 
2.43.0


From 494f363077508ded33fa63b4e7f79dba45cf87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 54/74] fix: saving must not wait forever for a worker that
 died

---
 src/megatron/energon/savable_loader.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 58e4195..390a504 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -899,7 +899,15 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             cmd_queue.put(cmd_args)
         # print(f"waiting for res")
         assert len(self.result_queues) == self.worker_config.num_workers
-        res = {k: v for results_queue in self.result_queues for k, v in results_queue.get().items()}
+        res = {}
+        for results_queue in self.result_queues:
+            while True:
+                try:
+                    res.update(results_queue.get(timeout=1))
+                    break
+                except queue.Empty:
+                    # A dead worker will never respond
+                    self._check_workers_alive()
         res = [res[i] for i in range(len(res))]
         # print(f"res: {res}")
         for r in res:
@@ -907,6 +915,13 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 raise r
         return res
 
+    def _check_workers_alive(self) -> None:
+        """Raises an error if any worker process ended."""
+        if self._iterator is not None:
+            dead = [w.pid for w in self._iterator._workers if not w.is_alive()]
+            if dead:
+                raise RuntimeError(f"DataLoader worker (pid(s) {dead}) exited unexpectedly")
+
     def save_state_rank(self) -> Optional[SavableDataLoaderState]:
         """
         Saves the state of the dataset for the current rank. Allows for restoring the state later
-- 
2.43.0


From a68e7c4b303b578fdd65d3be3176dc5c149aa3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 55/74] fix: a worker that shuts down must not write to the log
 of the main process

---
 src/megatron/energon/savable_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 390a504..079ea69 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -443,8 +443,10 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                         break
         finally:
             # print(f"{id(self)}:{multiprocessing.current_process().ident} Worker iter closing")
-            # Always store a final checkpoint (it's likely to be saved)
-            self._store_checkpoint(force=True)
+            # Always store a final checkpoint (it's likely to be saved). Not if the iteration is
+            # closed because the worker shuts down, as it is not identifiable as a worker any more.
+            if torch.utils.data.get_worker_info() is not None:
+                self._store_checkpoint(force=True)
 
     def _store_checkpoint(self, force: bool = False) -> None:
         """
-- 
2.43.0


From 4fae479cb6af2e70a1c5681abf21d194db599613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 56/74] fix: energon lint failed for datasets with an empty
 split

---
 src/megatron/energon/tools/lint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index 9e3ca42..f70d666 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -11,7 +11,7 @@ import yaml
 
 from megatron.energon import WorkerConfig, get_loader, get_val_dataset
 from megatron.energon.epathlib import EPath
-from megatron.energon.flavors import BaseWebdatasetFactory
+from megatron.energon.flavors.webdataset.empty_dataset_error import EmptyDatasetError
 from megatron.energon.flavors.webdataset.itar import TarIndexReader
 
 
@@ -99,7 +99,7 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
                 handler=handler,
                 **kwargs,
             )
-        except BaseWebdatasetFactory.EmptyDatasetError:
+        except EmptyDatasetError:
             click.echo(f"Skipping empty split part {split_part}")
             continue
 
-- 
2.43.0


From e6f4eaaef660a508db5d55337e9327a72069ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 57/74] fix: energon lint failed for every metadataset file

---
 src/megatron/energon/tools/lint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index f70d666..b063e00 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -18,7 +18,7 @@ from megatron.energon.flavors.webdataset.itar import TarIndexReader
 def check_index(dataset_path: EPath):
     if not dataset_path.is_dir():
         click.echo(f"{dataset_path} is not a directory, therefore the index will not be checked")
-        return
+        return True
 
     ok = True
 
-- 
2.43.0


From 8e7aace12fe137debe9c17cb1f78bb794fa86014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 58/74] fix: energon lint must report the samples that failed
 in the worker processes

---
 src/megatron/energon/tools/lint.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/tools/lint.py b/src/megatron/energon/tools/lint.py
index b063e00..462e17d 100644
--- a/src/megatron/energon/tools/lint.py
+++ b/src/megatron/energon/tools/lint.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import logging
+import multiprocessing
 import traceback
 from typing import Optional
 
@@ -70,16 +71,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
     # Check the dataset
-    failed = False
-
-    ignore_list = []
+    # The handler is called within the worker processes, thus the list must be shared
+    manager = multiprocessing.Manager()
+    failed_keys = manager.list()
 
     def handler(exc: Exception, key: Optional[str] = None) -> None:
-        nonlocal failed
-        failed = True
+        failed_keys.append(key)
         logging.exception(str(exc))
-        if key is not None:
-            ignore_list.append(key)
 
     kwargs = {}
     if dataset_config != "dataset.yaml":
@@ -112,12 +110,13 @@ def command(path: EPath, split_parts: str, dataset_config: str, split_config: st
             traceback.print_exc()
             raise click.ClickException("Validation failed with errors, see logs for details.")
 
-    if failed:
+    if len(failed_keys) > 0:
         click.echo(
             "The following shards/samples failed (maybe set as dataset.yaml:ignore_list):", err=True
         )
-        for item in ignore_list:
-            click.echo(f"- {item}", err=True)
+        for item in failed_keys:
+            if item is not None:
+                click.echo(f"- {item}", err=True)
         raise click.ClickException("Validation failed with errors, see logs for details.")
 
 
-- 
2.43.0


From 2187a4a95e0f810dc628e37423af1e56f40ac4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 59/74] fix: energon analyze-debug crashed for the loading
 order

---
 src/megatron/energon/tools/analyze_debug.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index b9d99c8..d0f79f1 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -385,8 +385,8 @@ def command(
             "  Shuffle buffer and batching will not be considered, only the loading order from disk"
         )
         log_iters = [
-            _iter_sl_log_line_keys(_iter_sl_log_samples(log_file), start_idx=skip)
-            for log_file in log_files
+            (idx, _iter_sl_log_line_keys(_iter_sl_log_samples(log_file), start_idx=skip))
+            for idx, log_file in enumerate(log_files)
         ]
         key_index = {}
         count = 0
@@ -394,23 +394,23 @@ def command(
         while len(log_iters) > 0:
             cur_count = 0
             # Iterate over all iterators for this count and put into heatmap
-            for log_iter in tuple(log_iters):
+            for src_idx, log_iter in tuple(log_iters):
                 # Iterate until None (=next count) is encountered
                 while True:
                     try:
                         log_key = next(log_iter)
                     except StopIteration:
-                        log_iters.remove(log_iter)
+                        log_iters.remove((src_idx, log_iter))
                         break
                     except OSError:
                         traceback.print_exc()
-                        log_iters.remove(log_iter)
+                        log_iters.remove((src_idx, log_iter))
                         break
                     else:
                         if log_key is None:
                             break
                         key_id = key_index.setdefault(log_key, len(key_index))
-                        heatmap.add(key_id, count)
+                        heatmap.add(key_id, count, src_idx)
                         cur_count += 1
             if cur_count == 0:
                 print(f"No data for step {count}")
-- 
2.43.0


From af986ad3e5d371e2be4cc5fd51bae49824009f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 60/74] fix: energon analyze-debug crashed when skipping steps

---
 src/megatron/energon/tools/analyze_debug.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index d0f79f1..1a76570 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -571,6 +571,8 @@ class LoaderLogIter:
                 log_line["t"] in ("SavableDataLoader.yield", "BasicDataLoader.yield")
                 and log_line["id"] in loader_ids
             ):
+                if log_line["global_idx"] < self._start_idx:
+                    continue
                 assert (
                     log_line["global_idx"] >= idx
                 ), f"Found entry {log_line} with wrong idx <{idx}"
-- 
2.43.0


From bab083ef99b94c2d410a48b682f2eaf102298a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 61/74] fix: the heatmap of energon analyze-debug could not be
 resized from an odd size

---
 src/megatron/energon/tools/analyze_debug.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 1a76570..31f7355 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -143,6 +143,9 @@ class AutosizingHeatmapWriter:
     """Writes a heatmap, automatically resizing it if necessary."""
 
     def __init__(self, heatmap_samples: int, heatmap_steps: int, colorize: bool = True):
+        # Resizing merges pairs of rows or columns, thus the sizes must be even
+        heatmap_samples += heatmap_samples % 2
+        heatmap_steps += heatmap_steps % 2
         self.heatmap = np.zeros((heatmap_samples, heatmap_steps, 3), dtype=np.int32)
         self.heatmap_sample_factor = 1
         self.heatmap_step_factor = 1
-- 
2.43.0


From f537a010f1f0b6a2bc30cee2a8368de2667f092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 62/74] fix: energon preview crashed for images of a single
 color

---
 src/megatron/energon/tools/preview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/tools/preview.py b/src/megatron/energon/tools/preview.py
index 6317ec7..3d4caff 100644
--- a/src/megatron/energon/tools/preview.py
+++ b/src/megatron/energon/tools/preview.py
@@ -46,7 +46,7 @@ def to_str(value: Any, indent: str) -> str:
                 value[None, None, :, :].to(dtype=torch.float32), size=(dst_h, dst_w), mode="area"
             )[0, 0]
             # normalize
-            value = (value - value.min()) / (value.max() - value.min())
+            value = (value - value.min()) / (value.max() - value.min()).clamp(min=1e-10)
             # to ascii text
             return (
                 f"Tensor(shape={orig_value.shape}, dtype={orig_value.dtype}):\n{indent}"
-- 
2.43.0


From 4f152377848658179cdaeb000b5912671d5b2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 63/74] fix: energon info failed for splits with brace patterns

---
 src/megatron/energon/tools/info.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/tools/info.py b/src/megatron/energon/tools/info.py
index 3964759..faef6c1 100644
--- a/src/megatron/energon/tools/info.py
+++ b/src/megatron/energon/tools/info.py
@@ -5,6 +5,7 @@ from importlib import import_module
 from io import StringIO
 from typing import Type
 
+import braceexpand
 import click
 import yaml
 
@@ -69,6 +70,11 @@ def command(
     sample_name = sample_cls.__name__
     sample_fullname = sample_module + "." + sample_name
 
+    split_parts = {
+        split_name: [shard for part in parts for shard in braceexpand.braceexpand(part)]
+        for split_name, parts in split_config["split_parts"].items()
+    }
+
     def srt_key(pair):
         try:
             return ("train", "val", "test").index(pair[0])
@@ -80,14 +86,14 @@ def command(
             split_name=split_name,
             split_ratio=round(
                 100
-                * sum(info_config["shard_counts"][shard] for shard in split_parts)
+                * sum(info_config["shard_counts"][shard] for shard in split_shards)
                 / samples_count,
                 2,
             ),
-            split_samples_count=sum(info_config["shard_counts"][shard] for shard in split_parts),
-            split_shards_count=len(split_parts),
+            split_samples_count=sum(info_config["shard_counts"][shard] for shard in split_shards),
+            split_shards_count=len(split_shards),
         )
-        for split_name, split_parts in sorted(split_config["split_parts"].items(), key=srt_key)
+        for split_name, split_shards in sorted(split_parts.items(), key=srt_key)
     )
     print(
         fmt.format(
-- 
2.43.0


From cfac9a89c1cf7c43c2d961e0dc5e75f54b75684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 64/74] fix: energon info failed for datasets without an
 explicit sample type

---
 src/megatron/energon/tools/info.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/tools/info.py b/src/megatron/energon/tools/info.py
index faef6c1..4bf4c77 100644
--- a/src/megatron/energon/tools/info.py
+++ b/src/megatron/energon/tools/info.py
@@ -11,7 +11,7 @@ import yaml
 
 import megatron.energon
 from megatron.energon.epathlib import EPath
-from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory
+from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory, Sample
 from megatron.energon.flavors.webdataset import MAIN_FOLDER_NAME
 
 fmt = """
@@ -57,17 +57,23 @@ def command(
     info_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / ".info.yaml").read_text()))
     split_config = yaml.safe_load(StringIO((path / MAIN_FOLDER_NAME / split_config).read_text()))
     samples_count = sum(info_config["shard_counts"].values())
-    dict_sample_type = ds_config["sample_type"]
-    sample_module = import_module(dict_sample_type["__module__"])
+    if "sample_type" in ds_config:
+        dict_sample_type = ds_config["sample_type"]
+        sample_module = import_module(dict_sample_type["__module__"])
+        sample_cls: Type[Sample] = getattr(sample_module, dict_sample_type["__class__"])
+    else:
+        # The dataset class defines the sample type
+        dataset_module = import_module(ds_config["__module__"])
+        dataset_cls: Type[BaseCoreDatasetFactory] = getattr(dataset_module, ds_config["__class__"])
+        sample_cls = dataset_cls.__sample_type__
 
-    sample_cls: Type[BaseCoreDatasetFactory] = getattr(sample_module, dict_sample_type["__class__"])
     sample_module = sample_cls.__module__
+    sample_name = sample_cls.__name__
     if (
         sample_module.startswith("megatron.energon")
-        and getattr(megatron.energon, dict_sample_type["__class__"], None) == sample_cls
+        and getattr(megatron.energon, sample_name, None) == sample_cls
     ):
         sample_module = "megatron.energon"
-    sample_name = sample_cls.__name__
     sample_fullname = sample_module + "." + sample_name
 
     split_parts = {
-- 
2.43.0


From ee0da185537b06e2d6f9d4ce253225c21f1053b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 65/74] fix: energon prepare wrote a configuration for crude
 datasets that cannot be loaded

---
 src/megatron/energon/tools/prepare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/tools/prepare.py b/src/megatron/energon/tools/prepare.py
index 5654048..b313ba7 100644
--- a/src/megatron/energon/tools/prepare.py
+++ b/src/megatron/energon/tools/prepare.py
@@ -290,6 +290,10 @@ def command(
         }
 
         if cls == CrudeSampleDummy:
+            dataset_definition = {
+                "__module__": "megatron.energon",
+                "__class__": "CrudeWebdataset",
+            }
             click.echo(
                 "CrudeWebdataset does not need a field map. You will need to provide a `Cooker` for your dataset samples in your `TaskEncoder`."
             )
-- 
2.43.0


From 90dcbe1ac84731421571802cfa20526a9023f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:07 +0000
Subject: [PATCH 66/74] fix: energon analyze-debug crashed for the loading
 order of blended datasets

---
 src/megatron/energon/tools/analyze_debug.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/tools/analyze_debug.py b/src/megatron/energon/tools/analyze_debug.py
index 31f7355..951a4be 100644
--- a/src/megatron/energon/tools/analyze_debug.py
+++ b/src/megatron/energon/tools/analyze_debug.py
@@ -601,8 +601,8 @@ def _iter_sl_log_line_keys(
     for log_line in log_lines:
         if log_line["count"] < start_idx:
             continue
-        assert log_line["count"] >= count
-        while log_line["count"] != count:
+        # Blended datasets count individually, the count may be lower for the other dataset
+        while log_line["count"] > count:
             yield None
             count += 1
         yield log_line["key"]
-- 
2.43.0


From 8beef18b8ba853ede9eb675bfd7dee580bc84d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 67/74] fix: the config of a dataset does not change when it is
 iterated or in another process

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index a10c18c..1fcdcc5 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -768,8 +768,6 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             "path": str(subshard.path),
                             "offset": subshard.offset,
                             "count": subshard.count,
-                            "byte_offset": subshard.byte_offset,
-                            "byte_size": subshard.byte_size,
                         }
                         for subshard in subshards
                     ]
@@ -778,7 +776,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 for shards in self.shards
             ],
             "worker_config": self.worker_config.config(),
-            "exclude": list(self.exclude),
+            "exclude": sorted(self.exclude),
             "loop": self.loop,
             "shuffle_over_epochs": self.shuffle_over_epochs,
             "parallel_shard_iters": self.parallel_shard_iters,
-- 
2.43.0


From 4fa58260ac9f86f30a52814cbb42ddefa1c03a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 68/74] fix: the config of grouped batches has their fixed
 batch size

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index ec53c38..f173781 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -307,6 +307,7 @@ class GroupBatchDataset(
     def config(self) -> Dict[str, Any]:
         return {
             "type": type(self).__qualname__,
+            "fixed_batch_size": self.fixed_batch_size,
             "bucket": self._function_config(self.sample_group_key),
             "batcher": self._function_config(self.batcher),
             **(
-- 
2.43.0


From da638223bdab720e653c957802f09405c44d7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 69/74] fix: the config of a joined dataset has its joiner and
 keys

---
 src/megatron/energon/flavors/webdataset/joined_webdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 4468777..ed875df 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -251,6 +251,8 @@ class JoinedWebdatasetFactory(
         return dict(
             type=type(self).__qualname__,
             joined_datasets=[dataset.config() for dataset in self.inner_datasets],
+            joined_keys=self.inner_dataset_keys,
+            joiner=SavableDataset._function_config(self.__sample_type__),
             training=self.training,
             shuffle_over_epochs=self.shuffle_over_epochs,
             parallel_shard_iters=self.parallel_shard_iters,
-- 
2.43.0


From 5652c993d17a88455eb4acd6f114b1e5e1c4c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 70/74] fix: the config of a generic dataset has its field map,
 loader and sample type

---
 .../flavors/webdataset/default_generic_webdataset.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
index 6954c6b..32689a0 100644
--- a/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_generic_webdataset.py
@@ -92,6 +92,8 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
             parts = set(access[0] for options in fields.values() for access in options)
             part_filter = lambda part: part in parts
         inner_sample_loader = self._sample_loader
+        self._inner_sample_loader = inner_sample_loader
+        self._field_map = field_map
         self._sample_loader = lambda sample: {
             "__key__": sample["__key__"],
             **inner_sample_loader(sample),
@@ -111,5 +113,7 @@ class DefaultGenericWebdatasetFactory(BaseWebdatasetFactory[T_sample], Generic[T
             **super().config(),
             subflavor=self.subflavor,
             subflavors=self.subflavors,
-            sample_loader=SavableDataset._function_config(self._sample_loader),
+            field_map=self._field_map,
+            sample_loader=SavableDataset._function_config(self._inner_sample_loader),
+            sample_type=SavableDataset._function_config(self.__sample_type__),
         )
-- 
2.43.0


From 0f70a99e01966b5d27208eaaecfe13486d42f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:26 +0000
Subject: [PATCH 71/74] fix: the config of a cooker names its condition

---
 src/megatron/energon/task_encoder/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index bd769da..5d30f31 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -463,7 +463,11 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                             cook=SavableDataset._function_config(cooker.cook),
                             is_subflavor=cooker.is_subflavor,
                             has_subflavors=cooker.has_subflavors,
-                            condition=cooker.condition,
+                            condition=(
+                                SavableDataset._function_config(cooker.condition)
+                                if cooker.condition is not None
+                                else None
+                            ),
                         )
                         for cooker in self.cookers
                     ]
-- 
2.43.0


From 1512f7d3cbc6cfebac8b01eb81d06a7ec5323d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:39 +0000
Subject: [PATCH 72/74] fix: ignore_decoder_errors had no effect

---
 .../flavors/webdataset/default_decoder_webdataset.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
index 620eabd..3968add 100644
--- a/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/default_decoder_webdataset.py
@@ -11,6 +11,7 @@ from megatron.energon.flavors.webdataset.default_generic_webdataset import (
 )
 from megatron.energon.flavors.webdataset.structs import FilteredSample
 from megatron.energon.flavors.webdataset.video_data import VideoData
+from megatron.energon.wrappers.skip import SkipSample
 
 T_sample = TypeVar("T_sample", covariant=True)
 
@@ -104,7 +105,12 @@ class DefaultDecoderWebdatasetFactory(DefaultGenericWebdatasetFactory[T_sample],
 
     def load_sample(self, sample: FilteredSample) -> T_sample:
         if self._decoder is not None:
-            sample = self._decoder(sample)
+            try:
+                sample = self._decoder(sample)
+            except Exception as e:
+                self._decode_error_handler(e)
+                # The error is ignored: skip the sample
+                raise SkipSample() from e
         return super().load_sample(sample)
 
     def config(self) -> Dict[str, Any]:
-- 
2.43.0


From ba5757480c72ec2d8d76e33053a3470814e0b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:05 +0000
Subject: [PATCH 73/74] fix: VQAOCRSample was not exported

---
 src/megatron/energon/__init__.py         | 2 ++
 src/megatron/energon/flavors/__init__.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/__init__.py b/src/megatron/energon/__init__.py
index 62f3e71..6bb3549 100644
--- a/src/megatron/energon/__init__.py
+++ b/src/megatron/energon/__init__.py
@@ -30,6 +30,7 @@ from megatron.energon.flavors import (
     TextWebdataset,
     VidQASample,
     VidQAWebdataset,
+    VQAOCRSample,
     VQAOCRWebdataset,
     VQASample,
     VQAWebdataset,
@@ -138,6 +139,7 @@ __all__ = [
     "VidQAWebdataset",
     "VQASample",
     "VQAWebdataset",
+    "VQAOCRSample",
     "VQAOCRWebdataset",
     "WorkerConfig",
     "basic_sample_keys",
diff --git a/src/megatron/energon/flavors/__init__.py b/src/megatron/energon/flavors/__init__.py
index 3caa912..6a82610 100644
--- a/src/megatron/energon/flavors/__init__.py
+++ b/src/megatron/energon/flavors/__init__.py
@@ -19,7 +19,7 @@ from megatron.energon.flavors.similarity_interleaved import (
 from megatron.energon.flavors.text import TextSample, TextWebdataset
 from megatron.energon.flavors.vid_qa import VidQASample, VidQAWebdataset
 from megatron.energon.flavors.vqa import VQASample, VQAWebdataset
-from megatron.energon.flavors.vqa_and_ocr import VQAOCRWebdataset
+from megatron.energon.flavors.vqa_and_ocr import VQAOCRSample, VQAOCRWebdataset
 from megatron.energon.flavors.webdataset import (
     BaseWebdatasetFactory,
     DefaultDecoderWebdatasetFactory,
@@ -63,6 +63,7 @@ __all__ = [
     "TextWebdataset",
     "VQASample",
     "VQAWebdataset",
+    "VQAOCRSample",
     "VQAOCRWebdataset",
     "VideoData",
     "VidQASample",
-- 
2.43.0


From edf27b669803607181ec25d42a719f91a393d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:51 +0000
Subject: [PATCH 74/74] fix: joined datasets loaded parts which the filters of
 their members exclude

---
 .../energon/flavors/webdataset/joined_webdataset.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index ed875df..628fb9b 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -215,6 +215,17 @@ class JoinedWebdatasetFactory(
             worker_config=self.worker_config,
         )
 
+    @staticmethod
+    def _filter_parts(dataset: BaseWebdatasetFactory, sample: FilteredSample) -> FilteredSample:
+        """Each inner dataset only gets the parts that its own filter lets through."""
+        if dataset.part_filter is None:
+            return sample
+        return {
+            part: data
+            for part, data in sample.items()
+            if part.startswith("__") or dataset.part_filter(part)
+        }
+
     def load_sample(self, samples: Tuple[Optional[FilteredSample], ...]) -> T_sample:
         assert len(samples) > 0 and samples[0] is not None, "Always need primary sample"
         # Combine the restore key. This must be in accordance to the ShardReader's restore unpacking
@@ -230,7 +241,7 @@ class JoinedWebdatasetFactory(
 
         # First call the loaders of all inner datasets
         loaded_samples = tuple(
-            None if sample is None else dataset.load_sample(sample)
+            None if sample is None else dataset.load_sample(self._filter_parts(dataset, sample))
             for dataset, sample in zip(self.inner_datasets, samples)
         )
         # Then combine the loaded smaples into the final type
-- 
2.43.0

