From 1cc6493438e3f12be690878cd130d57c2ff2de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 01/50] fix: rotate restored workers towards the next worker to
 emit

The first physical worker must act as the worker which was next when the state
was saved. The offset was subtracted, which only gives the right order for one
or two workers.
---
 src/megatron/energon/worker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/megatron/energon/worker.py b/src/megatron/energon/worker.py
index ba5dc7c..d1f6aed 100644
--- a/src/megatron/energon/worker.py
+++ b/src/megatron/energon/worker.py
@@ -164,9 +164,7 @@ class WorkerConfig:
         if worker_info is None:
             return self.worker_id_offset
         assert worker_info.num_workers == self.num_workers
-        return (
-            worker_info.id + worker_info.num_workers - self.worker_id_offset
-        ) % worker_info.num_workers
+        return (worker_info.id + self.worker_id_offset) % worker_info.num_workers
 
     def assert_worker(self):
         """Checks if the current process is a worker (if configured so), and that the workers are
-- 
2.43.0


From 6bb3bb1fcdb6df0aceb582d2c64211ebc08ba2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/50] fix: count the samples emitted per worker from -1 and
 continue after restoring

A worker without an emitted sample was treated as if its first sample was
already emitted, so that sample got lost when saving and restoring. After
restoring, workers which did not yet emit again had no valid checkpoint.
---
 src/megatron/energon/savable_loader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index ca21e48..50afeb5 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -731,7 +731,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
         else:
             dataset = SimpleSavableDatasetWrapper(dataset, self.worker_config)
 
-        self._worker_sample_counters = [0] * max(self.worker_config.num_workers, 1)
+        # Index of the last sample emitted by each worker, -1 if none was emitted yet
+        self._worker_sample_counters = [-1] * max(self.worker_config.num_workers, 1)
 
         kwargs = {}
         if self.worker_config.num_workers > 0:
@@ -927,6 +928,14 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert isinstance(self.dataset, SavableDatasetWrapper)
             assert isinstance(state.dataset_state, SavableDatasetMergedCheckpoint)
             self.dataset.restore_checkpoint(state.dataset_state, worker_offset=state.next_worker_id)
+            # Continue counting from the restored samples
+            self._worker_sample_counters = [
+                sample_index + offset - 1
+                for sample_index, offset in zip(
+                    state.dataset_state.state.sample_index, state.dataset_state.offset
+                )
+            ]
+            self._next_worker_id = state.next_worker_id
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 226668ad4c3c0fd49f5c309bdf3f0b1addb979f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/50] fix: keep the checkpoint before the final one of an
 epoch

The final checkpoint is stored regardless of the minimum distance, thus the
checkpoint for samples which are still prefetched could be dropped.
---
 src/megatron/energon/savable_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 50afeb5..97cd823 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -453,7 +453,9 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
                     sample_index=self._sample_index,
                 )
             )
-            if len(self._last_checkpoints) > self.n_checkpoints:
+            # The forced final checkpoint may directly follow the previous one, keep one more.
+            max_checkpoints = self.n_checkpoints + (1 if force else 0)
+            while len(self._last_checkpoints) > max_checkpoints:
                 self._last_checkpoints.pop(0)
 
     def _save_state(self) -> SavableDatasetState:
-- 
2.43.0


From a9bbdd7d8131ba39f4fba1d8f619dd10020c0da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 04/50] fix: seed a worker restored to its initial state by its
 own worker id

With a rotated worker order, the initial seed of the process belongs to a
different worker.
---
 src/megatron/energon/savable_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 97cd823..e6be2bd 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -488,7 +488,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
         """Restores the internal worker state"""
         assert torch.utils.data.get_worker_info() is not None, "Can only restore in worker process"
         if state.torch_rng[self._worker_id] is None:
-            torch.manual_seed(torch.initial_seed())
+            torch.manual_seed(self.worker_config.worker_seed())
         else:
             torch.set_rng_state(
                 torch.frombuffer(
-- 
2.43.0


From 63697afba05e0e9273fd433f0b2fc572d8238365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 05/50] fix: saving a restored loader before iterating it
 returns the restored state

It returned None, i.e. the initial state.
---
 src/megatron/energon/savable_loader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index e6be2bd..26a2b6c 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -676,6 +676,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
     #: Instance of the current data iterator. There shall be only one active iterator, such that the
     # dataset is not iterated multiple times in parallel. The state will proceed.
     _persistent_iterator: Optional[Iterator[T]] = None
+    #: The restored state, which stays the current state until the workers are started
+    _restored_state: Optional["SavableDataLoaderState"] = None
     #: The index of the current worker
     _worker_sample_counters: List[int]
     #: Id of the next worker to retrieve data from
@@ -895,8 +897,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             assert self._next_worker_id == 0
             merged_states = self.dataset.merge_states(worker_states)
         elif self._persistent_iterator is None:
-            # Workers configured, but not started yet -> Initial state
-            return None
+            # Workers configured, but not started yet -> Initial or just restored state
+            return self._restored_state
         else:
             # Fetch from worker processes
             worker_states = self._worker_command("get_checkpoint", self._worker_sample_counters)
@@ -938,6 +940,7 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 )
             ]
             self._next_worker_id = state.next_worker_id
+            self._restored_state = state
         # if len(self.cmd_queues) > 0:
         #     self._worker_command("restore_state", state["dataset"])
 
-- 
2.43.0


From 97b19a3199c2127c801f584aacf772919ca0a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 06/50] fix: restoring must not share mutable lists with the
 saved state

Iterating after restoring modified the saved state object, such that restoring
from it a second time (or storing it later) gave a wrong position.
---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 6 +++---
 src/megatron/energon/savable_loader.py                   | 2 +-
 src/megatron/energon/wrappers/base.py                    | 2 +-
 src/megatron/energon/wrappers/batch_dataset.py           | 4 ++--
 src/megatron/energon/wrappers/buffer.py                  | 2 +-
 src/megatron/energon/wrappers/epochize_dataset.py        | 2 +-
 src/megatron/energon/wrappers/limit_dataset.py           | 2 +-
 src/megatron/energon/wrappers/log_sample_dataset.py      | 2 +-
 src/megatron/energon/wrappers/map_dataset.py             | 4 ++--
 src/megatron/energon/wrappers/packing_dataset.py         | 2 +-
 src/megatron/energon/wrappers/repeat_dataset.py          | 2 +-
 11 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index 3642e18..d42b04c 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -749,9 +749,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                     state.active_shards, self.shards_by_key
                 )
             ]
-            self._sample_count = state.sample_count
-            self._epoch_count = state.epoch_count
-            self._epoch_sample_count = state.epoch_sample_count
+            self._sample_count = list(state.sample_count)
+            self._epoch_count = list(state.epoch_count)
+            self._epoch_sample_count = list(state.epoch_sample_count)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 26a2b6c..2eda657 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -572,7 +572,7 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self._restore_from = state.state
             self._worker_offset = worker_offset
             self.dataset.restore_state(state.dataset_state)
-            self._skip_samples = state.offset
+            self._skip_samples = list(state.offset)
 
     def can_restore_sample(self) -> bool:
         return self.dataset.can_restore_sample()
diff --git a/src/megatron/energon/wrappers/base.py b/src/megatron/energon/wrappers/base.py
index afe7cd6..c92ede5 100644
--- a/src/megatron/energon/wrappers/base.py
+++ b/src/megatron/energon/wrappers/base.py
@@ -198,7 +198,7 @@ class SampleIndex:
             self._sample_index = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert len(state) == len(self._sample_index)
-            self._sample_index = state
+            self._sample_index = list(state)
 
 
 def get_sample_restore_key(sample: Any) -> Optional[Union[str, int]]:
diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index ab66da2..4d51c62 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -251,8 +251,8 @@ class BatchDataset(
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, BatchGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/buffer.py b/src/megatron/energon/wrappers/buffer.py
index 730e504..11a5de8 100644
--- a/src/megatron/energon/wrappers/buffer.py
+++ b/src/megatron/energon/wrappers/buffer.py
@@ -139,7 +139,7 @@ class SavableSampleBuffer(BaseWrapperDataset[T_sample], Generic[T_sample]):
             assert isinstance(state, SampleBufferMergedState)
             assert len(state.buffer) == max(self.worker_config.num_workers, 1)
             self._buffer = [[] for _ in range(max(self.worker_config.num_workers, 1))]
-            self._restore_keys = state.buffer
+            self._restore_keys = [list(restore_keys) for restore_keys in state.buffer]
             self._restore_pending = True
 
     def restore_key(self) -> Tuple[Union[str, int], ...]:
diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 0dcc326..724c025 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -128,7 +128,7 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, EpochizeMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index c32f6c6..e95772d 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -133,7 +133,7 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self._current_offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LimitMergedState)
-            self._current_offset = state.offset
+            self._current_offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
diff --git a/src/megatron/energon/wrappers/log_sample_dataset.py b/src/megatron/energon/wrappers/log_sample_dataset.py
index 772b180..b0582e5 100644
--- a/src/megatron/energon/wrappers/log_sample_dataset.py
+++ b/src/megatron/energon/wrappers/log_sample_dataset.py
@@ -130,7 +130,7 @@ class LogSampleDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_s
             self._step = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, LogSampleMergedState)
-            self._step = state.step
+            self._step = list(state.step)
 
     def config(self) -> Dict[str, Any]:
         # Transparent logger, it won't change the samples
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 7f9122b..474e156 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -219,8 +219,8 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
             assert isinstance(state, MapMergedState)
             self._sample_index.restore_state(state.sample_indexes)
             if isinstance(state, MapGeneratorMergedState):
-                self._generator_sample_keys = state.generator_sample_keys
-                self._generator_offsets = state.generator_offsets
+                self._generator_sample_keys = list(state.generator_sample_keys)
+                self._generator_offsets = list(state.generator_offsets)
             else:
                 self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
                 self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index eaa8806..e6bcf98 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -316,7 +316,7 @@ class PackingDataset(
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
             self._pre_packing_buffer.restore_state(state.pre_packing_buffer)
-            self._pre_packing_lengths = state.pre_packing_lengths
+            self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
 
diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index fd491cb..e0eb685 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -106,7 +106,7 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, RepeatMergedState)
-            self._offset = state.offset
+            self._offset = list(state.offset)
 
     def config(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 8871b4c4d22d73b3690ec134a426cb9c16f37417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 07/50] fix: resume a partial map/batch generator with its own
 sample index and clear it when it ends

A restored generator was re-run with the sample index after its own, outside of the error
handling; its state was kept when the generator ended with an exception. The batch dataset kept the
restore keys of skipped batches, and shared the list of keys with the saved state.
---
 .../energon/wrappers/batch_dataset.py         | 60 +++++++++++--------
 src/megatron/energon/wrappers/map_dataset.py  | 53 +++++++++-------
 2 files changed, 64 insertions(+), 49 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 4d51c62..6ef778d 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -135,30 +135,37 @@ class BatchDataset(
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
             batch = [self.dataset.restore_sample(inner_idx) for inner_idx in sample_restore_keys]
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                batch_sample = self.batcher(batch)
-            assert isinstance(batch_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.batcher
-            ), f"Generator in {self.batcher} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
-                self._sample_index.iter_ctx(batch_sample, sample_idx)
-            ):
-                # Skip other samples
-                if batch_sub_idx >= target_offset:
-                    self._generator_offsets[worker_id] = batch_sub_idx + 1
-                    yield set_sample_restore_key(
-                        inner_batch_sample,
-                        sample_idx,
-                        batch_sub_idx,
-                        *sample_restore_keys,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    batch_sample = self.batcher(batch)
+                assert isinstance(batch_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.batcher
+                ), f"Generator in {self.batcher} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
+                    self._sample_index.iter_ctx(batch_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if batch_sub_idx >= target_offset:
+                        self._generator_offsets[worker_id] = batch_sub_idx + 1
+                        yield set_sample_restore_key(
+                            inner_batch_sample,
+                            sample_idx,
+                            batch_sub_idx,
+                            *sample_restore_keys,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(batch)
+            except Exception as e:
+                self.error_handler(e, batch)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
-            batch.clear()
+            batch = []
             sample_restore_keys = []
 
         def flush():
@@ -169,7 +176,7 @@ class BatchDataset(
                     assert inspect.isgeneratorfunction(
                         self.batcher
                     ), f"Generator in {self.batcher} but not marked as such."
-                    self._generator_sample_keys[worker_id] = sample_restore_keys
+                    self._generator_sample_keys[worker_id] = list(sample_restore_keys)
                     self._generator_offsets[worker_id] = 0
                     for batch_sub_idx, (sample_idx, inner_batch_sample) in enumerate(
                         self._sample_index.iter_ctx(batch_sample, sample_idx)
@@ -182,18 +189,19 @@ class BatchDataset(
                             *sample_restore_keys,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     set_sample_restore_key(batch_sample, sample_idx, *sample_restore_keys, src=self)
                     yield batch_sample
-                sample_restore_keys.clear()
             except SkipSample:
                 pass
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(batch)
             except Exception as e:
                 self.error_handler(e, batch)
+            # The batch is finished, also if it was skipped or failed
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
+            sample_restore_keys.clear()
 
         for sample in self.dataset:
             batch.append(sample)
diff --git a/src/megatron/energon/wrappers/map_dataset.py b/src/megatron/energon/wrappers/map_dataset.py
index 474e156..71a69fd 100644
--- a/src/megatron/energon/wrappers/map_dataset.py
+++ b/src/megatron/energon/wrappers/map_dataset.py
@@ -111,27 +111,33 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
         if self._generator_sample_keys[worker_id] is not None:
             assert self._generator_offsets[worker_id] is not None
             sample = self.dataset.restore_sample(self._generator_sample_keys[worker_id])
-            # Do not increment the sample index, use previous index
-            with self._sample_index.ctx(self._sample_index.current_idx) as sample_idx:
-                mapped_sample = self.map_fn(sample)
-            assert isinstance(mapped_sample, Generator)
-            assert inspect.isgeneratorfunction(
-                self.map_fn
-            ), f"Generator in {self.map_fn} but not marked as such."
-            target_offset = self._generator_offsets[worker_id]
-            self._generator_offsets[worker_id] = 0
-            for idx, (sample_idx, inner_sample) in enumerate(
-                self._sample_index.iter_ctx(mapped_sample, sample_idx)
-            ):
-                # Skip other samples
-                if idx >= target_offset:
-                    self._generator_offsets[worker_id] = idx + 1
-                    yield add_sample_restore_key(
-                        inner_sample,
-                        sample_idx,
-                        idx,
-                        src=self,
-                    )
+            try:
+                # Do not increment the sample index, use previous index
+                with self._sample_index.ctx(self._sample_index.current_idx - 1) as sample_idx:
+                    mapped_sample = self.map_fn(sample)
+                assert isinstance(mapped_sample, Generator)
+                assert inspect.isgeneratorfunction(
+                    self.map_fn
+                ), f"Generator in {self.map_fn} but not marked as such."
+                target_offset = self._generator_offsets[worker_id]
+                for idx, (sample_idx, inner_sample) in enumerate(
+                    self._sample_index.iter_ctx(mapped_sample, sample_idx)
+                ):
+                    # Skip other samples
+                    if idx >= target_offset:
+                        self._generator_offsets[worker_id] = idx + 1
+                        yield add_sample_restore_key(
+                            inner_sample,
+                            sample_idx,
+                            idx,
+                            src=self,
+                        )
+            except SkipSample:
+                pass
+            except SYSTEM_EXCEPTIONS:
+                raise FatalSampleError.from_sample(sample)
+            except Exception as e:
+                self.error_handler(e, sample)
             self._generator_sample_keys[worker_id] = None
             self._generator_offsets[worker_id] = None
 
@@ -157,8 +163,6 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                             idx,
                             src=self,
                         )
-                    self._generator_sample_keys[worker_id] = None
-                    self._generator_offsets[worker_id] = None
                 else:
                     yield add_sample_restore_key(
                         mapped_sample,
@@ -171,6 +175,9 @@ class MapDataset(BaseSingleWrapperDataset[T_sample, T_sample_out], Generic[T_sam
                 raise FatalSampleError.from_sample(sample)
             except Exception as e:
                 self.error_handler(e, sample)
+            # The generator is finished, also if it ended with an exception
+            self._generator_sample_keys[worker_id] = None
+            self._generator_offsets[worker_id] = None
 
     def save_state(self) -> MapState:
         state = MapState.extend(
-- 
2.43.0


From 1a8369dbd7306452f213db0221beb768919ec4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 08/50] fix: save the sample index of the loader without
 workers

Restoring restarted it at zero, thus restore keys and the batch index visible to the dataset
differed from those of an uninterrupted run.
---
 src/megatron/energon/savable_loader.py | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 2eda657..0436b18 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -108,14 +108,34 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
                 if worker_active:
                     self.worker_config.worker_deactivate()
 
-    def save_state(self) -> State:
-        return self.dataset.save_state()
+    def save_state(self) -> SimpleSavableDatasetState:
+        return SimpleSavableDatasetState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.save_state(),
+            sample_index=self._sample_index[self.worker_config.rank_worker_id()],
+        )
 
-    def merge_states(self, states: List[State]) -> MergedState:
-        return self.dataset.merge_states(states)
+    def merge_states(
+        self, states: List[Optional[SimpleSavableDatasetState]]
+    ) -> SimpleSavableDatasetMergedState:
+        assert all(s is None or isinstance(s, SimpleSavableDatasetState) for s in states)
+        return SimpleSavableDatasetMergedState(
+            dataset_type=type(self).__name__,
+            dataset_state=self.dataset.merge_states(
+                [None if s is None else s.dataset_state for s in states]
+            ),
+            sample_indexes=[0 if s is None else s.sample_index for s in states],
+        )
 
-    def restore_state(self, state: MergedState):
-        self.dataset.restore_state(state)
+    def restore_state(self, state: Optional[SimpleSavableDatasetMergedState]):
+        if state is None:
+            self.dataset.restore_state(None)
+            self._sample_index = [0] * max(self.worker_config.num_workers, 1)
+        else:
+            assert isinstance(state, SimpleSavableDatasetMergedState)
+            assert state.dataset_type == type(self).__name__
+            self.dataset.restore_state(state.dataset_state)
+            self._sample_index = list(state.sample_indexes)
         self._state_restored = True
 
     def can_restore_sample(self) -> bool:
-- 
2.43.0


From fa0d6de8b6f56ced78df122fcd797d41daf47d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 09/50] fix: restore the buckets of group batches to the worker
 which saved them

---
 src/megatron/energon/wrappers/group_batch_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 070e936..1117873 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -249,6 +249,8 @@ class GroupBatchDataset(
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
         super().restore_state(state)
         if state is None:
+            self._group_key_sample_index.restore_state(None)
+            self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
         else:
             assert isinstance(state, GroupBatchMergedState)
@@ -272,9 +274,9 @@ class GroupBatchDataset(
                             SampleBufferMergedState(
                                 buffer=[
                                     (
-                                        []
+                                        bucket_state.samples.buffer
                                         if gen_worker_idx == worker_idx
-                                        else bucket_state.samples.buffer
+                                        else []
                                     )
                                     for gen_worker_idx in range(
                                         max(self.worker_config.num_workers, 1)
-- 
2.43.0


From 26854a214b80b6f5a5ffce8ce8b0f0ca8ff0cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 10/50] fix: a worker without packing state has no pending
 packs

---
 src/megatron/energon/wrappers/packing_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index e6bcf98..d724ee5 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -295,7 +295,7 @@ class PackingDataset(
             pre_packing_buffer=self._pre_packing_buffer.merge_states(
                 [None if s is None else s.pre_packing_buffer for s in states]
             ),
-            pre_packing_lengths=[[0, 0] if s is None else s.pre_packing_lengths for s in states],
+            pre_packing_lengths=[[] if s is None else s.pre_packing_lengths for s in states],
             final_packing_index=self._final_packing_sample_index.merge_states(
                 [0 if state is None else state.final_packing_index for state in states]
             ),
-- 
2.43.0


From 745305960a7f6fd399afa27cffa868134c17e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 11/50] fix: keep the source restore keys for all samples an
 iter map yields per input

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 00f3213..945586f 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -116,6 +116,9 @@ class IterMapDataset(
             # Resets the inner sample index
             nonlocal iter_idx, sample_restore_keys
             for entry in last_sample_wrapper:
+                if iter_idx > 0:
+                    # The previous entries were already yielded
+                    sample_restore_keys.clear()
                 iter_idx = 0
                 sample_restore_keys.append(get_sample_restore_key(entry))
                 yield entry
@@ -134,7 +137,6 @@ class IterMapDataset(
                         *sample_restore_keys,
                         src=self,
                     )
-                    sample_restore_keys.clear()
                     iter_idx += 1
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
-- 
2.43.0


From f4cc997fa10c1a9ae8eb038355d740899d09ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 12/50] fix: a restored concatenation continues with the
 dataset it was saved in

---
 .../energon/wrappers/concat_dataset.py        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/wrappers/concat_dataset.py b/src/megatron/energon/wrappers/concat_dataset.py
index 3efce37..c30fe1b 100644
--- a/src/megatron/energon/wrappers/concat_dataset.py
+++ b/src/megatron/energon/wrappers/concat_dataset.py
@@ -20,12 +20,16 @@ T_sample = TypeVar("T_sample")
 class ConcatState(State):
     #: State of the inner datasets
     dataset_states: List[State]
+    #: Index of the inner dataset which is currently iterated
+    dataset_idx: int
 
 
 @dataclass
 class ConcatMergedState(MergedState):
     #: State of the inner datasets
     dataset_states: List[MergedState]
+    #: Index of the inner dataset which is currently iterated, per worker
+    dataset_idxs: List[int]
 
 
 class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
@@ -36,6 +40,8 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     """
 
     datasets: Tuple[SavableDataset[T_sample], ...]
+    #: Index of the inner dataset which is currently iterated, per worker
+    _dataset_idxs: List[int]
 
     def __init__(
         self,
@@ -45,19 +51,24 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         """Construct a concatenated dataset."""
         super().__init__(datasets, worker_config=worker_config)
         self.datasets = datasets
+        self._dataset_idxs = [0] * max(self.worker_config.num_workers, 1)
         assert len(self) >= 0, "Datasets must be finite."
 
     def __len__(self):
         return sum(len(dataset) for dataset in self.datasets)
 
     def __iter__(self) -> Iterator[T_sample]:
-        for ds_idx, dataset in enumerate(self.datasets):
-            for sample in dataset:
+        worker_idx = self.worker_config.rank_worker_id()
+        # Starts with the first dataset, or with the one which was active when saving the state
+        for ds_idx in range(self._dataset_idxs[worker_idx], len(self.datasets)):
+            self._dataset_idxs[worker_idx] = ds_idx
+            for sample in self.datasets[ds_idx]:
                 yield add_sample_restore_key(
                     sample,
                     ds_idx,
                     src=self,
                 )
+        self._dataset_idxs[worker_idx] = 0
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset in self.datasets)
@@ -65,6 +76,7 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
     def save_state(self) -> ConcatState:
         return ConcatState(
             dataset_states=[dataset.save_state() for dataset in self.datasets],
+            dataset_idx=self._dataset_idxs[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[ConcatState]) -> ConcatMergedState:
@@ -77,15 +89,18 @@ class ConcatDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
                 )
                 for ds_idx, dataset in enumerate(self.datasets)
             ],
+            dataset_idxs=[0 if s is None else s.dataset_idx for s in states],
         )
 
     def restore_state(self, state: Optional[ConcatMergedState]) -> None:
         if state is None:
             for dataset in self.datasets:
                 dataset.restore_state(None)
+            self._dataset_idxs = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ConcatMergedState)
             assert len(self.datasets) == len(state.dataset_states)
+            self._dataset_idxs = list(state.dataset_idxs)
             for dataset, dstate in zip(self.datasets, state.dataset_states):
                 dataset.restore_state(dstate)
 
-- 
2.43.0


From 9c3d02e115001da01d0e481d9b9a5a186f7a3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 13/50] fix: save and restore a partially iterated final packer
 generator

---
 .../energon/wrappers/packing_dataset.py       | 53 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index d724ee5..1b4bae0 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -46,6 +46,8 @@ class PackingState(BaseSingleWrapperState):
     pre_packing_lengths: List[int]
     pre_packing_index: int
     final_packing_index: int
+    generator_sample_keys: Optional[Tuple[Any, ...]]
+    generator_offset: Optional[int]
 
 
 @dataclass
@@ -55,6 +57,8 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     pre_packing_lengths: List[List[int]]
     pre_packing_index: List[int]
     final_packing_index: List[int]
+    generator_sample_keys: List[Optional[Tuple[Any, ...]]]
+    generator_offsets: List[Optional[int]]
 
 
 class PackingDataset(
@@ -89,6 +93,12 @@ class PackingDataset(
     #: Sample index for the final_packer
     _final_packing_sample_index: SampleIndex
 
+    #: Restore keys of the pack which a final_packer generator is currently iterating
+    _generator_sample_keys: List[Optional[Tuple[Any, ...]]]
+
+    #: Number of samples already yielded by the current final_packer generator
+    _generator_offsets: List[Optional[int]]
+
     def __init__(
         self,
         dataset: SavableDataset[T_sample],
@@ -136,6 +146,8 @@ class PackingDataset(
         self._pre_packing_lengths = [[] for _ in range(max(worker_config.num_workers, 1))]
         self._pre_packing_sample_index = SampleIndex(worker_config, src=self)
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
+        self._generator_sample_keys = [None] * max(worker_config.num_workers, 1)
+        self._generator_offsets = [None] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -208,17 +220,29 @@ class PackingDataset(
             pack = list(self._pre_packing_buffer[: pre_packing_lengths[0]])
             del self._pre_packing_buffer[: pre_packing_lengths[0]]
             del pre_packing_lengths[0]
+            yield from final_pack(pack, self._final_packing_sample_index.get_next())
+
+        def final_pack(
+            pack: List[T_sample], pack_idx: int, skip: int = 0
+        ) -> Generator[T_batch_sample, None, None]:
+            """Yield the final pack(s), without the first `skip` samples of a generator."""
+
             try:
                 pack_restore_keys = tuple(get_sample_restore_key(sample) for sample in pack)
-                with self._final_packing_sample_index.ctx() as pack_idx:
+                with self._final_packing_sample_index.ctx(pack_idx):
                     final_packed_sample = self.final_packer(pack)
                 if isinstance(final_packed_sample, Generator):
                     assert inspect.isgeneratorfunction(
                         self.final_packer
                     ), f"Generator in {self.final_packer} but not marked as such."
+                    self._generator_sample_keys[worker_idx] = pack_restore_keys
+                    self._generator_offsets[worker_idx] = skip
                     for pack_sub_idx, (pack_idx, inner_batch_sample) in enumerate(
                         self._final_packing_sample_index.iter_ctx(final_packed_sample, pack_idx)
                     ):
+                        if pack_sub_idx < skip:
+                            continue
+                        self._generator_offsets[worker_idx] = pack_sub_idx + 1
                         yield set_sample_restore_key(
                             inner_batch_sample,
                             pack_idx,
@@ -239,6 +263,21 @@ class PackingDataset(
                 raise FatalSampleError.from_sample(pack)
             except Exception as e:
                 self.error_handler(e, pack)
+            # The pack is finished, also if it was skipped or failed
+            self._generator_sample_keys[worker_idx] = None
+            self._generator_offsets[worker_idx] = None
+
+        # Continue the final_packer generator which was active when saving the state
+        if self._generator_sample_keys[worker_idx] is not None:
+            yield from final_pack(
+                [
+                    self.dataset.restore_sample(key)
+                    for key in self._generator_sample_keys[worker_idx]
+                ],
+                # Do not increment the sample index, use previous index
+                self._final_packing_sample_index.current_idx - 1,
+                self._generator_offsets[worker_idx],
+            )
 
         # Main loop:
         stopping = False
@@ -283,6 +322,8 @@ class PackingDataset(
             ),
             final_packing_index=self._final_packing_sample_index.save_state(),
             pre_packing_index=self._pre_packing_sample_index.save_state(),
+            generator_sample_keys=self._generator_sample_keys[self.worker_config.rank_worker_id()],
+            generator_offset=self._generator_offsets[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -302,6 +343,12 @@ class PackingDataset(
             pre_packing_index=self._pre_packing_sample_index.merge_states(
                 [0 if state is None else state.pre_packing_index for state in states]
             ),
+            generator_sample_keys=[
+                None if state is None else state.generator_sample_keys for state in states
+            ],
+            generator_offsets=[
+                None if state is None else state.generator_offset for state in states
+            ],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -312,6 +359,8 @@ class PackingDataset(
             self._pre_packing_lengths = [[] for _ in range(max(self.worker_config.num_workers, 1))]
             self._pre_packing_sample_index.restore_state(None)
             self._final_packing_sample_index.restore_state(None)
+            self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
+            self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -319,6 +368,8 @@ class PackingDataset(
             self._pre_packing_lengths = [list(lengths) for lengths in state.pre_packing_lengths]
             self._pre_packing_sample_index.restore_state(state.pre_packing_index)
             self._final_packing_sample_index.restore_state(state.final_packing_index)
+            self._generator_sample_keys = list(state.generator_sample_keys)
+            self._generator_offsets = list(state.generator_offsets)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
-- 
2.43.0


From 3c8c938553df767959efdadef35dd0a8b536aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 14/50] fix: drop the active iterator of an epochized dataset
 when restoring it

---
 src/megatron/energon/wrappers/epochize_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/epochize_dataset.py b/src/megatron/energon/wrappers/epochize_dataset.py
index 724c025..f5cc117 100644
--- a/src/megatron/energon/wrappers/epochize_dataset.py
+++ b/src/megatron/energon/wrappers/epochize_dataset.py
@@ -124,6 +124,8 @@ class EpochizeDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sa
 
     def restore_state(self, state: Optional[EpochizeMergedState]) -> None:
         super().restore_state(state)
+        # A still active iterator belongs to the state before restoring
+        self._active_iter = None
         if state is None:
             self._offset = [0] * max(self.worker_config.num_workers, 1)
         else:
-- 
2.43.0


From 64c0360dfad1d108f62fabb0d413a791c35c7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 15/50] fix: restoring a worker rng to the initial state seeds
 it again

---
 src/megatron/energon/rng.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/rng.py b/src/megatron/energon/rng.py
index 6fdf81d..1be1eab 100644
--- a/src/megatron/energon/rng.py
+++ b/src/megatron/energon/rng.py
@@ -111,6 +111,8 @@ class WorkerRng:
 
     def restore_state(self, state: Optional[WorkerRngMergedState]) -> None:
         if state is None:
+            # Initial state, seed again on next use
+            self._rng = None
             self._restore_states = None
         else:
             assert isinstance(state, WorkerRngMergedState)
-- 
2.43.0


From 32fd12672d3f8d220160fc4859670fa8e8b64686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 16/50] fix: seed stateless functions by the worker of the
 current sample

The seed of the first worker was cached, thus restoring samples of several workers in one process
used the wrong seed.
---
 src/megatron/energon/task_encoder/base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d0b8fb8..c1a684a 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -133,13 +133,11 @@ def stateless(
     if fn is None:
         return lambda f: stateless(f, restore_seeds=restore_seeds)
     if restore_seeds:
-        worker_seed = None
 
         @functools.wraps(fn)
         def seed_wrapper_generator(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached: When restoring samples, each may be from a different worker
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             outer_rng_state = SystemRng.save_state()
@@ -185,9 +183,8 @@ def stateless(
 
         @functools.wraps(fn)
         def seed_wrapper(self, *args, **kwargs):
-            nonlocal worker_seed
-            if worker_seed is None:
-                worker_seed = WorkerConfig.active_worker_config.worker_seed()
+            # Not cached: When restoring samples, each may be from a different worker
+            worker_seed = WorkerConfig.active_worker_config.worker_seed()
 
             # Save the RNG states and set the new seed
             rng_state = SystemRng.save_state()
-- 
2.43.0


From d61db6c60273431d62ed4becfcb4249ec144bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 17/50] fix: restore keys of a blend count the datasets which
 are empty for the worker

---
 src/megatron/energon/wrappers/blend_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/wrappers/blend_dataset.py b/src/megatron/energon/wrappers/blend_dataset.py
index 2ab6d3a..0f41350 100644
--- a/src/megatron/energon/wrappers/blend_dataset.py
+++ b/src/megatron/energon/wrappers/blend_dataset.py
@@ -78,10 +78,11 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
 
     def __iter__(self) -> Iterator[T_sample]:
         assert self.worker_has_samples(), "Cannot blend all empty datasets"
-        datasets, weights = zip(
+        # The restore key refers to the index in all datasets, including the empty ones
+        indexes, datasets, weights = zip(
             *[
-                (dataset, weight)
-                for dataset, weight in self.dataset_weights
+                (idx, dataset, weight)
+                for idx, (dataset, weight) in enumerate(self.dataset_weights)
                 if dataset.worker_has_samples()
             ]
         )
@@ -92,7 +93,7 @@ class BlendDataset(BaseWrapperDataset[T_sample], Generic[T_sample]):
         while True:
             ds_idx = self._worker_rng.choice_idx(probs=probs)
             sample = next(dataset_iters[ds_idx])
-            yield add_sample_restore_key(sample, ds_idx, src=self)
+            yield add_sample_restore_key(sample, indexes[ds_idx], src=self)
 
     def worker_has_samples(self) -> bool:
         return any(dataset.worker_has_samples() for dataset, _weight in self.dataset_weights)
-- 
2.43.0


From e78f06b6dbcccaa5b0d759f1d02c8034bfbcd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 18/50] fix: length of a batched dataset for workers with one
 more sample

---
 src/megatron/energon/wrappers/batch_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index 6ef778d..f99bc1f 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -118,7 +118,7 @@ class BatchDataset(
             n_batches_per_worker_floor += 1
         # Correct number of batches for the workers which yield 1 more sample (to balance)
         n_batches_per_worker_ceil = (n_samples_per_worker_floor + 1) // self.batch_size
-        if n_batches_per_worker_ceil % self.batch_size != 0 and not self.drop_last:
+        if (n_samples_per_worker_floor + 1) % self.batch_size != 0 and not self.drop_last:
             n_batches_per_worker_ceil += 1
 
         return (
-- 
2.43.0


From 76bb8e2b2212d7aef63c90ee5b778fe16c96eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 19/50] fix: all ranks take part in scattering the state from
 the source rank

The ranks other than src_rank have no state, thus they skipped the scatter, blocking src_rank and
starting from the initial state.
---
 src/megatron/energon/savable_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 0436b18..37f2954 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1017,12 +1017,12 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 to None. If not set, all ranks are assumed to hold the data.
         """
         assert self._persistent_iterator is None, "Cannot restore state while workers are running"
-        # Only restore multi-rank if state is actually a list and we are in a torch distributed setup.
-        # Otherwise treat as single rank state.
+        # Only restore multi-rank if state is actually a list (or another rank has that list) and we
+        # are in a torch distributed setup. Otherwise treat as single rank state.
         if (
             torch.distributed.is_available()
             and torch.distributed.is_initialized()
-            and isinstance(state, list)
+            and (isinstance(state, list) or src_rank is not None)
         ):
             if src_rank is None:
                 # All ranks have the state
-- 
2.43.0


From 5081da87f1b812e1b5946dad51fa1030ffec27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 20/50] fix: reading on after a short read or an error returns
 all requested bytes

The retry requested the full size again and returned only the last part, or None after ten short
reads. Failing to open the file was not retried.
---
 src/megatron/energon/retry_stream.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 0ca24d2..07eab55 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -36,29 +36,29 @@ class RetryReadStream(BinaryIO):
 
     def read(self, n: int = -1) -> bytes:
         buf = b""
-        for retry in range(10):
+        retry = 0
+        while True:
             try:
                 if self._file is None:
                     self._file = self._path.open("rb")
                     self._file.seek(self._pos)
-                res = self._file.read(n)
+                res = self._file.read(n if n < 0 else n - len(buf))
                 self._pos += len(res)
                 buf += res
-                if (
-                    (n == -1 and self._pos >= self._size)
-                    or len(buf) == n
-                    or self._pos >= self._size
-                ):
-                    return res
+                if len(buf) == n or self._pos >= self._size:
+                    return buf
+                if len(res) == 0:
+                    raise IOError(f"Unexpected end of stream at {self._pos} of {self._size}")
             except IOError:
                 try:
-                    self._file.close()
+                    if self._file is not None:
+                        self._file.close()
                 except IOError:
                     pass
                 self._file = None
                 if retry == 9:
                     raise
-                continue
+                retry += 1
 
     def seek(self, offset: int, whence: int = 0) -> int:
         if whence == 0:
-- 
2.43.0


From 7cb65f4b889a503c58e9d23467a42ffa43b0704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 21/50] fix: do not drop a shard due to rounding of the split
 ratios

---
 src/megatron/energon/flavors/webdataset/prepare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/prepare.py b/src/megatron/energon/flavors/webdataset/prepare.py
index c72776d..4740653 100644
--- a/src/megatron/energon/flavors/webdataset/prepare.py
+++ b/src/megatron/energon/flavors/webdataset/prepare.py
@@ -235,7 +235,8 @@ class WebdatasetPreparator:
             split_offset = 0
             for split_part, split_ratio in split_parts_ratio:
                 split_total += split_ratio
-                split_end = int(len(shards) * split_total)
+                # The tolerance avoids dropping shards due to accumulated rounding errors
+                split_end = int(len(shards) * split_total + 1e-6)
                 split_shards[split_part] = [shard.name for shard in shards[split_offset:split_end]]
                 split_offset = split_end
         else:
-- 
2.43.0


From 66414045d44fea491300bf40e04f0625e000d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 22/50] fix: restore keys and offsets count the excluded
 samples of a shard

---
 .../flavors/webdataset/single_shard_reader.py     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/single_shard_reader.py b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
index 519ea42..47a0f08 100644
--- a/src/megatron/energon/flavors/webdataset/single_shard_reader.py
+++ b/src/megatron/energon/flavors/webdataset/single_shard_reader.py
@@ -42,6 +42,8 @@ class SingleShardReader:
     _cur_base_name: Optional[str] = None
     _cur_ext: Optional[str] = None
     _cur_key: Optional[str] = None
+    # Index of the current sample relative to the sub-shard, also counting excluded samples
+    _cur_index: int = -1
 
     def __init__(
         self,
@@ -56,6 +58,7 @@ class SingleShardReader:
         self.shard_state = shard_state
         self.part_filter = part_filter
         self.handler = handler
+        self._cur_index = shard_state.offset - 1
 
         if shard_state.offset == shard_state.shard.count:
             # Empty shard, return immediately
@@ -135,7 +138,11 @@ class SingleShardReader:
             m = split_name_re.match(fname)
             if not m:
                 continue
-            self._cur_base_name, self._cur_ext = m.groups()
+            base_name, self._cur_ext = m.groups()
+            if base_name != self._cur_base_name:
+                # Next sample in the shard, see also the indexing when preparing the dataset
+                self._cur_index += 1
+                self._cur_base_name = base_name
 
             self._cur_key = f"{self.shard_state.shard.name}/{self._cur_base_name}"
             if self._cur_key in self.exclude:
@@ -164,7 +171,7 @@ class SingleShardReader:
             __restore_key__=(
                 "Webdataset",
                 self.shard_state.shard.name,
-                self.shard_state.offset + self.shard_state.shard.offset,
+                self._cur_index + self.shard_state.shard.offset,
             ),
         )
         while True:
@@ -179,7 +186,7 @@ class SingleShardReader:
                         next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
                     )
                     assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-                    self.shard_state.offset += 1
+                    self.shard_state.offset = self._cur_index
 
                     if self.worker_config.should_log(level=3):
                         self.worker_config.worker_log(
@@ -225,7 +232,7 @@ class SingleShardReader:
             next_sample_offset_in_sub_tar + self._orig_shard_state_byte_offset
         )
         assert self.shard_state.byte_offset <= self.shard_state.shard.byte_size
-        self.shard_state.offset += 1
+        self.shard_state.offset = self._cur_index + 1
 
         if self.worker_config.should_log(level=3):
             self.worker_config.worker_log(
-- 
2.43.0


From 916fc852116141b36e51c21551a3956a0ffe1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 23/50] fix: do not yield a joined sample with the previous
 sample's column after a handled mismatch

---
 src/megatron/energon/flavors/webdataset/sample_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/sample_loader.py b/src/megatron/energon/flavors/webdataset/sample_loader.py
index d42b04c..3ecb5eb 100644
--- a/src/megatron/energon/flavors/webdataset/sample_loader.py
+++ b/src/megatron/energon/flavors/webdataset/sample_loader.py
@@ -241,6 +241,7 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                 except Exception as e:
                     self.handler(e, readers[0].shard_state.shard.name)
                 else:
+                    all_matched = True
                     for idx, reader in enumerate(readers[1:], 1):
                         try:
                             _, groups[idx] = reader.read_next(group_name, must_match=True)
@@ -262,7 +263,9 @@ class WebdatasetSampleLoaderDataset(SavableDataset[Tuple[Optional[FilteredSample
                             )
                         except Exception as e:
                             self.handler(e, reader.shard_state.shard.name)
-                    yield tuple(groups)
+                            all_matched = False
+                    if all_matched:
+                        yield tuple(groups)
 
     def _shards_once(self, shards: List[Sequence[ShardInfo]]) -> List[Sequence[ShardInfo]]:
         """Possibly (re)shuffles the shards using the random generator."""
-- 
2.43.0


From b61879cbd64d450ce716bafe57d076e281d3f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 24/50] fix: do not lose the last sample when splitting a shard
 into sequences

---
 src/megatron/energon/flavors/webdataset/sharder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/flavors/webdataset/sharder.py b/src/megatron/energon/flavors/webdataset/sharder.py
index fb35bf9..6ef4aba 100644
--- a/src/megatron/energon/flavors/webdataset/sharder.py
+++ b/src/megatron/energon/flavors/webdataset/sharder.py
@@ -24,11 +24,11 @@ class Sharder:
         ):
             # Split the shard into slices of max_samples_per_sequence (more or less)
             slice_count = max(round((end_offset - start_offset) / max_samples_per_sequence), 1)
-            samples_per_sequence = (end_offset - start_offset) / slice_count
             # Note this must include the end offset as well, so slice_count + 1 steps (down there,
             # idx+1 is used to access the end offset)
             offsets = [
-                start_offset + int(slice * samples_per_sequence) for slice in range(slice_count + 1)
+                start_offset + slice * (end_offset - start_offset) // slice_count
+                for slice in range(slice_count + 1)
             ]
             return [
                 [
-- 
2.43.0


From 4bc26d73670c95419008ff6469beb5ae5137f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 25/50] fix: keep the split config of the joined datasets
 unless the join overrides it

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index c89800f..d9d7776 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -116,7 +116,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
     subflavors: Optional[Dict[str, Any]] = None
     shuffle_over_epochs_multiplier: int = 1
     dataset_config: str = "dataset.yaml"
-    split_config: str = "split.yaml"
+    # If set, overrides the split config of all joined datasets
+    split_config: Optional[str] = None
 
     _dataset: Optional[DatasetLoaderInterface] = None
 
-- 
2.43.0


From b3f3e3e7f67cf38d2d44ddef3864c4a4237a4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 26/50] fix: apply the shuffle over epochs multiplier of a join

---
 src/megatron/energon/metadataset/metadataset_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/metadataset/metadataset_v2.py b/src/megatron/energon/metadataset/metadataset_v2.py
index d9d7776..6615946 100644
--- a/src/megatron/energon/metadataset/metadataset_v2.py
+++ b/src/megatron/energon/metadataset/metadataset_v2.py
@@ -162,7 +162,8 @@ class MetadatasetJoin(DatasetLoaderInterface):
             worker_config=worker_config,
             subflavor=subflavor,
             subflavors=subflavors,
-            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier,
+            shuffle_over_epochs_multiplier=shuffle_over_epochs_multiplier
+            * self.shuffle_over_epochs_multiplier,
             **kwargs,
         )
 
-- 
2.43.0


From 7c6fc325de7d1f35526048bce636f356b4869221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 27/50] fix: encode the batches of a task encoder which groups
 the samples

---
 src/megatron/energon/task_encoder/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index c1a684a..d6ee558 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -398,9 +398,18 @@ class TaskEncoder(ABC, Generic[T_sample, T_encoded_sample, T_raw_batch, T_batch]
                 fixed_batch_size=batch_size,
                 sample_group_key=self.batch_group_criterion,
                 batcher=self.batch,
+                batcher_stateless=get_stateless(self.batch),
                 drop_last=batch_drop_last,
                 worker_config=worker_config,
             )
+
+            if getattr(self.encode_batch, "__func__", None) is not TaskEncoder.encode_batch:
+                dataset = MapDataset(
+                    dataset,
+                    self.encode_batch,
+                    worker_config=worker_config,
+                    stateless_map_fn=get_stateless(self.encode_batch),
+                )
         else:
             # No grouping is active
 
-- 
2.43.0


From 2424756afc153967192d8c9f62a984d90ff22c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 28/50] fix: a restored repetition does not lose a pass and the
 next epoch repeats again

---
 src/megatron/energon/wrappers/repeat_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/wrappers/repeat_dataset.py b/src/megatron/energon/wrappers/repeat_dataset.py
index e0eb685..8cb305a 100644
--- a/src/megatron/energon/wrappers/repeat_dataset.py
+++ b/src/megatron/energon/wrappers/repeat_dataset.py
@@ -73,9 +73,10 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                     )
         else:
             for offset in range(self._offset[worker_idx], self.repeats):
-                self._offset[worker_idx] = offset + 1
+                self._offset[worker_idx] = offset
                 for sample in self.dataset:
                     yield sample
+                self._offset[worker_idx] = offset + 1
                 if self.worker_config.should_log(level=2):
                     self.worker_config.worker_log(
                         {
@@ -86,6 +87,8 @@ class RepeatDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_samp
                             "repeats": self.repeats,
                         }
                     )
+            # Restart for the next epoch
+            self._offset[worker_idx] = 0
 
     def save_state(self) -> RepeatState:
         return RepeatState.extend(
-- 
2.43.0


From de44b959abc23d228d5e646d19a33863a2c47c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 29/50] fix: do not iterate an exhausted dataset again when
 restored while draining the buffers

---
 .../energon/wrappers/batch_dataset.py         | 22 ++++++++++++++++-
 .../energon/wrappers/group_batch_dataset.py   | 21 +++++++++++++++-
 .../energon/wrappers/packing_dataset.py       | 23 ++++++++++++++++--
 .../wrappers/shuffle_buffer_dataset.py        | 24 +++++++++++++++++--
 4 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/wrappers/batch_dataset.py b/src/megatron/energon/wrappers/batch_dataset.py
index f99bc1f..5a993bb 100644
--- a/src/megatron/energon/wrappers/batch_dataset.py
+++ b/src/megatron/energon/wrappers/batch_dataset.py
@@ -37,11 +37,13 @@ T_batch_sample = TypeVar("T_batch_sample", covariant=True)
 @dataclass
 class BatchState(BaseSingleWrapperState):
     sample_index: int
+    draining: bool
 
 
 @dataclass
 class BatchMergedState(BaseSingleWrapperMergedState):
     sample_indexes: List[int]
+    draining: List[bool]
 
 
 @dataclass
@@ -68,6 +70,10 @@ class BatchDataset(
     _sample_index: SampleIndex
     _generator_sample_keys: List[Optional[Any]]
     _generator_offsets: List[Optional[int]]
+    #: Whether the inner dataset is exhausted and the last batch is yielded, per worker
+    _draining: List[bool]
+    #: Whether to only finish the last batch after restoring, per worker
+    _resume_draining: List[bool]
 
     def __init__(
         self,
@@ -107,6 +113,8 @@ class BatchDataset(
         self._sample_index = SampleIndex(worker_config, src=self)
         self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
+        self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self):
         n_samples = len(self.dataset)
@@ -131,6 +139,10 @@ class BatchDataset(
         batch: List[T_batch_sample] = []
         sample_restore_keys = []
 
+        # Do not iterate the inner dataset again if it was exhausted in the restored state
+        self._draining[worker_id] = self._resume_draining[worker_id]
+        self._resume_draining[worker_id] = False
+
         if self._generator_sample_keys[worker_id] is not None:
             sample_restore_keys = self._generator_sample_keys[worker_id]
             assert self._generator_offsets[worker_id] is not None
@@ -203,19 +215,22 @@ class BatchDataset(
             self._generator_offsets[worker_id] = None
             sample_restore_keys.clear()
 
-        for sample in self.dataset:
+        for sample in () if self._draining[worker_id] else self.dataset:
             batch.append(sample)
             sample_restore_keys.append(get_sample_restore_key(sample))
             if len(batch) == self.batch_size:
                 yield from flush()
                 batch = []
+        self._draining[worker_id] = True
         if len(batch) > 0 and not self.drop_last:
             yield from flush()
+        self._draining[worker_id] = False
 
     def save_state(self) -> BatchState:
         state = BatchState.extend(
             super().save_state(),
             sample_index=self._sample_index.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
         if self._generator_offsets[self.worker_config.rank_worker_id()] is not None:
             state = BatchGeneratorState.extend(
@@ -234,6 +249,7 @@ class BatchDataset(
             sample_indexes=self._sample_index.merge_states(
                 [0 if state is None else state.sample_index for state in states]
             ),
+            draining=[False if state is None else state.draining for state in states],
         )
         if any(isinstance(s, BatchGeneratorState) for s in states):
             state = BatchGeneratorMergedState.extend(
@@ -253,11 +269,15 @@ class BatchDataset(
         super().restore_state(state)
         if state is None:
             self._sample_index.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, BatchMergedState)
             self._sample_index.restore_state(state.sample_indexes)
+            self._draining = list(state.draining)
+            self._resume_draining = list(state.draining)
             if isinstance(state, BatchGeneratorMergedState):
                 self._generator_sample_keys = list(state.generator_sample_keys)
                 self._generator_offsets = list(state.generator_offsets)
diff --git a/src/megatron/energon/wrappers/group_batch_dataset.py b/src/megatron/energon/wrappers/group_batch_dataset.py
index 1117873..591c94f 100644
--- a/src/megatron/energon/wrappers/group_batch_dataset.py
+++ b/src/megatron/energon/wrappers/group_batch_dataset.py
@@ -63,6 +63,7 @@ class GroupBatchState(BaseSingleWrapperState):
     bucket_sample_index: int
     batch_sample_index: int
     buckets: List[BucketState]
+    draining: bool
 
 
 @dataclass
@@ -70,6 +71,7 @@ class GroupBatchMergedState(BaseSingleWrapperMergedState):
     bucket_sample_index: List[int]
     batch_sample_index: List[int]
     buckets: List[List[BucketMergedState]]
+    draining: List[bool]
 
 
 @dataclass
@@ -97,6 +99,10 @@ class GroupBatchDataset(
     _group_key_sample_index: SampleIndex
     _batch_sample_index: SampleIndex
     _buckets: List[Dict[Hashable, Bucket[T_batch_sample]]]
+    #: Whether the inner dataset is exhausted and only the buffered samples remain, per worker
+    _draining: List[bool]
+    #: Whether to continue with the buffered samples only after restoring, per worker
+    _resume_draining: List[bool]
 
     def __init__(
         self,
@@ -134,6 +140,8 @@ class GroupBatchDataset(
         self._group_key_sample_index = SampleIndex(worker_config, src=self)
         self._batch_sample_index = SampleIndex(worker_config, src=self)
         self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
+        self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
         assert not inspect.isgeneratorfunction(
             batcher
         ), f"Batcher {batcher} must not be a generator function for grouped batching."
@@ -153,6 +161,9 @@ class GroupBatchDataset(
         if buckets is None:
             buckets = self._buckets[worker_idx] = dict()
 
+        # Do not iterate the inner dataset again if it was exhausted in the restored state
+        self._draining[worker_idx] = self._resume_draining[worker_idx]
+        self._resume_draining[worker_idx] = False
         # Load saved state if available
         for bucket in buckets.values():
             bucket.samples.worker_start()
@@ -175,7 +186,7 @@ class GroupBatchDataset(
                 self.error_handler(e, batch_items)
 
         # Add samples to the buckets
-        for sample in self.dataset:
+        for sample in () if self._draining[worker_idx] else self.dataset:
             try:
                 with self._group_key_sample_index.ctx():
                     bucket_key, batch_size = self.sample_group_key(sample)
@@ -205,6 +216,7 @@ class GroupBatchDataset(
             bucket.samples.append(sample)
             if len(bucket.samples) >= bucket.batch_size:
                 yield from flush(bucket)
+        self._draining[worker_idx] = True
         # Flush out last samples
         if not self.drop_last:
             for bucket in buckets.values():
@@ -212,6 +224,7 @@ class GroupBatchDataset(
                     yield from flush(bucket)
         # Clear the buckets
         self._buckets[worker_idx].clear()
+        self._draining[worker_idx] = False
 
     def save_state(self) -> GroupBatchState:
         rank = self.worker_config.rank_worker_id()
@@ -231,6 +244,7 @@ class GroupBatchDataset(
                 if self._buckets[rank] is not None
                 else []
             ),
+            draining=self._draining[rank],
         )
 
     def merge_states(self, states: List[Optional[GroupBatchState]]) -> GroupBatchMergedState:
@@ -244,6 +258,7 @@ class GroupBatchDataset(
                 [0 if s is None else s.batch_sample_index for s in states]
             ),
             buckets=[(state.buckets if state else []) for state in states],
+            draining=[(state.draining if state else False) for state in states],
         )
 
     def restore_state(self, state: Optional[GroupBatchMergedState]) -> None:
@@ -252,10 +267,14 @@ class GroupBatchDataset(
             self._group_key_sample_index.restore_state(None)
             self._batch_sample_index.restore_state(None)
             self._buckets = [{} for _ in range(max(self.worker_config.num_workers, 1))]
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, GroupBatchMergedState)
             self._group_key_sample_index.restore_state(state.bucket_sample_index)
             self._batch_sample_index.restore_state(state.batch_sample_index)
+            self._draining = list(state.draining)
+            self._resume_draining = list(state.draining)
             for worker_idx, (buckets_state, buckets) in enumerate(
                 zip(state.buckets, self._buckets)
             ):
diff --git a/src/megatron/energon/wrappers/packing_dataset.py b/src/megatron/energon/wrappers/packing_dataset.py
index 1b4bae0..6e9d584 100644
--- a/src/megatron/energon/wrappers/packing_dataset.py
+++ b/src/megatron/energon/wrappers/packing_dataset.py
@@ -48,6 +48,7 @@ class PackingState(BaseSingleWrapperState):
     final_packing_index: int
     generator_sample_keys: Optional[Tuple[Any, ...]]
     generator_offset: Optional[int]
+    draining: bool
 
 
 @dataclass
@@ -59,6 +60,7 @@ class PackingMergedState(BaseSingleWrapperMergedState):
     final_packing_index: List[int]
     generator_sample_keys: List[Optional[Tuple[Any, ...]]]
     generator_offsets: List[Optional[int]]
+    draining: List[bool]
 
 
 class PackingDataset(
@@ -99,6 +101,11 @@ class PackingDataset(
     #: Number of samples already yielded by the current final_packer generator
     _generator_offsets: List[Optional[int]]
 
+    #: Whether the inner dataset is exhausted and only the buffered samples remain, per worker
+    _draining: List[bool]
+    #: Whether to continue with the buffered samples only after restoring, per worker
+    _resume_draining: List[bool]
+
     def __init__(
         self,
         dataset: SavableDataset[T_sample],
@@ -148,6 +155,8 @@ class PackingDataset(
         self._final_packing_sample_index = SampleIndex(worker_config, src=self)
         self._generator_sample_keys = [None] * max(worker_config.num_workers, 1)
         self._generator_offsets = [None] * max(worker_config.num_workers, 1)
+        self._draining = [False] * max(worker_config.num_workers, 1)
+        self._resume_draining = [False] * max(worker_config.num_workers, 1)
 
     def __len__(self):
         """The real length is unknown, since it depends on the packing function.
@@ -177,6 +186,9 @@ class PackingDataset(
     def __iter__(self) -> Iterator[T_batch_sample]:
         worker_idx = self.worker_config.rank_worker_id()
         pre_packing_lengths = self._pre_packing_lengths[worker_idx]
+        # Do not iterate the inner dataset again if it was exhausted in the restored state
+        self._draining[worker_idx] = self._resume_draining[worker_idx]
+        self._resume_draining[worker_idx] = False
         # The source dataset
         src_iter = iter(self.dataset)
 
@@ -280,7 +292,7 @@ class PackingDataset(
             )
 
         # Main loop:
-        stopping = False
+        stopping = self._draining[worker_idx]
         while not stopping:
 
             pre_pack_round = 0
@@ -291,7 +303,7 @@ class PackingDataset(
                     # But yield the remaining packs first.
                     if len(self._reading_buffer) > 0:
                         next_pre_pack()
-                    stopping = True
+                    stopping = self._draining[worker_idx] = True
                     break
 
                 assert len(self._pre_packing_buffer) == 0
@@ -311,6 +323,7 @@ class PackingDataset(
         # Yield the remaining packs, flushing the collecting buffer
         while len(pre_packing_lengths) > 0:
             yield from next_final_pack()
+        self._draining[worker_idx] = False
 
     def save_state(self) -> PackingState:
         return PackingState.extend(
@@ -324,6 +337,7 @@ class PackingDataset(
             pre_packing_index=self._pre_packing_sample_index.save_state(),
             generator_sample_keys=self._generator_sample_keys[self.worker_config.rank_worker_id()],
             generator_offset=self._generator_offsets[self.worker_config.rank_worker_id()],
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[PackingState]) -> PackingMergedState:
@@ -349,6 +363,7 @@ class PackingDataset(
             generator_offsets=[
                 None if state is None else state.generator_offset for state in states
             ],
+            draining=[False if state is None else state.draining for state in states],
         )
 
     def restore_state(self, state: Optional[PackingMergedState]) -> None:
@@ -361,6 +376,8 @@ class PackingDataset(
             self._final_packing_sample_index.restore_state(None)
             self._generator_sample_keys = [None] * max(self.worker_config.num_workers, 1)
             self._generator_offsets = [None] * max(self.worker_config.num_workers, 1)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, PackingMergedState)
             self._reading_buffer.restore_state(state.reading_buffer)
@@ -370,6 +387,8 @@ class PackingDataset(
             self._final_packing_sample_index.restore_state(state.final_packing_index)
             self._generator_sample_keys = list(state.generator_sample_keys)
             self._generator_offsets = list(state.generator_offsets)
+            self._draining = list(state.draining)
+            self._resume_draining = list(state.draining)
 
     def can_restore_sample(self) -> bool:
         # Cannot really verify if the returned elements contain a __restore_key__.
diff --git a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
index c18594f..8e7c4fd 100644
--- a/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
+++ b/src/megatron/energon/wrappers/shuffle_buffer_dataset.py
@@ -25,12 +25,14 @@ T_sample = TypeVar("T_sample")
 class ShuffleBufferState(BaseSingleWrapperState):
     buffer: SampleBufferState
     rng: WorkerRngState
+    draining: bool
 
 
 @dataclass
 class ShuffleBufferMergedState(BaseSingleWrapperMergedState):
     buffer: SampleBufferMergedState
     rng: WorkerRngMergedState
+    draining: List[bool]
 
 
 class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sample]):
@@ -41,6 +43,11 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
 
     _active_buffer: SavableSampleBuffer[T_sample]
 
+    #: Whether the inner dataset is exhausted and only the buffered samples remain, per worker
+    _draining: List[bool]
+    #: Whether to continue with the buffered samples only after restoring, per worker
+    _resume_draining: List[bool]
+
     def __init__(
         self,
         dataset: SavableDataset[T_sample],
@@ -53,14 +60,20 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         self.size = size
         self._worker_rng = WorkerRng(self.worker_config)
         self._active_buffer = SavableSampleBuffer(dataset, worker_config=worker_config)
+        self._draining = [False] * max(self.worker_config.num_workers, 1)
+        self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
 
     def __len__(self) -> int:
         return len(self.dataset)
 
     def __iter__(self) -> Iterator[T_sample]:
+        worker_idx = self.worker_config.rank_worker_id()
+        # Do not iterate the inner dataset again if it was exhausted in the restored state
+        self._draining[worker_idx] = self._resume_draining[worker_idx]
+        self._resume_draining[worker_idx] = False
         self._active_buffer.worker_start()
         it = iter(self._active_buffer.append_iter())
-        while True:
+        while not self._draining[worker_idx]:
             if len(self._active_buffer) >= self.size:
                 pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
                 yield self._active_buffer.pop(pop_idx)
@@ -68,16 +81,18 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
                 try:
                     next(it)
                 except StopIteration:
-                    break
+                    self._draining[worker_idx] = True
         while len(self._active_buffer) > 0:
             pop_idx = self._worker_rng.randbelow(len(self._active_buffer))
             yield self._active_buffer.pop(pop_idx)
+        self._draining[worker_idx] = False
 
     def save_state(self) -> ShuffleBufferState:
         return ShuffleBufferState.extend(
             super().save_state(),
             rng=self._worker_rng.save_state(),
             buffer=self._active_buffer.save_state(),
+            draining=self._draining[self.worker_config.rank_worker_id()],
         )
 
     def merge_states(self, states: List[Optional[ShuffleBufferState]]) -> ShuffleBufferMergedState:
@@ -88,6 +103,7 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
             buffer=self._active_buffer.merge_states(
                 [None if s is None else s.buffer for s in states]
             ),
+            draining=[False if s is None else s.draining for s in states],
         )
 
     def restore_state(self, state: Optional[ShuffleBufferMergedState]) -> None:
@@ -95,10 +111,14 @@ class ShuffleBufferDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic
         if state is None:
             self._active_buffer.restore_state(None)
             self._worker_rng.restore_state(None)
+            self._draining = [False] * max(self.worker_config.num_workers, 1)
+            self._resume_draining = [False] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, ShuffleBufferMergedState)
             self._active_buffer.restore_state(state.buffer)
             self._worker_rng.restore_state(state.rng)
+            self._draining = list(state.draining)
+            self._resume_draining = list(state.draining)
 
     def restore_sample(self, index: Tuple[Union[str, int, tuple], ...]) -> T_sample:
         return self._active_buffer.restore_sample(index)
-- 
2.43.0


From 1e95a2c63b0fb357bef01f3ca7403db68ea7c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 30/50] fix: a limit without a share for a worker has no
 samples there

---
 .../energon/wrappers/limit_dataset.py         | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/megatron/energon/wrappers/limit_dataset.py b/src/megatron/energon/wrappers/limit_dataset.py
index e95772d..f4f7346 100644
--- a/src/megatron/energon/wrappers/limit_dataset.py
+++ b/src/megatron/energon/wrappers/limit_dataset.py
@@ -58,16 +58,19 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
     def __len__(self) -> int:
         return min(self.length, len(self.dataset))
 
+    def _local_limit(self) -> int:
+        """Compute the local limit for this worker, i.e. all worker's limits sum up to the total"""
+        if self.worker_config.num_workers <= 1:
+            return self.length
+        local_limit = self.length // self.worker_config.num_workers
+        if self.worker_config.rank_worker_id() < self.length % self.worker_config.num_workers:
+            local_limit += 1
+        return local_limit
+
     def __iter__(self) -> Iterator[T_sample]:
         worker_id = self.worker_config.rank_worker_id()
 
-        # Compute the local limit for this worker, i.e. all worker's limits sum up to the total
-        if self.worker_config.num_workers <= 1:
-            local_limit = self.length
-        else:
-            local_limit = self.length // self.worker_config.num_workers
-            if worker_id < self.length % self.worker_config.num_workers:
-                local_limit += 1
+        local_limit = self._local_limit()
 
         if self.worker_config.should_log(level=2):
             self.worker_config.worker_log(
@@ -112,7 +115,8 @@ class LimitDataset(BaseSingleWrapperDataset[T_sample, T_sample], Generic[T_sampl
             self.dataset.restore_state(None)
 
     def worker_has_samples(self) -> bool:
-        return super().worker_has_samples() and self.length > 0
+        # The share of this worker may be empty
+        return super().worker_has_samples() and self._local_limit() > 0
 
     def save_state(self) -> LimitState:
         return LimitState.extend(
-- 
2.43.0


From 81cf464d94bc1517d4b5e780c6f576695ffe00c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 31/50] fix: a failing seek of a retry stream left the file at
 its old position, the next read returned wrong bytes

---
 src/megatron/energon/retry_stream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/retry_stream.py b/src/megatron/energon/retry_stream.py
index 07eab55..70a91f0 100644
--- a/src/megatron/energon/retry_stream.py
+++ b/src/megatron/energon/retry_stream.py
@@ -75,7 +75,12 @@ class RetryReadStream(BinaryIO):
             if self._file is not None:
                 self._file.seek(offset)
         except IOError:
-            pass
+            # The position of the file is unknown, open it again for the next read
+            try:
+                self._file.close()
+            except IOError:
+                pass
+            self._file = None
         return self._pos
 
     def tell(self) -> int:
-- 
2.43.0


From f40cf0c7d197e3d6e2cfcb73a89466405a7a028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 32/50] fix: write a loadable dataset.yaml for crude samples in
 energon prepare

---
 src/megatron/energon/tools/prepare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/megatron/energon/tools/prepare.py b/src/megatron/energon/tools/prepare.py
index 7c2a38d..b05faf7 100644
--- a/src/megatron/energon/tools/prepare.py
+++ b/src/megatron/energon/tools/prepare.py
@@ -289,6 +289,10 @@ def command(
         }
 
         if cls == CrudeSampleDummy:
+            dataset_definition = {
+                "__module__": "megatron.energon",
+                "__class__": "CrudeWebdataset",
+            }
             click.echo(
                 "CrudeWebdataset does not need a field map. You will need to provide a `Cooker` for your dataset samples in your `TaskEncoder`."
             )
-- 
2.43.0


From 9b96e5e913f36bc36c9ff2c3205de4ecee73a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 33/50] fix: refuse to restore the state of a loader with
 another number of workers

---
 src/megatron/energon/savable_loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 37f2954..2567a31 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -134,6 +134,9 @@ class SimpleSavableDatasetWrapper(SavableDataset[Tuple[int, int, T]], Generic[T]
         else:
             assert isinstance(state, SimpleSavableDatasetMergedState)
             assert state.dataset_type == type(self).__name__
+            assert len(state.sample_indexes) == max(
+                self.worker_config.num_workers, 1
+            ), "The number of workers of the state does not match the configured number of workers"
             self.dataset.restore_state(state.dataset_state)
             self._sample_index = list(state.sample_indexes)
         self._state_restored = True
@@ -589,6 +592,9 @@ class SavableDatasetWrapper(IterableDataset[Tuple[int, int, T]], Generic[T]):
             self._skip_samples = [0] * max(self.worker_config.num_workers, 1)
         else:
             assert isinstance(state, SavableDatasetMergedCheckpoint)
+            assert len(state.offset) == max(
+                self.worker_config.num_workers, 1
+            ), "The number of workers of the state does not match the configured number of workers"
             self._restore_from = state.state
             self._worker_offset = worker_offset
             self.dataset.restore_state(state.dataset_state)
-- 
2.43.0


From 74c9b33317b0d255a3bcaba5297534e3115cd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 34/50] fix: gather and scatter states at a global rank within
 a data parallel group

---
 src/megatron/energon/savable_loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 2567a31..9a5c064 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -997,7 +997,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                     output, merged_state, group=self.worker_config.data_parallel_group
                 )
             else:
-                if self.worker_config.rank == dst_rank:
+                # Like for torch, this is the global rank, also within a data parallel group
+                if torch.distributed.get_rank() == dst_rank:
                     output = [None] * self.worker_config.world_size
                 else:
                     output = None
@@ -1035,8 +1036,8 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
                 # Select the state of the current rank
                 state = state[self.worker_config.rank]
             else:
-                # Only the src_rank has the state
-                if self.worker_config.rank != src_rank:
+                # Only the src_rank (global rank, as for torch) has the state
+                if torch.distributed.get_rank() != src_rank:
                     # Send the state to all other ranks
                     assert state is None
                     # Must still be a list of Nones
-- 
2.43.0


From 88f6f35877335bc8854fbe2ba34ef4087559d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 35/50] fix: refuse to restore the global state of another
 world size

---
 src/megatron/energon/savable_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/megatron/energon/savable_loader.py b/src/megatron/energon/savable_loader.py
index 9a5c064..397bb63 100644
--- a/src/megatron/energon/savable_loader.py
+++ b/src/megatron/energon/savable_loader.py
@@ -1031,6 +1031,9 @@ class SavableDataLoader(DataLoader[T], Generic[T]):
             and torch.distributed.is_initialized()
             and (isinstance(state, list) or src_rank is not None)
         ):
+            assert (
+                state is None or len(state) == self.worker_config.world_size
+            ), "The world size of the state does not match the configured world size"
             if src_rank is None:
                 # All ranks have the state
                 # Select the state of the current rank
-- 
2.43.0


From 3775fa6e5baef96efe8e18e4d5a49f783e39447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:52 +0000
Subject: [PATCH 36/50] fix: restore keys of an iter map do not contain failed
 samples

---
 src/megatron/energon/wrappers/iter_map_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/wrappers/iter_map_dataset.py b/src/megatron/energon/wrappers/iter_map_dataset.py
index 945586f..03a0ee0 100644
--- a/src/megatron/energon/wrappers/iter_map_dataset.py
+++ b/src/megatron/energon/wrappers/iter_map_dataset.py
@@ -141,6 +141,8 @@ class IterMapDataset(
             except SYSTEM_EXCEPTIONS:
                 raise FatalSampleError.from_sample(last_sample_wrapper.last_sample)
             except Exception as e:
+                # The failed samples are not part of the next yielded sample
+                sample_restore_keys.clear()
                 self.error_handler(e, last_sample_wrapper.last_sample)
             else:
                 break
-- 
2.43.0


From 1f989517063e5f9109bc5ac96eabbe8254bc26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 37/50] fix: the error handler of a dataset is given the key of
 the failed sample

The raw samples are tuples (one entry per joined dataset), for which the key was
not looked up, such that the handler got None instead of the key.
---
 src/megatron/energon/flavors/webdataset/error_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/flavors/webdataset/error_handler.py b/src/megatron/energon/flavors/webdataset/error_handler.py
index 857a282..2763f03 100644
--- a/src/megatron/energon/flavors/webdataset/error_handler.py
+++ b/src/megatron/energon/flavors/webdataset/error_handler.py
@@ -32,7 +32,7 @@ class ErrorHandler(Generic[T_sample]):
     ):
         if isinstance(sample, dict):
             key = sample.get("__key__")
-        elif isinstance(sample, list):
+        elif isinstance(sample, (list, tuple)):
             if isinstance(sample[0], dict):
                 key = ",".join("None" if s is None else s.get("__key__") for s in sample)
             elif isinstance(sample[0], Sample):
-- 
2.43.0


From a108ef69e8517228237c90549fa02475fe78ff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 38/50] fix: convert a list to a tuple for a tuple type of
 fixed size

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index d0c01db..8a8b705 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -454,12 +454,12 @@ def raw_to_typed(  # noqa: C901
                     _path,
                     _stage,
                 )
-            return [
+            return tuple(
                 raw_to_typed(
                     val, inner_type, strict, allow_imports, f"{_path} -> {idx}", _stage + (idx,)
                 )
                 for idx, (val, inner_type) in enumerate(zip(raw_data, inner_types))
-            ]
+            )
     elif typing.get_origin(inst_type) is dict:
         # Dict[str, value_type]
         key_type, value_type = typing.get_args(inst_type)
-- 
2.43.0


From 96a0a3e0a5e7ebbc5030a6abb2e3f134ba368b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 39/50] fix: pass positional arguments of a list in their order

---
 src/megatron/energon/typed_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 8a8b705..98afb5f 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -591,7 +591,7 @@ def safe_call_function(
                     )
                 args.append(
                     raw_to_typed(
-                        unused_args.pop(), t, strict, allow_imports, _path=key, _stage=(idx,)
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
                     )
                 )
             elif param.kind == inspect.Parameter.POSITIONAL_OR_KEYWORD:
@@ -600,7 +600,7 @@ def safe_call_function(
                 if len(unused_args) == 0:
                     arg_val = param.default
                 else:
-                    arg_val = unused_args.pop()
+                    arg_val = unused_args.pop(0)
                 args.append(
                     raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
                 )
-- 
2.43.0


From 41fc898b0aee376d7edce5d1c4c981aecd2c9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 40/50] fix: use default values as they are instead of
 converting them

---
 src/megatron/energon/typed_converter.py | 39 ++++++++++++-------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 98afb5f..34fd69f 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -300,7 +300,7 @@ def raw_to_typed(  # noqa: C901
         defaults = getattr(inst_type, "_field_defaults", {})
         kwargs = {
             field_name: raw_to_typed(
-                raw_data.get(field_name, defaults.get(field_name, _missing_value)),
+                raw_data.get(field_name, _missing_value),
                 field_type,
                 strict,
                 allow_imports,
@@ -308,6 +308,7 @@ def raw_to_typed(  # noqa: C901
                 _stage + (idx,),
             )
             for idx, (field_name, field_type) in enumerate(inst_type.__annotations__.items())
+            if field_name in raw_data or field_name not in defaults
         }
         if strict and not set(raw_data).issubset(inst_type.__annotations__):
             raise JsonValueError(
@@ -339,18 +340,7 @@ def raw_to_typed(  # noqa: C901
             )
         kwargs = {
             field.name: raw_to_typed(
-                raw_data.get(
-                    field.name,
-                    (
-                        (
-                            _missing_value
-                            if field.default_factory is dataclasses.MISSING
-                            else field.default_factory()
-                        )
-                        if field.default is dataclasses.MISSING
-                        else field.default
-                    ),
-                ),
+                raw_data.get(field.name, _missing_value),
                 field.type,
                 strict,
                 allow_imports,
@@ -359,6 +349,13 @@ def raw_to_typed(  # noqa: C901
             )
             for idx, field in enumerate(dataclasses.fields(inst_type))
             if field.init
+            and (
+                field.name in raw_data
+                or (
+                    field.default is dataclasses.MISSING
+                    and field.default_factory is dataclasses.MISSING
+                )
+            )
         }
         if strict and not set(raw_data).issubset(
             field.name for field in dataclasses.fields(inst_type) if field.init
@@ -554,10 +551,12 @@ def safe_call_function(
                 inspect.Parameter.POSITIONAL_OR_KEYWORD,
                 inspect.Parameter.KEYWORD_ONLY,
             ):
-                if param.default is inspect.Parameter.empty and key not in unused_args:
-                    raise ValueError(f"Missing required argument {key!r} for {fn}")
+                if key not in unused_args:
+                    if param.default is inspect.Parameter.empty:
+                        raise ValueError(f"Missing required argument {key!r} for {fn}")
+                    continue
                 kwargs[key] = raw_to_typed(
-                    unused_args.pop(key, param.default),
+                    unused_args.pop(key),
                     t,
                     strict,
                     allow_imports,
@@ -598,11 +597,11 @@ def safe_call_function(
                 if param.default is inspect.Parameter.empty and len(unused_args) == 0:
                     raise ValueError(f"Missing required positional argument {key!r} at index {idx}")
                 if len(unused_args) == 0:
-                    arg_val = param.default
-                else:
-                    arg_val = unused_args.pop(0)
+                    continue
                 args.append(
-                    raw_to_typed(arg_val, t, strict, allow_imports, _path=key, _stage=(idx,))
+                    raw_to_typed(
+                        unused_args.pop(0), t, strict, allow_imports, _path=key, _stage=(idx,)
+                    )
                 )
             elif param.kind == inspect.Parameter.VAR_POSITIONAL:
                 for arg_val in unused_args:
-- 
2.43.0


From a0c2a7a75120f301411d27e509ef6697a238a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 41/50] fix: report an incomplete reference instead of ignoring
 it

---
 src/megatron/energon/typed_converter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index 34fd69f..ab5c8af 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -115,6 +115,16 @@ def raw_to_instance(
             object_name = kwargs.pop("__function__", None)
             is_instantiating_class = False
             is_calling_function = True
+        else:
+            object_name = None
+        if (module_name is None) != (object_name is None):
+            raise JsonValueError(
+                f"Expected both __module__ and __class__/__function__ at {_path}, got only one",
+                inst_type,
+                (module_name, object_name),
+                _path,
+                _stage,
+            )
     if module_name is None or object_name is None:
         cls = inst_type
     else:
-- 
2.43.0


From e0a7ce0af23b7929fc5ecb75c9a54de82a9e1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:50 +0000
Subject: [PATCH 42/50] fix: report additional entries of a referenced type or
 function

---
 src/megatron/energon/typed_converter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/megatron/energon/typed_converter.py b/src/megatron/energon/typed_converter.py
index ab5c8af..35821e5 100644
--- a/src/megatron/energon/typed_converter.py
+++ b/src/megatron/energon/typed_converter.py
@@ -162,6 +162,14 @@ def raw_to_instance(
                     f"Expected {inst_type}, got {cls}", inst_type, cls, _path, _stage
                 )
     if is_type or is_callable:
+        if strict and len(kwargs) > 0:
+            raise JsonValueError(
+                f"Additional attributes for {inst_type} at {_path}, got {kwargs!r}",
+                inst_type,
+                kwargs,
+                _path,
+                _stage,
+            )
         inst = cls
     else:
         inst = safe_call_function(kwargs, cls, strict=strict, allow_imports=True)
-- 
2.43.0


From f6fd91f60c4de59d0636d6c933511c7caf27b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 43/50] fix: remove and move exactly the named remote file, not
 those matching it as a pattern

---
 src/megatron/energon/epathlib/epath.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 873c928..52dae75 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -295,12 +295,18 @@ class EPath:
         assert self.protocol == target.protocol, "Can only move within same FS"
         assert self._internal_fs_path == target._internal_fs_path, "Can only move within same FS"
 
-        self.fs.mv(self._internal_nonfs_path, target._internal_nonfs_path)
+        if self.protocol == "local":
+            self.fs.mv(self._internal_nonfs_path, target._internal_nonfs_path)
+        else:
+            # Not using `fs.mv`, which treats the path as a pattern for remote file systems
+            self.fs.cp_file(self._internal_nonfs_path, target._internal_nonfs_path)
+            self.fs.rm_file(self._internal_nonfs_path)
 
     def unlink(self):
         self.fork_guard()
         assert self.is_absolute()
-        return self.fs.rm(self._internal_nonfs_path)
+        # Not using `fs.rm`, which treats the path as a pattern for remote file systems
+        return self.fs.rm_file(self._internal_nonfs_path)
 
     def relative_to(self, other: "EPath") -> str:
         self.fork_guard()
-- 
2.43.0


From 07766c991fb03fbff3fe492e147fbc3e2b909940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 44/50] fix: do not treat special characters of a directory as
 part of the glob pattern

---
 src/megatron/energon/epathlib/epath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 52dae75..308521d 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -1,6 +1,7 @@
 # Copyright (c) 2024, NVIDIA CORPORATION.
 # SPDX-License-Identifier: BSD-3-Clause
 
+import glob
 import os
 import re
 from pathlib import Path as PathlibPath
@@ -257,7 +258,10 @@ class EPath:
         self.fork_guard()
         assert self.is_absolute()
 
-        search_path_pattern = (self / pattern)._internal_nonfs_path
+        # The path itself is not part of the pattern, it may contain special characters
+        search_path_pattern = str(
+            self._resolve(PurePosixPath(glob.escape(self._internal_nonfs_path)) / pattern)
+        )
 
         if self.protocol != "local" and search_path_pattern.startswith("/"):
             # For some reason s3fs glob does not like leading /
-- 
2.43.0


From 1ecbe8b2c2f354e6a8742fc4ff6408842fc23c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 45/50] fix: comparing a path to another object is not an error

---
 src/megatron/energon/epathlib/epath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 308521d..ad6dbd4 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -374,4 +374,6 @@ class EPath:
         return hash((self.internal_path, self.protocol))
 
     def __eq__(self, other):
+        if not isinstance(other, EPath):
+            return NotImplemented
         return self.internal_path == other.internal_path and self.protocol == other.protocol
-- 
2.43.0


From abdb9560650fe3e9caac3c56a76f6bd66171677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 46/50] fix: joining to a local path with a leading double
 slash

---
 src/megatron/energon/epathlib/epath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index ad6dbd4..11b8e32 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -82,7 +82,7 @@ class EPath:
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
-        if parts[0] != "/":
+        if not path.is_absolute():
             raise ValueError("Only absolute paths are supported")
         if ".." in parts or "." in parts:
             new_parts = []
-- 
2.43.0


From 4f7de958527566c07349d0f1223d1a760bf75c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 47/50] fix: parent components do not leave the remote of a
 path

---
 src/megatron/energon/epathlib/epath.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/megatron/energon/epathlib/epath.py b/src/megatron/energon/epathlib/epath.py
index 11b8e32..59edcb1 100644
--- a/src/megatron/energon/epathlib/epath.py
+++ b/src/megatron/energon/epathlib/epath.py
@@ -65,7 +65,7 @@ class EPath:
                     # The first part of the path will be the rclone remote name
                     path = "/" + path
 
-                self.internal_path = self._resolve(path)
+                self.internal_path = self._resolve(path, 2)
 
                 remote_name = self.internal_path.parts[1]
                 self.fs, self.s3_args = self.create_s3fs_from_rclone_remote(
@@ -77,8 +77,9 @@ class EPath:
                 raise ValueError(f"Unknown protocol: {protocol}")
 
     @staticmethod
-    def _resolve(path: Union[str, PurePosixPath]) -> PurePosixPath:
-        """Resolve a path, removing .. and . components."""
+    def _resolve(path: Union[str, PurePosixPath], num_root_parts: int = 0) -> PurePosixPath:
+        """Resolve a path, removing .. and . components. The first `num_root_parts` parts cannot be
+        left."""
         if isinstance(path, str):
             path = PurePosixPath(path)
         parts = path.parts
@@ -88,7 +89,7 @@ class EPath:
             new_parts = []
             for part in parts[1:]:
                 if part == "..":
-                    if len(new_parts) == 0:
+                    if len(new_parts) < max(num_root_parts, 1):
                         raise ValueError(f"Path above root: {path}")
                     new_parts.pop()
                 elif path == ".":
@@ -198,7 +199,8 @@ class EPath:
     @property
     def parent(self):
         new_path = EPath(self)
-        new_path.internal_path = self.internal_path.parent
+        if len(self.internal_path.parts) > self.num_fs_path_parts:
+            new_path.internal_path = self.internal_path.parent
         return new_path
 
     @property
@@ -335,7 +337,8 @@ class EPath:
 
         new_path = EPath(self)
         new_path.internal_path = self._resolve(
-            self.internal_path / (other if isinstance(other, str) else other.internal_path)
+            self.internal_path / (other if isinstance(other, str) else other.internal_path),
+            self.num_fs_path_parts,
         )
         return new_path
 
-- 
2.43.0


From 37c85d8b9ca0d623251ff2bb44acef066fef4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 48/50] fix: load modules which are given by a path relative to
 the working directory

---
 src/megatron/energon/module_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/megatron/energon/module_loader.py b/src/megatron/energon/module_loader.py
index e98392b..c41174b 100644
--- a/src/megatron/energon/module_loader.py
+++ b/src/megatron/energon/module_loader.py
@@ -32,7 +32,7 @@ class ModuleLoader:
         Returns:
             Loaded module dict.
         """
-        path = EPath(path)
+        path = EPath(path).absolute()
         if path not in self._modules:
             self._load_module(path)
         return self._modules[path]
-- 
2.43.0


From 36e511c00e1104056d35cabf85f49d4987fdfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:19 +0000
Subject: [PATCH 49/50] fix: padding tensors of different types must not
 truncate values

---
 src/megatron/energon/task_encoder/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/megatron/energon/task_encoder/base.py b/src/megatron/energon/task_encoder/base.py
index d6ee558..afe5f95 100644
--- a/src/megatron/energon/task_encoder/base.py
+++ b/src/megatron/energon/task_encoder/base.py
@@ -92,7 +92,9 @@ def batch_stack(batch: List[Any]) -> Any:
 def batch_pad_stack(batch: List[Any]) -> Any:
     """Stack a batch of arbitrary-sized tensors padded with 0s."""
     max_size = [max(b.shape[dim] for b in batch) for dim in range(batch[0].ndim)]
-    batch_tensor = batch[0].new_zeros((len(batch), *max_size))
+    # Use a type which can represent the values of all tensors
+    dtype = functools.reduce(torch.promote_types, (b.dtype for b in batch))
+    batch_tensor = batch[0].new_zeros((len(batch), *max_size), dtype=dtype)
     for i, b in enumerate(batch):
         batch_tensor[(i, *(slice(0, s) for s in b.shape))] = b
     # Pad all tensors to max_size
-- 
2.43.0


From 1195dc116931a543f55b480fae37e9628120a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:08 +0000
Subject: [PATCH 50/50] fix: restore keys of joined samples can be restored

---
 src/megatron/energon/flavors/base_dataset.py              | 8 +++++---
 .../energon/flavors/webdataset/joined_webdataset.py       | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/megatron/energon/flavors/base_dataset.py b/src/megatron/energon/flavors/base_dataset.py
index 8f573e7..1e3df08 100644
--- a/src/megatron/energon/flavors/base_dataset.py
+++ b/src/megatron/energon/flavors/base_dataset.py
@@ -408,14 +408,16 @@ def set_sample_restore_key(
 ) -> T_sample:
     """Sets the restore key for a sample. The sample must be a valid `Sample` or dict containing
     __restore_key__, which is a tuple of keys that can be used to restore the inner sample.
-    This restore key is prepended with the `key`."""
+    This restore key is replaced by the `key`, prepended with the type name of `src` (if not None)."""
+    if src is not None:
+        key = (type(src).__name__, *key)
     if isinstance(sample, Sample) or hasattr(sample, "__restore_key__"):
         try:
-            sample.__restore_key__ = (type(src).__name__, *key)
+            sample.__restore_key__ = key
         except KeyError:
             pass
     elif isinstance(sample, dict) and "__restore_key__" in sample:
-        sample["__restore_key__"] = (type(src).__name__, *key)
+        sample["__restore_key__"] = key
     elif fail_otherwise:
         raise RuntimeError(
             "Did not yield a sample with a restore key, but is marked stateless/deterministic."
diff --git a/src/megatron/energon/flavors/webdataset/joined_webdataset.py b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
index 44ceb24..9263ede 100644
--- a/src/megatron/energon/flavors/webdataset/joined_webdataset.py
+++ b/src/megatron/energon/flavors/webdataset/joined_webdataset.py
@@ -237,7 +237,7 @@ class JoinedWebdatasetFactory(
         return set_sample_restore_key(
             self._sample_joiner(*loaded_samples),
             *restore_key,
-            src=self,
+            src=None,
             fail_otherwise=True,
         )
 
-- 
2.43.0

