"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os, sys
S="src/megatron/energon/"
def P(id,title,statement,over,text,why,files,mech,observe=""):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech]))

    return d
L=[]
L.append(P("P01","Every sample belongs to exactly one worker, evenly",
"For every number of ranks and workers, the samples of a dataset split are divided over all workers of all ranks: every sample belongs to exactly one worker, none is lost or duplicated, and each worker's part is a contiguous range in dataset order. The numbers of samples of two workers never differ by more than one, and for a blended (training) sequence of datasets the remainders rotate, so the totals do not differ by more than one either. Limiting the sequence length only cuts a worker's part into consecutive slices of about that many samples.",
["inputs","configurations"],"all shard layouts, world sizes, worker counts, slice limits and sequences of datasets",
"The tests shard a handful of layouts with one or two world sizes; the boundary arithmetic (shard boundaries equal to worker boundaries, empty workers, remainders, slices) only fails for particular combinations.",
["flavors/webdataset/sharder.py","flavors/webdataset/base_webdataset.py","flavors/webdataset/sample_loader.py"],
[("shard_workers","flavors/webdataset/sharder.py"),("_split_shards","flavors/webdataset/sharder.py"),("worker offset rotation","flavors/webdataset/base_webdataset.py")]))
L.append(P("P02","Data layout is independent of how workers are spread over ranks",
"The data which a global worker reads, including its order, depends only on the total number of workers (ranks times workers per rank), the seed and the dataset, and not on how the workers are spread over the ranks. Hence distributing the same total number of workers over fewer ranks reproduces exactly the same global batches: the sequence of batches of a training step is the same multiset over all ranks (the samples, their contents and order; random augmentations may depend on the sample numbers of the rank).",
["configurations","inputs"],"all factorisations of the number of global workers, all seeds and pipelines",
"One test compares one pair of layouts; the seed and the shard assignment are computed per rank and worker and any dependency on the local numbers shows only in particular factorisations.",
["worker.py","rng.py","flavors/webdataset/sharder.py","savable_loader.py"],
[("global_worker_id / worker_seed","worker.py"),("WorkerRng","rng.py"),("shard_workers","flavors/webdataset/sharder.py")]))
L.append(P("P03","One pass reads every sample of the worker exactly once",
"One epoch over a worker's shards yields every sample of the worker's part exactly once (or exactly k times per k epochs when shuffling over k epochs, or unboundedly often, but every sample again and again, when shuffling over infinitely many), also with parallel shard iterators. Samples of one slice come in their stored order and at most the configured number of slices is open at a time.",
["inputs","configurations","schedules"],"all shard layouts, numbers of parallel iterators, epochs, seeds and save/restore points",
"Tests count samples for a few seeds and layouts; a lost or repeated slice needs a particular order of exhausting and opening slices.",
["flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py"],
[("_slices_iter/_shards_iter","flavors/webdataset/sample_loader.py"),("_shards_once","flavors/webdataset/sample_loader.py")]))
L.append(P("P04","The sample stream is a function of seed and configuration",
"Two loaders built with the same dataset, seed, ranks and workers deliver the same samples, with the same contents and the same random augmentations, in the same order, for any number of epochs. This does not depend on the relative speed of the worker processes, on how much is prefetched, on when checkpoints are taken, on other random numbers drawn in the process, or on whether other loaders exist; different workers draw different random numbers.",
["schedules","configurations","histories"],"all schedules of the worker processes, checkpoint intervals, seeds and other use of the process' random generators",
"The tests compare a few runs under whatever schedule the machine gives; they cannot choose the schedule, nor vary what else happens in the process.",
["rng.py","worker.py","savable_loader.py","wrappers/map_dataset.py"],
[("WorkerRng","rng.py"),("worker seeds","worker.py"),("SavableDatasetWrapper.__iter__","savable_loader.py")]))
L.append(P("P05","A restored loader continues exactly where the state was saved",
"Restoring the state of a loader, saved at any point of iteration, into a freshly built loader with the same configuration continues the stream with exactly the sample after the last one delivered before saving: nothing is repeated, lost, reordered or augmented differently, for any combination of wrappers, number of workers and number of save/restore cycles, including states saved before the first sample, at or after the end of an epoch, and right after a restore. The epoch also ends at the same place.",
["histories","crash_points","schedules","configurations"],"all save points, chains of save and restore, pipelines, worker counts and worker schedules",
"Tests save and restore a few pipelines at a few offsets; the state is spread over buffers, generators, worker checkpoints and prefetched samples, and each combination of save point and buffer content is a case of its own.",
["savable_loader.py","flavors/base_dataset.py","wrappers/base.py","wrappers/buffer.py","flavors/webdataset/sample_loader.py","rng.py"],
[("save_state_rank/restore_state_rank","savable_loader.py"),("worker checkpoints and offsets","savable_loader.py"),("SavableSampleBuffer","wrappers/buffer.py")]))
L.append(P("P06","A saved state is a snapshot",
"A saved state does not change when the loader it was taken from continues, when it is restored, or when a restored loader continues, and saving does not influence the stream. It can be restored any number of times, also after being written to disk, always giving the same stream, and it refuses to be restored into a loader with a different configuration of workers or dataset.",
["histories"],"all interleavings of saving, restoring (also of one state into several loaders), and continuing",
"Tests restore each state once, mostly after discarding the original loader; aliasing only shows with several uses of one state object.",
["savable_loader.py","wrappers/buffer.py","flavors/webdataset/sample_loader.py","wrappers/base.py"],
[("merge_states/restore_state of all wrappers","wrappers/base.py"),("restore_state_rank","savable_loader.py")]))
L.append(P("P07","Worker checkpoints give the state of the delivered samples",
"With worker processes which run ahead of the consumer, a state requested at any time describes exactly the samples delivered to the consumer so far: for each worker a checkpoint not after its last delivered sample, plus the number of samples to skip, whatever the workers have produced, prefetched or checkpointed since. Workers are served in fixed round robin order starting with the worker after the last delivered one, requests never deadlock, are answered by every worker, and never lose a sample; shutting a loader down terminates its workers.",
["schedules","crash_points","histories"],"all interleavings of consumer, workers, checkpoint timing and save requests",
"The tests run under one arbitrary schedule of real processes and save at few points; a checkpoint which is popped too early or a worker that is ahead by exactly the prefetch amount cannot be forced.",
["savable_loader.py","worker.py"],
[("SavableDatasetWrapper.get_checkpoint","savable_loader.py"),("command thread","savable_loader.py"),("SavableDataLoader.__iter__/get_checkpoint","savable_loader.py")]))
L.append(P("P08","Global states gather and scatter every rank's own state",
"A global state gathered from all ranks on a destination rank contains exactly each rank's own state at its index within the data parallel group (and is returned on the destination only, or on all ranks if none is given), and restoring it from a source rank, or from a copy on every rank, gives every rank precisely its own state, for every world size, process group, destination and source rank, also when some ranks have no state. A state of a different world size is refused.",
["configurations","schedules"],"all world sizes, destination ranks, source ranks and orders of arrival",
"The tests run two ranks in one configuration (or fake it); wrong ranks only show with unequal states, other destinations and process groups.",
["savable_loader.py"],
[("save_state/restore_state","savable_loader.py"),("save_state_rank/restore_state_rank","savable_loader.py")]))
L.append(P("P09","A restore key reproduces its sample",
"The restore key of any delivered sample, batch or packed sample reproduces that sample exactly (contents, random augmentation, keys and sample order inside of batches) in any loader of the same configuration, at any time and in any order, without disturbing the stream of that loader. It does so for every combination of wrappers that reports to support it.",
["histories","inputs","configurations"],"all pipelines, delivered samples and points in time of restoring",
"Tests restore some samples of a few pipelines; wrong indices show only for generators, excluded samples, nested datasets or a particular number of samples before.",
["wrappers/base.py","wrappers/map_dataset.py","wrappers/blend_dataset.py","wrappers/batch_dataset.py","wrappers/packing_dataset.py","flavors/webdataset/sample_loader.py","savable_loader.py"],
[("restore_sample of all wrappers","wrappers"),("SampleIndex","wrappers/base.py")]))
L.append(P("P10","Blending follows the weights and preserves each source",
"A blend draws from its sources at random with frequencies proportional to their weights, never from a source with weight zero or without samples, and each source's samples appear in the source's own order, restarting when exhausted. Concatenation yields all samples of the first source, then the second, and so on, each exactly once per pass; a mixed batch consists of consecutive samples of the blend. Saving and restoring at any point continues all sources exactly.",
["inputs","configurations","histories"],"all numbers of sources, weights, source lengths, nesting and save points",
"Statistical tests with one weight vector; loss of samples of one source after a restore or for sources exhausted in a certain order is not sampled.",
["wrappers/blend_dataset.py","wrappers/concat_dataset.py","wrappers/mix_batch_dataset.py"],
[("BlendDataset.__iter__","wrappers/blend_dataset.py"),("ConcatDataset.__iter__","wrappers/concat_dataset.py"),("MixBatchDataset","wrappers/mix_batch_dataset.py")]))
L.append(P("P11","A shuffle buffer permutes and never loses a sample",
"Shuffling yields exactly the samples of its source in a pass, each as often as the source yields it; a sample is only yielded out of a buffer that is full (or when the source is exhausted), holding never more than the configured number of samples. All buffered samples are equally likely to be next, and saving and restoring at any point, also while the buffer is filled or drained, keeps all buffered samples and their order of draws.",
["inputs","histories","configurations"],"all buffer sizes, source lengths, passes, save points and wrappers around",
"Tests compare sets of samples of a few runs; restoring a partially drained buffer or one of a worker without samples is not covered.",
["wrappers/shuffle_buffer_dataset.py","wrappers/buffer.py"],
[("ShuffleBufferDataset.__iter__","wrappers/shuffle_buffer_dataset.py"),("SavableSampleBuffer","wrappers/buffer.py")]))
L.append(P("P12","Batching and grouping keep every sample once and in order",
"Batching yields consecutive batches of exactly the batch size in source order; grouping batches only samples with the same group, in source order within the group, as soon as a group has its batch size. At the end of the source every incomplete batch is yielded, exactly once, unless dropping it was requested; generators in place of batch functions may yield several batches, and a failing or skipped batch loses only its own samples. Saving and restoring at any point loses or repeats nothing.",
["inputs","histories","configurations"],"all batch sizes, source lengths, group functions, drop settings, failures and save points",
"Tests batch a few fixed lists; states saved with partially filled groups, in the middle of a generator or at the last batch are not covered.",
["wrappers/batch_dataset.py","wrappers/group_batch_dataset.py","wrappers/buffer.py"],
[("BatchDataset.__iter__","wrappers/batch_dataset.py"),("GroupBatchDataset.__iter__","wrappers/group_batch_dataset.py")]))
L.append(P("P13","Packing conserves samples through its buffers",
"Packing fills a buffer of the configured size from the source, hands it to the pre-packing function as a whole, and passes every pack it forms, in order, to the final packing function; at the end of the source the incomplete buffer is packed as well. Every sample is therefore contained in the pack(s) the pre-packing function assigned it to, exactly once per pass; failing or skipped packs lose only their own samples, and saving and restoring at any point, also between packs or within a generator, loses or repeats nothing.",
["inputs","histories","configurations"],"all buffer sizes, packing functions, source lengths, failures and save points",
"The tests use one packing function and few save points; the three buffers and the generator state only interact for particular save points.",
["wrappers/packing_dataset.py","wrappers/buffer.py"],
[("PackingDataset.__iter__","wrappers/packing_dataset.py"),("next_pre_pack/next_final_pack","wrappers/packing_dataset.py")]))
L.append(P("P14","Epoch length, limits, repetitions and lengths are exact",
"A virtual epoch of n samples delivers exactly n samples over all workers of a rank per epoch (each worker its share, differing by at most one) and the next epoch continues with the next sample of the source, which restarts only when exhausted. A limit delivers the first n samples (or all if fewer) and starts again from the beginning each epoch, a repetition delivers all samples the given number of times, and the reported length of these and the other wrappers equals the number delivered in one pass whenever it is determined by the lengths of the sources.",
["inputs","configurations","histories"],"all lengths, worker counts, source lengths, numbers of epochs and save points",
"Tests use lengths which divide evenly and few epochs; uneven shares, sources shorter than an epoch and restored offsets are not covered.",
["wrappers/epochize_dataset.py","wrappers/limit_dataset.py","wrappers/repeat_dataset.py","loader.py","savable_loader.py"],
[("EpochizeDataset.__iter__","wrappers/epochize_dataset.py"),("LimitDataset.__iter__","wrappers/limit_dataset.py"),("RepeatDataset.__iter__","wrappers/repeat_dataset.py"),("__len__ of all wrappers","wrappers")]))
L.append(P("P15","A failing sample is dropped alone; fatal errors stop",
"An exception in a user function for mapping, filtering, grouping, batching or packing is passed with the concerned sample(s) to the error handler exactly once and drops exactly what that call would have produced from there on; all other samples are delivered unchanged. Skipping a sample drops it silently, values a generator yielded before failing stay delivered, and system errors (such as out of memory or wrong names) and errors raised by the handler are never swallowed.",
["inputs","fault_sequences","histories"],"all positions and sequences of failures and skips in all wrappers, in all workers, also around save points",
"Tests let single functions fail at fixed samples; the effect on indices, buffers and generators needs failures at particular places combined with saving.",
["wrappers/map_dataset.py","wrappers/iter_map_dataset.py","wrappers/filter_dataset.py","errors.py","wrappers/batch_dataset.py","wrappers/group_batch_dataset.py","wrappers/packing_dataset.py","wrappers/skip.py"],
[("MapDataset.__iter__","wrappers/map_dataset.py"),("SYSTEM_EXCEPTIONS/FatalSampleError","errors.py"),("IterMapDataset","wrappers/iter_map_dataset.py")]))
L.append(P("P16","A join combines exactly the matching samples",
"Joining datasets yields, for every key, exactly one joined sample with each column taken from its own dataset at that same key, passed to the joiner at its own position or name, in any distribution over workers, ranks, shards and slices, for excluded samples and after restoring a state or restore key. Columns of different keys are never combined: datasets whose keys, counts or shards do not match are reported, and a column that cannot be read drops that sample only.",
["inputs","configurations","histories"],"all contents of the joined datasets, mismatches, worker counts, slices and save points",
"Joins are tested with a few matching datasets of one shape; misalignment shows only for mismatches, excluded samples and offsets at particular places.",
["flavors/webdataset/joined_webdataset.py","flavors/webdataset/sample_loader.py","flavors/webdataset/single_shard_reader.py","metadataset/join_dataset_loader.py"],
[("JoinedWebdatasetFactory","flavors/webdataset/joined_webdataset.py"),("_read_multicolumn_shard","flavors/webdataset/sample_loader.py"),("JoinDatasetLoader","metadataset/join_dataset_loader.py")]))
L.append(P("P17","A metadataset composes its datasets as written",
"A metadataset yields exactly the datasets it lists for the requested split, at any depth of nesting, with paths relative to the file that names them. The weight of each is the product of its normalised weights along the path, so the weights of a blend sum to one; split names, subflavors (merged, the outer ones taking precedence), split and dataset configs and the multipliers for shuffling over epochs (multiplied along the path) reach every dataset.",
["inputs","configurations"],"all trees of metadatasets (both versions), blends and joins, and all settings at their nodes",
"The tests use a few small trees; the combination of settings at several levels is not covered.",
["metadataset/metadataset.py","metadataset/metadataset_v2.py","metadataset/dataset_loader.py","metadataset/join_dataset_loader.py","metadataset/loader.py","dataset_config.py"],
[("get_datasets","metadataset/metadataset_v2.py"),("get_datasets","metadataset/metadataset.py"),("DatasetLoader.get_dataset","metadataset/dataset_loader.py")]))
L.append(P("P18","Reading a shard yields exactly its stored samples",
"Reading any range of samples of an indexed tar file, from the start or continued at any saved position, yields exactly those samples in stored order, each with all its files (and only those selected by the part filter) with exact contents, the correct key, and a restore key that leads to it; excluded samples and shards are left out and everything that is not a sample file is ignored. The index gives for each sample the exact position of its first file, also for long names, directories and metadata entries in between.",
["inputs","histories"],"all tar contents, ranges, excludes, part filters and positions of continuation",
"Tests read regular files with equally sized samples from the start; offsets computed from a continued position, excludes and irregular entries interact only in particular files.",
["flavors/webdataset/single_shard_reader.py","flavors/webdataset/itar.py","flavors/webdataset/prepare.py","flavors/webdataset/sample_loader.py"],
[("SingleShardReader.read_next","flavors/webdataset/single_shard_reader.py"),("SubFileReader/open_itar","flavors/webdataset/itar.py"),("TarIndexReader/TarIndexWriter","flavors/webdataset/itar.py")]))
L.append(P("P19","A retried read returns the file's bytes or fails",
"Reading through the retrying stream returns, for any sequence of reads and seeks, exactly the bytes a plain file would return at that position, whatever temporary I/O errors, short reads or premature ends occur in between: nothing is returned twice, skipped or truncated. If the error persists for ten attempts of a read, it is raised to the caller.",
["fault_sequences","histories"],"all sequences of reads and seeks and all sequences of I/O errors and short reads",
"There is no test which injects I/O errors.",
["retry_stream.py"],[("RetryReadStream.read","retry_stream.py"),("RetryReadStream.seek","retry_stream.py")]))
L.append(P("P20","Stateless functions are seeded per sample and leave no trace",
"A function declared stateless with restored seeds sees random numbers which depend only on the seed configuration, the worker's position in the stream and the wrapper's sample index, and never on random numbers used elsewhere, and the process' random generators (Python, NumPy, Torch) are afterwards as if it had not run, also when it fails or is a generator that is only partially consumed. The current sample and batch indices it can query are those of the sample being processed, counted per worker and per wrapper, and increase by one per call.",
["inputs","histories","fault_sequences"],"all functions, failures, generator uses and nesting of wrappers",
"Tests check one encoder; leaking of seeds on failure or from suspended generators is not covered.",
["task_encoder/base.py","rng.py","wrappers/base.py","worker.py"],
[("stateless","task_encoder/base.py"),("SampleIndex","wrappers/base.py"),("SystemRng","rng.py"),("worker_push/pop_sample_index","worker.py")]))
L.append(P("P21","Crude samples are cooked by the matching cooker only",
"Each crude sample is transformed by the first registered cooker whose subflavor, all listed subflavors and condition match it, and by no other; a sample which no cooker matches is an error and never passed on uncooked, and samples which are not crude are passed on unchanged. The basic sample keys and the restore key are carried over.",
["inputs","configurations"],"all lists of cookers and all sample subflavors",
"Tests use three cookers with disjoint subflavors.",
["task_encoder/cooking.py","task_encoder/base.py","flavors/crude.py"],
[("Cooker.is_match","task_encoder/cooking.py"),("TaskEncoder.cook_crude_sample","task_encoder/base.py")]))
L.append(P("P22","Preparing a dataset records what the shards contain",
"Preparing a dataset writes, for every shard given, the exact number of its samples and an index of their positions, independent of the number of parallel workers and of progress callbacks. By ratio, every shard is assigned to exactly one split part (sizes following the ratio up to rounding, in the given or shuffled order); by patterns, each part gets exactly the shards which match its pattern. The written configuration loads as the same dataset; a broken shard is left out and leaves no partial index.",
["inputs","configurations","fault_sequences"],"all shard contents, ratios, patterns, worker counts and broken shards",
"The tests prepare a few equally shaped shards with one ratio.",
["flavors/webdataset/prepare.py","flavors/webdataset/itar.py","tools/prepare.py","flavors/webdataset/metadata.py"],
[("WebdatasetPreparator.prepare_dataset","flavors/webdataset/prepare.py"),("get_dataset_info","flavors/webdataset/metadata.py")]))
L.append(P("P23","Paths behave like path algebra",
"Paths combine like paths of the file system: joining, parents, names, suffixes, relative paths, absolute paths and globbing give what the standard path library gives for local paths, also with several, duplicate, dot and parent components, and the same algebra holds within one remote for remote paths; a path survives printing, configuration and pickling unchanged. File operations act on exactly the file that the path names.",
["inputs"],"all paths and sequences of path operations",
"The tests check a short list of paths.",
["epathlib/epath.py"],[("EPath","epathlib/epath.py")]))
L.append(P("P24","Samples are assembled from the configured fields only",
"With a field map, each field of a sample is exactly the value which its access expression selects (file, key, index, first existing alternative), whatever else the shard contains, and a missing required field is an error reported for that sample only; fields which are not mapped take their defaults. The part filter which is derived from the field map or sample loader reads every file that is needed and the key, subflavor and restore key fields are always set.",
["inputs","configurations"],"all access expressions, alternatives and sample contents",
"The tests use a handful of expressions.",
["flavors/webdataset/field_access.py","flavors/webdataset/default_generic_webdataset.py","flavors/webdataset/standard_webdataset.py"],
[("FieldAccess","flavors/webdataset/field_access.py"),("DefaultGenericWebdatasetFactory.load_sample","flavors/webdataset/default_generic_webdataset.py")]))
L.append(P("P25","Train and validation loaders are assembled as requested",
"A training loader shuffles, blends and repeats for ever (or in epochs of the requested length) and applies the task encoder's steps in order: cook, encode, preprocess and pack, batch, encode batch, each sample or batch exactly once. A validation loader yields every sample of the split exactly once per epoch in a fixed order, over all ranks and workers, up to the limit per worker group, separately for every dataset of a metadataset. Batching collates each field over the samples in order: equal shaped tensors are stacked, others padded with the originals recoverable, other values collected in lists.",
["configurations","inputs"],"all parameters of the loaders, task encoders, batch contents, layouts",
"The tests use single settings; parameter combinations (limits with several workers and datasets, empty parts, repeated validation epochs) are not covered.",
["task_encoder/base.py","task_encoder/loader.py","loader.py","metadataset/loader.py"],
[("get_train_dataset/get_val_datasets","task_encoder/loader.py"),("TaskEncoder.build_train_datasets/build_val_datasets","task_encoder/base.py"),("batch","task_encoder/base.py")]))
L.append(P("P26","Configurations convert exactly to their declared types",
"Converting plain configuration data to a declared type accepts exactly the data which conforms to the type and yields a value with those contents: classes get their fields with defaults, unions take the member that matches, literals and containers are checked inside, and referenced functions, classes and modules are resolved to the named objects. Non-conforming, missing or unknown entries are reported with the place of the error and never silently dropped in strict mode; writing a configuration and converting it again gives an equal value.",
["inputs"],"all types and data composed from the supported constructors",
"The tests convert a short list of values.",
["typed_converter.py","dataset_config.py","module_loader.py"],[("JsonParser","typed_converter.py"),("load_config","dataset_config.py")]))
with open("/verif/properties.jsonl","w") as f:
    for d in L: f.write(json.dumps(d)+"\n")
print(len(L))
