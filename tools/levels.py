W="Wrappers.tla (automata of the wrappers) judges every event on every edge of randomly and exhaustively generated pipelines run in the real loader with 0-3 virtual workers and arbitrary schedules; Resume.tla judges streams under save/restore histories and restore keys. Bounded by the generated pipelines and histories."
BUILT={p:W for p in ("P10","P11","P12","P13","P14","P15")}
BUILT["P19"]="RetryStream.tla is model checked exhaustively; every behaviour of bounded length is enumerated by TLC and replayed into the real stream over a faulty file, and every call's result is judged by RetryStreamTrace.tla."
BUILT["P01"]="ShardSplit.tla (division, rotation, slices) is model checked; every configuration enumerated by TLC within bounds, random larger ones, and the samples really read by all workers of all ranks are judged by ShardSplitTrace.tla."
BUILT["P03"]="SampleLoader.tla (pool of slices, open cursors, passes, save/restore) is model checked; deliveries of the real sample loader for enumerated and random slices, and of datasets on disk, with save/restore histories, are judged by SampleLoaderTrace.tla."
BUILT["P18"]="TarShard.tla/TarReader.tla (samples of a tar file, index, ranges, filters) are model checked; reads of the real reader over random tars with irregular entries, all positions of continuation, save/restore and restore keys are judged by TarShardTrace.tla."
BUILT["P22"]="Prepare.tla (worker pool, temporary indices, collector, crash anywhere) is model checked; runs of the real preparation and of the command line tool over random directories with broken shards, real worker pools and killed runs are judged by PrepareTrace.tla and TarShardTrace.tla."
BUILT["P07"]="LoaderProtocol.tla (consumer, worker processes, prefetching, checkpoints, save and restore) is model checked with all interleavings, including that no request gets stuck; all short and many random schedules are forced on the real loader and its real workers with emulated processes and every event is judged by LoaderTrace.tla; runs with real processes are judged by Resume.tla."
BUILT["P02"]="Layout.tla (workers of all factorisations, interleaved ranks, equal training steps) is model checked; all ranks of random complete configurations are read by real loaders in every factorisation of the number of workers and judged by LayoutTrace.tla."
BUILT["P04"]="Determinism.tla (generators, other users of them, schedules) is model checked; real loaders of random complete configurations and wrapper pipelines run interleaved under chosen schedules, noise, checkpoints, in other processes and with real workers, judged by Loaders.tla."
BUILT["P05"]="LoaderProtocol.tla is model checked with all interleavings; streams of random complete configurations and pipelines under save/restore histories, and every save position of a set of pipelines around each wrapper, are judged by Resume.tla. Two known findings are recorded."
BUILT["P06"]="Snapshot.tla (heap of shared objects) is model checked; random histories of several real loaders, states used repeatedly as the same object, from disk and in foreign loaders, are judged by Loaders.tla, including the contents of every state after every step."
BUILT["P09"]="Restore keys of random complete configurations and wrapper pipelines are resolved in new, running, restored and other processes' loaders in any order, every key of a set of pipelines around each wrapper; Loaders.tla judges each result and the streams of the loaders."
BUILT["P20"]="RngFrames.tla (states of the generators, frames of seeded functions, suspended generators) is model checked; every program of bounded length enumerated by TLC and long random ones are run with real decorated functions, and the functions of random pipelines draw numbers and note their indices; RngTrace.tla and IndexTrace.tla judge all numbers and indices."
BUILT["P21"]='Cook.tla (scan of the cookers) is model checked and enumerates cookers and samples which are given to the real encoder one by one; crude and other datasets with subflavors run through complete train and validation loaders with failing cookers, workers and restored samples; CookTrace.tla judges which cooker got every sample and what was delivered.'
BUILT["P24"]='Field.tla (walk through options and values) is model checked and enumerates values and expressions evaluated by the real code; datasets with random files, field maps, sample loaders and part filters run through complete loaders; FieldTrace.tla judges every field, key and reported error.'
BUILT["P26"]='Typed.tla (conversion as a work list) is model checked and enumerates types and data which the real code converts; random types, classes, functions, references, configuration files and modules run through the converter, load_config and the module loader; TypedTrace.tla judges every value and place of an error.'
BUILT["P23"]='Path.tla (components resolved with a stack; the laws of the algebra) is model checked and enumerates texts of paths which the real code parses, joins and relates; random histories of path and file operations run unprivileged in a scratch directory and on stand-ins for remotes; PathTrace.tla judges every path, match and file.'
BUILT["P17"]='Meta.tla (walking a tree of metadatasets) is model checked and enumerates small trees with all settings at three places; these and random worlds of datasets and files of both versions are loaded by the real code; MetaTrace.tla judges every dataset, weight, setting and sample.'
BUILT["P25"]='Collate.tla (tensors poured one by one into zeros) is model checked and enumerates batches which the real code collates; random batches, types and conversions as well; random train and validation loaders over real datasets and metadatasets with task encoders which mark every sample are judged by AssembleTrace.tla for every worker of all ranks, CollateTrace.tla judges the batches.'
BUILT["P16"]='Join.tla (readers of the columns in lockstep, errors, save and restore) is model checked and enumerates columns which the real sample loader reads with all save points; random worlds of joined datasets with mismatches, excluded and unreadable samples run through complete train and validation loaders of all ranks and workers; JoinTrace.tla judges every joined and restored sample and every report.'
BUILT["P08"]='RankState.tla (ranks in groups, messages, saving to and restoring from any rank) is model checked with all orders of arrival and enumerates all groupings, destinations and sources; real processes connected by torch.distributed carry these out and larger random worlds with several rounds; RankTrace.tla judges every state and stream of all ranks.'
TECH={}
NA={}
