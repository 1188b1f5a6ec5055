#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
E = "src/megatron/energon/"
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[E + f for f in files],
                          mechanism=[dict(name=n, where=E + w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=E + w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Sharding partitions the split over all ranks and workers, evenly",
 "For every dataset, world size, number of workers and max_samples_per_sequence, the slices handed to the workers of all ranks cover every sample of the split exactly once: no sample is assigned twice and none is left out. Workers' shares differ by at most one sample, and with max_samples_per_sequence set, no slice that a worker reads as one sequence is longer than one and a half times that many samples. In a training blend the extra samples of successive datasets are rotated over the workers, so that also the total number of samples over all datasets differs by at most one between workers.",
 ["inputs", "configurations"], "all shard-size vectors (including shards with zero, one or very many samples), world sizes, worker counts, sequence limits and rotation offsets",
 "The unit tests fix a handful of shard lists and worker counts; an off-by-one at some shard boundary / remainder combination duplicates or loses samples only there.",
 ["flavors/webdataset/sharder.py", "flavors/webdataset/base_webdataset.py", "flavors/webdataset/joined_webdataset.py"],
 [("Sharder.shard_workers / split_shards / _split_shard", "flavors/webdataset/sharder.py")],
 ["shard lists returned for each rank's workers", "samples read by each worker"])

prop("C02", "An epoch delivers each sample of the split exactly once, with its content",
 "One pass over a dataset, summed over all ranks and their workers, delivers each sample of the requested split exactly once, with exactly the bytes stored for it, and nothing of another split or of an excluded shard or sample; for a looping training dataset this holds for each successive epoch of every worker. With shuffle_over_epochs = n the same holds with n times over each n successive epochs. This does not depend on the number of ranks, workers, parallel shard iterators, the shuffle buffer, the sequence limit or the seed.",
 ["inputs", "configurations", "schedules"], "all datasets, splits, excludes, worker topologies, shuffle settings and seeds",
 "The existing tests count samples of one 55-sample dataset for a few worker counts; loss or duplication at shard ends, excludes, empty workers, or from shuffle-buffer drain needs other shapes.",
 ["flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/itar.py", "wrappers/shuffle_buffer_dataset.py", "flavors/webdataset/sharder.py"],
 [("WebdatasetSampleLoaderDataset._shards_iter", "flavors/webdataset/sample_loader.py"), ("SingleShardReader", "flavors/webdataset/single_shard_reader.py")],
 ["samples yielded by the loaders of every rank"])

prop("C03", "Resuming from a saved state continues the exact same sample stream",
 "Whenever a savable loader's state is saved (before the first sample, after any number of samples, at or past the end of a virtual epoch) and restored into an identically built loader, the resumed loader yields exactly the samples the uninterrupted loader would have yielded from that point on: same samples, contents, order, random augmentations, sample indexes and restore keys. This holds for any number of workers, any checkpointing interval, and any composition of the provided dataset wrappers (shuffling, blending, concatenation, mixing, repetition, limits, virtual epochs, filtering, mapping and generators, batching, grouping, packing). It also holds for the state object round-tripped through pickle or torch.save.",
 ["histories", "configurations", "schedules", "crash_points"], "all save points (including none emitted yet, mid-generator, mid-pack and epoch ends), pipelines, worker counts, prefetch timings",
 "The tests save at a few points of two pipelines with at most a couple of workers; the prefetching workers, in-flight buffers, generators and epoch boundaries make the set of save points and orders unbounded.",
 ["savable_loader.py", "worker.py", "rng.py", "wrappers/base.py", "wrappers/buffer.py", "wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/epochize_dataset.py", "wrappers/repeat_dataset.py", "wrappers/limit_dataset.py", "wrappers/concat_dataset.py", "wrappers/blend_dataset.py", "wrappers/iter_map_dataset.py", "flavors/webdataset/sample_loader.py"],
 [("SavableDatasetWrapper checkpoints", "savable_loader.py"), ("save_state/merge_states/restore_state of every wrapper", "wrappers/"), ("worker_id_offset rotation", "worker.py")],
 ["samples yielded after restore vs. the uninterrupted run"])

prop("C04", "Saving is a pure observation: states stay valid and reusable",
 "Saving the state any number of times does not change what the loader yields afterwards, and a state object once returned (or passed to a restore) is never modified by later iteration. The same state can therefore be restored any number of times, into several loaders, always giving the same continuation, and a state saved right after a restore is equivalent to the restored one, so arbitrary chains of save, restore, iterate and save again continue the stream without loss or repetition.",
 ["histories", "schedules"], "all interleavings of save, iterate and restore over any number of loader generations",
 "Tests save once and restore once; aliasing between live buffers and saved states or lost counters after a restore only show in longer histories.",
 ["savable_loader.py", "wrappers/base.py", "wrappers/buffer.py", "wrappers/epochize_dataset.py", "wrappers/limit_dataset.py", "wrappers/packing_dataset.py", "flavors/webdataset/sample_loader.py"],
 [("save_state / restore_state of loaders and wrappers", "savable_loader.py")],
 ["deep snapshot of the state object before/after", "streams of loaders restored from the same state"])

prop("C05", "The sample stream depends only on configuration and seed, not on timing",
 "Two loaders with the same dataset, configuration and seeds yield the identical sequence of samples, including random augmentations, sample indexes and restore keys, regardless of how fast workers or the consumer run, of how the consumer pauses or calls save in between, and of process restarts. A different seed_offset gives a different shuffling.",
 ["schedules", "configurations"], "all worker and consumer timings, repeated runs and processes, seeds",
 "Tests compare a few runs without injected delays in one process; timing-dependent order is only visible under adversarial schedules.",
 ["worker.py", "rng.py", "savable_loader.py", "flavors/webdataset/sample_loader.py", "wrappers/blend_dataset.py", "wrappers/shuffle_buffer_dataset.py"],
 [("WorkerRng", "rng.py"), ("per-worker seeds", "worker.py")],
 ["yielded sequences under injected delays"])

prop("C06", "Reproducible scaling: same world_size*num_workers, same global batches",
 "With the same seed and dataset settings, any two topologies with the same product world_size * num_workers (each >= 1 worker) give every global worker the same sequence of samples, and therefore the same global batches in the same order when the global batch size is a multiple of micro batch size times that product. This covers train and validation datasets, blends and joins.",
 ["configurations", "inputs"], "all factorizations of the global worker count, datasets, blends and seeds",
 "The documentation promises it; the tests cover one dataset with two factorizations.",
 ["worker.py", "flavors/webdataset/sharder.py", "rng.py", "savable_loader.py"],
 [("global_worker_id / worker_seed", "worker.py"), ("Sharder.split_shards over the global workers", "flavors/webdataset/sharder.py")],
 ["per-global-worker sequences", "interleaved loader output of all ranks"])

prop("C07", "restore_sample(restore_key) reproduces exactly the sample that was yielded",
 "If a loader's or dataset's pipeline reports can_restore_sample(), then for every yielded sample (or batch, group, pack or generated sub-sample) restoring its restore key, from a freshly built dataset or loader, in any order and any number of times, returns the identical sample: same contents, same random augmentations (for functions marked stateless with restored seeds), same indexes and same restore key. Restoring a sample has no effect on the stream of the running iteration.",
 ["inputs", "configurations", "histories"], "all stateless pipelines, yielded samples, worker counts, ranks and restore orders",
 "Tests restore a few samples of one or two pipelines; the nested key format has to agree at each layer for each composition.",
 ["savable_loader.py", "wrappers/map_dataset.py", "wrappers/iter_map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/blend_dataset.py", "wrappers/concat_dataset.py", "wrappers/mix_batch.py", "flavors/webdataset/sample_loader.py", "flavors/base_dataset.py", "task_encoder/base.py"],
 [("add_sample_restore_key / restore_sample pairs", "flavors/base_dataset.py"), ("stateless(restore_seeds)", "task_encoder/base.py")],
 ["yielded sample vs. restored sample"])

prop("C08", "One bad sample affects only itself",
 "If a user function (sample loader, cook, encode, group criterion, pack, batch, encode_batch) raises an ordinary exception or SkipSample on some samples, exactly those samples (respectively the batch, pack or buffer it was processing) are left out; all others are delivered as before with the right content and restore keys, and the error handler is told once per failed input with that input. System errors (such as MemoryError, RecursionError, ImportError or NameError) are not swallowed but stop the iteration with a fatal error. The same holds in multi-worker loaders and across save and resume.",
 ["fault_sequences", "inputs"], "all sets of failing samples / batches and failing stages",
 "Tests do not inject failures at each stage and position; a left-over buffer entry after a failed batch corrupts only the following batch.",
 ["wrappers/map_dataset.py", "wrappers/iter_map_dataset.py", "wrappers/filter_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "errors.py", "wrappers/_log_exception.py", "flavors/webdataset/error_handler.py"],
 [("except SkipSample / SYSTEM_EXCEPTIONS / error_handler", "wrappers/map_dataset.py")],
 ["yielded samples and error handler calls vs. a reference model"])

prop("C09", "Dataset preparation indexes every tar sample and splits shards without loss",
 "After preparing a dataset, the index of every tar file holds exactly one offset per sample, at which that sample's first file header is found, plus the end offset, and the recorded shard sizes are the real sample counts. Splitting by ratio or by patterns assigns each shard to exactly the splits requested, with ratio splits partitioning all shards (proportions within one shard) deterministically for a seed. Tar files that cannot be read are reported, never silently indexed as complete.",
 ["inputs", "fault_sequences"], "all tar layouts (formats, long names, directories, multi-part keys, empty parts), numbers of shards and ratios, damaged tars",
 "Tests prepare a few small regular tar files with one ratio; header formats, key grouping and rounding of ratios vary without bound.",
 ["flavors/webdataset/prepare.py", "flavors/webdataset/itar.py", "flavors/webdataset/metadata.py", "tools/prepare.py"],
 [("WebdatasetPreparator", "flavors/webdataset/prepare.py"), ("TarIndexWriter", "flavors/webdataset/itar.py")],
 [".tar.idx files, info.yaml and split.yaml vs. a reference scan with tarfile"])

prop("C10", "Random access into tar shards returns exactly the archived sample bytes",
 "Reading any slice of a shard (any start, any length) and restoring any single sample by its index returns the samples at these positions of the archive with precisely the stored file names, extensions and bytes, and stops at the end of the slice; part filters drop just the filtered parts. This is independent of tar format, of long or unicode names and of file sizes around block boundaries.",
 ["inputs"], "all tar contents, slices, part filters and access orders",
 "Tests read small text files in full slices; block-boundary sizes, long headers and mid-shard starts are not covered.",
 ["flavors/webdataset/itar.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/sample_loader.py"],
 [("TarIndexReader / ITarFile.subrange", "flavors/webdataset/itar.py"), ("SingleShardReader", "flavors/webdataset/single_shard_reader.py")],
 ["raw samples vs. a tarfile reference reader"])

prop("C11", "A retrying stream returns the true bytes or fails; never wrong data",
 "However often the underlying storage fails transiently or returns short reads, each read through the retrying stream returns exactly the bytes of the object at the current position (fewer than requested only at the end of the object, or as far as the storage itself delivers) and moves the position by exactly that amount; seeks land where requested. If the storage keeps failing beyond the retry limit the error is raised; data is never skipped, repeated or replaced by None.",
 ["fault_sequences", "inputs"], "all sequences of read sizes, seeks, short reads and injected I/O errors",
 "There is no fault injection in the tests at all.",
 ["retry_stream.py"], [("RetryReadStream.read", "retry_stream.py")],
 ["bytes returned and tell() vs. a model file"])

prop("C12", "Blending follows the weights, also through nested metadatasets",
 "In a blend of datasets, each next sample (or batch) comes from dataset i with probability weight_i / sum of weights, independently of earlier draws and of the number of workers, and each dataset's own stream appears in its own order, complete and unmodified. Nested blends multiply their normalized weights: the resulting flat weights equal the product of the shares along the path, and only datasets with samples for a worker are drawn there.",
 ["inputs", "configurations", "histories"], "all weight vectors, nestings, worker counts and stream lengths",
 "Tests use loose tolerances on one or two weightings; a wrong normalization in a nested blend or biased worker shifts the mixture without any error.",
 ["wrappers/blend_dataset.py", "wrappers/mix_batch.py", "metadataset/metadataset_v2.py", "metadataset/metadataset.py", "task_encoder/base.py"],
 [("BlendDataset.__iter__", "wrappers/blend_dataset.py"), ("MetadatasetBlend / MetadatasetBlender weight products", "metadataset/metadataset_v2.py")],
 ["weights of the flattened datasets", "source of each yielded sample"])

prop("C13", "Batching, grouping and packing conserve samples and respect sizes",
 "Every encoded sample ends up in exactly one batch, group batch or pack: in arrival order and with batch_size samples each for plain batches (only the last may be smaller, and is dropped if and only if drop_last is set), only samples with the same group key and the declared size for grouped batches, and precisely the groups chosen by the user's selection function for packs, whose input buffers never exceed the configured size. No sample is lost or repeated, including at the end of a finite dataset and with generators.",
 ["inputs", "histories"], "all stream lengths, batch and buffer sizes, group key sequences and packing decisions",
 "Tests cover fixed sizes on one dataset; remainders, partial groups and carry-over of buffered samples vary freely.",
 ["wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "task_encoder/base.py"],
 [("BatchDataset", "wrappers/batch_dataset.py"), ("GroupBatchDataset", "wrappers/group_batch_dataset.py"), ("PackingDataset", "wrappers/packing_dataset.py")],
 ["composition of the yielded batches vs. a reference model"])

prop("C14", "Virtual epochs, limits, repetition and concatenation have the stated lengths",
 "A virtual epoch yields exactly the configured number of items and the next pass continues where it stopped, so the concatenation of all passes equals the underlying stream; a limit yields exactly the first n items (all if fewer) on each pass; repetition yields the inner passes the stated number of times; concatenation yields each dataset completely and in order; a filter yields exactly the accepted samples. The limit is shared exactly among the workers, and len() of dataset and loader equals the number of items actually yielded by a pass wherever the length is determined by the configuration.",
 ["inputs", "configurations", "histories"], "all lengths, counts, worker numbers and numbers of passes",
 "Tests check one or two lengths that divide evenly; remainders over workers and several passes are not covered.",
 ["wrappers/epochize_dataset.py", "wrappers/limit_dataset.py", "wrappers/repeat_dataset.py", "wrappers/concat_dataset.py", "wrappers/filter_dataset.py", "wrappers/batch_dataset.py", "savable_loader.py"],
 [("EpochizeDataset", "wrappers/epochize_dataset.py"), ("LimitDataset", "wrappers/limit_dataset.py"), ("RepeatDataset", "wrappers/repeat_dataset.py"), ("ConcatDataset", "wrappers/concat_dataset.py")],
 ["items yielded per pass and len()"])

prop("C15", "Joined datasets pair samples by key and never mismatch silently",
 "A joined dataset yields, for every sample of the primary dataset in the split, one combined sample whose components all carry the key of the primary sample and their own stored bytes, for all shardings, worker counts, shuffles, and through save/resume and sample restore. If a component dataset's keys, order or lengths do not match, an error is raised instead of yielding a wrongly paired sample or dropping the rest silently.",
 ["inputs", "configurations", "fault_sequences"], "all shard layouts of joined datasets and all ways in which components may disagree",
 "Tests join a few equal-sized datasets; mid-shard slices, offsets and mismatching components vary.",
 ["flavors/webdataset/joined_webdataset.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py", "metadataset/join_dataset_loader.py"],
 [("_read_multicolumn_shard must_match", "flavors/webdataset/sample_loader.py"), ("JoinedWebdatasetFactory", "flavors/webdataset/joined_webdataset.py")],
 ["joined samples vs. reference by key"])

prop("C16", "Metadatasets compose datasets as written, with outer settings overriding",
 "Loading a metadataset (either format, arbitrarily nested) yields exactly the referenced datasets' samples for the requested split: split_part selects which split of the inner dataset is used, subflavor and subflavors given at an outer level override or are merged over the inner ones, and relative paths resolve against the referring file. Training blends the parts, validation concatenates them, and shuffle_over_epochs multipliers multiply along the path.",
 ["inputs", "configurations"], "all nestings and override combinations at each level",
 "Tests contain a few fixed yaml files; combinations of overrides at several levels are not covered.",
 ["metadataset/metadataset.py", "metadataset/metadataset_v2.py", "metadataset/dataset_loader.py", "metadataset/join_dataset_loader.py", "metadataset/loader.py"],
 [("DatasetReference.get_datasets", "metadataset/metadataset_v2.py"), ("DatasetLoader.get_dataset", "metadataset/dataset_loader.py")],
 ["samples' subflavor(s), source and split vs. a reference evaluation of the yaml"])

prop("C17", "Seed-restoring functions are reproducible and do not disturb global randomness",
 "A task encoder function marked stateless with restored seeds sees random numbers (torch, numpy, random) that are a function only of the worker seed and the current sample index (as the worker itself counts: not of how many workers its rank has), not of what was drawn before, of other functions, other datasets, or the order of calls. Whether it returns normally, raises, skips, or is a generator that is consumed interleaved with other random draws or abandoned, the surrounding random streams continue as if it had drawn nothing.",
 ["inputs", "histories", "schedules"], "all interleavings of seeded functions and generators with other consumers of the global generators",
 "Tests check that restored values are equal for one encoder; exceptions, generators and interleaved draws are not covered.",
 ["task_encoder/base.py", "rng.py", "worker.py"],
 [("stateless seed_wrapper(_generator)", "task_encoder/base.py"), ("SystemRng", "rng.py")],
 ["global RNG states around calls", "values drawn inside"])

prop("C18", "Typed configuration parsing accepts exactly well-typed data, losslessly",
 "Converting raw (yaml/json) data to a typed object succeeds precisely if the data matches the declared types (with int accepted for float, defaults for missing fields, unknown fields rejected in strict mode), gives each field the value written, and converting a typed object to raw data and back gives an equal object. Mismatches raise a value error and never produce a wrongly typed, defaulted or partially filled object; calling a function with raw arguments binds each argument to the parameter of that name or position.",
 ["inputs"], "all types composed of the supported constructors and all raw values",
 "There are no tests of the converter in the stable suite; nesting of unions, tuples, dicts and dataclasses is unbounded.",
 ["typed_converter.py"], [("raw_to_typed / to_json_object / safe_call_function / override", "typed_converter.py")],
 ["result or exception vs. a reference type checker"])

prop("C19", "EPath arithmetic agrees with POSIX paths for local and remote paths",
 "For every path, joining, parent, name, relative checks, '..' and '.' resolution, suffix handling, equality, hashing, ordering-independent identity and string round trip agree with POSIX path semantics, identically for local and for remote (protocol) paths; a remote path can never climb above its remote or change its protocol by joining relative parts. Files written through it are read back unchanged, and globbing, existence, move, size and deletion agree with the real file system.",
 ["inputs"], "all sequences of path components and operations",
 "Tests check about a dozen literal paths.",
 ["epathlib/epath.py"], [("EPath._resolve / __truediv__ / parent / relative_to", "epathlib/epath.py")],
 ["results vs. a pathlib-based model"])

prop("C20", "Default batching keeps each sample's values, padded only where documented",
 "The default collation keeps every sample of the batch at its own index in every field: tensors of equal shape are stacked unchanged, tensors of different shapes are zero-padded at the end of each dimension to the per-dimension maximum so that cutting off the padding gives back each original tensor exactly, and strings, lists and other values are kept in order. Dict, dataclass and named-tuple samples behave the same, and per-field actions override the default only for the fields named. Mixing batches of one type into one (homogeneous_concat_mix) keeps the rows of each batch, in order, padded in the same way.",
 ["inputs"], "all batch sizes, shapes, dtypes and sample types",
 "The tests batch equal-shaped tensors only.",
 ["task_encoder/base.py", "wrappers/mix_batch_dataset.py"], [("generic_concat / concat_pad", "wrappers/mix_batch_dataset.py"), ("generic_batch / batch_stack / batch_pad_stack / batchify_samples", "task_encoder/base.py")],
 ["batch fields vs. the input samples"])

prop("C21", "Merged transforms equal applying the transforms one after the other",
 "Applying a merged transform to an image gives an image of exactly the same size, and the same pixel content up to interpolation error, as applying the listed transforms sequentially with the same random draws; geometry (which source point lands where) is identical for any sequence of supported transforms. Parameters drawn at random stay within the ranges of the given transforms.",
 ["inputs", "configurations"], "all compositions of supported transforms, image sizes and random draws",
 "The tests compare a few single transforms and one merged list on one fixed image.",
 ["transforms/merge.py", "transforms/mappers.py"],
 [("MergeTransform.forward", "transforms/merge.py"), ("TransformMapper subclasses", "transforms/mappers.py")],
 ["output size and landmark positions vs. torchvision"])

prop("C22", "Sample and batch indexes are unique and consecutive per worker",
 "The current sample index and batch index seen by user functions are unique over the whole run of a rank: for each worker, the batch index advances by the number of workers with each item, the sample index handed to successive calls of a stage never repeats, and both continue without gap or repetition after resuming from a saved state. Seeds derived for different global workers differ, and equal global workers get equal seeds in every topology.",
 ["histories", "configurations"], "all worker counts, stages, skips, errors and resume points",
 "No test looks at the indexes across workers and resumes.",
 ["worker.py", "wrappers/base.py", "savable_loader.py", "task_encoder/base.py"],
 [("WorkerConfig.active_worker_sample_index / active_worker_batch_index", "worker.py"), ("SampleIndex", "wrappers/base.py")],
 ["indexes recorded inside user functions"])

prop("C23", "Distributed save and restore hand every rank its own state back",
 "In a distributed run, saving with any destination rank (or to all) and restoring from any source rank (or from all) gives each data-parallel rank precisely its own state: every rank continues its own stream exactly, for any world size, worker count and data-parallel subgroup, and saving does not deadlock or mix ranks.",
 ["configurations", "histories", "schedules"], "all world sizes, dst/src ranks, and per-rank progress differences",
 "No test starts a process group.",
 ["savable_loader.py"], [("save_state all_gather/gather, restore_state scatter", "savable_loader.py")],
 ["per-rank streams in a gloo process group over loopback"])

prop("C24", "Crude samples are cooked by the first matching cooker only",
 "For a crude dataset, each sample is handed to the first registered cooker whose conditions (subflavor, subflavors subset, custom condition) all match the sample, and to no other; non-crude samples pass through untouched and samples without a matching cooker are reported as errors and not yielded uncooked. The key, restore key and subflavors of the crude sample carry over to derived samples.",
 ["inputs", "configurations"], "all cooker lists and subflavor combinations",
 "The stable tests use one fixed pair of cookers.",
 ["task_encoder/cooking.py", "task_encoder/base.py", "flavors/crude.py"],
 [("Cooker.is_match", "task_encoder/cooking.py"), ("TaskEncoder.cook_crude_sample", "task_encoder/base.py")],
 ["cooker invocations vs. a reference matcher"])

prop("C25", "Field maps pick exactly the addressed values of a raw sample",
 "A dataset's field_map yields for every field the value found at the stated path in the raw sample (nested keys, list indexes, alternatives tried in order, as documented); the result is the same for every sample and worker, and a missing value without alternative raises an error for that sample rather than producing a wrong or empty field.",
 ["inputs"], "all field access expressions and raw sample structures",
 "Only a couple of literal field maps are tested.",
 ["flavors/webdataset/field_access.py", "flavors/webdataset/default_generic_webdataset.py"],
 [("field_access / split_field_access", "flavors/webdataset/field_access.py")],
 ["mapped fields vs. a reference evaluator"])

prop("C26", "An interrupted preparation never leaves a dataset that loads wrong data",
 "If dataset preparation or indexing is killed or fails at any point (between or inside any file write), the dataset directory afterwards is either not loadable (a clear error) or loads exactly the complete data; a partially written index or metadata file is never taken for a complete one. Running the preparation again repairs it to the same result as an uninterrupted run.",
 ["crash_points"], "every file-system operation and partial write during preparation as a crash point",
 "Tests never interrupt a preparation.",
 ["flavors/webdataset/itar.py", "flavors/webdataset/prepare.py", "flavors/webdataset/metadata.py"],
 [("TarIndexWriter: write to .tmp then rename", "flavors/webdataset/itar.py"), ("prepare_dataset yaml writing order", "flavors/webdataset/prepare.py")],
 ["directory after a simulated crash: load result vs. reference"])

prop("C27", "Worker debug logs and shutdown: every yielded sample accounted, nothing hangs",
 "With worker logging enabled, the logs list exactly the samples the loader yielded, in order, with their keys and consecutive indexes, and logging does not change the stream. Dropping, exhausting or abandoning a loader at any point ends its worker processes and command threads within a bounded time, and a failing worker surfaces an error in the main process instead of hanging.",
 ["histories", "schedules", "fault_sequences"], "all points of abandoning, exhausting, failing; all log levels",
 "Tests do not check the logs or the process table.",
 ["savable_loader.py", "worker.py", "wrappers/log_sample_dataset.py"],
 [("worker_log", "worker.py"), ("SavableDatasetWrapper.__del__ / command thread", "savable_loader.py")],
 ["log files vs. observed stream", "child processes after drop"])

prop("C28", "The command line tools report what is really there",
 "`energon lint` succeeds exactly if every sample of the linted split parts (of a dataset or metadataset) loads and the index fits, for any number of workers, and names the samples which fail. `energon info` prints the true numbers of samples and shards, overall and per split, the size and the sample type. `energon analyze-debug` counts exactly the distinct sample keys and steps in the logs and marks exactly their cells in the heatmap, also when skipping steps, resizing, or using the loading order. `energon preview` shows every sample of the splits in order. The configuration `energon prepare` writes interactively loads all samples with the right fields.",
 ["inputs", "configurations"], "all datasets, defects of samples, options of the tools",
 "No test runs lint, info, preview or analyze-debug at all.",
 ["tools/lint.py", "tools/info.py", "tools/analyze_debug.py", "tools/preview.py", "tools/prepare.py"],
 [("lint.command", "tools/lint.py"), ("AutosizingHeatmapWriter / LoaderLogIter", "tools/analyze_debug.py")],
 ["exit code and output vs. the generated data"])

prop("C29", "Shuffling and augmentation are random as configured, independent per worker",
 "In training, the shard slices of a worker come in a uniformly random order, drawn anew for each epoch (with shuffle_over_epochs = n over each n epochs, each slice n times; with -1 each slice uniformly with replacement) and independently of the other workers, ranks and seed offsets. parallel_shard_iters slices are open at a time, the samples of each in order, and the next sample comes from an open slice with probability proportional to its length. A full shuffle buffer hands out each of its samples with equal probability. Validation data comes in its order, unshuffled. The random numbers (torch, numpy, random) that user functions see, with restored seeds or without, do not repeat between samples, workers, ranks or seed offsets.",
 ["inputs", "configurations", "histories"], "all dataset layouts, worker and rank counts, seeds and shuffling options",
 "Tests compare two runs for equality; a stream that is reproducible but hardly shuffled, or shuffled alike on every worker, passes all of them.",
 ["flavors/webdataset/sample_loader.py", "wrappers/shuffle_buffer_dataset.py", "rng.py", "worker.py", "savable_loader.py", "task_encoder/base.py"],
 [("_shards_once / _shards_iter", "flavors/webdataset/sample_loader.py"), ("ShuffleBufferDataset.__iter__", "wrappers/shuffle_buffer_dataset.py"), ("WorkerConfig.worker_seed / _init_worker", "worker.py")],
 ["order of the yielded samples", "values drawn inside user functions"])

prop("C30", "config() says whether two datasets or loaders have the same settings",
 "The config() of a dataset or loader is made of JSON values and depends on its settings alone: it is the same for two datasets built with the same settings, in the same or in another process, and before and after iterating, saving and restoring. It differs when a setting which changes the samples differs: training or validation, path, split part, excluded samples, shard slices, worker configuration (rank, world size, workers; not the seeds), shuffling and slicing options, repetition, limit and epoch lengths, sizes of batches, groups and packs and whether the last is dropped, members, order and weights of blends, concatenations and joins, the joiner, sample type, field map, sample loader, subflavors and image decoding, the cookers with their conditions, and which user functions are applied (by name). User-given configs of functions and of batchers, packers and the like are part of it. Wrappers that do not change the samples (garbage collection) do not change the config.",
 ["inputs", "configurations", "histories"], "all datasets, wrappers, loaders and their settings",
 "config() is what a resumed job compares with what it saved, to know that the state still fits. A setting left out is not noticed by any test; nor is a value which changes while iterating or between processes.",
 ["flavors/base_dataset.py", "flavors/webdataset/sample_loader.py", "flavors/webdataset/base_webdataset.py", "flavors/webdataset/joined_webdataset.py", "flavors/webdataset/default_generic_webdataset.py", "wrappers/batch_dataset.py", "wrappers/packing_dataset.py", "savable_loader.py", "task_encoder/base.py"],
 [("SavableDataset.config", "flavors/base_dataset.py"), ("WebdatasetSampleLoaderDataset.config", "flavors/webdataset/sample_loader.py"), ("JoinedWebdatasetFactory.config", "flavors/webdataset/joined_webdataset.py"), ("SavableDataLoader.config", "savable_loader.py")],
 ["config() of datasets and loaders"])

prop("C31", "Samples hold the parts of the tar files, decoded as configured",
 "Each field of a loaded sample is the content of the part that the field map names (or of an entry of it), decoded by the last extension of the part: text as strings, JSON, integers, numpy arrays, pickles and tensors as the objects written, images as what image_decode says (array, tensor or PIL image; gray, RGB or RGBA; channels first in tensors, last in arrays; 0-255 integers or 0-1 floats), anything else as bytes. That holds for all sample types (by sample_type or the deprecated dataset classes), crude datasets (all parts; as bytes with auto_decode off), members of joins and blends, with image_decode in dataset.yaml or given to get_train_dataset / get_val_dataset (there for datasets and blends). Optional fields that are not mapped keep their defaults. A sample with a needed part that cannot be decoded is reported to the handler once, with its key, and left out (left out silently with ignore_decoder_errors), and all others are delivered; a part that no field needs is not decoded.",
 ["inputs", "configurations"], "all sample types, field maps, part contents and decoding options",
 "The tests load text samples and one fixed kind of image dataset.",
 ["flavors/webdataset/default_decoder_webdataset.py", "flavors/webdataset/default_generic_webdataset.py", "flavors/webdataset/standard_webdataset.py", "flavors/webdataset/joined_webdataset.py", "flavors/crude.py", "dataset_config.py"],
 [("DefaultDecoderWebdatasetFactory.load_sample", "flavors/webdataset/default_decoder_webdataset.py"), ("DefaultGenericWebdatasetFactory.load_sample", "flavors/webdataset/default_generic_webdataset.py"), ("JoinedWebdatasetFactory.load_sample", "flavors/webdataset/joined_webdataset.py")],
 ["yielded samples", "calls of the error handler"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
