"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, pathlib

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

QR = "mixtera/core/query/query_result.py"
RC = "mixtera/core/query/result_chunk.py"
CD = "mixtera/core/query/chunk_distributor.py"
UT = "mixtera/utils/utils.py"
MX = "mixtera/core/query/mixture/"

prop("C01", "Chunking never repeats, invents or loses selected samples",
     "Over the whole run of one query result, the chunks that are handed out never contain the same sample of the same file twice and never contain a sample outside the selected intervals, whatever sequence of mixtures and chunk sizes is requested. When chunks are requested without a mixture until the end of the data, every selected sample is in exactly one chunk, and every chunk taken from one component is full except that component's last one.",
     ["inputs", "histories"], "all interval sets per component/dataset/file, all chunk sizes and all sequences of mixtures requested from the chunk generator",
     "Unit tests run a handful of small indexes with fixed chunk sizes; splitting of intervals across chunk borders is an unbounded loop over arbitrary intervals and requested sizes.",
     [QR, UT], [("component chunk coroutine", QR + "::_generate_per_mixture_component_chunks"), ("chunk assembly", QR + "::_chunk_generator"), ("interval merge", UT + "::merge_sorted_lists")],
     [("remaining range", "the not yet consumed rest of the current interval", QR)], ["intervals of every ResultChunk returned by iterating a QueryResult"])

prop("C02", "Every chunk honours the mixture it was requested for",
     "In strict mode every chunk holds, for every mixture component, exactly the number of rows the mixture asks for, taken only from data that matches this component, and no chunk is produced once that is impossible. In best-effort mode a produced chunk still holds exactly as many rows as the mixture asks for in total: components with enough data get at least their share, the missing rows of exhausted components are taken from the others, and the mixture attached to the chunk states the per-component counts that the chunk really holds.",
     ["inputs", "histories"], "all mixtures, component overlaps, interval layouts and sequences of mixture changes, in strict and best-effort mode",
     "Tests cover a few two- or three-component layouts; exhaustion order, redistribution rounding and overlapping components give an unbounded space.",
     [QR, UT], [("best-effort redistribution", QR + "::_chunk_generator"), ("largest remainder split", UT + "::distribute_by_ratio")],
     [("remaining_sizes", "rows each component still needs in this chunk", QR)], ["per-component row counts of every ResultChunk", "mixture attached to the chunk"])

prop("C03", "Mixture weights become row counts that fill the chunk exactly",
     "For every chunk size and every accepted set of non-negative weights, a static, inferred or dynamically computed mixture assigns each component a non-negative whole number of rows that is less than one row away from weight times chunk size, and the rows add up to exactly the chunk size. A hierarchical mixture gives every leaf combination the product of the weights on its path, rounded down, with the rows lost to rounding given to one component so that the chunk size is met; weights of a static mixture that do not sum to one are refused.",
     ["inputs"], "all chunk sizes, numbers of components and weight vectors",
     "Tests use a few hand-picked weights; rounding errors depend on all weights together.",
     [MX + "static_mixture.py", MX + "hierarchical_static_mixture.py", MX + "inferring_mixture.py", UT, "mixtera/core/datacollection/index/index_utils.py"],
     [("largest remainders", MX + "static_mixture.py::parse_user_mixture"), ("hierarchical flattening", MX + "hierarchical_static_mixture.py::parse_mixture_node"), ("inferring from the index", "mixtera/core/datacollection/index/index_utils.py::infer_mixture_from_chunkerindex"), ("proportional split", UT + "::distribute_by_ratio")],
     (), ["mixture_in_rows()"])

prop("C04", "Chunks are distributed consistently over data-parallel groups",
     "Every data-parallel group receives different chunks, all nodes of one group receive identical chunks in identical order for the same worker, different workers of a node receive disjoint chunks, and no chunk fetched from the query result is dropped. This holds for every interleaving in which the nodes and workers ask, and a chunk is kept available until every node of the group has received it.",
     ["schedules", "configurations"], "all numbers of groups, nodes and workers and all interleavings of their requests",
     "Tests fix small configurations and one request order; the number of interleavings is unbounded.",
     [CD], [("per-group chunk cache and usage counts", CD + "::next_chunk_for"), ("initial chunk per worker", CD + "::__init__")],
     [("next chunk", "next chunk number per group, node, worker", CD), ("usage", "how many nodes received a cached chunk", CD)], ["chunks returned to each (group, node, worker)"])

prop("C05", "Restoring a checkpoint continues exactly where training stopped",
     "After a checkpoint is taken at any point of any run and restored, every worker continues with the chunk it was reading, skipping exactly the samples it had reported as consumed, and afterwards receives the same chunks with the same component ids, in the same order, as it would have received without the interruption. A checkpoint is only taken when all nodes have reported, is refused when nodes of a group are at different chunks, and taking it does not disturb the running job.",
     ["histories", "crash_points", "schedules"], "all configurations, request histories, mixture changes and positions of checkpoints (including several checkpoints of one run and checkpoints of a restored run)",
     "Tests restore a few hand-made states; equality with the uninterrupted run is a statement over all histories.",
     [CD, QR, RC], [("collect and validate worker states", CD + "::checkpoint, _validate_checkpoint_state"), ("rewind and skip", CD + "::_persist_checkpoint_process"), ("replay of the mixture log", QR + "::replay"), ("skipping inside the chunk", RC + "::_iterate_samples")],
     [("mixture log", "chunk number at which each mixture took effect", QR), ("samples to skip", "consumed prefix of a chunk", RC)], ["chunks and samples served after from_checkpoint"])

prop("C06", "Component identifiers are unique and never change",
     "Within one job every mixture component that ever occurs has exactly one non-negative integer identifier, two different components never share one, and once assigned an identifier never changes when mixtures are updated, results are cached and reloaded, or a checkpoint is restored. Every sample served from a chunk carries the identifier of the component it was drawn for.",
     ["histories", "inputs"], "all sequences of mixture updates with arbitrary, overlapping and new components",
     "Tests look at one or two updates; stability is a statement about arbitrary update histories.",
     [QR, RC], [("identifier assignment", QR + "::_update_key_id_map"), ("identifier attached to samples", RC + "::_iterate_overall_mixture, _iterate_window_mixture")],
     [("key id map", "component to identifier", QR)], ["identifiers in served samples", "identifier map of chunks"])

prop("C07", "The same query over the same data always gives the same order",
     "Two executions of the same query with the same mixture over the same registered data produce the same sequence of chunks, and reading a chunk twice produces the same sequence of samples, in any process and regardless of the order in which internal tables happen to be filled, of the number of threads, and of earlier use of random numbers.",
     ["inputs", "histories", "schedules"], "all query results, insertion orders of the same index, processes (hash seeds) and prior random number generator states",
     "Tests run in one process with one hash seed and one insertion order.",
     [QR, RC, UT, MX + "mixture_key.py"], [("seeding from content", UT + "::seed_everything_from_list, hash_list, hash_dict"), ("sort before shuffle", QR + "::_chunk_generator"), ("sorted traversal of datasets and files", QR + "::_generate_per_mixture_component_chunks"), ("seeded order inside a chunk", RC + "::_iterate_overall_mixture, _prepare_workloads, _iterate_window_mixture")],
     (), ["sequence of chunks", "sequence of samples of a chunk"])

prop("C08", "Reading a chunk yields exactly its samples in the requested mixture",
     "Reading a chunk to the end in the default or the best-effort windowed mode yields every sample of the chunk's intervals exactly once, for every degree of reader parallelism and with or without prefetching; skipping n samples yields exactly the sequence without its first n elements, and samples are numbered consecutively. In windowed mode every full window holds each component according to its share of the chunk (up to rounding, with the remainder given to one component), and without best effort no further window is started once a component has run out.",
     ["inputs", "configurations", "schedules"], "all chunks, window sizes, mixtures, skip counts and degrees of parallelism",
     "Tests use mocked readers and a few window sizes; the loops run over arbitrarily long component streams.",
     [RC], [("round robin over components", RC + "::_iterate_overall_mixture"), ("windowed iteration", RC + "::_iterate_window_mixture, _get_element_counts"), ("partitioning work over readers", RC + "::_get_process_counts, _spin_up_readers, _get_iterator_for_workload_mt"), ("skipping", RC + "::_iterate_samples")],
     (), ["(index, component id, sample) triples of a chunk"])

prop("C09", "Token sequences are the contiguous windows of the tokenized stream",
     "For every text stream, tokenizer, batch size and option setting, the emitted sequences all have exactly sequence length plus one tokens and are the consecutive windows of the concatenated token stream, advancing by the sequence length when windows overlap and by one token more otherwise, with the begin and end tokens of every document in place. No complete window is dropped, only when requested and when the stream is too short for a single window is exactly one padded window produced, and the threaded and the unthreaded variant emit identical sequences.",
     ["inputs", "configurations", "schedules"], "all streams of documents (including empty ones), sequence lengths, batch sizes, options and thread schedules",
     "Tests use a few short fixed texts; batching borders, end of stream and thread timing are unbounded.",
     ["mixtera/utils/tokenizing_iterator.py"], [("buffering and windowing", "mixtera/utils/tokenizing_iterator.py::TokenizingIterator.__next__, fetch_data"), ("background filling", "mixtera/utils/tokenizing_iterator.py::ThreadedTokenizingIterator.prefetch_loop")],
     [("buffer", "tokens fetched so far", "mixtera/utils/tokenizing_iterator.py")], ["list of emitted token sequences"])

prop("C10", "Dataset readers return exactly the requested rows in order",
     "For every file and every sorted, non-overlapping list of row ranges, reading the ranges returns the rows start up to but excluding end of each range, each exactly once, in file order and each passed through the parsing function, no matter how the file is compressed or split into row groups. Row numbers used for reading are the same as those used when the file's metadata was indexed, and unsorted or overlapping ranges of line-based files are refused rather than read wrongly.",
     ["inputs"], "all files (line counts, row group layouts, compression, text content) and all lists of ranges",
     "Tests use tiny files with one or two ranges; pointer arithmetic over row groups and lines is unbounded.",
     ["mixtera/core/datacollection/datasets/jsonl_dataset.py", "mixtera/core/datacollection/datasets/parquet_dataset.py", "mixtera/core/datacollection/datasets/web_dataset.py", "mixtera/utils/webdataset_utils.py", "mixtera/core/filesystem/filesystem.py"],
     [("line skipping", "mixtera/core/datacollection/datasets/jsonl_dataset.py::_read_ranges_from_file"), ("range to row group mapping", "mixtera/core/datacollection/datasets/parquet_dataset.py::_read_ranges_from_file"), ("tar sample access", "mixtera/core/datacollection/datasets/web_dataset.py::_read_ranges_from_file")],
     (), ["rows yielded by read_ranges_from_files"])

prop("C11", "A query selects exactly the samples that satisfy its conditions",
     "A query's result contains exactly the registered samples that satisfy all conditions of at least one of its chained selections (list values meaning any of the values, multi-valued properties meaning contains), each in the component that carries exactly the sample's property values. Samples are represented as maximal, disjoint, sorted half-open intervals per component, dataset and file, independent of how many worker threads build the index.",
     ["inputs", "programs"], "all registered data, all condition lists over the supported operators, and all thread counts",
     "Tests check a few conditions on one small dataset; agreement of the generated SQL and the native index builder with the condition semantics is a statement over all queries and tables.",
     ["mixtera/core/query/operators/select.py", "mixtera/core/query/query.py", "mixtera/core/query/chunker/chunker_extension.cpp", "mixtera/core/query/operators/_base.py", "mixtera/core/query/query_plan.py"],
     [("condition to SQL", "mixtera/core/query/operators/select.py::_generate_conditions"), ("gaps and islands query", "mixtera/core/query/query.py::execute"), ("parallel grouping by properties", "mixtera/core/query/chunker/chunker_extension.cpp")],
     (), ["chunker index of the query result"])

prop("C12", "The query cache returns the right result or none",
     "A query that is answered from the cache has exactly the result that executing it afresh would have: same intervals, components, files and parsing functions, ready to be chunked from its beginning. An entry is only used for a query with the same conditions and the unchanged database state, a stale or incomplete entry is never used, and caching one query neither overwrites nor alters another.",
     ["histories", "crash_points", "inputs"], "all sequences of registering data, executing, caching and looking up queries, and interruptions while an entry is written",
     "Tests store and load one query; stale, partial and colliding entries form unbounded histories.",
     ["mixtera/core/query/query_cache.py", QR, "mixtera/core/datacollection/mixtera_data_collection.py"],
     [("lookup by query text and database version", "mixtera/core/query/query_cache.py::get_queryresults_if_cached"), ("entry writing", "mixtera/core/query/query_cache.py::cache_query"), ("result serialisation", QR + "::to_cache, from_cache"), ("version counter", "mixtera/core/datacollection/mixtera_data_collection.py::get_db_version")],
     [("database version", "incremented by every change of the data", "mixtera/core/datacollection/mixtera_data_collection.py")], ["QueryResult returned by a lookup"])

prop("C13", "Messages arrive exactly as sent, however the network splits them",
     "For integers, floats, strings, byte strings, arrays and pickled objects, reading what was written to a connection returns an equal value and consumes exactly the bytes of that message, for every way the transport splits the stream into pieces. If the connection ends before the first byte of a message the reader reports absence (for raw objects, an empty byte string counts as absence, as documented), if it ends inside a message it raises an error instead of returning a truncated value, and a client request served by the server has the same effect and result as the corresponding local call.",
     ["inputs", "fault_sequences", "schedules"], "all values within the documented header range, all fragmentations and all positions at which the connection ends",
     "Tests use mocked readers that return whole messages.",
     ["mixtera/network/network_utils.py", "mixtera/network/server/server.py", "mixtera/network/connection/server_connection.py"],
     [("read until complete", "mixtera/network/network_utils.py::read_bytes"), ("length headers", "mixtera/network/network_utils.py::write_*, read_*"), ("request handlers", "mixtera/network/server/server.py"), ("client side of each request", "mixtera/network/connection/server_connection.py")],
     (), ["values returned by the read functions"])

prop("C14", "The dataset registry and its sample metadata stay consistent",
     "After any sequence of registering, listing and removing datasets, a dataset name exists exactly if it was registered and not removed since, a second registration under the same name is refused without side effects, identifiers of datasets and files are never shared, and every row of every registered file has exactly one metadata record with the values its parser extracted for that row. Removing a dataset removes all of its files and records and nothing else, and every change of the registered data changes the database version.",
     ["histories", "inputs"], "all sequences of registry operations on arbitrary datasets, files and metadata",
     "Tests register one or two datasets; the invariants are over arbitrary operation histories and file contents.",
     ["mixtera/core/datacollection/mixtera_data_collection.py", "mixtera/core/client/local/local_stub.py"],
     [("registration", "mixtera/core/datacollection/mixtera_data_collection.py::register_dataset"), ("bulk insertion of metadata", "mixtera/core/datacollection/mixtera_data_collection.py::_insert_samples_with_metadata"), ("removal", "mixtera/core/datacollection/mixtera_data_collection.py::remove_dataset")],
     [("tables", "datasets, files, samples, version", "mixtera/core/datacollection/mixtera_data_collection.py")], ["contents of the tables", "list_datasets, check_dataset_exists"])

prop("C15", "Component keys match, order and hash by their property values",
     "A component key matches another exactly if every property it names is also named by the other and they share at least one value for it (or both list no value). Ordering of keys is a strict total order up to identical properties and values, so sorting does not depend on the input order, and keys with the same properties and the same values in any order have the same hash, text form and place in the order.",
     ["inputs"], "all pairs and triples of keys with arbitrary properties and values",
     "Tests compare a few pairs; the laws quantify over all pairs and triples of keys.",
     [MX + "mixture_key.py", UT], [("matching", MX + "mixture_key.py::__eq__"), ("ordering", MX + "mixture_key.py::__lt__"), ("hashing", MX + "mixture_key.py::__hash__ and " + UT + "::hash_dict")],
     (), ["==, <, hash, str of keys"])

prop("C16", "Mixture schedules and feedback follow the training step",
     "The step a mixture knows never decreases, whatever order feedback arrives in, and equals the largest step reported. A mixture schedule always uses the entry with the largest start step not above the current step (the first entry before that), independent of the order in which the entries were given, and feedback from the trainer changes the mixture used for all following chunks but not chunks handed out before.",
     ["histories", "inputs"], "all schedules and all sequences of feedback messages",
     "Tests use ordered schedules and a few steps; the statement is over all feedback histories.",
     [MX + "mixture.py", MX + "mixture_schedule.py", MX + "dynamic_mixture.py", "mixtera/core/client/local/local_stub.py", "mixtera/utils/feedback.py"],
     [("monotone step", MX + "mixture.py::_update_training_step"), ("entry selection", MX + "mixture_schedule.py::current_mixture"), ("feedback dispatch", MX + "mixture.py::process_client_feedback")],
     [("current step", "largest training step reported", MX + "mixture.py")], ["mixture_in_rows() after feedback"])

prop("C17", "Dynamic mixing accumulates losses exactly and yields distributions",
     "Losses and counts reported per component are summed component by component over all reports since the last reset, also when the number of components grows between reports, and a report of fewer components leaves the others unchanged. Whenever a dynamic mixing algorithm proposes a mixture, it is a vector of finite non-negative weights summing to one over the known components, the averaging algorithm weighs components with data in proportion to their average loss and others with zero, and an update is signalled as new exactly when a mixture with a higher number than ever before is reported.",
     ["histories", "inputs"], "all sequences of loss and count reports with arbitrary and growing numbers of components",
     "Tests replay a few reports; growth, zero counts and clipping interact over arbitrary histories.",
     ["mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", "mixtera/core/algo/loss_avg/loss_avg.py", "mixtera/core/algo/ado/ado.py", MX + "dynamic_mixture.py"],
     [("accumulation", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py::_update_state, process_losses"), ("averaging", "mixtera/core/algo/loss_avg/loss_avg.py::calc_mixture"), ("adaptive policy", "mixtera/core/algo/ado/ado.py"), ("weights to rows", MX + "dynamic_mixture.py::_process_losses")],
     [("accumulated losses and counts", "sums since last reset", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py")], ["returned mixtures", "accumulated arrays"])

prop("C18", "Property calculation gives every sample exactly one result",
     "Running a property calculation over any set of files returns exactly one result per line of every file, carrying that line's file, dataset and line number and the value computed from that line's content, independent of the batch size, of compression and of how files align with batch borders. A calculation that returns a different number of values than it was given is refused.",
     ["inputs", "configurations"], "all files, batch sizes and calculation functions",
     "Tests use a few files and batch sizes; alignment of files and batches is unbounded.",
     ["mixtera/core/processing/property_calculation/local_executor.py", "mixtera/core/processing/property_calculation/executor.py"],
     [("batching", "mixtera/core/processing/property_calculation/local_executor.py::load_data"), ("pairing predictions with samples", "mixtera/core/processing/property_calculation/local_executor.py::run")],
     (), ["result records of run()"])

prop("C19", "Saved query results load back unchanged",
     "Writing the interval index of a query to disk and reading it back gives an equal index: the same components in the same order, datasets, files and intervals, for every index and every number of worker processes. Existing saved data is never silently mixed with new data.",
     ["inputs", "configurations", "schedules"], "all indexes and orders in which worker processes finish",
     "Tests save a few small indexes with a sequential pool.",
     [UT], [("write one file per interval list", UT + "::serialize_chunker_index"), ("rebuild from directory names", UT + "::deserialize_chunker_index")],
     (), ["deserialize(serialize(index))"])

prop("C20", "The training client sees every sample once and reports true progress",
     "Iterating a query through the training data loader integration yields the samples of exactly the chunks distributed to this worker in order, each once, prefetching the first item never changes, drops or duplicates an item, and at every moment the progress a worker reports is the position, within its current chunk, of the sample it yielded last. After resuming, reported positions continue after the skipped samples, and training feedback is sent once, by the first rank only, with the number of the mixture last seen.",
     ["histories", "schedules", "configurations"], "all sample streams, worker layouts and points at which progress is read",
     "Tests mock the client and look at single steps.",
     ["mixtera/torch/mixtera_torch_dataset.py", "mixtera/utils/prefetch_iterator.py", "mixtera/core/client/mixtera_client.py", "mixtera/utils/feedback.py", "mixtera/utils/checkpoint.py"],
     [("sample loop and status", "mixtera/torch/mixtera_torch_dataset.py::__iter__"), ("first item prefetch", "mixtera/utils/prefetch_iterator.py"), ("chunk streaming", "mixtera/core/client/mixtera_client.py::stream_results")],
     [("worker status", "position in the current chunk of the sample yielded last, per worker", "mixtera/torch/mixtera_torch_dataset.py")], ["samples yielded by the dataset", "reported worker status"])

prop("C21", "Metadata parsers record what the sample says, or refuse it",
     "For every payload, a metadata parser records one entry for the row with exactly its declared properties, a single value for single-valued and a list for multi-valued properties, and values that are not allowed for a categorical property or missing for a required one raise an error rather than being stored. Reusing a parser for many rows never mixes values between rows.",
     ["inputs"], "all payloads and all property declarations",
     "Tests use one or two payloads per parser.",
     ["mixtera/core/datacollection/index/parser/metadata_parser.py", "mixtera/core/datacollection/index/parser/parser_collection.py"],
     [("validation and recording", "mixtera/core/datacollection/index/parser/metadata_parser.py::add_metadata"), ("payload extraction", "mixtera/core/datacollection/index/parser/parser_collection.py")],
     [("recorded metadata", "list of row entries", "mixtera/core/datacollection/index/parser/metadata_parser.py")], ["metadata list of the parser"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), [len(p["title"]) for p in P])
