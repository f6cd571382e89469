"""per property: how contracts decide it, against which oracle, and why tests cannot"""
D = {
"C01": "- Oracle: set algebra over (dataset, file, row). `_generate_per_mixture_component_chunks`, the owner of a component's data, is under contract: for an arbitrary row, the number of times the row is in the pieces handed out so far plus the piece being built equals the number of times it is in the part of the index that has been passed, for every history of requested sizes; at the end the pieces together hold every row as often as the index does (nothing lost, nothing twice). `merge_sorted_lists` keeps every interval; the chunk generator above it only moves pieces into chunks and is bounded. Tests sample a handful of indexes; the guarantee is over all histories of mixtures and sizes, including failing requests.",
"C02": "- Oracle: exact counting of rows per component against the mixture in force. `_generate_per_mixture_component_chunks` (contract): every piece has exactly the requested number of rows while data is left, the last one has fewer and all that is left. The share of exhausted components is distributed by `distribute_by_ratio` (contract: exact total, every share less than one away). The chunk generator itself (heap of generators, in-place mixture edits) is beyond the verifier's reach and bounded.",
"C03": "- Oracle: exact rational arithmetic. Contracts state the largest-remainder postcondition (domain equal, sum exactly the chunk size, each count less than one away); the hierarchical mixture's recursion (`parse_mixture_node`: weight of a leaf = product of the weights on its path, sums over children), the inference of a mixture from an index (`infer_mixture_from_chunkerindex`, `InferringMixture.process_index`: every component's weight is its share of the samples) are under contract too. Floats are reals in the proof; rounding is exercised by the concrete part.",
"C04": "- Oracle: a reference distributor (sequence per worker and group). `__init__` and `next_chunk_for` are under contract: a data invariant ties the cache, the per-node cursors and the usage counters together (usage = number of nodes past the chunk, every cursor keeps its worker's residue, a chunk that one node has received and another has not is cached); `__init__` establishes it, every call preserves it, returns the cached chunk or the next element of the stream (one element consumed), advances exactly one cursor by the number of workers, leaves other groups alone, and leaves everything as it was when the stream has ended; interleavings are sequences of calls because the server calls it from one thread.",
"C05": "- Oracle: the uninterrupted continuation of the same job, computed by running a twin. `_validate_checkpoint_state` is under contract: it refuses exactly when two nodes of a group are at different chunks for a worker, and otherwise returns, per group and worker, the furthest position any node has reported. Crash points are checkpoint positions between any two operations. Replay equality of the whole generator is beyond a function contract and bounded.",
"C06": "- Oracle: a dictionary of ids seen so far. `_update_key_id_map` is the only writer.",
"C07": "- Oracle: equality of two executions with permuted tables, noisy random state, other processes, hash seeds and thread counts. A 2-run (hyper)property: contracts decide the functional dependence of the pieces (sorting, largest remainder with ties by key); whole runs are bounded.",
"C08": "- Oracle: multiset of the chunk's rows, window quotas in exact arithmetic, skip = suffix. Under contract: the window quotas (`_get_element_counts`), the preparation of the workloads, the iteration over windows and over the whole mixture, the choice between them with the skipped prefix, the file iterators in one process, `_spin_up_readers` (the readers' partitions cover the workload exactly once), `_reader_process` (everything read is put into the queue, in order, then the end marker; errors are passed on), `_get_iterator_for_workload_mt` (what comes out of the queues is what was put in; a dead reader is an error, never a silent end). Processes and queues are assumed (listed); their scheduling is sampled (bounded).",
"C09": '- Oracle: windows of the concatenated token stream computed from the definition, stub tokenizers. All functions of `TokenizingIterator` and `ThreadedTokenizingIterator` that touch the data (constructors, `fetch_data`, `prefetch_loop` with its error path, both `__next__`) are under contract with the token stream as a ghost sequence: every window is the next one of the concatenated stream for batching, wrapping and end of data. The threaded pair uses monitor reasoning: the invariant of the shared buffer is assumed when the lock is taken and proved when it is released or waited on, whatever the other thread does in between. Assumed: the tokenizer encodes every document of a batch by itself; the lock and condition variable behave as documented.',
"C10": "- Oracle: direct reading of the decompressed rows. Readers' contracts (JSONL, parquet, web datasets and their wrappers over files): output equals the rows of the ranges in order, for every list of ranges, row-group layout and batch size; the line counter of the JSONL reader equals the number of lines consumed; no line outside the ranges is parsed. Assumed: the file libraries give rows by position (listed).",
"C11": "- Oracle: direct evaluation of the conditions on the registered records. SQL (DuckDB) and the C++ chunker have no verifier within reach (C++ templates with Arrow/abseil are outside CBMC's C++ front end) and are bounded; `merge_sorted_lists` and the condition builder are under contract.",
"C12": "- Oracle: fresh execution in a clean cache. Interrupted writes are simulated by raising at every file operation of the cache writer. File system and DuckDB are external: bounded.",
"C13": "- Oracle: the encoded byte string and its value; splits and ends at every byte (small messages) or random bytes. All 13 framing functions of `network.py` are under contract over a ghost byte stream: `read_bytes` returns exactly the next n bytes or None at the end of the stream and never consumes more; each typed reader returns the value whose encoding is the prefix it consumes; each writer appends exactly that encoding; so write-then-read is the identity. Server/local equivalence is bounded.",
"C14": "- Oracle: a reference registry compared table by table after every operation. SQL: bounded.",
"C15": "- Oracle: direct evaluation of the definitions.",
"C16": '- Oracle: the definition (largest start step not above the current one). The constructor and the lookup (`current_mixture`), and the step counter driven by feedback, are under contract for every list of entries and every feedback; whole schedules are bounded as well.',
"C17": '- Oracle: exact sums with values representable in float32. Accumulation (`_update_state`, `process_losses`), validity of the counts and normalisation are under contract over reals and integers; overflow and float rounding are exercised by the bounded part with large counts.',
"C18": '- Oracle: per-line evaluation. `load_data`, `run` and the batch reader are under contract: every line of every file is evaluated exactly once and in order, whatever the batch size.',
"C19": "- Oracle: equality with the original after normalisation; process pools are bounded.",
"C20": "- Oracle: the chunk lists served by a stub client.",
"C21": '- Oracle: a reference parser written from the declared schema. `add_metadata` is under contract: what is recorded is exactly the declared properties with values of their type and options (or the sample is refused); payload parsing of the built-in parsers is bounded.',
}
