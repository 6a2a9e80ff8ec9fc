"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))
Q = "mixtera/core/query/"
DC = "mixtera/core/datacollection/"

p("P01", "A query selects exactly the matching samples, under their own metadata",
  "Streaming the result of a query delivers exactly the registered samples whose metadata satisfies it - conditions within one selection must all hold, chained selections are alternatives, a query without conditions takes everything - each sample once and no other. "
  "Every delivered sample is reported under the domain made of its own metadata values, never under the values of another sample.",
  ["inputs", "programs"], "all dataset contents (several datasets, files, sizes, metadata types, missing and multi-valued metadata) and all query plans built from the documented operators",
  "Unit tests run a handful of fixed queries over hand-made tables of a few rows and mostly mock the index; nothing relates arbitrary data and query plans to an independent evaluation of the conditions.",
  [Q+"operators/select.py", Q+"query.py", Q+"query_result.py", Q+"chunker/src/chunker.cpp", DC+"mixtera_data_collection.py"],
  [("SQL generation from selections", Q+"operators/select.py:generate_sql"), ("grouping of consecutive matching samples to intervals", Q+"query.py:Query.execute"), ("index construction from the interval table", Q+"chunker/src/chunker.cpp:create_chunker_index")],
  ["samples and domain ids yielded by stream_results", "chunks returned for a job"])

p("P02", "Index building conserves every interval for any threads and batching",
  "The domain index built from a table of matching intervals contains every interval of the table exactly once, under the dataset, file and domain values of its row, with the intervals of each file in ascending order. "
  "The result does not depend on the number of builder threads, on how the table is split into batches, or on how its columns are physically encoded.",
  ["inputs", "schedules", "configurations"], "all interval tables (column types, nulls, lists, dictionary and string encodings, empty and sliced batches) x builder thread counts x thread schedules",
  "The tests force a single builder thread and check a few small tables; merging of per-thread partial results and encodings other than the default are not exercised.",
  [Q+"chunker/src/chunker.cpp", Q+"chunker/include/chunker.hpp"],
  [("per-thread partial indices over slices of the table", Q+"chunker/src/chunker.cpp:process_batches"), ("merging of partial indices", Q+"chunker/src/chunker.cpp:merge_sort"), ("conversion to Python mapping", Q+"chunker/src/chunker.cpp:build_py_chunker_index")],
  ["return value of the index builder"])

p("P03", "The native index builder is free of memory errors and data races",
  "Building the domain index never reads or writes memory it does not own, never executes undefined behaviour, never races between its threads and never crashes the process, for any well-typed table of matching intervals and any thread count. "
  "A table of an unsupported shape is rejected with a Python exception.",
  ["inputs", "schedules"], "all tables (sizes, encodings, null patterns, wrong or missing columns, chunk layouts) x thread counts x schedules",
  "The extension is not even compiled by the stable test run, and ordinary tests run it uninstrumented with one thread, where most memory errors and every race stay silent.",
  [Q+"chunker/src/chunker.cpp", Q+"chunker/include/chunker.hpp"],
  [("worker threads with the interpreter lock released", Q+"chunker/src/chunker.cpp:create_chunker_index"), ("column extraction from Arrow arrays", Q+"chunker/src/chunker.cpp:get_property_value")],
  ["sanitizer reports of an instrumented build of the real source"])

p("P04", "Chunks deliver data at most once and stop only when they must",
  "Over the whole life of a job no sample is put into two chunks and none is invented. "
  "With an unconstrained mixture the chunks together deliver every selected sample; with a strict mixture the stream ends only when some domain of the mixture can no longer supply its share of a chunk, and in best-effort mode only when the mixture's domains together cannot fill another chunk. "
  "Producing the next chunk always terminates.",
  ["inputs", "configurations", "histories"], "all index shapes (domains, datasets, files, interval layouts) x mixtures (arbitrary, inferring, static, hierarchical; strict or best effort) x chunk sizes",
  "Tests use two or three domains with hand-picked sizes; the bookkeeping across chunk boundaries, exhausted domains and redistribution depends on the exact sizes.",
  [Q+"query_result.py"],
  [("per-domain interval iterators", Q+"query_result.py:_generate_per_mixture_component_chunks"), ("chunk assembly", Q+"query_result.py:_chunk_generator"), ("redistribution of missing samples", "mixtera/utils/utils.py:distribute_by_ratio")],
  ["the sequence of chunks of a job and the intervals they contain"])

p("P05", "Every chunk realises the mixture in force",
  "Under a strict mixture every chunk holds, for each domain of the mixture, exactly that domain's share of the chunk size, and only samples whose metadata match the domain they are reported under. "
  "In best-effort mode every chunk still holds exactly the chunk size in samples, a domain gets less than its share only once its data is used up, and the domain shares reported with a chunk are the ones it contains.",
  ["inputs", "configurations", "histories"], "all index shapes x mixtures (including domains that match several value combinations or overlap each other) x chunk sizes x mixture changes while streaming",
  "Tests assert the composition of one or two example chunks; composition must hold for every chunk, including those around the exhaustion of a domain.",
  [Q+"query_result.py", Q+"mixture/static_mixture.py", Q+"mixture/mixture_key.py", Q+"result_chunk.py"],
  [("mixture to row counts", Q+"mixture/static_mixture.py:parse_user_mixture"), ("chunk assembly", Q+"query_result.py:_chunk_generator"), ("domain matching", Q+"mixture/mixture_key.py:__eq__")],
  ["the sequence of chunks of a job", "samples yielded by stream_results"])

p("P06", "The same job yields the same sample sequence every time",
  "Executing the same query with the same mixture and streaming options over the same collection yields the same chunks and the same samples in the same order, in a fresh process, with another hash seed, with freshly computed or cached results, on a machine with another number of cores, and irrespective of what else the process computed or randomised before. "
  "The order in which a user lists the values or properties of a domain does not matter, and listing the domains of a mixture in another order does not change which samples the chunks contain (as long as rounding gives the same row counts).",
  ["configurations", "histories", "inputs"], "all datasets, queries, mixtures and streaming modes x process environments (hash seed, prior random state, cached or not)",
  "A test process has one hash seed and one history; reproducibility across processes needs paired executions.",
  [Q+"query_result.py", Q+"result_chunk.py", "mixtera/utils/utils.py", Q+"mixture/mixture_key.py"],
  [("seeding from content hashes before shuffles", "mixtera/utils/utils.py:seed_everything_from_list"), ("ordered iteration over domains", Q+"query_result.py:_chunk_generator"), ("order-independent domain hashes", Q+"mixture/mixture_key.py:__hash__")],
  ["recorded sample sequences of paired processes"])

p("P07", "Data-parallel groups share nothing, nodes of a group see the same stream",
  "All nodes of a data-parallel group receive the same sequence of chunks for the same worker index, no chunk reaches two different groups or two different workers, and together the groups and workers receive the chunks of the job exactly once. "
  "This holds for every order in which nodes and workers ask for their next chunk.",
  ["schedules", "configurations"], "all interleavings of requests from nodes and workers x numbers of groups, nodes and workers x job sizes",
  "Tests use fixed request orders for one or two configurations; caching and eviction decisions depend on the interleaving.",
  [Q+"chunk_distributor.py", "mixtera/network/server/server.py"],
  [("per-group cache and usage counting", Q+"chunk_distributor.py:next_chunk_for"), ("worker-strided chunk numbering", Q+"chunk_distributor.py:__init__")],
  ["history of chunk requests and replies per group, node and worker"],
  state=[("chunk cache", "chunks handed to some but not all nodes of a group", Q+"chunk_distributor.py")])

p("P08", "A restored checkpoint continues exactly where the job stood",
  "After restoring a checkpoint every node and worker receives precisely the samples it would have received without interruption from the reported position on: nothing is repeated, lost or reordered, and domain ids and mixtures continue as before. "
  "This holds for checkpoints at any position (including before the first and after the last sample), for several checkpoints in a row, for checkpoints of restored jobs and for restores in fresh processes; an inconsistent set of node positions is refused without spoiling later checkpoints, and a checkpoint that cannot be written is never reported as complete.",
  ["histories", "crash_points", "configurations"], "all positions and sequences of stream / checkpoint / kill / restore x groups, nodes, workers x mixtures and streaming modes",
  "Tests take one checkpoint at one position in one configuration; the replay must work at every position and after every earlier checkpoint or restore.",
  [Q+"chunk_distributor.py", Q+"query_result.py", Q+"result_chunk.py", "mixtera/core/client/local/local_stub.py"],
  [("state capture and persistence", Q+"chunk_distributor.py:_start_checkpointing"), ("replay of chunk generation with the mixture log", Q+"query_result.py:replay"), ("skipping of already consumed samples", Q+"result_chunk.py:_iterate_samples")],
  ["per-worker sample sequences before and after restore compared with an uninterrupted run"])

p("P09", "Cached query results equal freshly computed ones",
  "Executing a query whose result is cached behaves exactly as executing it without a cache: same samples, same domains, same chunks under any mixture. "
  "A cached result is never used after datasets were added or removed, and an interruption at any point while a result is being cached never makes later executions fail or return something else.",
  ["histories", "crash_points", "inputs"], "all sequences of register / remove / execute (with varying mixtures, processes and queries) x crash points of the cache writer",
  "Tests cover one hit and one invalidation; correctness depends on the history of the collection and on where a crash happens.",
  [Q+"query_cache.py", Q+"query_result.py", "mixtera/utils/utils.py", DC+"mixtera_data_collection.py"],
  [("lookup by query text and collection version", Q+"query_cache.py:get_queryresults_if_cached"), ("serialisation of results", Q+"query_result.py:to_cache"), ("version increments", DC+"mixtera_data_collection.py")],
  ["streams of the same query with and without a warm cache", "files of the cache directory after an injected crash"])

p("P10", "Reading a chunk yields exactly its samples under every reading option",
  "Reading a chunk yields the parsed content of exactly the samples it covers, each once, reported under the domain it belongs to and numbered consecutively, for every dataset format and compression, every degree of reading parallelism, with and without prefetching. "
  "Starting to read at position n gives the same as reading everything and dropping the first n samples.",
  ["inputs", "configurations", "schedules"], "all file contents (formats, compressions, unicode, empty and very long records, many files and interval layouts) x degrees of parallelism x prefetch x skip positions",
  "Tests mock the readers or use tiny ascii files with one interval; parallel readers and compressed formats are barely exercised.",
  [Q+"result_chunk.py", DC+"datasets/jsonl_dataset.py", DC+"datasets/parquet_dataset.py", DC+"datasets/web_dataset.py", "mixtera/utils/prefetch_iterator.py", "mixtera/utils/webdataset_utils.py", "mixtera/core/filesystem/filesystem.py"],
  [("sequential and multi-process readers", Q+"result_chunk.py:_init_active_iterators"), ("range readers per format", DC+"datasets/*.py:read_ranges_from_files"), ("skip of consumed samples", Q+"result_chunk.py:_iterate_samples")],
  ["samples yielded while iterating a chunk"])

p("P11", "Windowed reading keeps the mixture within every window",
  "When samples are read in windows, every complete window holds each domain's proportional share of the window size, where only rounding may move whole samples between domains. "
  "Best-effort reading delivers all samples of the chunk; otherwise reading stops at the first window that cannot be filled, never repeats a sample, and always terminates.",
  ["inputs", "configurations"], "all chunk compositions x window sizes x best effort or not",
  "Tests use window sizes that divide the chunk evenly with two domains.",
  [Q+"result_chunk.py"],
  [("window shares", Q+"result_chunk.py:_get_element_counts"), ("window iteration", Q+"result_chunk.py:_iterate_window_mixture")],
  ["domain ids yielded while iterating a chunk"])

p("P12", "Tokenised reading is the concatenation of the domain's texts cut evenly",
  "Token sequences of a domain, put together in order (undoing the overlap), are a prefix of the tokens of the domain's samples in reading order with the configured begin and end tokens; every sequence has exactly the configured length (plus the one token that is its last target) and at most a final remainder shorter than a sequence is missing when all is read. "
  "Tokenising in a background thread and the tokenisation batch size change nothing, and sequences of different domains follow the chunk's mixture.",
  ["inputs", "configurations", "schedules"], "all sample texts x sequence lengths x batch sizes x overlap, begin and end token options x threaded or not",
  "Tests use a toy tokenizer on a few short strings; boundary behaviour depends on the token counts of all samples together.",
  ["mixtera/utils/tokenizing_iterator.py", Q+"result_chunk.py"],
  [("buffering and cutting", "mixtera/utils/tokenizing_iterator.py:TokenizingIterator"), ("background producer", "mixtera/utils/tokenizing_iterator.py:ThreadedTokenizingIterator")],
  ["token lists yielded by the iterators and by stream_results"])

p("P13", "Network messages arrive whole, unchanged and in order",
  "Any value sent over a connection with the wire helpers is received equal to what was sent and in the order sent, however the transport fragments, delays or coalesces the bytes. "
  "A connection that ends inside a message is reported as an error or as no message and never as a different value.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences (numbers of both widths, strings, byte strings, pickled objects, empty and large) x fragmentations x truncation points",
  "Tests mock the stream objects and check call arguments; real fragmentation and truncation never happen.",
  ["mixtera/network/network_utils.py"],
  [("length-prefixed framing", "mixtera/network/network_utils.py:write_utf8_string"), ("exact reads with timeout", "mixtera/network/network_utils.py:read_bytes")],
  ["bytes and values at both ends of a fragmenting connection"])

p("P14", "A remote client observes the same as a local one",
  "Every operation through the server - registering parsers and datasets, listing, checking, removing, executing queries, streaming, feedback, checkpointing and restoring - has the same result and effect as the same operation on a local collection with the same content, and reading files through the server delivers the same samples. "
  "Requests of concurrent clients and jobs do not affect one another's results.",
  ["histories", "schedules", "inputs"], "all sequences of client operations x interleavings of several clients and jobs",
  "Unit tests replace the network by mocks on both sides; the integration tests need a manually started server and check a single happy path.",
  ["mixtera/network/server/server.py", "mixtera/network/connection/server_connection.py", "mixtera/core/client/server/server_stub.py"],
  [("request dispatch", "mixtera/network/server/server.py:_dispatch_client"), ("client calls", "mixtera/network/connection/server_connection.py")],
  ["results of client calls and streams against a real server process and a local twin"])

p("P15", "Registering a dataset is complete and failure leaves nothing behind",
  "After a successful registration the collection holds every sample of every file of the dataset with the metadata its parser assigned and nothing else; a registration that fails leaves the collection as it was, so that it can be tried again. "
  "Registering a taken name is refused without effect, removal takes away all of the dataset and nothing of the others, and every effective change makes earlier cached results unusable.",
  ["histories", "inputs", "fault_sequences"], "all sequences of registrations and removals x dataset contents, formats and file counts x failing parsers and files",
  "Tests register one small dataset and mock the worker pool; failure paths and sequences of operations are not combined.",
  [DC+"mixtera_data_collection.py", DC+"index/parser/metadata_parser.py", DC+"index/parser/parser_collection.py", DC+"datasets/jsonl_dataset.py"],
  [("parallel metadata extraction", DC+"mixtera_data_collection.py:_insert_dataset_into_table"), ("sample insertion", DC+"mixtera_data_collection.py:_insert_samples"), ("removal", DC+"mixtera_data_collection.py:remove_dataset")],
  ["list of datasets, database version and query results after every operation"])

p("P16", "Mixture shares become row counts that sum up and stay within one",
  "For every chunk size and every valid set of shares, the row counts of a static or inferred mixture are non-negative, add up to exactly the chunk size and differ from the exact share by less than one row. "
  "A hierarchical mixture gives each leaf the product of the shares on its path and adds up to the chunk size, invalid shares are refused, and distributing a number of samples by ratio always hands out exactly that number.",
  ["inputs"], "all share vectors (tiny, equal, zero, not exactly representable) and hierarchies x chunk sizes x order of keys",
  "Tests check a few vectors; rounding behaviour depends on the exact floating-point values.",
  [Q+"mixture/static_mixture.py", Q+"mixture/hierarchical_static_mixture.py", Q+"mixture/inferring_mixture.py", "mixtera/utils/utils.py", DC+"index/index_utils.py"],
  [("largest remainder rounding", Q+"mixture/static_mixture.py:parse_user_mixture"), ("hierarchy flattening", Q+"mixture/hierarchical_static_mixture.py:parse_mixture_node"), ("ratio distribution", "mixtera/utils/utils.py:distribute_by_ratio"), ("inference from an index", DC+"index/index_utils.py:infer_mixture_from_chunkerindex")],
  ["row counts of mixtures"])

p("P17", "Dynamic mixtures stay valid distributions over the right domains",
  "Whatever losses and counts are reported in whatever order, a dynamic mixture always is a probability distribution over known domains with row counts adding up to the chunk size, and the weight computed for a domain is applied to that same domain. "
  "Losses averaged over several reports equal loss per token over all of them, reports are attributed to the mixture they were measured under, and domains that were seen keep at least the configured minimum share (before the final normalisation).",
  ["histories", "inputs", "configurations"], "all sequences of loss and count vectors (growing domain sets, zero counts, late and duplicate reports) x algorithm variants and settings",
  "Tests feed one or two vectors and often mock the numerical fit; validity must hold along whole training histories.",
  ["mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", "mixtera/core/algo/ado/ado.py", "mixtera/core/algo/loss_avg/loss_avg.py", Q+"mixture/dynamic_mixture.py"],
  [("accumulation of losses", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py:process_losses"), ("scaling-law based update", "mixtera/core/algo/ado/ado.py:calc_mixture"), ("mapping weights to domains", Q+"mixture/dynamic_mixture.py:_process_losses")],
  ["mixture after every report", "chunks generated after a change"])

p("P18", "A mixture schedule applies the entry of the current step",
  "At every training step the mixture in force is the one of the latest schedule entry whose start step is not later than the highest step reported so far (the first entry before any start), independently of the order in which entries were given. "
  "Chunks generated after a step was reported follow the entry for that step, and steps reported late or twice never move the schedule backwards. An entry that the remaining data cannot fill pauses the job without costing a sample; it goes on as soon as an entry is in force that can be filled.",
  ["histories", "configurations", "inputs"], "all schedules (entry kinds and order, equal and sparse start steps) x sequences of step reports x chunk requests",
  "Tests check two or three steps on one schedule without generating chunks.",
  [Q+"mixture/mixture_schedule.py", Q+"mixture/mixture.py", Q+"query_result.py"],
  [("selection of the entry", Q+"mixture/mixture_schedule.py:current_mixture"), ("step updates", Q+"mixture/mixture.py:_update_training_step")],
  ["chunks of a job interleaved with feedback"])

p("P19", "Domain ids, mixture ids and the mixture log tell what happened",
  "During a job a domain keeps one id and no two domains share one, the mixture id never decreases along the chunks, changes exactly when the mixture changes, and chunks with equal mixture id have the same mixture. "
  "The persisted mixture log names for every mixture the chunk it came into force at, and the client reports the newest mixture id it received while streaming.",
  ["histories", "configurations"], "all sequences of chunk requests, feedback and mixture changes x mixtures",
  "Tests look at single values after a scripted sequence; the relation must hold along every history.",
  [Q+"query_result.py", "mixtera/core/client/mixtera_client.py", Q+"result_chunk.py"],
  [("id assignment", Q+"query_result.py:_update_key_id_map"), ("mixture change detection and log", Q+"query_result.py:_chunk_generator"), ("client view", "mixtera/core/client/mixtera_client.py:stream_results")],
  ["chunks, log files and the client's current mixture id along a job"])

p("P20", "Persisted query results and indices reload to the same job",
  "A query result written to disk and read back, in the same or another process, produces the same remaining chunks as the original, and an index written and read back is equal to the original with all domains, datasets, files and intervals. "
  "Writing never changes the object that is written.",
  ["inputs", "histories", "configurations"], "all indices (values of all metadata types, large and empty) x positions in the job at which the result is persisted x mixtures",
  "Tests round-trip one small index at position zero.",
  ["mixtera/utils/utils.py", Q+"query_result.py"],
  [("index serialisation", "mixtera/utils/utils.py:serialize_chunker_index"), ("result serialisation and replay", Q+"query_result.py:to_cache")],
  ["reloaded index and chunk sequences"])

p("P21", "Property calculation assigns one result to each sample",
  "Running a property calculation over a set of files calls the calculation with every sample of every file exactly once, in batches of at most the batch size, independent of batch size, file sizes, compression and order of the files, and associates each result with the "
  "dataset, file and position of the sample it was computed from. The set-up is done once, before the first batch. What cannot be done (results of wrong number or type, a failing calculation, an unreadable file, an unsupported or invalid configuration) surfaces as an error or a "
  "refusal and leaves the collection as it was.",
  ["inputs", "configurations", "faults"], "all file sets, sizes and compressions x batch sizes x kinds of results x failures of calculations and files x local and remote collections",
  "Tests run one batch layout with a constant calculation.",
  ["mixtera/core/processing/property_calculation/local_executor.py", "mixtera/core/processing/property_calculation/executor.py", "mixtera/core/datacollection/mixtera_collection.py"],
  [("data loading and batching", "mixtera/core/processing/property_calculation/local_executor.py:load_data"), ("execution", "mixtera/core/processing/property_calculation/local_executor.py:run")],
  ["calls of the user's calculation and set-up", "the returned results", "the collection before and after"])

p("P22", "Data loader workers together see the node's data once and report where they are",
  "Iterating the training dataset wrappers with any number of loader workers yields each sample of the node's stream exactly once across its workers, in each worker's stream order, and ends when the data ends. "
  "The reported worker positions are, per worker, the number of samples taken from the current chunk, so that a checkpoint made from them continues correctly.",
  ["configurations", "schedules"], "all loader configurations (workers, groups, nodes, prefetch, text or token output) x data sizes x schedules of the worker processes",
  "Tests call the iterator in-process with mocked clients; real worker processes and shared status memory are not exercised by the stable tests.",
  ["mixtera/torch/mixtera_torch_dataset.py", "mixtera/hf/mixtera_hf_dataset.py"],
  [("worker streams", "mixtera/torch/mixtera_torch_dataset.py:__iter__"), ("shared worker status", "mixtera/torch/mixtera_torch_dataset.py:worker_status")],
  ["samples produced by real data loaders and worker status reads"])

p("P23", "Domain keys order totally, hash consistently and match by overlap",
  "The order of domain keys is a strict total order on distinct keys that does not depend on the order in which properties or values were given, and keys that describe the same properties and values hash alike in every process. "
  "A mixture domain matches a data domain exactly if for each property it names the data has that property and they share a value.",
  ["inputs", "configurations"], "all sets of keys over property names and string or numeric values x insertion orders x processes",
  "Tests compare a few pairs; transitivity and agreement of order, hash and text need many keys.",
  [Q+"mixture/mixture_key.py", "mixtera/utils/utils.py"],
  [("matching", Q+"mixture/mixture_key.py:__eq__"), ("ordering", Q+"mixture/mixture_key.py:__lt__"), ("hash", "mixtera/utils/utils.py:hash_dict")],
  ["results of comparisons, sorts and hashes"])

p("P24", "Failures while reading or tokenising surface instead of truncating data",
  "If a sample cannot be read, parsed or tokenised - a missing or damaged file, a failing parsing function, a reader that dies - the consumer of the stream gets an error. "
  "The stream never ends early as if the data were complete, never skips the rest of a file silently and never hangs.",
  ["fault_sequences", "configurations"], "all positions of the failing sample x kinds of failure x reading options (parallel readers, prefetching, windows, token threads)",
  "Tests never inject failures into readers; whether an error in a thread or child process reaches the consumer depends on where it happens.",
  [Q+"result_chunk.py", "mixtera/utils/prefetch_iterator.py", "mixtera/utils/tokenizing_iterator.py", DC+"datasets/jsonl_dataset.py", DC+"datasets/parquet_dataset.py"],
  [("queue-based readers", Q+"result_chunk.py:_get_iterator_for_workload_mt"), ("prefetch thread", "mixtera/utils/prefetch_iterator.py"), ("tokenising thread", "mixtera/utils/tokenizing_iterator.py")],
  ["samples and exceptions seen by the consumer under injected faults"])

p("P25", "Only metadata that fits the declared schema enters the collection",
  "A metadata record is accepted exactly if every property the parser declares as required is given, single-valued properties get one value and values of a restricted property are allowed ones; an offending record makes the registration fail. "
  "Values of accepted records are queryable exactly as given.",
  ["inputs", "programs"], "all parser schemas (types, multiple, nullable, enumerations) x metadata records x files and orders in which they appear",
  "Tests check a few records of the built-in parsers; the rules interact and depend on which sample comes first.",
  [DC+"index/parser/metadata_parser.py", DC+"index/parser/parser_collection.py", DC+"mixtera_data_collection.py"],
  [("record validation", DC+"index/parser/metadata_parser.py:add_metadata"), ("column creation", DC+"mixtera_data_collection.py:_create_or_update_samples_table")],
  ["acceptance of registrations and results of queries on the values"])

p("P26", "A faulty or vanishing client does not disturb the others",
  "Whatever bytes a client sends and whenever it disconnects, the server stays up, answers well-formed requests of other clients correctly, and loses or duplicates no chunk of jobs the faulty client does not belong to. "
  "A request that fails on the server is reported as an error and leaves running jobs intact.",
  ["fault_sequences", "schedules"], "all malformed, partial and abandoned requests at every protocol step x concurrent healthy clients",
  "Tests never open a socket to a running server.",
  ["mixtera/network/server/server.py", "mixtera/network/network_utils.py"],
  [("per-connection dispatch", "mixtera/network/server/server.py:_dispatch_client"), ("timeouts", "mixtera/network/network_utils.py")],
  ["streams of healthy clients while faulty clients interfere"])

p("P27", "The training-loop helpers report once and for the right node",
  "For every layout of ranks exactly the designated processes of a job send feedback, once per call, with the step, losses and counts they were given (in any array type), under the newest mixture their own data stream has received - also after the data has ended. "
  "Every rank takes part in a checkpoint as itself, with the positions of its own workers, all ranks get the same, new checkpoint id, the id file names it, and a helper that was to wait for the disk returns only when the checkpoint is final. "
  "The helpers find the data in loaders, datasets, transformed datasets, generators and objects that hold them; for objects without Mixtera data, invalid steps or directories they have no effect on any job.",
  ["configurations", "schedules", "histories"], "all rank layouts x wrappers and holders x types of reports x arrival orders of the ranks x checkpoints at any step and the end of the data x recovery",
  "Tests mock the client and the search for the dataset, and run one rank at a time.",
  ["mixtera/utils/checkpoint.py", "mixtera/utils/feedback.py", "mixtera/utils/dataset_utils.py", "mixtera/core/client/mixtera_client.py"],
  [("checkpoint rendezvous", "mixtera/utils/checkpoint.py:handle_mixtera_checkpoint"), ("feedback", "mixtera/utils/feedback.py:handle_mixtera_feedback"), ("finding the dataset", "mixtera/utils/dataset_utils.py:_recover_mixtera_dataset")],
  ["calls of the clients of concurrent ranks", "reports arriving at the mixing algorithm", "checkpoint id files and directories"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
