"""Writes properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors={
                       "files": ["src/valori/" + f for f in files],
                       "mechanism": [{"name": n, "where": "src/valori/" + w} for n, w in mech]}),
              technique, level, note))


STORES = ["storage/memory.py", "storage/disk.py", "storage/hybrid.py", "storage/base.py"]
IXS = ["indices/flat.py", "indices/ivf.py", "indices/hnsw.py"]

prop("C01", "Every storage backend is a faithful map from ids to records",
     "After any sequence of store, update, retrieve, delete, list and count calls, a storage backend (memory, disk, "
     "hybrid) holds exactly the records a dictionary would hold after the same calls. Any non-empty string short enough to name a file is a valid id and "
     "distinct ids never share a record, every vector comes back with its values, shape and dtype, and metadata comes back equal; updating or "
     "deleting an unknown id reports that it did nothing.",
     ["histories", "inputs", "configurations"],
     "every operation sequence, every id string, every numeric array and metadata value, every memory limit of the hybrid backend",
     "Tests store a handful of tame ids and short sequences; aliasing of ids, evictions and re-stores in unusual orders are never reached.",
     STORES, [("per-backend record map", "storage/*.py"), ("id to file name encoding", "storage/disk.py"),
              ("memory/disk tiering", "storage/hybrid.py")],
     "stateful model-based PBT against a dict model",
     "Random histories (up to 40 operations) over all three backends compared after every step with a dict; ids include "
     "path syntax, case and unicode look-alikes. Assumes a POSIX file system.")
prop("C02", "Records on disk survive close, reopen and abandonment",
     "After a storage backend that writes to disk (disk, hybrid) is closed and opened again over the same directory, in the same or a new object, it holds exactly "
     "the records it held before. The disk backend also keeps every record of a finished call when the object is abandoned without being closed.",
     ["histories", "configurations"],
     "every operation history interleaved with close/reopen/abandon at any point, over one directory",
     "Tests reopen once after one or two stores; loss depends on what was evicted, updated or deleted between reopenings.",
     STORES[1:3], [("records written at every call", "storage/disk.py"), ("flush of the memory tier at close", "storage/hybrid.py")],
     "stateful model-based PBT with reopen operations",
     "The C01 histories with reopen and abandon steps; the oracle is the dict model carried across sessions.")
prop("C03", "Stored records are isolated from the caller's objects",
     "Changing an array or (nested) metadata object after handing it to a storage backend or to an index (flat, IVF, HNSW, LSH), or changing anything a retrieve, search, list or stats call "
     "returned, never changes what is stored. Nor does storing change the objects the caller handed in.",
     ["histories", "inputs"],
     "every history of calls with in-place changes of every object handed in or out between them",
     "Tests never mutate an argument or a result after the call.",
     STORES[:3] + IXS + ["indices/lsh.py"], [("copies taken on store and on retrieve", "storage/memory.py, indices/*.py")],
     "stateful PBT with alias-scribbling after every call",
     "Every object handed in or out is overwritten in place and the stored state compared with deep copies.")
prop("C04", "A crash or I/O error never corrupts stored records",
     "If the process dies or a file operation fails during a store, update or delete, then after reopening the directory every record not being written is unchanged and the record being written is entirely its old or "
     "entirely its new version (for a first store or a delete: wholly present or absent). Listing, counting and retrieving keep agreeing with each other, and the store keeps working. Through a client with a flat, IVF or HNSW index, what is found stays what is stored, and an insert that fails on one such error leaves none of its rows.",
     ["crash_points", "fault_sequences", "histories"],
     "every file-system operation of every call in the history as the point of a crash (with the write lost or cut short) or of an error",
     "Tests inject no faults at all.",
     ["storage/disk.py", "storage/hybrid.py", "indices/base.py"], [("temporary file and atomic rename", "storage/disk.py"), ("taking back a failed insert", "indices/base.py"), ("eviction order", "storage/hybrid.py")],
     "fault-injection PBT: every file operation of a generated history as crash or error point",
     "A stand-in file layer numbers every file operation (open, write, rename, unlink, ...); each generated history is rerun with a crash, a torn write or an "
     "error at every one of them. Models process crashes, not power loss (no fsync reordering).", "fault_enumeration")
prop("C05", "Flat, IVF and HNSW indices report exactly the live records",
     "After any history of insert, update, delete, search and re-initialise calls on a flat, IVF or HNSW index, searches return only live ids, each at most once, with the true distance (or similarity) to that id's current "
     "vector and its current metadata, in order of increasing distance, never more than k. The vector count, the ids handed out (always new), the return values of update and delete, and the records kept in the storage agree with the same history.",
     ["histories", "configurations", "inputs"],
     "every operation history, index parameters, metric, storage backend, dtype and batch shape",
     "Tests insert one batch and search it once; stale entries, duplicates and wrong distances appear only after updates, deletes, retraining and reopening.",
     IXS, [("search result assembly", "indices/flat.py, ivf.py, hnsw.py"), ("cluster and graph maintenance on update/delete", "indices/ivf.py, hnsw.py")],
     "stateful model-based PBT against a dict plus float64 reference distances",
     "Histories against a dict model; distances recomputed independently in float64 with tolerances derived from the dtype.")
prop("C06", "Flat search and fully probed IVF search return the exact nearest neighbours",
     "A flat index, and an IVF index that probes all its clusters, returns for every query the k live records nearest under the configured metric (all of them if fewer than k), whatever the batch splits, scales, dtypes, memory layouts or ties. "
     "Repeating a search changes nothing, and reordering or splitting the inserts only relabels the answer.",
     ["inputs", "histories", "configurations"],
     "every point set, query, k, metric and insertion order within float tolerance",
     "Tests look at a few random points; ordering errors need ties, extreme scales, zero vectors or k around n.",
     IXS[:2], [("brute-force ranking", "indices/flat.py"), ("per-cluster ranking and merge", "indices/ivf.py")],
     "differential PBT against a float64 brute-force oracle, metamorphic relations",
     "Distances of the returned set are compared with the true k smallest, with a rounding tolerance.")
prop("C07", "IVF search is exact over the probed clusters and finds each stored vector",
     "Every live record of a trained IVF index belongs to exactly one of at most the configured number of clusters; probing more clusters never makes a result worse, and probing all of them, or searching before training, is exact. "
     "With the Euclidean metric, searching for a vector the index stores finds that record with a single probe; records added or updated after training are found that way with the cosine metric too.",
     ["histories", "configurations", "inputs"],
     "every history, cluster count, probe count and metric",
     "Tests use one clean data set; empty clusters, moved vectors and training on few points are not covered.",
     ["indices/ivf.py"], [("assignment and probing", "indices/ivf.py")],
     "metamorphic PBT: probe monotonicity, exactness at full probing, self-recall",
     "Uses search results and published statistics only, never the index's internals.")
prop("C08", "HNSW keeps every live record reachable and finds near neighbours",
     "After any history of inserts, updates and deletes, an HNSW search with a large enough search width returns min(k, n) distinct live records, and every stored vector can be found by searching for it. On ordinary data the average recall against exact search is high.",
     ["histories", "configurations", "inputs"],
     "every history, graph parameter, metric; recall as an average over generated data sets",
     "Tests run a single insertion batch; unreachable nodes appear after deletes of hubs or of the entry point.",
     ["indices/hnsw.py"], [("greedy descent and beam search", "indices/hnsw.py"), ("link repair on delete and update", "indices/hnsw.py")],
     "stateful PBT with graph invariants and measured recall against exact search",
     "Recall threshold 0.75 (the current tree reaches well above 0.9 on each generated set).")
prop("C09", "A collection on disk can be reopened by any client and index type",
     "Records left in a data directory by one client are exactly what the next client sees, whatever index type (flat, IVF, HNSW), metric, parameters or backend (disk, hybrid) each of them uses and whether the earlier one closed or re-initialised. "
     "Records put into the storage directly join the collection when it is reopened, and ids never collide.",
     ["histories", "configurations"],
     "every chain of sessions with any configuration each",
     "Tests never reopen a collection with another index, and hardly ever reopen one at all.",
     ["client.py"] + IXS + STORES[1:3], [("index rebuilt from storage at initialise", "indices/*.py initialize"), ("lifecycle", "client.py")],
     "model-based PBT over chains of sessions",
     "Chains of 2-5 sessions; LSH and Annoy, which never write to their storage, are listed as known findings.")
prop("C10", "LSH index answers consistently with its live records",
     "After any history, an LSH search returns only live records, each once, with the true similarity of the query to the record's current vector, at or above the threshold, best first and at most k; thresholds only filter and k only truncates. "
     "With one seed, the answer depends only on the records held, not on how they were inserted, and searching for a stored vector finds it.",
     ["histories", "configurations", "inputs"],
     "every history, table/hash/projection count, metric, threshold, k",
     "Tests insert once and check result sizes.",
     ["indices/lsh.py"], [("hash tables and candidate scoring", "indices/lsh.py")],
     "stateful model-based PBT with metamorphic relations",
     "Dict model plus recomputed scores; determinism compared against a freshly built index.")
prop("C11", "Annoy index answers consistently with its live records",
     "After any history of insert, build, update, delete, clear, save and load, an Annoy search returns only live records, each once, with the right distance to the record's current vector, nearest first and at most k. "
     "A stored vector is found by searching for it, and a saved index loaded elsewhere answers the same.",
     ["histories", "configurations", "inputs"],
     "every history, tree count, metric, k",
     "Tests build once; edits after the build and reloading are not covered.",
     ["indices/annoy.py"], [("tree rebuild after edits", "indices/annoy.py"), ("id mapping", "indices/annoy.py")],
     "stateful model-based PBT against a dict model",
     "Uses the real annoy library; float32 tolerances.")
prop("C12", "A refused index call leaves the collection unchanged",
     "When an index refuses a call (wrong dimension or rank, NaN or infinity, mismatched metadata count, empty or non-numeric input, unknown id, bad k) it raises one of the library's errors or reports False, and every later answer is what it would have been without that call. "
     "No accepted call leaves behind a vector that makes later searches fail.",
     ["histories", "inputs"],
     "every malformed argument at every point of every history, for every index type",
     "Tests check that an error is raised, never the state afterwards.",
     ["indices/flat.py", "indices/ivf.py", "indices/hnsw.py", "indices/lsh.py", "indices/annoy.py"],
     [("validation before mutation", "indices/*.py insert/update")],
     "stateful PBT with malformed calls interleaved, compared with the model",
     "Malformed calls are drawn from fixed classes of bad shapes, values and types.")
prop("C13", "Saved vectors, metadata and index states load back as saved",
     "What a persistence manager saved last under a path is what it loads: vectors with their values, dtype and ids in order, metadata and index state equal, whatever the compression. The incremental manager restores the state saved last, "
     "however many operations or checkpoints lie between and however often the directory was reopened by new managers.",
     ["histories", "inputs", "configurations"],
     "every sequence of saves, loads, checkpoints and reopenings; every id, dtype and JSON metadata",
     "Tests do one round trip of one random array.",
     ["persistence/tensor.py", "persistence/incremental.py", "persistence/base.py"],
     [("npz/JSON/pickle formats", "persistence/tensor.py"), ("change log and checkpoints", "persistence/incremental.py")],
     "stateful round-trip PBT against a model of files",
     "Covers the tensor and incremental managers on one machine and library version.")
prop("C14", "A crash or I/O error during a save keeps the previous saved version",
     "If the process dies or a file operation fails while a persistence manager saves, logs or checkpoints anything, then what had been saved before still loads, and the path being written loads as entirely the old or entirely the new version. "
     "Later saves work and lose nothing.",
     ["crash_points", "fault_sequences", "histories"],
     "every file-system operation of every save in the history as crash or error point",
     "Tests inject no faults.",
     ["persistence/tensor.py", "persistence/incremental.py", "persistence/base.py"],
     [("temporary file and atomic replace", "persistence/base.py"), ("log append and torn-line handling", "persistence/incremental.py")],
     "fault-injection PBT: every file operation of a generated history as crash or error point",
     "As C04: process crashes, torn writes and errors at every numbered file operation; not power loss.", "fault_enumeration")

prop("C15", "Every component works exactly between initialize and close",
     "Under any order of initialize, close and public operations, every component (client, storages, indices, quantizers, persistence managers, processors, parsers) works between initialize and close, refuses work before initialize and after close with a library error that leaves records and files as they were, "
     "and close may be repeated. Initializing again neither loses the records of persistent components nor leaves a half-initialized component; initialization that fails leaves nothing usable or open, and can be retried.",
     ["histories", "configurations"],
     "every order of lifecycle calls and operations over every component and client configuration",
     "Tests initialize once, work, and close once.",
     ["client.py", "storage", "indices", "quantization", "persistence", "processors", "parsers"],
     [("client set-up and tear-down", "client.py initialize, close"), ("component states", "indices, storage, persistence _initialized flags")],
     "stateful model-based PBT",
     "Whether memory storage and quantizers start over on a second initialize is not judged (their code resets on purpose); only partial states are.")
prop("C16", "Scalar quantization stays within half a step and keeps order",
     "For every training set, bit width, and batch within the trained range, dequantize(quantize(v)) lies within half a quantization step of v in every dimension, out-of-range values saturate at the ends, and codes are monotone in the value and always valid. "
     "Encoding a vector alone, in a batch, or after re-training or re-initialising gives the same code; malformed or untimely calls raise a library error and change nothing.",
     ["inputs", "configurations", "histories"],
     "every training set, dtype, bit width, vector",
     "Tests use one random array and only check shapes and loose error.",
     ["quantization/scalar.py"], [("step and offset", "quantization/scalar.py train"), ("rounding and clipping", "quantization/scalar.py quantize")],
     "PBT against an independent reference of the quantization grid",
     "Constant dimensions have no range, so out-of-range values there are not judged; float tolerances at 52 bits and above.")
prop("C17", "Product quantization encodes by the nearest codeword of each part",
     "For every training set, split and codebook size, each subvector is encoded by a codeword at least as near as any other in use, so training data decodes no worse than its mean, and a training set no larger than the codebook decodes exactly. "
     "Reported distances equal the distance to the decoded vector; encoding is independent of batch and earlier training; malformed or untimely calls raise a library error and change nothing.",
     ["inputs", "configurations", "histories"],
     "every training set, dtype, number of parts, codebook size",
     "Tests use one random array and only check shapes.",
     ["quantization/product.py"], [("codebooks", "quantization/product.py train"), ("nearest codeword", "quantization/product.py quantize")],
     "PBT with metamorphic relations and a recomputed nearest-codeword oracle",
     "Codewords are observed through decode only; extreme magnitudes (float32 overflow) and more than 65536 codewords are not generated.")
prop("C18", "SAQ spends its bits, encodes nearest, and rescores exactly",
     "For every training set, SAQ partitions the dimensions into the configured segments, gives each at least one bit and all bits out, encodes each segment by its nearest codeword, and decodes training data no worse than its mean. "
     "Search with rescoring returns the best of the candidates by exact cosine distance, each once, ascending, at most k; encoding is independent of batch and earlier training; malformed or untimely calls raise a library error and change nothing.",
     ["inputs", "configurations", "histories"],
     "every training set, dtype, bit budget, segment count, rescoring depth, k",
     "Tests use one random array per feature.",
     ["quantization/saq.py"], [("segmentation and bits", "quantization/saq.py _segment_and_allocate_bits"), ("rescoring", "quantization/saq.py search_with_rescoring")],
     "PBT with metamorphic relations and recomputed distances",
     "Nearest-codeword is judged among codewords observed in use, with float32 tolerances in standardised units.")

prop("C19", "Similarity and distance functions compute their defined value",
     "For every pair of same-length vectors of any numeric dtype, scale and memory layout, each similarity and distance function returns its mathematical value "
     "up to float precision, is symmetric, stays in its range, and agrees with its squared, distance or batch counterpart; normalize_vector returns a vector of norm 1 in the same direction and leaves zero alone. "
     "Inputs are never changed; vectors of different length or rank and an unknown norm are refused with an error.",
     ["inputs"],
     "every pair of vectors, dtype mix, magnitude",
     "Tests compare a few unit-scale float vectors; overflow of narrow dtypes and underflow of short vectors need values they do not use.",
     ["utils/similarity.py"], [("all measures", "utils/similarity.py")],
     "differential PBT against exact rational arithmetic",
     "Relative tolerance of the result dtype; magnitudes within 1e-100..1e100.")
prop("C20", "Helpers over sets of vectors agree with the pairwise definitions",
     "For every set of vectors, normalize_vectors, compute_similarity_matrix and find_duplicates give exactly what the pairwise definitions give: rows of norm 1 (or the stated scaling), the similarity of every pair, and groups in which each vector joins the first one not yet grouped that is at least as similar as the threshold; batch_search returns one result list per query, equal to searching it alone, whatever the batch size. "
     "The measuring helpers and decorators call what they measure exactly once per measurement, hand through its result and exceptions, and leave the index as it was apart from the vectors inserted.",
     ["inputs", "configurations"],
     "every set of vectors, dtype, threshold, batch size, index kind",
     "Tests check shapes on random unit-scale data.",
     ["utils/helpers.py"], [("normalization and matrices", "utils/helpers.py normalize_vectors, compute_similarity_matrix"), ("duplicates", "utils/helpers.py find_duplicates"), ("batching", "utils/helpers.py batch_search")],
     "differential and metamorphic PBT against pairwise float64 computation",
     "Pairs within float tolerance of the threshold are not judged.")
prop("C21", "Vectors saved to a file load back unchanged",
     "For every array of vectors, metadata list and format (numpy, pickle, json), load_vectors_from_file returns what save_vectors_to_file was given: values, shape, dtype and metadata. "
     "An unknown format raises ValidationError; a missing or cut off file raises an error and never loads as something else; loading never changes the file.",
     ["inputs", "configurations"],
     "every array, dtype, shape, metadata, path and format",
     "Tests save one small float array per format.",
     ["utils/helpers.py"], [("formats", "utils/helpers.py save_vectors_to_file, load_vectors_from_file")],
     "round-trip PBT", "JSON metadata is limited to JSON values with string keys.")
prop("C22", "Validators accept exactly the valid values",
     "Each validator returns True for every value that meets its documented constraints and raises ValidationError (and nothing else) for every other value, "
     "whatever its type, shape, dtype or content; it never changes the value. Non-finite, non-numeric, empty and, where forbidden, zero vectors are refused.",
     ["inputs"],
     "every argument of any type",
     "Tests try one good and a few bad values; the border cases come from types and special floats.",
     ["utils/validation.py"], [("all validators", "utils/validation.py")],
     "differential PBT against an independent verdict",
     "Booleans given for numbers are not judged.")
prop("C23", "Chunking covers the text with genuine stretches of it",
     "For every text and configuration, each chunk is the stripped text between its start and end positions, chunks come in text order with ascending ids, within the configured sizes, overlapping by no more than configured, and end at a separator where one fits; together they contain all of the text except what is too short to be a chunk. "
     "Sliding windows start at every step; a paragraph that fits is whole in some semantic chunk. The same text always chunks the same, the document handed in is not changed, and unusable configurations and documents raise a library error.",
     ["inputs", "configurations"],
     "every text, strategy, chunk size, overlap, minimum, maximum and separator list",
     "Tests chunk one ordinary paragraph; lost, repeated or misplaced text shows only for particular separators and sizes.",
     ["processors/chunking.py"], [("three strategies", "processors/chunking.py")],
     "PBT with coverage and position invariants against the source text",
     "Text below the minimum chunk size may be dropped; its extent is judged only where the minimum is well below the chunk size.")
prop("C24", "Text files are read completely and in their encoding",
     "For every text file the parser supports, in UTF-8 (with or without byte order mark), in a configured encoding or in one the encoding detector recognises, the parsed text is the file's content, and the metadata and structure count it correctly; "
     "its chunks are genuine stretches that cover the text, within the chunk size and overlapping as configured. Files that are missing, too large or of another format raise ParsingError, parsing is repeatable, and the file is not changed.",
     ["inputs", "configurations"],
     "every file content, encoding, extension, chunk size and overlap",
     "Tests parse one ASCII file; detection goes wrong on short or unusual UTF-8, chunks on particular line lengths.",
     ["parsers/text_parser.py", "parsers/base.py"], [("decoding", "parsers/text_parser.py parse"), ("chunks", "parsers/text_parser.py _create_chunks")],
     "round-trip and invariant PBT over generated files",
     "Files in other encodings than UTF-8 are judged when the encoding is configured, or when chardet, given the whole file, recognises it.")
prop("C25", "Office and PDF documents give back their text, structure and chunks",
     "For every Word document, workbook, presentation or PDF file, the parsed text holds every non-empty paragraph, row, slide or page in order, and metadata, tables and structure report what the document contains. "
     "Chunks are genuine stretches that cover the text, overlap as configured, and name the page they start on. Truncated, foreign, missing or too large files raise ParsingError; parsing is repeatable.",
     ["inputs", "configurations"],
     "every document, chunk size, overlap and size limit",
     "Tests use no generated office or PDF documents at all.",
     ["parsers/office_parser.py", "parsers/pdf_parser.py"], [("extraction", "parsers/office_parser.py, parsers/pdf_parser.py parse"), ("page attribution", "parsers/pdf_parser.py _get_page_for_position")],
     "round-trip PBT over generated documents",
     "Documents are written with python-docx, openpyxl, python-pptx and a minimal PDF writer; PDF text is ASCII.")

prop("C26", "Cleaning removes exactly what its options say and nothing else",
     "For every document and combination of options, the cleaned text and each cleaned chunk are the original after exactly the enabled steps (markup and entities, Unicode normalization, special characters, whitespace, lower case, stopwords with word length limits) in that order; "
     "characters of any script that no enabled step removes survive, in order. Other fields of the document are kept, the document handed in is not changed, and cleaning is repeatable.",
     ["inputs", "configurations"],
     "every text in any script, with any markup, and every combination of options",
     "Tests clean one English sentence per option; text is lost only for particular characters or pairs of options.",
     ["processors/cleaning.py"], [("steps", "processors/cleaning.py")],
     "differential PBT against an independent step-by-step reference",
     "Angle brackets that are neither tags nor entities, and word length limits without stopword removal, are not judged.")
prop("C27", "The parser registry resolves every file to the right parser at any time",
     "After any history of adding, replacing, removing and re-prioritizing parsers, closing and initializing, the registry gives a path to the supporting parser of highest priority, or to none, independent of case; "
     "its lists of parsers and formats agree with that, a parser asked for by name is the one used, and adding one that fails leaves the registry as it was. Files that nothing supports, unknown names and use before initialization raise a library error.",
     ["histories", "configurations"],
     "every history of registry changes, every path and every subset of parsers",
     "Tests register the defaults once.",
     ["parsers/registry.py", "parsers/base.py"], [("resolution and priorities", "parsers/registry.py")],
     "stateful model-based PBT", "The document library Docling is not installed, so its parser is only exercised as one that fails to initialize.")
prop("C28", "Every text gets its own model's embedding, cached or not",
     "Whatever was embedded before, and whatever callers did to arrays they got back, the embedding processor gives each text and chunk the vector its model gives that text (scaled to norm 1 when normalizing, zero staying zero), alone or in a batch, with or without the cache. "
     "Blank texts give zero vectors of the model's dimension, statistics count texts and cache hits truthfully, documents handed in are not changed.",
     ["histories", "inputs", "configurations"],
     "every history of documents, batches and cache operations, every model dimension and setting",
     "Tests need model packages that are not there; cached answers go wrong only after particular histories.",
     ["processors/embedding.py"], [("cache", "processors/embedding.py"), ("batching", "processors/embedding.py process_batch")],
     "stateful model-based PBT over stand-in models",
     "Models are deterministic stand-ins with the interfaces of sentence-transformers and the OpenAI client; the HuggingFace interface needs torch, which is not installed.")
prop("C29", "Batch operations do what the same calls one by one would do",
     "A batch manager inserts each row of a call once, whatever the batch size, number of workers and order in which batches finish: ids come back in row order, each id holding its own vector and metadata, and rows of refused batches are not inserted but reported as failed. "
     "Batch search answers each query as a single search does; progress, statistics and callbacks of every operation account for each item once; the progress tracker and resource monitor report what they were told.",
     ["histories", "schedules", "inputs"],
     "every set of rows, refused rows, batch sizes, worker counts and finishing order of batches",
     "Tests run one small batch in order; ids are permuted and counts doubled only when batches overtake each other or operations follow one another.",
     ["utils/batch_manager.py", "client.py"], [("batch splitting and ids", "utils/batch_manager.py"), ("client operations under one lock", "client.py")],
     "stateful model-based PBT with generated delays per batch",
     "Schedules are steered by generated delays in the storage layer, not enumerated.")
prop("C30", "The pipeline is the composition of its configured stages",
     "For every subset of stages and parsers, processing a file or text gives what its parser, cleaning, chunking and embedding with the configured options give when applied in that order, each stage once, also after initializing again. "
     "A batch gives each file, in order, its single result or, where it cannot be processed, its error; create_vectors_from_files and create_vectors_from_text give one embedding and one metadata entry per processable file or text, in order.",
     ["inputs", "configurations", "histories"],
     "every stage and parser configuration, file, text and batch with failing members",
     "Tests run one default configuration.",
     ["processors/pipeline.py", "utils/helpers.py"], [("stages", "processors/pipeline.py"), ("vectors from files", "utils/helpers.py")],
     "differential PBT against separately applied stages", "The embedding model is a deterministic stand-in.")
prop("C31", "Factories, templates and named configurations give the database they promise",
     "Every factory function, template, recommendation and named configuration gives, for all size hints, use cases and overrides, the documented index and storage type with defaults overlaid by the given settings, and the component it creates really uses them. "
     "What is handed out can be changed without changing what later callers get; a database created over a corpus of vectors, texts or documents holds and finds exactly that corpus.",
     ["inputs", "configurations", "histories"],
     "every combination of size hints, use case, overrides, template and corpus",
     "Tests call the factories with one or two sizes and check the type of the result.",
     ["factory.py", "configs.py"], [("recommendation", "factory.py"), ("named configurations", "configs.py")],
     "model-based PBT against a table of the documented choices",
     "Empty corpora, and what remains of a template's settings when its index type is overridden, are not judged.")
prop("C32", "Analysis, inspection, profiling and logging report what happened, once",
     "For every set of vectors the analysis reports their true counts, norms, sparsity, zero, constant and non-finite rows and pairwise similarities; for every history an inspected index is described as it is; profilers and decorators account for each call once, with its result or exception passed through unchanged. "
     "After any number of logging set-ups a message is logged once per target if its level asks for it. None of it changes what it looks at.",
     ["inputs", "histories"],
     "every set of vectors, history of an index, call and logging set-up",
     "Tests analyse one random matrix and configure logging once.",
     ["utils/debugging.py", "utils/logging.py"], [("vector analysis and inspection", "utils/debugging.py"), ("logging set-up", "utils/logging.py")],
     "PBT against independent reference computations",
     "Analysis of float16 vectors and of single one-dimensional vectors, and stand-alone loggers nested in one another, are not judged.")
prop("C33", "Operations from several threads behave as if done one after another",
     "Whatever the schedule of the threads using one client or one memory or hybrid storage, the results of all operations and the final contents are those of some sequential order that respects which operations finished before others began; no operation fails or is half visible because another runs.",
     ["schedules", "histories"],
     "every interleaving of the library's lines under concurrent inserts, updates, deletes, searches and listings",
     "Tests are single-threaded, or hit a race by luck; the schedule here is generated, replayable and shrinks.",
     ["client.py", "storage/memory.py", "storage/hybrid.py"], [("one lock per client", "client.py"), ("storage locks", "storage/memory.py, storage/hybrid.py")],
     "PBT over generated thread schedules with a linearizability oracle",
     "Threads change only between lines of the library; races inside one line are not explored.")
# MORE

NOT_APPLICABLE = []

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
na = {d["property"] for d in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{"property": d["id"], "quick_cmd": "./run.sh " + d["id"],
                 "thorough_cmd": "./run.sh %s --thorough" % d["id"],
                 "evidence_file": "evidence/%s.json" % d["id"],
                 "technique": t, "level": lv, "level_note": n} for d, t, lv, n in P if d["id"] not in na],
     "not_applicable": NOT_APPLICABLE}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
