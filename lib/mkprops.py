#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "Stored data come back byte for byte",
     "Every item acquired by a dataset or appended to a segment is later returned with exactly the bytes and metadata it was given, whatever the segment layout (concatenated file, lines, directory, tar, zip, gzip), the way it is read (per item, streamed, as a whole query) and the number of import sessions. Reading one item never depends on or alters another, and a read which cannot return the item's bytes reports an error instead of other bytes.",
     ["inputs", "histories", "configurations"],
     "every format, segment layout, group size, item size (including one byte and larger than all internal buffers), number of items and number of append sessions",
     "The segment and dataset tests need DB-All.e and do not run here, and where they run they use three fixed messages per format; sizes at buffer and block boundaries, many sessions and compressed group boundaries are not sampled.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/gz.cc", "arki/types/source/blob.cc", "arki/metadata.cc", "arki/utils/compress.cc"],
     [("offset/size bookkeeping of appended data", "arki/segment/data/fd.cc Writer::append"), ("per-item files and sequence counter", "arki/segment/data/dir.cc"), ("seek index lookup", "arki/utils/compress.cc SeekIndexReader::read")],
     [("Blob source", "file, offset and size of one item", "arki/types/source/blob.h")],
     ["arki::segment::data::Reader::read", "arki::Metadata::get_data", "arki::dataset::Reader::query_bytes"])

prop("C02", "A failed import leaves the dataset as it was",
     "When storing an item or a batch fails part-way (I/O error, disk full, transaction abandoned, item rejected), everything committed before is still there unchanged, nothing of the failed batch is visible in queries or summaries unless its acquisition was reported as successful (or its data had been stored and a later check finds them), and a later import and a check succeed without manual cleanup of temporary files. This excludes datasets configured with eatmydata.",
     ["fault_sequences", "histories", "configurations"],
     "every failing system call of the import path, for each dataset kind, segment layout and format",
     "Tests inject at most one hand-picked failure; the property quantifies over every call that may fail and over what happens next.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/core/transaction.h", "arki/dataset/iseg/writer.cc", "arki/dataset/simple/writer.cc", "arki/segment/metadata.cc", "arki/segment/iseg/index.cc"],
     [("commit/rollback of pending appends", "arki/segment/data/fd.cc Writer::commit/rollback"), ("index transaction", "arki/segment/iseg/index.cc")],
     [], ["arki::dataset::Writer::acquire_batch", "results of query_data after the fault", "arki::dataset::Checker::check"])

prop("C03", "A crash during import loses no committed data",
     "If the process is killed at any point while importing, all data whose import had been reported as completed stay readable and unaltered; after check with fixing the dataset is consistent, accepts new imports, and every item of the interrupted batch is either entirely there or entirely absent. In datasets without an index (type=simple), segments that were being appended to may be skipped by queries until that check. This excludes datasets configured with eatmydata.",
     ["crash_points", "histories", "configurations"],
     "kill after any file-system operation issued by an import, for each dataset kind, segment layout and starting state",
     "No test kills the importer; there are hundreds of intermediate on-disk states per import.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/segmented.cc"],
     [("data are written and synced before index or metadata commit", "arki/dataset/iseg/writer.cc"), ("manifest flagged dirty while writing", "arki/dataset/simple/manifest.cc")],
     [("needs-check flag", "marks a dataset as possibly inconsistent", "arki/dataset/simple/manifest.cc")],
     ["on-disk dataset after each crash", "arki::dataset::Checker::check", "query_data"])

prop("C04", "A crash during maintenance loses no data",
     "If the process is killed at any point during check with fixing, repack, reindex, conversion to tar/zip/gzip or archival, no item that was in the dataset before is lost or altered: after check with fixing, a query returns exactly the items which were there before, apart from those the operation was asked to delete, and from data deleted before and not yet repacked, which can be found again if their index was being rebuilt. This excludes datasets configured with eatmydata.",
     ["crash_points", "histories", "configurations"],
     "kill after any file-system operation issued by each maintenance operation, for each dataset kind, segment layout and dataset condition",
     "Maintenance rewrites data in place; tests only look at states between complete operations.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/archive.cc", "arki/utils/rearrange.cc"],
     [("repack into a temporary file, then rename", "arki/segment/data/fd.cc Checker::repack"), ("order of data replacement and index commit", "arki/dataset/iseg/checker.cc")],
     [], ["on-disk dataset after each crash", "query_data after check with fixing"])

prop("C05", "Repack and conversion keep every item, in order",
     "Repacking a dataset or converting segments to tar, zip or gzip keeps exactly the items the dataset had, with the same bytes and metadata, leaves them readable, and leaves each repacked segment without gaps and in reference time order. Repacking again changes nothing.",
     ["histories", "configurations", "inputs"],
     "every history of imports, replacements and removals followed by any sequence of repack and conversion operations, for each dataset kind and layout",
     "Unit tests repack one canned dataset; they do not chain operations, nor run here.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc"],
     [("rewrite in sorted order with new offsets", "arki/segment/data.cc"), ("reindex of new offsets", "arki/dataset/iseg/checker.cc reorder")],
     [], ["query_data and data bytes before and after"])

prop("C06", "Check reports exactly the damage that is there",
     "A dataset produced by completed operations checks clean, and any damage to it (segment removed, truncated, with overwritten or extra bytes, holes left by removals, segment present on disk but not known, index or metadata removed or older than the data) makes check report the segment concerned in a state which is not clean.",
     ["histories", "fault_sequences", "configurations"],
     "every history of completed operations, every kind of damage at every segment, quick and accurate checks",
     "Damage kinds times segment layouts times dataset kinds times histories are beyond a fixed set of examples.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/gz.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc"],
     [("segment fsck", "arki/dataset/iseg/checker.cc, arki/dataset/simple/checker.cc"), ("data check", "arki/segment/data.cc")],
     [("segment state", "bit set of problems", "arki/segment/defs.h")], ["dataset reporter callbacks"])

prop("C07", "Read-only operations do not modify a dataset",
     "Queries, summaries, checks without fixing and simulated repack, remove or archive operations leave the content of every data, index and metadata file of a dataset unchanged, and report what the real operation would then do.",
     ["histories", "configurations"],
     "every dataset condition (clean or damaged) and every read-only operation",
     "Tests look at reports, not at the whole tree of files before and after.",
     ["arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/archive.cc"],
     [("mock operations when read only", "arki/dataset/maintenance.cc"), ("opts.readonly guards", "arki/dataset/segmented.cc")],
     [], ["file tree before and after", "dataset reporter callbacks"])

prop("C08", "Fixing converges and does not lose readable data",
     "Unless check asks for manual intervention, after check with fixing followed by repack a further check reports nothing wrong and nothing left to do; every item which was queryable and whose data were intact is still queryable, and intact data found in segments that the index had lost are queryable again.",
     ["histories", "fault_sequences", "configurations"],
     "every damage at every segment of every dataset condition, followed by fix and repack",
     "It is a property of sequences of operations from damaged states; tests exercise single steps.",
     ["arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/maintenance.cc", "arki/dataset/segmented.cc"],
     [("check fixer and repacker", "arki/dataset/maintenance.cc")],
     [], ["check reports, query_data"])

prop("C09", "Uniqueness and replacement follow the configured policy",
     "In an indexed dataset with unique fields, two items with the same values of those fields are never both present; importing a duplicate is refused and reported as such with the default policy, replaces the old one with the 'yes' policy, and with the update sequence number policy replaces it only if its update sequence number is not lower. A replaced item is no longer returned nor counted.",
     ["inputs", "histories", "configurations"],
     "every sequence of imports with colliding keys, single or in batches, for every choice of unique and index fields and every policy",
     "Unit tests try one collision of each kind; key combinations with missing fields and batches mixing outcomes are not covered.",
     ["arki/segment/iseg/index.cc", "arki/segment/iseg/index/aggregate.cc", "arki/segment/iseg/index/attr.cc", "arki/dataset/iseg/writer.cc"],
     [("UNIQUE constraint and insert/replace queries", "arki/segment/iseg/index.cc"), ("acquire by policy", "arki/dataset/iseg/writer.cc")],
     [], ["acquire results", "query_data, query_summary"])

prop("C10", "Queries return exactly the matching data",
     "For every dataset kind a query returns exactly once each stored item that matches the expression and nothing else, so that querying a dataset gives the same items as filtering all of its items one by one; indexes, manifests, segment time spans and summaries used to skip data never change the answer.",
     ["inputs", "histories", "configurations"],
     "every expression, dataset content, index configuration and segment step",
     "Test queries are few and their expressions do not combine alternatives in time with index and manifest shortcuts.",
     ["arki/dataset/iseg/reader.cc", "arki/dataset/simple/reader.cc", "arki/dataset/simple/manifest.cc", "arki/segment/iseg/index.cc", "arki/segment/iseg/index/aggregate.cc", "arki/dataset/archive.cc", "arki/dataset/step.cc", "arki/matcher.cc"],
     [("translation of expressions to SQL", "arki/segment/iseg/index.cc add_joins_and_constraints"), ("interval shortcuts", "arki/matcher.cc intersect_interval")],
     [], ["query_data"])

prop("C11", "Query results come in the requested order",
     "Query results come in the requested sort order, or in reference time order within each segment when none was requested; sorting by interval groups data of the same interval and orders them by the given keys. When the consumer asks to stop no more items are delivered and the query says it was stopped.",
     ["inputs", "configurations"],
     "every sort specification, item sequence and stop position",
     "The sort tests use handmade sequences; stop positions and interactions with segment boundaries are not explored.",
     ["arki/metadata/sort.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/simple/reader.cc", "arki/dataset/merged.cc", "arki/segment/iseg/index.cc"],
     [("stream sorter", "arki/metadata/sort.cc Stream"), ("comparator", "arki/metadata/sort.cc")],
     [], ["query_data consumer calls and return value"])

prop("C12", "Summaries always describe the current data",
     "At every point of a dataset's life the summary of a query has exactly the combinations of metadata of the matching items, with their number, total size and first and last reference time; caches never make it differ from the summary computed from the items.",
     ["histories", "inputs", "configurations"],
     "every history of imports, removals, repacks, archivals, deletions and summary queries, with every expression",
     "A stale cache needs a specific order of summary query and change; unit tests look at fresh datasets.",
     ["arki/dataset/index/summarycache.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/simple/reader.cc", "arki/segment/iseg/index.cc", "arki/summary.cc"],
     [("cache invalidation", "arki/dataset/index/summarycache.cc invalidate"), ("summary files alongside segments", "arki/segment/metadata.cc")],
     [("summary cache", "monthly and total cached summaries", ".summaries in a dataset")], ["query_summary"])

prop("C13", "Archival and ageing touch only data that are old enough",
     "Archiving moves whole segments all of whose data are older than the configured age into the archives, where they stay queryable through the dataset with the same content; deletion by age removes only segments whose data are all older than the configured age, and importing data into the past or querying never loses them.",
     ["inputs", "histories", "configurations"],
     "every current time, age, step and distribution of data, including ages at the exact boundary",
     "Tests use one age and one date; boundaries and repeated archival are not covered.",
     ["arki/dataset/archive.cc", "arki/dataset/segmented.cc", "arki/dataset/simple/checker.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/maintenance.cc", "arki/dataset/step.cc"],
     [("age threshold", "arki/dataset/segmented.cc archive_age/delete_age")],
     [], ["query_data, file tree after repack"])

prop("C14", "Each item belongs to exactly one segment of its step",
     "For every step, the segment a reference time is stored in is a function of the time whose span contains that time; spans of distinct segments do not overlap, consecutive spans leave no hole, and the span computed from the name of a segment is that same span. A time range query looks at every segment whose span intersects the range.",
     ["inputs", "configurations"],
     "every reference time and every step",
     "Tests check a few dates per step; month, year, leap day and week boundaries are where the mapping may fail.",
     ["arki/dataset/step.cc", "arki/dataset/step.h", "arki/dataset/segmented.cc"],
     [("path generation and parsing", "arki/dataset/step.cc")],
     [], ["Step::operator(), path_timespan, time_explore"])

prop("C15", "Dispatch stores each item exactly once, in the right place",
     "Dispatching stores each incoming item in the only dataset whose filter matches it, once per outbound dataset that matches it, in the duplicates dataset if refused as a duplicate and otherwise in the error dataset: no item is lost, none is stored twice, the input file is not altered, and the reported outcomes match what is stored.",
     ["inputs", "histories", "configurations"],
     "every dataset configuration (none, one or many matching filters, outbound, duplicates, error, discard), batch composition and failing dataset",
     "Dispatcher tests cannot run here, and use three items and three datasets.",
     ["arki/dispatcher.cc", "arki/dataset/pool.cc", "arki/dataset/outbound.cc", "arki/dataset/empty.cc", "arki/metadata/validator.cc"],
     [("matching and routing of batches", "arki/dispatcher.cc Dispatcher::dispatch")],
     [], ["content of all datasets after dispatch", "batch element results"])

prop("C16", "A merged dataset behaves as the union of its parts",
     "Querying several datasets as one returns each item of each part exactly once, in the requested order if each part can produce it, and summaries are the sum of those of the parts. When the consumer asks to stop, nothing more is delivered and the query ends, reporting that it was stopped; when a part or the consumer fails, the query ends with an error. None of this deadlocks, crashes or races.",
     ["schedules", "inputs", "configurations"],
     "every number of parts, interleaving of their threads, stop position and failing part",
     "Thread interleavings and cancellation points are not controlled by tests, which merge three items.",
     ["arki/dataset/merged.cc", "arki/metadata/collection.cc", "arki/dataset/session.cc", "arki/dataset/pool.cc"],
     [("synchronised buffers and reader threads", "arki/dataset/merged.cc")],
     [], ["query_data on a merged dataset; ThreadSanitizer"])

prop("C17", "Concurrent readers, writers and maintenance are isolated",
     "With any mix of processes querying, importing into, checking and repacking the same dataset, each item returned by a query has exactly its own bytes, items imported before a query started are in its answer, every item reported as imported is in the final dataset exactly once unless it has been replaced or removed, summaries count no less and no more, and the final dataset checks clean.",
     ["schedules", "histories", "configurations"],
     "every interleaving of concurrent processes on one dataset, for each dataset kind and lock-relevant operation",
     "The tests of locks check single pairs; races between rewriting and reading need many interleavings.",
     ["arki/core/lock.cc", "arki/dataset/lock.cc", "arki/dataset/local.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/reader.cc", "arki/dataset/simple/checker.cc", "arki/segment/data/fd.cc"],
     [("dataset and segment locks", "arki/dataset/lock.cc, arki/core/lock.cc")],
     [], ["history of calls and results of each process"])

prop("C18", "Metadata survive every encoding",
     "Encoding metadata and decoding them gives equal metadata: binary streams, files and bundles (with inline data, url and blob sources, notes), compressed groups, JSON and Yaml, whatever the values (for Yaml, values without line breaks, comments or spaces at their ends), and reading a stream in pieces of any size gives the same sequence. A stream cut short gives an error or the metadata that precede the cut, never altered ones.",
     ["inputs"],
     "every combination of metadata types, styles and values, sources and notes, and every way of splitting the byte stream",
     "Unit tests encode one example per style; value ranges, odd strings and stream splits are unbounded.",
     ["arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc", "arki/metadata/collection.cc", "arki/types/bundle.cc", "arki/types/values.cc", "arki/structured/json.cc", "arki/structured/memory.cc", "arki/utils/yaml.cc", "arki/types/source.cc"],
     [("encode/decode of each type", "arki/types/*.cc"), ("bundle framing", "arki/types/bundle.cc")],
     [], ["Metadata::encodeBinary / read_binary_inner / write / to_yaml / serialise"])

prop("C19", "Metadata values have one consistent order and identity",
     "For each metadata type comparison is a total order consistent with equality: values are equal exactly when they compare as equal, and values with the same string or binary form are equal. Decoding the string, binary or structured form gives back an equal value (within the precision the text form keeps). Sets, sorts, unique keys and summaries therefore treat values alike wherever they are stored.",
     ["inputs"],
     "all pairs and triples of values of every type and style",
     "Tests compare a handful of handpicked values; transitivity and agreement between comparison, equality and encodings need pairs and triples.",
     ["arki/types.cc", "arki/types/origin.cc", "arki/types/product.cc", "arki/types/level.cc", "arki/types/timerange.cc", "arki/types/area.cc", "arki/types/proddef.cc", "arki/types/quantity.cc", "arki/types/values.cc", "arki/types/source/blob.cc", "arki/types/reftime.cc"],
     [("compare, equals and encode of each type", "arki/types/*.cc")],
     [], ["Type::compare, equals, encodeBinary, operator<<, decodeString"])

prop("C20", "Expressions match exactly what the language says",
     "Matching an expression against metadata agrees with the documented meaning for every item type: alternatives, comma separated constraints with omitted fields, value lists, ranges, and conjunction over types; items lacking the type are not matched.",
     ["inputs", "programs"],
     "every expression of the documented language and every metadata",
     "Unit tests pair a few expressions with one item.",
     ["arki/matcher.cc", "arki/matcher/utils.cc", "arki/matcher/parser.cc", "arki/matcher/origin.cc", "arki/matcher/product.cc", "arki/matcher/level.cc", "arki/matcher/timerange.cc", "arki/matcher/area.cc", "arki/matcher/proddef.cc", "arki/matcher/run.cc", "arki/matcher/task.cc", "arki/matcher/quantity.cc"],
     [("parse and match of each type", "arki/matcher/*.cc")],
     [], ["Matcher::operator()(Metadata)"])

prop("C21", "Expressions keep their meaning when rewritten",
     "Turning a parsed expression into text and parsing it again, expanding aliases, merging and saving alias databases, or narrowing an expression with another never changes what it matches: the rewritten expression accepts exactly the same metadata, and the text form is a fixed point.",
     ["inputs", "programs"],
     "every expression and every non-circular set of aliases",
     "Tests compare strings of a few expressions; equivalence needs many expressions times many metadata.",
     ["arki/matcher.cc", "arki/matcher/utils.cc", "arki/matcher/parser.cc", "arki/matcher/aliases.cc", "arki/matcher/reftime.cc"],
     [("toString / toStringExpanded", "arki/matcher/utils.cc"), ("alias resolution", "arki/matcher/aliases.cc")],
     [], ["Matcher::toString, toStringExpanded, Parser::parse"])

prop("C22", "Time expressions mean the same everywhere",
     "A reference time expression selects the same times whether it is evaluated on an item, translated to SQL for an index, or reduced to an interval for skipping segments: the interval never excludes a matching time, and whole segments or summary entries are never skipped while containing a matching time.",
     ["inputs", "programs"],
     "every time expression (comparisons, partial dates, relative offsets, times of day, steps, alternatives) and every time",
     "The three translations are tested separately on examples; their agreement is a statement over expressions times instants.",
     ["arki/matcher/reftime.cc", "arki/matcher/reftime/parser.cc", "arki/matcher/reftime/reftime-parse.yy", "arki/matcher/reftime/reftime-lex.ll", "arki/matcher/reftime/lexer.cc", "arki/core/fuzzytime.cc", "arki/matcher/utils.cc"],
     [("DTMatch implementations", "arki/matcher/reftime/parser.cc")],
     [], ["MatchReftime::matchItem, sql, intersect_interval"])

prop("C23", "Summaries add up, in any order",
     "A summary built by adding items, merging partial summaries, or decoding stored summaries depends only on the multiset of items: counts, sizes and time spans are exact sums and bounds, storing and reloading it changes nothing, and filtering it keeps exactly the combinations that match.",
     ["inputs", "histories"],
     "every multiset of items and every way to split, order, store and merge them",
     "Order independence and encoding of arbitrary item sets are beyond fixed examples.",
     ["arki/summary.cc", "arki/summary/table.cc", "arki/summary/stats.cc", "arki/summary/codec.cc", "arki/summary/intern.cc", "arki/summary/short.cc"],
     [("sorted table with interned items", "arki/summary/table.cc"), ("stripe encoding", "arki/summary/codec.cc")],
     [], ["Summary::add, encode, read, filter, operator=="])

prop("C24", "Malformed input never corrupts memory",
     "Decoding arbitrary or damaged bytes as metadata, summaries, type bundles or archives, or arbitrary text as expressions, configuration, JSON, Yaml or item values, ends with a value or a reported error: no memory error, undefined behaviour, endless loop or unbounded allocation.",
     ["inputs"],
     "all byte sequences, in particular damaged forms of valid ones",
     "The inputs come from the network and from disk and may be anything; tests feed well-formed ones.",
     ["arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc", "arki/types/bundle.cc", "arki/summary/codec.cc", "arki/types/values.cc", "arki/core/binary.h", "arki/core/binary.cc", "arki/structured/json.cc", "arki/core/cfg.cc", "arki/matcher/parser.cc", "arki/matcher/reftime/reftime-parse.yy"],
     [("bounds-checked decoder", "arki/core/binary.h BinaryDecoder")],
     [], ["AddressSanitizer and UndefinedBehaviorSanitizer on the decoders"])

prop("C25", "Output streams deliver every byte once, in order",
     "Whatever the mixture of buffers, lines and file segments sent to a stream output, the destination receives exactly their concatenation, or if a filter is active exactly what the filter outputs for it; partial writes, interruptions and slow or blocked readers do not lose, repeat or reorder bytes, and a closed destination, failing filter or timeout is reported.",
     ["inputs", "schedules", "fault_sequences"],
     "every sequence of sends, destination kind (file, pipe, socket, memory), filter, pattern of partial writes and peer behaviour",
     "Tests script single system call results; sequences with real partial progress on filters are combinatorial.",
     ["arki/stream/concrete.cc", "arki/stream/base.cc", "arki/stream/abstract.cc", "arki/stream/filter.cc", "arki/stream/loops.tcc", "arki/stream/buffer.cc", "arki/utils/subprocess.cc", "arki/metadata/postprocess.cc"],
     [("poll loops for direct and filtered output", "arki/stream/loops.tcc")],
     [], ["bytes received by the peer, progress callback, exceptions"])

prop("C26", "Archives written by arkimet are standard files",
     "Tar, zip and gzip output produced for segments and for query results is read by independent standard tools as exactly the stored items, in order and with the announced names, the offsets and sizes arkimet records in them locate exactly the data, and arkimet reads back archives written by itself.",
     ["inputs", "configurations"],
     "every number, size and name of entries, including sizes at block boundaries and long names",
     "Tests write two or three small entries; block boundary sizes and extended headers are not sampled.",
     ["arki/utils/tar.cc", "arki/utils/zip.cc", "arki/utils/compress.cc", "arki/utils/gzip.cc", "arki/metadata/archive.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/gz.cc"],
     [("tar header and padding", "arki/utils/tar.cc"), ("gzip group index", "arki/utils/compress.cc IndexWriter")],
     [], ["python tarfile, zipfile and gzip modules on the files"])

prop("C27", "Configuration means the same after saving and reloading",
     "Dataset configuration, alias and section files parse to exactly their documented key, value and section content regardless of spacing, comments, quoting and a missing final newline; writing a configuration and reading it again gives the same configuration (except that keys with an empty value are not written), and malformed lines are reported with their position rather than ignored.",
     ["inputs"],
     "every configuration text",
     "Configuration text is free form; tests parse two or three files.",
     ["arki/core/cfg.cc", "arki/core/file.cc", "arki/utils/regexp.cc", "arki/utils/string.cc"],
     [("line parser", "arki/core/cfg.cc")],
     [], ["Section::parse, Sections::parse, to_string"])

prop("C28", "Date arithmetic follows the calendar",
     "Normalising, comparing, adding to and taking the distance of times, month iteration, Easter, and the algebra of intervals (containment, intersection, extension, adjacency) agree with the proleptic Gregorian calendar for every date arkimet can represent; text and binary forms of a time decode to the same time.",
     ["inputs"],
     "every time between years 1 and 9999 and every pair of intervals, open or closed",
     "Tests check chosen dates; leap years, negative offsets and open intervals combine into many cases.",
     ["arki/core/time.cc", "arki/core/time.h", "arki/core/fuzzytime.cc"],
     [("normalise", "arki/core/time.cc"), ("Interval operations", "arki/core/time.cc")],
     [], ["Time and Interval API"])

prop("C29", "Batches hand over each item exactly once, within limits",
     "Splitting a stream of items into clusters by count, size, time step or time range delivers every item to exactly one cluster, in order, and no cluster exceeds the configured limits unless a single item does; external commands run per cluster get exactly the data of their cluster and their failures are reported.",
     ["inputs", "configurations"],
     "every sequence of items and every combination of limits",
     "Combinations of limits over random sequences are not sampled by the few unit tests.",
     ["arki/metadata/clusterer.cc", "arki/metadata/clusterer.h", "arki/metadata/xargs.cc"],
     [("cluster state and flush conditions", "arki/metadata/clusterer.cc")],
     [], ["clusters flushed, files given to the command"])

prop("C30", "Removing data removes exactly those data",
     "Removing items, given as the metadata a query returned, makes exactly those items disappear from later queries and summaries and leaves every other item readable with its own bytes, in any segment and any layout, both before and after the space is reclaimed.",
     ["inputs", "histories", "configurations"],
     "every subset of items of every dataset, in one or more steps, with interleaved repacks and imports",
     "A test removes one of three items.",
     ["arki/dataset/segmented.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/iseg/index.cc"],
     [("removal by segment and offset", "arki/dataset/segmented.cc Checker::remove")],
     [], ["query_data, query_summary, data bytes"])

prop("C31", "Data are safe on disk before they are announced",
     "Unless the dataset is configured to trade safety for speed, the bytes of an imported or repacked item are flushed to stable storage before the index, metadata or rename that makes them visible is committed, so a power failure cannot leave visible items whose data were never written.",
     ["crash_points", "histories", "configurations"],
     "every import and repack, for each dataset kind, layout and format",
     "The order of write, flush and commit leaves no trace in results, only in system calls.",
     ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/metadata.cc", "arki/segment/iseg/index.cc", "arki/utils/rearrange.cc"],
     [("fsync/fdatasync before commit", "arki/segment/data/fd.cc Writer::commit")],
     [], ["trace of system calls"])

prop("C32", "Scanning finds every item of a file once, where it is",
     "Scanning a file or a stream finds each item of it exactly once, in order, with an offset and size which give back that item's bytes; cached scan results are used only if they are not older than the file (modification times are in seconds), and dispatching or querying a file gives what scanning it gives.",
     ["inputs", "histories"],
     "every file content (including empty files and trailing or leading garbage) and every history of changes to a scanned file",
     "Scanner tests read a few fixtures; caches and changes of files over time are not exercised together.",
     ["arki/segment/scan.cc", "arki/segment/metadata.cc", "arki/data.cc", "arki/data/grib.cc", "arki/segment/data.cc", "arki/dataset/file.cc", "arki/metadata/inbound.cc"],
     [("scan and metadata cache", "arki/segment/scan.cc"), ("timestamp comparison", "arki/segment/metadata.cc")],
     [], ["segment::data::Reader::scan_data, dataset::file readers"])

prop("C33", "Remote access gives the same answers as local access",
     "Querying a dataset through arki-server gives the same configuration (apart from type and path), items in the same order, data bytes, postprocessed output, summaries, expanded aliases and merged or macro results as querying it locally; a query which fails locally is reported as failed to the remote client, even if it fails after part of the answer was sent.",
     ["inputs", "histories", "configurations", "faults"],
     "every dataset configuration, contents, query, sort order and postprocessor, and every point at which a query can fail",
     "Tests of the server look at a few fixed queries on a fixed dataset, and at no failure after the headers of the answer.",
     ["arki/dataset/http.cc", "arki/core/curl.cc", "python/arkimet/cmdline/server.py", "python/arkimet/server/views.py", "arki/python/dataset/reader.cc"],
     [("client", "arki/dataset/http.cc"), ("server", "python/arkimet/server/views.py")],
     [], ["dataset::http readers, HTTP requests to arki-server"])

prop("C34", "arki-query and arki-mergeconf give what the library gives",
     "For every set of dataset sources (paths, configuration files, several of each, --restrict), expression, sort order and output option (data, inline, metadata, yaml, json, archives, summaries, postprocessors, output files), arki-query outputs exactly the matching items of exactly the selected datasets in the order asked and the same summaries as the library, and exits with an error if reading, writing (a full disk) or postprocessing failed, if nothing was selected or if the arguments are wrong; arki-mergeconf outputs the configuration of exactly the selected datasets, and refuses invalid filters naming the dataset.",
     ["inputs", "configurations", "faults"],
     "every command line, dataset contents and configuration, and point of failure",
     "Tests of the commands run a few fixed command lines on fixed files; none has a full disk, damaged data or many sources.",
     ["python/arkimet/cmdline/query.py", "python/arkimet/cmdline/mergeconf.py", "python/arkimet/cmdline/base.py", "arki/python/arki-query.cc", "arki/python/cmdline/processor.cc", "arki/metadata/archive.cc", "arki/dataset/pool.cc"],
     [("arki-query", "python/arkimet/cmdline/query.py"), ("processors of output", "arki/python/cmdline/processor.cc"), ("archives", "arki/metadata/archive.cc")],
     [], ["arki-query, arki-mergeconf command lines"])

prop("C35", "arki-scan accounts for every item of every input",
     "When arki-scan dispatches files to datasets, every item which can be read is imported once in the dataset whose filter selects it, or in the error or duplicates dataset, and is described in the output with its new place; every input file is moved to the directory for success, for duplicates or for errors according to what happened to its own items, and is not lost; --copyok and --copyko get exactly the data of imported and failed items; the exit status is success only if all of it was imported (or duplicates were ignored); --test changes nothing.",
     ["inputs", "configurations", "faults"],
     "every set of input files (also broken, empty, or with the same name), destination datasets, contents already imported, and options",
     "Tests of arki-scan look at a few files with one kind of item each, and not at several files with different outcomes in one run.",
     ["python/arkimet/cmdline/scan.py", "arki/python/arki-scan.cc", "arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc", "arki/dispatcher.cc"],
     [("arki-scan", "python/arkimet/cmdline/scan.py"), ("dispatching", "arki/python/arki-scan/dispatch.cc"), ("choice of datasets", "arki/dispatcher.cc")],
     [], ["arki-scan --dispatch command lines"])

prop("C36", "arki-check does what it is asked, to the datasets it is asked",
     "Each operation of arki-check (check, repack, tar, zip, compress, state, remove-old, remove-all, unarchive, remove), with its options (--fix, --accurate, --online, --offline, --filter, --restrict, --time-override), has on the selected datasets the effect and the report of the same operation of the library, and no effect on other datasets or without --fix; --remove removes exactly the listed items; failures are reported in the exit status.",
     ["inputs", "configurations", "histories"],
     "every command line, dataset configuration, history and damage",
     "Tests run each operation on one small dataset; options are seldom combined, and what must not change is not compared.",
     ["python/arkimet/cmdline/check.py", "arki/python/arki-check.cc", "arki/dataset/segmented.cc", "arki/dataset/archive.cc"],
     [("arki-check", "python/arkimet/cmdline/check.py"), ("operations", "arki/python/arki-check.cc")],
     [], ["arki-check command lines"])

prop("C37", "arki-dump and arki-xargs process all of their input, once",
     "arki-dump prints every metadata (also compressed in groups, or with inline data) and summary of its input, in order, and what --from-yaml-data and --from-yaml-summary read from the Yaml is the same metadata and summaries; --query prints the expression as the library expands it; arki-xargs runs its command on all the data of all its inputs once, in order, in the batches which its options ask; errors of reading and writing and failures of the command are told by the exit status, after processing what comes before them.",
     ["inputs", "configurations", "faults"],
     "every sequence of metadata and summaries, cut at any point, every combination of options and point of failure",
     "Tests of the commands use one or two items; none has groups, cut inputs, more than one summary, or a full disk.",
     ["python/arkimet/cmdline/dump.py", "python/arkimet/cmdline/xargs.py", "arki/python/arki-dump.cc", "arki/python/arki-xargs.cc", "arki/metadata/xargs.cc", "arki/metadata/reader.cc", "arki/python/files.cc"],
     [("arki-dump", "arki/python/arki-dump.cc"), ("arki-xargs", "arki/python/arki-xargs.cc"), ("files of Python", "arki/python/files.cc")],
     [], ["arki-dump, arki-xargs command lines"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fd.write(json.dumps(p) + "\n")
print(len(P))
