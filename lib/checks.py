"""What each check runs. One entry per property:
jobs: harness runs (flavour, binary, check name, number of cases per tier)
need: events the monitors must have observed, else the check gives no verdict
rule: what is counted as one distinct non-trivial case
"""
A = ["the compilers' sanitizers report what they claim to report",
     "data formats are represented by synthetic items and scanners (DB-All.e, meteo-vm2 and Python are not there)"]


def job(binary, check, quick, thorough, flavour="asan", **kw):
    return dict(flavour=flavour, binary=binary, check=check, quick=quick, thorough=thorough, **kw)


CHECKS = {
    "C18": dict(
        technique="round-trip monitor over generated metadata, in an ASan/UBSan build",
        jobs=[job("h_types", "C18", 700, 60000)],
        need={"evals": 10000, "compared_file": 1000, "compared_pieces": 1000, "compared_yaml": 1000, "json": 1000,
              "truncations": 500},
        rule="different metadata (values, notes and source) written and read back",
        level="exploration", assumptions=A,
        note="each metadata is compared after 9 encode/decode paths; streams are also read in pieces and truncated"),
    "C19": dict(
        technique="order-axiom monitor over pairs and triples of generated values, in an ASan/UBSan build",
        jobs=[job("h_types", "C19", 4000, 400000)],
        need={"evals": 10000, "pairs": 100000, "triples": 1000000},
        rule="different values whose order and encodings were checked",
        level="exploration", assumptions=A,
        note="values of every type and style, small pools mixed with extremes of each field"),
    "C01": dict(
        technique="model-based monitor of dataset contents over generated import and maintenance histories, ASan/UBSan build",
        jobs=[job("h_ds", "C01", 1500, 30000)],
        need={"evals": 300, "items_read": 10000, "read_0": 500, "read_1": 500, "read_2": 500, "read_3": 500, "read_4": 500,
              "read_after_close": 50, "damaged_read_error": 200, "op_tar": 10, "op_zip": 10, "op_compress": 10},
        rule="different dataset configurations and last maintenance operation",
        level="exploration", assumptions=A,
        note="every item read back in five ways, in any order, also after the dataset is closed; truncated segments must give errors"),
    "C05": dict(
        technique="model-based monitor of repack and conversion over generated histories, with a check of the layout on disk",
        jobs=[job("h_ds", "C05", 1000, 30000)],
        need={"evals": 300, "packed_segments": 800, "forced_repacks": 300, "repacked_twice": 100, "op_tar": 50, "op_zip": 50,
              "op_compress": 50, "packed_in_archive_file": 50},
        rule="different configurations and sequences of maintenance operations",
        level="exploration", assumptions=A,
        note="contents compared with the model after each operation, offsets and file sizes with the expected layout"),
    "C06": dict(
        technique="known damage injected in datasets on disk, and the reports and states given by check compared with what is known",
        jobs=[job("h_maint", "C06", 1000, 30000)],
        need={"evals": 500, "damages": 500, "states": 5000, "segments_dirty": 300, "segments_ok": 3000, "damage_removed": 30,
              "damage_truncated": 50, "damage_extra": 20, "damage_item-file-removed": 10, "damage_meta-removed": 50,
              "damage_newer-data": 50, "damage_overwritten": 20, "damage_manifest-entry-removed": 10, "damage_summary-removed": 10,
              "damage_unknown": 20, "damage_on_d": 100, "damage_on_f": 200, "damage_on_g": 20, "damage_on_t": 15, "damage_on_z": 15},
        rule="different configurations, damages and damaged segments",
        level="exploration", assumptions=A + ["files are damaged while nothing else uses the dataset"],
        note="no damage is reported before it is done; each kind of damage on plain, directory, gzip, tar and zip segments, online and archived"),
    "C07": dict(
        technique="snapshots of the whole dataset directory around each simulated operation; announced actions compared with the real ones",
        jobs=[job("h_maint", "C07", 700, 25000)],
        need={"evals": 500, "announced": 300, "unchanged_query": 50, "unchanged_summary": 50, "unchanged_bytes": 50, "unchanged_check": 50,
              "unchanged_check-accurate": 50, "unchanged_repack": 50, "unchanged_tar": 50, "unchanged_zip": 50, "unchanged_compress": 50,
              "unchanged_remove_old": 50, "unchanged_remove_all": 50, "unchanged_state": 50, "unchanged_issue51": 5,
              "compared_check": 20, "compared_repack": 40, "compared_tar": 15, "compared_zip": 15, "compared_compress": 15,
              "compared_remove_old": 15, "compared_remove_all": 15},
        rule="different configurations, histories and operations",
        level="exploration", assumptions=A,
        note="names, contents, sizes, modes and times of all files are compared, except caches of summaries and lock files"),
    "C08": dict(
        technique="injected damage followed by check and repack; contents compared with the model, and convergence monitored",
        jobs=[job("h_maint", "C08", 700, 25000)],
        need={"evals": 400, "converged": 200, "items_kept": 4000, "manual": 50, "damage_removed": 30, "damage_truncated": 50,
              "damage_extra": 50, "damage_meta-removed": 50, "damage_newer-data": 50, "damage_item-file-removed": 15},
        rule="different configurations and damages",
        level="exploration", assumptions=A + ["files are damaged while nothing else uses the dataset"],
        note="up to three segments damaged at a time; intact items have to stay queryable, removed ones to stay removed"),
    "C13": dict(
        technique="model of archive and delete ages under an overridden clock, compared with contents and files after each operation",
        jobs=[job("h_maint", "C13", 800, 25000)],
        need={"evals": 1000, "segments_archived": 150, "segments_deleted": 100, "import_older_than_archive": 500,
              "import_older_than_delete": 300, "unarchived": 15, "queries_compared": 1000, "import_over_archived": 30},
        rule="different configurations and histories of clock, ages and operations",
        level="exploration", assumptions=A,
        note="ages change between rounds so that segments fall on both sides of each threshold, also after being archived"),
    "C14": dict(
        technique="segment names and time spans compared with an independent calendar; files found again by listing and by time",
        jobs=[job("h_maint", "C14", 600, 30000)],
        need={"evals": 10000, "neighbours": 20000, "ranges": 5000, "listed": 50000, "extremes": 500, "found_by_time": 300},
        rule="different steps and reference times",
        level="exploration", assumptions=A,
        note="times around the ends of days, weeks, months and years, and random ones in years 1000 to 9999"),
    "C16": dict(
        technique="ThreadSanitizer and ASan/UBSan builds under parallel queries with injected failures, slow and stopping "
                  "consumers; results compared with what each part of the merged dataset answers on its own",
        jobs=[job("h_conc", "C16", 250, 8000, flavour="tsan"), job("h_conc", "C16", 250, 8000)],
        need={"evals": 200, "queries": 1000, "complete": 500, "stopped": 100, "stopped_merged": 50, "consumer_threw": 50,
              "errors_reported": 50, "sorted": 200, "summaries": 100, "bytes": 100, "switches": 500},
        rule="different sets of datasets, query kinds and outcomes",
        level="exploration", assumptions=A,
        note="interleavings are those of real threads under TSan with random delays in consumers and producers"),
    "C09": dict(
        technique="reference model of uniqueness and replacement, compared with outcomes, queries and summaries after each batch",
        jobs=[job("h_ds", "C09", 1200, 40000)],
        need={"evals": 300, "result_DUPLICATE_default": 200, "result_DUPLICATE_no": 100, "result_DUPLICATE_USN": 200,
              "result_ERROR_USN": 50, "result_OK_yes": 500},
        rule="different configurations and numbers of accepted and refused items",
        level="exploration", assumptions=A,
        note="few combinations of metadata, so that most items compete with others inside a batch and with stored ones"),
    "C10": dict(
        technique="query results compared with an independent predicate evaluated on every item, ASan/UBSan build",
        jobs=[job("h_ds", "C10", 1000, 25000)],
        need={"evals": 200, "expressions": 3000, "selective": 1000, "archivals": 50},
        rule="different expressions on different kinds of dataset",
        level="exploration", assumptions=A,
        note="datasets with removals, conversions and archives; readers kept open or reopened"),
    "C11": dict(
        technique="trace monitor of the order of query results and of what is delivered after a stop",
        jobs=[job("h_ds", "C11", 800, 20000)],
        need={"evals": 200, "sorted": 800, "sorted_interval": 800, "sorted_interval_in_segment": 500, "unsorted": 800, "stopped": 1000},
        rule="different dataset types, sort orders, expressions and sizes of result",
        level="exploration", assumptions=A,
        note="order is checked with each key on each pair of consecutive items, then the query is stopped after k items"),
    "C12": dict(
        technique="summaries compared with the summary computed from the items of a query, along generated histories",
        jobs=[job("h_ds", "C12", 1100, 25000)],
        need={"evals": 200, "summary_all": 1000, "summary_queries": 3000, "summary_nontrivial": 1500, "after_archive": 20,
              "after_unarchive": 4, "after_remove_segment": 20, "after_remove_index": 20, "after_reindex": 20, "after_tar": 20},
        rule="different configurations and histories",
        level="exploration", assumptions=A + ["reference time parts of the expressions select whole segments, as documented for summaries"],
        note="caches are filled by every comparison, so each operation is followed by one with stale caches at hand"),
    "C30": dict(
        technique="model-based monitor of removals over generated histories",
        jobs=[job("h_ds", "C30", 1200, 40000)],
        need={"evals": 300, "removals": 500, "removed": 3000, "op_tar": 10, "op_zip": 10, "op_compress": 10, "archived_refused": 50},
        rule="different configurations and histories",
        level="exploration", assumptions=A,
        note="contents, queries and summaries compared with the model before and after repack, check and new imports"),
    "C02": dict(
        technique="fault injection: each system call of an import made to fail in turn, and the dataset compared with a model afterwards",
        jobs=[job("h_crash", "C02", 450, 30000, flavour="plain")],
        need={"evals": 3000, "faults": 3000, "fault_create": 300, "fault_write": 1000, "fault_short": 500, "fault_sync": 100,
              "fault_rename": 50, "fault_times": 50, "fault_unlink": 20, "threw": 1000, "carried_on": 3000},
        rule="different configurations, failing calls and kinds of failure",
        level="exploration", assumptions=A + ["libc calls are where I/O errors come from; an error reported by fsync leaves the data readable"],
        note="one-off and persistent failures, short writes; queries, summaries, check, repack and a further import are compared after each"),
    "C03": dict(
        technique="crash injection: imports killed after each system call, and the dataset compared with a model afterwards",
        jobs=[job("h_crash", "C03", 750, 40000, flavour="plain")],
        need={"evals": 5000, "crashes": 5000, "carried_on": 3000, "batch_items_there": 5000, "unchecked_import_ok": 500},
        rule="different configurations, crash points and partial writes",
        level="exploration", assumptions=A + ["a killed process leaves the effects of the system calls done so far, and no others"],
        note="contents compared before and after check and repack, and after importing again with or without a check"),
    "C04": dict(
        technique="crash injection: maintenance operations killed after each system call, and the dataset compared with a model afterwards",
        jobs=[job("h_crash", "C04", 1200, 50000, flavour="plain")],
        need={"evals": 5000, "crashes": 5000, "crash_repack": 1000, "crash_check": 1000, "crash_archive": 1000, "crash_tar": 80,
              "crash_zip": 100, "crash_compress": 300, "crash_unarchive": 50, "found_in_tar": 10},
        rule="different configurations, operations and crash points",
        level="exploration", assumptions=A + ["a killed process leaves the effects of the system calls done so far, and no others"],
        note="datasets with data to repack, archive, convert or whose index or metadata have to be rebuilt"),
    "C31": dict(
        technique="online monitor of the trace of system calls: writes of data have to be flushed before what makes them visible",
        jobs=[job("h_crash", "C31", 600, 30000, flavour="plain")],
        need={"evals": 400, "data_writes": 5000, "data_flushes": 4000, "data_renames": 1000, "index_commits": 10000,
              "metadata_commits": 1000, "manifest_commits": 500, "observed_import": 1000, "observed_repack": 100, "observed_check": 100,
              "observed_tar": 100, "observed_zip": 100, "observed_compress": 100, "observed_archive": 50},
        rule="different configurations, operations and lengths of the trace",
        level="exploration", assumptions=A + ["the trace has all the writes, as data are written through libc"],
        note="files, files in renamed directories and temporary files are followed by name; the end of each operation counts as making data visible"),
    "C20": dict(
        technique="matching compared with an independent evaluator of the expression language, in an ASan/UBSan build",
        jobs=[job("h_matcher", "C20", 1000, 60000)],
        need={"evals": 100000, "expressions": 5000, "matching": 30000, "not_matching": 50000, "types": 500000},
        rule="different expressions evaluated on generated values",
        level="exploration", assumptions=A,
        note="each expression matched on items, encoded buffers and metadata; values share most fields so that near misses are common"),
    "C21": dict(
        technique="each rewritten form of an expression compared with the original on generated values, in an ASan/UBSan build",
        jobs=[job("h_matcher", "C21", 700, 40000)],
        need={"evals": 3000, "aliases": 3000, "aliases_used": 3000, "combined": 50000, "compared": 500000, "narrowed": 30000,
              "texts": 10000},
        rule="different expressions rewritten in every way",
        level="exploration", assumptions=A,
        note="text, expanded text, saved and reloaded aliases, merge, update, split, narrowing by interval"),
    "C22": dict(
        technique="differential monitor: item matching, SQL run by SQLite and interval narrowing against an independent evaluator",
        jobs=[job("h_time", "C22", 3000, 100000)],
        need={"evals": 2000, "expressions": 2000, "times": 50000, "times_matching": 5000, "intervals": 5000, "summaries": 500},
        rule="different expressions evaluated in every way",
        level="exploration", assumptions=A,
        note="expressions of every form of the reftime grammar; times around each boundary an expression mentions"),
    "C28": dict(
        technique="calendar monitor: every function compared with an independent day-number calendar, in a UBSan build",
        jobs=[job("h_time", "C28", 400, 20000)],
        need={"evals": 300, "checks": 100000, "years": 9000, "normalised": 1000, "intersections": 1000, "month_iterations": 100},
        rule="different years, times and intervals",
        level="exploration", assumptions=A,
        note="all years 1 to 9999 with every month, Easter of each, and generated times and intervals"),
    "C23": dict(
        technique="summaries built, merged, saved, loaded, filtered and projected, compared with a count of the items kept by the monitor, in an ASan/UBSan build",
        jobs=[job("h_summary", "C23", 600, 40000)],
        need={"evals": 300, "added": 100000, "merged": 5000, "verified": 5000, "filtered_selective": 500, "projected": 300,
              "compared_different": 500, "visit_stopped": 300, "expanded": 100, **{"through_%d" % i: 1000 for i in range(8)}},
        rule="different sets of items summarised in every way",
        level="exploration", assumptions=A,
        note="items differing in any subset of the metadata types; merging in any order and grouping; binary, YAML and compressed forms"),
    "C27": dict(
        technique="configuration texts generated from a known content, with spacing, comments, quoting and errors, compared with what is parsed, in an ASan/UBSan build",
        jobs=[job("h_cfg", "C27", 800, 60000)],
        need={"evals": 300, "parsed": 3000, "saved": 3000, "malformed": 3000, "built": 2000, "no_final_newline": 3000,
              "overridden": 2000, "split_sections": 500, "bools": 300, "dataset_configs": 500, "aliases": 1500},
        rule="different configurations parsed, saved and reloaded",
        level="exploration", assumptions=A,
        note="sections, files with sections, dataset configurations in files and directories, alias files"),
    "C25": dict(
        technique="what the peer receives compared with what was sent or with a model of the filter, under injected partial transfers, refusals and errors, slow, stalled and closing readers, in an ASan/UBSan build",
        jobs=[job("h_stream", "C25", 2500, 60000, case_timeout=120)],
        need={"evals": 600, "phases_complete": 1000, "contents": 400, "prefixes": 40, "bytes_compared": 20000000, "partial": 5000, "refused": 2000,
              "filters": 500, "filter_failures": 80, "filter_stderr": 400, "filter_inputs": 15, "timeouts": 8, "closed_dest": 5,
              "write_errors": 5, "postprocess_items": 200, "postprocess_aborted": 5,
              **{"to_" + k: 30 for k in ("append", "discard", "file", "memory", "offset", "pipe", "socket")},
              **{"filter_" + k: 10 for k in ("base64", "cat", "dd", "double", "errors", "fail", "head", "ignore", "killed", "late", "missing", "noout", "prefix", "swallow", "tr")}},
        rule="different sequences of sends, filters, destinations and faults",
        level="exploration", assumptions=A,
        note="buffers, lines and file segments; up to three filters in sequence on the same stream; no process, file descriptor or flag may be left behind"),
    "C26": dict(
        technique="archives read by the Python standard library and by tar, unzip and gzip, compared with the items and with the positions that arkimet records, in an ASan/UBSan build",
        jobs=[job("h_arch", "C26", 900, 20000, case_timeout=120)],
        need={"evals": 600, "archives_listed": 800, "entries": 2500, "block_sized": 1000, "located": 1500, "segments_tar": 100, "segments_zip": 100,
              "segments_gz": 100, "gz_indexed": 10, "repacked": 30, "result_cases": 100, "result_items": 500, "result_metadata": 80,
              "tar_cases": 80, "pax_headers": 200, "listed_by_tools": 100},
        rule="different datasets, conversions, archive formats, numbers and sizes of items",
        level="exploration", assumptions=A,
        note="sizes concentrate around multiples of 512 and 4096; segments are converted, reduced and repacked, then read through arkimet as well"),
    "C29": dict(
        technique="clusters recorded while items are fed in, and files and environment seen by the commands that xargs runs, compared with the limits and with the items, in an ASan/UBSan build",
        jobs=[job("h_batch", "C29", 300, 6000, case_timeout=120)],
        need={"evals": 250, "clustered": 2000, "clusters": 10000, "clusters_of_many": 2000, "oversized": 1000, "items": 20000, "runs": 200, "failures": 10},
        rule="different limits, inputs and ways to fail",
        level="exploration", assumptions=A,
        note="items with and without reference time and timerange; commands that fail, are killed or do not exist"),
    "C15": dict(
        technique="model-based runs of the dispatcher on generated configurations, whose datasets, outbound files, reported outcomes and metadata are compared with the documented routing, with write failures injected in one dataset, in an ASan/UBSan build",
        jobs=[job("h_disp", "C15", 2500, 40000, case_timeout=120)],
        need={"dispatches": 2000, "items_dispatched": 10000, "route_dataset": 5000, "route_many": 500, "route_none": 3000, "route_noreftime": 300, "route_validator": 200,
              "routed_duplicates_store_ok": 150, "routed_error_store_ok": 4000, "routed_outbound_ok": 1000, "outbounds_checked": 1000, "sources_checked": 9000,
              "test_dispatches": 200, "failures_injected": 60, "failed_outcomes_checked": 50, "batches_from_files": 500},
        rule="different configurations of datasets and histories of batches",
        level="exploration", assumptions=A,
        note="after an injected failure which ends dispatch with an exception, only what is stored twice or in wrong datasets is looked at"),
    "C32": dict(
        technique="histories of files, caches of metadata and datasets, and streams of real GRIB messages with padding, where what scans and queries give is compared with what was written and where, in an ASan/UBSan build",
        jobs=[job("h_scan", "C32", 3000, 60000, case_timeout=120)],
        need={"grib_messages": 5000, "grib_scans": 1500, "grib_truncated_reported": 100, "caches_made": 1000, "file_changes": 3000, "queries": 3000,
              "queries_with_cache": 3000, "summaries": 3000, "data_read": 8000, "mdfile_queries": 500, "segment_items": 4000, "segments_dir": 300, "segments_gz": 40,
              "segment_queries": 500},
        rule="different contents and histories of files",
        level="exploration", assumptions=A + ["caches are told to be outdated by modification times in seconds, so every change of a file gets a later one"],
        note="scanning of other formats than GRIB needs libraries which are not here: their files are split by a scanner of the harness"),
    "C24": dict(
        technique="damaged and hostile inputs (binary metadata, summaries, bundles, compressed groups, archives and indices, text of items, expressions, configuration, JSON and Yaml, and whole datasets with damaged files) given to the decoders in a build with AddressSanitizer and nearly every check of UndefinedBehaviorSanitizer, with a watch on the size of allocations",
        jobs=[job("h_mal", "C24", 3240, 100000, flavour="ub", case_timeout=240)],
        need={"evals": 100000, "items_decoded": 1000, "metadata_decoded": 10000, "metadata_reread": 5000, "summary_decoded": 2000, "expressions": 800,
              "configs": 100, "config_datasets": 60, "json": 1000, "aliases": 500, "gzindex": 1000, "in_store": 500, "store_data_read": 500, "unlzo": 500,
              "store_refused_query": 10, "store_refused_summary": 10, "use_refused": 1000},
        rule="different inputs (by target and contents)",
        level="exploration", assumptions=A + ["inputs are at most some hundreds of KB", "leaks of memory are not looked for",
                "the UBSan checks function, vptr and nonnull-attribute are off (see DESIGN.md)"],
        note="whatever the input decodes to is then used, encoded, matched, sorted and summarised: errors are accepted, memory errors are not"),
    "C17": dict(
        technique="offline checker over logs of concurrent processes with delays injected at their system calls",
        jobs=[job("h_multi", "C17", 700, 40000, flavour="plain", chunk=5, case_timeout=120)],
        parallel=16,
        need={"evals": 400, "interleavings": 400, "imported": 5000, "queried": 1000, "query_musts": 5000, "query_items": 5000,
              "summaries_compared": 500, "lock_waits": 1500, "checked_clean": 400, "contents_checked": 1200, "aged": 200, "overlaps": 5000,
              "overlap_import_import": 500, "overlap_import_query": 500, "overlap_import_check": 300, "overlap_import_repack": 300,
              "overlap_query_repack": 100, "overlap_import_summary": 300},
        rule="different interleavings of the system calls of the processes",
        level="exploration", assumptions=A + ["processes on one machine and a local file system; delays of up to 20 ms at system calls reach the interleavings that matter"],
        note="importers, readers, checkers and maintenance as separate processes with their own locks, some datasets looking old"),
    "C33": dict(
        technique="differential monitoring: a real arki-server process and the HTTP client of the library (in an ASan/UBSan build) are compared with local access to the same generated datasets, with damaged data and failing postprocessors among the queries",
        jobs=[job("h_net", "C33", 400, 10000, py=True, case_timeout=120)],
        need={"evals": 2500, "servers": 380, "configs": 300, "config_values": 5000, "items": 3500, "with_data": 600, "sorted": 400, "stopped": 200, "summaries": 600,
              "bytes": 150, "postprocessed": 400, "errors_reported": 200, "damaged": 60, "aliases": 250, "alias_databases": 50, "statuses": 400,
              "summary_yaml": 40, "merged": 40, "macros": 40},
        rule="different datasets, histories and queries",
        level="exploration", assumptions=A + ["client and server on the same machine"],
        note="the server runs the Python code of the repository with its extension module built from the current tree"),
    "C34": dict(
        technique="differential monitoring: the command line tools of the repository are run (Python code of the tree, extension module in its current state) on generated datasets and configurations, with damaged data, full disks and wrong arguments, and their output and exit status are compared with the library (in an ASan/UBSan build) and with a model of the datasets",
        jobs=[job("h_cli", "C34", 1200, 20000, py=True, case_timeout=120)],
        need={"evals": 1400, "commands": 2000, "configs": 180, "mergeconfs": 160, "query_data": 160, "query_inline": 140, "query_md": 70, "query_json": 70,
              "query_summary": 70, "failures_reported": 30, "full": 50, "postprocessed": 90, "restricted": 440, "bad_commands": 380, "bad_filters": 12, "system_datasets": 30,
              "archives": 60, "archived_items": 20000, "large_archives": 8},
        rule="different datasets, configurations and command lines",
        level="exploration", assumptions=A,
        note="commands are run by processes forked from one which has already loaded the Python modules"),
    "C35": dict(
        technique="trace checking: the effects of arki-scan (datasets, moved files, copied items, exit status, output) on generated files and destination datasets, some broken, duplicate or refused, are compared with a model of dispatching",
        jobs=[job("h_cli", "C35", 2000, 40000, py=True, case_timeout=120)],
        need={"evals": 1200, "items_ok": 4600, "items_error": 1600, "items_duplicate": 600, "files_ok": 1000, "files_ko": 800, "files_broken": 240, "copies_checked": 1600,
              "moves": 1100, "output_metadata": 6000, "runs_ok": 160, "tests": 70, "cut_in_header": 16},
        rule="different input files, destinations and options",
        level="exploration", assumptions=A,
        note="metadata inputs only: grib, bufr, odim and netcdf scanners need Python modules missing here; vm2 data is scanned in C07 and C32"),
    "C36": dict(
        technique="differential monitoring: every operation of arki-check, with its options, is run on generated and damaged datasets, and compared with the same operation of the library on a copy, with snapshots of what must not change, and with the items which must be left",
        jobs=[job("h_cli", "C36", 1200, 20000, py=True, case_timeout=120)],
        need={"evals": 900, "effects_checked": 700, "effects_seen": 150, "unchanged_checked": 1000, "report_lines": 2600, "check_check": 240, "check_repack": 90,
              "check_tar": 50, "check_zip": 50, "check_compress": 110, "check_remove": 50, "check_remove-old": 50, "check_remove-all": 50, "check_state": 60,
              "items_removed": 30, "filtered": 220, "restricted": 240, "with_age": 260},
        rule="different datasets, histories, damages and command lines",
        level="exploration", assumptions=A,
        note="the library operations compared with are those checked by C03 to C06 and C09"),
    "C37": dict(
        technique="differential monitoring: the outputs, the commands run and the exit status of arki-dump and arki-xargs on generated streams of metadata and summaries, some cut, with full disks and failing commands, are compared with what was written in the streams and with the library",
        jobs=[job("h_cli", "C37", 500, 20000, py=True, case_timeout=120)],
        need={"evals": 900, "dumps": 220, "dumped_items": 60000, "dumped_summaries": 200, "groups": 500, "full": 40, "cut_reported": 10, "cut_tolerated": 25,
              "reversed_items": 25000, "reversed_summaries": 150, "queries_expanded": 40, "xargs": 280, "runs": 2200, "xargs_failed": 55},
        rule="different streams and command lines",
        level="exploration", assumptions=A,
        note="batches are compared with those of metadata::Xargs in the library, checked by C29"),
}
