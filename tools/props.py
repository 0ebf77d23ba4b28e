#!/usr/bin/env python3
"""Source of /verif/properties.jsonl. Run: python3 tools/props.py > properties.jsonl"""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A patch in which any step failed never reports success",
 "While the patch is assembled from local and remote spans, if seeking or reading the local file, writing the output, asking the block source for blocks, or the block source itself reports an error, the patch operation returns a non-nil error. It returns nil only on executions in which none of these operations reported an error.",
 ["fault_sequences", "inputs"], "every fault of every I/O operation at every point of a patch, for every mix of local and remote spans",
 "The tests patch from healthy in-memory files only; no test makes a seek, read, write or request fail part way.",
 ["patcher/sequential/sequential.go", "rsync.go"],
 [("sequential patch loop", "patcher/sequential/sequential.go SequentialPatcher"), ("high level patch", "rsync.go RSync.Patch")],
 ["error returned by RSync.Patch / SequentialPatcher"])

prop("C02", "Patched output is assembled strictly in block order from the right place",
 "The patcher writes to the output only (a) the payload of a source response whose start block equals the next block due and which covers exactly the blocks of the missing span that was asked for, or (b) bytes copied from the local file after seeking to the recorded offset of the local span that holds the next block due, for exactly that span's number of blocks times its block size. After each write the next block due advances by exactly the number of blocks written, and success is reported only when every block up to the highest block of either list has been written. (For lists that are sorted and disjoint.)",
 ["inputs", "histories"], "all lists of local and remote spans, all response sequences of a block source",
 "Tests cover three span layouts with a well behaved source; out-of-order, short or foreign responses and other layouts are not sampled.",
 ["patcher/sequential/sequential.go"],
 [("block cursor and span selection", "patcher/sequential/sequential.go SequentialPatcher")],
 ["bytes written to the output writer, error returned by SequentialPatcher"])

prop("C03", "A block source never delivers failed or unverified data",
 "When a block source has a verifier, a response reaches the consumer only if its request returned no error and the verifier accepted exactly the delivered bytes for exactly the delivered start block; without a verifier, only if the request returned no error. A failed request or a rejected block range is instead reported on the error channel and the source stops accepting it as data.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings of request completions, failures and corruptions",
 "Tests use one corrupted response on one connection; combinations of concurrency, ordering and failure are not sampled.",
 ["blocksources/blocksourcebase.go", "blocksources/helpers.go"],
 [("result handling in the source loop", "blocksources/blocksourcebase.go loop")],
 ["values received from GetResultChannel and EncounteredError"])

prop("C04", "A request yields data only for exactly the byte range asked for",
 "The HTTP requester asks for bytes start to end-1 without content compression and returns data with a nil error only if the server answered 206 without gzip encoding, the whole body was read without error and its length equals end minus start; every other outcome is a non-nil error. The local-file requester seeks to the start offset, reads no more than end minus start bytes, and returns with a nil error exactly the bytes read, treating end-of-file after at least one byte, and nothing else, as a short success.",
 ["inputs", "fault_sequences"], "all server responses (status, headers, body, truncation) and all local read failures, all ranges",
 "Tests sample four canned server behaviours and one healthy file.",
 ["blocksources/httpblocksource.go", "blocksources/readseeker_blocksource.go"],
 [("HTTP range request", "blocksources/httpblocksource.go HttpRequester.DoRequest"), ("local range read", "blocksources/readseeker_blocksource.go ReadSeekerRequester.DoRequest")],
 ["return values of DoRequest, the request sent to the server"])

prop("C05", "Building an index fails if anything could not be read, compressed or written",
 "If reading the input fails for any reason other than reaching its end, if block compression fails, or if writing a checksum to the output fails, checksum generation and every helper built on it report an error and never report the file checksum of a complete run. A run that reports success has processed every byte of its input and written both checksums of every block, weak before strong.",
 ["fault_sequences", "inputs"], "all read, compression and write failures at any block of any input",
 "Tests read from in-memory strings and write to in-memory buffers, which never fail.",
 ["filechecksum/filechecksum.go", "indexbuilder/indexbuilder.go"],
 [("checksum producer goroutine", "filechecksum/filechecksum.go StartChecksumGeneration"), ("checksum writer", "filechecksum/filechecksum.go GenerateChecksums"), ("index building", "indexbuilder/indexbuilder.go BuildChecksumIndex")],
 ["results received from StartChecksumGeneration, return values of GenerateChecksums and BuildChecksumIndex"])

prop("C06", "Loading checksums accepts only a whole number of well-placed entries",
 "Loading a checksum stream succeeds only if the stream ended without a read error exactly on an entry boundary; a partial entry or a read error gives an error and no entries; every other stream, also an empty one, is loaded. Entry k of a successful load holds, in this order, the weak bytes then the strong bytes read for it, at block offset k counting from zero.",
 ["inputs", "fault_sequences"], "all streams, truncation points and read errors",
 "The package has no tests of its own; other tests load only well formed streams.",
 ["chunks/chunks.go"],
 [("checksum loader", "chunks/chunks.go LoadChecksumsFromReader")],
 ["return values of LoadChecksumsFromReader"])

prop("C07", "Every command line failure ends in a non-zero exit status",
 "If any step that the build, diff or patch command itself performs fails (opening or reading a file, bad header, bad index, matching version, patching, closing), the command ends the process with a non-zero status or hands the error up to the program entry, and the program entry turns every error it receives into a non-zero exit status. A panic that a command recovers from counts as a failure of the step. A command none of whose steps fails can end with status zero.",
 ["fault_sequences", "inputs", "configurations"], "all failures of all steps of all commands",
 "The command has no tests at all.",
 ["cmd/gosync/main.go", "cmd/gosync/build.go", "cmd/gosync/diff.go", "cmd/gosync/patch.go", "cmd/gosync/common.go"],
 [("command actions", "cmd/gosync Build, Diff, Patch"), ("program entry", "cmd/gosync/main.go main")],
 ["process exit status"])

prop("C08", "Setting up and closing a patch reports every file failure",
 "Creating a file-based patch session returns either a usable session with a nil error or a non-nil error, and never panics, whichever of its file operations fail. Closing the session returns a non-nil error if closing a file, opening either side of the final copy, or the final copy itself failed.",
 ["fault_sequences", "configurations"], "all failures of stat, open, create, temp-file creation, copy and close",
 "The file-based entry point and the closers are not called by any test.",
 ["rsync.go"],
 [("session creation", "rsync.go MakeRSync"), ("session close", "rsync.go RSync.Close and the closers it runs")],
 ["return values of MakeRSync, IsSameFile and RSync.Close"])

prop("C09", "Every strong checksum covers exactly one block",
 "Each strong checksum that is generated, compared or verified is the digest of the bytes of exactly one block: the hash is in its initial state before that block is fed to it, the block is fed once, and nothing else is fed before the digest is taken. The weak checksum reported with it is that of the same bytes, under the number of that block. The whole-file checksum is the digest of every block read, each exactly once, in order.",
 ["inputs", "histories"], "all inputs, block sizes and all sequences of uses of the same generator or verifier, including after a mismatch",
 "Tests use each object once on small inputs; hash state left over from an earlier block, mismatch or run shows only in a later use.",
 ["filechecksum/filechecksum.go", "filechecksum/verifier.go", "comparer/comparer.go"],
 [("checksum generation", "filechecksum/filechecksum.go generate"), ("block verification", "filechecksum/verifier.go VerifyBlockRange"), ("match search", "comparer/comparer.go StartFindMatchingBlocks")],
 ["checksums emitted, verdicts and matches reported"])

prop("C10", "A match is reported only for a block whose strong checksum was found",
 "The comparer reports block B at offset O only if B was returned by the strong-checksum lookup for the digest of the current window, made with the result of the weak lookup for the current rolling checksum, and O is the base offset plus the distance of that window from the start of the stream. Every block returned by that lookup is reported.",
 ["inputs"], "all local data, reference indexes and base offsets",
 "Tests sample a few strings; collisions of the weak checksum and duplicated blocks are barely sampled.",
 ["comparer/comparer.go"],
 [("match search loop", "comparer/comparer.go StartFindMatchingBlocks")],
 ["BlockMatchResult values on the result stream"])

prop("C11", "Window, rolling checksum and offset always describe the same bytes",
 "At every step of a comparison the remembered window, the rolling checksum and the reported offset advance by the same bytes: whatever is read is appended to the window and to the rolling checksum together, what the window evicted is what the rolling checksum removes with the window length before the step, and the offset grows by the number of bytes removed from the front. Dropping bytes at the end of the stream removes the same bytes from all three.",
 ["inputs"], "all local data, read sizes and block sizes",
 "A desynchronised window shows only for particular sequences of matches, misses and short reads.",
 ["comparer/comparer.go"],
 [("window advance", "comparer/comparer.go StartFindMatchingBlocks")],
 ["BlockMatchResult values on the result stream"])

prop("C12", "The rolling checksum equals the checksum computed from scratch",
 "After any sequence of adding bytes at the end, removing bytes from the front, paired add/remove and setting a block, the rolling checksum has the value it would have if computed from scratch over the bytes currently in the window, and that value is serialised as four little-endian bytes, which is the size announced. Bulk and single-byte operations agree, and resetting gives the checksum of the empty window.",
 ["inputs", "histories"], "all byte sequences, window lengths and operation histories",
 "Tests check a handful of short histories.",
 ["rollsum/rollsum_32_base.go", "rollsum/rollsum_32.go"],
 [("rolling sum update", "rollsum/rollsum_32_base.go"), ("hash wrapper", "rollsum/rollsum_32.go")],
 ["value produced by GetSum / Sum"])

prop("C13", "The circular buffer returns exactly the most recent bytes, oldest first",
 "For every history of writes of at most one block and truncations, the current block is the last min(block size, retained) bytes written, oldest first, a truncation returns and drops the oldest retained bytes, and after a write the evicted bytes are the ones that write pushed out, oldest first. No operation ever indexes outside its storage.",
 ["histories", "inputs"], "all histories of writes, truncations and resets and all block sizes",
 "Tests check single wrap-free histories; wrong content needs a multi-byte write that crosses the internal wrap point followed by a read through it.",
 ["circularbuffer/noalloc.go"],
 [("double buffer writes and reads", "circularbuffer/noalloc.go C2")],
 ["slices returned by GetBlock, Truncate and Evicted"])

prop("C14", "Matches merge only when contiguous in both files, under mutual exclusion",
 "Two matched spans are merged only if the second starts at the block after the first ends and its local offset is exactly where the first ends; the merged span starts at the first one's block and offset and ends at the second one's block. All accesses to the shared merge state by concurrent streams are mutually exclusive, the lock is released on every path, and a block already covered is not recorded twice. Every match received without an error ends up in exactly one span, a failed result is never recorded, and the merger measures spans in the block size the comparison used.",
 ["schedules", "inputs"], "all interleavings of match streams and all match orders",
 "Tests run with one CPU and feed a few hand-picked orders.",
 ["comparer/merger.go"],
 [("span merging", "comparer/merger.go StartMergeResultStream, merge")],
 ["spans returned by GetMergedBlocks"])

prop("C15", "Parallel search sections cover the file and overlap by a block",
 "When a local file is searched in parallel sections, the first section starts at offset zero, each section starts no later than one block minus one byte before the previous section's end, the base offset given to each comparison equals the offset of its section, and the sections together reach the end of the local file, however much longer than the reference it is. This holds for the library patch and for the diff command.",
 ["inputs", "configurations"], "all local and reference file sizes, block sizes and numbers of sections",
 "Tests use inputs far smaller than one section; the diff command is untested.",
 ["rsync.go", "cmd/gosync/common.go", "cmd/gosync/diff.go"],
 [("section layout", "rsync.go RSync.Patch; cmd/gosync/common.go multithreadedMatching")],
 ["matches found across section boundaries"])

prop("C16", "Missing spans are exactly the complement of the matched spans",
 "For every sorted list of disjoint matched spans within blocks 0 to max, the missing spans are sorted, non-empty, disjoint from the matched spans, and together with them cover every block from 0 to max exactly once. An index without blocks has no missing spans, and nothing is requested for it. Converting matched and missing spans for the patcher preserves their number, order, blocks, and local offsets, and gives each the index's block size.",
 ["inputs"], "all sorted disjoint span lists and block counts",
 "Tests sample a few lists; the converters are duplicated and only one copy is reached.",
 ["comparer/merger.go", "rsync.go", "cmd/gosync/common.go"],
 [("gap enumeration", "comparer/merger.go GetMissingBlocks"), ("conversion", "rsync.go / cmd/gosync/common.go toPatcher*Span")],
 ["result of GetMissingBlocks, spans passed to the patcher"])

prop("C17", "Splitting a block range covers every block once, in contiguous byte ranges",
 "Splitting a range of blocks into requests yields consecutive, non-empty, non-overlapping sub-ranges that start at the first block and end at the last, none larger than the desired size unless it is a single block. The byte range of a block starts at block times block size and ends where the next block starts, and neither end exceeds a known file size.",
 ["inputs", "configurations"], "all ranges, block sizes, desired sizes and file sizes",
 "Tests check four ranges.",
 ["blocksources/fixed_size_block_resolver.go"],
 [("range splitting and offsets", "blocksources/fixed_size_block_resolver.go FixedSizeBlockResolver")],
 ["result of SplitBlockRangeToDesiredSize, GetBlockStartOffset, GetBlockEndOffset"])

prop("C18", "Requests in flight never exceed the configured concurrency",
 "A block source starts a request only while fewer requests than its configured concurrency are in flight, counts each request once when it starts and once when its result is received, and every started request delivers exactly one result to the source. A source over a single seekable file is always configured for one request at a time.",
 ["schedules", "histories"], "all request sequences and completion orders",
 "One test with four requests checks the maximum it happened to see, with one CPU.",
 ["blocksources/blocksourcebase.go", "blocksources/readseeker_blocksource.go"],
 [("dispatch and accounting", "blocksources/blocksourcebase.go loop")],
 ["number of concurrent DoRequest calls"])

prop("C19", "A block source never crashes the process, whatever fails and whenever it closes",
 "No sequence of request failures, verification failures and close calls makes a block source panic in its own goroutines: a second failure before the first was reported is absorbed, no channel is closed twice or sent to after being closed by the source, and request goroutines can always hand over their result. Requests made and close calls issued around the source's shutdown return instead of crashing the caller.",
 ["schedules", "fault_sequences"], "all interleavings of concurrent failures, closes and requests",
 "Tests fail one request at a time.",
 ["blocksources/blocksourcebase.go", "blocksources/helpers.go"],
 [("error latch", "blocksources/helpers.go errorWatcher"), ("channel ownership", "blocksources/blocksourcebase.go loop, Close, RequestBlocks")],
 ["process survival, error returned by RequestBlocks and Close"])

prop("C20", "State shared between goroutines is accessed only with synchronisation",
 "Every variable or field that is reachable from more than one goroutine of the library and written after the goroutines start is accessed only under a common lock, atomically, or with a channel or wait-group ordering between the accesses. In particular a checksum generator is not touched by its background goroutine after the final result was delivered, and concurrent section searches never share a generator, reader or hash; package variables are written only while the program is initialised. Requests over one seekable file share its position: there C18 allows only one at a time.",
 ["schedules"], "all schedules of the library's goroutines",
 "The suite is run with one CPU because it is flaky otherwise; races are invisible there.",
 ["filechecksum/filechecksum.go", "blocksources/blocksourcebase.go", "comparer/comparer.go", "comparer/merger.go", "rsync.go", "cmd/gosync/common.go"],
 [("goroutine starts", "every go statement of the module")],
 ["absence of data races"])

prop("C21", "Result streams are always closed and waiters always released",
 "Every goroutine that produces a result stream closes that stream exactly once, on every path by which it ends, and every merge goroutine signals completion exactly once on every path, registered before it was started. Nothing is sent after the final message of a stream. Consumers of a stream that stop early never leave a producer of this library blocked forever.",
 ["schedules", "fault_sequences"], "all paths, errors and schedules",
 "Tests consume streams to the end on healthy inputs.",
 ["filechecksum/filechecksum.go", "comparer/comparer.go", "comparer/merger.go"],
 [("stream producers", "StartChecksumGeneration, StartFindMatchingBlocks, StartMergeResultStream")],
 ["closing of result channels, return of GetMergedBlocks"])

prop("C22", "Files, connections and background goroutines are released on every path",
 "Every file opened and every HTTP response obtained by the library or the commands is closed on every path, including paths on which a later step fails, unless it was handed to a session whose close function closes it. Closing a session closes its input, its output and its block source, and removes the temporary file it created once its content was copied back or is of no use any more (a temporary file whose copy failed is kept). Nothing uses a file, response or session after it was closed.",
 ["fault_sequences", "configurations"], "all failure points of all functions that acquire a resource",
 "Tests do not exercise failures and do not look for leaks.",
 ["rsync.go", "blocksources/httpblocksource.go", "cmd/gosync/build.go", "cmd/gosync/diff.go", "cmd/gosync/patch.go"],
 [("session creation and close", "rsync.go MakeRSync, RSync.Close"), ("HTTP request", "blocksources/httpblocksource.go DoRequest")],
 ["open descriptors and goroutines after return"])

prop("C23", "An in-place patch leaves the original untouched until the result is complete",
 "If the output is the same file as the input, the session writes to a different, newly created file while patching, opens the original for writing only when the session is closed and only after the new file was closed without error, and replaces its whole content; a patch that failed never replaces it. The new file is removed only after the copy over the original was closed without an error, so that at every point the untouched original or the complete new file exists. If the output is a different file, its previous content is discarded, so that a successful patch leaves in it exactly what was written. An output that does not exist yet is created.",
 ["configurations", "crash_points", "inputs"], "all path aliasing between input and output, all pre-existing outputs, all points of failure before close",
 "The file-based entry point is not called by any test.",
 ["rsync.go"],
 [("output selection", "rsync.go MakeRSync"), ("final copy", "rsync.go closers")],
 ["content of the input and output files"])

prop("C24", "Index files are read exactly as they are written, and foreign ones rejected",
 "The reader of an index file expects the same sequence of fields, with the same widths and byte order, that the writer emits: magic string, three version numbers, file size, block size, then for each block the weak and the strong checksum with the sizes of the hashes used to generate them. The reader succeeds only if the magic string and the major version equal the tool's, and each value is used in the role in which it was written. A header with the tool's magic string and major version, a positive block size and a size that is not negative is not rejected: a command that has read one gives up before the index is made only after a step failed.",
 ["inputs", "configurations"], "all files, including foreign and truncated ones",
 "The format code is in a command without tests.",
 ["cmd/gosync/common.go", "cmd/gosync/build.go", "cmd/gosync/patch.go", "cmd/gosync/diff.go", "filechecksum/filechecksum.go", "chunks/chunks.go"],
 [("header writer and reader", "cmd/gosync/common.go writeHeaders, readHeadersAndCheck"), ("body writer and reader", "filechecksum GenerateChecksums, chunks LoadChecksumsFromReader")],
 ["bytes of a .gosync file and what the commands use from it"])

prop("C25", "Checksums and payloads handed out are never overwritten later",
 "Every checksum or payload slice handed to a consumer (generated checksums, loaded entries, downloaded data) lives in storage allocated for it alone: no later block, entry or request writes into the same storage.",
 ["inputs", "histories", "schedules"], "all inputs and all consumption delays",
 "Aliasing shows only when a consumer keeps a slice across later blocks; most tests look at it immediately.",
 ["filechecksum/filechecksum.go", "chunks/chunks.go", "blocksources/httpblocksource.go", "blocksources/readseeker_blocksource.go"],
 [("per-block allocation", "filechecksum generate; chunks LoadChecksumsFromReader; DoRequest implementations")],
 ["slices received by consumers"])

prop("C26", "Index lookups return exactly the blocks with equal checksums",
 "A weak lookup consults exactly the place where blocks with that weak checksum were stored when the index was built, and yields nothing for an unknown one. A strong lookup returns only entries whose strong checksum equals the one asked for, and all of those in the list it searches: the list is always sorted, before any search, by the same order the search uses. Two checksums compare as matching exactly if both their weak and their strong halves are equal.",
 ["inputs"], "all checksum sets, including collisions and duplicates",
 "Tests use a few entries; bucket and ordering mistakes need particular checksum values.",
 ["index/index.go"],
 [("index construction", "index/index.go MakeChecksumIndex"), ("lookups", "index/index.go FindWeakChecksum2, FindStrongChecksum2")],
 ["results of FindWeakChecksum2 and FindStrongChecksum2"])

prop("C27", "Verification accepts a range if and only if every known block checksum matches",
 "Verifying a range of data returns true only if, for every block of the range, either no checksum is known for that block or the digest of that block's bytes equals the known checksum for that block's number; consecutive blocks of the data are checked against consecutive block numbers from the start block, without gaps or overlaps. A range is rejected only if a known checksum differs from the digest of its block. The verdict depends only on the data and the known checksums, not on earlier verifications.",
 ["inputs", "histories"], "all data, block numbers, known and unknown checksums and earlier uses",
 "Tests verify three correct ranges with a fresh verifier and no wrong one.",
 ["filechecksum/verifier.go"],
 [("range verification", "filechecksum/verifier.go VerifyBlockRange")],
 ["verdict of VerifyBlockRange"])

prop("C28", "After a failure or close a block source starts no further requests",
 "Once a request has failed, a block range was rejected, or the source was told to close, the source starts no new request, even if requests are still queued; it ends once the requests already in flight have completed and the error, if any, has been delivered.",
 ["schedules", "fault_sequences"], "all queue lengths and orders of failure, close and completion",
 "Tests never fail or close a source that has queued requests.",
 ["blocksources/blocksourcebase.go"],
 [("source loop", "blocksources/blocksourcebase.go loop")],
 ["calls of DoRequest after a failure or Close"])

prop("C29", "A comparison ends on every read error and reports it",
 "If reading the compared stream fails with anything other than end of stream, the comparison stops reading, reports that error as the last item of its result stream and ends; it never keeps reading a failing stream. Reaching the end of the stream is not reported as an error once a first full block was read, and a comparison ends without an error only after the end of its stream.",
 ["fault_sequences", "inputs"], "all read errors at all positions",
 "Tests compare in-memory readers that only ever report end of stream.",
 ["comparer/comparer.go"],
 [("match search loop", "comparer/comparer.go StartFindMatchingBlocks")],
 ["last BlockMatchResult of a stream, number of reads"])

prop("C31", "Every requested block is delivered exactly once, lowest first",
 "While a block source runs, it queues every range a request is split into exactly once, requests the lowest one queued first, keeps every successful result and delivers it once. It never delivers a response while a lower block it was asked for and is already fetching is still to be delivered, whatever order requests are made and completed in; and it never waits without offering the response for the lowest block it is fetching once that has arrived.",
 ["schedules", "histories"], "all request and completion orders",
 "Tests use ascending requests of two blocks.",
 ["blocksources/blocksourcebase.go", "blocksources/helpers.go", "blocksources/sortableBlockResponse.go"],
 [("response ordering", "blocksources/blocksourcebase.go loop")], ["sequence received from GetResultChannel"])

prop("C33", "Every loop makes progress, so no operation spins for ever",
 "Every loop of the library and of the commands comes closer to its end each time around: it receives a value, reads something more, takes the next entry of a map or list, or strictly decreases one well-founded measure of quantities that it bounds itself. No operation goes round for ever without consuming anything, whatever the inputs, the outcomes of reads and requests and the order of messages; in particular neither after the end of a stream, a failing read, a closed channel or a reported error.",
 ["inputs", "schedules", "fault_sequences"], "all inputs, read outcomes and message orders; blocking for ever is not covered (C18, C19, C21, C28)",
 "Tests run each loop to its end for a few inputs; a loop that never ends only shows for the inputs that trigger it.",
 ["comparer/comparer.go", "comparer/merger.go", "blocksources", "filechecksum", "circularbuffer/noalloc.go", "patcher/sequential/sequential.go", "chunks/chunks.go", "index/index.go", "rsync.go", "cmd/gosync"],
 [("every loop", "all packages")], ["termination of every operation"])

prop("C34", "No operation panics",
 "No input, read outcome, server response, match result or order of messages makes the library or the commands index or slice out of range, allocate a negative size, divide by zero, use a nil reference, fail a type assertion, store into a nil map or reach one of their own panics, provided the settings are sensible (block size and number of parallel searches at least one, C35; ranges that do not end before they start).",
 ["inputs", "schedules", "fault_sequences"], "all inputs and outcomes, in the contexts in which the operations of the library and the commands reach the code",
 "A test only sees the panics of the inputs it runs.",
 ["comparer/comparer.go", "comparer/merger.go", "blocksources", "filechecksum", "circularbuffer/noalloc.go", "rollsum", "patcher/sequential/sequential.go", "chunks/chunks.go", "index/index.go", "rsync.go", "cmd/gosync", "util/readers"],
 [("every bounded operation", "all packages")], ["absence of run-time panics"])

prop("C35", "Impossible settings are refused",
 "Whatever flags are given and whatever the header of a gosync file says, the commands never make checksums or compare files with a block size of less than one byte, never describe a reference with a negative file size, and never search with less than one stream; the build command only uses block sizes that fit the 32 bits in which the gosync file stores them. Anything else ends in an error.",
 ["inputs", "configurations"], "all flag values and headers",
 "The command has no tests at all.",
 ["cmd/gosync/build.go", "cmd/gosync/diff.go", "cmd/gosync/patch.go", "cmd/gosync/common.go"],
 [("flags and headers", "cmd/gosync Build, Diff, Patch, readHeadersAndCheck")], ["exit status and effects of the commands for such settings"])

prop("C36", "Reported statistics count what happened",
 "At the end of a search the number of comparisons is that of the windows looked up, the number of weak hits that of the windows for which the weak lookup found candidates, and the number of strong hits that of the windows for which at least one block was found. The number of bytes read that a block source reports when it ends is the total length of the data of all results it received without an error. The number of blocks of an index is that of the checksums it was built from.",
 ["inputs", "schedules", "fault_sequences"], "all streams, indices, request outcomes and verdicts",
 "Tests look at one byte count.",
 ["comparer/comparer.go", "blocksources/blocksourcebase.go", "index/index.go"],
 [("search counters", "comparer/comparer.go startFindMatchingBlocks_int"), ("bytes read", "blocksources/blocksourcebase.go loop, ReadBytes"), ("block count", "index/index.go MakeChecksumIndex")],
 ["Comparisons, WeakHashHits, StrongHashHits, ReadBytes, BlockCount"])

prop("C37", "The search looks at every window of the local file",
 "The first window looked up is the first full block of the stream. After a window is looked up, the next one looked up begins at most one byte later, or, if at least one block was found for the window, at most at its end. Windows shorter than a block are looked up only at the end of the stream. For every window looked up the candidates of the weak lookup, if there are any, are compared by the strong lookup before the search moves on. The search ends without reporting an error only when the window has become empty at the end of the stream, or when a block was found for a window that ends with the stream.",
 ["inputs", "fault_sequences"], "all streams and chunkings of reads, all indices, including readers that return the last byte together with the end of the stream",
 "Tests search a few short strings through readers that report the end of the stream separately.",
 ["comparer/comparer.go"],
 [("search loop", "comparer/comparer.go startFindMatchingBlocks_int")],
 ["windows passed to FindWeakChecksum2 and FindStrongChecksum2, end of the result stream"])

prop("C38", "The commands never write over the files they read",
 "Whenever a command opens a file for writing, or replaces, truncates or removes one, that file is another one than every file the command reads: it did not exist before, or it was compared with them (following links) and found different. Building an index for a file whose name, or link, is that of the index itself is refused, and the file stays as it was.",
 ["inputs", "configurations"], "all names, extensions and links of the files given to the commands",
 "The commands have no tests.",
 ["cmd/gosync/build.go", "cmd/gosync/diff.go", "cmd/gosync/patch.go", "rsync.go"],
 [("output of the build command", "cmd/gosync/build.go Build"), ("comparison of files", "rsync.go IsSameFile")],
 ["contents of the input files after a command"])

prop("C39", "A successful patch wrote exactly as many bytes as the reference has",
 "The patch operation starts only if the number of blocks of the summary is that of a file of the summary's size and block size. It returns without an error only if the number of bytes it wrote to the output is exactly the file size of the summary. Bytes taken from the local file are left out only behind the last byte of the reference.",
 ["inputs", "histories", "fault_sequences"], "all summaries (also of truncated indices), local files, layouts of matches and block sources",
 "Two example strings are patched; no partial block is found in the middle of a file and no index is truncated.",
 ["rsync.go"],
 [("patch operation", "rsync.go RSync.Patch"), ("limit of the output", "rsync.go sizedWriter")],
 ["number of bytes written to the output, error returned by RSync.Patch"])

prop("C40", "A patch fails only if something it depends on failed",
 "If the matched and missing spans are a complete plan (sorted, not empty, together covering every block from 0 to the last exactly once), the local file can be positioned and read, the output takes what is written, and the source answers every request with the blocks asked for, then the sequential patcher returns no error; in particular every span is used up exactly once, also single blocks, spans that follow each other in one list, and a partial last block. If in addition the block count of the summary is that of its file size and the whole file was written, the patch operation returns no error either. A block source reports an error only after one of its requests failed or a block range was rejected, and does not end before that unless it is closed.",
 ["inputs", "schedules", "histories"], "all complete plans (local, remote and mixed, in any order and of any length), file and block sizes, and orders of responses",
 "Tests use a handful of plans with few spans.",
 ["patcher/sequential/sequential.go", "rsync.go", "blocksources/blocksourcebase.go"],
 [("patch loop", "patcher/sequential SequentialPatcher"), ("patch operation", "rsync.go RSync.Patch"), ("source goroutine", "blocksourcebase.go loop")],
 ["error returned by SequentialPatcher and RSync.Patch, values on the error channel"])

prop("C41", "A file session fetches from the given reference and verifies by the index",
 "Every session that the file-based entry point returns requests its blocks from the reference path it was given (not from the local or the output file), computes offsets in the reference with the block size and the file size that the summary reports, and verifies everything it fetches: in blocks of that size, against the strong checksums of that summary, and with the same strong hash with which indexes are generated.",
 ["inputs", "configurations"], "all paths, summaries and outcomes of the file operations",
 "The file-based entry point is not called by any test.",
 ["rsync.go", "blocksources/httpblocksource.go", "blocksources/helpers.go", "filechecksum/verifier.go"],
 [("session set-up", "rsync.go MakeRSync"), ("source construction", "blocksources NewHttpBlockSource, MakeFileSizedBlockResolver")],
 ["URL and ranges requested and the verdict on fetched data, after MakeRSync"])

# ---- stated, not claimed -------------------------------------------------
prop("C30", "The patched output is byte for byte the reference",
 "If a patch reports success, the output equals the reference file described by the index, for every local file, index and honest block source.",
 ["inputs", "configurations"], "all local files, reference files, block sizes and sources",
 "Two example strings are patched.",
 ["rsync.go", "comparer/comparer.go", "patcher/sequential/sequential.go"],
 [("whole pipeline", "rsync.go RSync.Patch")], ["output bytes"])
prop("C32", "Only blocks that are not available locally are downloaded",
 "Every reference block whose content occurs anywhere in the local file is taken from there and not requested from the source.",
 ["inputs"], "all local and reference files",
 "One example checks one byte count.",
 ["rsync.go", "comparer/comparer.go"],
 [("match search", "comparer StartFindMatchingBlocks"), ("sections", "rsync.go Patch")], ["bytes requested from the source"])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        print(json.dumps(p))
