c("C01", "fail-stop typestate over all paths of the patch loop, " + ABS)
c("C04", "guard dominance on every path to a successful return, " + ABS)
c("C05", "fail-stop typestate of producer and consumer of the checksum stream, " + ABS)
c("C07", "fail-stop typestate of the commands' steps, " + ABS)
c("C08", "fallible-operation typestate over all set-up and close paths, " + ABS)
c("C22", "resource typestate (opened, closed, handed over) on all paths, " + ABS)
c("C23", "file typestate of set-up, patch and close in sequence, " + ABS)
c("C02", "ghost cursor of the next block due over all paths of the patch loop, " + ABS)
c("C06", "stream position automaton with a ghost entry counter, " + ABS)
c("C27", "ghost hash state and block-number agreement on every path of the verifiers, " + ABS)
c("C29", "fail-stop typestate of the comparison loop, " + ABS)
c("C10", "ghost stream positions of window and digest on every path of the search, " + ABS)
c("C11", "ghost stream positions of window, rolling checksum and offset, " + ABS)
c("C09", "ghost stream positions of hash states on every path of generation, search and verification, " + ABS)
c("C17", "affine obligations on every return and append, products kept as relational templates, " + ABS)
c("C15", "affine obligations on every section started, with products of inequalities, " + ABS)
c("C16", "ghost cursor of the next uncovered block over every path of the enumeration and the conversions, " + ABS)
c("C26", "ghost cursors over entries, places and lists on every path of construction and lookup, " + ABS)
c("C12", "ghost window sums advanced per byte over every checksum operation, " + ABS)
c("C13", "fixpoint of a most general client over the abstract states of the buffer, with ghost stream positions of its storage, " + ABS)
c("C24", "layout extraction of the writer and a file-offset automaton over every path of the readers, " + ABS)
c("C03", "ghost of the message received and typestate of its verification, pairing start block and data through queues, " + ABS)
c("C18", "ghost count of requests in flight, proven below the configured concurrency, " + ABS)
c("C19", "panic, channel-close and blocking obligations on every path of the source goroutine and its callers, " + ABS)
c("C28", "typestate of the source (running, stopped, error owed) over all of its paths, " + ABS)
c("C25", "ownership of storage (made, given away) on every path of the generator, the loader and the requesters, " + ABS)
c("C14", "the tree as a symbolic map with an operation log per critical section, lock typestate, " + ABS)
c("C20", "lock set, ownership and publication analysis of the memory shared by goroutines, " + ABS)
c("C21", "stream typestate (open, final message, closed) of producers and consumers, wait group counting, " + ABS)
c("C31", "the lists of queued, requested and received blocks as ghost values with their lowest elements, over all paths of the source goroutine, " + ABS)
c("C33", "termination analysis: lexicographic ranking of variables, memory and ghosts over every way around every loop, " + ABS)
c("C34", "bounds, nilness, division, type assertion and reachability obligations at every instruction that can panic, " + ABS)
c("C35", "value ranges of flags and header fields at every use by the commands, " + ABS)
c("C36", "ghost counts of events and of what is added to each counter, equal at every exit, " + ABS)
c("C37", "ghost stream positions of consecutive windows looked up on every path of the search, " + ABS)
c("C38", "typestate of the files read and written with evidence that they differ, on every path of the commands, " + ABS)
c("C39", "ghost count of the bytes written, with a proven invariant of the writer handed to the patcher, " + ABS)
c("C40", "reachability of the error returns in the failure-free world, with the plan of spans and the number used up as ghost values, " + ABS)
c("C41", "provenance of the values wired into the block source of every session MakeRSync returns, " + ABS)
