#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing the table)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, state=state, observe=observe, claimed=claimed, na=na))

TRUST = " Assumes Go's standard regexp package, compiler and file system as the reference."

prop("C01", "A search reports exactly the matching lines",
 "For every indexed set of text files and every accepted query (regular expression or literal, case sensitive or not, with or without a file filter and an exclude-file filter), a search over the whole result range reports exactly the lines that match the pattern when the line is taken alone without its newline: none missing, none extra, each once, under the right file name and with the right line number and text; text anchors (\\\\A, \\\\z) refer to the whole file. A pattern or filter that does not parse is refused with an error.",
 "inputs", "all file sets (any size incl. files larger than the 1 MiB read buffer, empty lines, missing final newline, CRLF, non-ASCII UTF-8) x all queries (pattern, literal flag, ignore-case flag, file and exclude-file expressions)",
 "The unit tests search two fixed patterns in the repository's own sources; a lost or phantom line needs a particular combination of pattern shape, trigram filter, byte automaton and line layout.",
 ["index/index.go", "index/grep.go", "codesearch/regexp/match.go", "codesearch/index/regexp.go"],
 [("query compilation and file/exclude filters", "index/index.go Index.Search"), ("line extraction and numbering", "index/grep.go grepper.grep2"), ("candidate selection", "codesearch/index/read.go PostingQuery")],
 "runtime differential monitor: real index.Build/Search on generated corpora and patterns against a line-by-line reference oracle (Go regexp)", "exploration",
 "Held on the generated corpora/query pairs of this seed (counts in evidence)." + TRUST)

prop("C02", "The trigram filter never hides a file that contains a match",
 "For every regular expression, the trigram query derived from it is satisfied by every text in which the expression matches a line, so candidate selection never drops a file that contains a match. Evaluating a trigram query on an index returns, in ascending order without duplicates, exactly the files whose content satisfies it.",
 "inputs", "all regular expressions of the accepted syntax (alternation, repetition, classes, case folding, anchors, non-ASCII) x all texts; all AND/OR query trees over present and absent trigrams",
 "The tests compare the printed form of 50 hand-picked queries; soundness is a statement about every text each query must accept, and only shows as a silently missing result.",
 ["codesearch/index/regexp.go", "codesearch/index/read.go"],
 [("expression to trigram query", "codesearch/index/regexp.go RegexpQuery/analyze"), ("AND/OR of posting lists", "codesearch/index/read.go PostingQuery, PostingList/And/Or")],
 "runtime differential monitor: query satisfaction on texts generated to match the expression, checked by the reference regexp; PostingQuery against a set-algebra oracle", "exploration",
 "Held on the generated expression/text pairs of this seed." + TRUST)

prop("C03", "The line matcher agrees with the reference regexp engine",
 "For every accepted expression and every UTF-8 buffer, the byte-level matcher reports no match exactly when no line of the buffer matches, and otherwise returns the end of the first line that matches. The answer does not depend on how often or on what a compiled expression was used before.",
 "inputs", "all expressions (incl. case folding, Unicode classes, word boundaries, line anchors, large repetitions that overflow the automaton cache) x all buffers x all reuse orders of one compiled expression",
 "The tests match 60 fixed expression/text pairs, each on a fresh automaton; the byte compilation of rune ranges, folding and the bounded DFA cache have far more paths.",
 ["codesearch/regexp/match.go", "codesearch/regexp/utf.go", "codesearch/regexp/copy.go", "codesearch/regexp/regexp.go"],
 [("rune ranges to byte ranges", "codesearch/regexp/utf.go toByteProg"), ("lazy DFA and its cache bound", "codesearch/regexp/match.go matcher")],
 "runtime differential monitor: Regexp.Match against Go regexp per line, per rune and per range sweeps, with reused automata", "exploration",
 "Held on the generated expressions/buffers; all BMP case-fold orbits and UTF-8 length boundaries are swept." + TRUST)

prop("C04", "Every file of a working tree is indexed whole or accounted for",
 "After a successful index build every entry of the working tree is in exactly one class: searchable with its complete content, listed once in the excluded-files report with a reason, or skipped because the configuration or driver says so (special names, dot files and dot directories when exclude-dot-files is set). Files are excluded only for the documented reasons (dot file, not a regular file, not UTF-8 text, too long, too many long lines, too many distinct trigrams). A file that cannot be read, or a build that cannot write its output, makes the build fail instead of yielding an index that silently lacks content.",
 "inputs", "all directory trees (nesting, odd names, symlinks, FIFOs, sockets, unreadable or vanishing entries, sizes and contents around every exclusion limit) x option combinations x read/write failures during the build",
 "The tests index the repository's own well-formed source directory and look at one counter; silent loss shows only on unusual entries or failing I/O.",
 ["index/index.go", "codesearch/index/write.go"],
 [("classification of entries", "index/index.go indexAllFiles"), ("content limits", "codesearch/index/write.go IndexWriter.Add"), ("raw copy", "index/index.go addFileToIndex")],
 "runtime conservation monitor: indexed + excluded + configured skips = files on disk, content compared by search, plus I/O fault injection", "exploration",
 "Held on the generated trees and injected failures of this seed.")

prop("C05", "The on-disk trigram index is faithful and survives reopening",
 "For every sequence of files added, the flushed index maps each file id to its name and each trigram to exactly the ascending ids of the files that contain it, no matter how many entries had to be spilled to temporary files. An index opened again from disk, any number of times and by several readers, gives the same answers as right after the build.",
 "inputs", "all file sets, from empty to more posting entries than fit the in-memory buffer (8 million), and all trigrams; all build/open/search/close orders",
 "The tests write a handful of one-word files; delta encoding, binary searches over the posting index, the spill merge and the mapping of empty or one-page files are exercised by none of them.",
 ["codesearch/index/write.go", "codesearch/index/read.go", "index/index.go"],
 [("post entries, spill and k-way merge", "codesearch/index/write.go flushPost/mergePost/postHeap"), ("lookup", "codesearch/index/read.go findList/postReader"), ("manifest", "index/index.go writeManifest/Read/Open")],
 "runtime differential monitor: in-memory model of names and postings against the index read back, including spills, plus close/reopen histories", "exploration",
 "Held on the generated file sets; the spill path is driven past the buffer bound.")

prop("C06", "Context lines are the true neighbours of a match",
 "Each reported match carries as After the next lines of the file, up to the requested number or the end of file, and as Before the directly preceding lines, up to the requested number but not reaching back over the previous reported match or the start of file. Every context line is the exact text of the file's line at that offset, empty lines included.",
 "inputs", "all files x all match positions (adjacent matches, first and last line, runs of empty lines, missing final newline) x all context sizes",
 "The tests check a few fixed buffers with non-empty lines; off-by-one and empty-line cases depend on where matches fall.",
 ["index/grep.go"],
 [("context extraction", "index/grep.go lastNLines/firstNLines/grep2")],
 "runtime differential monitor: Before/After of every reported match against the file's own lines", "exploration",
 "Held on the generated files/patterns/context sizes of this seed.")

prop("C07", "Limits and paging cut the full result and nothing else",
 "With an unlimited result R (files in a fixed order), a file range offset:limit returns exactly files offset..offset+limit-1 of R with all their matches, so consecutive pages concatenate to R with no file lost, repeated or truncated. A match limit N returns exactly the first min(N, |R|) matches of R in order (from the offset on when combined with a range). FilesWithMatch without a match limit is the number of files in R whatever the range; offsets beyond the end and zero or huge limits are handled without error.",
 "inputs", "all corpora and queries x all (offset, limit, max-results) combinations including the bounds",
 "No test passes an offset or a limit; losing or repeating a file at a page border needs a specific combination of page size and match distribution.",
 ["index/index.go", "api/api.go"],
 [("range and result limits", "index/index.go Index.Search"), ("range parsing and clamps", "api/api.go parseRangeValue/parseAsIntValue")],
 "runtime metamorphic monitor: every range/limit answer compared with the cut of the unlimited answer, through the library and the HTTP API", "exploration",
 "Held on the generated corpora/queries; small corpora have their full offset x limit grid enumerated.")

prop("C08", "Every search sees one complete revision while indexes are replaced",
 "While a repository is being updated, every search and excluded-files request that overlaps the replacement succeeds and answers from exactly one revision: all its matches, and the revision it reports, belong to that revision and none is missing. A request that starts after another one finished never sees an older revision than that one did. No request fails or crashes because an index was closed or deleted under it.",
 "schedules", "all interleavings of any number of concurrent searches/excluded-files requests with index builds and swaps over any history of revisions",
 "The tests never replace an index; torn, stale or crashing reads need a search to overlap the swap at a particular instruction.",
 ["searcher/searcher.go", "index/index.go", "api/api.go"],
 [("index swap under lock", "searcher/searcher.go swapIndexes/Search/GetExcludedFiles"), ("close and removal of the old index", "index/index.go Destroy")],
 "history monitor: stress of concurrent readers against a scripted VCS driver, each response checked for single-revision content and per-register monotonicity; run plain and under the race detector", "exploration",
 "Held on the recorded histories; interleavings are sampled, not enumerated.")

prop("C09", "An accepted update request always leads to an index that is new enough",
 "After an update request (POST /api/v1/update or the GitHub webhook) for a push-enabled repository has been answered ok, the repository is pulled at least once by a pull that begins after the request began, and searches eventually answer from that revision or a later one; this holds for requests made at any moment, including right after startup and while another update runs, and for requests coalesced with others. With polling enabled the same happens without any request, at the configured interval. Repositories with push disabled refuse the request, and those with polling disabled are never pulled unasked.",
 "schedules", "all timings of update requests relative to startup, to running pulls, builds and swaps, and to each other; all combinations of the poll and push settings",
 "No test runs an update; a lost wake-up needs a request in one particular window.",
 ["searcher/searcher.go", "api/api.go"],
 [("request queue of one", "searcher/searcher.go Update/waitForUpdate/begin"), ("update loop", "searcher/searcher.go newSearcher goroutine, updateAndReindex"), ("HTTP entry points", "api/api.go /api/v1/update, /api/v1/github-webhook")],
 "history monitor: request and pull events from a scripted VCS driver ordered by one clock; every accepted request must be followed by a pull that began later, and by its revision", "exploration",
 "Bounded progress: decided on recorded events; a stalled run is reported only after the poller is idle with an unserved request for a long grace period.")

prop("C10", "A failed update leaves the last good index serving and is retried",
 "If pulling, checking out, indexing or replacing fails for any update of a running repository, searches go on answering completely from the last successfully indexed revision, the server stays up, and a later successful attempt brings the newest revision in. A failing repository never affects the answers of the others.",
 "fault_sequences", "all sequences of failures (VCS errors, vanished or unreadable working trees, file-system errors while building or while removing the old index) at any update, followed by recovery",
 "The tests contain no failing update; the damage (a destroyed live index, a stuck revision) appears only after a failure at one particular step.",
 ["searcher/searcher.go", "index/index.go", "vcs/vcs.go"],
 [("error handling of the update", "searcher/searcher.go updateAndReindex/swapIndexes"), ("build failure", "index/index.go Build/indexAllFiles")],
 "fault-injection runtime monitor: scripted VCS driver with injected failures; search answers compared with the last good revision after every step", "fault_enumeration",
 "Held on the enumerated failure kinds at every step of short histories plus random sequences.")

prop("C11", "A crash at any point loses nothing once the server is started again",
 "If the server is killed at any instant of startup, indexing, replacing or cleaning up, the next start on the same data directory comes up without manual repair and answers every search exactly as a fresh installation would for the current revisions. A partly written or partly deleted index is never served, and what the crash left behind is removed or reused.",
 "crash_points", "every file-system operation that creates, writes, renames or removes something in the data directory, during first indexing, update, replacement and start-up cleaning; repeated crashes",
 "No test kills the process; damage needs a kill between two particular file operations and shows only after the restart.",
 ["searcher/searcher.go", "index/index.go", "codesearch/index/write.go", "vcs/git.go"],
 [("build order: data first, manifest last", "index/index.go Build/writeManifest"), ("removal", "index/index.go IndexRef.Remove"), ("start-up claim and cleaning", "searcher/searcher.go findExistingRefs/removeUnclaimed"), ("working copy", "vcs/vcs.go PullOrClone")],
 "crash-point enumeration: a seccomp user-notification supervisor kills the real houndd at the n-th data-directory operation, restarts it and compares all answers with a fresh instance", "fault_enumeration",
 "Process-crash model (completed system calls persist); every n-th operation is visited in quick, all in thorough.")

prop("C12", "Each repository is answered only from its own, current data",
 "Whatever index directories and working copies are found at startup, a repository is answered from an index built from its own working copy, at the revision the driver reports and under its current indexing options (dot files, ignored files, auto-generated patterns). An existing index is reused when all of that agrees, and two configured repositories never share an index or a working copy, even if they name the same URL.",
 "configurations", "all sequences of restarts with changed configuration (repositories added, removed, renamed, same URL twice with equal or different refs and options) and changed repository contents, including foreign and damaged directories in the data directory",
 "No test restarts a server; wrong reuse needs two particular configurations in sequence, and sharing needs two entries with one URL.",
 ["searcher/searcher.go", "index/index.go"],
 [("claiming found indexes", "searcher/searcher.go foundRefs.find/claim"), ("working-copy naming", "searcher/searcher.go vcsDirFor"), ("manifest contents", "index/index.go IndexRef")],
 "runtime differential monitor: restart histories with random configurations; all answers compared with a model of each repository; builds counted to observe reuse", "exploration",
 "Held on the generated restart histories of this seed.")

prop("C13", "Disk and process resources stay bounded and foreign files stay untouched",
 "Once a server is idle, its data directory holds exactly one index directory per served repository, plus working copies; the temporary directory holds nothing it created; and open files, memory mappings, goroutines and child processes do not grow with the number of updates, failed updates, searches or restarts. Nothing outside its own index and working-copy directories is ever changed or removed, including the source of a local repository and unrelated files in the data directory.",
 "histories", "all histories of successful and failed updates, searches and restarts",
 "No test runs more than one build per directory; leaks need many updates or a failing one, and stray deletions need neighbours to delete.",
 ["searcher/searcher.go", "index/index.go", "codesearch/index/write.go", "codesearch/index/read.go"],
 [("temporary files of a build", "codesearch/index/write.go Flush/Close"), ("old index removal", "searcher/searcher.go swapIndexes"), ("start-up cleaning", "searcher/searcher.go removeUnclaimed"), ("unmapping", "codesearch/index/read.go Close")],
 "runtime conservation monitor: directory, fd, mapping, goroutine and child-process censuses at quiescent points of update/failure/restart histories", "exploration",
 "Held at the quiescent points of the generated histories.")

prop("C14", "Never more indexing at once than configured",
 "At no time do more than max-concurrent-indexers repositories of one server pull or index at once, at startup and during updates together, and every repository nevertheless gets its turn.",
 "schedules", "all numbers of repositories, limits and timings of startup, polling and push updates",
 "No test starts more than one searcher; exceeding the limit or starving a repository needs many at once.",
 ["searcher/searcher.go"],
 [("limiter", "searcher/searcher.go makeLimiter/Acquire/Release, newSearcherConcurrent, updateAndReindex")],
 "online monitor: scripted VCS driver counts pulls in flight at every entry, with delays injected inside; index builds observed through the working tree", "exploration",
 "Held on the sampled schedules; the monitor observes the VCS phase directly and the build phase through blocking FIFO reads.")

prop("C15", "Shutdown is prompt, complete and leaves a reusable state",
 "After a termination request, at whatever moment it comes after or during startup, no new update begins, running updates finish, and the server exits with status 0; it never hangs, whatever the poll and push settings. The data directory it leaves is reused by the next start without rebuilding.",
 "schedules", "all moments of the termination request relative to startup, waiting, pulling, indexing and swapping; all poll/push settings; repeated requests",
 "No test stops a searcher; hanging or dying in the middle needs the signal at a particular moment.",
 ["searcher/searcher.go", "cmds/houndd/main.go"],
 [("stop request", "searcher/searcher.go Stop/Wait/waitForUpdate/completeShutdown"), ("signal handling", "cmds/houndd/main.go handleShutdown/registerShutdownSignal")],
 "history monitor: SIGTERM/Stop injected at varied points of real houndd and library runs; exit status, event order after the request and the restart are checked", "exploration",
 "Held on the sampled moments; a hang is reported only after a grace period several hundred times the normal shutdown time.")

prop("C16", "Every API request gets a well-formed, documented answer",
 "Every request to the API, whatever its method, parameters or body, is answered with a complete HTTP response: JSON of the documented shape with the documented status (405 for a wrong method, 404 for an unknown repository, 403 where push updates are off, 400 for a malformed webhook, an Error object for a bad pattern). Out-of-range parameters are clamped to their documented bounds (context at most 20 lines with default 2, match limit at most 100000 with the configured default), malformed ones fall back to defaults. No request drops the connection, crashes the server or changes the answer of a later one.",
 "inputs", "all methods, query strings, form and JSON bodies on every API endpoint",
 "The two API unit tests parse a handful of integers; handler panics and wrong fall-backs need unusual parameters.",
 ["api/api.go", "web/web.go"],
 [("parameter parsing", "api/api.go parseAs*"), ("handlers", "api/api.go Setup")],
 "runtime monitor: hostile request generator against the real handlers over TCP, each response checked against a model of the API", "exploration",
 "Held on the generated requests of this seed.")

prop("C17", "A multi-repository search is the union of single searches",
 "A search over a list of repositories returns, for each repository in it that exists and has matches, exactly what a search of that repository alone returns, and nothing else; '*' means all repositories, unknown and repeated names change nothing. If any repository's search fails, the request reports that error instead of a partial result.",
 "inputs", "all sets of repositories x selections (lists with unknown, repeated, empty names, '*') x queries, under concurrent requests",
 "No test searches more than one repository; mixing up or losing a repository's result depends on goroutine order.",
 ["api/api.go"],
 [("fan-out and gathering", "api/api.go searchAll"), ("repository selection", "api/api.go parseAsRepoList")],
 "runtime metamorphic monitor: multi-repository answers compared with the union of single answers, concurrently over HTTP", "exploration",
 "Held on the generated selections/queries of this seed.")

prop("C18", "Credentials in vcs-config never leave the server",
 "No byte of a vcs-config secret, global or per repository, appears in any HTTP response: not in the repository list, pages, scripts, search results or error messages, for any configuration accepted by the server and any request.",
 "configurations", "all configurations with secrets at global and repository level for every driver x all endpoints and requests",
 "No test looks for secrets in responses; leaks come from a new field, pointer/value marshalling or the merge of the two levels.",
 ["config/config.go", "api/api.go", "ui/ui.go"],
 [("masking", "config/config.go SecretMessage.MarshalJSON"), ("exposure points", "api/api.go /api/v1/repos; config/config.go ToJsonString; ui/ui.go")],
 "runtime taint monitor: unique canaries placed in every vcs-config value, all response bytes (raw, decoded, base64) scanned", "exploration",
 "Held on the generated configurations and request set.")

prop("C19", "Configuration loads with documented defaults and precedence",
 "Loading a configuration file gives every option its configured value or, if absent, its documented default; the data directory is taken relative to the configuration file. For every repository, each vcs-config key takes the repository's own value if present, else the global value of its VCS type (the default type is git), and nothing else; other repositories and types are not affected.",
 "configurations", "all configuration files: any subset of options present at each level, any key sets in global and repository vcs-config, any VCS types",
 "The tests load the two example files; precedence and defaults must hold for every subset of keys.",
 ["config/config.go"],
 [("defaults", "config/config.go initRepo/initConfig"), ("merge", "config/config.go mergeVCSConfigs"), ("file loading", "config/config.go LoadFromFile")],
 "runtime differential monitor: LoadFromFile on generated configuration files against an independent reference loader", "exploration",
 "Held on the generated configurations of this seed.")

prop("C20", "The git working copy follows the selected ref",
 "After every successful clone or pull of a git repository, the working copy and the reported revision equal the tip, at a moment between the start and the end of that operation, of the configured ref, else of the remote's default branch if detect-ref is set and it has one, else of master, exactly: added, changed, deleted and renamed files, mode changes and forced (non-fast-forward) updates included. A pull fails if that ref does not exist; only a first clone then stays with the default branch. Local leftovers in the working copy never change tracked content or make the pull fail, and the reported revision is that of the content.",
 "histories", "all histories of remote commits, forced pushes, branch creations, deletions, default-branch changes and local disturbances, for every ref setting",
 "The tests run no git command against a changing remote; wrong refs and stale trees need particular remote histories.",
 ["vcs/git.go", "vcs/vcs.go"],
 [("fetch and reset", "vcs/git.go Pull"), ("ref choice", "vcs/git.go targetRef/detectRef"), ("clone", "vcs/git.go Clone")],
 "runtime differential monitor: generated remote histories with real git; working tree and revision compared with the remote's tree after every pull", "exploration",
 "Held on the generated histories with the installed git 2.43.")

prop("C21", "VCS drivers report the right revision or an error",
 "For the hg, svn and bzr drivers, a clone or pull succeeds only if every command it runs succeeds, and then returns the revision the tool reports for the working copy (trimmed); if a command fails or cannot be started the caller gets an error and no revision. Commands run in the right directory with the configured URL and credentials, and the driver's own metadata directory is never indexed.",
 "fault_sequences", "all outcomes (output, exit status, missing program) of each command of each driver, all URLs, credentials and directories",
 "The tests only construct the drivers; no command of hg, svn or bzr is ever run.",
 ["vcs/hg.go", "vcs/svn.go", "vcs/bzr.go", "vcs/vcs.go"],
 [("commands", "vcs/hg.go, vcs/svn.go, vcs/bzr.go Clone/Pull/HeadRev"), ("special files", "SpecialFiles of each driver")],
 "trace monitor: recording stand-ins for hg/svn/bzr on PATH with scripted outcomes; recorded argv/cwd and returned values checked", "fault_enumeration",
 "hg, svn and bzr are not installed: decided against their documented command-line behaviour through stand-ins.")

prop("C22", "A watched local directory is re-indexed exactly when it changes",
 "For a local repository with watch-changes, the reported revision changes whenever the set of file names or the content of any file in the directory changes, and stays the same otherwise, across polls and restarts and whether the configured path is a directory or a symbolic link to one. Without watch-changes the revision never changes. The directory itself is never modified.",
 "histories", "all histories of edits (content, names, additions, removals, mere timestamp changes) of all directory trees, incl. links, empty directories, unreadable entries",
 "No test runs the local driver; equal hashes or spurious changes need particular pairs of trees.",
 ["vcs/local.go", "index/index.go", "searcher/searcher.go"],
 [("content hash", "vcs/local.go HeadRev/myHash"), ("link resolution", "vcs/local.go HeadRev; index/index.go indexAllFiles")],
 "runtime metamorphic monitor: edit histories on generated trees; revisions compared for equality exactly as the trees compare, and search answers with the tree", "exploration",
 "Held on the generated edit histories of this seed.")

prop("C23", "The command-line client prints what the server found",
 "For every server answer, the hound client prints for each repository and file every matched and context line exactly once, in ascending order, with its true line number, marked as match or context, and no line that is not in the answer; overlapping contexts are merged and separate blocks stay separate. It sends the user's pattern, repositories, files, context and case options unchanged, and reports server errors and bad patterns by a message and a non-zero exit status instead of empty output.",
 "inputs", "all answers (any number and spacing of matches and context sizes, any repository URL and display name, any text) and all command-line options",
 "The tests coalesce eight fixed match lists; merging depends on the distance between matches, and naming on the URL's shape.",
 ["client/client.go", "client/coalesce.go", "client/ack.go", "cmds/hound/main.go", "ansi/ansi.go"],
 [("merging", "client/coalesce.go"), ("printing", "client/ack.go Present"), ("naming", "client/client.go repoNameFor"), ("request", "client/client.go Search")],
 "runtime differential monitor: the real hound binary against a scripted HTTP server; printed output parsed back and compared with the answer", "exploration",
 "Held on the generated answers/options of this seed.")

prop("C24", "The web UI shows every result line once, correctly marked and escaped",
 "For every server answer, the web UI's result model shows each matched and context line of a file once, in order, with its number; the HTML it produces for a line, tags removed and entities decoded, is exactly the line's text, highlights exactly the pattern's matches (for patterns that mean the same in JavaScript and RE2; others are shown without failing) and never contains unescaped file content; and it terminates for every pattern. The screen always belongs to the latest search, whatever the order of the answers; the address of a result opens the same search again, and the form then shows that search, so that starting it unchanged repeats it. Loading more results yields the full list without loss or repetition, and links to the code host contain the exact path, revision and line.",
 "inputs", "all answers, line texts (markup, entities, non-ASCII), patterns incl. ones that match the empty string, repository URLs and URL patterns, page sizes",
 "The JavaScript tests cover six URLs and three signal cases; none touches merging, highlighting, escaping or paging.",
 ["ui/assets/js/hound.js", "ui/assets/js/common.js", "ui/assets/js/excluded_files.js"],
 [("merging and highlighting", "ui/assets/js/hound.js CoalesceMatches/ContentFor/EscapeHtml"), ("paging", "ui/assets/js/hound.js Model.LoadMore"), ("URLs", "ui/assets/js/common.js")],
 "runtime differential monitor: the shipped UI scripts with the bundled React run in node over a small document; what it shows is compared with the server answers", "exploration",
 "Held on the generated answers; the document is a small stand-in for the browser's, and reqwest and merge-anything are stand-ins.")

prop("C25", "No data race or memory error in the server",
 "Under any concurrent use of the public operations (searches, excluded-files and repository requests, update requests, polling updates, startup and shutdown, readiness checks), the server performs no unsynchronised conflicting access to shared memory, never touches an unmapped index and never misuses an unsafe pointer.",
 "schedules", "all interleavings of all public operations during startup, serving, updating and shutdown",
 "The tests are single-threaded and run without the race detector.",
 ["searcher/searcher.go", "index/index.go", "api/api.go", "web/web.go", "codesearch/index/write.go", "codesearch/index/read.go"],
 [("shared searcher state", "searcher/searcher.go Searcher"), ("mmap lifetime", "codesearch/index/read.go, index/index.go Close/Destroy"), ("unsafe casts", "codesearch/index/write.go flushPost/addFile")],
 "sanitizer: Go race detector with checkptr over a mixed stress workload of every public operation, repeated rounds", "exploration",
 "Held on the executed interleavings; the race detector reports only races on executed paths.")

prop("C26", "Files are marked auto-generated exactly as declared",
 "In every search answer a file is marked auto-generated exactly if it is named by the repository's auto-generated-files option or, for a git repository without that option, if its linguist-generated attribute is set (or true) in the revision being answered, after updates and restarts as well.",
 "histories", "all attribute files (patterns, negations, nested, macro and binary forms), file names incl. non-ASCII and spaces, option lists, and histories of updates that change them",
 "No test covers attributes; staleness needs an update that changes .gitattributes.",
 ["vcs/git.go", "searcher/searcher.go", "index/index.go"],
 [("attribute listing", "vcs/git.go AutoGeneratedFiles"), ("choice and persistence", "searcher/searcher.go newSearcher; index/index.go IndexRef"), ("marking", "index/index.go Search")],
 "runtime differential monitor: generated .gitattributes histories with real git against an independent reading of the attributes", "exploration",
 "Held on the generated histories; git check-attr per file on a separate clone is the reference.")

prop("C27", "Readiness is truthful",
 "From the moment it listens, the server answers the health-check URI with 200; until every configured repository has been indexed or has failed, every other request gets 503, and from then on requests are served. Once a request has been served, none is ever answered 503 again, and the first served search already sees every repository that started successfully.",
 "schedules", "all interleavings of requests with startup, for any number of repositories, failures and indexing times",
 "No test starts the web server; the transition must be atomic for every request in flight.",
 ["web/web.go", "cmds/houndd/main.go"],
 [("gate", "web/web.go Server.ServeHTTP/serveWith"), ("start order", "cmds/houndd/main.go main")],
 "history monitor: probes over HTTP against the real houndd while startup is held by a blocking VCS stand-in, ordered against its release events", "exploration",
 "Held on the sampled start-up schedules.")

prop("C28", "Merging two indexes yields the index of the merged file sets",
 "Merging two indexes gives an index in which, for every path prefix covered by the second, only the second's files appear, all other files come from the first, names are in order, and every trigram's posting list is exactly that of the remaining files under their new ids.",
 "inputs", "all pairs of indexes with any path lists (nested, overlapping, empty) and files",
 "The test merges one fixed pair.",
 ["codesearch/index/merge.go"],
 [("id remapping and posting merge", "codesearch/index/merge.go Merge")],
 "runtime differential monitor: Merge on generated index pairs against a set model of names and postings", "exploration",
 "Held on the generated pairs of this seed.")

prop("C29", "A repository that cannot start does not harm the others",
 "If some repositories cannot be cloned, read or indexed at startup (bad URL, unknown VCS, bad vcs-config, missing directory, empty repository, unreadable tree), the server still starts, serves exactly the others completely, and lists and searches only those; the failed ones are reported in the log. A restart after the cause is gone serves them as well.",
 "fault_sequences", "all subsets of repositories failing in any of the ways, at any start, any concurrency limit",
 "No test starts several repositories; a panic or a lost result needs a failing neighbour.",
 ["searcher/searcher.go", "cmds/houndd/main.go", "vcs/vcs.go"],
 [("gathering of results and errors", "searcher/searcher.go MakeAll/newSearcherConcurrent"), ("dropping failed repositories", "cmds/houndd/main.go makeSearchers")],
 "fault-injection runtime monitor: real houndd with generated mixes of good and failing repositories, all answers checked, then repaired and restarted", "fault_enumeration",
 "Held on the enumerated failure kinds and generated mixes.")

prop("C30", "Pages and assets are delivered intact and safely",
 "The index, excluded-files and OpenSearch pages are well-formed for every title, repository configuration and Host header: such text is embedded only as data, reads back exactly, and can neither end the script or tag it sits in nor add markup. Every bundled asset is served byte for byte (ranges included), unknown paths get 404, and no path reaches a file outside the bundle.",
 "inputs", "all titles, repository names, URLs, display names and Host headers (markup, quotes, U+2028, non-ASCII) and all request paths",
 "No test renders a page; injection needs hostile text in a particular field.",
 ["ui/ui.go", "ui/content.go", "ui/bindata.go", "web/web.go"],
 [("templates", "ui/ui.go renderForPrd"), ("assets", "ui/ui.go serveAsset; ui/bindata.go")],
 "runtime monitor: pages rendered for hostile configurations parsed by an HTML/XML tokenizer and script extractor; embedded data compared with the configuration; asset bytes compared with the bundle", "exploration",
 "Held on the generated configurations/paths of this seed.")

prop("C31", "Memory stays bounded",
 "The memory a search needs is bounded by its pattern, the largest file it reads and the answer it gives: no pattern or filter makes it grow with the amount of text or the number of names searched. Building an index takes memory that depends on neither the size of the tree nor the number of distinct trigrams in it. What searches, refused or abandoned requests and updates needed is given back: a server that has answered or updated many thousand times holds no more memory or goroutines than one that has done so a few times.",
 "histories", "all patterns (those with a state for nearly every position of the text included), trees much larger than the bounds, and long histories of requests, refused and abandoned ones included, failed and successful updates",
 "Tests search a few bytes, build tiny trees and stop after a handful of operations; unbounded caches, buffers and leaks show only in the long run or on hostile patterns.",
 ["codesearch/regexp/match.go", "codesearch/index/write.go", "index/index.go", "index/grep.go", "api/api.go", "searcher/searcher.go"],
 [("state cache of the matcher", "codesearch/regexp/match.go cache/step"), ("spilling of posting entries", "codesearch/index/write.go flushPost/Flush"), ("range and context kept per file", "index/index.go Search; index/grep.go"), ("releasing replaced indexes", "searcher/searcher.go swapIndexes"), ("answers and refusals", "api/api.go Setup")],
 "runtime monitor: live heap sampled during searches, builds and spills against fixed budgets, and compared between rounds of thousands of requests and updates", "exploration",
 "Held for the generated patterns, trees and histories of this seed; only the Go heap, goroutines and mapped or open files are measured.")

prop("C32", "A search reads only files that can match",
 "A search opens only stored files whose names pass its filters and which contain the trigrams the pattern requires: all those of a literal of three bytes or more (in any letter case when case is ignored), those of each part of a concatenation, and those of at least one alternative (where a word has variants of one length, at each place those of at least one variant). Once the match limit is reached no further file is opened, no file is opened twice for one search, and the number of files opened that an answer reports is the number that was opened for its repositories.",
 "inputs", "all patterns made of required words, alternatives, repetitions, gaps and anchors, all filters and limits, and all corpora with files that lack just one trigram",
 "The answers stay the same when the index stops narrowing a search; only what is read from disk shows it, and tests look at answers of tiny trees.",
 ["index/index.go", "codesearch/index/regexp.go", "codesearch/index/read.go", "searcher/searcher.go"],
 [("trigram query of a pattern", "codesearch/index/regexp.go RegexpQuery/analyze/simplify"), ("posting queries", "codesearch/index/read.go PostingQuery"), ("filters, limit and count", "index/index.go Search")],
 "runtime monitor: inotify on the stored copies records each file a search opens; each must pass the filters and contain the trigrams required by construction, in the numbers and up to the limit reported", "exploration",
 "Held for the generated corpora and patterns of this seed.")

prop("C33", "No needless updates",
 "A running repository makes a new index only when a pull has brought another revision than the one before: polls, update requests, failing pulls, changes of other branches or tags, and restarts that find nothing new make none and leave the index in use untouched. However many update requests arrive while an update is under way, they cause at most one more pull; and a repository that is only polled is polled no more often than its interval says.",
 "histories", "all histories of revisions, polls, requests (API and webhook), failures and restarts of several repositories",
 "Answers do not change when an index is needlessly rebuilt or a queue of requests grows; only counting pulls and builds over histories shows it.",
 ["searcher/searcher.go", "vcs/git.go", "index/index.go"],
 [("comparison of revisions", "searcher/searcher.go newSearcher"), ("coalescing of requests", "searcher/searcher.go Update/updateAndReindex"), ("reuse of an index", "searcher/searcher.go findExistingRefs")],
 "history monitor: inotify on the data directory counts the index directories made, the event log of a scripted VCS the pulls and the revisions they brought; the two must agree at every quiescent point", "exploration",
 "Held on the generated histories; an index is recognised by the directory made for it.")

prop("C34", "Work grows in proportion to the input",
 "The processor time, the memory allocated and the bytes read and written by an operation grow no faster than in proportion (a logarithm aside) to what it is about: a search to the text it reads and the answer it gives, whatever the pattern, the length of lines, the context asked for or the number of matches; building, opening, merging and hashing to the files and bytes; a posting query to the lists it reads; a request to the repositories it names; starting to the repositories configured.",
 "inputs", "all patterns (nested repetitions, counted gaps, patterns that span lines) over all shapes of text (one endless line, blank lines, a match on each line, none at all), all trees and numbers of repositories",
 "Tests use inputs of a few lines on which quadratic work takes no time; on a large repository it makes the server unresponsive.",
 ["index/grep.go", "index/index.go", "codesearch/regexp/match.go", "codesearch/index/read.go", "codesearch/index/write.go", "vcs/local.go", "api/api.go"],
 [("reading and matching a file", "index/grep.go fillFrom/grep2; codesearch/regexp/match.go"), ("posting queries", "codesearch/index/read.go postingQuery"), ("building", "index/index.go indexAllFiles; codesearch/index/write.go"), ("requests to many repositories", "api/api.go searchAll")],
 "runtime monitor: processor time, allocation and I/O counters of each operation at one size and at 16 times that size, compared with the growth allowed", "exploration",
 "Held for the operations, patterns and shapes listed; only growth beyond 64 times at 16 times the size is reported.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": [p["over"]], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")

done = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
checks, na = [], []
for p in P:
    if p["id"] in done:
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
