#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run after editing)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"state":state} if state else {}),
                   observe_at=observe or [],hook_needed=hook)))

p("S01","Multi-segment reader equals the concatenation of its segments",
 "A reader assembled from sized segments behaves, for Read, Seek, ReadAt and Close in any order and with any buffer sizes, exactly like one reader over the concatenated bytes: same bytes, same offsets, end-of-file exactly at the end, invalid seeks refused without moving. Positioned reads never disturb the sequential position, and positioned reads issued concurrently each return the bytes of their own range. Any number of segments, including empty ones, is allowed.",
 ["inputs","histories","schedules"],"every segment list (0..100 segments, empty ones, sources returning short reads or data together with EOF), every Read/Seek/ReadAt history, concurrent ReadAt schedules",
 "The tests check a handful of fixed segment lists with io.ReadAll and testing/iotest; histories that seek into the middle, cross several borders and continue, or run concurrently, are unbounded.",
 ["stream/multi_read_at_closer.go","stream/multi_read_closer.go"],
 [("prefix-sum segment search (linear/binary)","stream/multi_read_at_closer.go"),("sequential cursor kept apart from ReadAt","stream/multi_read_at_closer.go")],
 ["bytes, n, error of each call against bytes.Reader over the concatenation"])

p("S02","Mis-sized or failing segments are reported, never silently spliced or dropped",
 "When a segment delivers fewer or more bytes than its declared size, or fails, the multi-segment reader reports an error no later than in the call that reaches the discrepancy and never reports a clean end of file short of the declared total; everything delivered without error is the correct prefix. Closing a multi reader closes every source exactly once, even when some closes fail, and reports every failure.",
 ["inputs","fault_sequences"],"segment lists where any subset of segments is short, long or fails at any byte, with data-with-error and error-alone styles; any subset of failing closes",
 "Existing tests cover one short and one long segment read through io.ReadAll; which segment, at which byte, through which call (Read or ReadAt) is a product space.",
 ["stream/multi_read_at_closer.go","stream/multi_read_closer.go"],
 [("declared-size check per segment","stream/multi_read_at_closer.go"),("gathering Close","stream/multi_read_closer.go")],
 ["returned bytes versus logical content","error identity","close counters of sources"])

p("S03","Random access over a sequential source returns the right bytes, opens sparingly",
 "Random-access reads served from a source that can only be opened at an offset and read forward return exactly the bytes of the content at the requested offset for any read history, and fail rather than return other bytes when the source fails. A strictly sequential run of reads opens the source once; every stream opened is closed no later than the adaptor's Close.",
 ["inputs","histories","fault_sequences"],"every ReadAt history over any size, sources with short reads, failures and early EOF",
 "Tests use a few fixed read patterns with a well-behaved source; the pairing of jump, overlap, EOF and failure is unbounded.",
 ["stream/seq_reader_at.go"],[("position tracking, reopen on jump","stream/seq_reader_at.go")],
 ["bytes per call","open/close log of the source"])

p("S04","A cancellable stream stops at cancellation and its first error is final",
 "A reader bound to a context delivers only a prefix of its source, reads nothing from the source once it has observed the context to be cancelled, and reports the context's error. After its first error, whatever it was, every later call reports that same error and the source is not touched again.",
 ["inputs","schedules","fault_sequences"],"every read history, source error at any byte, cancellation before, between or concurrently with reads",
 "Tests cancel at one fixed point; cancellation racing with reads and error-with-data cases are not enumerated.",
 ["stream/cancellable.go"],[("sticky error, context check before read","stream/cancellable.go")],["source read log against cancellation instant","error identity of later calls"])

p("H01","A remote object reader never mixes two versions or serves unrequested bytes",
 "Every byte an HTTP range reader returns for an offset is the byte of that offset in the one object version it pinned at start; when the server changes the object, ignores or alters the range, truncates or over-delivers the body, re-encodes it, or answers with inconsistent metadata, the read fails instead. No response makes it panic, loop forever or report a clean end before the object's real end.",
 ["inputs","fault_sequences","histories"],"every sequence of server responses (200/206/416/other, any Content-Range/ETag/Last-Modified/Content-Encoding/length combination, truncation, object swapped between or during responses, redirects) against every read history",
 "The tests script individual responses; the cross product of response faults, validator kinds and read positions is not sampled.",
 ["stream/httprange/httprange.go","stream/httprange/reader_at.go","stream/httprange/stream.go","stream/httprange/probe.go","stream/httprange/content_range.go"],
 [("pinned metadata checked on every response","stream/httprange"),("If-Range / validators","stream/httprange"),("Content-Range and length checks","stream/httprange")],
 ["bytes returned versus the pinned version","error on every deviation"])

p("H02","HTTP range reader equals a local section reader, cheaply and without leaks",
 "Against an honest server, for any history of positioned, sequential and seeking reads by any number of goroutines, a range reader (whole object or sub-range) returns exactly what a section reader over the object's bytes returns. Reading in order front to back costs one body request; Close makes every blocked and later read fail promptly, and afterwards no response body, connection or goroutine of the reader remains.",
 ["histories","schedules","inputs"],"every read history and interleaving, sub-ranges incl. empty and past-the-end ones, Close concurrent with reads, caller contexts cancelled at any moment",
 "Tests use short fixed histories and one or two goroutines; interleavings of detach, kill and Close are scheduling dependent.",
 ["stream/httprange/reader_at.go","stream/httprange/stream.go","stream/httprange/range.go"],
 [("stream lane with atomic position","stream/httprange/stream.go"),("Close cancels in-flight requests","stream/httprange")],
 ["bytes per call against io.SectionReader","server request log","body open/close balance, goroutine count after Close"])

p("H03","Secrets in request URLs never reach error messages",
 "No error produced by the HTTP range reader or the HTTP file-server client, whatever failed (dialling, redirects, status, validation, body, context), contains the password, query string or other credential parts of the URL it was given or redirected to. This holds for the error text and for everything reachable by unwrapping it.",
 ["inputs","fault_sequences"],"every URL with userinfo/query/fragment secrets and every failure point incl. transport errors that themselves quote the URL and redirect chains",
 "Tests check one or two error sites; every failing path builds its own error.",
 ["stream/httprange/redact.go","stream/httprange/errors.go","stream/fileserver/client.go"],
 [("URL redaction","stream/httprange, stream/fileserver")],["error text and unwrapped chain scanned for planted secrets"])

p("F01","Chunked transfers reassemble exactly the uploaded bytes despite interruptions",
 "Uploading content through the chunked sink with any interruptions, retries and resumptions from the state it reports, then reading it back through the chunked source from any offset, yields exactly the original bytes. The state reported after an interruption is always a correct prefix and complete only when everything is stored; a source that ends early, a failing or truncated request and a response for another range are reported as errors, no temporary file is left behind by any outcome, and a sequential read fetches each chunk once.",
 ["inputs","fault_sequences","crash_points"],"content sizes around chunk borders, chunk sizes, failures of any request, truncated bodies, resumes from any reported offset, read offsets",
 "Tests do one round trip per size with at most one failure; interruption sequences are unbounded.",
 ["stream/fileserver/client.go","stream/fileserver/chunk.go"],[("per-chunk PUT with prefix state","stream/fileserver"),("lazy per-chunk GET at offset","stream/fileserver")],
 ["server store content","reported state versus accepted chunks","temp dir content after each call"])

p("U01","Safe write leaves the old file or the whole new one, and no litter on failure",
 "At every instant of a safe write, including a crash after any file-system step and a failure of any step or hook, the target path holds either its previous state or the complete new content with the requested mode (filtered by the umask, owner write always granted), never a partial or mixed file. When the write fails the error is returned, the previous target is intact and no temporary file remains (unless removing it failed as well); when it succeeds no temporary file remains either.",
 ["crash_points","fault_sequences","inputs"],"every file-system call of a safe write as crash point or failing call, every temp policy, hook failures, short writes, source read errors, concurrent writers to one target",
 "Tests inject a few failures by hand; crash and fault points between the calls are not enumerated and concurrent writers are not interleaved.",
 ["fsutil/safe_write.go","fsutil/open_random.go"],[("temp file, hooks, rename","fsutil/safe_write.go"),("cleanup on error","fsutil/safe_write.go")],
 ["state of the backing fs after every call","returned error"])

p("U02","Resumable pull commits exactly one complete source version",
 "A resumable download that reports success leaves at the destination exactly the bytes of one single version of the source with the declared length, no matter how earlier attempts were cut off, failed, crashed, or how the source changed between attempts; this presumes a source that never changes or whose every open names its version by ETag, and a destination already present with the declared size counts as complete. An interrupted attempt never touches the previous destination and leaves at most a partial file that later attempts either continue or discard; attempts against a stable healthy source eventually succeed.",
 ["crash_points","fault_sequences","histories"],"attempt sequences with faults or crashes at any file-system or source call, source versions changing between attempts with or without validators and sizes, leftovers of earlier attempts",
 "Tests resume once from a clean cut; multi-attempt histories with version changes and crashes between part and sidecar updates are not sampled.",
 ["fsutil/resumable.go","fsutil/resumable_fs.go"],[("part + validator sidecar","fsutil/resumable.go"),("commit by rename","fsutil/resumable.go")],
 ["destination content after every attempt","remaining files"])

p("U03","Resumable push commits exactly one complete source version",
 "A resumable upload that reports success leaves in the sink exactly the bytes of the pushed source version, including empty sources, no matter how earlier attempts to the same name were cut off, failed or crashed, and whichever versions they carried; versions are told apart by their ETag, and a name the sink already reports as complete is left as it is. Until then the committed content is the previous one, and repeating the push against a healthy sink eventually succeeds.",
 ["crash_points","fault_sequences","histories"],"attempt sequences with faults or crashes at any sink file-system call, sources of any size (0 included), versions changing between attempts with or without validators",
 "Tests push twice around one clean interruption; stale part files of other versions and empty sources are not covered.",
 ["fsutil/resumable.go","fsutil/resumable_fs.go"],[("state validation by validator and size","fsutil/resumable.go"),("sidecar written before data","fsutil/resumable_fs.go")],
 ["committed content after every attempt"])

p("U04","Temp naming: never collides, never matches or deletes what is not its own",
 "Concurrently created random files and directories always get distinct, previously absent names, and no existing entry is opened or truncated. A temp policy recognises every temp name it created and no ordinary file, and cleaning a tree with it removes exactly the temporary entries and nothing else.",
 ["inputs","schedules","configurations"],"every prefix/suffix/directory configuration and pattern, any population of the tree, any number of concurrent creators",
 "Tests use one or two patterns and no concurrency on a crowded directory.",
 ["fsutil/open_random.go","fsutil/safe_write.go"],[("O_EXCL creation with retry","fsutil/open_random.go"),("policy Match / WalkFunc","fsutil/safe_write.go")],
 ["created names, tree before/after cleaning"])

p("U05","Tree copy reproduces the source exactly or reports an error",
 "Copying a tree or a selected list of paths reproduces in the destination every selected entry with the same kind, content, permission bits and link target, and nothing else; entries outside the selection and already present unrelated destination files are untouched, and a destination entry of another kind makes the copy fail (symbolic links there are followed). If any read, write, close, chmod or link step fails the copy returns an error.",
 ["inputs","fault_sequences"],"random source trees (files, empty files and directories, nested restrictive modes, symlinks), path selections in any order, failure of any single file-system call",
 "Tests copy one fixed tree and inject few faults.",
 ["fsutil/copy_fs.go"],[("walk and copyEntry","fsutil/copy_fs.go")],["destination tree versus source tree","error returned"])

p("U06","Path resolution agrees with the kernel and never leaves the root",
 "Resolving a path through symbolic links yields the same real path the operating system reaches, for any arrangement of relative links, chains, links through linked directories and parent references, and keeps the last element unresolved when asked to. Paths that would leave the root or cycle are refused with the escape respectively loop error, never resolved to something else.",
 ["inputs"],"every tree of directories, files and symlinks (relative, absolute, dangling, cyclic) and every path over it",
 "Tests hold a table of hand-picked link layouts.",
 ["fsutil/resolve_symlink.go"],[("component walk with link expansion","fsutil/resolve_symlink.go")],["resolved path versus a kernel oracle (openat within root)"])

p("U07","String and path helpers keep their contracts for every input",
 "UTF-8 truncation returns the longest prefix within the byte limit that does not cut a rune; path iteration from head or tail yields every ancestor exactly once in order and ends at the path itself; error wrapping keeps the cause findable, never double-wraps into nonsense and keeps nil nil. None of them panics on any input.",
 ["inputs"],"all strings incl. invalid UTF-8, empty, negative/zero/huge limits; all relative and absolute paths",
 "Tests are example tables.",
 ["fsutil/truncate_utf8.go","fsutil/pathutil/head_tail.go","fsutil/wrap_path_err.go","fsutil/chmod_mask.go"],[("pure functions","fsutil")],["return values versus an independent specification"])

p("T01","A mounted tar shows exactly the archive's entries and bytes",
 "For every well-formed archive, the file system view lists each entry exactly once under its cleaned path (the last entry of a name wins), creates missing parent directories, and serves for each file the same content, size, mode, modification time and link target the archive records, including sparse holes as zero bytes. Symbolic and hard links resolve to the entries they name, links leaving the archive are refused, and sequential, positioned and seeking reads agree with each other.",
 ["inputs","histories"],"random archives in USTAR, PAX, GNU and sparse formats with missing parents, duplicates, replaced kinds, links in any order, odd names, and random read histories",
 "Tests use the fixture archives of the Go distribution and one or two handmade ones.",
 ["tarfs/fs.go","tarfs/headers.go","tarfs/ent.go","tarfs/entdir.go","tarfs/entfile.go"],[("header indexing, last wins","tarfs/fs.go"),("sparse map to section readers","tarfs/entfile.go, tarfs/copied_go_std.go"),("link resolution","tarfs")],
 ["tree walk and reads versus archive/tar plus an independent model"])

p("T02","No archive, however malformed, panics, hangs or misleads the tar reader",
 "Opening and exploring any byte sequence as an archive either fails with an error or yields a view whose operations all terminate without panic, whose listings agree with its lookups, and whose reads stay within the declared sizes and the archive's bytes. A truncated or corrupted file body is reported as an error and never returned as complete content.",
 ["inputs"],"mutated and truncated real and synthetic archives, cyclic and self-referential links, extreme sizes and sparse maps",
 "No fuzzing exists; tests open only intact archives.",
 ["tarfs"],[("header iteration and bounds","tarfs"),("sparse map validation","tarfs")],["panics, watchdog, listing/lookup consistency, read bounds"])

p("T03","Open tar handles are independent of each other under concurrency",
 "Any number of goroutines opening, reading, seeking, listing and closing handles of one tar view concurrently each observe exactly what they would observe alone, without data races. Closing one handle does not affect another, and a closed handle refuses further reads.",
 ["schedules","histories"],"all interleavings of handle operations on shared and distinct files, links included",
 "Tests run sequentially.",
 ["tarfs"],[("section readers per handle","tarfs"),("immutable tree","tarfs")],["race detector","per-handle results versus sequential run"])

p("V01","Nothing reached through a rooted file system lies outside its root",
 "No operation of a rooted file system (OS-backed roots, their sub-roots, in-memory roots, overlay roots, path-prefixed views and their io/fs adapters) reads, reveals, creates, changes or removes anything outside its root directory, whatever path strings, symbolic links, renames or concurrent link swaps are involved. Attempts fail, and lexical or symlink escapes are reported as the path-escape error.",
 ["inputs","histories","schedules"],"hostile path strings and symlink layouts for every operation and every rooted implementation, with links being swapped concurrently for the OS-backed root",
 "Tests try a fixed list of escaping links for each method.",
 ["vroot/osfs/root.go","vroot/pathprefix.go","vroot/synthfs/tree.go","vroot-adapter/overlayfs/resolve.go","vroot/iofs_to.go","fsutil/resolve_symlink.go"],
 [("os.Root","vroot/osfs/root.go"),("IsLocal checks","all implementations"),("boundary check in walk","vroot/synthfs/tree.go")],
 ["canary tree outside the root unchanged and never read","error identity"])

p("V02","The in-memory file system behaves like the OS one for any operation history",
 "For any sequence of creates, opens with any flag combination, reads, writes, seeks, truncations, renames, links, removals, directory operations, mode and time changes, the in-memory file system succeeds and fails exactly where the operating system's does (rooted, on clean relative names), for absent, existing and escaping names with the same kind of error, and leaves the same tree, contents, modes, link structure and handle behaviour. Hard-linked names share their content, not their modes. Size and kind reported by directory listings agree with Stat.",
 ["histories","inputs"],"random operation histories over a small name space with symlinks, hard links and open handles held across renames and removals",
 "Acceptance tests run each method in isolation on a fixed fixture.",
 ["vroot/memfs","vroot/synthfs"],[("tree with per-name nodes","vroot/synthfs"),("shared memory buffer","vroot/synthfs/view_mem_buf.go")],
 ["per-op outcome class and full tree dump versus the kernel via os.Root"])

p("V03","Path-mapping and OS-backed file systems preserve the semantics beneath them",
 "An OS-backed file system, a path-prefixed view, a sub-root, a name-normalising or localising wrapper and the widening adaptor give for any operation history the same outcomes and final tree as the same history applied directly to the mapped paths. Open handles keep working as the plain ones do, and refusals have the same kind of error.",
 ["histories","inputs","configurations"],"random operation histories over each wrapper and nestings of wrappers",
 "Acceptance tests run each method in isolation on a fixed fixture.",
 ["vroot/osfs","vroot/pathprefix.go","vroot/pathnormalizer.go","vroot/widen.go"],[("path mapping per call","vroot")],["per-op outcome and tree dump versus direct application"])

p("V04","A read-only wrapper never lets a change through",
 "Through a read-only wrapper of a file system, root or file, no call of any kind (paths, handles, sub-roots, adaptors obtained from it) changes anything beneath, and each mutating call fails. Reading through it gives exactly what reading directly gives.",
 ["histories","inputs"],"every method with every flag combination and every object reachable from the wrapper",
 "Tests check each method once with one flag set.",
 ["vroot/readonly.go"],[("mutators replaced by refusals","vroot/readonly.go"),("open flag filter","vroot/readonly.go")],["mutation log of the inner fs","tree before/after"])

p("V05","Concurrent use of the in-memory file system is race-free and linearizable",
 "Operations issued concurrently on one in-memory file system, its sub-roots and shared open files have no data races or deadlocks, and their results are those of some sequential order consistent with real time. In particular appends through different handles never overwrite each other and exclusive creation succeeds exactly once.",
 ["schedules","histories"],"concurrent histories of path operations and handle operations over few names",
 "Race acceptance tests run two methods against each other and check only for data races.",
 ["vroot/synthfs"],[("tree RWMutex","vroot/synthfs/tree.go"),("buffer RWMutex","vroot/synthfs/view_mem_buf.go")],["race detector","porcupine linearizability of recorded histories","append conservation"])

p("V06","io/fs adaptors show the same tree in both directions",
 "Wrapping a file system as an io/fs one shows exactly the same names, kinds, contents, sizes, modes and link targets, satisfies the io/fs contract for every tree, and rejects paths invalid there. Wrapping an io/fs file system shows the same tree read-only, refusing every mutation.",
 ["inputs","histories"],"random trees on every backing file system, random paths (valid and invalid), random read histories on the handles",
 "fstest runs on one fixed tree.",
 ["vroot/iofs_from.go","vroot/iofs_to.go"],[("method mapping","vroot/iofs_to.go, vroot/iofs_from.go")],["walk of both sides","fstest.TestFS"])

p("V07","Tree walking visits everything exactly once, terminates and honours skips",
 "Walking a tree calls the visitor exactly once for each entry reachable from the root in lexical order, parents before children, with matching info and real path; SkipDir and SkipAll have their io/fs meaning. With link following it descends linked directories, reports each link's real location, never loops, and an error the visitor chooses to ignore does not cut short the rest of the walk.",
 ["inputs","fault_sequences"],"random trees with links and link cycles, visitors skipping or stopping anywhere, failing or vanishing entries",
 "Tests compare a few golden trees; failing entries and random skips are not sampled.",
 ["vroot/walk.go"],[("recursive walk with visited set","vroot/walk.go")],["visit log versus an independent walk"])

p("V08","Composing trees into a synthetic file system follows the merge decision exactly",
 "Adding files and whole trees to a synthetic file system yields exactly the tree obtained by applying, entry by entry, the resolver's decision: skip drops, keep preserves what exists (merging directories), override replaces. Sources are never modified, contents read back equal the source's (whole or sub-range views), refused or failing additions do not disturb other entries, and a view is released exactly when the last name that refers to it goes away.",
 ["histories","inputs","configurations"],"random sequences of additions of random trees at random places with the built-in and arbitrary resolvers, mixed with ordinary operations",
 "Tests add two or three files with each resolver.",
 ["vroot/synthfs/add.go","vroot/synthfs/add_decision.go","vroot/synthfs/view.go","vroot/synthfs/view_fs.go","vroot/synthfs/view_bytes.go"],
 [("resolver consulted per entry","vroot/synthfs/add.go"),("view close on unlink","vroot/synthfs/remove.go")],["tree dump versus a merge model","view open/close log"])

p("V09","Paged directory listing returns every entry exactly once",
 "Reading a directory handle in pages of any sizes returns every entry that is present throughout the scan exactly once, then end-of-directory, and agrees with reading all at once, by any of the three listing forms; entries removed or added during the scan appear at most once and never hide others. Rewinding the handle restarts the listing. This holds for every file system offered here that lists directories.",
 ["histories","configurations"],"page sizes, listing forms, rewinds and mutations between pages, over OS, in-memory, tar, overlay, sftp and adaptor directories",
 "Tests read a three-entry directory in pages without mutation.",
 ["vroot/synthfs/handle_dir.go","tarfs/entdir.go","vroot-adapter/overlayfs/file.go","vroot-adapter/sftpfs/sftpfs.go","vroot/iofs_from.go"],
 [("cursor over entries","per implementation")],["multiset of returned names versus the directory"])

p("V10","Advisory locks exclude each other as promised",
 "While one handle holds an exclusive lock no other handle of the same file holds any lock, shared locks coexist, and a lock is obtainable again after unlock or close; upgrades and downgrades end in the requested level. Lock calls that wait are woken when the lock becomes free.",
 ["schedules"],"concurrent lock/unlock/convert/close histories of many handles within and across processes",
 "Tests lock once from two handles.",
 ["vroot/osfs/lock_unix.go","vroot/lock.go","vroot-adapter/overlayfs/file.go"],[("flock","vroot/osfs/lock_unix.go")],["holder-set monitor around every critical section"])

p("V11","A synthetic file system keeps to the options it was made with",
 "Through any history, entries made by a synthetic file system have the requested permissions minus the configured umask, bound views keep their own mode and time, Chmod by name or handle sets what the configured mask makes of the mode, and every other timestamp comes from the configured clock or from Chtimes; each created file gets one view of the configured allocator, and a failing allocation creates nothing. With open-file removal disabled, Remove of an entry fails and changes nothing while a handle opened on that entry is open, and succeeds once all its handles are closed, whichever way they were opened and however often they are closed.",
 ["histories","configurations","schedules"],"random histories of all operations under random options, and opens, closes and removals in parallel",
 "Tests set one option each and check one operation.",
 ["vroot/synthfs/option.go","vroot/synthfs/open.go","vroot/synthfs/remove.go","vroot/synthfs/handle.go","vroot/synthfs/handle_dir.go","vroot/synthfs/mkdir.go","vroot/synthfs/chmod.go","vroot/synthfs/add.go"],
 [("umask at creation, mask at chmod","vroot/synthfs/open.go, mkdir.go, tree.go"),("reference counts of open handles","vroot/synthfs/handle.go, handle_dir.go, remove.go")],["mode and modification time of every entry after every operation","allocator log","removal outcome versus open handles"])

p("O01","The overlay shows the union of its layers through any history",
 "For any stack of layers and any operation history, the overlay succeeds, fails and reads exactly like an ordinary file system initially holding the union (upper entries shadow lower ones, whiteouts and opaque directories mask), except for the documented refusals. Listing, Stat, Open, ReadLink and walking always agree with each other, and changing one entry leaves the visible attributes and contents of all others unchanged.",
 ["histories","configurations","inputs"],"random layer stacks (plain and canonical lowers, conflicting kinds, symlinks), random histories on overlays over in-memory and OS layers, sub-overlays included",
 "Tests script individual scenarios; deep histories over multi-layer conflicts are unbounded.",
 ["vroot-adapter/overlayfs"],[("lookup and masking cut","vroot-adapter/overlayfs/merged.go, state.go"),("copy-up gate","vroot-adapter/overlayfs/write.go, copyup.go")],
 ["per-op outcome and full merged dump versus a reference file system model"])

p("O02","Lower layers are never modified",
 "Whatever is done through an overlay, its sub-overlays and the handles it returned, every lower layer (content, metadata and masking state) stays bit-for-bit as it was and receives no mutating call. Handles reading from a lower refuse writes and attribute changes.",
 ["histories","configurations"],"all operations and handle methods over random stacks and histories",
 "Tests check a few operations on one lower.",
 ["vroot-adapter/overlayfs"],[("copy-up before every write","vroot-adapter/overlayfs/write.go"),("read-only handle for lowers","vroot-adapter/overlayfs/fs.go")],["mutation log of each lower","lower dump before/after"])

p("O03","Closing and reopening or restacking an overlay shows the identical view",
 "After any history, closing the overlay and opening it again over the same layers, or stacking its closed top as a lower beneath a new empty top over the same lowers (writable or read-only), shows exactly the view it showed before. No completed change is lost, no deleted name comes back, and staging leftovers are gone.",
 ["histories","configurations"],"histories of any length with reopen/restack at any point, repeated",
 "Tests restack after a fixed script.",
 ["vroot-adapter/overlayfs"],[("write-through masking store","vroot-adapter/overlayfs/state.go"),("canonical lower masks","vroot-adapter/overlayfs/merged.go")],["dump before and after reopen/restack"])

p("O04","A crash or fault during one overlay operation corrupts nothing else",
 "If an overlay operation fails or the process dies after any step of its writes to the top layer or the masking store, then after reopening every name the operation does not concern is unchanged, each concerned name shows its state before or after the operation, and no previously deleted or replaced lower content reappears. Files are never seen partially copied up.",
 ["crash_points","fault_sequences","histories"],"every top-layer or store mutation of every operation after a random history, as crash point and as failing call",
 "No test injects faults or crashes systematically.",
 ["vroot-adapter/overlayfs"],[("staging and publish by rename","vroot-adapter/overlayfs/copyup.go"),("mask-before-drop ordering","vroot-adapter/overlayfs/remove.go, mkdir.go, rename.go")],["dump after reopen versus the set of admissible dumps"])

p("O05","Concurrent overlay operations are race-free and linearizable",
 "Operations issued concurrently through one overlay and its sub-overlays have no data races or deadlocks and return results of some sequential order consistent with real time; concurrent writers of one lower file all act on a single copied-up file and no write is lost.",
 ["schedules","histories"],"concurrent histories over few names with lower-backed files, with delays injected in layer calls",
 "Tests run with -race on two fixed scenarios.",
 ["vroot-adapter/overlayfs"],[("coarse RWMutex","vroot-adapter/overlayfs/state.go"),("re-check before copy-up","vroot-adapter/overlayfs/write.go")],["race detector","porcupine linearizability","final dump"])

p("O06","The masking store is an exact, durable and crash-safe set of marks",
 "For any sequence of mark and unmark calls with any spelling of names, loading returns exactly the marks the sequence leaves (a whiteout drops marks beneath it, equal spellings address one node), also after closing and reopening, over every backing file system. If the process dies or the backing file system fails at any write, the reopened store holds exactly the marks before or after the interrupted call and every call that returned success is kept.",
 ["histories","crash_points","fault_sequences","inputs"],"random call sequences and names (slashes, dots, percent, unicode, prefix-related siblings), every write/truncate/sync/delete of the backing file system as crash or fault point",
 "The contract test scripts about a dozen cases; no crash is injected.",
 ["vroot-adapter/overlayfs/metadatastore_sqlite.go","vroot-adapter/overlayfs/internal/sqlvfs"],[("one transaction per setter","vroot-adapter/overlayfs/metadatastore_sqlite.go"),("VFS over the layer","vroot-adapter/overlayfs/internal/sqlvfs")],["Load versus a map model"])

p("O07","Open overlay handles stay valid and, when configured, pin their names",
 "A handle obtained from an overlay keeps serving the file it was opened on, whatever happens to the name afterwards, and after close refuses use. With open-file protection configured, removing a name (or a tree containing it) fails while any handle on it is open, leaves everything in place, and succeeds once all are closed, whichever way and however often they are closed.",
 ["histories","schedules"],"open/close/remove/rename/copy-up interleavings with many handles on few names",
 "Tests hold one handle over one removal.",
 ["vroot-adapter/overlayfs/file.go","vroot-adapter/overlayfs/remove.go"],[("handle counting per name","vroot-adapter/overlayfs/file.go")],["handle reads versus content at open","removal outcome versus open count"])

p("P01","The SFTP file system behaves as its remote directory",
 "Through a conforming SFTP server, any operation history has the same outcomes and leaves the same remote tree, contents and modes as the history applied to the remote directory directly, within what the protocol can express; existing files and directories keep their permission bits unless a mode change is asked for. Listings hand out every entry exactly once, however they are paged or rewound, and path strings that climb out of the base directory are refused. When the connection breaks, whatever was reported to succeed has happened, and later operations fail without claiming that names are missing or present.",
 ["histories","inputs","fault_sequences"],"random operation histories over an in-process SFTP server on a scratch directory, hostile path strings",
 "Tests run the acceptance fixture method by method.",
 ["vroot-adapter/sftpfs/sftpfs.go"],[("path join on base","vroot-adapter/sftpfs/sftpfs.go"),("error mapping","vroot-adapter/sftpfs/sftpfs.go")],["per-op outcome and remote tree dump versus direct application"])

p("R01","Nothing is left open that nobody asked to keep",
 "When an operation returns, whether it succeeded, failed at any point, was cancelled or met a failing callback, every file, directory, staging or source handle and every goroutine it started on its own behalf is released; a handle, sub-tree or file system handed to the caller holds exactly what it needs until it is closed, and closing it releases everything beneath, even when some of that fails to close. A file system the caller still owns is never closed by an operation merely given it.",
 ["fault_sequences","histories","configurations"],"every single failing call of every helper, random histories with random faults through wrappers, synthetic trees and overlays, mounting and closing with faults, real descriptors under OS-backed, SFTP and SQLite-backed trees",
 "Tests look at results; a leaked handle on a rare error path shows only when descriptors run out, or on Windows as a file nobody can remove.",
 ["fsutil","vroot","vroot/synthfs","vroot-adapter/overlayfs","vroot-adapter/sftpfs"],
 [("closing on error paths","fsutil/safe_write.go, resumable.go, resumable_fs.go, copy_fs.go, vroot/funcs.go, vroot/synthfs/open.go, view_fs.go, vroot-adapter/overlayfs/copyup.go, metadatastore_sqlite.go, fs.go")],["open handles of watched file systems after every call","/proc/self/fd under the scratch directory","goroutine dump at the end"])


with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
