import json
L="scutiger-lfs/src/backend/local.rs"; P="scutiger-lfs/src/processor.rs"; G="scutiger-lfs/src/bin/git-lfs-transfer.rs"; K="scutiger-core/src/pktline.rs"; E="scutiger-core/src/errors.rs"; A="scutiger-bin/src/bin/git-at.rs"; R="scutiger-bin/src/bin/git-recent-refs.rs"
out=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":None}})
OBJ=("objects/","object files named by their SHA-256",L+": LocalBackend"); LCK=("locks/","one file per held lock, named by a hash of the path",L+": LocalLockBackend"); INC=("incomplete/","temporary upload files",L+": start_upload")
WIRE="stdin/stdout of git-lfs-transfer"; FS="the lfs directory between file-system calls"

p("C01","Stored objects always match their identifiers",
 "At every instant, every object visible in the store under an identifier has content whose SHA-256 is that identifier. This includes the instants during concurrent uploads, after a rejected, aborted or interrupted upload, and after a server process is killed.",
 ["inputs","schedules","crash_points"],"all upload requests (any declared size, body, packetisation), all interleavings of concurrent sessions, a kill at any file-system call",
 "The tests check final files of three one-session transcripts; they never look at the store while an upload is in progress, run two servers at once, or kill one.",
 [L,P],[("hash while reading, compare, then rename into place",P+": put_object"),("temporary file in incomplete/, atomic rename",L+": start_upload, finish_upload")],[OBJ,INC],[FS,WIRE])
p("C02","Uploads are all-or-nothing and honestly acknowledged",
 "An upload is answered with success exactly when its body is complete, has the declared length and hashes to the named identifier (storage permitting), and after that success the object is available to every later batch, verify and download request. Every other upload is answered with a non-success status and leaves the set of stored objects as it was.",
 ["inputs","schedules","histories"],"all uploads: sizes 0 and up, wrong/short/long/missing/unparsable sizes, wrong digests, any packetisation, repeated uploads, after any history of earlier requests",
 "The tests upload two small correct objects and one object with one wrong byte; sizes, missing arguments, empty and large bodies, re-uploads and odd packetisations are not sampled.",
 [P,L],[("size and digest comparison before finish_upload",P+": put_object"),("persist by rename",L+": finish_upload")],[OBJ,INC],[WIRE,FS])
p("C03","Stored objects are never lost or altered",
 "Once an object is stored it stays present and byte-identical at every later instant, in every session: uploading the same object again, rejected uploads, lock operations, downloads, concurrent sessions and killed servers never remove, truncate, replace with other bytes or temporarily hide it.",
 ["histories","schedules","crash_points"],"all histories of requests over several sessions, all interleavings with re-uploads of the same object, a kill at any file-system call",
 "The tests never re-upload an object, never look between file-system calls and never run two sessions concurrently.",
 [L,P],[("atomic replacing rename",L+": finish_upload"),("no deletion of objects anywhere",L)],[OBJ],[FS,WIRE])
p("C04","Downloads return exactly the stored bytes",
 "Downloading a stored object answers success with its exact length as the size and exactly its bytes, whatever its length or content and whatever other sessions do meanwhile. Downloading an identifier that is not stored answers 404 with no object data.",
 ["inputs","schedules","histories"],"all object lengths (0, around packet and buffer sizes, large) and contents, present and absent identifiers, interleavings with uploads of the same object",
 "One 32-byte object is downloaded by one test; empty, packet-sized and multi-packet objects, absent objects and concurrent uploads are not.",
 [P,L,K],[("size argument from metadata, streamed copy in packets",P+": get_object, send_status"),("404 mapping",P+": get_object")],[OBJ],[WIRE])
p("C05","Batch answers describe every requested object truthfully",
 "A well-formed batch request is answered with exactly one line per requested object, in request order, naming that object. The line says noop (upload session) or download (download session) with the stored length if the object is present, and upload (upload session) or noop (download session) with the length the client gave if it is absent.",
 ["inputs","histories","schedules"],"all lists of identifiers (empty, repeated, mixed present/absent) and declared sizes, in both modes, after any history, concurrently with uploads",
 "The tests send the same two-line batch against an empty store, and one download batch; order, duplicates, size disagreements and presence after failed uploads are not sampled.",
 [P,L],[("per-line mapping to actions",P+": batch_data, read_batch"),("presence and size lookup",L+": batch")],[OBJ],[WIRE])
p("C06","Verification reports exactly presence and size",
 "Verifying an object in an upload session succeeds exactly when the object is stored with the given length; it answers 404 if the object is not stored and 409 if it is stored with another length. Verification never changes the store.",
 ["inputs","histories"],"all identifiers and sizes (including 0, off by one, very large), after any history of uploads accepted or refused",
 "The tests verify three cases on small objects; off-by-one and extreme sizes, empty objects and verification after refused uploads are not sampled.",
 [L,P],[("length comparison",L+": verify")],[OBJ],[WIRE])
p("C07","The session mode limits what a client can do",
 "Whatever a client sends, a download session never creates, changes or removes an object or a lock, and an upload session never returns object content. Well-formed upload and verify requests in a download session and download requests in an upload session are answered 403; lock and unlock requests in a download session are refused with a 4xx status.",
 ["inputs","histories"],"every command in both modes with arbitrary arguments and bodies, in any sequence",
 "No test sends a command that the session's mode forbids.",
 [P,G],[("mode in the command dispatch",P+": process_commands")],[OBJ,LCK],[WIRE,FS])
p("C08","A path is locked by at most one client at a time",
 "Between the moment a lock request for a path is answered 201 and the moment an unlock of that lock takes effect, every other lock request for that path fails, and no two lock requests for the same path are both answered 201 without an unlock of it in between. While a path stays locked, the recorded holder, time and path of its lock do not change.",
 ["schedules","histories"],"all interleavings at file-system-call granularity of concurrent lock, unlock and list requests from several server processes, and all histories of sessions",
 "The only locking test is one sequential transcript in one process; mutual exclusion depends on the interleaving of several processes' file-system calls.",
 [L,P],[("exclusive hard link of a finished temporary file to the lock name",L+": LockFile"),("conflict handling",P+": lock")],[LCK],[FS,WIRE])
p("C09","Every lock attempt gets a definite, correct answer under contention",
 "A complete, well-formed lock request is always answered: 201 if and only if this request took the lock, or 409 with the details of a lock that was held on that path at some moment while the request was being served. Only if locks of that path disappeared at least twice while it was being served, or storage failed, may it be answered with an error status instead; the server never crashes or hangs on it, and one client's attempt never disturbs another client's attempt or lock.",
 ["schedules","fault_sequences"],"all interleavings at file-system-call granularity of lock requests racing with lock and unlock requests on the same and on other paths, including lock attempts left unfinished by killed servers",
 "No test runs two servers, so the retry path, the leftover-file path and the lost-race path are never executed.",
 [P,L],[("retry loop",P+": lock"),("temporary file handling and cleanup",L+": LockFile")],[LCK],[FS,WIRE])
p("C10","A killed server never leaves a lock half-made",
 "If a server is killed at any instant of a lock or unlock request, then in every later session the path is either locked or free, consistently: listing, locking and unlocking agree about it, a path that is not locked can be locked again, and a lock that is listed can be unlocked. Other locks are unaffected.",
 ["crash_points"],"a kill before every file-system call of lock and unlock requests, followed by any recovery sequence of list, lock and unlock requests",
 "No test interrupts the server.",
 [L,P],[("write to a temporary name, then hard link",L+": LockFile::write, persist"),("cleanup on drop",L+": LockFile::drop")],[LCK],[FS,WIRE])
p("C11","Lock listing shows every held lock exactly once, page by page",
 "Following next-cursor from the first page until none is given yields every lock that was held throughout exactly once, in ascending order of id, and nothing that was not a held lock. No page has more locks than the requested limit (at most 100), and a cursor is given exactly when more locks follow. A listing restricted to a path yields exactly that path's lock or, if the path is not locked, a 404.",
 ["inputs","histories","schedules"],"all sets of locks, all limits and cursors, upload and download sessions, listing concurrently with locking and unlocking",
 "One test lists one lock with limit 100; no test has a second page, a cursor or a path filter.",
 [P,L],[("cursor, limit and next-cursor computation",P+": list_locks, list_locks_for_path"),("sorted directory scan",L+": LockSetIterator")],[LCK],[WIRE])
p("C12","Unlock releases exactly the named lock, exactly once",
 "An unlock request is answered 200 with the lock's details exactly when it removed the lock with that id; afterwards that path is free. Each held lock is released by at most one unlock; an id that names no held lock is answered 404, a lock the operating system does not permit to be removed is answered 403, and no unlock ever removes a lock with another id.",
 ["inputs","schedules","histories"],"all ids (held, released, never used, malformed, path-like), all interleavings of concurrent unlocks and locks of the same path, any permissions",
 "One test unlocks one lock once.",
 [P,L],[("lookup by id, then removal",P+": unlock"),("removal of the lock file",L+": LocalBackendLock::unlock")],[LCK],[WIRE,FS])
p("C13","Lock details are faithful and stable",
 "For any path bytes the client may send, the id, path, creation time and owner reported when the lock is taken are the ones reported for it by every later conflict, listing and unlock answer; the path is byte-for-byte the requested one, the time is the second in which the lock was created and the owner is the user whose server created it. Different paths get different ids, and the same path always gets the same id.",
 ["inputs","histories","schedules"],"all path byte strings up to 4 KiB (empty, spaces, colons, equals signs, newlines, non-UTF-8), creation at any moment including across a clock tick, any user",
 "One test locks the path foo with a fixed clock injected.",
 [L,P],[("lock file format and parser",L+": LocalBackendLock::parse, hash_for, create"),("argument and listing rendering","scutiger-lfs/src/backend.rs: Lock::as_arguments; "+L+": as_lock_spec")],[LCK],[WIRE])
p("C14","Lock ownership is reported relative to the asking user",
 "In an upload session every listed lock carries an owner mark that is ours exactly when the lock was created by the user running the asking server and theirs otherwise. A download session's listing carries no owner mark.",
 ["configurations","histories"],"all assignments of users to lock creators and listing clients, both modes, whole listings and path-restricted listings",
 "The tests run as one user, so theirs is never produced, and no test lists locks in download mode.",
 [L,P],[("owner from file ownership and current user",L+": user_for_file, current_user, as_lock_spec"),("mode dependent listing",P+": process_commands")],[LCK],[WIRE])
p("C15","Each request gets exactly one response, in order",
 "A client's requests are its packets up to and including each flush packet; the n-th response always answers the n-th request, and no part of a request, in particular no object data or argument of a refused request, is ever interpreted as a further request. A quit request is answered with success and ends the session.",
 ["inputs","histories"],"all sequences of well- and ill-formed requests (unknown commands, wrong mode, bad identifiers, bad or missing arguments, misplaced delimiters, bodies that look like requests) ended by flush packets",
 "The tests contain no refused request followed by another one except a digest mismatch, where the request had been read completely.",
 [P,K],[("reading to delimiter and flush",P+": PktLineHandler::read_to_type"),("command loop",P+": process_commands")],[],[WIRE])
p("C16","A request cut short has no effect",
 "If the client's input ends before the flush packet that completes a request, at whatever byte, that request changes no object and no lock and, unless it is quit, is not answered with success. Everything completed before it stands.",
 ["crash_points","inputs"],"truncation of every session transcript at every byte",
 "No test truncates its input; every transcript ends with a flush packet.",
 [P,K],[("end-of-input handling",P+": read_to_type; "+K+": iter")],[OBJ,LCK],[WIRE,FS])
p("C17","Malformed requests are refused as client errors without side effects",
 "A complete request that is malformed - unknown command or version, an identifier that is not 64 lowercase hex digits, a missing, negative, non-numeric or overflowing size, an argument without = or final newline or given twice, a malformed batch line, an unsupported hash algorithm, missing path or ref name, a zero limit - is answered with a 4xx status, changes nothing, and the next request is served normally. A well-formed request is never refused as malformed.",
 ["inputs"],"all single and combined deviations of every request type from its well-formed shape",
 "The tests cover an unsupported hash algorithm and a corrupt body only.",
 [P,E],[("argument, identifier and integer parsing",P+": ArgumentParser, Oid::new, read_batch"),("error kind to status mapping",P+": process_commands")],[OBJ,LCK],[WIRE,FS])
p("C18","No input crashes the server or garbles its output",
 "For every byte sequence on its input and every content of lock files, the server terminates by itself when its input ends, with exit status 0 or 2, without panicking. Its output is always a capability advertisement followed by well-formed responses: a three-digit status line, newline-terminated arguments, optionally a delimiter and data, and a flush packet.",
 ["inputs"],"all byte strings as input in both modes, including random bytes, mutated transcripts, extreme lengths and corrupt lock files in the store",
 "The tests feed seven hand-written transcripts.",
 [P,K,G,L],[("error handling in the command loop",P+": process_commands"),("pkt-line header parsing",K+": parse_header"),("exit status",G+": main; "+E+": exit_status")],[],[WIRE,"exit status"])
p("C19","pkt-line data survives encoding and decoding unchanged",
 "Whatever sequence of writes is made, the emitted stream consists of data packets of at most 65520 bytes each, header included, whose payloads concatenate to the bytes written. Reading such a stream back yields the same bytes in order and stops exactly at the flush or delimiter, however the transport splits it and whatever buffer sizes the reader uses.",
 ["inputs"],"all write sizes around and beyond the packet limit, all packetisations including empty packets, all transport chunkings, all read buffer sizes and sequences of them, several sections in one stream",
 "The tests read one megabyte through io::copy with six fixed packet sizes and one buffer size, and write one oversized buffer.",
 [K],[("chunking",K+": Writer::write"),("partial packet buffering",K+": Reader::read")],[("buf/off/len","unread part of the current packet",K+": Reader")],["scutiger_core::pktline::Reader and Writer"])
p("C20","Malformed pkt-lines are always rejected",
 "A packet is accepted exactly when its header is four digits from 0-9 and a-f whose value is 0000, 0001 or from 0004 to 65520 and its payload is complete; every other header or a truncated packet is reported as an error, identically by every way of reading packets, without panicking or returning data. In a server session nothing after a malformed packet is executed.",
 ["inputs"],"all 2^32 four-byte headers, truncation at every byte, on both the packet and the stream reading path, and malformed packets at every position of a session",
 "The tests parse eight header values.",
 [K,P],[("header parsing and limits",K+": parse_header, read_one, read_packet")],[],["scutiger_core::pktline::Reader",WIRE])
p("C21","Client input never reaches outside the LFS store",
 "Whatever identifiers, lock ids, paths, ref names or other arguments a client sends, the server opens, creates, changes or removes only files of the repository's LFS directory (besides what it reads to start up), and only an object, lock or temporary file belonging to that request. In particular path-like lock ids and identifiers are treated as unknown or malformed and reveal nothing about other files.",
 ["inputs"],"all byte strings as identifiers, lock ids, lock paths and ref names, including absolute paths, parent components, separators, NUL bytes, empty and over-long names",
 "No test uses an id, identifier or path that could leave the store.",
 [L,P],[("identifier validation",P+": Oid::valid"),("path hashing",L+": hash_for"),("lookup by id",L+": from_id")],[OBJ,LCK,INC],["file-system calls of the server",WIRE])
p("C22","Storage failures never corrupt the store or fake success",
 "If any file-system call of the server fails or is only partly carried out while it serves an upload or lock request, an upload answered with success is completely stored and an upload answered with an error leaves the stored objects as they were; a lock answered 201 is completely recorded and a lock request answered with an error leaves no lock behind that cannot be listed and unlocked. An object or lock that could not be looked at is not reported as absent, of another size or held to who asks for it, unless the failing call itself said that it does not exist. The server survives and answers the following requests correctly.",
 ["fault_sequences"],"an error (out of space, I/O error, no permission) or a short count at every file-system call of upload, lock, unlock, verify, batch and download requests",
 "No test makes a file-system call fail.",
 [L,P],[("error propagation before rename or link",L+": start_upload, finish_upload, LockFile"),("status mapping",P+": process_commands")],[OBJ,LCK],[FS,WIRE])
p("C23","Published files carry the repository's sharing permissions at once",
 "From the first instant an object is visible in the store, its read and write permissions for owner, group and others are exactly those that the repository's core.sharedRepository setting grants (the process umask if it is unset, false or umask; group for true or group; also others read for all, world or everybody; the given mode for an octal mode), and stay so. Lock files and the directories created for them are accessible accordingly.",
 ["configurations","crash_points"],"all core.sharedRepository values named here, all umasks, a kill at any file-system call of an upload, new and already existing directories",
 "The tests call an entry point that skips the permission set-up, and check no file mode.",
 [G,L],[("setting to umask mapping",G+": set_permissions"),("chmod of the finished file",L+": fix_permissions, finish_upload")],[OBJ],[FS])
p("C24","Finished requests leave no temporary files behind",
 "Once a request has been answered, successfully or not, or its session has ended without a kill, no temporary file of that request remains in the LFS directory. A killed server leaves at most temporary files that never appear as objects or as locks.",
 ["inputs","histories","crash_points"],"all accepted and refused uploads and lock requests, truncated sessions, concurrent attempts, a kill at every file-system call",
 "The tests never look at the incomplete, tmp or locks directories.",
 [L],[("temporary file removed when dropped",L+": UploadState, LockFile::drop")],[INC,LCK],[FS])
p("C25","git at answers with the newest matching commit of the history",
 "The commit reported is reachable from the given revision (HEAD if none), its message matches the pattern, and no other reachable commit whose message matches has a later committer date. If no reachable commit matches, none is reported.",
 ["inputs","programs"],"all commit graphs (linear, branching, merges, several roots), date assignments including equal and skewed dates, start revisions (branches, tags, ancestors) and patterns",
 "Four tests query one fixed fixture history.",
 [A],[("time-sorted revision walk from the resolved head",A+": run")],[],["output of git-at"])
p("C26","git at options restrict exactly what is searched",
 "With --summary a commit matches exactly when the pattern matches within the first line of its message, for every pattern, including alternations and patterns that could span lines. With --no-fixup exactly the commits whose message starts with fixup! or squash! are disregarded, and without it they are considered like any other.",
 ["inputs"],"all combinations of the two options with patterns (literals, alternations, classes, anchors, line-spanning patterns) and messages (one line, several paragraphs, prefixed or not)",
 "The tests use a literal pattern with --summary and one fixup commit.",
 [A],[("summary and fixup filtering",A+": run, pattern")],[],["output of git-at"])
p("C27","git at reports its outcome by output and exit status",
 "If a commit is found, exactly its full id and a newline is printed and the exit status is 0. If none is found nothing is printed on standard output and the exit status is 1, with a message on standard error unless --quiet is given. An invalid pattern, a revision that is not a commit or an unreadable repository is reported on standard error even with --quiet, with exit status 2 or more, and a revision that does not exist with a non-zero exit status. With --show, git show is run for exactly the commit found, instead of printing its id, and its exit status is passed on.",
 ["inputs","configurations"],"all outcomes crossed with --quiet, --summary, --no-fixup, explicit and default revisions",
 "The tests call the search function and never the option parsing, the printing or the exit status.",
 [A,E],[("result reporting",A+": main"),("exit status mapping",E+": exit_status, fatal")],[],["stdout, stderr and exit status of git-at"])
p("C28","recent-refs lists checkouts most recent first and completely",
 "git recent-refs (by visit date) prints first what HEAD is on, then for every earlier checkout, most recent first, the branch that was left, by full reference name, or the commit that was left if HEAD was detached, including duplicates. A branch that no longer exists is left out without affecting the others.",
 ["histories"],"all sequences of commits, checkouts of branches and detached commits, branch creations, deletions and resets",
 "One test replays four checkouts with no deleted branch.",
 [R],[("reflog based @{-n} resolution",R+": run")],[],["output of git-recent-refs"])
p("C29","Date-sorted recent-refs lists every commit reference once, in order",
 "With --sort=committerdate or --sort=authordate, every non-symbolic reference under refs/ that resolves to a commit, directly or through an annotated tag, is printed exactly once by full name, no other reference is printed, and the respective dates of the commits never increase from one line to the next.",
 ["inputs","configurations"],"all sets of references (branches, lightweight and annotated tags, tags of non-commits, symbolic and nested references) with arbitrary author and committer dates and time zones",
 "One test checks committerdate on a fixed fixture with branches only; authordate is never run.",
 [R],[("date lookup, filter and sort",R+": run")],[],["output of git-recent-refs"])
p("C30","A server serves exactly the repository and operation it was started for",
 "A server started with any path that names a repository itself (absolute or relative, with trailing slashes, through symbolic links or a gitfile, the work tree or its Git directory, names with spaces or bytes that are not UTF-8) and the operation upload or download serves that repository's one store and no other, whatever the environment and the working directory. Any other path (missing, not a repository, a directory within one) or any other operation is refused with a message and a non-zero exit status, no request is answered and no store changes. Starting creates whatever LFS directories are missing, also when several servers start at once or one is killed while starting: every one of the others comes up.",
 ["configurations","histories","schedules","crash_points"],"20 forms of paths to three repositories and 10 forms of paths to none, two valid and 12 invalid operations, decoy environment variables and working directories, sequences of servers; all interleavings of two and three servers starting on any subset of the directories, with a kill",
 "The tests construct the program on an opened repository: path lookup, unknown operations and competing starts are never run.",
 [G],[("repository opened at exactly the path",G+": repo"),("operation to mode",G+": run"),("directories made with create_dir_all",G+": create_directories")],[OBJ,LCK],[WIRE,FS,"exit status"])
p("C31","The listing reaches the terminal or the configured pager, whole",
 "When standard output of git recent-refs is a terminal, its listing is given to the pager named by GIT_PAGER, else by core.pager (the repository's setting before the user's), else by PAGER, else to less, run by the shell; or written to the terminal itself if what is named is cat or empty. When it is not a terminal no pager runs. The pager receives exactly what would be printed without it, and the program ends, with its own status, only after a pager that reads everything has ended, however slow it is.",
 ["configurations","schedules"],"all combinations of the three settings (unset, empty, cat, two pagers) with and without a terminal, local and user configuration, pagers that read all, some or none of it, start late or stay on; listings below and above the capacity of a pipe",
 "No test runs the program's main function, a terminal or a pager.",
 [R,"scutiger-bin/src/bin/pager/mod.rs"],[("choice of the pager","scutiger-bin/src/bin/pager/mod.rs: find_pager"),("end of the program",R+": main")],[],["terminal","input of the pager","exit status"])
p("C32","Output that is cut short is never reported as success",
 "If standard output cannot take everything that git recent-refs, git at (also with --show) or git-lfs-transfer has to write (the disk or a file size limit is reached at any byte, the device is full, the reader goes away), the program ends with a status other than 0 or by a signal, and what was taken is a beginning of what it has to write. If everything is taken, however slowly, it ends with status 0.",
 ["inputs","fault_sequences","schedules"],"all three programs with short and long output, sinks that take every possible number of bytes, readers that are slow, leave or are gone",
 "The tests write to memory, which takes everything, and never end a process.",
 [R,A,G,P],[("every write is checked",R+": main; "+A+": main"),("errors of responses end the server",P+": process_commands; "+G+": main")],[],["what the sink has taken","exit status"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(o)+"\n" for o in out))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for o in out: jsonschema.validate(o,s)
print(len(out))
