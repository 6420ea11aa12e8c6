#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LFS = "scutiger-lfs/src/"
PROC, LOCAL, BACK, XFER = LFS+"processor.rs", LFS+"backend/local.rs", LFS+"backend.rs", LFS+"bin/git-lfs-transfer.rs"
PKT, ERR = "scutiger-core/src/pktline.rs", "scutiger-core/src/errors.rs"
AT, REC, PAG = "scutiger-bin/src/bin/git-at.rs", "scutiger-bin/src/bin/git-recent-refs.rs", "scutiger-bin/src/bin/pager/mod.rs"

prop("C01", "An uploaded object is published only after full verification",
  "An object becomes visible under an object ID in the LFS object store only if the complete uploaded byte stream has the SHA-256 equal to that ID (all 64 hex digits) and its length equals the size the client declared for it. Otherwise put-object is answered with a failure and nothing appears under that ID; put-object answers success only if the object was published.",
  ["inputs", "fault_sequences"], "every put-object request: any bytes, declared size, object ID and chunking, any read or write error on the way",
  "Two uploads that match and one with a flipped byte are tested; a check that is skipped for some size, prefix or chunking, or made after publishing, passes them.",
  [PROC, LOCAL], [("size comparison", PROC+" put_object"), ("OID comparison", PROC+" put_object"), ("hash and count exactly the bytes delivered", PROC+" HashingReader::read"), ("publish", LOCAL+" finish_upload")],
  observe=["files under lfs/objects", "status of put-object"])
prop("C02", "Objects appear atomically, complete and with final permissions",
  "A file under the LFS object directory only ever comes into existence by an atomic rename of a completely written temporary file that lies in the same LFS directory outside the object directory, and that already carries the permissions the repository is configured for. No code path writes, truncates or deletes a file below the object directory in place, and a failed or interrupted upload leaves no file behind under the object directory and removes its own temporary file unless the process is killed.",
  ["crash_points", "schedules", "fault_sequences"], "every crash point or I/O error during an upload and every concurrent reader",
  "Tests look at the directory only after a whole upload; crash points and concurrent readers are never exercised.",
  [LOCAL, PROC], [("temporary file in incomplete/", LOCAL+" start_upload"), ("chmod then rename", LOCAL+" finish_upload")], observe=["lfs/objects", "lfs/incomplete"])
prop("C03", "A download session never modifies the repository",
  "Whatever a client sends, a session started with the operation `download` creates, changes and removes no object, lock or other file, beyond creating the fixed LFS directories at start-up: put-object, verify-object, lock and unlock are refused or unknown there. Likewise get-object is only served in a download session.",
  ["inputs", "histories"], "every sequence of requests in a download session",
  "No test sends an upload-side command in a download session, and none could send all of them in every order.",
  [PROC, XFER], [("mode in the command dispatch", PROC+" process_commands"), ("operation to mode", XFER+" Program::run")], observe=["filesystem effects reachable from a download session"])
prop("C04", "Client input cannot name a path outside the LFS directory",
  "Every file the server opens, creates, links, renames or removes on behalf of a request lies inside the repository's LFS directory, in a location built only from fixed names, a validated object ID (exactly 64 lowercase hex digits), a validated lock ID, or a hash. No other client-supplied bytes (object IDs, lock IDs, lock paths, arguments, data) ever become part of a file name.",
  ["inputs"], "every byte string in every client-controlled position",
  "Tests use well-formed IDs only; traversal strings, absolute paths, empty names and near-miss IDs are unbounded.",
  [PROC, LOCAL], [("Oid::new / Oid::valid", PROC), ("expected_path", PROC), ("lock file naming", LOCAL+" hash_for, from_id")], observe=["path arguments of filesystem calls"])
prop("C05", "At most one client holds the lock on a path",
  "A lock request is answered with 201 only if this very request created the lock file for exactly that path by an atomic operation that fails when the lock already exists, with the complete record already written; an existing lock is never overwritten, truncated, or replaced. If a lock already exists the answer is 409 with the data of the existing lock.",
  ["schedules", "crash_points", "inputs"], "every interleaving of any number of sessions locking and unlocking the same path, and every crash point",
  "One sequential lock, lock, unlock is tested; interleavings and crash points are not.",
  [LOCAL, PROC], [("write staging file, then hard_link", LOCAL+" LockFile"), ("conflict handling", PROC+" lock")], observe=["files under lfs/locks", "status of lock"])
prop("C06", "Lock attempts never disturb each other's staging files",
  "A lock attempt removes or links only a staging file that it created itself, whose name no other attempt can be using; it removes it again whether it succeeds or fails. A staging file left behind by a crash never makes the path unlockable, and is never shown or accepted as a lock.",
  ["schedules", "crash_points"], "every interleaving of lock attempts on the same path, and every crash between staging and linking",
  "There are no concurrent or crash tests at all.",
  [LOCAL], [("LockFile::write / persist / Drop", LOCAL)], observe=["lfs/locks directory"])
prop("C07", "No client input and no stored data can crash the server",
  "No request, framing, argument, truncated stream, lock-file content, left-over file or I/O error makes the server panic (by an out-of-range index or slice, an unwrap, arithmetic overflow, or reaching code believed unreachable): it answers or ends the session with an error.",
  ["inputs", "histories", "fault_sequences"], "every byte stream from the client and every state of the LFS directory",
  "Panics hide behind inputs nobody wrote a test for: an empty line, a missing separator, a stale staging file.",
  [PROC, PKT, LOCAL], [("guards before indexing and slicing", PROC), ("header digit ranges", PKT+" parse_header"), ("timestamp range", LOCAL+" parse / formatted_timestamp"), ("retry loop", PROC+" lock")], observe=["panicking constructs reachable from a session"])
prop("C08", "Every request gets exactly one well-formed response",
  "Each request is answered by exactly one response: a single status line, then argument lines, then at most one delimiter followed by messages or data, then one flush; nothing is written between responses. If writing a response fails part-way, the session ends instead of a second response being started.",
  ["inputs", "histories", "fault_sequences"], "every sequence of requests and every error inside a handler or while writing",
  "Transcript tests cover about ten responses; error paths that answer twice, not at all, or without the final flush are not reached.",
  [PROC], [("send_status / send_error", PROC), ("single response point", PROC+" process_commands")], observe=["byte stream to the client"])
prop("C09", "A request is consumed to its end before the next one is read",
  "Whatever is wrong with a request (unknown or forbidden command, bad object ID, bad arguments, failing backend), the server reads it up to its terminating flush and no further before it takes the following packet as a new command, so that no argument or data packet of one request is ever interpreted as a command. If the end of the request cannot be found because the stream ended or the framing is broken, the session ends.",
  ["inputs", "histories"], "every request, valid or not, in both modes, followed by any further requests",
  "The tests' rejected requests are rejected after they have been read completely; early rejections are not tested.",
  [PROC, PKT], [("read_to_flush / read_to_delim", PROC), ("end-of-request tracking", PKT), ("drain before answering", PROC+" process_commands")], observe=["packets consumed per request"])
prop("C10", "A truncated request is never acted on",
  "If the client's stream ends, or the request is cut short by a flush, before the part of the request being read is complete, the request fails: no lock is created or removed, no object is published, and no success is reported on the strength of a partial argument list, batch list or data section. A clean end of the stream between requests ends the session successfully; an error reading the next request ends it with that error.",
  ["inputs", "fault_sequences"], "every truncation point of every request",
  "Every test transcript is complete.",
  [PROC, PKT], [("read_to_type", PROC), ("read_packet / read end-of-file handling", PKT)], observe=["effects and statuses after a truncated stream"])
prop("C11", "Batch answers tell the client the right action for each object",
  "For every object in a batch request the answer has one line, in the same order, for the same object ID; in an upload session the action is `noop` exactly when the server has that object and `upload` otherwise, and in a download session it is `download` exactly when the server has it and `noop` otherwise. The size is that of the stored object if present and otherwise the one the client gave, and a hash algorithm other than sha256 is refused.",
  ["inputs", "configurations"], "every batch request in both modes against every store content",
  "Present objects in an upload batch are not tested at all; other combinations only once.",
  [PROC, LOCAL], [("batch_data", PROC), ("upload_batch / download_batch", PROC), ("LocalBackend::batch", LOCAL)], observe=["lines of the batch response"])
prop("C12", "verify-object succeeds only for a stored object of the stated size",
  "verify-object reports success only if the object with exactly that ID is in the store and its file size equals the size given in that request; a missing object gives 404, another size 409, and a missing or malformed size or ID an error, never success.",
  ["inputs", "configurations"], "every ID, size argument and store content",
  "One match, one size mismatch and two missing objects are tested; a comparison that is wrong in one direction or skipped for some input passes.",
  [PROC, LOCAL], [("verify", LOCAL), ("verify_object", PROC)], observe=["status of verify-object"])
prop("C13", "get-object returns exactly the stored object and its size",
  "A successful get-object streams the whole content of the stored file of exactly the requested ID, and the announced size is the length of that same opened file. If the object does not exist the answer is 404, and no other object's data is ever sent.",
  ["inputs", "schedules"], "every requested ID, store content and concurrent publication",
  "One small object is downloaded in the tests.",
  [PROC, LOCAL], [("download", LOCAL), ("get_object", PROC), ("send_status", PROC)], observe=["status, size and data of get-object"])
prop("C14", "A lock record survives the round trip through the disk",
  "The path and time reported when a lock is created are the ones reported whenever it is read back (by conflict, listing or unlock), for every path, including paths that contain separators of the record format or arbitrary bytes; the time reported is the one stored, in whole seconds; and the same ID is derived everywhere from the path alone. A record that does not have the exact expected form is reported as corrupt or skipped, never as a lock for another path.",
  ["inputs", "histories"], "every lock path and time, and every record content",
  "Only the path `foo` at one fixed time is tested.",
  [LOCAL, PROC], [("record writer", LOCAL+" create"), ("record parser", LOCAL+" parse, from_id, from_path"), ("hash_for", LOCAL)], observe=["lock responses and lock file content"])
prop("C15", "Paging through the lock list shows every lock exactly once",
  "A list-lock page holds at most `limit` (never more than 100) locks in increasing ID order, and next-cursor is given exactly when more locks remain; continuing from it yields the next lock that was not shown, so that the pages together contain every lock once, without gap or repetition.",
  ["inputs", "histories"], "every number of locks, limit and cursor",
  "The only listing tested has one lock and a limit of 100.",
  [PROC, LOCAL], [("list_locks", PROC), ("LockSetIterator", LOCAL)], observe=["list-lock responses"])
prop("C16", "Status codes blame the right side",
  "A request that is malformed, asks for something not allowed, or carries wrong data is answered with a 4xx status, and a 5xx status is given only where an operation of the server's own (on its files, its clock, its user database) failed. Where one failed the answer is 5xx, unless the failure is itself what the protocol reports: no such object or lock (404), a lock that exists already (409), a removal that is denied (403), stored data that is corrupt (4xx); lookups with a stated fallback (an object or lock that can't be examined counts as absent in batch and list-lock, an owner that can't be looked up is unknown) don't fail a request. A failed operation is never answered with a 2xx status.",
  ["inputs", "fault_sequences"], "every error any handler can produce",
  "Only a few error kinds ever occur in the tests.",
  [PROC, ERR], [("error kind to status", PROC+" process_commands"), ("error kinds raised", PROC)], observe=["status line of responses"])
prop("C17", "Packet headers are decoded strictly and uniformly",
  "A packet header is accepted only if it consists of four lowercase hexadecimal digits, and its value is the number they denote; 0 is a flush, 1 a delimiter, and 2, 3 and every length above 65520 are rejected, whichever way the packet is read. A header never overflows or aliases another value.",
  ["inputs"], "all 2^32 headers, both reading interfaces",
  "Eight headers are tested.",
  [PKT], [("parse_header", PKT), ("read_one and read_packet", PKT)], observe=["result of reading a packet"])
prop("C18", "Every frame written is a valid packet",
  "Every data packet written has a four-digit lowercase hexadecimal header equal to its payload length plus four, and a payload of at most 65516 bytes; longer data is split into consecutive packets without losing, repeating or reordering a byte, or refused. Flush and delimiter packets are written as 0000 and 0001.",
  ["inputs"], "every payload and packet passed to the writer",
  "Two sizes are tested.",
  [PKT], [("write_one, write, write_packet", PKT)], observe=["bytes written"])
prop("C19", "The packet reader delivers the payload stream without loss",
  "Reading a data section as a byte stream yields exactly the concatenated payloads of its data packets, whatever sizes the caller's buffers have and however packets are sized (including empty ones), and ends at, and only at, the next flush or delimiter. Bytes buffered from one packet are delivered before another packet is read, and an error or end of file inside a packet is an error, never a short success.",
  ["inputs", "histories"], "every packet sequence and every sequence of caller buffer sizes",
  "io::copy with one buffer size is tested; mixed or tiny buffers, empty packets and empty buffers are not.",
  [PKT], [("Read for Reader", PKT), ("read_one", PKT)], observe=["bytes returned by read"], state=[("off,len,buf", "undelivered part of the current packet", PKT)])
prop("C20", "A response is flushed to the client before the server waits for input",
  "Everything the server has to say (the version announcement, every response) has been passed to the output stream and the output stream has been flushed before the server reads the next packet or ends the session, so that a client waiting for an answer can never deadlock with it.",
  ["schedules", "histories"], "every point at which the server blocks reading",
  "Tests write to an in-memory cursor, for which flushing does nothing.",
  [PROC, PKT, XFER], [("flush packet flushes the stream", PKT+" write_packet"), ("flush at the end of each response", PROC+" send_status, send_error"), ("send_capabilities", XFER)], observe=["flush calls on the output"])
prop("C21", "Errors are not silently dropped",
  "No failing filesystem, stream, configuration or child-process operation on the way to a result is ignored: its error reaches the caller or the client, or is turned into a documented answer, except for removing a temporary file as a last cleanup and informational lookups with a stated fallback.",
  ["fault_sequences"], "every fallible call in the code base failing at any time",
  "No test injects an I/O error.",
  [LOCAL, PROC, PKT, XFER, AT, REC, PAG], [("? propagation", "all files"), ("documented fallbacks", LOCAL)], observe=["uses of Result values"])
prop("C22", "Unlock removes exactly the named lock and reports the truth",
  "An unlock request removes at most one file, the lock file of the lock with the given ID; it answers 200 with that lock's data only if that removal succeeded, 404 if there is no such lock (including when it vanished meanwhile), 403 if permission is denied, and otherwise an error. No other command removes a lock.",
  ["inputs", "schedules", "fault_sequences"], "every ID, every failure of the removal, every concurrent unlock",
  "One successful unlock is tested.",
  [PROC, LOCAL], [("unlock", PROC), ("LocalBackendLock::unlock", LOCAL)], observe=["removal of files under lfs/locks", "status of unlock"])
prop("C23", "Session permissions follow core.sharedRepository",
  "The umask and file permissions used for everything a session creates are those Git documents for core.sharedRepository: unset, false, 0 or `umask` leave the process umask, true, 1 or `group` give group access, 2, `all`, `world` and `everybody` give everyone read access, and an octal mode such as 0640 means exactly that mode. They are in force before the session creates its first file or directory.",
  ["configurations"], "every value of core.sharedRepository and every process umask",
  "No test sets the option or inspects a mode.",
  [XFER, LOCAL], [("set_permissions", XFER), ("fix_permissions", LOCAL)], observe=["umask calls", "modes of created files"])
prop("C24", "Exit statuses and diagnostics are reliable for scripts",
  "Each program exits 0 only if it did what was asked, 1 when the requested revision was not found (or a conflict), and 2 or more for any other error, and prints the error on standard error, never on standard output; with `--quiet`, git-at suppresses the message for the not-found case only, never for a fatal error. With `--show` git-at's exit status is that of the git command it ran.",
  ["inputs", "fault_sequences"], "every error in every program",
  "No test calls the exit-status code.",
  [ERR, AT, REC, XFER], [("exit_status, fatal", ERR), ("main", AT), ("main", REC), ("main", XFER)], observe=["exit status", "standard error"])
prop("C25", "git-at selects the first matching commit, honouring its options",
  "git-at prints the first commit, in the revision walk newest first from the given revision (HEAD by default), whose message matches the pattern, skipping commits whose message begins with fixup! or squash! when, and only when, --no-fixup is given. Every command line option takes effect on the behaviour it documents and no other.",
  ["inputs", "configurations"], "every repository, revision, pattern and option combination",
  "One fixture repository with a few patterns; the command-line wiring is not tested at all.",
  [AT], [("run", AT), ("program", AT)], observe=["printed commit"])
prop("C26", "git-at --summary looks at the first line only",
  "With --summary, whether a commit is selected depends only on the first line of its message, for every pattern: a pattern with alternatives, anchors or newline-matching parts is applied as given to that line. Without --summary it is applied as given to the whole message.",
  ["inputs"], "every pattern and message",
  "Patterns with top-level alternatives or newline-crossing parts are not tested.",
  [AT], [("summary restriction", AT+" run, pattern")], observe=["text and pattern given to the matcher"])
prop("C27", "git-recent-refs sorts by the requested date, newest first",
  "With --sort=committerdate references are listed by the committer date, with --sort=authordate by the author date, of the commit they point to, most recent first, each reference once; with --sort=visitdate, and by default, HEAD and then the previously visited branches or commits in order, without stopping early or skipping one. No reference that resolves to a commit directly is left out.",
  ["inputs", "configurations"], "every repository and sort option",
  "Author-date sorting and the option parsing have no test; the fixture's dates do not distinguish all orders.",
  [REC], [("run", REC), ("sort_type", REC)], observe=["printed list"])
prop("C28", "A pager or child process is waited for before exit",
  "Every child process a program starts is waited for, after the pipe to it has been closed, before the program exits, on success and on failure alike, so that the pager keeps the terminal until the user quits it.",
  ["schedules", "histories"], "every run that starts a child process",
  "The pager is only used on a terminal; no test has one.",
  [PAG, REC, AT], [("Pager", PAG), ("main", REC), ("--show", AT)], observe=["spawn and wait calls"])
prop("C29", "A session serves exactly the operation it was started with",
  "A session announces version 1 and flushes before it reads the first request, serves upload commands only if the operation argument is `upload` and download commands only if it is `download`, and any other operation ends it with an error without serving a single request. The version request succeeds for version 1 only, and quit ends the session successfully after one answer.",
  ["inputs", "configurations"], "every operation argument and every first request",
  "Tests only use the two valid operations and version 1.",
  [XFER, PROC], [("run, send_capabilities", XFER), ("dispatch", PROC+" process_commands")], observe=["output before first read", "mode"])
prop("C30", "Lock ownership is reported truthfully",
  "In an upload session's lock listing, a lock is marked `ours` exactly when its owner, taken from the lock file itself, is the current user, and `theirs` otherwise; a download session's listing contains no ownership mark. The owner name shown is that of the lock file's owner, wherever a lock is reported.",
  ["inputs", "configurations"], "every owner of every lock file, in both modes",
  "All locks in the tests belong to the user running them.",
  [LOCAL, PROC], [("as_lock_spec", LOCAL), ("user_for_file / current_user", LOCAL), ("list_locks flag", PROC)], observe=["owner lines of list-lock"])
# Stated, but outside what a static argument in reach can decide (see DESIGN.md, not_applicable in MANIFEST.json)
prop("C31", "A published object survives power loss",
  "Once put-object has been answered with success, the object's full content is still there after a power failure at any later time.",
  ["crash_points"], "every power failure after an acknowledged upload",
  "No test can cut the power.",
  [LOCAL], [("finish_upload (no sync is requested anywhere)", LOCAL)])
prop("C32", "Every request terminates",
  "For every request and store state the server answers after finitely many steps and with memory bounded by the size of the request.",
  ["inputs"], "every request, including endless argument lists",
  "Tests only use finite, small requests.",
  [PROC, PKT], [("read loops", PROC)])
prop("C33", "Revision walks agree with git",
  "git-at and git-recent-refs resolve revisions, walk history and read reflogs exactly as git itself does, for every repository.",
  ["inputs"], "every repository",
  "One small fixture.",
  [AT, REC], [("libgit2 calls", AT)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
