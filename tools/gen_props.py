#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the listed properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))
C = "src/core/"
prop("P01", "A stored value is returned byte for byte until it is replaced or removed",
 "For every table, key and value size accepted, a GET that follows a successful PUT returns exactly the bytes of the latest completed PUT of that key, and HEAD announces the same length, until the key is overwritten, deleted (alone, in bulk or with its table), expired or evicted. A key that was never stored, or was removed, is always reported as not found and never yields bytes of another key, another table or an older value.",
 ["histories", "inputs"],
 "all sequences of PUT/GET/HEAD/DELETE/bulk and table deletes over any number of keep-alive connections, values of 1 byte to megabytes on both sides of the block/file boundary",
 "The scenario tests replay about 40 fixed request lists and barely compare bodies; they never overwrite a value across the block/file boundary or reuse freed storage and compare.",
 [C+"db.cpp", C+"http_parse_cache.cpp", C+"http_respond.cpp"],
 [("block or file chosen by size", C+"db.cpp: db_target_write_allocate"), ("lookup with exact key comparison", C+"db.cpp: db_entry_get_read"), ("overwrite detaches the previous entry", C+"db.cpp: db_entry_get_write, db_entry_handle_softdelete")],
 [("entry", "key, size, block number or file, expiry, references", C+"db_structures.h: cache_entry")],
 ["responses to GET and HEAD"])
prop("P02", "Overlapping reads and writes of one key see one whole value or none",
 "Whatever other requests run at the same time on other connections, every successful GET delivers the complete bytes of one single PUT whose upload had completed, even when that value is overwritten, deleted, expired or evicted while the response is still being sent. A value whose upload has not finished is never visible. When uploads of one key overlap, the one that started first determines the stored value (unless the key is deleted in between) and the later ones are acknowledged without effect; once an upload that determines the value has been acknowledged, every later GET returns that value or a newer one.",
 ["schedules", "histories"],
 "all interleavings, at the granularity of the packets sent and consumed, of readers, uploaders and deleters on several connections",
 "The existing multi-connection scenarios use small bodies sent in one packet, so no response or upload is ever suspended half way.",
 [C+"db.cpp", C+"http_parse_cache.cpp", C+"http_respond.cpp", C+"connection.cpp"],
 [("reference counts keep an entry's block or open file until the last reader is done", C+"db.cpp: db_entry_deref, db_entry_actually_delete"), ("writing flag hides unfinished uploads", C+"db.cpp: db_entry_get_read, db_complete_writing"), ("second concurrent upload is swallowed", C+"db.cpp: db_entry_get_write; "+C+"http_parse_cache.cpp: http_cache_handle_request_body")],
 [("entry reference count", "who may still read the storage", C+"db_structures.h: cache_entry.refs")],
 ["bodies received by each connection"])
prop("P03", "An upload cut short at any byte leaves no trace",
 "If the connection of a PUT ends at any point before the last byte of its body, the key is afterwards reported as not found, no partial data is ever served, and the key can be stored again normally. Keys and tables the upload did not name keep their values, and the statistics, blocks and files are as if the upload had never been started apart from the removal of the key's previous value.",
 ["fault_sequences", "inputs"],
 "all cut points in the request line, headers and body, all value sizes, orderly and abortive connection ends, alone and among other traffic",
 "The interruption scenarios cut two fixed requests at one fixed point and do not look at storage afterwards.",
 [C+"http_parse_cache.cpp", C+"db.cpp", C+"connection.cpp"],
 [("cleanup deletes an entry still being written", C+"http_parse_cache.cpp: cache_destroy"), ("file of an unfinished upload removed", C+"db.cpp: db_target_entry_close")],
 [("is_writing", "this connection owns an unfinished upload", C+"connection_structures.h")],
 ["GET after the cut", "statistics page", "database directory"])
prop("P04", "Packet boundaries and pipelining never change the answers",
 "The sequence of responses to a sequence of requests, and the resulting stored data, depend only on the bytes sent: it is the same however the bytes are divided into packets, and the same whether each request is sent after the previous response or all are sent back to back on the connection, also when the client ends its sending side right after the last byte.",
 ["inputs", "schedules"],
 "all ways of cutting request streams (cuts inside the method, URL, header names, values, line ends and bodies, one byte at a time, several requests per packet), including streams longer than the receive buffer",
 "The scenario tests send each request in one packet on a fresh position of the receive buffer, so wrap-around and split tokens are never met.",
 [C+"http_parse_cache.cpp", C+"http_parse.cpp", C+"http.cpp", C+"read_buffer.cpp", C+"read_buffer.h"],
 [("resumable parser over a ring buffer", C+"read_buffer.h: RBUF_ITERATE; "+C+"http_parse_cache.cpp handlers"), ("unread input is processed again after each response", C+"http_respond.cpp: http_register_read")],
 [("input ring", "bytes received and not consumed", C+"read_buffer.h: read_buffer")],
 ["response stream"])
prop("P05", "No input from clients crashes the server or disturbs other clients",
 "Whatever bytes any client sends on the cache or monitoring port, in whatever pieces, and whenever it disconnects, the server process stays up without memory errors, keeps accepting and answering other connections correctly, and data in tables the client's requests do not name stays intact. The server also still shuts down cleanly when asked.",
 ["inputs", "schedules"],
 "arbitrary and mutated byte streams, absurd numbers and lengths in headers and URLs, oversized requests, requests mixed across connections on the same tables, disconnects at any byte",
 "The existing tests contain a handful of well-formed requests and no sanitizer.",
 [C+"http_parse_cache.cpp", C+"http_parse_mon.cpp", C+"http_parse.cpp", C+"read_buffer.cpp", C+"connection.cpp", C+"db.cpp"],
 [("bounded methods and requests", C+"http_parse_cache.cpp: http_read_requeststartmethod, http_cache_handle_headers"), ("buffer overflow disconnects", C+"http.cpp: http_read_handle")],
 [], ["process liveness", "sanitizer reports", "answers on a second connection"])
prop("P06", "Every request gets exactly one correctly framed response",
 "On a kept-alive connection each well-formed request is answered by exactly one response, in order, with a status line, a Content-Length that equals the number of body bytes that follow, and no body for HEAD; afterwards the same connection can be used for the next request. Requests for missing keys or tables get 404, unsupported methods, missing lengths or items too long for the server get 400, and every other documented request gets 200.",
 ["inputs", "histories"],
 "all request kinds (keys, tables, bulk, statistics, administration, unsupported), with any extra headers, any length of keep-alive session",
 "Tests check a few fixed response texts, usually one request per connection, and do not detect surplus or missing bytes between responses.",
 [C+"http.h", C+"http_parse_cache.cpp", C+"http_respond.cpp", C+"http_parse.cpp"],
 [("response templates with fixed lengths", C+"http.h: http_templates"), ("end-of-header detection", C+"http_parse.cpp: http_read_eoltoend; "+C+"http_parse_cache.cpp: http_read_headers"), ("reset between requests", C+"http_respond.cpp: http_respond_writeonly, http_respond_reset_connection")],
 [], ["response stream"])
prop("P07", "Expiry times are honoured, reported and survive restarts",
 "A key stored with a time to live of T seconds is served with a correct remaining time while no more than T whole seconds have passed since the upload's header was received, is never served (by GET, HEAD or after a restart) once more than T seconds have passed, and is eventually removed and uncounted by garbage collection. Keys stored without a time to live never expire, and overwriting a key replaces its expiry.",
 ["histories", "inputs"],
 "all time-to-live values, clock positions around the expiry second, overwrites, collections and restarts in between, over both storage forms",
 "One scenario sleeps past one expiry in real time; boundaries, restarts, collection and overwrites are not exercised.",
 [C+"db.cpp", C+"http_parse_cache.cpp", C+"http_respond.cpp", C+"timer.cpp"],
 [("expiry compared on every read", C+"db.cpp: db_entry_get_read"), ("incremental expiry scan", C+"db.cpp: db_expire_cursor"), ("remaining time reported", C+"http_respond.cpp: http_respond_expires")],
 [("expires", "absolute second of expiry, 0 for none", C+"db_structures.h")],
 ["GET/HEAD status and X-Ttl", "statistics page"])
prop("P08", "The size limit is enforced by evicting least recently used keys first",
 "With a size limit set, each garbage collection that finds the stored bytes above the limit removes expired keys and then keys strictly in order of least recent use (a PUT completion, GET or HEAD counts as use) until the total is at or below the limit less the configured percentage, and removes no more keys than that needs; below the limit, or with no limit, no unexpired key is ever removed. Collection happens at least every fixed number of insertions, so the stored total cannot grow without bound.",
 ["histories", "configurations"],
 "all histories of inserts, reads, overwrites, deletes and collections, all size limits and clear percentages, mixtures of block and file values",
 "The LRU scenarios use one limit and one key order with a few keys.",
 [C+"db.cpp", C+"settings.cpp"],
 [("doubly linked recency list", C+"db.cpp: db_lru_insert, db_lru_hit, db_lru_remove_node"), ("collection", C+"db.cpp: db_lru_gc, db_lru_cleanup_percent")],
 [("recency list", "least recently used first", C+"db.cpp: db.lru_head, db.lru_tail"), ("stored bytes", "sum of value sizes", C+"db.cpp: db.db_size_bytes")],
 ["which keys are still found after a collection", "statistics page"])
prop("P09", "A clean shutdown and restart preserves exactly the stored data",
 "After the server is asked to terminate and is started again on the same directory, every key that was stored and unexpired at shutdown is served with identical bytes and expiry, every key that was absent, deleted or still being uploaded is absent, and the restarted server behaves normally (new, overwritten and deleted keys) through any number of restarts. This holds for any database directory path and for any table and key names and values accepted before the restart.",
 ["histories", "configurations", "inputs"],
 "all histories before the shutdown (including unfinished uploads and downloads), repeated restarts, both flush modes, all names and sizes accepted, directory paths with unusual characters",
 "No existing test restarts a server on existing data.",
 [C+"db.cpp", "src/server/scache.cpp", C+"signal_handle.cpp"],
 [("index and block file written at close", C+"db.cpp: db_close, db_index_flush"), ("load on open", C+"db.cpp: db_load_from_save")],
 [("index.save / blockfile.db.save", "saved index and block file", "database directory")],
 ["responses after restart"])
prop("P10", "A crash at any moment never leads to wrong data after restart",
 "If the server is killed at any point, including in the middle of a flush or between any two file-system operations, a restart on the same directory succeeds, and every key it then serves has, byte for byte and complete, a value that was once completely stored under that very key. Once a flush has finished, a crash before the next flush begins loses nothing that was stored before the finished flush began and was not changed since.",
 ["crash_points", "histories"],
 "every file-system operation as crash point, with the flushing process killed at the same time or left to go on, over generated histories with several flushes and restarts, both flush modes",
 "No existing test kills the server or restarts it.",
 [C+"db.cpp"],
 [("temporary files renamed into place", C+"db.cpp: db_index_flush"), ("unique file names for large values", C+"db.cpp: db_entry_open_create"), ("blank start without an index", C+"db.cpp: db_open")],
 [("index.save / blockfile.db.save", "last completed snapshot", "database directory")],
 ["responses after restart"], None)
prop("P11", "A table listing names exactly the table's keys within the limits asked",
 "GET of a table returns each key stored in that table exactly once and nothing else, together with the number of entries, and 404 if the table does not exist; with a limit it returns at most that many keys (a limit of 10000 positions applies when none is asked), and asking for consecutive ranges up to the announced total yields every key exactly once. Any start and limit numbers are safe, and changes made by other clients while a listing is being sent neither corrupt it nor lose keys that are present throughout.",
 ["inputs", "histories", "schedules"],
 "all table contents (sizes across hash-table growth, after deletions), all start/limit pairs, listings interleaved with inserts, deletes and table deletes",
 "One scenario lists one small table without comparing the list.",
 [C+"http_respond.cpp", C+"http_parse_cache.cpp"],
 [("listing loop over the table's buckets", C+"http_respond.cpp: http_respond_listing"), ("start and limit headers", C+"http_parse_cache.cpp: http_read_header_extraction")],
 [], ["listing response"])
prop("P12", "The statistics page always agrees with the stored data",
 "At any quiescent moment the reported numbers of keys, tables and stored bytes equal those of the data actually stored, free blocks never exceed existing blocks, existing minus free blocks equals the number of small values stored, and the insert, get and delete counters increase by exactly one for each upload started, each key served and each key deleted by request. This holds after any mixture of inserts, overwrites, deletes, table deletes, expiry, eviction, aborted uploads and restarts.",
 ["histories"],
 "all request histories including aborted uploads, table deletes, overwrites across storage forms, expiry and eviction",
 "The tests never read the statistics page.",
 [C+"db.cpp", C+"http_respond.cpp"],
 [("counters adjusted on every insert and removal", C+"db.cpp: db_entry_get_write, db_entry_handle_delete, db_entry_handle_softdelete, db_target_write_allocate"), ("report", C+"http_respond.cpp: http_respond_stats")],
 [("db_keys, db_size_bytes, blocks_free, blocks_exist", "counters", C+"db.h")],
 ["GET /"])
prop("P13", "Storage, descriptors and memory are released when data and clients go",
 "When keys are removed in any way and no client is using them, their blocks become reusable, their files disappear from the database directory and the memory they used is released; when clients disconnect, at any point of any request, their descriptors and memory are released. Repeating any workload that ends with an empty database and no clients does not make the process's memory, descriptors, files or block file grow.",
 ["histories", "fault_sequences"],
 "all workloads that end in an empty database, repeated; disconnects at any point; removal while readers are active; after clean restarts",
 "The tests check responses only and run briefly.",
 [C+"db.cpp", C+"http_parse_cache.cpp", C+"http.cpp", C+"connection.cpp"],
 [("reference counts", C+"db.cpp: db_entry_deref, db_table_deref"), ("free block list", C+"db.cpp: db_block_free, db_block_allocate_new"), ("connection cleanup", C+"http.cpp: http_cleanup; "+C+"connection.cpp: connection_remove")],
 [], ["database directory", "statistics page", "/proc/<pid>/fd", "allocation counts"])
prop("P14", "Keys and tables whose hashes collide are never mistaken for each other",
 "Two different keys of one table, or two different tables, are never confused even if their names have equal hashes: a request for one never returns, deletes or lists the other's value, and tables with equal hashes hold their keys independently. Storing a key may displace a key of the same table with an equal hash, which is then simply not found.",
 ["inputs", "histories"],
 "generated sets of key and table names with equal 32-bit hashes, mixed with ordinary names, over histories of all request kinds",
 "No existing test contains colliding names; they have to be constructed.",
 [C+"db.cpp", C+"hash.cpp"],
 [("exact name comparison after hash lookup", C+"db.cpp: db_entry_get_read, db_entry_get_delete"), ("probing for tables", C+"db.cpp: db_table_get_read, db_table_get_write")],
 [], ["responses"])
prop("P15", "The receive ring buffer behaves as a byte queue",
 "For every sequence of writes and reads, at every position and fill level up to full capacity, the ring buffer's reported readable and writable amounts, copies, comparisons, number parsing and iteration agree with a plain first-in first-out byte queue of the same capacity. (How much of a completely full buffer is reported as readable without a break when its start is not at position 0 is left open: an existing unit test pins a value for it that no reader relies on.)",
 ["inputs", "histories"],
 "all operation sequences, wrap positions, fill levels and lengths",
 "The unit tests try about 20 fixed positions.",
 [C+"read_buffer.cpp", C+"read_buffer.h"],
 [("masked positions over a power-of-two array", C+"read_buffer.h: RBUF_* macros; "+C+"read_buffer.cpp")],
 [("read and write positions", "free-running 16-bit counters", C+"read_buffer.h")],
 ["return values and copied bytes"])
prop("P16", "Key hashing is MurmurHash3 for every input and alignment",
 "For every byte string, seed and memory alignment the three provided hash variants return the published MurmurHash3 values, without reading outside the string, so stored file names stay valid across builds and restarts.",
 ["inputs"],
 "all lengths including every tail length, all byte values, seeds and alignments",
 "The existing tests check a few fixed strings.",
 [C+"hash.cpp", C+"hash.h"],
 [("block and tail mixing", C+"hash.cpp: MurmurHash3_x86_32 and 128-bit variants")],
 [], ["hash values"])
prop("P17", "The monitoring port answers probes and streams a steady count",
 "On the monitoring port GET and HEAD of the root are answered with a correctly framed 200 and unknown paths with 404, and a stream request is answered with a streaming header followed by the integers 0, 1, 2, ... (0 again after 65535) one per line, the first at once and each next one five seconds after the previous, for as long as the client reads, and a final q line on shutdown. Clients that stall, disconnect or send garbage affect neither the other monitoring clients nor the cache.",
 ["histories", "schedules", "inputs"],
 "all mixtures of probes, streams, stalls and disconnects at any time, any packet division",
 "One scenario opens one monitoring connection and reads its first lines.",
 [C+"http_parse_mon.cpp", C+"timer.cpp", C+"connection.cpp"],
 [("schedule list ordered by next due time", C+"http_parse_mon.cpp: monitoring_add, monitoring_check"), ("timer wake-up", C+"timer.cpp: timer_handler")],
 [("stream list", "connections by next due time", C+"http_parse_mon.cpp: mon_head, mon_tail")],
 ["monitoring streams"])
prop("P18", "Listen addresses and options on the command line mean what they say",
 "The server listens on exactly the addresses given (IPv4, bracketed IPv6 and unix sockets, any number, separated by commas, for the cache and the monitoring service, each option given once), refuses to start on an address it cannot parse or bind, and honours the database path, size limit and pid file options. Each listed address serves the same data.",
 ["configurations"],
 "all lists of valid and invalid addresses, mixed families and services, option orders and spellings",
 "Tests start the server with one fixed IPv4 address list.",
 [C+"settings.cpp", C+"connection.cpp", "src/server/scache.cpp"],
 [("address list parser", C+"settings.cpp: parse_binds"), ("listener setup", C+"connection.cpp: connection_setup, connection_open_listener")],
 [], ["listening sockets of the process", "connections to each address", "exit status"])
prop("P19", "Short, delayed or failing I/O never corrupts a response or a value",
 "Whenever the operating system accepts only part of a write, or asks to try again, on a client connection, the bytes the client receives are still exactly the right ones. Whenever a write to the database accepts only part of the data or fails (for instance a full disk), the server stays up, no wrong or partial value is ever served for any key, other keys keep their values, and normal service resumes when space returns.",
 ["fault_sequences", "histories"],
 "all placements of short writes, retry errors and storage errors over all kinds of responses and uploads",
 "The tests run against an idle loopback and an empty disk, where no call is ever partial or fails.",
 [C+"http.cpp", C+"http_respond.cpp", C+"http_parse_cache.cpp", C+"db.cpp"],
 [("output continues from what was accepted", C+"http.cpp: http_write_handle; "+C+"http_respond.cpp: http_respond_contentbody"), ("upload continues from what was stored", C+"http_parse_cache.cpp: http_cache_handle_request_body")],
 [], ["response stream", "GET after the fault"])
prop("P20", "Deletes remove exactly what they name",
 "Deleting a key removes that key only; a bulk delete removes exactly the listed keys of the named table that exist, in any number and order and with repetitions; deleting a table removes all keys of that table and of no other, and each can be stored again at once. This also holds when the deletes overlap with uploads, downloads, listings or other deletes of the same keys or table on other connections: a delete that names something already gone has no effect on anything else.",
 ["histories", "schedules", "inputs"],
 "all sets of keys and bulk lists, repeated and overlapping deletes, deletes arriving between the parts of other clients' requests on the same table",
 "The scenarios delete a few keys one after the other on one connection.",
 [C+"db.cpp", C+"http_parse_cache.cpp"],
 [("bulk header handling", C+"http_parse_cache.cpp: http_read_header_extraction"), ("table removal", C+"db.cpp: db_table_handle_delete, db_delete_table_entry, db_table_deref")],
 [("table reference count and deleted flag", "when a table may be freed", C+"db_structures.h: db_table")],
 ["responses"])
prop("P21", "Collections and flushes at any moment are invisible to clients",
 "A garbage collection or index flush, whether requested, triggered by a signal or started automatically by insertions, and at any moment of any client's request, changes no stored unexpired value when the size is below the limit, no response, and no transfer in progress. Requesting further collections while one is flushing is harmless, and flushing keeps working afterwards.",
 ["schedules", "histories"],
 "collections and flush requests placed at every point of generated request histories with several transfers in progress, in rapid succession, in both flush modes",
 "One scenario triggers a collection between requests.",
 [C+"db.cpp", C+"timer.cpp", C+"http_parse_cache.cpp"],
 [("forked snapshot writer", C+"db.cpp: db_index_flush"), ("child reaping", C+"timer.cpp: child_handler; "+C+"db.cpp: currently_flushing")],
 [("current_flush", "process id of the running snapshot writer", C+"db.cpp")],
 ["responses", "saved files in the database directory"])
prop("P22", "Small values stay intact however large the block file is",
 "Small values are stored and served intact, before and after restarts, whatever the number of existing and free blocks, including block files beyond 2 and 4 gigabytes and a block file of any size that is found without a saved index (an empty database, all its whole blocks free).",
 ["configurations", "histories"],
 "all block counts in the supported range (saved databases with up to millions of blocks, sparse on disk) and histories on top of them",
 "Tests start from an empty database and create a few blocks.",
 [C+"db.cpp"],
 [("block offset arithmetic", C+"db.cpp: db_target_open, db_block_size, db_block_free, db_block_allocate_new, db_open")],
 [("blocks_exist", "blocks in the block file", C+"db.h")],
 ["responses", "block file size"])
prop("P23", "A slow or stalled client never holds up the others",
 "However many clients have stopped reading a response, stopped in the middle of an upload or of a request, or keep connections idle, requests of other clients on any keys not being uploaded are answered promptly and correctly; when a stalled client resumes, its own request completes correctly.",
 ["schedules"],
 "all mixtures of stalled readers, uploaders, half-sent requests and idle connections, up to hundreds, with active clients in between",
 "The tests never leave a request or response unfinished while another client works.",
 [C+"connection.cpp", C+"http.cpp", C+"http_respond.cpp"],
 [("non-blocking sockets in one event loop", C+"connection.cpp: connection_event_loop"), ("interest in writability only while output is pending", C+"connection.cpp: connection_register_write, connection_register_read")],
 [], ["responses to active and resumed clients"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
