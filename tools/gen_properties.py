#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one line per property). Run to regenerate it."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["src/fdb5/" + f if not f.startswith("src/") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "A flush that returns has made everything archived before it durable",
  "When flushing the FDB returns, all field data, index content and table-of-contents records written before it have been handed to stable storage: every open data output is flushed and synchronised, every index that received entries is flushed and synchronised, and a table of contents that was written is synchronised before its descriptor is closed. Only a configuration switch documented to relax the sync may skip it, and a failing flush, sync or close is reported to the caller instead of being ignored.",
  ["crash_points", "histories", "fault_sequences"],
  "every sequence of archive and flush calls, every set of open data files and indexes, every point at which the machine may stop after flush returned, and every failing sync call",
  "The tests never crash the machine or fail a sync; a missing fdatasync is invisible to a test which reads back through the page cache.",
  ["io/FDBFileHandle.cc", "toc/TocStore.cc", "toc/TocIndex.cc", "toc/TocCatalogueWriter.cc", "toc/TocHandler.cc", "database/Archiver.cc"],
  [("data file flush and fdatasync", "FDBFileHandle::flush"), ("every cached handle is flushed", "TocStore::flush"),
   ("B-tree flush and sync", "TocIndex::flush"), ("toc fdatasync before close when dirty", "TocHandler::close"),
   ("all databases flushed", "Archiver::flush")],
  [("dirty_", "toc/index written since last sync", "TocHandler, TocIndex, TocStore, FDB")],
  ["return of FDB::flush", "stable storage"])

p("P02", "Nothing is published before what it refers to is complete",
  "A flush makes field data durable before the index entries that point at it are synchronised, and an index durable before a table-of-contents record announces it. A new database's schema is fully in place under its final name before the record that declares the database exists. So whatever prefix of the writes survives a crash, every visible catalogue entry refers to complete data.",
  ["crash_points", "schedules"],
  "every crash point inside database creation and flush and every reader running beside them",
  "Tests observe only the state after flush returned; no test stops a writer between two system calls.",
  ["database/Archiver.cc", "toc/TocCatalogueWriter.cc", "toc/TocHandler.cc", "toc/TocIndex.cc", "toc/TocStore.cc"],
  [("store flush feeds catalogue flush", "Archiver::flushDatabase"), ("index flush before index record", "TocCatalogueWriter::flushIndexes"),
   ("schema written to a temporary, renamed, then INIT record", "TocHandler::writeInitRecord")],
  observe=["toc file", "index files", "data files"])

p("P03", "Every archived field is indexed exactly once, where it was stored",
  "Each archived field is handed to the store exactly once, and the location the store returns is the one entered in the catalogue under the same database, index and datum key. The location records the file, offset and length at which the field's bytes were actually written. Flush compares the number of fields stored with the number catalogued and refuses to publish a catalogue that disagrees.",
  ["inputs", "histories", "fault_sequences"],
  "every field, key, sequence of archive calls into one or several databases and indexes, and failed or partial writes between them",
  "Tests archive short friendly sequences; a lost or shifted location after an unusual interleaving of databases or a failed write is not produced.",
  ["database/ArchiveVisitor.cc", "database/Archiver.cc", "toc/TocStore.cc", "toc/TocCatalogueWriter.cc", "toc/TocIndex.cc", "daos/DaosStore.cc", "remote/client/RemoteStore.cc"],
  [("store then catalogue with the returned location", "ArchiveVisitor::selectDatum"), ("offset captured before the write, length checked", "TocStore::archive"),
   ("archived fields equal archived locations", "TocCatalogueWriter::flush")],
  observe=["list and retrieve after flush"])

p("P04", "Table-of-contents records are appended whole, by single append-mode writes",
  "Every record added to a database's table of contents reaches the file as one write of a whole, padded record to a descriptor opened for appending, so concurrent writers can neither interleave inside a record nor overwrite one another. A write that is short or fails is reported as an error and not retried piecemeal. (Only the first record of a new table is written at its start, by a writer that found it empty.) No other part of the system writes into a live table of contents.",
  ["schedules", "fault_sequences"],
  "every interleaving of processes appending to the same table of contents and every short or failing write",
  "Tests have at most a few sequential writers; interleavings inside a record would need precisely timed concurrent processes.",
  ["toc/TocHandler.cc", "toc/TocRecord.cc", "toc/TocMoveVisitor.cc"],
  [("single rounded write", "TocHandler::append"), ("O_APPEND open", "TocHandler::openForAppend")],
  observe=["toc file"])

p("P05", "The most recently indexed copy of a field is the one served",
  "When a field was archived more than once, retrieving it yields the copy indexed last: catalogues are searched from the most recent index to the oldest, and the search stops at the first match. Listing with duplicate masking keeps that same first copy and drops the older ones.",
  ["histories", "inputs"],
  "every history of re-archiving the same field across flushes, processes, sub-tables of contents and index files",
  "Tests overwrite a field once or twice in one layout; the order must hold for any number of indexes and nested tables of contents.",
  ["toc/TocHandler.cc", "toc/TocCatalogueReader.cc", "api/helpers/ListIterator.cc", "api/FDB.cc"],
  [("indexes returned newest first", "TocHandler::loadIndexes"), ("first hit wins", "TocCatalogueReader::retrieve"), ("first seen key wins", "ListIterator::next")])

p("P06", "Entries cleared from a table of contents are never served again",
  "Once an index, sub-table of contents or whole table has been masked by a clear record, no reader lists, inspects or retrieves through it. All masks of a table are known before the first of its records is handed out, a whole-table clear masks exactly the entries that precede it, and nothing that is not masked is hidden.",
  ["histories", "inputs"],
  "every sequence of index, sub-table and clear records a table of contents can contain",
  "Tests contain a handful of table-of-contents shapes; the masking rule is over all record sequences.",
  ["toc/TocHandler.cc"],
  [("collect masked entries first", "TocHandler::populateMaskedEntriesList"), ("skip masked records in readNext", "TocHandler::readNext")],
  [("maskedEntries_", "cleared (file, offset) pairs", "TocHandler")])

p("P07", "Without confirmation, administrative commands change nothing",
  "Wipe and purge called without the flag that authorises the change, and the command-line tools run without the confirming option, delete, modify, mask, lock or move nothing, on the local backends and through a remote server alike. The authorisation given by the caller is what is passed on at every layer.",
  ["inputs", "configurations"],
  "every request, database state, backend and deployment (local, selected, remote), called without the confirming flag",
  "Tests check a few dry runs and look only at files they know; every path behind the flag must be guarded.",
  ["database/WipeCoordinator.cc", "toc/TocPurgeVisitor.cc", "api/local/PurgeVisitor.cc", "toc/TocMoveVisitor.cc", "remote/server/CatalogueHandler.cc", "tools/fdb-wipe.cc", "tools/fdb-purge.cc", "tools/fdb-move.cc", "daos/DaosStore.cc"],
  [("doit guards every deleting call", "WipeCoordinator::wipe; TocPurgeVisitor::purge; StoreHandler/CatalogueHandler wipe handlers")],
  observe=["file system", "DAOS containers"])

p("P08", "Wipe deletes only what it identified as belonging to the wiped database",
  "Wipe removes only items that the catalogue or the stores of that database classified as its own and that no retained index still needs; items marked as to be kept are never removed. Items nobody recognises are deleted only when the caller explicitly asked for an unsafe wipe of everything; otherwise their presence stops the wipe before anything is removed. A data item outside the database being wiped is refused, not deleted.",
  ["inputs", "histories"],
  "every wipe request, every content of a database directory, every sharing of files between databases and indexes",
  "Tests wipe small databases with few foreign files; the guarantee is about everything that must not be deleted.",
  ["database/WipeCoordinator.cc", "database/WipeState.cc", "toc/TocCatalogue.cc", "toc/TocStore.cc", "api/local/WipeVisitor.cc", "daos/DaosCatalogue.cc", "daos/DaosStore.cc", "remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc"],
  [("safe and delete sets kept disjoint", "WipeState, CatalogueWipeState"), ("unknown items need unsafeWipeAll", "WipeCoordinator::wipe"),
   ("location must belong to the store", "TocStore::finaliseWipeState")])

p("P09", "A wipe removes references before data and the catalogue last",
  "A real wipe first makes the affected index entries invisible, then deletes field data, and only then the catalogue's own files, and removes empty directories last. So a wipe that stops at any point never leaves a visible entry whose data has been deleted, and can be repeated to completion.",
  ["crash_points", "fault_sequences"],
  "every point at which a wipe may crash or fail, and every reader running beside it",
  "Tests only let a wipe run to its end; no test interrupts one between masking, data deletion and catalogue deletion.",
  ["database/WipeCoordinator.cc", "toc/TocCatalogue.cc", "remote/server/CatalogueHandler.cc", "remote/server/StoreHandler.cc"],
  [("order of wipe phases", "WipeCoordinator::wipe")])

p("P10", "Access restrictions applied for a wipe are lifted if it does not complete",
  "A wipe that disables reading, listing or archiving of a database while it works restores the previous access state if it is refused, fails or only partly removes the database. Restrictions that were in force before the wipe stay in force.",
  ["fault_sequences", "histories"],
  "every exit of a wipe: success, refusal, error from any phase, and every access state in force before it",
  "Tests exercise the successful exit; error exits in the middle of a wipe are not produced.",
  ["database/WipeCoordinator.cc", "toc/TocCatalogue.cc", "database/WipeState.cc"],
  [("lock, then reset control state", "CatalogueWipeState, Catalogue::control")])

p("P11", "Access locks on a database or on its root bind every operation",
  "When listing, retrieving, archiving or wiping is disabled for a file-based database by a lock, or for the root it lies in by configuration, every operation of that kind that opens the database refuses or skips it before it reads or changes anything in it: listing, inspecting and retrieving, archiving (locally and in the catalogue server), wiping, purging and moving each consult the lock of their own kind. Locks are looked up in persistent state, so they hold across processes; a database takes the access of the root it was found in, and new databases go only to roots that allow archiving.",
  ["configurations", "histories", "programs"],
  "every combination of locks and every operation of the client interface, locally and through the server",
  "Tests try a few lock and operation pairs; every operation must consult the right lock.",
  ["database/Archiver.cc", "database/MultiRetrieveVisitor.cc", "database/RetrieveVisitor.cc", "api/local", "toc/TocHandler.cc", "toc/TocCatalogue.cc", "toc/FileSpace.cc", "toc/Root.cc", "toc/RootManager.cc", "remote/server/CatalogueHandler.cc"],
  [("enabled(ControlIdentifier) checks", "Archiver::selectDatabase, visitors, CatalogueHandler::catalogue"), ("lock files", "TocHandler::control, TocHandler::enabled"), ("configured access", "Root, FileSpace::existsDB")])

p("P12", "Only the owner of a database modifies it",
  "Before a process changes an existing database on disk (appending to its table of contents, masking, locking, deleting its files or moving it) it verifies that it runs as the user who owns the database, and refuses with an error otherwise. The verification comes before the first change, not after it.",
  ["programs", "configurations"],
  "every operation that changes an on-disk database, run by any user",
  "The tests run as one user who owns everything; no test crosses users.",
  ["toc/TocHandler.cc", "toc/TocCatalogue.cc", "toc/TocPurgeVisitor.cc", "toc/TocMoveVisitor.cc"],
  [("checkUID", "TocHandler::checkUID, Catalogue::checkUID")])

p("P13", "What is serialised is read back field by field in the same order and type",
  "For every kind of value the FDB writes to a stream, a file or the network (keys, indexes, axes, locations, schemas and rules, list elements, statistics, wipe states, configurations and so on), the reading side consumes exactly the items that the writing side produces, in the same order, with compatible types and into the corresponding member, for each format version that is still written. So a value received or reloaded equals the value sent or stored.",
  ["inputs", "histories"],
  "every value of every serialisable type and every supported format version",
  "Tests round-trip a few instances of a few types; rarely filled members and older versions are not exercised.",
  ["database/Index.cc", "database/IndexAxis.cc", "database/FieldLocation.cc", "database/BaseKey.cc", "database/Key.cc", "database/WipeState.cc", "database/IndexStats.cc", "database/DbStats.cc", "api/helpers", "rules/Rule.cc", "rules/Schema.cc", "rules/Predicate.cc", "toc", "daos", "remote"],
  [("encode / stream constructor pairs", "encode(eckit::Stream&) and constructors taking eckit::Stream&")])

p("P14", "On-disk and on-wire formats are versioned, frozen and checked on reading",
  "The binary layout of table-of-contents records, stored field references and protocol message headers, and the numeric values of record tags, message codes and control identifiers, are those of the released format versions. A reader checks the version of what it reads and rejects versions it does not support instead of interpreting them, and a writer writes the version it was configured for and stamps it into the record.",
  ["histories", "configurations"],
  "every pair of a reader and a writer built from releases that share a format version, and every version value found on disk or on the wire",
  "Tests write and read with the same build, so a consistent change of layout on both sides passes.",
  ["toc/TocRecord.h", "toc/TocSerialisationVersion.cc", "toc/TocHandler.cc", "toc/FieldRef.h", "remote/Messages.h", "remote/Connection.cc", "database/IndexAxis.cc", "database/Index.cc"],
  [("packed records and static layout", "TocRecord, TocIndex FieldRef, MessageHeader"), ("version checks", "TocHandler::readNext, TocSerialisationVersion, MessageHeader marker/version")])

p("P15", "Every remote request is understood by the server and its payload and reply agree",
  "Each kind of message that a client can send is handled by the server it is sent to, each kind of message that the server can send is handled by the client, and for each request the payload written by one side is the payload read by the other, item by item, in both directions. A message of a kind that the receiver does not know is refused with an error and not silently accepted.",
  ["programs", "inputs"],
  "every request type, every payload, both directions of both connections",
  "Remote tests exercise the common requests; rarely used ones and unusual payloads are not sent.",
  ["remote/Messages.h", "remote/client/RemoteStore.cc", "remote/client/RemoteCatalogue.cc", "api/RemoteFDB.cc", "remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc", "remote/server/ServerConnection.cc"],
  [("dispatch switches", "StoreHandler, CatalogueHandler handleControl/handleData"), ("payload encoding", "RemoteFDB, RemoteStore, RemoteCatalogue")])

p("P16", "A remote failure reaches the caller, who never waits for ever",
  "An exception raised while the server serves a request is sent back as an error for that request, and a client waiting for the answer gets an exception. When the connection breaks, everything waiting on it is released with an error. No failure is turned into an empty or truncated success.",
  ["fault_sequences", "schedules"],
  "every request in flight, every server-side exception and every moment at which the connection may be lost",
  "The tests run client and server without faults; neither server exceptions nor lost connections in mid-request are produced.",
  ["remote/server/ServerConnection.cc", "remote/server/CatalogueHandler.cc", "remote/server/StoreHandler.cc", "remote/client/ClientConnection.cc", "remote/client/RemoteStore.cc", "remote/client/RemoteCatalogue.cc", "api/RemoteFDB.cc"],
  [("catch and reply Error", "ServerConnection::handle, CatalogueHandler::handleApiCall"), ("promises failed on connection loss", "ClientConnection::handleConnectionError"), ("queue interrupted on Error", "RemoteFDB::handle")])

p("P17", "Protocol messages are framed whole and validated",
  "Each message goes out as header, payload and end marker in one piece under the lock of the connection it uses, so messages of concurrent threads never interleave, and the header announces exactly the number of bytes that follow. The receiving side checks marker, protocol version, size and end marker and rejects a message that fails a check; a transfer of fewer bytes than asked for is an error.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of threads that share a connection, every message size, every short transfer",
  "Tests rarely have two threads sending at once and never see a short socket transfer.",
  ["remote/Connection.cc", "remote/Messages.h", "remote/client/ClientConnection.cc", "remote/server/ServerConnection.cc"],
  [("write under mutex", "Connection::write"), ("readUnsafe/writeUnsafe length checks", "Connection"), ("header asserts", "Connection::read")])

p("P18", "Data shared between threads is only touched under its lock",
  "State that several threads share (connection request tables, queues, open file handles, registries, caches, per-database writers, wipe states in progress) is read and written only while the lock that protects it is held. No accessor reaches it without that lock.",
  ["schedules"],
  "every schedule of client threads, connection reader and writer threads, server worker threads and asynchronous iterators",
  "Tests run a few threads under one schedule, and sanitizers are not part of them; a race needs a schedule that a test cannot force.",
  ["remote/client/ClientConnection.cc", "remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc", "toc/TocStore.cc", "toc/TocCatalogueWriter.cc", "database/Archiver.cc", "config/Config.cc", "toc/RootManager.cc", "database/AxisRegistry.cc", "rules/Schema.cc"],
  [("mutex members and lock guards", "promisesMutex_, clientsMutex_, handlesMutex_, mutex_, flushMutex_, cacheMutex_, readLocationMutex_, ...")])

p("P19", "Locks are never acquired in conflicting order",
  "No two threads can acquire two of the system's locks in opposite orders, and no thread re-acquires a non-recursive lock it already holds, directly or through calls. So no schedule ends in a deadlock on the system's own locks.",
  ["schedules"],
  "every schedule of all threads of one process",
  "A deadlock needs two threads at particular points at once, which tests do not produce.",
  ["remote/client", "remote/server", "database/Archiver.cc", "toc", "config/Config.cc", "api"],
  [("lock acquisition order", "all lock_guard/unique_lock/AutoLock sites")])

p("P20", "Background work ends cleanly and its errors reach the consumer",
  "An exception thrown in a worker thread that produces results reaches whoever consumes them instead of terminating the process or truncating the results, normal completion is always signalled, and abandoning an iterator stops and joins its worker before the state the worker uses goes away. Nothing handed to a background task refers to variables of a caller that may have returned.",
  ["schedules", "fault_sequences"],
  "every moment at which a worker may fail, finish or be abandoned",
  "Tests consume iterators to the end without failures.",
  ["api/helpers/APIIterator.h", "api/LocalFDB.cc", "api/RemoteFDB.cc", "remote/client/ClientConnection.cc", "remote/server/ServerConnection.cc", "remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc"],
  [("catch-all and queue.interrupt; join in destructor", "APIAsyncIterator"), ("shared ownership captured by worker lambdas", "LocalFDB::queryInternal, RemoteFDB::forwardApiCall")])

p("P21", "No exception crosses the C interface and every failure is a return code",
  "Every function of the C interface returns a status code, turns every C++ exception into a non-zero code with a retrievable description, and never lets an exception reach the caller. Null handles and null output pointers that it must not use are detected and reported, and the end of iteration is reported by its own code, distinct from success and failure.",
  ["inputs", "programs", "fault_sequences"],
  "every C function, every argument including null, every exception thrown below it",
  "The C tests call the functions with valid arguments; failures below most of the functions are never provoked.",
  ["api/fdb_c.cc", "api/fdb_c.h"],
  [("wrapApiFunction", "fdb_c.cc")])

p("P22", "Arguments given to the client interface reach the backend unchanged",
  "Each call of the client interface is forwarded with its request, flags and options unchanged through every layer: façade, lane selection and distribution, local or remote backend, and the server's helper, to the component that carries it out. No flag is dropped, swapped, defaulted or inverted, and each operation is forwarded as that same operation to all lanes it applies to.",
  ["programs", "inputs", "configurations"],
  "every operation, every combination of its arguments, every stacking of backends",
  "Tests cover few argument combinations through local FDBs and fewer through selection and remote.",
  ["api/FDB.cc", "api/SelectFDB.cc", "api/RandomFDB.cc", "api/LocalFDB.cc", "api/RemoteFDB.cc", "remote/server/CatalogueHandler.cc"],
  [("forwarding methods", "FDB, SelectFDB, RandomFDB, LocalFDB, RemoteFDB")])

p("P23", "Failed or partial I/O is never silently accepted when storing or deleting data",
  "On the paths that write, synchronise, rename, truncate, lock or remove stored data, and on those that read stored records and protocol messages, the outcome of each system or library call is checked, and a failure or short transfer becomes an error that reaches the caller. No exception is swallowed on these paths.",
  ["fault_sequences"],
  "every failing or short system call at every call site",
  "Tests run on healthy disks; full disks, I/O errors and short writes are not injected.",
  ["toc/TocHandler.cc", "toc/TocStore.cc", "io/FDBFileHandle.cc", "toc/TocMoveVisitor.cc", "toc/FileSpace.cc", "daos", "remote/Connection.cc"],
  [("SYSCALL, ASSERT and throw idioms", "all call sites of I/O functions")])

p("P24", "Descriptors and handles opened by an operation are released on every exit",
  "Files, descriptors, memory maps and DAOS handles that an operation opens are closed by the time it is over, on the normal exit and when an exception leaves it, and are not closed twice. A long-running server or client therefore does not lose descriptors with each operation or failure.",
  ["fault_sequences", "histories"],
  "every operation and every exception that leaves it half-way",
  "Tests do not count descriptors, and hardly ever fail an operation half-way.",
  ["toc/TocHandler.cc", "io/FDBFileHandle.cc", "toc/TocStore.cc", "daos", "io/FieldHandle.cc", "toc/TocMoveVisitor.cc"],
  [("scope closers", "TocHandlerCloser, DaosAutoClose, AutoClose, destructors")])

p("P25", "Lock names, values and files agree across tools, library, server and bindings",
  "Each access-control kind (list, retrieve, archive, wipe, unique root) has one name, one value and one marker file, the same in the parser, the printer, the table-of-contents lock files, the configuration, the command-line tools, the C and Python bindings and the wire protocol. Enumerating all kinds visits each of them exactly once.",
  ["configurations", "programs"],
  "every control kind in every component that names it",
  "Tests try one or two kinds through one component.",
  ["api/helpers/ControlIterator.cc", "api/helpers/ControlIterator.h", "toc/TocHandler.cc", "tools/FDBLock.cc", "src/pyfdb_bindings/bindings.cc", "src/pyfdb/pyfdb_type.py"],
  [("controlfile_lookup and name switches", "TocHandler.cc, ControlIterator.cc")])

p("P26", "Backends, location kinds and types are registered under unique, matching names",
  "Each storage scheme, engine, store, catalogue, field location, keyword type and tool component that the library offers is registered under a unique name, the name under which it is later looked up in configurations, schemas, stored indexes and messages. A name that is written to disk or sent over the network by one component is known to the component that decodes it, and an unknown name is an error.",
  ["configurations", "histories"],
  "every name stored on disk, sent on the wire or given in a configuration or schema",
  "Tests use a few engines and types; a missing or clashing registration shows only when that name is used.",
  ["database/FieldLocation.cc", "database/Engine.cc", "database/Store.cc", "database/Catalogue.cc", "types", "toc", "daos", "remote"],
  [("static builders", "FieldLocationBuilder, EngineBuilder, CatalogueReaderBuilder, StoreBuilder, TypeBuilder")])

p("P28", "Reading never changes stored data",
  "Listing, inspecting, retrieving, dumping, status, axes and statistics never create, modify, rename, lock or delete anything in a database, its table of contents, its index or its data files. Files are opened for reading only.",
  ["inputs", "programs", "configurations"],
  "every read-only operation on every database state and backend",
  "Tests compare results and not the state of the files after a read.",
  ["api/local", "api/LocalFDB.cc", "toc/TocCatalogueReader.cc", "toc/TocHandler.cc", "toc/TocStore.cc", "toc/TocFieldLocation.cc"],
  [("read-only open and btree read", "TocHandler::openForRead, TocIndex read mode")])

p("P29", "Purge removes only superseded data and masks it before deleting",
  "Purge deletes a data or index file only when every entry that refers to it is a duplicate superseded by a newer one, when the file belongs to the database being purged, and when nothing that remains visible uses it. The index entries that become unreachable are masked in the table of contents before the file that they refer to is deleted.",
  ["histories", "crash_points"],
  "every history of overwrites, sharing of files between indexes and databases, and every point where a purge may stop",
  "Tests purge one or two simple overwrites.",
  ["toc/TocPurgeVisitor.cc", "toc/TocStats.cc", "api/local/PurgeVisitor.cc"],
  [("usage counts of data and index files", "TocPurgeVisitor, TocStats::ReportVisitor"), ("clear record then unlink", "TocPurgeVisitor::purge")])

p("P30", "Moving a database never loses it",
  "Moving a database to another root copies its data and index files completely and publishes the table of contents at the destination only after everything that it refers to is there; the source is removed only afterwards. A move into an existing database or into an unknown root is refused before anything is copied, and a database is moved only while it is locked against archiving and wiping.",
  ["crash_points", "fault_sequences", "inputs"],
  "every point where a move may stop or a copy may fail, every destination",
  "Tests move complete databases without faults.",
  ["toc/TocMoveVisitor.cc", "toc/TocStore.cc", "io/LustreFileHandle.h", "tools/fdb-move.cc", "api/LocalFDB.cc"],
  [("ordered copy list", "TocMoveVisitor::move"), ("destination checks", "TocMoveVisitor::visitDatabase")])

p("P31", "The Python interface passes every argument through and mirrors every name",
  "Each function of the Python interface calls the library function of the same meaning with all of its arguments in their right places, and each enumeration visible in Python has the same members and values as in the library. Errors raised by the library surface as Python exceptions.",
  ["programs", "inputs"],
  "every function and enumeration of the Python package, every combination of arguments",
  "Python tests cover common calls with default arguments.",
  ["src/pyfdb_bindings/bindings.cc", "src/pyfdb", "src/chunked_data_view_bindings/bindings.cc", "src/pychunked_data_view"],
  [("pybind11 definitions", "bindings.cc"), ("wrapper classes", "pyfdb.py, pyfdb_iterator.py, pyfdb_type.py")])

p("P32", "A chunk of a data view is complete and in bounds, or it is an error",
  "Reading a chunk of a chunked data view rejects an index outside the view, and fails if any field which the chunk needs is missing, is duplicated or has an unexpected size. Nothing is written outside the buffer supplied, and no element of a chunk is returned without having been filled.",
  ["inputs", "fault_sequences"],
  "every view definition, chunk index and state of the underlying FDB",
  "Tests read well-formed views on complete FDBs.",
  ["src/chunked_data_view"],
  [("index and count checks", "ChunkedDataViewImpl::at, GribExtractor")])

p("P33", "A request considers every database that may hold what it asks for",
  "A listing, retrieval or other visit considers every database, in every root of every file space that may be visited, that can hold data matching the request: a keyword the request leaves out excludes nothing (neither through the schema's rules, nor through the regex of a file space, nor through the name of the database's directory), every rule of the schema and every way of naming directories is considered, and each database that matches is visited. With an FDB of type select, a listing leaves out a lane only because a value in the request does not match the lane or because the lane excludes all of it, and the results of every lane chosen are returned. A namer or a regex excludes a database only by a value the request gives. Which engines are asked, when an engines file with regexes is in use, is not part of this.",
  ["inputs", "configurations"],
  "every request, complete or partial; every configuration of file spaces, roots and database names; every schema",
  "Tests list with a single root, or with complete database keys.",
  ["toc/RootManager.cc", "toc/TocEngine.cc", "toc/FileSpace.cc", "rules/Schema.cc", "rules/Rule.cc", "database/Manager.cc", "database/EntryVisitMechanism.cc", "api/SelectFDB.cc", "rules/SelectMatcher.cc"],
  [("visitable roots", "RootManager::visitableRoots"), ("scan of the roots", "TocEngine::databases"), ("keys of a partial request", "Rule::findMatchingKeys")])

p("P35", "On object storage nothing is published before what it refers to",
  "On the DAOS backend, a field's object is completely written before the catalogue entry that points to it, and the key and schema of a database and the key of an index are stored before the entry by which readers find that database or index. A reader running concurrently, or after a crash, therefore never finds an entry whose target is missing.",
  ["crash_points", "schedules"],
  "every crash point of a DAOS writer and every concurrent reader",
  "Tests use a file-based stand-in and read after the writer has finished.",
  ["daos/DaosCatalogueWriter.cc", "daos/DaosStore.cc", "daos/DaosIndex.cc"],
  [("order of puts", "DaosCatalogueWriter constructor, createIndex, archive"), ("array written before returning its location", "DaosStore::archive")])

p("P36", "Metadata are validated completely before anything is written",
  "A field is stored only if its request matches a rule of the schema, all of the keys the rule needs have values, no key given is left unused, and the keys are valid for the schema; otherwise archiving fails before any data or index entry is written. The same validation applies to adoption, re-indexing and remote archiving, and duplicate rule matches are reported as errors.",
  ["inputs", "programs"],
  "every key, schema and archiving entry point",
  "Tests try a few wrong keys through the plain archive path.",
  ["database/BaseArchiveVisitor.cc", "database/ArchiveVisitor.cc", "database/Archiver.cc", "toc/AdoptVisitor.cc", "database/ReindexVisitor.cc", "rules/Rule.cc", "rules/Schema.cc", "message/MessageArchiver.cc"],
  [("checkMissingKeys", "BaseArchiveVisitor::checkMissingKeys"), ("one rule only", "Archiver::archive")])

p("P37", "Unflushed work is never forgotten",
  "Any archive or re-index marks the FDB, its backends, stores and indexes as needing a flush before it can be skipped, and the mark is cleared only by a flush that succeeded. A destructor, cache eviction or change of database therefore never drops archived data silently.",
  ["histories", "fault_sequences"],
  "every sequence of archive, flush, failed flush, eviction, move and destruction",
  "Tests flush after archiving, on the successful path.",
  ["api/FDB.cc", "api/SelectFDB.cc", "database/Archiver.cc", "toc/TocStore.cc", "toc/TocIndex.cc", "toc/TocHandler.cc", "remote/client/RemoteStore.cc"],
  [("dirty marks", "FDB::dirty_, SelectFDB, TocIndex::dirty_, TocStore::archivedFields_")])

p("P38", "An existing database is interpreted with the schema it was created with",
  "Opening an existing database uses the schema stored in it, also when the configured schema has changed since. Index axes and keys are interpreted with that schema in all read, write and administrative paths, and after reconnecting or moving.",
  ["configurations", "histories"],
  "every pair of stored and configured schema",
  "Tests rarely change the schema after databases have been created.",
  ["toc/TocCatalogue.cc", "toc/TocCatalogueWriter.cc", "toc/TocCatalogueReader.cc", "daos/DaosCatalogue.cc", "remote/client/RemoteCatalogue.cc", "database/ArchiveVisitor.cc"],
  [("loadSchema", "TocCatalogue::loadSchema, DaosCatalogue::loadSchema, RemoteCatalogue::loadSchema")])

p("P39", "Client-side flow control accounts for every read it admits",
  "Every remote read that is admitted against the memory limit is released exactly once, when its data have been consumed, when it failed or when its client goes away, and reads that wait are sent as soon as there is room. So the limit is respected, and no read waits for ever.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of reads, completions, errors and disconnections",
  "Tests issue a few reads below the limit.",
  ["remote/client/ReadLimiter.cc", "remote/client/RemoteStore.cc"],
  [("admit, send, finish, evict", "ReadLimiter")])

p("P40", "A server executes a remote wipe only as far as it authorised it itself",
  "A store server deletes data for a wipe only on the basis of a wipe state whose signature it verified, refuses the unrestricted mode where it must, and deletes unknown items only if the unsafe mode was agreed and they are among those reported. Wipe state that belongs to one request is never used for another.",
  ["inputs", "fault_sequences", "programs"],
  "every sequence of wipe messages that a client may send, including forged, repeated and re-ordered ones",
  "Tests use the well-behaved client.",
  ["remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc", "database/WipeState.cc"],
  [("signature check", "StoreHandler::finaliseWipeState, StoreWipeState::signature"), ("subset check of unknown items", "StoreHandler::doWipeUnknowns")])

# --- properties no sound static argument in reach can decide -------------------------------

p("N01", "Retrieving a field returns exactly the bytes that were archived",
  "For every field, the bytes returned by retrieve are those passed to archive, whatever the size, alignment, ordering or aggregation of the request.",
  ["inputs", "histories"], "every field content and size, every grouping of requested fields",
  "Tests compare some fields.", ["io", "toc/TocFieldLocation.cc", "io/HandleGatherer.cc"], [("gathered part handles", "io/HandleGatherer.cc, io/FieldHandle.cc")])

p("N02", "Equivalent spellings of a metadata value denote the same field",
  "Values which MARS considers equal (0001 and 1, dates written differently, step ranges) are canonicalised to the same stored key, and different values never collide.",
  ["inputs"], "every value of every keyword type", "Tests sample values per type.", ["types"], [("toKey", "src/fdb5/types")])

p("N03", "A request is answered with exactly the matching fields",
  "Listing and retrieving return every visible field that matches the request, and no other.",
  ["inputs", "histories"], "every request and every content of an FDB", "Tests sample requests on small FDBs.",
  ["database/EntryVisitMechanism.cc", "database/MultiRetrieveVisitor.cc", "rules/Rule.cc", "database/Index.cc"], [("request expansion and axis matching", "Rule::expand, Index::mayContain")])

p("N04", "Concurrent archiving and reading is linearizable at flush granularity",
  "For any schedule of writers and readers, what a reader sees equals the effect of some sequence of completed flushes.",
  ["schedules", "histories"], "every schedule of any number of processes", "Tests do not explore schedules.", ["toc"], [("append-only toc and indexes", "toc/")])

p("N05", "Chunk extents and element positions of a data view are computed correctly",
  "Each element of a chunk lands at the position defined by the view's axes, groupings and chunking.",
  ["inputs"], "every view definition", "Tests sample views.", ["src/chunked_data_view", "src/z3fdb"], [("axis arithmetic", "RequestManipulation, ViewPart")])

p("N06", "Operations finish within bounded time and memory",
  "Listing, retrieving and archiving need time and memory bounded by the size of their input and the configured caches.",
  ["inputs", "histories"], "every workload", "Tests do not measure.", ["api", "toc"], [("caches and queues", "Archiver, TocStore, queues")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
