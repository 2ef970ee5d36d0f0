#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script only so the file stays valid JSONL).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","A list behaves as one sorted ranking of its elements",
 "After any sequence of populate, insert, update, delete, split/merge, reindex, repair and unload operations, a list contains exactly the elements last written and not deleted, each with its latest score, tie-breaker, update time and payload. Length, lookup by ID and reads by offset from top or bottom always agree with ranking those elements by score (highest first), then tie-breaker (highest first), then update time (earliest first), then ID (lowest first). Reported from-top/from-bottom ranks of looked-up elements are their exact positions in that ranking.",
 ["inputs","histories","configurations"],"every operation history, score/tie-breaker/ID distribution (including 0 and max values and large ties), merge/split size, cache and blob store wrapper",
 "List tests use a few fixed lists with uniformly random scores and check selected calls; they do not compare whole histories, small segments, ties and extreme values with a reference ranking.",
 ["list.go","segments.go","segment.go","elements.go"],
 [("element ID index kept in step with score segments","list.go UpdateElements/Insert/DeleteElements"),("segment ranges partition the score space","segments.go splitIdx/mergeWithNext, segment.go FilterIdx")],
 ["List.Len","List.GetElements","List.GetRankTop","List.GetRankBottom"],
 [("Scores/Index segments","elements by score, and IDs mapped to score segment","list.go List")])
p("C02","Structural integrity holds after every completed operation",
 "After any completed list operation, list verification (structure and elements) succeeds: segment ranges tile the whole score space without gap or overlap, every stored count equals the stored elements, every element is sorted and inside its segment, and each element ID is indexed exactly once to the segment holding it. Splitting or merging never changes the content of the list. This holds both for the in-memory state and for the state a fresh process reads from the same storage.",
 ["inputs","histories","configurations"],"every operation history and every segment layout reachable through splits and merges",
 "Tests call Verify after a handful of scripted sequences with default sizes; reachable segment layouts (empty, tied, boundary-valued segments) are not explored.",
 ["list.go","segments.go","segment.go"],
 [("Verify / VerifyElements","list.go, segments.go"),("split and merge range bookkeeping","segments.go splitIdx, mergeWithNext, AlignIndex")],
 ["List.Verify","List.VerifyElements","List.ForceSplit","stored segment blobs"])
p("C03","Score and percentile queries return the right window and ranks",
 "A query from a given score returns, in rank order, the first n elements whose score is at or below it, each with its exact from-top and from-bottom rank; when none qualifies the result is empty. A percentile query on a non-empty list returns the element at position floor(percentile x length) from the top (the last element for 1.0) with exact ranks and neighbours; on an empty list it fails cleanly or returns nothing rather than crashing. Offsets outside the list are reported as out of bounds.",
 ["inputs","histories","configurations"],"every list content and layout (including empty segments and ties across segment boundaries), every score, percentile, offset and count",
 "Tests query lists built by a single populate, so every segment is non-empty and scores are nearly unique.",
 ["list.go","segments.go"],
 [("segIdxScore + getElementsFromScore","segments.go"),("topOffsets + getElementIndex","list.go GetPercentile")],
 ["List.GetRankScoreDesc","List.GetPercentile","List.GetRankTop","List.GetRankBottom"])
p("C04","Neighbours and update results describe the list before and after",
 "Looking up elements with a radius returns for each exactly the min(radius, available) elements directly above and directly below it in the ranking, nearest first, across segment boundaries. An update with results returns each updated element with its rank after the whole update, and, exactly when the element existed before, its previous score, payload and its true rank (from top and from bottom) before the update. Requested IDs that do not exist are simply absent.",
 ["inputs","histories","configurations"],"every list layout, update batch mixing new, moved and unchanged elements, and every radius",
 "Tests check neighbours on one list and previous rank only in single-segment lists.",
 ["list.go","segments.go"],
 [("findRanked neighbours","segments.go"),("oldRank recorded before update","list.go UpdateElements")],
 ["List.GetElements(radius)","List.UpdateElements(results)","List.GetPercentile(radius)"])
p("C05","Lists survive saving, unloading and reloading unchanged",
 "Once a list operation has returned and the list directory has been saved, a new process that loads the directory from the same storage sees every list with identical metadata, settings and elements, whether or not index loading is enabled. Releasing or pruning in-memory segments at any point never changes what a list returns.",
 ["histories","configurations"],"every operation history with save, release, prune and reload at any point, for every store backend and cache",
 "Tests save and load a fixed set of lists once, on a quiet memory store.",
 ["list.go","lists.go","manager.go","segments.go"],
 [("replaceSegment + saveSegments on every update","segments.go, list.go"),("Lists.Save/Load","lists.go"),("ReleaseSegments","list.go")],
 ["Manager.SaveLists","Manager.LoadLists","List.ReleaseSegments","Lists.Prune"])
p("C06","A cloned list equals its origin and is independent of it",
 "A list cloned from another has exactly the elements (including payloads and update times) the origin had, verifies, and respects its own set, metadata and split/merge sizes. Afterwards no operation on either list, including deletion of one of them, changes what the other one returns.",
 ["inputs","histories","configurations"],"every origin content, every pair of list settings, every later history on both lists",
 "The clone test compares one list once and never mutates both sides sharing a store and cache.",
 ["list.go"],[("cloneElements copies segments and rebuilds the index","list.go")],
 ["NewList(Clone)","List reads on both lists"])
p("C07","Backup followed by restore reproduces the list",
 "Restoring a list backup stream reproduces exactly the elements, ranks, metadata and settings the list had when the backup ran, under the same or a new ID, in a store that is empty or still holds the original. The restored list verifies and accepts further operations, and restoring under a new ID leaves the original untouched. A truncated, corrupted or wrong-version stream yields an error, never a crash or a list reported as successfully restored with missing elements.",
 ["inputs","histories","configurations","fault_sequences"],"every list content and layout, every destination, every truncation point and byte corruption of the stream header",
 "Tests back up one generated list and restore it once from an intact stream.",
 ["list.go","backup/job.go","backup/restore.go"],[("List.Backup / RestoreList","list.go"),("multi-list stream framing","backup/job.go, backup/restore.go")],
 ["List.Backup","RestoreList","backup.Request.Start","backup.Restore"])
p("C08","Concurrent operations on a list are atomic, lossless and race-free",
 "Operations on a list that run concurrently (updates, inserts, deletes, lookups, range, score and percentile reads, statistics, verification, splits, reindexing, unloading) never deadlock, crash or race on memory. Every completed update or delete of an element takes effect exactly once, and per element the observed history of updates, deletes and lookups is linearizable. When all operations have finished, content and structure equal the result of some sequential order of them.",
 ["schedules","histories"],"every interleaving of concurrent operations from several clients, including background splitting and releases",
 "Concurrency tests run one mix on one list without recording histories; few interleavings of reads with splits/releases are reached and results are not checked against a model.",
 ["list.go","segments.go","segment.go"],
 [("updateLock/segmentsLock/loadingLock and per-segment locks","list.go loadSegments, segments.go elementFullIdx"),("single-flight element loading","segment.go loadElements")],
 ["List methods at the client boundary","Go race detector","goroutine states"])
p("C09","Background split, prune and save never change visible content",
 "With the manager's list splitter, pruner and interval saver running, concurrent client traffic observes exactly what it would without them: no element is lost, duplicated or misranked and nothing deadlocks. Lists that grow past their split size are eventually split once traffic stops. On shutdown the final directory save includes every list added before it and is finished before the saver reports completion.",
 ["schedules","histories"],"every interleaving of client traffic with background maintenance and shutdown",
 "Tests start the services but rarely overlap them with checked traffic.",
 ["manager.go","lists.go","list.go"],[("StartListSplitter/StartListPruner/StartIntervalSaver","manager.go")],
 ["Manager services","List reads","storage contents after shutdown"])
p("C10","Storage failures surface as errors and leave lists usable",
 "When the blob store fails any read, write or delete, the affected list operation returns an error instead of reporting success, and never crashes, deadlocks or leaves a lock held. A read that returns without error returns correct data. After the store recovers, elements not touched by failed operations are still present after a repair, and the list accepts operations and verifies again.",
 ["fault_sequences","histories"],"failing every single storage call, and random failure bursts, in every kind of operation",
 "Fault injection exists in the tests only for a couple of operations with one injected error each.",
 ["list.go","segments.go","segment.go","blobstore/teststorage.go"],[("error propagation from replaceSegment/elementFullIdx","segments.go"),("unlocking on error paths","list.go")],
 ["return values of List methods under injected faults","later Verify/Repair/reads"])
p("C11","Repair and reindex recover damaged lists",
 "Reindexing a list whose index is missing, stale or corrupt restores a list that verifies with exactly the stored elements. Repairing a list with duplicate, misplaced or unreadable segments yields a list that verifies and contains every element still readable exactly once, keeping the most recently updated copy and, if equally recent, the highest scored one; repairing a healthy list changes nothing. Repair with clearing allowed makes an unloadable list an empty, usable one.",
 ["inputs","histories","fault_sequences"],"every list content and every combination of lost, stale, corrupted or duplicated blobs",
 "Repair and reindex are tested on at most one damaged layout.",
 ["list.go","elements.go"],[("Reindex from scores","list.go"),("Repair: collect, deduplicate, repopulate","list.go"),("Deduplicate","elements.go")],
 ["List.Reindex","List.Repair","List.Verify"])
p("C12","Deleting or replacing list content leaves nothing behind",
 "Deleting a list removes every blob it owned from its set and removes it from the directory, and never touches blobs of other lists. Replacing its content (populate, repair, reindex) or merging segments leaves only blobs reachable from the current list. A list re-created under the same ID afterwards starts empty.",
 ["histories","configurations"],"every operation history before the delete or replacement",
 "Tests never compare the set of stored blobs with what is reachable.",
 ["list.go","segments.go","manager.go"],[("Segments.Delete, deleteAll","segments.go, list.go"),("DeleteList","manager.go")],
 ["keys in the blob store","Manager.DeleteList","List.DeleteAll"])
p("C13","Blob stores return exactly the last value stored under a key",
 "In every bundled store (memory, bolt, badger, Aerospike, DynamoDB, and any wrapper stack over them) a get returns a byte-exact copy of the last value set for that set and key, a deleted or never written key is reported as not found, and deleting a missing key is not an error. Values under different sets or keys never affect each other, whatever bytes they contain, and the stored value is isolated from later changes to the caller's buffers. Values written before a clean close are readable after reopening persistent stores. When the service behind a store refuses a request, the operation reports an error that is not \"not found\" and has no effect, and with retrying it succeeds once the service accepts it. The DynamoDB store creates the tables it needs and, with its splitting store, takes values above the item limit.",
 ["inputs","histories","configurations"],"every sequence of set/get/delete/reopen over arbitrary sets, keys and values including empty and large ones",
 "The shared store test suite uses a handful of fixed keys and one ordering of calls.",
 ["blobstore/memstore/memstore.go","blobstore/boltstore/boltstore.go","blobstore/badgerstore/badger.go","blobstore/aerostore/aerostore.go","blobstore/dynamo/dynamo.go","blobstore/blobstore.go"],
 [("Store interface contract","blobstore/blobstore.go")],["Store.Get/Set/Delete"])
p("C14","Concurrent use of a blob store is linearizable per key",
 "Concurrent gets, sets and deletes on a blob store (memory, bolt, badger, Aerospike, DynamoDB, and the size-limiting, retrying and lazy-saving wrappers over them) are free of data races and deadlocks. The history of each key is linearizable: a get never returns a value older than one whose set completed before the get started, and never a mix of two values.",
 ["schedules","histories"],"every interleaving of concurrent clients over shared keys",
 "Store tests run concurrent access without recording or checking histories.",
 ["blobstore/memstore/memstore.go","blobstore/badgerstore/badger.go","blobstore/lazysaver.go","blobstore/maxsize.go"],
 [("per-store locking","blobstore/*")],["Store calls at the client boundary","race detector"])
p("C15","The lazy saver never loses or reorders writes",
 "Through the lazy saver a client always reads its latest completed write or delete, whether the item is queued, being written or already stored. After shutdown, or after the queue has drained, the underlying store holds for every key exactly the last write or delete, and no older write lands after a newer one. The number of queued items stays bounded by the configured limit plus waiting writers, and writes after shutdown are refused rather than dropped.",
 ["schedules","histories","fault_sequences","configurations"],"every interleaving of writers with the flushers, every limit/flush/saver setting, slow stores",
 "The lazy saver is tested with the generic store suite over a fast store, so in-flight rewrites and delayed saves do not occur.",
 ["blobstore/lazysaver.go"],[("write cache + saver goroutines","blobstore/lazysaver.go"),("Shutdown flush","blobstore/lazysaver.go")],
 ["LazySaver.Get/Set/Delete/Shutdown","calls received by the wrapped store"])
p("C16","The size-limited store splits blobs transparently",
 "Through the size-limiting store a value of any supported size reads back byte-exact, whatever sizes were stored under the key before, also from a new instance over the same storage and while other clients write it, and no blob written to the wrapped store is larger than the limit. Overwriting with a smaller value or deleting leaves no readable remains under the key, and a value too large or with a missing part gives an error rather than wrong data.",
 ["inputs","histories","configurations"],"every sequence of sizes around multiples of the limit, every limit, and re-created wrappers",
 "Tests store a few sizes once; they do not shrink, grow and re-read across instances at every boundary.",
 ["blobstore/maxsize.go"],[("part count header and numbered part keys","blobstore/maxsize.go")],
 ["MaxSizeStore calls","blobs received by the wrapped store"])
p("C17","Retrying stores retry transient failures only, and report the rest",
 "A retrying store repeats an operation that fails with a transient error until it succeeds or its time budget or the caller's context ends, and then returns the final error; a success is returned exactly once with the correct value. Errors that are permanent (not found, too large, and any error configured as permanent for that store) are returned immediately without another attempt, and configuring one store never changes another.",
 ["fault_sequences","configurations"],"every sequence of failures and configured permanent errors",
 "The retry tests run the generic suite on a store that fails in one fixed pattern.",
 ["blobstore/retry.go"],[("opErr / backoff and permanent error set","blobstore/retry.go")],
 ["calls seen by the wrapped store","returned errors"])
p("C18","The list directory enumerates, pages and matches exactly",
 "For any set of lists, paging forward from an ID returns the next n IDs in ascending order and paging backward the n IDs immediately preceding it, with correct counts of lists before and after the page, so that walking pages visits every list exactly once. Matching returns exactly the lists that are in one of the requested sets or whose metadata contains all requested pairs, existence checks report exactly the IDs present, and adding or deleting a list changes only that list. All this stays correct while lists are added and removed concurrently.",
 ["inputs","histories","schedules"],"every set of IDs, page position, page size and metadata query",
 "Paging tests use a few fixed IDs and page sizes.",
 ["lists.go"],[("SortedIDsAfter/SortedIDsBefore/MatchAll/Exists","lists.go")],["Lists methods"])
p("C19","The saved list directory is complete and falls back to its backup",
 "Saving the directory and loading it into a new manager reproduces every list's ID, set, metadata, sizes and content references. A directory stored uncompressed or deflated, as earlier versions did, loads just as well. If the stored directory is missing or unreadable, loading uses the configured backup copy; a truncated or corrupted directory never crashes loading nor is silently accepted as a shorter directory. A failed save reports an error and leaves the previously saved directory or its backup loadable.",
 ["inputs","fault_sequences","histories"],"every set of lists, every truncation or corruption of the stored directory, every failing storage call",
 "Tests save and load one small intact directory.",
 ["lists.go","manager.go"],[("Lists.Save/Load zstd stream with end marker","lists.go"),("backup fallback","manager.go LoadLists")],
 ["Manager.SaveLists","Manager.LoadLists","stored directory blob"])
p("C20","Element collections sort, merge, deduplicate and search correctly",
 "Sorting elements of any length yields the same elements in rank order; merging two sorted collections yields the sorted union of both; merging with deduplication keeps exactly one element per ID, preferring the inserted one. Deduplication keeps per ID the most recently updated element, or the highest scored one when equally recent, and splitting into chunks loses nothing and never separates elements equal in score and tie-breaker. Insert, add, update, delete and find behave as on a sorted sequence keyed by ID, without modifying unrelated inputs.",
 ["inputs"],"every collection content and length, including heavy ties, duplicates and the large-collection paths",
 "Tests use hand-written short slices; large parallel sort, tie boundaries and equal-time duplicates are not covered.",
 ["elements.go","element.go"],[("Sorter/Above total order","elements.go, element.go"),("Merge/MergeDeduplicate/Deduplicate/SplitSize","elements.go")],
 ["Elements methods","ElementIDs methods"])
p("C21","Float scores keep their order and survive conversion",
 "For all floats that are not NaN, the converted integer scores order exactly as the floats do, and converting back returns the original float (with negative zero treated as ordering no higher than positive zero). NaN maps to a fixed score and never crashes.",
 ["inputs"],"every pair of float64 values including infinities, subnormals, zeros and NaN payloads",
 "Tests convert a few thousand random values from one range.",
 ["sortfloat/float.go"],[("sign-aware bit mapping","sortfloat/float.go")],["sortfloat functions"])
p("C22","Serialized data round-trips and bad data is rejected",
 "Encoding any element, element collection, segment, segment collection or list and decoding it, through either the streaming or the buffer interface, returns an equal value and consumes exactly the encoded bytes. Decoding arbitrary, truncated or wrong-version bytes returns an error without crashing, hanging or disturbing other values.",
 ["inputs"],"every value, every truncation, arbitrary bytes",
 "Generated tests round-trip zero values only.",
 ["element_gen.go","elements_gen.go","segment_gen.go","segments_gen.go","list_gen.go","msgppool.go"],
 [("msgp codecs and version byte","*_gen.go, msgppool.go")],["MarshalMsg/UnmarshalMsg/EncodeMsg/DecodeMsg","stored blobs"])
p("C23","Lists sharing storage and cache never influence each other",
 "Any number of lists that share one blob store, set and segment cache behave as if each were alone: operations on one never change what another returns, whichever cache type and size is used, also when lists are deleted and re-created under the same ID. Results with a cache equal the results without one.",
 ["histories","configurations","schedules"],"every interleaving of histories over several lists, every cache type and size including tiny ones",
 "Tests exercise lists one at a time, mostly without a shared cache under eviction pressure.",
 ["segments.go","segment.go","cache.go","list.go"],[("cacheID per segment and parent","segment.go"),("cache updates in replaceSegment/Delete","segments.go")],
 ["List reads on every list"])
p("C24","HTTP element endpoints follow the list model",
 "Creating, updating, deleting and reading elements over HTTP, singly or in batches, has exactly the effect and returns exactly the elements, scores, payloads and ranks that the list model predicts, including neighbours, surrounding-element queries, ranges and percentiles. Requests for missing lists or elements give not-found, creating an existing element gives conflict, malformed requests give a client error, and no such failed request changes any list.",
 ["inputs","histories"],"every request sequence, valid or malformed",
 "API tests issue fixed request scripts against near-empty lists.",
 ["api/elements.go","api/lists.go","api/morph/elements.go"],[("controllers over List","api/elements.go"),("morph conversions of ranks and neighbours","api/morph")],
 ["HTTP responses"])
p("C25","Tokens grant only their scopes, lists and elements",
 "A protected request is carried out only with a currently valid token signed by a configured key that holds the scope the endpoint requires; otherwise it is refused and changes nothing. A token restricted to certain lists or elements can read or modify only those lists and elements through any endpoint enforcing the restriction, single, multi-element or multi-list alike, and an unrestricted token is not limited. The server hands out no tokens itself unless built to. Restrictions are never widened by malformed, duplicated or mixed identifiers.",
 ["inputs","configurations"],"every combination of endpoint, scope, restriction list, target, signature, expiry",
 "API tests try two or three tokens per endpoint.",
 ["api/jwt.go","api/elements.go","api/lists.go","api/multilist.go"],[("JWT middleware scope check","api/jwt.go"),("HasAccessToList/HasAccessToElement","api/jwt.go")],
 ["HTTP status codes","list content after refused requests"])
p("C26","Multi-list operations apply to exactly the selected lists",
 "A multi-list operation (create, update, delete or read elements, verify, reindex, repair) acts on exactly the lists selected by explicit ID or by set and metadata, each as the single-list operation would, and reports one result per selected list with success or error. Lists not selected are unchanged, and failure on one list does not prevent or alter the result of others.",
 ["inputs","histories","schedules"],"every selection, every mix of existing and missing lists and elements",
 "Multi-list tests use three lists and one selection per endpoint.",
 ["api/multilist.go","lists.go"],[("onEveryList fan-out","api/multilist.go"),("MatchAll selection","lists.go")],["HTTP responses","content of all lists"])
p("C27","HTTP list lifecycle keeps the directory exact",
 "Creating a list over HTTP makes exactly that list with the given settings and content visible; creating over an existing ID conflicts unless replacement is asked for, in which case only the new content remains; cloning and deleting affect only the named list. Listing pages through all lists exactly once, and a failed request leaves the directory unchanged.",
 ["inputs","histories"],"every sequence of lifecycle requests, valid or not",
 "API tests create each list once under a fresh name.",
 ["api/lists.go","lists.go","manager.go"],[("ListsController","api/lists.go")],["HTTP responses","directory listing"])
p("C28","A shut-down server keeps every acknowledged change",
 "Every update acknowledged by the server before it finished shutting down is present after the server is restarted on the same storage, also when requests are in flight while the shutdown starts and with lazy saving enabled. Requests are either completed and acknowledged or refused; concurrent updates never exceed the configured limit and none is lost.",
 ["schedules","histories","crash_points"],"every point at which shutdown starts relative to in-flight requests, every storage configuration",
 "API tests run one in-memory server that is never restarted.",
 ["api/rankdb.go","api/shutdown.go","api/services.go","manager.go","blobstore/lazysaver.go"],
 [("staged shutdown: requests, lists save, lazy saver, store","api/services.go, api/rankdb.go")],["HTTP responses of run 1","HTTP reads of run 2"])
p("C29","Stored lists survive an abrupt process kill",
 "When a process using a durable local store (bolt) is killed at any moment, a new process opens the store without error and every blob write acknowledged before the kill is readable and byte-exact, each key holding either its last acknowledged value or a value whose write was in progress. A list rebuilt from those blobs loads and, after repair, contains every element whose update was acknowledged and not being modified at the kill.",
 ["crash_points","histories"],"every kill point during a stream of writes",
 "No test kills a process.",
 ["blobstore/boltstore/boltstore.go","list.go"],[("one transaction per write","blobstore/boltstore/boltstore.go"),("elements saved before segment directory","list.go, segments.go")],
 ["acknowledgement log written by the child","store contents after reopening"])
p("C30","Backup jobs copy every selected list and report honestly",
 "A backup job over a set of lists writes every list it reports as successful so that restoring the stream recreates it exactly, honouring ID prefix and suffix and the keep-or-replace choice; lists that could not be backed up or restored are reported as failed with a reason and do not abort the others. Job status can be polled concurrently at any time, progress never exceeds the total, and a cancelled job ends as cancelled.",
 ["histories","schedules","fault_sequences"],"every selection of lists, fault position, cancellation point and concurrent polling",
 "Backup tests run one job to completion on healthy lists and poll it sequentially.",
 ["backup/job.go","backup/restore.go","api/backup.go"],[("Request.Start goroutine and status","backup/job.go"),("RestoreLists","backup/restore.go")],["job status","restored lists"])
p("C31","A cancelled caller affects only its own call",
 "When the context of a list operation is cancelled or expires, only that operation may fail: operations running at the same time with a live context succeed with exactly the results they would otherwise have, although they share segments and caches with the cancelled one. A cancelled operation returns promptly with an error or its correct result, leaves no lock held, and a context that ends after its operation returned never undoes or disturbs anything.",
 ["schedules","fault_sequences"],"every interleaving of cancelled and live operations and every point at which a context can end",
 "No test cancels a context while other operations run.",
 ["segment.go","segments.go","list.go"],[("loadElements shares one load among callers","segment.go"),("waitErr","tools.go")],["results and errors of calls with live contexts","list content afterwards"])
p("C32","Verification accepts exactly the consistent lists",
 "Verify and VerifyElements together succeed on a list if and only if its stored data is consistent: segments contiguous and in order without overlap, counts and bounds matching the stored elements, elements sorted within their segment, no element stored twice, every element indexed exactly once to the segment holding it and nothing else indexed. Any lost, swapped, duplicated, misplaced or changed piece of a list is reported as an error; a consistent list is never reported.",
 ["inputs","fault_sequences"],"every list content and every inconsistency its stored pieces can have",
 "Tests run verification only on lists that are fine; none checks that a damaged list is refused.",
 ["list.go","segments.go"],[("List.Verify","list.go"),("List.VerifyElements","list.go"),("Segments.Verify","segments.go"),("Segments.VerifyElements","segments.go")],["result of Verify and VerifyElements","stored blobs"])
p("C33","Background services keep saving and splitting through failures",
 "With the interval saver running, every change of the list directory is in the stored directory after the next full save, and in the backup copy once one is due (every BackupEvery saves), whatever happened before: failing saves do not end saving, a failing backup store does not keep the directory from being saved and the other way around, and an interval or backup count of zero disables just that. On shutdown the current directory is stored, however slow the storage, before completion is reported, and nothing is written afterwards. Split requests never block writers, also when more are made than can be queued, and a list whose split fails, or that was deleted meanwhile, neither stops the splitting of other lists nor loses content; it is split once storage works again. Neighbouring segments of a list that shrank are merged while the list is used.",
 ["fault_sequences","histories","schedules","configurations"],"every sequence of storage failures and directory changes relative to the saver's ticks, every backup cadence, every number of queued requests",
 "Tests start the services with long intervals on working storage and never look at what they stored.",
 ["manager.go","lists.go","list.go"],[("StartIntervalSaver, SaveLists","manager.go"),("StartListSplitter, requestSplit","manager.go, list.go")],["stored directory and backup blobs","order of writes","stored segments","return of client calls"])
p("C34","Both API encodings mean the same",
 "Requests may be sent as JSON or msgpack and answers requested in either, in any combination: the same request has the same effect, and the same read returns the same fields with the same values (numbers exactly, payloads as the JSON text stored, times to their precision) and the same status. Whatever a msgpack body contains - truncated, damaged, values of other types, sizes that are not there, payloads that are not JSON - it is either refused with a client error and no effect or stored so that every list stays readable in both encodings, and the server keeps running.",
 ["inputs","histories"],"every request in every combination of encodings, every msgpack body",
 "No test sends or requests msgpack.",
 ["api/app/controllers.go","api/app/contexts.go","api/morph/elements.go","api/elements.go","api/multilist.go","api/lists.go"],[("Consumes/Produces application/msgpack","api/design/api.go"),("payload conversion","api/morph/elements.go")],["HTTP requests and answers of the real server"])
p("C35","Finished work leaves nothing running",
 "When an operation, request, backup job, restore or background service has ended - completed, failed, cancelled, or its client, source or destination gone - nothing of it remains: no goroutine still running or blocked, no lock held, no file or connection open, and every source given to a restore and every destination given to a backup has been closed. So an idle process has the goroutines and open files it had after starting, whatever it has been through.",
 ["histories","faults","schedules"],"every way in which an operation, transfer or service can end",
 "Tests run work to completion in processes that exit afterwards; what a failed or abandoned transfer leaves behind only shows in a server that keeps running.",
 ["backup/job.go","backup/restore.go","backup/provider.go","backup/reader/reader.go","backup/server/rankdb.go","backup/s3/s3.go","backup/file/file.go","api/multilist.go","blobstore/lazy.go","manager.go","list.go"],[("Restore closes its source","backup/restore.go"),("Transfer closes the answer","backup/server/rankdb.go"),("Start closes the destination","backup/job.go")],["goroutine dumps, open files and closed sources and destinations"])
p("C36","Updates are limited to the configured number and none is lost",
 "With MaxUpdates set, at most that many updates are carried out by a server at any time, over all endpoints that update; without it there is no limit. Further updates wait, and each is carried out exactly once when it is its turn: as long as updates wait, as many as allowed are under way. An update that is done, fails, is refused, finds nothing to do or whose client has left gives its turn back. Reads and health checks are not held up by running or waiting updates of other lists.",
 ["schedules","histories","faults"],"every mix of concurrent updates, limits, refusals, storage failures and leaving clients",
 "No test runs a server with more concurrent updates than its limit; a turn that is not given back, given back twice or not taken by one endpoint only shows in how many updates run at the same time.",
 ["api/shutdown.go","bucket.go","api/lists.go","api/elements.go","api/multilist.go","api/rankdb.go"],[("UpdateRequest","api/shutdown.go"),("NewBucket","bucket.go")],["writes arriving at a storage stand-in, by set of the list; answers of the server"])
p("C37","Reported statistics and health are true",
 "The statistics of the lazy saver count every accepted get, set and delete with its bytes exactly once, and so every operation that reached the storage behind it; the reported queue is what really waits; saved bytes and percentages follow from these counts and are always numbers, so that the report can be encoded at any time, also before the first operation. The cache hits and misses reported for a list are those its reads had. The health endpoint answers at any time, reports the lazy saver whenever one is configured with its configured limits and these statistics, and a cache of the configured kind kept to the configured size; counters never go back while the process lives, however many clients work meanwhile.",
 ["schedules","histories","configurations"],"every mix and order of concurrent operations, failures and configurations",
 "Tests never compare a statistic with what happened; a lost or doubled count only shows against an independent count, and an unencodable report only in a fresh or one-sided process.",
 ["blobstore/lazysaver.go","list.go","segments.go","api/health.go","api/rankdb.go"],[("LazySaver.Stats","blobstore/lazysaver.go"),("List.Stats","list.go"),("Health","api/health.go")],["LazySaver.Stats, List.Stats and GET /health against counts of clients, cache and storage"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
