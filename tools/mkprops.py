#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
S="EigenIPC/src/"; I="EigenIPC/include/EigenIPC/"; B="EigenIPC/bindings/PyEigenIPC/"

prop("C01","Block reads and writes are exact and visible to every participant",
 "A successful write through the server or any attached client stores exactly the given block, bit for bit, at the given row/column of the shared tensor and changes no other element; every later successful read by any participant, of any block, at any offset, returns exactly what the shared tensor then holds and writes nothing outside the caller's destination block. This holds for every supported scalar type and layout, for owned matrices, sub-blocks and strided views alike, and whatever the safe and verbosity settings.",
 ["inputs","histories","configurations"],
 "all scalar types x layouts x tensor shapes x block shapes/offsets/strides x values (NaN payloads, -0, extremes) x histories of reads and writes by a server and several clients",
 "The consistency tests write one random tensor and two fixed views from the server and read them once from one client; sub-block offsets, strides, client writes, neighbours of the block and bit patterns are never compared.",
 [S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
 [("MemUtils::write / MemUtils::read block copies",S+"MemUtils.hpp"),("read/write overloads (Ref and view)",S+"Server.cpp"),("read/write overloads (Ref and view)",S+"Client.cpp")],
 [("shared tensor","the segment every participant maps",S+"MemUtils.hpp initMem")], ["Server::read/write","Client::read/write"])

prop("C02","A refused read or write returns false and has no effect",
 "A read or write is refused with the result false whenever its block does not lie entirely inside the tensor (negative or too large offsets or sizes included), the server asked is not running, the client asked is not attached, or, with safe access, another participant holds the data lock. A refused operation changes nothing: not the shared tensor, not the caller's buffer, not the availability of the data lock. It never throws and never crashes.",
 ["inputs","histories"],
 "all offsets in the int range x block shapes x lifecycle states of the object (before run/attach, running, stopped, detached, closed) x lock states",
 "Existing tests only perform in-range operations on running objects with a free lock.",
 [I+"Helpers.hpp",S+"MemUtils.hpp",S+"Server.cpp",S+"Client.cpp"],
 [("canFitTensor",I+"Helpers.hpp"),("_running / _attached gates and one-shot acquisition",S+"Server.cpp, "+S+"Client.cpp")],
 [], ["return values and untouched buffers"])

prop("C03","Safe reads and writes are atomic under every interleaving",
 "With safe access, successful reads and writes issued concurrently by the server and any number of clients, on overlapping blocks, behave as if executed one at a time in some order consistent with real time: no read returns a mixture of two writes of the same block, no write is partly overwritten, and an operation that reported failure left no trace. The same holds for whole-vector and single-string operations of a safe string tensor.",
 ["schedules","histories"],
 "all interleavings of small concurrent programs of safe block reads/writes by a server and clients, with context switches possible inside the memory copies",
 "No existing test runs two participants accessing the same tensor concurrently with an atomicity oracle; the OS schedule is not controlled.",
 [S+"Server.cpp",S+"Client.cpp",S+"StringTensor.cpp",S+"MemUtils.hpp"],
 [("one-shot acquisition of the data semaphore around each copy",S+"Server.cpp write/read, "+S+"Client.cpp write/read")],
 [("data semaphore","binary lock on the tensor",S+"MemUtils.hpp semInit")], ["history of results"])

prop("C04","The manual data lock is exclusive and lossless over any history",
 "After a participant's manual acquire returns and until its release, no other participant's acquire returns and no other participant's safe read or write succeeds; after the release the lock is available to exactly one next holder. This exclusivity is not weakened or lost by any history of server run/stop cycles, client attach/detach/close, refused or contended operations, calls interrupted by a signal, or rejected attachments.",
 ["schedules","histories"],
 "all interleavings and histories of acquire/release/read/write mixed with run/stop, attach/detach/close and rejected attachments by several participants",
 "The manual lock is not exercised by any stable test, and lifecycle calls are never interleaved with held locks.",
 [S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
 [("dataSemAcquire/dataSemRelease",S+"Server.cpp, "+S+"Client.cpp"),("semaphore hand-over in run()/stop()/attach()/detach()",S+"Server.cpp, "+S+"Client.cpp")],
 [("data semaphore value","1 free, 0 held; never above 1",S+"MemUtils.hpp")], ["critical-section overlap"])

prop("C05","Run-time reads and writes never block, allocate or print",
 "Once a server is running and a client is attached, every read and write of either returns without blocking or sleeping, without allocating heap memory and without producing output, whatever the verbosity, whatever block is requested, and also when another participant holds the data lock indefinitely, for instance because it died inside its critical section. After such a contended attempt the object keeps working normally once the lock is free. Reads and writes of string tensors likewise never wait and never produce output.",
 ["schedules","crash_points","inputs"],
 "all block shapes/offsets and verbosity settings x lock states including a holder that died at an arbitrary point",
 "One allocation test exists that is not part of the stable suite, on one uncontended schedule; blocking and output under contention are never checked.",
 [S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
 [("SemTryWait / acquireSemOneShot",S+"MemUtils.hpp"),("copy into preallocated views",S+"MemUtils.hpp read/write")],
 [], ["blocking calls, allocations and output during read/write"])

prop("C06","At most one server runs per tensor and a rejected one does no harm",
 "While a server constructed without forced reconnection is initialised or running on a name, any other server without forced reconnection on that name fails with an exception when it is constructed or, at the latest, run, under every interleaving. The failed attempt leaves the established server, its clients, the tensor content, the client count and the data lock exactly as they were. Once the established server is closed, a new server can be constructed and run on that name.",
 ["schedules","histories"],
 "all interleavings of competing construct/run/destroy sequences with an established server and clients in use",
 "No stable test constructs a second server on a live name.",
 [S+"Server.cpp",S+"MemUtils.hpp"],
 [("server semaphore taken by run()",S+"Server.cpp run"),("data semaphore held from construction to run()",S+"Server.cpp")],
 [("server semaphore","uniqueness of the running server",S+"Server.cpp")], ["isRunning of all servers, exceptions, tensor content"])

prop("C07","Attaching clients meet the running server in any start order",
 "A client's attach returns only after a server on the same name has reached the running state, whether the attach began before, during or after the server's construction, and also when it began while an earlier, meanwhile closed server was still stopped; it then does return. An attach begun while the server is stopped returns only once it is run again. On return the client reports exactly that running server's row and column counts and shares its memory in both directions.",
 ["schedules","histories"],
 "all interleavings of client attach with server construction, run, stop, restart and replacement by a server with other dimensions",
 "Existing tests start the client after or shortly after the server in one OS-chosen order and never replace a server while a client waits.",
 [S+"Client.cpp",S+"Server.cpp"],
 [("polling of the running flag and meta-data exchange",S+"Client.cpp attach, _waitForServer"),("order of initialisation and flag publication",S+"Server.cpp constructor, run, stop")],
 [("running flag","rendezvous variable",S+"Server.cpp run/stop"),("rows/cols segments","dimensions",S+"Server.cpp _initMetaMem")], ["attach return, getNRows/getNCols, cross writes"])

prop("C08","The client count equals the number of attached clients",
 "Whenever no attach or detach is in progress, the server reports exactly the number of clients currently attached to it, under every interleaving of concurrent attaches and detaches and every history of attach, repeated attach, detach, close, destruction, re-attachment and server stop/run cycles. Asking for the count is allowed in every state of a constructed server and returns.",
 ["schedules","histories"],
 "all interleavings and histories of attach/detach/close/destroy by several clients with run/stop by the server",
 "The stable tests never assert the client count.",
 [S+"Client.cpp",S+"Server.cpp"],
 [("counter updates under the data lock",S+"Client.cpp attach/detach"),("getNClients",S+"Server.cpp")],
 [("client counter","number of attached clients",S+"Client.cpp")], ["Server::getNClients"])

prop("C09","Incompatible clients are rejected without side effects",
 "A client whose scalar type or memory layout differs from the running server's never attaches: attach throws, for every pair of different types or layouts. The rejection leaves the tensor, the client count and the data lock as they were, so that other participants and later compatible clients work normally, and the rejected client can be asked again, closed and destroyed safely.",
 ["configurations","histories"],
 "all ordered pairs of (scalar type, layout) configurations x histories with other clients before, during and after the rejection",
 "Tests only attach matching clients.",
 [S+"Client.cpp",S+"Server.cpp"],
 [("_checkDType, _checkMemLayout",S+"Client.cpp")],
 [("dtype and layout segments","server's configuration",S+"Server.cpp _initMetaMem")], ["attach outcome and subsequent operation of all participants"])

prop("C10","Objects with different full names never interact",
 "Tensors, string tensors, trigger producers/consumers and condition variables whose (namespace, basename) pairs differ are fully independent: no operation, lock, lifecycle change or failure of one is observable through the other. In particular every history on one name gives the same results whether or not objects with other names are in use at the same time.",
 ["histories","configurations"],
 "all pairs of different names, including equal basenames in different namespaces, equal namespaces and prefixes of one another, x interleaved histories on both",
 "Each test uses one name at a time.",
 [I+"SharedMemConfig.hpp",S+"SharedMemConfig.hpp",I+"MemDefs.hpp",S+"Producer.cpp",S+"CondVar.cpp"],
 [("construction of all segment, semaphore, mutex and condition names",I+"SharedMemConfig.hpp")],
 [], ["results on one name with and without the other"])

prop("C11","Every lifecycle path releases its resources exactly once",
 "Any sequence of construction, run/stop, attach/detach, close (also repeated) and destruction of servers, clients, string tensors, producers, consumers and condition variables, in any order the API accepts and including objects never run or attached, completes without crash and never closes or uses a handle it does not own. After close or destruction the process holds no file descriptor, mapping or semaphore handle of that object, and after a server's close no named shared-memory segment or semaphore of that tensor remains except the rendezvous flag that waiting clients poll.",
 ["histories"],
 "all lifecycle call sequences over all object kinds, sharing or not sharing a process",
 "Tests run one straight-line lifecycle and check no resource.",
 [S+"Server.cpp",S+"Client.cpp",S+"StringTensor.cpp",S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp",S+"MemUtils.hpp"],
 [("close, destructors, _cleanMems, _closeSems, cleanUpMem, semClose",S+"Server.cpp, "+S+"Client.cpp, "+S+"MemUtils.hpp")],
 [], ["handles and names held after each step"])

prop("C12","Forced reconnection recovers from the death of any participant",
 "If the server, a client, a producer or a consumer dies without cleanup at any point of any operation, a new server (or producer) constructed with forced reconnection on the same name constructs and runs without blocking or failing, and clients (or consumers) that attach afterwards see its dimensions, a zero-initialised tensor, a free lock and a count of exactly themselves, whatever clients left over from the dead generation still do. Without forced reconnection the construction after a death either works as well or fails with an exception; it never hangs or crashes.",
 ["crash_points","histories","schedules"],
 "all crash points (every system call and memory-page access of every operation) of every participant, and pairs of them",
 "No test kills a participant.",
 [S+"Server.cpp",S+"MemUtils.hpp",S+"CondVar.cpp",S+"Producer.cpp"],
 [("acquireSemTimeout with force_reconnection",S+"MemUtils.hpp"),("checkMem and re-initialisation of meta data",S+"Server.cpp"),("forced removal of mutex and condition",S+"CondVar.cpp")],
 [], ["construction, attach and first operations after the crash"])

prop("C13","A failing system call during set-up surfaces as an exception, harmlessly",
 "If any single operating-system call made while constructing or running a server or while a client attaches fails (shared-memory open, sizing or mapping, semaphore open, interrupted semaphore wait), the call in progress throws an exception, or copes and does complete its work; it never returns success with its work undone, and never crashes or hangs. The failed object can be destroyed safely and releases what it acquired, established participants keep working with the data lock free, and the same step succeeds when repeated with a fresh object once the fault is gone. A wait interrupted by a signal never keeps a client, string client or consumer from detaching, closing or being destroyed: it leaves completely and is counted out.",
 ["fault_sequences","histories"],
 "every single fault position and error kind in construct/run/attach, in the presence of other participants",
 "Tests never see a failing system call.",
 [S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
 [("return codes MEMCREATFAIL/MEMSETFAIL/MEMMAPFAIL/SEMOPENFAIL/SEMACQFAIL and failWithCode",S+"MemUtils.hpp, "+S+"Server.cpp, "+S+"Client.cpp")],
 [], ["exceptions, lock state, handles"])

prop("C14","Stop/run keeps the data; close/re-create starts a fresh generation",
 "Stopping and running the same server again preserves the tensor content and its attached clients, which keep working. After a server is closed, a new server on the same name starts with its own dimensions, an all-zero tensor, no clients and a free lock; clients still attached to the closed server never crash and none of their reads, writes, detaches or closes changes or blocks anything of the new server.",
 ["histories"],
 "all histories of stop/run, close/re-create with same or different dimensions, with clients of the old and new generation acting in any order",
 "Tests have exactly one server generation.",
 [S+"Server.cpp",S+"Client.cpp",S+"MemUtils.hpp"],
 [("checkMem + initMem on construction, unlinking on close",S+"Server.cpp"),("stop/run",S+"Server.cpp")],
 [], ["content, count and lock of each generation"])

prop("C15","Strings survive the shared string tensor byte for byte",
 "Strings of 0 to 1024 bytes without NUL, arbitrary UTF-8 or other bytes included, written singly or as vectors at any index through a string-tensor server or client are returned exactly by every later successful read of any range by any participant. A write replaces precisely the addressed entries, leaving nothing of longer previous contents, and entries never written read as empty strings.",
 ["inputs","histories"],
 "all byte strings up to the maximum length x vector lengths and indices x histories by several participants",
 "The test writes one fixed list of words once and reads it once.",
 [S+"StringTensor.cpp"],
 [("_encode_str, _decode_str, _encode_vec, _decode_vec",S+"StringTensor.cpp")],
 [("int buffer","column per string",I+"StringTensor.hpp")], ["read results"])

prop("C16","Out-of-range or oversized string operations are refused cleanly",
 "A string read or write whose index range does not lie entirely inside the string tensor (negative indices included), whose text exceeds 1024 bytes, or that is made when the object is not running returns false. It changes no entry as seen by any participant, leaves the caller's strings untouched, corrupts no memory and does not disturb later operations.",
 ["inputs","histories"],
 "all int indices x vector lengths x string lengths around and far beyond the limit x lifecycle states",
 "Tests only use in-range indices and short strings.",
 [S+"StringTensor.cpp"],
 [("_fits and index checks",S+"StringTensor.cpp")],
 [], ["return values, contents, memory errors"])

prop("C17","Each trigger wakes every running consumer exactly once",
 "For a producer and any number of consumers that are running before the first trigger and acknowledge each round, every trigger makes each consumer's wait return true exactly once, never before the trigger and never a second time, under every interleaving and with or without timeouts, spurious wake-ups and timed-out waits in between. No trigger is lost: an untimed wait always returns once the trigger was issued.",
 ["schedules","histories"],
 "all interleavings of trigger rounds by one producer with waits by 1..N consumers, in any start order, with timeouts and spurious wake-ups",
 "The producer/consumer tests are benchmarks outside the stable suite and run one uncontrolled schedule.",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],
 [("trigger counter under the named mutex, notify_all, re-check loop",S+"Producer.cpp trigger, "+S+"Consumer.cpp wait")],
 [("trigger counter","number of triggers issued",S+"Producer.cpp")], ["wait results versus triggers"])

prop("C18","The producer sees all acknowledgements, none lost or invented",
 "Waiting for n acknowledgements returns true if and only if n consumers have acknowledged since the last completed round, never earlier, and an untimed wait always returns once they have, under every interleaving, including acknowledgements given before the wait starts. After a wait that timed out, acknowledgements already given and later ones still count towards the same round.",
 ["schedules","histories"],
 "all interleavings of acknowledgements by 1..N consumers with the producer's waits, with timeouts and spurious wake-ups",
 "The producer/consumer tests are benchmarks outside the stable suite and run one uncontrolled schedule.",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],
 [("ack counter increment under the named mutex and notify",S+"Consumer.cpp _acknowledge"),("_check_ack_counter with _acks_before",S+"Producer.cpp")],
 [("ack counter","acknowledgements ever given",S+"Consumer.cpp")], ["wait_ack_from results versus acks"])

prop("C19","Timed waits respect their timeout",
 "A timed wait of a consumer for a trigger, of a producer for acknowledgements, or of a condition variable returns false only after at least the requested time has passed without the event, and does return then, holding up neither the caller nor the other side. If the event happens before the deadline, or had already happened, it returns true without waiting for the deadline; a zero or negative timeout means waiting without limit where the API says so.",
 ["inputs","schedules"],
 "all timeouts x event times relative to the deadline x interleavings, on a controlled clock",
 "Timeouts depend on time, which the tests neither control nor check.",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],
 [("_wait",S+"Producer.cpp, "+S+"Consumer.cpp"),("timedwait, timedwait_for",S+"CondVar.cpp")],
 [], ["virtual time at return"])

prop("C20","wait_and_ack runs its callback once, between trigger and ack",
 "wait_and_ack calls the given callback exactly once, after the trigger was received and before the acknowledgement becomes visible to the producer, and not at all (and without acknowledging) when the wait times out. It returns true if and only if the trigger arrived in time, the callback returned true and the acknowledgement succeeded.",
 ["schedules","histories"],
 "all interleavings of triggers, timeouts and callback outcomes over several rounds and consumers",
 "No stable test calls it, and none with a failing callback or a timeout.",
 [S+"Consumer.cpp"],
 [("wait_and_ack",S+"Consumer.cpp")],
 [], ["callback order, return value, acks seen by the producer"])

prop("C21","Condition variables give mutual exclusion and lose no wake-up",
 "Between processes sharing a named condition variable, at most one holds its lock at a time, waiting releases the lock and re-acquires it before returning, and a notification sent under the lock wakes a waiter (all waiters for notify_all) that was already waiting, under every interleaving. A predicate wait returns only when the predicate holds (a timed one returns the predicate's value), opening before creation or creating twice without force throws, and closing the creator allows re-creation.",
 ["schedules","histories"],
 "all interleavings of small programs of lock/unlock/wait/notify by several processes, and histories of create/open/close",
 "No stable test covers the class.",
 [S+"CondVar.cpp",I+"CondVar.hpp"],
 [("lock, unlock, wait, wait_for, timedwait(_for), notify_*",S+"CondVar.cpp"),("create_only/open_only and _cleanup_mem",S+"CondVar.cpp")],
 [], ["critical-section overlap, wake-ups, predicate values"])

prop("C22","Return codes combine and print as sets",
 "Return codes behave as sets of base codes: adding is union, removing is difference, membership tests are exact, adding RESET to or onto anything clears it and removing RESET changes nothing. The textual description of any combined code lists the name of every base code in it exactly once and no other, for every base code the library defines.",
 ["inputs"],
 "all combinations and expression sequences over the base codes",
 "One ad-hoc program prints a few combinations and asserts nothing.",
 [I+"ReturnCodes.hpp"],
 [("operator+, operator-, isin, getDescription(s)",I+"ReturnCodes.hpp")],
 [], ["expression values and descriptions"])

prop("C23","Tensor views alias exactly the requested block",
 "A view created from a tensor at any valid position and size refers to exactly those elements, in place: reading it gives the tensor's current values, writing it changes exactly those elements and nothing else, in both layouts and for all types, and it can be used as source or destination of shared reads and writes with the same effect as a copy of that block. A request that does not lie inside the tensor throws and creates nothing.",
 ["inputs","configurations"],
 "all tensor shapes, positions and sizes (valid and invalid), layouts and types",
 "Tests use a few fixed views, starting at fixed positions.",
 [I+"Helpers.hpp"],
 [("createViewFrom",I+"Helpers.hpp")],
 [], ["aliasing of elements"])

prop("C24","NumPy arrays are exchanged faithfully or refused without effect",
 "Through the Python servers and clients, a write or read with a two-dimensional array of the tensor's dtype and layout, including slices of larger arrays, transfers exactly the addressed block between the array and the shared tensor and touches nothing else. An array of another dtype raises, and an array of other dimensionality or layout, of a size that does not fit, or used in a state where the operation is not allowed gives False or an exception; in either case neither array nor tensor changes.",
 ["inputs","histories","configurations"],
 "all dtypes x layouts x array shapes, strides and orders x offsets x histories of servers and clients in Python",
 "The Python tests round-trip one full contiguous random array per type and layout.",
 [B+"src/PyServer.cpp",B+"src/PyClient.cpp",B+"src/PyEigenIPCUtils.hpp"],
 [("CheckInputBuffer, ToEigenStrides, dtype switches of the wrappers",B+"src/PyEigenIPCUtils.hpp, "+B+"src/PyServer.cpp, "+B+"src/PyClient.cpp")],
 [], ["arrays and tensor after each call"])

prop("C25","Python string tensors keep and return exact texts",
 "Through the Python string-tensor server and client, any list of texts or single text that fits (up to 1024 UTF-8 bytes each, no NUL) written at an index is returned exactly by later list and single reads by either side, and list reads refill the given list with the same number of entries. Reads and writes out of range or of oversized text report False and change nothing, and every documented accessor (length, namespace, basename, running state, single-string read on both sides) works. The tensor objects and arrays a string tensor hands out stay usable after the string tensor itself is dropped, and when the last of them is gone its name is free.",
 ["inputs","histories"],
 "all Unicode texts, list lengths and indices, and histories of operations from both sides",
 "One Python test writes one list of ASCII strings.",
 [B+"src/PyStringTensor.cpp",S+"StringTensor.cpp"],
 [("declare_StringTensorServer/Client bindings",B+"src/PyStringTensor.cpp")],
 [], ["returned lists, strings and flags"])

prop("C26","The tensor wrapper's mirror moves only what was asked for",
 "With the Python shared-tensor wrapper, write stores the given scalar or array block in both the local mirror and the shared tensor, read and synch bring exactly the requested block of the shared tensor into the mirror (and the caller's array), synch with read disabled pushes exactly that block, to_zero clears both, and nothing outside the addressed block changes on either side. Requests that do not fit are refused and change nothing in the shared tensor, and the initial fill value is what both mirror and tensor start from. Where a torch view was requested it always is the mirror itself; a GPU mirror starts as a copy of it, moves in either direction exactly when synch_mirror is called (completely, even if non-blocking), is cleared by to_zero, and asking for a view that does not exist raises. A server wrapper is refused, harmlessly, while another one runs under the same name, unless it forces the reconnection; after the death of the other's process, forcing it starts afresh.",
 ["inputs","histories"],
 "all shapes, blocks, scalar and array values, dtypes and histories of wrapper calls by a server and several clients",
 "No stable test covers the wrapper.",
 [B+"wrappers/shared_data_view.py"],
 [("SharedTWrapper read/write/synch/synch_all/to_zero",B+"wrappers/shared_data_view.py")],
 [("numpy mirror","local copy of the tensor",B+"wrappers/shared_data_view.py")], ["mirror and shared tensor after each call"])

prop("C27","The tensor dictionary maps each name to its own block",
 "A shared tensor dictionary server with any list of distinct names and positive dimensions gives a client the same names and dimensions, and data written under a name by either side is what the other side gets under that name after synchronising. Writing one name never changes the data of another, unwritten data reads as the initial NaN fill, and unknown names are refused. A second server in the same namespace is refused, harmlessly; with forced reconnection a server takes over from a dead process with its own names, dimensions and NaN.",
 ["inputs","histories"],
 "all name lists, dimension lists, node counts and histories of write/synch/get by server and clients",
 "No stable test covers the dictionary.",
 [B+"wrappers/shared_tensor_dict.py",B+"wrappers/shared_data_view.py"],
 [("block offsets from cumulated dimensions",B+"wrappers/shared_tensor_dict.py write/get"),("names and dims exchange",B+"wrappers/shared_tensor_dict.py run")],
 [], ["get results on every side"])

prop("C28","The ROS bridge relays tensors element for element",
 "With the ROS bridge, after the sending side's update, the published message carries exactly the shared tensor's elements, and after the receiving side's update following delivery of that message, the mirrored shared tensor on the other side equals the original element for element, for every supported dtype, layout and shape. Whatever the history of writes, updates and deliveries, the mirrored tensor always holds either its initial fill (zeros, or NaN for floating-point tensors) or exactly the message delivered last before the receiving side's last update, never a mixture, and locks held by others delay an update but never make it publish or store stale or partial data. (Deliveries happen between updates: a transport callback overlapping an update is not covered. The payload of a NaN is not preserved.)",
 ["inputs","histories","configurations"],
 "all dtypes, layouts, shapes, values and histories of updates and deliveries, over a simulated message transport",
 "No test covers the bridge (it needs a ROS installation).",
 [B+"extensions/ros_bridge/to_ros.py",B+"extensions/ros_bridge/from_ros.py",B+"extensions/ros_bridge/abstractions.py",B+"extensions/ros_bridge/ros1_utils.py"],
 [("ToRos/FromRos run/update, publisher and subscriber wrappers",B+"extensions/ros_bridge/abstractions.py")],
 [], ["messages published and tensors after update"])

prop("C29","Producers and consumers keep lock-step across processes and languages",
 "A producer and its consumers may each live in a process of their own, written in C++ or in Python in any mixture, and keep lock-step: a consumer's run waits for the producer's run, every trigger makes each consumer's wait true exactly once and never before it, the producer's wait is true exactly when all have acknowledged, waits that time out give false after their time and lose nothing, for any number of rounds and in full parallel. Misuse before run or after close raises, and when processes exit or are killed, even while waiting, a new producer (with forced reconnection after a death) and new consumers work as from the start.",
 ["histories","schedules","crash_points"],
 "all numbers of consumers x languages of the processes x start orders x histories of waits, triggers, acknowledgements and timeouts x ends of the processes x following generations",
 "The existing trigger tests run one producer and one consumer of C++ once; the Python classes Producer and Consumer, mixtures, several generations and deaths of real processes are not tested.",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp",B+"src/PyProducer.cpp",B+"src/PyConsumer.cpp"],
 [("trigger/acknowledge counters and condition variables",S+"Producer.cpp, "+S+"Consumer.cpp"),("bind_Producer / bind_Consumer",B+"src/PyProducer.cpp, "+B+"src/PyConsumer.cpp")],
 [("trigger and acknowledge counters","1x1 tensors of the producer",S+"Producer.cpp")], ["results, exceptions and durations of the calls of real processes"])

prop("C30","C++ and Python processes share the same tensors",
 "Servers and clients of a tensor or string tensor may live in different processes written in C++ and in Python, in any mixture, and mean the same: element (i, j) and text k written by one is element (i, j) and text k read by every other, for every dtype, layout and length, and dimensions, client counts, refusals, the data lock, rejection of mismatching clients and second servers, waiting for the server and forced recovery after a killed process are those of a single program. This holds at full parallel speed too: whole-tensor reads never mix writes, and numbers increased under the manual lock are never lost.",
 ["histories","schedules","crash_points","configurations"],
 "all placements of a server and up to four clients in processes of both languages x dtypes x layouts x safety x histories of block and text transfers, lifecycle calls, locks and kills",
 "The existing tests pair C++ with C++ and Python with Python, in one process or for one transfer; nothing checks that the two languages agree, nor real parallel access.",
 [S+"Server.cpp",S+"Client.cpp",S+"StringTensor.cpp",S+"MemUtils.hpp",B+"src/PyServer.cpp",B+"src/PyClient.cpp",B+"src/PyStringTensor.cpp",B+"src/PyEigenIPCUtils.hpp"],
 [("factories choosing Server<Scalar, Layout> / Client<Scalar, Layout>",B+"src/PyServer.cpp, "+B+"src/PyClient.cpp"),("string lists",B+"src/PyStringTensor.cpp"),("segments and semaphores by name",S+"MemUtils.hpp, "+I+"SharedMemConfig.hpp")],
 [("shared tensor","the segment every process maps",S+"MemUtils.hpp")], ["results of the calls of real processes"])

prop("C31","Verbosity changes the output and nothing else",
 "For every history of calls on servers, clients, string tensors, producers, consumers and condition variables, the results, exceptions, contents, time taken, handles and names are the same for every choice of the verbosity arguments. An object that is not verbose prints nothing at all unless one of its calls fails or is refused; statistics appear only from level V2 on and additional information only at level V3.",
 ["histories","configurations","fault_sequences","schedules"],
 "all histories of up to eight objects of all kinds in up to four processes, with refused calls, rejected objects and one failing system call, x all pairs of assignments of verbosity levels",
 "Tests fix one verbosity and never look at the output; results differing only because something is logged need the same history run twice.",
 [S+"Server.cpp",S+"Client.cpp",S+"StringTensor.cpp",S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp",S+"MemUtils.hpp",I+"Journal.hpp"],
 [("_verbose / _vlevel guards around every log statement",S+"*.cpp, "+S+"MemUtils.hpp"),("Journal::log",I+"Journal.hpp")],
 [], ["results of calls, standard output and error"])

prop("C32","Log messages arrive whole and are thrown exactly when asked",
 "Every message given to the journal, through an object or the static function, appears on the standard output exactly once as a line of its own, with its class, method, level and text unchanged whatever characters they contain (format directives, control characters, any length, no NUL), whatever was logged before. It is thrown as a runtime_error carrying the same information, and not printed, if and only if it is of level EXCEP and throwing was asked for.",
 ["inputs","histories"],
 "all texts of class, method and message x levels x throwing or not x object or static function x sequences of messages",
 "No test looks at what is logged, nor with texts other than the library's own.",
 [I+"Journal.hpp"],
 [("Journal::log (object and static)",I+"Journal.hpp")],
 [], ["standard output and exceptions"])

out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False)+"\n" for p in P))
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
