#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand; both results are committed)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = "src/mpi/"; C = "src/core/"
def mech(*l): return [{"name": a, "where": b} for a, b in l]
ALLRED = "Every process count, node layout, count (zero included), one of the types int, long, float, double, MPI_IN_PLACE or not, root, data, settings of the documented parameters and every interleaving of the processes and messages."
DOM = " Blocks lie one behind the other in rank order."
T0 = "The tests run one allreduce benchmark with MPI_LONG on 1 to 5 processes of one node and pipelines of code generators on fixed inputs; "
P = []
def p(id, title, st, over, qt, why, files, m, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier={"over": over, "text": qt}, why_tests_cant=why, anchors=dict({"files": files, "mechanism": m, "observe_at": observe, "hook_needed": None}, **({"state": state} if state else {})), _t=tech, _n=note))
SIMT = "runtime monitoring: "
LN = "exploration of sampled executions of the real library code; the scheduler and the MPI below it are simulated"
gen_m = mech(("generation of the schedule of one collective", M + "ext_mpi_native.c"), ("passes that write the code of every rank", C), ("execution of the byte code", M + "ext_mpi_native_exec.c"))
p("P01", "Persistent Allreduce and Reduce deliver the MPI_SUM of all contributions", "After a request of MPI_Allreduce_init (on all ranks) or MPI_Reduce_init (on the root) with MPI_SUM on int, long, float or double is started and completed, the receive buffer holds the element-wise sum of the contributions of all ranks. This holds for any number of elements including zero, any root, with and without MPI_IN_PLACE, for any distribution of the ranks over the nodes and any process count.", ["inputs", "configurations", "schedules"], ALLRED, T0 + "no multi-node layout, no other type and no Reduce is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "allreduce_recursive.c", C + "raw_code.c", C + "reduce_copyin.c", C + "reduce_copyout.c"], gen_m, ["receive buffers after MPI_Wait"], SIMT + "real library on a deterministic multi-rank simulator, results compared with the sum of the inputs; ASan/UBSan on a part", LN)
p("P02", "Persistent Reduce_scatter(_block) deliver each rank its block of the sum", "After completion of a request of MPI_Reduce_scatter_init or MPI_Reduce_scatter_block_init with MPI_SUM every rank holds exactly its block of the element-wise sum of all send buffers. The counts per rank may differ and may be zero.", ["inputs", "configurations", "schedules"], ALLRED + " Any vector of counts.", T0 + "no reduce_scatter is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "rank_permutation.c", C + "raw_code_tasks_node.c"], gen_m + mech(("permutation of ranks and counts on nodes", C + "rank_permutation.c")), ["receive buffers after MPI_Wait"], SIMT + "result oracle over simulated executions; ASan/UBSan on a part", LN)
p("P03", "Persistent Allgather and Allgatherv deliver all blocks to all ranks", "After completion of a request of MPI_Allgather_init or MPI_Allgatherv_init every rank holds the contributions of all ranks, block by block in rank order, byte for byte. The counts of Allgatherv may differ and may be zero (blocks densely packed in rank order).", ["inputs", "configurations", "schedules"], ALLRED.replace("one of the types int, long, float, double, MPI_IN_PLACE or not, root", "contiguous type") + DOM, T0 + "no allgather is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "rank_permutation.c"], gen_m, ["receive buffers after MPI_Wait"], SIMT + "result oracle over simulated executions; ASan/UBSan on a part", LN)
p("P04", "Persistent Bcast delivers the buffer of the root to every rank", "After completion of a request of MPI_Bcast_init the buffer of every rank holds the data of the root, byte for byte, and the buffer of the root is unchanged. This holds for any root, count and contiguous type.", ["inputs", "configurations", "schedules"], "Every process count, node layout, root, count, type, parameter setting and interleaving.", T0 + "no bcast is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "reduce_copyin.c"], gen_m, ["buffers after MPI_Wait"], SIMT + "result oracle over simulated executions; ASan/UBSan on a part", LN)
p("P05", "Persistent Gather and Gatherv deliver all blocks to the root", "After completion of a request of MPI_Gather_init or MPI_Gatherv_init the root holds the contributions of all ranks, block by block in rank order, byte for byte. The counts of Gatherv may differ and may be zero (blocks densely packed in rank order), and any rank may be the root.", ["inputs", "configurations", "schedules"], "Every process count, node layout, root, count(s), type, parameter setting and interleaving." + DOM, T0 + "no gather is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "rank_permutation.c"], gen_m, ["receive buffer of the root after MPI_Wait"], SIMT + "result oracle over simulated executions; ASan/UBSan on a part", LN)
p("P06", "Persistent Scatter and Scatterv deliver to each rank its block of the root", "After completion of a request of MPI_Scatter_init or MPI_Scatterv_init every rank holds its block of the send buffer of the root, byte for byte. The counts of Scatterv may differ and may be zero (blocks densely packed in rank order), and any rank may be the root.", ["inputs", "configurations", "schedules"], "Every process count, node layout, root, count(s), type, parameter setting and interleaving." + DOM, T0 + "no scatter is ever executed.", [M + "ext_mpi.c", M + "ext_mpi_native.c", C + "allreduce.c", C + "rank_permutation.c"], gen_m, ["receive buffers after MPI_Wait"], SIMT + "result oracle over simulated executions; ASan/UBSan on a part", LN)
p("P07", "Tuning parameters never change the result of a collective", "Whatever documented tuning parameter is set, by environment variable or by the MPI_Info argument (NUM_PORTS with valid factors, NUM_TASKS_PER_SOCKET, NUM_SOCKETS_PER_NODE for allreduce, reduce and bcast, ALTERNATING, NOT_RECURSIVE, minimum_computation, bit_reproducible, bit_identical), every collective completes with the result MPI prescribes.", ["configurations", "inputs"], "Every valid combination of the documented parameters, from either source, for all eleven operations and every process count and layout.", T0 + "the pipelines vary ports for the generators alone and never combine a parameter with another operation or a node layout.", [M + "ext_mpi.c", M + "num_ports_factors.c", C + "ports_groups.c", C + "allreduce_recursive.c", C + "raw_code_tasks_node.c", C + "waitany.c"], mech(("reading of parameters", M + "ext_mpi_interface.c"), ("ports and groups", M + "num_ports_factors.c"), ("variants of the schedule", C)), ["buffers after completion"], SIMT + "result oracle over simulated executions with random valid parameters; ASan/UBSan on a part", LN)
p("P08", "Every start of a persistent request transfers the data present at that start", "A persistent request may be started and completed any number of times: each execution transfers the contents the send buffers have at that start and is independent of earlier executions, even if some ranks are still completing the previous one. No execution delivers data of another one.", ["histories", "schedules"], "Any number of executions of a request with new data each, any skew between ranks, any way of completing (wait, polling test).", "The benchmark starts a request repeatedly with the same data and little skew, so stale data of an earlier execution looks like the right result.", [M + "ext_mpi_native.c", M + "ext_mpi_native_exec.c", C + "no_first_barrier.c", M + "clean_barriers.c"], mech(("alternating sets of shared buffers", M + "ext_mpi_native.c EXT_MPI_Start_native"), ("barriers between executions", C + "no_first_barrier.c")), ["receive buffers after each completion"], SIMT + "result oracle with fresh data per execution under skewed and adversarial schedules", LN)
p("P09", "Concurrent requests, communicators and application messages do not interfere", "Several persistent requests may be outstanding together on one or several communicators (duplicates, reordered or split ones), started in the same order by all ranks, while the application exchanges its own point-to-point messages on the same communicators. Each request delivers its own result and the messages of the application arrive unaltered.", ["histories", "schedules", "configurations"], "Any set of requests, communicators, order of initialisation, starting, completion and freeing, and application traffic.", "The tests never have more than one request at a time, nor other traffic.", [M + "ext_mpi_native.c", M + "ext_mpi_interface.c", M + "shmem.c"], mech(("tag per request", M + "ext_mpi_native.c"), ("own communicators and shared memory segments", M + "shmem.c")), ["buffers of all requests", "messages of the application"], SIMT + "result, isolation and completion oracles over simulated runs with several outstanding requests", LN)
p("P10", "User buffers are touched only as MPI allows, and only while a request is active", "The library never writes to a send buffer, never writes outside the part of a receive buffer the operation defines, and never reads outside the send buffer given. It does not read or write user buffers before a request is started or after it is complete.", ["inputs", "schedules", "configurations"], "Every operation, size, layout, parameter setting and moment of every execution, including initialisation and freeing.", "Tests compare result values only; a write of the old value, a read past the end or a write after completion does not show in the result.", [M + "ext_mpi_native.c", M + "ext_mpi_native_exec.c", C + "use_recvbuf.c", C + "use_sendbuf_recvbuf.c", C + "swap_copyin.c", M + "cost_copyin_measurement.c", M + "debug_persistent.c"], mech(("use of user buffers as intermediate buffers", C + "use_sendbuf_recvbuf.c"), ("scratch buffers of measurement and check", M + "cost_copyin_measurement.c")), ["every access to user memory by the library or MPI calls it makes"], SIMT + "access-permission monitor on every instrumented load, store, memcpy and MPI call touching user memory, canaries around buffers", LN)
p("P11", "All completion calls follow the MPI semantics for persistent collective requests", "MPI_Wait, Waitall, Waitany, Waitsome, Test, Testall, Testany and Testsome report a collective started by MPI_Start or MPI_Startall complete exactly once and only after its result is delivered, ignore null and inactive requests, and leave the handle valid so that it can be started again. A mix of collective requests and ordinary requests in one array is handled element by element, provided all ranks complete collectives in the same order.", ["histories", "schedules"], "Every completion call, array composition, number of repeated tests and schedule.", "The tests complete their single request with MPI_Wait only.", [M + "ext_mpi_interface.c", M + "ext_mpi_native.c", M + "hash_table.c"], mech(("interception of completion calls", M + "ext_mpi_interface.c"), ("incremental execution", M + "ext_mpi_native_exec.c")), ["flags, indices, counts and handles returned", "buffers at the reported completion"], SIMT + "completion oracle over arrays of requests on simulated runs, state of every request tracked against MPI semantics", LN)
p("P12", "Started collectives always complete: no deadlock or livelock", "If all ranks of a communicator start a persistent collective and complete it, every rank returns from the completion call after finitely many steps, whatever the interleaving of ranks and the order of message progress, and even if no message is buffered by MPI. The same holds for initialisation and freeing.", ["schedules", "configurations"], "Every fair schedule, eager or rendezvous transfer, layout, parameter setting and operation.", "A test sees the few interleavings of an idle machine with eager messages.", [M + "ext_mpi_native_exec.c", C + "raw_code_tasks_node.c", M + "clean_barriers.c", C + "no_socket_barriers.c", M + "messages_shared_memory.c"], mech(("order of sends, receives and waits", C + "raw_code.c"), ("barriers inside of a node", M + "ext_mpi_native_exec.c"), ("removal of barriers", M + "clean_barriers.c")), ["termination of all ranks"], SIMT + "wait-for fixpoint and step-budget monitor under adversarial schedules (starvation, run-to-block, PCT, rendezvous only)", LN)
p("P13", "Accesses of the ranks of a node to shared segments are properly ordered", "Any two accesses of different ranks to the same byte of a shared memory segment, one of them a write, are ordered by the synchronisation the library performs (barriers, flags, messages); a rank never reads what another rank may be overwriting. This holds within one execution and between consecutive executions of a request.", ["schedules", "configurations", "histories"], "Every interleaving of the ranks of a node, layout, operation, size and number of executions.", "A missing barrier gives the right result in nearly every run on a test machine.", [M + "ext_mpi_native_exec.c", M + "clean_barriers.c", C + "no_socket_barriers.c", C + "no_first_barrier.c", M + "messages_shared_memory.c", M + "shmem.c"], mech(("node and socket barriers", M + "ext_mpi_native_exec.c"), ("removal of superfluous barriers", M + "clean_barriers.c")), ["every access to shared segments with vector clocks"], SIMT + "vector-clock happens-before race detector over all accesses to shared segments (compiler instrumentation with own runtime)", LN)
p("P14", "No memory error or undefined behaviour on valid input", "For every valid use of the interface the library performs no out-of-bounds or use-after-free access, no double free, no division by zero, no invalid shift or conversion and no null dereference, in initialisation, execution, the internal check and freeing.", ["inputs", "configurations", "histories"], "Every valid operation, size, layout, parameter setting and sequence of calls.", "Tests run uninstrumented code; out-of-bounds accesses mostly go unnoticed.", [C, M], mech(("sizes of code buffers", M + "ext_mpi_native.c"), ("arrays per rank in all passes", C)), ["AddressSanitizer and UndefinedBehaviorSanitizer reports"], "sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer (without signed overflow and alignment) on the real library under random workloads", LN)
p("P15", "The MPI library below is used correctly and every message is consumed", "The library makes only valid MPI calls: matching collective calls on all ranks, receives at least as large as the messages, buffers of pending operations untouched, every nonblocking operation completed. When the requests are freed no message, request or pending operation of the library is left behind.", ["configurations", "schedules", "histories"], "Every operation, layout, parameter setting, number of executions and interleaving.", "A real MPI tolerates most misuse silently and the tests do not look for leftovers.", [M + "ext_mpi_native.c", M + "ext_mpi_native_exec.c", M + "ext_mpi.c", C + "raw_code.c"], mech(("sends and receives of the byte code", M + "ext_mpi_native_exec.c"), ("collective setup calls", M + "ext_mpi.c")), ["every MPI call of the library"], SIMT + "checking MPI implementation: conservation of messages, size and argument checks, access checks on buffers of pending operations", LN)
p("P16", "Freeing requests and communicators releases every resource", "After a persistent request is freed its shared memory segments, private communicators and heap memory are released, so that repeated cycles of initialisation, use and freeing do not accumulate resources. This holds whatever the order in which requests are freed.", ["histories", "configurations"], "Any number of cycles, any operation, layout, parameter setting and order of freeing.", "The tests create and free each request once.", [M + "ext_mpi_native.c", M + "shmem.c", M + "hash_table.c", M + "ext_mpi.c"], mech(("release of a handle", M + "ext_mpi_native.c EXT_MPI_Done_native"), ("segments", M + "shmem.c")), ["inventory of shared memory, heap blocks, communicators and requests after every cycle"], SIMT + "resource inventory over cycles of init, start, complete and free", LN)
p("P17", "Reductions are bit-reproducible for the same request and input", "With the default settings repeated executions of one floating point reduction on the same input give the same bits each time, independent of the order in which messages and ranks arrive. With one rank per node the bits also agree between program runs.", ["schedules", "histories"], "Every interleaving and arrival order, floating point inputs whose sums round, all reductions.", "Tests use integers, for which every order of summation gives the same result.", [C + "waitany.c", M + "ext_mpi_native_exec.c", C + "reduce_copyin.c", M + "ext_mpi.c"], mech(("fixed order of reductions unless bit_reproducible=0", M + "ext_mpi.c"), ("waitany variant", C + "waitany.c")), ["bits of result buffers over executions and runs"], SIMT + "comparison of result bits over executions and over groups of runs with different schedules", LN)
p("P18", "All ranks agree on one configuration", "The configuration a collective runs with is the same on all ranks even if only rank 0 has the environment variables set and the ranks measure different times. No difference of clocks or environments between ranks leads to a wrong result, mismatched calls or a hang.", ["configurations", "schedules"], "Every setting visible on rank 0 only, any clock skew and measured time.", "All ranks of a test share environment and clock.", [M + "ext_mpi_interface.c", M + "ext_mpi.c", M + "cost_copyin_measurement.c", M + "num_ports_factors.c"], mech(("broadcast of environment settings", M + "ext_mpi_native.c"), ("broadcast or reduction of measured times", M + "cost_copyin_measurement.c")), ["results, MPI calls of all ranks"], SIMT + "result and MPI usage oracles over runs where only rank 0 has the environment and clocks differ", LN)
p("P19", "The internal check passes for correct schedules and leaves user memory alone", "With EXT_MPI_DEBUG on (the default) initialising a request of any operation succeeds and reports no error, and the check neither reads nor writes the buffers of the application.", ["inputs", "configurations"], "Every operation, size, layout, root and parameter setting.", "The check runs in the tests for one operation only and nobody watches the buffers.", [M + "debug_persistent.c", M + "ext_mpi_interface.c", M + "ext_mpi.c"], mech(("internal check", M + "debug_persistent.c")), ["return and exit of initialisation, accesses to user memory"], SIMT + "permission monitor with user buffers inaccessible during initialisation, exit and result oracles", LN)
import importlib
try:
    x = importlib.import_module("docs_more"); x.add(p, SIMT, LN, mech, M, C, T0)
except ImportError: pass
ids = [q["id"] for q in P]
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --build",
       "checks": [{"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"], "technique": q["_t"], "level": "exploration", "level_note": q["_n"]} for q in P],
       "not_applicable": []}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
for n, s in (("properties.jsonl", "PROPERTIES"), ("MANIFEST.json", "MANIFEST")):
    try: import jsonschema
    except ImportError: continue
    sc = json.load(open("/root/.vp/%s.schema.json" % s))
    for d in ([json.loads(l) for l in open(os.path.join(H, n))] if n.endswith("l") else [json.load(open(os.path.join(H, n)))]): jsonschema.validate(d, sc)
for q in P:
    assert len(q["title"]) <= 80, q["id"]
    if q["statement"].count(". ") > 2: print("long", q["id"])
