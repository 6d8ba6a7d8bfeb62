POOL = ["src/model/string-pool.cpp", "src/exception-handler.cpp"]
MODEL = POOL + ["src/model/model.cpp", "src/model/nodes.cpp", "src/model/json.cpp", "src/value.cpp", "src/types.cpp"]
QUERY = MODEL + ["src/simfil.cpp", "src/function.cpp", "src/environment.cpp", "src/parser.cpp", "src/token.cpp", "src/overlay.cpp"]
SCEN = {
    "C01": {"file": "c01.cpp", "sources": POOL, "rule": "2-6 threads, up to 52 insert/lookup/resolve/size operations on one pool, checked against a sequential model by Wing-Gong search."},
    "C02": {"file": "c02.cpp", "sources": POOL, "rule": "2-7 threads mixing every pool operation on two shared pools, with slow, full and failing devices."},
    "C03": {"file": "c03.cpp", "sources": POOL, "rule": "1-3 inserting threads and 1-4 threads copying and serializing the pool, also to full devices; every snapshot is compared with the recorded history."},
    "C04": {"file": "c04.cpp", "sources": POOL, "rule": "1-2 source threads, 1-3 followers; updates from arbitrary offsets are lost, duplicated, reordered, cut or fail; followers restart; then faults stop."},
    "C05": {"file": "c05.cpp", "sources": POOL, "rule": "Inserts, reads, copies and writes with the n-th allocation failing, damaged streams and exhausted ids; model comparison after every operation, then retry."},
    "C06": {"file": "c06.cpp", "sources": MODEL, "rule": "Random models written to devices that fill up and read back through short, truncated and failing reads and failing allocations, into fresh and used models, by 1-3 threads."},
    "C07": {"file": "c07.cpp", "sources": QUERY, "rule": "Images of random models with 1-6 bytes, addresses or lengths overwritten, inserted or removed, read into fresh and used models; error check, then full traversal, query and JSON export if it is clean."},
    "C08": {"file": "c08.cpp", "sources": MODEL, "rule": "1-3 threads build models (objects, arrays, members of every kind, merges, roots) while the n-th allocation inside a step fails once or for good; full comparison with a reference after every failure, then retry."},
    "C09": {"file": "c09.cpp", "sources": MODEL, "rule": "1-2 models switched between 2-4 shared string pools (also nearly exhausted ones) while up to 2 threads insert names into them; the n-th allocation inside a switch fails."},
    "C10": {"file": "c10.cpp", "sources": MODEL, "rule": "1-3 threads load random JSON documents into their models (shared string pool) from streams with short chunks, truncation, read errors, damaged bytes or failing allocations, then again from a healthy stream.",
            "assumptions": ["allocations made inside nlohmann::json destructors never fail (they are noexcept, a failure there ends the process regardless of simfil)"]},
    "C11": {"file": "c11.cpp", "sources": QUERY, "rule": "1-3 shared models, 1-8 shared random queries compiled once, evaluated by 2-6 threads while others compile and intern names; compared with a lone sequential evaluation in a world of its own."},
    "C12": {"file": "c12.cpp", "sources": QUERY, "rule": "2-6 threads compile up to 60 random queries (a quarter of them damaged) in one environment, in a third of the runs while names are added to its string pool; printed form, error, results and warnings are compared with compiling each query alone in a fresh environment."},
    "C13": {"file": "c13.cpp", "sources": QUERY, "rule": "2-6 threads evaluate traced expressions (nested, stopped early, failing, slow in simulated time), give warnings and read traces and warnings; calls, time, values and warnings are compared with what instrumented functions saw."},
    "C14": {"file": "c14.cpp", "sources": QUERY, "rule": "1-3 threads evaluate shared random queries whose consumer stops or throws at a random result; received prefix, later calls, result code and re-evaluation are compared with the uninterrupted evaluation; concatenations with arr() are compared with their parts."},
    "C15": {"file": "c15.cpp", "sources": QUERY, "rule": "1-4 threads compile and evaluate shared random queries and copy, move and swap values while the n-th allocation or the n-th call of a user function or data type operation fails; afterwards everything must give its normal result, every data object must be released exactly once, and a failure must be reported as itself."},
    "C16": {"file": "c16.cpp", "sources": QUERY, "rule": "2-6 threads fail in every part of the library (queries, models, images, pools, arenas, direct raises, n-th allocation) in 1-3 rounds with changing handlers; the reports of each thread are compared with the errors it caught and with those of a lone execution."},
    "C17": {"file": "c17.cpp", "sources": ["src/exception-handler.cpp"], "defs": ["-DARRAY_ARENA_THREAD_SAFE"], "libdefs": ["-DARRAY_ARENA_THREAD_SAFE"], "rule": "2-7 threads create, append to, change, read (8 ways) and bounds-check their own arrays in one arena (4 shapes, 3 element types), with failing allocations; arrays change owner half-way; compared with plain vectors."},
    "C18": {"file": "c18.cpp", "sources": ["src/exception-handler.cpp"], "rule": "Sequences of up to 120 creations, appends, changes, reads and clears in arenas of 4 shapes and 3 element types while the n-th allocation fails; compared with plain vectors read back in 8 ways after every failure, then retried; nothing may leak."},
    "C19": {"file": "c19.cpp", "sources": QUERY, "rule": "1-6 threads derive nodes, typed nodes, values and query results from handles to 1-3 models, 1-2 pools and environments, copy, move, assign, send to each other and release them in random order, also with failing allocations; every remaining handle must read the same, and what no handle needs must be gone."},
    "C20": {"file": "c20.cpp", "sources": QUERY, "extra": [("repl/*.cpp", ["-Dmain=sim_repl_main"])],
            "rule": "Sessions of the tool with up to 9 documents, up to 6 commands and queries (failing on some documents) and 1-8 hardware threads, input also in short chunks, cut or failing; once with parallel evaluation, once without; the printed answers are compared."},
    "C21": {"file": "c21.cpp", "sources": QUERY, "rule": "2-4 pipelines load JSON, build, change, query, move to another pool, write, ship to a fresh pool and restore their own models over 1-2 shared string pools while streams are cut or fail and allocations fail; each step is compared with the pipeline running alone."},
    "C22": {"file": "c22.cpp", "sources": MODEL, "rule": "2-6 threads read 1-3 shared models (built, restored or with computed fields) in every way (walks, iterators, names, JSON, error check, image, kept nodes), also with failing allocations and full devices, while others intern names and build models in the same string pool; everything read is compared with the documents."},
    "C23": {"file": "c23.cpp", "sources": QUERY, "rule": "1-3 threads evaluate and compile shared random queries under a debug interface that records every step, with consumers that stop or throw, user code, allocations and the debugger itself failing at a random step, or detaching; results are compared with those without a debugger, the sequence of steps with that of a lone evaluation, nesting is checked at every step."},
    "C24": {"file": "c24.cpp", "sources": QUERY, "rule": "1-2 producers build models on one string pool and send model images and partial pool updates, which are lost, duplicated, reordered, cut or fail; the receiver applies them, passes models on and restarts, also with failing allocations, while up to 2 users walk, export, check and query what has arrived; every view is compared with the documents and the names that have arrived; then faults stop."},
    "C25": {"file": "c25.cpp", "sources": QUERY, "rule": "1-3 threads evaluate, compile, load and write while consumers, user functions and data types, computed fields, debugger, error handler and devices use the library again from inside (up to 3 deep: the same or other queries to the end, stopped, failing or out of memory, compiling, interning, building, loading, writing, errors); every inner and outer result is compared with that of a world in which nothing calls back."},
}
