#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded exhaustive exploration (explicit enumeration) of the real implementation"
CHECKS = {
 "C01": ("exhaustive crash-point enumeration on the real engine: every history up to a depth, a crash after every write or truncation of every file, each resulting image opened and compared with a model of the acknowledged transactions",
         "Every history up to the stated length over alphabets of autocommits, batches, transactions of one and two sessions, DDL, rows that span log blocks, evictions from small caches, checkpoints, VACUUM, restarts; plus long histories of 150 and more transactions; the files are rebuilt for every prefix of the stream of writes and opened; contents, key probes, further statements, close and open again. Crash model: the process dies between two writes (no torn writes, none reordered)."),
 "C02": ("exhaustive crash-point enumeration on the real engine with open, rolled-back, dropped and failed transactions, each image opened and compared with a model in which they never ran",
         "As C01 with alphabets of transactions that stay open, roll back, are dropped or fail half-way (rows, DDL, updates as the last thing before the crash), whose pages are evicted or checkpointed and whose log records are written before the end; commits in progress must appear as a whole or not at all. Crash model as for C01."),
 "C08": ("exhaustive crash-point enumeration on the real engine, including every crash inside the recovery (nested up to 2-3 times), inside checkpoints, VACUUM and ALTER TABLE",
         "As C01, and each recovery is itself crashed at every write, repeatedly; all must open with the same contents, accept further statements, close and open again; long histories with a crash after every statement. Crash model as for C01."),
 "C16": ("exhaustive enumeration of all token sequences, statements, literals and states of bounded families on the real engine, panics and hangs observed, state compared before and after every error",
         "Every token sequence up to a length and every mutation of a statement corpus, every function and operator on every pair of boundary values, oversized literals, names and statements, every failing statement of a family in every state of a family; after each error the contents are compared and the session and database used again."),
 "C09": ("explicit enumeration of histories split by close/open at every position, of work cycles over many close/open cycles and of transaction patterns beyond the header's bitmap, on the real engine vs a model carried across the reopen",
         "Every history up to the stated length over alphabets of DML, DDL, rolled-back / dropped sessions, VACUUM and FLUSH with close/open at every position, for four creation-time geometries and differing open-time configurations; rows with overflow chains, constraint probes, fresh inserts and creates after the reopen; every short step sequence repeated over many close/open cycles; every short pattern of commits, rollbacks, failures and reopens around and far beyond 8192 transactions."),
 "C12": ("explicit enumeration of histories of large statements under every configuration of a grid on the real engine, each compared with the same reference model",
         "Every history up to the stated length over an alphabet of bulk inserts / range deletes / updates / overflow rows / DDL / VACUUM / FLUSH / reopen, for every configuration of a grid of page sizes (4-64 KiB), cache sizes (24 pages upwards, far smaller than the data), pool sizes, minimum keys and siblings; all results and final contents equal the one model's, hence each other's. An out-of-memory refusal (without effect) is tolerated only for caches of 24 pages."),
 "C15": ("explicit enumeration of histories of schema changes and DML of 1-2 sessions on the real engine vs a model of a transactional catalog",
         "Every history up to the stated length over alphabets of CREATE / DROP / CREATE UNIQUE INDEX / every ALTER TABLE form and DML on the same and other tables, committed, rolled back or dropped, in one and two sessions, with VACUUM / ANALYZE / reopen in between; every table is read by every session and by fresh transactions, names, columns, defaults and constraints are probed by further statements."),
 "C17": ("explicit-state enumeration of all log operation sequences on the real WriteAheadLog vs list model",
         "Every sequence of appends (6 sizes), forces, truncations, close/reopen, process deaths and deaths inside a force up to the stated depth, run on the real log code, compared with a list model after every step. Trusts: one write() call is atomic; sizes are representative."),
 "C18": ("explicit-state enumeration of version chains, writer outcomes and coordinator histories on the real tuple code vs version-list model",
         "Every update chain (column-subset alphabet) on every schema of a family, every assignment of writers / outcomes / deleter / reader / trim horizon to short chains, and every bounded history on the real TransactionCoordinator, decoded with the real reader and compared bit-exactly with a version list. Bounds on columns, chain length and transactions."),
 "C03": ("explicit enumeration of all histories with rollbacks, dropped sessions, failing statements and failing batches on the real engine vs a model in which they never ran",
         "Every history up to the stated length over alphabets of DML and DDL in sessions that roll back, are dropped or fail, plus failing autocommit statements and batches; after every step all tables, key probes and names are read by old and fresh transactions and compared with a model where the undone work never happened; VACUUM and reopen follow."),
 "C14": ("stateless exploration of the real code under a controlled scheduler (delay-bounded, every lock of the engine a scheduling point), outcomes judged by exhaustive search for a serial order",
         "Every schedule with up to the stated number of deviations, for every start order of the client threads, of the listed programs: pairs and triples of statements, sessions, batches, checkpoint / ANALYZE / VACUUM, page splits and merges, overflow chains, with enough and with too few workers and two cache sizes; deadlock, hang, panic, unexplained refusals and outcomes without a serial order are violations."),
 "C13": ("explicit enumeration of histories with VACUUM at every position on the real engine vs the model, plus exhaustive bounded-storage cycles",
         "Every history up to the stated length mixing committed, rolled-back and superseded work, dropped tables and VACUUM; everything is read after each VACUUM and compared with a model in which VACUUM is a no-op; update/vacuum cycle combinations must not let the file or the pages in use grow."),
 "C04": ("explicit enumeration of all interleavings of statements of 2-3 sessions up to a depth on the real engine vs a snapshot-isolation model",
         "Every history of BEGIN / INSERT / DELETE / COMMIT / ROLLBACK of two and three sessions plus autocommit statements up to the stated length; every open session and a fresh transaction read everything (full scans and key probes) and are compared with the model; write-write conflicts must not both commit. Statement-level interleaving (thread overlap is C14)."),
 "C07": ("explicit enumeration of all constraint-relevant statement histories of 1-2 sessions on the real engine vs a relational model with constraints",
         "Every history over alphabets of inserts / deletes / updates / index creation with colliding, NULL, composite and text keys in one or two sessions; each acceptance or rejection is compared with the model, constraints are checked on every committed state, and all contents and key probes are read back."),
 "C05": ("exhaustive enumeration of SQL statements of a bounded grammar over exhaustive small tables, executed by the real engine and compared with a reference interpreter",
         "Every predicate of a bounded grammar on a table holding every value combination, all join kinds x conditions x filters on small contents, all aggregate/group/having/order/distinct/limit combinations, FROM-subqueries/CTEs, and DML with those predicates; answers compared as bags (or sequences modulo ties) with an independent interpreter implementing three-valued logic."),
 "C06": ("exhaustive enumeration of database states x queries x optimizer plan choices on the real engine, every plan's answer compared with a reference interpreter",
         "For every query of a bounded family on every database variant (indexes, statistics, deleted/rolled-back rows) every plan the optimizer could choose (forced by a guarded hook, one or two deviating choices at a time) is executed and compared with an independent interpreter."),
 "C10": ("explicit-state enumeration of tree operation sequences on the real B+tree vs ordered-map model with full structural audit after every step",
         "Every operation sequence over small alphabets up to the stated depth, plus all permutations / structured fill and drain orders, for every tree configuration of a family (page size, min keys, siblings, key types, overflow payloads, tiny caches); after every operation the whole tree is read page by page and audited (order, depth, links, separators), and looked up / scanned against a map."),
 "C11": ("explicit-state enumeration of allocation/free histories on the real pager and trees, each reached state audited page by page (every page exactly one owner)",
         "Every interleaving of inserts / removals / clears / drops on several trees up to the stated depth with overflow payloads; after every step all pages of the file are classified by walking trees, overflow chains and the free list. Allocation must take from the free list before growing the file."),
 "C19": ("exhaustive enumeration of all pairs and triples of a boundary value set of every type on the real value code, plus key trees and SQL statements over the same values, against an exact mathematical oracle",
         "Equality/hash/order laws on all pairs and triples (owned and borrowed forms), all casts, storage at all alignments, trees of all values in many insertion orders, SQL ordering/grouping/comparison/join for every type with and without index. Bounds: the boundary value set."),
 "C20": ("exhaustive enumeration of protocol messages and of byte strings / truncations / single-byte and length-field mutations against the real codec",
         "Every message shape of a bounded family survives encode-frame-decode; every byte string up to the stated length, every truncation and every mutation of every encoded message is decoded under a counting allocator with panics observed. Trusts: codec functions, loopback-free in-memory streams."),
}
if os.path.exists(os.path.join(ROOT, "tools", "checks.json")):
    CHECKS = {k: tuple(v) for k, v in json.load(open(os.path.join(ROOT, "tools", "checks.json"))).items()}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines() if " hook:" in l]
m = {"version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "hooks": {"guard": "--cfg axmos_verif (RUSTFLAGS)", "enable": "RUSTFLAGS='--cfg axmos_verif' AXMOS_VERIF_FACADE=/verif/facade/<component>.rs cargo build --manifest-path /verif/harness/Cargo.toml (done by run.sh)", "source_commits": hooks},
 "checks": [{"property": p, "quick_cmd": f"bash /verif/run.sh {p} quick", "thorough_cmd": f"bash /verif/run.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p][0], "level": "model_checking", "level_note": CHECKS[p][1]} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: machinery under construction")} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in m["checks"]])
