CORE="butane_core/src/"
ALLB="sqlite, PostgreSQL and turso"

prop("C01","Filtered queries return exactly the rows that satisfy the filter",
 "For every filter expression built from comparisons, null tests, pattern matches, membership lists, relation lookups and any nesting of and / or / not, the rows returned by a query are exactly the stored rows for which the expression, as composed by the caller, is true. The grouping the caller expressed is the grouping that is evaluated, and the answer is the same on every backend and through the blocking and the async interface.",
 ["inputs","configurations"],
 "all filter expressions up to a bounded depth over every operator, all tables contents of a fixed small universe including nulls, every backend and interface",
 "The tests run a few dozen hand-written filters, nearly all a single comparison or one conjunction; how operators compose is a property of every tree.",
 [CORE+"query/mod.rs",CORE+"query/fieldexpr.rs",CORE+"db/helper.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs"],
 [("expression to SQL translation",CORE+"db/helper.rs"),("subquery materialisation",CORE+"db/turso.rs"),("field expression builders",CORE+"query/fieldexpr.rs")],
 ["rows returned by loading a query"],
 technique="bounded exhaustive enumeration of filter trees on the real code against a reference evaluator",
 level="model_checking",
 note="Exhaustive for every filter tree up to the stated depth over the stated leaf alphabet, on real sqlite / PostgreSQL / turso; three-valued reference evaluator is trusted. Text comparison is restricted to lower-case ASCII, where the three engines agree.")

prop("C02","Ordering, limit, offset, first and bulk delete act on exactly the matching rows",
 "Loading a query returns the matching rows sorted by the requested columns in precedence order, skipping the offset and then taking at most the limit, and asking for the first row gives the first row of that same sequence or nothing. Deleting by a query removes exactly the rows its filter matches, leaves every other row untouched and reports how many were removed.",
 ["inputs","configurations"],
 "all combinations of filter, sort columns and directions, limit and offset within small bounds, on every backend and interface",
 "Tests try single points (limit 2, one order); the combinations of limit, offset, order, first and delete are never crossed.",
 [CORE+"query/mod.rs",CORE+"db/helper.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs",CORE+"db/connmethods.rs"],
 [("query builder and its execution",CORE+"query/mod.rs"),("limit/offset/order rendering",CORE+"db/helper.rs")],
 ["sequence of rows returned","rows left after a bulk delete","reported count"],
 technique="bounded exhaustive enumeration of query shapes on the real code against a reference list model",
 level="model_checking",
 note="Every combination in the stated alphabet, on real backends. A limit combined with bulk delete is outside the property (deletes ignore it by design).")

prop("C03","Saving, reloading and deleting objects behaves like a map keyed by primary key",
 "After any sequence of creating, modifying, saving, fetching, deleting and re-creating objects, the database holds for every primary key exactly the field values last successfully saved under it and not deleted since; automatic keys are assigned on the first save, are distinct, and never change afterwards. An operation that reports an error leaves the stored objects as they were.",
 ["histories","configurations"],
 "all operation sequences up to a bounded length over a few object handles, for automatic, explicit integer, text and composite-uniqueness keyed models, on every backend and interface",
 "Tests run one fixed create/save/reload story per feature; interleavings of handles, re-saves, stale handles and unique violations are not sampled.",
 [CORE+"lib.rs",CORE+"autopk.rs",CORE+"db/helper.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs",CORE+"codegen/dbobj.rs"],
 [("object save/get/delete",CORE+"lib.rs"),("insert / update / upsert",CORE+"db/*.rs"),("generated column and value lists",CORE+"codegen/dbobj.rs")],
 ["full table contents after every step","handles' keys and fields","error or success of each step"],
 technique="explicit-state exploration of all operation sequences on the real code against a map model",
 level="model_checking",
 note="All sequences to the stated depth on real backends with state deduplication by canonical (table, handles). Saving a handle whose row was deleted elsewhere is only required not to disturb other rows.")

prop("C04","Every value of every supported field type survives storage unchanged",
 "Whatever value a field of a supported type holds, saving it either fails with an error or stores it so that reading it back, and looking it up by equality with that value, yields exactly the same value; this holds for optional fields, keys, custom enums and wrapper types too. A value is never silently truncated, re-typed or altered, and reading a stored number that does not fit the field's type is an error rather than a different number.",
 ["inputs","configurations"],
 "a boundary-value alphabet for each field type (integers of each width, floats, text, bytes, dates, times, json, uuid, maps, enums, options) on every backend and interface",
 "Tests store one or two friendly values per type; edges such as width limits, sub-second precision, quotes, empty values and nested json are not tried.",
 [CORE+"sqlval.rs",CORE+"uuid.rs",CORE+"autopk.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs","butane_codegen/src/lib.rs"],
 [("to/from SQL value conversions",CORE+"sqlval.rs"),("backend value mapping",CORE+"db/*.rs"),("derived field types","butane_codegen/src/lib.rs")],
 ["value read back","rows found by equality","errors"],
 technique="exhaustive enumeration of a boundary-value domain per type through the real save/load/filter path",
 level="model_checking",
 note="Exhaustive over the stated value alphabet and every pair of (stored, looked-up) value; infinite domains are represented by their boundary values.")

prop("C05","A many-to-many relation is, for each owner, exactly the set last saved",
 "After any sequence of adding, removing, replacing, clearing, saving and loading through any number of owner objects, each owner's relation contains exactly the members it was last saved with, each once. Changing or clearing one owner's relation never changes another's, and loading shows the stored set together with not yet saved additions.",
 ["histories","configurations"],
 "all operation sequences up to a bounded length over two owners and two or three members, including stale copies of an owner, on every backend and interface",
 "Tests exercise one owner at a time with a single add or remove; cross-owner effects and repeated saves need sequences.",
 [CORE+"many.rs",CORE+"codegen/dbobj.rs",CORE+"lib.rs"],
 [("relation cache and pending lists",CORE+"many.rs"),("saving relations with the owner",CORE+"codegen/dbobj.rs")],
 ["loaded members per owner","link table contents","lookups by contained member"],
 technique="explicit-state exploration of all operation sequences on the real code against a set model",
 level="model_checking",
 note="All sequences to the stated depth over 2 owners x 2 members with state deduplication, on real backends.")

prop("C06","A foreign key always refers to, loads and compares as the row with that key",
 "A reference built from an object, built from a key, or read back from the database identifies the same row: it yields that row's key, loads exactly that row's stored fields or reports that it does not exist, and compares equal precisely to references and objects with that key. A stored reference can never be left pointing at a missing row, and an absent optional reference reads back as absent.",
 ["histories","inputs","configurations"],
 "all sequences of constructing, comparing, cloning, serialising, loading, storing and deleting references and their targets up to a bounded length, on every backend and interface",
 "Tests load a reference once after one save; equality across loaded and unloaded forms, deletes and reloads need histories.",
 [CORE+"fkey.rs",CORE+"codegen/dbobj.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs"],
 [("lazy reference state",CORE+"fkey.rs"),("reference constraints in generated DDL",CORE+"db/*.rs")],
 ["key, loaded object, equality results, errors","rows after deletes"],
 technique="bounded exhaustive exploration of reference/target operation sequences on the real code",
 level="model_checking",
 note="All sequences to the stated depth. Referential integrity is judged for references declared when their table is created, on backends that enforce it.")

prop("C07","Transactions are all-or-nothing and invisible until committed",
 "Whatever operations run inside a transaction, committing it makes all of their effects visible to other connections together, and rolling it back, dropping it or losing it to an error leaves the database exactly as it was before the transaction began. Until it commits, no other connection sees any of its effects while the transaction itself sees all of them, and afterwards the connection is usable for further transactions.",
 ["histories","schedules","fault_sequences","configurations"],
 "all sequences of begin, write, failing write, read, observe from a second connection, commit, rollback and drop up to a bounded length, on every backend and through blocking, async and adapted connections",
 "Tests commit one transaction and roll back another; visibility to a second connection, failures inside and reuse afterwards are properties of every interleaving.",
 [CORE+"db/mod.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs",CORE+"db/adapter.rs",CORE+"db/sync_adapter.rs"],
 [("transaction handles",CORE+"db/mod.rs"),("rollback on drop",CORE+"db/*.rs"),("adapter forwarding",CORE+"db/adapter.rs")],
 ["rows seen by the transaction, its connection and a second connection at each step"],
 technique="explicit-state exploration of all two-connection transaction histories on the real code",
 level="model_checking",
 note="All histories to the stated length on real databases. After a failed statement, a commit may keep either all successful writes or none (PostgreSQL aborts).")

prop("C08","The difference between two schemas, applied to the first, yields the second",
 "For any two schemas, the list of changes computed between them transforms the first into exactly the second, is empty precisely when they are equal, and can be executed in order: nothing is referenced before it exists or dropped while still referenced. The list does not depend on the order in which tables or columns were declared.",
 ["inputs"],
 "all ordered pairs of schemas from a bounded universe of tables, columns, types, nullability, keys, uniqueness, defaults and references",
 "Tests diff about ten hand-made pairs; correctness is a statement about every pair.",
 [CORE+"migrations/adb.rs"],
 [("schema model and diff",CORE+"migrations/adb.rs")],
 ["computed change list","transformed schema"],
 technique="exhaustive enumeration of all pairs of small schemas on the real diff, with a dependency-checking executor",
 level="model_checking",
 note="Every ordered pair in the stated universe. The executable-order part is judged by an independent interpreter of the change list.")

prop("C09","Generated migrations run, build the declared schema, keep data and undo",
 "For any change from one set of models to another, the generated SQL runs without error on a populated database of the first schema, leaves the same tables, columns, constraints and references as creating the second schema from scratch, keeps every value of every surviving column and fills new columns with their default. Running the generated reverse SQL restores the first schema and again every surviving value.",
 ["inputs","programs","configurations"],
 "all ordered pairs of schemas from a bounded universe, with rows present, forward and back, on sqlite and PostgreSQL",
 "Tests cover a handful of fixed upgrades, mostly on empty tables; each pair of schemas takes its own path through the rewriting code.",
 [CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs",CORE+"db/helper.rs",CORE+"migrations/adb.rs",CORE+"migrations/mod.rs"],
 [("DDL generation, table copy, constraints",CORE+"db/sqlite.rs"),("DDL generation",CORE+"db/pg.rs"),("defaults and literals",CORE+"db/helper.rs")],
 ["schema catalogue of the database","row contents before and after","errors"],
 technique="exhaustive enumeration of schema pairs executed on the real engines, compared with a fresh build",
 level="model_checking",
 note="Every ordered pair in the stated universe is executed up and down on a populated real database and its catalogue compared with a freshly created one.")

prop("C10","Migrating up, down and to a given version keeps schema and record in step",
 "After any sequence of applying all migrations, applying or undoing single migrations, and undoing all of them, the set recorded as applied is a prefix of the migration order, the schema present is the one that prefix defines, and the migrations reported as unapplied are exactly the rest. Applying again what is applied changes nothing, and two runs of the same sequence end in the same state whichever interface is used.",
 ["histories","configurations"],
 "all sequences of migration commands up to a bounded length over chains of three to four migrations, on every backend and interface, starting from empty and from partly applied databases",
 "Tests migrate up once and down once; the state machine has many more paths.",
 [CORE+"migrations/mod.rs",CORE+"migrations/migration.rs",CORE+"migrations/memmigrations.rs",CORE+"migrations/fsmigrations.rs"],
 [("migration bookkeeping",CORE+"migrations/mod.rs"),("apply and downgrade",CORE+"migrations/migration.rs")],
 ["schema catalogue","recorded migrations","reported applied/unapplied lists"],
 technique="explicit-state exploration of all migration command sequences on real databases",
 level="model_checking",
 note="All command sequences to the stated depth; state = (catalogue, applied record), compared with the prefix model at every step.")

prop("C11","An interrupted or failing migration leaves the database as before it started",
 "If applying or undoing a migration fails at any statement, or the process or connection dies at any point, the database afterwards is either exactly as before that migration or exactly as after it, including whether it is recorded as applied. Running the migration again from there completes and reaches the same state as an undisturbed run.",
 ["crash_points","fault_sequences","configurations"],
 "every statement of every migration in a chain made to fail, every storage write of the process on a file database as a crash point, every protocol message on a network database as a cut point",
 "Tests never interrupt a migration; the guarantee quantifies over every interruption point.",
 [CORE+"migrations/migration.rs",CORE+"migrations/mod.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs"],
 [("one transaction around SQL and bookkeeping",CORE+"migrations/migration.rs")],
 ["schema catalogue, rows and applied record after recovery"],
 technique="exhaustive crash-point and failing-statement enumeration on the real code",
 level="fault_enumeration",
 note="Every write/sync/unlink system call of the migrating process is a kill point (sqlite file); every client message is a cut point (PostgreSQL); every statement index is a failure point.")

prop("C12","Recorded schema files survive a crash at any point of recording",
 "If the process recording models, creating a migration or detaching one dies between or inside any of its file operations, the migration store can still be opened afterwards: it shows every migration that had been created before, with its original content, and the latest migration is either the old or the new one. Repeating the interrupted step then completes it with the same result as an undisturbed run.",
 ["crash_points","histories"],
 "every file-system operation, and every partial write, of every step of bounded histories of recording, creating and detaching",
 "Tests never interrupt file writing.",
 [CORE+"migrations/fsmigrations.rs",CORE+"migrations/fs.rs"],
 [("state file and migration directories",CORE+"migrations/fsmigrations.rs")],
 ["store contents after re-opening","result of repeating the step"],
 technique="exhaustive crash-point and torn-write enumeration of the real recording process via system-call interposition",
 level="model_checking",
 note="Every file operation below the store directory is a kill point and every write is also torn at three places, on real processes; the thorough tier kills the repetition once more.")

prop("C13","The file and in-memory migration stores agree and convert losslessly",
 "Any sequence of recording tables and types, creating, listing, detaching and clearing migrations gives the same answers from a store on disk, from a store in memory, and from a disk store re-opened between any two steps. Copying migrations from one store to another, or embedding them as text and reading them back, preserves every migration's name, order, schema and SQL.",
 ["histories"],
 "all sequences of store operations up to a bounded length, with a re-open possible between any two",
 "Tests take one short path through each store and never compare them.",
 [CORE+"migrations/fsmigrations.rs",CORE+"migrations/memmigrations.rs",CORE+"migrations/mod.rs",CORE+"migrations/migration.rs"],
 [("store traits and two implementations",CORE+"migrations/mod.rs"),("copying",CORE+"migrations/mod.rs")],
 ["names, order, schemas, SQL, latest, errors"],
 technique="exhaustive lock-step exploration of operation sequences on two real implementations and a list model",
 level="model_checking",
 note="All operation sequences to the stated depth are run in lock-step on both stores.")

prop("C14","Processes recording models at the same time lose nothing",
 "When several compiler processes record their models and types into the same migration store at the same time, then under every interleaving of their file operations all of them finish, every recorded table and type is present afterwards with its full content, and the recorded schema is the one a sequential recording gives.",
 ["schedules"],
 "all interleavings of the file operations of two or three recording processes from empty and non-empty stores",
 "A test runs one schedule of one process.",
 [CORE+"migrations/fsmigrations.rs",CORE+"migrations/fs.rs"],
 [("lock file around updates",CORE+"migrations/fsmigrations.rs")],
 ["store contents after all processes end","process outcomes"],
 technique="stateless model checking of real processes: every interleaving of their system calls, with state deduplication",
 level="model_checking",
 note="All schedules at file-operation granularity (no preemption bound; states deduplicated), with up to one process dying; waiting for a file lock is blocking.")

prop("C15","Blocking, async and adapted connections behave identically",
 "Running the same sequence of operations through the blocking interface, the async interface, an async wrapper of a blocking connection or a blocking wrapper of an async connection gives the same results, the same kind of error at the same step, and leaves the same database contents, on every backend.",
 ["histories","configurations"],
 "all operation sequences up to a bounded length over the whole connection interface, each replayed through every way of connecting",
 "Tests are duplicated per interface but only with their fixed stories; equality of interfaces is a statement about every sequence.",
 [CORE+"db/adapter.rs",CORE+"db/sync_adapter.rs",CORE+"db/mod.rs",CORE+"db/connmethods.rs",CORE+"db/macros.rs"],
 [("sync over async",CORE+"db/sync_adapter.rs"),("async over sync",CORE+"db/adapter.rs"),("delegating wrappers",CORE+"db/macros.rs")],
 ["result trace and final contents per interface"],
 technique="bounded exhaustive differential exploration of operation sequences across interfaces",
 level="model_checking",
 note="All sequences to the stated depth, each executed on every interface of every backend and compared step by step.")

prop("C16","An async wrapper runs each request once, in order, and never hangs or leaks",
 "Under every order of issuing, polling, completing and abandoning requests, and of dropping connection and transaction handles, each request accepted by an async wrapper of a blocking connection is executed exactly once, in the order issued, with its own arguments and its own result. A request that fails reports its failure to its own caller, no order of events makes the wrapper deadlock or touch released memory, and dropping it releases the underlying connection.",
 ["schedules","histories"],
 "all orders, up to a bounded number of requests, of issue, backend progress, poll, cancel and drop events",
 "Tests only await each request immediately.",
 [CORE+"db/adapter.rs"],
 [("worker thread and command channel",CORE+"db/adapter.rs")],
 ["requests as seen by the wrapped connection","results per caller","drop of the wrapped connection"],
 technique="stateless exploration of all event orders with a gated stand-in connection under the real adapter",
 level="model_checking",
 note="The wrapped connection is a stand-in whose progress the explorer gates, so every order of events at request granularity is executed on the real adapter.")

prop("C17","The filter and query macros mean the expression that was written",
 "For every expression written in the query macros' language, the selected rows are those for which the same expression, read as ordinary boolean logic over the object's fields (a comparison with an absent value being true only for == None and != None), is true. An expression outside the language is rejected when compiling instead of being given another meaning.",
 ["programs","inputs"],
 "all macro expressions up to a bounded size over every operator, literal and value form, negative and nested forms, relation lookups and interpolated values",
 "Tests and examples use a few fixed filters.",
 ["butane_codegen/src/filter.rs","butane_codegen/src/lib.rs",CORE+"query/fieldexpr.rs"],
 [("macro translation","butane_codegen/src/filter.rs")],
 ["rows selected by each macro expression"],
 technique="exhaustive generation and compilation of all small macro expressions, executed against a rust closure oracle",
 level="model_checking",
 note="Every expression in the stated grammar is compiled with the real macro and run on a real database against the same expression as a Rust closure.")

prop("C18","A model definition yields the table its fields declare",
 "For every model definition, the recorded schema has one column per stored field with the field's type, nullability, key, uniqueness, default and reference, plus one link table per many-to-many field, under the declared or default table name, and the generated object code reads and writes exactly those columns. Definitions that cannot be represented are rejected.",
 ["programs"],
 "all model definitions up to a bounded number of fields over every field kind, attribute and path spelling",
 "Tests define a few dozen models.",
 [CORE+"codegen/mod.rs",CORE+"codegen/migration.rs",CORE+"codegen/dbobj.rs",CORE+"migrations/adb.rs","butane_codegen/src/lib.rs"],
 [("table extraction from a struct",CORE+"codegen/migration.rs"),("type recognition",CORE+"codegen/mod.rs"),("impl generation",CORE+"codegen/dbobj.rs")],
 ["recorded schema","generated column lists","rejections"],
 technique="exhaustive enumeration of small model definitions through the real code generator against a reference schema builder",
 level="model_checking",
 note="Every definition in the stated grammar; generated code is judged by its column, key and table constants and by the compiled models the other checks exercise.")

prop("C19","Type and reference resolution is independent of declaration order",
 "However models, custom types and their references are ordered or spread over declarations, the resolved schema is the same, every column gets the type its declaration chain leads to, and every reference gets the key column and type of its target. A column whose chain is circular or leads nowhere is reported as an error; resolution always terminates.",
 ["inputs","programs"],
 "all small graphs of tables, custom types and references, including chains, cycles and dangling names, and all declaration orders",
 "Tests resolve a few straight chains.",
 [CORE+"migrations/adb.rs",CORE+"codegen/migration.rs",CORE+"migrations/fsmigrations.rs",CORE+"migrations/memmigrations.rs"],
 [("type resolution",CORE+"migrations/adb.rs")],
 ["resolved schema or error"],
 technique="exhaustive enumeration of small type/reference graphs and permutations on the real resolver",
 level="model_checking",
 note="Every graph and permutation in the stated bounds against an independent fixpoint resolver, with a step limit standing in for non-termination.")

prop("C20","A connection specification survives parsing, extending, saving and loading",
 "Every connection string is assigned the backend its form denotes and is otherwise kept as given; saving a specification and loading it gives back an equal one; adding parameters appends exactly those, each readable by the backend, leaving the rest of the string intact. Anything else is reported as an error, never silently changed.",
 ["inputs","histories"],
 "all strings from a grammar of schemes, hosts, paths and key-value pairs, and all short sequences of parameter additions, saves and loads",
 "Tests parse about twenty strings.",
 [CORE+"db/mod.rs"],
 [("parsing, parameters, persistence",CORE+"db/mod.rs")],
 ["backend and string of the specification","errors"],
 technique="exhaustive enumeration of a connection-string grammar and operation sequences against a reference parser",
 level="model_checking",
 note="Every string in the stated grammar; the reference classification follows the documented rules.")

prop("C21","A pooled connection is always working and carries no unfinished work",
 "Whatever users of a connection pool did with connections before returning them, every connection later handed out is open, sees only committed data and is not inside a transaction. A connection that broke while borrowed is discarded instead of being handed out again, and the pool keeps serving.",
 ["histories","fault_sequences","configurations"],
 "all sequences of borrow, write, begin, commit, abandon, break and return up to a bounded length with pools of one or two connections",
 "Tests borrow connections once.",
 ["butane/src/db/mod.rs","butane/src/db/r2.rs","butane/src/db/deadpool.rs",CORE+"db/mod.rs"],
 [("pool managers","butane/src/db/*.rs"),("closed detection",CORE+"db/*.rs")],
 ["state of connections handed out","visible data"],
 technique="bounded exhaustive exploration of borrow/use/return histories with real pools",
 level="model_checking",
 note="All histories to the stated depth with real r2d2 and deadpool pools; breaking is done by terminating the server side of the connection.")

prop("C22","The command line keeps migrations, embedding and database consistent",
 "After any sequence of command-line actions that initialise, create, apply, undo, collapse, detach, regenerate, embed or list migrations, change backends, clear data or delete tables, the stored migrations form one chain whose latest schema is the recorded one, an enabled embedding equals the chain, and the applied record names migrations of the chain. A refused or failing action changes nothing.",
 ["histories"],
 "all sequences of command-line actions up to a bounded length on one project with a sqlite database, with schema edits in between",
 "The command-line tests only check metadata discovery and one embedding.",
 ["butane_cli/src/lib.rs","butane_cli/src/main.rs",CORE+"migrations/mod.rs",CORE+"migrations/fsmigrations.rs"],
 [("command implementations","butane_cli/src/lib.rs")],
 ["migration directory, embedded source, database catalogue and applied record"],
 technique="explicit-state exploration of all command sequences of the real command implementations against a chain model",
 level="model_checking",
 note="All sequences to the stated depth; the commands' implementation is compiled from the repository and run in a child process per sequence.")

prop("C23","Any table or column name works in every operation",
 "A model works the same whatever its tables, columns and relations are called: names that are words reserved by a database, and ordinary mixed-case names, can be created, migrated, saved, filtered, ordered, joined, updated and deleted on every backend.",
 ["inputs","configurations"],
 "all names from the reserved-word lists of the databases, mixed-case and ordinary names, in each naming position, through each operation",
 "One example uses a few reserved words with a few operations.",
 [CORE+"db/helper.rs",CORE+"db/sqlite.rs",CORE+"db/pg.rs",CORE+"db/turso.rs",CORE+"many.rs"],
 [("identifier quoting",CORE+"db/helper.rs")],
 ["errors and results of every operation"],
 technique="exhaustive enumeration of names x positions x operations on the real backends",
 level="model_checking",
 note="Exhaustive over sqlparser's, sqlite's and PostgreSQL's keyword lists and the connection interface's operations.")

prop("C24","Borrowing an async connection for blocking work always gives it back",
 "After running blocking work on an async connection, whether the work returns, fails, or the wait for it is abandoned, either the connection works as before or every later use of it fails with an error that says it is unusable; a panic inside the work is reported to the caller. It is never silently a different connection, never hangs and never loses the outcome of work already done.",
 ["histories","fault_sequences","configurations"],
 "all sequences of blocking work that succeeds, fails, panics, leaves a transaction open, nests, or is abandoned, up to a bounded length, on every backend",
 "Tests cover one success, one failure path.",
 [CORE+"db/mod.rs",CORE+"db/dummy.rs",CORE+"db/sync_adapter.rs"],
 [("temporary swap with a poisoned stand-in",CORE+"db/mod.rs")],
 ["results of later operations","stored data"],
 technique="bounded exhaustive exploration of work outcomes and continuations on the real code",
 level="model_checking",
 note="All outcome sequences to the stated depth on real sqlite (adapted), PostgreSQL and turso connections.")

prop("C25","Partial-column results agree with the full objects",
 "Loading a subset of a model's columns through a query gives, for the same filter, order, limit and offset, the same rows in the same order as loading full objects, with each selected field equal to the full object's field.",
 ["inputs","programs"],
 "all non-empty column subsets in all field orders of a model with every kind of column, crossed with all small query shapes, on every backend",
 "Tests use one two-column result type.",
 [CORE+"codegen/dbobj.rs",CORE+"codegen/mod.rs",CORE+"db/connmethods.rs",CORE+"query/mod.rs"],
 [("row decoding by position",CORE+"codegen/dbobj.rs"),("row buffers",CORE+"db/connmethods.rs")],
 ["rows of the partial type against rows of the full type"],
 technique="exhaustive generation of result types and query shapes, executed on the real code against full loads",
 level="model_checking",
 note="Every ordered column subset up to the stated size, compiled with the real macro.")
