# The properties; tools/mk.py writes properties.jsonl and MANIFEST.json from this list.
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))

ALLOCQ = 'every sequence of operations (with every argument, on several objects at once) and every behaviour of the allocator: where blocks are placed, whether freed addresses are reused, whether realloc moves, what fresh memory contains'
TESTS = 'The two container test programs run one fixed straight-line script on one allocator. '

PROPS = [
P('C01', 'Lists, stacks, tuples and blocks keep exactly the elements of their history',
  'A list is the sequence that its history of appends, insertions, removals, merges and clears produces, a stack holds its pushes minus pops in order and refuses to grow beyond its size, and tuples and blocks keep the components and bytes they were given. Every observer (size, capacity, empty, full, element access, top, iteration including early stop and its result) agrees with that sequence, however often the object is enlarged and wherever the memory for it comes from.',
  ['histories', 'inputs', 'schedules'], ALLOCQ,
  TESTS + 'They never cross a capacity boundary with neighbouring objects alive, never compare contents after each step, and cannot control whether growing an object moves it.',
  ['list.c', 'stack.c', 'tuple.c', 'triple.c', 'quadruple.c', 'n_tuple.c', 'block.c', 'cee-resize.h'],
  [('list growth and element shifting', 'list.c:cee_list_append, cee_list_insert, cee_list_remove'), ('bounded stack', 'stack.c:cee_stack_push, cee_stack_pop, cee_stack_top'), ('relinking of resized objects', 'cee-resize.h')],
  [('size, capacity', 'number of elements stored and room for them', 'list.c'), ('top, used', 'position of the top of the stack', 'stack.c')],
  ['list elements', 'cee_list_size', 'cee_list_iterate', 'cee_stack_top', 'cee_block_size']),
P('C02', 'Maps behave as finite maps that remember insertion order',
  'A map is the finite map that its history of additions, replacements, removals, renames, merges and clones produces, under the comparison function it was created with. Lookups, removal and rename results, size, the lists of keys and values, the insertion-ordered keys and both iterations (with early stop and its result) all agree with it, and a lookup among n keys needs a number of comparisons logarithmic in n.',
  ['histories', 'inputs', 'schedules'], ALLOCQ + '; every comparison function that is a total order',
  TESTS + 'The tests add a handful of keys and never remove or rename one and then look at everything again; rebalancing needs long particular histories.',
  ['map.c', 'musl-tsearch.c', 'tuple.c', 'list.c'],
  [('balanced tree search, insertion, deletion', 'musl-tsearch.c'), ('key/value pair and insertion-order bookkeeping', 'map.c:cee_map_add, cee_map_remove, cee_map_rename, cee_map_merge')],
  [('root, size, insertion order list', 'the tree of pairs, their number, the order of insertion', 'map.c')],
  ['cee_map_find', 'cee_map_iterate', 'cee_map_keys', 'cee_map_values', 'cee_map_insertion_ordered_keys']),
P('C03', 'Sets and dictionaries behave as finite sets and finite maps',
  'A set holds exactly one element per equivalence class of its comparison function, the first one added and not removed since, and a dictionary maps each key to the first value added for it. Membership, size, emptiness, iteration, value lists, clones, unions and clearing agree with the history, and membership among n elements needs a number of comparisons logarithmic in n.',
  ['histories', 'inputs', 'schedules'], ALLOCQ + '; every comparison function that is a total order',
  TESTS + 'One small set and one small dictionary are filled once; no history removes, clears, clones or refills.',
  ['set.c', 'dict.c', 'musl-tsearch.c', 'musl-hsearch.c'],
  [('balanced tree', 'musl-tsearch.c'), ('open-addressing hash table and its growth', 'musl-hsearch.c'), ('set and dictionary wrappers', 'set.c, dict.c')],
  [('root, size', 'the tree and the number of elements', 'set.c')],
  ['cee_set_find', 'cee_set_iterate', 'cee_set_values', 'cee_dict_find']),
P('C04', 'Growable strings hold exactly the text written to them',
  'A string holds, with a terminator, exactly the text that its history of formatted creations, appends, formatted appends, replacements and trims produces; the functions that replace substrings return a fresh text in which exactly the leftmost non-overlapping occurrences are replaced. A buffer requested with a size can be written to that size, and growing a string neither loses text nor touches memory outside the string, whichever resize method is chosen.',
  ['histories', 'inputs', 'schedules'], ALLOCQ + '; both resize methods',
  TESTS + 'Their strings are shorter than one block, so no growth, no exact-fit boundary and no move is exercised.',
  ['str.c', 'cee-resize.h', 'cee-common.c'],
  [('block-rounded capacity', 'str.c:cee_str_mk_e'), ('append with growth', 'str.c:cee_str_add, cee_str_catf, cee_str_ncat'), ('formatted creation in two passes', 'str.c:cee_str_mkv')],
  [('capacity', 'usable bytes of the string', 'str.c')], ['the characters of the string', 'cee_str_end']),
P('C05', 'Garbage collection never frees or damages what is still reachable',
  'After any number of collections at any points, every object reachable from a root, from a value of the state context or from the state stack is still alive and has unchanged contents, whatever kinds of objects lie on the path to it. Collections of one state never touch objects of another.',
  ['histories', 'schedules', 'inputs'], 'every history that builds, rewires and drops object graphs of all kinds, shared and cyclic ones included, over one or two states, with collections at any point, and every behaviour of the allocator',
  TESTS + 'One test collects once, on one graph, and does not read the survivors back.',
  ['state.c', 'map.c', 'set.c', 'list.c', 'stack.c', 'tuple.c', 'dict.c', 'tagged.c', 'env.c', 'closure.c', 'cee-common.c'],
  [('mark and sweep over the trace chain', 'state.c:cee_state_gc, state.c:cee_state_sweep'), ('per-kind trace functions', '*.c:static void S(trace)')],
  [('gc_mark, roots, contexts, stack, trace chain', 'which objects are marked, where marking starts, all objects of a state', 'state.c')],
  ['contents of all reachable objects after a collection']),
P('C06', 'Garbage collection frees everything unreachable, at the next collection',
  'A collection frees every object that cannot be reached from a root, a context value or the state stack at that moment, including objects left unreachable by earlier growth, removal or explicit deletion, so repeated work between collections does not make the live heap grow.',
  ['histories', 'schedules', 'inputs'], 'every history that builds, rewires and drops object graphs of all kinds, shared and cyclic ones included, over one or two states, with collections at any point, and every behaviour of the allocator',
  TESTS + 'None of them looks at what a second collection leaves behind.',
  ['state.c', 'map.c', 'set.c', 'list.c', 'tuple.c', 'cee-common.c', 'cee-resize.h'],
  [('alternating marks', 'state.c:cee_state_gc'), ('trace chain completeness', 'cee-resize.h, cee-common.c:cee_trace, state.c')],
  [('next_mark', 'the mark of the coming collection', 'state.c'), ('trace_next, trace_prev', 'links of the chain of all objects', 'cee-header.h')],
  ['the simulated heap after a collection']),
P('C07', 'Deleting a state frees exactly its own memory, once',
  'Deleting a state releases every block allocated on behalf of that state, each exactly once, whatever mixture of creation, growth, explicit deletion and collection preceded it. Objects of all other states stay alive and unchanged.',
  ['histories', 'schedules', 'inputs'], 'every interleaved history over up to six states, with deletion of any of them at any point, and every behaviour of the allocator',
  TESTS + 'They delete one state at the end and do not account for its memory.',
  ['state.c', 'cee-common.c', 'cee-resize.h', 'map.c', 'set.c', 'dict.c', 'list.c'],
  [('deletion of the whole trace chain', 'state.c:static S(trace), cee_del'), ('removal from the chain', 'cee-common.c / cee-resize.h de_chain')],
  [('trace_tail', 'end of the chain of objects of a state', 'state.c')], ['the simulated heap, per state']),
P('C08', 'Explicit deletion follows delete policies and reference counts exactly',
  'Deleting or releasing a container frees the container and exactly those members its delete policy gives it the right to free: all of them for deletion, those whose last reference it held for reference counting, none for no-operation. Adding an object to and removing it from containers keeps its reference count equal to the number of references to it.',
  ['histories', 'inputs', 'schedules'], 'every history of container operations and deletions on acyclic graphs under every combination of delete policies, and every behaviour of the allocator',
  TESTS + 'Each policy appears in at most one fixed script; shared members and policies of nested containers do not appear.',
  ['cee-common.c', 'list.c', 'map.c', 'set.c', 'tuple.c', 'triple.c', 'quadruple.c', 'n_tuple.c', 'stack.c', 'tagged.c'],
  [('policy dispatch', 'cee-common.c:cee_del_e, cee_decr_indegree'), ('per-container deletion', '*.c:case CEE_TRACE_DEL_FOLLOW')],
  [('rc, retained', 'reference count and ownership flag of every object', 'cee-header.h')], ['which blocks each deletion frees', 'get_in_degree']),
P('C09', 'Work on separate states is independent under every interleaving',
  'What a sequence of library calls on one state returns and leaves behind does not depend on what other threads do at the same time on other states. Under every interleaving of such call sequences each of them behaves as when it runs alone.',
  ['schedules', 'histories'], 'every interleaving, at the granularity of basic blocks, of up to three independent call sequences (containers, strings, JSON editing, parsing, printing, loading and saving, collection) on their own states and files',
  'No test uses more than one thread of control or more than one state at a time.',
  ['state.c', 'singleton.c', 'cee-json/value.c', 'cee-json/parser.c', 'cee-json/snprint.c', 'map.c', 'set.c'],
  [('no mutable data shared between states', 'whole library'), ('constant singletons', 'cee-json/value.c:cee_json_true, cee_json_null')],
  [('static buffers', 'storage of the constants true, false, null, undefined', 'cee-json/value.c')], ['results and object contents of each task']),
P('C10', 'A JSON document is exactly what its editing history says',
  'After any sequence of edits through the API (setting, appending, removing, renaming, inserting, concatenating, merging, listing) every way of looking at a document - lookup, path selection, recursive search, iteration, array access, typed conversion, compact and pretty printing - shows the value that a plain ordered-tree model of those edits implies. Sub-documents shared by several documents show every edit wherever they are reachable, and documents rooted in a state survive its collections unchanged.',
  ['histories', 'inputs', 'schedules'], 'every sequence of edits on several documents that may share sub-documents, with all value kinds, keys and strings of any UTF-8 text without NUL, finite numbers, nesting up to several hundred levels, and every behaviour of the allocator',
  'One test parses and prints a fixed set of files; the editing, selection and merging functions are not called by any passing test.',
  ['cee-json/value.c', 'cee-json/snprint.c', 'map.c', 'list.c', 'tagged.c', 'singleton.c'],
  [('object and array editing', 'cee-json/value.c'), ('path selection', 'cee-json/value.c:cee_json_select'), ('two-pass printing', 'cee-json/snprint.c:cee_json_snprint, cee_json_asprint')],
  [('tagged value', 'type tag and payload of a JSON value', 'cee-json/cee-json.h:struct cee_json')], ['cee_json_select, cee_json_has, iterations, conversions', 'printed text']),
P('C11', 'Saved JSON documents are read back equal or the failure is reported',
  'When saving reports success the file holds the whole document, and loading it - by descriptor, stream or path - returns an equal document; when an open, status, read or write operation fails or is cut short for good, the call reports failure instead of returning a partial or wrong document, and short or interrupted reads that can be continued are continued. After a crash the loaders return what the surviving bytes say or report failure, and never crash or read outside the file contents.',
  ['fault_sequences', 'crash_points', 'inputs', 'histories'], 'every document of finite numbers and text without NUL, every sequence of saves and loads of several files, every placement of I/O faults (short and interrupted reads and writes, I/O errors, full disk, failing open and status calls) and of crashes that lose, tear or reorder unsynced writes',
  'The tests read well-formed files from a healthy disk and never save.',
  ['cee-json/value.c', 'cee-json/snprint.c', 'cee-json/parser.c'],
  [('whole-file load', 'cee-json/value.c:cee_json_load_from_fileno'), ('single-write save', 'cee-json/value.c:cee_json_save_fileno')],
  [('file contents', 'bytes on the simulated disk', 'sim/fs.cpp')], ['returned documents and status', 'bytes on the simulated disk']),
P('C12', 'The JSON parser accepts exactly well-formed text and stays inside its input',
  'Any strictly valid document nested at most 500 deep is accepted with exactly its value; anything accepted is well-formed under the documented leniencies and has the value those bytes denote; anything else, in particular every truncated or damaged document, is rejected with an error and no document. The parser never reads or writes outside the given bytes, terminates, and leaves the state usable.',
  ['inputs', 'fault_sequences'], 'every byte buffer of the given length with no terminator after it, obtained by generating documents and then truncating, flipping, inserting, duplicating, swapping and tearing their bytes, whole-document or prefix mode',
  'The test corpus is a fixed list of files, each followed by a terminator, and checks only accept or reject, not the value.',
  ['cee-json/tokenizer.c', 'cee-json/parser.c', 'cee-json/value.c'],
  [('tokenizer bounds', 'cee-json/tokenizer.c'), ('pushdown automaton', 'cee-json/parser.c:cee_json_parsex'), ('escape and UTF-8 validation', 'cee-json/tokenizer.c:json_string_unescape')],
  [('state stack', 'nesting of open containers', 'cee-json/parser.c')], ['result code, document, memory accesses']),
P('C13', 'Merging JSON files writes the complete merge or reports failure',
  'When merging a list of JSON files reports success, the target file contains exactly the recursive merge of the inputs in order, with the list of inputs recorded under its documented key, and the inputs are unchanged. If any input cannot be opened, read or parsed, or the target cannot be written completely, failure is reported, the target is not touched unless writing it had begun; in every case no file stays open and no memory stays allocated.',
  ['fault_sequences', 'crash_points', 'inputs'], 'every list of input files (valid with numbers in the range of a double, damaged, missing, repeated), every placement of I/O faults and of a crash during the merge',
  'No test calls the function.',
  ['cee-json/cee_json_merge.c', 'cee-json/value.c', 'map.c'],
  [('load, merge, save pipeline', 'cee-json/cee_json_merge.c:cee_json_merge_all'), ('recursive merge', 'cee-json/value.c:cee_json_merge')],
  (), ['result code', 'bytes of all files on the simulated disk', 'open descriptors']),
P('C14', 'Running out of memory stops the program or is reported, never corrupts',
  'When an allocation fails at any point of any call, either the call stops the process or it reports failure; it never returns a wrong result, never writes to memory it does not own, and what was built before is intact as long as the process runs.',
  ['fault_sequences', 'histories'], 'every failing allocation (a single one or all from some point on) in every history of container, string and JSON calls',
  'Tests cannot make an allocation fail.',
  ['state.c', 'str.c', 'list.c', 'map.c', 'set.c', 'dict.c', 'musl-tsearch.c', 'musl-hsearch.c', 'cee-json/tokenizer.c', 'cee-json/parser.c', 'cee-json/snprint.c', 'cee-json/value.c'],
  [('allocation checks', 'cee-common.c, musl-tsearch.c, musl-hsearch.c')], (), ['results and contents after the fault, simulated heap']),
P('C15', 'Acknowledged database writes survive crashes; failed ones leave nothing',
  'A write through the SQLite binding (insert, update, delete, also grouped in a transaction) that is reported as done is in the database after any later crash and restart, and one that is reported as failed or was not committed has left no part of itself. Reported row ids and row counts are those of the write itself.',
  ['crash_points', 'fault_sequences', 'histories', 'schedules'], 'every history of writes over up to three connections, every crash point with loss, tearing and reordering of unsynced writes, and every placement of I/O errors, full disk, lock contention and allocation failure',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c', 'sqlite3/cee-sqlite3.h'],
  [('write wrappers', 'sqlite3/cee-sqlite3.c:cee_sqlite3_insert, cee_sqlite3_update, cee_sqlite3_delete'), ('statement execution', 'sqlite3/cee-sqlite3.c:cee_sqlite3_bind_run_sql')],
  (), ['result codes and status documents', 'database contents after recovery']),
P('C16', 'Database initialisation scripts apply entirely or not at all',
  'Initialising a database with a script inside a transaction leaves either all effects of the script or none, whatever statement fails and wherever the process crashes, and it returns a usable connection exactly when it succeeded. A failed open is reported without a crash, and dropping all tables removes every table, index and trigger or changes nothing.',
  ['crash_points', 'fault_sequences', 'inputs'], 'every script (including ones that fail at any statement), every crash point and every placement of I/O errors, full disk and lock contention, with and without an existing connection',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c'],
  [('transactional script execution', 'sqlite3/cee-sqlite3.c:cee_sqlite3_init_db'), ('schema removal', 'sqlite3/cee-sqlite3.c:cee_sqlite3_drop_all_tables')],
  (), ['database contents after recovery', 'returned connection']),
P('C17', 'Upserts and lookups-or-inserts do exactly what they report',
  'Update-or-insert, update-if-exists, update and select-or-insert change exactly the rows that match, insert only when a lookup that succeeded found no row, and report success exactly when that happened, with the row id of an insertion, the found row of a lookup, and the row count of an update (update-or-insert reports none), in the status it is given. When the lookup or the write fails nothing is changed and the failure is reported.',
  ['histories', 'fault_sequences', 'schedules'], 'every history of these calls over up to three connections to one database, interleaved call by call, with every placement of lock contention, I/O errors, full disk and allocation failure',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c'],
  [('lookup followed by write', 'sqlite3/cee-sqlite3.c:cee_sqlite3_update_or_insert, cee_sqlite3_update_if_exists, cee_sqlite3_select1_or_insert')],
  (), ['result codes and status documents', 'database contents']),
P('C18', 'Database queries return exactly the matching rows or an error',
  'A query returns exactly the rows of the database that match, in query order, with every column under its name and of its type, less the columns declared not to be returned; a single-row query returns the first of them. If reading fails at any row the failure is reported instead of an incomplete result, and every query terminates.',
  ['histories', 'fault_sequences', 'inputs'], 'every table contents (integers, doubles, texts, blobs, NULLs), query and column declaration, every placement of I/O errors, lock contention and allocation failure before and between rows, and every early stop',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c'],
  [('row loop', 'sqlite3/cee-sqlite3.c:cee_sqlite3_select_iter'), ('row conversion', 'sqlite3/cee-sqlite3.c:get_a_row')],
  (), ['returned documents, result codes and errors']),
P('C19', 'Values bound from JSON are stored and read back unchanged',
  'When storing a JSON object through the binding is reported without an error, the row holds exactly the values of the keys the binding declares, with the declared defaults for missing ones and NULL where NULL is allowed, and selecting it returns them unchanged. Keys the binding does not declare are reported, values of the wrong type are reported as errors, and a statement with a parameter that the binding does not declare is refused without any effect.',
  ['inputs', 'histories', 'fault_sequences'], 'every JSON object and binding declaration (integers of both sizes, texts of any length and bytes except NUL, NULLs, defaults, missing, unknown and ill-typed keys), static, dynamically composed and generated statements, one object or an array of them',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c', 'sqlite3/cee-sqlite3.h'],
  [('binding from JSON', 'sqlite3/cee-sqlite3.c:populate_usage, cee_json_to_bind_info, collect_colums_values'), ('dynamic statements', 'sqlite3/cee-sqlite3.c:compose_dyn_stmts, cee_sqlite3_generic_opcode'), ('parameter binding', 'sqlite3/cee-sqlite3.c:cee_sqlite3_bind_run_sql')],
  (), ['stored rows', 'status documents']),
P('C20', 'Database calls release every statement and lock, also when they fail',
  'After every call of the SQLite binding, successful or failed at any point, no statement of that call is left open on the connection and no database lock is left behind, so other connections can write and the connection can be closed.',
  ['fault_sequences', 'histories', 'schedules'], 'every history of binding calls over up to three connections and every placement of errors: malformed and unbound statements, constraint violations, I/O errors, full disk, lock contention, allocation failure, early stop of an iteration',
  'No test touches the SQLite part.',
  ['sqlite3/cee-sqlite3.c', 'sqlite3/join.c'],
  [('finalisation of statements', 'sqlite3/cee-sqlite3.c:cee_sqlite3_bind_run_sql, cee_sqlite3_select_iter')],
  (), ['open statements and lock level of every connection after each call']),
P('C21', 'Joining query results into JSON documents attaches exactly the matching rows',
  'Joining a table into an object or an array of objects attaches to each object exactly the rows that match that object, under the requested key or merged into it, and named selection stores the result under its name, merging with what is already there. An object that lacks the join value, has one of an unusable type, or whose query fails is reported as an error at that object, and the objects before it keep their results.',
  ['histories', 'inputs', 'fault_sequences'], 'every array of objects, tables, join declarations and every placement of I/O errors, lock contention and allocation failure',
  'No test touches the SQLite part.',
  ['sqlite3/join.c', 'sqlite3/cee-sqlite3.c'],
  [('per-object binding and query', 'sqlite3/join.c:join_one'), ('named results', 'sqlite3/cee-sqlite3.c:cee_sqlite3_select_as, cee_sqlite3_select1_as')],
  (), ['resulting documents']),
P('C22', 'Environments and closures resolve the innermost binding',
  'Looking a variable up in an environment returns the value most recently bound to it in the innermost enclosing environment that binds it, or nothing if none does. A closure is called with its own environment and its arguments, and both stay valid across collections while they are reachable.',
  ['histories', 'schedules'], 'every history of environments with shared outer frames, shadowed and updated variables, closures and collections, and every behaviour of the allocator',
  TESTS + 'Environments are not used by a passing test.',
  ['env.c', 'closure.c', 'map.c', 'state.c'],
  [('frame chain lookup', 'env.c:cee_env_find'), ('closure call', 'closure.c:cee_closure_call')],
  [('outer, vars', 'the enclosing environment and the bindings of a frame', 'env.c')], ['cee_env_find', 'cee_closure_call']),
P('C23', 'Managed databases are created, restored and migrated as their scripts say',
  'Initialising a managed database (cee_dbm_db_init) creates it with the script of the requested version when it is missing, has nothing in it or is to be recreated, restores and customises its data when asked to, in a call that creates, leaves an existing one as it is otherwise, applies the migration script of the version it then has, returns whether it created it and the version it has. A step that fails or that a crash cuts off stops the process with the earlier steps kept, and a script that is one transaction applies entirely or not at all; the next call goes on from there. The log records every step in order before it is carried out and survives crashes. Backups, openings and attachments concern exactly the named file, with paths of every permitted length, report what happened, and leave nothing open; descriptions stay inside their buffers.',
  ['crash_points', 'fault_sequences', 'histories', 'inputs'], 'every set of scripts (transactional or not, failing or not, missing) and paths, every history of calls on two databases that share a directory and a log, every crash point and every placement of I/O errors, full disk, lock contention, allocation failure and failing mkdir or dump command',
  'No test touches the database manager; it is not even compiled by the project\'s own build.',
  ['sqlite3/cee_dbm.c', 'sqlite3/cee_dbm.h', 'sqlite3/cee-sqlite3.c'],
  [('life cycle of a database', 'sqlite3/cee_dbm.c:cee_dbm_db_init'), ('application of a script', 'sqlite3/cee_dbm.c:my_apply_script'), ('backup', 'sqlite3/cee_dbm.c:cee_dbm_db_backup'), ('paths and descriptions', 'sqlite3/cee_dbm.c:cee_dbm_path_info_normalize, cee_dbm_path_info2str, cee_dbm_db_info2str')],
  [('user_version', 'version of a database, decides on its migration', 'the database file')],
  ['contents of the databases and of the log after every commit and every restart', 'returned values', 'the dump command', 'open connections']),
]
