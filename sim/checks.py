WRAP_ALLOC = 'malloc calloc realloc free strdup strndup reallocarray posix_memalign aligned_alloc'.split()
WRAP_FS = ('open open64 openat creat close read pread pread64 write pwrite pwrite64 readv writev lseek lseek64 fstat fstat64 stat stat64 lstat access mkdir unlink rename ftruncate ftruncate64 fsync fdatasync '
           'fopen fopen64 fdopen freopen fclose fileno fileno_unlocked dprintf vdprintf remove perror dup').split()


def check(src, technique, note, json=False, modules=(), level='exploration', **kw):
    d = dict(src=src, json=json, modules=list(modules), level=level, technique=technique, note=note)
    d.update(kw)
    return d


HEAP = 'simulated heap with seeded placement, reuse, moving realloc and fill; every access of the library checked; step bound against hangs'
GRAPH = 'Histories build acyclic graphs of all object kinds; cyclic graphs are outside the property. Bounded: about 60 operations and 60 objects per run.'
SQL = dict(json=True, modules=['vfs'], extra_code=['sqlite3/cee-sqlite3.c', 'sqlite3/join.c'], libs=['-lsqlite3'], variants=False)
SQLT = 'seeded histories over several connections to one database on a simulated disk with I/O faults, lock contention, allocation failures and crashes; '
SQLN = 'SQLite itself runs for real over a simulated VFS and allocator, rollback journal in DELETE mode, default synchronous setting. Up to three connections, about 80 calls per epoch, four crashes.'
CHECKS = {
    'C01': check('h_seq.cpp', 'seeded operation histories against vector models, ' + HEAP, 'Step-by-step refinement against vectors, up to 400 operations per run.'),
    'C02': check('h_map.cpp', 'seeded operation histories against an ordered-map model, ' + HEAP, 'Step-by-step refinement against an ordered map, four comparison functions, up to 700 keys, comparison counts bounded by the AVL bound.'),
    'C03': check('h_set.cpp', 'seeded operation histories against std::map models, ' + HEAP, 'Step-by-step refinement against std::map, up to 500 keys, comparison counts bounded by the AVL bound.'),
    'C04': check('h_str.cpp', 'seeded operation histories against std::string, ' + HEAP, 'Step-by-step comparison with std::string, lengths biased to block boundaries.'),
    'C05': check('h_graph.cpp', 'seeded graph-rewiring histories with collections at arbitrary points against a reachability model, ' + HEAP, GRAPH),
    'C06': check('h_graph.cpp', 'seeded graph-rewiring histories with collections at arbitrary points; every free compared with a reachability model, ' + HEAP, GRAPH),
    'C07': check('h_graph.cpp', 'seeded histories over several states, heap accounted per state, ' + HEAP, GRAPH),
    'C08': check('h_graph.cpp', 'seeded histories with delete policies against an executable ownership model, ' + HEAP, GRAPH + ' Exclusive ownership under the deletion policy, as the library requires.'),
    'C22': check('h_graph.cpp', 'seeded histories of environments and closures against a frame-chain model, ' + HEAP, GRAPH),
    'C10': check('h_json.cpp', 'seeded editing histories over documents with shared parts against a tree model with identities; printed text read by an independent parser, ' + HEAP, 'Up to 400 operations and 30 documents per run, nesting up to 700. cee_json_snprint is only given buffers of the size it asked for.', json=True, modules=['fs'], defs=['-DSIM_FS=1']),
    'C12': check('h_parse.cpp', 'seeded texts with seeded damage (truncation, bit flips, lost, duplicated, swapped, zeroed and torn bytes) parsed from exact-size buffers; accept, reject and value against an independent parser, ' + HEAP, 'Leniencies of the grammar that the check accepts without requiring them: trailing commas, leading zeros before a fraction or exponent, a lone first surrogate at the end of a string, unvalidated bytes from 0x80 on in strings without escapes, a final comment that ends in NUL. Strings with an escaped NUL are only checked for memory safety.', json=True),
    'C11': check('h_file.cpp', 'seeded save and load histories over a simulated disk with I/O faults and crashes; bytes and documents against an independent parser and tree model, ' + HEAP, 'Files up to 140 kB, nesting up to 450. The crash model loses, keeps, tears or zeroes 512-byte sectors of unsynced writes.', json=True, modules=['fs']),
    'C13': check('h_file.cpp', 'seeded merge histories over a simulated disk with I/O faults and crashes; target bytes against a recursive merge model, ' + HEAP, 'Four input files of up to 140 kB. The order of members that a merge adds is the library\'s choice.', json=True, modules=['fs']),
    'C14': check('h_oom.cpp', 'seeded histories with an injected allocation failure against the models of the other checks, ' + HEAP, 'One failing allocation or all from some point on, at a log-uniform position in histories of up to a few hundred operations. A stop of the process means cee_segfault or a dereference of a NULL pointer.', json=True),
    'C09': check('h_iso.cpp', 'two or three call sequences on separate states and files, interleaved at basic blocks by a seeded scheduler, each against its own model, ' + HEAP, 'Switches happen at basic blocks of the library, allocations and file calls, and in the second variant also before every access to data that is not on the stack or the heap; memory is sequentially consistent. Up to three tasks.', json=True, statics=True, modules=['fs']),
    'C15': check('h_sql.cpp', SQLT + 'every commit compared with an executable model of the call and the database after every restart', SQLN, **SQL),
    'C16': check('h_sql.cpp', SQLT + 'schema and rows compared with an executable model of the script after every commit and every restart', SQLN + ' The process may stop (cee_segfault) when a script fails, as the library does.', **SQL),
    'C17': check('h_sql.cpp', SQLT + 'lookup, write and report of every call compared with an executable model over the versions of the database during the call', SQLN, **SQL),
    'C20': check('h_sqlall.cpp', SQLT + 'open statements and locks inspected after every call', SQLN, **SQL),
    'C18': check('h_sqlq.cpp', SQLT.replace(' and crashes', '') + 'every result compared with SQLite\'s own answer on an in-memory copy of each version committed meanwhile', SQLN.replace('about 80 calls per epoch, four crashes', 'one epoch of about 60 calls'), **SQL),
    'C19': check('h_sqlq.cpp', SQLT.replace(' and crashes', '').replace('several connections', 'connections') + 'stored rows, reports and rows read back compared with an executable model of the binding', SQLN.replace('about 80 calls per epoch, four crashes', 'one epoch of about 80 calls'), **SQL),
    'C23': check('h_dbm.cpp', SQLT.replace('several connections to one database', 'two managed databases and their log') + 'every commit of a database and every log entry compared with an executable model of the call, the databases after every restart', SQLN.replace('Up to three connections, about 80 calls per epoch, four crashes', 'Two databases, about 24 calls per epoch, eight crashes') + ' Directories and the backup command are simulated.',
                 **dict(SQL, extra_code=SQL['extra_code'] + ['sqlite3/cee_dbm.c'], extra_flags=['-D%s=sim_dbm_%s' % (x, x) for x in ('access', 'stat', 'mkdir', 'system', 'exit', 'perror', 'open')])),
    'C21': check('h_sqlq.cpp', SQLT.replace(' and crashes', '') + 'every element of the joined document compared with SQLite\'s own answer on an in-memory copy of each version committed meanwhile', SQLN.replace('about 80 calls per epoch, four crashes', 'one epoch of about 40 calls'), **SQL),
}
