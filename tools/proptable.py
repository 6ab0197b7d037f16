LANG = "tests/lang.c runs a few hundred fixed expressions with literal operands"

prop("C01", "Elementwise arithmetic equals per-element arithmetic with nulls",
     "For +, -, *, /, div, % and xbar on numeric and temporal operands, and neg, round, floor, ceil on numeric ones, the result has the documented type and length and each element equals the operation applied to the corresponding elements (an atom pairs with every element), with a null operand or a zero divisor giving null, for every operand shape, size, core count, and whether operands are literals, variables or intermediate results. "
     "Overflowing positions are left open. Operands are never changed; vectors of different lengths and symbol, guid or char operands are refused with an error; a list operand is treated item by item.",
     ["inputs", "configurations"],
     "every operation, type pair, atom/vector shape, length (including across the parallel threshold), value incl. nulls and extremes, core count",
     LANG + ": a handful of values per type pair, nearly all short; the type x shape x null x size space is not sampled",
     ["core/math.c", "core/ops.h", "core/order.c", "core/pool.c"],
     [("per type-pair kernels and result-type inference", "core/math.c infer_math_type, ray_*_partial"),
      ("null-aware scalar macros and conversions", "core/ops.h"), ("buffer reuse and chunked parallel map", "core/math.c binop_map, unop_map")],
     T + " against a scalar reference model", "Random search over operation, types, shapes, nulls, sizes and cores with an exact scalar oracle; float / and % within tolerance.")
prop("C02", "Comparisons and boolean logic are element-by-element and null-consistent",
     "==, !=, <, <=, >, >= give one boolean per element, where a null equals a null and sorts before every value, operands of different numeric (or date/timestamp) types compare by the value they stand for, strings and guids compare bytewise, and an enumeration compares as the symbols it stands for. "
     "and, or, not combine booleans element-wise, atoms extending over vectors. None of them changes an operand, for any shape, size, operand source or core count; vectors of different lengths and incomparable types are refused.",
     ["inputs", "configurations"],
     "every comparison, comparable type pair, shape, length, position of nulls, number of and/or operands, core count",
     LANG + "; null positions, mixed types and chunked execution are hardly touched",
     ["core/cmp.c", "core/logic.c", "core/ops.h"],
     [("typed comparison kernels", "core/cmp.c __CMP_*"), ("null-aware comparison macros", "core/ops.h EQ*/LT*/GT*"), ("chunked and/or", "core/logic.c")],
     T + " against a scalar reference model", "Random search with an exact oracle; symbol ordering is not covered (it is by interning order).")
prop("C03", "Aggregates summarise exactly the non-null elements",
     "sum, avg, med, dev, min and max of a vector use every non-null element exactly once and ignore nulls (sum of none is 0, the others null), count is the length, and first/last are the end elements, with the documented result type. "
     "The result does not depend on length, chunking or core count beyond float rounding; an aggregate of a list is the list of aggregates; types without arithmetic are refused; the operand is not changed. Sums that exceed the result type are left open.",
     ["inputs", "configurations"],
     "every aggregate, element type, length (across the parallel threshold), null pattern, core count",
     LANG + "; the tests use short vectors, one core and few null patterns",
     ["core/math.c", "core/items.c", "core/pool.c"],
     [("chunked fold and folding of partial results", "core/math.c unop_fold, binop_fold, ray_cnt"), ("null-aware fold macros", "core/ops.h FOLD_*, CNT*, MIN*, MAX*"),
      ("average, median, deviation", "core/math.c ray_avg, ray_med, ray_dev")],
     T + " against a reference model", "Random search with an exact integer/rational oracle and stated float error bounds.")
prop("C04", "Sorting gives a stable ordered permutation of its input",
     "iasc, idesc, asc, desc, rank and xrank of a vector or list give the stable order of its elements (nulls first when ascending, symbols by text, ties in original order both ways), of a dictionary the keys or the dictionary ordered by values, and xasc/xdesc reorder whole rows of a table by the key columns in order of significance. "
     "The result depends on the value only: not on length, algorithm, core count, nor on how the value came about (a sorted, reversed, altered, filtered or concatenated vector). Nothing is lost or duplicated, the operand is not changed, and values without an order are refused.",
     ["inputs", "operation histories", "configurations"],
     "every ordering function, element type, length on both sides of the algorithm and parallel thresholds, null/duplicate pattern, and history of operations leading to the operand",
     LANG + "; algorithm choice depends on length, range and a sorted flag carried along by earlier operations, which fixed cases cannot cover",
     ["core/sort.c", "core/order.c", "core/ops.h", "core/rayforce.h"],
     [("sort kernels and their dispatch", "core/sort.c"), ("ordering verbs and shortcuts on the sorted attributes", "core/order.c"),
      ("sorted/distinct attributes", "core/rayforce.h ATTR_*")],
     T + " against a reference model", "Random search with an exact oracle plus a differential between values with a history and fresh equal values.")
prop("C05", "Searching, set operations and grouping agree with element-by-element search",
     "find gives the first position of each sought element (null when absent), in gives membership (integers of different widths compare by value), distinct and union give each element of their operands exactly once (nulls dropped for the 4/8-byte integer-like types), sect and except keep the elements of the first operand that are, or are not, in the second, in order. "
     "group maps each distinct element, in order of first appearance, to the ascending positions holding it; bin and binr locate elements in a sorted vector; within tests a closed range. "
     "This holds for every element type, value range, length and core count, however the operands came about; undefined type combinations are refused and operands are never changed.",
     ["inputs", "operation histories", "configurations"],
     "every operation, element type(s), value range/cardinality (direct-lookup and hash algorithms), length, null pattern, core count, operand history",
     LANG + "; which algorithm runs (bitmap, range table, hash, radix, sorted shortcut) depends on ranges, lengths and flags the fixed cases do not vary",
     ["core/items.c", "core/index.c", "core/hash.c", "core/compose.c", "core/sort.c"],
     [("search/membership/distinct/group kernels by range or hash", "core/index.c index_find_*, index_in_*, index_distinct_*, index_group_*"),
      ("open-addressing hash tables and their growth", "core/hash.c"), ("verbs and their dispatch", "core/items.c, core/compose.c")],
     T + " against a reference model", "Random search with an exact oracle, algebraic laws on large vectors, differential on operand history; the order of distinct/union results is left open.")
prop("C06", "Sequence, dictionary and table operations move elements and nothing else",
     "take (counts of either sign, repeating, and ranges), concat, reverse, raze, at (one or many indices, negative from the end, null when out of range), filter, where, til, remove, enlist, unify, diverse, and dict/table construction, lookup, concatenation and row selection return exactly the selected elements in the defined order and type, for every element type, mixed lists, any size and core count. "
     "Through any sequence of such operations on shared variables every variable keeps its own value, and the result depends on operand values only. Arguments outside the definition are refused.",
     ["inputs", "operation histories", "configurations"],
     "every operation, element type, length, index/count, and every sequence of operations on variables sharing structure",
     LANG + "; per-type copies of each loop, sharing between variables and large sizes are sampled at a few points only",
     ["core/items.c", "core/compose.c", "core/rayforce.c", "core/filter.c"],
     [("per-type take/at/filter/remove", "core/items.c, core/rayforce.c at_idx, at_ids, remove_idx"), ("concat, raze, reverse, table, dict", "core/compose.c"),
      ("copy-on-write and unification of lists", "core/rayforce.c cow_obj, unify_list")],
     T + ", model-based", "Single operations and random pipelines against a Python model, differential on operand history; a share under AddressSanitizer.")
prop("C07", "Literals denote what they say and the printed form shows the exact value",
     "Source text of a literal of any type (numbers, dates, times, timestamps, symbols, characters, strings with escapes, vectors, lists, dictionaries), in any layout of whitespace and comments, evaluates to exactly the written value, and text that denotes no value of its form (out of range, unknown escape, mixed vector, unclosed bracket) is refused. "
     "The printed form of a value, and format with its % placeholders, is the documented rendering of exactly that value (abbreviated only past the documented width and height), a printed table shows every cell of the rows it shows and the true row and column counts, and the printed form of numbers, booleans, dates, times, timestamps, symbols in vectors, strings and characters reads back as the same value.",
     ["inputs"],
     "every type, value (incl. nulls, extremes, calendar edges), nesting and layout of source text",
     LANG + "; calendar edges, escapes, widths and layouts are sampled at a few points",
     ["core/parse.c", "core/format.c", "core/string.c", "core/date.c", "core/time.c", "core/timestamp.c"],
     [("tokeniser and literal readers", "core/parse.c parse_*"), ("number readers", "core/string.c *_from_str"), ("printers", "core/format.c *_fmt_into, obj_fmt_n"),
      ("calendar conversions", "core/date.c, core/time.c, core/timestamp.c")],
     T + " against a reference reader and printer, and round trip", "Random search with an exact oracle (Python's calendar and printf); floats within 1e-12 when read, two decimals when printed.")
prop("C14", "A select gives exactly the filtered rows, their groups and per-group values",
     "A select returns, for the rows of the table that satisfy where, one row per distinct key (a column, an expression, or several named keys; nulls are a key value) with each mapping evaluated on exactly that group's rows, or without by one value or one row per filtered row; without mappings it gives all columns (the first row of each group). "
     "sum, avg, min, max, med, dev, count, first and last of a group equal the same function of the group's column, raw columns give the group's values in row order, and expressions, lambdas and constants combine them. "
     "This holds for every key and column type, key distribution, filter, table size and core count, take selects rows of the result, and the table itself is unchanged.",
     ["inputs", "configurations"],
     "every table content (types, nulls, key cardinality and range), filter, key form, mapping, take and core count",
     "tests run a few fixed tables; which grouping algorithm (shifted range table, hash, combined perfect hash, radix partitioning) and which chunking runs depends on key ranges, sizes and cores they never vary together with a filter",
     ["core/query.c", "core/index.c", "core/group.c", "core/filter.c", "core/aggr.c"],
     [("query evaluation", "core/query.c ray_select"), ("group indices", "core/index.c index_group*, index_group_list*"), ("grouped aggregates", "core/aggr.c aggr_*"),
      ("lazy filtered/grouped columns", "core/filter.c, core/group.c")],
     T + " against a reference query evaluator", "Random search with an exact oracle; group order is left open, float aggregates within rounding; a share under AddressSanitizer.")
prop("C15", "insert, upsert, update, alter and modify make exactly the asked change",
     "Through any history of insert, upsert and update (plain, with where, with by) on a table, the table equals its reference: records and batches given by position, by name or as a table land in the right columns with nulls for the missing ones, upsert replaces the row with the same key or appends it once, update touches exactly the rows its filter and groups select, all from the values before the update. "
     "alter and modify change exactly the addressed element of a nested value. Applied to a symbol the variable changes, applied to a value a new one is returned and nothing else changes; a refused operation changes nothing, and aliases made earlier keep their value.",
     ["operation histories", "inputs", "configurations"],
     "every sequence of table and element changes, column types, key forms, record shapes, filters, refused operations between them, table size and core count",
     "tests apply one or two changes to one small table; sharing between aliases, partial application of refused changes and duplicate/null keys need histories",
     ["core/update.c", "core/rayforce.c", "core/index.c"],
     [("insert/upsert/update/alter/modify", "core/update.c"), ("in-place element changes and copy-on-write", "core/rayforce.c set_ids, set_obj, push_obj, cow_obj"), ("key lookup for upsert", "core/index.c index_upsert_obj")],
     T + ", stateful model-based", "Random histories against a Python model of a table and of nested values; a quarter under AddressSanitizer.")
prop("C08", "Casts and text conversions keep the value, and the clock verbs tell the time",
     "Casting between boolean, integer, float, date, time and timestamp types gives the same number whenever the target type can hold it (floats truncate toward zero, nulls stay nulls, boolean means not zero), alike for atoms, vectors of any size and origin, and list elements; casts that lose nothing undo each other and commute with selection. "
     "Text that spells a value of a type casts to that value and text that spells none to the null; printing and casting back is the identity for integers, dates, times, timestamps, guids and symbols. "
     "date, time and timestamp show the system clock in local time or, with 'utc or 'global, UTC.",
     ["inputs", "configurations"],
     "every source and target type, value (incl. nulls, extremes), shape, origin of the operand, text form, and process time zone",
     "each of the ~80 conversion loops exists separately for atoms and vectors; tests use two or three benign values of each and never a zone other than the host's",
     ["core/rayforce.c", "core/compose.c", "core/ops.h", "core/date.c", "core/time.c", "core/timestamp.c", "core/string.c"],
     [("casts", "core/rayforce.c cast_obj, core/compose.c ray_cast_obj"), ("text readers", "core/string.c *_from_str, date_from_str, time_from_str, timestamp_from_str"), ("clock", "core/timestamp.c timestamp_current")],
     T + " against a reference model, and round trip", "Random search with an exact oracle; values that do not fit the target type are left open.")
prop("C09", "Serialised values read back equal, and equal values give equal bytes",
     "For every value built from atoms, vectors, lists, dictionaries, tables and functions (any nesting, nulls, empties, any length and operand history), de of ser gives a value of the same type and content, in the same and in another process, and a function read back computes the same results. "
     "Equal values give equal bytes whatever history made them. A value holding something that has no serialised form is refused as a whole and left unchanged.",
     ["inputs", "operation histories"],
     "every serialisable value, nesting, length and operand history, and functions of any body",
     "tests serialise a handful of small values; the reader and writer are two independent recursions that must agree for every type at every depth, and sizes are computed by a third",
     ["core/serde.c", "core/lambda.c", "core/env.c"],
     [("size, writer, reader", "core/serde.c size_obj, save_obj, load_obj"), ("functions by name and by source", "core/env.c env_get_internal_*, core/lambda.c")],
     T + ", round trip (same and second process) and differential on operand history", "Random values from a type grammar; bytes compared for equal values of different history.")
prop("C10", "Reading corrupted or hostile serialised bytes is safe",
     "Reading bytes that were truncated, extended, altered, or made up (any counts, types, nesting depth) either is refused with an error or gives a proper value that can be printed, serialised and read back as itself; it never crashes, reads or writes outside the data, hangs, or leaves memory behind. "
     "A truncation or extension of serialised data is always refused.",
     ["inputs"],
     "every byte string; every alteration of serialised values, lengths and type bytes up to the extremes, nesting up to millions of levels",
     "tests read only well-formed bytes they wrote themselves; the data comes from other processes (IPC, files)",
     ["core/serde.c"],
     [("reader", "core/serde.c load_obj, de_raw, de_obj"), ("function reader", "core/serde.c, core/lambda.c")],
     T + ", mutation and grammar fuzzing under AddressSanitizer", "Mutations of serialised values and payloads from a grammar of their own; memory safety by AddressSanitizer, leaks by allocator accounting.")
prop("C11", "Any source text is safe to parse and means what its own bytes say",
     "Any byte string, of any length and bracket depth, complete or cut anywhere, either parses to a value or is refused with an error that can be printed with its location; parsing never crashes, reads beyond the text, hangs, or leaves memory behind. "
     "The outcome depends on the bytes of the text alone: not on what lies after it in memory, nor on blank space or comments around it. The evaluator remains usable after any text.",
     ["inputs"],
     "every byte string: token soup, mutations and cuts of valid programs, nesting from one to hundreds of thousands of levels",
     "tests parse well-formed, NUL-terminated texts; texts come from sockets, files and variables that are not",
     ["core/parse.c", "core/format.c", "core/string.c", "core/eval.c"],
     [("tokeniser and readers", "core/parse.c parser_advance, parse_*"), ("error locations", "core/format.c error_frame_fmt_into, core/nfo.c")],
     T + ", grammar and mutation fuzzing under AddressSanitizer", "Texts placed in blocks of exactly their size; metamorphic relations on trailing memory and blanks; leaks by allocator accounting.")
prop("C13", "Any evaluation is safe and leaves other values alone",
     "Evaluating any expression over the builtin functions and any values - wrong types, lengths, ranges, missing columns, empty operands included - gives a value or an error: it never crashes, hangs, reads or writes outside its operands. "
     "A value it gives can be printed and stays the same when read again; no variable changes that the expression does not assign. The evaluator computes the same as before afterwards.",
     ["inputs", "operation histories"],
     "every composition of the builtins with operands of every type, shape and nesting, several evaluations in one process",
     "tests call functions with operands they are meant for; the type dispatch of ~200 builtins has thousands of combinations, and most damage shows only as memory read or written out of bounds",
     ["core/*.c"],
     [("all builtins", "core/env.c REGISTER_FN"), ("evaluator", "core/eval.c"), ("element access", "core/rayforce.c at_idx, at_ids, at_obj, ins_obj")],
     T + ", typed grammar fuzzing of calls under AddressSanitizer", "Random expressions from a generator that knows which operands fit each builtin; values nested up to a few levels (nesting of a million levels is a recorded finding).")
prop("C16", "Left and inner joins match exactly the rows with equal keys",
     "left-join keeps every left row in order and gives it the other columns of the first right row whose keys equal its own (nulls being equal to nulls), or typed nulls where there is none, a shared column keeping the left value then; inner-join keeps exactly the left rows that have a match. "
     "The key columns come first and keep their values. This holds for every key type, several keys, any sizes and duplicates, and does not depend on the operands' history or the number of cores; the operands stay unchanged.",
     ["inputs", "configurations"],
     "every pair of tables, key list (one or several columns of any type), duplicates, nulls, extremes, size and core count",
     "tests join two or three small tables on symbol or integer keys; the key hash and comparison are type-dispatched over one or several columns, the large case is partitioned over threads",
     ["core/join.c", "core/index.c", "core/rayforce.c"],
     [("joins", "core/join.c ray_left_join, ray_inner_join"), ("key lookup", "core/index.c index_left_join_obj, index_inner_join_obj"), ("gathering with nulls", "core/rayforce.c at_ids")],
     T + " against a reference join", "Random search with an exact oracle; a share under AddressSanitizer.")
prop("C17", "As-of and window joins use exactly the rows time and keys select",
     "asof-join gives every left row the last right row of equal keys whose time is not later than its own, or nulls if there is none. "
     "window-join1 computes each expression over exactly the right rows of equal keys whose time lies within the row's window, both ends included; window-join also includes the row prevailing when the window opens. "
     "This holds for every key and time type, any number of keys, windows that are empty, overlapping or reversed, any size and core count; the operands stay unchanged.",
     ["inputs", "configurations"],
     "every pair of tables, key list, time type, window bounds, aggregated expression, size and core count",
     "tests run a few trades and quotes on one or two symbols; boundaries (equal times, empty windows, before the first row, missing keys) and chunking are barely touched",
     ["core/join.c", "core/index.c", "core/aggr.c"],
     [("joins", "core/join.c ray_asof_join, ray_window_join*"), ("row lookup", "core/index.c index_asof_join_obj, index_window_join_obj"), ("aggregates over windows", "core/aggr.c window_rows, aggr_*")],
     T + " against a reference join", "Random search with an exact oracle; a share under AddressSanitizer. Right tables of asof-join are in time order within each key, as documented.")
prop("C12", "Programs give what the language defines, in every context",
     "A program built from literals, variables, let/set, functions (arguments, locals, self and mutual recursion, functions as values), if, do, and/or, try, raise, return, eval and the adverbs gives the value its definition says, with the same effects on globals, wherever it runs: at top level, compiled in a function, under an adverb, evaluated as data. "
     "An error carries the raised message to its handler, undoes nothing that was done, and leaves the evaluator usable; recursion of any depth gives its value or a refusal.",
     ["inputs"],
     "every program over the core of the language, each in several evaluation contexts, any recursion depth",
     "tests run fixed snippets; the compiler and the tree evaluator implement the same constructs twice, and errors, early returns and stack discipline interact in any combination",
     ["core/eval.c", "core/cc.c", "core/cond.c", "core/iter.c", "core/lambda.c"],
     [("virtual machine", "core/eval.c vm_eval, call, try_obj, ray_raise, ray_return"), ("compiler", "core/cc.c cc_compile"), ("adverbs", "core/iter.c")],
     T + " against a reference interpreter", "Random typed programs, exact comparison of values and globals; a share under AddressSanitizer.")
prop("C24", "Results do not depend on the number of cores",
     "pmap gives what map gives - values, errors with their context, the caller's variables seen, runs inside of runs - on any number of cores, and every operation that splits its work over threads gives the same as on one core (sums of floats up to rounding, the order of groups of several keys aside). "
     "A process with any number of cores starts, runs its script and exits.",
     ["inputs", "schedules", "configurations"],
     "every pure function and data size, core counts 1..32, repeated runs in one process under whatever schedules the machine gives",
     "tests run on one core and with small data, where no work is split; lost wake-ups, shared allocator state and chunk borders need many runs and sizes",
     ["core/pool.c", "core/heap.c", "core/iter.c", "core/thread.c"],
     [("thread pool", "core/pool.c pool_run, executor_run, pool_destroy"), ("per-thread heaps", "core/heap.c heap_borrow, heap_merge, heap_free"), ("parallel map", "core/iter.c pmap_*"), ("splitting", "pool_split_by and its callers")],
     T + ", differential between core counts and against a reference interpreter", "Schedules are those the operating system produces under load, not enumerated. Functions that assign globals from several threads are outside of the property (the code forbids it).")
prop("C23", "Evaluating leaves nothing behind",
     "Evaluating any expression or program any number of times, whether it gives a value or an error - from nested calls with wrong arguments, failed queries, raised errors, early returns, handlers - uses no memory beyond its result and what it assigns: when these are dropped the heap holds what it held before. "
     "Values passed as arguments keep exactly the references their variables hold.",
     ["inputs", "histories"],
     "every expression over every builtin and argument value (files, sockets and timers aside), every program of functions, adverbs, handlers and returns",
     "the tests never look at memory use; leaks sit on error and clean-up paths of which each needs a failing argument of its own",
     ["core/eval.c", "core/query.c", "core/update.c", "core/math.c", "core/vary.c", "core/rayforce.c"],
     [("reference counts", "core/rayforce.c clone_obj, drop_obj, rc_obj"), ("clean-up paths", "core/eval.c vm_eval, call_*; core/query.c query_ctx_destroy; core/update.c ray_update cleanup"), ("exact live bytes", "core/heap.c heap_memstat, heap_gc")],
     T + ", by exact accounting of live heap bytes and of reference counts", "Random search; the accounting is exact in bytes on the normal build, with one core.")
prop("C22", "The allocator keeps blocks apart and gives memory back",
     "A block keeps every byte written to it until it is given back or resized (a resize keeps the bytes both sizes have); live blocks never overlap, are aligned to 16 bytes, and an allocation of zero bytes gives nothing - for any history of allocating, resizing, freeing and collecting, also when blocks pass between the heaps of the main thread and of its workers. "
     "What the heap reports in use is exactly the blocks that are live, and nothing is in use once all are freed. "
     "A program that gives everything back can be repeated without its memory growing.",
     ["histories"],
     "every sequence of allocate, resize, free, collect, lend to workers and merge, every block size from one byte to pools above 32 MB",
     "tests/heap.c runs a handful of fixed short sequences on one heap; splitting, merging of buddies, block caches and lending interact over long histories",
     ["core/heap.c", "core/heap.h"],
     [("allocation and splitting", "core/heap.c heap_alloc, heap_split_block"), ("freeing and buddies", "core/heap.c heap_free, heap_coalesce_block"), ("resizing", "core/heap.c heap_realloc"), ("worker heaps", "core/heap.c heap_borrow, heap_merge"), ("collection and statistics", "core/heap.c heap_gc, heap_memstat")],
     T + ", stateful: programs of allocator operations against a model of the live blocks", "Random histories run on the real allocator in one thread (worker heaps are switched to, not raced); exhaustion of memory is not exercised.")
prop("C20", "CSV files keep tables",
     "write-csv then read-csv with the table's types gives back the table - every type, nulls, strings with separators, quotes, newlines and any bytes, any separator, any size - and the file itself is well-formed CSV with one line per row. "
     "read-csv reads the same rows from any equivalent spelling of a file: quoted or bare fields, LF or CRLF, with or without a final newline, read-only. "
     "Any other file gives a table or an error, the same on any number of cores, without losing memory.",
     ["inputs", "configurations"],
     "every table of CSV types and every byte content of files, every separator, core counts 1 and 4",
     "no test reads or writes CSV; correctness depends on the interplay of quoting, line splitting, type parsing and chunking",
     ["core/io.c", "core/string.c", "core/date.c", "core/time.c", "core/timestamp.c"],
     [("reader", "core/io.c ray_read_csv, io_build_line_index, parse_csv_*"), ("writer", "core/io.c ray_write_csv, csv_field_to_str")],
     T + " (round trip, and differential against a reference RFC 4180 reader)", "Random search with an exact oracle (floats within a few ulps: the number reader does not round correctly); a share under AddressSanitizer.")
prop("C21", "Connections deliver every message once, in order, to the right peer",
     "Whatever a process sends over a connection - text or values, requests or asynchronous messages, of any size, in any pieces, by any number of clients, with requests going back while one waits - is handled once and in the order sent, and each request gets its own answer: what evaluating the message there gives, as it survives serialisation, errors included. "
     "No peer disturbs another: one which leaves within a message, sends rubbish, wrong sizes or damaged values, does not read, or gets closed by its own message, leaves the server serving the others; a client gets an error when its server does so. "
     "Opened and closed connections are reported once, and conversations leave neither memory nor descriptors behind.",
     ["schedules", "histories", "faults"],
     "every history of connections, messages and disconnections of several clients, every cut of the byte streams, every malformed message",
     "no test opens a connection; the order of events, partial reads and writes, nested requests and disconnections only show in generated conversations",
     ["core/ipc.c", "core/epoll.c", "core/poll.c", "core/sock.c", "core/freelist.c", "core/io.c"],
     [("protocol", "core/ipc.c ipc_read_header, ipc_on_data, ipc_send"), ("event loop", "core/epoll.c poll_run, poll_block_on"), ("buffers", "core/poll.c poll_send_buf, poll_rx_buf_extend")],
     T + ": model-based histories of real processes and raw sockets, the reference being the same messages evaluated locally", "Random search over histories with an exact oracle; the schedules are those the loopback interface and the generated cuts and pauses give. Half of the servers and clients run under AddressSanitizer. Only the epoll back end is exercised.")
prop("C29", "Logs replay what was written, scripts do what their statements do",
     "Records appended to a log through file handles - any serialisable value, any number of handles and processes at once - are all kept, each process's in order, and replaying the log evaluates them in the order written, up to where a stopped machine cut the file: every complete record, nothing of an incomplete one, with a right account of both; a record which fails ends the replay with its error. "
     "Any other bytes give an account or an error and leave file and process unharmed. "
     "A script, loaded or run as a program, does what its statements do one after the other whatever the layout and comments, and a failing one is reported.",
     ["histories", "crash points", "inputs", "schedules"],
     "every history of appends, crashes (cuts at any byte) and replays, every damaged log, every script and layout",
     "no test writes a log or a script; record borders, cuts, interleavings and damage need generated histories",
     ["core/io.c", "core/serde.c", "core/fs.c", "core/eval.c", "app/main.c"],
     [("logs", "core/io.c ray_hopen, ray_write, ray_read"), ("scripts", "core/io.c ray_load, app/main.c")],
     T + ": histories against a model (the same records evaluated locally), cuts at any byte, mutated logs under AddressSanitizer", "Random search with an exact oracle. Crashes are modelled as truncation of the file; reordered or lost blocks are not modelled (logs have no checksums).")
prop("C25", "A symbol is its text, whoever made it",
     "Symbols made from the same text are the same and from different texts different - for ==, find, distinct and sorting - and show exactly the text they were made from, for every text and whatever made them: source, cast, file, CSV, serialised bytes, a dictionary, a formatted string. "
     "This holds also for symbols first met by several threads at once.",
     ["inputs", "schedules"],
     "every text of any bytes and length, every pair of ways to make a symbol, every number of symbols, threads and rows",
     "two threads meeting a new text in the same instant, chains in the table and pages of its text store are reached by volume and schedules, which no test has",
     ["core/symbols.c", "core/string.c"],
     [("interning", "core/symbols.c symbols_intern, string_intern"), ("texts", "core/symbols.c str_from_symbol, symbol_strlen")],
     T+": generated texts made into symbols in ten ways and compared with each other; columns of new names read by several threads", "Exact oracle; the schedules of the threads are those the machine gives (several thousand contended inserts a run), not controlled.")
prop("C26", "Patterns match, and splits cut, as written",
     "like tells whether the whole text matches the pattern - * any bytes, ? any one, [set] and [^set], every other byte itself - for every text and pattern, alike for a string, a list of strings, one still in its file, and in a query. "
     "split of a text gives the pieces between the delimiters, which joined by it are the text again; of a vector or list, the pieces between ascending positions of any integer type, and refuses other positions.",
     ["inputs"],
     "every text of bytes, every pattern, every delimiter, vectors and lists of every type and size, positions of every type",
     "matching with several stars needs backtracking, whose failures show only for particular repetitions; tests try some twenty patterns and no split by positions of other types",
     ["core/string.c", "core/logic.c", "core/compose.c"],
     [("matching", "core/string.c str_match; core/logic.c ray_like"), ("splitting", "core/string.c str_split; core/compose.c ray_split, CUT_VECTOR")],
     T+": generated texts with patterns derived from them against a position-set matcher, bytes.split, and slices", "Exact oracle; small alphabets so that repetitions and near misses are common.")
prop("C30", "The console evaluates what was typed, a pipe what was piped",
     "At the console, whatever way a line was edited - cursor keys, deletions, recalled entries, several lines until all brackets are closed - what is evaluated, answered and remembered (also for the next session) is the text as it then reads; keys without a meaning change nothing, no keys make the console unusable, and :q ends it with its code. "
     "Text piped in does what it does as a script file, however it is cut into pieces, output and exit code included.",
     ["histories", "inputs"],
     "every sequence of keys, sessions sharing a history file, every script and division of it into pieces",
     "no test touches the console; the state of line, cursor, history and open brackets after a sequence of keys needs histories of keys",
     ["app/term.c", "app/repl.c", "core/poll.c", "core/eval.c"],
     [("keys", "app/term.c term_read, term_handle_escape, term_handle_return"), ("history", "app/term.c hist_add, hist_prev, hist_next"), ("pipes", "app/repl.c repl_create")],
     T + ": key sequences typed on a pseudo terminal against a model of a line editor; scripts as file and as pipe", "Random search with an exact oracle for what is evaluated, answered and kept in the history; the drawing of the line is not judged. Ctrl-N and Ctrl-P are only checked not to do harm.")
prop("C27", "Timers are called when due, as often as said, until removed",
     "Every timer is called first one interval after it was made and then once per interval, as often as its count says (0: without end), never too early, and timers which are due are called in the order they fell due, whatever was added, removed or called before, also by the callbacks themselves. "
     "The id a timer was given removes that timer and no other, and a removed timer is never called again. "
     "Whoever waits for events waits until the next timer is due, and timers that are gone keep no memory.",
     ["histories", "schedules"],
     "every history of making, removing and waiting for any number of timers, with callbacks that make and remove timers or fail",
     "no test makes a timer; which timers are due, in which order and under which id depends on the whole history",
     ["core/chrono.c", "core/epoll.c"],
     [("timers", "core/chrono.c timer_next_timeout, timer_push, timer_pop, timer_del, ray_timer"), ("waiting", "core/epoll.c poll_run")],
     T + ": histories of timers under a clock that stands still between steps, against a model; serving processes with their own clock", "Random search with an exact oracle for the calls, their order and the wait. Negative counts and intervals are not judged.")
prop("C18", "Values kept in files are the values stored",
     "What is stored under a path - a vector, list, table, or enumeration of any size - is what any process loads from it, as often as it is stored over, loaded, changed in memory or stored again, and an expression over a loaded (mapped) value gives what it gives over the value itself. "
     "Changing a loaded value never changes the file. "
     "A damaged file gives a value or an error, and loading or storing keeps neither memory nor open files.",
     ["inputs", "histories", "faults"],
     "every storable value, every history of stores, loads and changes by two processes, every damaged file, every expression over a mapped value",
     "tests store a few values and load them in the same process; file layout and page borders, copy on write, mapped lists and foreign bytes need generated values and histories",
     ["core/binary.c", "core/serde.c", "core/fs.c", "core/mmap.c", "core/rayforce.c", "core/items.c"],
     [("storing and loading", "core/binary.c ray_set, ray_get"), ("mapped lists", "core/serde.c, core/rayforce.c at_idx MAPLIST"), ("mapped memory", "core/mmap.c, core/rayforce.c drop_obj")],
     T + ": round trips, differential against in-memory values, a model of two processes, mutated files under AddressSanitizer", "Random search with exact oracles. Damage is random and structured mutation of valid files, not every byte string.")
prop("C19", "Tables kept in directories are the tables stored",
     "A table stored as a directory of columns, with its own or a shared symbol file, is read back the same by any process after any history of stores, and queries over it give what they give over the table itself. "
     "A table parted by date gives, for queries by and about the date and over columns of numbers, what the one table with a Date column gives. "
     "Directories that were damaged give a value or an error and keep no memory.",
     ["inputs", "histories", "faults"],
     "every table and every history of stores, loads and rereads over directories that share symbol files, by two processes; every parted table, query and damage",
     "tests store a handful of tables and read them in the same process; symbol files grow over histories, and parts are joined by code that repeats every operation for parted columns",
     ["core/io.c", "core/vary.c", "core/aggr.c", "core/rayforce.c", "core/filter.c", "core/index.c"],
     [("splayed tables", "core/io.c io_set_table_splayed, io_get_table_splayed, io_set_symfile"), ("parted tables", "core/vary.c ray_get_parted"), ("aggregates over parts", "core/aggr.c PARTED_MAP")],
     T + ": a model of two processes and their files; differential against the in-memory table", "Random search with exact oracles. Verbs and clauses that refuse enumerated, mapped or parted columns with a type error are left open, except by/where Date over I64, I32, I16 and F64 columns, which must work.")
