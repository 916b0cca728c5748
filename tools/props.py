"""Single source of properties.jsonl, MANIFEST.json and the per-property table of DESIGN.md (tools/gen_manifest.py)."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na, state=state or []))

EXH = 'exhaustive bounded enumeration of inputs on the real code against an independent reference model'
HIST = 'explicit-state exploration of all operation histories up to a depth on the real code, lock-step with a reference model'
SCHED = 'stateless model checking of the real code: all thread schedules up to a deviation bound under a controlled scheduler'

prop('C01', 'Filtering and projection follow SQL semantics including NULL',
     'For every table contents and every WHERE condition and SELECT expression built from comparison, arithmetic, logical, string-concatenation, LIKE and ISNULL operators over supported types, a query returns exactly the rows for which the condition is true under three-valued logic, each with exactly the values of the selected expressions. NULL operands propagate to NULL results (concatenation treats NULL as the empty string), IS-NULL tests see them, and a condition that is NULL never lets a row through. Results outside the value range of their type and division of integers by zero are excluded. The number of rows (also across the engine\'s processing-batch boundaries) does not matter.',
     ['inputs', 'programs'], 'all expressions up to a depth over all operand types and NULL patterns; all table sizes around the batch size',
     'Unit tests check single operators of the stack machine on a handful of constants; no test in the suite runs a query end to end, and end-to-end fixtures hold only one 100-row table without NULLs.',
     ['src/backend/StackMachine.cpp', 'src/backend/Interpreter.cpp', 'src/backend/InterpreterOperator.cpp', 'src/IR/CNF.cpp', 'src/IR/Optimizer.cpp'],
     [('expression compilation to stack machine code', 'src/backend/StackMachine.cpp'), ('filter/projection operators', 'src/backend/Interpreter.cpp')],
     ['result rows delivered by query execution'], EXH, 'All queries of the stated grammar on the stated tables are executed by the real parser, semantic analysis, optimizer and interpreter and compared with an independent evaluator.')

prop('C02', 'Joins return exactly the matching combinations of rows',
     'A query over several tables returns, for every table contents, exactly the multiset of combined rows that the cross product filtered by the whole WHERE condition would give, each with the correct column values (NULLs included). This holds for equality joins, non-equality joins, cross products, self joins with aliases, any order of the tables and predicates, and any number of matches per key; a NULL join key matches nothing.',
     ['inputs', 'programs'], 'all join graphs and predicates of the stated forms over all small table contents, plus match counts around the batch size',
     'The existing tests plan joins but never execute them; the executed operators see no test at all.',
     ['src/backend/Interpreter.cpp', 'src/IR/Operator.cpp', 'src/IR/Optimizer.cpp', 'src/IR/QueryGraph.cpp', 'src/IR/Tuple.cpp'],
     [('simple hash join / nested loops join', 'src/backend/Interpreter.cpp'), ('query graph construction', 'src/IR/QueryGraph.cpp')],
     ['result rows'], EXH, 'As C01, against a nested-loop reference.')

prop('C03', 'Grouping and aggregation are correct',
     'GROUP BY partitions exactly the qualifying rows by the value of the grouping keys (all NULLs forming one group), each group appearing once, and COUNT, SUM, AVG, MIN and MAX over a group or over the whole input ignore NULL arguments and otherwise equal the value computed from the definition; aggregation of no rows, or of NULL arguments only, yields NULL (COUNT yields 0). HAVING keeps exactly the groups for which its condition is true.',
     ['inputs', 'programs'], 'all small multisets of rows with NULLs, all aggregate functions and key types, and group/row counts around the batch size',
     'No unit test executes an aggregation.',
     ['src/backend/Interpreter.cpp', 'src/backend/InterpreterOperator.cpp', 'src/IR/Optimizer.cpp'],
     [('hash based grouping, aggregation', 'src/backend/Interpreter.cpp')], ['result rows'], EXH, 'As C01, against a reference grouping evaluator.')

prop('C04', 'ORDER BY, LIMIT and OFFSET produce the specified sequence',
     'A query with ORDER BY emits a permutation of its unordered result in which each row is not greater than its successor under the listed keys with their ascending or descending directions and NULL placed consistently before all values in ascending order. LIMIT n OFFSET m emits exactly rows m+1 to m+n of the result sequence (fewer if the result is shorter), independent of batch boundaries.',
     ['inputs', 'programs'], 'all small multisets of rows with NULLs, all key lists and directions, all limits and offsets around result size and batch size',
     'No unit test executes sorting or limits; end-to-end fixtures never contain NULL.',
     ['src/backend/Interpreter.cpp', 'src/IR/Tuple.cpp', 'src/backend/StackMachine.cpp'],
     [('sorting and limit operators', 'src/backend/Interpreter.cpp'), ('tuple comparison code', 'src/backend/StackMachine.cpp')], ['result rows'], EXH, 'As C01; order checked by the reference comparator.')

prop('C05', 'Nested queries are transparent',
     'A query whose FROM clause contains a subquery returns the same rows as the query run on a table holding exactly the subquery\'s result, for every composition of filter, projection, join, grouping, ordering and limit in the inner and outer query.',
     ['inputs', 'programs'], 'all compositions of inner and outer query shapes over small tables',
     'Nested queries are parsed and analysed in tests but never executed.',
     ['src/IR/QueryGraph.cpp', 'src/IR/Optimizer.cpp', 'src/backend/Interpreter.cpp'],
     [('nested query data source', 'src/IR/QueryGraph.cpp'), ('dependent schema propagation', 'src/IR/Optimizer.cpp')], ['result rows'], EXH, 'As C01, composing reference evaluators.')

prop('C06', 'INSERT stores exactly the given rows',
     'After an INSERT statement each of its rows is stored with exactly the listed values converted to the column type, NULL where NULL is given, and the column\'s default (or NULL if none) where DEFAULT is given; values of one row never leak into another. Previously stored rows are unchanged, in order, and an INSERT that reports an error stores nothing.',
     ['histories', 'inputs'], 'all sequences of INSERT statements up to a depth over all value kinds per column and all layouts',
     'Unit tests insert a handful of constant rows via the store writer, none via NULL/DEFAULT mixes and multi-row statements.',
     ['src/catalog/DatabaseCommand.cpp', 'src/backend/StackMachine.cpp', 'src/parse/Sema.cpp'],
     [('insert command', 'src/catalog/DatabaseCommand.cpp')], ['SELECT * afterwards'], HIST, 'All histories within bounds run on the real engine and compared with a list model after every step.')

prop('C07', 'Stored tuples read back unchanged in every data layout',
     'For every schema, row count and storage layout (row, PAX with any block size), loading a stored tuple yields the values and NULLs that were stored, and storing one tuple or one attribute changes no other tuple or attribute. The computed layout itself places every attribute of every tuple and its NULL bit at disjoint, properly aligned positions inside the allocated region.',
     ['inputs', 'configurations', 'histories'], 'all schemas up to a width over all types, all layouts and block sizes, all row counts around block and batch boundaries, all NULL patterns',
     'Tests cover three fixed schemas and fixed block sizes.',
     ['src/storage/DataLayout.cpp', 'src/storage/DataLayoutFactory.cpp', 'src/backend/StackMachine.cpp', 'src/storage/Store.cpp'],
     [('layout factories', 'src/storage/DataLayoutFactory.cpp'), ('load/store compilation', 'src/backend/StackMachine.cpp')], ['values read back', 'layout tree'], EXH, 'Exhaustive over schemas/layouts/rows within bounds on the real load and store code.')

prop('C08', 'Delimiter-separated import is faithful',
     'Importing a delimiter-separated file appends exactly one row per data record whose fields are the file\'s field values parsed as the column\'s type, with empty fields as NULL, honouring delimiter, quote, escape and header options and the row limit. A malformed record is reported with a diagnostic and neither crashes, hangs, nor changes the values of other records.',
     ['inputs', 'configurations'], 'all byte strings up to a length over a delimiter-relevant alphabet for every column type and option combination',
     'Tests import a dozen fixed files.',
     ['src/io/DSVReader.cpp', 'include/mutable/io/Reader.hpp'],
     [('DSV reader state machine', 'src/io/DSVReader.cpp')], ['table contents after import', 'diagnostics'], EXH, 'Every file of the bounded language is imported by the real reader and compared with a reference parser.')

prop('C09', 'The catalog behaves like a map under every DDL history',
     'After every sequence of CREATE/DROP DATABASE, USE, CREATE/DROP TABLE, CREATE/DROP INDEX and IF [NOT] EXISTS variants, exactly the objects created and not dropped exist, with the declared attributes, types and constraints (declared, not enforced; a reference ends when the referenced table is dropped). A statement naming a missing or already existing object fails with a diagnostic and leaves the catalog unchanged; none of them crashes.',
     ['histories'], 'all DDL statement sequences up to a depth over two databases, two tables, two indexes',
     'Tests run individual commands from a fresh catalog, not histories.',
     ['src/catalog/Catalog.cpp', 'src/catalog/Schema.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/parse/Sema.cpp'],
     [('catalog/database/table maps', 'include/mutable/catalog/Schema.hpp'), ('DDL commands', 'src/catalog/DatabaseCommand.cpp')], ['catalog look-ups', 'diagnostics'], HIST, 'All histories within bounds on the real catalog, lock-step with a map model.')

prop('C10', 'The lexer tokenizes every byte string totally and losslessly',
     'For every input, tokenization terminates with an end token, never crashes, and yields the longest-match token sequence of the language with exact token text and exact line and column positions; an input whose tokens are re-joined by blanks yields the same tokens. Invalid bytes and unterminated literals produce a diagnostic, valid input none.',
     ['inputs'], 'all strings up to a length over a lexically complete alphabet',
     'Tests tokenize selected strings only.',
     ['src/lex/Lexer.cpp', 'include/mutable/tables/Keywords.tbl', 'include/mutable/tables/Operators.tbl'],
     [('lexer', 'src/lex/Lexer.cpp')], ['token stream', 'diagnostics'], EXH, 'All strings within the length bound, compared with an independent reference lexer.')

prop('C11', 'Parsing is total, respects precedence, and printing round-trips',
     'For every token sequence the parser terminates without crashing, reporting an error for exactly those sequences outside the grammar; expressions are grouped by the documented operator precedence and associativity. Printing a successfully parsed statement gives text that parses, without diagnostics, to an equal statement (IMPORT statements with ESCAPE or QUOTE, whose printed form an existing test fixes, excepted). Nesting is assumed not to exhaust the stack.',
     ['inputs', 'programs'], 'all token sequences up to a length and all expressions up to a size over all operators',
     'Tests parse selected statements and tens of precedence pairs.',
     ['src/parse/Parser.cpp', 'src/parse/ASTPrinter.cpp', 'src/parse/AST.cpp', 'src/tables/FollowSet.tbl'],
     [('recursive descent parser', 'src/parse/Parser.cpp'), ('AST printer', 'src/parse/ASTPrinter.cpp')], ['AST structure', 'diagnostics', 'printed text'], EXH, 'All sequences within bounds, compared with an independent reference grammar.')

prop('C12', 'Semantic analysis accepts exactly well-typed statements',
     'Semantic analysis assigns every expression the type the typing rules give (numeric promotion, decimal scale, boolean comparison results, string concatenation length, scalar versus vectorial) and rejects with a diagnostic, never a crash, every statement with an ill-typed operand, unknown or ambiguous name, or wrong aggregate placement. Every accepted statement can be planned and executed without crashing. Nested queries as operands of expressions are not covered (the interpreter does not implement them).',
     ['programs', 'inputs'], 'all operator and operand type combinations and clause compositions up to a size',
     'Tests check selected type combinations.',
     ['src/parse/Sema.cpp', 'src/catalog/Type.cpp', 'src/parse/AST.cpp'],
     [('sema visitor', 'src/parse/Sema.cpp'), ('numeric type arithmetic', 'src/catalog/Type.cpp')], ['expression types', 'diagnostics'], EXH, 'All programs within bounds through the real analysis against an independent typing function.')

prop('C13', 'Conversion to conjunctive normal form preserves meaning',
     'For every Boolean expression, the conjunctive normal form computed from it, as well as conjunction, disjunction and negation of two such forms, is true (false, NULL) under exactly the assignments of its atoms under which the original is, and its printed SQL text parses to an expression of the same meaning; the conversion terminates with a form of reasonable size. The inclusion and equality tests between (non-empty) clauses and forms agree with inclusion of their predicates, so that equal forms are equivalent.',
     ['programs', 'inputs'], 'all Boolean expressions up to a size, evaluated on all assignments',
     'Tests compare a dozen fixed expressions.',
     ['src/IR/CNF.cpp', 'include/mutable/IR/CNF.hpp'],
     [('CNF generator and operators', 'src/IR/CNF.cpp')], ['truth value of CNF under every assignment'], EXH, 'All expressions and all assignments within bounds.')

prop('C14', 'Join ordering finds cost-optimal complete plans',
     'For every join graph and every set of cardinalities, each exact dynamic-programming enumeration strategy yields a plan that joins every relation exactly once, contains no cross product when the graph is connected, and whose cost is the minimum over all such plans under the cost function; all exact strategies agree on this cost. Greedy and linear strategies yield valid plans of the stated shape that never cost less than the minimum, and linearized dynamic programming is never worse than its linear plan.',
     ['inputs', 'configurations'], 'all connected labelled graphs up to a size with all cardinality assignments from a small set, for each strategy',
     'Tests compare strategies on a few fixed graphs and do not compute the true minimum.',
     ['src/IR/PlanEnumerator.cpp', 'include/mutable/IR/PlanTable.hpp', 'src/IR/PlanTable.cpp', 'src/catalog/CostFunctionCout.cpp'],
     [('enumerators', 'src/IR/PlanEnumerator.cpp'), ('plan table', 'src/IR/PlanTable.cpp')], ['plan table'], EXH, 'All graphs and cardinality assignments within bounds against a brute-force optimum.')

prop('C15', 'Join-graph reachability, connectivity and neighbourhood are exact',
     'For every join graph and all subsets of its nodes, the connectivity test, reachability, neighbourhood, transitive closure and spanning-tree queries return exactly what the graph-theoretic definitions give, and enumeration of connected subgraphs, of connected pairs and of connected partitions emits each valid one exactly once, pairs in an order that completes every subproblem before it is used.',
     ['inputs'], 'all labelled graphs up to a size and all node subsets',
     'Tests use a few fixed graphs.',
     ['src/util/AdjacencyMatrix.cpp', 'include/mutable/util/AdjacencyMatrix.hpp', 'include/mutable/util/MinCutAGaT.hpp'],
     [('adjacency matrix', 'include/mutable/util/AdjacencyMatrix.hpp'), ('min-cut partitioning', 'include/mutable/util/MinCutAGaT.hpp')], ['returned sets'], EXH, 'All graphs within the size bound and all subsets, against naive definitions.')

prop('C16', 'The reader-writer lock is exclusive, deadlock-free and fair to upgraders',
     'In every interleaving of threads that acquire, try to acquire, upgrade and release the lock, a writer never overlaps another writer or reader, readers may share, and a try operation succeeds only when the lock is really obtained. No schedule leaves a thread blocked while nobody holds the lock, at most one upgrade is pending at a time, no further reader is admitted while an upgrade is pending, and a released or moved lock handle releases exactly once.',
     ['schedules'], 'all schedules (with spurious wake-ups) of small client programs up to a deviation bound',
     'Tests run threads under the OS scheduler once.',
     ['include/mutable/util/reader_writer_lock.hpp'],
     [('reader_writer_mutex state', 'include/mutable/util/reader_writer_lock.hpp')], ['holder bookkeeping of the clients'], SCHED, 'Every schedule of every client program within the bounds; sequentially consistent interleavings, data races reported separately.')

prop('C17', 'Interning pools keep one shared copy per value under concurrency',
     'At any moment, in every interleaving of threads that intern, copy, compare and drop pooled values, equal values are represented by one and the same object and different values by different objects, independent of the lifetime of the value that was passed in. A pooled object stays alive, unchanged and in place as long as a handle refers to it, its reference count is the number of handles, moved-from and empty handles refer to nothing; the pool destroys every object exactly once, at the latest together with itself, and no thread is ever blocked forever or observes a destroyed object.',
     ['schedules', 'histories'], 'all schedules of small client programs up to a deviation bound, and all sequential histories up to a depth',
     'Tests intern from one thread.',
     ['include/mutable/util/Pool.hpp'],
     [('thread-safe pool and proxies', 'include/mutable/util/Pool.hpp')], ['identity and content of pooled objects'], SCHED, 'Every schedule within bounds of the real template code, with data-race and use-after-free monitors.')

prop('C18', 'The scheduler runs every command once, in serial transaction order',
     'In every interleaving of clients, each scheduled command of a live transaction is executed exactly once, its result delivered to its caller (a command that does not pass the analysis or whose execution reports an error yields false), and commands of one transaction run in the order issued. Commands of different transactions never overlap or interleave within a transaction, and after commit or abort the next transaction proceeds; no schedule blocks a client forever or crashes, including shutdown. Clients are assumed to wait for the results of a transaction\'s commands before they end it.',
     ['schedules', 'histories'], 'all schedules of up to three client threads up to a deviation bound',
     'Tests run a few fixed sequences under the OS scheduler.',
     ['src/catalog/SerialScheduler.cpp', 'src/catalog/SerialScheduler.hpp', 'src/catalog/Scheduler.cpp'],
     [('command queue and scheduling thread', 'src/catalog/SerialScheduler.cpp')], ['command execution log', 'futures'], SCHED, 'Every schedule within bounds of the real scheduler with probe commands.')

prop('C19', 'Allocators hand out disjoint, aligned, intact memory',
     'Under every sequence of allocations and deallocations of any sizes and alignments, each block handed out is aligned as requested, lies in memory owned by the allocator, overlaps no other live block, and keeps its contents until deallocated. Freed space is reusable, and no memory is lost or leaked.',
     ['histories'], 'all allocate/deallocate sequences up to a depth over boundary sizes, alignments and strategies',
     'Tests run a few fixed sequences.',
     ['include/mutable/util/list_allocator.hpp', 'include/mutable/util/memory.hpp', 'src/util/memory.cpp', 'include/mutable/util/malloc_allocator.hpp'],
     [('list allocator', 'include/mutable/util/list_allocator.hpp'), ('linear allocator', 'include/mutable/util/memory.hpp')], ['returned addresses and block contents'], HIST, 'All operation histories within the bounds on the real allocators.')

prop('C20', 'Container types behave like their mathematical counterparts',
     'Under every sequence of operations, the hash multimap, doubly-linked list, sorted vector, dynamic arrays, ranges and views and the sharing-aware smart pointer hold exactly the elements a plain multimap, list, sorted sequence, array or pointer would, in the specified order, through copies, moves, swaps, insertions, erasures and rehashes; every element is destroyed exactly once.',
     ['histories'], 'all operation sequences up to a depth over small key/value domains',
     'Tests run fixed sequences.',
     ['src/util/container/RefCountingHashMap.hpp', 'include/mutable/util/ADT.hpp', 'include/mutable/util/unsharable_shared_ptr.hpp'],
     [('containers', 'include/mutable/util/ADT.hpp')], ['contents and iteration order'], HIST, 'All operation histories within bounds, lock-step with std:: containers.')

prop('C21', 'Relation sets and subset enumeration are exact',
     'Set operations on relation sets (union, intersection, difference, complement-free tests, cardinality, iteration, singleton and least element) agree with mathematical sets for all inputs, and the subset and combination enumerators yield every subset (of the requested size, the empty one included) exactly once, in order, and terminate; grid search visits every combination exactly once.',
     ['inputs'], 'all pairs of sets up to a width and all enumerator parameters',
     'Tests use a few fixed sets.',
     ['include/mutable/util/ADT.hpp', 'src/util/algorithms.hpp', 'include/mutable/util/fn.hpp'],
     [('SmallBitset', 'include/mutable/util/ADT.hpp'), ('GospersHack / SubsetEnumerator', 'include/mutable/util/ADT.hpp')], ['returned sets'], EXH, 'All pairs of sets within the width bound.')

prop('C22', 'Indexes find exactly the stored entries',
     'For every multiset of keys bulk-loaded or inserted into a sorted-array or learned index, lower-bound, upper-bound and full iteration return exactly the positions a sorted sequence of the entries would, for every probe key below, between, equal to and above the stored keys. An index built for a column by bulk-loading or CREATE INDEX holds exactly the non-NULL values of the column with their row numbers, and is offered to queries only until the table changes. Using an unfinished or wrongly typed index is reported as an error rather than answered wrongly.',
     ['inputs', 'histories'], 'all small key multisets per key type (including float, bool, string) and all probe keys, plus duplicate-heavy and skewed distributions',
     'Tests use fixed key sequences.',
     ['include/mutable/storage/Index.hpp', 'src/storage/Index.cpp'],
     [('array index and recursive model index', 'include/mutable/storage/Index.hpp')], ['iterator ranges'], EXH, 'All key multisets within bounds with every probe.')

prop('C23', 'String utilities are exact: LIKE, escaping, C-string operations',
     'For every text and pattern, LIKE matching returns exactly whether the pattern (with its wildcards and escapes) matches the whole text; escaping followed by unescaping or quoting followed by interpreting returns the original string. Case, prefix, whitespace, power-of-two and rounding helpers agree with their definitions for every input.',
     ['inputs'], 'all strings and patterns up to a length over a small alphabet containing the special characters',
     'Tests use fixed strings.',
     ['src/util/fn.cpp', 'include/mutable/util/fn.hpp'],
     [('like, escape, unescape, interpret', 'src/util/fn.cpp')], ['return values'], EXH, 'All strings within bounds against naive definitions.')

prop('C24', 'Dates and datetimes are validated, stored and compared correctly',
     'A date or datetime literal is accepted exactly when it denotes a month, a day of that month and a time of day (a datetime abides by leap years, decided by the written year number; February of a date has up to 29 days; there is no year 0), in SQL text as in imported files; its stored value identifies it uniquely, reads back and prints as written, and comparison, filtering, joining, grouping and ordering of stored values agree with chronological order, for negative years as well; datetimes one second apart are stored one second apart.',
     ['inputs'], 'every day of a span of years covering all leap-year rules, all month/day combinations and all boundary times',
     'Tests use fixed dates.',
     ['src/lex/Lexer.cpp', 'src/parse/Sema.cpp', 'src/backend/Interpreter.cpp', 'src/util/fn.cpp'],
     [('date literal parsing', 'src/lex/Lexer.cpp'), ('literal evaluation', 'src/backend/Interpreter.cpp')], ['query results'], EXH, 'Every date in the span.')

prop('C25', 'Multi-versioned tables show each transaction a consistent snapshot',
     'In a table with version timestamps, every query of a transaction -- through aliases, joins, grouping and nested queries alike -- reads exactly the rows inserted so far by transactions that started no later than it, its own writes included, in every order of insertions and reads and for all start times; a version whose end is set is read only by transactions that started before that end; timestamp attributes stay hidden from ordinary queries and insertions.',
     ['histories', 'schedules'], 'all histories of transactions with inserts and reads up to a depth',
     'Tests check only the presence of timestamp attributes.',
     ['src/catalog/TableFactory.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/IR/Optimizer.cpp'],
     [('timestamp filter', 'src/catalog/Schema.cpp')], ['result rows per transaction'], HIST, 'All histories within bounds.')

prop('C26', 'Cardinality estimation uses the supplied model correctly',
     'An estimator loaded with explicit cardinalities returns for every relation set exactly the supplied value (clamped to the Cartesian product of the inputs) or the Cartesian-product fallback of the estimates of its parts, the Cartesian estimator returns the exact product of table sizes for every join order, and limits and grouping never increase an estimate; malformed model files or entries are reported and ignored without crashing. Products are assumed to fit 64 bits, learned estimators are not covered.',
     ['inputs', 'configurations'], 'all subsets of up to five relations, all partial models, all small malformed documents',
     'Tests use one fixed model.',
     ['src/catalog/CardinalityEstimator.cpp', 'include/mutable/catalog/CardinalityEstimator.hpp'],
     [('injection estimator', 'src/catalog/CardinalityEstimator.cpp')], ['predicted cardinalities'], EXH, 'All subsets and partial models within bounds.')

prop('C27', 'Heuristic-search join ordering is valid and optimal when admissible',
     'For every join graph and cardinalities, every configuration of the heuristic-search strategy (expansion, heuristic, search, weight, budget, initial upper bound) returns a complete plan without cross products whose recorded cost is that of its joins, and with an admissible heuristic and neither beam nor budget its cost equals the minimum (times the weight at most); the generic search returns a path to a goal whenever one exists, reports a cost not below that of the path, never raises the cost of a state already reached, never exceeds its budget or bound, and under an admissible heuristic without beam returns a shortest path.',
     ['inputs', 'configurations'], 'all connected graphs up to a size with small cardinality sets for every configuration; all small weighted graphs for the generic search',
     'Tests use fixed graphs.',
     ['src/IR/HeuristicSearchPlanEnumerator.cpp', 'include/mutable/IR/HeuristicSearchPlanEnumerator.hpp', 'include/mutable/util/HeuristicSearch.hpp'],
     [('A* and beam search', 'include/mutable/util/HeuristicSearch.hpp')], ['plan table', 'search result'], EXH, 'All graphs and configurations within bounds against brute force.')

prop('C28', 'Values and tuples obey equality, hashing and copy laws',
     'For every pair of tuples of the same layout, equality holds exactly when all fields agree in NULL status and, where not NULL, in the stored representation of their values (for character strings the storage they refer to); equal tuples have equal hashes; cloned, inserted, moved or swapped tuples hold exactly the source values (string contents included) and NULLs; and setting, clearing or writing one field changes no other field.',
     ['inputs', 'histories'], 'all tuples up to a width over all types and boundary values with all NULL patterns; all operation sequences up to a depth',
     'Tests check a few tuples.',
     ['src/IR/Tuple.cpp', 'include/mutable/IR/Tuple.hpp'],
     [('Tuple, Value', 'include/mutable/IR/Tuple.hpp')], ['tuple contents'], HIST, 'All tuples and operation histories within bounds.')

prop('C29', 'Command-line parsing delivers each option exactly as given',
     'For every argument vector, each registered option is invoked once per occurrence in order with its value converted exactly, unregistered words not beginning with `--` and all words after `--` are collected as positional arguments in order (other words beginning with `--` are skipped with a warning), and malformed, out-of-range or missing values are reported with failure exit rather than misread.',
     ['inputs'], 'all argument vectors up to a length over options of every value type and malformed values',
     'Tests use fixed vectors.',
     ['src/util/ArgParser.cpp', 'include/mutable/util/ArgParser.hpp'],
     [('argument parser', 'src/util/ArgParser.cpp')], ['callback log'], EXH, 'All vectors within bounds.')

prop('C30', 'Memory maps alias exactly the mapped allocation',
     'Memory allocated from the mapping-based allocator and mapped at any page-aligned offset into an address space is readable and writable there, aliases exactly the allocation\'s bytes, and outlives moves of its handle; distinct allocations never share bytes.',
     ['histories'], 'all sequences of allocate, write, map, move and free up to a depth',
     'Tests map once.',
     ['src/util/memory.cpp', 'include/mutable/util/memory.hpp'],
     [('memory-mapped allocator', 'src/util/memory.cpp')], ['bytes read through mappings'], HIST, 'All histories within bounds.')

prop('C32', 'WebAssembly back end computes the same results as the interpreter',
     'Every query executed by the WebAssembly back end returns the rows the interpreter returns.',
     ['programs', 'inputs'], 'all queries',
     'Needs V8.',
     ['src/backend/WasmOperator.cpp', 'src/backend/WebAssembly.cpp', 'src/backend/V8Engine.cpp'],
     [('WebAssembly code generation', 'src/backend/WasmOperator.cpp')], ['result rows'], '', '',
     na='The WebAssembly back end needs V8 and Binaryen, which the pinned build leaves out (no network to fetch them): no executable exists here in which any of its behaviours could be explored.')
