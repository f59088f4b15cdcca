"""The properties, and what each check is. tools/mkmeta.py writes properties.jsonl and MANIFEST.json from it."""
P = {}


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, technique='', note='', claim=True):
    P[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state,
                 observe=observe, hook=hook, technique=technique, note=note, claim=claim)


SQLNOTE = ('Every statement runs through the public query interface of an AddressSanitizer+UBSan build of the working tree; the verdict is an '
           'independent reference model\'s. Trusts the model, the raw table dump of the driver (checked against the cursor) and the generators\' reach.')

p('P01', 'INSERT stores exactly the given rows',
  'A successful INSERT adds exactly the rows it lists to the named table, every value bit-exact, omitted columns NULL, and reports their number. '
  'Rows that were there before, and other tables, keep their values. Constant integer and double expressions are stored as their arithmetic value (NULL for division by zero).',
  ['inputs', 'histories'], 'all schemas (1..128 columns of every type), all in-range values, all column-list forms and row counts',
  'tests insert a handful of fixed rows; wrong values appear for particular types, lengths, expressions or block boundaries',
  ['src/engine/executor_insert.c', 'src/parser/semantic_insert.c', 'src/engine/optimiser_insert.c', 'src/primitive/table.c', 'src/primitive/row.c', 'src/parser/ast_insert.c'],
  [('row assembly from parsed values', 'src/engine/executor_insert.c'), ('constant folding of expressions', 'src/engine/optimiser_insert.c'), ('row insertion into data blocks', 'src/primitive/table.c: table_insert_row')],
  observe=['result status and affected-row count', 'table contents before and after', 'SELECT of the table'],
  technique='runtime monitor: transition oracle over generated INSERTs under ASan/UBSan', note=SQLNOTE)
p('P02', 'SELECT ... WHERE returns exactly the matching rows',
  'A SELECT over one table returns exactly the rows that satisfy its condition, once each, with the requested columns in the requested order (repetitions included) and the stored values. '
  'Comparisons involving NULL are never satisfied, and NOT IN is not satisfied by NULL.',
  ['inputs', 'histories'], 'all tables, contents (with holes left by DELETE/UPDATE) and condition trees over =,<>,<,<=,>,>=,IN,NOT IN,IS [NOT] NULL,AND,OR,XOR',
  'tests sample single conditions over a few rows; mistakes show for particular operator, operand order, type, value and nesting combinations',
  ['src/engine/executor_select.c', 'src/parser/semantic_select.c', 'src/parser/ast_select.c', 'src/engine/optimiser_select.c', 'src/parser/midorisql.y'],
  [('condition evaluation', 'src/engine/executor_select.c'), ('type checks of conditions', 'src/parser/semantic_select.c')],
  observe=['result rows and column names', 'table contents before the query'],
  technique='runtime monitor: reference evaluation of WHERE over observed contents, under ASan/UBSan', note=SQLNOTE)
p('P03', 'DELETE removes exactly the matching rows',
  'A successful DELETE removes exactly the rows that satisfy its condition (all rows without one), reports their number, and leaves every other row and table as it was.',
  ['inputs', 'histories'], 'all tables, contents and condition trees', 'tests delete from few-row tables with a few conditions',
  ['src/engine/executor_delete.c', 'src/parser/semantic_delete.c', 'src/parser/ast_delete.c', 'src/primitive/table.c'],
  [('condition evaluation', 'src/engine/executor_delete.c'), ('row removal', 'src/primitive/table.c: table_delete_row')],
  observe=['affected-row count', 'table contents before and after'],
  technique='runtime monitor: transition oracle over generated DELETEs under ASan/UBSan', note=SQLNOTE)
p('P04', 'UPDATE changes exactly the matching rows and named columns',
  'A successful UPDATE gives the assigned values to exactly the named columns of the rows that satisfy its condition (all rows without one), reports their number, and leaves everything else as it was. '
  'Assigning NULL to a nullable column makes it NULL, and assigning a value to a NULL makes it that value.',
  ['inputs', 'histories'], 'all tables, contents, assignments and condition trees', 'tests update few-row tables with a few conditions',
  ['src/engine/executor_update.c', 'src/parser/semantic_update.c', 'src/parser/ast_update.c', 'src/primitive/table.c'],
  [('condition evaluation and row rewrite', 'src/engine/executor_update.c'), ('row replacement', 'src/primitive/table.c: table_update_row')],
  observe=['affected-row count', 'table contents before and after'],
  technique='runtime monitor: transition oracle over generated UPDATEs under ASan/UBSan', note=SQLNOTE)
p('P05', 'Inner and cross joins are the filtered product of their tables',
  'A query over several tables returns exactly the combinations of rows that satisfy all ON and WHERE conditions, each as often as the combination occurs, with the values of the right tables under the right column names. '
  'Comma lists, JOIN and INNER JOIN of 2 or more tables, with or without aliases, in any order, all obey this.',
  ['inputs', 'histories'], 'all contents and sizes (empty tables and several data blocks included), 2..4 tables, all ON/WHERE conditions of the dialect',
  'tests join two or three tiny tables on equality; multiplicity, NULLs, block boundaries and table order are not sampled',
  ['src/engine/executor_select.c', 'src/parser/semantic_select.c', 'src/parser/ast_select.c'],
  [('cross product and join evaluation', 'src/engine/executor_select.c'), ('name resolution in joins', 'src/parser/semantic_select.c: check_from_clause')],
  observe=['result rows and column names', 'contents of all tables involved'],
  technique='runtime monitor: reference join over observed contents, under ASan/UBSan', note=SQLNOTE)
p('P06', 'GROUP BY and COUNT aggregate exactly',
  'GROUP BY returns one row per distinct combination of the grouping values (NULLs form one group); COUNT(*) is the number of rows and COUNT(column) the number of non-NULL values in each group. '
  'Without GROUP BY, COUNT returns a single row, zero over no rows.',
  ['inputs', 'histories'], 'all contents, grouping columns and types, select lists, joins and WHERE conditions of the dialect',
  'tests group few rows by one or two columns; groups that span blocks, NULL groups and close values are not sampled',
  ['src/engine/executor_select.c', 'src/parser/semantic_select.c'],
  [('row collapsing and counting', 'src/engine/executor_select.c: collapse_rows'), ('select-list rules of aggregates', 'src/parser/semantic_select.c: check_groupby_clause')],
  observe=['result rows', 'table contents'],
  technique='runtime monitor: reference aggregation over observed contents, under ASan/UBSan', note=SQLNOTE)
p('P07', 'A rejected statement changes nothing and explains itself',
  'A statement that violates the schema or the language (unknown or duplicate names, wrong types, NULL in a NOT NULL column, over-long strings, numbers out of range, wrong value counts, bad syntax) is reported as an error with a non-empty message. '
  'It leaves every table and the catalog exactly as before, even when only a later row of a multi-row statement is at fault, and statements after it work normally.',
  ['inputs', 'histories'], 'all violation classes, at every position of a statement, on tables with any content',
  'tests check the verdict of some invalid statements, not that the data survives, and no multi-row mid-failure',
  ['src/parser/semantic_insert.c', 'src/parser/semantic_update.c', 'src/parser/semantic_delete.c', 'src/parser/semantic_select.c', 'src/parser/semantic_create.c', 'src/parser/syntax.c', 'src/engine/query.c', 'src/engine/executor_insert.c'],
  [('semantic checks before execution', 'src/engine/query.c: query_execute'), ('undo of partially inserted rows', 'src/engine/executor_insert.c')],
  observe=['result status and message', 'contents of all tables and the catalog before and after'],
  technique='runtime monitor: state-preservation oracle over generated invalid statements under ASan/UBSan', note=SQLNOTE)
p('P08', 'CREATE TABLE defines exactly the declared table',
  'A successful CREATE TABLE adds one empty table with exactly the declared columns, in order, with their types, string lengths and attributes (nullability, uniqueness, auto-increment, primary key, index), however the attributes are declared. '
  'Creating an existing table fails, or does nothing with IF NOT EXISTS; other tables are unaffected.',
  ['inputs', 'histories'], 'all column lists (1..128), types, lengths, attribute combinations and orders, table names',
  'tests create a few tables; the combinations of attributes, orders and name collisions are not sampled',
  ['src/engine/executor_create.c', 'src/parser/semantic_create.c', 'src/parser/ast_create.c', 'src/engine/database.c', 'src/datastructure/hashtable.c', 'src/primitive/column.c'],
  [('table construction', 'src/engine/executor_create.c'), ('catalog', 'src/engine/database.c: database_table_add')],
  state=[('table catalog', 'tables by name', 'struct database')], observe=['catalog and column definitions', 'result status'],
  technique='runtime monitor: catalog oracle over generated definitions under ASan/UBSan', note=SQLNOTE)
p('P09', 'Result sets are complete, exactly-once, isolated snapshots',
  'Stepping through a result yields every row of the query exactly once, then reports the end for good, however the steps are spread out. '
  'What the accessors return for a row is what the row holds. An open result is not affected by later statements, by other results, or by closing the database.',
  ['histories', 'inputs'], 'all interleavings of cursor steps with queries and data changes, all result sizes (several data blocks included) and widths',
  'tests read small results at once, right after the query',
  ['src/engine/query.c', 'src/engine/executor_select.c', 'include/engine/query.h'],
  [('cursor stepping', 'src/engine/query.c: query_cur_step'), ('typed access to the current row', 'src/engine/query.c: query_column_int64'), ('result table construction', 'src/engine/executor_select.c')],
  observe=['rows yielded per step', 'end of the cursor', 'table contents at query time'],
  technique='runtime monitor: exactly-once/snapshot checker over cursor event logs under ASan/UBSan', note=SQLNOTE)
p('P10', 'No statement text can crash, hang or corrupt the process',
  'For every text handed to it, the engine returns an outcome: executed, rows, or an error with a non-empty message. '
  'It never reads or writes memory out of bounds, never invokes undefined behaviour, never terminates or blocks the process, and keeps working on the same database afterwards.',
  ['inputs', 'histories'], 'all byte strings (without NUL): grammatical, almost grammatical and arbitrary, up to large sizes',
  'tests feed well-formed statements and a few errors; memory errors and aborts need odd combinations and no test runs under sanitizers',
  ['src/parser/midorisql.l', 'src/parser/midorisql.y', 'src/parser/syntax.c', 'src/parser/ast.c', 'src/parser/ast_select.c', 'src/parser/semantic_select.c', 'src/engine/query.c', 'src/engine/executor_select.c'],
  [('scanner/parser error paths', 'src/parser/midorisql.l, midorisql.y'), ('semantic rejection of unsupported constructs', 'src/parser/semantic_*.c')],
  observe=['process status and sanitizer reports', 'result status and message', 'contents of an uninvolved table'],
  technique='runtime monitoring: ASan+UBSan over grammar-derived and mutated statement texts, with outcome and canary monitors',
  note='Sanitizers observe executions only; reach comes from five generators (grammar derivation, token soup, token and byte mutation, extreme sizes). Sizes are bounded (about 1,200 nested or chained terms, 100 KB literals): deeper nesting recurses over the tree and is not explored.')
p('P11', 'Memory is given back',
  'After a result is released, a query or failed statement leaves no memory behind; closing a database gives back everything it and its statements allocated.',
  ['inputs', 'histories'], 'all statements and outcomes, partially read results included', 'tests never look at memory',
  ['src/engine/query.c', 'src/engine/database.c', 'src/engine/executor_select.c', 'src/parser/ast.c', 'src/primitive/table.c', 'src/datastructure/hashtable.c'],
  [('release of results', 'src/engine/query.c: query_free'), ('release of tables', 'src/engine/database.c: database_close')],
  observe=['heap bytes in use before and after each statement and each database'],
  technique='runtime monitor: heap-balance conservation checker over statement histories (sanitizer allocator)',
  note='Counts heap bytes in the sanitizer allocator before and after; a leak compensated by an equal double release would be caught by ASan instead.')
p('P19', 'Running out of memory fails an operation cleanly',
  'If allocations fail while a statement runs (one of them, or one and all later ones), the process survives and query_execute returns NULL, an error with a message, or the complete and correct outcome. '
  'After an error the contents of the database are what they were before, the same statement works as usual once memory is available, and no memory is lost. '
  'The same holds for the storage interface (creating tables, adding columns, inserting rows) and for the containers: an operation that reports failure has had no effect.',
  ['fault_sequences', 'inputs', 'histories'], 'every allocation the engine itself makes (those inside bison and the C library are left alone; of those inside flex, the ones every statement makes), single and lasting failures, all kinds of statements and histories',
  'no test makes an allocation fail; every error path of every phase is unexercised',
  ['src/parser/midorisql.y', 'src/parser/midorisql.l', 'src/parser/ast_select.c', 'src/parser/ast_insert.c', 'src/parser/ast_create.c', 'src/parser/ast_update.c', 'src/parser/ast_delete.c',
   'src/parser/semantic_select.c', 'src/engine/optimiser_select.c', 'src/engine/executor_select.c', 'src/engine/executor_insert.c', 'src/engine/executor_create.c', 'src/engine/query.c',
   'src/primitive/row.c', 'src/primitive/column.c', 'src/primitive/table.c', 'src/datastructure/hashtable.c', 'src/datastructure/btree.c', 'src/datastructure/vector.c', 'src/lib/regex.c'],
  [('rows taken back', 'src/engine/executor_insert.c: executor_run_insertvals_stmt'), ('parse failure on lost items', 'src/parser/midorisql.y: emit'), ('error paths', 'goto err* labels everywhere')],
  observe=['status and message', 'digest of all tables', 'outcome of the statement when run again', 'bytes on the heap after closing', 'exit status of the process'],
  technique='fault injection (allocation failures at every site) with differential oracles, heap accounting, ASan/UBSan',
  note='Each failing allocation is tried in a forked copy of the process and compared with the undisturbed run. Allocations are picked so that every place in the code that allocates sees failures (single and lasting, first, last and random occurrence). Trusts the digest (64-bit hashes) and the wrapper (objcopy --redefine-sym).')
p('P20', 'Equivalent spellings of a statement mean the same',
  'Letter case of keywords, white space, comments, quoting style of names and strings, operator synonyms, qualification of column names and redundant parentheses never change what a statement does. '
  'Operators bind as documented by the grammar: comparisons before IN/IS, then AND, XOR, OR; multiplication before addition, left to right.',
  ['inputs'], 'all statements and all combinations of spelling variations', 'tests use one spelling per statement',
  ['src/parser/midorisql.l', 'src/parser/midorisql.y', 'src/parser/semantic_select.c'],
  [('token rules', 'src/parser/midorisql.l'), ('precedence declarations', 'src/parser/midorisql.y')],
  observe=['outcome, rows and table contents of both spellings'],
  technique='runtime monitor: metamorphic pairs on twin databases under ASan/UBSan',
  note='Pairs are compared with each other, not with a model; an error common to both spellings is left to the other checks.')
p('P21', 'Databases of one process do not influence each other',
  'Several databases can be open at once; whatever happens to one of them, including opening, closing, locking and errors, never changes the tables, data or outcomes of another or keeps its statements waiting, even for tables of the same name.',
  ['histories'], 'all interleavings of histories over 2..8 databases', 'tests open one database at a time',
  ['src/engine/database.c', 'src/engine/query.c', 'src/parser/syntax.c', 'src/primitive/datablock.c'],
  [('catalog per database', 'src/engine/database.c'), ('reentrant scanner and parser', 'src/parser/midorisql.l, midorisql.y')],
  observe=['outcomes and table contents of every database'],
  technique='runtime monitor: per-database models over interleaved histories under ASan/UBSan', note=SQLNOTE)
p('P22', 'The state is the net effect of the accepted statements',
  'After any history of statements, every table holds exactly the rows that the accepted statements imply, every query answers from that state, and the number of affected rows reported by each statement is right.',
  ['histories'], 'all histories of CREATE/INSERT/UPDATE/DELETE/SELECT and rejected statements over several tables', 'tests run histories of a few statements; reuse of space, growth over blocks and accumulated state are not reached',
  ['src/engine/query.c', 'src/engine/executor_insert.c', 'src/engine/executor_update.c', 'src/engine/executor_delete.c', 'src/engine/executor_select.c', 'src/primitive/table.c', 'src/primitive/datablock.c'],
  [('row storage', 'src/primitive/table.c'), ('statement execution', 'src/engine/executor_*.c')],
  observe=['outcomes and rows of every statement', 'table contents at intervals'],
  technique='runtime monitor: model-based checking of long histories under ASan/UBSan', note=SQLNOTE)

NATNOTE = ('The data structure runs in process, AddressSanitizer+UBSan on, next to a plain reference model; every answer and, regularly, the complete contents are compared. '
           'Trusts the model and the reach of the random histories.')
p('P12', 'Stored rows survive every row operation and vacuum',
  'Inserting, updating and deleting rows through the storage interface, in any order and number, changes exactly the rows concerned; all other rows keep their values and NULLs. '
  'Vacuum changes no live row, leaves no deleted ones and no more data blocks than the rows need. Rows of the wrong size are refused without effect, and destroying a table frees everything it held.',
  ['histories', 'inputs'], 'all tables of 1..128 columns, row sizes (also those that divide a block evenly), histories of insert/update/delete/vacuum across any number of blocks',
  'tests fill a block or two of one or two fixed layouts; mistakes show at block boundaries, with holes in particular places, or with strings and NULLs after several operations',
  ['src/primitive/table.c', 'src/primitive/row.c', 'src/primitive/vacuum.c', 'src/primitive/datablock.c'],
  [('row insertion, update, deletion', 'src/primitive/row.c'), ('compaction', 'src/primitive/vacuum.c: table_vacuum')],
  state=[('free_dtbkl_offset', 'offset of the next free row in the last block', 'include/primitive/table.h'), ('row flags', 'empty, deleted or live', 'include/primitive/row.h')],
  observe=['all live rows (raw walk)', 'number of blocks and deleted rows', 'bytes on the heap'],
  technique='runtime monitor: in-process model of the table checked against a raw walk, heap accounting, ASan/UBSan', note=NATNOTE)
p('P13', 'Adding and removing columns preserves all other data',
  'Adding a column to a table, filled or not, keeps every row and every value of the other columns; the rows hold nothing (NULL, zero or the empty string) in the new one, which can be filled afterwards. '
  'Removing a column keeps every row and all values and NULLs of the remaining columns. Duplicate, unknown, invalid or too many columns are refused without effect.',
  ['histories', 'inputs'], 'all layouts and positions, tables of several blocks with deleted rows, any order of column and row operations',
  'tests change one fixed layout with a few rows; mistakes show for inner columns, NULL flags, strings, several blocks and later operations',
  ['src/primitive/column.c', 'src/primitive/table.c', 'src/primitive/vacuum.c'],
  [('re-layout of rows', 'src/primitive/column.c: datablock_add_column, datablock_rem_column')],
  observe=['all live rows (raw walk)', 'column definitions', 'bytes on the heap'],
  technique='runtime monitor: in-process model of table and columns checked against a raw walk, heap accounting, ASan/UBSan', note=NATNOTE)
p('P14', 'Threads can use the engine at the same time',
  'Threads that work on different databases at the same time, and threads that only query a common one, get the same answers as alone, free of data races, whatever the schedule. '
  'A database may be used by different threads in turn. database_lock and table_lock exclude other threads, and creating a table takes and releases the database lock.',
  ['schedules', 'histories'], 'all schedules of 2..16 threads, with valid, invalid and malformed statements', 'tests are single-threaded',
  ['src/parser/midorisql.l', 'src/parser/midorisql.y', 'src/parser/syntax.c', 'src/engine/query.c', 'src/engine/database.c', 'src/primitive/datablock.c', 'src/primitive/table.c', 'src/engine/executor_create.c'],
  [('reentrant scanner and parser', 'src/parser/midorisql.l, midorisql.y'), ('database and table locks', 'src/engine/database.c, src/primitive/table.c'), ('block ids', 'src/primitive/datablock.c')],
  observe=['results of every thread', 'ThreadSanitizer reports', 'order of starts and ends of commands'],
  technique='race detection (ThreadSanitizer) plus per-thread history oracles under stress and random delays',
  note='Three schedules in four run under ThreadSanitizer, one under AddressSanitizer; each thread is judged by its own model. Trusts the sanitizers; schedules are sampled (their number is in the evidence).')
p('P15', 'The B-tree is an exact, balanced map',
  'After any sequence of insertions (of distinct keys), updates and removals, looking up a key yields the value last stored for it, or nothing if it is absent or was removed. '
  'The tree stays sorted and balanced with node sizes within the bounds of its degree, keeps no reference to removed keys, and destroying it frees everything.',
  ['histories', 'inputs'], 'all histories, degrees and key types', 'tests check fixed sequences; rebalancing mistakes depend on long, particular histories',
  ['src/datastructure/btree.c'], [('splits, merges, borrowing', 'src/datastructure/btree.c')],
  observe=['lookups of every key of the domain', 'a walk of the nodes', 'bytes on the heap'],
  technique='runtime monitor: reference map and structural invariants over random histories, ASan/UBSan', note=NATNOTE)
p('P16', 'The hash table is an exact map',
  'After any sequence of puts and removals, every key present yields exactly its value, absent keys yield nothing, a put of a present key is refused and changes nothing. '
  'Iteration visits every entry once, entries may be removed meanwhile, the count is right, also with colliding keys and through resizes. The table keeps its own copies of keys and values.',
  ['histories', 'inputs'], 'all histories, key and value contents and sizes, hash functions', 'tests use a few keys; collisions, resizes and their combination with removals are hardly sampled',
  ['src/datastructure/hashtable.c', 'src/datastructure/linkedlist.c'], [('resize', 'src/datastructure/hashtable.c: hashtable_resize')],
  observe=['lookups of every key', 'iteration', 'count', 'bytes on the heap'],
  technique='runtime monitor: reference map over random histories, ASan/UBSan', note=NATNOTE)
p('P17', 'Queues, stacks, vectors and lists keep their items and order',
  'Queues return items first-in first-out, stacks last-in first-out, vectors the concatenation of what was pushed, lists the order of insertion; peeking changes nothing, positions, lengths and emptiness are exact, '
  'items are copied (unless pushed without copying), and freeing a container frees all it owns.',
  ['histories', 'inputs'], 'all histories and item sizes', 'tests push a few small items',
  ['src/datastructure/queue.c', 'src/datastructure/stack.c', 'src/datastructure/vector.c', 'src/datastructure/linkedlist.c'],
  [('growth', 'src/datastructure/vector.c: vector_push')], observe=['contents after every operation', 'bytes on the heap'],
  technique='runtime monitor: reference sequences over random histories, ASan/UBSan', note=NATNOTE)
p('P18', 'Bit, string and pattern utilities are exact',
  'Setting, clearing, toggling and testing a bit affects exactly that bit of a field; prefix tests and random strings are exact for all lengths; '
  'a pattern match yields every group with its exact text, a mismatch leaves nothing behind, and neither touches memory outside the given buffers.',
  ['inputs'], 'all fields of up to 256 bits, strings and group patterns', 'tests check a few values',
  ['src/lib/bit.c', 'src/lib/string.c', 'src/lib/regex.c'], [('bit addressing', 'src/lib/bit.c'), ('group extraction', 'src/lib/regex.c')],
  observe=['every bit of the field', 'groups on the stack', 'bytes on the heap'],
  technique='runtime monitor: reference results over random inputs, ASan/UBSan', note=NATNOTE)
