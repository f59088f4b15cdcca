"""property id -> check"""
import vf
import checks_sql as S
import checks_sql2 as S2
import checks_prim as CP
import checks_thr as CT
import checks_oom as CO


def msan_used(c, exes):
    c.assumptions += ['one unit in four runs under MemorySanitizer (clang) instead of ASan/UBSan (gcc)'] if exes[3] != exes[0] else ['clang could not compile the tree: no MemorySanitizer']


def simple(fn, nq, nt, per, rule, *extra, scale=()):
    """scale: [(name, statements per unit, units quick, units thorough)], the same check at sizes that are out of the ordinary"""
    def run(c):
        # the heap's balance is ASan's business
        exes = vf.pair('sqldrv.c', 'sqldrv') if fn is not S2.unit_leak else [vf.link(vf.build('asan'), 'sqldrv.c', 'sqldrv')] * 4
        n = c.pick(nq, nt)
        units = []
        if scale:
            plain = vf.link(vf.build('plain'), 'sqldrv.c', 'sqldrv', ('-DPLAIN',)) if fn is not S2.unit_leak else exes[0]
            for nm, stmts, q, t in scale:
                heavy = nm in ('rows', 'total', 'groups', 'long')
                # those with tens of thousands of rows would take too long with a sanitizer
                units += [(plain if heavy or i % 2 else exes[0], c.seed, i, stmts) + extra + (nm,) for i in range(c.pick(q, t))]
        c.run_units(fn, units + [(exes[i % 4], c.seed, i, per) + extra for i in range(n)])
        c.res.tally.add('large_scale_units', len(units))
        if fn is not S2.unit_leak:
            msan_used(c, exes)
        c.assumptions += ['time zone UTC, or one with fixed daylight saving rules; the statements stay within the dialect the engine documents as implemented']
        c.finish(rule)
    return run


CHECKS = {
    'P01': simple(S.unit_insert, 300, 6000, 14, 'random schemas and INSERT statements (column lists, multi-row, expressions); non-trivial: distinct (column types, column list used, value shapes, row count)', scale=[('rows', 14, 3, 60), ('total', 11, 1, 20), ('wide', 14, 3, 60)]),
    'P02': simple(S.unit_select, 400, 8000, 25, 'random tables and WHERE trees; non-trivial: distinct sets of condition kinds that selected a proper, non-empty subset of the rows, by selectivity', scale=[('rows', 8, 4, 80), ('cond', 8, 8, 160), ('cols', 8, 4, 80)]),
    'P03': simple(S.unit_delupd, 400, 8000, 16, 'random tables and DELETE statements; non-trivial: distinct sets of condition kinds that hit a proper, non-empty subset of the rows', 'P03', scale=[('rows', 6, 4, 80), ('cond', 6, 8, 160), ('cols', 6, 3, 60)]),
    'P04': simple(S.unit_delupd, 400, 8000, 16, 'random tables and UPDATE statements; non-trivial: distinct sets of condition kinds (and number of assignments) that hit a proper, non-empty subset of the rows', 'P04', scale=[('rows', 6, 4, 80), ('cond', 6, 8, 160), ('cols', 6, 3, 60)]),
    'P05': simple(S.unit_join, 400, 8000, 16, 'random tables joined 2..4 at a time; non-trivial: distinct (tables, form, kinds of ON conditions, result size) with a non-empty result', scale=[('rows', 6, 4, 80), ('cond', 6, 6, 120), ('tables', 8, 6, 120)]),
    'P06': simple(S.unit_group, 400, 8000, 20, 'random tables and GROUP BY / COUNT queries; non-trivial: distinct (key types, select items, join, where, groups) in which at least one group has several rows', scale=[('rows', 8, 3, 60), ('groups', 8, 4, 80), ('cols', 8, 5, 100)]),
    'P07': simple(S2.unit_reject, 400, 8000, 25, 'invalid statements of every class (types, NULLs, lengths, ranges, counts, unknown and duplicate names, syntax), alone or as one row of many, against populated tables; non-trivial: distinct classes of violation'),
    'P08': simple(S2.unit_create, 250, 5000, 14, 'random table definitions; non-trivial: distinct (column types and attributes, number of columns, IF NOT EXISTS, name taken)', scale=[('tables', 400, 2, 40)]),
    'P09': simple(S2.unit_cursor, 300, 6000, 40, 'histories of queries whose results stay open while data changes; non-trivial: distinct (query kind, rows, results open at a time) of results read to the end', scale=[('rows', 20, 4, 80)]),
    'P11': simple(S2.unit_leak, 300, 6000, 30, 'statements of every kind and outcome; non-trivial: distinct (kind, outcome, shape of the result, class of error) whose heap balance was observed', scale=[('rows', 20, 4, 80)]),
    'P10': simple(S2.unit_hostile, 320, 12000, 60, 'statement texts derived from the grammar, token soup, mutated statements, mutated bytes and extreme sizes; non-trivial: distinct (generator, outcome, error text without names and numbers)'),
    'P20': simple(S2.unit_lexical, 300, 6000, 25, 'pairs of spellings (case, white space, comments, quoting, operator synonyms, qualified names, redundant parentheses) of random statements, on twin databases; non-trivial: distinct (statement kind, outcome, result size)'),
    'P21': simple(S2.unit_isolation, 250, 5000, 120, 'interleaved histories on 2..8 databases of one process, with equal table names; non-trivial: distinct (kind of outcome, databases open)', scale=[('many', 500, 2, 40)]),
    'P22': simple(S2.unit_history, 250, 3000, 120, 'histories of statements of every kind over several tables, judged by a model that only sees the statements; non-trivial: distinct (outcome, rows in the database, position in the history)', scale=[('long', 2500, 3, 60)]),
}


def native(src, exe, plan, rule):
    """plan: [(module, rounds per process, processes quick, processes thorough, extra args)]"""
    def run(c):
        exes = vf.pair(src, exe)
        units = [(exes[i % 4], m, vf.derive(c.seed, m, i), rounds, extra) for m, rounds, nq, nt, extra in plan for i in range(c.pick(nq, nt))]
        c.run_units(CP.unit_native, units)
        msan_used(c, exes)
        c.finish(rule)
    return run


CHECKS.update({
    'P15': native('primdrv.c', 'primdrv', [('btree', 60, 88, 6000, ()), ('btree_big', 1, 12, 1500, ())],
                  'histories of insert/lookup/update/remove (random, ascending, descending keys; integer and string keys; degrees 2..61, and up to 460 with 43,000 keys; growing and shrinking phases); '
                  'non-trivial: distinct (degree, depth, magnitude of the size, phase, key order) at which every key of the domain was looked up and the tree was walked'),
    'P16': native('primdrv.c', 'primdrv', [('hashtable', 60, 88, 6000, ()), ('hashtable_big', 1, 12, 1500, ())],
                  'histories of put/get/remove/foreach (string and binary keys; good, weak and constant hash functions; through several resizes, up to 95,000 entries); '
                  'non-trivial: distinct (hash and key kind, magnitude of the size, capacity) at which every key was looked up and iterated'),
    'P17': native('primdrv.c', 'primdrv', [('queue', 200, 40, 3000, ()), ('stack', 200, 40, 3000, ()), ('vector', 200, 40, 3000, ()), ('list', 200, 40, 3000, ()), ('seq_big', 2, 8, 600, ())],
                  'histories of queue, stack, vector and list operations with items of 1..700 bytes, up to 23,000 items and vectors of a megabyte; non-trivial: distinct (structure, size, position in the history)'),
    'P18': native('primdrv.c', 'primdrv', [('bit', 100, 40, 2000, ()), ('string', 60, 40, 2000, ()), ('regex', 30, 40, 2000, ())],
                  'random bit fields, prefixes, random strings and group patterns, groups of up to 10,000 characters; non-trivial: distinct (utility, lengths, outcome)'),
})


def threads(c):
    ts = vf.link(vf.build('tsan'), 'thrdrv.c', 'thrdrv')
    as_ = vf.link(vf.build('asan'), 'thrdrv.c', 'thrdrv')
    n = c.pick(64, 2500)
    c.run_units(CT.unit_threads, ((as_ if i % 4 == 3 else ts, c.seed, i, c.pick(50, 80)) for i in range(n)))
    c.assumptions += ['statements that change a database are serialised by the caller (the engine says so in query.c), queries are not']
    c.finish('2..8 threads: each on its own databases, all on one database in turns, all querying one database at once, lock contention; '
             'non-trivial: distinct interleavings (orders of the starts and ends of commands)')


CHECKS['P14'] = threads
CHECKS.update({
    'P12': native('stordrv.c', 'stordrv', [('rows', 12, 88, 4000, ()), ('rows_big', 1, 24, 2000, ())],
                  'histories of row insertions, updates, deletions and vacuums on random tables (1..128 columns, rows of 25..1100 bytes, also ones that divide a block evenly; up to thousands of rows in hundreds of blocks); '
                  'non-trivial: distinct (row size, blocks, kinds of operations so far, magnitude of the row count) at which the whole table was compared'),
    'P13': native('stordrv.c', 'stordrv', [('columns', 12, 88, 4000, ()), ('columns_big', 1, 24, 2000, ())],
                  'the same histories with columns added and removed in between; non-trivial: as for P12'),
})


def oom(c):
    b = vf.build('oom')
    sql = vf.link(b, 'oomdrv.c', 'oomdrv')
    prim = vf.link(b, 'primdrv.c', 'primoom', ('-DOOM',))
    stor = vf.link(b, 'stordrv.c', 'storoom', ('-DOOM',))
    plan = [(prim, m, r, q, t) for m, r, q, t in [('btree', 40, 8, 600), ('hashtable', 40, 16, 600), ('queue', 100, 8, 300), ('stack', 100, 8, 300), ('vector', 150, 8, 300), ('regex', 20, 8, 300), ('seq_big', 1, 2, 60)]]
    plan += [(stor, m, 8, 16, 600) for m in ('rows', 'columns')]
    units = [(x, m, vf.derive(c.seed, 'oom', m, i), r) for x, m, r, q, t in plan for i in range(c.pick(q, t))]
    c.run_units(CP.unit_native, units)
    c.run_units(CO.unit_scan, [(sql, c.seed)])
    if not c.unknown():
        c.run_units(CO.unit_oom, ((sql, c.seed, i, 14, c.pick(60, 160)) for i in range(c.pick(56, 1500))))
    c.assumptions += ['allocations made by the C library and by the parser skeleton (bison) are left alone; those of the scanner skeleton (flex) fail for three statements only', 'one allocation fails, or it and all later ones of the operation']
    c.finish('histories of statements, and of storage and container operations, with failing allocations; non-trivial: distinct (kind of statement, allocation site, outcome), and states as for P12, P13, P15 to P18')


CHECKS['P19'] = oom
