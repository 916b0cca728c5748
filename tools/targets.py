"""What each check is built from."""
LIB_EXCLUDE = {'WasmAlgo.cpp', 'WasmDSL.cpp', 'WasmOperator.cpp', 'WasmUtil.cpp', 'WebAssembly.cpp', 'V8Engine.cpp', 'WebSocketServer.cpp'}
VARIANTS = {
    'o1': dict(lib=['-O1', '-g0'], harness=['-O1', '-g0'], link=['-pthread']),
    'asan': dict(lib=['-O1', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'],
                 harness=['-O1', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined'],
                 link=['-pthread', '-fsanitize=address,undefined', '-fsanitize-link-c++-runtime']),
    'mc': dict(lib=['-O1', '-g0'], harness=['-O1', '-gline-tables-only', '-fsanitize=thread'], rt=['-O2', '-g0'], link=['-pthread', '-rdynamic', '-ldl']),
}
TARGETS = {
    'C15': dict(src=['checks/graph.cpp'], lib=['AdjacencyMatrix', 'ADT', 'fn']),
    'C16': dict(variant='mc', src=['checks/rwmutex.cpp', 'common/mc_rt.cpp'], lib=[]),
    'C01': dict(src=['checks/sql_expr.cpp']),
    'C02': dict(src=['checks/sql_join.cpp']),
    'C03': dict(src=['checks/sql_agg.cpp']),
    'C04': dict(src=['checks/sql_order.cpp']),
    'C05': dict(src=['checks/sql_nested.cpp']),
    'C06': dict(src=['checks/sql_insert.cpp']),
    'C07': dict(src=['checks/layout.cpp']),
    'C08': dict(src=['checks/dsv.cpp']),
    'C14': dict(src=['checks/joinorder.cpp']),
    'C26': dict(src=['checks/estimator.cpp']),
    'C13': dict(src=['checks/cnf.cpp']),
    'C21': dict(src=['checks/sets.cpp'], lib=['ADT', 'fn']),
    'C20': dict(src=['checks/containers.cpp'], lib=['ADT', 'fn']),
    'C23': dict(src=['checks/strings.cpp'], lib=['ADT', 'fn'], variant='asan'),
    'C19': dict(src=['checks/allocators.cpp'], lib=['ADT', 'fn']),
    'C28': dict(src=['checks/tuples.cpp']),
    'C10': dict(src=['checks/lexer.cpp'], lib=['Lexer', 'ADT', 'fn']),
    'C11': dict(src=['checks/parser.cpp']),
    'C29': dict(src=['checks/argparser.cpp'], lib=['ArgParser', 'ADT', 'fn']),
    'C30': dict(src=['checks/memory.cpp'], lib=['memory', 'ADT', 'fn']),
    'C18': dict(variant='mc', src=['checks/scheduler.cpp', 'common/mc_rt.cpp'], instrument=['SerialScheduler', 'Scheduler']),
    'C22': dict(src=['checks/indexes.cpp']),
    'C25': dict(src=['checks/versions.cpp']),
    'C24': dict(src=['checks/dates.cpp']),
    'C09': dict(src=['checks/ddl.cpp']),
    'C12': dict(src=['checks/sema.cpp']),
    'C17': dict(variant='mc', src=['checks/pool.cpp', 'common/mc_rt.cpp'], lib=['fn']),
    'C27': dict(src=['checks/heursearch.cpp'], heuristic=True, ldflags=['-lboost_container']),
    'sqlsh': dict(src=['sqlsh.cpp']),
}
