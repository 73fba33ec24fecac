"""What each check builds and how much it simulates."""
MEM = {
    'cxx': 'g++-14',
    'flags': ['-std=c++23', '-O1', '-g1', '-fsanitize=address'],
    'cfg_flags': ['-fsanitize-coverage=trace-pc'],
    'runtime': ['rt.cpp', 'tree_gen.cpp'],
    'link': ['-Wl,--wrap=mmap,--wrap=mmap64,--wrap=munmap,--wrap=madvise'],
    'time_unit': 'basic blocks of library code executed (simulated step clock)',
    'state_measure': 'distinct fingerprints of (operation, size of every container, live nodes per allocator, mappings) after a step',
    'real': ['the library headers under /repo/include, unmodified, compiled with AddressSanitizer and step-clock instrumentation'],
    'stub': ['mmap/munmap/madvise and page placement (simulated system memory)', 'operator new/delete (counted, fault-injecting)', 'user key, value, comparator and allocator types (instrumented, fault-injecting)', 'NUMA node of the running thread'],
    'assumptions': ['moves and destructors of user types do not throw', 'g++-14 -O1, x86-64'],
}
WRAPS = ['mmap', 'mmap64', 'munmap', 'madvise', 'malloc', 'calloc', 'aligned_alloc', 'posix_memalign', 'free', 'realloc', 'memcpy', 'memmove', 'memset', 'memcmp', '__cxa_allocate_exception',
         'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock',
         '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_once']
CONC = {
    'cxx': 'g++-14',
    'flags': ['-std=c++23', '-O1', '-g1', '-pthread'],
    'cfg_flags': ['-fsanitize=thread'],
    'runtime': ['rt.cpp', 'tree_gen.cpp', 'conc.cpp'],
    'link': ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)],
    'pin': True,
    'time_unit': 'memory accesses of library code executed by all simulated threads (each one a scheduling point)',
    'state_measure': 'distinct fingerprints of (step every thread is in, accesses made by the thread being suspended, next thread) at a context switch',
    'real': ['the library headers under /repo/include, unmodified, every memory access, atomic operation and lock instrumented by the compiler and reported to the simulator'],
    'stub': ['thread scheduling (one thread runs at a time; the plan decides where it is suspended)', 'mutexes, read-write locks, once-initialisation', 'mmap/munmap/madvise (simulated system memory)', 'operator new/delete (counted, fault-injecting)'],
    'assumptions': ['the executed schedule is sequentially consistent; weaker orderings are caught only as happens-before races', 'code inside libstdc++.so is not instrumented', 'g++-14 -O1, x86-64'],
}
ENGINES = {'mem': MEM, 'conc': CONC}
T_CONC = 'deterministic simulation with fault injection: seeded schedules of real threads at memory-access granularity, happens-before race detection and reference models over the executed history'
T_SIM = ['sim1', 'sim2', 'sim3']
T_PRIM = ['prim1', 'prim2', 'prim3', 'prim4', 'prim5']
T_PRIM2 = ['prim6', 'prim7', 'prim8', 'prim9', 'prim10', 'prim11', 'prim12']
T_POOL = ['huge', 'pol', 'multi']
T_NP = ['np', 'np2']
T_MIX = ['mixpol', 'mixmulti']
T_ND = ['sim_nd', 'sim_nd2']            # the same, with the library compiled -O2 -DNDEBUG
POOLS = ['pool', 'alloc', 'pool_nd', 'alloc_nd']
D = ['dense%d' % i for i in range(1, 17)] + ['dense_nd']
DP = ['dense%d' % i for i in range(3, 17)]


def p(cfgs, q, t, engine='mem', **kw):
    d = {'engine': engine, 'cfgs': cfgs, 'quick': {'runs': q, 'tmax': 150}, 'thorough': {'runs': t, 'tmax': 600, 'size': 2}}
    d.update(kw)
    return d


PROPS = {
    'C01': p(T_SIM + T_PRIM + T_PRIM2 + ['str'] + T_POOL + T_MIX, 6000, 120000),
    'C02': p(T_SIM + T_ND + T_PRIM + ['str'] + T_POOL, 8000, 120000, must_fire=['alloc', 'heap', 'mmap', 'failed_insert_oom']),
    'C03': p(T_SIM + T_ND + ['str'] + D[:2], 8000, 120000, must_fire=['vcopy', 'kcopy', 'vctor', 'failed_insert_user']),
    'C04': p(T_SIM + T_ND + T_NP + ['str'] + T_POOL + T_MIX + D[:2], 8000, 120000),
    'C05': p(T_SIM[:1] + T_NP + T_POOL + T_MIX + ['alloc'], 10000, 150000),
    'C06': p(T_SIM + T_ND + T_PRIM + ['str'], 8000, 120000),
    'C07': p(['conc_r1', 'conc_r2', 'conc_r3', 'conc_r4'], 48000, 1500000, engine='conc', technique=T_CONC, must_fire=['switches']),
    'C08': p(['conc_p1', 'conc_p2', 'conc_p3', 'conc_p4', 'conc_p5'], 9000, 400000, engine='conc', technique=T_CONC, must_fire=['switches', 'heap', 'mmap'], defines=['-DALLOCATOR_STATS']),
    'C09': p(POOLS + T_POOL, 14000, 150000),
    'C10': p(POOLS + T_POOL, 14000, 150000, must_fire=['mmap', 'heap']),
    'C11': p(POOLS + T_POOL, 14000, 150000, must_fire=['huge']),
    'C12': p(POOLS + T_POOL, 14000, 150000),
    'C13': p(POOLS + T_POOL + T_MIX, 14000, 150000),
    'C14': p(['pool', 'pool_nd'], 14000, 200000),
    'C15': p(POOLS, 14000, 200000, defines=['-DALLOCATOR_STATS']),
    'C25': p(POOLS, 12000, 200000, must_fire=['mmap', 'heap']),
    'C16': p(['pol', 'mixpol', 'pol_nd', 'alloc'], 8000, 150000, defines=['-DALLOCATOR_STATS']),
    'C17': p(POOLS, 14000, 150000),
    'C18': p(D, 16000, 300000),
    'C19': p(T_SIM + T_ND + T_PRIM + ['prim12'], 8000, 120000),
    'C20': p(T_SIM + T_ND + T_NP + ['str'] + T_POOL, 8000, 120000, must_fire=['failed_copy', 'failed_copy_assign']),
    'C24': p(T_SIM + T_ND + ['str'], 8000, 120000, must_fire=['failed_erase_user', 'failed_erase_oom']),
    # assertions compare keys too, after the fact: decided on builds without them
    'C26': p(T_ND + ['dense_nd'], 12000, 200000, must_fire=['cmp', 'failed_insert_user', 'failed_erase_user', 'failed_lookup']),
    'C27': p(T_SIM + T_ND + T_PRIM[:3] + ['prim12', 'str'] + T_POOL + D[:4] + ['dense_nd'], 8000, 120000, must_fire=['aliased_arguments', 'kept_handles', 'kept_over_overwrite']),
    'C28': p(T_SIM + T_ND + T_NP + T_PRIM[:2] + T_POOL + T_MIX + POOLS, 10000, 150000, must_fire=['without_memory', 'released_without_memory', 'alloc', 'heap', 'mmap']),
    'C29': p(T_SIM + T_ND + T_NP + ['str'] + T_POOL + D[:2] + ['dense_nd'], 10000, 150000, must_fire=['alloc', 'kcopy', 'rvalue_kept_on_failure', 'rvalue_kept_on_present_key', 'failed_elementwise_move']),
    'C21': p(DP + T_PRIM, 14000, 300000),
    'C23': p(['cost1', 'cost2'], 900, 12000, min_runs=50, technique='deterministic simulation: seeded histories over real code timed with a simulated step clock; progress of every operation within a step bound logarithmic in the contents'),
}
