# property -> harness runs: (source, variant, searches (or fraction of one) in the quick tier, in the thorough tier)
A, B, T, H, X, F = 'p_arith.cpp', 'p_bits.cpp', 'p_text.cpp', 'p_history.cpp', 'p_expr.cpp', 'p_frac.cpp'
C, M, S, P = 'p_c.cpp', 'p_format.cpp', 'p_status.cpp', 'p_par.cpp'
U = 'p_parts.cpp'
MEM = dict(args=['--crash-only'], what='[address and undefined-behaviour sanitizers over cases of another property; only invalid accesses, undefined behaviour and deaths by signal count]')
LEAK = dict(args=['--leak'], what='[heap balance over cases of another property: the case is run again and must give back every block it takes]')


BIG = {'C%02d' % i for i in range(1, 12)} | {'C20'}  # many cheap cases: a smaller share of them


def mem(src, prop, quick=None, thorough=None):
    quick, thorough = quick or (0.03 if prop in BIG else 0.2), thorough or (0.15 if prop in BIG else 0.5)
    return (src, 'asan', quick, thorough, dict(MEM, prop=prop))
def leak(src, prop, quick=None, thorough=None):
    quick, thorough = quick or (0.03 if prop in BIG else 0.2), thorough or (0.15 if prop in BIG else 0.5)
    return (src, 'leak', quick, thorough, dict(LEAK, prop=prop))


PROPS = {
    'C01': dict(runs=[(A, 'dbg', 1, 1), (A, 'rel', 0, 1)]),
    'C02': dict(runs=[(A, 'dbg', 1, 1), (A, 'rel', 0, 1)]),
    'C03': dict(runs=[(A, 'dbg', 1, 1), (A, 'rel', 0, 1)]),
    'C04': dict(runs=[(B, 'dbg', 1, 1), (B, 'rel', 0, 1)]),
    'C05': dict(runs=[(B, 'dbg', 1, 1), (B, 'rel', 0, 1)]),
    'C06': dict(runs=[(B, 'dbg', 1, 1), (B, 'rel', 0, 1)]),
    'C07': dict(runs=[(T, 'dbg', 1, 1), (T, 'rel', 0, 1)]),
    'C08': dict(runs=[(T, 'dbg', 2, 1), (T, 'rel', 0, 1)]),
    'C09': dict(runs=[(T, 'dbg', 2, 1), (T, 'rel', 0, 1)]),
    'C10': dict(runs=[(T, 'dbg', 1, 1), (T, 'rel', 0, 1)]),
    'C11': dict(runs=[(T, 'dbg', 2, 1), (T, 'rel', 0, 1)]),
    'C12': dict(runs=[(H, 'dbg', 1, 1), (H, 'rel', 0, 1)]),
    'C13': dict(runs=[(X, 'dbg', 1, 1), (X, 'rel', 0, 1)]),
    'C15': dict(runs=[(X, 'dbg', 2, 1), (X, 'rel', 0, 1)]),
    'C38': dict(runs=[(X, 'dbg', 2, 1), (X, 'rel', 0, 1)]),
    'C40': dict(runs=[(X, 'dbg', 1, 1), (P, 'sched', 1, 1, dict(prop='C40threads')), (X, 'rel', 0, 1)]),
    'C16': dict(runs=[(X, 'dbg', 1, 1), (X, 'rel', 0, 1)]),
    'C20': dict(runs=[(X, 'dbg', 2, 1), (X, 'rel', 0, 1)]),
    'C17': dict(runs=[(F, 'dbg', 1, 1), (F, 'rel', 0, 1)]),
    'C18': dict(runs=[(F, 'dbg', 2, 1), (F, 'rel', 0, 1)]),
    'C19': dict(runs=[(F, 'dbg', 2, 1), (F, 'rel', 0, 1)]),
    'C21': dict(runs=[('p_status.cpp', 'dbg', 1, 1), ('p_status.cpp', 'rel', 0, 1)]),
    'C25': dict(runs=[('p_c.cpp', 'dbg', 4, 2), ('p_c.cpp', 'rel', 0, 1)]),
    'C29': dict(runs=[('p_c.cpp', 'dbg', 3, 1), ('p_c.cpp', 'rel', 0, 1)]),
    'C28': dict(runs=[('p_format.cpp', 'dbg', 3, 1), ('p_format.cpp', 'rel', 0, 1)]),
    'C30': dict(runs=[(U, 'dbg', 8, 4), (U, 'rel', 0, 1)]),
    'C31': dict(runs=[(U, 'dbg', 8, 4), (U, 'rel', 0, 1)]),
    'C32': dict(runs=[(U, 'dbg', 2, 1), (U, 'rel', 0, 1)]),
    'C33': dict(runs=[(U, 'dbg', 8, 4), (U, 'rel', 0, 1)]),
    'C34': dict(runs=[(U, 'dbg', 6, 3), (U, 'rel', 0, 1)]),
    'C35': dict(runs=[('p_static.cpp', 'dbg', 2, 1), ('p_static.cpp', 'rel', 1, 1)]),
    'C36': dict(runs=[('p_cost.cpp', 'cost', 1, 1)]),
    'C37': dict(runs=[('p_cost.cpp', 'cost', 1, 1)]),
    'C14': dict(runs=[(P, 'sched', 1, 1), (X, 'dbg', 1, 1, dict(prop='C14wide'))]),
    'C22': dict(runs=[(P, 'sched', 1, 1), (P, 'sched', 1, 1, dict(prop='C22first'))]),
    'C23': dict(runs=[(P, 'sched', 1, 1)]),
    'C24': dict(runs=[(P, 'sched', 1, 1)]),
    'C27': dict(runs=[(P, 'sched', 1, 1)]),
    'C39': dict(runs=[(P, 'sched', 1, 1)]),
    'C26': dict(runs=[
        mem(A, 'C01'), mem(A, 'C02'), mem(A, 'C03'), mem(B, 'C04'), mem(B, 'C05'), mem(B, 'C06'), mem(T, 'C07'), mem(T, 'C08'), mem(T, 'C09'), mem(T, 'C10'), mem(T, 'C11'),
        mem(H, 'C12'), mem(X, 'C13'), mem(X, 'C15'), mem(X, 'C16'), mem(X, 'C20'), mem(X, 'C38'), mem(X, 'C40', 0.06, 0.2), mem(F, 'C17'), mem(F, 'C18'), mem(F, 'C19'), mem(S, 'C21'), mem(C, 'C25'), mem(M, 'C28'), mem(C, 'C29'), mem(U, 'C30'), mem(U, 'C31'), mem(U, 'C32'), mem(U, 'C33'), mem(U, 'C34'),
        leak(A, 'C01'), leak(A, 'C02'), leak(A, 'C03'), leak(B, 'C04'), leak(B, 'C05'), leak(T, 'C07'), leak(T, 'C08'), leak(T, 'C09'), leak(H, 'C12'), leak(X, 'C13'), leak(X, 'C15'), leak(X, 'C16'), leak(X, 'C40', 0.06, 0.2), leak(F, 'C17'),
        leak(F, 'C18'), leak(C, 'C25'), leak(M, 'C28'), leak(C, 'C29'), leak(U, 'C30'), leak(U, 'C31'), leak(U, 'C33'), leak(U, 'C34')]),
}
