"""Which proof groups decide which property.

OWN[id]: goals (regular expressions over 'group|function|goal') that state the property; DEP[id]: groups whose contracts those
goals rely on; SAFE: the property is the set of all safety obligations of the groups."""
import re

GROUPS = ['g_ops.matseq', 'g_ops.ops_dense', 'g_ops.ops_mpc', 'g_parts.variable', 'g_parts.residual', 'g_parts.feasibility',
          'g_newton.dense_newton', 'g_newton.riccati_newton', 'g_alg.dense', 'g_alg.dense_map', 'g_alg.mpc', 'g_alg.mpc_map',
          'g_front.options', 'g_front.sizes', 'g_front.opargs', 'g_front.solvers', 'g_front.front_dense', 'g_front.front_mpc']
ALG = ['g_alg.dense', 'g_alg.dense_map', 'g_alg.mpc', 'g_alg.mpc_map']
OPS = ['g_ops.ops_dense', 'g_ops.ops_mpc', 'g_ops.matseq']
alg = lambda c: r'^g_alg\.\w+\|[^|]*\|' + c
GRAD = r'(gradient|lemma)'
OWN = {
    'C01': [r'^g_parts\.residual\|'],
    'C02': [r'^g_ops\.ops_(dense|mpc)\|'],
    'C03': [r'^g_newton\.dense_newton\|'],
    'C04': [r'^g_newton\.riccati_newton\|'],
    'C05': [alg('C05')],
    'C06': [r'^g_parts\.feasibility\|', alg('C06')],
    'C07': [alg('C07'), r'^g_parts\.variable\|[^|]*\|.*margin', r'^g_newton\.\w+\|[^|]*\|.*the margin of the step'],
    'C08': [alg('C08')],
    'C09': [r'^g_front\.options\|', alg('C09')],
    'C10': [alg('C10')],
    'C11': [r'^g_front\.(sizes|solvers|opargs)\|', r'^g_front\.front_\w+\|(?!.* (?:storage|variables)\|)', r'^g_ops\.matseq\|[^|]*\|.*constructor'],
    'C19': [r'^g_\w+\.\w+\|no goal: the property is the set of all safety obligations\|', r'^g_(ops|parts|newton)\.\w+\|[^|]*\|.*(never throws on conforming operands|does not throw on valid arguments)'],
    'C13': [alg('C13'), r'^g_(parts|newton)\.\w+\|[^|]*\|.*earlier contents'],
    'C14': [alg('C14'), r'^g_(parts|newton|ops)\.\w+\|[^|]*\|.*changes nothing',
            r'^g_front\.(options|front_dense|front_mpc)\|[^|]*\|.*(only touched by|changes only|changes nothing)'],
    'C16': [alg('C16')],
    'C18': [alg('C18')],
    'C12': [r'^g_ops\.matseq\|'],
    'C15': [r'^g_newton\.\w+\|[^|]*\|' + GRAD, r'^g_parts\.residual\|[^|]*\|complementarity'],
    'C17': [r'^g_parts\.variable\|', r'^g_front\.front_\w+\|[^|]* variables\|'],
}
DEP = {
    'C01': ['g_ops.ops_dense', 'g_ops.ops_mpc', 'g_ops.matseq'],
    'C02': ['g_ops.matseq'],
    'C03': ['g_ops.ops_dense'],
    'C04': ['g_ops.ops_mpc', 'g_ops.matseq'],
    'C05': ['g_parts.variable', 'g_parts.residual'] + OPS,
    'C06': ['g_parts.variable'] + OPS,
    'C07': OPS,
    'C08': [], 'C09': [], 'C11': [], 'C13': [], 'C14': [], 'C16': [], 'C19': [],
    'C10': ['g_parts.variable', 'g_parts.residual'] + OPS,
    'C18': ['g_parts.variable', 'g_parts.residual'] + OPS,
    'C12': [], 'C15': [],
    'C17': ['g_ops.ops_dense', 'g_ops.ops_mpc', 'g_ops.matseq'],
}
def own_groups(pid):
    out = []
    for r in OWN[pid]:
        head = r[1:].split(r'\|')[0]
        out += [g for g in GROUPS if re.match('^' + head + '$', g) and g not in out]
    return out
def groups(pid): return list(dict.fromkeys(own_groups(pid) + DEP[pid]))
def is_own(pid, g, fn, name):
    s = '%s|%s|%s' % (g, fn, name)
    return any(re.search(r, s) for r in OWN[pid])
def safe_own(pid, g):
    """are the safety obligations of the group part of the property?"""
    return pid == 'C19' or (pid == 'C12' and g == 'g_ops.matseq')
