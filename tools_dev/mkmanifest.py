import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from cv import props
ALG = 'FBstabAlgorithm::Solve and the functions it calls, for all four instantiations used by the library, over the component contracts; loop invariants inferred and checked.'
NOTE = {
 'C01': 'FullResidual under contract for all sizes, all data meeting the Data contract (itself proved for DenseData and MpcData); real arithmetic; Eigen trusted.',
 'C02': 'Every gemv/axpy of DenseData and MpcData for all sizes, horizons and stages (loop invariants inferred and checked); real arithmetic; Eigen trusted.',
 'C03': 'DenseCholeskySolver::Initialize/Solve for all sizes; an Eigen LDLT reporting Success is trusted to solve exactly; real arithmetic.',
 'C04': 'RiccatiLinearSolver::Initialize/Solve for all horizons and stage sizes (induction over stages); Eigen LLT/LDLT trusted to factor exactly on Success; real arithmetic.',
 'C05': ALG + ' Exit certificates are postconditions of Solve over the residual contract (C01).',
 'C06': ALG + ' FullFeasibility::CheckFeasibility under contract for all sizes.',
 'C07': ALG + ' Margins of FullVariable and of both Newton steps under contract.',
 'C08': ALG + ' Ghost counters of systems, trials and updates; ranking functions for every loop.',
 'C09': 'ValidateOptions, UpdateParameters, CurrentParameters, presets and the front ends under contract for every option value including NaN and infinities; the solve loop never fails with an internal error except on a failed factorization.',
 'C11': 'Every constructor, Solve instantiation and argument check, for all combinations of sizes, shapes and sequence lengths: accepted exactly when consistent. Sizes are mathematical integers.',
 'C19': 'All size, index, aliasing and null obligations of every function under contract, for all sizes; integer overflow of sizes is not modelled.',
 'C10': ALG + ' Ghost line search run beside the code; merits assumed to be numbers.',
 'C13': ALG + ' Earlier contents of every workspace are arbitrary symbols; no result or decision may mention one.',
 'C14': ALG + ' Frame conditions of every operation.',
 'C16': ALG + ' Every print call is checked for its guard and the values of its conversions; text itself is not judged.',
 'C18': ALG + ' Ghost state of centre, current iterate, factorized system.',
 'C12': 'MatrixSequence and MapMatrixSequence for all sizes and indices.',
 'C15': 'FullResidual pfb and both solvers\' gradients for all arguments; real arithmetic.',
 'C17': 'Every operation of FullVariable, and fill of the users\' variable references, for all sizes; real arithmetic.',
}
checks = []; na = []
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l); i = d['id']
    if i in props.OWN and i in NOTE:
        checks.append(dict(property=i, quick_cmd='python3 run_check.py %s quick' % i, thorough_cmd='python3 run_check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification of the real C++ (function contracts, inferred loop invariants, exact algebra + z3); failed obligations replayed on the real code',
            level='proof', level_note=NOTE[i] + ' A goal the verifier cannot decide after a change falls back to a bounded replay on the real code, labelled bounded in the evidence.'))
    else: na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
   notes='No hooks are needed in /repo. Verifier in cv/, replay harness in harness/, genuine defects found and repaired in known_findings.txt.'),
   open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
