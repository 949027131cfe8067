"""Writes MANIFEST.json from the checks that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': ('runtime monitoring: trace of every selection fit, offline '
            'recomputation of the supports',
            'Every selection fit of real UoI fits is recorded at the '
            "learners' boundary and the candidate supports are recomputed "
            'from the recorded coefficients by an independent rule.'),
    'C02': ('runtime monitoring: row provenance of every recorded fit',
            'Rows given to each learner are identified by value in the '
            "user's data, so resampling is judged on what the learners saw."),
    'C03': ('runtime monitoring: recomputation of estimates, winners and '
            'medians from the recorded fits',
            'Estimates are compared with independent unpenalized solutions '
            'and the aggregation is recomputed exactly.'),
    'C04': ('runtime monitoring: reported scores against first-principles '
            'metrics on the recorded rows',
            'Each reported score is recomputed from the held-out or training '
            'rows the trace shows.'),
    'C05': ('runtime monitoring: calibration and unit oracles on fitted '
            'models',
            'Calibration residuals and predictions are recomputed on the '
            'raw data.'),
    'C06': ('runtime monitoring: metamorphic comparison of paired fits',
            'Pairs of fits on transformed data are compared; comparisons '
            'that rounding can tip (ties) are recognised and skipped.'),
    'C07': ('runtime monitoring: online descent monitor and KKT oracle on '
            'recorded minimizations',
            'Every iterate of real minimizations is observed; the end point '
            'is judged by independently computed subgradients.'),
    'C08': ('runtime monitoring: trace checker of parameters, stops and '
            'injected callback faults',
            'Every evaluation and progress report is recorded and compared '
            'with the documented meaning of each setting; faults are '
            'injected at chosen calls.'),
    'C09': ('AddressSanitizer and UBSan under hostile workloads, with '
            'resident-memory monitoring',
            'The extension is rebuilt with ASan and UBSan and driven with '
            'hostile call sequences; leaks are watched by allocation '
            'counting.'),
    'C10': ('runtime monitoring: simulated MPI ranks with strict buffer '
            'monitors, and real mpiexec runs, against the serial run',
            'Simulated ranks check every buffer and call order; a real '
            'mpiexec run anchors the simulation.'),
    'C11': ('runtime monitoring: collective-call monitor over simulated and '
            'real MPI ranks',
            'Collectives are checked for dtype, shape, root and content on '
            'every rank.'),
    'C12': ('runtime monitoring: paired executions and global-state hooks',
            'Equal seeds are compared bitwise and the global random state is '
            'watched.'),
    'C13': ('runtime monitoring: refit histories against fresh objects',
            'Histories of fits and settings on one object are compared with '
            'a fresh object.'),
    'C14': ('runtime monitoring: input snapshots and read-only buffers '
            'around every call',
            'Inputs are fingerprinted before and after and given read-only '
            'and strided.'),
    'C15': ('runtime monitoring: paired sparse and dense executions',
            'Sparse and dense fits of the same data are compared.'),
    'C16': ('runtime monitoring: paired relabelled executions and '
            'probability oracles',
            'Relabelled fits and probabilities are compared with the '
            'softmax of the coefficients.'),
    'C17': ('runtime monitoring: KKT oracle on the returned optimum',
            'Optimality residuals are computed independently for each '
            'returned model.'),
    'C18': ('runtime monitoring: KKT oracle on both solvers',
            'Optimality residuals are computed independently for each '
            'returned model.'),
    'C19': ('runtime monitoring: path recomputation and null-model probes',
            'The strengths the learners received are compared with an '
            'independent path and probed around the first.'),
    'C20': ('runtime monitoring: recorded draws against recomputed leverage '
            'scores and draw statistics',
            'Draws are observed through the random state and compared with '
            'independent leverages; frequencies are tested at very small '
            'error rates.'),
    'C21': ('runtime monitoring: injected recording components and '
            'recomputed consensus',
            'Recording solvers, clusterers and regressors observe each call; '
            'bases and coefficients are recomputed.'),
    'C22': ('runtime monitoring: statistical and exact oracles on generated '
            'data',
            'Responses are compared with the reported model over many '
            'draws, at very small error rates.'),
    'C23': ('runtime monitoring: high-precision reference oracles',
            'Returned values are compared with mpmath or exact rational '
            'arithmetic.'),
    'C24': ('runtime monitoring: schedule stress with recorded interleavings '
            'and log-record monitors',
            'Concurrent fits under tiny switch intervals and injected delays '
            'are compared with lone fits; log records are counted.'),
    'C25': ('runtime monitoring: degenerate workloads with finiteness, shape '
            'and best-constant oracles',
            'Degenerate data are crossed with every model and setting.'),
    'C26': ('runtime monitoring: Lasso KKT oracle per strength',
            'Each strength is judged by its own optimality residual.'),
}
LIMIT = (' Assurance covers the executions explored (counts in the evidence '
         'file), not all inputs. Trusts numpy, scipy and the harness.')

checks = []
missing = []
for pid in sorted(T):
    if os.path.exists(os.path.join(VERIF, 'checks', pid.lower() + '.py')):
        checks.append(dict(
            property=pid, quick_cmd='./check %s --tier quick' % pid,
            thorough_cmd='./check %s --tier thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=T[pid][0], level='exploration',
            level_note=T[pid][1] + LIMIT))
    else:
        missing.append(dict(property=pid, reason='No check yet.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -m harness.boot plain asan',
         checks=checks, not_applicable=missing,
         notes='No hooks in /repo: the monitors wrap public classes and '
         'compile the extension themselves.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [x['property'] for x in missing])
