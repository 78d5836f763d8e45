"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


S = 'DRecPy/Evaluation/Splits/'
E = 'DRecPy/Evaluation/Processes/'
D = 'DRecPy/Dataset/'
R = 'DRecPy/Recommender/'

p('L01', 'Splits partition the records without leaking test records into train',
  'For every dataset and option combination, each split returns (train, test) where both contain only unmodified records of the input, no record is in both, every record absent from train is in test or belongs to a user removed for having fewer than min_user_interactions interactions, and the input dataset itself is unchanged.',
  ['inputs', 'schedules', 'configurations'], 'all datasets, ratios, k values, thread counts and interleavings of the per-user tasks',
  'the tests compare a handful of fixed datasets; leakage depends on row order, on ratio/rounding corners and on option combinations',
  [S + 'leave_k_out.py', S + 'matrix_split.py', S + 'random_split.py'],
  [dict(name='test = drop(test ids, keep), train = drop(test ids + removed ids)', where=S + 'leave_k_out.py leave_k_out')],
  'gated dataflow / abstract interpretation over record-id sets',
  'Decides the set-algebraic shape of the two returned views and the provenance of every collected record id; trusts drop() (checked under D05).')
p('L02', 'Splits select exactly the documented records',
  'leave_k_out moves exactly k records (or the integer part of k times the record count when k is a float below 1) of each user having more than k records and at least min_user_interactions, the most recent ones when last_timestamps is set; matrix_split moves exactly the records of sampled users with sampled items (sample sizes floor(ratio*count)) unless that would empty the user; random_split moves exactly floor(ratio*count) records. Users below min_user_interactions appear in neither output, and invalid k/ratio values are rejected.',
  ['inputs', 'configurations'], 'all datasets, k values and ratios',
  'tests fix a few sizes; boundary counts (exactly k, exactly min_user_interactions records) and option combinations are not enumerated',
  [S + 'leave_k_out.py', S + 'matrix_split.py', S + 'random_split.py'],
  [dict(name='per-user selection guards and rng.sample sizes', where=S + 'leave_k_out.py _leave_k_out_user')],
  'gated dataflow with entailment of selection guards',
  'Decides the dominating conditions, populations and sizes of every selection site, per option variant. The last_timestamps heap is a known finding.')
p('L03', 'Concurrent per-user tasks lose no result and always complete',
  'In every split and evaluation process that runs per-user tasks on a thread pool, for every interleaving: containers and counters shared between tasks are only changed under a common lock, every task signals completion exactly once on every exit including exceptions, and results are read only after all tasks have finished.',
  ['schedules', 'fault_sequences'], 'all interleavings and all exceptional exits of tasks',
  'tests observe a few benign schedules; lost updates and hangs need a specific interleaving or an exception inside a task',
  [S + 'leave_k_out.py', S + 'matrix_split.py', E + 'ranking_evaluation.py', E + 'recommendation_evaluation.py'],
  [dict(name='locks, completion counter in finally, pool close+join', where=S + 'leave_k_out.py')],
  'lockset analysis and typestate over task exits and pool lifecycle',
  'Lock identity is syntactic allocation-site identity; assumes list.extend etc. need the lock (does not rely on the GIL).')
p('E01', 'Every metric computes its documented formula and leaves its inputs alone',
  'For every recommendation list, relevance input, k and constructor option, each ranking metric (DCG, NDCG, HitRatio, ReciprocalRank, Recall, Precision, FScore, AveragePrecision) and predictive metric (MSE, RMSE, MAE) returns the value of its documented formula on the list truncated to its first k elements, and 0 for ranking metrics when no relevance is given. A metric call modifies neither its arguments nor the metric instance.',
  ['inputs', 'configurations'], 'all argument lists, truncations and options',
  'tests check a few numeric examples; formula slips at truncation boundaries, repeated calls or rarely used options survive them',
  ['DRecPy/Evaluation/Metrics/ranking.py', 'DRecPy/Evaluation/Metrics/regression.py'],
  [dict(name='__call__ of each metric', where='DRecPy/Evaluation/Metrics/ranking.py')],
  'abstract interpretation to guarded terms, term-normalisation equivalence with reference definitions; effect analysis',
  'Symbolic equality of formulas over reals (no floating-point rounding analysis); trusts math/numpy functions by name.')

exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'],
                                    quantifier=dict(over=x['over'], text=x['qtext']), why_tests_cant=x['why'],
                                    anchors=dict(files=x['files'], mechanism=x['mech'], hook_needed=None))) + '\n')
    checks, na = [], []
    for x in P:
        if x['na']:
            na.append(dict(property=x['id'], reason=x['na']))
        else:
            checks.append(dict(property=x['id'], quick_cmd='python3 -m sa.run %s --tier quick' % x['id'],
                               thorough_cmd='python3 -m sa.run %s --tier thorough' % x['id'],
                               technique=x['technique'], level='other', level_note=x['note']))
    m = dict(version=1, setup_cmd='python3 -c "import sa.run"', checks=checks, not_applicable=na,
             notes='No hooks: the analysis reads /repo\'s source only (python3 standard library, nothing to build).')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'n/a')


main()
