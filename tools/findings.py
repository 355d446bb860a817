#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the repaired defects, from the table below and the log of /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'95b562d': 'P39', '301b709': 'P27', 'bee0cd2': 'P14', '36fc503': 'P01', 'bce09bf': 'P03', '3e8fc32': 'P02', 'f9e5d0b': 'P11', '3dd791e': 'P11', '7f3b666': 'P09', 'f6a9d2b': 'P13',
     '43279ed': 'P15', '9adccc5': 'P15', 'a118e07': 'P16', '788081b': 'P16', '0445594': 'P22', '86377b4': 'P22', '88289a9': 'P30', '317025e': 'P21',
     '736d532': 'P19', '5d857c8': 'P25', 'ca45072': 'P24', '7e1ef40': 'P24', '88da5e2': 'P24', '558a05b': 'P28', '9ddfddd': 'P28', 'aab8616': 'P20',
     '1521366': 'P27', '4d2966a': 'P10', '20b36dc': 'P10', 'b346f1c': 'P14', '1500398': 'P14',
     'c655484': 'P22', '184d2bf': 'P22', 'e7c02ba': 'P28', '586816d': 'P10', '58009c1': 'P34', '9bfa2f8': 'P22',
     'e07e97a': 'P39', '1532ed8': 'P38', '84d8171': 'P38', '3b1d582': 'P36', 'db80ca7': 'P36'}
WHAT = {'95b562d': 'the kernel Laplace approximation took every point to have a kernel value of one with itself, so probabilities of linear and polynomial kernels were wrong, or no numbers',
        '301b709': 'BFGS raised ValueError for the two-dimensional starting points of factorized linear models (SciPy takes one-dimensional ones only)',
        'e07e97a': 'the Laplace approximation dropped the off-diagonal part of the Hessian (the upper triangle of a factor solved as a lower one), so probabilities of correlated attributes were wrong',
        '1532ed8': 'NystroemTransformer passed the name gaussian, accepted by the exact kernels, on to scikit-learn, which refuses it',
        '84d8171': 'factorized kernels could not be fitted, and Nystroem kernels raised with more components than points',
        '3b1d582': 'L2Penalty attached to a proximal learner did not recognize its own gradient as a subgradient',
        'db80ca7': 'group penalties soft-thresholded and tested single weights or the whole vector instead of their groups',
        '586816d': "SimplifiedSwapLearner(refine_step_size=...) changed the default step size of the class, so learners made later were trained differently",
        'bee0cd2': '`import aideme` raised NameError (typing names missing in dsm/polytope.py)',
        '36fc503': 'move_to_unknown(idx) moved the row numbered like the index, wherever the point of that index was',
        'bce09bf': 'a move refused at its k-th point had already moved the points before it',
        '3e8fc32': 'labels of points moved out of the labeled partition stayed in the training set',
        'f9e5d0b': "LabeledSet kept a view of the caller's index array",
        '3dd791e': "process_callback appended to the caller's list of convergence criteria",
        '7f3b666': 'a run started with the metrics logged by an abandoned run',
        'f6a9d2b': 'the answers 11 and 01 were accepted as a label on the command line',
        '43279ed': 'Polytope.update swallowed every exception (finally: return), and one flat region kept points from the other ones',
        '9adccc5': 'a conflict in one polytope kept the batch from the other polytope or subspaces',
        'a118e07': 'a negative multi-set made of items of positive points only was accepted',
        '788081b': 'CategoricalPolytope.predict raised AttributeError (np.float)',
        '0445594': 'GaussianKernel.diagonal raised AttributeError (np.float)',
        '86377b4': 'PolynomialKernel.diagonal differed from the diagonal of compute() for a nonzero constant or gamma',
        '88289a9': 'QueryByDisagreement raised once fewer points than its sample size were left',
        '317025e': "the documented loss 'SQUARED' was refused",
        '736d532': 'points whose polytope label changed after a conflict stayed in the training data with the old label',
        '5d857c8': 'copy() of a LinearFactorizationLearner with a proximal optimizer raised',
        'ca45072': 'pruning a model without bias raised',
        '7e1ef40': 'the computed factorization was put in the order of the inverse permutation of the user subspaces',
        '88da5e2': 'user subspaces were reordered, while the partial labels were not',
        '558a05b': 'Inference looked up partial labels under the wrong keys and raised',
        '9ddfddd': 'Inference.update did not notice a value which became both positive and negative',
        'aab8616': 'RatioMargin raised on the classes of the unfitted model',
        '1521366': 'LinearFactorizationLearner refused proximal optimizers',
        '4d2966a': 'the swap learner left its iteration limit on an optimizer shared with the refining model',
        '20b36dc': 'penalty gradients of zero rows were read from uninitialized memory',
        'b346f1c': 'after a copy or pickle, 2-D negative cones were rebuilt around another vertex',
        '1500398': 'degenerate 3-D points: incremental hull failed, points were lost, and later calls crashed the interpreter',
        'c655484': 'KernelVersionSpace with rounding cache (the default) raised once training data grew or shrank by more than one point, as after a conflict of a dual space model',
        '184d2bf': 'with a limited number of rounding iterations, hit-and-run could start in a corner of the body, where most lines miss the body, and raise',
        'e7c02ba': 'negative points remembered by Inference changed with the array they were given in',
        '58009c1': "UncertaintySampler, RandomSampler and QueryByDisagreement returned one column per class for scikit-learn's classifiers, so predict_proba was not one number per point",
        '9bfa2f8': 'KernelVersionSpace predicted labeled positive points negative, as the root of a rounding error below zero is no number'}
fixed = []
for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s' % (P[h], h, WHAT[h]))
json.dump(dict(findings=[], fixed=fixed), open(HERE + '/known_findings.json', 'w'), indent=1)
