#!/usr/bin/env python3
"""Regenerates known_findings.json: the repaired defects and the open ones."""
import json, os
FIXED = [
 ('C02', '71df639', 'removePoint(absent id) decremented the size and a class count; an id above the last point\'s id was refused'),
 ('C02', '2766d7f', 'removePoints of all ids erased the last point while reporting one; stale index entries'),
 ('C05', 'ca9c951', 'updatePointValue counted a newly seen class twice'),
 ('C05', '58996f2', 'inserting from another dataset shared the point object and reported success when rejected'),
 ('C05', 'c9d1c7c', 'insertPoint renamed the features after a feature removal'),
 ('C05', '4f0e347', 'join left class names, counts, dimension and the empty flag inconsistent'),
 ('C01', '3c5ddc0', 'computeClassesDistribution wrote past the distribution for labels missing from the class list'),
 ('C01', '2fea203', 'clear() kept the class distribution'),
 ('C01', '3a73ca3', 'load() into a loaded dataset accumulated the class counts'),
 ('C03', 'c9a67cf', 'copyZero kept the points of the target'),
 ('C03', '7583632', 'classesCopy left index, class names and counts of the copy wrong'),
 ('C07', '6bc9bf4', 'sampling drew below the quota instead of the class size and did not terminate without replacement'),
 ('C06', '91c7fc3', 'non-stratified splits dropped size mod k points'),
 ('C03', 'ce8fb9d', 'assignment shared the point objects'),
 ('C04', '22af484', 'removeFeatures with a repeated name dropped names without their columns'),
 ('C08', '3e56c1a', 'numeric labels became 1 at their first use when the file has the label -1'),
 ('C08', '07c0102', 'a .data file with real targets was loaded as classification'),
 ('C19', '272b8d7', 'two-fold cross-validation tested on training points'),
 ('C18', 'ae5b915', 'confusion matrix was transposed'),
 ('C18', 'd0adc51', 'accuracy ignored true negatives'),
 ('C18', '3f19a33', 'classification report divided integers'),
 ('C19', '2c963ad', 'the k-fold report counted predictions several times'),
 ('C04', '9662b9a', 'feature operations failed for names that are not ascending'),
 ('C03', 'c2470f2', 'copies of an emptied dataset lost its dimension'),
 ('C08', '41bd176', 'numbers with an exponent were read without it'),
 ('C08', '98ec018', 'real targets at the front of a .data line were truncated to labels'),
 ('C10', '5a4f11a', 'a worker could take a task after pause and wait_for_tasks had returned'),
 ('C10', 'a430d1f', 'wait_for_tasks of a paused pool could miss a running task'),
 ('C13', 'cd9b367', 'Chebyshev distances of points whose difference has a maximum of zero'),
 ('C12', 'a1b5033', 'rows of the distance matrix followed positions while queries use ids; writes past a row for shuffled data'),
 ('C13', '3f97085', 'a training point was not its own nearest neighbour with triangular distances'),
 ('C21', '78be727', 'SMOTE interpolated towards points of other classes'),
 ('C21', 'd0fa6e8', 'SMOTE did not compile with a metric other than the default'),
 ('C17', '808b1e9', 'hard voting overwrote the weights of soft voting'),
 ('C17', 'b359f0c', 'assigning a voting classifier returned nothing and lost the voting type'),
 ('C17', 'eecf20b', 'boosting used squared weights as the error and updated by weight instead of miss'),
 ('C14', '2da876e', 'one-vs-all with primal or dual classifiers compared signs instead of scores'),
 ('C17', '9dfda1f', 'boosted estimators that shuffle their samples misaligned the weights of the points'),
 ('C15', 'ef5dbff', 'fixed margin dual perceptron divided by a zero norm and reported success with NaN multipliers'),
 ('C15', '9ef8347', 'norm of the fixed margin dual perceptron was updated with the function value after the update'),
 ('C15', 'be088ed', 'largest weight of the L1 formulation ignored the updated first component'),
 ('C15', '9020735', 'balanced perceptron never updated its bias'),
 ('C25', '4b76f97', 'IMAp predicted by comparing with margin times norm instead of the sign'),
 ('C25', 'f72ca96', 'uninitialised members of the primal incremental margin classifiers'),
 ('C23', '0a2a7fc', 'squared norm of an expansion left out terms of the double sum'),
 ('C23', 'f13d1bf', 'matrix H without a dimension was not symmetric'),
 ('C23', '646bd48', 'polynomial kernel differed with and without a left-out dimension'),
 ('C23', '0970862', 'H matrix of a second computation was indexed with its old size'),
 ('C15', '997c2a4', 'assigning a shorter point kept the old components'),
 ('C15', '3e842c2', 'fixed margin dual perceptron continued with the solution of the previous data'),
 ('C15', '59c7733', 'dual perceptron continued with old multipliers and an old kernel matrix'),
 ('C15', '6a8c2c6', 'primal perceptrons continued with the previous weights and counters'),
 ('C25', '1293fad', 'dual incremental margin reported the bias of a later, failed training'),
 ('C25', '79d25a9', 'dual incremental margin started with multipliers of the previous training'),
 ('C16', 'd018d33', 'objective at the ends of the segment compared wrongly (equal points never optimised)'),
 ('C16', '58e9494', 'error cache of the two updated points was set to zero although one may be at a bound'),
 ('C15', '322d2ae', 'a norm that vanished by rounding became NaN in the dual perceptrons'),
 ('C15', 'ed0cf57', 'slack of a flexible margin that is not used became NaN (0/0)'),
 ('C25', '2f272ca', 'dual incremental margin kept negative multipliers'),
 ('C22', 'f27307f', 'recursive elimination returned every feature after a failed training'),
 ('C22', 'd8c4602', 'recursive elimination ranked by the weights of the last cross-validation fold'),
 ('C22', '9e2443a', 'initial error of repeated cross-validations was that of the last one only'),
 ('C22', '4a56ed4', 'recursive elimination run again did not terminate when the jump does not divide the depth'),
 ('C22', '8d2032f', 'Golub selection removed a feature named 0'),
 ('C22', '2da36ac', 'scores of features that do not vary were NaN'),
 ('C22', '98ebff3', 'search branched on more features than there are'),
 ('C22', '19cb395', 'best-first search run again returned every feature'),
 ('C22', 'dd4dea2', 'look-ahead trained on the features before the removal'),
 ('C22', 'e8606fe', 'nodes cut from the heap were freed while the hash still used them'),
 ('C20', '7561e06', 'initial centres of k-means were read beyond the dataset'),
 ('C20', 'c4702ad', 'centres were averaged together with their old position and became NaN for empty clusters'),
 ('C20', '9dd3fdb', 'clusters kept the points of every iteration'),
 ('C20', '559f4ae', 'clusters were filled by id instead of position'),
 ('C20', '8e48e95', 'k-means used Euclidean distances whatever metric it was given'),
 ('C20', '40ff3a3', 'k-means trained again with the same seed started from other centres'),
 ('C20', '910f40f', 'kmeanspp did not choose centres by the probabilities it computed'),
 ('C28', '5c8e8b1', 'a seed given to the random generator a second time did not start the sequence again'),
 ('C29', 'd421c53', 'blobs of different sizes read beyond the numbers they were given'),
 ('C26', '73cc1c1', 'Lorentzian distance was the sum of the logarithms of the differences'),
 ('C26', '3a420a7', 'factors of NonIntersection, Average, Jensen-Shannon and Jensen distances were integer divisions and became 0'),
 ('C26', '218ca93', 'MinSymmetric distance took the maximum'),
 ('C26', '619534d', 'Kumar-Johnson distance divided by the wrong power'),
 ('C26', '7dc937a', 'Hassanat distance of negative values'),
 ('C26', '1305b69', 'Clark distance without its root, Bhattacharyya distance without its logarithm'),
 ('C26', '10d7ba3', 'mean, variance and covariance of points of integers were truncated'),
 ('C26', '0e62d93', 'distCentersWithoutFeats used only the given features'),
 ('C30', '3d92a6b', 'the bias of LMS was trained without the learning rate'),
 ('C30', '16165b0', 'LMS trained again started from another solution'),
 ('C27', '64684dd', 'limits of an axis left points out (truncated bounds, negative values, all values equal)'),
 ('C27', '1349223', 'a plot in a shared session kept title, labels, limits or output of the one before'),
 ('C27', 'e37f327', 'one-dimensional regression plots showed a feature instead of the target'),
 ('C27', 'd1cefb6', 'folders of the user with the name of a plot folder were removed'),
 ('C27', 'b24fd68', 'plots of three vectors had no label and no limits for the third axis'),
 ('C27', '967972f', 'the script returned by plot3DwithHyperplane lacked its settings'),
 ('C27', 'd630926', 'class names with dots or underscores were cut or mixed up in plots'),
 ('C27', '6a9e8fc', 'decision surfaces of other features than the first two, and of named classes in another order, were wrong'),
 ('C27', '93d7c62', 'changing the sample removed files a shared plotting program still had to read'),
]
FIXED.append(('C01', '52aebda', 'copying the points of a class that is asked for twice listed it twice, with its points counted twice'))
OPEN = [
 {'id': 'borderline-smote', 'property': 'C21', 'scenario': 'borderline', 'status': 'open',
  'clauses': ['an added point does not have the label', 'over-sampling changed, moved', 'the added points are not on segments', 'the number of added points'],
  'what': 'BorderlineSMOTEOne adds copies of the original danger points (also of the majority class) and renumbers them instead of adding the '
          'synthetic points; SamplingTest.SMOTETest fixes the resulting size of 300, so the repair would break an existing test'},
] + [
 {'id': 'dual-cv-%s' % s, 'property': 'C19', 'scenario': s, 'status': 'open',
  'clauses': ['a point was not held out exactly once', 'a model was evaluated on points it was trained on'],
  'what': 'cross-validation of a dual classifier trains it on the training and the test points joined (%s); training it on the '
          'training points alone changes the result that ClassifierTest.SMOClassifier expects' % s} for s in ('dual-kfold', 'dual-kkfold')
] + [
 {'id': 'ima-refit-%d' % i, 'property': 'C25', 'scenario': 'ima-refit-%d' % i, 'status': 'open',
  'clauses': ['the reported margin is not the smallest distance', 'the reported norm is not the norm', 'training reported success but some training point'],
  'what': 'IMADual given other data (setSamples) is trained with the kernel matrix of the data before: its margin, norm and hyperplane do not '
          'belong to the new data; recomputing the matrix changes the feature count FeatselectTests.RFECVTest expects'} for i in (1, 2, 3)
]
json.dump({'findings': OPEN, 'fixed': ['fixed: property=%s %s %s' % f for f in FIXED]},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
