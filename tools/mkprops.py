#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
C = "subprojects/ufjfmltk-core/include/ufjfmltk/core/"
CL = "subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/"
V = "subprojects/ufjfmltk-valid/include/ufjfmltk/valid/"
E = "subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/"
K = "subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/"
R = "subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/"
F = "subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Dataset bookkeeping always agrees with the points it describes",
 "After any sequence of dataset operations (loading, inserting, removing, relabelling, joining, copying, sampling, splitting, shuffling, feature removal, clearing) the reported size, dimension, emptiness flag, position index, label vector and feature-name list agree with the points the dataset actually holds. For classification datasets every label present is in the class list exactly once, class names run parallel to the class list, and the class distribution counts each class exactly.",
 ["histories", "inputs"], "every history of public dataset operations with any arguments, including rejected ones (absent ids, wrong dimension, out-of-range positions)",
 "The tests perform one or two operations on two fixed files and compare sizes; the guarantee quantifies over histories of operations, where each operation must leave the redundant fields consistent for the next one.",
 [C+"Data.hpp"], [("incremental maintenance of the class histogram, index and sizes in each mutator", C+"Data.hpp"), ("recomputation of the class distribution", C+"Data.hpp")],
 [("points, classes, class names, class distribution, index, feature names", "the dataset's redundant description of itself", C+"Data.hpp")],
 ["return of every public dataset operation"])
prop("C02", "Removing points by id removes exactly the requested points",
 "Removing a point or a list of points by id deletes exactly the points with those ids and keeps all others, unmodified and in their original order. Asking for an id that is not present changes nothing for that id, and removal never leaves a dataset without points.",
 ["histories", "inputs"], "every dataset (including shuffled, joined and previously reduced ones) and every id or list of ids, present or absent, in any order and with repetitions",
 "The only test removes ascending existing ids from one freshly loaded file, where id and position still coincide.",
 [C+"Data.hpp"], [("search by id and erase", C+"Data.hpp removePoint/removePoints")], None, ["return of the removal calls"])
prop("C03", "Copies and derived datasets are independent of their source",
 "A copy of a dataset (by copying, copy construction or assignment) compares equal to its source, and afterwards changing either one never shows in the other. Producing a derived dataset (insertion from another dataset, join, split, sampling, feature selection, class extraction) never changes the source, and changing the derived dataset later never changes the source either.",
 ["histories", "inputs"], "every sequence of copying/deriving operations followed by every modification of either side",
 "Aliasing between point objects shows only when a derived dataset is modified after the fact; the tests never modify a derived dataset and re-read its source.",
 [C+"Data.hpp", V+"Validation.hpp"], [("deep copy of points", C+"Data.hpp copy/join/splitSample/..."), ("value copies on insertion from another dataset", C+"Data.hpp insertPoint")], None, ["all live datasets after every operation"])
prop("C04", "Feature selection and removal keep exactly the right columns",
 "Selecting, extracting or removing features by name yields, for every point, exactly the values of the columns that should remain, in their original order, together with the point's unchanged label and id. After removal or extraction the surviving feature names still label the same columns, names that do not exist are ignored on removal, and reductions can be applied one after another.",
 ["histories", "inputs"], "every dataset, every set of feature names in any order (including absent names on removal), and every sequence of successive reductions",
 "Tests remove one pair of adjacent features from one dataset; successive reductions, where names no longer equal positions, are not checked for values.",
 [C+"Data.hpp"], [("name-based column matching", C+"Data.hpp removeFeatures/insertFeatures/selectFeatures")], [("feature names", "name of each remaining column", C+"Data.hpp")], ["return of the feature operations"])
prop("C05", "Inserting, joining and relabelling add exactly what was asked",
 "Inserting a point appends exactly that point (renumbered unless its id is to be kept), and a point of the wrong dimension or an out-of-range position is rejected with the dataset unchanged. Joining appends all points of the other dataset in order with their labels and ids; relabelling changes the label of exactly one point; splitting by class and copying selected classes yield exactly the points of those classes, in order.",
 ["histories", "inputs"], "every history of these operations on every pair of datasets of equal dimension, including empty ones and class lists in different orders",
 "The tests insert two points and never join datasets whose class lists differ or relabel to an unseen class.",
 [C+"Data.hpp"], [("insertPoint, join, updatePointValue, splitByClasses, classesCopy", C+"Data.hpp")], None, ["return of each call"])
prop("C06", "Cross-validation splits partition the data and never leak test points",
 "Splitting a dataset into k folds places every point in exactly one fold; with stratification the per-class counts of any two folds differ by at most one, and without it the fold sizes differ by at most one. In every generated train/test pair the two sides are disjoint and together contain every point exactly once, each point is tested exactly once per execution over the k pairs, labels and features are preserved, and the source dataset is not changed.",
 ["inputs", "configurations"], "every dataset, number of folds (2 or more), number of executions, stratified or not, kept or renumbered ids, and every seed",
 "Tests check only fold sizes on a balanced 150-point file with k = 10 and 3; leakage between train and test, coverage for sizes not divisible by k, and k = 2 are never checked.",
 [C+"Data.hpp", V+"Validation.hpp"], [("round-robin fold filling", C+"Data.hpp splitSample"), ("train/test assembly", V+"Validation.hpp kfoldsplit/partTrainTest")], None, ["the returned folds and pairs"])
prop("C07", "Shuffling permutes and sampling draws stratified subsets, reproducibly",
 "Shuffling reorders the points without losing, duplicating or altering any, and resets the position index. Sampling returns only points of the source, takes from each class its proportional share (rounded down, at least one), takes no point twice when drawing without replacement, can draw any member of a class, and always terminates. With a fixed non-zero seed shuffling, sampling and splitting give the same result every time.",
 ["inputs", "configurations"], "every dataset, sample size up to the dataset size, with and without replacement, and every seed",
 "One test samples half of a balanced dataset with replacement and compares the class counts only.",
 [C+"Data.hpp"], [("seeded Mersenne twister shuffle", C+"Data.hpp shuffle"), ("per-class quota sampling", C+"Data.hpp sampling")], None, ["return of shuffle/sampling/split"])
prop("C08", "Writing a dataset and loading it back yields the same dataset",
 "A dataset whose values are exactly representable in the file format, written in the sparse-style data format or as csv and loaded again, has the same points in the same order with the same features and labels, the same set of classes and the same class counts; the data format also keeps the feature names. In csv files the label may be in the first or the last column and any separating character may be used; text labels are numbered and named in order of appearance, and targets of regression files are kept as real values. Loading replaces whatever the dataset object held before, ids are assigned 1..n in file order, and a file that cannot be opened is reported as a failed load.",
 ["inputs", "histories"], "every dataset of integer-valued features with any number of points, features and integer class labels (positive, negative and zero, in any order of appearance), and repeated loads into one object",
 "The tests round-trip two files and compare only sizes and class counts.",
 [C+"Data.hpp", "subprojects/ufjfmltk-core/src/Utils.cpp"], [("writers and per-format loaders", C+"Data.hpp write/load_*"), ("label-to-class mapping", C+"Data.hpp process_class")], None, ["the files written and the dataset loaded"])
prop("C09", "Thread pool executes every accepted task exactly once, in queue order",
 "Every task pushed to or submitted to the thread pool is started exactly once by some worker, tasks are taken from the queue in the order in which they were accepted, and never more tasks run at once than there are workers. This holds for any number of pushing threads and workers, across pauses and changes of the number of workers.",
 ["schedules", "histories"], "every interleaving of producers, workers and control calls, for any number of threads and tasks",
 "No test uses the pool directly; the loops that use it produce the same result whatever the schedule, so ordering, loss or duplication is not observed.",
 [C+"ThreadPool.hpp"], [("queue protected by a mutex", C+"ThreadPool.hpp push_task/pop_task"), ("worker loop", C+"ThreadPool.hpp worker")],
 [("task queue, unfinished-task counter, running and paused flags", "state of the pool", C+"ThreadPool.hpp")], ["push under the lock, pop under the lock, task start and end"], "event emission inside the queue critical sections")
prop("C10", "Waiting, pausing, resizing and destroying the pool respect outstanding work",
 "Waiting for tasks returns only when every task accepted before the call has finished (or, while paused, when no task is executing); no task is started while the pool stays paused and idle, and after unpausing the queued tasks run. Changing the number of workers returns only after the running tasks have finished, loses no queued task and keeps the paused state; destroying an unpaused pool first finishes all tasks, and the reported counts of queued, running and total tasks are consistent whenever the pool is quiescent.",
 ["schedules", "histories"], "every interleaving of pushes, waits, pauses, resizes and destruction with the workers",
 "Nothing in the test suite pauses, resizes or waits on a pool other than at the end of one parallel loop.",
 [C+"ThreadPool.hpp"], [("wait loop on the unfinished-task counter", C+"ThreadPool.hpp wait_for_tasks"), ("reset sequence", C+"ThreadPool.hpp reset"), ("destructor", C+"ThreadPool.hpp ~ThreadPool")],
 [("unfinished-task counter, paused, running, worker set", "state of the pool", C+"ThreadPool.hpp")], ["entry and return of the control calls, task start and end"], "event emission at the control calls")
prop("C11", "Futures and parallel loops report completion, results and errors faithfully",
 "The future of a submitted task becomes ready only after that task has run, and carries exactly its return value (or true for tasks without one) or the exception it threw, without harming the pool. A parallel loop covers every index of its range exactly once with non-empty, non-overlapping, in-range blocks, uses at most the requested number of blocks, and returns only after all of them have finished; an empty range does nothing.",
 ["schedules", "inputs"], "every schedule, every range (including reversed, empty and single-element ranges, negative indices), number of blocks and number of threads, and tasks that throw",
 "The only user is one loop with a fixed shape; exceptions, ranges smaller than the number of blocks and uneven ranges are not exercised.",
 [C+"ThreadPool.hpp"], [("promise/future wrapping", C+"ThreadPool.hpp submit"), ("block partition", C+"ThreadPool.hpp parallelize_loop")], None, ["future results; the blocks the loop body receives; return of the loop"])
prop("C12", "Parallel distance matrices equal the sequential definition",
 "The distance matrix computed in parallel has, for every pair of points, the entry at (id of first, id of second) equal to the distance of those two points and zero on the diagonal, in full form for both orders and in triangular form for the lower triangle. The result does not depend on the number of threads or on the schedule, nor on the order in which the points are stored.",
 ["schedules", "inputs", "configurations"], "every dataset whose ids are a permutation of 1..n, every number of threads and every schedule, full or triangular",
 "The test computes one matrix with the default number of threads on a dataset stored in id order and only uses it for predictions.",
 [C+"DistanceMatrix.hpp", C+"ThreadPool.hpp"], [("row allocation and id-indexed writes from pool threads", C+"DistanceMatrix.hpp compute")], [("rows", "matrix rows shared by worker threads", C+"DistanceMatrix.hpp")], ["the finished matrix"])
prop("C13", "k-nearest-neighbour prediction is the majority among the k closest points",
 "The predicted class is one with the greatest number of points among some set of k training points none of which is farther from the query than any point left out. The prediction from precomputed distances is the same, and the k-nearest-neighbour regressor likewise returns the mean target of such a set of k points.",
 ["inputs", "configurations"], "every training set, query, k from 1 to the number of training points, Euclidean/Manhattan/Chebyshev distances, brute-force or precomputed",
 "Tests compare an accuracy threshold on one dataset; ties, k equal to the dataset size, and individual neighbour choices are invisible in an average.",
 [CL+"KNNClassifier.hpp", R+"KNNRegressor.hpp", C+"DistanceMetric.hpp"], [("partial sort by distance and vote count", CL+"KNNClassifier.hpp evaluate"), ("stable sort and mean", R+"KNNRegressor.hpp evaluate")], None, ["return of evaluate"])
prop("C14", "One-vs-one and one-vs-all decompose and combine class decisions faithfully",
 "In one-vs-one training each ordered pair of distinct classes trains its own learner on exactly the points of those two classes, relabelled +1 for the first and -1 for the second; prediction returns a class with the most pairwise votes. In one-vs-all training each class trains its own learner on all points, +1 for that class and -1 for the rest, and prediction returns a class whose learner has the highest score; the user's dataset is never changed.",
 ["inputs", "programs"], "every set of classes and points and every family of binary learners, i.e. every table of pairwise decisions or scores",
 "Tests look at an accuracy threshold with one learner on one three-class dataset; vote assembly errors that cost a few points stay above the threshold.",
 [CL+"OneVsOne.hpp", CL+"OneVsAll.hpp"], [("pairwise training sets and vote counting", CL+"OneVsOne.hpp"), ("relabelling and arg-max", CL+"OneVsAll.hpp")], None, ["training sets seen by a recording learner; return of evaluate"])
prop("C15", "A perceptron that reports success has a separating hyperplane",
 "If training of a (primal or dual, fixed-margin or plain) perceptron reports success, the returned hyperplane or kernel expansion puts every training point strictly on its own side; on linearly separable data with no binding limit the plain perceptrons do report success. The plain perceptrons' weights and bias are exactly the learning rate times the sum of the label-signed points (and labels) over as many mistakes as the reported number of updates, and iteration and update limits stop the training.",
 ["inputs", "configurations"], "every two-class training set, visiting order, learning rate and limit",
 "Tests check that training succeeds or an accuracy on one easily separable file.",
 [CL+"Perceptron.hpp", CL+"PrimalClassifier.hpp", CL+"DualClassifier.hpp"], [("mistake-driven update and stop criterion", CL+"Perceptron.hpp train")], [("weights, bias, multipliers, update counter", "state of training", CL+"Perceptron.hpp")], ["return of train and the solution; evaluate"])
prop("C16", "Support-vector training ends in a feasible dual solution",
 "When the sequential minimal optimisation trainer finishes, every multiplier lies between zero and the penalty constant and the label-weighted multipliers sum to zero; for the linear kernel the reported weight vector is the label-weighted combination of the training points. When it reports success, the optimality conditions hold for every training point within the tolerance (with the reported bias when some multiplier is strictly between the bounds, with some bias otherwise), so unbounded support vectors lie on the margin, and predictions equal the sign of the kernel expansion.",
 ["inputs", "configurations"], "every two-class training set, kernel type and penalty constant",
 "Tests check success or accuracy on one file; infeasible or non-optimal multipliers can still classify that file well.",
 [CL+"SMO.hpp", CL+"DualClassifier.hpp", "subprojects/ufjfmltk-classifier/src/int_dll.cpp"], [("pairwise step with box clipping", CL+"SMO.hpp take_step"), ("working-set selection over the non-bound list", CL+"SMO.hpp")], [("multipliers, error cache, support-vector list", "state of training", CL+"SMO.hpp")], ["return of train and the solution"])
prop("C17", "Ensembles train every member and return the class with the most votes",
 "Voting, bagging and perceptron committees train each of their members, and predict a class whose total vote is maximal, where each member votes for its own prediction with weight one, or with its assigned weight in soft voting. Bagging gives each member a training set drawn only from the ensemble's data, with the classes in proportion; boosting weighs each member's vote with log((1 - err) / err * (classes - 1)), where err is the member's error on the points weighted by the misses of the members before it; evaluating never changes the members.",
 ["inputs", "programs"], "every number of members, table of member predictions, set of classes and assignment of weights",
 "Tests check an accuracy threshold of one ensemble of similar learners, where miscounted votes almost never change the winner.",
 [E+"VotingClassifier.hpp", E+"BaggingClassifier.hpp", E+"PerceptronCommittee.hpp", E+"AdaBoostClassifier.hpp"], [("vote accumulation and arg-max", E+"VotingClassifier.hpp evaluate")], None, ["return of evaluate; calls received by recording members"])
prop("C18", "Classification metrics count every prediction exactly once, in the right cell",
 "The confusion matrix has one row per true class and one column per predicted class, in class-list order, and entry (i,j) is exactly the number of points of class i predicted as class j. The accuracy derived from it, the plain accuracy and the true/false positive/negative counts and ratios of the reports agree with those counts for every choice of positive classes.",
 ["inputs"], "every dataset, every table of predictions among its classes and every non-empty set of positive classes",
 "Tests compute two confusion matrices on nearly perfectly classified data and compare the accuracy with a threshold.",
 [V+"Validation.hpp"], [("cell lookup and accumulation", V+"Validation.hpp generateConfusionMatrix/metricsReport/classificationReport")], None, ["returned matrices and reports"])
prop("C19", "Cross-validation evaluates a model exactly on the points it was not trained on",
 "k-fold evaluation trains the classifier once per fold, evaluates it on exactly the points of the held-out fold, which were not part of that training set, and every point is held out exactly once. The reported error is the mean over the folds of the percentage of wrong predictions, accuracy is its complement, repeated k-fold reports the mean over its executions, and the caller's dataset is unchanged.",
 ["inputs", "programs"], "every dataset, classifier behaviour, number of folds and executions, stratified or not, and every seed",
 "Tests compare one accuracy with a threshold; leakage between training and test data makes that test pass more easily.",
 [V+"Validation.hpp"], [("fold loop", V+"Validation.hpp kfold/kkfold")], None, ["calls received by a recording classifier; the returned report"])
prop("C20", "K-means assigns points to their nearest centre and centres are cluster means",
 "After training, every point belongs to exactly one of the k reported clusters (which hold positions of points in the dataset), namely one whose centre is nearest by the metric the model was given, and evaluating a point returns the position of a nearest centre. With Euclidean distances every centre of a non-empty cluster is the mean of the points assigned to it, and the clustering is one that Lloyd's iteration reaches from some start: from any points of the data (random), or from points each of which has a positive distance to the centres chosen before it (kmeanspp). Training never changes the data, and for a fixed non-zero seed training again gives the same centres.",
 ["inputs", "configurations"], "every dataset, number of clusters up to the number of points, metric, both initialisations, every seed, and repeated queries or trainings",
 "Tests check that training works on one file; assignment and centre consistency is never compared.",
 [K+"KMeans.hpp"], [("assignment/mean iteration", K+"KMeans.hpp train")], [("centres and cluster membership", "state of the iteration", K+"KMeans.hpp")], ["return of train, clusters, centers and evaluate"])
prop("C21", "Over-sampling only adds minority points between minority neighbours",
 "Synthetic minority over-sampling keeps every original point unchanged and in place, and every added point has the label of the smallest class and lies on the segment between a minority point and one of its k nearest distinct minority neighbours. At most k points are added per minority point, exactly k when it has at least k neighbours at distinct non-zero distances.",
 ["inputs", "configurations"], "every dataset with a smallest class, every k and every seed, in whatever order the points are stored",
 "The test compares only the size of the resulting dataset.",
 [C+"Sampling.hpp"], [("neighbour search and interpolation", C+"Sampling.hpp SMOTE")], None, ["the dataset after over-sampling"])
prop("C22", "Feature-selection drivers return the requested features with intact data",
 "Score-based feature selection (Fisher, Golub), recursive elimination and best-first search (AOS) return a dataset with the requested number of features whose remaining columns carry the original values under their original names, with every point, label and id intact, and leave the input dataset unchanged; every training of the learner sees exactly the columns selected so far. If a training fails, the last features that were learned are returned (recursive elimination also stops early when the cross-validation error has grown beyond its limit). The ranking-based methods keep features whose score is at least that of every eliminated one, and each step of recursive elimination drops, of the features left, those with the smallest absolute weights in the training on all points. Running a selection again gives the same result.",
 ["inputs", "configurations"], "every two-class dataset and every requested number of features and elimination step",
 "Tests check the final dimension and an accuracy threshold on one dataset.",
 [F+"Fisher.hpp", F+"Golub.hpp", F+"RFE.hpp", F+"AOS.hpp"], [("scoring, ranking and column removal", F+"Fisher.hpp")], None, ["the returned dataset"])
prop("C23", "Kernel matrices are symmetric, current and match the pairwise kernel function",
 "The kernel matrix computed for a dataset is symmetric and its (i,j) entry is the kernel function of points i and j. Changing the kernel type or parameter, or asking for recomputation after the data changed, makes the next computation reflect the change, while repeated computation without changes gives the same matrix; the squared norm of a dual expansion equals the double sum over its terms each time it is asked for.",
 ["histories", "inputs"], "every dataset and every sequence of type changes, parameter changes, data changes with recomputation, and queries",
 "The test computes each matrix once; staleness needs a history of computations and changes.",
 [C+"Kernel.hpp"], [("computed flag and recomputation", C+"Kernel.hpp compute")], [("kernel matrix, computed flag", "cache and its validity", C+"Kernel.hpp")], ["the kernel matrix after compute"])
prop("C24", "Training through the public interface never changes the caller's data",
 "Giving a dataset (by reference) to a learner, training it, evaluating points and cross-validating leave the caller's dataset exactly as it was: same points in the same order, same labels, ids and class information. Changes the caller makes to the dataset afterwards do not reach the learner before it is given the dataset again. Evaluating a trained model any number of times, in any order, one by one or as a batch, gives the same prediction for the same point.",
 ["histories", "programs"], "every learner of the library, every dataset and every sequence of set-up, train and evaluate calls by several learners and changes of the caller's own",
 "No test re-reads its dataset after training or repeats a prediction.",
 [C+"Learner.hpp", CL+"Perceptron.hpp", CL+"SMO.hpp", K+"KMeans.hpp"], [("private copies of the samples", C+"Learner.hpp setSamples")], None, ["the caller's dataset and predictions after each call"])
prop("C25", "Incremental-margin training increases the margin and ends separating",
 "When incremental-margin training reports success, its hyperplane separates every training point and the reported margin belongs to it: half the distance between the two classes along the normal for the primal algorithm, the smallest geometric distance of a training point for the dual one. Margins accepted in the course of the training never decrease, so a larger budget of updates never ends with a smaller margin; the reported norm is the norm of the weights, and predictions equal the sign of the score.",
 ["inputs", "configurations"], "every linearly separable two-class dataset and admissible learning parameters",
 "Tests check only that training succeeds and an accuracy on one file.",
 [CL+"IMA.hpp", CL+"Perceptron.hpp"], [("margin increments over fixed-margin training", CL+"IMA.hpp train")], [("margin, weights, bias", "state of the search", CL+"IMA.hpp")], ["return of train and the solution"])
prop("C26", "Point arithmetic, statistics and distances follow their definitions",
 "Every arithmetic expression of points and scalars yields, element by element, what the expression says, whatever the element type and however it is nested or assigned; copying, assigning and compound assignment change no other point. Sum, extremes, p-norms, dot product, comparison, normalisation, mean, variance, deviation and covariance of points follow their definitions (also for points of integers), as do the statistics of datasets: mean, variance and deviation of features, total variance, radius, distance between the centres of two classes, each also over or without a choice of features; computing them changes no data. Every distance metric (Chord excepted, for which there is no common definition) returns the value of its textbook definition. linspace is evenly spaced from bound to bound, random points lie within their bounds and depend on their seed alone, and applying a function applies it to every element.",
 ["inputs", "programs"], "every point or dataset of finite values (the exactly representable ones are compared exactly, the others to rounding), every expression and every element type",
 "Tests sample a few vectors.",
 [C+"Statistics.hpp", C+"DistanceMetric.hpp", C+"Point.hpp"], [("direct evaluation", C+"Statistics.hpp"), ("expression templates", C+"Point.hpp")])
prop("C27", "Plots show what they were asked to show",
 "Whatever calls came before, and however late the plotting program obeys what it is sent, every plotting call draws one picture: flat or in depth as the call says, with its title and axis labels and no setting left over from another call, on the screen or in a file of its format as asked; with exactly the chosen features, vectors or targets of exactly the points of the sample on show, one series per class under its name for classification data, within limits that contain them (widened by the scale); with a model, also its hyperplane (and those at its margin) or its regression line or plane, or its decision surface: the answers, on a grid over the limits, of the learner that was given the chosen features and trained if asked. The script a call returns draws the same picture. The temporary files are there until they have been read and go with the plotter (or are set aside, when they are to be kept); nothing else is removed.",
 ["histories", "schedules", "configurations"], "every sequence of plotting calls, changes of sample and terminals on one or several plotters, with shared or separate plotting programs however late they run; every dataset, choice of features, hyperplane not parallel to the last axis and scale of at least 1; names and titles without quotes, slashes or semicolons",
 "Tests only check that plotting calls return.",
 ["subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp", "subprojects/ufjfmltk-visual/src/gnuplot_i.cpp"], [("temporary files and gnuplot commands", "subprojects/ufjfmltk-visual")])
prop("C28", "Everything that takes a seed is reproducible",
 "For a non-zero seed, the result of every operation that takes one is determined by its arguments and the data alone, whatever was generated, trained or seeded in between: generated datasets, random points, shuffles, samplings, splits and folds, over-sampling, random feature subsets, cross-validation results, and the predictions of learners trained with that seed. Learners that draw no random numbers give the same model for the same data whatever their seed.",
 ["histories", "configurations"], "every seeded operation, every non-zero seed and every history of seeded and unseeded operations between two calls",
 "No test calls an operation twice with the same seed, let alone with other random draws in between.",
 ["subprojects/ufjfmltk-core/src/Random.cpp", "subprojects/ufjfmltk-core/src/Datasets.cpp", C+"Random.hpp", C+"Data.hpp", K+"KMeans.hpp"], [("seeding of the shared generator", "subprojects/ufjfmltk-core/src/Random.cpp init"), ("generators of their own", C+"Data.hpp shuffle/splitSample/sampling")], [("the shared random generator", "its position in the sequence", "subprojects/ufjfmltk-core/src/Random.cpp")], ["the results of seeded calls"])
prop("C29", "Generated datasets have the requested shape",
 "Spirals have equally many points of every class (the number asked for divided by the number of classes, rounded down) with two coordinates, and without noise the spirals are turned copies of each other. Blobs have as many points per centre as asked for, centres in the given range or exactly those given, the requested dimension and type, and points with a vanishing deviation lie at their centre. Regression sets have the requested points and dimension, coefficients only for informative features, and without noise targets that are exactly the linear function of their point. Ids number the points and class lists count them, shuffled or not.",
 ["inputs", "configurations"], "every request (numbers of points, classes, centres, dimensions, deviations, noise, shuffling) and every seed",
 "Tests generate one set of each kind and only train a model on it.",
 ["subprojects/ufjfmltk-core/src/Datasets.cpp", C+"Datasets.hpp"], [("class-by-class generation", "subprojects/ufjfmltk-core/src/Datasets.cpp")], None, ["the generated datasets"])
prop("C30", "Regressors train and predict as defined",
 "LMS starts from its initial solution (or zero) and passes over whole data sets, moving weights and bias for every point in turn by the learning rate times the error times the point (one for the bias), until it settled or its limit of passes is reached; the model reported and used for predictions is the plane those steps lead to, predictions are its value, and training again gives the same plane. With a small enough rate training never leads away from a plane that fits the data exactly. The nearest-neighbour regressor predicts the mean of the targets of k nearest training points by its metric, the same for every query. The mean squared error is the mean of the squared differences between targets and predictions. Training never changes the caller's data.",
 ["inputs", "configurations"], "every data set, rate, limit, initial solution, k and metric",
 "Tests train one model per regressor on one data set and compare a single error figure.",
 [R+"LMS.hpp", R+"KNNRegressor.hpp", R+"PrimalRegressor.hpp", R+"Metrics.hpp"], [("training loop", R+"LMS.hpp train"), ("neighbour average", R+"KNNRegressor.hpp evaluate")], None, ["models, predictions and errors of regressors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
