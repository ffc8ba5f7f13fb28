#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OPT = "src/Optimizers/optimization.cpp"; EGO = "src/Optimizers/efficient_global_optimization.cpp"
CON = "src/Optimizers/optimization_constraint_functions.cpp"; HIS = "src/Optimizers/optimization_history.cpp"
GLO = "src/Optimizers/globalOptimalDesign.cpp"; OBJ = "src/ObjectiveFunctions/objective_function.cpp"
CFN = "src/ObjectiveFunctions/constraint_functions.cpp"; DES = "src/Design/design.cpp"; DBO = "src/Design/design_bo.cpp"
KRI = "src/SurrogateModels/kriging_training.cpp"; LIN = "src/SurrogateModels/linear_regression.cpp"
SMD = "src/SurrogateModels/surrogate_model_data.cpp"; SMO = "src/SurrogateModels/surrogate_model.cpp"
SMT = "src/SurrogateModels/surrogate_model_tester.cpp"; EXP = "src/CorrelationFunctions/exponential_correlation_function.cpp"
GAU = "src/CorrelationFunctions/gaussian_correlation_function.cpp"; EAO = "src/InternalOptimizers/ea_optimizer.cpp"
EAP = "src/InternalOptimizers/ea_population.cpp"; EAI = "src/InternalOptimizers/ea_individual.cpp"
VEC = "src/LinearAlgebra/vector.cpp"; MAT = "src/LinearAlgebra/matrix.cpp"; LIS = "src/LinearAlgebra/linear_solver.cpp"
DRV = "src/Driver/driver_xml.cpp"; XML = "src/Driver/xml_functions.cpp"; STR = "src/Driver/string_functions.cpp"
KEY = "src/Driver/configkey.cpp"; API = "src/API/cppAPI.cpp"; RAPI = "src/API/rodeo_api.cpp"; BND = "src/Bounds/bounds.cpp"
NOASSERT = "The four existing tests run one fixed study each and assert only that a result file exists; "

p("O01", "Every evaluated design lies inside the parameter box",
  "In every optimization run, every design handed to the objective function or to a constraint function has each parameter between its declared lower and upper bound (up to the last printed digit). This also holds for the samples of an initial design of experiments, whatever the seed, the dimension, the position and scale of the box, the constraints and the training data the run starts from.",
  ["inputs", "configurations", "histories"],
  "all boxes (offset, tiny, huge, anisotropic), dimensions, initial data sets (also with samples outside the box), objectives, constraints, seeds, iteration numbers",
  NOASSERT + "none looks at the designs that were evaluated.",
  [OPT, DBO, BND, API], [("normalised search space [0, 1/dim] and back transformation", OPT + ": findTheMostPromisingDesignEGO"),
   ("clamping of gradient updates", DBO + ": gradientUpdateDesignVector"), ("sampling inside a region around the best design", DBO + ": generateRandomDesignVectorAroundASample"),
   ("DoE sampling", API + ": generateDoESamplesInput")], ["arguments of the user callback", "training data CSV"])
p("O02", "Discrete parameters only take values of the declared grid",
  "When a parameter is declared discrete with an increment, every design proposed and evaluated by the optimizer gives it one of the values lower + k*increment that do not exceed the upper bound, and continuous parameters are not rounded. Every grid value, including the last one inside the bound, can be proposed: the proposed value is the one nearest to the continuous optimum.",
  ["inputs", "configurations", "histories"],
  "all increments (dividing the range or not), all boxes, all subsets of discrete parameters, all seeds",
  "No existing study has a discrete parameter.",
  [OPT, DRV], [("grid generation", OPT + ": generateDiscreteValues"), ("rounding", OPT + ": roundDiscreteParameters, findClosestDiscreteValue"), ("configuration of increments", DRV + ": setDiscreteParametersOptimizationStudy")],
  ["arguments of the user callback", "optimization history"])
p("O03", "The evaluation budget is spent exactly",
  "A run with a maximum of N iterations evaluates the objective exactly N times and each constraint exactly N times, one objective and one constraint evaluation per iteration at one and the same design point. A design of experiments of n samples evaluates each function exactly n times and stores n samples per function.",
  ["inputs", "configurations", "histories"], "all budgets N and n >= 1, numbers of constraints, seeds, thread counts",
  NOASSERT + "none counts evaluations.", [EGO, CON, API], [("main loop and stopping rule", EGO + ": performEfficientGlobalOptimization"), ("constraint evaluation", CON + ": evaluateConstraints"), ("DoE", API + ": performDoE, performDoEForConstraints")],
  ["calls of the user callbacks"])
p("O04", "The optimization history records every evaluation exactly and in order",
  "The optimization history, in memory and in its CSV file, consists of the initial training samples in their original order followed by one row per evaluated design in evaluation order. Each row holds exactly the evaluated design parameters, objective value and constraint values (in the file rounded to the printed digits) under a header naming the parameters, the objective and the constraints in that order.",
  ["inputs", "histories", "configurations"], "all runs: dimensions, constraints, values of any magnitude and sign, parameter names, seeds",
  NOASSERT + "the history file is never read.", [HIS, OPT, "src/LinearAlgebra/matrix.cpp"], [("initial history", OPT + ": initializeOptimizationHistory, setOptimizationHistoryData"), ("row per evaluation", HIS + ": updateOptimizationHistory"), ("file", HIS + ": saveOptimizationHistoryFile, setHeader")],
  ["optimizationHistory.csv", "Optimizer::getHistory"])
p("O05", "Feasibility of recorded designs is classified correctly",
  "A design recorded in the history is marked feasible if and only if it lies inside the parameter box and every constraint value is strictly on the demanded side of its threshold ('<' or '>'). An initial sample for which a constraint has no known value is marked infeasible.",
  ["inputs", "histories", "configurations"], "all constraint sets, thresholds and values (also values equal to the threshold), all initial data sets",
  NOASSERT + "the feasibility column is never inspected and no studied value is close to a threshold.", [CON, OPT, CFN, HIS],
  [("check per constraint", CFN + ": checkFeasibility"), ("initial samples", OPT + ": setOptimizationHistoryDataFeasibilityValues, setOptimizationHistoryConstraintsData"), ("new designs", CON + ": checkConstraintFeasibility")], ["Feasibility column of the history", "globalOptimalDesign.xml"])
p("O06", "The reported optimum is the best feasible design evaluated",
  "After an optimization the reported global optimum is the feasible design of the history with the smallest objective value and is reported as feasible; if no design is feasible, the design with the smallest objective value is reported and marked infeasible. Its parameters, objective value, constraint values and design number are those of that history entry.",
  ["inputs", "histories"], "all histories: any mixture of feasible and infeasible designs, ties, negative and huge values, best design in the initial data or in any iteration",
  NOASSERT + "the content of globalOptimalDesign.xml is never compared with anything.", [GLO, OPT], [("selection", GLO + ": findBestDesignIndex"), ("extraction", GLO + ": extractDesignData"), ("output", GLO + ": saveToXMLFile, generateXmlString")], ["globalOptimalDesign.xml"])
p("O07", "The reported improvement is the gain over the best feasible initial design",
  "The improvement recorded for an evaluated design is the best feasible initial objective value minus the objective value of the design if the design is feasible and better, and zero otherwise. Infeasible designs never count as an improvement. If no initial sample is feasible, the first feasible design evaluated takes the place of the best initial one (and its own improvement is at most 1e-9).",
  ["inputs", "histories"], "all histories with and without feasible initial samples, all magnitudes and signs of objective values",
  NOASSERT + "the improvement column is never inspected.", [OPT, HIS], [("improvement of a design", OPT + ": calculateImprovementValue"), ("initial reference value", HIS + ": calculateInitialImprovementValue")], ["Improvement column of the history"])
p("O08", "An interrupted optimization loses no completed evaluation and can be resumed",
  "If the process dies at any point of an optimization, the training data files of the objective and of the constraints on disk contain every evaluation completed in earlier iterations, readable and in order. A new run started from these files begins with exactly these samples in its history and continues normally. If an evaluation throws or returns a value that is not a number, the run ends with an error, nothing of that iteration is stored, and it can be resumed in the same way. If a file of samples, the history or the result cannot be written, the run ends with an error and no sample stored before is lost or altered.",
  ["crash_points", "histories", "configurations"], "every evaluation of the objective or of a constraint and every write to a file as crash point, every byte of a file as the point where writing fails, all problem shapes and seeds",
  "No existing test interrupts a run.", [EGO, OBJ, CFN, HIS], [("samples are appended to the files after each iteration", OBJ + ": addDesignToData"), ("append", "src/LinearAlgebra/vector.cpp: appendToCSV"), ("restart", OPT + ": initializeSurrogates")], ["training data CSV files", "optimizationHistory.csv"])
p("O09", "Training data files accumulate evaluated samples without loss",
  "Every newly evaluated sample that is not a near duplicate of a stored one is appended as one row at the end of the training data file of its function, with its parameters and value to twelve decimals, and no existing row is altered or lost. A near duplicate (all parameters and the value within 1e-4) is skipped and changes nothing.",
  ["inputs", "histories"], "all sequences of samples with distinct, near-duplicate and repeated designs, all magnitudes, objective and constraint functions with any number of samples",
  NOASSERT + "no test reads a training data file back.", [OBJ, CFN, SMD, KRI, VEC], [("append and duplicate filter", OBJ + ": addDesignToData; " + KRI + ": addNewSampleToData"), ("CSV row", VEC + ": appendToCSV")], ["training data CSV files", "data held by the surrogate model"])
p("O10", "Proposed designs maximise the acquisition function",
  "The design proposed for evaluation is the result of a search of the acquisition function: its acquisition value, recomputed at the proposed point, equals the reported one, and it is not worse than a large sample of random designs of the same size as a small part of the search effort. The local refinement of a design never decreases its acquisition value, and no move of the search leaves the search region.",
  ["inputs", "configurations", "histories"], "all training sets, constraint sets, numbers of inner iterations, threads, seeds and starting designs",
  NOASSERT + "a proposal that ignores the surrogate model still produces a result file.", [OPT, OBJ, CON], [("global search", OPT + ": searchCompleteDesignSpace"), ("search around best design", OPT + ": searchAroundGlobalOptima"), ("gradient ascent", OPT + ": maximizeAcqusitionFunctionGradientBased")], ["Optimizer::findTheMostPromisingDesignEGO", "Optimizer::getDesignWithMaxExpectedImprovement"])
p("O11", "Surrogate models are trained on schedule and know every evaluated sample",
  "In an optimization the surrogate models of the objective and of all constraints are trained in the first iteration and then again after every N iterations, with N the training interval that was set (never again if the run is shorter). Every new design is proposed with surrogate models that hold all samples stored so far, in particular those evaluated since the last training, and use the hyper-parameters found in the last scheduled training.",
  ["histories", "configurations"], "all training intervals, numbers of iterations, data sets, sets of constraints and surrogate types",
  NOASSERT + "a model that is trained too rarely or does not know the last samples still produces a result.", [EGO, OPT, OBJ, KRI], [("schedule", EGO + ": performEfficientGlobalOptimizationOnlyWithFunctionalValues"), ("training", OBJ + ": trainSurrogate; " + KRI + ": train"), ("new data", KRI + ": addNewSampleToData, updateModelWithNewData")], ["estimates of the surrogate models at a proposal"])
p("O12", "An inconsistent optimization problem is rejected before anything is evaluated",
  "If the problem given to an Optimizer is incomplete or inconsistent (no objective function, definition, box or number of evaluations; bounds, objective, constraints, data and optimizer of different dimensions; intervals that are empty, inverted, infinite or undefined; surrogate models that are not available; missing or malformed data; constraint numbers or names used twice) an exception is raised before any function is evaluated and no data, history or result file is changed. A setting that is rejected leaves the settings accepted before as they were.",
  ["inputs", "configurations", "faults"], "all problems with one such inconsistency, and all sequences of rejected and accepted settings",
  NOASSERT + "tests only set up consistent problems.", [OPT, EGO, OBJ, CFN, "src/Bounds/bounds.cpp"], [("checks", OPT + ": checkIfSettingsAreOK; " + OBJ + ": setParameterBounds, initializeSurrogate, bindSurrogateModel"), ("settings", "src/Optimizers/optimization_setter_getters.cpp: setBoxConstraints, setHowOftenTrainModels")], ["set-up calls of Optimizer, ObjectiveFunction, ConstraintFunction and Bounds"])
p("A01", "Expected improvement and improvement probability follow their definitions",
  "For a surrogate estimate with mean m and standard deviation s > 0, expected improvement equals (y-m)*Phi((y-m)/s) + s*phi((y-m)/s) with y the best feasible objective value known and s scaled by the exploration factor, and the improvement probability equals Phi((y-m)/s). Both are finite and never negative, and where the model has no uncertainty the expected improvement is zero.",
  ["inputs", "configurations"], "all training sets, query points (also at and next to samples), exploration factors, best values far above and below all predictions",
  NOASSERT + "any non-crashing acquisition value passes.", [OBJ, DBO], [("EI", OBJ + ": calculateExpectedImprovement"), ("PI", OBJ + ": calculateProbabilityOfImprovement"), ("pdf/cdf", OBJ + ": pdf, cdf")], ["acquisition value of a design"])
p("A02", "Acquisition is weighted by the probability that all constraints hold",
  "For every design the feasibility probability of each constraint equals the normal probability, under the constraint surrogate's mean and standard deviation, of lying on the demanded side of the threshold (or 1 or 0 for a constraint that is computed exactly), and the acquisition value is the unconstrained one times the product of these probabilities. Probabilities lie in [0,1] and those of the two sides of a threshold add up to one, except for an exactly computed value that equals the threshold, which satisfies neither side.",
  ["inputs", "configurations"], "all numbers, directions and thresholds of constraints, training sets, query points, exactly computed constraints",
  NOASSERT + "no test inspects feasibility probabilities.", [CON, OPT, DBO, CFN], [("probabilities", CON + ": calculateFeasibilityProbabilities"), ("normal distribution", OPT + ": normalCdf"), ("product", DBO + ": updateAcqusitionFunctionAccordingToConstraints"), ("estimates", CON + ": estimateConstraints")], ["acquisition value and constraint estimates of a design"])
p("S01", "Kriging prediction and variance agree with Gaussian process theory",
  "For given hyper-parameters the Kriging model's estimate and variance at any point equal the closed-form Gaussian process solution with exponential-power correlation, generalised-least-squares mean and the nugget on the diagonal, computed from the training file, the box and the hyper-parameters. This holds for any scaling of inputs and outputs up to rounding.",
  ["inputs", "configurations"], "all training sets (dimension, sample count, scale), boxes, hyper-parameters with a well-conditioned correlation matrix, nuggets, query points",
  NOASSERT + "no surrogate value is compared with a reference.", [KRI, SMD, EXP, LIS], [("auxiliary quantities", KRI + ": updateAuxilliaryFields, calculateBeta0"), ("predictor", KRI + ": interpolate"), ("variance", KRI + ": interpolateWithVariance")], ["interpolate, interpolateWithVariance"])
p("S02", "Kriging interpolates its data with sane uncertainty",
  "At every training sample the Kriging estimate reproduces the stored output and the variance is zero, both up to the nugget and rounding, and everywhere the estimate is finite and the variance is finite and not negative. Far away from all samples the variance approaches the process variance plus the variance of the estimated mean, and the estimate approaches the trend.",
  ["inputs", "configurations"], "all training sets incl. constant outputs, clustered samples, after training and for given hyper-parameters",
  NOASSERT + "no predicted value is inspected.", [KRI, EXP, SMD], [("predictor", KRI + ": interpolate"), ("variance", KRI + ": interpolateWithVariance"), ("nugget", "src/CorrelationFunctions/correlation_functions.cpp: setEpsilon")], ["interpolate, interpolateWithVariance"])
p("S03", "Kriging training finds admissible hyper-parameters of higher likelihood",
  "Training returns hyper-parameters with every length parameter in [0,20] and every exponent in [1,2], whose concentrated likelihood is the one defined by the training data and is not worse than that of nearly all randomly chosen admissible hyper-parameters. The model used afterwards is the one with these hyper-parameters, for any number of threads.",
  ["inputs", "configurations", "schedules"], "all training sets, iteration counts, thread counts, training repeated any number of times",
  NOASSERT + "training that returns arbitrary parameters passes.", [KRI, EAO], [("training", KRI + ": train"), ("likelihood", KRI + ": calculateLikelihoodFunction"), ("choice of best optimizer", KRI + ": train")], ["getHyperParameters, calculateLikelihoodFunction"])
p("S04", "Adding a sample to a surrogate equals rebuilding it with that sample",
  "After any sequence of added samples the surrogate model predicts everywhere the same values and variances as a model with the same hyper-parameters built from scratch from all accepted samples. Near-duplicate samples leave the model unchanged.",
  ["histories", "inputs"], "all initial sets and sequences of added samples incl. duplicates, samples beyond the initial output range, samples added after training",
  NOASSERT + "adding samples is only exercised implicitly and no prediction is compared.", [KRI, SMD, LIN], [("add", KRI + ": addNewSampleToData, updateModelWithNewData"), ("normalised copy", SMD + ": normalizeSampleInputMatrix")], ["interpolate, getRawData"])
p("S05", "Saved hyper-parameters restore an equivalent model",
  "Hyper-parameters written by a model and read by another model of the same data give the same hyper-parameters and the same predictions up to rounding. A warm-started training continues from the stored state and does not end with a worse result than that state.",
  ["inputs", "histories", "configurations"], "all hyper-parameter values and magnitudes, data sets, save/load sequences",
  "No existing test saves or loads a model.", [KRI, EAP, EAO, VEC], [("save/load", KRI + ": saveHyperParameters, loadHyperParameters"), ("warm start", KRI + ": train; " + EAO + ": optimize; " + EAP + ": readPopulationDataFromFile")], ["hyper-parameter file", "interpolate"])
p("S06", "Linear regression is the regularised least-squares fit",
  "Linear regression weights are the ridge-regularised least-squares solution for the normalised training data, so that data from an exactly affine function are reproduced at every point up to the regularisation. Universal Kriging equals this trend plus the Kriging model of the residuals.",
  ["inputs", "configurations"], "all training sets (also fewer samples than parameters), boxes, regularisation parameters, query points",
  "No existing test uses linear regression or universal Kriging.", [LIN, KRI], [("fit", LIN + ": train"), ("prediction", LIN + ": interpolate, interpolateAll"), ("universal Kriging", KRI + ": initializeSurrogateModel")], ["interpolate, getWeights"])
p("S07", "A surrogate test reports true predictions, values and errors",
  "Testing a surrogate on a test file writes one row per test sample, in order, with the sample's parameters, the model's estimate, the true value and the squared error under a matching header. The reported in-sample, out-of-sample and validation errors are the means over the respective sample sets, and a validation split uses every sample exactly once.",
  ["inputs", "configurations", "histories"], "all training and test sets, validation ratios, test files with and without values, repeated use of the same model object",
  "No existing test runs the surrogate tester.", [SMO, SMD, SMT], [("test loop", SMO + ": tryOnTestData"), ("file", SMO + ": saveTestResults"), ("errors", SMO + ": calculateInSampleError, calculateOutSampleError, calculateValidationError"), ("split", SMD + ": readData")], ["surrogate test result CSV", "error values"])
p("S08", "Surrogate predictions do not depend on units or sample order",
  "Expressing a parameter in other units (an affine change of parameter, samples and box), applying an affine change to the outputs, or permuting training samples or parameters (with their hyper-parameters) changes estimates only by that affine map and variances by the square of its factor.",
  ["inputs", "configurations"], "all data sets, hyper-parameters, affine maps with positive factors of any magnitude, permutations",
  "Existing tests use one scaling per problem and compare nothing.", [SMD, KRI, LIN, "src/LinearAlgebra/matrix.cpp"], [("normalisation", SMD + ": normalize"), ("normalisation of queries", SMO + ": tryOnTestData")], ["interpolate, interpolateWithVariance"])
p("S09", "Correlation functions are valid kernels with consistent derivatives",
  "Every correlation function returns, for any admissible parameters, values in [0,1] that are symmetric and equal one at zero distance, decrease with distance, and agree with their closed form; correlation matrices and vectors hold exactly these pairwise values with the nugget only on the diagonal and are positive semi-definite. Directional derivatives agree with difference quotients of the correlation. This holds after any sequence of changes of samples, parameters and nugget on one object.",
  ["inputs", "configurations"], "all dimensions, sample matrices, parameters, nuggets, directions",
  "Gaussian correlations and derivatives are used by no test; exponential ones only indirectly.", [EXP, GAU, "src/CorrelationFunctions/correlation_functions.cpp", VEC], [("exponential", EXP + ": computeCorrelation"), ("Gaussian", GAU + ": computeCorrelation, computeCorrelationDot, computeCorrelationDotDot"), ("vector kernels", VEC + ": calculateGaussianCorrelationFunction, calculateExponentialCorrelationFunction")], ["computeCorrelation, getCorrelationMatrix"])
p("S10", "Samples with derivatives keep their layout",
  "A sample with derivatives is one row: parameters, function value and gradient, or parameters, function value, directional derivative and direction. A design composes such a row for the objective and for each constraint from its own high or low fidelity values, and a request for a constraint that does not exist is an error. Reading a data file yields for every sample the parameters, value, gradient or directional derivative and direction of its row, also with validation samples, after going back to the full data, and after reading again. Normalisation converts parameters and derivatives to the normalised parameters (directional derivatives for boxes with equal ranges). A file that does not have the number of columns of its kind is rejected.",
  ["inputs"], "all dimensions, numbers of samples and constraints, values, boxes, validation ratios",
  "The stable tests use no derivatives.", [SMD, "src/Design/design.cpp"], [("rows of a design", "src/Design/design.cpp: constructSample..."), ("columns of a file", SMD + ": readData, assignGradientMatrix, assignDirectionalDerivativesVector"), ("normalisation", SMD + ": normalizeGradientMatrix, normalizeDerivativesMatrix")], ["rows returned by Design, getters of SurrogateModelData"])
p("E01", "The evolutionary optimizer returns the best admissible point it evaluated",
  "The internal evolutionary optimizer evaluates its objective only inside the given bounds, stops with the generation in which its budget of evaluations is used up, and returns the point with the smallest value among all it evaluated, together with that value. Its best value never gets worse from generation to generation or by a warm restart. Settings without a meaning (empty or inverted bounds, no objective, more deaths than members) are rejected before the objective is called.",
  ["inputs", "histories", "configurations"], "all objectives (also constant, negative, huge, discontinuous), bounds, population sizes, mutation and death settings, budgets, seeds",
  NOASSERT + "a wrong internal optimum is invisible.", [EAO, EAP, EAI], [("generations", EAO + ": optimize"), ("best", EAO + ": getBestDesignVector, getBestObjectiveFunctionValue; " + EAP + ": getTheBestIndividual"), ("mutation inside bounds", EAO + ": applyMutation, crossOver")], ["calls of the objective", "getBestDesignVector"])
p("E02", "The evolutionary population stays consistent over its whole life",
  "After any sequence of insertions, removals, crossings and updates every member has a unique identity, size equals insertions minus removals, best and worst members are those with the smallest and largest value, reproduction probabilities are proportional to fitness and sum to one, death probabilities are zero for the best tenth and otherwise proportional to the inverse fitness and sum to one, and the best member is never removed by selection. Writing and reading a population preserves it.",
  ["histories", "inputs"], "all sequences of population operations, all objective values incl. negative, equal and huge",
  "The population is only exercised inside model training and its state is never inspected.", [EAP, EAI], [("statistics", EAP + ": updatePopulationMinAndMax, updateFitnessValues"), ("selection", EAP + ": pickUpARandomIndividualForReproduction, removeIndividual"), ("file", EAP + ": writeToCSV, readFromCSV")], ["public population interface"])
p("L01", "Vector operations agree with their mathematical definition",
  "Every vector operation (arithmetic, slicing, concatenation, norms, statistics, sorting, searching, comparison, unit vectors, random sampling within bounds) returns the mathematically defined result for every admissible input, leaves its inputs unchanged unless it is an in-place operation, and rejects inadmissible input with an error.",
  ["inputs", "programs"], "all vectors incl. empty and single-element ones, all arguments, all operation sequences",
  "The existing tests reach only the few operations their runs need.", [VEC, "src/LinearAlgebra/INCLUDE/vector.hpp"], [("vector class", VEC)], ["public vector interface"])
p("L02", "Matrix operations agree with their mathematical definition",
  "Every matrix operation (element access, product, transpose, sub-matrix, concatenation, insertion and deletion of rows and columns, normalisation, row search, norms and random fill) returns the mathematically defined result for every admissible shape, and all elements not addressed by the operation keep their values.",
  ["inputs", "programs"], "all shapes, element values, arguments and operation sequences",
  "The existing tests reach only the few operations and shapes their runs need.", [MAT, "src/LinearAlgebra/INCLUDE/matrix.hpp"], [("matrix class", MAT)], ["public matrix interface"])
p("L03", "Factorisations and linear solvers solve their systems",
  "For every well-conditioned matrix the Cholesky, LU, inverse and determinant computations satisfy their defining equations and the linear solvers return the solution of their system up to rounding; a matrix that is singular or not positive definite is reported and never silently accepted.",
  ["inputs"], "all sizes, all well-conditioned and all singular or indefinite matrices, right-hand sides",
  "Only Cholesky solves of a few fixed studies are exercised and their results are not inspected.", [LIS, MAT], [("Cholesky", LIS), ("LU", LIS)], ["public solver interface"])
p("L04", "Numerical data survive a round trip through CSV files",
  "A matrix or vector written to a CSV file and read again has the same shape, order, header and values up to the written precision, and appending a row adds exactly that row. Missing files and files with ragged rows or non-numeric fields are rejected with an error, and so is a file that cannot be written completely.",
  ["inputs"], "all shapes, magnitudes, signs, precisions, headers, malformed files",
  "Existing tests only read well-formed files and never compare.", [MAT, VEC], [("matrix CSV", MAT + ": saveAsCSV, readFromCSV"), ("vector CSV", VEC + ": saveToCSV, appendToCSV, readFromCSV")], ["CSV files"])
p("L05", "Sampling fills the box as promised and normalisation is invertible",
  "A Latin hypercube of n samples has, in every dimension, exactly one sample in each of the n equal slices of the box; uniform random samples lie in the box and cover it. Normalising a vector or matrix to the search region and back returns the original, and the box maps onto the search region.",
  ["inputs", "configurations"], "all dimensions, sample counts, boxes, seeds",
  NOASSERT + "no sample set is inspected.", [MAT, VEC, BND], [("LHS", API + ": generateDoESamplesInput"), ("normalisation", MAT + ": normalizeMatrix; " + VEC + ": normalizeVector"), ("bounds", BND + ": generateVectorWithinBounds")], ["sample matrices"])
p("D01", "The configuration file is honoured exactly",
  "For every valid configuration file the optimization that is run has exactly the configured dimension, number of evaluations, parameters (name, type, bounds, increment), objective and constraints (name, direction, threshold, executable, data and exchange files, surrogate type). The order of elements, white space and letter case of enumerated values do not matter.",
  ["configurations", "inputs"], "all valid configurations",
  "The three stable configuration files are fixed and only the existence of a result is checked.", [DRV, XML, STR, KEY], [("parsing", DRV + ": readConfigurationFile"), ("values", XML + ": getDoubleValueFromXML ff."), ("transfer to the optimizer", DRV + ": setBoxConstraintsOptimizationStudy ff.")], ["configured run: executed commands, history and result files", "values returned by the XML functions"])
p("D02", "An invalid configuration is rejected before anything is evaluated",
  "A configuration that lacks a required item, has a wrong number of parameters, non-numeric or inverted bounds, an unknown parameter type, constraint direction or surrogate type, or a missing file, makes the program fail with an error before any evaluation. It never runs with silently invented values.",
  ["configurations", "inputs"], "all single and multiple faults in otherwise valid configurations",
  "No existing test has an invalid configuration.", [DRV, XML, KEY, "src/Rodeo.cpp"], [("validation", DRV), ("missing values", KEY + ": returnErrorIfNotSet"), ("exit code", "src/Rodeo.cpp")], ["exit status of the program", "executed commands"])
p("D03", "Reading configuration and data files is robust",
  "For every byte sequence, the configuration reader and the data file readers terminate and either return values or raise an error; they never crash, hang or read outside their data. Well-formed values are extracted exactly.",
  ["inputs"], "all byte strings, in particular mutated valid files",
  "Existing tests read only well-formed files.", [DRV, XML, STR, KEY, MAT, VEC], [("text extraction", STR + ": extractContentBetweenKeys, extractContents"), ("value extraction", XML), ("constraint blocks", DRV + ": readConstraintFunctionsFromXML"), ("CSV", MAT + ": readFromCSV")], ["process outcome"])
p("D04", "External programs are evaluated faithfully",
  "When a function is evaluated by an external program, the program is run once per evaluation in the configured way, finds in its design file exactly the parameters that are recorded for the design (it is not run if that file cannot be written), and the first value it writes to the output file of the function is the value recorded for that function. A function without a program of its own reads its own output file, as written by the program of another function at the same design.",
  ["inputs", "configurations", "histories"], "all designs (magnitudes, signs, dimension), outputs, file names, executable paths, sets of functions",
  "The existing studies check only that a result file exists.", [OBJ, CFN], [("design file", OBJ + ": writeDesignVariablesToFile"), ("execution", OBJ + ": evaluateObjectiveFunction, getExecutionCommand"), ("output", OBJ + ": readOutput")], ["design file, output file, recorded values"])
p("D05", "A failing evaluation is never recorded as a result",
  "If an external program fails (cannot be started, non-zero exit, killed by a signal) or leaves no, an empty, an incomplete or a non-numeric output in the output file of its function, the evaluation raises an error, the run stops with an error, and no value from an earlier evaluation or invented value is recorded. Samples recorded before the failure are kept.",
  ["fault_sequences", "inputs"], "all fault kinds, at any evaluation of any function",
  "No existing test has a failing evaluation.", [OBJ, CFN, "src/Rodeo.cpp"], [("exit code", OBJ + ": evaluateObjectiveFunction"), ("output", OBJ + ": readOutput"), ("NaN", OPT + ": abortIfCurrentDesignHasANaN")], ["training data files, history file, exit status"])
p("T01", "The library interface runs the problem it is given",
  "Through the C++ library interface, the functions evaluated, the number of initial samples and evaluations, the box, the files written and the constraints enforced are exactly those that were set, and every required setting that is missing is reported by an error before any evaluation.",
  ["configurations", "inputs", "histories"], "all problem definitions and orders of calls that the interface allows",
  "One fixed problem is run and nothing is compared.", [API, RAPI], [("settings", API), ("DoE", API + ": performDoE, performDoEForConstraints"), ("run", API + ": run")], ["calls of the user functions, files"])
p("T02", "Constraint expressions are parsed to what they say",
  "An expression 'name < value' or 'name > value', with its parts separated by any white space and any decimal notation of a finite value, yields exactly that name, direction and threshold; any other text is rejected with an error and adds no constraint (a form without white space around the operator is either rejected or read as that name, direction and threshold).",
  ["inputs"], "all strings, valid and invalid", "One fixed expression is used.", [API, CFN], [("parser", API + ": parseExpression, addConstraint"), ("definition", CFN + ": setDefinition")], ["constraint as enforced and printed"])
p("T03", "The number of threads does not affect the validity of results",
  "With any number of threads, model training and design search finish and satisfy the same guarantees as with one thread: proposals inside the box, the best candidate found by any thread is the one returned with its true acquisition value, and trained parameters are those of the best thread.",
  ["schedules", "configurations", "inputs"], "all thread counts and interleavings", "Existing studies use one thread or do not look at results.",
  [OPT, KRI], [("parallel search", OPT + ": searchCompleteDesignSpace, searchAroundGlobalOptima"), ("parallel training", KRI + ": train")], ["proposed designs, hyper-parameters"])
p("M01", "No input leads to undefined behaviour",
  "For every admissible sequence of library calls and input files, no memory is accessed out of bounds, after release or uninitialised, and no undefined arithmetic is executed.",
  ["inputs", "programs", "histories"], "all inputs generated for the other properties",
  "Existing tests run without sanitizers on a handful of inputs.", ["src"], [("all parts", "src")], ["sanitizer reports"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
