From 744ef26949e7a0f8e29a6a49d4a9056082540eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 01/70] fix: reject negative positions in mat::addRow,
 addColumn and deleteRow

---
 src/LinearAlgebra/matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..e7d3d90 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -196,7 +196,7 @@ void mat::addRow(const vec& rowVec, int position) {
 		ncols = rowVec.getSize();
 	}
 
-	if (position > static_cast<int>(nrows)) {
+	if (position < 0 || position > static_cast<int>(nrows)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (rowVec.getSize() != ncols) {
@@ -240,7 +240,7 @@ void mat::addColumn(const vec& colVec, int position) {
 	}
 
 
-	if (position > static_cast<int>(ncols)) {
+	if (position < 0 || position > static_cast<int>(ncols)) {
 		throw std::invalid_argument("Position out of range.");
 	}
 	if (colVec.getSize() != nrows) {
@@ -282,7 +282,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
-- 
2.43.0


From 1beb3bdfa3801404fe6429c73d1636b95f1093ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 02/70] fix: mat::eye sets the off-diagonal elements to zero

---
 src/LinearAlgebra/matrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index e7d3d90..2a4279b 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -547,8 +547,9 @@ void mat::eye(){
 		throw std::invalid_argument("mat::eye: Matrix must be square.");
 	}
 	for (unsigned int row = 0; row < nrows; ++row) {
-		matrix[row * nrows + row] = 1.0;
-
+		for (unsigned int col = 0; col < ncols; ++col) {
+			matrix[col * nrows + row] = (row == col) ? 1.0 : 0.0;
+		}
 	}
 
 }
-- 
2.43.0


From f54b4ddedfd444a528d37ab56f6f6ca8a77a088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 03/70] fix: mat::readFromCSV rejects malformed numbers and
 keeps the matrix when it fails

---
 src/LinearAlgebra/matrix.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 2a4279b..c514704 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1014,9 +1014,17 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			row.push_back(std::stod(value));
+			size_t numberOfCharactersRead = 0;
+			double number = std::stod(value, &numberOfCharactersRead);
+			if (value.find_first_not_of(" \t\r", numberOfCharactersRead) != std::string::npos) {
+				throw std::invalid_argument("Invalid number in file: " + filename + ": " + value);
+			}
+			row.push_back(number);
 		}
 
+		if (!data.empty() && row.size() != data[0].size()) {
+			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(data.size()));
+		}
 		data.push_back(row);
 	}
 
@@ -1036,9 +1044,6 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
-		if (data[i].size() != static_cast<size_t>(ncols)) {
-			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
-		}
 		for (unsigned int j = 0; j < ncols; ++j) {
 			matrix[j * nrows + i] = data[i][j];  // Column-major order
 		}
-- 
2.43.0


From adba4e0f63e7903b9690d579a3e320b1bc864425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 04/70] fix: mat::choleskyNaive rejects a zero pivot

---
 src/LinearAlgebra/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index c514704..e297b04 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1173,7 +1173,7 @@ mat mat::choleskyNaive(int& ret) const {
 
 			if (i == j) {
 				double fac = matrix[i + i * n] - sum;
-				if(fac < 0) {
+				if(fac <= 0) {
 					ret = -1;
 					return L;
 				}
-- 
2.43.0


From 030047dfe64f75e9e4785461b5ab787ab7b26c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 05/70] fix: Bounds rejects lower and upper bounds of different
 sizes

---
 src/Bounds/bounds.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 6a83dcb..2836dc3 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -37,6 +37,10 @@ Bounds::Bounds(std::vector<double> lb, std::vector<double> ub) {
 
 Bounds::Bounds(vec lb, vec ub){
 
+	if (lb.getSize() != ub.getSize()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	lowerBounds = lb;
 	upperBounds = ub;
 	dimension = lb.getSize();
@@ -86,6 +90,10 @@ void Bounds::setBounds(double lowerBound, double upperBound) {
 
 void Bounds::setBounds(std::vector<double> lb, std::vector<double> ub){
 
+	if (lb.size() != ub.size()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	unsigned int size = lb.size();
 	lowerBounds.resize(size);
 	upperBounds.resize(size);
-- 
2.43.0


From b851f3a73866cca2402e8daa99048e59ae611f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 06/70] fix: vec::saveToCSV writes all significant digits

---
 src/LinearAlgebra/vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..5d7a008 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -38,6 +38,7 @@
 #include <sstream>
 #include <random>
 #include <iomanip>
+#include <limits>
 #ifdef OPENBLAS
 #include <cblas.h>
 #endif
@@ -696,6 +697,9 @@ void vec::saveToCSV(const std::string& filename) const {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
+	// Enough digits, so that the values can be restored exactly
+	outFile << std::setprecision(std::numeric_limits<double>::max_digits10);
+
 	for (unsigned int i = 0; i < size; ++i) {
 		outFile << data[i];
 		if (i < size - 1) {
-- 
2.43.0


From af50a54f41c8403f3d38c1b09db502a83cfdc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 07/70] fix: vec::readFromCSV rejects text after a number

---
 src/LinearAlgebra/vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 5d7a008..60319dd 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -723,6 +723,10 @@ void vec::readFromCSV(const std::string& filename) {
 		if (!(ss >> value)) {
 			throw std::runtime_error("Invalid data in CSV file.");
 		}
+		std::string rest;
+		if (ss >> rest) {
+			throw std::runtime_error("Invalid data in CSV file.");
+		}
 		tempData.push_back(value);
 	}
 	inFile.close();
-- 
2.43.0


From 061d161e9d900bb8f96d6cd9c5cd2c8617cb95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 08/70] fix: build the header of the test results anew each
 time they are saved

---
 src/SurrogateModels/surrogate_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..6deba58 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -256,6 +256,7 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From cce96b666a2920b029fd89092ea521e45407fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 09/70] fix: test data without function values replace earlier
 test data with values

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..8467c44 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -229,6 +229,7 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	} else if (XrawTest.getNCols() == dimension) {
 		// Data contains only input values
 		XTest = XrawTest;
+		ifTestDataHasFunctionValues = false;
 	} else {
 		// Invalid number of columns
 		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
-- 
2.43.0


From 4e9b7b857a9556940121f6119cfcf6ff3bf89601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 10/70] fix: reading the data again does not keep the previous
 validation samples

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8467c44..7d734ed 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -128,6 +128,7 @@ void SurrogateModelData::readData(string inputFilename){
 	ModelLogger::getInstance().log(INFO, "Ratio for validation samples: " + std::to_string(ratioValidationData) );
 
 	if(ratioValidationData>0){
+		rawDataValidation.reset();
 		numberOfSamples = rawData.getNRows();
 		indicesForValidationData = generateRandomIndicesForValidationData(numberOfSamples, ratioValidationData);
 
-- 
2.43.0


From b86d5ea8042a02f2ce5529cc516166991e4eaa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 11/70] fix: SurrogateModelTester rejects validation ratios
 outside [0,1]

---
 src/SurrogateModels/surrogate_model_tester.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..3a4553c 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -38,7 +38,7 @@ void SurrogateModelTester::setSurrogateModel(SURROGATE_MODEL modelType){
 
 void SurrogateModelTester::setRatioValidationSamples(double value){
 
-	if(value<0 && value > 1.0){
+	if(value<0 || value > 1.0){
 		ModelLogger::getInstance().log(ERROR, "Model Tester: Validation samples ration is not valid.");
 		throw std::invalid_argument("Model Tester: Validation samples ration is not valid.");
 	}
-- 
2.43.0


From 209d57ce6deccf02dc72b73ea27e367e8204562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 12/70] fix: hyper-parameters without a factorization get the
 largest validation error

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..21dca8e 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -638,7 +638,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return a large error if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From 2d408327201fdd2af855cfd30c6b272342798dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 13/70] fix: the Kriging variance is never negative

---
 src/SurrogateModels/kriging_training.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 21dca8e..4a89f10 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -600,6 +600,12 @@ void KrigingModel::interpolateWithVariance(vec xp,double *ftildeOutput,double *s
 
 	double term3 = term2 + term1;
 
+	/* round-off must not turn the variance into a negative number */
+	if(term3 < 0.0) {
+
+		term3 = 0.0;
+	}
+
 	*sSqrOutput = sigmaSquared* term3;
 
 }
-- 
2.43.0


From 2a366e7f99f9b5f2b1641556a525d4d792a56ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 14/70] fix: training with several threads does not reduce the
 iterations of later trainings

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 4a89f10..35ea4d6 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -740,8 +740,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		unsigned int numberOfIterationsPerThread = numberOfTrainingIterations / numberOfThreads;
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -758,7 +758,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From 132d249946eb95c5dd15cb71385d8d2f1b5c2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 15/70] fix: the worst member of an EA population is found also
 for negative values and after a reset

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp |  4 ++--
 src/InternalOptimizers/ea_population.cpp         | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..1aad77e 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMinimum = std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..36a7113 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,10 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	populationMaximum =  -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
+	idPopulationMaximum = 0;
+	idPopulationMinimum = 0;
 
 }
 
@@ -249,7 +253,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -347,8 +351,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMaximum =  -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
-- 
2.43.0


From 49b54e3e63113cc1c4dcf750f62dd002f3ee4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 16/70] fix: EA fitness values are well defined for constant
 and for widely spread objective values

---
 .../INCLUDE/ea_population.hpp                 |  2 -
 src/InternalOptimizers/ea_population.cpp      | 94 +++----------------
 2 files changed, 15 insertions(+), 81 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 1aad77e..1c0268f 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -27,8 +27,6 @@ private:
 	void updateMinAndMaxIfNecessary(double J, unsigned int id);
 	std::string polynomialForFitnessDistrubution = "quadratic";
 
-	vec findPolynomialCoefficientsForQuadraticFitnessDistribution(void) const;
-
 	void updateFitnessValuesLinear();
 	void updateFitnessValuesQuadratic();
 
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36a7113..0dd722e 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -407,24 +407,26 @@ void EAPopulation::updateFitnessValuesLinear() {
 	}
 }
 
+/* fitness is a quadratic polynomial of the objective function value:
+ *
+ * fitness(min) = 1 (best fitness)
+ * fitness(max) = 0.01 (worst fitness)
+ * derivative at populationMaximum = 0
+ *
+ * If all individuals have the same value, then they are all equally fit.
+ */
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
+	const double worstFitness = 0.01;
+	/* halves are used to avoid overflow of the difference */
+	double halfRange = 0.5 * populationMaximum - 0.5 * populationMinimum;
 
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
-		if(fitnessValue <= 0.0){
-			print();
-			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
-			throw std::runtime_error("EAPopulation::updateFitnessValuesQuadratic: invalid fitness value");
+		double t = 1.0;
+		if (halfRange > 0.0) {
+			t = (0.5 * populationMaximum - 0.5 * it->getObjectiveFunctionValue()) / halfRange;
 		}
-
-
-		it->setFitnessValue(fitnessValue);
+		it->setFitnessValue(worstFitness + (1.0 - worstFitness) * t * t);
 	}
 }
 
@@ -449,72 +451,6 @@ void EAPopulation::updateFitnessValues(void){
 }
 
 
-/* Here we assume a quadratic function between fitness and objective function values.
- *
- *
- * fitness(J) = a*x*x + b*x + c
- *
- * J(populationMaximum)  = aValueCloseButNotEqualToZero
- * J(populationMinimum)  = 1.0
- *
- */
-
-vec EAPopulation::findPolynomialCoefficientsForQuadraticFitnessDistribution() const {
-	vec coefficients(3);
-	mat A(3,3);
-	double aValueCloseButNotEqualToZero = 0.01;
-
-	/*
-	 * fitness = a*x*x + b*x + c
-	 *
-	 * fitness(min) = 1 (best fitness)
-	 * fitness(max) = 0.001 (worst fitness)
-	 * dfitness/dx = 2*a*x + b  = 0
-	 *
-	 * a * populationMinimum * populationMinimum + b*populationMinimum + c = 1
-	 * a * populationMaximum * populationMaximum + b*populationMaximum + c = aValueCloseButNotEqualToZero
-	 *
-	 * derivative at populationMaximum = 0
-	 *
-	 *
-	 * */
-
-//	std::cout<<"populationMinimum = " << populationMinimum << "\n";
-//	std::cout<<"populationMaximum = " << populationMaximum << "\n";
-
-	A(0,0) = populationMinimum * populationMinimum;
-	A(0,1) = populationMinimum;
-	A(0,2) = 1.0;
-
-	A(1,0) = populationMaximum * populationMaximum;
-	A(1,1) = populationMaximum;
-	A(1,2) = 1.0;
-
-	A(2,0) = 2.0 * populationMaximum;
-	A(2,1) = 1.0;
-	A(2,2) = 0.0;
-
-	vec rhs(3);
-	rhs(0) = 1.0;
-	rhs(1) = aValueCloseButNotEqualToZero;
-	rhs(2) = 0.0;
-
-	mat A_inv = A.invert();
-	coefficients = A_inv.matVecProduct(rhs);
-
-//	double f1 = coefficients(0)*populationMinimum * populationMinimum + coefficients(1) * populationMinimum + coefficients(2);
-//	double f2 = coefficients(0)*populationMaximum * populationMaximum + coefficients(1) * populationMaximum + coefficients(2);
-//	double f3 = 2*coefficients(0)*populationMaximum + coefficients(1);
-//
-//	std::cout<<"f1 = " << f1 << "\n";
-//	std::cout<<"f2 = " << f2 << "\n";
-//	std::cout<<"f3 = " << f3 << "\n";
-
-	return coefficients;
-}
-
-
-
 void EAPopulation::updateReproductionProbabilities(void){
 
 	double sumFitness = 0.0;
-- 
2.43.0


From d02864a693a59201dcba3f6eaaf4863c3bc4a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 17/70] fix: EA individuals get unique ids

---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp |  1 +
 src/InternalOptimizers/ea_optimizer.cpp         | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..32a4774 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -39,6 +39,7 @@ private:
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
+	unsigned int lastGivenId = 0;
 
 
 	unsigned int numberOfNewIndividualsInAGeneration = 0;
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..dae79c6 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -105,8 +105,8 @@ EAIndividual  EAOptimizer::generateRandomIndividual(void){
 
 	//	output.printMessage("x", randomGenes);
 	newIndividual.initializeGenes(randomGenes);
-	unsigned int id = ++totalNumberOfGeneratedIndividuals;
-	newIndividual.setId(id);
+	++totalNumberOfGeneratedIndividuals;
+	newIndividual.setId(++lastGivenId);
 
 
 	callObjectiveFunction(newIndividual);
@@ -292,7 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
+	child.setId(++lastGivenId);
 	++totalNumberOfGeneratedIndividuals;
 	return child;
 
@@ -550,6 +550,11 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		/* individuals generated later must not get an id that is already used */
+		for (unsigned int i = 0; i < population.getSize(); ++i) {
+			unsigned int id = population.getIdOftheIndividual(i);
+			if (id > lastGivenId) lastGivenId = id;
+		}
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
-- 
2.43.0


From b052452f93dc38f3ac8a64cc51a9687188b82a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 18/70] fix: EA population files keep all significant digits

---
 src/InternalOptimizers/ea_population.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 0dd722e..9984ca2 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -227,7 +227,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 	// Write each individual's data to the file
 	for (const auto& individual : population) {
 		outFile << individual.getId() << ",";
-		outFile << std::setprecision(9) << std::scientific << individual.getObjectiveFunctionValue() << ",";
+		outFile << std::setprecision(16) << std::scientific << individual.getObjectiveFunctionValue() << ",";
 		outFile << individual.getFitnessValue() << ",";
 		outFile << individual.getReproductionProbability() << ",";
 		outFile << individual.getDeathProbability();
-- 
2.43.0


From 235ba2701b9818d4557dc447d71203d42965e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 19/70] fix: the best individual of an EA population is never
 selected for removal

---
 src/InternalOptimizers/ea_population.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 9984ca2..5304b99 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -491,7 +491,10 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	for(i=0; i<getSize(); i++) {
 
-		if(fitnessValues(i) > best10PercentThreshold){
+		/* the best individual survives also if others have the same fitness value */
+		bool ifIsTheBest = getSize() > 1 && population[i].getId() == idPopulationMinimum;
+
+		if(ifIsTheBest || fitnessValues(i) > best10PercentThreshold){
 			oneOverFitness(i) = 0.0;
 		}
 		else{
-- 
2.43.0


From eeb12ed50ccbafa3f5fbbcf5e47b86c0ede14b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 20/70] fix: vec::appendToCSV starts a new row in files without
 a trailing newline

---
 src/LinearAlgebra/vector.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 60319dd..82f0188 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -650,6 +650,7 @@ vec vec::unitVector(NormType type) const {
 void vec::appendToCSV(const std::string& filename, int precision) const {
     // Check if the CSV file exists and has the expected number of columns
     std::ifstream inFile(filename);
+    bool ifLastLineIsComplete = true;
     if (inFile.is_open()) {
         std::string line;
         if (std::getline(inFile, line)) {
@@ -666,6 +667,11 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
             if (columnCount != size) {
                 throw std::runtime_error("Size of vector does not match the number of columns in the CSV file.");
             }
+
+            // The last line of the file may not end with a newline
+            inFile.clear();
+            inFile.seekg(-1, std::ios::end);
+            ifLastLineIsComplete = (inFile.get() == '\n');
         }
         inFile.close();
     }
@@ -679,6 +685,10 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     // Set precision for floating-point output
     outFile << std::fixed << std::setprecision(precision);
 
+    if (!ifLastLineIsComplete) {
+        outFile << "\n";
+    }
+
     // Append vector data as a new row
     for (unsigned int i = 0; i < size; ++i) {
         outFile << data[i];
-- 
2.43.0


From b0fbcfb643766daef3d9a1aff6a687c69e20c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 21/70] fix: samples outside the box are infeasible in
 unconstrained problems, too

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..b51ba4f 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1065,7 +1065,8 @@ void Optimizer::setOptimizationHistoryDataFeasibilityValues(mat &historyData) co
 	}
 	else{
 		for (unsigned int i = 0; i < N; ++i) {
-			historyData(i, nCols - 1) = 1.0;
+			vec dv = historyData.getRow(i).head(dimension);
+			historyData(i, nCols - 1) = checkIfBoxConstraintsAreSatisfied(dv) ? 1.0 : 0.0;
 		}
 	}
 
-- 
2.43.0


From 23c2fd42363539346c2c244ab1d2a8dadff8345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 22/70] fix: Kriging training keeps the hyper-parameters if
 none with a valid likelihood is found

---
 src/SurrogateModels/kriging_training.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 35ea4d6..c08f6c7 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -742,7 +742,8 @@ void KrigingModel::train() {
 
 		unsigned int numberOfIterationsPerThread = numberOfTrainingIterations / numberOfThreads;
 		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
-		vec bestSolution;
+		/* stays as it is, if no better hyper-parameters are found (e.g. for constant data) */
+		vec bestSolution = correlationFunction.getHyperParameters();
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
 #pragma omp parallel for
-- 
2.43.0


From f8b8ae057a9ddf1086638b5318622c4dfa6bb82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 23/70] fix: the last value of a discrete parameter is not lost
 through round-off

---
 src/Optimizers/optimization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index b51ba4f..1a37f8a 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1347,11 +1347,13 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	// The tolerance keeps the last value if (ub-lb)/dx is slightly smaller than an integer due to round-off
+	const double tolerance = 1e-9;
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + tolerance) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From bfcf88ca0b18b0f0a615fbf5fc09cff0fb7796b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 24/70] fix: the probability of improvement uses the estimate
 of the current design

---
 src/ObjectiveFunctions/objective_function.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..1244719 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -504,12 +504,13 @@ void ObjectiveFunction::calculateProbabilityOfImprovement(DesignForBayesianOptim
 	double	sigma = sqrt(ssqr)	;
 	designCalculated.sigma = sigma;
 
+	/* the probability is calculated using the estimate stored in the design */
+	designCalculated.objectiveFunctionValue = ftilde;
+
 	double PI = designCalculated.calculateProbalityThatTheEstimateIsLessThanAValue(sampleMinimum);
 
 	designCalculated.valueAcquisitionFunction = PI;
 
-	designCalculated.objectiveFunctionValue = ftilde;
-
 }
 
 void ObjectiveFunction::calculateSurrogateEstimate(DesignForBayesianOptimization &designCalculated) const{
-- 
2.43.0


From d749f30e6e4bb9d699dab4473d1782959cf6f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 25/70] fix: expected improvement is accurate and not negative
 far below the estimate

---
 src/ObjectiveFunctions/objective_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 1244719..24e0499 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -1013,7 +1013,8 @@ double ObjectiveFunction::cdf(double x0, double mu, double sigma) const
 {
 
 	double inp = (x0 - mu) / (sigma * SQRT2);
-	double result = 0.5 * (1.0 + erf(inp));
+	/* erfc has no cancellation in the lower tail (a negative expected improvement) */
+	double result = 0.5 * erfc(-inp);
 	return result;
 }
 
-- 
2.43.0


From d8c1952a77692d0ed1b3a7cbd3ce70ff8186d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 26/70] fix: an exact constraint value on its threshold is not
 feasible in the acquisition function

---
 src/Optimizers/optimization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 1a37f8a..621009f 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1419,6 +1419,10 @@ double Optimizer::normalCdf(double value, double mu, double sigma) const {
 }
 
 double Optimizer::calculateProbabilityLessThanAValue(double value, double mu, double sigma) const {
+	// Without uncertainty, a value exactly on the threshold is not less than it
+	if (sigma >= 0.0 && sigma < 1e-12) {
+		return (mu < value) ? 1.0 : 0.0;
+	}
 	// Probability that a normal variable is less than a certain value
 	return normalCdf(value, mu, sigma);
 }
-- 
2.43.0


From efdb71c81dc5292dbeac5897016603856f7c73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 27/70] fix: the probability of improvement is defined without
 model uncertainty

---
 src/Design/design_bo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Design/design_bo.cpp b/src/Design/design_bo.cpp
index cfbb080..f8743c6 100644
--- a/src/Design/design_bo.cpp
+++ b/src/Design/design_bo.cpp
@@ -181,6 +181,9 @@ double  DesignForBayesianOptimization::pdf(double x, double m, double s)
 double  DesignForBayesianOptimization::cdf(double x0, double mu, double s)
 {
 
+	/* no uncertainty: (x0-mu)/s would be 0/0 for x0 = mu */
+	if(s == 0.0) return (x0 > mu) ? 1.0 : 0.0;
+
 	double inp = (x0 - mu) / (s * SQRT2);
 	double result = 0.5 * (1.0 + erf(inp));
 	return result;
-- 
2.43.0


From 6d2f4dc1de318f83a947f5e766a63bb5c9fc30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 28/70] fix: the gradient of the acquisition function does not
 change the design's values

---
 src/Optimizers/optimization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 621009f..c5598b7 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -802,6 +802,9 @@ vec Optimizer::calculateGradientOfAcquisitionFunction(DesignForBayesianOptimizat
 
 	vec gradient(dimension);
 
+	// The finite differences must not change the values stored in the current design
+	const DesignForBayesianOptimization designSave = currentDesign;
+
 	for (unsigned int i = 0; i < dimension; i++) {
 
 		double dvSave = currentDesign.dv(i);
@@ -826,6 +829,8 @@ vec Optimizer::calculateGradientOfAcquisitionFunction(DesignForBayesianOptimizat
 		currentDesign.dv(i) = dvSave;
 	}
 
+	currentDesign = designSave;
+
 	return gradient;
 }
 
-- 
2.43.0


From 6f11f14e5b65ae48e0a998bba268fb84efd3379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 29/70] fix: parallel search of the acquisition function keeps
 the best design of all threads

---
 src/Optimizers/optimization.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index c5598b7..7fae31b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -693,7 +693,11 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 #pragma omp critical
 #endif
 				{
-					designWithMaxAcqusition = designToBeTried;
+					/* another thread may have found a better design in the meantime */
+					if (designToBeTried.valueAcquisitionFunction
+							> designWithMaxAcqusition.valueAcquisitionFunction) {
+						designWithMaxAcqusition = designToBeTried;
+					}
 				}
 #if 0
 				printf("A design with a better EI value has been found (second loop) \n");
@@ -733,7 +737,11 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 #pragma omp critical
 #endif
 			{
-				designWithMaxAcqusition = designToBeTried;
+				/* another thread may have found a better design in the meantime */
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
+					designWithMaxAcqusition = designToBeTried;
+				}
 			}
 		}
 	}
-- 
2.43.0


From 82aac8472529a79e41bb7070f797a6d0e0702c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 30/70] fix: no comparison of floating point values with == in
 the improvement probability

---
 src/Design/design_bo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design_bo.cpp b/src/Design/design_bo.cpp
index f8743c6..416d867 100644
--- a/src/Design/design_bo.cpp
+++ b/src/Design/design_bo.cpp
@@ -182,7 +182,7 @@ double  DesignForBayesianOptimization::cdf(double x0, double mu, double s)
 {
 
 	/* no uncertainty: (x0-mu)/s would be 0/0 for x0 = mu */
-	if(s == 0.0) return (x0 > mu) ? 1.0 : 0.0;
+	if(!(s > 0.0)) return (x0 > mu) ? 1.0 : 0.0;
 
 	double inp = (x0 - mu) / (s * SQRT2);
 	double result = 0.5 * (1.0 + erf(inp));
-- 
2.43.0


From 1b87bfd7e68cd01b911cf5cf83cc012620e59e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 31/70] fix: the API accepts box constraints before functions
 and more than once

---
 src/API/cppAPI.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..84e8519 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -88,8 +88,12 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 		throw std::invalid_argument("Problem dimension is not specified");
 	}
 
+	lowerBounds.clear();
+	upperBounds.clear();
+	areBoxConstraintsSpecified = false;
+
 	for(unsigned int i=0;i<dimension; i++){
-		if(lb[i] >= ub[i]){
+		if(!(lb[i] < ub[i])){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
@@ -98,11 +102,6 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 		upperBounds.push_back(ub[i]);
 	}
 
-	Bounds boxConstraints;
-	boxConstraints.setDimension(dimension);
-	boxConstraints.setBounds(lowerBounds,upperBounds);
-
-	optimizer.setBoxConstraints(boxConstraints);
 	areBoxConstraintsSpecified = true;
 
 
@@ -405,6 +404,12 @@ void RobustDesignOptimizer::run(void){
 		throw std::invalid_argument("Cannot change to current working directory");
 	}
 
+	/* the bounds are passed on after all functions have been added */
+	Bounds boxConstraints;
+	boxConstraints.setDimension(dimension);
+	boxConstraints.setBounds(lowerBounds,upperBounds);
+	optimizer.setBoxConstraints(boxConstraints);
+
 	if(startWithDoE){
 
 		if(numberOfSamplesForDoE == 0){
-- 
2.43.0


From 8ede7be1f40bc244c98916b4dca6ee1aa8ad4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 32/70] fix: the API requires the dimension before functions
 are set

---
 src/API/cppAPI.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 84e8519..701cd4f 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -124,6 +124,10 @@ void RobustDesignOptimizer::setDimension(unsigned int dim){
 
 void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function, std::string functionName, std::string filename){
 
+	if(dimension == 0){
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 	if(filename.empty()){
 
 		throw std::invalid_argument("Empty file name for the training data");
@@ -197,6 +201,10 @@ ParsedConstraintExpression parseExpression(const std::string& input) {
 
 
 void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::string expression, std::string filename) {
+	if(dimension == 0){
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 	// Check for a valid filename
 	if (filename.empty()) {
 		throw std::invalid_argument("Empty file name for the training data.");
-- 
2.43.0


From fb0387ba068e87353af0b1830dd42b2920d9d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:09 +0000
Subject: [PATCH 33/70] fix: the API uses the given name of the training data
 file

---
 src/API/INCLUDE/rodeo.h |  1 +
 src/API/cppAPI.cpp      | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index a323abc..ada93b7 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -20,6 +20,7 @@ class RobustDesignOptimizer{
 
 private:
 	Optimizer optimizer;
+	ObjectiveFunction objectiveFunction;
 	unsigned int dimension = 0;
 	unsigned int numberOfFunctionEvaluations = 0;
 	bool startWithDoE = false;
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 701cd4f..9ed927a 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -112,7 +112,11 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
+
+	if(isObjectiveFunctionSpecified){
+		objectiveFunction.setFileNameTrainingData(filename);
+	}
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
@@ -157,7 +161,7 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 	objectiveFunctionToAdd.setParametersByDefinition(objectiveFunctionDefinition);
 
-	optimizer.addObjectFunction(objectiveFunctionToAdd);
+	objectiveFunction = objectiveFunctionToAdd;
 
 	isObjectiveFunctionSpecified = true;
 
@@ -412,6 +416,8 @@ void RobustDesignOptimizer::run(void){
 		throw std::invalid_argument("Cannot change to current working directory");
 	}
 
+	optimizer.addObjectFunction(objectiveFunction);
+
 	/* the bounds are passed on after all functions have been added */
 	Bounds boxConstraints;
 	boxConstraints.setDimension(dimension);
-- 
2.43.0


From 392f7530c0463eed5ed5574ae1bac9e8da9654a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 34/70] fix: constraint expressions with text after the number
 are rejected

---
 src/API/cppAPI.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 9ed927a..069f104 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -200,6 +200,11 @@ ParsedConstraintExpression parseExpression(const std::string& input) {
 		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
 	}
 
+	// Nothing may follow the number
+	if (stream.peek() != std::istringstream::traits_type::eof()) {
+		throw std::invalid_argument("Unexpected text after the number in expression: '" + input + "'");
+	}
+
 	return result;
 }
 
-- 
2.43.0


From d4a9a117bbd13346523b4bf8cedb3cb9c3b2cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 35/70] fix: DoE samples are stored with twelve decimals

---
 src/API/cppAPI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 069f104..46bd7b3 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -326,7 +326,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -382,7 +382,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, 12);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
-- 
2.43.0


From 057a8cc76f7ae270a831b08c1fce1406f9e946cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:45 +0000
Subject: [PATCH 36/70] fix: trim removes trailing white space also after
 leading white space

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 46bd7b3..e979d8f 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -171,7 +171,7 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 std::string trim(const std::string& str) {
 	size_t start = str.find_first_not_of(" \t\n\r");
 	size_t end = str.find_last_not_of(" \t\n\r");
-	return (start == std::string::npos || end == std::string::npos) ? "" : str.substr(start, end + 1);
+	return (start == std::string::npos || end == std::string::npos) ? "" : str.substr(start, end - start + 1);
 }
 
 ParsedConstraintExpression parseExpression(const std::string& input) {
-- 
2.43.0


From a697d9f4a57cd3aace66f11c8192d743da802c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 37/70] fix: constraint definitions accept exactly one
 operator, a name and a number

---
 .../constraint_functions.cpp                  | 39 ++++++++-----------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/ObjectiveFunctions/constraint_functions.cpp b/src/ObjectiveFunctions/constraint_functions.cpp
index 52deb44..c677374 100644
--- a/src/ObjectiveFunctions/constraint_functions.cpp
+++ b/src/ObjectiveFunctions/constraint_functions.cpp
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <string>
+#include <sstream>
 #include <stdlib.h>
 #include <iostream>
 #include <unistd.h>
@@ -30,40 +31,32 @@ void ConstraintDefinition::setDefinition(const std::string& definition) {
         throw std::invalid_argument("Constraint definition is empty.");
     }
 
-    // Find the positions of '>' or '<' in the definition string
-    size_t found = definition.find(">");
-    size_t found2 = definition.find("<");
-    size_t place;
-    std::string nameBuf, typeBuf, valueBuf;
-
-    // Determine the inequality operator and position
-    if (found != std::string::npos) {
-        place = found;
-    } else if (found2 != std::string::npos) {
-        place = found2;
-    } else {
-        throw std::invalid_argument("Invalid constraint definition format. Must contain '>' or '<'.");
+    // Find the position of the inequality operator, there must be exactly one
+    size_t place = definition.find_first_of("<>");
+    if (place == std::string::npos || definition.find_first_of("<>", place + 1) != std::string::npos) {
+        throw std::invalid_argument("Invalid constraint definition format. Must contain '>' or '<' once.");
     }
 
     // Extract the name, inequality type, and value from the definition string
-    nameBuf.assign(definition, 0, place);
-    nameBuf = removeSpacesFromString(nameBuf); // Remove spaces from the name
+    std::string nameBuf = removeSpacesFromString(definition.substr(0, place));
+    std::string typeBuf = definition.substr(place, 1); // The inequality symbol (either '>' or '<')
 
-    typeBuf.assign(definition, place, 1); // The inequality symbol (either '>' or '<')
-
-    valueBuf.assign(definition, place + 1, definition.length() - nameBuf.length() - typeBuf.length());
-    valueBuf = removeSpacesFromString(valueBuf); // Remove spaces from the value
+    if (nameBuf.empty()) {
+        throw std::invalid_argument("Constraint definition has no name.");
+    }
 
-    // Check if valueBuf can be converted to a valid double
-    try {
-        value = std::stod(valueBuf);
-    } catch (const std::invalid_argument& e) {
+    // The rest must be a single number
+    std::istringstream valueStream(definition.substr(place + 1));
+    double valueBuf = 0.0;
+    std::string rest;
+    if (!(valueStream >> valueBuf) || (valueStream >> rest)) {
         throw std::invalid_argument("Invalid numerical value in constraint definition.");
     }
 
     // Set class members
     constraintName = nameBuf;
     inequalityType = typeBuf;
+    value = valueBuf;
 }
 
 
-- 
2.43.0


From cdc2daeb81285d20a4ac4b4f3c6af134d2c58466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 38/70] fix: the configured name of the study is used

---
 src/Driver/driver_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..981b3d6 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -615,9 +615,9 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
 	if (name.empty()) {
-		optimizationStudy.setName(name);
-	} else {
 		optimizationStudy.setName("OptimizationStudy");
+	} else {
+		optimizationStudy.setName(name);
 	}
 }
 
-- 
2.43.0


From 39c1e7bd08a0171b5b749b3a0fd48925c43354ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 39/70] fix: constraints use their own number of training
 iterations

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 981b3d6..84f7ca7 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,7 +318,7 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
 
-- 
2.43.0


From f2f71d18993288e708a03c7cf73cc6935d97a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 40/70] fix: constraint type TT is unknown

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 84f7ca7..63db874 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -270,7 +270,7 @@ void Driver::setConstraintType(ConstraintDefinition &constraintDefinition) {
 	if (isEqual(constraint_type, "lt") || isEqual(constraint_type, "LT")) {
 		constraintDefinition.inequalityType = "<";
 	} else if (isEqual(constraint_type, "gt")
-			|| isEqual(constraint_type, "TT")) {
+			|| isEqual(constraint_type, "GT")) {
 		constraintDefinition.inequalityType = ">";
 	} else {
 
-- 
2.43.0


From aabe156d523174030ec4c649ddb251ebd73670c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 41/70] fix: numbers in the configuration file must be numbers
 as a whole

---
 src/Driver/INCLUDE/xml_functions.hpp |  3 ++
 src/Driver/driver_xml.cpp            | 14 +-------
 src/Driver/xml_functions.cpp         | 50 ++++++++++++----------------
 3 files changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/Driver/INCLUDE/xml_functions.hpp b/src/Driver/INCLUDE/xml_functions.hpp
index 2570277..a5a5deb 100644
--- a/src/Driver/INCLUDE/xml_functions.hpp
+++ b/src/Driver/INCLUDE/xml_functions.hpp
@@ -21,6 +21,9 @@ template <typename T>
 void writeXmlElementVector(std::ofstream& file, const std::string& elementName, const T& value);
 
 
+double convertToDouble(const std::string& valueString);
+int convertToInteger(const std::string& valueString);
+
 double getDoubleValueFromXML(const std::string& xmlString, const std::string& keyword);
 int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyword);
 string getStringValueFromXML(const std::string& xmlString, const std::string& keyword);
diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 63db874..1e54277 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -290,19 +290,7 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 		throw std::invalid_argument(
 				"Constraint value is undefined. Check configuration file");
 	}
-	double value = 0.0;
-	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
-
-	} catch (const std::invalid_argument& e) {
-		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
-
-	} catch (const std::out_of_range& e) {
-		throw std::out_of_range("Out of range. Unable to convert string to double. Check configuration file");
-
-	}
-
-	constraintDefinition.value = value;
+	constraintDefinition.value = convertToDouble(constraint_value);
 
 }
 
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..68524e1 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -106,6 +106,26 @@ template void writeXmlElement(std::ofstream& file, const std::string& elementNam
 template void writeXmlElement(std::ofstream& file, const std::string& elementName, const string& value);
 
 
+/* the text must be one number, leading and trailing white space is allowed */
+template <typename T>
+static T convertToNumber(const std::string& valueString, const char* errorMessage) {
+	std::istringstream stream(valueString);
+	T value;
+	std::string rest;
+	if (!(stream >> value) || (stream >> rest)) {
+		throw std::invalid_argument(errorMessage);
+	}
+	return value;
+}
+
+double convertToDouble(const std::string& valueString) {
+	return convertToNumber<double>(valueString, "Conversion to double has failed.");
+}
+
+int convertToInteger(const std::string& valueString) {
+	return convertToNumber<int>(valueString, "Conversion to integer has failed.");
+}
+
 double getDoubleValueFromXML(const std::string& xmlString, const std::string& keyword) {
 	// Find keyword position
 	size_t keywordStart = xmlString.find("<" + keyword + ">");
@@ -128,20 +148,7 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	// Extract substring containing value
 	std::string valueString = xmlString.substr(keywordStart + keyword.length() + 2, keywordEnd - keywordStart - keyword.length() - 2);
 
-	valueString = removeSpacesFromString(valueString);
-
-	double value;
-	try
-	{
-		value = std::stod(valueString);
-	}
-	catch (...)
-	{
-		throw std::invalid_argument("Conversion to double has failed.");
-	}
-
-
-	return value;
+	return convertToDouble(valueString);
 }
 
 
@@ -205,20 +212,7 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 	std::string valueString = xmlString.substr(keywordStart + keyword.length() + 2, keywordEnd - keywordStart - keyword.length() - 2);
 
 
-
-	int value;
-
-
-	try
-	{
-		value = std::stoi(valueString);
-	}
-	catch (...)
-	{
-		throw std::invalid_argument("Conversion to integer has failed.");
-	}
-
-	return value;
+	return convertToInteger(valueString);
 }
 
 
-- 
2.43.0


From 4b1cfc0440a8cbc0a9a57560f9a3948e6e5348bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 42/70] fix: parameters without bounds are rejected

---
 src/Driver/driver_xml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 1e54277..9f1b459 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -494,6 +494,14 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		// The bounds must be given, there are no default values
+		for (const std::string key : {"lower_bound", "upper_bound"}) {
+			if (getStringValueFromXML(param, key).empty()) {
+				DriverLogger::getInstance().log(ERROR, "Missing '" + key + "' for parameter: " + name);
+				throw std::runtime_error("Driver::readOptimizationParameters: missing '" + key + "' for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
-- 
2.43.0


From 7931c4cd0c94fc9f701708d25d49efb31a645ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 43/70] fix: discrete parameters without increment are rejected

---
 src/Driver/driver_xml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 9f1b459..54d8e97 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -511,18 +511,18 @@ void Driver::readOptimizationParameters() {
 			throw std::runtime_error("Driver::readOptimizationParameters: 'lower_bound' > 'upper_bound' for parameter: " + name);
 		}
 
-		double inc = getDoubleValueFromXML(param, "increment");
+		double inc = 0.0;
 
 		// Special handling for discrete and int types
 		if (type == "discrete" || type == "int") {
+			if (!getStringValueFromXML(param, "increment").empty()) {
+				inc = getDoubleValueFromXML(param, "increment");
+			}
 			// Ensure the increment is defined, greater than 0, and less than or equal to ub - lb
 			if (inc <= 0 || inc > (ub - lb)) {
 				DriverLogger::getInstance().log(ERROR, "Invalid increment for 'discrete' or 'int' parameter '" + name + "': increment must be > 0 and <= (upper_bound - lower_bound).");
 				throw std::runtime_error("Driver::readOptimizationParameters: Invalid increment for 'discrete' or 'int' parameter: " + name);
 			}
-		} else {
-			// For continuous and real types, increment is zero
-			inc = 0.0;
 		}
 
 		// Create and store the parameter
-- 
2.43.0


From 7026f0a17f76433caeba45a793fff024aebd9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 44/70] fix: a block without end tag in the configuration file
 is an error

---
 src/Driver/string_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index 25e8b2d..9e62ebb 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -135,7 +135,7 @@ std::vector<std::string> extractContents(const std::string& input, const std::st
             // Search for the next occurrence of startTag
             startPos = input.find(startTag, endPos + endTag.length());
         } else {
-            break; // No matching endTag found, exit loop
+            throw std::runtime_error("End tag not found for the key: " + key);
         }
     }
 
-- 
2.43.0


From 8c39eda208db0d1740549652d1e4da4229614529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 45/70] fix: constraint functions are found independently of
 line breaks

---
 src/Driver/driver_xml.cpp | 37 ++++---------------------------------
 1 file changed, 4 insertions(+), 33 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 54d8e97..64268d8 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1033,44 +1033,15 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
-
-	// Check if the file was opened successfully
 	if (!file.is_open()) {
-		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
-
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
-
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
-
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
-	}
+	std::stringstream buffer;
+	buffer << file.rdbuf();
 
-	file.close();  // Close the file when done
-	return constraintFunctions;
+	return extractContents(buffer.str(), "constraint_function");
 }
 
 void Driver::runOptimization(void) {
-- 
2.43.0


From 3b045740cb9591d759a3021a0fafcb9714dc3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 46/70] fix: negative numbers of threads and iterations are
 rejected

---
 src/Driver/driver_xml.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 64268d8..4411bb9 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -213,6 +213,9 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 			keywordsObjectiveFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument("number of training iterations must be a positive integer. Check configuration file");
+		}
 
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
@@ -309,6 +312,9 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument("number of training iterations must be a positive integer. Check configuration file");
+		}
 
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
@@ -591,6 +597,9 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+		if (maxiter <= 0) {
+			throw std::invalid_argument("max number of inner iterations must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -602,6 +611,9 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 	int N = getConfigKeyValueInt(keywordsGeneral, "number_of_threads");
 
 	if(N != -10000000){
+		if (N <= 0) {
+			throw std::invalid_argument("number of threads must be a positive integer. Check configuration file");
+		}
 
 		optimizationStudy.setNumberOfThreads(N);
 	}
-- 
2.43.0


From f95264d5b70f1dbeb99ad029d6b9c1a52b934cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 47/70] fix: design parameters are passed to external programs
 with full precision

---
 src/ObjectiveFunctions/objective_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 24e0499..aff4682 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -35,6 +35,7 @@
 #include <iostream>
 #include <unistd.h>
 #include <cassert>
+#include <limits>
 #include <algorithm>  // Include this for std::find
 #include <stdexcept>  // For std::invalid_argument
 #include <vector>
@@ -703,9 +704,10 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	std::ofstream outputFileStream(definition.designVectorFilename);
 
 	if (!outputFileStream.is_open()) {
-		abort();
+		throw std::runtime_error("There was a problem opening the design vector file: " + definition.designVectorFilename);
 	}
 
+	outputFileStream.precision(std::numeric_limits<double>::max_digits10);
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
-- 
2.43.0


From 63d1c0fe1b52cc459656704b18fa7c9c4ca4816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 48/70] fix: outputs of earlier evaluations are removed before
 an external program is run

---
 src/ObjectiveFunctions/objective_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index aff4682..a28976a 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -835,6 +835,10 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 
 	if (!runCommand.empty()) {
 		try {
+			// An output file of an earlier evaluation must not be taken for a result
+			if (!definition.outputFilename.empty()) {
+				std::remove(definition.outputFilename.c_str());
+			}
 			// Execute the command and wait for completion
 			child c(runCommand);
 			c.wait(); // Wait for the process to finish
-- 
2.43.0


From adbb2ecc280db3ec90fbc11f322cf27227e2682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 49/70] fix: an increment equal to the parameter range is
 accepted in spite of round-off

---
 src/Driver/driver_xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 4411bb9..ccb96e0 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -525,7 +525,8 @@ void Driver::readOptimizationParameters() {
 				inc = getDoubleValueFromXML(param, "increment");
 			}
 			// Ensure the increment is defined, greater than 0, and less than or equal to ub - lb
-			if (inc <= 0 || inc > (ub - lb)) {
+			// (up to round-off in ub - lb)
+			if (inc <= 0 || inc > (ub - lb) + 1e-9 * inc) {
 				DriverLogger::getInstance().log(ERROR, "Invalid increment for 'discrete' or 'int' parameter '" + name + "': increment must be > 0 and <= (upper_bound - lower_bound).");
 				throw std::runtime_error("Driver::readOptimizationParameters: Invalid increment for 'discrete' or 'int' parameter: " + name);
 			}
-- 
2.43.0


From 91b6991d21ab2f92ee75c1ae37d37270662425aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 50/70] fix: discrete parameters need a valid index and a
 positive increment

---
 src/Optimizers/optimization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 7fae31b..e96eb08 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -73,7 +73,12 @@ void Optimizer::initializeOptimizerSettings(void) {
 
 void Optimizer::setParameterToDiscrete(unsigned int index, double increment){
 
-	assert(index <dimension);
+	if (index >= dimension) {
+		throw std::invalid_argument("Index of the discrete parameter is out of range.");
+	}
+	if (!(increment > 0.0)) {
+		throw std::invalid_argument("Increment of a discrete parameter must be positive.");
+	}
 	incrementsForDiscreteVariables.push_back(increment);
 	indicesForDiscreteVariables.push_back(index);
 	numberOfDiscreteVariables++;
-- 
2.43.0


From bac5754840afdadf596baca33ddffedc68415bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 51/70] fix: an empty start tag at the end of a section is
 still ignored

---
 src/Driver/string_functions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index 9e62ebb..52409b8 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -135,6 +135,10 @@ std::vector<std::string> extractContents(const std::string& input, const std::st
             // Search for the next occurrence of startTag
             startPos = input.find(startTag, endPos + endTag.length());
         } else {
+            // A start tag without any content at the end of the input is ignored
+            if (input.find_first_not_of(" \t\r\n", startPos + startTag.length()) == std::string::npos) {
+                break;
+            }
             throw std::runtime_error("End tag not found for the key: " + key);
         }
     }
-- 
2.43.0


From 4ab56fe705a59ca222d7692049ec9e68032298db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 52/70] fix: surrogate models that are not available are
 rejected

---
 src/ObjectiveFunctions/objective_function.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index a28976a..a8a036f 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -248,6 +248,13 @@ void ObjectiveFunction::bindSurrogateModel(void){
 		throw std::runtime_error("Cannot bind with a surrogate model without proper objective function definition.");
 	}
 
+	if (definition.ifMultiLevel) {
+		throw std::invalid_argument("Multi-fidelity surrogate models are not available.");
+	}
+	if (definition.modelHiFi != ORDINARY_KRIGING && definition.modelHiFi != UNIVERSAL_KRIGING) {
+		throw std::invalid_argument("The type of the surrogate model is not available.");
+	}
+
 	bindSurrogateModelSingleFidelity();
 
 	ifSurrogateModelIsDefined = true;
-- 
2.43.0


From 589c1befcfa700ae2b0d1af04835a2d008af4ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 53/70] fix: report a failed write of a CSV file

---
 src/LinearAlgebra/matrix.cpp | 4 ++++
 src/LinearAlgebra/vector.cpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index e297b04..8c65a87 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -987,6 +987,10 @@ void mat::saveAsCSV(const std::string& filename, int precision, const std::vecto
 	}
 
 	outFile.close();
+
+	if (outFile.fail()) {
+		throw std::runtime_error("Failed to write to file: " + filename);
+	}
 }
 
 
diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 82f0188..13dcee5 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -698,6 +698,10 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     }
     outFile << "\n";
     outFile.close();
+
+    if (outFile.fail()) {
+        throw std::runtime_error("Failed to write to file: " + filename);
+    }
 }
 
 
@@ -717,6 +721,10 @@ void vec::saveToCSV(const std::string& filename) const {
 		}
 	}
 	outFile.close();
+
+	if (outFile.fail()) {
+		throw std::runtime_error("Failed to write to file: " + filename);
+	}
 }
 
 void vec::readFromCSV(const std::string& filename) {
-- 
2.43.0


From eb25a6fa86b0b520826a4b0ae79496100b000fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 54/70] fix: do not run an external program with an incomplete
 design vector file

---
 src/ObjectiveFunctions/objective_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index a8a036f..b4dd895 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -731,6 +731,10 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	}
 	outputFileStream.close();
 
+	if (outputFileStream.fail()) {
+		throw std::runtime_error("There was a problem writing the design vector file: " + definition.designVectorFilename);
+	}
+
 }
 
 void ObjectiveFunction::evaluateDesign(Design &d) {
-- 
2.43.0


From 19b55f05074173d9bdb245f2b60b1963dfbc62ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 55/70] fix: report a failed write of the global optimal design

---
 src/Optimizers/globalOptimalDesign.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimizers/globalOptimalDesign.cpp b/src/Optimizers/globalOptimalDesign.cpp
index fc12c47..54ff8ce 100644
--- a/src/Optimizers/globalOptimalDesign.cpp
+++ b/src/Optimizers/globalOptimalDesign.cpp
@@ -176,6 +176,10 @@ void GlobalOptimalDesign::saveToXMLFile(void) const {
     std::string text = generateXmlString();
     file << text;
     file.close();
+
+    if (file.fail()) {
+        throw std::runtime_error("Failed to write the file: " + xmlFileName);
+    }
 }
 
 
-- 
2.43.0


From 4071c86f809cd8266cf2bc050d77244e45eb087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 56/70] fix: report an evaluated sample that cannot be stored

---
 src/SurrogateModels/kriging_training.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index c08f6c7..93df59d 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -427,11 +427,12 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 	int rowIndex = rawData.findRowIndex(newsample, 1e-4);
 
 	if (rowIndex == -1) {
+		newsample.appendToCSV(filenameDataInput,12);  // Append new sample to the CSV file (a sample must not be lost)
+
 		try {
-			newsample.appendToCSV(filenameDataInput,12);  // Append new sample to the CSV file
 			updateModelWithNewData();  // Update the model with the new data
 		} catch (const std::exception& e) {
-			// Log the error if writing to CSV or updating the model fails
+			// Log the error if updating the model fails
 			ModelLogger::getInstance().log(ERROR, std::string("Failed to add new sample: ") + e.what());
 		}
 	} else {
-- 
2.43.0


From c3bc89396a999509ed8ae614d8be7a7117b63667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 57/70] fix: train the surrogate models in every iteration if
 requested

---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 src/Optimizers/optimization_setter_getters.cpp   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..d4bc63f 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -15,7 +15,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		printIterationNumber();
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber - 1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 		}
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..ec6a95a 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -109,6 +109,9 @@ void Optimizer::setDimension(unsigned int dim){
 
 
 void Optimizer::setHowOftenTrainModels(unsigned int value){
+	if(value == 0){
+		throw std::invalid_argument("The number of iterations between two model trainings must be greater than zero.");
+	}
 	howOftenTrainModels = value;
 }
 
-- 
2.43.0


From a08905ff06dbb01bc7845ff2bb1adf606ea468f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 58/70] fix: stop if the surrogate model of a constraint cannot
 be trained

---
 src/Optimizers/optimization_constraint_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index f6c776c..3750293 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -144,7 +144,8 @@ void Optimizer::trainSurrogatesForConstraints() {
             constraint.trainSurrogate();
             printInfoToLog("Training for constraint #" + std::to_string(index) + " completed successfully.");
         } catch (const std::exception& e) {
-            printInfoToLog("Error training surrogate model for constraint #" + std::to_string(index) + ": " + e.what());
+            printErrorToLog("Error training surrogate model for constraint #" + std::to_string(index) + ": " + e.what());
+            throw;
         }
 
         ++index;
-- 
2.43.0


From df25a3e0e59e8fd2f269b73a397f20383ac776fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 59/70] fix: undefined exploration factor if a run starts with
 a single sample

---
 src/Optimizers/optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e96eb08..527034a 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1280,7 +1280,9 @@ void Optimizer::adjustSigmaFactor(void) {
 	history.calculateCrowdingFactor();
 	double cFactor = history.getCrowdingFactor();
 	//	output.printMessage("cFactor", cFactor);
-	sigmaFactor = sigmaMultiplier*(crowdingCoefficient / cFactor);
+	/* the crowding says nothing, if the run has started with a single design */
+	double crowdingRatio = (crowdingCoefficient > 0.0) ? crowdingCoefficient / cFactor : 1.0;
+	sigmaFactor = sigmaMultiplier*crowdingRatio;
 	//	output.printMessage("sigmaFactor (calculated)", sigmaFactor);
 
 	int randomNumber = getRandomInteger(0,100);
-- 
2.43.0


From b62a58c90fb03b0d2c9e6018138b297530b4533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 60/70] fix: direction of a constraint sample was taken from
 the design ID

---
 src/Design/design.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..7145eb2 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -264,7 +264,7 @@ vec Design::constructSampleConstraintWithTangent(unsigned int constraintID) cons
 	//	copyVectorFirstKElements(sample,designParameters, dimension);
 	sample(dimension) = constraintTrueValues(constraintID);
 	sample(dimension+1) = constraintTangent(constraintID);
-	vec direction = constraintDifferentiationDirectionsMatrix.getRow(ID);
+	vec direction = constraintDifferentiationDirectionsMatrix.getRow(constraintID);
 
 	for(unsigned int i=0; i<dimension; i++){
 		sample(dimension+2+i) = direction(i);
-- 
2.43.0


From 99d1ba2db6bec9c87e12895f6460a82b42701985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 61/70] fix: reject data with derivatives that have a wrong
 number of columns

---
 src/SurrogateModels/surrogate_model_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 7d734ed..e7970b9 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -258,6 +258,11 @@ void SurrogateModelData::assignDimensionFromData(void) {
 		dimensionOfTrainingData = rawDataWork.getNCols() - 1;
 	}
 
+	if ((ifDataHasGradients && rawDataWork.getNCols() != 2*dimensionOfTrainingData + 1)
+			|| (ifDataHasDirectionalDerivatives && rawDataWork.getNCols() != 2*dimensionOfTrainingData + 2)) {
+		throw std::runtime_error("Error: The number of columns of the training data does not match data with derivatives.");
+	}
+
 	// Check if the dimension is already set and if it matches the derived dimension
 	if (dimension > 0 && dimensionOfTrainingData != dimension) {
 		std::cerr << "dimension = " <<dimension<<"\n";
-- 
2.43.0


From c17637094b9c5d4339505bfdff54d690cbc5eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 62/70] fix: reject inverted bounds in all variants of
 GeneralPurposeOptimizer::setBounds

---
 src/InternalOptimizers/general_purpose_optimizer.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/general_purpose_optimizer.cpp b/src/InternalOptimizers/general_purpose_optimizer.cpp
index a9298c2..64ec8ba 100644
--- a/src/InternalOptimizers/general_purpose_optimizer.cpp
+++ b/src/InternalOptimizers/general_purpose_optimizer.cpp
@@ -23,6 +23,10 @@ void GeneralPurposeOptimizer::setBounds(double lb, double ub) {
         throw std::invalid_argument("Dimension must be specified first.");
     }
 
+    if (!(ub > lb)) {
+        throw std::invalid_argument("Lower bound must be smaller than upper bound.");
+    }
+
     lowerBounds.resize(dimension);
     lowerBounds.fill(lb);
 
@@ -39,10 +43,12 @@ void GeneralPurposeOptimizer::setBounds(std::vector<double> lb, std::vector<doub
         throw std::invalid_argument("Lower bound and upper bound vectors must match the dimension size.");
     }
 
-    lowerBounds.fromStdVector(lb);
-    upperBounds.fromStdVector(ub);
+    vec lowerBoundsInput;
+    lowerBoundsInput.fromStdVector(lb);
+    vec upperBoundsInput;
+    upperBoundsInput.fromStdVector(ub);
 
-    ifBoundsAreSet = true;
+    setBounds(lowerBoundsInput, upperBoundsInput);
 }
 
 void GeneralPurposeOptimizer::setBounds(const vec &lb, const vec &ub) {
-- 
2.43.0


From fdd18b5aa688b256c2457461595c24a2962d1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 63/70] fix: identify constraint values by the constraint ID

Constraints that are not added in the order of their IDs were checked
against the value of another constraint, and the names in the header of
the history did not match the columns.
---
 src/Optimizers/optimization.cpp                      | 7 ++++++-
 src/Optimizers/optimization_constraint_functions.cpp | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 527034a..f6c40c0 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1118,8 +1118,13 @@ void Optimizer::initializeOptimizationHistory() {
 
 	// If constrained, add constraint names to the history
 	if (isConstrained()) {
+		// The columns of the history are ordered according to the constraint IDs
+		std::vector<std::string> constraintNames(numberOfConstraints);
 		for (const auto& constraint : constraintFunctions) {
-			history.addConstraintName(constraint.getName());
+			constraintNames.at(constraint.getID()) = constraint.getName();
+		}
+		for (const auto& constraintName : constraintNames) {
+			history.addConstraintName(constraintName);
 		}
 	}
 
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index 3750293..a3bb516 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -72,8 +72,8 @@ bool Optimizer::checkConstraintFeasibility(const vec& constraintValues) const {
         throw std::invalid_argument("Insufficient constraint values for feasibility check.");
     }
 
-    unsigned int i = 0;
     for (const auto& constraintFunction : constraintFunctions) {
+        int i = constraintFunction.getID();
         if (!constraintFunction.checkFeasibility(constraintValues(i))) {
         	printInfoToLog("Constraint " + std::to_string(i) + " is not satisfied");
         	printInfoToLog("Constraint value = ", constraintValues(i));
@@ -85,7 +85,6 @@ bool Optimizer::checkConstraintFeasibility(const vec& constraintValues) const {
         	printInfoToLog("Constraint value = ", constraintValues(i));
 
         }
-        i++;
     }
 
     return true;  // All constraints are feasible
-- 
2.43.0


From 43895f61a9d44f1d70927e8fb5e0e65e0edc2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 64/70] fix: reject constraint IDs that are used twice before
 the optimization starts

---
 src/Optimizers/optimization.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index f6c40c0..3e69081 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -305,6 +305,16 @@ void Optimizer::checkIfSettingsAreOK() const {
 	if (!checkBoxConstraints()) {
 		throw std::runtime_error("Error: Box constraints are not set properly.");
 	}
+
+	// Check if the constraint IDs are unique and in range
+	std::vector<bool> isIDUsed(numberOfConstraints, false);
+	for (const auto& constraint : constraintFunctions) {
+		int ID = constraint.getID();
+		if (ID < 0 || ID >= static_cast<int>(numberOfConstraints) || isIDUsed[ID]) {
+			throw std::runtime_error("Error: Constraint IDs must be unique and less than the number of constraints.");
+		}
+		isIDUsed[ID] = true;
+	}
 }
 
 
-- 
2.43.0


From a0d8320c2f810b2183424c641926c1ddbfa9408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 65/70] fix: reject bounds that are not finite

---
 src/Bounds/bounds.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 2836dc3..b511d1e 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <stdexcept>
 #include "./INCLUDE/bounds.hpp"
 
@@ -71,6 +72,9 @@ void Bounds::setDimension(unsigned int value){
 
 void Bounds::setBounds(double lowerBound, double upperBound) {
 
+	if (!std::isfinite(lowerBound) || !std::isfinite(upperBound)) {
+		throw std::invalid_argument("Bounds must be finite.");
+	}
 	if (lowerBound >= upperBound) {
 		throw std::invalid_argument("Upper bound must be greater than lower bound.");
 	}
@@ -170,6 +174,9 @@ bool Bounds::checkBounds(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
+		if(!std::isfinite(lowerBounds(i)) || !std::isfinite(upperBounds(i))) {
+			return false;
+		}
 		if(lowerBounds(i) >= upperBounds(i) ) {
 			return false;
 		}
-- 
2.43.0


From abb302a01a95cd4f8ff2cfcac05b933767ccf777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:36 +0000
Subject: [PATCH 66/70] fix: a rejected box does not replace the current box
 constraints

---
 src/Optimizers/optimization_setter_getters.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index ec6a95a..c73cb45 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -47,6 +47,11 @@ void Optimizer::setFileNameDesignVector(std::string filename){
 
 
 void Optimizer::setBoxConstraints(const Bounds& boxConstraints) {
+	// A rejected box does not replace the current one
+	if (!boxConstraints.areBoundsSet() || boxConstraints.getDimension() != dimension) {
+		throw std::invalid_argument("The box constraints are not set or do not match the dimension of the problem.");
+	}
+
 	lowerBounds = boxConstraints.getLowerBounds();
 	upperBounds = boxConstraints.getUpperBounds();
 
-- 
2.43.0


From d74fe7c88d3522b002e297de3ea8c8ab01080413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:01 +0000
Subject: [PATCH 67/70] fix: training with a validation ratio but without
 validation samples uses the likelihood

---
 src/SurrogateModels/kriging_training.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 93df59d..efd0595 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -713,6 +713,12 @@ void KrigingModel::train() {
 			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
 		}
 
+		/* a small ratio or an earlier training may have left no validation samples */
+		if(objectiveFunctionType == VALIDATION_ERROR && data.getNumberOfSamplesValidation() == 0){
+			ModelLogger::getInstance().log(WARNING, "KrigingModel::train: There are no validation samples, the likelihood is used instead.");
+			setObjectiveFunctionTypeForModelTraining(MAXIMUM_LIKELIHOOD);
+		}
+
 
 		// Setting up bounds for hyperparameter optimization
 		vec lb(2 * dimension);
-- 
2.43.0


From d0438fb100506c877c99db373057c87102293d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:31 +0000
Subject: [PATCH 68/70] fix: a model with loaded hyper-parameters uses the
 validation samples, too

---
 src/SurrogateModels/kriging_training.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index efd0595..472dcaa 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -806,8 +806,9 @@ void KrigingModel::train() {
 		}
 	}
 
-	if(objectiveFunctionType == VALIDATION_ERROR){
-		ModelLogger::getInstance().log(INFO, "Kriging training has been performed using validation error");
+	/* also a model with loaded hyper-parameters uses all samples */
+	if(data.getNumberOfSamplesValidation() > 0){
+		ModelLogger::getInstance().log(INFO, "Kriging training is done, all samples including the validation samples are used from now on");
 		data.revertBackToFullData();
 		mat X = data.getInputMatrix();
 		numberOfSamples = data.getNumberOfSamples();
-- 
2.43.0


From d5056237260ac6b963e26987253051d175d01c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:22 +0000
Subject: [PATCH 69/70] fix: the in-sample error does not mix training and
 validation samples

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 1 +
 src/SurrogateModels/surrogate_model.cpp              | 3 ++-
 src/SurrogateModels/surrogate_model_data.cpp         | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..a3f41b0 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -135,6 +135,7 @@ public:
 	void setDimension(unsigned int);
 
 	mat getRawData(void) const;
+	mat getRawDataTraining(void) const;
 
 	vec getRowX(unsigned int index) const;
 	vec getRowXTest(unsigned int index) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 6deba58..989dae7 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -199,7 +199,8 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
+	/* without the validation samples */
+	mat rawData = data.getRawDataTraining();
 	vec fExact = rawData.getCol(dimension);
 
 	mat X = data.getInputMatrix();
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index e7970b9..59e8788 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -60,6 +60,10 @@ mat SurrogateModelData::getRawData(void) const{
 	return rawData;
 }
 
+mat SurrogateModelData::getRawDataTraining(void) const{
+	return rawDataWork;
+}
+
 
 void SurrogateModelData::setGradientsOn(void){
 	ifDataHasGradients = true;
-- 
2.43.0


From 687495ce04daff0909b00b5226e5fded9471c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 70/70] fix: the library interface rejects a constraint name
 that is used twice

---
 src/API/INCLUDE/rodeo.h | 1 +
 src/API/cppAPI.cpp      | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index ada93b7..8730608 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -28,6 +28,7 @@ private:
 
 	string objectiveFunctionTrainingFilename;
 	vector<string> constraintsTrainingDataFilename;
+	vector<string> constraintNames;
 
 	bool isDimensionSpecified = false;
 	bool isObjectiveFunctionSpecified = false;
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index e979d8f..67ac0b3 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -242,6 +242,12 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Invalid inequality in constraint expression.");
 	}
 
+	// The constraint name must not be used by another constraint
+	if (std::find(constraintNames.begin(), constraintNames.end(), exp.name) != constraintNames.end()) {
+		throw std::invalid_argument("Constraint name already exists: " + exp.name);
+	}
+	constraintNames.push_back(exp.name);
+
 	// Add the function pointer and filename to the appropriate vectors
 	constraintFunctionPtr.push_back(function);
 	constraintsTrainingDataFilename.push_back(filename);
-- 
2.43.0

