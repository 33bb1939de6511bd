From a3a524cd55eceebfebef5de3ec1fad905c45bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 001/101] fix: E_SMOTE draws its initial mask from its own
 random state

---
 smote_variants/oversampling/_e_smote.py | 570 ++++++++++++------------
 1 file changed, 285 insertions(+), 285 deletions(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..457ff4f 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -1,285 +1,285 @@
-"""
-This module implements the E_SMOTE method.
-"""
-
-import numpy as np
-
-from sklearn.svm import SVC
-from sklearn.tree import DecisionTreeClassifier
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["E_SMOTE"]
-
-
-class E_SMOTE(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{e_smote,
-                            author={Deepa, T. and Punithavalli, M.},
-                            booktitle={2011 3rd International Conference on
-                                        Electronics Computer Technology},
-                            title={An E-SMOTE technique for feature selection
-                                    in High-Dimensional Imbalanced Dataset},
-                            year={2011},
-                            volume={2},
-                            number={},
-                            pages={322-324},
-                            keywords={bioinformatics;data mining;pattern
-                                        classification;support vector machines;
-                                        E-SMOTE technique;feature selection;
-                                        high-dimensional imbalanced dataset;
-                                        data mining;bio-informatics;dataset
-                                        balancing;SVM classification;micro
-                                        array dataset;Feature extraction;
-                                        Genetic algorithms;Support vector
-                                        machines;Data mining;Machine learning;
-                                        Bioinformatics;Cancer;Imbalanced
-                                        dataset;Featue Selection;E-SMOTE;
-                                        Support Vector Machine[SVM]},
-                            doi={10.1109/ICECTECH.2011.5941710},
-                            ISSN={},
-                            month={April}}
-
-    Notes:
-        * This technique is basically unreproducible. I try to implement
-            something following the idea of applying some simple genetic
-            algorithm for optimization.
-        * In my best understanding, the technique uses evolutionary algorithms
-            for feature selection and then applies vanilla SMOTE on the
-            selected features only.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_dim_reduction,
-        OverSampling.cat_memetic,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        min_features=2,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors in the nearest neighbors
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            min_features (int): minimum number of features
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(min_features, "min_features", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.min_features = min_features
-        self.n_jobs = n_jobs
-
-        self.mask = None
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "min_features": [1, 2, 3],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def crossover(self, mask_a, mask_b, min_features):
-        """
-        Crossover operation for two masks
-
-        Args:
-            mask_a (np.array): binary mask 1
-            mask_b (np.array): binary mask 2
-
-        Returns:
-            np.array: the result of crossover
-        """
-        mask = mask_a.copy()
-        for idx, flag in enumerate(mask_b):
-            if self.random_state.randint(0, 2) == 0:
-                mask[idx] = flag
-
-        while np.sum(mask) < min_features:
-            mask[self.random_state.randint(len(mask))] = True
-
-        return mask
-
-    def mutate(self, mask_old, min_features):
-        """
-        Mutation operation for a mask
-
-        Args:
-            mask_old (np.array): binary mask
-
-        Returns:
-            np.array: the result of mutation
-        """
-        mask = mask_old.copy()
-        for idx, flag in enumerate(mask):
-            if self.random_state.randint(0, 2) == 0:
-                mask[idx] = not flag
-
-        while np.sum(mask) < min_features:
-            mask[self.random_state.randint(len(mask))] = True
-
-        return mask
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        min_features = min(self.min_features, len(X[0]))
-
-        if len(X) < 800:
-            classifier = SVC(gamma="auto", random_state=self._random_state_init)
-        else:
-            classifier = DecisionTreeClassifier(
-                max_depth=4, random_state=self._random_state_init
-            )
-
-        # parameters of the evolutionary algorithm
-        n_generations = 50
-        n_population = 5
-
-        # creating initial mask
-        mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
-
-        # generating initial population
-        population = [[0, mask.copy()] for _ in range(n_population)]
-        for _ in range(n_generations):
-            # in each generation
-            for _ in range(n_population):
-                # for each element of a population
-                if self.random_state.randint(0, 2) == 0:
-                    # crossover
-                    i_0 = self.random_state.randint(n_population)
-                    i_1 = self.random_state.randint(n_population)
-                    mask = self.crossover(
-                        population[i_0][1], population[i_1][1], min_features
-                    )
-                else:
-                    # mutation
-                    idx = self.random_state.randint(n_population)
-                    mask = self.mutate(population[idx][1], min_features)
-                # evaluation
-                _logger.info(
-                    "%s evaluting mask selection with features %d/%d",
-                    self.__class__.__name__,
-                    np.sum(mask),
-                    len(mask),
-                )
-                classifier.fit(X[:, mask], y)
-                score = np.sum(y == classifier.predict(X[:, mask])) / len(y)
-                # appending the result to the population
-                population.append([score, mask])
-            # sorting the population in a reversed order and keeping the
-            # elements with the highest scores
-            population = sorted(population, key=lambda x: -x[0])[:n_population]
-
-        self.mask = population[0][1]
-        # resampling the population in the given dimensions
-
-        smote = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        )
-
-        return smote.sample(X[:, self.mask], y)
-
-    def preprocessing_transform(self, X):
-        """
-        Transform new data by the learnt transformation
-
-        Args:
-            X (np.array): new data
-
-        Returns:
-            np.array: transformed data
-        """
-        return X[:, self.mask]
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "min_features": self.min_features,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the E_SMOTE method.
+"""
+
+import numpy as np
+
+from sklearn.svm import SVC
+from sklearn.tree import DecisionTreeClassifier
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["E_SMOTE"]
+
+
+class E_SMOTE(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{e_smote,
+                            author={Deepa, T. and Punithavalli, M.},
+                            booktitle={2011 3rd International Conference on
+                                        Electronics Computer Technology},
+                            title={An E-SMOTE technique for feature selection
+                                    in High-Dimensional Imbalanced Dataset},
+                            year={2011},
+                            volume={2},
+                            number={},
+                            pages={322-324},
+                            keywords={bioinformatics;data mining;pattern
+                                        classification;support vector machines;
+                                        E-SMOTE technique;feature selection;
+                                        high-dimensional imbalanced dataset;
+                                        data mining;bio-informatics;dataset
+                                        balancing;SVM classification;micro
+                                        array dataset;Feature extraction;
+                                        Genetic algorithms;Support vector
+                                        machines;Data mining;Machine learning;
+                                        Bioinformatics;Cancer;Imbalanced
+                                        dataset;Featue Selection;E-SMOTE;
+                                        Support Vector Machine[SVM]},
+                            doi={10.1109/ICECTECH.2011.5941710},
+                            ISSN={},
+                            month={April}}
+
+    Notes:
+        * This technique is basically unreproducible. I try to implement
+            something following the idea of applying some simple genetic
+            algorithm for optimization.
+        * In my best understanding, the technique uses evolutionary algorithms
+            for feature selection and then applies vanilla SMOTE on the
+            selected features only.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_dim_reduction,
+        OverSampling.cat_memetic,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        min_features=2,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors in the nearest neighbors
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            min_features (int): minimum number of features
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(min_features, "min_features", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.min_features = min_features
+        self.n_jobs = n_jobs
+
+        self.mask = None
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "min_features": [1, 2, 3],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def crossover(self, mask_a, mask_b, min_features):
+        """
+        Crossover operation for two masks
+
+        Args:
+            mask_a (np.array): binary mask 1
+            mask_b (np.array): binary mask 2
+
+        Returns:
+            np.array: the result of crossover
+        """
+        mask = mask_a.copy()
+        for idx, flag in enumerate(mask_b):
+            if self.random_state.randint(0, 2) == 0:
+                mask[idx] = flag
+
+        while np.sum(mask) < min_features:
+            mask[self.random_state.randint(len(mask))] = True
+
+        return mask
+
+    def mutate(self, mask_old, min_features):
+        """
+        Mutation operation for a mask
+
+        Args:
+            mask_old (np.array): binary mask
+
+        Returns:
+            np.array: the result of mutation
+        """
+        mask = mask_old.copy()
+        for idx, flag in enumerate(mask):
+            if self.random_state.randint(0, 2) == 0:
+                mask[idx] = not flag
+
+        while np.sum(mask) < min_features:
+            mask[self.random_state.randint(len(mask))] = True
+
+        return mask
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        min_features = min(self.min_features, len(X[0]))
+
+        if len(X) < 800:
+            classifier = SVC(gamma="auto", random_state=self._random_state_init)
+        else:
+            classifier = DecisionTreeClassifier(
+                max_depth=4, random_state=self._random_state_init
+            )
+
+        # parameters of the evolutionary algorithm
+        n_generations = 50
+        n_population = 5
+
+        # creating initial mask
+        mask = np.repeat([False], X.shape[1])
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
+
+        # generating initial population
+        population = [[0, mask.copy()] for _ in range(n_population)]
+        for _ in range(n_generations):
+            # in each generation
+            for _ in range(n_population):
+                # for each element of a population
+                if self.random_state.randint(0, 2) == 0:
+                    # crossover
+                    i_0 = self.random_state.randint(n_population)
+                    i_1 = self.random_state.randint(n_population)
+                    mask = self.crossover(
+                        population[i_0][1], population[i_1][1], min_features
+                    )
+                else:
+                    # mutation
+                    idx = self.random_state.randint(n_population)
+                    mask = self.mutate(population[idx][1], min_features)
+                # evaluation
+                _logger.info(
+                    "%s evaluting mask selection with features %d/%d",
+                    self.__class__.__name__,
+                    np.sum(mask),
+                    len(mask),
+                )
+                classifier.fit(X[:, mask], y)
+                score = np.sum(y == classifier.predict(X[:, mask])) / len(y)
+                # appending the result to the population
+                population.append([score, mask])
+            # sorting the population in a reversed order and keeping the
+            # elements with the highest scores
+            population = sorted(population, key=lambda x: -x[0])[:n_population]
+
+        self.mask = population[0][1]
+        # resampling the population in the given dimensions
+
+        smote = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        )
+
+        return smote.sample(X[:, self.mask], y)
+
+    def preprocessing_transform(self, X):
+        """
+        Transform new data by the learnt transformation
+
+        Args:
+            X (np.array): new data
+
+        Returns:
+            np.array: transformed data
+        """
+        return X[:, self.mask]
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "min_features": self.min_features,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From d35ceef6c307ebf43a779c01a398e9cd38f0e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 002/101] fix: SVM_balance does not consume the global random
 state

---
 smote_variants/oversampling/_svm_balance.py | 362 ++++++++++----------
 1 file changed, 186 insertions(+), 176 deletions(-)

diff --git a/smote_variants/oversampling/_svm_balance.py b/smote_variants/oversampling/_svm_balance.py
index 5cb0bda..ab0c5c9 100755
--- a/smote_variants/oversampling/_svm_balance.py
+++ b/smote_variants/oversampling/_svm_balance.py
@@ -1,176 +1,186 @@
-"""
-This module implements the SVM_balance method.
-"""
-
-import numpy as np
-
-from sklearn.preprocessing import StandardScaler
-from sklearn.svm import SVC
-from sklearn.model_selection import cross_val_score
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SVM_balance"]
-
-
-class SVM_balance(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{svm_balance,
-                     author = {Farquad, M.A.H. and Bose, Indranil},
-                     title = {Preprocessing Unbalanced Data Using Support
-                                Vector Machine},
-                     journal = {Decis. Support Syst.},
-                     issue_date = {April, 2012},
-                     volume = {53},
-                     number = {1},
-                     month = apr,
-                     year = {2012},
-                     issn = {0167-9236},
-                     pages = {226--233},
-                     numpages = {8},
-                     url = {http://dx.doi.org/10.1016/j.dss.2012.01.016},
-                     doi = {10.1016/j.dss.2012.01.016},
-                     acmid = {2181554},
-                     publisher = {Elsevier Science Publishers B. V.},
-                     address = {Amsterdam, The Netherlands, The Netherlands},
-                     keywords = {COIL data, Hybrid method, Preprocessor, SVM,
-                                    Unbalanced data},
-                    }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors in the SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        X, y = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        validator = np.min([5, sum(y == self.min_label)])
-
-        scaler = StandardScaler()
-        X_norm = scaler.fit_transform(X)  # pylint: disable=invalid-name
-
-        C_params = [0.01, 0.1, 1.0, 10.0]  # pylint: disable=invalid-name
-        best_score = 0
-        best_C = 0.01  # pylint: disable=invalid-name
-
-        for C in C_params:  # pylint: disable=invalid-name
-            _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
-
-            svc = SVC(C=C, kernel="rbf", gamma="auto")
-            score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
-            if score > best_score:
-                best_score = score
-                best_C = C  # pylint: disable=invalid-name
-
-        svc = SVC(C=best_C, kernel="rbf", gamma="auto")
-
-        svc.fit(X_norm, y)
-
-        return X, svc.predict(X_norm)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SVM_balance method.
+"""
+
+import numpy as np
+
+from sklearn.preprocessing import StandardScaler
+from sklearn.svm import SVC
+from sklearn.model_selection import cross_val_score
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SVM_balance"]
+
+
+class SVM_balance(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{svm_balance,
+                     author = {Farquad, M.A.H. and Bose, Indranil},
+                     title = {Preprocessing Unbalanced Data Using Support
+                                Vector Machine},
+                     journal = {Decis. Support Syst.},
+                     issue_date = {April, 2012},
+                     volume = {53},
+                     number = {1},
+                     month = apr,
+                     year = {2012},
+                     issn = {0167-9236},
+                     pages = {226--233},
+                     numpages = {8},
+                     url = {http://dx.doi.org/10.1016/j.dss.2012.01.016},
+                     doi = {10.1016/j.dss.2012.01.016},
+                     acmid = {2181554},
+                     publisher = {Elsevier Science Publishers B. V.},
+                     address = {Amsterdam, The Netherlands, The Netherlands},
+                     keywords = {COIL data, Hybrid method, Preprocessor, SVM,
+                                    Unbalanced data},
+                    }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors in the SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        X, y = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        validator = np.min([5, sum(y == self.min_label)])
+
+        scaler = StandardScaler()
+        X_norm = scaler.fit_transform(X)  # pylint: disable=invalid-name
+
+        C_params = [0.01, 0.1, 1.0, 10.0]  # pylint: disable=invalid-name
+        best_score = 0
+        best_C = 0.01  # pylint: disable=invalid-name
+
+        for C in C_params:  # pylint: disable=invalid-name
+            _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
+
+            svc = SVC(
+                C=C,
+                kernel="rbf",
+                gamma="auto",
+                random_state=self._random_state_init,
+            )
+            score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
+            if score > best_score:
+                best_score = score
+                best_C = C  # pylint: disable=invalid-name
+
+        svc = SVC(
+            C=best_C,
+            kernel="rbf",
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+
+        svc.fit(X_norm, y)
+
+        return X, svc.predict(X_norm)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From a3bd3ad8de8513d0a72483d7a4397125c95f3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 003/101] fix: NEATER assigns the actual class labels to the
 generated samples

---
 smote_variants/oversampling/_neater.py | 836 +++++++++++++------------
 1 file changed, 419 insertions(+), 417 deletions(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..4a1b995 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -1,417 +1,419 @@
-"""
-This module implements the NEATER method.
-"""
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base._simplexsampling import array_array_index
-from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
-from ..base import OverSampling
-from ._smote import SMOTE
-from ._adasyn import ADASYN
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["NEATER"]
-
-
-class NEATER(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{neater,
-                            author={Almogahed, B. A. and Kakadiaris, I. A.},
-                            booktitle={2014 22nd International Conference on
-                                         Pattern Recognition},
-                            title={NEATER: Filtering of Over-sampled Data
-                                    Using Non-cooperative Game Theory},
-                            year={2014},
-                            volume={},
-                            number={},
-                            pages={1371-1376},
-                            keywords={data handling;game theory;information
-                                        filtering;NEATER;imbalanced data
-                                        problem;synthetic data;filtering of
-                                        over-sampled data using non-cooperative
-                                        game theory;Games;Game theory;Vectors;
-                                        Sociology;Statistics;Silicon;
-                                        Mathematical model},
-                            doi={10.1109/ICPR.2014.245},
-                            ISSN={1051-4651},
-                            month={Aug}}
-
-    Notes:
-        * Evolving both majority and minority probabilities as nothing ensures
-            that the probabilities remain in the range [0,1], and they need to
-            be normalized.
-        * The inversely weighted function needs to be cut at some value (like
-            the alpha level), otherwise it will overemphasize the utility of
-            having differing neighbors next to each other.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        smote_n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        b=5,
-        alpha=0.1,
-        h=20,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            smote_n_neighbors (int): number of neighbors in SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): the simplex sampling parameters
-            b (int): number of neighbors
-            alpha (float): smoothing term
-            h (int): number of iterations in evolution
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
-        self.check_greater_or_equal(b, "b", 1)
-        self.check_greater_or_equal(alpha, "alpha", 0)
-        self.check_greater_or_equal(h, "h", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.smote_n_neighbors = smote_n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = ss_params
-        self.params = {"b": b, "alpha": alpha, "h": h}
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "smote_n_neighbors": [3, 5, 7],
-            "b": [3, 5, 7],
-            "alpha": [0.1],
-            "h": [20],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    # def wprob_mixed(self, prob, i, indices, distm, offset):
-    #    ind = indices[i][1:]
-    #    term_0 = 1*prob[offset + i][0]*prob[ind, 0]
-    #    term_1 = distm[i, ind]*(prob[offset + i][1]*prob[ind, 0] +
-    #                            prob[offset + i][0]*prob[ind, 1])
-    #    term_2 = 1*prob[offset + i][1]*prob[ind, 1]
-    #    print(term_1.shape, term_2.shape)
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_mixed_vectorized(self, prob, indices, distm, offset):
-        """
-        Compute the mixed terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-            offset (int): offsetting the indices
-
-        Returns:
-            np.array: the mixed terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 1 * prob[offset:, 0][:, None] * prob[ind][:, :, 0]
-        term_1_b = (
-            prob[offset:, 1] * prob[ind][:, :, 0].T
-            + prob[offset:, 0] * prob[ind][:, :, 1].T
-        )
-        term_1 = array_array_index(distm, ind) * term_1_b.T
-        term_2 = 1 * prob[offset:, 1][:, None] * prob[ind][:, :, 1]
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    # def wprob_min(self, prob, i, indices, distm):
-    #    term_0 = 0*prob[indices[i][1:], 0]
-    #    term_1 = distm[i, indices[i][1:]]*(1*prob[indices[i][1:], 0] +
-    #                                    0*prob[indices[i][1:], 1])
-    #    term_2 = 1*prob[indices[i][1:], 1]
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_min_vectorized(self, prob, indices, distm):
-        """
-        Compute the minority terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-
-        Returns:
-            np.array: the minority terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 0 * prob[ind, 0]
-        term_1 = array_array_index(distm, ind) * (
-            1 * prob[ind][:, :, 0] + 0 * prob[ind][:, :, 1]
-        )
-        term_2 = 1 * prob[ind][:, :, 1]
-
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    # def wprob_maj(self, prob, i, indices, distm):
-    #    term_0 = 1*prob[indices[i][1:], 0]
-    #    term_1 = distm[i, indices[i][1:]]*(0*prob[indices[i][1:], 0] +
-    #                                    1*prob[indices[i][1:], 1])
-    #    term_2 = 0*prob[indices[i][1:], 1]
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_maj_vectorized(self, prob, indices, distm):
-        """
-        Compute the majority terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-
-        Returns:
-            np.array: the minority terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 1 * prob[ind, 0]
-        term_1 = array_array_index(distm, ind) * (
-            0 * prob[ind][:, :, 0] + 1 * prob[ind][:, :, 1]
-        )
-        term_2 = 0 * prob[ind][:, :, 1]
-
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    def utilities(self, prob, X, indices, distm):
-        """
-        Computes the utilit function
-
-        Args:
-            prob (np.array): strategy probabilities
-            X (np.array): the training vectors
-            indices (np.array): the neighborhood structure
-            distm (np.array): the distance matrix
-
-        Returns:
-            np.array, np.array, np.array: utility values, minority
-                                            utilities, majority
-                                            utilities
-        """
-
-        # domain = range(len(X_syn))
-        offset = len(X)
-        # util_mixed = np.array([self.wprob_mixed(prob, i, indices, distm,
-        #                                       offset=offset) for i in domain])
-        util_mixed = self.wprob_mixed_vectorized(prob, indices, distm, offset)
-        util_mixed = np.hstack([np.repeat(0, X.shape[0]), util_mixed])
-
-        # util_min = np.array([self.wprob_min(prob, i, indices, distm) for i in domain])
-        util_min = self.wprob_min_vectorized(prob, indices, distm)
-        util_min = np.hstack([np.repeat(0, X.shape[0]), util_min])
-
-        # util_maj = np.array([self.wprob_maj(prob, i, indices, distm) for i in domain])
-        util_maj = self.wprob_maj_vectorized(prob, indices, distm)
-        util_maj = np.hstack([np.repeat(0, X.shape[0]), util_maj])
-
-        return util_mixed, util_min, util_maj
-
-    def evolution(
-        self,
-        *,
-        prob,
-        X,
-        X_syn,  # pylint: disable=invalid-name
-        indices,
-        distm,
-        alpha=None
-    ):
-        """
-        Executing one step of the probabilistic evolution
-
-        Args:
-            prob (np.array): strategy probabilities
-            X (np.array): original vectors
-            X_syn (np.array): new samples
-            indices (np.array): the neighborhood structure
-            distm (np.array): the distance matrix
-            alpha (float): smoothing function
-
-        Returns:
-            np.array: updated probabilities
-        """
-        # binary indicator indicating synthetic instances
-        synthetic = np.hstack(
-            [np.array([False] * len(X)), np.array([True] * len(X_syn))]
-        )
-
-        alpha = coalesce(alpha, self.params["alpha"])
-
-        util_mixed, util_min, util_maj = self.utilities(prob, X, indices, distm)
-
-        prob_new = prob.copy()
-        synthetic_values = prob[:, 1] * (alpha + util_min) / (alpha + util_mixed)
-        prob_new[:, 1] = np.where(synthetic, synthetic_values, prob[:, 1])
-
-        synthetic_values = prob[:, 0] * (alpha + util_maj) / (alpha + util_mixed)
-        prob_new[:, 0] = np.where(synthetic, synthetic_values, prob[:, 0])
-
-        norm_factor = np.sum(prob_new, axis=1)
-
-        prob_new[:, 0] = prob_new[:, 0] / norm_factor
-        prob_new[:, 1] = prob_new[:, 1] / norm_factor
-
-        return prob_new
-
-    def generate_new_samples(self, X, y, nn_params):
-        """
-        Generate new samples.
-
-        Args:
-            X (np.array): training vectors
-            y (np.array): the target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array: all vectors and targets
-        """
-        # Applying SMOTE and ADASYN
-        X_0, y_0 = SMOTE(  # pylint: disable=invalid-name
-            proportion=self.proportion,
-            n_neighbors=self.smote_n_neighbors,
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        X_1, y_1 = ADASYN(  # pylint: disable=invalid-name
-            n_neighbors=self.params["b"],
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        X_new = np.vstack([X_0, X_1[len(X) :]])
-        y_new = np.hstack([y_0, y_1[len(y) :]])
-
-        return X_new, y_new
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        X_all, y_all = self.generate_new_samples(X, y, nn_params)
-
-        X_syn = X_all[len(X) :]  # pylint: disable=invalid-name
-
-        # initializing strategy probabilities
-        prob = np.zeros(shape=(len(X_all), 2))
-        prob.fill(0.5)
-        for idx in range(len(X)):
-            if y[idx] == self.min_label:
-                prob[idx, 0], prob[idx, 1] = 0.0, 1.0
-            else:
-                prob[idx, 0], prob[idx, 1] = 1.0, 0.0
-
-        # Finding nearest neighbors, +1 as X_syn is part of X_all and nearest
-        # neighbors will be themselves
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.params["b"] + 1, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X_all)
-        indices = nnmt.kneighbors(X_syn, return_distance=False)
-
-        # computing distances
-        distm = pairwise_distances_mahalanobis(
-            X_syn, Y=X_all, tensor=nn_params.get("metric_tensor", None)
-        )
-
-        distm[distm == 0] = 1e-8
-        distm = 1.0 / distm
-        distm[distm > self.params["alpha"]] = self.params["alpha"]
-
-        # executing the evolution
-        for _ in range(self.params["h"]):
-            prob = self.evolution(
-                prob=prob, X=X, X_syn=X_syn, indices=indices, distm=distm
-            )
-
-        # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
-
-        return X_all, y_all
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "smote_n_neighbors": self.smote_n_neighbors,
-            "b": self.params["b"],
-            "alpha": self.params["alpha"],
-            "h": self.params["h"],
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the NEATER method.
+"""
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base._simplexsampling import array_array_index
+from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
+from ..base import OverSampling
+from ._smote import SMOTE
+from ._adasyn import ADASYN
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["NEATER"]
+
+
+class NEATER(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{neater,
+                            author={Almogahed, B. A. and Kakadiaris, I. A.},
+                            booktitle={2014 22nd International Conference on
+                                         Pattern Recognition},
+                            title={NEATER: Filtering of Over-sampled Data
+                                    Using Non-cooperative Game Theory},
+                            year={2014},
+                            volume={},
+                            number={},
+                            pages={1371-1376},
+                            keywords={data handling;game theory;information
+                                        filtering;NEATER;imbalanced data
+                                        problem;synthetic data;filtering of
+                                        over-sampled data using non-cooperative
+                                        game theory;Games;Game theory;Vectors;
+                                        Sociology;Statistics;Silicon;
+                                        Mathematical model},
+                            doi={10.1109/ICPR.2014.245},
+                            ISSN={1051-4651},
+                            month={Aug}}
+
+    Notes:
+        * Evolving both majority and minority probabilities as nothing ensures
+            that the probabilities remain in the range [0,1], and they need to
+            be normalized.
+        * The inversely weighted function needs to be cut at some value (like
+            the alpha level), otherwise it will overemphasize the utility of
+            having differing neighbors next to each other.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        smote_n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        b=5,
+        alpha=0.1,
+        h=20,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            smote_n_neighbors (int): number of neighbors in SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): the simplex sampling parameters
+            b (int): number of neighbors
+            alpha (float): smoothing term
+            h (int): number of iterations in evolution
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
+        self.check_greater_or_equal(b, "b", 1)
+        self.check_greater_or_equal(alpha, "alpha", 0)
+        self.check_greater_or_equal(h, "h", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.smote_n_neighbors = smote_n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = ss_params
+        self.params = {"b": b, "alpha": alpha, "h": h}
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "smote_n_neighbors": [3, 5, 7],
+            "b": [3, 5, 7],
+            "alpha": [0.1],
+            "h": [20],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    # def wprob_mixed(self, prob, i, indices, distm, offset):
+    #    ind = indices[i][1:]
+    #    term_0 = 1*prob[offset + i][0]*prob[ind, 0]
+    #    term_1 = distm[i, ind]*(prob[offset + i][1]*prob[ind, 0] +
+    #                            prob[offset + i][0]*prob[ind, 1])
+    #    term_2 = 1*prob[offset + i][1]*prob[ind, 1]
+    #    print(term_1.shape, term_2.shape)
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_mixed_vectorized(self, prob, indices, distm, offset):
+        """
+        Compute the mixed terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+            offset (int): offsetting the indices
+
+        Returns:
+            np.array: the mixed terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 1 * prob[offset:, 0][:, None] * prob[ind][:, :, 0]
+        term_1_b = (
+            prob[offset:, 1] * prob[ind][:, :, 0].T
+            + prob[offset:, 0] * prob[ind][:, :, 1].T
+        )
+        term_1 = array_array_index(distm, ind) * term_1_b.T
+        term_2 = 1 * prob[offset:, 1][:, None] * prob[ind][:, :, 1]
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    # def wprob_min(self, prob, i, indices, distm):
+    #    term_0 = 0*prob[indices[i][1:], 0]
+    #    term_1 = distm[i, indices[i][1:]]*(1*prob[indices[i][1:], 0] +
+    #                                    0*prob[indices[i][1:], 1])
+    #    term_2 = 1*prob[indices[i][1:], 1]
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_min_vectorized(self, prob, indices, distm):
+        """
+        Compute the minority terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+
+        Returns:
+            np.array: the minority terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 0 * prob[ind, 0]
+        term_1 = array_array_index(distm, ind) * (
+            1 * prob[ind][:, :, 0] + 0 * prob[ind][:, :, 1]
+        )
+        term_2 = 1 * prob[ind][:, :, 1]
+
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    # def wprob_maj(self, prob, i, indices, distm):
+    #    term_0 = 1*prob[indices[i][1:], 0]
+    #    term_1 = distm[i, indices[i][1:]]*(0*prob[indices[i][1:], 0] +
+    #                                    1*prob[indices[i][1:], 1])
+    #    term_2 = 0*prob[indices[i][1:], 1]
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_maj_vectorized(self, prob, indices, distm):
+        """
+        Compute the majority terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+
+        Returns:
+            np.array: the minority terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 1 * prob[ind, 0]
+        term_1 = array_array_index(distm, ind) * (
+            0 * prob[ind][:, :, 0] + 1 * prob[ind][:, :, 1]
+        )
+        term_2 = 0 * prob[ind][:, :, 1]
+
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    def utilities(self, prob, X, indices, distm):
+        """
+        Computes the utilit function
+
+        Args:
+            prob (np.array): strategy probabilities
+            X (np.array): the training vectors
+            indices (np.array): the neighborhood structure
+            distm (np.array): the distance matrix
+
+        Returns:
+            np.array, np.array, np.array: utility values, minority
+                                            utilities, majority
+                                            utilities
+        """
+
+        # domain = range(len(X_syn))
+        offset = len(X)
+        # util_mixed = np.array([self.wprob_mixed(prob, i, indices, distm,
+        #                                       offset=offset) for i in domain])
+        util_mixed = self.wprob_mixed_vectorized(prob, indices, distm, offset)
+        util_mixed = np.hstack([np.repeat(0, X.shape[0]), util_mixed])
+
+        # util_min = np.array([self.wprob_min(prob, i, indices, distm) for i in domain])
+        util_min = self.wprob_min_vectorized(prob, indices, distm)
+        util_min = np.hstack([np.repeat(0, X.shape[0]), util_min])
+
+        # util_maj = np.array([self.wprob_maj(prob, i, indices, distm) for i in domain])
+        util_maj = self.wprob_maj_vectorized(prob, indices, distm)
+        util_maj = np.hstack([np.repeat(0, X.shape[0]), util_maj])
+
+        return util_mixed, util_min, util_maj
+
+    def evolution(
+        self,
+        *,
+        prob,
+        X,
+        X_syn,  # pylint: disable=invalid-name
+        indices,
+        distm,
+        alpha=None
+    ):
+        """
+        Executing one step of the probabilistic evolution
+
+        Args:
+            prob (np.array): strategy probabilities
+            X (np.array): original vectors
+            X_syn (np.array): new samples
+            indices (np.array): the neighborhood structure
+            distm (np.array): the distance matrix
+            alpha (float): smoothing function
+
+        Returns:
+            np.array: updated probabilities
+        """
+        # binary indicator indicating synthetic instances
+        synthetic = np.hstack(
+            [np.array([False] * len(X)), np.array([True] * len(X_syn))]
+        )
+
+        alpha = coalesce(alpha, self.params["alpha"])
+
+        util_mixed, util_min, util_maj = self.utilities(prob, X, indices, distm)
+
+        prob_new = prob.copy()
+        synthetic_values = prob[:, 1] * (alpha + util_min) / (alpha + util_mixed)
+        prob_new[:, 1] = np.where(synthetic, synthetic_values, prob[:, 1])
+
+        synthetic_values = prob[:, 0] * (alpha + util_maj) / (alpha + util_mixed)
+        prob_new[:, 0] = np.where(synthetic, synthetic_values, prob[:, 0])
+
+        norm_factor = np.sum(prob_new, axis=1)
+
+        prob_new[:, 0] = prob_new[:, 0] / norm_factor
+        prob_new[:, 1] = prob_new[:, 1] / norm_factor
+
+        return prob_new
+
+    def generate_new_samples(self, X, y, nn_params):
+        """
+        Generate new samples.
+
+        Args:
+            X (np.array): training vectors
+            y (np.array): the target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array: all vectors and targets
+        """
+        # Applying SMOTE and ADASYN
+        X_0, y_0 = SMOTE(  # pylint: disable=invalid-name
+            proportion=self.proportion,
+            n_neighbors=self.smote_n_neighbors,
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        X_1, y_1 = ADASYN(  # pylint: disable=invalid-name
+            n_neighbors=self.params["b"],
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        X_new = np.vstack([X_0, X_1[len(X) :]])
+        y_new = np.hstack([y_0, y_1[len(y) :]])
+
+        return X_new, y_new
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        X_all, y_all = self.generate_new_samples(X, y, nn_params)
+
+        X_syn = X_all[len(X) :]  # pylint: disable=invalid-name
+
+        # initializing strategy probabilities
+        prob = np.zeros(shape=(len(X_all), 2))
+        prob.fill(0.5)
+        for idx in range(len(X)):
+            if y[idx] == self.min_label:
+                prob[idx, 0], prob[idx, 1] = 0.0, 1.0
+            else:
+                prob[idx, 0], prob[idx, 1] = 1.0, 0.0
+
+        # Finding nearest neighbors, +1 as X_syn is part of X_all and nearest
+        # neighbors will be themselves
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=self.params["b"] + 1, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X_all)
+        indices = nnmt.kneighbors(X_syn, return_distance=False)
+
+        # computing distances
+        distm = pairwise_distances_mahalanobis(
+            X_syn, Y=X_all, tensor=nn_params.get("metric_tensor", None)
+        )
+
+        distm[distm == 0] = 1e-8
+        distm = 1.0 / distm
+        distm[distm > self.params["alpha"]] = self.params["alpha"]
+
+        # executing the evolution
+        for _ in range(self.params["h"]):
+            prob = self.evolution(
+                prob=prob, X=X, X_syn=X_syn, indices=indices, distm=distm
+            )
+
+        # determining final labels
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
+
+        return X_all, y_all
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "smote_n_neighbors": self.smote_n_neighbors,
+            "b": self.params["b"],
+            "alpha": self.params["alpha"],
+            "h": self.params["h"],
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From e01a01dc89a45821c406b5d7237f6163d7ddb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 004/101] fix: SL_graph_SMOTE counts minority neighbors instead
 of summing up labels

---
 .../oversampling/_sl_graph_smote.py           | 370 +++++++++---------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index ab6cda3..b5d8fef 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -1,185 +1,185 @@
-"""
-This module implements the SL_graph_SMOTE method.
-"""
-import warnings
-
-import numpy as np
-
-from scipy.stats import skew
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from ..config import suppress_external_warnings
-from ._safe_level_smote import Safe_Level_SMOTE
-from ._borderline_smote import Borderline_SMOTE1
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SL_graph_SMOTE"]
-
-
-class SL_graph_SMOTE(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @inproceedings{sl_graph_smote,
-                    author = {Bunkhumpornpat,
-                        Chumpol and Subpaiboonkit, Sitthichoke},
-                    booktitle= {13th International Symposium on Communications
-                                and Information Technologies},
-                    year = {2013},
-                    month = {09},
-                    pages = {570-575},
-                    title = {Safe level graph for synthetic minority
-                                over-sampling techniques},
-                    isbn = {978-1-4673-5578-0}
-                    }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                    to sample e.g. 1.0 means that after
-                                    sampling the number of minority samples
-                                    will be equal to the number of majority
-                                    samples
-            n_neighbors (int): number of neighbors in nearest neighbors
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # Fitting nearest neighbors model
-        n_neighbors = min([len(X), self.n_neighbors])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
-
-        # Computing safe level values
-        safe_level_values = np.sum(y[indices], axis=1)
-
-        # Computing skewness
-        with warnings.catch_warnings():
-            if suppress_external_warnings():
-                warnings.simplefilter("ignore")
-            skewness = skew(safe_level_values)
-
-        if skewness < 0:
-            # left skewed
-            sampler = Safe_Level_SMOTE(
-                proportion=self.proportion,
-                n_neighbors=self.n_neighbors,
-                nn_params=nn_params,
-                ss_params=self.ss_params,
-                n_jobs=self.n_jobs,
-                random_state=self._random_state_init,
-            )
-        else:
-            # right skewed
-            sampler = Borderline_SMOTE1(
-                proportion=self.proportion,
-                n_neighbors=self.n_neighbors,
-                nn_params=nn_params,
-                ss_params=self.ss_params,
-                n_jobs=self.n_jobs,
-                random_state=self._random_state_init,
-            )
-
-        return sampler.sample(X, y)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SL_graph_SMOTE method.
+"""
+import warnings
+
+import numpy as np
+
+from scipy.stats import skew
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from ..config import suppress_external_warnings
+from ._safe_level_smote import Safe_Level_SMOTE
+from ._borderline_smote import Borderline_SMOTE1
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SL_graph_SMOTE"]
+
+
+class SL_graph_SMOTE(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @inproceedings{sl_graph_smote,
+                    author = {Bunkhumpornpat,
+                        Chumpol and Subpaiboonkit, Sitthichoke},
+                    booktitle= {13th International Symposium on Communications
+                                and Information Technologies},
+                    year = {2013},
+                    month = {09},
+                    pages = {570-575},
+                    title = {Safe level graph for synthetic minority
+                                over-sampling techniques},
+                    isbn = {978-1-4673-5578-0}
+                    }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                    to sample e.g. 1.0 means that after
+                                    sampling the number of minority samples
+                                    will be equal to the number of majority
+                                    samples
+            n_neighbors (int): number of neighbors in nearest neighbors
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # Fitting nearest neighbors model
+        n_neighbors = min([len(X), self.n_neighbors])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
+
+        # Computing safe level values
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
+
+        # Computing skewness
+        with warnings.catch_warnings():
+            if suppress_external_warnings():
+                warnings.simplefilter("ignore")
+            skewness = skew(safe_level_values)
+
+        if skewness < 0:
+            # left skewed
+            sampler = Safe_Level_SMOTE(
+                proportion=self.proportion,
+                n_neighbors=self.n_neighbors,
+                nn_params=nn_params,
+                ss_params=self.ss_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
+        else:
+            # right skewed
+            sampler = Borderline_SMOTE1(
+                proportion=self.proportion,
+                n_neighbors=self.n_neighbors,
+                nn_params=nn_params,
+                ss_params=self.ss_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
+
+        return sampler.sample(X, y)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From 0fbbd64456273ffbb7cf0205acc0034a0287ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:31 +0000
Subject: [PATCH 005/101] fix: ISOMAP_Hybrid counts class members instead of
 summing up labels

---
 smote_variants/oversampling/_isomap_hybrid.py | 401 +++++++++---------
 1 file changed, 202 insertions(+), 199 deletions(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..605a675 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -1,199 +1,202 @@
-"""
-This module implements the ISOMAP_Hybrid method.
-"""
-import warnings
-
-import numpy as np
-
-from sklearn.manifold import Isomap
-
-from ..config import suppress_external_warnings
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-from ..noise_removal import NeighborhoodCleaningRule
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["ISOMAP_Hybrid"]
-
-
-class ISOMAP_Hybrid(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @inproceedings{isomap_hybrid,
-                             author = {Gu, Qiong and Cai, Zhihua and Zhu, Li},
-                             title = {Classification of Imbalanced Data Sets by
-                                        Using the Hybrid Re-sampling Algorithm
-                                        Based on Isomap},
-                             booktitle = {Proceedings of the 4th International
-                                            Symposium on Advances in
-                                            Computation and Intelligence},
-                             series = {ISICA '09},
-                             year = {2009},
-                             isbn = {978-3-642-04842-5},
-                             location = {Huangshi, China},
-                             pages = {287--296},
-                             numpages = {10},
-                             doi = {10.1007/978-3-642-04843-2_31},
-                             acmid = {1691478},
-                             publisher = {Springer-Verlag},
-                             address = {Berlin, Heidelberg},
-                             keywords = {Imbalanced data set, Isomap, NCR,
-                                            Smote, re-sampling},
-                            }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_noise_removal,
-        OverSampling.cat_dim_reduction,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_components=3,
-        smote_n_neighbors=5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_components (int): number of components
-            smote_n_neighbors (int): number of neighbors in SMOTE sampling
-            n_jobs (int): number of parallel jobs
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(n_components, "n_components", 1)
-        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.isomap_params = {}
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.smote_n_neighbors = smote_n_neighbors
-        self.n_jobs = n_jobs
-
-        self.isomap = Isomap(
-            n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
-        )
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "n_components": [2, 3, 4],
-            "smote_n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        with warnings.catch_warnings():
-            if suppress_external_warnings():
-                warnings.simplefilter("ignore")
-            X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_trans, y
-        )
-
-        X_sm, y_sm = SMOTE(  # pylint: disable=invalid-name
-            proportion=self.proportion,
-            n_neighbors=self.smote_n_neighbors,
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X_trans, y)
-
-        ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
-        X_final, y_final = ncr.remove_noise(X_sm, y_sm)
-
-        if np.sum(y_final) <= 2 or np.sum(y_final == 0) <= 2:
-            return self.return_copies(
-                X_sm, y_sm, "too many samples removed returning isomapped dataset"
-            )
-
-        return X_final, y_final
-
-    def preprocessing_transform(self, X):
-        """
-        Transforms new data by the trained isomap
-
-        Args:
-            X (np.array): new data
-
-        Returns:
-            np.array: the transformed data
-        """
-        return self.isomap.transform(X)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.isomap.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_components": self.isomap.n_components,
-            "smote_n_neighbors": self.smote_n_neighbors,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the ISOMAP_Hybrid method.
+"""
+import warnings
+
+import numpy as np
+
+from sklearn.manifold import Isomap
+
+from ..config import suppress_external_warnings
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+from ..noise_removal import NeighborhoodCleaningRule
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["ISOMAP_Hybrid"]
+
+
+class ISOMAP_Hybrid(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @inproceedings{isomap_hybrid,
+                             author = {Gu, Qiong and Cai, Zhihua and Zhu, Li},
+                             title = {Classification of Imbalanced Data Sets by
+                                        Using the Hybrid Re-sampling Algorithm
+                                        Based on Isomap},
+                             booktitle = {Proceedings of the 4th International
+                                            Symposium on Advances in
+                                            Computation and Intelligence},
+                             series = {ISICA '09},
+                             year = {2009},
+                             isbn = {978-3-642-04842-5},
+                             location = {Huangshi, China},
+                             pages = {287--296},
+                             numpages = {10},
+                             doi = {10.1007/978-3-642-04843-2_31},
+                             acmid = {1691478},
+                             publisher = {Springer-Verlag},
+                             address = {Berlin, Heidelberg},
+                             keywords = {Imbalanced data set, Isomap, NCR,
+                                            Smote, re-sampling},
+                            }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_noise_removal,
+        OverSampling.cat_dim_reduction,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_components=3,
+        smote_n_neighbors=5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_components (int): number of components
+            smote_n_neighbors (int): number of neighbors in SMOTE sampling
+            n_jobs (int): number of parallel jobs
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(n_components, "n_components", 1)
+        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.isomap_params = {}
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.smote_n_neighbors = smote_n_neighbors
+        self.n_jobs = n_jobs
+
+        self.isomap = Isomap(
+            n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
+        )
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "n_components": [2, 3, 4],
+            "smote_n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        with warnings.catch_warnings():
+            if suppress_external_warnings():
+                warnings.simplefilter("ignore")
+            X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_trans, y
+        )
+
+        X_sm, y_sm = SMOTE(  # pylint: disable=invalid-name
+            proportion=self.proportion,
+            n_neighbors=self.smote_n_neighbors,
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X_trans, y)
+
+        ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
+        X_final, y_final = ncr.remove_noise(X_sm, y_sm)
+
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
+            return self.return_copies(
+                X_sm, y_sm, "too many samples removed returning isomapped dataset"
+            )
+
+        return X_final, y_final
+
+    def preprocessing_transform(self, X):
+        """
+        Transforms new data by the trained isomap
+
+        Args:
+            X (np.array): new data
+
+        Returns:
+            np.array: the transformed data
+        """
+        return self.isomap.transform(X)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.isomap.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_components": self.isomap.n_components,
+            "smote_n_neighbors": self.smote_n_neighbors,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From dd397bda48fc523412242ea37d7e500667f049aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 006/101] fix: SSO regresses on minority membership and
 generates nothing when not needed

---
 smote_variants/oversampling/_sso.py | 885 ++++++++++++++--------------
 1 file changed, 444 insertions(+), 441 deletions(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index f084eda..553379b 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -1,441 +1,444 @@
-"""
-This module implements the SSO method.
-"""
-
-import numpy as np
-
-from sklearn.cluster import KMeans
-from sklearn.linear_model import LinearRegression
-
-import scipy.special as sspecial
-
-from ..base import (
-    NearestNeighborsWithMetricTensor,
-    pairwise_distances_mahalanobis,
-    fix_density,
-)
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SSO"]
-
-
-class SSO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{sso,
-                            author="Rong, Tongwen
-                            and Gong, Huachang
-                            and Ng, Wing W. Y.",
-                            editor="Wang, Xizhao
-                            and Pedrycz, Witold
-                            and Chan, Patrick
-                            and He, Qiang",
-                            title="Stochastic Sensitivity Oversampling
-                                    Technique for Imbalanced Data",
-                            booktitle="Machine Learning and Cybernetics",
-                            year="2014",
-                            publisher="Springer Berlin Heidelberg",
-                            address="Berlin, Heidelberg",
-                            pages="161--171",
-                            isbn="978-3-662-45652-1"
-                            }
-
-    Notes:
-        * In the algorithm step 2d adds a constant to a vector. I have
-            changed it to a componentwise adjustment, and also used the
-            normalized STSM as I don't see any reason why it would be
-            some reasonable, bounded value.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_uses_clustering,
-        OverSampling.cat_density_based,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        h=10,  # pylint: disable=invalid-name
-        n_iter=5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            h (int): number of hidden units
-            n_iter (int): optimization steps
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(h, "h", 1)
-        self.check_greater_or_equal(n_iter, "n_iter", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = nn_params or {}
-        self.h = h  # pylint: disable=invalid-name
-        self.n_iter = n_iter
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5],
-            "h": [2, 5, 10, 20],
-            "n_iter": [5],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    # def eq_6(self, Q, w, u, v, x, h):
-    #    """
-    #    Equation 6 in the paper
-    #    """
-    #    tmp_sum = np.zeros(h)
-    #    for i in range(h):
-    #        a = (x - u[i] + Q)/np.sqrt(2*v[i])
-    #        b = (x - u[i] - Q)/np.sqrt(2*v[i])
-    #        tmp_prod = (sspecial.erf(a) - sspecial.erf(b))
-    #        tmp_sum[i] = np.sqrt(np.pi/2)*v[i]*np.prod(tmp_prod)
-    #    return np.dot(tmp_sum, w)/(2*Q)**len(x)
-
-    def eq_6_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
-        """
-        Vectorized implementation of Equation 6 in the paper
-
-        Args:
-            Q (np.array): the Q value
-            w (np.array): the w vector
-            u (np.array): the u vectors
-            v (np.array): the v vector
-            X (np.array): all training vectors
-
-        Returns:
-            np.array: eq. 6 for each X vector
-        """
-        tmp_a = (X[:, None] - u + Q) / np.sqrt(2 * v)[None, :, None]
-        tmp_b = (X[:, None] - u - Q) / np.sqrt(2 * v)[None, :, None]
-        tmp_prod = sspecial.erf(tmp_a) - sspecial.erf(tmp_b)
-        tmp_sum = np.sqrt(np.pi / 2.0) * v * np.prod(tmp_prod, axis=2)
-        result = np.dot(tmp_sum, w) / (2 * Q) ** X.shape[1]
-        return result
-
-    # def eq_8(self, Q, w, u, v, x, h):
-    #    """
-    #    Equation 8 in the paper
-    #    """
-    #    res = 0.0
-    #    for i in range(h):
-    #        vi2 = v[i]**2
-    #        for r in range(h):
-    #            vr2 = v[r]**2
-    #            a1 = (np.sqrt(2*vi2*vr2*(vi2 + vr2)))
-    #
-    #            a00_v = (vi2 + vr2)*(x + Q)
-    #            a01_v = vi2*u[r] + vr2*u[i]
-    #            a0_v = a00_v - a01_v
-    #            a_v = a0_v/a1
-    #
-    #            b_v = ((vi2 + vr2)*(x - Q) - (vi2*u[r] + vr2*u[i]))/a1
-    #            tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
-    #
-    #            tmp_a = (np.sqrt(2*vi2*vr2*(vi2 + vr2)) /
-    #                        (vi2 + vr2))**len(x)
-    #            norm = np.linalg.norm(u[r] - u[i])
-    #            tmp_b = np.exp(-0.5 * norm**2/(vi2 + vr2))
-    #
-    #            res = res + tmp_a*tmp_b*np.prod(tmp_prod)*w[i]*w[r]
-    #
-    #    return (np.sqrt(np.pi)/(4*Q))**len(x)*res
-
-    def eq_8_av_bv(self, *, Q, u, X, v2, vi_vr, a1):
-        """
-        Calculate the a_v and b_v arrays.
-
-        Args:
-            Q (np.array): the Q value
-            u (np.array): the u vectors
-            X (np.array): all training vectors
-            v2 (np.array): the squared v values
-            vi_vr (np.array): the cross sum of squared v values
-            a1 (np.array): the precalculated a1 term
-
-        Returns:
-            np.array: eq. 8 for each X vector
-        """
-
-        a00_v = vi_vr[:, :, None, None] * (X + Q)
-
-        tmp1 = np.repeat(v2, u.shape[0]).reshape(v2.shape[0], u.shape[0])[:, :, None]
-        tmp2 = np.array([u] * u.shape[0])
-
-        a01_v = u[:, None] * v2[:, None] + tmp2 * tmp1
-        a0_v = a00_v - a01_v[:, :, None]
-        a_v = a0_v / a1[:, :, None, None]
-
-        b_v = vi_vr[:, :, None, None] * (X - Q)
-        b_v = b_v - a01_v[:, :, None]
-        b_v = b_v / a1[:, :, None, None]
-
-        return a_v, b_v
-
-    def eq_8_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
-        """
-        Vectorized implementation of Equation 8 in the paper
-
-        Args:
-            Q (np.array): the Q value
-            w (np.array): the w vector
-            u (np.array): the u vectors
-            v (np.array): the v vector
-            X (np.array): all training vectors
-
-        Returns:
-            np.array: eq. 8 for each X vector
-        """
-        v2 = v**2.0  # pylint: disable=invalid-name
-
-        vi_vr = v2[:, None] + v2
-
-        a1 = np.sqrt(2.0 * (v2[:, None] * v2) * vi_vr)  # pylint: disable=invalid-name
-
-        a_v, b_v = self.eq_8_av_bv(Q=Q, u=u, X=X, v2=v2, vi_vr=vi_vr, a1=a1)
-
-        tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
-
-        tmp_a = (a1 / vi_vr) ** X.shape[1]
-
-        tmp_b = np.exp(-0.5 * np.linalg.norm(u[:, None] - u, axis=2) ** 2 / vi_vr)
-
-        result = (tmp_a * tmp_b * (w[:, None] * w))[:, :, None] * np.prod(
-            tmp_prod, axis=3
-        )
-
-        result = np.sum(np.sum(result, axis=0), axis=0)
-
-        result = (np.sqrt(np.pi) / (4 * Q)) ** X.shape[1] * result
-
-        return result
-
-    def calculate_vectors(self, X, y, X_min, nn_params):
-        """
-        Calculate the vectors used in the rest of the algorithm.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array: the u, v, f and w
-                                                    vectors
-        """
-        # applying kmeans clustering to find the hidden neurons
-        h = min([self.h, len(X_min)])  # pylint: disable=invalid-name
-        kmeans = KMeans(n_clusters=h, n_init='auto', random_state=self._random_state_init)
-        kmeans.fit(X)
-
-        # extracting the hidden center elements
-        u = kmeans.cluster_centers_  # pylint: disable=invalid-name
-
-        # extracting scale parameters as the distances of closest centers
-        nn_cent = NearestNeighborsWithMetricTensor(
-            n_neighbors=2, n_jobs=self.n_jobs, **nn_params
-        )
-        nn_cent.fit(u)
-        dist_cent, _ = nn_cent.kneighbors(u)
-        v = dist_cent[:, 1]  # pylint: disable=invalid-name
-
-        # computing the response of the hidden units
-        phi = pairwise_distances_mahalanobis(
-            X, Y=u, tensor=nn_params.get("metric_tensor", None)
-        )
-        phi = phi**2
-        phi = np.exp(-phi / v**2)
-
-        # applying linear regression to find the best weights
-        linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, y)
-        f = linreg.predict(
-            phi[np.where(y == self.min_label)[0]]
-        )  # pylint: disable=invalid-name
-        w = linreg.coef_  # pylint: disable=invalid-name
-
-        return u, v, f, w
-
-    def determine_Q(self, X, X_min, nn_params):  # pylint: disable=invalid-name
-        """
-        Calculate the Q value.
-
-        Args:
-            X (np.array): all training vectors
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            float: the Q value
-        """
-        # applying nearest neighbors to extract Q values
-        n_neighbors = min([self.n_neighbors + 1, len(X)])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        dist, _ = nnmt.kneighbors(X_min)
-
-        Q = np.mean(dist[:, n_neighbors - 1]) / np.sqrt(  # pylint: disable=invalid-name
-            len(X[0])
-        )
-
-        return Q
-
-    def generate_samples(
-        self, X_min, weights, Q, samp_per_iter
-    ):  # pylint: disable=invalid-name
-        """
-        Generate samples.
-
-        Args:
-            X_min (np.array): the minority samples
-            weights (np.array): the density to be used
-            Q (float): the Q value
-            samp_per_iter (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        base_indices = self.random_state.choice(
-            np.arange(X_min.shape[0]), samp_per_iter, p=weights
-        )
-        base_vectors = X_min[base_indices]
-        lam = (
-            self.random_state.random_sample(base_vectors.shape).T
-            * (2 * (1 - weights[base_indices]))
-            - (1 - weights[base_indices])
-        ).T
-
-        samples = base_vectors + Q * lam
-
-        return samples
-
-    def determine_Q_and_weights(
-        self, X, y, X_min, nn_params
-    ):  # pylint: disable=invalid-name
-        """
-        Determine the Q value and the sampling weights.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            float, np.array: the Q value and the sampling weights
-        """
-        u, v, f, w = self.calculate_vectors(
-            X, y, X_min, nn_params
-        )  # pylint: disable=invalid-name
-
-        Q = self.determine_Q(X, X_min, nn_params)  # pylint: disable=invalid-name
-
-        # calculating the sensitivity factors
-        I_1 = self.eq_6_vectorized(
-            Q=Q, w=w, u=u, v=v, X=X_min
-        )  # pylint: disable=invalid-name
-        I_2 = self.eq_8_vectorized(
-            Q=Q, w=w, u=u, v=v, X=X_min
-        )  # pylint: disable=invalid-name
-
-        stsm = f**2 - 2 * f * I_1 + I_2
-
-        # calculating the sampling weights
-        stsm = np.abs(stsm)
-        weights = fix_density(stsm)
-
-        return Q, weights
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # number of samples to generate in each iteration
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        samp_per_iter = max([1, int(n_to_sample / self.n_iter)])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # executing the algorithm
-        for _ in range(self.n_iter):
-            X_min = X[y == self.min_label]
-
-            Q, weights = self.determine_Q_and_weights(  # pylint: disable=invalid-name
-                X, y, X_min, nn_params
-            )
-
-            samples = self.generate_samples(X_min, weights, Q, samp_per_iter)
-
-            X = np.vstack([X, samples])
-            y = np.hstack([y, np.repeat(self.min_label, len(samples))])
-
-        return X.copy(), y.copy()
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "h": self.h,
-            "n_iter": self.n_iter,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SSO method.
+"""
+
+import numpy as np
+
+from sklearn.cluster import KMeans
+from sklearn.linear_model import LinearRegression
+
+import scipy.special as sspecial
+
+from ..base import (
+    NearestNeighborsWithMetricTensor,
+    pairwise_distances_mahalanobis,
+    fix_density,
+)
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SSO"]
+
+
+class SSO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{sso,
+                            author="Rong, Tongwen
+                            and Gong, Huachang
+                            and Ng, Wing W. Y.",
+                            editor="Wang, Xizhao
+                            and Pedrycz, Witold
+                            and Chan, Patrick
+                            and He, Qiang",
+                            title="Stochastic Sensitivity Oversampling
+                                    Technique for Imbalanced Data",
+                            booktitle="Machine Learning and Cybernetics",
+                            year="2014",
+                            publisher="Springer Berlin Heidelberg",
+                            address="Berlin, Heidelberg",
+                            pages="161--171",
+                            isbn="978-3-662-45652-1"
+                            }
+
+    Notes:
+        * In the algorithm step 2d adds a constant to a vector. I have
+            changed it to a componentwise adjustment, and also used the
+            normalized STSM as I don't see any reason why it would be
+            some reasonable, bounded value.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_uses_clustering,
+        OverSampling.cat_density_based,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        h=10,  # pylint: disable=invalid-name
+        n_iter=5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            h (int): number of hidden units
+            n_iter (int): optimization steps
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(h, "h", 1)
+        self.check_greater_or_equal(n_iter, "n_iter", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = nn_params or {}
+        self.h = h  # pylint: disable=invalid-name
+        self.n_iter = n_iter
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5],
+            "h": [2, 5, 10, 20],
+            "n_iter": [5],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    # def eq_6(self, Q, w, u, v, x, h):
+    #    """
+    #    Equation 6 in the paper
+    #    """
+    #    tmp_sum = np.zeros(h)
+    #    for i in range(h):
+    #        a = (x - u[i] + Q)/np.sqrt(2*v[i])
+    #        b = (x - u[i] - Q)/np.sqrt(2*v[i])
+    #        tmp_prod = (sspecial.erf(a) - sspecial.erf(b))
+    #        tmp_sum[i] = np.sqrt(np.pi/2)*v[i]*np.prod(tmp_prod)
+    #    return np.dot(tmp_sum, w)/(2*Q)**len(x)
+
+    def eq_6_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
+        """
+        Vectorized implementation of Equation 6 in the paper
+
+        Args:
+            Q (np.array): the Q value
+            w (np.array): the w vector
+            u (np.array): the u vectors
+            v (np.array): the v vector
+            X (np.array): all training vectors
+
+        Returns:
+            np.array: eq. 6 for each X vector
+        """
+        tmp_a = (X[:, None] - u + Q) / np.sqrt(2 * v)[None, :, None]
+        tmp_b = (X[:, None] - u - Q) / np.sqrt(2 * v)[None, :, None]
+        tmp_prod = sspecial.erf(tmp_a) - sspecial.erf(tmp_b)
+        tmp_sum = np.sqrt(np.pi / 2.0) * v * np.prod(tmp_prod, axis=2)
+        result = np.dot(tmp_sum, w) / (2 * Q) ** X.shape[1]
+        return result
+
+    # def eq_8(self, Q, w, u, v, x, h):
+    #    """
+    #    Equation 8 in the paper
+    #    """
+    #    res = 0.0
+    #    for i in range(h):
+    #        vi2 = v[i]**2
+    #        for r in range(h):
+    #            vr2 = v[r]**2
+    #            a1 = (np.sqrt(2*vi2*vr2*(vi2 + vr2)))
+    #
+    #            a00_v = (vi2 + vr2)*(x + Q)
+    #            a01_v = vi2*u[r] + vr2*u[i]
+    #            a0_v = a00_v - a01_v
+    #            a_v = a0_v/a1
+    #
+    #            b_v = ((vi2 + vr2)*(x - Q) - (vi2*u[r] + vr2*u[i]))/a1
+    #            tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
+    #
+    #            tmp_a = (np.sqrt(2*vi2*vr2*(vi2 + vr2)) /
+    #                        (vi2 + vr2))**len(x)
+    #            norm = np.linalg.norm(u[r] - u[i])
+    #            tmp_b = np.exp(-0.5 * norm**2/(vi2 + vr2))
+    #
+    #            res = res + tmp_a*tmp_b*np.prod(tmp_prod)*w[i]*w[r]
+    #
+    #    return (np.sqrt(np.pi)/(4*Q))**len(x)*res
+
+    def eq_8_av_bv(self, *, Q, u, X, v2, vi_vr, a1):
+        """
+        Calculate the a_v and b_v arrays.
+
+        Args:
+            Q (np.array): the Q value
+            u (np.array): the u vectors
+            X (np.array): all training vectors
+            v2 (np.array): the squared v values
+            vi_vr (np.array): the cross sum of squared v values
+            a1 (np.array): the precalculated a1 term
+
+        Returns:
+            np.array: eq. 8 for each X vector
+        """
+
+        a00_v = vi_vr[:, :, None, None] * (X + Q)
+
+        tmp1 = np.repeat(v2, u.shape[0]).reshape(v2.shape[0], u.shape[0])[:, :, None]
+        tmp2 = np.array([u] * u.shape[0])
+
+        a01_v = u[:, None] * v2[:, None] + tmp2 * tmp1
+        a0_v = a00_v - a01_v[:, :, None]
+        a_v = a0_v / a1[:, :, None, None]
+
+        b_v = vi_vr[:, :, None, None] * (X - Q)
+        b_v = b_v - a01_v[:, :, None]
+        b_v = b_v / a1[:, :, None, None]
+
+        return a_v, b_v
+
+    def eq_8_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
+        """
+        Vectorized implementation of Equation 8 in the paper
+
+        Args:
+            Q (np.array): the Q value
+            w (np.array): the w vector
+            u (np.array): the u vectors
+            v (np.array): the v vector
+            X (np.array): all training vectors
+
+        Returns:
+            np.array: eq. 8 for each X vector
+        """
+        v2 = v**2.0  # pylint: disable=invalid-name
+
+        vi_vr = v2[:, None] + v2
+
+        a1 = np.sqrt(2.0 * (v2[:, None] * v2) * vi_vr)  # pylint: disable=invalid-name
+
+        a_v, b_v = self.eq_8_av_bv(Q=Q, u=u, X=X, v2=v2, vi_vr=vi_vr, a1=a1)
+
+        tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
+
+        tmp_a = (a1 / vi_vr) ** X.shape[1]
+
+        tmp_b = np.exp(-0.5 * np.linalg.norm(u[:, None] - u, axis=2) ** 2 / vi_vr)
+
+        result = (tmp_a * tmp_b * (w[:, None] * w))[:, :, None] * np.prod(
+            tmp_prod, axis=3
+        )
+
+        result = np.sum(np.sum(result, axis=0), axis=0)
+
+        result = (np.sqrt(np.pi) / (4 * Q)) ** X.shape[1] * result
+
+        return result
+
+    def calculate_vectors(self, X, y, X_min, nn_params):
+        """
+        Calculate the vectors used in the rest of the algorithm.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array: the u, v, f and w
+                                                    vectors
+        """
+        # applying kmeans clustering to find the hidden neurons
+        h = min([self.h, len(X_min)])  # pylint: disable=invalid-name
+        kmeans = KMeans(n_clusters=h, n_init='auto', random_state=self._random_state_init)
+        kmeans.fit(X)
+
+        # extracting the hidden center elements
+        u = kmeans.cluster_centers_  # pylint: disable=invalid-name
+
+        # extracting scale parameters as the distances of closest centers
+        nn_cent = NearestNeighborsWithMetricTensor(
+            n_neighbors=2, n_jobs=self.n_jobs, **nn_params
+        )
+        nn_cent.fit(u)
+        dist_cent, _ = nn_cent.kneighbors(u)
+        v = dist_cent[:, 1]  # pylint: disable=invalid-name
+
+        # computing the response of the hidden units
+        phi = pairwise_distances_mahalanobis(
+            X, Y=u, tensor=nn_params.get("metric_tensor", None)
+        )
+        phi = phi**2
+        phi = np.exp(-phi / v**2)
+
+        # applying linear regression to find the best weights
+        linreg = LinearRegression(n_jobs=self.n_jobs)
+        linreg.fit(phi, (y == self.min_label).astype(int))
+        f = linreg.predict(
+            phi[np.where(y == self.min_label)[0]]
+        )  # pylint: disable=invalid-name
+        w = linreg.coef_  # pylint: disable=invalid-name
+
+        return u, v, f, w
+
+    def determine_Q(self, X, X_min, nn_params):  # pylint: disable=invalid-name
+        """
+        Calculate the Q value.
+
+        Args:
+            X (np.array): all training vectors
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            float: the Q value
+        """
+        # applying nearest neighbors to extract Q values
+        n_neighbors = min([self.n_neighbors + 1, len(X)])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        dist, _ = nnmt.kneighbors(X_min)
+
+        Q = np.mean(dist[:, n_neighbors - 1]) / np.sqrt(  # pylint: disable=invalid-name
+            len(X[0])
+        )
+
+        return Q
+
+    def generate_samples(
+        self, X_min, weights, Q, samp_per_iter
+    ):  # pylint: disable=invalid-name
+        """
+        Generate samples.
+
+        Args:
+            X_min (np.array): the minority samples
+            weights (np.array): the density to be used
+            Q (float): the Q value
+            samp_per_iter (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        base_indices = self.random_state.choice(
+            np.arange(X_min.shape[0]), samp_per_iter, p=weights
+        )
+        base_vectors = X_min[base_indices]
+        lam = (
+            self.random_state.random_sample(base_vectors.shape).T
+            * (2 * (1 - weights[base_indices]))
+            - (1 - weights[base_indices])
+        ).T
+
+        samples = base_vectors + Q * lam
+
+        return samples
+
+    def determine_Q_and_weights(
+        self, X, y, X_min, nn_params
+    ):  # pylint: disable=invalid-name
+        """
+        Determine the Q value and the sampling weights.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            float, np.array: the Q value and the sampling weights
+        """
+        u, v, f, w = self.calculate_vectors(
+            X, y, X_min, nn_params
+        )  # pylint: disable=invalid-name
+
+        Q = self.determine_Q(X, X_min, nn_params)  # pylint: disable=invalid-name
+
+        # calculating the sensitivity factors
+        I_1 = self.eq_6_vectorized(
+            Q=Q, w=w, u=u, v=v, X=X_min
+        )  # pylint: disable=invalid-name
+        I_2 = self.eq_8_vectorized(
+            Q=Q, w=w, u=u, v=v, X=X_min
+        )  # pylint: disable=invalid-name
+
+        stsm = f**2 - 2 * f * I_1 + I_2
+
+        # calculating the sampling weights
+        stsm = np.abs(stsm)
+        weights = fix_density(stsm)
+
+        return Q, weights
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # number of samples to generate in each iteration
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        samp_per_iter = max([1, int(n_to_sample / self.n_iter)])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # executing the algorithm
+        for _ in range(self.n_iter):
+            X_min = X[y == self.min_label]
+
+            Q, weights = self.determine_Q_and_weights(  # pylint: disable=invalid-name
+                X, y, X_min, nn_params
+            )
+
+            samples = self.generate_samples(X_min, weights, Q, samp_per_iter)
+
+            X = np.vstack([X, samples])
+            y = np.hstack([y, np.repeat(self.min_label, len(samples))])
+
+        return X.copy(), y.copy()
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "h": self.h,
+            "n_iter": self.n_iter,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From 9b5d41b8e6542f5e75e429826a3481ed8d579bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 007/101] fix: SMOTE_IPF votes with the actual class labels

---
 smote_variants/oversampling/_smote_ipf.py | 457 +++++++++++-----------
 1 file changed, 232 insertions(+), 225 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index ff092ec..b14b32d 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -1,225 +1,232 @@
-"""
-This module implements the SMOTE_IPF method.
-"""
-
-import numpy as np
-
-from sklearn.model_selection import StratifiedKFold
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-from ..base import instantiate_obj
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMOTE_IPF"]
-
-
-class SMOTE_IPF(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{smote_ipf,
-                        title = "SMOTE–IPF: Addressing the noisy and borderline
-                                    examples problem in imbalanced
-                                    classification by a re-sampling method
-                                    with filtering",
-                        journal = "Information Sciences",
-                        volume = "291",
-                        pages = "184 - 203",
-                        year = "2015",
-                        issn = "0020-0255",
-                        doi = "https://doi.org/10.1016/j.ins.2014.08.051",
-                        author = "José A. Sáez and Julián Luengo and Jerzy
-                                    Stefanowski and Francisco Herrera",
-                        keywords = "Imbalanced classification,
-                                        Borderline examples,
-                                        Noisy data,
-                                        Noise filters,
-                                        SMOTE"
-                        }
-    """
-
-    categories = [
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_folds=9,
-        k=3,
-        p=0.01,
-        voting="majority",
-        classifier=("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            n_neighbors (int): number of neighbors in SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_folds (int): the number of partitions
-            k (int): used in stopping condition
-            p (float): percentage value ([0,1]) used in stopping condition
-            voting (str): 'majority'/'consensus'
-            classifier (obj): classifier object
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(n_folds, "n_folds", 2)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater_or_equal(p, "p", 0)
-        self.check_isin(voting, "voting", ["majority", "consensus"])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.params = {
-            "n_folds": n_folds,
-            "k": k,
-            "p": p,
-            "voting": voting,
-            "classifier": classifier,
-        }
-        self.classifier_obj = instantiate_obj(classifier)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        classifiers = [("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2})]
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7, 11, 17],
-            "n_folds": [9],
-            "k": [3],
-            "p": [0.01],
-            "voting": ["majority", "consensus"],
-            "classifier": classifiers,
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # do SMOTE sampling
-        X_samp, y_samp = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
-
-        condition = 0
-        while condition < self.params["k"]:
-            # validating the sampled dataset
-            validator = StratifiedKFold(n_folds)
-            predictions = []
-            for train_index, _ in validator.split(X_samp, y_samp):
-                self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp))
-
-            # do decision based on one of the voting schemes
-            if self.params["voting"] == "majority":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
-                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
-            elif self.params["voting"] == "consensus":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
-                sum_votes = np.sum(predictions, axis=0)
-                to_remove = np.where(
-                    np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
-                        np.equal(sum_votes, self.params["n_folds"]),
-                    )
-                )[0]
-
-            # delete samples incorrectly classified
-            _logger.info(
-                "%s: Removing %d elements", self.__class__.__name__, len(to_remove)
-            )
-            X_samp = np.delete(X_samp, to_remove, axis=0)
-            y_samp = np.delete(y_samp, to_remove)
-
-            # if the number of samples removed becomes small or k iterations
-            # were done quit
-            check = int(len(to_remove) < len(X_samp) * self.params["p"])
-            condition = (condition + 1) * check
-
-        return X_samp, y_samp
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_folds": self.params["n_folds"],
-            "k": self.params["k"],
-            "p": self.params["p"],
-            "voting": self.params["voting"],
-            "n_jobs": self.n_jobs,
-            "classifier": self.params["classifier"],
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SMOTE_IPF method.
+"""
+
+import numpy as np
+
+from sklearn.model_selection import StratifiedKFold
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+from ..base import instantiate_obj
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMOTE_IPF"]
+
+
+class SMOTE_IPF(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{smote_ipf,
+                        title = "SMOTE–IPF: Addressing the noisy and borderline
+                                    examples problem in imbalanced
+                                    classification by a re-sampling method
+                                    with filtering",
+                        journal = "Information Sciences",
+                        volume = "291",
+                        pages = "184 - 203",
+                        year = "2015",
+                        issn = "0020-0255",
+                        doi = "https://doi.org/10.1016/j.ins.2014.08.051",
+                        author = "José A. Sáez and Julián Luengo and Jerzy
+                                    Stefanowski and Francisco Herrera",
+                        keywords = "Imbalanced classification,
+                                        Borderline examples,
+                                        Noisy data,
+                                        Noise filters,
+                                        SMOTE"
+                        }
+    """
+
+    categories = [
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_folds=9,
+        k=3,
+        p=0.01,
+        voting="majority",
+        classifier=("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            n_neighbors (int): number of neighbors in SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_folds (int): the number of partitions
+            k (int): used in stopping condition
+            p (float): percentage value ([0,1]) used in stopping condition
+            voting (str): 'majority'/'consensus'
+            classifier (obj): classifier object
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(n_folds, "n_folds", 2)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater_or_equal(p, "p", 0)
+        self.check_isin(voting, "voting", ["majority", "consensus"])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.params = {
+            "n_folds": n_folds,
+            "k": k,
+            "p": p,
+            "voting": voting,
+            "classifier": classifier,
+        }
+        self.classifier_obj = instantiate_obj(classifier)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        classifiers = [("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2})]
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7, 11, 17],
+            "n_folds": [9],
+            "k": [3],
+            "p": [0.01],
+            "voting": ["majority", "consensus"],
+            "classifier": classifiers,
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # do SMOTE sampling
+        X_samp, y_samp = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
+
+        condition = 0
+        while condition < self.params["k"]:
+            # validating the sampled dataset
+            validator = StratifiedKFold(n_folds)
+            predictions = []
+            for train_index, _ in validator.split(X_samp, y_samp):
+                self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
+                predictions.append(self.classifier_obj.predict(X_samp))
+
+            # the votes on belonging to the minority class
+            min_votes = np.array(predictions) == self.min_label
+
+            # do decision based on one of the voting schemes
+            if self.params["voting"] == "majority":
+                pred_votes = np.where(
+                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
+                )
+                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
+            elif self.params["voting"] == "consensus":
+                pred_votes = np.where(
+                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
+                )
+                sum_votes = np.sum(min_votes, axis=0)
+                to_remove = np.where(
+                    np.logical_and(
+                        np.not_equal(pred_votes, y_samp),
+                        np.equal(sum_votes, self.params["n_folds"]),
+                    )
+                )[0]
+
+            # delete samples incorrectly classified
+            _logger.info(
+                "%s: Removing %d elements", self.__class__.__name__, len(to_remove)
+            )
+            X_samp = np.delete(X_samp, to_remove, axis=0)
+            y_samp = np.delete(y_samp, to_remove)
+
+            # if the number of samples removed becomes small or k iterations
+            # were done quit
+            check = int(len(to_remove) < len(X_samp) * self.params["p"])
+            condition = (condition + 1) * check
+
+        return X_samp, y_samp
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_folds": self.params["n_folds"],
+            "k": self.params["k"],
+            "p": self.params["p"],
+            "voting": self.params["voting"],
+            "n_jobs": self.n_jobs,
+            "classifier": self.params["classifier"],
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From e36050d0eb4fb83c1c2166cf066e0641dd32b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 008/101] fix: SMMO votes with the actual class labels

---
 smote_variants/oversampling/_smmo.py | 476 ++++++++++++++-------------
 1 file changed, 240 insertions(+), 236 deletions(-)

diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index 1815db8..a09dcc4 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -1,236 +1,240 @@
-"""
-This module implements the SMMO method.
-"""
-import warnings
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSamplingSimplex
-from ..base import instantiate_obj
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMMO"]
-
-
-class SMMO(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{smmo,
-                            author = {de la Calleja, Jorge and Fuentes, Olac
-                                        and González, Jesús},
-                            booktitle= {Proceedings of the Twenty-First
-                                        International Florida Artificial
-                                        Intelligence Research Society
-                                        Conference},
-                            year = {2008},
-                            month = {01},
-                            pages = {276-281},
-                            title = {Selecting Minority Examples from
-                                    Misclassified Data for Over-Sampling.}
-                            }
-
-    Notes:
-        * In this paper the ensemble is not specified. I have selected
-            some very fast, basic classifiers.
-        * Also, it is not clear what the authors mean by "weighted distance".
-        * The original technique is not prepared for the case when no minority
-            samples are classified correctly be the ensemble.
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_borderline,
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_classifier,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        ensemble=(
-            ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
-            ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-            ("sklearn.naive_bayes", "GaussianNB", {}),
-        ),
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): control parameter of the nearest neighbor
-                                component
-            ensemble (iterable): list of classifiers, if None, default list of
-                                classifiers is used
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.ensemble = ensemble
-        self.ensemble_objs = [instantiate_obj(e) for e in ensemble]
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        ensembles = [
-            [
-                ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
-                ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-                ("sklearn.naive_bayes", "GaussianNB", {}),
-            ]
-        ]
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "ensemble": ensembles,
-        }
-
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def generate_samples(self, X_min, ind, n_to_sample):
-        """
-        Generate the samples.
-
-        Args:
-            X_min (np.array): minority samples
-            ind (np.array): neighborhood structure
-            n_to_sample (int): number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        X_means = np.mean(X_min[ind[:, 1:]], axis=1)  # pylint: disable=invalid-name
-        base_indices = self.random_state.choice(
-            np.arange(X_means.shape[0]), n_to_sample
-        )
-        base_ind, base_counts = np.unique(base_indices, return_counts=True)
-        samples = []
-        for idx, index in enumerate(base_ind):
-            cluster = np.array([X_means[index]])
-            indices = np.array([np.hstack([np.array([0]), np.arange(len(cluster))])])
-            X_vertices = X_min[ind[index][indices[0]][1:]]
-            samples.append(
-                self.sample_simplex(
-                    X=cluster,
-                    indices=indices,
-                    n_to_sample=base_counts[idx],
-                    X_vertices=X_vertices,
-                )
-            )
-
-        samples = np.vstack(samples)
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # determine the number of samples to generate
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # training and in-sample prediction (out-of-sample by k-fold cross
-        # validation might be better)
-        predictions = []
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            for ens in self.ensemble_objs:
-                predictions.append(ens.fit(X, y).predict(X))
-
-        # constructing ensemble prediction
-        pred = np.where(np.mean(np.vstack(predictions), axis=0) > 0.5, 1, 0)
-
-        # create mask of minority samples to sample
-        mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
-        if len(mask_to_sample) < 2:
-            return self.return_copies(
-                X, y, "Not enough minority samples " f"selected {len(mask_to_sample)}"
-            )
-
-        X_min = X[y == self.min_label]
-        X_min_to_sample = X[mask_to_sample]  # pylint: disable=invalid-name
-
-        # fitting nearest neighbors model for sampling
-        n_neighbors = min([len(X_min), self.n_neighbors + 1])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X_min)
-        ind = nnmt.kneighbors(X_min_to_sample, return_distance=False)
-
-        samples = self.generate_samples(X_min, ind, n_to_sample)
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "ensemble": self.ensemble,
-            "nn_params": self.nn_params,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self, deep),
-        }
+"""
+This module implements the SMMO method.
+"""
+import warnings
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSamplingSimplex
+from ..base import instantiate_obj
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMMO"]
+
+
+class SMMO(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{smmo,
+                            author = {de la Calleja, Jorge and Fuentes, Olac
+                                        and González, Jesús},
+                            booktitle= {Proceedings of the Twenty-First
+                                        International Florida Artificial
+                                        Intelligence Research Society
+                                        Conference},
+                            year = {2008},
+                            month = {01},
+                            pages = {276-281},
+                            title = {Selecting Minority Examples from
+                                    Misclassified Data for Over-Sampling.}
+                            }
+
+    Notes:
+        * In this paper the ensemble is not specified. I have selected
+            some very fast, basic classifiers.
+        * Also, it is not clear what the authors mean by "weighted distance".
+        * The original technique is not prepared for the case when no minority
+            samples are classified correctly be the ensemble.
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_borderline,
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_classifier,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        ensemble=(
+            ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
+            ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+            ("sklearn.naive_bayes", "GaussianNB", {}),
+        ),
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): control parameter of the nearest neighbor
+                                component
+            ensemble (iterable): list of classifiers, if None, default list of
+                                classifiers is used
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.ensemble = ensemble
+        self.ensemble_objs = [instantiate_obj(e) for e in ensemble]
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        ensembles = [
+            [
+                ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
+                ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+                ("sklearn.naive_bayes", "GaussianNB", {}),
+            ]
+        ]
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "ensemble": ensembles,
+        }
+
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def generate_samples(self, X_min, ind, n_to_sample):
+        """
+        Generate the samples.
+
+        Args:
+            X_min (np.array): minority samples
+            ind (np.array): neighborhood structure
+            n_to_sample (int): number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        X_means = np.mean(X_min[ind[:, 1:]], axis=1)  # pylint: disable=invalid-name
+        base_indices = self.random_state.choice(
+            np.arange(X_means.shape[0]), n_to_sample
+        )
+        base_ind, base_counts = np.unique(base_indices, return_counts=True)
+        samples = []
+        for idx, index in enumerate(base_ind):
+            cluster = np.array([X_means[index]])
+            indices = np.array([np.hstack([np.array([0]), np.arange(len(cluster))])])
+            X_vertices = X_min[ind[index][indices[0]][1:]]
+            samples.append(
+                self.sample_simplex(
+                    X=cluster,
+                    indices=indices,
+                    n_to_sample=base_counts[idx],
+                    X_vertices=X_vertices,
+                )
+            )
+
+        samples = np.vstack(samples)
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # determine the number of samples to generate
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # training and in-sample prediction (out-of-sample by k-fold cross
+        # validation might be better)
+        predictions = []
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            for ens in self.ensemble_objs:
+                predictions.append(ens.fit(X, y).predict(X))
+
+        # constructing ensemble prediction
+        pred = np.where(
+            np.mean(np.vstack(predictions) == self.min_label, axis=0) > 0.5,
+            self.min_label,
+            self.maj_label,
+        )
+
+        # create mask of minority samples to sample
+        mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
+        if len(mask_to_sample) < 2:
+            return self.return_copies(
+                X, y, "Not enough minority samples " f"selected {len(mask_to_sample)}"
+            )
+
+        X_min = X[y == self.min_label]
+        X_min_to_sample = X[mask_to_sample]  # pylint: disable=invalid-name
+
+        # fitting nearest neighbors model for sampling
+        n_neighbors = min([len(X_min), self.n_neighbors + 1])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X_min)
+        ind = nnmt.kneighbors(X_min_to_sample, return_distance=False)
+
+        samples = self.generate_samples(X_min, ind, n_to_sample)
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "ensemble": self.ensemble,
+            "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self, deep),
+        }
-- 
2.43.0


From 134905980b6c401ff99f57740f11a17f03147334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 009/101] fix: SMOTE_PSO scores the minority probabilities
 against minority membership

---
 smote_variants/oversampling/_smote_pso.py | 1284 ++++++++++-----------
 1 file changed, 642 insertions(+), 642 deletions(-)

diff --git a/smote_variants/oversampling/_smote_pso.py b/smote_variants/oversampling/_smote_pso.py
index 71fb7f7..4a2985a 100755
--- a/smote_variants/oversampling/_smote_pso.py
+++ b/smote_variants/oversampling/_smote_pso.py
@@ -1,642 +1,642 @@
-"""
-This module implements the SMOTE_PSO method.
-"""
-
-import numpy as np
-
-from sklearn.svm import SVC
-from sklearn.preprocessing import StandardScaler
-from sklearn.metrics import roc_auc_score
-
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMOTE_PSO"]
-
-
-class SMOTE_PSO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{smote_pso,
-                        title = "PSO-based method for SVM classification on
-                                    skewed data sets",
-                        journal = "Neurocomputing",
-                        volume = "228",
-                        pages = "187 - 197",
-                        year = "2017",
-                        note = "Advanced Intelligent Computing: Theory and
-                                    Applications",
-                        issn = "0925-2312",
-                        doi = "https://doi.org/10.1016/j.neucom.2016.10.041",
-                        author = "Jair Cervantes and Farid Garcia-Lamont and
-                                    Lisbeth Rodriguez and Asdrúbal López and
-                                    José Ruiz Castilla and Adrian Trueba",
-                        keywords = "Skew data sets, SVM, Hybrid algorithms"
-                        }
-
-    Notes:
-        * I find the description of the technique a bit confusing, especially
-            on the bounds of the search space of velocities and positions.
-            Equations 15 and 16 specify the lower and upper bounds, the lower
-            bound is in fact a vector while the upper bound is a distance.
-            I tried to implement something meaningful.
-        * I also find the setting of accelerating constant 2.0 strange, most
-            of the time the velocity will be bounded due to this choice.
-        * Also, training and predicting probabilities with a non-linear
-            SVM as the evaluation function becomes fairly expensive when the
-            number of training vectors reaches a couple of thousands. To
-            reduce computational burden, minority and majority vectors far
-            from the other class are removed to reduce the size of both
-            classes to a maximum of 500 samples. Generally, this shouldn't
-            really affect the results as the technique focuses on the samples
-            near the class boundaries.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_memetic,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        k=3,
-        *,
-        nn_params=None,
-        eps=0.01,
-        n_pop=10,
-        w=1.0,
-        c1=2.0,
-        c2=2.0,
-        num_it=15,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            k (int): number of neighbors in nearest neighbors component, this
-                        is also the multiplication factor of minority support
-                        vectors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            eps (float): use to specify the initially generated support
-                            vectors along minority-majority lines
-            n_pop (int): size of population
-            w (float): intertia constant
-            c1 (float): acceleration constant of local optimum
-            c2 (float): acceleration constant of population optimum
-            num_it (int): number of iterations
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(eps, "eps", 0)
-        self.check_greater_or_equal(n_pop, "n_pop", 1)
-        self.check_greater_or_equal(w, "w", 0)
-        self.check_greater_or_equal(c1, "c1", 0)
-        self.check_greater_or_equal(c2, "c2", 0)
-        self.check_greater_or_equal(num_it, "num_it", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params or {}
-        self.params = {
-            "eps": eps,
-            "n_pop": n_pop,
-            "w": w,
-            "c1": c1,
-            "c2": c2,
-            "num_it": num_it,
-        }
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        return cls.generate_parameter_combinations(
-            {
-                "k": [3, 5, 7],
-                "eps": [0.01],
-                "n_pop": [5],
-                "w": [0.5, 1.0],
-                "c1": [1.0, 2.0],
-                "c2": [1.0, 2.0],
-                "num_it": [20],
-            },
-            raw,
-        )
-
-    # def remove_majority(self,
-    #                     performance_th,
-    #                     nn_params,
-    #                     X_scaled, # pylint: disable=invalid-name
-    #                     y):
-    #     """
-    #     Remove majority samples
-
-    #     Args:
-    #         performance_th (int): performance threshold
-    #         nn_params (dict): nearest neighbor parameters
-    #         X_scaled (np.array): scaled training vectors
-    #         y (np.array): target labels
-
-    #     Returns:
-    #         np.array, np.array: the filtered training vectors and target labels
-    #     """
-    #     n_maj_to_remove = np.sum(y == self.maj_label) - performance_th
-
-    #     if n_maj_to_remove <= 0:
-    #         return X_scaled, y
-
-    #     # if majority samples are to be removed
-    #     nnmt= NearestNeighborsWithMetricTensor(n_neighbors=1,
-    #                                             n_jobs=self.n_jobs,
-    #                                             **nn_params)
-    #     nnmt.fit(X_scaled[y == self.min_label])
-    #     dist, _ = nnmt.kneighbors(X_scaled)
-
-    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
-    #     dist = dist[y == self.maj_label]
-    #     dist = dist[dist[:, 0].argsort()[::-1]]
-
-    #     to_remove = dist[:, 1][:n_maj_to_remove]
-
-    #     # removing the samples
-    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
-    #     y = np.delete(y, to_remove)
-
-    #     return X_scaled, y
-
-    # def remove_minority(self,
-    #                     performance_th,
-    #                     nn_params,
-    #                     X_scaled, # pylint: disable=invalid-name
-    #                     y):
-    #     """
-    #     Remove minority samples
-
-    #     Args:
-    #         performance_th (int): performance threshold
-    #         nn_params (dict): nearest neighbor parameters
-    #         X_scaled (np.array): scaled training vectors
-    #         y (np.array): target labels
-
-    #     Returns:
-    #         np.array, np.array: the filtered training vectors and target labels
-    #     """
-
-    #     n_min_to_remove = np.sum(y == self.min_label) - performance_th
-
-    #     if n_min_to_remove <= 0:
-    #         return X_scaled, y
-
-    #     # if majority samples are to be removed
-    #     nnmt = NearestNeighborsWithMetricTensor(n_neighbors=1,
-    #                                             n_jobs=self.n_jobs,
-    #                                             **nn_params)
-    #     nnmt.fit(X_scaled[y == self.maj_label])
-
-    #     dist, _ = nnmt.kneighbors(X_scaled)
-    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
-    #     dist = dist[y == self.min_label]
-    #     dist = dist[dist[:, 0].argsort()[::-1]]
-
-    #     to_remove = dist[:, 1][:n_min_to_remove]
-
-    #     # removing the samples
-    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
-    #     y = np.delete(y, to_remove)
-
-    #     return X_scaled, y
-
-    def determine_support(self, X_scaled, y):  # pylint: disable=invalid-name
-        """
-        Find the support.
-
-        Args:
-            X_scaled (np.array): all training vectors
-            y (np.array): all target labels
-
-        Returns:
-            np.array, np.array: the minority and majority support vectors
-        """
-        # fitting SVM to extract initial support vectors
-        svc = SVC(
-            kernel="rbf",
-            probability=True,
-            gamma="auto",
-            random_state=self._random_state_init,
-        )
-        svc.fit(X_scaled, y)
-
-        # extracting the support vectors
-        SV_min = np.array(
-            [i for i in svc.support_ if y[i] == self.min_label]
-        )  # pylint: disable=invalid-name
-        SV_maj = np.array(
-            [i for i in svc.support_ if y[i] == self.maj_label]
-        )  # pylint: disable=invalid-name
-
-        X_SV_min = X_scaled[SV_min]  # pylint: disable=invalid-name
-        X_SV_maj = X_scaled[SV_maj]  # pylint: disable=invalid-name
-
-        return X_SV_min, X_SV_maj
-
-    def determine_indices(self, n_neighbors, nn_params, X_SV_maj, X_SV_min):
-        """
-        Determine the neighborhood relations.
-
-        Args:
-            n_neighbors (int): the number of neighbors to use
-            nn_params (dict): nearest neighbors parameters
-            X_SV_maj (np.array): majority vectors
-            X_SV_min (np.array): minority vectors
-
-        Returns:
-            np.array: indices
-        """
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X_SV_maj)
-        _, ind = nnmt.kneighbors(X_SV_min)
-
-        return ind
-
-    def initialize(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
-        """
-        Initialize the search
-
-        Args:
-            X_scaled (np.array): the scaled training vectors
-            y (np.array): the target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array: the minority generators,
-                                                    the search space,
-                                                    the initial velocities,
-                                                    and the search bounds
-        """
-        X_SV_min, X_SV_maj = self.determine_support(
-            X_scaled, y
-        )  # pylint: disable=invalid-name
-
-        # finding nearest majority support vectors
-        n_neighbors = np.min([X_SV_maj.shape[0], self.k])
-        ind = self.determine_indices(n_neighbors, nn_params, X_SV_maj, X_SV_min)
-
-        min_vector = X_SV_min[np.repeat(np.arange(len(X_SV_min)), n_neighbors)]
-        maj_vector = X_SV_maj[ind.flatten()]
-        upper_bound = X_SV_maj[ind[np.repeat(np.arange(len(X_SV_min)), n_neighbors), 0]]
-        init_velocity = self.params["eps"] * (maj_vector - min_vector)
-        X_min_gen = min_vector + init_velocity  # pylint: disable=invalid-name
-
-        search_bound = np.linalg.norm(min_vector - upper_bound, axis=1)
-
-        search_space = np.hstack([min_vector, maj_vector]).reshape(
-            min_vector.shape[0], 2, min_vector.shape[1]
-        )
-
-        return X_min_gen, search_space, search_bound, init_velocity
-
-    def evaluate(self, X_train, y_train, X_test, y_test):
-        """
-        Trains support vector classifier and evaluates it
-
-        Args:
-            X_train (np.array): training vectors
-            y_train (np.array): target labels
-            X_test (np.array): test vectors
-            y_test (np.array): test labels
-        """
-        svc = SVC(
-            kernel="rbf",
-            probability=True,
-            gamma="auto",
-            random_state=self._random_state_init,
-        )
-
-        svc.fit(X_train, y_train)
-        class_idx = np.where(svc.classes_ == self.min_label)[0][0]
-        y_pred = svc.predict_proba(X_test)[:, class_idx]
-        return roc_auc_score(y_test, y_pred)
-
-    def evaluate_particle(self, X_scaled, y, part):  # pylint: disable=invalid-name
-        """
-        Evaluate a particle.
-
-        Args:
-            X_scaled (np.array): the training vectors
-            y (np.array): the target labels
-            part (np.array): a particle
-        """
-        X_extended = np.vstack([X_scaled, part])  # pylint: disable=invalid-name
-        y_extended = np.hstack([y, np.repeat(self.min_label, len(part))])
-        return self.evaluate(X_extended, y_extended, X_scaled, y)
-
-    def update_velocities(
-        self, *, particle_swarm, velocities, search_bound, local_best, global_best
-    ):
-        """
-        Update the velocities.
-
-        Args:
-            particle_swarm (np.array): the particles
-            velocities (np.array): the velocities
-            search_bound (np.array): the search bounds
-            local_best (np.array): the local best results
-            global_best (np.array): the global best result
-
-        Returns:
-            list: the updated velocities
-        """
-        # update velocities
-        # for idx, part in enumerate(particle_swarm):
-        #    term_0 = self.params['w'] * velocities[idx]
-        #    rand = self.random_state.random_sample(2)
-        #    term_1 = self.params['c1'] * rand[0] * (local_best[idx] - part)
-        #    term_2 = self.params['c2'] * rand[1] * (global_best - part)
-        #
-        #    velocities[idx] = term_0 + term_1 + term_2
-        #    #velocities[idx] = term_0
-
-        term_0 = self.params["w"] * velocities
-        rand = self.random_state.random_sample((2, velocities.shape[0]))
-        term_1 = (
-            self.params["c1"] * (local_best - particle_swarm) * rand[0][:, None, None]
-        )
-        term_2 = (
-            self.params["c2"] * (global_best - particle_swarm) * rand[1][:, None, None]
-        )
-
-        velocities = term_0 + term_1 + term_2
-
-        velocity_norms = np.linalg.norm(velocities, axis=2)
-
-        mask = velocity_norms > search_bound[None, :] / 2.0
-
-        search_bounds = np.tile(search_bound[:, None], (velocity_norms.shape[0],)).T
-
-        multiplier = search_bounds[mask] / velocity_norms[mask] / 2.0
-
-        velocities[mask] = velocities[mask] * multiplier[:, None]
-
-        # bound velocities according to search space constraints
-        # for vel in velocities:
-        #    for idx, vel_idx in enumerate(vel):
-        #        v_i_norm = np.linalg.norm(vel_idx)
-        #        if v_i_norm > search_bound[idx]/2.0:
-        #            vel[idx] = vel_idx / v_i_norm * search_bound[idx] / 2.0
-
-        return velocities
-
-    def update_positions(self, particle_swarm, velocities, search_space, search_bound):
-        """
-        Update the positions.
-
-        Args:
-            particle_swarm (np.array): the particles
-            velocities (np.array): the velocities
-            search_space (np.array): the search space
-            search_bound (np.array): the search bounds
-
-        Returns:
-            np.array: the updated particle swarm
-        """
-        # update positions
-        particle_swarm = particle_swarm + velocities
-
-        trans_vectors = particle_swarm - search_space[:, 0][None, :, :]
-        trans_norm = np.linalg.norm(trans_vectors, axis=2)
-
-        mask = trans_norm > search_bound[None, :]
-
-        search_space_0 = np.tile(
-            search_space[:, 0][None, :, :], (particle_swarm.shape[0], 1, 1)
-        )
-
-        search_bounds = np.tile(search_bound, (particle_swarm.shape[0], 1))
-
-        multiplier = search_bounds[mask] / trans_norm[mask]
-
-        normed_trans = trans_vectors[mask] * multiplier[:, None]
-
-        particle_swarm[mask] = search_space_0[mask] + normed_trans
-
-        # for idx, part in enumerate(particle_swarm):
-        #    particle_swarm[idx] = particle_swarm[idx] + velocities[idx]
-
-        # bound positions according to search space constraints
-        # for part in particle_swarm:
-        #    for idx, p_idx in enumerate(part):
-        #        search_idx = search_space[idx]
-        #
-        #        trans_vector = p_idx - search_idx[0]
-        #        trans_norm = np.linalg.norm(trans_vector)
-        #
-        #        if trans_norm > search_idx[2]:
-        #            normed_trans = trans_vector / trans_norm
-        #            part[idx] = search_idx[0] + normed_trans * search_idx[2]
-
-        return particle_swarm
-
-    def update_scores(
-        self,
-        *,
-        X_scaled,
-        y,
-        particle_swarm,
-        local_best_scores,
-        local_best,
-        global_best_score,
-        global_best
-    ):
-        """
-        Evaluate and update the scores.
-
-        Args:
-            X_scaled (np.array): the training vectors
-            y (np.array): the target labels
-            particle_swarm (np.array): the particle swarm
-            local_best_scores (np.array): the local best scores
-            local_best (np.array): the local best particles
-            global_best_score (float): the global best score
-            global_best (obj): the globally best particle
-
-        Returns:
-            np.array, np.array, float, obj: the updated local best scores,
-                        local best, global best score and global best
-                        particle
-        """
-
-        scores = np.array(
-            [self.evaluate_particle(X_scaled, y, p) for p in particle_swarm]
-        )
-
-        local_mask = scores > local_best_scores
-        local_best_scores[local_mask] = scores[local_mask]
-        local_best[local_mask] = particle_swarm[local_mask]
-
-        max_idx = np.argmax(scores)
-        if scores[max_idx] > global_best_score:
-            global_best_score = scores[max_idx]
-            global_best = particle_swarm[max_idx]
-
-        # update best scores
-        # for idx, score in enumerate(scores):
-        #    if score > local_best_scores[idx]:
-        #        local_best_scores[idx] = score
-        #        local_best[idx] = particle_swarm[idx]
-        #    if score > global_best_score:
-        #        global_best_score = score
-        #        global_best = particle_swarm[idx]
-
-        return local_best_scores, local_best, global_best_score, global_best
-
-    def search(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
-        """
-        The optimization search.
-
-        Args:
-            X_scaled (np.array): the scaled training vectors
-            y (np.array): the target label
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array: the generated samples
-        """
-        X_min_gen, search_space, search_bound, init_velocity = self.initialize(
-            X_scaled, y, nn_params
-        )  # pylint: disable=invalid-name
-
-        # initializing the particle swarm and the particle and population level
-        # memory
-        particle_swarm = np.array([X_min_gen.copy()] * self.params["n_pop"])
-        velocities = np.array([init_velocity.copy()] * self.params["n_pop"])
-        local_best = np.array([X_min_gen.copy()] * self.params["n_pop"])
-        local_best_scores = np.array([0.0] * self.params["n_pop"])
-        global_best = X_min_gen.copy()
-        global_best_score = 0.0
-
-        for iteration in range(self.params["num_it"]):
-            _logger.info("%s: Iteration %d", self.__class__.__name__, iteration)
-            # evaluate population
-            (
-                local_best_scores,
-                local_best,
-                global_best_score,
-                global_best,
-            ) = self.update_scores(
-                X_scaled=X_scaled,
-                y=y,
-                particle_swarm=particle_swarm,
-                local_best_scores=local_best_scores,
-                local_best=local_best,
-                global_best_score=global_best_score,
-                global_best=global_best,
-            )
-
-            velocities = self.update_velocities(
-                particle_swarm=particle_swarm,
-                velocities=velocities,
-                search_bound=search_bound,
-                local_best=local_best,
-                global_best=global_best,
-            )
-
-            particle_swarm = self.update_positions(
-                particle_swarm, velocities, search_space, search_bound
-            )
-        return global_best
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        if np.sum(y == self.min_label) >= np.sum(y == self.maj_label):
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        # saving original dataset
-        X_orig = X
-        y_orig = y
-
-        # scaling the records
-        # mms = MinMaxScaler()
-        mms = StandardScaler()
-        X_scaled = mms.fit_transform(X)  # pylint: disable=invalid-name
-
-        # removing majority and minority samples far from the training data if
-        # needed to increase performance
-        # performance_th = 500
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_scaled, y
-        )
-
-        # X_scaled, y = self.remove_majority(performance_th, nn_params, X_scaled, y)
-
-        # X_scaled, y = self.remove_minority(performance_th, nn_params, X_scaled, y)
-
-        new_items = [np.zeros(shape=(0, X.shape[1]))]
-
-        while np.sum(y == self.min_label) < np.sum(y == self.maj_label):
-            global_best = self.search(X_scaled, y, nn_params)
-            new_items.append(global_best)
-            X_scaled = np.vstack(
-                [X_scaled, global_best]
-            )  # pylint: disable=invalid-name
-            y = np.hstack([y, np.repeat(self.min_label, len(global_best))])
-
-        X_new = np.vstack(new_items)
-        X_ret = np.vstack(
-            [X_orig, mms.inverse_transform(X_new)]
-        )  # pylint: disable=invalid-name
-        y_ret = np.hstack([y_orig, np.repeat(self.min_label, len(X_new))])
-
-        return (X_ret, y_ret)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "eps": self.params["eps"],
-            "n_pop": self.params["n_pop"],
-            "w": self.params["w"],
-            "c1": self.params["c1"],
-            "c2": self.params["c2"],
-            "num_it": self.params["num_it"],
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SMOTE_PSO method.
+"""
+
+import numpy as np
+
+from sklearn.svm import SVC
+from sklearn.preprocessing import StandardScaler
+from sklearn.metrics import roc_auc_score
+
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMOTE_PSO"]
+
+
+class SMOTE_PSO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{smote_pso,
+                        title = "PSO-based method for SVM classification on
+                                    skewed data sets",
+                        journal = "Neurocomputing",
+                        volume = "228",
+                        pages = "187 - 197",
+                        year = "2017",
+                        note = "Advanced Intelligent Computing: Theory and
+                                    Applications",
+                        issn = "0925-2312",
+                        doi = "https://doi.org/10.1016/j.neucom.2016.10.041",
+                        author = "Jair Cervantes and Farid Garcia-Lamont and
+                                    Lisbeth Rodriguez and Asdrúbal López and
+                                    José Ruiz Castilla and Adrian Trueba",
+                        keywords = "Skew data sets, SVM, Hybrid algorithms"
+                        }
+
+    Notes:
+        * I find the description of the technique a bit confusing, especially
+            on the bounds of the search space of velocities and positions.
+            Equations 15 and 16 specify the lower and upper bounds, the lower
+            bound is in fact a vector while the upper bound is a distance.
+            I tried to implement something meaningful.
+        * I also find the setting of accelerating constant 2.0 strange, most
+            of the time the velocity will be bounded due to this choice.
+        * Also, training and predicting probabilities with a non-linear
+            SVM as the evaluation function becomes fairly expensive when the
+            number of training vectors reaches a couple of thousands. To
+            reduce computational burden, minority and majority vectors far
+            from the other class are removed to reduce the size of both
+            classes to a maximum of 500 samples. Generally, this shouldn't
+            really affect the results as the technique focuses on the samples
+            near the class boundaries.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_memetic,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        k=3,
+        *,
+        nn_params=None,
+        eps=0.01,
+        n_pop=10,
+        w=1.0,
+        c1=2.0,
+        c2=2.0,
+        num_it=15,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            k (int): number of neighbors in nearest neighbors component, this
+                        is also the multiplication factor of minority support
+                        vectors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            eps (float): use to specify the initially generated support
+                            vectors along minority-majority lines
+            n_pop (int): size of population
+            w (float): intertia constant
+            c1 (float): acceleration constant of local optimum
+            c2 (float): acceleration constant of population optimum
+            num_it (int): number of iterations
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(eps, "eps", 0)
+        self.check_greater_or_equal(n_pop, "n_pop", 1)
+        self.check_greater_or_equal(w, "w", 0)
+        self.check_greater_or_equal(c1, "c1", 0)
+        self.check_greater_or_equal(c2, "c2", 0)
+        self.check_greater_or_equal(num_it, "num_it", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params or {}
+        self.params = {
+            "eps": eps,
+            "n_pop": n_pop,
+            "w": w,
+            "c1": c1,
+            "c2": c2,
+            "num_it": num_it,
+        }
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        return cls.generate_parameter_combinations(
+            {
+                "k": [3, 5, 7],
+                "eps": [0.01],
+                "n_pop": [5],
+                "w": [0.5, 1.0],
+                "c1": [1.0, 2.0],
+                "c2": [1.0, 2.0],
+                "num_it": [20],
+            },
+            raw,
+        )
+
+    # def remove_majority(self,
+    #                     performance_th,
+    #                     nn_params,
+    #                     X_scaled, # pylint: disable=invalid-name
+    #                     y):
+    #     """
+    #     Remove majority samples
+
+    #     Args:
+    #         performance_th (int): performance threshold
+    #         nn_params (dict): nearest neighbor parameters
+    #         X_scaled (np.array): scaled training vectors
+    #         y (np.array): target labels
+
+    #     Returns:
+    #         np.array, np.array: the filtered training vectors and target labels
+    #     """
+    #     n_maj_to_remove = np.sum(y == self.maj_label) - performance_th
+
+    #     if n_maj_to_remove <= 0:
+    #         return X_scaled, y
+
+    #     # if majority samples are to be removed
+    #     nnmt= NearestNeighborsWithMetricTensor(n_neighbors=1,
+    #                                             n_jobs=self.n_jobs,
+    #                                             **nn_params)
+    #     nnmt.fit(X_scaled[y == self.min_label])
+    #     dist, _ = nnmt.kneighbors(X_scaled)
+
+    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
+    #     dist = dist[y == self.maj_label]
+    #     dist = dist[dist[:, 0].argsort()[::-1]]
+
+    #     to_remove = dist[:, 1][:n_maj_to_remove]
+
+    #     # removing the samples
+    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
+    #     y = np.delete(y, to_remove)
+
+    #     return X_scaled, y
+
+    # def remove_minority(self,
+    #                     performance_th,
+    #                     nn_params,
+    #                     X_scaled, # pylint: disable=invalid-name
+    #                     y):
+    #     """
+    #     Remove minority samples
+
+    #     Args:
+    #         performance_th (int): performance threshold
+    #         nn_params (dict): nearest neighbor parameters
+    #         X_scaled (np.array): scaled training vectors
+    #         y (np.array): target labels
+
+    #     Returns:
+    #         np.array, np.array: the filtered training vectors and target labels
+    #     """
+
+    #     n_min_to_remove = np.sum(y == self.min_label) - performance_th
+
+    #     if n_min_to_remove <= 0:
+    #         return X_scaled, y
+
+    #     # if majority samples are to be removed
+    #     nnmt = NearestNeighborsWithMetricTensor(n_neighbors=1,
+    #                                             n_jobs=self.n_jobs,
+    #                                             **nn_params)
+    #     nnmt.fit(X_scaled[y == self.maj_label])
+
+    #     dist, _ = nnmt.kneighbors(X_scaled)
+    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
+    #     dist = dist[y == self.min_label]
+    #     dist = dist[dist[:, 0].argsort()[::-1]]
+
+    #     to_remove = dist[:, 1][:n_min_to_remove]
+
+    #     # removing the samples
+    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
+    #     y = np.delete(y, to_remove)
+
+    #     return X_scaled, y
+
+    def determine_support(self, X_scaled, y):  # pylint: disable=invalid-name
+        """
+        Find the support.
+
+        Args:
+            X_scaled (np.array): all training vectors
+            y (np.array): all target labels
+
+        Returns:
+            np.array, np.array: the minority and majority support vectors
+        """
+        # fitting SVM to extract initial support vectors
+        svc = SVC(
+            kernel="rbf",
+            probability=True,
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+        svc.fit(X_scaled, y)
+
+        # extracting the support vectors
+        SV_min = np.array(
+            [i for i in svc.support_ if y[i] == self.min_label]
+        )  # pylint: disable=invalid-name
+        SV_maj = np.array(
+            [i for i in svc.support_ if y[i] == self.maj_label]
+        )  # pylint: disable=invalid-name
+
+        X_SV_min = X_scaled[SV_min]  # pylint: disable=invalid-name
+        X_SV_maj = X_scaled[SV_maj]  # pylint: disable=invalid-name
+
+        return X_SV_min, X_SV_maj
+
+    def determine_indices(self, n_neighbors, nn_params, X_SV_maj, X_SV_min):
+        """
+        Determine the neighborhood relations.
+
+        Args:
+            n_neighbors (int): the number of neighbors to use
+            nn_params (dict): nearest neighbors parameters
+            X_SV_maj (np.array): majority vectors
+            X_SV_min (np.array): minority vectors
+
+        Returns:
+            np.array: indices
+        """
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X_SV_maj)
+        _, ind = nnmt.kneighbors(X_SV_min)
+
+        return ind
+
+    def initialize(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
+        """
+        Initialize the search
+
+        Args:
+            X_scaled (np.array): the scaled training vectors
+            y (np.array): the target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array: the minority generators,
+                                                    the search space,
+                                                    the initial velocities,
+                                                    and the search bounds
+        """
+        X_SV_min, X_SV_maj = self.determine_support(
+            X_scaled, y
+        )  # pylint: disable=invalid-name
+
+        # finding nearest majority support vectors
+        n_neighbors = np.min([X_SV_maj.shape[0], self.k])
+        ind = self.determine_indices(n_neighbors, nn_params, X_SV_maj, X_SV_min)
+
+        min_vector = X_SV_min[np.repeat(np.arange(len(X_SV_min)), n_neighbors)]
+        maj_vector = X_SV_maj[ind.flatten()]
+        upper_bound = X_SV_maj[ind[np.repeat(np.arange(len(X_SV_min)), n_neighbors), 0]]
+        init_velocity = self.params["eps"] * (maj_vector - min_vector)
+        X_min_gen = min_vector + init_velocity  # pylint: disable=invalid-name
+
+        search_bound = np.linalg.norm(min_vector - upper_bound, axis=1)
+
+        search_space = np.hstack([min_vector, maj_vector]).reshape(
+            min_vector.shape[0], 2, min_vector.shape[1]
+        )
+
+        return X_min_gen, search_space, search_bound, init_velocity
+
+    def evaluate(self, X_train, y_train, X_test, y_test):
+        """
+        Trains support vector classifier and evaluates it
+
+        Args:
+            X_train (np.array): training vectors
+            y_train (np.array): target labels
+            X_test (np.array): test vectors
+            y_test (np.array): test labels
+        """
+        svc = SVC(
+            kernel="rbf",
+            probability=True,
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+
+        svc.fit(X_train, y_train)
+        class_idx = np.where(svc.classes_ == self.min_label)[0][0]
+        y_pred = svc.predict_proba(X_test)[:, class_idx]
+        return roc_auc_score(y_test == self.min_label, y_pred)
+
+    def evaluate_particle(self, X_scaled, y, part):  # pylint: disable=invalid-name
+        """
+        Evaluate a particle.
+
+        Args:
+            X_scaled (np.array): the training vectors
+            y (np.array): the target labels
+            part (np.array): a particle
+        """
+        X_extended = np.vstack([X_scaled, part])  # pylint: disable=invalid-name
+        y_extended = np.hstack([y, np.repeat(self.min_label, len(part))])
+        return self.evaluate(X_extended, y_extended, X_scaled, y)
+
+    def update_velocities(
+        self, *, particle_swarm, velocities, search_bound, local_best, global_best
+    ):
+        """
+        Update the velocities.
+
+        Args:
+            particle_swarm (np.array): the particles
+            velocities (np.array): the velocities
+            search_bound (np.array): the search bounds
+            local_best (np.array): the local best results
+            global_best (np.array): the global best result
+
+        Returns:
+            list: the updated velocities
+        """
+        # update velocities
+        # for idx, part in enumerate(particle_swarm):
+        #    term_0 = self.params['w'] * velocities[idx]
+        #    rand = self.random_state.random_sample(2)
+        #    term_1 = self.params['c1'] * rand[0] * (local_best[idx] - part)
+        #    term_2 = self.params['c2'] * rand[1] * (global_best - part)
+        #
+        #    velocities[idx] = term_0 + term_1 + term_2
+        #    #velocities[idx] = term_0
+
+        term_0 = self.params["w"] * velocities
+        rand = self.random_state.random_sample((2, velocities.shape[0]))
+        term_1 = (
+            self.params["c1"] * (local_best - particle_swarm) * rand[0][:, None, None]
+        )
+        term_2 = (
+            self.params["c2"] * (global_best - particle_swarm) * rand[1][:, None, None]
+        )
+
+        velocities = term_0 + term_1 + term_2
+
+        velocity_norms = np.linalg.norm(velocities, axis=2)
+
+        mask = velocity_norms > search_bound[None, :] / 2.0
+
+        search_bounds = np.tile(search_bound[:, None], (velocity_norms.shape[0],)).T
+
+        multiplier = search_bounds[mask] / velocity_norms[mask] / 2.0
+
+        velocities[mask] = velocities[mask] * multiplier[:, None]
+
+        # bound velocities according to search space constraints
+        # for vel in velocities:
+        #    for idx, vel_idx in enumerate(vel):
+        #        v_i_norm = np.linalg.norm(vel_idx)
+        #        if v_i_norm > search_bound[idx]/2.0:
+        #            vel[idx] = vel_idx / v_i_norm * search_bound[idx] / 2.0
+
+        return velocities
+
+    def update_positions(self, particle_swarm, velocities, search_space, search_bound):
+        """
+        Update the positions.
+
+        Args:
+            particle_swarm (np.array): the particles
+            velocities (np.array): the velocities
+            search_space (np.array): the search space
+            search_bound (np.array): the search bounds
+
+        Returns:
+            np.array: the updated particle swarm
+        """
+        # update positions
+        particle_swarm = particle_swarm + velocities
+
+        trans_vectors = particle_swarm - search_space[:, 0][None, :, :]
+        trans_norm = np.linalg.norm(trans_vectors, axis=2)
+
+        mask = trans_norm > search_bound[None, :]
+
+        search_space_0 = np.tile(
+            search_space[:, 0][None, :, :], (particle_swarm.shape[0], 1, 1)
+        )
+
+        search_bounds = np.tile(search_bound, (particle_swarm.shape[0], 1))
+
+        multiplier = search_bounds[mask] / trans_norm[mask]
+
+        normed_trans = trans_vectors[mask] * multiplier[:, None]
+
+        particle_swarm[mask] = search_space_0[mask] + normed_trans
+
+        # for idx, part in enumerate(particle_swarm):
+        #    particle_swarm[idx] = particle_swarm[idx] + velocities[idx]
+
+        # bound positions according to search space constraints
+        # for part in particle_swarm:
+        #    for idx, p_idx in enumerate(part):
+        #        search_idx = search_space[idx]
+        #
+        #        trans_vector = p_idx - search_idx[0]
+        #        trans_norm = np.linalg.norm(trans_vector)
+        #
+        #        if trans_norm > search_idx[2]:
+        #            normed_trans = trans_vector / trans_norm
+        #            part[idx] = search_idx[0] + normed_trans * search_idx[2]
+
+        return particle_swarm
+
+    def update_scores(
+        self,
+        *,
+        X_scaled,
+        y,
+        particle_swarm,
+        local_best_scores,
+        local_best,
+        global_best_score,
+        global_best
+    ):
+        """
+        Evaluate and update the scores.
+
+        Args:
+            X_scaled (np.array): the training vectors
+            y (np.array): the target labels
+            particle_swarm (np.array): the particle swarm
+            local_best_scores (np.array): the local best scores
+            local_best (np.array): the local best particles
+            global_best_score (float): the global best score
+            global_best (obj): the globally best particle
+
+        Returns:
+            np.array, np.array, float, obj: the updated local best scores,
+                        local best, global best score and global best
+                        particle
+        """
+
+        scores = np.array(
+            [self.evaluate_particle(X_scaled, y, p) for p in particle_swarm]
+        )
+
+        local_mask = scores > local_best_scores
+        local_best_scores[local_mask] = scores[local_mask]
+        local_best[local_mask] = particle_swarm[local_mask]
+
+        max_idx = np.argmax(scores)
+        if scores[max_idx] > global_best_score:
+            global_best_score = scores[max_idx]
+            global_best = particle_swarm[max_idx]
+
+        # update best scores
+        # for idx, score in enumerate(scores):
+        #    if score > local_best_scores[idx]:
+        #        local_best_scores[idx] = score
+        #        local_best[idx] = particle_swarm[idx]
+        #    if score > global_best_score:
+        #        global_best_score = score
+        #        global_best = particle_swarm[idx]
+
+        return local_best_scores, local_best, global_best_score, global_best
+
+    def search(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
+        """
+        The optimization search.
+
+        Args:
+            X_scaled (np.array): the scaled training vectors
+            y (np.array): the target label
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array: the generated samples
+        """
+        X_min_gen, search_space, search_bound, init_velocity = self.initialize(
+            X_scaled, y, nn_params
+        )  # pylint: disable=invalid-name
+
+        # initializing the particle swarm and the particle and population level
+        # memory
+        particle_swarm = np.array([X_min_gen.copy()] * self.params["n_pop"])
+        velocities = np.array([init_velocity.copy()] * self.params["n_pop"])
+        local_best = np.array([X_min_gen.copy()] * self.params["n_pop"])
+        local_best_scores = np.array([0.0] * self.params["n_pop"])
+        global_best = X_min_gen.copy()
+        global_best_score = 0.0
+
+        for iteration in range(self.params["num_it"]):
+            _logger.info("%s: Iteration %d", self.__class__.__name__, iteration)
+            # evaluate population
+            (
+                local_best_scores,
+                local_best,
+                global_best_score,
+                global_best,
+            ) = self.update_scores(
+                X_scaled=X_scaled,
+                y=y,
+                particle_swarm=particle_swarm,
+                local_best_scores=local_best_scores,
+                local_best=local_best,
+                global_best_score=global_best_score,
+                global_best=global_best,
+            )
+
+            velocities = self.update_velocities(
+                particle_swarm=particle_swarm,
+                velocities=velocities,
+                search_bound=search_bound,
+                local_best=local_best,
+                global_best=global_best,
+            )
+
+            particle_swarm = self.update_positions(
+                particle_swarm, velocities, search_space, search_bound
+            )
+        return global_best
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        if np.sum(y == self.min_label) >= np.sum(y == self.maj_label):
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        # saving original dataset
+        X_orig = X
+        y_orig = y
+
+        # scaling the records
+        # mms = MinMaxScaler()
+        mms = StandardScaler()
+        X_scaled = mms.fit_transform(X)  # pylint: disable=invalid-name
+
+        # removing majority and minority samples far from the training data if
+        # needed to increase performance
+        # performance_th = 500
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_scaled, y
+        )
+
+        # X_scaled, y = self.remove_majority(performance_th, nn_params, X_scaled, y)
+
+        # X_scaled, y = self.remove_minority(performance_th, nn_params, X_scaled, y)
+
+        new_items = [np.zeros(shape=(0, X.shape[1]))]
+
+        while np.sum(y == self.min_label) < np.sum(y == self.maj_label):
+            global_best = self.search(X_scaled, y, nn_params)
+            new_items.append(global_best)
+            X_scaled = np.vstack(
+                [X_scaled, global_best]
+            )  # pylint: disable=invalid-name
+            y = np.hstack([y, np.repeat(self.min_label, len(global_best))])
+
+        X_new = np.vstack(new_items)
+        X_ret = np.vstack(
+            [X_orig, mms.inverse_transform(X_new)]
+        )  # pylint: disable=invalid-name
+        y_ret = np.hstack([y_orig, np.repeat(self.min_label, len(X_new))])
+
+        return (X_ret, y_ret)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "eps": self.params["eps"],
+            "n_pop": self.params["n_pop"],
+            "w": self.params["w"],
+            "c1": self.params["c1"],
+            "c2": self.params["c2"],
+            "num_it": self.params["num_it"],
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From f5877fec98084c2eeea93c68610f0a07dc0f22b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 010/101] fix: the cov_min metric uses the actual minority
 class

---
 smote_variants/base/_metrictensor.py | 1682 +++++++++++++-------------
 1 file changed, 842 insertions(+), 840 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..e470542 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -1,840 +1,842 @@
-"""
-This module contains all experimental and stable functionalities related
-to metric learning.
-"""
-import warnings
-
-import numpy as np
-
-from sklearn.neighbors import NearestNeighbors
-from sklearn.linear_model import LinearRegression
-from sklearn.feature_selection import mutual_info_regression
-
-from scipy.stats import rankdata
-
-from metric_learn import ITML_Supervised, LSML_Supervised, NCA
-
-from ..config import distance_matrix_max_memory_chunk
-from ._base import instantiate_obj, coalesce
-from .._logger import logger
-
-_logger = logger
-
-__all__ = [
-    "NearestNeighborsWithMetricTensor",
-    "ClassifierImpliedDissimilarityMatrix",
-    "MetricTensor",
-    "MetricLearningMixin",
-    "pairwise_distances_mahalanobis",
-    "distances_mahalanobis",
-    "fix_pd_matrix",
-    "reverse_matrix",
-    "construct_tensor",
-    "ClosestNeighborsInClasses",
-    "RemoveCorrelatedColumns",
-    "discrete_variable_mask",
-    "estimate_mutual_information",
-    "n_neighbors_func",
-    "psd_mean",
-]
-
-
-def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
-    """
-    Returns the pairwise distances of two arrays of vectors using the
-    provided metric tensor matrix. If no Y paramter is provided, the
-    distance matrix of the paramter X is returned.
-
-    Args:
-        X (np.array): array of vectors to calculate distances for
-        Y (np.array/None): optional second array of vectors
-        tensor (np.array): the metric tensor to be used
-        optimized (np.array): optimization for Eulidean tensors
-
-    Returns:
-        np.array: the distance matrix
-    """
-
-    if Y is None:
-        Y = X
-
-    max_mem = distance_matrix_max_memory_chunk()
-
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
-        row_block_size = int(
-            np.floor(
-                X.shape[0]
-                / int(np.ceil(X.shape[0] * X.shape[1] * Y.shape[0] / max_mem))
-            )
-        )
-        row_block_size = np.max([row_block_size, 1])
-
-        row_blocks = []
-        start = 0
-        while start < X.shape[0]:
-            end = np.min([start + row_block_size, X.shape[0]])
-            row_blocks.append(
-                pairwise_distances_mahalanobis(
-                    X[start:end], Y=Y, tensor=tensor, optimized=optimized
-                )
-            )
-            start = start + row_block_size
-
-        return np.vstack(row_blocks)
-
-    if tensor is None or np.allclose(tensor, np.eye(X.shape[1])):
-        # this original implementation can become very slow for high dimensional data
-        if optimized:
-            return np.sqrt(np.sum((X[:, None] - Y) ** 2, axis=-1))
-
-        tensor = np.eye(X.shape[1])
-
-    tmp = X[:, None] - Y
-
-    return np.sqrt(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp))
-
-
-def distances_mahalanobis(X, Y, tensor=None):
-    """
-    Returns the distances of the corresponding vectors.
-
-    Args:
-        X (np.array): array of vectors
-        Y (np.array): another array of vectors
-        tensor (np.array): the metric tensor to be used
-
-    Returns:
-        np.array: the distances
-    """
-    if tensor is None:
-        tensor = np.eye(X.shape[1])
-    tmp = X - Y
-    return np.sqrt(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp))
-
-
-def fix_pd_matrix(matrix, eps=1e-4):
-    """
-    Fix a positive definite matrix
-
-    Args:
-        matrix (np.array): the matrix to be fixed
-        eps (float): the tolerance
-
-    Returns:
-        np.array: the fixed matrix
-    """
-    eigv, eigw = np.linalg.eigh(matrix)
-    eigv = np.real(eigv)
-    eigw = np.real(eigw)
-    eigv[eigv <= eps] = eps
-    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
-    return matrix
-
-
-def reverse_matrix(matrix):
-    """
-    Reverse the order of eigenvalues.
-
-    Args:
-        matrix (np.array): the matrix to transform
-
-    Returns:
-        np.array: the transformed matrix
-    """
-    eigv, eigw = np.linalg.eigh(matrix)
-    eigv = eigv[np.argsort(eigv)[len(eigv) - rankdata(eigv).astype(int)]]
-    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
-    return matrix
-
-
-def create_metric_tensor(n_dims, tu_indices, elements):
-    """
-    Create metric tensor from upper triangle matrix elements.
-
-    Args:
-         n_dims (int): dimensionality
-         tu_indices (np.array): indices of the upper triangle
-         elements (np.array): the values corresponding to the indices
-
-    Returns:
-        np.array: the constructed distance matrix
-    """
-    # creating the metric tensor
-    dist = np.zeros((n_dims, n_dims))
-    # injecting the regressed coefficients into the upper triangle
-    dist[tu_indices] = elements
-    # copying by transposing
-    dist = dist + dist.T
-    # halving the elements in the main diagonal due to duplication
-    dist[np.diag_indices(n_dims)] = np.diag(dist) / 2
-    # creating a valid positive definite matrix
-    dist = fix_pd_matrix(dist)
-
-    return dist
-
-
-def construct_tensor(X, dissim_matrix):
-    """
-    Construct tensor from dissimilarity matrix.
-
-    Args:
-        X (np.array): the data to use
-        dissim_matrix (np.array): the dissimilarity matrix
-
-    Returns:
-        np.array: the metric tensor
-    """
-
-    # pre-calculating some triangle indices
-    X_tu_indices = np.triu_indices(X.shape[0], k=0)
-    d_tu_indices_0 = np.triu_indices(X.shape[1], k=0)
-    d_tu_indices_1 = np.triu_indices(X.shape[1], k=1)
-
-    n_upper, n_d = len(X_tu_indices[0]), len(d_tu_indices_0[0])
-
-    # calculating the cross differences and extracting the upper triangle into
-    # a row-major representation
-    cross_diff_all = (X[:, None] - X)[X_tu_indices]
-
-    # if the total number of pairs with distances is much greater than the
-    # number of free components of the metric tensor, the samples prepared for
-    # regression are sampled for efficiency
-    mask = np.repeat(True, len(cross_diff_all))
-    if n_upper > n_d * 100:
-        rng = np.arange(n_upper)
-        mask[np.random.RandomState(5).permutation(rng)[n_d * 100 :]] = False
-
-    # preparing the dissimilarity values for regression
-    y_target = dissim_matrix[(X_tu_indices[0][mask], X_tu_indices[1][mask])] ** 2
-
-    # calculating the cross product of components for each pair in the cross
-    # difference matrix
-    cross_diff_all = cross_diff_all[mask]
-    cross_diff_cross_products = np.einsum(
-        "...i,...j->...ij", cross_diff_all, cross_diff_all
-    )
-
-    # adjustment due to extracting the upper triangle only
-    cross_diff_cross_products[:, d_tu_indices_1[0], d_tu_indices_1[1]] *= 2
-
-    # preparing the components of the cross products of pairwise distances
-    # for regression
-    X_target = cross_diff_cross_products[:, d_tu_indices_0[0], d_tu_indices_0[1]]
-
-    # calculating the elements of the metric tensor by regression
-    linearr = LinearRegression(fit_intercept=False).fit(X_target, y_target)
-
-    # creating the metric tensor
-    metric_tensor = create_metric_tensor(X.shape[1], d_tu_indices_0, linearr.coef_)
-
-    return metric_tensor, linearr.score(X_target, y_target)
-
-
-class ClassifierImpliedDissimilarityMatrix:
-    """
-    Computes classifier implied dissimilarity matrix
-    """
-
-    def __init__(
-        self,
-        classifier=("sklearn.ensemble", "RandomForestClassifier"),
-        classifier_params=None,
-    ):
-        """
-        Constructor of the object
-
-        Args:
-            classifier (str): name of a classifier class (available in sklearn)
-            classifier_params (dict): parameters of the classifier
-        """
-        self.classifier = classifier
-        if classifier_params is None:
-            classifier_params = {
-                "n_estimators": 100,
-                "min_samples_leaf": 2,
-                "random_state": 5,
-            }
-        self.classifier_params = classifier_params
-        self.classifier_obj = None
-        self.terminal_nodes = None
-
-    def get_params(self):
-        """
-        The parameters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {
-            "classifier": self.classifier,
-            "classifier_params": self.classifier_params,
-        }
-
-    def fit(self, X, y):
-        """
-        Fit the object.
-
-        Args:
-            X (np.array): the X vectors
-            y (np.array): the target vectors
-
-        Returns:
-            ClassifierImpliedDissimilarityMatrix: the fitted object
-        """
-        _logger.info("%s: fitting", self.__class__.__name__)
-        self.classifier_obj = instantiate_obj(
-            (self.classifier[0], self.classifier[1], self.classifier_params)
-        )
-        self.classifier_obj.fit(X, y)
-        return self
-
-    def transform_kneighbors(self, X):
-        """
-        Transform using kneighbors.
-
-        Args:
-            X (np.array): the vectors to transform
-
-        Returns:
-            np.array: the transformed vectors
-        """
-        _logger.info("%s: transform kneighbors", self.__class__.__name__)
-        tnodes = self.classifier_obj.apply(X)
-        tmp_nodes = np.vstack([self.terminal_nodes, tnodes])
-
-        def func(vector):
-            return 1 * np.equal.outer(vector, vector)[-len(tnodes) :][:, : -len(tnodes)]
-
-        results = 1.0 - np.apply_along_axis(func, 0, tmp_nodes)
-        results = results.sum(axis=2) / tmp_nodes.shape[1]
-
-        return results
-
-    def dissimilarity_matrix(self, X):
-        """
-        Calculates the dissimilarity matrix, if y is None, then uses the
-        already fitted model. First needs to be called with valid y vector.
-
-        Args:
-            X (np.ndarray): explanatory variables
-            y (np.array): target (class labels)
-        """
-        # terminal nodes: rows - samples, columns - trees in the forest
-        self.terminal_nodes = self.classifier_obj.apply(X)
-
-        def func(vector):
-            return 1 * np.equal.outer(vector, vector)
-
-        result = 1.0 - np.apply_along_axis(func, 0, self.terminal_nodes)
-        return result.sum(axis=2) / self.terminal_nodes.shape[1]
-
-
-class ClosestNeighborsInClasses:
-    """
-    Closest neighbors within class.
-    """
-
-    def __init__(self, n_neighbors=5):
-        """
-        Constructor of the class, determines the border points.
-
-        Args:
-            n_neighbors (int): number of neighbors
-        """
-        self.n_neighbors = n_neighbors
-
-    def get_params(self):
-        """
-        Get the dict of parameters
-
-        Returns:
-            dict: the dict of parameters
-        """
-        return {"n_neighbors": self.n_neighbors}
-
-    def fit_transform(self, X, y):
-        """
-        Fit and transform the dataset
-
-        Args:
-            X (np.array): the vectors to operate on
-            y (np.array): the corresponding labels
-
-        Returns:
-            np.array, np.array: the border points
-        """
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
-
-        nearestn = NearestNeighbors(n_neighbors=self.n_neighbors).fit(X)
-        _, ind_min = nearestn.kneighbors(X_min)
-        _, ind_maj = nearestn.kneighbors(X_maj)
-
-        label_min = np.all((y[ind_min] == 1), axis=1)
-        label_maj = np.all((y[ind_maj] == 0), axis=1)
-
-        X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
-        y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
-        )
-
-        return X_final, y_final
-
-
-class RemoveCorrelatedColumns:
-    """
-    Transform the data by removing correlated columns
-    """
-
-    def __init__(self, threshold=0.99):
-        """
-        Constructor of the object
-
-        Args:
-            threshold (float): the correlation absolute value threshold
-        """
-        self.threshold = threshold
-        self.remove_mask = None
-
-    def fit(self, X):
-        """
-        Fit the transformer.
-
-        Args:
-            X (np.array): the vectors
-
-        Returns:
-            RemoveCorrelatedColumns: the fitted object
-        """
-        corr = np.abs(np.corrcoef(X.T))
-        corr[np.tril_indices(len(corr), k=0)] = np.nan
-        self.remove_mask = ~np.any(corr > self.threshold, axis=1)
-        return self
-
-    def transform(self, X):
-        """
-        Transform data.
-
-        Args:
-            X (np.array): the vectors to transform
-
-        Returns:
-            X (np.array): the transformed data
-        """
-        return X[:, self.remove_mask]
-
-
-def discrete_variable_mask(X, threshold=5):
-    """
-    Determine the mask of discrete variables.
-
-    Args:
-        X (np.array): the data
-        threshold (int): threshold on unique attribute elements
-
-    Returns:
-        np.array: the binary mask of discrete variable columns
-    """
-    return np.apply_along_axis(lambda x: len(np.unique(x)), 0, X) <= threshold
-
-
-def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=None):
-    """
-    Estimate the mutual information between variables and a target.
-
-    Args:
-        X (np.array): explanatory variables
-        y (np.array): the target variables
-        normalize (bool): whether to normalize the results
-        n_repeats (int): the number of repetitions
-        mi_params (dict): parameters of the MI estimation
-
-    Returns:
-        np.array: the array of MI scores for each column of X
-    """
-    if mi_params is None:
-        mi_params = {"n_neighbors": 3}
-
-    discrete_mask = discrete_variable_mask(X, threshold=5)
-
-    mutuali = [
-        mutual_info_regression(
-            X, y, **mi_params, discrete_features=discrete_mask, random_state=j
-        )
-        for j in range(n_repeats)
-    ]
-
-    mutuali = np.mean(np.array(mutuali), axis=0)
-
-    if normalize:
-        mutuali = mutuali / np.mean(mutuali)
-
-    return mutuali
-
-
-def n_neighbors_func(
-    X_base, X_neighbors=None, n_neighbors=5, metric_tensor=None, return_distance=False
-):
-    """
-    Determines the n closest neighbors with a metric tensor.
-
-    Args:
-        X_base (np.array): the base data
-        X_neighbors (np.array): the neighbors data
-        n_neighbors (int): the number of neighbors
-        metric_tensor (np.array): the tensor to be used
-        return_distance (bool): whether to return the distance
-
-    Returns:
-        np.array(, np.array): the indices of closest neighbors and optionally
-                                their distances
-    """
-    if metric_tensor is None:
-        metric_tensor = np.eye(X_base.shape[1])
-
-    X_neighbors = X_neighbors if X_neighbors is not None else X_base
-
-    distm = pairwise_distances_mahalanobis(X_base, Y=X_neighbors, tensor=metric_tensor)
-
-    results_ind = np.apply_along_axis(np.argsort, axis=1, arr=distm)[:, :(n_neighbors)]
-
-    if not return_distance:
-        return results_ind
-
-    distances = distm[np.arange(distm.shape[0])[:, None], results_ind]
-    return distances, results_ind
-
-
-def psd_mean(matrices):
-    """
-    Estimate the mean of positive semi-definite matrices
-
-    Args:
-        matrices (iterable): the matrices
-
-    Returns:
-        np.array: the estimated mean matrix
-    """
-    result = np.mean(matrices, axis=0)
-
-    result = fix_pd_matrix(result)
-
-    return result
-
-
-class MetricTensor:
-    """
-    Class representing a metric tensor.
-    """
-
-    def __init__(self, metric_learning_method=None, **_kwargs):
-        """
-        MetricTensor constructor
-
-        Args:
-            metric_learning_method (str): metric learning algorithm
-
-        """
-        self.metric_learning_method = metric_learning_method
-        self.metric_tensor = None
-
-    def get_params(self):
-        """
-        Get the paraemters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {"metric_learning_method": self.metric_learning_method}
-
-    def _train_metric_learning(
-        self, X, y, method="NCA", *, random_state=None, prior="identity"
-    ):
-        """
-        Do the metric learning training
-
-        Args:
-            X (np.array): the explanataory variables
-            y (np.array): the target variable
-            method (str): metric learning method
-            random_state (int/None): random state to pass
-
-        Returns:
-            np.array: the metric tensor
-        """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            if method == "ITML":
-                return (
-                    ITML_Supervised(random_state=random_state, prior=prior)
-                    .fit(X, y)
-                    .get_mahalanobis_matrix()
-                )
-            if method == "LSML":
-                return LSML_Supervised().fit(X, y).get_mahalanobis_matrix()
-
-            return NCA().fit(X, y).get_mahalanobis_matrix()
-
-    def tensor(self, X, y):
-        """
-        Create metric tensor for the parameters.
-
-        Args:
-            X (np.array): the explanataory variables
-            y (np.array): the target variable
-
-        Returns:
-            np.array: the metric tensor
-        """
-        X_mod, index = np.unique(X, axis=0, return_index=True)
-        y_mod = y[index]
-
-        _logger.info(
-            "%s: executing metric learning with %s",
-            self.__class__.__name__,
-            self.metric_learning_method,
-        )
-
-        if self.metric_learning_method == "ITML":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-        elif self.metric_learning_method == "rf":
-            dissim = (
-                ClassifierImpliedDissimilarityMatrix().fit(X, y).dissimilarity_matrix(X)
-            )
-            self.metric_tensor, _ = construct_tensor(X, dissim)
-        elif self.metric_learning_method == "LSML":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-        elif self.metric_learning_method == "cov":
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
-        elif self.metric_learning_method == "cov_min":
-            cov = np.cov(X[y == 1].T)
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
-        elif self.metric_learning_method == "MI_weighted":
-            mutuali = estimate_mutual_information(X, y)
-            self.metric_tensor = np.diag(mutuali)
-        elif self.metric_learning_method == "id":
-            self.metric_tensor = np.eye(len(X_mod[0]))
-        elif self.metric_learning_method == "ITML_mi":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-            mutuali = estimate_mutual_information(X, y)
-            self.metric_tensor = np.matmul(self.metric_tensor, np.diag(mutuali))
-        elif self.metric_learning_method == "NCA":
-            self.metric_tensor = NCA().fit(X_mod, y_mod).get_mahalanobis_matrix()
-        elif self.metric_learning_method == "gmean":
-            matrices = [
-                self._train_metric_learning(
-                    X_mod,
-                    y_mod,
-                    self.metric_learning_method,
-                    random_state=5,
-                    prior="random",
-                )
-                for i in range(2)
-            ]
-
-            self.metric_tensor = psd_mean(matrices)
-
-        #elif self.metric_learning_method == "n_unique":
-        #    n_uniques = np.array(
-        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
-        #    )
-        #    self.metric_tensor = np.diag(np.sqrt(n_uniques))
-        #elif self.metric_learning_method == "n_unique_inv":
-        #    n_uniques = np.array(
-        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
-        #    )
-        #    self.metric_tensor = np.diag(np.sqrt(1.0 / n_uniques))
-
-        return self.metric_tensor
-
-
-class MetricLearningMixin:
-    """
-    Mixin class for oversampling methods supporting custom metrics
-    """
-
-    def metric_tensor_from_nn_params(self, nn_params, X, y):
-        """
-        Determine the metric tensor from the given parameters.
-
-        Args:
-            nn_params (dict): the nearest neighbors parameters
-            X (np.array): the explanatory variables
-            y (np.array): the target variables
-
-        Returns:
-            np.array/None: the metric tensor
-        """
-        if (
-            nn_params.get("metric", None) == "precomputed"
-            and nn_params.get("metric_tensor", None) is None
-        ):
-            return MetricTensor(**nn_params).tensor(X, y)
-
-        if nn_params.get("metric_tensor", None) is not None:
-            return nn_params["metric_tensor"]
-
-        return None
-
-    def get_params(self):
-        """
-        Get the parameters of the object.
-
-        Returns:
-            dict: the parameter dict
-        """
-        return {}
-
-
-class NearestNeighborsWithMetricTensor:
-    """
-    NearestNeighbors driven by a metric tensor
-    """
-
-    def __init__(
-        self,
-        n_neighbors=5,
-        *,
-        radius=1.0,
-        algorithm="auto",
-        leaf_size=30,
-        metric="minkowski",
-        p=2,  # pylint: disable=invalid-name
-        metric_params=None,
-        metric_tensor=None,
-        n_jobs=1,
-        **_kwargs
-    ):
-        """
-        Constructor of the class
-
-        Args:
-            n_neighbors (int): the number of neighbors
-            radius (float): the radius of neighbors
-            algorithm (str): the algorithm to be used
-            leaf_size (int): the size of leafs for quadtree estimation
-            metric (str): the metric to be used
-            p (int): the p-norm p value
-            metric_params (dict): the parameters for metric learning
-            metric_tensor (np.array): the metric tensor to be used
-            n_jobs (int): the number of jobs
-        """
-        self.n_neighbors = n_neighbors
-        self.radius = radius
-        self.metric = metric
-        self.metric_tensor = metric_tensor
-        self.X_fitted = None
-
-        self.nearestn = NearestNeighbors(
-            n_neighbors=n_neighbors,
-            radius=radius,
-            algorithm=algorithm,
-            leaf_size=leaf_size,
-            metric=metric,
-            p=p,
-            metric_params=metric_params,
-            n_jobs=n_jobs,
-        )
-
-    def get_params(self):
-        """
-        Get the parameters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {**self.nearestn.get_params(), "metric_tensor": self.metric_tensor}
-
-    def fit(self, X):
-        """
-        Fit the nearest neighbors
-
-        Args:
-            X (np.array): the vectors to fit
-
-        Returns:
-            NearestNeighborsWithMetricTensor: the fitted object
-        """
-        _logger.info(
-            "%s: NN fitting with metric %s", self.__class__.__name__, self.metric
-        )
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            self.nearestn.fit(X)
-        else:
-            self.X_fitted = X
-
-        return self
-
-    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
-        """
-        Determine the k nearest neighbors
-
-        Args:
-            X (np.array): the vectors to determine the neighbors for
-            n_neighbors (int): the number of neighbors
-            return_distance (bool): whether to return the distance
-
-        Returns:
-            np.array(, np.array): the indices of nearest neighbors and
-                                    optionally the distances
-        """
-        _logger.info("%s: kneighbors query %s", self.__class__.__name__, self.metric)
-
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            return self.nearestn.kneighbors(X, n_neighbors, return_distance)
-
-        n_neighbors = coalesce(n_neighbors, self.n_neighbors)
-        return n_neighbors_func(
-            X,
-            self.X_fitted,
-            metric_tensor=self.metric_tensor,
-            n_neighbors=n_neighbors,
-            return_distance=return_distance,
-        )
-
-    def radius_neighbors(
-        self, X=None, radius=None, return_distance=True, sort_results=False
-    ):
-        """
-        Determine the neighbors within a given radius.
-
-        Args:
-            X (np.array): the vectors to query the neighbors of
-            radius (float/None): the radius
-            return_distance (bool): whether to return the distances
-            sort_results (bool): whether to sort the results
-        """
-        _logger.info(
-            "%s: radius neighbors query %s", self.__class__.__name__, self.metric
-        )
-
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            return self.nearestn.radius_neighbors(
-                X, radius, return_distance, sort_results
-            )
-
-        distm = pairwise_distances_mahalanobis(
-            X, Y=self.X_fitted, tensor=self.metric_tensor
-        )
-
-        results_dist = []
-        results_ind = []
-
-        for _, row in enumerate(distm):
-            mask = np.where(row <= radius)[0]
-            results_dist.append(row[mask])
-            results_ind.append(mask)
-
-        results_dist = np.array(results_dist, dtype=object)
-        results_ind = np.array(results_ind, dtype=object)
-
-        if return_distance:
-            return results_dist, results_ind
-
-        return results_ind
+"""
+This module contains all experimental and stable functionalities related
+to metric learning.
+"""
+import warnings
+
+import numpy as np
+
+from sklearn.neighbors import NearestNeighbors
+from sklearn.linear_model import LinearRegression
+from sklearn.feature_selection import mutual_info_regression
+
+from scipy.stats import rankdata
+
+from metric_learn import ITML_Supervised, LSML_Supervised, NCA
+
+from ..config import distance_matrix_max_memory_chunk
+from ._base import instantiate_obj, coalesce
+from .._logger import logger
+
+_logger = logger
+
+__all__ = [
+    "NearestNeighborsWithMetricTensor",
+    "ClassifierImpliedDissimilarityMatrix",
+    "MetricTensor",
+    "MetricLearningMixin",
+    "pairwise_distances_mahalanobis",
+    "distances_mahalanobis",
+    "fix_pd_matrix",
+    "reverse_matrix",
+    "construct_tensor",
+    "ClosestNeighborsInClasses",
+    "RemoveCorrelatedColumns",
+    "discrete_variable_mask",
+    "estimate_mutual_information",
+    "n_neighbors_func",
+    "psd_mean",
+]
+
+
+def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
+    """
+    Returns the pairwise distances of two arrays of vectors using the
+    provided metric tensor matrix. If no Y paramter is provided, the
+    distance matrix of the paramter X is returned.
+
+    Args:
+        X (np.array): array of vectors to calculate distances for
+        Y (np.array/None): optional second array of vectors
+        tensor (np.array): the metric tensor to be used
+        optimized (np.array): optimization for Eulidean tensors
+
+    Returns:
+        np.array: the distance matrix
+    """
+
+    if Y is None:
+        Y = X
+
+    max_mem = distance_matrix_max_memory_chunk()
+
+    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+        row_block_size = int(
+            np.floor(
+                X.shape[0]
+                / int(np.ceil(X.shape[0] * X.shape[1] * Y.shape[0] / max_mem))
+            )
+        )
+        row_block_size = np.max([row_block_size, 1])
+
+        row_blocks = []
+        start = 0
+        while start < X.shape[0]:
+            end = np.min([start + row_block_size, X.shape[0]])
+            row_blocks.append(
+                pairwise_distances_mahalanobis(
+                    X[start:end], Y=Y, tensor=tensor, optimized=optimized
+                )
+            )
+            start = start + row_block_size
+
+        return np.vstack(row_blocks)
+
+    if tensor is None or np.allclose(tensor, np.eye(X.shape[1])):
+        # this original implementation can become very slow for high dimensional data
+        if optimized:
+            return np.sqrt(np.sum((X[:, None] - Y) ** 2, axis=-1))
+
+        tensor = np.eye(X.shape[1])
+
+    tmp = X[:, None] - Y
+
+    return np.sqrt(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp))
+
+
+def distances_mahalanobis(X, Y, tensor=None):
+    """
+    Returns the distances of the corresponding vectors.
+
+    Args:
+        X (np.array): array of vectors
+        Y (np.array): another array of vectors
+        tensor (np.array): the metric tensor to be used
+
+    Returns:
+        np.array: the distances
+    """
+    if tensor is None:
+        tensor = np.eye(X.shape[1])
+    tmp = X - Y
+    return np.sqrt(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp))
+
+
+def fix_pd_matrix(matrix, eps=1e-4):
+    """
+    Fix a positive definite matrix
+
+    Args:
+        matrix (np.array): the matrix to be fixed
+        eps (float): the tolerance
+
+    Returns:
+        np.array: the fixed matrix
+    """
+    eigv, eigw = np.linalg.eigh(matrix)
+    eigv = np.real(eigv)
+    eigw = np.real(eigw)
+    eigv[eigv <= eps] = eps
+    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
+    return matrix
+
+
+def reverse_matrix(matrix):
+    """
+    Reverse the order of eigenvalues.
+
+    Args:
+        matrix (np.array): the matrix to transform
+
+    Returns:
+        np.array: the transformed matrix
+    """
+    eigv, eigw = np.linalg.eigh(matrix)
+    eigv = eigv[np.argsort(eigv)[len(eigv) - rankdata(eigv).astype(int)]]
+    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
+    return matrix
+
+
+def create_metric_tensor(n_dims, tu_indices, elements):
+    """
+    Create metric tensor from upper triangle matrix elements.
+
+    Args:
+         n_dims (int): dimensionality
+         tu_indices (np.array): indices of the upper triangle
+         elements (np.array): the values corresponding to the indices
+
+    Returns:
+        np.array: the constructed distance matrix
+    """
+    # creating the metric tensor
+    dist = np.zeros((n_dims, n_dims))
+    # injecting the regressed coefficients into the upper triangle
+    dist[tu_indices] = elements
+    # copying by transposing
+    dist = dist + dist.T
+    # halving the elements in the main diagonal due to duplication
+    dist[np.diag_indices(n_dims)] = np.diag(dist) / 2
+    # creating a valid positive definite matrix
+    dist = fix_pd_matrix(dist)
+
+    return dist
+
+
+def construct_tensor(X, dissim_matrix):
+    """
+    Construct tensor from dissimilarity matrix.
+
+    Args:
+        X (np.array): the data to use
+        dissim_matrix (np.array): the dissimilarity matrix
+
+    Returns:
+        np.array: the metric tensor
+    """
+
+    # pre-calculating some triangle indices
+    X_tu_indices = np.triu_indices(X.shape[0], k=0)
+    d_tu_indices_0 = np.triu_indices(X.shape[1], k=0)
+    d_tu_indices_1 = np.triu_indices(X.shape[1], k=1)
+
+    n_upper, n_d = len(X_tu_indices[0]), len(d_tu_indices_0[0])
+
+    # calculating the cross differences and extracting the upper triangle into
+    # a row-major representation
+    cross_diff_all = (X[:, None] - X)[X_tu_indices]
+
+    # if the total number of pairs with distances is much greater than the
+    # number of free components of the metric tensor, the samples prepared for
+    # regression are sampled for efficiency
+    mask = np.repeat(True, len(cross_diff_all))
+    if n_upper > n_d * 100:
+        rng = np.arange(n_upper)
+        mask[np.random.RandomState(5).permutation(rng)[n_d * 100 :]] = False
+
+    # preparing the dissimilarity values for regression
+    y_target = dissim_matrix[(X_tu_indices[0][mask], X_tu_indices[1][mask])] ** 2
+
+    # calculating the cross product of components for each pair in the cross
+    # difference matrix
+    cross_diff_all = cross_diff_all[mask]
+    cross_diff_cross_products = np.einsum(
+        "...i,...j->...ij", cross_diff_all, cross_diff_all
+    )
+
+    # adjustment due to extracting the upper triangle only
+    cross_diff_cross_products[:, d_tu_indices_1[0], d_tu_indices_1[1]] *= 2
+
+    # preparing the components of the cross products of pairwise distances
+    # for regression
+    X_target = cross_diff_cross_products[:, d_tu_indices_0[0], d_tu_indices_0[1]]
+
+    # calculating the elements of the metric tensor by regression
+    linearr = LinearRegression(fit_intercept=False).fit(X_target, y_target)
+
+    # creating the metric tensor
+    metric_tensor = create_metric_tensor(X.shape[1], d_tu_indices_0, linearr.coef_)
+
+    return metric_tensor, linearr.score(X_target, y_target)
+
+
+class ClassifierImpliedDissimilarityMatrix:
+    """
+    Computes classifier implied dissimilarity matrix
+    """
+
+    def __init__(
+        self,
+        classifier=("sklearn.ensemble", "RandomForestClassifier"),
+        classifier_params=None,
+    ):
+        """
+        Constructor of the object
+
+        Args:
+            classifier (str): name of a classifier class (available in sklearn)
+            classifier_params (dict): parameters of the classifier
+        """
+        self.classifier = classifier
+        if classifier_params is None:
+            classifier_params = {
+                "n_estimators": 100,
+                "min_samples_leaf": 2,
+                "random_state": 5,
+            }
+        self.classifier_params = classifier_params
+        self.classifier_obj = None
+        self.terminal_nodes = None
+
+    def get_params(self):
+        """
+        The parameters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "classifier": self.classifier,
+            "classifier_params": self.classifier_params,
+        }
+
+    def fit(self, X, y):
+        """
+        Fit the object.
+
+        Args:
+            X (np.array): the X vectors
+            y (np.array): the target vectors
+
+        Returns:
+            ClassifierImpliedDissimilarityMatrix: the fitted object
+        """
+        _logger.info("%s: fitting", self.__class__.__name__)
+        self.classifier_obj = instantiate_obj(
+            (self.classifier[0], self.classifier[1], self.classifier_params)
+        )
+        self.classifier_obj.fit(X, y)
+        return self
+
+    def transform_kneighbors(self, X):
+        """
+        Transform using kneighbors.
+
+        Args:
+            X (np.array): the vectors to transform
+
+        Returns:
+            np.array: the transformed vectors
+        """
+        _logger.info("%s: transform kneighbors", self.__class__.__name__)
+        tnodes = self.classifier_obj.apply(X)
+        tmp_nodes = np.vstack([self.terminal_nodes, tnodes])
+
+        def func(vector):
+            return 1 * np.equal.outer(vector, vector)[-len(tnodes) :][:, : -len(tnodes)]
+
+        results = 1.0 - np.apply_along_axis(func, 0, tmp_nodes)
+        results = results.sum(axis=2) / tmp_nodes.shape[1]
+
+        return results
+
+    def dissimilarity_matrix(self, X):
+        """
+        Calculates the dissimilarity matrix, if y is None, then uses the
+        already fitted model. First needs to be called with valid y vector.
+
+        Args:
+            X (np.ndarray): explanatory variables
+            y (np.array): target (class labels)
+        """
+        # terminal nodes: rows - samples, columns - trees in the forest
+        self.terminal_nodes = self.classifier_obj.apply(X)
+
+        def func(vector):
+            return 1 * np.equal.outer(vector, vector)
+
+        result = 1.0 - np.apply_along_axis(func, 0, self.terminal_nodes)
+        return result.sum(axis=2) / self.terminal_nodes.shape[1]
+
+
+class ClosestNeighborsInClasses:
+    """
+    Closest neighbors within class.
+    """
+
+    def __init__(self, n_neighbors=5):
+        """
+        Constructor of the class, determines the border points.
+
+        Args:
+            n_neighbors (int): number of neighbors
+        """
+        self.n_neighbors = n_neighbors
+
+    def get_params(self):
+        """
+        Get the dict of parameters
+
+        Returns:
+            dict: the dict of parameters
+        """
+        return {"n_neighbors": self.n_neighbors}
+
+    def fit_transform(self, X, y):
+        """
+        Fit and transform the dataset
+
+        Args:
+            X (np.array): the vectors to operate on
+            y (np.array): the corresponding labels
+
+        Returns:
+            np.array, np.array: the border points
+        """
+        X_min = X[y == 1]
+        X_maj = X[y == 0]
+
+        nearestn = NearestNeighbors(n_neighbors=self.n_neighbors).fit(X)
+        _, ind_min = nearestn.kneighbors(X_min)
+        _, ind_maj = nearestn.kneighbors(X_maj)
+
+        label_min = np.all((y[ind_min] == 1), axis=1)
+        label_maj = np.all((y[ind_maj] == 0), axis=1)
+
+        X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
+        y_final = np.hstack(
+            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+        )
+
+        return X_final, y_final
+
+
+class RemoveCorrelatedColumns:
+    """
+    Transform the data by removing correlated columns
+    """
+
+    def __init__(self, threshold=0.99):
+        """
+        Constructor of the object
+
+        Args:
+            threshold (float): the correlation absolute value threshold
+        """
+        self.threshold = threshold
+        self.remove_mask = None
+
+    def fit(self, X):
+        """
+        Fit the transformer.
+
+        Args:
+            X (np.array): the vectors
+
+        Returns:
+            RemoveCorrelatedColumns: the fitted object
+        """
+        corr = np.abs(np.corrcoef(X.T))
+        corr[np.tril_indices(len(corr), k=0)] = np.nan
+        self.remove_mask = ~np.any(corr > self.threshold, axis=1)
+        return self
+
+    def transform(self, X):
+        """
+        Transform data.
+
+        Args:
+            X (np.array): the vectors to transform
+
+        Returns:
+            X (np.array): the transformed data
+        """
+        return X[:, self.remove_mask]
+
+
+def discrete_variable_mask(X, threshold=5):
+    """
+    Determine the mask of discrete variables.
+
+    Args:
+        X (np.array): the data
+        threshold (int): threshold on unique attribute elements
+
+    Returns:
+        np.array: the binary mask of discrete variable columns
+    """
+    return np.apply_along_axis(lambda x: len(np.unique(x)), 0, X) <= threshold
+
+
+def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=None):
+    """
+    Estimate the mutual information between variables and a target.
+
+    Args:
+        X (np.array): explanatory variables
+        y (np.array): the target variables
+        normalize (bool): whether to normalize the results
+        n_repeats (int): the number of repetitions
+        mi_params (dict): parameters of the MI estimation
+
+    Returns:
+        np.array: the array of MI scores for each column of X
+    """
+    if mi_params is None:
+        mi_params = {"n_neighbors": 3}
+
+    discrete_mask = discrete_variable_mask(X, threshold=5)
+
+    mutuali = [
+        mutual_info_regression(
+            X, y, **mi_params, discrete_features=discrete_mask, random_state=j
+        )
+        for j in range(n_repeats)
+    ]
+
+    mutuali = np.mean(np.array(mutuali), axis=0)
+
+    if normalize:
+        mutuali = mutuali / np.mean(mutuali)
+
+    return mutuali
+
+
+def n_neighbors_func(
+    X_base, X_neighbors=None, n_neighbors=5, metric_tensor=None, return_distance=False
+):
+    """
+    Determines the n closest neighbors with a metric tensor.
+
+    Args:
+        X_base (np.array): the base data
+        X_neighbors (np.array): the neighbors data
+        n_neighbors (int): the number of neighbors
+        metric_tensor (np.array): the tensor to be used
+        return_distance (bool): whether to return the distance
+
+    Returns:
+        np.array(, np.array): the indices of closest neighbors and optionally
+                                their distances
+    """
+    if metric_tensor is None:
+        metric_tensor = np.eye(X_base.shape[1])
+
+    X_neighbors = X_neighbors if X_neighbors is not None else X_base
+
+    distm = pairwise_distances_mahalanobis(X_base, Y=X_neighbors, tensor=metric_tensor)
+
+    results_ind = np.apply_along_axis(np.argsort, axis=1, arr=distm)[:, :(n_neighbors)]
+
+    if not return_distance:
+        return results_ind
+
+    distances = distm[np.arange(distm.shape[0])[:, None], results_ind]
+    return distances, results_ind
+
+
+def psd_mean(matrices):
+    """
+    Estimate the mean of positive semi-definite matrices
+
+    Args:
+        matrices (iterable): the matrices
+
+    Returns:
+        np.array: the estimated mean matrix
+    """
+    result = np.mean(matrices, axis=0)
+
+    result = fix_pd_matrix(result)
+
+    return result
+
+
+class MetricTensor:
+    """
+    Class representing a metric tensor.
+    """
+
+    def __init__(self, metric_learning_method=None, **_kwargs):
+        """
+        MetricTensor constructor
+
+        Args:
+            metric_learning_method (str): metric learning algorithm
+
+        """
+        self.metric_learning_method = metric_learning_method
+        self.metric_tensor = None
+
+    def get_params(self):
+        """
+        Get the paraemters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {"metric_learning_method": self.metric_learning_method}
+
+    def _train_metric_learning(
+        self, X, y, method="NCA", *, random_state=None, prior="identity"
+    ):
+        """
+        Do the metric learning training
+
+        Args:
+            X (np.array): the explanataory variables
+            y (np.array): the target variable
+            method (str): metric learning method
+            random_state (int/None): random state to pass
+
+        Returns:
+            np.array: the metric tensor
+        """
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            if method == "ITML":
+                return (
+                    ITML_Supervised(random_state=random_state, prior=prior)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
+            if method == "LSML":
+                return LSML_Supervised().fit(X, y).get_mahalanobis_matrix()
+
+            return NCA().fit(X, y).get_mahalanobis_matrix()
+
+    def tensor(self, X, y):
+        """
+        Create metric tensor for the parameters.
+
+        Args:
+            X (np.array): the explanataory variables
+            y (np.array): the target variable
+
+        Returns:
+            np.array: the metric tensor
+        """
+        X_mod, index = np.unique(X, axis=0, return_index=True)
+        y_mod = y[index]
+
+        _logger.info(
+            "%s: executing metric learning with %s",
+            self.__class__.__name__,
+            self.metric_learning_method,
+        )
+
+        if self.metric_learning_method == "ITML":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+        elif self.metric_learning_method == "rf":
+            dissim = (
+                ClassifierImpliedDissimilarityMatrix().fit(X, y).dissimilarity_matrix(X)
+            )
+            self.metric_tensor, _ = construct_tensor(X, dissim)
+        elif self.metric_learning_method == "LSML":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+        elif self.metric_learning_method == "cov":
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
+        elif self.metric_learning_method == "cov_min":
+            labels, counts = np.unique(y, return_counts=True)
+            min_label = labels[::-1][np.argmin(counts[::-1])]
+            cov = np.cov(X[y == min_label].T)
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
+        elif self.metric_learning_method == "MI_weighted":
+            mutuali = estimate_mutual_information(X, y)
+            self.metric_tensor = np.diag(mutuali)
+        elif self.metric_learning_method == "id":
+            self.metric_tensor = np.eye(len(X_mod[0]))
+        elif self.metric_learning_method == "ITML_mi":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+            mutuali = estimate_mutual_information(X, y)
+            self.metric_tensor = np.matmul(self.metric_tensor, np.diag(mutuali))
+        elif self.metric_learning_method == "NCA":
+            self.metric_tensor = NCA().fit(X_mod, y_mod).get_mahalanobis_matrix()
+        elif self.metric_learning_method == "gmean":
+            matrices = [
+                self._train_metric_learning(
+                    X_mod,
+                    y_mod,
+                    self.metric_learning_method,
+                    random_state=5,
+                    prior="random",
+                )
+                for i in range(2)
+            ]
+
+            self.metric_tensor = psd_mean(matrices)
+
+        #elif self.metric_learning_method == "n_unique":
+        #    n_uniques = np.array(
+        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
+        #    )
+        #    self.metric_tensor = np.diag(np.sqrt(n_uniques))
+        #elif self.metric_learning_method == "n_unique_inv":
+        #    n_uniques = np.array(
+        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
+        #    )
+        #    self.metric_tensor = np.diag(np.sqrt(1.0 / n_uniques))
+
+        return self.metric_tensor
+
+
+class MetricLearningMixin:
+    """
+    Mixin class for oversampling methods supporting custom metrics
+    """
+
+    def metric_tensor_from_nn_params(self, nn_params, X, y):
+        """
+        Determine the metric tensor from the given parameters.
+
+        Args:
+            nn_params (dict): the nearest neighbors parameters
+            X (np.array): the explanatory variables
+            y (np.array): the target variables
+
+        Returns:
+            np.array/None: the metric tensor
+        """
+        if (
+            nn_params.get("metric", None) == "precomputed"
+            and nn_params.get("metric_tensor", None) is None
+        ):
+            return MetricTensor(**nn_params).tensor(X, y)
+
+        if nn_params.get("metric_tensor", None) is not None:
+            return nn_params["metric_tensor"]
+
+        return None
+
+    def get_params(self):
+        """
+        Get the parameters of the object.
+
+        Returns:
+            dict: the parameter dict
+        """
+        return {}
+
+
+class NearestNeighborsWithMetricTensor:
+    """
+    NearestNeighbors driven by a metric tensor
+    """
+
+    def __init__(
+        self,
+        n_neighbors=5,
+        *,
+        radius=1.0,
+        algorithm="auto",
+        leaf_size=30,
+        metric="minkowski",
+        p=2,  # pylint: disable=invalid-name
+        metric_params=None,
+        metric_tensor=None,
+        n_jobs=1,
+        **_kwargs
+    ):
+        """
+        Constructor of the class
+
+        Args:
+            n_neighbors (int): the number of neighbors
+            radius (float): the radius of neighbors
+            algorithm (str): the algorithm to be used
+            leaf_size (int): the size of leafs for quadtree estimation
+            metric (str): the metric to be used
+            p (int): the p-norm p value
+            metric_params (dict): the parameters for metric learning
+            metric_tensor (np.array): the metric tensor to be used
+            n_jobs (int): the number of jobs
+        """
+        self.n_neighbors = n_neighbors
+        self.radius = radius
+        self.metric = metric
+        self.metric_tensor = metric_tensor
+        self.X_fitted = None
+
+        self.nearestn = NearestNeighbors(
+            n_neighbors=n_neighbors,
+            radius=radius,
+            algorithm=algorithm,
+            leaf_size=leaf_size,
+            metric=metric,
+            p=p,
+            metric_params=metric_params,
+            n_jobs=n_jobs,
+        )
+
+    def get_params(self):
+        """
+        Get the parameters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {**self.nearestn.get_params(), "metric_tensor": self.metric_tensor}
+
+    def fit(self, X):
+        """
+        Fit the nearest neighbors
+
+        Args:
+            X (np.array): the vectors to fit
+
+        Returns:
+            NearestNeighborsWithMetricTensor: the fitted object
+        """
+        _logger.info(
+            "%s: NN fitting with metric %s", self.__class__.__name__, self.metric
+        )
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            self.nearestn.fit(X)
+        else:
+            self.X_fitted = X
+
+        return self
+
+    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
+        """
+        Determine the k nearest neighbors
+
+        Args:
+            X (np.array): the vectors to determine the neighbors for
+            n_neighbors (int): the number of neighbors
+            return_distance (bool): whether to return the distance
+
+        Returns:
+            np.array(, np.array): the indices of nearest neighbors and
+                                    optionally the distances
+        """
+        _logger.info("%s: kneighbors query %s", self.__class__.__name__, self.metric)
+
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            return self.nearestn.kneighbors(X, n_neighbors, return_distance)
+
+        n_neighbors = coalesce(n_neighbors, self.n_neighbors)
+        return n_neighbors_func(
+            X,
+            self.X_fitted,
+            metric_tensor=self.metric_tensor,
+            n_neighbors=n_neighbors,
+            return_distance=return_distance,
+        )
+
+    def radius_neighbors(
+        self, X=None, radius=None, return_distance=True, sort_results=False
+    ):
+        """
+        Determine the neighbors within a given radius.
+
+        Args:
+            X (np.array): the vectors to query the neighbors of
+            radius (float/None): the radius
+            return_distance (bool): whether to return the distances
+            sort_results (bool): whether to sort the results
+        """
+        _logger.info(
+            "%s: radius neighbors query %s", self.__class__.__name__, self.metric
+        )
+
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            return self.nearestn.radius_neighbors(
+                X, radius, return_distance, sort_results
+            )
+
+        distm = pairwise_distances_mahalanobis(
+            X, Y=self.X_fitted, tensor=self.metric_tensor
+        )
+
+        results_dist = []
+        results_ind = []
+
+        for _, row in enumerate(distm):
+            mask = np.where(row <= radius)[0]
+            results_dist.append(row[mask])
+            results_ind.append(mask)
+
+        results_dist = np.array(results_dist, dtype=object)
+        results_ind = np.array(results_ind, dtype=object)
+
+        if return_distance:
+            return results_dist, results_ind
+
+        return results_ind
-- 
2.43.0


From 4257957038cbdf18bd985c6756974bd3e581b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 011/101] fix: LSML metric learning uses the random state
 passed

---
 smote_variants/base/_metrictensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index e470542..7ec0147 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -571,7 +571,11 @@ class MetricTensor:
                     .get_mahalanobis_matrix()
                 )
             if method == "LSML":
-                return LSML_Supervised().fit(X, y).get_mahalanobis_matrix()
+                return (
+                    LSML_Supervised(random_state=random_state)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
 
             return NCA().fit(X, y).get_mahalanobis_matrix()
 
-- 
2.43.0


From 79cacc907d34847aa537201f345f1af97b3be79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 012/101] fix: PDFOS returns copies when all minority samples
 coincide

---
 smote_variants/oversampling/_pdfos.py | 786 +++++++++++++-------------
 1 file changed, 395 insertions(+), 391 deletions(-)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 44c1577..5bedcf8 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -1,391 +1,395 @@
-"""
-This module implements the PDFOS method.
-"""
-
-import numpy as np
-from numpy.linalg import LinAlgError
-
-from scipy.special import expit
-
-from sklearn.preprocessing import StandardScaler
-
-from ..base import RandomStateMixin, coalesce
-from ..base import MetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["PDFOS", "FullRankTransformer", "PDFOSKDE"]
-
-
-class FullRankTransformer:
-    """
-    Transforms data into a lower dimensional full rank covariance
-    representation
-    """
-
-    def __init__(self, eps=0.002):
-        """
-        Constructor of the object.
-
-        Args:
-            eps (float): the tolerance
-        """
-        self.eps = eps
-        self.mean = None
-        self.transformation = None
-        self.n_dim = None
-
-    def fit(self, X):
-        """
-        Fits the transformer to the data
-
-        Args:
-            X (np.array): all vectors to fit on
-
-        Returns:
-            self: the fitted object
-        """
-        cov = np.cov(X, rowvar=False)
-        eigw, eigv = np.linalg.eig(cov)
-
-        eigw = np.real(eigw)
-        eigv = np.real(eigv)
-
-        eigv_f = eigv[:, eigw > self.eps]
-
-        self.mean = np.mean(X, axis=0)
-        self.transformation = eigv_f
-        self.n_dim = eigv_f.shape[1]
-
-        return self
-
-    def transform(self, X):
-        """
-        Transforms the data
-
-        Args:
-            X (np.array): the data to transform
-
-        Returns:
-            np.array: the transformed data
-        """
-        if X is None:
-            return None
-        return np.dot(X - self.mean, self.transformation)
-
-    def inverse_transform(self, X):
-        """
-        Inverse transformation
-
-        Args:
-            X (np.array): the data to inverse transform
-
-        Returns:
-            np.array: the inverse transformed data
-        """
-        return np.dot(X, self.transformation.T) + self.mean
-
-
-class PDFOSKDE(RandomStateMixin):
-    """
-    The KDE in PDFOS
-    """
-
-    def __init__(self, metric_learning=None, random_state=None):
-        """
-        Constructor of the PDFOS KDE estimation
-
-        Args:
-            metric_learning (str/None): metric learning method
-            random_state (int/None/np.random.RandomState): random state
-                                                            initializer
-        """
-        RandomStateMixin.__init__(self, random_state)
-        self.transformer = FullRankTransformer(eps=0.02)
-        self.metric_learning = coalesce(metric_learning, "cov_min")
-        self.S = None  # pylint: disable=invalid-name
-        self.X_base = None
-
-    def eq_5_0(self, sigma, m):  # pylint: disable=invalid-name
-        """
-        Eq (5) in the paper
-
-        Args:
-            sigma (float): the sigma value
-            m (int): the dimensionality
-
-        Returns:
-            float: the value of the equation
-        """
-        return sigma ** (-m) / ((2.0 * np.pi) ** (m / 2))
-
-    def eq_8_vectorized(self, X, sigma, S_inv):  # pylint: disable=invalid-name
-        """
-        Eq (8) in the paper
-
-        Args:
-            X (np.array): all training vectors
-            sigma (float): the sigma value
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            np.array: the result of the equation for all pairs of vectors
-        """
-        m = X.shape[1]  # pylint: disable=invalid-name
-
-        tmp = X[:, None] - X
-        tmp = np.einsum("ijk,kl,lji -> ij", tmp, S_inv, tmp.T)
-
-        numerator_9 = (np.sqrt(2) * sigma) ** (-m) * expit(
-            -(1 / (4 * sigma**2)) * tmp
-        )
-        numerator_5 = sigma ** (-m) * expit(-(1 / (2 * sigma**2)) * tmp)
-        denominator = (2 * np.pi) ** (m / 2)
-        eq_9 = numerator_9 / denominator
-        eq_5 = numerator_5 / denominator
-
-        return eq_9 - 2 * eq_5
-
-    def M(  # pylint: disable=invalid-name
-        self,
-        sigma,
-        X,
-        S_inv,  # pylint: disable=invalid-name
-    ):
-        """
-        Eq (7) in the paper
-
-        Args:
-            X (np.array): all training vectors
-            sigma (float): the sigma value
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            float: the value of the equation
-        """
-        m = X.shape[1]  # pylint: disable=invalid-name
-        total = np.sum(self.eq_8_vectorized(X, sigma, S_inv))
-
-        term_a = total / len(X) ** 2
-        term_b = 2.0 * self.eq_5_0(sigma, m) / len(X)
-        return term_a + term_b
-
-    def find_best_sigma(self, X, n_optimize, S_inv):  # pylint: disable=invalid-name
-        """
-        Find the best sigma parameter.
-
-        Args:
-            X (np.array): all training vectors
-            n_optimize (int): the number of vectors used for
-                                the estimation
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            float: the best sigma value
-        """
-        # finding the best sigma parameter
-        best_sigma = 0
-        error = np.inf
-        # the dataset is reduced to make the optimization more efficient
-        domain = range(len(X))
-        n_to_choose = min([len(X), n_optimize])
-        X_reduced = X[  # pylint: disable=invalid-name
-            self.random_state.choice(
-                domain, n_to_choose, replace=False
-            )
-        ]
-
-        # we suppose that the data is normalized, thus, this search space
-        # should be meaningful
-        for sigma in np.logspace(-5, 2, num=20):
-            err = self.M(sigma, X_reduced, S_inv)
-            if err < error:
-                error = err
-                best_sigma = sigma
-        # _logger.info("%s: best sigma found %f",
-        #                self.__class__.__name__, best_sigma)
-
-        return best_sigma
-
-    def fit(self, X, X_ml, y_ml, n_optimize=100):  # pylint: disable=invalid-name
-        """
-        Fitting the kernel density estimator
-
-        Args:
-            X (np.array): the training vectors
-            X_ml (np.array): potential training vectors for
-                                    metric learning
-            y_ml (np.array): potential target labels for metric
-                                    learning
-            n_optimize (int): the number of random samples used
-                                for optimization
-
-        Returns:
-            obj: the fitted object
-        """
-        self.transformer.fit(X)
-        X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
-
-        X_ml = self.transformer.transform(X_ml)
-
-        metrict = MetricTensor(metric_learning_method=self.metric_learning)
-        S_inv = metrict.tensor(X_ml, y_ml)  # pylint: disable=invalid-name
-        S = np.linalg.inv(S_inv)  # pylint: disable=invalid-name
-
-        best_sigma = self.find_best_sigma(X_trans, n_optimize, S_inv)
-
-        self.S = best_sigma * S
-        self.X_base = X_trans
-
-        return self
-
-    def sample(self, n_to_sample):
-        """
-        Draw a random sample from the fitted KDE
-
-        Args:
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples_raw = self.random_state.multivariate_normal(
-            np.repeat(0.0, self.X_base.shape[1]), self.S, size=n_to_sample
-        )
-
-        base_indices = self.random_state.choice(self.X_base.shape[0], n_to_sample)
-        unique_indices, unique_counts = np.unique(base_indices, return_counts=True)
-        samples = []
-        loc = 0
-        for idx, base_idx in enumerate(unique_indices):
-            samples.append(
-                self.X_base[base_idx] + samples_raw[loc : (loc + unique_counts[idx])]
-            )
-            loc = loc + unique_counts[idx]
-        samples = np.vstack(samples)
-        return self.transformer.inverse_transform(samples)
-
-
-class PDFOS(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{pdfos,
-                    title = "PDFOS: PDF estimation based over-sampling for
-                                imbalanced two-class problems",
-                    journal = "Neurocomputing",
-                    volume = "138",
-                    pages = "248 - 259",
-                    year = "2014",
-                    issn = "0925-2312",
-                    doi = "https://doi.org/10.1016/j.neucom.2014.02.006",
-                    author = "Ming Gao and Xia Hong and Sheng Chen and Chris
-                                J. Harris and Emad Khalaf",
-                    keywords = "Imbalanced classification, Probability density
-                                function based over-sampling, Radial basis
-                                function classifier, Orthogonal forward
-                                selection, Particle swarm optimisation"
-                    }
-
-    Notes:
-        * Not prepared for low-rank data.
-    """
-
-    categories = [OverSampling.cat_extensive, OverSampling.cat_density_estimation]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        metric_learning=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            metric_learning (str/None): optional metric learning method 'ITML',
-                                        'LSML'
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.metric_learning = metric_learning
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {"proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0]}
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, n_to_sample)
-
-        # scaling the data to aid numerical stability
-        scaler = StandardScaler()
-        X_scaled = scaler.fit_transform(X)  # pylint: disable=invalid-name
-
-        X_min = X_scaled[y == self.min_label]
-
-        # generating samples by kernel density estimation
-        try:
-            kde = PDFOSKDE(
-                metric_learning=self.metric_learning,
-                random_state=self._random_state_init,
-            ).fit(X_min, X_ml=X_scaled, y_ml=y)
-        except LinAlgError as exc:
-            return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
-        samples = kde.sample(n_to_sample)
-
-        return (
-            np.vstack([X, scaler.inverse_transform(samples)]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the PDFOS method.
+"""
+
+import numpy as np
+from numpy.linalg import LinAlgError
+
+from scipy.special import expit
+
+from sklearn.preprocessing import StandardScaler
+
+from ..base import RandomStateMixin, coalesce
+from ..base import MetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["PDFOS", "FullRankTransformer", "PDFOSKDE"]
+
+
+class FullRankTransformer:
+    """
+    Transforms data into a lower dimensional full rank covariance
+    representation
+    """
+
+    def __init__(self, eps=0.002):
+        """
+        Constructor of the object.
+
+        Args:
+            eps (float): the tolerance
+        """
+        self.eps = eps
+        self.mean = None
+        self.transformation = None
+        self.n_dim = None
+
+    def fit(self, X):
+        """
+        Fits the transformer to the data
+
+        Args:
+            X (np.array): all vectors to fit on
+
+        Returns:
+            self: the fitted object
+        """
+        cov = np.cov(X, rowvar=False)
+        eigw, eigv = np.linalg.eig(cov)
+
+        eigw = np.real(eigw)
+        eigv = np.real(eigv)
+
+        eigv_f = eigv[:, eigw > self.eps]
+
+        self.mean = np.mean(X, axis=0)
+        self.transformation = eigv_f
+        self.n_dim = eigv_f.shape[1]
+
+        return self
+
+    def transform(self, X):
+        """
+        Transforms the data
+
+        Args:
+            X (np.array): the data to transform
+
+        Returns:
+            np.array: the transformed data
+        """
+        if X is None:
+            return None
+        return np.dot(X - self.mean, self.transformation)
+
+    def inverse_transform(self, X):
+        """
+        Inverse transformation
+
+        Args:
+            X (np.array): the data to inverse transform
+
+        Returns:
+            np.array: the inverse transformed data
+        """
+        return np.dot(X, self.transformation.T) + self.mean
+
+
+class PDFOSKDE(RandomStateMixin):
+    """
+    The KDE in PDFOS
+    """
+
+    def __init__(self, metric_learning=None, random_state=None):
+        """
+        Constructor of the PDFOS KDE estimation
+
+        Args:
+            metric_learning (str/None): metric learning method
+            random_state (int/None/np.random.RandomState): random state
+                                                            initializer
+        """
+        RandomStateMixin.__init__(self, random_state)
+        self.transformer = FullRankTransformer(eps=0.02)
+        self.metric_learning = coalesce(metric_learning, "cov_min")
+        self.S = None  # pylint: disable=invalid-name
+        self.X_base = None
+
+    def eq_5_0(self, sigma, m):  # pylint: disable=invalid-name
+        """
+        Eq (5) in the paper
+
+        Args:
+            sigma (float): the sigma value
+            m (int): the dimensionality
+
+        Returns:
+            float: the value of the equation
+        """
+        return sigma ** (-m) / ((2.0 * np.pi) ** (m / 2))
+
+    def eq_8_vectorized(self, X, sigma, S_inv):  # pylint: disable=invalid-name
+        """
+        Eq (8) in the paper
+
+        Args:
+            X (np.array): all training vectors
+            sigma (float): the sigma value
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            np.array: the result of the equation for all pairs of vectors
+        """
+        m = X.shape[1]  # pylint: disable=invalid-name
+
+        tmp = X[:, None] - X
+        tmp = np.einsum("ijk,kl,lji -> ij", tmp, S_inv, tmp.T)
+
+        numerator_9 = (np.sqrt(2) * sigma) ** (-m) * expit(
+            -(1 / (4 * sigma**2)) * tmp
+        )
+        numerator_5 = sigma ** (-m) * expit(-(1 / (2 * sigma**2)) * tmp)
+        denominator = (2 * np.pi) ** (m / 2)
+        eq_9 = numerator_9 / denominator
+        eq_5 = numerator_5 / denominator
+
+        return eq_9 - 2 * eq_5
+
+    def M(  # pylint: disable=invalid-name
+        self,
+        sigma,
+        X,
+        S_inv,  # pylint: disable=invalid-name
+    ):
+        """
+        Eq (7) in the paper
+
+        Args:
+            X (np.array): all training vectors
+            sigma (float): the sigma value
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            float: the value of the equation
+        """
+        m = X.shape[1]  # pylint: disable=invalid-name
+        total = np.sum(self.eq_8_vectorized(X, sigma, S_inv))
+
+        term_a = total / len(X) ** 2
+        term_b = 2.0 * self.eq_5_0(sigma, m) / len(X)
+        return term_a + term_b
+
+    def find_best_sigma(self, X, n_optimize, S_inv):  # pylint: disable=invalid-name
+        """
+        Find the best sigma parameter.
+
+        Args:
+            X (np.array): all training vectors
+            n_optimize (int): the number of vectors used for
+                                the estimation
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            float: the best sigma value
+        """
+        # finding the best sigma parameter
+        best_sigma = 0
+        error = np.inf
+        # the dataset is reduced to make the optimization more efficient
+        domain = range(len(X))
+        n_to_choose = min([len(X), n_optimize])
+        X_reduced = X[  # pylint: disable=invalid-name
+            self.random_state.choice(
+                domain, n_to_choose, replace=False
+            )
+        ]
+
+        # we suppose that the data is normalized, thus, this search space
+        # should be meaningful
+        for sigma in np.logspace(-5, 2, num=20):
+            err = self.M(sigma, X_reduced, S_inv)
+            if err < error:
+                error = err
+                best_sigma = sigma
+        # _logger.info("%s: best sigma found %f",
+        #                self.__class__.__name__, best_sigma)
+
+        return best_sigma
+
+    def fit(self, X, X_ml, y_ml, n_optimize=100):  # pylint: disable=invalid-name
+        """
+        Fitting the kernel density estimator
+
+        Args:
+            X (np.array): the training vectors
+            X_ml (np.array): potential training vectors for
+                                    metric learning
+            y_ml (np.array): potential target labels for metric
+                                    learning
+            n_optimize (int): the number of random samples used
+                                for optimization
+
+        Returns:
+            obj: the fitted object
+        """
+        self.transformer.fit(X)
+
+        if self.transformer.n_dim == 0:
+            raise LinAlgError("the covariance matrix of the samples is zero")
+
+        X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
+
+        X_ml = self.transformer.transform(X_ml)
+
+        metrict = MetricTensor(metric_learning_method=self.metric_learning)
+        S_inv = metrict.tensor(X_ml, y_ml)  # pylint: disable=invalid-name
+        S = np.linalg.inv(S_inv)  # pylint: disable=invalid-name
+
+        best_sigma = self.find_best_sigma(X_trans, n_optimize, S_inv)
+
+        self.S = best_sigma * S
+        self.X_base = X_trans
+
+        return self
+
+    def sample(self, n_to_sample):
+        """
+        Draw a random sample from the fitted KDE
+
+        Args:
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples_raw = self.random_state.multivariate_normal(
+            np.repeat(0.0, self.X_base.shape[1]), self.S, size=n_to_sample
+        )
+
+        base_indices = self.random_state.choice(self.X_base.shape[0], n_to_sample)
+        unique_indices, unique_counts = np.unique(base_indices, return_counts=True)
+        samples = []
+        loc = 0
+        for idx, base_idx in enumerate(unique_indices):
+            samples.append(
+                self.X_base[base_idx] + samples_raw[loc : (loc + unique_counts[idx])]
+            )
+            loc = loc + unique_counts[idx]
+        samples = np.vstack(samples)
+        return self.transformer.inverse_transform(samples)
+
+
+class PDFOS(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{pdfos,
+                    title = "PDFOS: PDF estimation based over-sampling for
+                                imbalanced two-class problems",
+                    journal = "Neurocomputing",
+                    volume = "138",
+                    pages = "248 - 259",
+                    year = "2014",
+                    issn = "0925-2312",
+                    doi = "https://doi.org/10.1016/j.neucom.2014.02.006",
+                    author = "Ming Gao and Xia Hong and Sheng Chen and Chris
+                                J. Harris and Emad Khalaf",
+                    keywords = "Imbalanced classification, Probability density
+                                function based over-sampling, Radial basis
+                                function classifier, Orthogonal forward
+                                selection, Particle swarm optimisation"
+                    }
+
+    Notes:
+        * Not prepared for low-rank data.
+    """
+
+    categories = [OverSampling.cat_extensive, OverSampling.cat_density_estimation]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        metric_learning=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            metric_learning (str/None): optional metric learning method 'ITML',
+                                        'LSML'
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.metric_learning = metric_learning
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {"proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0]}
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, n_to_sample)
+
+        # scaling the data to aid numerical stability
+        scaler = StandardScaler()
+        X_scaled = scaler.fit_transform(X)  # pylint: disable=invalid-name
+
+        X_min = X_scaled[y == self.min_label]
+
+        # generating samples by kernel density estimation
+        try:
+            kde = PDFOSKDE(
+                metric_learning=self.metric_learning,
+                random_state=self._random_state_init,
+            ).fit(X_min, X_ml=X_scaled, y_ml=y)
+        except LinAlgError as exc:
+            return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
+        samples = kde.sample(n_to_sample)
+
+        return (
+            np.vstack([X, scaler.inverse_transform(samples)]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From 80af8f05bd11b91fd6680e604935d7ff8d198600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 013/101] fix: PDFOS reports its metric_learning parameter

---
 smote_variants/oversampling/_pdfos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 5bedcf8..2074374 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -390,6 +390,7 @@ class PDFOS(OverSampling):
         """
         return {
             "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From 268b96f06ac19cf86aa86fac87a201bd32af7156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 014/101] fix: SMOTE_AMSR returns copies when there is no need
 for sampling

---
 smote_variants/oversampling/_smote_amsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..bfc639f 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -427,7 +427,7 @@ class SMOTE_AMSR(OverSampling):
         )
         if n_to_sample == 0:
             _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return self.return_copies(X, y, "Sampling is not needed")
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From e3e2ae0489a9f95bb5845a64e3ad3d2810d2c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 015/101] fix: MOT2LD does not overwrite its n_components
 parameter during sampling

---
 smote_variants/oversampling/_mot2ld.py | 1035 ++++++++++++------------
 1 file changed, 517 insertions(+), 518 deletions(-)

diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index c9ebd24..82ef74c 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -1,518 +1,517 @@
-"""
-This module implements the MOT2LD method.
-"""
-
-import warnings
-
-import numpy as np
-
-from sklearn.manifold import TSNE
-import scipy.signal as ssignal
-from scipy.linalg import circulant
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSamplingSimplex
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["MOT2LD"]
-
-
-class MOT2LD(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{mot2ld,
-                            author="Xie, Zhipeng
-                            and Jiang, Liyang
-                            and Ye, Tengju
-                            and Li, Xiaoli",
-                            editor="Renz, Matthias
-                            and Shahabi, Cyrus
-                            and Zhou, Xiaofang
-                            and Cheema, Muhammad Aamir",
-                            title="A Synthetic Minority Oversampling Method
-                                    Based on Local Densities in Low-Dimensional
-                                    Space for Imbalanced Learning",
-                            booktitle="Database Systems for Advanced
-                                        Applications",
-                            year="2015",
-                            publisher="Springer International Publishing",
-                            address="Cham",
-                            pages="3--18",
-                            isbn="978-3-319-18123-3"
-                            }
-
-    Notes:
-        * Clusters might contain 1 elements, and all points can be filtered
-            as noise.
-        * Clusters might contain 0 elements as well, if all points are filtered
-            as noise.
-        * The entire clustering can become empty.
-        * TSNE is very slow when the number of instances is over a couple
-            of 1000
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_sample_ordinary,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_components=2,
-        k=5,
-        nn_params=None,
-        ss_params=None,
-        d_cut="auto",
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_components (int): number of components for stochastic
-                                neighborhood embedding
-            k (int): number of neighbors in the nearest neighbor component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            d_cut (float/str): distance cut value/'auto' for automated
-                                selection
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        nn_params = coalesce(nn_params, {})
-
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_components, "n_component", 1)
-        self.check_greater_or_equal(k, "k", 1)
-        if isinstance(d_cut, (int, float)):
-            if d_cut <= 0:
-                raise ValueError(
-                    f"{self.__class__.__name__}: Non-positive " "d_cut is not allowed"
-                )
-        elif d_cut != "auto":
-            raise ValueError(
-                f"{self.__class__.__name__}: d_cut value " f"{d_cut} not implemented"
-            )
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_components = n_components
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params
-        self.d_cut = d_cut
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_components": [2],
-            "k": [3, 5, 7],
-            "d_cut": ["auto"],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def density_peak_clustering(self, rho, indices_min, distances_min):
-        """
-        Do density peak clustering.
-
-        Args:
-            rho (np.array): the rho array
-            indices_min (np.array): the minority neighborhood structure
-            distances_min (np.array): the minority neighbor distances
-
-        Returns:
-            np.array, np.array, np.array: the r, d and idx arrays
-        """
-        # extracting the number of neighbors in a given radius
-        closest_highest = []
-        delta = []
-
-        # implementation of the density peak clustering algorithm
-        # based on http://science.sciencemag.org/content/344/6191/1492.full
-        for idx, rho_val in enumerate(rho):
-            closest_neighbors = indices_min[idx]
-            closest_densities = rho[closest_neighbors]
-            closest_highs = np.where(closest_densities > rho_val)[0]
-
-            if len(closest_highs) > 0:
-                closest_highest.append(closest_highs[0])
-                delta.append(distances_min[idx][closest_highs[0]])
-            else:
-                closest_highest.append(-1)
-                delta.append(np.max(distances_min))
-
-        to_sort = zip(rho, delta, np.arange(len(rho)))
-        r, d, idx = zip(
-            *sorted(to_sort, key=lambda x: x[0])
-        )  # pylint: disable=invalid-name
-        r, d, idx = (
-            np.array(r),
-            np.array(d),
-            np.array(idx),
-        )  # pylint: disable=invalid-name
-
-        return r, d, idx
-
-    def check_enough_clusters(self, d):  # pylint: disable=invalid-name
-        """
-        Check if there are enough clusters.
-
-        Args:
-            d (np.array): clusters
-        """
-        if len(d) < 3:
-            raise ValueError(f"Not enough clusters: {len(d)}")
-
-    def check_enough_peaks(self, peak_indices):
-        """
-        Check if there are enough peaks.
-
-        Args:
-            peak_indices (np.array): the peak indices
-        """
-        if len(peak_indices) == 0:
-            raise ValueError("No peaks found")
-
-    def determine_cluster_centers(self, X_min, rho, indices_min, distances_min):
-        """
-        Determine the cluster centers.
-
-        Args:
-            X_min (np.array): the minority samples
-            rho (np.array): the rho array
-            indices_min (np.array): the minority neighborhood structure
-            distances_min (np.array): the minority distances
-
-        Returns:
-            np.array: cluster centers
-        """
-        r, d, idx = self.density_peak_clustering(
-            rho, indices_min, distances_min  # pylint: disable=invalid-name
-        )
-
-        self.check_enough_clusters(d)
-
-        widths = np.arange(1, int(np.rint(len(r) / 2)))
-        peak_indices = np.array(ssignal.find_peaks_cwt(d, widths=widths))
-
-        self.check_enough_peaks(peak_indices)
-
-        cluster_centers = X_min[idx[peak_indices]]
-
-        return cluster_centers
-
-    def determine_neighborhoods(
-        self, X_tsne, X_min, nn_params  # pylint: disable=invalid-name
-    ):
-        """
-        Determine the neighborhood structures.
-
-        Args:
-            X_tsne (np.array): the transformed samples
-            X_min (np.array): the minority samples
-            nn_params (dict): the neighborhood parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array:
-                        the indices, minority distances,
-                        indices and the rho array
-        """
-        # fitting nearest neighbors model for all training data
-        n_neighbors = min([len(X_min), self.k + 1])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X_tsne)
-        distances, indices = nnmt.kneighbors(X_min)
-
-        # fitting nearest neighbors model to the minority data
-        nn_min = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(X_min), n_jobs=self.n_jobs, **(nn_params)
-        )
-        nn_min.fit(X_min)
-        distances_min, indices_min = nn_min.kneighbors(X_min)
-
-        if isinstance(self.d_cut, (int, float)):
-            d_cut = self.d_cut
-        elif self.d_cut == "auto":
-            d_cut = np.max(distances[:, 1])
-
-        rho = nnmt.radius_neighbors(X_min, d_cut, return_distance=False)
-        rho = np.array([rho_row.shape[0] for rho_row in rho])
-
-        return indices, distances_min, indices_min, rho
-
-    def determine_clusters(
-        self, X_tsne, y, X_min, nn_params  # pylint: disable=invalid-name
-    ):
-        """
-        Do the clustering.
-
-        Args:
-            X_tsne (np.array): all samples after TSNE transformation
-            y (np.array): target labels
-            X_min (np.array): the minority labels after transformation
-            nn_params (dict): the nearest neighbors parameters
-
-        Returns:
-            np.array, np.array, np.array: cluster centers, noise mask
-                                        and importance scores
-        """
-        indices, distances_min, indices_min, rho = self.determine_neighborhoods(
-            X_tsne, X_min, nn_params
-        )
-
-        cluster_centers = self.determine_cluster_centers(
-            X_min, rho, indices_min, distances_min
-        )
-
-        # computing local minority counts and determining noisy samples
-        local_minority_count = np.sum(y[indices[:, 1:]] == self.min_label, axis=1)
-
-        noise = np.where(np.logical_or(rho == 1, local_minority_count == 0))[0]
-
-        return cluster_centers, noise, local_minority_count / rho
-
-    def check_empty_clustering(self, cluster_indices):
-        """
-        Check if the clustering is empty
-
-        Args:
-            cluster_indices (np.array): cluster indices
-        """
-        # checking if clustering is empty
-        empty_clustering = np.all([len(cluster) == 0 for cluster in cluster_indices])
-
-        if empty_clustering:
-            raise ValueError("Empty clustering")
-
-    def check_probabilities(self, prob):
-        """
-        Check if the probabilities are empty.
-
-        Args:
-            prob (np.array): the probabilities
-        """
-
-        if np.sum(prob) == 0.0:
-            raise ValueError("Empty probabilities.")
-
-    def do_clustering(self, X_tsne, y, X_min):  # pylint: disable=invalid-name
-        """
-        Do the clustering.
-
-        Args:
-            X_tsne (np.array): all samples after TSNE transformation
-            y (np.array): all target labels
-            X_min (np.array): the minority labels after transformation
-
-        Returns:
-            np.array, np.array, np.array, np.array: the cluster indices,
-                            cluster labels, probabilities and noise mask
-        """
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_tsne, y
-        )
-
-        cluster_centers, noise, importance = self.determine_clusters(
-            X_tsne, y, X_min, nn_params
-        )
-
-        # finding closest cluster center to minority points and deriving
-        # cluster labels
-        nn_cluster = NearestNeighborsWithMetricTensor(
-            n_neighbors=1, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nn_cluster.fit(cluster_centers)
-        ind_cluster = nn_cluster.kneighbors(X_min, return_distance=False)
-        cluster_labels = ind_cluster[:, 0]
-
-        prob = importance
-        prob[noise] = 0.0
-
-        self.check_probabilities(prob)
-
-        prob = prob / np.sum(prob)
-
-        # extracting cluster indices
-        cluster_indices = [
-            np.where(cluster_labels == i)[0] for i in range(np.max(cluster_labels) + 1)
-        ]
-        # removing noise from clusters
-        cluster_indices = [list(set(c).difference(set(noise))) for c in cluster_indices]
-
-        self.check_empty_clustering(cluster_indices)
-
-        cluster_sizes = np.array([len(cluster) for cluster in cluster_indices])
-        empty = np.isin(cluster_labels, np.where(cluster_sizes == 0)[0])
-        prob[empty] = 0.0
-        prob = prob / np.sum(prob)
-
-        return cluster_indices, prob, noise
-
-    def determine_cluster_probabilities(self, cluster_indices, prob):
-        """
-        Determine the cluster probabilities.
-
-        Args:
-            cluster_indices (np.array): the cluster indices
-            prob (np.array): the sample probabilities
-
-        Returns:
-            np.array: the cluster probabilities
-        """
-        cluster_probs = np.zeros(len(cluster_indices))
-        for idx, indices in enumerate(cluster_indices):
-            if len(indices) > 0:
-                cluster_probs[idx] = np.sum(prob[indices])
-        cluster_probs = cluster_probs / np.sum(cluster_probs)
-
-        return cluster_probs
-
-    def generate_samples_in_clusters(
-        self, *, X_min, cluster_indices, prob, n_to_sample
-    ):
-        """
-        Generate samples in cluster.
-
-        Args:
-            X_min (np.array): the minority samples
-            cluster_indices (np.array): the cluster indices
-            prob (np.array): the probabilities
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        cluster_probs = self.determine_cluster_probabilities(cluster_indices, prob)
-
-        clusters_selected = self.random_state.choice(
-            len(cluster_probs), n_to_sample, p=cluster_probs
-        )
-        cluster_unique, cluster_count = np.unique(clusters_selected, return_counts=True)
-
-        samples = []
-        for idx, cluster in enumerate(cluster_unique):
-            cluster_vectors = X_min[cluster_indices[cluster]]
-            within_prob = prob[cluster_indices[cluster]]
-            within_prob = within_prob / np.sum(within_prob)
-            samples.append(
-                self.sample_simplex(
-                    X=cluster_vectors,
-                    indices=circulant(np.arange(cluster_vectors.shape[0])),
-                    n_to_sample=cluster_count[idx],
-                    base_weights=within_prob,
-                )
-            )
-
-        return np.vstack(samples)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        _logger.info(
-            "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
-        )
-
-        if self.n_components > X.shape[1]:
-            self.n_components = min(self.n_components, X.shape[1])
-
-        with warnings.catch_warnings():
-            warnings.filterwarnings("ignore")
-            # do the stochastic embedding
-            X_tsne = TSNE(  # pylint: disable=invalid-name
-                self.n_components,
-                random_state=self._random_state_init,
-                perplexity=np.min([10, X.shape[0] - 1]),
-                n_iter_without_progress=100,
-                n_iter=500,
-                verbose=0,
-                n_jobs=self.n_jobs,
-            ).fit_transform(X)
-
-        X_min = X_tsne[y == self.min_label]
-        _logger.info("%s: TSNE finished", self.__class__.__name__)
-
-        try:
-            cluster_indices, prob, noise = self.do_clustering(X_tsne, y, X_min)
-        except ValueError as valueerror:
-            return self.return_copies(X, y, valueerror.args[0])
-
-        # carrying out the sampling
-        X_min = X[y == self.min_label]
-
-        samples = self.generate_samples_in_clusters(
-            X_min=X_min,
-            cluster_indices=cluster_indices,
-            prob=prob,
-            n_to_sample=n_to_sample,
-        )
-
-        return (
-            np.vstack([np.delete(X, noise, axis=0), np.vstack(samples)]),
-            np.hstack([np.delete(y, noise), np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_components": self.n_components,
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "d_cut": self.d_cut,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the MOT2LD method.
+"""
+
+import warnings
+
+import numpy as np
+
+from sklearn.manifold import TSNE
+import scipy.signal as ssignal
+from scipy.linalg import circulant
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSamplingSimplex
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["MOT2LD"]
+
+
+class MOT2LD(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{mot2ld,
+                            author="Xie, Zhipeng
+                            and Jiang, Liyang
+                            and Ye, Tengju
+                            and Li, Xiaoli",
+                            editor="Renz, Matthias
+                            and Shahabi, Cyrus
+                            and Zhou, Xiaofang
+                            and Cheema, Muhammad Aamir",
+                            title="A Synthetic Minority Oversampling Method
+                                    Based on Local Densities in Low-Dimensional
+                                    Space for Imbalanced Learning",
+                            booktitle="Database Systems for Advanced
+                                        Applications",
+                            year="2015",
+                            publisher="Springer International Publishing",
+                            address="Cham",
+                            pages="3--18",
+                            isbn="978-3-319-18123-3"
+                            }
+
+    Notes:
+        * Clusters might contain 1 elements, and all points can be filtered
+            as noise.
+        * Clusters might contain 0 elements as well, if all points are filtered
+            as noise.
+        * The entire clustering can become empty.
+        * TSNE is very slow when the number of instances is over a couple
+            of 1000
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_sample_ordinary,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_components=2,
+        k=5,
+        nn_params=None,
+        ss_params=None,
+        d_cut="auto",
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_components (int): number of components for stochastic
+                                neighborhood embedding
+            k (int): number of neighbors in the nearest neighbor component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            d_cut (float/str): distance cut value/'auto' for automated
+                                selection
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        nn_params = coalesce(nn_params, {})
+
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_components, "n_component", 1)
+        self.check_greater_or_equal(k, "k", 1)
+        if isinstance(d_cut, (int, float)):
+            if d_cut <= 0:
+                raise ValueError(
+                    f"{self.__class__.__name__}: Non-positive " "d_cut is not allowed"
+                )
+        elif d_cut != "auto":
+            raise ValueError(
+                f"{self.__class__.__name__}: d_cut value " f"{d_cut} not implemented"
+            )
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_components = n_components
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params
+        self.d_cut = d_cut
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_components": [2],
+            "k": [3, 5, 7],
+            "d_cut": ["auto"],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def density_peak_clustering(self, rho, indices_min, distances_min):
+        """
+        Do density peak clustering.
+
+        Args:
+            rho (np.array): the rho array
+            indices_min (np.array): the minority neighborhood structure
+            distances_min (np.array): the minority neighbor distances
+
+        Returns:
+            np.array, np.array, np.array: the r, d and idx arrays
+        """
+        # extracting the number of neighbors in a given radius
+        closest_highest = []
+        delta = []
+
+        # implementation of the density peak clustering algorithm
+        # based on http://science.sciencemag.org/content/344/6191/1492.full
+        for idx, rho_val in enumerate(rho):
+            closest_neighbors = indices_min[idx]
+            closest_densities = rho[closest_neighbors]
+            closest_highs = np.where(closest_densities > rho_val)[0]
+
+            if len(closest_highs) > 0:
+                closest_highest.append(closest_highs[0])
+                delta.append(distances_min[idx][closest_highs[0]])
+            else:
+                closest_highest.append(-1)
+                delta.append(np.max(distances_min))
+
+        to_sort = zip(rho, delta, np.arange(len(rho)))
+        r, d, idx = zip(
+            *sorted(to_sort, key=lambda x: x[0])
+        )  # pylint: disable=invalid-name
+        r, d, idx = (
+            np.array(r),
+            np.array(d),
+            np.array(idx),
+        )  # pylint: disable=invalid-name
+
+        return r, d, idx
+
+    def check_enough_clusters(self, d):  # pylint: disable=invalid-name
+        """
+        Check if there are enough clusters.
+
+        Args:
+            d (np.array): clusters
+        """
+        if len(d) < 3:
+            raise ValueError(f"Not enough clusters: {len(d)}")
+
+    def check_enough_peaks(self, peak_indices):
+        """
+        Check if there are enough peaks.
+
+        Args:
+            peak_indices (np.array): the peak indices
+        """
+        if len(peak_indices) == 0:
+            raise ValueError("No peaks found")
+
+    def determine_cluster_centers(self, X_min, rho, indices_min, distances_min):
+        """
+        Determine the cluster centers.
+
+        Args:
+            X_min (np.array): the minority samples
+            rho (np.array): the rho array
+            indices_min (np.array): the minority neighborhood structure
+            distances_min (np.array): the minority distances
+
+        Returns:
+            np.array: cluster centers
+        """
+        r, d, idx = self.density_peak_clustering(
+            rho, indices_min, distances_min  # pylint: disable=invalid-name
+        )
+
+        self.check_enough_clusters(d)
+
+        widths = np.arange(1, int(np.rint(len(r) / 2)))
+        peak_indices = np.array(ssignal.find_peaks_cwt(d, widths=widths))
+
+        self.check_enough_peaks(peak_indices)
+
+        cluster_centers = X_min[idx[peak_indices]]
+
+        return cluster_centers
+
+    def determine_neighborhoods(
+        self, X_tsne, X_min, nn_params  # pylint: disable=invalid-name
+    ):
+        """
+        Determine the neighborhood structures.
+
+        Args:
+            X_tsne (np.array): the transformed samples
+            X_min (np.array): the minority samples
+            nn_params (dict): the neighborhood parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array:
+                        the indices, minority distances,
+                        indices and the rho array
+        """
+        # fitting nearest neighbors model for all training data
+        n_neighbors = min([len(X_min), self.k + 1])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X_tsne)
+        distances, indices = nnmt.kneighbors(X_min)
+
+        # fitting nearest neighbors model to the minority data
+        nn_min = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(X_min), n_jobs=self.n_jobs, **(nn_params)
+        )
+        nn_min.fit(X_min)
+        distances_min, indices_min = nn_min.kneighbors(X_min)
+
+        if isinstance(self.d_cut, (int, float)):
+            d_cut = self.d_cut
+        elif self.d_cut == "auto":
+            d_cut = np.max(distances[:, 1])
+
+        rho = nnmt.radius_neighbors(X_min, d_cut, return_distance=False)
+        rho = np.array([rho_row.shape[0] for rho_row in rho])
+
+        return indices, distances_min, indices_min, rho
+
+    def determine_clusters(
+        self, X_tsne, y, X_min, nn_params  # pylint: disable=invalid-name
+    ):
+        """
+        Do the clustering.
+
+        Args:
+            X_tsne (np.array): all samples after TSNE transformation
+            y (np.array): target labels
+            X_min (np.array): the minority labels after transformation
+            nn_params (dict): the nearest neighbors parameters
+
+        Returns:
+            np.array, np.array, np.array: cluster centers, noise mask
+                                        and importance scores
+        """
+        indices, distances_min, indices_min, rho = self.determine_neighborhoods(
+            X_tsne, X_min, nn_params
+        )
+
+        cluster_centers = self.determine_cluster_centers(
+            X_min, rho, indices_min, distances_min
+        )
+
+        # computing local minority counts and determining noisy samples
+        local_minority_count = np.sum(y[indices[:, 1:]] == self.min_label, axis=1)
+
+        noise = np.where(np.logical_or(rho == 1, local_minority_count == 0))[0]
+
+        return cluster_centers, noise, local_minority_count / rho
+
+    def check_empty_clustering(self, cluster_indices):
+        """
+        Check if the clustering is empty
+
+        Args:
+            cluster_indices (np.array): cluster indices
+        """
+        # checking if clustering is empty
+        empty_clustering = np.all([len(cluster) == 0 for cluster in cluster_indices])
+
+        if empty_clustering:
+            raise ValueError("Empty clustering")
+
+    def check_probabilities(self, prob):
+        """
+        Check if the probabilities are empty.
+
+        Args:
+            prob (np.array): the probabilities
+        """
+
+        if np.sum(prob) == 0.0:
+            raise ValueError("Empty probabilities.")
+
+    def do_clustering(self, X_tsne, y, X_min):  # pylint: disable=invalid-name
+        """
+        Do the clustering.
+
+        Args:
+            X_tsne (np.array): all samples after TSNE transformation
+            y (np.array): all target labels
+            X_min (np.array): the minority labels after transformation
+
+        Returns:
+            np.array, np.array, np.array, np.array: the cluster indices,
+                            cluster labels, probabilities and noise mask
+        """
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_tsne, y
+        )
+
+        cluster_centers, noise, importance = self.determine_clusters(
+            X_tsne, y, X_min, nn_params
+        )
+
+        # finding closest cluster center to minority points and deriving
+        # cluster labels
+        nn_cluster = NearestNeighborsWithMetricTensor(
+            n_neighbors=1, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nn_cluster.fit(cluster_centers)
+        ind_cluster = nn_cluster.kneighbors(X_min, return_distance=False)
+        cluster_labels = ind_cluster[:, 0]
+
+        prob = importance
+        prob[noise] = 0.0
+
+        self.check_probabilities(prob)
+
+        prob = prob / np.sum(prob)
+
+        # extracting cluster indices
+        cluster_indices = [
+            np.where(cluster_labels == i)[0] for i in range(np.max(cluster_labels) + 1)
+        ]
+        # removing noise from clusters
+        cluster_indices = [list(set(c).difference(set(noise))) for c in cluster_indices]
+
+        self.check_empty_clustering(cluster_indices)
+
+        cluster_sizes = np.array([len(cluster) for cluster in cluster_indices])
+        empty = np.isin(cluster_labels, np.where(cluster_sizes == 0)[0])
+        prob[empty] = 0.0
+        prob = prob / np.sum(prob)
+
+        return cluster_indices, prob, noise
+
+    def determine_cluster_probabilities(self, cluster_indices, prob):
+        """
+        Determine the cluster probabilities.
+
+        Args:
+            cluster_indices (np.array): the cluster indices
+            prob (np.array): the sample probabilities
+
+        Returns:
+            np.array: the cluster probabilities
+        """
+        cluster_probs = np.zeros(len(cluster_indices))
+        for idx, indices in enumerate(cluster_indices):
+            if len(indices) > 0:
+                cluster_probs[idx] = np.sum(prob[indices])
+        cluster_probs = cluster_probs / np.sum(cluster_probs)
+
+        return cluster_probs
+
+    def generate_samples_in_clusters(
+        self, *, X_min, cluster_indices, prob, n_to_sample
+    ):
+        """
+        Generate samples in cluster.
+
+        Args:
+            X_min (np.array): the minority samples
+            cluster_indices (np.array): the cluster indices
+            prob (np.array): the probabilities
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        cluster_probs = self.determine_cluster_probabilities(cluster_indices, prob)
+
+        clusters_selected = self.random_state.choice(
+            len(cluster_probs), n_to_sample, p=cluster_probs
+        )
+        cluster_unique, cluster_count = np.unique(clusters_selected, return_counts=True)
+
+        samples = []
+        for idx, cluster in enumerate(cluster_unique):
+            cluster_vectors = X_min[cluster_indices[cluster]]
+            within_prob = prob[cluster_indices[cluster]]
+            within_prob = within_prob / np.sum(within_prob)
+            samples.append(
+                self.sample_simplex(
+                    X=cluster_vectors,
+                    indices=circulant(np.arange(cluster_vectors.shape[0])),
+                    n_to_sample=cluster_count[idx],
+                    base_weights=within_prob,
+                )
+            )
+
+        return np.vstack(samples)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        _logger.info(
+            "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
+        )
+
+        n_components = min(self.n_components, X.shape[1])
+
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore")
+            # do the stochastic embedding
+            X_tsne = TSNE(  # pylint: disable=invalid-name
+                n_components,
+                random_state=self._random_state_init,
+                perplexity=np.min([10, X.shape[0] - 1]),
+                n_iter_without_progress=100,
+                n_iter=500,
+                verbose=0,
+                n_jobs=self.n_jobs,
+            ).fit_transform(X)
+
+        X_min = X_tsne[y == self.min_label]
+        _logger.info("%s: TSNE finished", self.__class__.__name__)
+
+        try:
+            cluster_indices, prob, noise = self.do_clustering(X_tsne, y, X_min)
+        except ValueError as valueerror:
+            return self.return_copies(X, y, valueerror.args[0])
+
+        # carrying out the sampling
+        X_min = X[y == self.min_label]
+
+        samples = self.generate_samples_in_clusters(
+            X_min=X_min,
+            cluster_indices=cluster_indices,
+            prob=prob,
+            n_to_sample=n_to_sample,
+        )
+
+        return (
+            np.vstack([np.delete(X, noise, axis=0), np.vstack(samples)]),
+            np.hstack([np.delete(y, noise), np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_components": self.n_components,
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "d_cut": self.d_cut,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
-- 
2.43.0


From 7458398c9957af872465b89612629f5f76b5935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 016/101] fix: SOI_CJ does not overwrite its gaussian_component
 parameter during sampling

---
 smote_variants/oversampling/_soi_cj.py | 965 +++++++++++++------------
 1 file changed, 484 insertions(+), 481 deletions(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 7cccf90..38ad060 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -1,481 +1,484 @@
-"""
-This module implements the SOI_CJ method.
-"""
-import itertools
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
-from ..base import OverSamplingSimplex
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SOI_CJ"]
-
-
-class SOI_CJ(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @article{soi_cj,
-                    author = {Sánchez, Atlántida I. and Morales, Eduardo and
-                                Gonzalez, Jesus},
-                    year = {2013},
-                    month = {01},
-                    pages = {},
-                    title = {Synthetic Oversampling of Instances Using
-                                Clustering},
-                    volume = {22},
-                    booktitle = {International Journal of Artificial
-                                    Intelligence Tools}
-                    }
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_sample_componentwise,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        method="jittering",
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of nearest neighbors in the SMOTE
-                                sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            method (str): 'interpolation'/'jittering'
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 1,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_isin(method, "method", ["interpolation", "jittering"])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.method = method
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "method": ["interpolation", "jittering"],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def rearrange_clusters(self, cluster_idx, cluster_jdx, intersection):
-        """
-        Move the difference into the bigger cluster.
-
-        Args:
-            cluster_idx (set): the first cluster
-            cluster_jdx (set): the second cluster
-            intersection (set): the intersection of the clusters
-
-        Returns:
-            set, set: the updated cluster_idx and cluster_jdx
-        """
-        # otherwise move the difference into the
-        # bigger cluster
-        if len(cluster_idx) > len(cluster_jdx):
-            # removes the items that exist in both sets
-            cluster_jdx.difference_update(intersection)
-        else:
-            cluster_idx.difference_update(intersection)
-
-        return cluster_idx, cluster_jdx
-
-    def update_clusters(
-        self, *, X, y, cluster_idx, cluster_jdx, intersection, nn_all, nn_params
-    ):
-        """
-        Update two clusters during the merging.
-
-        Args:
-            X (np.array): the training vectors
-            y (np.array): the target labels
-            cluster_idx (set): the cluster at the index idx
-            cluster_jdx (set): the cluster at the index jdx
-            intersection (set): the intersection of the clusters
-            nn_all (obj): fitted nearest neighbors object
-            nn_params (dict): nearest neighbor parameters
-
-        Returns:
-            set, set: the updated clusters cluster_idx and cluster_jdx
-        """
-        # computing distance matrix
-        distm = pairwise_distances_mahalanobis(
-            X[list(cluster_idx)],
-            Y=X[list(cluster_jdx)],
-            tensor=nn_params.get("metric_tensor", None),
-        )
-        # largest distance
-        max_dist_pair = np.where(distm == np.max(distm))
-        # elements with the largest distance
-        max_i = X[list(cluster_idx)[max_dist_pair[0][0]]]
-        max_j = X[list(cluster_jdx)[max_dist_pair[1][0]]]
-
-        # finding midpoint and radius
-        mid_point = (max_i + max_j) / 2.0
-        radius = np.linalg.norm(mid_point - max_i)
-
-        # extracting points within the hypersphare of
-        # radius "radius"
-        ind = nn_all.radius_neighbors(
-            mid_point.reshape(1, -1), radius, return_distance=False
-        )
-
-        if np.sum(y[ind[0].astype(int)] == self.min_label) > len(ind[0]) / 2:
-            # if most of the covered elements come from the
-            # minority class, merge clusters
-            cluster_idx.update(cluster_jdx)
-            cluster_jdx = set()
-        else:
-            cluster_idx, cluster_jdx = self.rearrange_clusters(
-                cluster_idx, cluster_jdx, intersection
-            )
-
-        return cluster_idx, cluster_jdx
-
-    def init_clusters(self, y, indices):
-        """
-        Initialize the clusters.
-
-        Args:
-            y (np.array): all target labels
-            indices (np.array): the neighborhood structure
-
-        Returns:
-            list(set): the initial clusters
-        """
-        clusters = []
-
-        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
-
-        for idx in range(indices.shape[0]):
-            # while the closest instance is from the minority class, adding it
-            # to the cluster
-            clusters.append(set(indices[idx, : first_maj_index[idx]].tolist()))
-
-        return clusters
-
-    def clustering(self, X, y, nn_params):
-        """
-        Implementation of the clustering technique described in the paper.
-
-        Args:
-            X (np.array): array of training instances
-            y (np.array): target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            list(set): list of minority clusters
-        """
-        nn_all = NearestNeighborsWithMetricTensor(n_jobs=self.n_jobs, **nn_params)
-        nn_all.fit(X)
-
-        X_min = X[y == self.min_label]
-
-        # extract nearest neighbors of all samples from the set of
-        # minority samples
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(X_min), n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X_min, return_distance=False)
-
-        # initialize clusters by minority samples
-        clusters = self.init_clusters(y, indices)
-
-        # cluster merging phase
-        is_intersection = True
-        while is_intersection:
-            is_intersection = False
-            for idx, cluster_idx in enumerate(clusters):
-                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
-                    # computing intersection
-                    intersection = cluster_idx.intersection(cluster_jdx)
-                    if len(intersection) > 0:
-                        is_intersection = True
-
-                        cluster_idx, cluster_jdx = self.update_clusters(
-                            X=X,
-                            y=y,
-                            cluster_idx=cluster_idx,
-                            cluster_jdx=cluster_jdx,
-                            intersection=intersection,
-                            nn_all=nn_all,
-                            nn_params=nn_params,
-                        )
-
-                        clusters[idx] = cluster_idx
-                        clusters[jdx] = cluster_jdx
-
-            clusters = [c for c in clusters if len(c) > 0]
-
-        # returning non-empty clusters
-        return clusters
-
-    def sample_within_cluster_interpolation(self, X, cluster, n_to_sample):
-        """
-        Sample within a cluster by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            cluster (set): the cluster indices
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        combinations = list(itertools.combinations(np.arange(len(cluster)), 2))
-        indices = self.random_state.choice(np.arange(len(combinations)), n_to_sample)
-
-        combinations = np.array(combinations)[indices]
-        coords = np.array(list(zip(*combinations)))
-
-        X_0 = X[np.array(cluster)[coords[0]]]  # pylint: disable=invalid-name
-        X_1 = X[np.array(cluster)[coords[1]]]  # pylint: disable=invalid-name
-        samples = X_0 + (X_1 - X_0) * self.random_state.random_sample(size=X_0.shape)
-
-        return samples
-
-    def sampling_by_interpolation(self, X, clusters, cluster_weights, n_to_sample):
-        """
-        Generate samples by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            clusters (list(set)): the cluster indices
-            cluster_weights (np.array): the weights of the clusters
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples = np.zeros(shape=(0, X.shape[1]))
-        cluster_indices = self.random_state.choice(
-            np.arange(len(clusters)), n_to_sample, p=cluster_weights
-        )
-        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
-        for idx, cluster_idx in enumerate(cluster_unique):
-            samples_tmp = self.sample_within_cluster_interpolation(
-                X, clusters[cluster_idx], cluster_count[idx]
-            )
-            samples = np.vstack([samples, samples_tmp])
-
-        return samples
-
-    def cluster_stds(self, X, y, clusters):
-        """
-        Determine the cluster dependent stds.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            clusters (list(set)): the cluster indices
-
-        Returns:
-            np.array: the stds for the clusters
-        """
-        std_min = np.std(X[y == self.min_label], axis=0)
-        cluster_stds = []
-
-        for cluster in clusters:
-            std = np.std(X[cluster], axis=0)
-            std = np.min(np.vstack([std_min, std]), axis=0)
-            cluster_stds.append(std)
-
-        return np.array(cluster_stds)
-
-    def sample_within_cluster_jittering(
-        self, *, X, cluster, n_to_sample, std, nn_params
-    ):
-        """
-        Sample within a cluster by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            cluster (set): the cluster indices
-            n_to_sample (int): the number of samples to generate
-            std (np.array): the cluster specific standard deviations
-
-        Returns:
-            np.array: the generated samples
-        """
-
-        self.gaussian_component = {"sigmas": std}
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X[cluster])
-        indices = nnmt.kneighbors(X[cluster], return_distance=False)
-
-        samples = self.sample_simplex(
-            X=X[cluster], indices=indices, n_to_sample=n_to_sample
-        )
-
-        # indices = self.random_state.choice(np.arange(len(cluster)),
-        #                                        n_to_sample)
-        # X_base = X[np.array(cluster)[indices]]
-        # samples = X_base + self.random_state.normal(size=X_base.shape) * std
-
-        return samples
-
-    def sampling_by_jittering(
-        self, *, X, y, clusters, cluster_weights, n_to_sample, nn_params
-    ):
-        """
-        Generate samples by jittering.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            clusters (list(set)): the cluster indices
-            cluster_weights (np.array): the weights of the clusters
-            n_to_sample (int): the number of samples to generate
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array: the generated samples
-        """
-        stds = self.cluster_stds(X, y, clusters)
-
-        samples = np.zeros(shape=(0, X.shape[1]))
-
-        cluster_indices = self.random_state.choice(
-            np.arange(len(clusters)), n_to_sample, p=cluster_weights
-        )
-        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            X_samp = self.sample_within_cluster_jittering(
-                X=X,
-                cluster=clusters[cluster_idx],
-                n_to_sample=cluster_count[idx],
-                std=stds[cluster_idx],
-                nn_params=nn_params,
-            )
-            samples = np.vstack([samples, X_samp])
-
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # do the clustering
-        _logger.info("%s: Executing clustering", self.__class__.__name__)
-        clusters = self.clustering(X, y, nn_params)
-
-        # filtering the clusters, at least two points in a cluster are needed
-        # for both interpolation and jittering (due to the standard deviation)
-        clusters_filtered = [list(c) for c in clusters if len(c) > 2]
-
-        if len(clusters_filtered) == 0:
-            return self.return_copies(X, y, "No clusters with at least 2 elements")
-
-        # if there are clusters having at least 2 elements, do the sampling
-        cluster_nums = [len(c) for c in clusters_filtered]
-        cluster_weights = cluster_nums / np.sum(cluster_nums)
-
-        _logger.info("%s: Executing sample generation", self.__class__.__name__)
-
-        if self.method == "interpolation":
-            samples = self.sampling_by_interpolation(
-                X, clusters_filtered, cluster_weights, n_to_sample
-            )
-        elif self.method == "jittering":
-            samples = self.sampling_by_jittering(
-                X=X,
-                y=y,
-                clusters=clusters_filtered,
-                cluster_weights=cluster_weights,
-                n_to_sample=n_to_sample,
-                nn_params=nn_params,
-            )
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.array([self.min_label] * len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "method": self.method,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the SOI_CJ method.
+"""
+import itertools
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
+from ..base import OverSamplingSimplex
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SOI_CJ"]
+
+
+class SOI_CJ(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @article{soi_cj,
+                    author = {Sánchez, Atlántida I. and Morales, Eduardo and
+                                Gonzalez, Jesus},
+                    year = {2013},
+                    month = {01},
+                    pages = {},
+                    title = {Synthetic Oversampling of Instances Using
+                                Clustering},
+                    volume = {22},
+                    booktitle = {International Journal of Artificial
+                                    Intelligence Tools}
+                    }
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_sample_componentwise,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        method="jittering",
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of nearest neighbors in the SMOTE
+                                sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            method (str): 'interpolation'/'jittering'
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 1,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_isin(method, "method", ["interpolation", "jittering"])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.method = method
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "method": ["interpolation", "jittering"],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def rearrange_clusters(self, cluster_idx, cluster_jdx, intersection):
+        """
+        Move the difference into the bigger cluster.
+
+        Args:
+            cluster_idx (set): the first cluster
+            cluster_jdx (set): the second cluster
+            intersection (set): the intersection of the clusters
+
+        Returns:
+            set, set: the updated cluster_idx and cluster_jdx
+        """
+        # otherwise move the difference into the
+        # bigger cluster
+        if len(cluster_idx) > len(cluster_jdx):
+            # removes the items that exist in both sets
+            cluster_jdx.difference_update(intersection)
+        else:
+            cluster_idx.difference_update(intersection)
+
+        return cluster_idx, cluster_jdx
+
+    def update_clusters(
+        self, *, X, y, cluster_idx, cluster_jdx, intersection, nn_all, nn_params
+    ):
+        """
+        Update two clusters during the merging.
+
+        Args:
+            X (np.array): the training vectors
+            y (np.array): the target labels
+            cluster_idx (set): the cluster at the index idx
+            cluster_jdx (set): the cluster at the index jdx
+            intersection (set): the intersection of the clusters
+            nn_all (obj): fitted nearest neighbors object
+            nn_params (dict): nearest neighbor parameters
+
+        Returns:
+            set, set: the updated clusters cluster_idx and cluster_jdx
+        """
+        # computing distance matrix
+        distm = pairwise_distances_mahalanobis(
+            X[list(cluster_idx)],
+            Y=X[list(cluster_jdx)],
+            tensor=nn_params.get("metric_tensor", None),
+        )
+        # largest distance
+        max_dist_pair = np.where(distm == np.max(distm))
+        # elements with the largest distance
+        max_i = X[list(cluster_idx)[max_dist_pair[0][0]]]
+        max_j = X[list(cluster_jdx)[max_dist_pair[1][0]]]
+
+        # finding midpoint and radius
+        mid_point = (max_i + max_j) / 2.0
+        radius = np.linalg.norm(mid_point - max_i)
+
+        # extracting points within the hypersphare of
+        # radius "radius"
+        ind = nn_all.radius_neighbors(
+            mid_point.reshape(1, -1), radius, return_distance=False
+        )
+
+        if np.sum(y[ind[0].astype(int)] == self.min_label) > len(ind[0]) / 2:
+            # if most of the covered elements come from the
+            # minority class, merge clusters
+            cluster_idx.update(cluster_jdx)
+            cluster_jdx = set()
+        else:
+            cluster_idx, cluster_jdx = self.rearrange_clusters(
+                cluster_idx, cluster_jdx, intersection
+            )
+
+        return cluster_idx, cluster_jdx
+
+    def init_clusters(self, y, indices):
+        """
+        Initialize the clusters.
+
+        Args:
+            y (np.array): all target labels
+            indices (np.array): the neighborhood structure
+
+        Returns:
+            list(set): the initial clusters
+        """
+        clusters = []
+
+        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
+
+        for idx in range(indices.shape[0]):
+            # while the closest instance is from the minority class, adding it
+            # to the cluster
+            clusters.append(set(indices[idx, : first_maj_index[idx]].tolist()))
+
+        return clusters
+
+    def clustering(self, X, y, nn_params):
+        """
+        Implementation of the clustering technique described in the paper.
+
+        Args:
+            X (np.array): array of training instances
+            y (np.array): target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            list(set): list of minority clusters
+        """
+        nn_all = NearestNeighborsWithMetricTensor(n_jobs=self.n_jobs, **nn_params)
+        nn_all.fit(X)
+
+        X_min = X[y == self.min_label]
+
+        # extract nearest neighbors of all samples from the set of
+        # minority samples
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(X_min), n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X_min, return_distance=False)
+
+        # initialize clusters by minority samples
+        clusters = self.init_clusters(y, indices)
+
+        # cluster merging phase
+        is_intersection = True
+        while is_intersection:
+            is_intersection = False
+            for idx, cluster_idx in enumerate(clusters):
+                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
+                    # computing intersection
+                    intersection = cluster_idx.intersection(cluster_jdx)
+                    if len(intersection) > 0:
+                        is_intersection = True
+
+                        cluster_idx, cluster_jdx = self.update_clusters(
+                            X=X,
+                            y=y,
+                            cluster_idx=cluster_idx,
+                            cluster_jdx=cluster_jdx,
+                            intersection=intersection,
+                            nn_all=nn_all,
+                            nn_params=nn_params,
+                        )
+
+                        clusters[idx] = cluster_idx
+                        clusters[jdx] = cluster_jdx
+
+            clusters = [c for c in clusters if len(c) > 0]
+
+        # returning non-empty clusters
+        return clusters
+
+    def sample_within_cluster_interpolation(self, X, cluster, n_to_sample):
+        """
+        Sample within a cluster by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            cluster (set): the cluster indices
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        combinations = list(itertools.combinations(np.arange(len(cluster)), 2))
+        indices = self.random_state.choice(np.arange(len(combinations)), n_to_sample)
+
+        combinations = np.array(combinations)[indices]
+        coords = np.array(list(zip(*combinations)))
+
+        X_0 = X[np.array(cluster)[coords[0]]]  # pylint: disable=invalid-name
+        X_1 = X[np.array(cluster)[coords[1]]]  # pylint: disable=invalid-name
+        samples = X_0 + (X_1 - X_0) * self.random_state.random_sample(size=X_0.shape)
+
+        return samples
+
+    def sampling_by_interpolation(self, X, clusters, cluster_weights, n_to_sample):
+        """
+        Generate samples by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            clusters (list(set)): the cluster indices
+            cluster_weights (np.array): the weights of the clusters
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples = np.zeros(shape=(0, X.shape[1]))
+        cluster_indices = self.random_state.choice(
+            np.arange(len(clusters)), n_to_sample, p=cluster_weights
+        )
+        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
+        for idx, cluster_idx in enumerate(cluster_unique):
+            samples_tmp = self.sample_within_cluster_interpolation(
+                X, clusters[cluster_idx], cluster_count[idx]
+            )
+            samples = np.vstack([samples, samples_tmp])
+
+        return samples
+
+    def cluster_stds(self, X, y, clusters):
+        """
+        Determine the cluster dependent stds.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            clusters (list(set)): the cluster indices
+
+        Returns:
+            np.array: the stds for the clusters
+        """
+        std_min = np.std(X[y == self.min_label], axis=0)
+        cluster_stds = []
+
+        for cluster in clusters:
+            std = np.std(X[cluster], axis=0)
+            std = np.min(np.vstack([std_min, std]), axis=0)
+            cluster_stds.append(std)
+
+        return np.array(cluster_stds)
+
+    def sample_within_cluster_jittering(
+        self, *, X, cluster, n_to_sample, std, nn_params
+    ):
+        """
+        Sample within a cluster by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            cluster (set): the cluster indices
+            n_to_sample (int): the number of samples to generate
+            std (np.array): the cluster specific standard deviations
+
+        Returns:
+            np.array: the generated samples
+        """
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X[cluster])
+        indices = nnmt.kneighbors(X[cluster], return_distance=False)
+
+        gaussian_component = self.gaussian_component
+        self.gaussian_component = {"sigmas": std}
+
+        samples = self.sample_simplex(
+            X=X[cluster], indices=indices, n_to_sample=n_to_sample
+        )
+
+        self.gaussian_component = gaussian_component
+
+        # indices = self.random_state.choice(np.arange(len(cluster)),
+        #                                        n_to_sample)
+        # X_base = X[np.array(cluster)[indices]]
+        # samples = X_base + self.random_state.normal(size=X_base.shape) * std
+
+        return samples
+
+    def sampling_by_jittering(
+        self, *, X, y, clusters, cluster_weights, n_to_sample, nn_params
+    ):
+        """
+        Generate samples by jittering.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            clusters (list(set)): the cluster indices
+            cluster_weights (np.array): the weights of the clusters
+            n_to_sample (int): the number of samples to generate
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array: the generated samples
+        """
+        stds = self.cluster_stds(X, y, clusters)
+
+        samples = np.zeros(shape=(0, X.shape[1]))
+
+        cluster_indices = self.random_state.choice(
+            np.arange(len(clusters)), n_to_sample, p=cluster_weights
+        )
+        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            X_samp = self.sample_within_cluster_jittering(
+                X=X,
+                cluster=clusters[cluster_idx],
+                n_to_sample=cluster_count[idx],
+                std=stds[cluster_idx],
+                nn_params=nn_params,
+            )
+            samples = np.vstack([samples, X_samp])
+
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # do the clustering
+        _logger.info("%s: Executing clustering", self.__class__.__name__)
+        clusters = self.clustering(X, y, nn_params)
+
+        # filtering the clusters, at least two points in a cluster are needed
+        # for both interpolation and jittering (due to the standard deviation)
+        clusters_filtered = [list(c) for c in clusters if len(c) > 2]
+
+        if len(clusters_filtered) == 0:
+            return self.return_copies(X, y, "No clusters with at least 2 elements")
+
+        # if there are clusters having at least 2 elements, do the sampling
+        cluster_nums = [len(c) for c in clusters_filtered]
+        cluster_weights = cluster_nums / np.sum(cluster_nums)
+
+        _logger.info("%s: Executing sample generation", self.__class__.__name__)
+
+        if self.method == "interpolation":
+            samples = self.sampling_by_interpolation(
+                X, clusters_filtered, cluster_weights, n_to_sample
+            )
+        elif self.method == "jittering":
+            samples = self.sampling_by_jittering(
+                X=X,
+                y=y,
+                clusters=clusters_filtered,
+                cluster_weights=cluster_weights,
+                n_to_sample=n_to_sample,
+                nn_params=nn_params,
+            )
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.array([self.min_label] * len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "method": self.method,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
-- 
2.43.0


From 5f750502b3ddde5ed7ee0bd1cbb1aa504b5a717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 017/101] fix: KernelADASYN keeps the original samples when
 falling back to PCA

---
 smote_variants/oversampling/_kerneladasyn.py | 603 ++++++++++---------
 1 file changed, 303 insertions(+), 300 deletions(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..9e2b463 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -1,300 +1,303 @@
-"""
-This module implements the KernelADASYN method.
-"""
-
-import numpy as np
-
-from sklearn.decomposition import PCA
-
-from ..base import fix_density, cov
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["KernelADASYN"]
-
-
-class KernelADASYN(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{kernel_adasyn,
-                            author={Tang, B. and He, H.},
-                            booktitle={2015 IEEE Congress on Evolutionary
-                                        Computation (CEC)},
-                            title={KernelADASYN: Kernel based adaptive
-                                    synthetic data generation for
-                                    imbalanced learning},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={664-671},
-                            keywords={learning (artificial intelligence);
-                                        pattern classification;
-                                        sampling methods;KernelADASYN;
-                                        kernel based adaptive synthetic
-                                        data generation;imbalanced
-                                        learning;standard classification
-                                        algorithms;data distribution;
-                                        minority class decision rule;
-                                        expensive minority class data
-                                        misclassification;kernel based
-                                        adaptive synthetic over-sampling
-                                        approach;imbalanced data
-                                        classification problems;kernel
-                                        density estimation methods;Kernel;
-                                        Estimation;Accuracy;Measurement;
-                                        Standards;Training data;Sampling
-                                        methods;Imbalanced learning;
-                                        adaptive over-sampling;kernel
-                                        density estimation;pattern
-                                        recognition;medical and
-                                        healthcare data learning},
-                            doi={10.1109/CEC.2015.7256954},
-                            ISSN={1089-778X},
-                            month={May}}
-
-    Notes:
-        * The method of sampling was not specified, Markov Chain Monte Carlo
-            has been implemented.
-        * Not prepared for improperly conditioned covariance matrix.
-    """
-
-    categories = [
-        OverSampling.cat_density_estimation,
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        k=5,
-        *,
-        nn_params=None,
-        h=1.0,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            k (int): number of neighbors in the nearest neighbors component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            h (float): kernel bandwidth
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(h, "h", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params or {}
-        self.h = h  # pylint: disable=invalid-name
-        self.n_jobs = n_jobs
-
-        self.mcmc_params = {"burn_in": 1000, "periods": 50}
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "k": [5, 7, 9],
-            "h": [0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, 10.0],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def p_x(self, x_vec, X_min, r_score):
-        """
-        Returns minority density value at x
-
-        Args:
-            x_vec (np.array): feature vector
-
-        Returns:
-            float: density value
-        """
-        result = 1.0 / (len(X_min) * self.h)
-        result = result * (1.0 / (np.sqrt(2 * np.pi) * self.h) ** len(X_min[0]))
-
-        exp_term = np.exp(-0.5 * np.linalg.norm(x_vec - X_min, axis=1) ** 2 / self.h)
-        return result * np.inner(r_score, exp_term)
-
-    def mcmc(self, X_min, r_score, covariance, n_to_sample):
-        """
-        Do the Markov Chain Monte Carlo sampling.
-
-        Args:
-            X_min (np.array): the minority samples
-            r_score (np.array): the majority scores
-            covariance (np.array): the covariance matrix
-            n_to_sample (int): the number of samples to generate
-        """
-        samples = []
-        iteration = 0
-
-        # parameters of the Monte Carlo sampling
-
-        # starting Markov-Chain Monte Carlo for sampling
-        x_old = X_min[self.random_state.choice(np.where(r_score > 0)[0])]
-        p_old = self.p_x(x_old, X_min, r_score)
-
-        # Cholesky decomposition
-        L_mat = np.linalg.cholesky(covariance)  # pylint: disable=invalid-name
-
-        while len(samples) < n_to_sample:
-            x_new = x_old + np.dot(self.random_state.normal(size=len(x_old)), L_mat)
-            p_new = self.p_x(x_new, X_min, r_score)
-
-            alpha = p_new / p_old
-            if self.random_state.random_sample() < alpha:
-                x_old = x_new
-                p_old = p_new
-
-            iteration = iteration + 1
-            if (
-                iteration % self.mcmc_params["periods"] == 0
-                and iteration > self.mcmc_params["burn_in"]
-            ):
-                samples.append(x_old)
-
-        return np.vstack(samples)
-
-    def iterated_sampling(self, *, covariance, X, y, X_min, r_score, n_to_sample):
-        """
-        Try to carry out the sampling and reduce the dimensions if it
-        does not succeed.
-
-        Args:
-            covariance (np.array): the covariance matrix
-            X (np.array): the feature vectors
-            y (np.array): the target labels
-            X_min (np.array): the minority samples
-            r_score (np.array): the majority score
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array, np.array: the oversampled dataset
-        """
-        if len(covariance) > 1 and np.linalg.cond(covariance) > 10000:
-            _logger.info(
-                "%s: reducing dimensions due to improperly "
-                "conditioned covariance matrix",
-                self.__class__.__name__,
-            )
-
-            if X.shape[1] <= 2:
-                return self.return_copies(X, y, "matrix is ill conditioned")
-
-            n_components = int(np.rint(len(covariance) / 2))
-
-            pca = PCA(n_components=n_components)
-            X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
-
-            kernela = KernelADASYN(
-                proportion=self.proportion,
-                k=self.k,
-                nn_params=self.nn_params,
-                h=self.h,
-                random_state=self._random_state_init,
-            )
-
-            X_samp, y_samp = kernela.sample(X_trans, y)
-
-            return pca.inverse_transform(X_samp), y_samp
-
-        samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        X_min = X[y == self.min_label]
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # fitting the nearest neighbors model
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=min([len(X_min), self.k + 1]), n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X_min, return_distance=False)
-
-        # computing majority score
-        r_score = np.array(
-            [np.sum(y[indices[i][1:]] == self.maj_label) for i in range(len(X_min))]
-        )
-
-        if np.sum(r_score > 0) < 2:
-            return self.return_copies(X, y, "majority score is 0 for most vectors")
-
-        r_score = fix_density(r_score)
-
-        # covariance is used to generate a random sample in the neighborhood
-        covariance = cov(X_min[r_score > 0], rowvar=False)
-
-        return self.iterated_sampling(
-            covariance=covariance,
-            X=X,
-            y=y,
-            X_min=X_min,
-            r_score=r_score,
-            n_to_sample=n_to_sample,
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "h": self.h,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the KernelADASYN method.
+"""
+
+import numpy as np
+
+from sklearn.decomposition import PCA
+
+from ..base import fix_density, cov
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["KernelADASYN"]
+
+
+class KernelADASYN(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{kernel_adasyn,
+                            author={Tang, B. and He, H.},
+                            booktitle={2015 IEEE Congress on Evolutionary
+                                        Computation (CEC)},
+                            title={KernelADASYN: Kernel based adaptive
+                                    synthetic data generation for
+                                    imbalanced learning},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={664-671},
+                            keywords={learning (artificial intelligence);
+                                        pattern classification;
+                                        sampling methods;KernelADASYN;
+                                        kernel based adaptive synthetic
+                                        data generation;imbalanced
+                                        learning;standard classification
+                                        algorithms;data distribution;
+                                        minority class decision rule;
+                                        expensive minority class data
+                                        misclassification;kernel based
+                                        adaptive synthetic over-sampling
+                                        approach;imbalanced data
+                                        classification problems;kernel
+                                        density estimation methods;Kernel;
+                                        Estimation;Accuracy;Measurement;
+                                        Standards;Training data;Sampling
+                                        methods;Imbalanced learning;
+                                        adaptive over-sampling;kernel
+                                        density estimation;pattern
+                                        recognition;medical and
+                                        healthcare data learning},
+                            doi={10.1109/CEC.2015.7256954},
+                            ISSN={1089-778X},
+                            month={May}}
+
+    Notes:
+        * The method of sampling was not specified, Markov Chain Monte Carlo
+            has been implemented.
+        * Not prepared for improperly conditioned covariance matrix.
+    """
+
+    categories = [
+        OverSampling.cat_density_estimation,
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        k=5,
+        *,
+        nn_params=None,
+        h=1.0,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            k (int): number of neighbors in the nearest neighbors component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            h (float): kernel bandwidth
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(h, "h", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params or {}
+        self.h = h  # pylint: disable=invalid-name
+        self.n_jobs = n_jobs
+
+        self.mcmc_params = {"burn_in": 1000, "periods": 50}
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "k": [5, 7, 9],
+            "h": [0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, 10.0],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def p_x(self, x_vec, X_min, r_score):
+        """
+        Returns minority density value at x
+
+        Args:
+            x_vec (np.array): feature vector
+
+        Returns:
+            float: density value
+        """
+        result = 1.0 / (len(X_min) * self.h)
+        result = result * (1.0 / (np.sqrt(2 * np.pi) * self.h) ** len(X_min[0]))
+
+        exp_term = np.exp(-0.5 * np.linalg.norm(x_vec - X_min, axis=1) ** 2 / self.h)
+        return result * np.inner(r_score, exp_term)
+
+    def mcmc(self, X_min, r_score, covariance, n_to_sample):
+        """
+        Do the Markov Chain Monte Carlo sampling.
+
+        Args:
+            X_min (np.array): the minority samples
+            r_score (np.array): the majority scores
+            covariance (np.array): the covariance matrix
+            n_to_sample (int): the number of samples to generate
+        """
+        samples = []
+        iteration = 0
+
+        # parameters of the Monte Carlo sampling
+
+        # starting Markov-Chain Monte Carlo for sampling
+        x_old = X_min[self.random_state.choice(np.where(r_score > 0)[0])]
+        p_old = self.p_x(x_old, X_min, r_score)
+
+        # Cholesky decomposition
+        L_mat = np.linalg.cholesky(covariance)  # pylint: disable=invalid-name
+
+        while len(samples) < n_to_sample:
+            x_new = x_old + np.dot(self.random_state.normal(size=len(x_old)), L_mat)
+            p_new = self.p_x(x_new, X_min, r_score)
+
+            alpha = p_new / p_old
+            if self.random_state.random_sample() < alpha:
+                x_old = x_new
+                p_old = p_new
+
+            iteration = iteration + 1
+            if (
+                iteration % self.mcmc_params["periods"] == 0
+                and iteration > self.mcmc_params["burn_in"]
+            ):
+                samples.append(x_old)
+
+        return np.vstack(samples)
+
+    def iterated_sampling(self, *, covariance, X, y, X_min, r_score, n_to_sample):
+        """
+        Try to carry out the sampling and reduce the dimensions if it
+        does not succeed.
+
+        Args:
+            covariance (np.array): the covariance matrix
+            X (np.array): the feature vectors
+            y (np.array): the target labels
+            X_min (np.array): the minority samples
+            r_score (np.array): the majority score
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        if len(covariance) > 1 and np.linalg.cond(covariance) > 10000:
+            _logger.info(
+                "%s: reducing dimensions due to improperly "
+                "conditioned covariance matrix",
+                self.__class__.__name__,
+            )
+
+            if X.shape[1] <= 2:
+                return self.return_copies(X, y, "matrix is ill conditioned")
+
+            n_components = int(np.rint(len(covariance) / 2))
+
+            pca = PCA(n_components=n_components)
+            X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
+
+            kernela = KernelADASYN(
+                proportion=self.proportion,
+                k=self.k,
+                nn_params=self.nn_params,
+                h=self.h,
+                random_state=self._random_state_init,
+            )
+
+            X_samp, y_samp = kernela.sample(X_trans, y)
+
+            # the original vectors are kept, only the new ones are mapped back
+            samples = pca.inverse_transform(X_samp[len(X) :])
+
+            return np.vstack([X, samples]), y_samp
+
+        samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        X_min = X[y == self.min_label]
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # fitting the nearest neighbors model
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=min([len(X_min), self.k + 1]), n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X_min, return_distance=False)
+
+        # computing majority score
+        r_score = np.array(
+            [np.sum(y[indices[i][1:]] == self.maj_label) for i in range(len(X_min))]
+        )
+
+        if np.sum(r_score > 0) < 2:
+            return self.return_copies(X, y, "majority score is 0 for most vectors")
+
+        r_score = fix_density(r_score)
+
+        # covariance is used to generate a random sample in the neighborhood
+        covariance = cov(X_min[r_score > 0], rowvar=False)
+
+        return self.iterated_sampling(
+            covariance=covariance,
+            X=X,
+            y=y,
+            X_min=X_min,
+            r_score=r_score,
+            n_to_sample=n_to_sample,
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "h": self.h,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From ec252a895f616c24c9b351e705c28027b3f33aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 018/101] fix: SMOTEWB passes its random state to the fallback
 SMOTE

---
 smote_variants/oversampling/_smotewb.py | 772 ++++++++++++------------
 1 file changed, 390 insertions(+), 382 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..da5c704 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -1,382 +1,390 @@
-"""
-This module implements the SMOTEWB method.
-"""
-import logging
-import math
-
-import numpy as np
-
-from sklearn.tree import DecisionTreeClassifier
-
-from ..base import OverSampling, NearestNeighborsWithMetricTensor, coalesce
-from ._smote import SMOTE
-
-_logger = logging.getLogger("smote_variants")
-
-__all__ = ["SMOTEWB"]
-
-
-class SMOTEWB(OverSampling):
-    """
-    References:
-        * BibTex::
-           @article{SAGLAM2022117023,
-                title = {A novel SMOTE-based resampling technique trough noise
-                detection and the boosting procedure},
-                journal = {Expert Systems with Applications},
-                volume = {200},
-                pages = {117023},
-                year = {2022},
-                issn = {0957-4174},
-                doi = {https://doi.org/10.1016/j.eswa.2022.117023}}
-    """
-
-    categories = [
-        OverSampling.cat_noise_removal,  # applies noise removal
-        OverSampling.cat_uses_classifier,  # uses some advanced classifier
-        OverSampling.cat_sample_ordinary,  # sampling is done in the SMOTE scheme
-        OverSampling.cat_extensive,  # adds minority samples only
-        OverSampling.cat_metric_learning,
-    ]  # metric learning is applicable (uses nearest neighbors)
-
-    sample_good = 1
-    sample_lonely = 0
-    sample_bad = -1
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_iters=100,
-        max_depth=30,
-        nn_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the SMOTE template object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_iters (int): number of iterations (number of weak classifiers, dtrees) of the ensemble
-                                noise filtering process (in the paper: M)
-            max_depth (int): maximum depth of dtrees (>=3)
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            n_jobs (int): number of parallel jobs
-            random_state (None/int/np.random.RandomState): the random state
-            _kwargs: for technical reasons and to facilitate serialization, additional
-                     keyword arguments are accepted
-        """
-
-        OverSampling.__init__(self, random_state=random_state)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_iters, "n_iters", 1)
-        self.check_greater_or_equal(max_depth, "max_depth", 3)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_iters = n_iters
-        self.max_depth = max_depth
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_iters": [30, 50, 100],
-            "max_depth": [5, 10, 20, 30],
-        }
-
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def boosted_weights(self, X, y):
-        """
-        Implementation of Algorithm 2.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.array): weight of the samples
-        """
-        n_samples = X.shape[0]
-        w = np.repeat(1.0 / n_samples, n_samples)
-
-        # based on boosted_weights.R
-        clf = DecisionTreeClassifier(
-            random_state=self._random_state_init,
-            max_depth=self.max_depth,
-            min_samples_split=3,
-        )
-
-        for _ in range(0, self.n_iters):
-            clf.fit(X, y, sample_weight=w)
-            predicted_labels = clf.predict(X)
-
-            w_error = sum(w[predicted_labels != y])
-
-            # no zero check in the original code (samples are not_noise)
-            if w_error == 0:
-                return np.zeros(n_samples, float)
-
-            alpha = 0.5 * np.log((1 - w_error) / w_error)
-            w[predicted_labels != y] = w[predicted_labels != y] * np.exp(alpha)
-
-            w = w / sum(w)
-
-        return w
-
-    @staticmethod
-    def noise_threshold(w, th):
-        """
-        Creating the noise mask
-
-        Args:
-            w (np.array): the weights
-            th (float): the threshold
-
-        Returns:
-            np.array: the mask
-        """
-        noise = np.repeat(False, len(w))
-        noise[w > th] = True
-        return noise
-
-    def noise_detection(self, X, y):
-        """
-        Implementation of Algorithm 3.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.array, np.array): Mask of noise for the minority and the majority
-            samples, respectively.
-        """
-
-        w = self.boosted_weights(X, y)
-
-        w_min = w[y == self.min_label]
-        w_maj = w[y == self.maj_label]
-
-        n_samples = len(y)
-
-        # noise thresholds for majority and minority classes
-        th_min = (2 * len(w_maj)) / (n_samples**2)
-        th_maj = (2 * len(w_min)) / (n_samples**2)
-
-        noise_mask_min = SMOTEWB.noise_threshold(w_min, th_min)
-        noise_mask_maj = SMOTEWB.noise_threshold(w_maj, th_maj)
-
-        return noise_mask_min, noise_mask_maj
-
-    def first_majority_index(self, nearest_ys, no_majority_result=-1):
-        """
-        Finds the index of the first majority element in the nearest_ys per row.
-
-        Args:
-            nearest_ys (np.ndarray): label of the nearest neighbours
-            no_majority_result (int): result if there is no majority item in a row
-        Returns:
-            np.array: the i-th element of the array is the index of the first majority label
-                        in the i-th row of the nearest_ys, or no_majority_result if the row
-                        contains no majority labels.
-        """
-        mask = nearest_ys == self.maj_label
-        return np.where(mask.any(axis=1), mask.argmax(axis=1), no_majority_result)
-
-    def sampling_algorithm(
-        self, X, y
-    ):  # pylint: disable=too-many-locals,too-many-statements
-        """
-        Does the sample generation according to the class parameters.
-
-        TODO: break into smaller functions
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        # determine the number of samples to generate
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        # use logging in the below format
-        _logger.info("%s: sampling", self.__class__.__name__)
-
-        # Step 1: MinMaxScaler - Rescaling is ignored at the suggestion of the
-        # author of the algorithm.
-
-        # Step2: separating the classes
-        X_min = X[y == self.min_label]
-        X_maj = X[y == self.maj_label]
-
-        # Step 3-4: creating masks of noise samples
-        noise_mask_min, noise_mask_maj = self.noise_detection(X, y)
-
-        # Start: Algorithm 4
-        n_min = len(X_min)
-        n_maj = len(X_maj)
-
-        # paper: floor, R implementation: ceil
-        k_max = math.floor(n_maj / n_min)
-
-        # non-noise samples and labels
-        X_min_not_noise = X_min[~noise_mask_min]  # pylint: disable=invalid-name
-        X_maj_not_noise = X_maj[~noise_mask_maj]  # pylint: disable=invalid-name
-        X_not_noise = np.concatenate(  # pylint: disable=invalid-name
-            [X_min_not_noise, X_maj_not_noise]
-        )
-        y_not_noise = np.concatenate(
-            [
-                np.repeat(self.min_label, X_min_not_noise.shape[0]),
-                np.repeat(self.maj_label, X_maj_not_noise.shape[0]),
-            ]
-        )
-
-        # fitting the model
-        # paper: X^good_pos makes no sense, R code: x_notnoise
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # all data points are noise
-        if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
-            return smote.sample(X, y)
-
-        n_neighbors = min([len(X_not_noise), k_max + 1])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-
-        nnmt.fit(X_not_noise)
-        indices = nnmt.kneighbors(X_min, n_neighbors=n_neighbors, return_distance=False)
-
-        # number of the positive neighbors until the first negative one (per row)
-        k_arr = self.first_majority_index(
-            y_not_noise[indices], no_majority_result=k_max + 1
-        )
-
-        # decrease one if the sample is not a noise
-        k_arr[~noise_mask_min] -= 1
-        # in case there is a majority sample at 0 distance
-        k_arr[k_arr == -1] = 0
-        # all neighbours are positive
-        k_max = min(indices.shape[1], k_max)
-        k_arr[k_arr > k_max] = k_max
-
-        # setting the labels of the samples of X_pos
-        fl_arr = np.empty(n_min, int)
-        fl_arr[k_arr > 0] = SMOTEWB.sample_good
-        fl_arr[(k_arr == 0) & noise_mask_min] = SMOTEWB.sample_bad
-        fl_arr[(k_arr == 0) & (~noise_mask_min)] = SMOTEWB.sample_lonely
-        # End: Alg 4
-
-        # Step 5: n_to_sample - done
-        # Step 6: computing n_to_sample per samples
-        n_min = len(X_min)
-
-        # number of good and lonely samples
-        n_good_min = np.sum(fl_arr == SMOTEWB.sample_good)
-        n_lonely_min = np.sum(fl_arr == SMOTEWB.sample_lonely)
-
-        # prevent errors (missing from the original) no good or lonely
-        # samples => give chance to the others
-        if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
-            return smote.sample(X, y)
-
-        n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-        C = np.zeros(n_min, int)  # pylint: disable=invalid-name
-        C[fl_arr == SMOTEWB.sample_good] = n_to_sample_per_sample
-        C[fl_arr == SMOTEWB.sample_lonely] = n_to_sample_per_sample
-
-        # Step 8: correcting the number of samples to be generated to achieve the desired balance
-        # paper: ceil => n_to_sample-p.sum(C) zero or negative
-        # we probably have too many samples because of the ceil
-        diff = np.sum(C) - n_to_sample
-        if diff > 0:
-            good_and_lonely_ind = np.where(
-                (fl_arr == SMOTEWB.sample_good) | (fl_arr == SMOTEWB.sample_lonely)
-            )[0]
-            selected_ind = self.random_state.choice(
-                good_and_lonely_ind, diff, replace=len(good_and_lonely_ind) < diff
-            )
-            C[selected_ind] -= 1
-
-        # Step 9: sample generation
-        synt_sample_list = []
-        for i in range(0, n_min):
-            if fl_arr[i] == SMOTEWB.sample_lonely:
-                for j in range(C[i]):
-                    synt_sample_list.append(X_min[i].copy())
-            elif fl_arr[i] == SMOTEWB.sample_good and C[i] > 0:
-                nn = (
-                    indices[i, 0 : k_arr[i]]
-                    if noise_mask_min[i]
-                    else indices[i, 1 : k_arr[i] + 1]
-                )
-
-                if len(nn) > 0:
-                    k_ids = self.random_state.choice(nn, C[i])
-                    for j in k_ids:
-                        synt_sample_list.append(
-                            self.sample_between_points(X_min[i], X_not_noise[j])
-                        )
-
-        # Step 11-12: merging the original samples and the synthetic ones
-        X_synt_samples = np.array(synt_sample_list)  # pylint: disable=invalid-name
-        X_samples = np.vstack([X, X_synt_samples])  # pylint: disable=invalid-name
-
-        return (
-            X_samples,
-            np.hstack([y, np.hstack([self.min_label] * len(synt_sample_list))]),
-        )
-
-    def preprocessing_transform(self, X):
-        """
-        Scale the attributes of X into [0, 1] range.
-
-        Args:
-            X (np.array): features
-        Returns:
-            np.array: transformed features
-        """
-        return X
-
-    def get_params(self, deep=False):
-        """
-        Returns the parameters of the object
-
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "max_depth": self.max_depth,
-            "nn_params": self.nn_params,
-            "n_iters": self.n_iters,
-            **OverSampling.get_params(self, deep),
-        }
+"""
+This module implements the SMOTEWB method.
+"""
+import logging
+import math
+
+import numpy as np
+
+from sklearn.tree import DecisionTreeClassifier
+
+from ..base import OverSampling, NearestNeighborsWithMetricTensor, coalesce
+from ._smote import SMOTE
+
+_logger = logging.getLogger("smote_variants")
+
+__all__ = ["SMOTEWB"]
+
+
+class SMOTEWB(OverSampling):
+    """
+    References:
+        * BibTex::
+           @article{SAGLAM2022117023,
+                title = {A novel SMOTE-based resampling technique trough noise
+                detection and the boosting procedure},
+                journal = {Expert Systems with Applications},
+                volume = {200},
+                pages = {117023},
+                year = {2022},
+                issn = {0957-4174},
+                doi = {https://doi.org/10.1016/j.eswa.2022.117023}}
+    """
+
+    categories = [
+        OverSampling.cat_noise_removal,  # applies noise removal
+        OverSampling.cat_uses_classifier,  # uses some advanced classifier
+        OverSampling.cat_sample_ordinary,  # sampling is done in the SMOTE scheme
+        OverSampling.cat_extensive,  # adds minority samples only
+        OverSampling.cat_metric_learning,
+    ]  # metric learning is applicable (uses nearest neighbors)
+
+    sample_good = 1
+    sample_lonely = 0
+    sample_bad = -1
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_iters=100,
+        max_depth=30,
+        nn_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the SMOTE template object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_iters (int): number of iterations (number of weak classifiers, dtrees) of the ensemble
+                                noise filtering process (in the paper: M)
+            max_depth (int): maximum depth of dtrees (>=3)
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            n_jobs (int): number of parallel jobs
+            random_state (None/int/np.random.RandomState): the random state
+            _kwargs: for technical reasons and to facilitate serialization, additional
+                     keyword arguments are accepted
+        """
+
+        OverSampling.__init__(self, random_state=random_state)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_iters, "n_iters", 1)
+        self.check_greater_or_equal(max_depth, "max_depth", 3)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_iters = n_iters
+        self.max_depth = max_depth
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_iters": [30, 50, 100],
+            "max_depth": [5, 10, 20, 30],
+        }
+
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def boosted_weights(self, X, y):
+        """
+        Implementation of Algorithm 2.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.array): weight of the samples
+        """
+        n_samples = X.shape[0]
+        w = np.repeat(1.0 / n_samples, n_samples)
+
+        # based on boosted_weights.R
+        clf = DecisionTreeClassifier(
+            random_state=self._random_state_init,
+            max_depth=self.max_depth,
+            min_samples_split=3,
+        )
+
+        for _ in range(0, self.n_iters):
+            clf.fit(X, y, sample_weight=w)
+            predicted_labels = clf.predict(X)
+
+            w_error = sum(w[predicted_labels != y])
+
+            # no zero check in the original code (samples are not_noise)
+            if w_error == 0:
+                return np.zeros(n_samples, float)
+
+            alpha = 0.5 * np.log((1 - w_error) / w_error)
+            w[predicted_labels != y] = w[predicted_labels != y] * np.exp(alpha)
+
+            w = w / sum(w)
+
+        return w
+
+    @staticmethod
+    def noise_threshold(w, th):
+        """
+        Creating the noise mask
+
+        Args:
+            w (np.array): the weights
+            th (float): the threshold
+
+        Returns:
+            np.array: the mask
+        """
+        noise = np.repeat(False, len(w))
+        noise[w > th] = True
+        return noise
+
+    def noise_detection(self, X, y):
+        """
+        Implementation of Algorithm 3.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.array, np.array): Mask of noise for the minority and the majority
+            samples, respectively.
+        """
+
+        w = self.boosted_weights(X, y)
+
+        w_min = w[y == self.min_label]
+        w_maj = w[y == self.maj_label]
+
+        n_samples = len(y)
+
+        # noise thresholds for majority and minority classes
+        th_min = (2 * len(w_maj)) / (n_samples**2)
+        th_maj = (2 * len(w_min)) / (n_samples**2)
+
+        noise_mask_min = SMOTEWB.noise_threshold(w_min, th_min)
+        noise_mask_maj = SMOTEWB.noise_threshold(w_maj, th_maj)
+
+        return noise_mask_min, noise_mask_maj
+
+    def first_majority_index(self, nearest_ys, no_majority_result=-1):
+        """
+        Finds the index of the first majority element in the nearest_ys per row.
+
+        Args:
+            nearest_ys (np.ndarray): label of the nearest neighbours
+            no_majority_result (int): result if there is no majority item in a row
+        Returns:
+            np.array: the i-th element of the array is the index of the first majority label
+                        in the i-th row of the nearest_ys, or no_majority_result if the row
+                        contains no majority labels.
+        """
+        mask = nearest_ys == self.maj_label
+        return np.where(mask.any(axis=1), mask.argmax(axis=1), no_majority_result)
+
+    def sampling_algorithm(
+        self, X, y
+    ):  # pylint: disable=too-many-locals,too-many-statements
+        """
+        Does the sample generation according to the class parameters.
+
+        TODO: break into smaller functions
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        # determine the number of samples to generate
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        # use logging in the below format
+        _logger.info("%s: sampling", self.__class__.__name__)
+
+        # Step 1: MinMaxScaler - Rescaling is ignored at the suggestion of the
+        # author of the algorithm.
+
+        # Step2: separating the classes
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
+
+        # Step 3-4: creating masks of noise samples
+        noise_mask_min, noise_mask_maj = self.noise_detection(X, y)
+
+        # Start: Algorithm 4
+        n_min = len(X_min)
+        n_maj = len(X_maj)
+
+        # paper: floor, R implementation: ceil
+        k_max = math.floor(n_maj / n_min)
+
+        # non-noise samples and labels
+        X_min_not_noise = X_min[~noise_mask_min]  # pylint: disable=invalid-name
+        X_maj_not_noise = X_maj[~noise_mask_maj]  # pylint: disable=invalid-name
+        X_not_noise = np.concatenate(  # pylint: disable=invalid-name
+            [X_min_not_noise, X_maj_not_noise]
+        )
+        y_not_noise = np.concatenate(
+            [
+                np.repeat(self.min_label, X_min_not_noise.shape[0]),
+                np.repeat(self.maj_label, X_maj_not_noise.shape[0]),
+            ]
+        )
+
+        # fitting the model
+        # paper: X^good_pos makes no sense, R code: x_notnoise
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # all data points are noise
+        if len(X_not_noise) == 0:
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
+            return smote.sample(X, y)
+
+        n_neighbors = min([len(X_not_noise), k_max + 1])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+
+        nnmt.fit(X_not_noise)
+        indices = nnmt.kneighbors(X_min, n_neighbors=n_neighbors, return_distance=False)
+
+        # number of the positive neighbors until the first negative one (per row)
+        k_arr = self.first_majority_index(
+            y_not_noise[indices], no_majority_result=k_max + 1
+        )
+
+        # decrease one if the sample is not a noise
+        k_arr[~noise_mask_min] -= 1
+        # in case there is a majority sample at 0 distance
+        k_arr[k_arr == -1] = 0
+        # all neighbours are positive
+        k_max = min(indices.shape[1], k_max)
+        k_arr[k_arr > k_max] = k_max
+
+        # setting the labels of the samples of X_pos
+        fl_arr = np.empty(n_min, int)
+        fl_arr[k_arr > 0] = SMOTEWB.sample_good
+        fl_arr[(k_arr == 0) & noise_mask_min] = SMOTEWB.sample_bad
+        fl_arr[(k_arr == 0) & (~noise_mask_min)] = SMOTEWB.sample_lonely
+        # End: Alg 4
+
+        # Step 5: n_to_sample - done
+        # Step 6: computing n_to_sample per samples
+        n_min = len(X_min)
+
+        # number of good and lonely samples
+        n_good_min = np.sum(fl_arr == SMOTEWB.sample_good)
+        n_lonely_min = np.sum(fl_arr == SMOTEWB.sample_lonely)
+
+        # prevent errors (missing from the original) no good or lonely
+        # samples => give chance to the others
+        if n_good_min + n_lonely_min == 0:
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
+            return smote.sample(X, y)
+
+        n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
+        C = np.zeros(n_min, int)  # pylint: disable=invalid-name
+        C[fl_arr == SMOTEWB.sample_good] = n_to_sample_per_sample
+        C[fl_arr == SMOTEWB.sample_lonely] = n_to_sample_per_sample
+
+        # Step 8: correcting the number of samples to be generated to achieve the desired balance
+        # paper: ceil => n_to_sample-p.sum(C) zero or negative
+        # we probably have too many samples because of the ceil
+        diff = np.sum(C) - n_to_sample
+        if diff > 0:
+            good_and_lonely_ind = np.where(
+                (fl_arr == SMOTEWB.sample_good) | (fl_arr == SMOTEWB.sample_lonely)
+            )[0]
+            selected_ind = self.random_state.choice(
+                good_and_lonely_ind, diff, replace=len(good_and_lonely_ind) < diff
+            )
+            C[selected_ind] -= 1
+
+        # Step 9: sample generation
+        synt_sample_list = []
+        for i in range(0, n_min):
+            if fl_arr[i] == SMOTEWB.sample_lonely:
+                for j in range(C[i]):
+                    synt_sample_list.append(X_min[i].copy())
+            elif fl_arr[i] == SMOTEWB.sample_good and C[i] > 0:
+                nn = (
+                    indices[i, 0 : k_arr[i]]
+                    if noise_mask_min[i]
+                    else indices[i, 1 : k_arr[i] + 1]
+                )
+
+                if len(nn) > 0:
+                    k_ids = self.random_state.choice(nn, C[i])
+                    for j in k_ids:
+                        synt_sample_list.append(
+                            self.sample_between_points(X_min[i], X_not_noise[j])
+                        )
+
+        # Step 11-12: merging the original samples and the synthetic ones
+        X_synt_samples = np.array(synt_sample_list)  # pylint: disable=invalid-name
+        X_samples = np.vstack([X, X_synt_samples])  # pylint: disable=invalid-name
+
+        return (
+            X_samples,
+            np.hstack([y, np.hstack([self.min_label] * len(synt_sample_list))]),
+        )
+
+    def preprocessing_transform(self, X):
+        """
+        Scale the attributes of X into [0, 1] range.
+
+        Args:
+            X (np.array): features
+        Returns:
+            np.array: transformed features
+        """
+        return X
+
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object
+
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "max_depth": self.max_depth,
+            "nn_params": self.nn_params,
+            "n_iters": self.n_iters,
+            **OverSampling.get_params(self, deep),
+        }
-- 
2.43.0


From d63a093d0b1338601a357f79e0cf7fc8cd7b6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 019/101] fix: SOMO, SPY, SYMPROD, SMOTEWB and DEAGO report all
 their parameters

---
 smote_variants/oversampling/_deago.py   | 635 ++++++++---------
 smote_variants/oversampling/_smotewb.py |   1 +
 smote_variants/oversampling/_somo.py    | 877 ++++++++++++------------
 smote_variants/oversampling/_spy.py     | 343 ++++-----
 smote_variants/oversampling/_symprod.py |   1 +
 5 files changed, 931 insertions(+), 926 deletions(-)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index a88272a..bcbb7ca 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -1,317 +1,318 @@
-"""
-This module implements the DEAGO method.
-"""
-
-import os
-import random
-import warnings
-
-warnings.simplefilter("ignore", DeprecationWarning)
-
-import numpy as np  # pylint: disable=wrong-import-position
-from sklearn.preprocessing import (  # pylint: disable=wrong-import-position
-    StandardScaler,
-)
-
-from ..base import (  # pylint: disable=wrong-import-position
-    OverSampling,
-    coalesce,
-    coalesce_dict,
-)
-from ._smote import SMOTE  # pylint: disable=wrong-import-position
-
-from .._logger import logger  # pylint: disable=wrong-import-position
-
-_logger = logger
-
-__all__ = ["DEAGO"]
-
-
-class DEAGO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{deago,
-                            author={Bellinger, C. and Japkowicz, N. and
-                                        Drummond, C.},
-                            booktitle={2015 IEEE 14th International
-                                        Conference on Machine Learning
-                                        and Applications (ICMLA)},
-                            title={Synthetic Oversampling for Advanced
-                                        Radioactive Threat Detection},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={948-953},
-                            keywords={radioactive waste;advanced radioactive
-                                        threat detection;gamma-ray spectral
-                                        classification;industrial nuclear
-                                        facilities;Health Canadas national
-                                        monitoring networks;Vancouver 2010;
-                                        Isotopes;Training;Monitoring;
-                                        Gamma-rays;Machine learning algorithms;
-                                        Security;Neural networks;machine
-                                        learning;classification;class
-                                        imbalance;synthetic oversampling;
-                                        artificial neural networks;
-                                        autoencoders;gamma-ray spectra},
-                            doi={10.1109/ICMLA.2015.58},
-                            ISSN={},
-                            month={Dec}}
-
-    Notes:
-        * There is no hint on the activation functions and amounts of noise.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_density_estimation,
-        OverSampling.cat_application,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        e=100,  # pylint: disable=invalid-name
-        h=0.3,  # pylint: disable=invalid-name
-        sigma=0.1,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            e (int): number of epochs
-            h (float): fraction of number of hidden units
-            sigma (float): training noise
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0.0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater(e, "e", 1)
-        self.check_greater(h, "h", 0)
-        self.check_greater(sigma, "sigma", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.encoder_params = {"e": e, "h": h, "sigma": sigma}
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "e": [40],
-            "h": [0.1, 0.2, 0.3, 0.4, 0.5],
-            "sigma": [0.05, 0.1, 0.2],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def get_model(self, n_dim, encoding_d):
-        """
-        Return the model
-
-        Args:
-            n_dim (int): the number of dimensions
-            encoding_d (int): the number of encoding dimensions
-
-        Returns:
-            tensorflow.keras.models.Model, list: the model and the callbacks
-        """
-        # this import is here to prevent the heavy importing of tensorflow when not needed
-        from tensorflow.keras.layers import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            Input,
-            Dense,
-            GaussianNoise,
-        )
-        from tensorflow.keras.models import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            Model,
-        )
-        from tensorflow.keras.callbacks import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            EarlyStopping,
-        )
-
-        # constructing the autoencoder
-        callbacks = [EarlyStopping(monitor="val_loss", patience=2)]
-
-        input_layer = Input(shape=(n_dim,))
-        noise = GaussianNoise(self.encoder_params["sigma"])(input_layer)
-        encoded = Dense(encoding_d, activation="relu")(noise)
-        decoded = Dense(n_dim, activation="linear")(encoded)
-
-        dae = Model(input_layer, decoded)
-
-        return dae, callbacks
-
-    def execute_autoencoder(
-        self,
-        X_min_normalized,  # pylint: disable=invalid-name
-        X_init_normalized,  # pylint: disable=invalid-name
-    ):
-        """
-        Execute the autoencoder.
-
-        Args:
-            X_min_normalized (np.array): the normalized minority samples
-            X_init_normalized (np.array): the normalized generated samples
-
-        Returns:
-            np.array: the denoised samples (all)
-        """
-
-        n_dim = X_min_normalized.shape[1]
-        encoding_d = np.max([2, int(np.rint(n_dim * self.encoder_params["h"]))])
-
-        _logger.info(
-            "%s: Input dimension: %d, encoding dimension: %d",
-            self.__class__.__name__,
-            n_dim,
-            encoding_d,
-        )
-
-        warnings.simplefilter("ignore", DeprecationWarning)
-
-        dae, callbacks = self.get_model(n_dim, encoding_d)
-
-        dae.compile(optimizer="adadelta", loss="mean_squared_error")
-        actual_epochs = np.max(
-            [self.encoder_params["e"], int(5000.0 / X_min_normalized.shape[0])]
-        )
-
-        if X_min_normalized.shape[0] > 10:
-            val_num = int(0.2 * X_min_normalized.shape[0])
-            X_min_train = X_min_normalized[:-val_num]  # pylint: disable=invalid-name
-            X_min_val = X_min_normalized[-val_num:]  # pylint: disable=invalid-name
-
-            dae.fit(
-                X_min_train,
-                X_min_train,
-                epochs=actual_epochs,
-                validation_data=(X_min_val, X_min_val),
-                callbacks=callbacks,
-                verbose=0,
-            )
-        else:
-            dae.fit(X_min_normalized, X_min_normalized, epochs=actual_epochs, verbose=0)
-
-        return dae.predict(X_init_normalized, verbose=0)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        warnings.simplefilter("ignore", DeprecationWarning)
-
-        # this import is here to prevent the heavy importing of tensorflow when not needed
-        import tensorflow as tf  # pylint: disable=wrong-import-position,import-outside-toplevel
-
-        os.environ["OMP_NUM_THREADS"] = f"{self.n_jobs}"
-        os.environ["TF_NUM_INTRAOP_THREADS"] = f"{self.n_jobs}"
-        os.environ["TF_NUM_INTEROP_THREADS"] = f"{self.n_jobs}"
-
-        tf.config.threading.set_inter_op_parallelism_threads(self.n_jobs)
-        tf.config.threading.set_intra_op_parallelism_threads(self.n_jobs)
-
-        tf.config.set_soft_device_placement(True)
-
-        os.environ["PYTHONHASHSEED"] = f"{self._random_state_init}"
-
-        random.seed(self._random_state_init)
-        np.random.seed(self._random_state_init)
-        tf.random.set_seed(self._random_state_init)
-
-        # sampling by smote
-        X_samp, _ = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        # samples to map to the manifold extracted by the autoencoder
-        X_init = X_samp[len(X) :]  # pylint: disable=invalid-name
-
-        # normalizing
-        X_min = X[y == self.min_label]
-        scaler = StandardScaler()
-        X_min_normalized = scaler.fit_transform(X_min)  # pylint: disable=invalid-name
-        X_init_normalized = scaler.transform(X_init)  # pylint: disable=invalid-name
-
-        # mapping the initial samples to the manifold
-        samples = scaler.inverse_transform(
-            self.execute_autoencoder(X_min_normalized, X_init_normalized)
-        )
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "e": self.encoder_params["e"],
-            "h": self.encoder_params["h"],
-            "sigma": self.encoder_params["sigma"],
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the DEAGO method.
+"""
+
+import os
+import random
+import warnings
+
+warnings.simplefilter("ignore", DeprecationWarning)
+
+import numpy as np  # pylint: disable=wrong-import-position
+from sklearn.preprocessing import (  # pylint: disable=wrong-import-position
+    StandardScaler,
+)
+
+from ..base import (  # pylint: disable=wrong-import-position
+    OverSampling,
+    coalesce,
+    coalesce_dict,
+)
+from ._smote import SMOTE  # pylint: disable=wrong-import-position
+
+from .._logger import logger  # pylint: disable=wrong-import-position
+
+_logger = logger
+
+__all__ = ["DEAGO"]
+
+
+class DEAGO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{deago,
+                            author={Bellinger, C. and Japkowicz, N. and
+                                        Drummond, C.},
+                            booktitle={2015 IEEE 14th International
+                                        Conference on Machine Learning
+                                        and Applications (ICMLA)},
+                            title={Synthetic Oversampling for Advanced
+                                        Radioactive Threat Detection},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={948-953},
+                            keywords={radioactive waste;advanced radioactive
+                                        threat detection;gamma-ray spectral
+                                        classification;industrial nuclear
+                                        facilities;Health Canadas national
+                                        monitoring networks;Vancouver 2010;
+                                        Isotopes;Training;Monitoring;
+                                        Gamma-rays;Machine learning algorithms;
+                                        Security;Neural networks;machine
+                                        learning;classification;class
+                                        imbalance;synthetic oversampling;
+                                        artificial neural networks;
+                                        autoencoders;gamma-ray spectra},
+                            doi={10.1109/ICMLA.2015.58},
+                            ISSN={},
+                            month={Dec}}
+
+    Notes:
+        * There is no hint on the activation functions and amounts of noise.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_density_estimation,
+        OverSampling.cat_application,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        e=100,  # pylint: disable=invalid-name
+        h=0.3,  # pylint: disable=invalid-name
+        sigma=0.1,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            e (int): number of epochs
+            h (float): fraction of number of hidden units
+            sigma (float): training noise
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0.0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater(e, "e", 1)
+        self.check_greater(h, "h", 0)
+        self.check_greater(sigma, "sigma", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.encoder_params = {"e": e, "h": h, "sigma": sigma}
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "e": [40],
+            "h": [0.1, 0.2, 0.3, 0.4, 0.5],
+            "sigma": [0.05, 0.1, 0.2],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def get_model(self, n_dim, encoding_d):
+        """
+        Return the model
+
+        Args:
+            n_dim (int): the number of dimensions
+            encoding_d (int): the number of encoding dimensions
+
+        Returns:
+            tensorflow.keras.models.Model, list: the model and the callbacks
+        """
+        # this import is here to prevent the heavy importing of tensorflow when not needed
+        from tensorflow.keras.layers import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            Input,
+            Dense,
+            GaussianNoise,
+        )
+        from tensorflow.keras.models import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            Model,
+        )
+        from tensorflow.keras.callbacks import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            EarlyStopping,
+        )
+
+        # constructing the autoencoder
+        callbacks = [EarlyStopping(monitor="val_loss", patience=2)]
+
+        input_layer = Input(shape=(n_dim,))
+        noise = GaussianNoise(self.encoder_params["sigma"])(input_layer)
+        encoded = Dense(encoding_d, activation="relu")(noise)
+        decoded = Dense(n_dim, activation="linear")(encoded)
+
+        dae = Model(input_layer, decoded)
+
+        return dae, callbacks
+
+    def execute_autoencoder(
+        self,
+        X_min_normalized,  # pylint: disable=invalid-name
+        X_init_normalized,  # pylint: disable=invalid-name
+    ):
+        """
+        Execute the autoencoder.
+
+        Args:
+            X_min_normalized (np.array): the normalized minority samples
+            X_init_normalized (np.array): the normalized generated samples
+
+        Returns:
+            np.array: the denoised samples (all)
+        """
+
+        n_dim = X_min_normalized.shape[1]
+        encoding_d = np.max([2, int(np.rint(n_dim * self.encoder_params["h"]))])
+
+        _logger.info(
+            "%s: Input dimension: %d, encoding dimension: %d",
+            self.__class__.__name__,
+            n_dim,
+            encoding_d,
+        )
+
+        warnings.simplefilter("ignore", DeprecationWarning)
+
+        dae, callbacks = self.get_model(n_dim, encoding_d)
+
+        dae.compile(optimizer="adadelta", loss="mean_squared_error")
+        actual_epochs = np.max(
+            [self.encoder_params["e"], int(5000.0 / X_min_normalized.shape[0])]
+        )
+
+        if X_min_normalized.shape[0] > 10:
+            val_num = int(0.2 * X_min_normalized.shape[0])
+            X_min_train = X_min_normalized[:-val_num]  # pylint: disable=invalid-name
+            X_min_val = X_min_normalized[-val_num:]  # pylint: disable=invalid-name
+
+            dae.fit(
+                X_min_train,
+                X_min_train,
+                epochs=actual_epochs,
+                validation_data=(X_min_val, X_min_val),
+                callbacks=callbacks,
+                verbose=0,
+            )
+        else:
+            dae.fit(X_min_normalized, X_min_normalized, epochs=actual_epochs, verbose=0)
+
+        return dae.predict(X_init_normalized, verbose=0)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        warnings.simplefilter("ignore", DeprecationWarning)
+
+        # this import is here to prevent the heavy importing of tensorflow when not needed
+        import tensorflow as tf  # pylint: disable=wrong-import-position,import-outside-toplevel
+
+        os.environ["OMP_NUM_THREADS"] = f"{self.n_jobs}"
+        os.environ["TF_NUM_INTRAOP_THREADS"] = f"{self.n_jobs}"
+        os.environ["TF_NUM_INTEROP_THREADS"] = f"{self.n_jobs}"
+
+        tf.config.threading.set_inter_op_parallelism_threads(self.n_jobs)
+        tf.config.threading.set_intra_op_parallelism_threads(self.n_jobs)
+
+        tf.config.set_soft_device_placement(True)
+
+        os.environ["PYTHONHASHSEED"] = f"{self._random_state_init}"
+
+        random.seed(self._random_state_init)
+        np.random.seed(self._random_state_init)
+        tf.random.set_seed(self._random_state_init)
+
+        # sampling by smote
+        X_samp, _ = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        # samples to map to the manifold extracted by the autoencoder
+        X_init = X_samp[len(X) :]  # pylint: disable=invalid-name
+
+        # normalizing
+        X_min = X[y == self.min_label]
+        scaler = StandardScaler()
+        X_min_normalized = scaler.fit_transform(X_min)  # pylint: disable=invalid-name
+        X_init_normalized = scaler.transform(X_init)  # pylint: disable=invalid-name
+
+        # mapping the initial samples to the manifold
+        samples = scaler.inverse_transform(
+            self.execute_autoencoder(X_min_normalized, X_init_normalized)
+        )
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "e": self.encoder_params["e"],
+            "h": self.encoder_params["h"],
+            "sigma": self.encoder_params["sigma"],
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index da5c704..2a173b1 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -386,5 +386,6 @@ class SMOTEWB(OverSampling):
             "max_depth": self.max_depth,
             "nn_params": self.nn_params,
             "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self, deep),
         }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index 900cb25..d97de8c 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -1,438 +1,439 @@
-"""
-This module implements the SOMO method.
-"""
-
-import numpy as np
-
-from scipy.linalg import circulant
-
-import minisom
-
-from ..base import pairwise_distances_mahalanobis
-
-from ..base import coalesce, coalesce_dict, fix_density
-from ..base import OverSamplingSimplex
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SOMO"]
-
-
-class SOMO(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @article{somo,
-                        title = "Self-Organizing Map Oversampling (SOMO) for
-                                    imbalanced data set learning",
-                        journal = "Expert Systems with Applications",
-                        volume = "82",
-                        pages = "40 - 52",
-                        year = "2017",
-                        issn = "0957-4174",
-                        doi = "https://doi.org/10.1016/j.eswa.2017.03.073",
-                        author = "Georgios Douzas and Fernando Bacao"
-                        }
-
-    Notes:
-        * It is not specified how to handle those cases when a cluster contains
-            1 minority samples, the mean of within-cluster distances is set to
-            100 in these cases.
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_grid=10,
-        sigma=0.2,
-        learning_rate=0.5,
-        n_iter=100,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_grid (int): size of grid
-            sigma (float): sigma of SOM
-            learning_rate (float) learning rate of SOM
-            n_iter (int): number of iterations
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_grid, "n_grid", 2)
-        self.check_greater(sigma, "sigma", 0)
-        self.check_greater(learning_rate, "learning_rate", 0)
-        self.check_greater_or_equal(n_iter, "n_iter", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.params = {
-            "n_grid": n_grid,
-            "sigma": sigma,
-            "learning_rate": learning_rate,
-            "n_iter": n_iter,
-        }
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_grid": [5, 9, 13],
-            "sigma": [0.4],
-            "learning_rate": [0.3, 0.5],
-            "n_iter": [100],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def construct_grid(self, X, y):
-        """
-        Construct the grid.
-
-        Args:
-            X (np.array): all feature vectors
-            y (np.array): all target labels
-
-        Returns:
-            dict, dict: the minority and majority grids
-        """
-        # training SOM
-        som = minisom.MiniSom(
-            self.params["n_grid"],
-            self.params["n_grid"],
-            len(X[0]),
-            sigma=self.params["sigma"],
-            learning_rate=self.params["learning_rate"],
-            random_seed=3,
-        )
-        som.train_random(X, self.params["n_iter"])
-
-        # constructing the grid
-        grid_min = {}
-        grid_maj = {}
-
-        for jdx, x_vec in enumerate(X):
-            idx = som.winner(x_vec)
-            idx = (idx[0], idx[1])
-            if idx not in grid_min:
-                grid_min[idx] = []
-            if idx not in grid_maj:
-                grid_maj[idx] = []
-            if y[jdx] == self.min_label:
-                grid_min[idx].append(jdx)
-            else:
-                grid_maj[idx].append(jdx)
-
-        # converting the grid to arrays
-        for idx in grid_min:
-            grid_min[idx] = np.array(grid_min[idx])
-        for idx in grid_maj:
-            grid_maj[idx] = np.array(grid_maj[idx])
-
-        return grid_min, grid_maj
-
-    def determine_densities(self, grid_min, grid_maj, X, y):
-        """
-        Determine densities
-
-        Args:
-            grid_min (dict): the minority grid
-            gird_maj (dict): the majority grid
-            X (np.array): all feature vectors
-            y (np.array): all target labels
-
-        Returns:
-            dict: the densities
-        """
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        tensor = nn_params.get("metric_tensor", None)
-
-        # filtering
-        filtered = {}
-        for idx, _ in grid_min.items():
-            filtered[idx] = (len(grid_maj[idx]) + 1) / (len(grid_min[idx]) + 1) < 1.0
-
-        # computing densities
-        densities = {}
-        for idx, filt in filtered.items():
-            if filt:
-                paird = pairwise_distances_mahalanobis(X[grid_min[idx]], tensor=tensor)
-                mean_value = np.mean(paird)
-                if len(grid_min[idx]) > 1 and mean_value > 0:
-                    densities[idx] = len(grid_min[idx]) / mean_value**2
-                else:
-                    densities[idx] = 10
-
-        return densities
-
-    def determine_pair_densities(self, densities):
-        """
-        Determine pair densities.
-
-        Args:
-            densities (dict): the densities
-
-        Returns:
-            dict: the pair densities
-        """
-        # computing neighbour densities, using 4 neighborhood
-        neighbors = [[0, 1], [0, -1], [1, 0], [-1, 0]]
-        pair_densities = {}
-        for idx, _ in densities.items():
-            for neigh in neighbors:
-                jdx = (idx[0] + neigh[0], idx[1] + neigh[1])
-                if jdx in densities:
-                    pair_densities[(idx, jdx)] = densities[idx] + densities[jdx]
-
-        return pair_densities
-
-    def create_density_from_dict(self, density):
-        """
-        Create probability density from a dictionary.
-
-        Args:
-            density (dict): densities unnormalized in a dictionary
-
-        Returns:
-            np.array: the density values
-        """
-        density_vals = np.array(list(density.values()))
-        density_vals = 1.0 / density_vals
-
-        density_vals = fix_density(density_vals)
-
-        return density_vals
-
-    def generate_intra(self, *, density_keys, density_vals, grid_min, X, n_to_sample):
-        """
-        Generate samples within the clusters.
-
-        Args:
-            density_keys (list): the density keys
-            density_vals (np.array): the density values
-            grid_min (dict): the minority grid
-            X (np.array): all feature vectors
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples = np.zeros((0, X.shape[1]))
-        clusters = self.random_state.choice(
-            np.arange(len(density_keys)), n_to_sample, p=density_vals
-        )
-
-        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            cluster = X[grid_min[density_keys[cluster_idx]]]
-            # n_dim_orig = self.n_dim
-            # self.n_dim = np.min([len(cluster), n_dim_orig])
-            samples_tmp = self.sample_simplex(
-                X=cluster,
-                indices=circulant(np.arange(cluster.shape[0])),
-                n_to_sample=cluster_count[idx],
-            )
-            samples = np.vstack([samples, samples_tmp])
-            # self.n_dim = n_dim_orig
-
-        # while len(samples) < n_to_sample:
-        #    cluster_idx = density_keys[self.random_state.choice(
-        #        np.arange(len(density_keys)), p=density_vals)]
-        #    cluster = grid_min[cluster_idx]
-        #    sample_a, sample_b = self.random_state.choice(cluster, 2)
-        #    samples.append(self.sample_between_points(
-        #        X[sample_a], X[sample_b]))
-
-        return samples
-
-    def generate_inter_samples(self, cluster_a, cluster_b, n_to_sample):
-        """
-        Generate samples between two clusters.
-
-        Args:
-            cluster_a (np.array): the first cluster
-            cluster_b (np.array): the second cluster
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        tile = np.tile(np.arange(len(cluster_b)), (len(cluster_a), 1))
-
-        indices = (np.vstack([np.zeros(len(cluster_a)), tile.T]).T).astype(int)
-
-        n_dim_orig = self.n_dim
-        self.n_dim = 2
-
-        samples_tmp = self.sample_simplex(
-            X=cluster_a, indices=indices, n_to_sample=n_to_sample, X_vertices=cluster_b
-        )
-
-        self.n_dim = n_dim_orig
-
-        return samples_tmp
-
-    def generate_inter(self, *, pair_keys, pair_dens_vals, grid_min, X, n_to_sample):
-        """
-        Generate samples between the clusters.
-
-        Args:
-            pair_keys (list): the density keys
-            pair_dens_vals (np.array): the density values
-            grid_min (dict): the minority grid
-            X (np.array): all feature vectors
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-
-        samples = np.zeros((0, X.shape[1]))
-
-        if pair_dens_vals.shape[0] == 0:
-            return samples
-
-        clusters = self.random_state.choice(
-            np.arange(len(pair_keys)), n_to_sample, p=pair_dens_vals
-        )
-
-        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            samples_tmp = self.generate_inter_samples(
-                cluster_a=X[grid_min[pair_keys[cluster_idx][0]]],
-                cluster_b=X[grid_min[pair_keys[cluster_idx][1]]],
-                n_to_sample=cluster_count[idx],
-            )
-            samples = np.vstack([samples, samples_tmp])
-
-        # while len(samples) < n_to_sample:
-        #    idx = pair_keys[self.random_state.choice(
-        #        np.arange(len(pair_keys)), p=pair_dens_vals)]
-        #    cluster_a = grid_min[idx[0]]
-        #    cluster_b = grid_min[idx[1]]
-        #    X_a = X[self.random_state.choice(cluster_a)]
-        #    X_b = X[self.random_state.choice(cluster_b)]
-        #    samples.append(self.sample_between_points(X_a, X_b))
-
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        grid_min, grid_maj = self.construct_grid(X, y)
-
-        densities = self.determine_densities(grid_min, grid_maj, X, y)
-
-        # all clusters can be filtered
-        if len(densities) == 0:
-            return self.return_copies(X, y, "all clusters filtered")
-
-        pair_densities = self.determine_pair_densities(densities)
-
-        density_vals = self.create_density_from_dict(densities)
-        pair_dens_vals = self.create_density_from_dict(pair_densities)
-
-        density_keys = list(densities.keys())
-        pair_keys = list(pair_densities.keys())
-
-        # determining num of samples to generate
-        if len(pair_dens_vals) > 0:
-            dens_num = int(n_to_sample / 2)
-        else:
-            dens_num = n_to_sample
-
-        # generating the samples according to the extracted distributions
-        samples_intra = self.generate_intra(
-            density_keys=density_keys,
-            density_vals=density_vals,
-            grid_min=grid_min,
-            X=X,
-            n_to_sample=dens_num,
-        )
-
-        samples_inter = self.generate_inter(
-            pair_keys=pair_keys,
-            pair_dens_vals=pair_dens_vals,
-            grid_min=grid_min,
-            X=X,
-            n_to_sample=n_to_sample - dens_num,
-        )
-
-        return (
-            np.vstack([X, np.vstack([samples_intra, samples_inter])]),
-            np.hstack(
-                [y, np.repeat(self.min_label, len(samples_intra) + len(samples_inter))]
-            ),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_grid": self.params["n_grid"],
-            "sigma": self.params["sigma"],
-            "learning_rate": self.params["learning_rate"],
-            "n_iter": self.params["n_iter"],
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the SOMO method.
+"""
+
+import numpy as np
+
+from scipy.linalg import circulant
+
+import minisom
+
+from ..base import pairwise_distances_mahalanobis
+
+from ..base import coalesce, coalesce_dict, fix_density
+from ..base import OverSamplingSimplex
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SOMO"]
+
+
+class SOMO(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @article{somo,
+                        title = "Self-Organizing Map Oversampling (SOMO) for
+                                    imbalanced data set learning",
+                        journal = "Expert Systems with Applications",
+                        volume = "82",
+                        pages = "40 - 52",
+                        year = "2017",
+                        issn = "0957-4174",
+                        doi = "https://doi.org/10.1016/j.eswa.2017.03.073",
+                        author = "Georgios Douzas and Fernando Bacao"
+                        }
+
+    Notes:
+        * It is not specified how to handle those cases when a cluster contains
+            1 minority samples, the mean of within-cluster distances is set to
+            100 in these cases.
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_grid=10,
+        sigma=0.2,
+        learning_rate=0.5,
+        n_iter=100,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_grid (int): size of grid
+            sigma (float): sigma of SOM
+            learning_rate (float) learning rate of SOM
+            n_iter (int): number of iterations
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_grid, "n_grid", 2)
+        self.check_greater(sigma, "sigma", 0)
+        self.check_greater(learning_rate, "learning_rate", 0)
+        self.check_greater_or_equal(n_iter, "n_iter", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.params = {
+            "n_grid": n_grid,
+            "sigma": sigma,
+            "learning_rate": learning_rate,
+            "n_iter": n_iter,
+        }
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_grid": [5, 9, 13],
+            "sigma": [0.4],
+            "learning_rate": [0.3, 0.5],
+            "n_iter": [100],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def construct_grid(self, X, y):
+        """
+        Construct the grid.
+
+        Args:
+            X (np.array): all feature vectors
+            y (np.array): all target labels
+
+        Returns:
+            dict, dict: the minority and majority grids
+        """
+        # training SOM
+        som = minisom.MiniSom(
+            self.params["n_grid"],
+            self.params["n_grid"],
+            len(X[0]),
+            sigma=self.params["sigma"],
+            learning_rate=self.params["learning_rate"],
+            random_seed=3,
+        )
+        som.train_random(X, self.params["n_iter"])
+
+        # constructing the grid
+        grid_min = {}
+        grid_maj = {}
+
+        for jdx, x_vec in enumerate(X):
+            idx = som.winner(x_vec)
+            idx = (idx[0], idx[1])
+            if idx not in grid_min:
+                grid_min[idx] = []
+            if idx not in grid_maj:
+                grid_maj[idx] = []
+            if y[jdx] == self.min_label:
+                grid_min[idx].append(jdx)
+            else:
+                grid_maj[idx].append(jdx)
+
+        # converting the grid to arrays
+        for idx in grid_min:
+            grid_min[idx] = np.array(grid_min[idx])
+        for idx in grid_maj:
+            grid_maj[idx] = np.array(grid_maj[idx])
+
+        return grid_min, grid_maj
+
+    def determine_densities(self, grid_min, grid_maj, X, y):
+        """
+        Determine densities
+
+        Args:
+            grid_min (dict): the minority grid
+            gird_maj (dict): the majority grid
+            X (np.array): all feature vectors
+            y (np.array): all target labels
+
+        Returns:
+            dict: the densities
+        """
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        tensor = nn_params.get("metric_tensor", None)
+
+        # filtering
+        filtered = {}
+        for idx, _ in grid_min.items():
+            filtered[idx] = (len(grid_maj[idx]) + 1) / (len(grid_min[idx]) + 1) < 1.0
+
+        # computing densities
+        densities = {}
+        for idx, filt in filtered.items():
+            if filt:
+                paird = pairwise_distances_mahalanobis(X[grid_min[idx]], tensor=tensor)
+                mean_value = np.mean(paird)
+                if len(grid_min[idx]) > 1 and mean_value > 0:
+                    densities[idx] = len(grid_min[idx]) / mean_value**2
+                else:
+                    densities[idx] = 10
+
+        return densities
+
+    def determine_pair_densities(self, densities):
+        """
+        Determine pair densities.
+
+        Args:
+            densities (dict): the densities
+
+        Returns:
+            dict: the pair densities
+        """
+        # computing neighbour densities, using 4 neighborhood
+        neighbors = [[0, 1], [0, -1], [1, 0], [-1, 0]]
+        pair_densities = {}
+        for idx, _ in densities.items():
+            for neigh in neighbors:
+                jdx = (idx[0] + neigh[0], idx[1] + neigh[1])
+                if jdx in densities:
+                    pair_densities[(idx, jdx)] = densities[idx] + densities[jdx]
+
+        return pair_densities
+
+    def create_density_from_dict(self, density):
+        """
+        Create probability density from a dictionary.
+
+        Args:
+            density (dict): densities unnormalized in a dictionary
+
+        Returns:
+            np.array: the density values
+        """
+        density_vals = np.array(list(density.values()))
+        density_vals = 1.0 / density_vals
+
+        density_vals = fix_density(density_vals)
+
+        return density_vals
+
+    def generate_intra(self, *, density_keys, density_vals, grid_min, X, n_to_sample):
+        """
+        Generate samples within the clusters.
+
+        Args:
+            density_keys (list): the density keys
+            density_vals (np.array): the density values
+            grid_min (dict): the minority grid
+            X (np.array): all feature vectors
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples = np.zeros((0, X.shape[1]))
+        clusters = self.random_state.choice(
+            np.arange(len(density_keys)), n_to_sample, p=density_vals
+        )
+
+        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            cluster = X[grid_min[density_keys[cluster_idx]]]
+            # n_dim_orig = self.n_dim
+            # self.n_dim = np.min([len(cluster), n_dim_orig])
+            samples_tmp = self.sample_simplex(
+                X=cluster,
+                indices=circulant(np.arange(cluster.shape[0])),
+                n_to_sample=cluster_count[idx],
+            )
+            samples = np.vstack([samples, samples_tmp])
+            # self.n_dim = n_dim_orig
+
+        # while len(samples) < n_to_sample:
+        #    cluster_idx = density_keys[self.random_state.choice(
+        #        np.arange(len(density_keys)), p=density_vals)]
+        #    cluster = grid_min[cluster_idx]
+        #    sample_a, sample_b = self.random_state.choice(cluster, 2)
+        #    samples.append(self.sample_between_points(
+        #        X[sample_a], X[sample_b]))
+
+        return samples
+
+    def generate_inter_samples(self, cluster_a, cluster_b, n_to_sample):
+        """
+        Generate samples between two clusters.
+
+        Args:
+            cluster_a (np.array): the first cluster
+            cluster_b (np.array): the second cluster
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        tile = np.tile(np.arange(len(cluster_b)), (len(cluster_a), 1))
+
+        indices = (np.vstack([np.zeros(len(cluster_a)), tile.T]).T).astype(int)
+
+        n_dim_orig = self.n_dim
+        self.n_dim = 2
+
+        samples_tmp = self.sample_simplex(
+            X=cluster_a, indices=indices, n_to_sample=n_to_sample, X_vertices=cluster_b
+        )
+
+        self.n_dim = n_dim_orig
+
+        return samples_tmp
+
+    def generate_inter(self, *, pair_keys, pair_dens_vals, grid_min, X, n_to_sample):
+        """
+        Generate samples between the clusters.
+
+        Args:
+            pair_keys (list): the density keys
+            pair_dens_vals (np.array): the density values
+            grid_min (dict): the minority grid
+            X (np.array): all feature vectors
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+
+        samples = np.zeros((0, X.shape[1]))
+
+        if pair_dens_vals.shape[0] == 0:
+            return samples
+
+        clusters = self.random_state.choice(
+            np.arange(len(pair_keys)), n_to_sample, p=pair_dens_vals
+        )
+
+        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            samples_tmp = self.generate_inter_samples(
+                cluster_a=X[grid_min[pair_keys[cluster_idx][0]]],
+                cluster_b=X[grid_min[pair_keys[cluster_idx][1]]],
+                n_to_sample=cluster_count[idx],
+            )
+            samples = np.vstack([samples, samples_tmp])
+
+        # while len(samples) < n_to_sample:
+        #    idx = pair_keys[self.random_state.choice(
+        #        np.arange(len(pair_keys)), p=pair_dens_vals)]
+        #    cluster_a = grid_min[idx[0]]
+        #    cluster_b = grid_min[idx[1]]
+        #    X_a = X[self.random_state.choice(cluster_a)]
+        #    X_b = X[self.random_state.choice(cluster_b)]
+        #    samples.append(self.sample_between_points(X_a, X_b))
+
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        grid_min, grid_maj = self.construct_grid(X, y)
+
+        densities = self.determine_densities(grid_min, grid_maj, X, y)
+
+        # all clusters can be filtered
+        if len(densities) == 0:
+            return self.return_copies(X, y, "all clusters filtered")
+
+        pair_densities = self.determine_pair_densities(densities)
+
+        density_vals = self.create_density_from_dict(densities)
+        pair_dens_vals = self.create_density_from_dict(pair_densities)
+
+        density_keys = list(densities.keys())
+        pair_keys = list(pair_densities.keys())
+
+        # determining num of samples to generate
+        if len(pair_dens_vals) > 0:
+            dens_num = int(n_to_sample / 2)
+        else:
+            dens_num = n_to_sample
+
+        # generating the samples according to the extracted distributions
+        samples_intra = self.generate_intra(
+            density_keys=density_keys,
+            density_vals=density_vals,
+            grid_min=grid_min,
+            X=X,
+            n_to_sample=dens_num,
+        )
+
+        samples_inter = self.generate_inter(
+            pair_keys=pair_keys,
+            pair_dens_vals=pair_dens_vals,
+            grid_min=grid_min,
+            X=X,
+            n_to_sample=n_to_sample - dens_num,
+        )
+
+        return (
+            np.vstack([X, np.vstack([samples_intra, samples_inter])]),
+            np.hstack(
+                [y, np.repeat(self.min_label, len(samples_intra) + len(samples_inter))]
+            ),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_grid": self.params["n_grid"],
+            "sigma": self.params["sigma"],
+            "learning_rate": self.params["learning_rate"],
+            "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index f4fd83e..937185d 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -1,171 +1,172 @@
-"""
-This module implements the SPY method.
-"""
-
-import numpy as np
-
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SPY"]
-
-
-class SPY(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{spy,
-                            author={Dang, X. T. and Tran, D. H. and Hirose, O.
-                                    and Satou, K.},
-                            booktitle={2015 Seventh International Conference
-                                        on Knowledge and Systems Engineering
-                                        (KSE)},
-                            title={SPY: A Novel Resampling Method for
-                                    Improving Classification Performance in
-                                    Imbalanced Data},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={280-285},
-                            keywords={decision making;learning (artificial
-                                        intelligence);pattern classification;
-                                        sampling methods;SPY;resampling
-                                        method;decision-making process;
-                                        biomedical data classification;
-                                        class imbalance learning method;
-                                        SMOTE;oversampling method;UCI
-                                        machine learning repository;G-mean
-                                        value;borderline-SMOTE;
-                                        safe-level-SMOTE;Support vector
-                                        machines;Training;Bioinformatics;
-                                        Proteins;Protein engineering;Radio
-                                        frequency;Sensitivity;Imbalanced
-                                        dataset;Over-sampling;
-                                        Under-sampling;SMOTE;
-                                        borderline-SMOTE},
-                            doi={10.1109/KSE.2015.24},
-                            ISSN={},
-                            month={Oct}}
-    """
-
-    categories = [OverSampling.cat_changes_majority, OverSampling.cat_metric_learning]
-
-    def __init__(
-        self,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        threshold=0.5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            n_neighbors (int): number of neighbors in nearest neighbor
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            threshold (float): threshold*n_neighbors gives the threshold z
-                                described in the paper
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_in_range(threshold, "threshold", [0, 1])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.n_neighbors = n_neighbors
-        self.nn_params = nn_params or {}
-        self.threshold = threshold
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "n_neighbors": [3, 5, 7],
-            "threshold": [0.3, 0.5, 0.7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        X_min = X[y == self.min_label]
-
-        # fitting nearest neighbors model
-        n_neighbors = min([len(X), self.n_neighbors + 1])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X)
-        ind = nnmt.kneighbors(X_min, return_distance=False)
-
-        # if the number of majority samples in the neighborhood is
-        # smaller than a threshold
-        # their labels are changed to minority
-
-        y_new = y.copy()
-        z_vec = self.threshold * n_neighbors
-
-        majority_mask = y[ind[:, 1:]] == self.maj_label
-
-        x_vec = np.sum(majority_mask, axis=1)
-        mask = x_vec < z_vec
-
-        mask = list(set(ind[mask, 1:][majority_mask[mask]].tolist()))
-
-        y_new[mask] = self.min_label
-
-        # checking the neighbors of each minority sample
-        # for i in range(len(X_min)):
-        #    majority_mask = y[ind[i][1:]] == self.maj_label
-        #    x = np.sum(majority_mask)
-        #    # if the number of majority samples in the neighborhood is
-        #    # smaller than a threshold
-        #    # their labels are changed to minority
-        #    if x < z:
-        #        y_new[ind[i][1:][majority_mask]] = self.min_label
-
-        return X.copy(), y_new
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "threshold": self.threshold,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SPY method.
+"""
+
+import numpy as np
+
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SPY"]
+
+
+class SPY(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{spy,
+                            author={Dang, X. T. and Tran, D. H. and Hirose, O.
+                                    and Satou, K.},
+                            booktitle={2015 Seventh International Conference
+                                        on Knowledge and Systems Engineering
+                                        (KSE)},
+                            title={SPY: A Novel Resampling Method for
+                                    Improving Classification Performance in
+                                    Imbalanced Data},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={280-285},
+                            keywords={decision making;learning (artificial
+                                        intelligence);pattern classification;
+                                        sampling methods;SPY;resampling
+                                        method;decision-making process;
+                                        biomedical data classification;
+                                        class imbalance learning method;
+                                        SMOTE;oversampling method;UCI
+                                        machine learning repository;G-mean
+                                        value;borderline-SMOTE;
+                                        safe-level-SMOTE;Support vector
+                                        machines;Training;Bioinformatics;
+                                        Proteins;Protein engineering;Radio
+                                        frequency;Sensitivity;Imbalanced
+                                        dataset;Over-sampling;
+                                        Under-sampling;SMOTE;
+                                        borderline-SMOTE},
+                            doi={10.1109/KSE.2015.24},
+                            ISSN={},
+                            month={Oct}}
+    """
+
+    categories = [OverSampling.cat_changes_majority, OverSampling.cat_metric_learning]
+
+    def __init__(
+        self,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        threshold=0.5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            n_neighbors (int): number of neighbors in nearest neighbor
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            threshold (float): threshold*n_neighbors gives the threshold z
+                                described in the paper
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_in_range(threshold, "threshold", [0, 1])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.n_neighbors = n_neighbors
+        self.nn_params = nn_params or {}
+        self.threshold = threshold
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "n_neighbors": [3, 5, 7],
+            "threshold": [0.3, 0.5, 0.7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        X_min = X[y == self.min_label]
+
+        # fitting nearest neighbors model
+        n_neighbors = min([len(X), self.n_neighbors + 1])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X)
+        ind = nnmt.kneighbors(X_min, return_distance=False)
+
+        # if the number of majority samples in the neighborhood is
+        # smaller than a threshold
+        # their labels are changed to minority
+
+        y_new = y.copy()
+        z_vec = self.threshold * n_neighbors
+
+        majority_mask = y[ind[:, 1:]] == self.maj_label
+
+        x_vec = np.sum(majority_mask, axis=1)
+        mask = x_vec < z_vec
+
+        mask = list(set(ind[mask, 1:][majority_mask[mask]].tolist()))
+
+        y_new[mask] = self.min_label
+
+        # checking the neighbors of each minority sample
+        # for i in range(len(X_min)):
+        #    majority_mask = y[ind[i][1:]] == self.maj_label
+        #    x = np.sum(majority_mask)
+        #    # if the number of majority samples in the neighborhood is
+        #    # smaller than a threshold
+        #    # their labels are changed to minority
+        #    if x < z:
+        #        y_new[ind[i][1:][majority_mask]] = self.min_label
+
+        return X.copy(), y_new
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index ae3616e..633894b 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -487,5 +487,6 @@ class SYMPROD(OverSampling):
             "m_neighbors": self.params["m_neighbors"],
             "cutoff_threshold": self.params["cutoff_threshold"],
             "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From 9e972c710279aed6ea23a90b981ff29b49a986fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 020/101] fix: ADG keeps the original samples and supports
 arbitrary class labels

---
 smote_variants/oversampling/_adg.py | 1585 ++++++++++++++-------------
 1 file changed, 808 insertions(+), 777 deletions(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..74527fb 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -1,777 +1,808 @@
-"""
-This module implements the ADG method.
-"""
-
-import warnings
-
-import numpy as np
-from numpy.linalg import LinAlgError
-
-from sklearn.decomposition import PCA
-from sklearn.cluster import KMeans
-from sklearn.mixture import GaussianMixture
-from sklearn.metrics import pairwise_distances
-
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["ADG"]
-
-
-def bic_score(kmeans, X):
-    """
-    Compute BIC score for clustering
-
-    Args:
-        kmeans (sklearn.KMeans): kmeans object
-        X (np.array):  clustered data
-
-    Returns:
-        float: bic value
-
-    Inspired by https://stats.stackexchange.com/questions/90769/
-                        using-bic-to-estimate-the-number-of-k-in-kmeans
-    """
-
-    # extract descriptors of the clustering
-    cluster_centers = kmeans.cluster_centers_
-    # n_clusters = kmeans.n_clusters
-    n_clusters = np.unique(kmeans.labels_).shape[0]
-    n_in_clusters = np.bincount(kmeans.labels_)
-    n_samples, n_dim = X.shape
-
-    # compute variance for all clusters beforehand
-
-    def sum_norm_2(idx):
-        return np.sum(
-            np.linalg.norm(X[kmeans.labels_ == idx] - cluster_centers[idx]) ** 2
-        )
-
-    cluster_variances = [sum_norm_2(i) for i in range(n_clusters)]
-    term_0 = (1.0) / ((n_samples - n_clusters) * n_dim)
-    term_1 = np.sum(cluster_variances)
-    clustering_variance = term_0 * term_1
-
-    const_term = 0.5 * n_clusters * np.log(n_samples) * (n_dim + 1)
-
-    def bic_comp(idx):
-        term_0 = n_in_clusters[idx] * np.log(n_in_clusters[idx])
-        term_1 = n_in_clusters[idx] * np.log(n_samples)
-        if clustering_variance == 0:
-            return np.inf
-        term_2 = ((n_in_clusters[idx] * n_dim) / 2) * np.log(
-            2 * np.pi * clustering_variance
-        )
-        term_3 = (n_in_clusters[idx] - 1) * n_dim / 2
-
-        return term_0 - term_1 - term_2 - term_3
-
-    bic = (
-        np.sum([bic_comp(idx) for idx in range(n_clusters) if n_in_clusters[idx] > 0])
-        - const_term
-    )
-
-    return bic
-
-
-def xmeans(X, rng=(1, 10), random_state=None):
-    """
-    Clustering with BIC based n_cluster selection
-
-    Args:
-        X (np.array): data to cluster
-        rng (tuple): lower and upper bound on the number of clusters
-        random_state (int/None): random state to use
-
-    Returns:
-        sklearn.KMeans: clustering with lowest BIC score
-    """
-    best_bic = np.inf
-    best_clustering = None
-
-    # do clustering for all n_clusters in the specified range
-    for n_clusters in range(rng[0], min([rng[1], len(X)])):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            kmeans = KMeans(n_clusters=n_clusters, random_state=random_state, n_init='auto').fit(X)
-
-        bic = bic_score(kmeans, X)
-        if bic < best_bic:
-            best_bic = bic
-            best_clustering = kmeans
-
-    return best_clustering
-
-
-def xgmeans(X, rng=(1, 10), random_state=None):
-    """
-    Gaussian mixture with BIC to select the optimal number
-    of components
-
-    Args:
-        X (np.array): data to cluster
-        rng (tuple): lower and upper bound on the number of components
-        random_state (int/None): random state to use
-
-    Returns:
-        sklearn.GaussianMixture: Gaussian mixture model with the
-                                    lowest BIC score
-    """
-    best_bic = np.inf
-    best_mixture = None
-
-    # do model fitting for all n_components in the specified range
-    for n_components in range(rng[0], min([rng[1], len(X)])):
-        gmm = GaussianMixture(n_components=n_components, random_state=random_state).fit(
-            X
-        )
-        bic = gmm.bic(X)
-        if bic < best_bic:
-            best_bic = bic
-            best_mixture = gmm
-
-    return best_mixture
-
-
-def evaluate_matrices(X, y, kernel=np.inner, maj_label=0, min_label=1):
-    """
-    The function evaluates the partial_results specified in the method.
-
-    Args:
-        X (np.array): features
-        y (np.array): target labels
-        kernel (function): the kernel function to be used
-
-    Returns:
-        np.array, np.array, int, int, np.array, np.array,
-        np.array, np.array, np.array
-        np.array, np.array, np.array, np.array, np.array:
-            X_minux, X_plus, l_minus, l_plus, X, y, K, M_plus, M_minus,
-            M, K_plus, K_minus, N_plus, n_minus using the notations of
-            the paper, X and y are ordered by target labels
-    """
-    x_minus = X[y == maj_label]
-    x_plus = X[y == min_label]
-
-    X = np.vstack([x_minus, x_plus])
-    y = np.hstack(
-        [np.array([maj_label] * len(x_minus)), np.array([min_label] * len(x_plus))]
-    )
-
-    k = pairwise_distances(X, X, metric=kernel)  # pylint: disable=invalid-name
-    m_plus = np.mean(k[:, len(x_minus) :], axis=1)
-    m_minus = np.mean(k[:, : len(x_minus)], axis=1)
-    m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
-
-    k_minus = k[:, : len(x_minus)]
-    k_plus = k[:, len(x_minus) :]
-
-    partial_results = {
-        "X_minus": x_minus,
-        "X_plus": x_plus,
-        "K": k,
-        "M_plus": m_plus,
-        "M_minus": m_minus,
-        "M": m,
-        "K_plus": k_plus,
-        "K_minus": k_minus,
-        "l_minus": len(x_minus),
-        "l_plus": len(x_plus),
-    }
-
-    return (partial_results, X, y)
-
-
-def generate_kernel_function(specification):
-    """
-    Generate the kernel function.
-
-    Args:
-        specification (str): the kernel specification
-
-    Returns:
-        callable: the kernel function
-    """
-    if specification == "inner":
-        kernel_function = np.inner
-    else:
-        kernel_function = None
-        specs = specification.split("_")
-        if specs[0] == "rbf":
-            bandwidth = float(specs[1])
-
-            def kernel_function(x_vector, y_vector):
-                norm = np.linalg.norm(x_vector - y_vector)
-                return np.exp(-(norm**2) / bandwidth)
-
-    return kernel_function
-
-
-class ADGSingularMatrixException(Exception):
-    """
-    Exception indicating a singular matrix problem.
-    """
-
-
-class ADG(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{adg,
-                    author = {Pourhabib, A. and Mallick, Bani K. and Ding, Yu},
-                    year = {2015},
-                    month = {16},
-                    pages = {2695--2724},
-                    title = {A Novel Minority Cloning Technique for
-                                Cost-Sensitive Learning},
-                    volume = {16},
-                    journal = {Journal of Machine Learning Research}
-                    }
-
-    Notes:
-        * This method has a lot of parameters, it becomes fairly hard to
-            cross-validate thoroughly.
-        * Fails if matrix is singular when computing alpha_star, fixed
-            by PCA.
-        * Singularity might be caused by repeating samples.
-        * Maintaining the kernel matrix becomes unfeasible above a couple
-            of thousand vectors.
-    """
-
-    categories = [OverSampling.cat_extensive, OverSampling.cat_uses_clustering]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        kernel="inner",
-        lam=1.0,
-        mu=1.0,
-        k=12,
-        gamma=1.0,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            kernel (str): 'inner'/'rbf_x', where x is a float, the bandwidth
-            lam (float): lambda parameter of the method
-            mu (float): mu parameter of the method
-            k (int): number of samples to generate in each iteration
-            gamma (float): gamma parameter of the method
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state, checks=None)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-
-        if kernel != "inner" and not kernel.startswith("rbf"):
-            raise ValueError(
-                f"{self.__class__.__name__}: Kernel function " f"{kernel} not supported"
-            )
-        if kernel.startswith("rbf"):
-            par = float(kernel.split("_")[-1])
-            if par <= 0.0:
-                raise ValueError(
-                    f"{self.__class__.__name__}: Kernel parameter "
-                    f"{par} is not supported"
-                )
-
-        self.check_greater(lam, "lam", 0)
-        self.check_greater(mu, "mu", 0)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(gamma, "gamma", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.kernel = kernel
-        self.lam = lam
-        self.mu = mu  # pylint: disable=invalid-name
-        self.k = k  # pylint: disable=invalid-name
-        self.gamma = gamma
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "kernel": ["inner", "rbf_0.5", "rbf_1.0", "rbf_2.0"],
-            "lam": [1.0, 2.0],
-            "mu": [1.0, 2.0],
-            "k": [12],
-            "gamma": [1.0, 2.0],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def initialize_matrices(self, *, partial_results):
-        """
-        Initializes the base partial_results.
-
-        Args:
-            np.arrays by names
-
-        Returns:
-            np.arrays: the initialized partial_results
-        """
-        l_plus = partial_results["l_plus"]
-        k_plus = partial_results["K_plus"]
-        k_minus = partial_results["K_minus"]
-        x_plus = partial_results["X_plus"]
-        x_minus = partial_results["X_minus"]
-
-        k_plus2 = np.dot(k_plus, k_plus.T)
-        k_plus_sum = np.sum(k_plus, axis=1)
-        k_plus_diad = np.outer(k_plus_sum, k_plus_sum) / l_plus
-
-        k_minus2 = np.dot(k_minus, k_minus.T)
-        k_minus_sum = np.sum(k_minus, axis=1)
-        k_minus_diad = np.outer(k_minus_sum, k_minus_sum) / partial_results["l_minus"]
-
-        n = (
-            k_plus2 - k_plus_diad + k_minus2 - k_minus_diad
-        )  # pylint: disable=invalid-name
-
-        x_plus_hat = x_plus.copy()
-
-        partial_results["K_plus2"] = k_plus2
-        partial_results["K_plus_sum"] = k_plus_sum
-        partial_results["K_minus2"] = k_minus2
-        partial_results["K_minus_sum"] = k_minus_sum
-        partial_results["N"] = n
-        partial_results["X_plus_hat"] = x_plus_hat
-        partial_results["l_minus"] = len(x_minus)
-
-        return partial_results
-
-    def sample_with_n_components(self, X, y, n_components):
-        """
-        Rerun the sampling in a lower dimensional space.
-
-        Args:
-            X (np.array): features
-            y (np.array): targets
-            n_components (int): dimensionality of the feature space
-
-        Returns:
-            np.array, np.array: the resampled X and y
-        """
-        _logger.warning(
-            "%s: reducing dimensionality to %d", self.__class__.__name__, n_components
-        )
-        # if n_components == 0:
-        #    return None, None
-
-        pca = PCA(n_components=n_components).fit(X)
-
-        x_trans = pca.transform(X)
-
-        adg = ADG(
-            proportion=self.proportion,
-            kernel=self.kernel,
-            lam=self.lam,
-            mu=self.mu,
-            k=self.k,
-            gamma=self.gamma,
-            random_state=self._random_state_init,
-        )
-
-        X_samp, y_samp = adg.sample(x_trans, y)
-
-        return pca.inverse_transform(X_samp), y_samp
-
-    def update_partial_results(self, *, partial_results):
-        """
-        Update partial_results.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        # M_plus is not updated as it is not used
-
-        k_plus = partial_results["K_plus"]
-        k_minus = partial_results["K_minus"]
-        k_minus2 = partial_results["K_minus2"]
-        k_plus2 = partial_results["K_plus2"]
-        l_new = partial_results["l_new"]
-
-        m_plus = np.mean(k_plus, axis=1)
-        m_minus = np.mean(k_minus, axis=1)
-
-        # step 13 is already involved in the core of the loop
-        m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
-
-        corner = np.dot(k_minus[:-l_new:], k_minus[-l_new:].T)
-        k_minus2 = np.block(
-            [
-                [k_minus2, corner],
-                [corner.T, np.dot(k_minus[-l_new:], k_minus[-l_new:].T)],
-            ]
-        )
-        k_minus_sum = m_minus * len(k_minus)
-
-        k_plus2 = k_plus2 + np.dot(k_plus[:-l_new, l_new:], k_plus[:-l_new, l_new:].T)
-
-        corner = np.dot(k_plus[:-l_new], k_plus[-l_new:].T)
-
-        k_plus2 = np.block(
-            [[k_plus2, corner], [corner.T, np.dot(k_plus[-l_new:], k_plus[-l_new:].T)]]
-        )
-
-        k_plus_sum = m_plus * len(k_plus)
-
-        n = (
-            k_plus2
-            - np.outer(
-                k_plus_sum / partial_results["l_plus"],  # pylint: disable=invalid-name
-                k_plus_sum,
-            )
-            + k_minus2
-            - np.outer(k_minus_sum / partial_results["l_minus"], k_minus_sum)
-        )
-
-        partial_results["M_plus"] = m_plus
-        partial_results["M_minus"] = m_minus
-        partial_results["M"] = m
-        partial_results["K_minus2"] = k_minus2
-        partial_results["K_minus_sum"] = k_minus_sum
-        partial_results["K_plus2"] = k_plus2
-        partial_results["K_plus_sum"] = k_plus_sum
-        partial_results["N"] = n
-
-        return partial_results
-
-    def determine_a(self, *, partial_results, k_c, lam_c, mu_c):
-        """
-        Determine the matrix A
-
-        Args:
-            the quantities required for A
-
-        Returns:
-            np.array: the matrix A
-        """
-        m = partial_results["M"]  # pylint: disable=invalid-name
-        n = partial_results["N"]  # pylint: disable=invalid-name
-        k = partial_results["K"]  # pylint: disable=invalid-name
-
-        # step 3, 4
-        omega = -np.sum(
-            [k_c[i] * (lam_c[i]) ** 2 / (4 * mu_c[i] ** 2) for i in range(len(k_c))]
-        )
-        A = (m - self.gamma * n) - omega * k  # pylint: disable=invalid-name
-
-        return A
-
-    def determine_b(self, *, partial_results, k_c, lam_c, X, clusters):
-        """
-        Determine the vector b
-
-        Args:
-            the quantities required for vector b
-
-        Returns:
-            np.array: the vector b
-        """
-        x_minus = partial_results["X_minus"]
-        k = partial_results["K"]  # pylint: disable=invalid-name
-        m_minus = partial_results["M_minus"]
-
-        # step 3, 4
-        nu_c = -0.5 * k_c * lam_c
-        m_plus_c = [
-            np.mean(k[:, np.arange(len(x_minus), len(X))[clusters.labels_ == i]])
-            for i in range(len(k_c))
-        ]
-
-        b = np.sum(
-            [
-                (m_minus - m_plus_c[i]) * nu_c[i]  # pylint: disable=invalid-name
-                for i in range(len(k_c))
-            ],
-            axis=0,
-        )
-
-        return b
-
-    def step_1_2_3_4(self, *, partial_results, X):
-        """
-        Implements steps 1, 2, 3 and 4 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        x_plus_hat = partial_results["X_plus_hat"]
-
-        # step 1
-        clusters = xmeans(x_plus_hat, random_state=self._random_state_init)
-        l_c = np.array(
-            [np.sum(clusters.labels_ == i) for i in range(clusters.n_clusters)]
-        )
-
-        # step 2
-        k_c = ((1.0 / l_c) / (np.sum(1.0 / l_c)) * self.k).astype(int)
-        k_c[k_c == 0] = 1
-        lam_c, mu_c = self.lam / l_c, self.mu / l_c
-
-        return (
-            self.determine_a(
-                partial_results=partial_results, k_c=k_c, lam_c=lam_c, mu_c=mu_c
-            ),
-            self.determine_b(
-                partial_results=partial_results,
-                k_c=k_c,
-                lam_c=lam_c,
-                X=X,
-                clusters=clusters,
-            ),
-        )
-
-    def step_5_6_7(self, *, partial_results, q, X, kernel_function, alpha_star):
-        """
-        Implements steps 5, 6, 7 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        x_plus = partial_results["X_plus"]
-
-        # step 5
-        mixture = xgmeans(x_plus, random_state=self._random_state_init)
-
-        # step 6
-        z = mixture.sample(q)[0]  # pylint: disable=invalid-name
-
-        # step 7
-        # computing the kernel matrix of generated samples with all samples
-        k_10 = pairwise_distances(z, X, metric=kernel_function)
-        mask_inner_prod = np.where(np.inner(k_10, alpha_star) > 0)[0]
-        z_hat = z[mask_inner_prod]
-
-        partial_results["Z_hat"] = z_hat
-        partial_results["mask_inner_prod"] = mask_inner_prod
-        partial_results["K_10"] = k_10
-
-    def step_9_16(self, *, partial_results, kernel_function, y):
-        """
-        Implements steps 9-16 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        # step 8
-        # this step is not used for anything, the identified clusters are
-        # only used in step 13 of the paper, however, the values set
-        # (M_plus^c) are overwritten in step 3 of the next iteration
-
-        if partial_results["Z_hat"].shape[0] == 0:
-            raise ValueError("Z_hat is empty")
-
-        x_minus = partial_results["X_minus"]
-        x_plus_hat = partial_results["X_plus_hat"]
-        k = partial_results["K"]  # pylint: disable=invalid-name
-        k_10 = partial_results["K_10"]
-        l_minus = partial_results["l_minus"]
-        z_hat = partial_results["Z_hat"]
-        mask_inner_prod = partial_results["mask_inner_prod"]
-
-        # step 9
-        x_plus_hat = np.vstack([x_plus_hat, z_hat])
-
-        # step 11 - 16
-        # these steps have been reorganized a bit for efficient
-        # calculations
-
-        pairwd = pairwise_distances(z_hat, z_hat, metric=kernel_function)
-        k = np.block(
-            [
-                [k, k_10[mask_inner_prod].T],  # pylint: disable=invalid-name
-                [k_10[mask_inner_prod], pairwd],
-            ]
-        )
-
-        k_minus = k[:, :l_minus]
-        k_plus = k[:, l_minus:]
-
-        # step 10
-        X = np.vstack([x_minus, x_plus_hat])
-        y = np.hstack([y, np.repeat(self.min_label, len(z_hat))])
-
-        partial_results["X_plus_hat"] = x_plus_hat
-        partial_results["K"] = k
-        partial_results["K_minus"] = k_minus
-        partial_results["K_plus"] = k_plus
-        partial_results["l_plus"] = len(x_plus_hat)
-        partial_results["l_new"] = len(partial_results["Z_hat"])
-
-        return X, y
-
-    def solve(
-        self, A, b  # pylint: disable=invalid-name  # pylint: disable=invalid-name
-    ):
-        """
-        Solve a linear equation and throw exception if doesnt work.
-
-        Args:
-            A (np.array): the coefficients
-            b (np.array): the right hand side
-
-        Returns:
-            np.array: the solution
-        """
-        try:
-            return np.linalg.solve(A, b)
-        except LinAlgError as exc:
-            raise ADGSingularMatrixException() from exc
-
-    def check_early_stopping(self, fraction):
-        """
-        Checking the early stopping condition.
-        """
-        if fraction < 0.01:
-            raise ValueError("Early stopping.")
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # Implementation of the technique, following the steps and notations
-        # of the paper
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        q = n_to_sample  # pylint: disable=invalid-name
-
-        if q == 0:
-            return self.return_copies(X, y, "no need for sampling")
-
-        # instantiating the proper kernel function, the parameter of the RBF
-        # is supposed to be the denominator in the Gaussian
-        kernel_function = generate_kernel_function(self.kernel)
-
-        # Initial evaluation of the partial_results
-        # M_plus is not updated as it is not used
-        # the partial_results dict acts like a dataclass to reduce the clutter
-        # of passing around dozens of arrays
-        partial_results, X, y = evaluate_matrices(X, y, kernel=kernel_function)
-
-        # The computing of N matrix is factored into two steps, computing
-        # N_plus and N_minus this is used to improve efficiency
-        partial_results = self.initialize_matrices(partial_results=partial_results)
-
-        total_added = 0
-
-        alpha_star = None
-
-        q = q * 2  # pylint: disable=invalid-name
-
-        try:
-            # executing the sample generation
-            while q > 1:
-                q = int(q / 2)  # pylint: disable=invalid-name
-
-                _logger.info(
-                    "%s: Starting iteration with q=%d", self.__class__.__name__, q
-                )
-
-                A, b = self.step_1_2_3_4(  # pylint: disable=invalid-name
-                    partial_results=partial_results, X=X
-                )
-
-                alpha_star = self.solve(A, b)
-
-                self.step_5_6_7(
-                    partial_results=partial_results,
-                    q=q,
-                    X=X,
-                    kernel_function=kernel_function,
-                    alpha_star=alpha_star,
-                )
-
-                _logger.info(
-                    "%s: number of vectors added: %d/%d",
-                    self.__class__.__name__,
-                    len(partial_results["Z_hat"]),
-                    q,
-                )
-
-                X, y = self.step_9_16(
-                    partial_results=partial_results,
-                    kernel_function=kernel_function,
-                    y=y,
-                )
-
-                total_added = total_added + len(partial_results["Z_hat"])
-
-                self.check_early_stopping(len(partial_results["Z_hat"]) / total_added)
-
-                partial_results = self.update_partial_results(
-                    partial_results=partial_results
-                )
-
-        except ADGSingularMatrixException:
-            n_components = int(X.shape[1] / 2)
-            if n_components > 0:
-                return self.sample_with_n_components(X, y, n_components)
-
-            return self.return_copies(X, y, "cannot reduce dimensionality any more")
-        except ValueError as exc:
-            _logger.info(
-                "%s: stopping the iteration because of %s",
-                self.__class__.__name__,
-                str(exc),
-            )
-            return X.copy(), y.copy()
-
-        return X.copy(), y.copy()
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "kernel": self.kernel,
-            "lam": self.lam,
-            "mu": self.mu,
-            "k": self.k,
-            "gamma": self.gamma,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the ADG method.
+"""
+
+import warnings
+
+import numpy as np
+from numpy.linalg import LinAlgError
+
+from sklearn.decomposition import PCA
+from sklearn.cluster import KMeans
+from sklearn.mixture import GaussianMixture
+from sklearn.metrics import pairwise_distances
+
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["ADG"]
+
+
+def bic_score(kmeans, X):
+    """
+    Compute BIC score for clustering
+
+    Args:
+        kmeans (sklearn.KMeans): kmeans object
+        X (np.array):  clustered data
+
+    Returns:
+        float: bic value
+
+    Inspired by https://stats.stackexchange.com/questions/90769/
+                        using-bic-to-estimate-the-number-of-k-in-kmeans
+    """
+
+    # extract descriptors of the clustering
+    cluster_centers = kmeans.cluster_centers_
+    # n_clusters = kmeans.n_clusters
+    n_clusters = np.unique(kmeans.labels_).shape[0]
+    n_in_clusters = np.bincount(kmeans.labels_)
+    n_samples, n_dim = X.shape
+
+    # compute variance for all clusters beforehand
+
+    def sum_norm_2(idx):
+        return np.sum(
+            np.linalg.norm(X[kmeans.labels_ == idx] - cluster_centers[idx]) ** 2
+        )
+
+    cluster_variances = [sum_norm_2(i) for i in range(n_clusters)]
+    term_0 = (1.0) / ((n_samples - n_clusters) * n_dim)
+    term_1 = np.sum(cluster_variances)
+    clustering_variance = term_0 * term_1
+
+    const_term = 0.5 * n_clusters * np.log(n_samples) * (n_dim + 1)
+
+    def bic_comp(idx):
+        term_0 = n_in_clusters[idx] * np.log(n_in_clusters[idx])
+        term_1 = n_in_clusters[idx] * np.log(n_samples)
+        if clustering_variance == 0:
+            return np.inf
+        term_2 = ((n_in_clusters[idx] * n_dim) / 2) * np.log(
+            2 * np.pi * clustering_variance
+        )
+        term_3 = (n_in_clusters[idx] - 1) * n_dim / 2
+
+        return term_0 - term_1 - term_2 - term_3
+
+    bic = (
+        np.sum([bic_comp(idx) for idx in range(n_clusters) if n_in_clusters[idx] > 0])
+        - const_term
+    )
+
+    return bic
+
+
+def xmeans(X, rng=(1, 10), random_state=None):
+    """
+    Clustering with BIC based n_cluster selection
+
+    Args:
+        X (np.array): data to cluster
+        rng (tuple): lower and upper bound on the number of clusters
+        random_state (int/None): random state to use
+
+    Returns:
+        sklearn.KMeans: clustering with lowest BIC score
+    """
+    best_bic = np.inf
+    best_clustering = None
+
+    # do clustering for all n_clusters in the specified range
+    for n_clusters in range(rng[0], min([rng[1], len(X)])):
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            kmeans = KMeans(n_clusters=n_clusters, random_state=random_state, n_init='auto').fit(X)
+
+        bic = bic_score(kmeans, X)
+        if best_clustering is None or bic < best_bic:
+            best_bic = bic
+            best_clustering = kmeans
+
+    return best_clustering
+
+
+def xgmeans(X, rng=(1, 10), random_state=None):
+    """
+    Gaussian mixture with BIC to select the optimal number
+    of components
+
+    Args:
+        X (np.array): data to cluster
+        rng (tuple): lower and upper bound on the number of components
+        random_state (int/None): random state to use
+
+    Returns:
+        sklearn.GaussianMixture: Gaussian mixture model with the
+                                    lowest BIC score
+    """
+    best_bic = np.inf
+    best_mixture = None
+
+    # do model fitting for all n_components in the specified range
+    for n_components in range(rng[0], min([rng[1], len(X)])):
+        gmm = GaussianMixture(n_components=n_components, random_state=random_state).fit(
+            X
+        )
+        bic = gmm.bic(X)
+        if bic < best_bic:
+            best_bic = bic
+            best_mixture = gmm
+
+    return best_mixture
+
+
+def evaluate_matrices(X, y, kernel=np.inner, maj_label=0, min_label=1):
+    """
+    The function evaluates the partial_results specified in the method.
+
+    Args:
+        X (np.array): features
+        y (np.array): target labels
+        kernel (function): the kernel function to be used
+
+    Returns:
+        np.array, np.array, int, int, np.array, np.array,
+        np.array, np.array, np.array
+        np.array, np.array, np.array, np.array, np.array:
+            X_minux, X_plus, l_minus, l_plus, X, y, K, M_plus, M_minus,
+            M, K_plus, K_minus, N_plus, n_minus using the notations of
+            the paper, X and y are ordered by target labels
+    """
+    x_minus = X[y == maj_label]
+    x_plus = X[y == min_label]
+
+    X = np.vstack([x_minus, x_plus])
+    y = np.hstack(
+        [np.array([maj_label] * len(x_minus)), np.array([min_label] * len(x_plus))]
+    )
+
+    k = pairwise_distances(X, X, metric=kernel)  # pylint: disable=invalid-name
+    m_plus = np.mean(k[:, len(x_minus) :], axis=1)
+    m_minus = np.mean(k[:, : len(x_minus)], axis=1)
+    m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
+
+    k_minus = k[:, : len(x_minus)]
+    k_plus = k[:, len(x_minus) :]
+
+    partial_results = {
+        "X_minus": x_minus,
+        "X_plus": x_plus,
+        "K": k,
+        "M_plus": m_plus,
+        "M_minus": m_minus,
+        "M": m,
+        "K_plus": k_plus,
+        "K_minus": k_minus,
+        "l_minus": len(x_minus),
+        "l_plus": len(x_plus),
+    }
+
+    return (partial_results, X, y)
+
+
+def generate_kernel_function(specification):
+    """
+    Generate the kernel function.
+
+    Args:
+        specification (str): the kernel specification
+
+    Returns:
+        callable: the kernel function
+    """
+    if specification == "inner":
+        kernel_function = np.inner
+    else:
+        kernel_function = None
+        specs = specification.split("_")
+        if specs[0] == "rbf":
+            bandwidth = float(specs[1])
+
+            def kernel_function(x_vector, y_vector):
+                norm = np.linalg.norm(x_vector - y_vector)
+                return np.exp(-(norm**2) / bandwidth)
+
+    return kernel_function
+
+
+class ADGSingularMatrixException(Exception):
+    """
+    Exception indicating a singular matrix problem.
+    """
+
+
+class ADG(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{adg,
+                    author = {Pourhabib, A. and Mallick, Bani K. and Ding, Yu},
+                    year = {2015},
+                    month = {16},
+                    pages = {2695--2724},
+                    title = {A Novel Minority Cloning Technique for
+                                Cost-Sensitive Learning},
+                    volume = {16},
+                    journal = {Journal of Machine Learning Research}
+                    }
+
+    Notes:
+        * This method has a lot of parameters, it becomes fairly hard to
+            cross-validate thoroughly.
+        * Fails if matrix is singular when computing alpha_star, fixed
+            by PCA.
+        * Singularity might be caused by repeating samples.
+        * Maintaining the kernel matrix becomes unfeasible above a couple
+            of thousand vectors.
+    """
+
+    categories = [OverSampling.cat_extensive, OverSampling.cat_uses_clustering]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        kernel="inner",
+        lam=1.0,
+        mu=1.0,
+        k=12,
+        gamma=1.0,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            kernel (str): 'inner'/'rbf_x', where x is a float, the bandwidth
+            lam (float): lambda parameter of the method
+            mu (float): mu parameter of the method
+            k (int): number of samples to generate in each iteration
+            gamma (float): gamma parameter of the method
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state, checks=None)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+
+        if kernel != "inner" and not kernel.startswith("rbf"):
+            raise ValueError(
+                f"{self.__class__.__name__}: Kernel function " f"{kernel} not supported"
+            )
+        if kernel.startswith("rbf"):
+            par = float(kernel.split("_")[-1])
+            if par <= 0.0:
+                raise ValueError(
+                    f"{self.__class__.__name__}: Kernel parameter "
+                    f"{par} is not supported"
+                )
+
+        self.check_greater(lam, "lam", 0)
+        self.check_greater(mu, "mu", 0)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(gamma, "gamma", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.kernel = kernel
+        self.lam = lam
+        self.mu = mu  # pylint: disable=invalid-name
+        self.k = k  # pylint: disable=invalid-name
+        self.gamma = gamma
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "kernel": ["inner", "rbf_0.5", "rbf_1.0", "rbf_2.0"],
+            "lam": [1.0, 2.0],
+            "mu": [1.0, 2.0],
+            "k": [12],
+            "gamma": [1.0, 2.0],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def initialize_matrices(self, *, partial_results):
+        """
+        Initializes the base partial_results.
+
+        Args:
+            np.arrays by names
+
+        Returns:
+            np.arrays: the initialized partial_results
+        """
+        l_plus = partial_results["l_plus"]
+        k_plus = partial_results["K_plus"]
+        k_minus = partial_results["K_minus"]
+        x_plus = partial_results["X_plus"]
+        x_minus = partial_results["X_minus"]
+
+        k_plus2 = np.dot(k_plus, k_plus.T)
+        k_plus_sum = np.sum(k_plus, axis=1)
+        k_plus_diad = np.outer(k_plus_sum, k_plus_sum) / l_plus
+
+        k_minus2 = np.dot(k_minus, k_minus.T)
+        k_minus_sum = np.sum(k_minus, axis=1)
+        k_minus_diad = np.outer(k_minus_sum, k_minus_sum) / partial_results["l_minus"]
+
+        n = (
+            k_plus2 - k_plus_diad + k_minus2 - k_minus_diad
+        )  # pylint: disable=invalid-name
+
+        x_plus_hat = x_plus.copy()
+
+        partial_results["K_plus2"] = k_plus2
+        partial_results["K_plus_sum"] = k_plus_sum
+        partial_results["K_minus2"] = k_minus2
+        partial_results["K_minus_sum"] = k_minus_sum
+        partial_results["N"] = n
+        partial_results["X_plus_hat"] = x_plus_hat
+        partial_results["l_minus"] = len(x_minus)
+
+        return partial_results
+
+    def sample_with_n_components(self, X, y, n_components):
+        """
+        Rerun the sampling in a lower dimensional space.
+
+        Args:
+            X (np.array): features
+            y (np.array): targets
+            n_components (int): dimensionality of the feature space
+
+        Returns:
+            np.array, np.array: the resampled X and y
+        """
+        _logger.warning(
+            "%s: reducing dimensionality to %d", self.__class__.__name__, n_components
+        )
+        # if n_components == 0:
+        #    return None, None
+
+        pca = PCA(n_components=n_components).fit(X)
+
+        x_trans = pca.transform(X)
+
+        adg = ADG(
+            proportion=self.proportion,
+            kernel=self.kernel,
+            lam=self.lam,
+            mu=self.mu,
+            k=self.k,
+            gamma=self.gamma,
+            random_state=self._random_state_init,
+        )
+
+        X_samp, y_samp = adg.sample(x_trans, y)
+
+        # the original vectors are kept, only the new ones are mapped back
+        samples = pca.inverse_transform(X_samp[len(X) :])
+
+        return np.vstack([X, samples]), y_samp
+
+    def extend(self, X, y, X_all):
+        """
+        Extend the original dataset by the generated samples.
+
+        Args:
+            X (np.array): the original features
+            y (np.array): the original target labels
+            X_all (np.array): the reordered features, the generated samples
+                                being the last ones
+
+        Returns:
+            np.array, np.array: the extended dataset
+        """
+        samples = X_all[len(X) :]
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def update_partial_results(self, *, partial_results):
+        """
+        Update partial_results.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        # M_plus is not updated as it is not used
+
+        k_plus = partial_results["K_plus"]
+        k_minus = partial_results["K_minus"]
+        k_minus2 = partial_results["K_minus2"]
+        k_plus2 = partial_results["K_plus2"]
+        l_new = partial_results["l_new"]
+
+        m_plus = np.mean(k_plus, axis=1)
+        m_minus = np.mean(k_minus, axis=1)
+
+        # step 13 is already involved in the core of the loop
+        m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
+
+        corner = np.dot(k_minus[:-l_new:], k_minus[-l_new:].T)
+        k_minus2 = np.block(
+            [
+                [k_minus2, corner],
+                [corner.T, np.dot(k_minus[-l_new:], k_minus[-l_new:].T)],
+            ]
+        )
+        k_minus_sum = m_minus * len(k_minus)
+
+        k_plus2 = k_plus2 + np.dot(k_plus[:-l_new, l_new:], k_plus[:-l_new, l_new:].T)
+
+        corner = np.dot(k_plus[:-l_new], k_plus[-l_new:].T)
+
+        k_plus2 = np.block(
+            [[k_plus2, corner], [corner.T, np.dot(k_plus[-l_new:], k_plus[-l_new:].T)]]
+        )
+
+        k_plus_sum = m_plus * len(k_plus)
+
+        n = (
+            k_plus2
+            - np.outer(
+                k_plus_sum / partial_results["l_plus"],  # pylint: disable=invalid-name
+                k_plus_sum,
+            )
+            + k_minus2
+            - np.outer(k_minus_sum / partial_results["l_minus"], k_minus_sum)
+        )
+
+        partial_results["M_plus"] = m_plus
+        partial_results["M_minus"] = m_minus
+        partial_results["M"] = m
+        partial_results["K_minus2"] = k_minus2
+        partial_results["K_minus_sum"] = k_minus_sum
+        partial_results["K_plus2"] = k_plus2
+        partial_results["K_plus_sum"] = k_plus_sum
+        partial_results["N"] = n
+
+        return partial_results
+
+    def determine_a(self, *, partial_results, k_c, lam_c, mu_c):
+        """
+        Determine the matrix A
+
+        Args:
+            the quantities required for A
+
+        Returns:
+            np.array: the matrix A
+        """
+        m = partial_results["M"]  # pylint: disable=invalid-name
+        n = partial_results["N"]  # pylint: disable=invalid-name
+        k = partial_results["K"]  # pylint: disable=invalid-name
+
+        # step 3, 4
+        omega = -np.sum(
+            [k_c[i] * (lam_c[i]) ** 2 / (4 * mu_c[i] ** 2) for i in range(len(k_c))]
+        )
+        A = (m - self.gamma * n) - omega * k  # pylint: disable=invalid-name
+
+        return A
+
+    def determine_b(self, *, partial_results, k_c, lam_c, X, clusters):
+        """
+        Determine the vector b
+
+        Args:
+            the quantities required for vector b
+
+        Returns:
+            np.array: the vector b
+        """
+        x_minus = partial_results["X_minus"]
+        k = partial_results["K"]  # pylint: disable=invalid-name
+        m_minus = partial_results["M_minus"]
+
+        # step 3, 4
+        nu_c = -0.5 * k_c * lam_c
+        m_plus_c = [
+            np.mean(k[:, np.arange(len(x_minus), len(X))[clusters.labels_ == i]])
+            for i in range(len(k_c))
+        ]
+
+        b = np.sum(
+            [
+                (m_minus - m_plus_c[i]) * nu_c[i]  # pylint: disable=invalid-name
+                for i in range(len(k_c))
+            ],
+            axis=0,
+        )
+
+        return b
+
+    def step_1_2_3_4(self, *, partial_results, X):
+        """
+        Implements steps 1, 2, 3 and 4 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        x_plus_hat = partial_results["X_plus_hat"]
+
+        # step 1
+        clusters = xmeans(x_plus_hat, random_state=self._random_state_init)
+        l_c = np.array(
+            [np.sum(clusters.labels_ == i) for i in range(clusters.n_clusters)]
+        )
+
+        # step 2
+        k_c = ((1.0 / l_c) / (np.sum(1.0 / l_c)) * self.k).astype(int)
+        k_c[k_c == 0] = 1
+        lam_c, mu_c = self.lam / l_c, self.mu / l_c
+
+        return (
+            self.determine_a(
+                partial_results=partial_results, k_c=k_c, lam_c=lam_c, mu_c=mu_c
+            ),
+            self.determine_b(
+                partial_results=partial_results,
+                k_c=k_c,
+                lam_c=lam_c,
+                X=X,
+                clusters=clusters,
+            ),
+        )
+
+    def step_5_6_7(self, *, partial_results, q, X, kernel_function, alpha_star):
+        """
+        Implements steps 5, 6, 7 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        x_plus = partial_results["X_plus"]
+
+        # step 5
+        mixture = xgmeans(x_plus, random_state=self._random_state_init)
+
+        # step 6
+        z = mixture.sample(q)[0]  # pylint: disable=invalid-name
+
+        # step 7
+        # computing the kernel matrix of generated samples with all samples
+        k_10 = pairwise_distances(z, X, metric=kernel_function)
+        mask_inner_prod = np.where(np.inner(k_10, alpha_star) > 0)[0]
+        z_hat = z[mask_inner_prod]
+
+        partial_results["Z_hat"] = z_hat
+        partial_results["mask_inner_prod"] = mask_inner_prod
+        partial_results["K_10"] = k_10
+
+    def step_9_16(self, *, partial_results, kernel_function, y):
+        """
+        Implements steps 9-16 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        # step 8
+        # this step is not used for anything, the identified clusters are
+        # only used in step 13 of the paper, however, the values set
+        # (M_plus^c) are overwritten in step 3 of the next iteration
+
+        if partial_results["Z_hat"].shape[0] == 0:
+            raise ValueError("Z_hat is empty")
+
+        x_minus = partial_results["X_minus"]
+        x_plus_hat = partial_results["X_plus_hat"]
+        k = partial_results["K"]  # pylint: disable=invalid-name
+        k_10 = partial_results["K_10"]
+        l_minus = partial_results["l_minus"]
+        z_hat = partial_results["Z_hat"]
+        mask_inner_prod = partial_results["mask_inner_prod"]
+
+        # step 9
+        x_plus_hat = np.vstack([x_plus_hat, z_hat])
+
+        # step 11 - 16
+        # these steps have been reorganized a bit for efficient
+        # calculations
+
+        pairwd = pairwise_distances(z_hat, z_hat, metric=kernel_function)
+        k = np.block(
+            [
+                [k, k_10[mask_inner_prod].T],  # pylint: disable=invalid-name
+                [k_10[mask_inner_prod], pairwd],
+            ]
+        )
+
+        k_minus = k[:, :l_minus]
+        k_plus = k[:, l_minus:]
+
+        # step 10
+        X = np.vstack([x_minus, x_plus_hat])
+        y = np.hstack([y, np.repeat(self.min_label, len(z_hat))])
+
+        partial_results["X_plus_hat"] = x_plus_hat
+        partial_results["K"] = k
+        partial_results["K_minus"] = k_minus
+        partial_results["K_plus"] = k_plus
+        partial_results["l_plus"] = len(x_plus_hat)
+        partial_results["l_new"] = len(partial_results["Z_hat"])
+
+        return X, y
+
+    def solve(
+        self, A, b  # pylint: disable=invalid-name  # pylint: disable=invalid-name
+    ):
+        """
+        Solve a linear equation and throw exception if doesnt work.
+
+        Args:
+            A (np.array): the coefficients
+            b (np.array): the right hand side
+
+        Returns:
+            np.array: the solution
+        """
+        try:
+            return np.linalg.solve(A, b)
+        except LinAlgError as exc:
+            raise ADGSingularMatrixException() from exc
+
+    def check_early_stopping(self, fraction):
+        """
+        Checking the early stopping condition.
+        """
+        if fraction < 0.01:
+            raise ValueError("Early stopping.")
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # Implementation of the technique, following the steps and notations
+        # of the paper
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        q = n_to_sample  # pylint: disable=invalid-name
+
+        if q == 0:
+            return self.return_copies(X, y, "no need for sampling")
+
+        # instantiating the proper kernel function, the parameter of the RBF
+        # is supposed to be the denominator in the Gaussian
+        kernel_function = generate_kernel_function(self.kernel)
+
+        # Initial evaluation of the partial_results
+        # M_plus is not updated as it is not used
+        # the partial_results dict acts like a dataclass to reduce the clutter
+        # of passing around dozens of arrays
+        X_orig, y_orig = X, y  # pylint: disable=invalid-name
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
+
+        # The computing of N matrix is factored into two steps, computing
+        # N_plus and N_minus this is used to improve efficiency
+        partial_results = self.initialize_matrices(partial_results=partial_results)
+
+        total_added = 0
+
+        alpha_star = None
+
+        q = q * 2  # pylint: disable=invalid-name
+
+        try:
+            # executing the sample generation
+            while q > 1:
+                q = int(q / 2)  # pylint: disable=invalid-name
+
+                _logger.info(
+                    "%s: Starting iteration with q=%d", self.__class__.__name__, q
+                )
+
+                A, b = self.step_1_2_3_4(  # pylint: disable=invalid-name
+                    partial_results=partial_results, X=X
+                )
+
+                alpha_star = self.solve(A, b)
+
+                self.step_5_6_7(
+                    partial_results=partial_results,
+                    q=q,
+                    X=X,
+                    kernel_function=kernel_function,
+                    alpha_star=alpha_star,
+                )
+
+                _logger.info(
+                    "%s: number of vectors added: %d/%d",
+                    self.__class__.__name__,
+                    len(partial_results["Z_hat"]),
+                    q,
+                )
+
+                X, y = self.step_9_16(
+                    partial_results=partial_results,
+                    kernel_function=kernel_function,
+                    y=y,
+                )
+
+                total_added = total_added + len(partial_results["Z_hat"])
+
+                self.check_early_stopping(len(partial_results["Z_hat"]) / total_added)
+
+                partial_results = self.update_partial_results(
+                    partial_results=partial_results
+                )
+
+        except ADGSingularMatrixException:
+            n_components = int(X.shape[1] / 2)
+            if n_components > 0:
+                return self.sample_with_n_components(X_orig, y_orig, n_components)
+
+            return self.return_copies(
+                X_orig, y_orig, "cannot reduce dimensionality any more"
+            )
+        except ValueError as exc:
+            _logger.info(
+                "%s: stopping the iteration because of %s",
+                self.__class__.__name__,
+                str(exc),
+            )
+
+        return self.extend(X_orig, y_orig, X)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "kernel": self.kernel,
+            "lam": self.lam,
+            "mu": self.mu,
+            "k": self.k,
+            "gamma": self.gamma,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From d31c2ff1d6cc5c4865a9b51b8bbb6617cf359949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 021/101] fix: truncated pickle files are recognized as damaged

---
 smote_variants/base/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..1facde9 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -285,6 +285,15 @@ def check_if_damaged(filename, serialization="json"):
         damaged = True
     except JSONDecodeError:
         damaged = True
+    except (
+        pickle.UnpicklingError,
+        EOFError,
+        AttributeError,
+        ImportError,
+        IndexError,
+    ):
+        # the exceptions unpickling a truncated file can raise
+        damaged = True
 
     return damaged
 
-- 
2.43.0


From 34e5e338c0e8409aa3c3db05b363665f05a34a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 022/101] fix: Folding looks the class counts up by label
 instead of by position

---
 smote_variants/evaluation/_folding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..78b3e13 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -53,9 +53,9 @@ class Folding:
         min_label = int(np.max(labels[counts == np.min(counts)]))
         maj_label = int(labels[labels != min_label][0])
 
-        n_min = int(counts[min_label])
-        n_maj = int(counts[maj_label])
-        imb_ratio = float(counts[maj_label] / counts[min_label])
+        n_min = int(counts[labels == min_label][0])
+        n_maj = int(counts[labels == maj_label][0])
+        imb_ratio = float(n_maj / n_min)
 
         self.properties = {
             "db_n": len(dataset["data"]),
-- 
2.43.0


From 52e7a2462d648596c8a0d7d12ec27edfe7524ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 023/101] fix: each fold carries its own descriptor

---
 smote_variants/evaluation/_folding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 78b3e13..951e529 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -111,7 +111,7 @@ class Folding:
         data = self.dataset["data"]
         target = self.dataset["target"]
 
-        properties = self.properties
+        properties = {**self.properties}
         n_splits = self.validator_params["n_splits"]
         properties["n_repeats"] = self.validator_params["n_repeats"]
         properties["n_splits"] = n_splits
@@ -126,7 +126,7 @@ class Folding:
                 "y_train": target[train],
                 "X_test": data[test],
                 "y_test": target[test],
-                "fold_descriptor": properties,
+                "fold_descriptor": {**properties},
             }
 
             yield folding
-- 
2.43.0


From 9edca31ed8b81f11e3c8dbbaddd49921b43d9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 024/101] fix: Folding.folding_files completes a partial set of
 fold files

---
 smote_variants/evaluation/_folding.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 951e529..e004b00 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -3,7 +3,6 @@ This module implements the folding abstraction.
 """
 
 import os
-import glob
 import shutil
 
 import numpy as np
@@ -88,15 +87,19 @@ class Folding:
         Returns:
             list: the list of fold filenames
         """
-        if self.serialization == "json":
-            path = os.path.join(self.folding_dir_path, "fold_*.json")
-        elif self.serialization == "pickle":
-            path = os.path.join(self.folding_dir_path, "fold_*.pickle")
+        files = [
+            os.path.join(
+                self.folding_dir_path,
+                f"fold_{repeat_idx:04}_{fold_idx:04}.{self.serialization}",
+            )
+            for repeat_idx in range(self.validator_params["n_repeats"])
+            for fold_idx in range(self.validator_params["n_splits"])
+        ]
 
-        if len(glob.glob(path)) == 0:
+        if not all(os.path.exists(file) for file in files):
             self.cache_foldings()
 
-        return sorted(glob.glob(path))
+        return files
 
     def fold(self):
         """
-- 
2.43.0


From 38135b76125daec00220c869aeecebd2efdb821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 025/101] fix: the test part of a fold is scaled the same way
 as the training part

---
 smote_variants/evaluation/_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..065b7a9 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -160,7 +160,7 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
-- 
2.43.0


From 048a216d053bc2d411b22713b2b5db42a4c97383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 026/101] fix: timed out oversamplings are identified by the
 same parameters as finished ones

---
 smote_variants/evaluation/_sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 065b7a9..567ea4a 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -245,7 +245,9 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
-            "oversampler": oversampler_obj.get_params(),
+            "oversampler": coalesce_dict(
+                oversampler_obj.get_params(), self.oversampler_params
+            ),
         }
 
         oversampling = {
-- 
2.43.0


From 0aa3753114f451dae49a88f317701b3e05b09641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 027/101] fix: the process pool reads big results before
 waiting for the process to end

---
 smote_variants/evaluation/_parallelization.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..a046dc8 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -4,6 +4,7 @@ This module implements the process based parallelization with timeout.
 
 import threading
 import multiprocessing
+from multiprocessing import connection
 from queue import Empty
 
 __all__ = [
@@ -134,15 +135,21 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     process_start_lock.release()
 
-    if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
-        process.join()
+    limit = timeout if timeout is not None and timeout > 0 else None
+
+    # waiting for the result or the end of the process: a process cannot end
+    # until its result is read if the result does not fit into the pipe
+    connection.wait(
+        [queue._reader, process.sentinel], limit  # pylint: disable=protected-access
+    )
 
     # if the process finished normally, the result is written into
     # the results output argument
-    if not process.is_alive():
+    if not process.is_alive() or not queue.empty():
         results[idx] = queue_get_default(queue, job)
+        process.join(limit)
+        if process.is_alive():
+            process.kill()
 
         return
 
-- 
2.43.0


From 97df11459ecad2d4eb40b8ce913a52bff610dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 028/101] fix: the process pool waits for the end of the
 processes it kills

---
 smote_variants/evaluation/_parallelization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index a046dc8..6b76a45 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -163,6 +163,7 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
     # if the process is still running, the process is killed and
     # the timeout function is executed for potential clean-up
     process.kill()
+    process.join()
     results[idx] = job.timeout()
 
 
-- 
2.43.0


From cc5088686d7c81250ad8577acb87b020567ffc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:04 +0000
Subject: [PATCH 029/101] fix: the process pool does not get stuck when a
 process cannot be started

---
 smote_variants/evaluation/_parallelization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 6b76a45..cac2b1a 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -131,9 +131,10 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         kwargs={"job": job, "queue": queue, "queue_lock": queue_lock},
     )
 
-    process.start()
-
-    process_start_lock.release()
+    try:
+        process.start()
+    finally:
+        process_start_lock.release()
 
     limit = timeout if timeout is not None and timeout > 0 else None
 
-- 
2.43.0


From 636ceb7e318dcdee1ea469cfd36389cd06e3aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 030/101] fix: the process pool waits for the end of the
 finished but lingering processes it kills

---
 smote_variants/evaluation/_parallelization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index cac2b1a..1ff8028 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -151,6 +151,7 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         process.join(limit)
         if process.is_alive():
             process.kill()
+            process.join()
 
         return
 
-- 
2.43.0


From 402c5a41b5032ba5e35abb07206c89cff54314f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 031/101] fix: DEAGO restores the global random states it seeds

---
 smote_variants/oversampling/_deago.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index bcbb7ca..6622358 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -267,6 +267,9 @@ class DEAGO(OverSampling):
 
         os.environ["PYTHONHASHSEED"] = f"{self._random_state_init}"
 
+        # the global generators are restored after the sampling
+        global_states = random.getstate(), np.random.get_state()
+
         random.seed(self._random_state_init)
         np.random.seed(self._random_state_init)
         tf.random.set_seed(self._random_state_init)
@@ -295,6 +298,9 @@ class DEAGO(OverSampling):
             self.execute_autoencoder(X_min_normalized, X_init_normalized)
         )
 
+        random.setstate(global_states[0])
+        np.random.set_state(global_states[1])
+
         return (
             np.vstack([X, samples]),
             np.hstack([y, np.repeat(self.min_label, len(samples))]),
-- 
2.43.0


From 5d64555597434b99be08896cb543977426f31a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 032/101] fix: IPADE_ID scores the minority probabilities
 against minority membership

---
 smote_variants/oversampling/_ipade_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_ipade_id.py b/smote_variants/oversampling/_ipade_id.py
index 8fc7b73..2ce8464 100755
--- a/smote_variants/oversampling/_ipade_id.py
+++ b/smote_variants/oversampling/_ipade_id.py
@@ -246,7 +246,7 @@ class IPADE_ID(OverSampling):
         min_index = np.where(base_classifier.classes_ == self.min_label)[0][0]
         pred = base_classifier.predict_proba(TR.X)[:, min_index]
 
-        return roc_auc_score(TR.y, pred)
+        return roc_auc_score(TR.y == self.min_label, pred)
 
     def evaluate_class(self, *, GS, TR):
         """
-- 
2.43.0


From 83fe9dcf6eb97ac038c2d7044d2e08f2f16eeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 033/101] fix: no infinite recursion when the distances of one
 row exceed the memory chunk

---
 smote_variants/base/_metrictensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 7ec0147..4438e03 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -60,7 +60,7 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     max_mem = distance_matrix_max_memory_chunk()
 
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
         row_block_size = int(
             np.floor(
                 X.shape[0]
-- 
2.43.0


From 2c5527b60e196491b2c3d4d41ec8a295b85d988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 034/101] fix: ClosestNeighborsInClasses returns one label for
 each border point

---
 smote_variants/base/_metrictensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 4438e03..68a7bc1 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -375,7 +375,10 @@ class ClosestNeighborsInClasses:
 
         X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
         y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+            [
+                np.repeat(0, int(np.sum(~label_maj))),
+                np.repeat(1, int(np.sum(~label_min))),
+            ]
         )
 
         return X_final, y_final
-- 
2.43.0


From 638f7b5e614f462ea98fad7dc6bfe8945d901e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 035/101] fix: radius queries with a metric tensor always
 return one integer array per row

---
 smote_variants/base/_metrictensor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 68a7bc1..4b8fc32 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -828,20 +828,20 @@ class NearestNeighborsWithMetricTensor:
                 X, radius, return_distance, sort_results
             )
 
+        radius = coalesce(radius, self.radius)
+
         distm = pairwise_distances_mahalanobis(
             X, Y=self.X_fitted, tensor=self.metric_tensor
         )
 
-        results_dist = []
-        results_ind = []
+        # one array per row, also when all of them have the same length
+        results_dist = np.empty(len(distm), dtype=object)
+        results_ind = np.empty(len(distm), dtype=object)
 
-        for _, row in enumerate(distm):
+        for idx, row in enumerate(distm):
             mask = np.where(row <= radius)[0]
-            results_dist.append(row[mask])
-            results_ind.append(mask)
-
-        results_dist = np.array(results_dist, dtype=object)
-        results_ind = np.array(results_ind, dtype=object)
+            results_dist[idx] = row[mask]
+            results_ind[idx] = mask
 
         if return_distance:
             return results_dist, results_ind
-- 
2.43.0


From 43178c773aafd7706ae9e896fd2d3d1cf6a29105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 036/101] fix: the covariance metrics support data with one
 feature

---
 smote_variants/base/_metrictensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 4b8fc32..55d76fa 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -15,7 +15,7 @@ from scipy.stats import rankdata
 from metric_learn import ITML_Supervised, LSML_Supervised, NCA
 
 from ..config import distance_matrix_max_memory_chunk
-from ._base import instantiate_obj, coalesce
+from ._base import instantiate_obj, coalesce, cov
 from .._logger import logger
 
 _logger = logger
@@ -616,12 +616,12 @@ class MetricTensor:
                 X_mod, y_mod, self.metric_learning_method, random_state=5
             )
         elif self.metric_learning_method == "cov":
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov(X.T)))
         elif self.metric_learning_method == "cov_min":
             labels, counts = np.unique(y, return_counts=True)
             min_label = labels[::-1][np.argmin(counts[::-1])]
-            cov = np.cov(X[y == min_label].T)
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
+            cov_min = cov(X[y == min_label].T)
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov_min))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
             self.metric_tensor = np.diag(mutuali)
-- 
2.43.0


From 63812a4301a13dd999648616d5a73edd09245c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 037/101] fix: deterministic sampling applies the vertex
 weights to the right end of the segments

---
 smote_variants/base/_simplexsampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index fcb7c11..cbd2fdf 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -584,7 +584,9 @@ class SimplexSamplingMixin(RandomStateMixin):
         pairs = np.array(list(zip(base_indices, neighbor_indices)))
 
         if X_vertices is None or X is X_vertices:
-            pairs.sort()
+            # with vertex weights the two ends of a segment are not equivalent
+            if vertex_weights is None:
+                pairs.sort()
             X_vertices = X
 
         values, counts = np.unique(pairs, axis=0, return_counts=True)
-- 
2.43.0


From 417809339eb592224c1057fb022d4177247a2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 038/101] fix: p_top20 is computed from the samples with the
 highest probabilities

---
 smote_variants/base/_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 7c95d70..e855201 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -217,7 +217,8 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     results = {}
 
     thres = max(int(0.2 * len(test_labels)), 1)
-    results["p_top20"] = float(np.sum(test_labels[:thres] == min_label) / thres)
+    top = np.argsort(-probabilities, kind="stable")[:thres]
+    results["p_top20"] = float(np.sum(test_labels[top] == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
     results["log_loss"] = float(log_loss(test_labels, probabilities))
     results["auc"] = float(roc_auc_score(test_labels, probabilities))
-- 
2.43.0


From 7bb7e9308b96e4e3620397ac7d89d9de8e4036fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 039/101] fix: multiclass oversampling equalizes the classes
 exactly and supports equally large classes

---
 .../_multiclassoversampling.py                | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..6e285eb 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -14,6 +14,25 @@ _logger = logger
 __all__ = ["MulticlassOversampling"]
 
 
+def _safe_proportion(to_gen, to_gen_to_all):
+    """
+    Determines the proportion leading to the required number of samples.
+
+    Args:
+        to_gen (int): the number of samples to generate
+        to_gen_to_all (int): the difference of the cardinalities
+
+    Returns:
+        float: the proportion
+    """
+    if to_gen == 0:
+        return 0.0
+
+    # the number of samples is truncated by the oversamplers, the half sample
+    # added compensates for the numerical errors
+    return (to_gen + 0.5) / to_gen_to_all
+
+
 def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     """
     Determines the proportion to sample for the 1_vs_many strategy.
@@ -28,9 +47,9 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
-    return to_gen / to_gen_to_all
+    return _safe_proportion(to_gen, to_gen_to_all)
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +71,7 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return num_to_generate / num_to_gen_to_all
+    return _safe_proportion(num_to_generate, num_to_gen_to_all)
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From 5b574b3ed15d9799be8f0f186809906e1da35e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 040/101] fix: MLPClassifierWrapper reports its max_iter
 parameter

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..9762b58 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -104,6 +104,7 @@ class MLPClassifierWrapper:
         """
         _ = deep
         return {
+            "max_iter": self.max_iter,
             "activation": self.activation,
             "hidden_layer_fraction": self.hidden_layer_fraction,
             "alpha": self.alpha,
-- 
2.43.0


From 6e8096dea45ce363d2491c39caf7087c1c40c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 041/101] fix: the undersamplers support arbitrary class labels

---
 .../_oversampling_driven_undersampling.py         | 15 +++++++++++----
 .../undersampling/_random_undersampling.py        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 9e63aa2..43145c4 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -56,12 +56,14 @@ class OversamplingDrivenUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
 
         X_samp, _ = self.oversampler.sample(X, y)
         X_new = X_samp[X.shape[0]:]
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
 
         dists = X_new - X_maj[:, None]
 
@@ -80,6 +82,11 @@ class OversamplingDrivenUndersampling(UnderSampling):
             X_maj = X_maj[sorting][:n_min]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
diff --git a/smote_variants/undersampling/_random_undersampling.py b/smote_variants/undersampling/_random_undersampling.py
index 07ed2d4..6ef5351 100644
--- a/smote_variants/undersampling/_random_undersampling.py
+++ b/smote_variants/undersampling/_random_undersampling.py
@@ -41,13 +41,20 @@ class RandomUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
         #mask = self.random_state.choice(np.arange(n_maj), n_min, p=np.repeat(1.0/n_maj, n_maj), replace=False)
         mask = self.random_state.choice(np.arange(n_maj), n_min, replace=False)
-        X_maj = X[y == 0][mask]
-        X_min = X[y == 1]
+        X_maj = X[y == self.maj_label][mask]
+        X_min = X[y == self.min_label]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
\ No newline at end of file
-- 
2.43.0


From b2bfed6b7871f4ca0f0f3b661102fa47bc934760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 042/101] fix: oversampling driven undersampling copes with
 equal distances and without generated samples

---
 .../_oversampling_driven_undersampling.py        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 43145c4..6019f25 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -65,13 +65,21 @@ class OversamplingDrivenUndersampling(UnderSampling):
         X_min = X[y == self.min_label]
         X_maj = X[y == self.maj_label]
 
-        dists = X_new - X_maj[:, None]
+        if len(X_new) > 0:
+            dists = X_new - X_maj[:, None]
 
-        dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+            dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+        else:
+            # no preference if there are no samples generated
+            dists = np.zeros(len(X_maj))
 
         if self.mode == "random":
-            dists = (dists - np.min(dists)) / (np.max(dists) - np.min(dists))
-            inv_dists = 1.0 - dists
+            dists = dists - np.min(dists)
+            if np.max(dists) > 0.0:
+                dists = dists / np.max(dists)
+
+            # all samples must have some probability to be selected
+            inv_dists = 1.0 - dists + np.finfo(float).eps
 
             p = inv_dists / np.sum(inv_dists)
 
-- 
2.43.0


From 25cdd1a5cae1f66740e50f994eb2abb493b93b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 043/101] fix: OversamplingDrivenUndersampling reports all its
 parameters

---
 .../_oversampling_driven_undersampling.py          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 6019f25..eb12fde 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
 
@@ -45,6 +46,19 @@ class OversamplingDrivenUndersampling(UnderSampling):
 
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object as a dictionary.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "oversampler_specification": self.oversampler_specification,
+            "mode": self.mode,
+            **UnderSampling.get_params(self, deep),
+        }
+
     def sample(self, X, y):
         """
         Carry out the undersampling
-- 
2.43.0


From c30f26a0195d2434ad282eeef5c5de5eb4685ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 044/101] fix: simplices of zero volume do not lead to
 undefined sampling probabilities

---
 smote_variants/base/_simplexsampling.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/smote_variants/base/_simplexsampling.py b/smote_variants/base/_simplexsampling.py
index cbd2fdf..c53ed05 100644
--- a/smote_variants/base/_simplexsampling.py
+++ b/smote_variants/base/_simplexsampling.py
@@ -7,7 +7,7 @@ import itertools
 
 import numpy as np
 
-from ._base import RandomStateMixin, coalesce
+from ._base import RandomStateMixin, coalesce, fix_density
 from .._logger import logger as _logger
 
 __all__ = [
@@ -509,7 +509,8 @@ class SimplexSamplingMixin(RandomStateMixin):
             indices=indices,
         )
 
-        weights = weights * node_weights
+        # the volumes of all simplices can be zero
+        weights = fix_density(weights * node_weights)
 
         # if 'ANS' in self.__class__.__name__:
         #    print(os.getpid(), "vvv", len(weights))
@@ -519,11 +520,11 @@ class SimplexSamplingMixin(RandomStateMixin):
         if self.simplex_sampling != "deterministic":
             # sample the simplices
             selected_indices = self.random_state.choice(
-                choices, n_to_sample, p=weights / np.sum(weights)
+                choices, n_to_sample, p=weights
             )
         elif self.simplex_sampling == "deterministic":
             selected_indices = deterministic_sample(
-                choices, n_to_sample, p=weights / np.sum(weights)
+                choices, n_to_sample, p=weights
             )
 
         # if 'ANS' in self.__class__.__name__:
-- 
2.43.0


From 896c8be1f91534be374027be0e8deee1e760b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 045/101] fix: E_SMOTE does not transform new data when it
 returned the dataset unchanged

---
 smote_variants/oversampling/_e_smote.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 457ff4f..876e53a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -177,6 +177,21 @@ class E_SMOTE(OverSampling):
 
         return mask
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, the feature mask always belongs to the
+        most recent sampling.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.mask = None
+        return super().sample(X, y)
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -267,6 +282,10 @@ class E_SMOTE(OverSampling):
         Returns:
             np.array: transformed data
         """
+        if self.mask is None:
+            # no features were selected as there was nothing to sample
+            return X.copy()
+
         return X[:, self.mask]
 
     def get_params(self, deep=False):
-- 
2.43.0


From 9a7318222fa2afe779ddca2b710ca979797f66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 046/101] fix: ISOMAP_Hybrid does not transform new data when
 it returned the dataset unchanged

---
 smote_variants/oversampling/_isomap_hybrid.py | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 605a675..e4c24f5 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -112,6 +112,7 @@ class ISOMAP_Hybrid(OverSampling):
         self.isomap = Isomap(
             n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
         )
+        self.isomap_fitted = False
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -129,6 +130,21 @@ class ISOMAP_Hybrid(OverSampling):
         }
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function, the isomap always belongs to the
+        most recent sampling.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.isomap_fitted = False
+        return super().sample(X, y)
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -145,6 +161,7 @@ class ISOMAP_Hybrid(OverSampling):
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+        self.isomap_fitted = True
 
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
@@ -183,6 +200,10 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not self.isomap_fitted:
+            # the dataset was not transformed as there was nothing to sample
+            return X.copy()
+
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From cb52a8d19b5c1f26c2cebdd9bdfac189dc409f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 047/101] fix: the Gaussian kernel of G_SMOTE decreases with
 the distance and does not overflow

---
 smote_variants/oversampling/_g_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 49b51e9..4ecb2c7 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -180,7 +180,7 @@ class G_SMOTE(OverSamplingSimplex):
 
             kernel_matrix = pairwise_distances(X_min) ** 2
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
-            kernel_matrix = np.exp(kernel_matrix)
+            kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
             H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
 
-- 
2.43.0


From 939565e789e206e329c17f0d0879dcfaf4d79a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:23 +0000
Subject: [PATCH 048/101] fix: ASMOBD does not use negative sampling densities

---
 smote_variants/oversampling/_asmobd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_asmobd.py b/smote_variants/oversampling/_asmobd.py
index 2802f4e..60bc835 100755
--- a/smote_variants/oversampling/_asmobd.py
+++ b/smote_variants/oversampling/_asmobd.py
@@ -185,7 +185,7 @@ class ASMOBD(OverSamplingSimplex):
         if params["smoothing"] == "sigmoid":
             balance_ratio = np.abs(2.0 / (1.0 + np.exp(-param_a * ratio)) - 1)
             density = eta * core_distances + (1.0 - eta) * n_maj
-            density = density - balance_ratio
+            density = np.clip(density - balance_ratio, 0.0, None)
         else:
             density = eta * core_distances + (1.0 - eta) * n_maj
             density = eta * density + (1.0 - eta) * n_min / n_to_sample
-- 
2.43.0


From f4b1ab5d41d70a91edf68aa794f195bf529a0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 049/101] fix: ADASYN respects proportion=0 and refuses
 negative proportions

---
 smote_variants/oversampling/_adasyn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index 3314425..f7f708b 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -91,7 +91,11 @@ class ADASYN(OverSamplingSimplex):
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = proportion or beta
+        if proportion is not None:
+            self.check_greater_or_equal(proportion, "proportion", 0)
+            beta = proportion
+
+        self.beta = beta
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
-- 
2.43.0


From 6cf44df6b39b0fb6a43f4ed8a5a8870b6c1a5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:24 +0000
Subject: [PATCH 050/101] fix: the polynom_fit_SMOTE wrappers pass a new random
 state to the wrapped sampler

---
 .../oversampling/_polynom_fit_smote.py        | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/smote_variants/oversampling/_polynom_fit_smote.py b/smote_variants/oversampling/_polynom_fit_smote.py
index 4bc035f..740b760 100755
--- a/smote_variants/oversampling/_polynom_fit_smote.py
+++ b/smote_variants/oversampling/_polynom_fit_smote.py
@@ -237,6 +237,18 @@ class polynom_fit_SMOTE_star(OverSampling):  # pylint: disable=invalid-name
         """
         return self.polynom_fit_smote.sample(X, y)
 
+    def set_random_state(self, random_state):
+        """
+        Sets the random state of the object and that of the wrapped sampler.
+
+        Args:
+            random_state (int/np.random.RandomState/None): the random state
+                                                                initializer
+        """
+        super().set_random_state(random_state)
+        if hasattr(self, "polynom_fit_smote"):
+            self.polynom_fit_smote.set_random_state(random_state)
+
 
 class polynom_fit_SMOTE_bus(OverSampling):  # pylint: disable=invalid-name
     """
@@ -311,6 +323,18 @@ class polynom_fit_SMOTE_bus(OverSampling):  # pylint: disable=invalid-name
         """
         return self.polynom_fit_smote.sample(X, y)
 
+    def set_random_state(self, random_state):
+        """
+        Sets the random state of the object and that of the wrapped sampler.
+
+        Args:
+            random_state (int/np.random.RandomState/None): the random state
+                                                                initializer
+        """
+        super().set_random_state(random_state)
+        if hasattr(self, "polynom_fit_smote"):
+            self.polynom_fit_smote.set_random_state(random_state)
+
 
 class polynom_fit_SMOTE_poly(OverSampling):  # pylint: disable=invalid-name
     """
@@ -392,6 +416,18 @@ class polynom_fit_SMOTE_poly(OverSampling):  # pylint: disable=invalid-name
         """
         return self.polynom_fit_smote.sample(X, y)
 
+    def set_random_state(self, random_state):
+        """
+        Sets the random state of the object and that of the wrapped sampler.
+
+        Args:
+            random_state (int/np.random.RandomState/None): the random state
+                                                                initializer
+        """
+        super().set_random_state(random_state)
+        if hasattr(self, "polynom_fit_smote"):
+            self.polynom_fit_smote.set_random_state(random_state)
+
 
 class polynom_fit_SMOTE_mesh(OverSamplingSimplex):  # pylint: disable=invalid-name
     """
-- 
2.43.0


From 3501417a0d80cb1b9cd242763e0b7233c3b93e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:47 +0000
Subject: [PATCH 051/101] fix: ISOMAP_Hybrid cleans the same class whatever the
 class labels are

---
 smote_variants/oversampling/_isomap_hybrid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index e4c24f5..46d0f33 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -178,7 +178,12 @@ class ISOMAP_Hybrid(OverSampling):
         ).sample(X_trans, y)
 
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
-        X_final, y_final = ncr.remove_noise(X_sm, y_sm)
+        # the classes can be equally large at this point, the encoding ensures
+        # that the minority class is still treated as the minority one
+        X_final, y_final = ncr.remove_noise(
+            X_sm, (y_sm == self.min_label).astype(int)
+        )
+        y_final = np.where(y_final == 1, self.min_label, self.maj_label)
 
         if (
             np.sum(y_final == self.min_label) <= 2
-- 
2.43.0


From 7c38c3dc36453c5cd1927b2e7e58c2b9fd7e2355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 052/101] fix: MSYN refuses negative proportions

---
 smote_variants/oversampling/_msyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_msyn.py b/smote_variants/oversampling/_msyn.py
index 4594806..bc9b421 100755
--- a/smote_variants/oversampling/_msyn.py
+++ b/smote_variants/oversampling/_msyn.py
@@ -101,11 +101,12 @@ class MSYN(OverSampling):
         }
 
         super().__init__(random_state=random_state)
+        pressure = coalesce(proportion, pressure)
         self.check_greater_or_equal(pressure, "pressure", 0)
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_n_jobs(n_jobs, "n_jobs")
 
-        self.pressure = coalesce(proportion, pressure)
+        self.pressure = pressure
         self.proportion = self.pressure
         self.n_neighbors = n_neighbors
         self.nn_params = coalesce(nn_params, {})
-- 
2.43.0


From ae8cacee12e115d0ea45442b1604df25595fc171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 053/101] fix: SYMPROD refuses invalid numbers of jobs

---
 smote_variants/oversampling/_symprod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 633894b..c4a83b4 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -96,6 +96,7 @@ class SYMPROD(OverSampling):
             "cutoff_threshold": cutoff_threshold,
         }
         self.nn_params = coalesce(nn_params, {})
+        self.check_n_jobs(n_jobs, "n_jobs")
         self.n_jobs = n_jobs
 
     @classmethod
-- 
2.43.0


From d1f7973c7afaeb07d8a1c715d72602d0523ad0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 054/101] fix: OversamplingDrivenUndersampling refuses unknown
 modes at construction

---
 .../undersampling/_oversampling_driven_undersampling.py          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index eb12fde..35b70ad 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.check_isin(mode, "mode", ["random", "farthest"])
         self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
-- 
2.43.0


From 0d9dd16ef6b0d17c97f46b87ba3544a848af0236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 055/101] fix: CNNTomekLinks and OneSidedSelection keep the
 class roles of the original dataset

---
 smote_variants/noise_removal/_cnntomeklinks.py   |  6 +++++-
 smote_variants/noise_removal/_condensednn.py     | 16 ++++++++++++++++
 .../noise_removal/_onesidedselection.py          |  6 +++++-
 .../noise_removal/_tomeklinkremoval.py           | 13 +++++++++++++
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/smote_variants/noise_removal/_cnntomeklinks.py b/smote_variants/noise_removal/_cnntomeklinks.py
index 8e1f786..65a88f1 100644
--- a/smote_variants/noise_removal/_cnntomeklinks.py
+++ b/smote_variants/noise_removal/_cnntomeklinks.py
@@ -74,4 +74,8 @@ class CNNTomekLinks(NoiseFilter):
         X_cnn, y_cnn = cnn.remove_noise(X, y)  # pylint: disable=invalid-name
         tomek = TomekLinkRemoval(n_jobs=self.n_jobs)
 
-        return tomek.remove_noise(X_cnn, y_cnn)
+        # the condensation can reverse the class sizes, the roles are those of
+        # the original dataset
+        tomek.min_label, tomek.maj_label = self.min_label, self.maj_label
+
+        return tomek.remove_links(X_cnn, y_cnn)
diff --git a/smote_variants/noise_removal/_condensednn.py b/smote_variants/noise_removal/_condensednn.py
index 586be45..7135f26 100644
--- a/smote_variants/noise_removal/_condensednn.py
+++ b/smote_variants/noise_removal/_condensednn.py
@@ -67,6 +67,22 @@ class CondensedNearestNeighbors(NoiseFilter):
 
         self.class_label_statistics(y)
 
+        return self.condense(X, y)
+
+    def condense(self, X, y):
+        """
+        Condenses the dataset according to the class roles already determined
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: the condensed dataset
+        """
+        if not np.any(y == self.maj_label):
+            return X.copy(), y.copy()
+
         # Initial result set consists of all minority samples and 1 majority
         # sample
 
diff --git a/smote_variants/noise_removal/_onesidedselection.py b/smote_variants/noise_removal/_onesidedselection.py
index 1c0ba60..064c225 100644
--- a/smote_variants/noise_removal/_onesidedselection.py
+++ b/smote_variants/noise_removal/_onesidedselection.py
@@ -74,4 +74,8 @@ class OneSidedSelection(NoiseFilter):
         X_tomek, y_tomek = tomek.remove_noise(X, y)  # pylint: disable=invalid-name
         cnn = CondensedNearestNeighbors(n_jobs=self.n_jobs)
 
-        return cnn.remove_noise(X_tomek, y_tomek)
+        # the link removal can reverse the class sizes, the roles are those of
+        # the original dataset
+        cnn.min_label, cnn.maj_label = self.min_label, self.maj_label
+
+        return cnn.condense(X_tomek, y_tomek)
diff --git a/smote_variants/noise_removal/_tomeklinkremoval.py b/smote_variants/noise_removal/_tomeklinkremoval.py
index 5977d20..7eba552 100644
--- a/smote_variants/noise_removal/_tomeklinkremoval.py
+++ b/smote_variants/noise_removal/_tomeklinkremoval.py
@@ -88,6 +88,19 @@ class TomekLinkRemoval(NoiseFilter):
         _logger.info("%s: Running noise removal.", self.__class__.__name__)
         self.class_label_statistics(y)
 
+        return self.remove_links(X, y)
+
+    def remove_links(self, X, y):
+        """
+        Removes the Tomek links according to the class roles already determined
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: dataset after noise removal
+        """
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
 
-- 
2.43.0


From 2d0caa437924e2ef1b5f62567e712eb23414496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:08 +0000
Subject: [PATCH 056/101] fix: NeighborhoodCleaningRule copes with fewer
 samples than neighbors, like EditedNearestNeighbors

---
 smote_variants/noise_removal/_neighborhoodcleaningrule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smote_variants/noise_removal/_neighborhoodcleaningrule.py b/smote_variants/noise_removal/_neighborhoodcleaningrule.py
index 434cdf9..b439dc6 100644
--- a/smote_variants/noise_removal/_neighborhoodcleaningrule.py
+++ b/smote_variants/noise_removal/_neighborhoodcleaningrule.py
@@ -82,6 +82,12 @@ class NeighborhoodCleaningRule(NoiseFilter):
         _logger.info("%s: Running noise removal", self.__class__.__name__)
         self.class_label_statistics(y)
 
+        if len(X) < 4:
+            _logger.info(
+                "%s: Not enough samples for noise removal", self.__class__.__name__
+            )
+            return X.copy(), y.copy()
+
         # fitting nearest neighbors with proposed parameter
         # using 4 neighbors because the first neighbor is the point itself
         nn_params = {**self.nn_params}
-- 
2.43.0


From 60d6c36d7d007cbb041f0e6d85478c7578b23a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:53 +0000
Subject: [PATCH 057/101] fix: successive multiclass oversampling counts the
 samples actually generated for the previous classes

---
 .../multiclassoversampling/_multiclassoversampling.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index 6e285eb..cb6ce31 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -52,7 +52,7 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     return _safe_proportion(to_gen, to_gen_to_all)
 
 
-def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
+def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx, n_all=None):
     """
     Determines the proportion to sample for the 1_vs_many_successive strategy.
 
@@ -61,6 +61,8 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
         labels (list): class labels
         maj_label (int): the majority label
         class_idx (int): the class index to determine the proportion for
+        n_all (int/None): the number of samples of the classes already processed,
+                            None if all of them have reached the majority
 
     Returns:
         float: the proportion
@@ -69,7 +71,10 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
     n_class_i = stats[labels[class_idx]]
     num_to_generate = n_majority - n_class_i
 
-    num_to_gen_to_all = class_idx * n_majority - n_class_i
+    if n_all is None:
+        n_all = class_idx * n_majority
+
+    num_to_gen_to_all = n_all - n_class_i
 
     return _safe_proportion(num_to_generate, num_to_gen_to_all)
 
@@ -275,7 +280,7 @@ class MulticlassOversampling(StatisticsMixin):
             # prepare parameters by properly setting the proportion value
             params = self.oversampler_params.copy()
             params["proportion"] = proportion_1_vs_many_succ(
-                self.class_stats, labels, labels[0], class_idx
+                self.class_stats, labels, labels[0], class_idx, len(X_maj)
             )
 
             # executing the sampling
-- 
2.43.0


From 55e4d08561063e1479416dcdcdade808b23202a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:21 +0000
Subject: [PATCH 058/101] fix: no integer overflow in the Matthews correlation
 coefficient of big test sets

---
 smote_variants/base/_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index e855201..240bfd7 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -170,7 +170,7 @@ def calculate_label_scores(atoms):
     tn_fn = atoms["fn"] + atoms["tn"]
 
     mcc_num = atoms["tp"] * atoms["tn"] - atoms["fp"] * atoms["fn"]
-    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn]))
+    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn], dtype=float))
 
     if mcc_denom == 0:
         atoms["mcc"] = None
-- 
2.43.0


From 8333add58afc3220c838858a0a8afb3bab6d7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:39 +0000
Subject: [PATCH 059/101] fix: the mutual information weights are finite when
 no variable is informative

---
 smote_variants/base/_metrictensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 55d76fa..7749063 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -470,7 +470,11 @@ def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=No
     mutuali = np.mean(np.array(mutuali), axis=0)
 
     if normalize:
-        mutuali = mutuali / np.mean(mutuali)
+        if np.mean(mutuali) > 0:
+            mutuali = mutuali / np.mean(mutuali)
+        else:
+            # no variable is informative, all get the same weight
+            mutuali = np.ones(len(mutuali))
 
     return mutuali
 
-- 
2.43.0


From ecbe9b84073ea351796a70c7fd8b8870d83603d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:40 +0000
Subject: [PATCH 060/101] fix: cached evaluations are identified by scaler and
 data as well, not by the oversampler alone

---
 smote_variants/evaluation/_evaluation.py |  4 +++-
 smote_variants/evaluation/_sampling.py   | 28 +++++++++++++++++++++---
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..44c83cc 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -82,8 +82,10 @@ class EvaluationJob:
 
         label0 = str(classifier).encode("utf-8")
         label1 = str((oversampling["oversampler"])).encode("utf-8")
+        # the same oversampler applied to other data or with another scaler
+        label2 = str(oversampling.get("request_hash")).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1).hexdigest())
+        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 567ea4a..f59838e 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -7,6 +7,8 @@ import os
 import hashlib
 import warnings
 
+import numpy as np
+
 from ..base import (
     instantiate_obj,
     load_dict,
@@ -77,6 +79,26 @@ class SamplingJob(TimeoutJobBase):
             "reset": self.reset,
         }
 
+    def request_hash(self, folding):
+        """
+        Identifies the oversampling requested by the job: the oversampler, the
+        scaler and the data to be oversampled.
+
+        Args:
+            folding (obj): a folding
+
+        Returns:
+            str: the hash of the request
+        """
+        label = str((self.oversampler, self.oversampler_params, self.scaler))
+        digest = hashlib.md5(label.encode("utf-8"))
+        for key in ["X_train", "y_train", "X_test", "y_test"]:
+            values = np.ascontiguousarray(folding[key], dtype=float)
+            digest.update(str(values.shape).encode("utf-8"))
+            digest.update(values.tobytes())
+
+        return digest.hexdigest()
+
     def target_filename_damaged(self, folding):
         """
         Determine the target filename and whether it is damaged.
@@ -89,11 +111,9 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
-        hashcode = str(hashlib.md5(label).hexdigest())
-
         damaged = False
         if self.cache_path is not None:
+            hashcode = self.request_hash(folding)
             filename = (
                 f"oversampling_{folding['fold_descriptor']['repeat_idx']:04}"
                 f"_{folding['fold_descriptor']['fold_idx']:04}"
@@ -151,6 +171,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "request_hash": self.request_hash(folding),
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
@@ -245,6 +266,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "request_hash": self.request_hash(folding),
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
-- 
2.43.0


From f00a801115f1d59b7dde7926f40a9b1a8bd09088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:35 +0000
Subject: [PATCH 061/101] fix: the process pool finishes when a worker dies
 while sending its result

---
 smote_variants/evaluation/_parallelization.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 1ff8028..44d21eb 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -104,7 +104,8 @@ def queue_get_default(queue, job):
     """
     try:
         return queue.get(block=False)
-    except Empty:
+    except (Empty, EOFError, OSError):
+        # EOFError and OSError: the process died before or while sending
         return job.timeout()
 
 
@@ -133,6 +134,11 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     try:
         process.start()
+
+        # the process is the only one holding the writing end of the queue,
+        # otherwise reading a result would wait forever for the rest of it if
+        # the process died while sending
+        queue._writer.close()  # pylint: disable=protected-access
     finally:
         process_start_lock.release()
 
@@ -155,13 +161,6 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
         return
 
-    # remove anything from the queue to prevent deadlock
-    try:
-        queue_lock.acquire()
-        results[idx] = queue.get(block=False)
-    except Empty:
-        pass
-
     # if the process is still running, the process is killed and
     # the timeout function is executed for potential clean-up
     process.kill()
-- 
2.43.0


From 435f6825e57d019b0c54bb12c005909c7ad94e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:18 +0000
Subject: [PATCH 062/101] fix: summaries keep the techniques without simplex
 sampling

---
 smote_variants/evaluation/_processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index f38a219..5606297 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -160,7 +160,9 @@ def create_summary(data, scores=None, columns_to_serialize=None):
                 "classifier_module",
                 "classifier",
                 "deterministic",
-            ]
+            ],
+            # "deterministic" is None for techniques without simplex sampling
+            dropna=False,
         )
         .apply(lambda x: _serialize_data(x, columns_to_serialize))
         .reset_index(drop=False)
-- 
2.43.0


From 66abc47f3f6e3f0a2758c56706adf7ae08e1170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:18 +0000
Subject: [PATCH 063/101] fix: OversamplingClassifier transforms the inputs of
 the predictions as the oversampler did in training

---
 smote_variants/classifiers/_oversamplingclassifier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..1891bca 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -57,7 +57,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict(X)
+        return self.classifier_obj.predict(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def predict_proba(self, X):
         """
@@ -67,7 +69,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict_proba(X)
+        return self.classifier_obj.predict_proba(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def get_params(self, deep=True):
         """
-- 
2.43.0


From 5683f31a93b6bc67e71026f39a8cfb5fa7552b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:18 +0000
Subject: [PATCH 064/101] fix: fitting an OversamplingClassifier again gives
 the same model

---
 smote_variants/classifiers/_oversamplingclassifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 1891bca..63ba6ba 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -42,6 +42,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             obj: the object itself
         """
 
+        # a fresh oversampler, fitting again must not continue its random sequence
+        self.oversampler_obj = instantiate_obj(self.oversampler)
+
         X_samp, y_samp = self.oversampler_obj.sample(X, y)
         self.classifier_obj.fit(X_samp, y_samp)
 
-- 
2.43.0


From 59bd9bbeceec544ac74c54469b31a0ed4e4a04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 065/101] fix: SMOTE_AMSR reports and accepts the class name
 like every other oversampler

---
 smote_variants/oversampling/_smote_amsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index bfc639f..b8e6be7 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -25,7 +25,9 @@ class SMOTE_AMSR(OverSampling):
     categories = [OverSampling.cat_extensive]
 
     # @_deprecate_positional_args
-    def __init__(self, proportion=1.0, *, topology="mesh", random_state=None):
+    def __init__(
+        self, proportion=1.0, *, topology="mesh", random_state=None, **_kwargs
+    ):
         """
         Constructor of the sampling object
 
@@ -445,5 +447,5 @@ class SMOTE_AMSR(OverSampling):
         return {
             "proportion": self.proportion,
             "topology": self.topology,
-            "random_state": self._random_state_init,
+            **OverSampling.get_params(self),
         }
-- 
2.43.0


From 894fc32e61fac5aea356d6381d8a6cba75f8f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:11 +0000
Subject: [PATCH 066/101] fix: restore the line endings that earlier repairs
 changed along the way

---
 smote_variants/base/_metrictensor.py          | 1706 ++++++++---------
 smote_variants/oversampling/_adg.py           | 1616 ++++++++--------
 smote_variants/oversampling/_deago.py         |  648 +++----
 smote_variants/oversampling/_e_smote.py       |  608 +++---
 smote_variants/oversampling/_isomap_hybrid.py |  456 ++---
 smote_variants/oversampling/_kerneladasyn.py  |  606 +++---
 smote_variants/oversampling/_mot2ld.py        | 1034 +++++-----
 smote_variants/oversampling/_neater.py        |  838 ++++----
 smote_variants/oversampling/_pdfos.py         |  792 ++++----
 .../oversampling/_sl_graph_smote.py           |  370 ++--
 smote_variants/oversampling/_smmo.py          |  480 ++---
 smote_variants/oversampling/_smote_ipf.py     |  464 ++---
 smote_variants/oversampling/_smote_pso.py     | 1284 ++++++-------
 smote_variants/oversampling/_smotewb.py       |  782 ++++----
 smote_variants/oversampling/_soi_cj.py        |  968 +++++-----
 smote_variants/oversampling/_somo.py          |  878 ++++-----
 smote_variants/oversampling/_spy.py           |  344 ++--
 smote_variants/oversampling/_sso.py           |  888 ++++-----
 smote_variants/oversampling/_svm_balance.py   |  372 ++--
 19 files changed, 7567 insertions(+), 7567 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 7749063..d6b1c1b 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -1,853 +1,853 @@
-"""
-This module contains all experimental and stable functionalities related
-to metric learning.
-"""
-import warnings
-
-import numpy as np
-
-from sklearn.neighbors import NearestNeighbors
-from sklearn.linear_model import LinearRegression
-from sklearn.feature_selection import mutual_info_regression
-
-from scipy.stats import rankdata
-
-from metric_learn import ITML_Supervised, LSML_Supervised, NCA
-
-from ..config import distance_matrix_max_memory_chunk
-from ._base import instantiate_obj, coalesce, cov
-from .._logger import logger
-
-_logger = logger
-
-__all__ = [
-    "NearestNeighborsWithMetricTensor",
-    "ClassifierImpliedDissimilarityMatrix",
-    "MetricTensor",
-    "MetricLearningMixin",
-    "pairwise_distances_mahalanobis",
-    "distances_mahalanobis",
-    "fix_pd_matrix",
-    "reverse_matrix",
-    "construct_tensor",
-    "ClosestNeighborsInClasses",
-    "RemoveCorrelatedColumns",
-    "discrete_variable_mask",
-    "estimate_mutual_information",
-    "n_neighbors_func",
-    "psd_mean",
-]
-
-
-def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
-    """
-    Returns the pairwise distances of two arrays of vectors using the
-    provided metric tensor matrix. If no Y paramter is provided, the
-    distance matrix of the paramter X is returned.
-
-    Args:
-        X (np.array): array of vectors to calculate distances for
-        Y (np.array/None): optional second array of vectors
-        tensor (np.array): the metric tensor to be used
-        optimized (np.array): optimization for Eulidean tensors
-
-    Returns:
-        np.array: the distance matrix
-    """
-
-    if Y is None:
-        Y = X
-
-    max_mem = distance_matrix_max_memory_chunk()
-
-    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
-        row_block_size = int(
-            np.floor(
-                X.shape[0]
-                / int(np.ceil(X.shape[0] * X.shape[1] * Y.shape[0] / max_mem))
-            )
-        )
-        row_block_size = np.max([row_block_size, 1])
-
-        row_blocks = []
-        start = 0
-        while start < X.shape[0]:
-            end = np.min([start + row_block_size, X.shape[0]])
-            row_blocks.append(
-                pairwise_distances_mahalanobis(
-                    X[start:end], Y=Y, tensor=tensor, optimized=optimized
-                )
-            )
-            start = start + row_block_size
-
-        return np.vstack(row_blocks)
-
-    if tensor is None or np.allclose(tensor, np.eye(X.shape[1])):
-        # this original implementation can become very slow for high dimensional data
-        if optimized:
-            return np.sqrt(np.sum((X[:, None] - Y) ** 2, axis=-1))
-
-        tensor = np.eye(X.shape[1])
-
-    tmp = X[:, None] - Y
-
-    return np.sqrt(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp))
-
-
-def distances_mahalanobis(X, Y, tensor=None):
-    """
-    Returns the distances of the corresponding vectors.
-
-    Args:
-        X (np.array): array of vectors
-        Y (np.array): another array of vectors
-        tensor (np.array): the metric tensor to be used
-
-    Returns:
-        np.array: the distances
-    """
-    if tensor is None:
-        tensor = np.eye(X.shape[1])
-    tmp = X - Y
-    return np.sqrt(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp))
-
-
-def fix_pd_matrix(matrix, eps=1e-4):
-    """
-    Fix a positive definite matrix
-
-    Args:
-        matrix (np.array): the matrix to be fixed
-        eps (float): the tolerance
-
-    Returns:
-        np.array: the fixed matrix
-    """
-    eigv, eigw = np.linalg.eigh(matrix)
-    eigv = np.real(eigv)
-    eigw = np.real(eigw)
-    eigv[eigv <= eps] = eps
-    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
-    return matrix
-
-
-def reverse_matrix(matrix):
-    """
-    Reverse the order of eigenvalues.
-
-    Args:
-        matrix (np.array): the matrix to transform
-
-    Returns:
-        np.array: the transformed matrix
-    """
-    eigv, eigw = np.linalg.eigh(matrix)
-    eigv = eigv[np.argsort(eigv)[len(eigv) - rankdata(eigv).astype(int)]]
-    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
-    return matrix
-
-
-def create_metric_tensor(n_dims, tu_indices, elements):
-    """
-    Create metric tensor from upper triangle matrix elements.
-
-    Args:
-         n_dims (int): dimensionality
-         tu_indices (np.array): indices of the upper triangle
-         elements (np.array): the values corresponding to the indices
-
-    Returns:
-        np.array: the constructed distance matrix
-    """
-    # creating the metric tensor
-    dist = np.zeros((n_dims, n_dims))
-    # injecting the regressed coefficients into the upper triangle
-    dist[tu_indices] = elements
-    # copying by transposing
-    dist = dist + dist.T
-    # halving the elements in the main diagonal due to duplication
-    dist[np.diag_indices(n_dims)] = np.diag(dist) / 2
-    # creating a valid positive definite matrix
-    dist = fix_pd_matrix(dist)
-
-    return dist
-
-
-def construct_tensor(X, dissim_matrix):
-    """
-    Construct tensor from dissimilarity matrix.
-
-    Args:
-        X (np.array): the data to use
-        dissim_matrix (np.array): the dissimilarity matrix
-
-    Returns:
-        np.array: the metric tensor
-    """
-
-    # pre-calculating some triangle indices
-    X_tu_indices = np.triu_indices(X.shape[0], k=0)
-    d_tu_indices_0 = np.triu_indices(X.shape[1], k=0)
-    d_tu_indices_1 = np.triu_indices(X.shape[1], k=1)
-
-    n_upper, n_d = len(X_tu_indices[0]), len(d_tu_indices_0[0])
-
-    # calculating the cross differences and extracting the upper triangle into
-    # a row-major representation
-    cross_diff_all = (X[:, None] - X)[X_tu_indices]
-
-    # if the total number of pairs with distances is much greater than the
-    # number of free components of the metric tensor, the samples prepared for
-    # regression are sampled for efficiency
-    mask = np.repeat(True, len(cross_diff_all))
-    if n_upper > n_d * 100:
-        rng = np.arange(n_upper)
-        mask[np.random.RandomState(5).permutation(rng)[n_d * 100 :]] = False
-
-    # preparing the dissimilarity values for regression
-    y_target = dissim_matrix[(X_tu_indices[0][mask], X_tu_indices[1][mask])] ** 2
-
-    # calculating the cross product of components for each pair in the cross
-    # difference matrix
-    cross_diff_all = cross_diff_all[mask]
-    cross_diff_cross_products = np.einsum(
-        "...i,...j->...ij", cross_diff_all, cross_diff_all
-    )
-
-    # adjustment due to extracting the upper triangle only
-    cross_diff_cross_products[:, d_tu_indices_1[0], d_tu_indices_1[1]] *= 2
-
-    # preparing the components of the cross products of pairwise distances
-    # for regression
-    X_target = cross_diff_cross_products[:, d_tu_indices_0[0], d_tu_indices_0[1]]
-
-    # calculating the elements of the metric tensor by regression
-    linearr = LinearRegression(fit_intercept=False).fit(X_target, y_target)
-
-    # creating the metric tensor
-    metric_tensor = create_metric_tensor(X.shape[1], d_tu_indices_0, linearr.coef_)
-
-    return metric_tensor, linearr.score(X_target, y_target)
-
-
-class ClassifierImpliedDissimilarityMatrix:
-    """
-    Computes classifier implied dissimilarity matrix
-    """
-
-    def __init__(
-        self,
-        classifier=("sklearn.ensemble", "RandomForestClassifier"),
-        classifier_params=None,
-    ):
-        """
-        Constructor of the object
-
-        Args:
-            classifier (str): name of a classifier class (available in sklearn)
-            classifier_params (dict): parameters of the classifier
-        """
-        self.classifier = classifier
-        if classifier_params is None:
-            classifier_params = {
-                "n_estimators": 100,
-                "min_samples_leaf": 2,
-                "random_state": 5,
-            }
-        self.classifier_params = classifier_params
-        self.classifier_obj = None
-        self.terminal_nodes = None
-
-    def get_params(self):
-        """
-        The parameters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {
-            "classifier": self.classifier,
-            "classifier_params": self.classifier_params,
-        }
-
-    def fit(self, X, y):
-        """
-        Fit the object.
-
-        Args:
-            X (np.array): the X vectors
-            y (np.array): the target vectors
-
-        Returns:
-            ClassifierImpliedDissimilarityMatrix: the fitted object
-        """
-        _logger.info("%s: fitting", self.__class__.__name__)
-        self.classifier_obj = instantiate_obj(
-            (self.classifier[0], self.classifier[1], self.classifier_params)
-        )
-        self.classifier_obj.fit(X, y)
-        return self
-
-    def transform_kneighbors(self, X):
-        """
-        Transform using kneighbors.
-
-        Args:
-            X (np.array): the vectors to transform
-
-        Returns:
-            np.array: the transformed vectors
-        """
-        _logger.info("%s: transform kneighbors", self.__class__.__name__)
-        tnodes = self.classifier_obj.apply(X)
-        tmp_nodes = np.vstack([self.terminal_nodes, tnodes])
-
-        def func(vector):
-            return 1 * np.equal.outer(vector, vector)[-len(tnodes) :][:, : -len(tnodes)]
-
-        results = 1.0 - np.apply_along_axis(func, 0, tmp_nodes)
-        results = results.sum(axis=2) / tmp_nodes.shape[1]
-
-        return results
-
-    def dissimilarity_matrix(self, X):
-        """
-        Calculates the dissimilarity matrix, if y is None, then uses the
-        already fitted model. First needs to be called with valid y vector.
-
-        Args:
-            X (np.ndarray): explanatory variables
-            y (np.array): target (class labels)
-        """
-        # terminal nodes: rows - samples, columns - trees in the forest
-        self.terminal_nodes = self.classifier_obj.apply(X)
-
-        def func(vector):
-            return 1 * np.equal.outer(vector, vector)
-
-        result = 1.0 - np.apply_along_axis(func, 0, self.terminal_nodes)
-        return result.sum(axis=2) / self.terminal_nodes.shape[1]
-
-
-class ClosestNeighborsInClasses:
-    """
-    Closest neighbors within class.
-    """
-
-    def __init__(self, n_neighbors=5):
-        """
-        Constructor of the class, determines the border points.
-
-        Args:
-            n_neighbors (int): number of neighbors
-        """
-        self.n_neighbors = n_neighbors
-
-    def get_params(self):
-        """
-        Get the dict of parameters
-
-        Returns:
-            dict: the dict of parameters
-        """
-        return {"n_neighbors": self.n_neighbors}
-
-    def fit_transform(self, X, y):
-        """
-        Fit and transform the dataset
-
-        Args:
-            X (np.array): the vectors to operate on
-            y (np.array): the corresponding labels
-
-        Returns:
-            np.array, np.array: the border points
-        """
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
-
-        nearestn = NearestNeighbors(n_neighbors=self.n_neighbors).fit(X)
-        _, ind_min = nearestn.kneighbors(X_min)
-        _, ind_maj = nearestn.kneighbors(X_maj)
-
-        label_min = np.all((y[ind_min] == 1), axis=1)
-        label_maj = np.all((y[ind_maj] == 0), axis=1)
-
-        X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
-        y_final = np.hstack(
-            [
-                np.repeat(0, int(np.sum(~label_maj))),
-                np.repeat(1, int(np.sum(~label_min))),
-            ]
-        )
-
-        return X_final, y_final
-
-
-class RemoveCorrelatedColumns:
-    """
-    Transform the data by removing correlated columns
-    """
-
-    def __init__(self, threshold=0.99):
-        """
-        Constructor of the object
-
-        Args:
-            threshold (float): the correlation absolute value threshold
-        """
-        self.threshold = threshold
-        self.remove_mask = None
-
-    def fit(self, X):
-        """
-        Fit the transformer.
-
-        Args:
-            X (np.array): the vectors
-
-        Returns:
-            RemoveCorrelatedColumns: the fitted object
-        """
-        corr = np.abs(np.corrcoef(X.T))
-        corr[np.tril_indices(len(corr), k=0)] = np.nan
-        self.remove_mask = ~np.any(corr > self.threshold, axis=1)
-        return self
-
-    def transform(self, X):
-        """
-        Transform data.
-
-        Args:
-            X (np.array): the vectors to transform
-
-        Returns:
-            X (np.array): the transformed data
-        """
-        return X[:, self.remove_mask]
-
-
-def discrete_variable_mask(X, threshold=5):
-    """
-    Determine the mask of discrete variables.
-
-    Args:
-        X (np.array): the data
-        threshold (int): threshold on unique attribute elements
-
-    Returns:
-        np.array: the binary mask of discrete variable columns
-    """
-    return np.apply_along_axis(lambda x: len(np.unique(x)), 0, X) <= threshold
-
-
-def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=None):
-    """
-    Estimate the mutual information between variables and a target.
-
-    Args:
-        X (np.array): explanatory variables
-        y (np.array): the target variables
-        normalize (bool): whether to normalize the results
-        n_repeats (int): the number of repetitions
-        mi_params (dict): parameters of the MI estimation
-
-    Returns:
-        np.array: the array of MI scores for each column of X
-    """
-    if mi_params is None:
-        mi_params = {"n_neighbors": 3}
-
-    discrete_mask = discrete_variable_mask(X, threshold=5)
-
-    mutuali = [
-        mutual_info_regression(
-            X, y, **mi_params, discrete_features=discrete_mask, random_state=j
-        )
-        for j in range(n_repeats)
-    ]
-
-    mutuali = np.mean(np.array(mutuali), axis=0)
-
-    if normalize:
-        if np.mean(mutuali) > 0:
-            mutuali = mutuali / np.mean(mutuali)
-        else:
-            # no variable is informative, all get the same weight
-            mutuali = np.ones(len(mutuali))
-
-    return mutuali
-
-
-def n_neighbors_func(
-    X_base, X_neighbors=None, n_neighbors=5, metric_tensor=None, return_distance=False
-):
-    """
-    Determines the n closest neighbors with a metric tensor.
-
-    Args:
-        X_base (np.array): the base data
-        X_neighbors (np.array): the neighbors data
-        n_neighbors (int): the number of neighbors
-        metric_tensor (np.array): the tensor to be used
-        return_distance (bool): whether to return the distance
-
-    Returns:
-        np.array(, np.array): the indices of closest neighbors and optionally
-                                their distances
-    """
-    if metric_tensor is None:
-        metric_tensor = np.eye(X_base.shape[1])
-
-    X_neighbors = X_neighbors if X_neighbors is not None else X_base
-
-    distm = pairwise_distances_mahalanobis(X_base, Y=X_neighbors, tensor=metric_tensor)
-
-    results_ind = np.apply_along_axis(np.argsort, axis=1, arr=distm)[:, :(n_neighbors)]
-
-    if not return_distance:
-        return results_ind
-
-    distances = distm[np.arange(distm.shape[0])[:, None], results_ind]
-    return distances, results_ind
-
-
-def psd_mean(matrices):
-    """
-    Estimate the mean of positive semi-definite matrices
-
-    Args:
-        matrices (iterable): the matrices
-
-    Returns:
-        np.array: the estimated mean matrix
-    """
-    result = np.mean(matrices, axis=0)
-
-    result = fix_pd_matrix(result)
-
-    return result
-
-
-class MetricTensor:
-    """
-    Class representing a metric tensor.
-    """
-
-    def __init__(self, metric_learning_method=None, **_kwargs):
-        """
-        MetricTensor constructor
-
-        Args:
-            metric_learning_method (str): metric learning algorithm
-
-        """
-        self.metric_learning_method = metric_learning_method
-        self.metric_tensor = None
-
-    def get_params(self):
-        """
-        Get the paraemters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {"metric_learning_method": self.metric_learning_method}
-
-    def _train_metric_learning(
-        self, X, y, method="NCA", *, random_state=None, prior="identity"
-    ):
-        """
-        Do the metric learning training
-
-        Args:
-            X (np.array): the explanataory variables
-            y (np.array): the target variable
-            method (str): metric learning method
-            random_state (int/None): random state to pass
-
-        Returns:
-            np.array: the metric tensor
-        """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            if method == "ITML":
-                return (
-                    ITML_Supervised(random_state=random_state, prior=prior)
-                    .fit(X, y)
-                    .get_mahalanobis_matrix()
-                )
-            if method == "LSML":
-                return (
-                    LSML_Supervised(random_state=random_state)
-                    .fit(X, y)
-                    .get_mahalanobis_matrix()
-                )
-
-            return NCA().fit(X, y).get_mahalanobis_matrix()
-
-    def tensor(self, X, y):
-        """
-        Create metric tensor for the parameters.
-
-        Args:
-            X (np.array): the explanataory variables
-            y (np.array): the target variable
-
-        Returns:
-            np.array: the metric tensor
-        """
-        X_mod, index = np.unique(X, axis=0, return_index=True)
-        y_mod = y[index]
-
-        _logger.info(
-            "%s: executing metric learning with %s",
-            self.__class__.__name__,
-            self.metric_learning_method,
-        )
-
-        if self.metric_learning_method == "ITML":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-        elif self.metric_learning_method == "rf":
-            dissim = (
-                ClassifierImpliedDissimilarityMatrix().fit(X, y).dissimilarity_matrix(X)
-            )
-            self.metric_tensor, _ = construct_tensor(X, dissim)
-        elif self.metric_learning_method == "LSML":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-        elif self.metric_learning_method == "cov":
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov(X.T)))
-        elif self.metric_learning_method == "cov_min":
-            labels, counts = np.unique(y, return_counts=True)
-            min_label = labels[::-1][np.argmin(counts[::-1])]
-            cov_min = cov(X[y == min_label].T)
-            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov_min))
-        elif self.metric_learning_method == "MI_weighted":
-            mutuali = estimate_mutual_information(X, y)
-            self.metric_tensor = np.diag(mutuali)
-        elif self.metric_learning_method == "id":
-            self.metric_tensor = np.eye(len(X_mod[0]))
-        elif self.metric_learning_method == "ITML_mi":
-            self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
-            )
-            mutuali = estimate_mutual_information(X, y)
-            self.metric_tensor = np.matmul(self.metric_tensor, np.diag(mutuali))
-        elif self.metric_learning_method == "NCA":
-            self.metric_tensor = NCA().fit(X_mod, y_mod).get_mahalanobis_matrix()
-        elif self.metric_learning_method == "gmean":
-            matrices = [
-                self._train_metric_learning(
-                    X_mod,
-                    y_mod,
-                    self.metric_learning_method,
-                    random_state=5,
-                    prior="random",
-                )
-                for i in range(2)
-            ]
-
-            self.metric_tensor = psd_mean(matrices)
-
-        #elif self.metric_learning_method == "n_unique":
-        #    n_uniques = np.array(
-        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
-        #    )
-        #    self.metric_tensor = np.diag(np.sqrt(n_uniques))
-        #elif self.metric_learning_method == "n_unique_inv":
-        #    n_uniques = np.array(
-        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
-        #    )
-        #    self.metric_tensor = np.diag(np.sqrt(1.0 / n_uniques))
-
-        return self.metric_tensor
-
-
-class MetricLearningMixin:
-    """
-    Mixin class for oversampling methods supporting custom metrics
-    """
-
-    def metric_tensor_from_nn_params(self, nn_params, X, y):
-        """
-        Determine the metric tensor from the given parameters.
-
-        Args:
-            nn_params (dict): the nearest neighbors parameters
-            X (np.array): the explanatory variables
-            y (np.array): the target variables
-
-        Returns:
-            np.array/None: the metric tensor
-        """
-        if (
-            nn_params.get("metric", None) == "precomputed"
-            and nn_params.get("metric_tensor", None) is None
-        ):
-            return MetricTensor(**nn_params).tensor(X, y)
-
-        if nn_params.get("metric_tensor", None) is not None:
-            return nn_params["metric_tensor"]
-
-        return None
-
-    def get_params(self):
-        """
-        Get the parameters of the object.
-
-        Returns:
-            dict: the parameter dict
-        """
-        return {}
-
-
-class NearestNeighborsWithMetricTensor:
-    """
-    NearestNeighbors driven by a metric tensor
-    """
-
-    def __init__(
-        self,
-        n_neighbors=5,
-        *,
-        radius=1.0,
-        algorithm="auto",
-        leaf_size=30,
-        metric="minkowski",
-        p=2,  # pylint: disable=invalid-name
-        metric_params=None,
-        metric_tensor=None,
-        n_jobs=1,
-        **_kwargs
-    ):
-        """
-        Constructor of the class
-
-        Args:
-            n_neighbors (int): the number of neighbors
-            radius (float): the radius of neighbors
-            algorithm (str): the algorithm to be used
-            leaf_size (int): the size of leafs for quadtree estimation
-            metric (str): the metric to be used
-            p (int): the p-norm p value
-            metric_params (dict): the parameters for metric learning
-            metric_tensor (np.array): the metric tensor to be used
-            n_jobs (int): the number of jobs
-        """
-        self.n_neighbors = n_neighbors
-        self.radius = radius
-        self.metric = metric
-        self.metric_tensor = metric_tensor
-        self.X_fitted = None
-
-        self.nearestn = NearestNeighbors(
-            n_neighbors=n_neighbors,
-            radius=radius,
-            algorithm=algorithm,
-            leaf_size=leaf_size,
-            metric=metric,
-            p=p,
-            metric_params=metric_params,
-            n_jobs=n_jobs,
-        )
-
-    def get_params(self):
-        """
-        Get the parameters of the object.
-
-        Returns:
-            dict: the parameters of the object
-        """
-        return {**self.nearestn.get_params(), "metric_tensor": self.metric_tensor}
-
-    def fit(self, X):
-        """
-        Fit the nearest neighbors
-
-        Args:
-            X (np.array): the vectors to fit
-
-        Returns:
-            NearestNeighborsWithMetricTensor: the fitted object
-        """
-        _logger.info(
-            "%s: NN fitting with metric %s", self.__class__.__name__, self.metric
-        )
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            self.nearestn.fit(X)
-        else:
-            self.X_fitted = X
-
-        return self
-
-    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
-        """
-        Determine the k nearest neighbors
-
-        Args:
-            X (np.array): the vectors to determine the neighbors for
-            n_neighbors (int): the number of neighbors
-            return_distance (bool): whether to return the distance
-
-        Returns:
-            np.array(, np.array): the indices of nearest neighbors and
-                                    optionally the distances
-        """
-        _logger.info("%s: kneighbors query %s", self.__class__.__name__, self.metric)
-
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            return self.nearestn.kneighbors(X, n_neighbors, return_distance)
-
-        n_neighbors = coalesce(n_neighbors, self.n_neighbors)
-        return n_neighbors_func(
-            X,
-            self.X_fitted,
-            metric_tensor=self.metric_tensor,
-            n_neighbors=n_neighbors,
-            return_distance=return_distance,
-        )
-
-    def radius_neighbors(
-        self, X=None, radius=None, return_distance=True, sort_results=False
-    ):
-        """
-        Determine the neighbors within a given radius.
-
-        Args:
-            X (np.array): the vectors to query the neighbors of
-            radius (float/None): the radius
-            return_distance (bool): whether to return the distances
-            sort_results (bool): whether to sort the results
-        """
-        _logger.info(
-            "%s: radius neighbors query %s", self.__class__.__name__, self.metric
-        )
-
-        if self.metric != "precomputed" or self.metric_tensor is None:
-            return self.nearestn.radius_neighbors(
-                X, radius, return_distance, sort_results
-            )
-
-        radius = coalesce(radius, self.radius)
-
-        distm = pairwise_distances_mahalanobis(
-            X, Y=self.X_fitted, tensor=self.metric_tensor
-        )
-
-        # one array per row, also when all of them have the same length
-        results_dist = np.empty(len(distm), dtype=object)
-        results_ind = np.empty(len(distm), dtype=object)
-
-        for idx, row in enumerate(distm):
-            mask = np.where(row <= radius)[0]
-            results_dist[idx] = row[mask]
-            results_ind[idx] = mask
-
-        if return_distance:
-            return results_dist, results_ind
-
-        return results_ind
+"""
+This module contains all experimental and stable functionalities related
+to metric learning.
+"""
+import warnings
+
+import numpy as np
+
+from sklearn.neighbors import NearestNeighbors
+from sklearn.linear_model import LinearRegression
+from sklearn.feature_selection import mutual_info_regression
+
+from scipy.stats import rankdata
+
+from metric_learn import ITML_Supervised, LSML_Supervised, NCA
+
+from ..config import distance_matrix_max_memory_chunk
+from ._base import instantiate_obj, coalesce, cov
+from .._logger import logger
+
+_logger = logger
+
+__all__ = [
+    "NearestNeighborsWithMetricTensor",
+    "ClassifierImpliedDissimilarityMatrix",
+    "MetricTensor",
+    "MetricLearningMixin",
+    "pairwise_distances_mahalanobis",
+    "distances_mahalanobis",
+    "fix_pd_matrix",
+    "reverse_matrix",
+    "construct_tensor",
+    "ClosestNeighborsInClasses",
+    "RemoveCorrelatedColumns",
+    "discrete_variable_mask",
+    "estimate_mutual_information",
+    "n_neighbors_func",
+    "psd_mean",
+]
+
+
+def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
+    """
+    Returns the pairwise distances of two arrays of vectors using the
+    provided metric tensor matrix. If no Y paramter is provided, the
+    distance matrix of the paramter X is returned.
+
+    Args:
+        X (np.array): array of vectors to calculate distances for
+        Y (np.array/None): optional second array of vectors
+        tensor (np.array): the metric tensor to be used
+        optimized (np.array): optimization for Eulidean tensors
+
+    Returns:
+        np.array: the distance matrix
+    """
+
+    if Y is None:
+        Y = X
+
+    max_mem = distance_matrix_max_memory_chunk()
+
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+        row_block_size = int(
+            np.floor(
+                X.shape[0]
+                / int(np.ceil(X.shape[0] * X.shape[1] * Y.shape[0] / max_mem))
+            )
+        )
+        row_block_size = np.max([row_block_size, 1])
+
+        row_blocks = []
+        start = 0
+        while start < X.shape[0]:
+            end = np.min([start + row_block_size, X.shape[0]])
+            row_blocks.append(
+                pairwise_distances_mahalanobis(
+                    X[start:end], Y=Y, tensor=tensor, optimized=optimized
+                )
+            )
+            start = start + row_block_size
+
+        return np.vstack(row_blocks)
+
+    if tensor is None or np.allclose(tensor, np.eye(X.shape[1])):
+        # this original implementation can become very slow for high dimensional data
+        if optimized:
+            return np.sqrt(np.sum((X[:, None] - Y) ** 2, axis=-1))
+
+        tensor = np.eye(X.shape[1])
+
+    tmp = X[:, None] - Y
+
+    return np.sqrt(np.einsum("ijk,kl,ijl->ij", tmp, tensor, tmp))
+
+
+def distances_mahalanobis(X, Y, tensor=None):
+    """
+    Returns the distances of the corresponding vectors.
+
+    Args:
+        X (np.array): array of vectors
+        Y (np.array): another array of vectors
+        tensor (np.array): the metric tensor to be used
+
+    Returns:
+        np.array: the distances
+    """
+    if tensor is None:
+        tensor = np.eye(X.shape[1])
+    tmp = X - Y
+    return np.sqrt(np.einsum("ij,jk,ik -> i", tmp, tensor, tmp))
+
+
+def fix_pd_matrix(matrix, eps=1e-4):
+    """
+    Fix a positive definite matrix
+
+    Args:
+        matrix (np.array): the matrix to be fixed
+        eps (float): the tolerance
+
+    Returns:
+        np.array: the fixed matrix
+    """
+    eigv, eigw = np.linalg.eigh(matrix)
+    eigv = np.real(eigv)
+    eigw = np.real(eigw)
+    eigv[eigv <= eps] = eps
+    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
+    return matrix
+
+
+def reverse_matrix(matrix):
+    """
+    Reverse the order of eigenvalues.
+
+    Args:
+        matrix (np.array): the matrix to transform
+
+    Returns:
+        np.array: the transformed matrix
+    """
+    eigv, eigw = np.linalg.eigh(matrix)
+    eigv = eigv[np.argsort(eigv)[len(eigv) - rankdata(eigv).astype(int)]]
+    matrix = np.dot(np.dot(eigw, np.diag(eigv)), eigw.T)
+    return matrix
+
+
+def create_metric_tensor(n_dims, tu_indices, elements):
+    """
+    Create metric tensor from upper triangle matrix elements.
+
+    Args:
+         n_dims (int): dimensionality
+         tu_indices (np.array): indices of the upper triangle
+         elements (np.array): the values corresponding to the indices
+
+    Returns:
+        np.array: the constructed distance matrix
+    """
+    # creating the metric tensor
+    dist = np.zeros((n_dims, n_dims))
+    # injecting the regressed coefficients into the upper triangle
+    dist[tu_indices] = elements
+    # copying by transposing
+    dist = dist + dist.T
+    # halving the elements in the main diagonal due to duplication
+    dist[np.diag_indices(n_dims)] = np.diag(dist) / 2
+    # creating a valid positive definite matrix
+    dist = fix_pd_matrix(dist)
+
+    return dist
+
+
+def construct_tensor(X, dissim_matrix):
+    """
+    Construct tensor from dissimilarity matrix.
+
+    Args:
+        X (np.array): the data to use
+        dissim_matrix (np.array): the dissimilarity matrix
+
+    Returns:
+        np.array: the metric tensor
+    """
+
+    # pre-calculating some triangle indices
+    X_tu_indices = np.triu_indices(X.shape[0], k=0)
+    d_tu_indices_0 = np.triu_indices(X.shape[1], k=0)
+    d_tu_indices_1 = np.triu_indices(X.shape[1], k=1)
+
+    n_upper, n_d = len(X_tu_indices[0]), len(d_tu_indices_0[0])
+
+    # calculating the cross differences and extracting the upper triangle into
+    # a row-major representation
+    cross_diff_all = (X[:, None] - X)[X_tu_indices]
+
+    # if the total number of pairs with distances is much greater than the
+    # number of free components of the metric tensor, the samples prepared for
+    # regression are sampled for efficiency
+    mask = np.repeat(True, len(cross_diff_all))
+    if n_upper > n_d * 100:
+        rng = np.arange(n_upper)
+        mask[np.random.RandomState(5).permutation(rng)[n_d * 100 :]] = False
+
+    # preparing the dissimilarity values for regression
+    y_target = dissim_matrix[(X_tu_indices[0][mask], X_tu_indices[1][mask])] ** 2
+
+    # calculating the cross product of components for each pair in the cross
+    # difference matrix
+    cross_diff_all = cross_diff_all[mask]
+    cross_diff_cross_products = np.einsum(
+        "...i,...j->...ij", cross_diff_all, cross_diff_all
+    )
+
+    # adjustment due to extracting the upper triangle only
+    cross_diff_cross_products[:, d_tu_indices_1[0], d_tu_indices_1[1]] *= 2
+
+    # preparing the components of the cross products of pairwise distances
+    # for regression
+    X_target = cross_diff_cross_products[:, d_tu_indices_0[0], d_tu_indices_0[1]]
+
+    # calculating the elements of the metric tensor by regression
+    linearr = LinearRegression(fit_intercept=False).fit(X_target, y_target)
+
+    # creating the metric tensor
+    metric_tensor = create_metric_tensor(X.shape[1], d_tu_indices_0, linearr.coef_)
+
+    return metric_tensor, linearr.score(X_target, y_target)
+
+
+class ClassifierImpliedDissimilarityMatrix:
+    """
+    Computes classifier implied dissimilarity matrix
+    """
+
+    def __init__(
+        self,
+        classifier=("sklearn.ensemble", "RandomForestClassifier"),
+        classifier_params=None,
+    ):
+        """
+        Constructor of the object
+
+        Args:
+            classifier (str): name of a classifier class (available in sklearn)
+            classifier_params (dict): parameters of the classifier
+        """
+        self.classifier = classifier
+        if classifier_params is None:
+            classifier_params = {
+                "n_estimators": 100,
+                "min_samples_leaf": 2,
+                "random_state": 5,
+            }
+        self.classifier_params = classifier_params
+        self.classifier_obj = None
+        self.terminal_nodes = None
+
+    def get_params(self):
+        """
+        The parameters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "classifier": self.classifier,
+            "classifier_params": self.classifier_params,
+        }
+
+    def fit(self, X, y):
+        """
+        Fit the object.
+
+        Args:
+            X (np.array): the X vectors
+            y (np.array): the target vectors
+
+        Returns:
+            ClassifierImpliedDissimilarityMatrix: the fitted object
+        """
+        _logger.info("%s: fitting", self.__class__.__name__)
+        self.classifier_obj = instantiate_obj(
+            (self.classifier[0], self.classifier[1], self.classifier_params)
+        )
+        self.classifier_obj.fit(X, y)
+        return self
+
+    def transform_kneighbors(self, X):
+        """
+        Transform using kneighbors.
+
+        Args:
+            X (np.array): the vectors to transform
+
+        Returns:
+            np.array: the transformed vectors
+        """
+        _logger.info("%s: transform kneighbors", self.__class__.__name__)
+        tnodes = self.classifier_obj.apply(X)
+        tmp_nodes = np.vstack([self.terminal_nodes, tnodes])
+
+        def func(vector):
+            return 1 * np.equal.outer(vector, vector)[-len(tnodes) :][:, : -len(tnodes)]
+
+        results = 1.0 - np.apply_along_axis(func, 0, tmp_nodes)
+        results = results.sum(axis=2) / tmp_nodes.shape[1]
+
+        return results
+
+    def dissimilarity_matrix(self, X):
+        """
+        Calculates the dissimilarity matrix, if y is None, then uses the
+        already fitted model. First needs to be called with valid y vector.
+
+        Args:
+            X (np.ndarray): explanatory variables
+            y (np.array): target (class labels)
+        """
+        # terminal nodes: rows - samples, columns - trees in the forest
+        self.terminal_nodes = self.classifier_obj.apply(X)
+
+        def func(vector):
+            return 1 * np.equal.outer(vector, vector)
+
+        result = 1.0 - np.apply_along_axis(func, 0, self.terminal_nodes)
+        return result.sum(axis=2) / self.terminal_nodes.shape[1]
+
+
+class ClosestNeighborsInClasses:
+    """
+    Closest neighbors within class.
+    """
+
+    def __init__(self, n_neighbors=5):
+        """
+        Constructor of the class, determines the border points.
+
+        Args:
+            n_neighbors (int): number of neighbors
+        """
+        self.n_neighbors = n_neighbors
+
+    def get_params(self):
+        """
+        Get the dict of parameters
+
+        Returns:
+            dict: the dict of parameters
+        """
+        return {"n_neighbors": self.n_neighbors}
+
+    def fit_transform(self, X, y):
+        """
+        Fit and transform the dataset
+
+        Args:
+            X (np.array): the vectors to operate on
+            y (np.array): the corresponding labels
+
+        Returns:
+            np.array, np.array: the border points
+        """
+        X_min = X[y == 1]
+        X_maj = X[y == 0]
+
+        nearestn = NearestNeighbors(n_neighbors=self.n_neighbors).fit(X)
+        _, ind_min = nearestn.kneighbors(X_min)
+        _, ind_maj = nearestn.kneighbors(X_maj)
+
+        label_min = np.all((y[ind_min] == 1), axis=1)
+        label_maj = np.all((y[ind_maj] == 0), axis=1)
+
+        X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
+        y_final = np.hstack(
+            [
+                np.repeat(0, int(np.sum(~label_maj))),
+                np.repeat(1, int(np.sum(~label_min))),
+            ]
+        )
+
+        return X_final, y_final
+
+
+class RemoveCorrelatedColumns:
+    """
+    Transform the data by removing correlated columns
+    """
+
+    def __init__(self, threshold=0.99):
+        """
+        Constructor of the object
+
+        Args:
+            threshold (float): the correlation absolute value threshold
+        """
+        self.threshold = threshold
+        self.remove_mask = None
+
+    def fit(self, X):
+        """
+        Fit the transformer.
+
+        Args:
+            X (np.array): the vectors
+
+        Returns:
+            RemoveCorrelatedColumns: the fitted object
+        """
+        corr = np.abs(np.corrcoef(X.T))
+        corr[np.tril_indices(len(corr), k=0)] = np.nan
+        self.remove_mask = ~np.any(corr > self.threshold, axis=1)
+        return self
+
+    def transform(self, X):
+        """
+        Transform data.
+
+        Args:
+            X (np.array): the vectors to transform
+
+        Returns:
+            X (np.array): the transformed data
+        """
+        return X[:, self.remove_mask]
+
+
+def discrete_variable_mask(X, threshold=5):
+    """
+    Determine the mask of discrete variables.
+
+    Args:
+        X (np.array): the data
+        threshold (int): threshold on unique attribute elements
+
+    Returns:
+        np.array: the binary mask of discrete variable columns
+    """
+    return np.apply_along_axis(lambda x: len(np.unique(x)), 0, X) <= threshold
+
+
+def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=None):
+    """
+    Estimate the mutual information between variables and a target.
+
+    Args:
+        X (np.array): explanatory variables
+        y (np.array): the target variables
+        normalize (bool): whether to normalize the results
+        n_repeats (int): the number of repetitions
+        mi_params (dict): parameters of the MI estimation
+
+    Returns:
+        np.array: the array of MI scores for each column of X
+    """
+    if mi_params is None:
+        mi_params = {"n_neighbors": 3}
+
+    discrete_mask = discrete_variable_mask(X, threshold=5)
+
+    mutuali = [
+        mutual_info_regression(
+            X, y, **mi_params, discrete_features=discrete_mask, random_state=j
+        )
+        for j in range(n_repeats)
+    ]
+
+    mutuali = np.mean(np.array(mutuali), axis=0)
+
+    if normalize:
+        if np.mean(mutuali) > 0:
+            mutuali = mutuali / np.mean(mutuali)
+        else:
+            # no variable is informative, all get the same weight
+            mutuali = np.ones(len(mutuali))
+
+    return mutuali
+
+
+def n_neighbors_func(
+    X_base, X_neighbors=None, n_neighbors=5, metric_tensor=None, return_distance=False
+):
+    """
+    Determines the n closest neighbors with a metric tensor.
+
+    Args:
+        X_base (np.array): the base data
+        X_neighbors (np.array): the neighbors data
+        n_neighbors (int): the number of neighbors
+        metric_tensor (np.array): the tensor to be used
+        return_distance (bool): whether to return the distance
+
+    Returns:
+        np.array(, np.array): the indices of closest neighbors and optionally
+                                their distances
+    """
+    if metric_tensor is None:
+        metric_tensor = np.eye(X_base.shape[1])
+
+    X_neighbors = X_neighbors if X_neighbors is not None else X_base
+
+    distm = pairwise_distances_mahalanobis(X_base, Y=X_neighbors, tensor=metric_tensor)
+
+    results_ind = np.apply_along_axis(np.argsort, axis=1, arr=distm)[:, :(n_neighbors)]
+
+    if not return_distance:
+        return results_ind
+
+    distances = distm[np.arange(distm.shape[0])[:, None], results_ind]
+    return distances, results_ind
+
+
+def psd_mean(matrices):
+    """
+    Estimate the mean of positive semi-definite matrices
+
+    Args:
+        matrices (iterable): the matrices
+
+    Returns:
+        np.array: the estimated mean matrix
+    """
+    result = np.mean(matrices, axis=0)
+
+    result = fix_pd_matrix(result)
+
+    return result
+
+
+class MetricTensor:
+    """
+    Class representing a metric tensor.
+    """
+
+    def __init__(self, metric_learning_method=None, **_kwargs):
+        """
+        MetricTensor constructor
+
+        Args:
+            metric_learning_method (str): metric learning algorithm
+
+        """
+        self.metric_learning_method = metric_learning_method
+        self.metric_tensor = None
+
+    def get_params(self):
+        """
+        Get the paraemters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {"metric_learning_method": self.metric_learning_method}
+
+    def _train_metric_learning(
+        self, X, y, method="NCA", *, random_state=None, prior="identity"
+    ):
+        """
+        Do the metric learning training
+
+        Args:
+            X (np.array): the explanataory variables
+            y (np.array): the target variable
+            method (str): metric learning method
+            random_state (int/None): random state to pass
+
+        Returns:
+            np.array: the metric tensor
+        """
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            if method == "ITML":
+                return (
+                    ITML_Supervised(random_state=random_state, prior=prior)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
+            if method == "LSML":
+                return (
+                    LSML_Supervised(random_state=random_state)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
+
+            return NCA().fit(X, y).get_mahalanobis_matrix()
+
+    def tensor(self, X, y):
+        """
+        Create metric tensor for the parameters.
+
+        Args:
+            X (np.array): the explanataory variables
+            y (np.array): the target variable
+
+        Returns:
+            np.array: the metric tensor
+        """
+        X_mod, index = np.unique(X, axis=0, return_index=True)
+        y_mod = y[index]
+
+        _logger.info(
+            "%s: executing metric learning with %s",
+            self.__class__.__name__,
+            self.metric_learning_method,
+        )
+
+        if self.metric_learning_method == "ITML":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+        elif self.metric_learning_method == "rf":
+            dissim = (
+                ClassifierImpliedDissimilarityMatrix().fit(X, y).dissimilarity_matrix(X)
+            )
+            self.metric_tensor, _ = construct_tensor(X, dissim)
+        elif self.metric_learning_method == "LSML":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+        elif self.metric_learning_method == "cov":
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov(X.T)))
+        elif self.metric_learning_method == "cov_min":
+            labels, counts = np.unique(y, return_counts=True)
+            min_label = labels[::-1][np.argmin(counts[::-1])]
+            cov_min = cov(X[y == min_label].T)
+            self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov_min))
+        elif self.metric_learning_method == "MI_weighted":
+            mutuali = estimate_mutual_information(X, y)
+            self.metric_tensor = np.diag(mutuali)
+        elif self.metric_learning_method == "id":
+            self.metric_tensor = np.eye(len(X_mod[0]))
+        elif self.metric_learning_method == "ITML_mi":
+            self.metric_tensor = self._train_metric_learning(
+                X_mod, y_mod, self.metric_learning_method, random_state=5
+            )
+            mutuali = estimate_mutual_information(X, y)
+            self.metric_tensor = np.matmul(self.metric_tensor, np.diag(mutuali))
+        elif self.metric_learning_method == "NCA":
+            self.metric_tensor = NCA().fit(X_mod, y_mod).get_mahalanobis_matrix()
+        elif self.metric_learning_method == "gmean":
+            matrices = [
+                self._train_metric_learning(
+                    X_mod,
+                    y_mod,
+                    self.metric_learning_method,
+                    random_state=5,
+                    prior="random",
+                )
+                for i in range(2)
+            ]
+
+            self.metric_tensor = psd_mean(matrices)
+
+        #elif self.metric_learning_method == "n_unique":
+        #    n_uniques = np.array(
+        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
+        #    )
+        #    self.metric_tensor = np.diag(np.sqrt(n_uniques))
+        #elif self.metric_learning_method == "n_unique_inv":
+        #    n_uniques = np.array(
+        #        [len(np.unique(X_mod[:, idx])) for idx in range(X.shape[1])]
+        #    )
+        #    self.metric_tensor = np.diag(np.sqrt(1.0 / n_uniques))
+
+        return self.metric_tensor
+
+
+class MetricLearningMixin:
+    """
+    Mixin class for oversampling methods supporting custom metrics
+    """
+
+    def metric_tensor_from_nn_params(self, nn_params, X, y):
+        """
+        Determine the metric tensor from the given parameters.
+
+        Args:
+            nn_params (dict): the nearest neighbors parameters
+            X (np.array): the explanatory variables
+            y (np.array): the target variables
+
+        Returns:
+            np.array/None: the metric tensor
+        """
+        if (
+            nn_params.get("metric", None) == "precomputed"
+            and nn_params.get("metric_tensor", None) is None
+        ):
+            return MetricTensor(**nn_params).tensor(X, y)
+
+        if nn_params.get("metric_tensor", None) is not None:
+            return nn_params["metric_tensor"]
+
+        return None
+
+    def get_params(self):
+        """
+        Get the parameters of the object.
+
+        Returns:
+            dict: the parameter dict
+        """
+        return {}
+
+
+class NearestNeighborsWithMetricTensor:
+    """
+    NearestNeighbors driven by a metric tensor
+    """
+
+    def __init__(
+        self,
+        n_neighbors=5,
+        *,
+        radius=1.0,
+        algorithm="auto",
+        leaf_size=30,
+        metric="minkowski",
+        p=2,  # pylint: disable=invalid-name
+        metric_params=None,
+        metric_tensor=None,
+        n_jobs=1,
+        **_kwargs
+    ):
+        """
+        Constructor of the class
+
+        Args:
+            n_neighbors (int): the number of neighbors
+            radius (float): the radius of neighbors
+            algorithm (str): the algorithm to be used
+            leaf_size (int): the size of leafs for quadtree estimation
+            metric (str): the metric to be used
+            p (int): the p-norm p value
+            metric_params (dict): the parameters for metric learning
+            metric_tensor (np.array): the metric tensor to be used
+            n_jobs (int): the number of jobs
+        """
+        self.n_neighbors = n_neighbors
+        self.radius = radius
+        self.metric = metric
+        self.metric_tensor = metric_tensor
+        self.X_fitted = None
+
+        self.nearestn = NearestNeighbors(
+            n_neighbors=n_neighbors,
+            radius=radius,
+            algorithm=algorithm,
+            leaf_size=leaf_size,
+            metric=metric,
+            p=p,
+            metric_params=metric_params,
+            n_jobs=n_jobs,
+        )
+
+    def get_params(self):
+        """
+        Get the parameters of the object.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {**self.nearestn.get_params(), "metric_tensor": self.metric_tensor}
+
+    def fit(self, X):
+        """
+        Fit the nearest neighbors
+
+        Args:
+            X (np.array): the vectors to fit
+
+        Returns:
+            NearestNeighborsWithMetricTensor: the fitted object
+        """
+        _logger.info(
+            "%s: NN fitting with metric %s", self.__class__.__name__, self.metric
+        )
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            self.nearestn.fit(X)
+        else:
+            self.X_fitted = X
+
+        return self
+
+    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
+        """
+        Determine the k nearest neighbors
+
+        Args:
+            X (np.array): the vectors to determine the neighbors for
+            n_neighbors (int): the number of neighbors
+            return_distance (bool): whether to return the distance
+
+        Returns:
+            np.array(, np.array): the indices of nearest neighbors and
+                                    optionally the distances
+        """
+        _logger.info("%s: kneighbors query %s", self.__class__.__name__, self.metric)
+
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            return self.nearestn.kneighbors(X, n_neighbors, return_distance)
+
+        n_neighbors = coalesce(n_neighbors, self.n_neighbors)
+        return n_neighbors_func(
+            X,
+            self.X_fitted,
+            metric_tensor=self.metric_tensor,
+            n_neighbors=n_neighbors,
+            return_distance=return_distance,
+        )
+
+    def radius_neighbors(
+        self, X=None, radius=None, return_distance=True, sort_results=False
+    ):
+        """
+        Determine the neighbors within a given radius.
+
+        Args:
+            X (np.array): the vectors to query the neighbors of
+            radius (float/None): the radius
+            return_distance (bool): whether to return the distances
+            sort_results (bool): whether to sort the results
+        """
+        _logger.info(
+            "%s: radius neighbors query %s", self.__class__.__name__, self.metric
+        )
+
+        if self.metric != "precomputed" or self.metric_tensor is None:
+            return self.nearestn.radius_neighbors(
+                X, radius, return_distance, sort_results
+            )
+
+        radius = coalesce(radius, self.radius)
+
+        distm = pairwise_distances_mahalanobis(
+            X, Y=self.X_fitted, tensor=self.metric_tensor
+        )
+
+        # one array per row, also when all of them have the same length
+        results_dist = np.empty(len(distm), dtype=object)
+        results_ind = np.empty(len(distm), dtype=object)
+
+        for idx, row in enumerate(distm):
+            mask = np.where(row <= radius)[0]
+            results_dist[idx] = row[mask]
+            results_ind[idx] = mask
+
+        if return_distance:
+            return results_dist, results_ind
+
+        return results_ind
diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 74527fb..db05453 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -1,808 +1,808 @@
-"""
-This module implements the ADG method.
-"""
-
-import warnings
-
-import numpy as np
-from numpy.linalg import LinAlgError
-
-from sklearn.decomposition import PCA
-from sklearn.cluster import KMeans
-from sklearn.mixture import GaussianMixture
-from sklearn.metrics import pairwise_distances
-
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["ADG"]
-
-
-def bic_score(kmeans, X):
-    """
-    Compute BIC score for clustering
-
-    Args:
-        kmeans (sklearn.KMeans): kmeans object
-        X (np.array):  clustered data
-
-    Returns:
-        float: bic value
-
-    Inspired by https://stats.stackexchange.com/questions/90769/
-                        using-bic-to-estimate-the-number-of-k-in-kmeans
-    """
-
-    # extract descriptors of the clustering
-    cluster_centers = kmeans.cluster_centers_
-    # n_clusters = kmeans.n_clusters
-    n_clusters = np.unique(kmeans.labels_).shape[0]
-    n_in_clusters = np.bincount(kmeans.labels_)
-    n_samples, n_dim = X.shape
-
-    # compute variance for all clusters beforehand
-
-    def sum_norm_2(idx):
-        return np.sum(
-            np.linalg.norm(X[kmeans.labels_ == idx] - cluster_centers[idx]) ** 2
-        )
-
-    cluster_variances = [sum_norm_2(i) for i in range(n_clusters)]
-    term_0 = (1.0) / ((n_samples - n_clusters) * n_dim)
-    term_1 = np.sum(cluster_variances)
-    clustering_variance = term_0 * term_1
-
-    const_term = 0.5 * n_clusters * np.log(n_samples) * (n_dim + 1)
-
-    def bic_comp(idx):
-        term_0 = n_in_clusters[idx] * np.log(n_in_clusters[idx])
-        term_1 = n_in_clusters[idx] * np.log(n_samples)
-        if clustering_variance == 0:
-            return np.inf
-        term_2 = ((n_in_clusters[idx] * n_dim) / 2) * np.log(
-            2 * np.pi * clustering_variance
-        )
-        term_3 = (n_in_clusters[idx] - 1) * n_dim / 2
-
-        return term_0 - term_1 - term_2 - term_3
-
-    bic = (
-        np.sum([bic_comp(idx) for idx in range(n_clusters) if n_in_clusters[idx] > 0])
-        - const_term
-    )
-
-    return bic
-
-
-def xmeans(X, rng=(1, 10), random_state=None):
-    """
-    Clustering with BIC based n_cluster selection
-
-    Args:
-        X (np.array): data to cluster
-        rng (tuple): lower and upper bound on the number of clusters
-        random_state (int/None): random state to use
-
-    Returns:
-        sklearn.KMeans: clustering with lowest BIC score
-    """
-    best_bic = np.inf
-    best_clustering = None
-
-    # do clustering for all n_clusters in the specified range
-    for n_clusters in range(rng[0], min([rng[1], len(X)])):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            kmeans = KMeans(n_clusters=n_clusters, random_state=random_state, n_init='auto').fit(X)
-
-        bic = bic_score(kmeans, X)
-        if best_clustering is None or bic < best_bic:
-            best_bic = bic
-            best_clustering = kmeans
-
-    return best_clustering
-
-
-def xgmeans(X, rng=(1, 10), random_state=None):
-    """
-    Gaussian mixture with BIC to select the optimal number
-    of components
-
-    Args:
-        X (np.array): data to cluster
-        rng (tuple): lower and upper bound on the number of components
-        random_state (int/None): random state to use
-
-    Returns:
-        sklearn.GaussianMixture: Gaussian mixture model with the
-                                    lowest BIC score
-    """
-    best_bic = np.inf
-    best_mixture = None
-
-    # do model fitting for all n_components in the specified range
-    for n_components in range(rng[0], min([rng[1], len(X)])):
-        gmm = GaussianMixture(n_components=n_components, random_state=random_state).fit(
-            X
-        )
-        bic = gmm.bic(X)
-        if bic < best_bic:
-            best_bic = bic
-            best_mixture = gmm
-
-    return best_mixture
-
-
-def evaluate_matrices(X, y, kernel=np.inner, maj_label=0, min_label=1):
-    """
-    The function evaluates the partial_results specified in the method.
-
-    Args:
-        X (np.array): features
-        y (np.array): target labels
-        kernel (function): the kernel function to be used
-
-    Returns:
-        np.array, np.array, int, int, np.array, np.array,
-        np.array, np.array, np.array
-        np.array, np.array, np.array, np.array, np.array:
-            X_minux, X_plus, l_minus, l_plus, X, y, K, M_plus, M_minus,
-            M, K_plus, K_minus, N_plus, n_minus using the notations of
-            the paper, X and y are ordered by target labels
-    """
-    x_minus = X[y == maj_label]
-    x_plus = X[y == min_label]
-
-    X = np.vstack([x_minus, x_plus])
-    y = np.hstack(
-        [np.array([maj_label] * len(x_minus)), np.array([min_label] * len(x_plus))]
-    )
-
-    k = pairwise_distances(X, X, metric=kernel)  # pylint: disable=invalid-name
-    m_plus = np.mean(k[:, len(x_minus) :], axis=1)
-    m_minus = np.mean(k[:, : len(x_minus)], axis=1)
-    m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
-
-    k_minus = k[:, : len(x_minus)]
-    k_plus = k[:, len(x_minus) :]
-
-    partial_results = {
-        "X_minus": x_minus,
-        "X_plus": x_plus,
-        "K": k,
-        "M_plus": m_plus,
-        "M_minus": m_minus,
-        "M": m,
-        "K_plus": k_plus,
-        "K_minus": k_minus,
-        "l_minus": len(x_minus),
-        "l_plus": len(x_plus),
-    }
-
-    return (partial_results, X, y)
-
-
-def generate_kernel_function(specification):
-    """
-    Generate the kernel function.
-
-    Args:
-        specification (str): the kernel specification
-
-    Returns:
-        callable: the kernel function
-    """
-    if specification == "inner":
-        kernel_function = np.inner
-    else:
-        kernel_function = None
-        specs = specification.split("_")
-        if specs[0] == "rbf":
-            bandwidth = float(specs[1])
-
-            def kernel_function(x_vector, y_vector):
-                norm = np.linalg.norm(x_vector - y_vector)
-                return np.exp(-(norm**2) / bandwidth)
-
-    return kernel_function
-
-
-class ADGSingularMatrixException(Exception):
-    """
-    Exception indicating a singular matrix problem.
-    """
-
-
-class ADG(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{adg,
-                    author = {Pourhabib, A. and Mallick, Bani K. and Ding, Yu},
-                    year = {2015},
-                    month = {16},
-                    pages = {2695--2724},
-                    title = {A Novel Minority Cloning Technique for
-                                Cost-Sensitive Learning},
-                    volume = {16},
-                    journal = {Journal of Machine Learning Research}
-                    }
-
-    Notes:
-        * This method has a lot of parameters, it becomes fairly hard to
-            cross-validate thoroughly.
-        * Fails if matrix is singular when computing alpha_star, fixed
-            by PCA.
-        * Singularity might be caused by repeating samples.
-        * Maintaining the kernel matrix becomes unfeasible above a couple
-            of thousand vectors.
-    """
-
-    categories = [OverSampling.cat_extensive, OverSampling.cat_uses_clustering]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        kernel="inner",
-        lam=1.0,
-        mu=1.0,
-        k=12,
-        gamma=1.0,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            kernel (str): 'inner'/'rbf_x', where x is a float, the bandwidth
-            lam (float): lambda parameter of the method
-            mu (float): mu parameter of the method
-            k (int): number of samples to generate in each iteration
-            gamma (float): gamma parameter of the method
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state, checks=None)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-
-        if kernel != "inner" and not kernel.startswith("rbf"):
-            raise ValueError(
-                f"{self.__class__.__name__}: Kernel function " f"{kernel} not supported"
-            )
-        if kernel.startswith("rbf"):
-            par = float(kernel.split("_")[-1])
-            if par <= 0.0:
-                raise ValueError(
-                    f"{self.__class__.__name__}: Kernel parameter "
-                    f"{par} is not supported"
-                )
-
-        self.check_greater(lam, "lam", 0)
-        self.check_greater(mu, "mu", 0)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(gamma, "gamma", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.kernel = kernel
-        self.lam = lam
-        self.mu = mu  # pylint: disable=invalid-name
-        self.k = k  # pylint: disable=invalid-name
-        self.gamma = gamma
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "kernel": ["inner", "rbf_0.5", "rbf_1.0", "rbf_2.0"],
-            "lam": [1.0, 2.0],
-            "mu": [1.0, 2.0],
-            "k": [12],
-            "gamma": [1.0, 2.0],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def initialize_matrices(self, *, partial_results):
-        """
-        Initializes the base partial_results.
-
-        Args:
-            np.arrays by names
-
-        Returns:
-            np.arrays: the initialized partial_results
-        """
-        l_plus = partial_results["l_plus"]
-        k_plus = partial_results["K_plus"]
-        k_minus = partial_results["K_minus"]
-        x_plus = partial_results["X_plus"]
-        x_minus = partial_results["X_minus"]
-
-        k_plus2 = np.dot(k_plus, k_plus.T)
-        k_plus_sum = np.sum(k_plus, axis=1)
-        k_plus_diad = np.outer(k_plus_sum, k_plus_sum) / l_plus
-
-        k_minus2 = np.dot(k_minus, k_minus.T)
-        k_minus_sum = np.sum(k_minus, axis=1)
-        k_minus_diad = np.outer(k_minus_sum, k_minus_sum) / partial_results["l_minus"]
-
-        n = (
-            k_plus2 - k_plus_diad + k_minus2 - k_minus_diad
-        )  # pylint: disable=invalid-name
-
-        x_plus_hat = x_plus.copy()
-
-        partial_results["K_plus2"] = k_plus2
-        partial_results["K_plus_sum"] = k_plus_sum
-        partial_results["K_minus2"] = k_minus2
-        partial_results["K_minus_sum"] = k_minus_sum
-        partial_results["N"] = n
-        partial_results["X_plus_hat"] = x_plus_hat
-        partial_results["l_minus"] = len(x_minus)
-
-        return partial_results
-
-    def sample_with_n_components(self, X, y, n_components):
-        """
-        Rerun the sampling in a lower dimensional space.
-
-        Args:
-            X (np.array): features
-            y (np.array): targets
-            n_components (int): dimensionality of the feature space
-
-        Returns:
-            np.array, np.array: the resampled X and y
-        """
-        _logger.warning(
-            "%s: reducing dimensionality to %d", self.__class__.__name__, n_components
-        )
-        # if n_components == 0:
-        #    return None, None
-
-        pca = PCA(n_components=n_components).fit(X)
-
-        x_trans = pca.transform(X)
-
-        adg = ADG(
-            proportion=self.proportion,
-            kernel=self.kernel,
-            lam=self.lam,
-            mu=self.mu,
-            k=self.k,
-            gamma=self.gamma,
-            random_state=self._random_state_init,
-        )
-
-        X_samp, y_samp = adg.sample(x_trans, y)
-
-        # the original vectors are kept, only the new ones are mapped back
-        samples = pca.inverse_transform(X_samp[len(X) :])
-
-        return np.vstack([X, samples]), y_samp
-
-    def extend(self, X, y, X_all):
-        """
-        Extend the original dataset by the generated samples.
-
-        Args:
-            X (np.array): the original features
-            y (np.array): the original target labels
-            X_all (np.array): the reordered features, the generated samples
-                                being the last ones
-
-        Returns:
-            np.array, np.array: the extended dataset
-        """
-        samples = X_all[len(X) :]
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def update_partial_results(self, *, partial_results):
-        """
-        Update partial_results.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        # M_plus is not updated as it is not used
-
-        k_plus = partial_results["K_plus"]
-        k_minus = partial_results["K_minus"]
-        k_minus2 = partial_results["K_minus2"]
-        k_plus2 = partial_results["K_plus2"]
-        l_new = partial_results["l_new"]
-
-        m_plus = np.mean(k_plus, axis=1)
-        m_minus = np.mean(k_minus, axis=1)
-
-        # step 13 is already involved in the core of the loop
-        m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
-
-        corner = np.dot(k_minus[:-l_new:], k_minus[-l_new:].T)
-        k_minus2 = np.block(
-            [
-                [k_minus2, corner],
-                [corner.T, np.dot(k_minus[-l_new:], k_minus[-l_new:].T)],
-            ]
-        )
-        k_minus_sum = m_minus * len(k_minus)
-
-        k_plus2 = k_plus2 + np.dot(k_plus[:-l_new, l_new:], k_plus[:-l_new, l_new:].T)
-
-        corner = np.dot(k_plus[:-l_new], k_plus[-l_new:].T)
-
-        k_plus2 = np.block(
-            [[k_plus2, corner], [corner.T, np.dot(k_plus[-l_new:], k_plus[-l_new:].T)]]
-        )
-
-        k_plus_sum = m_plus * len(k_plus)
-
-        n = (
-            k_plus2
-            - np.outer(
-                k_plus_sum / partial_results["l_plus"],  # pylint: disable=invalid-name
-                k_plus_sum,
-            )
-            + k_minus2
-            - np.outer(k_minus_sum / partial_results["l_minus"], k_minus_sum)
-        )
-
-        partial_results["M_plus"] = m_plus
-        partial_results["M_minus"] = m_minus
-        partial_results["M"] = m
-        partial_results["K_minus2"] = k_minus2
-        partial_results["K_minus_sum"] = k_minus_sum
-        partial_results["K_plus2"] = k_plus2
-        partial_results["K_plus_sum"] = k_plus_sum
-        partial_results["N"] = n
-
-        return partial_results
-
-    def determine_a(self, *, partial_results, k_c, lam_c, mu_c):
-        """
-        Determine the matrix A
-
-        Args:
-            the quantities required for A
-
-        Returns:
-            np.array: the matrix A
-        """
-        m = partial_results["M"]  # pylint: disable=invalid-name
-        n = partial_results["N"]  # pylint: disable=invalid-name
-        k = partial_results["K"]  # pylint: disable=invalid-name
-
-        # step 3, 4
-        omega = -np.sum(
-            [k_c[i] * (lam_c[i]) ** 2 / (4 * mu_c[i] ** 2) for i in range(len(k_c))]
-        )
-        A = (m - self.gamma * n) - omega * k  # pylint: disable=invalid-name
-
-        return A
-
-    def determine_b(self, *, partial_results, k_c, lam_c, X, clusters):
-        """
-        Determine the vector b
-
-        Args:
-            the quantities required for vector b
-
-        Returns:
-            np.array: the vector b
-        """
-        x_minus = partial_results["X_minus"]
-        k = partial_results["K"]  # pylint: disable=invalid-name
-        m_minus = partial_results["M_minus"]
-
-        # step 3, 4
-        nu_c = -0.5 * k_c * lam_c
-        m_plus_c = [
-            np.mean(k[:, np.arange(len(x_minus), len(X))[clusters.labels_ == i]])
-            for i in range(len(k_c))
-        ]
-
-        b = np.sum(
-            [
-                (m_minus - m_plus_c[i]) * nu_c[i]  # pylint: disable=invalid-name
-                for i in range(len(k_c))
-            ],
-            axis=0,
-        )
-
-        return b
-
-    def step_1_2_3_4(self, *, partial_results, X):
-        """
-        Implements steps 1, 2, 3 and 4 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        x_plus_hat = partial_results["X_plus_hat"]
-
-        # step 1
-        clusters = xmeans(x_plus_hat, random_state=self._random_state_init)
-        l_c = np.array(
-            [np.sum(clusters.labels_ == i) for i in range(clusters.n_clusters)]
-        )
-
-        # step 2
-        k_c = ((1.0 / l_c) / (np.sum(1.0 / l_c)) * self.k).astype(int)
-        k_c[k_c == 0] = 1
-        lam_c, mu_c = self.lam / l_c, self.mu / l_c
-
-        return (
-            self.determine_a(
-                partial_results=partial_results, k_c=k_c, lam_c=lam_c, mu_c=mu_c
-            ),
-            self.determine_b(
-                partial_results=partial_results,
-                k_c=k_c,
-                lam_c=lam_c,
-                X=X,
-                clusters=clusters,
-            ),
-        )
-
-    def step_5_6_7(self, *, partial_results, q, X, kernel_function, alpha_star):
-        """
-        Implements steps 5, 6, 7 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        x_plus = partial_results["X_plus"]
-
-        # step 5
-        mixture = xgmeans(x_plus, random_state=self._random_state_init)
-
-        # step 6
-        z = mixture.sample(q)[0]  # pylint: disable=invalid-name
-
-        # step 7
-        # computing the kernel matrix of generated samples with all samples
-        k_10 = pairwise_distances(z, X, metric=kernel_function)
-        mask_inner_prod = np.where(np.inner(k_10, alpha_star) > 0)[0]
-        z_hat = z[mask_inner_prod]
-
-        partial_results["Z_hat"] = z_hat
-        partial_results["mask_inner_prod"] = mask_inner_prod
-        partial_results["K_10"] = k_10
-
-    def step_9_16(self, *, partial_results, kernel_function, y):
-        """
-        Implements steps 9-16 of the paper.
-
-        Args:
-            np.arrays: the constants and partial_results used in the paper
-
-        Returns:
-            np.array: the updated partial_results
-        """
-        # step 8
-        # this step is not used for anything, the identified clusters are
-        # only used in step 13 of the paper, however, the values set
-        # (M_plus^c) are overwritten in step 3 of the next iteration
-
-        if partial_results["Z_hat"].shape[0] == 0:
-            raise ValueError("Z_hat is empty")
-
-        x_minus = partial_results["X_minus"]
-        x_plus_hat = partial_results["X_plus_hat"]
-        k = partial_results["K"]  # pylint: disable=invalid-name
-        k_10 = partial_results["K_10"]
-        l_minus = partial_results["l_minus"]
-        z_hat = partial_results["Z_hat"]
-        mask_inner_prod = partial_results["mask_inner_prod"]
-
-        # step 9
-        x_plus_hat = np.vstack([x_plus_hat, z_hat])
-
-        # step 11 - 16
-        # these steps have been reorganized a bit for efficient
-        # calculations
-
-        pairwd = pairwise_distances(z_hat, z_hat, metric=kernel_function)
-        k = np.block(
-            [
-                [k, k_10[mask_inner_prod].T],  # pylint: disable=invalid-name
-                [k_10[mask_inner_prod], pairwd],
-            ]
-        )
-
-        k_minus = k[:, :l_minus]
-        k_plus = k[:, l_minus:]
-
-        # step 10
-        X = np.vstack([x_minus, x_plus_hat])
-        y = np.hstack([y, np.repeat(self.min_label, len(z_hat))])
-
-        partial_results["X_plus_hat"] = x_plus_hat
-        partial_results["K"] = k
-        partial_results["K_minus"] = k_minus
-        partial_results["K_plus"] = k_plus
-        partial_results["l_plus"] = len(x_plus_hat)
-        partial_results["l_new"] = len(partial_results["Z_hat"])
-
-        return X, y
-
-    def solve(
-        self, A, b  # pylint: disable=invalid-name  # pylint: disable=invalid-name
-    ):
-        """
-        Solve a linear equation and throw exception if doesnt work.
-
-        Args:
-            A (np.array): the coefficients
-            b (np.array): the right hand side
-
-        Returns:
-            np.array: the solution
-        """
-        try:
-            return np.linalg.solve(A, b)
-        except LinAlgError as exc:
-            raise ADGSingularMatrixException() from exc
-
-    def check_early_stopping(self, fraction):
-        """
-        Checking the early stopping condition.
-        """
-        if fraction < 0.01:
-            raise ValueError("Early stopping.")
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # Implementation of the technique, following the steps and notations
-        # of the paper
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        q = n_to_sample  # pylint: disable=invalid-name
-
-        if q == 0:
-            return self.return_copies(X, y, "no need for sampling")
-
-        # instantiating the proper kernel function, the parameter of the RBF
-        # is supposed to be the denominator in the Gaussian
-        kernel_function = generate_kernel_function(self.kernel)
-
-        # Initial evaluation of the partial_results
-        # M_plus is not updated as it is not used
-        # the partial_results dict acts like a dataclass to reduce the clutter
-        # of passing around dozens of arrays
-        X_orig, y_orig = X, y  # pylint: disable=invalid-name
-        partial_results, X, y = evaluate_matrices(
-            X,
-            y,
-            kernel=kernel_function,
-            maj_label=self.maj_label,
-            min_label=self.min_label,
-        )
-
-        # The computing of N matrix is factored into two steps, computing
-        # N_plus and N_minus this is used to improve efficiency
-        partial_results = self.initialize_matrices(partial_results=partial_results)
-
-        total_added = 0
-
-        alpha_star = None
-
-        q = q * 2  # pylint: disable=invalid-name
-
-        try:
-            # executing the sample generation
-            while q > 1:
-                q = int(q / 2)  # pylint: disable=invalid-name
-
-                _logger.info(
-                    "%s: Starting iteration with q=%d", self.__class__.__name__, q
-                )
-
-                A, b = self.step_1_2_3_4(  # pylint: disable=invalid-name
-                    partial_results=partial_results, X=X
-                )
-
-                alpha_star = self.solve(A, b)
-
-                self.step_5_6_7(
-                    partial_results=partial_results,
-                    q=q,
-                    X=X,
-                    kernel_function=kernel_function,
-                    alpha_star=alpha_star,
-                )
-
-                _logger.info(
-                    "%s: number of vectors added: %d/%d",
-                    self.__class__.__name__,
-                    len(partial_results["Z_hat"]),
-                    q,
-                )
-
-                X, y = self.step_9_16(
-                    partial_results=partial_results,
-                    kernel_function=kernel_function,
-                    y=y,
-                )
-
-                total_added = total_added + len(partial_results["Z_hat"])
-
-                self.check_early_stopping(len(partial_results["Z_hat"]) / total_added)
-
-                partial_results = self.update_partial_results(
-                    partial_results=partial_results
-                )
-
-        except ADGSingularMatrixException:
-            n_components = int(X.shape[1] / 2)
-            if n_components > 0:
-                return self.sample_with_n_components(X_orig, y_orig, n_components)
-
-            return self.return_copies(
-                X_orig, y_orig, "cannot reduce dimensionality any more"
-            )
-        except ValueError as exc:
-            _logger.info(
-                "%s: stopping the iteration because of %s",
-                self.__class__.__name__,
-                str(exc),
-            )
-
-        return self.extend(X_orig, y_orig, X)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "kernel": self.kernel,
-            "lam": self.lam,
-            "mu": self.mu,
-            "k": self.k,
-            "gamma": self.gamma,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the ADG method.
+"""
+
+import warnings
+
+import numpy as np
+from numpy.linalg import LinAlgError
+
+from sklearn.decomposition import PCA
+from sklearn.cluster import KMeans
+from sklearn.mixture import GaussianMixture
+from sklearn.metrics import pairwise_distances
+
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["ADG"]
+
+
+def bic_score(kmeans, X):
+    """
+    Compute BIC score for clustering
+
+    Args:
+        kmeans (sklearn.KMeans): kmeans object
+        X (np.array):  clustered data
+
+    Returns:
+        float: bic value
+
+    Inspired by https://stats.stackexchange.com/questions/90769/
+                        using-bic-to-estimate-the-number-of-k-in-kmeans
+    """
+
+    # extract descriptors of the clustering
+    cluster_centers = kmeans.cluster_centers_
+    # n_clusters = kmeans.n_clusters
+    n_clusters = np.unique(kmeans.labels_).shape[0]
+    n_in_clusters = np.bincount(kmeans.labels_)
+    n_samples, n_dim = X.shape
+
+    # compute variance for all clusters beforehand
+
+    def sum_norm_2(idx):
+        return np.sum(
+            np.linalg.norm(X[kmeans.labels_ == idx] - cluster_centers[idx]) ** 2
+        )
+
+    cluster_variances = [sum_norm_2(i) for i in range(n_clusters)]
+    term_0 = (1.0) / ((n_samples - n_clusters) * n_dim)
+    term_1 = np.sum(cluster_variances)
+    clustering_variance = term_0 * term_1
+
+    const_term = 0.5 * n_clusters * np.log(n_samples) * (n_dim + 1)
+
+    def bic_comp(idx):
+        term_0 = n_in_clusters[idx] * np.log(n_in_clusters[idx])
+        term_1 = n_in_clusters[idx] * np.log(n_samples)
+        if clustering_variance == 0:
+            return np.inf
+        term_2 = ((n_in_clusters[idx] * n_dim) / 2) * np.log(
+            2 * np.pi * clustering_variance
+        )
+        term_3 = (n_in_clusters[idx] - 1) * n_dim / 2
+
+        return term_0 - term_1 - term_2 - term_3
+
+    bic = (
+        np.sum([bic_comp(idx) for idx in range(n_clusters) if n_in_clusters[idx] > 0])
+        - const_term
+    )
+
+    return bic
+
+
+def xmeans(X, rng=(1, 10), random_state=None):
+    """
+    Clustering with BIC based n_cluster selection
+
+    Args:
+        X (np.array): data to cluster
+        rng (tuple): lower and upper bound on the number of clusters
+        random_state (int/None): random state to use
+
+    Returns:
+        sklearn.KMeans: clustering with lowest BIC score
+    """
+    best_bic = np.inf
+    best_clustering = None
+
+    # do clustering for all n_clusters in the specified range
+    for n_clusters in range(rng[0], min([rng[1], len(X)])):
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            kmeans = KMeans(n_clusters=n_clusters, random_state=random_state, n_init='auto').fit(X)
+
+        bic = bic_score(kmeans, X)
+        if best_clustering is None or bic < best_bic:
+            best_bic = bic
+            best_clustering = kmeans
+
+    return best_clustering
+
+
+def xgmeans(X, rng=(1, 10), random_state=None):
+    """
+    Gaussian mixture with BIC to select the optimal number
+    of components
+
+    Args:
+        X (np.array): data to cluster
+        rng (tuple): lower and upper bound on the number of components
+        random_state (int/None): random state to use
+
+    Returns:
+        sklearn.GaussianMixture: Gaussian mixture model with the
+                                    lowest BIC score
+    """
+    best_bic = np.inf
+    best_mixture = None
+
+    # do model fitting for all n_components in the specified range
+    for n_components in range(rng[0], min([rng[1], len(X)])):
+        gmm = GaussianMixture(n_components=n_components, random_state=random_state).fit(
+            X
+        )
+        bic = gmm.bic(X)
+        if bic < best_bic:
+            best_bic = bic
+            best_mixture = gmm
+
+    return best_mixture
+
+
+def evaluate_matrices(X, y, kernel=np.inner, maj_label=0, min_label=1):
+    """
+    The function evaluates the partial_results specified in the method.
+
+    Args:
+        X (np.array): features
+        y (np.array): target labels
+        kernel (function): the kernel function to be used
+
+    Returns:
+        np.array, np.array, int, int, np.array, np.array,
+        np.array, np.array, np.array
+        np.array, np.array, np.array, np.array, np.array:
+            X_minux, X_plus, l_minus, l_plus, X, y, K, M_plus, M_minus,
+            M, K_plus, K_minus, N_plus, n_minus using the notations of
+            the paper, X and y are ordered by target labels
+    """
+    x_minus = X[y == maj_label]
+    x_plus = X[y == min_label]
+
+    X = np.vstack([x_minus, x_plus])
+    y = np.hstack(
+        [np.array([maj_label] * len(x_minus)), np.array([min_label] * len(x_plus))]
+    )
+
+    k = pairwise_distances(X, X, metric=kernel)  # pylint: disable=invalid-name
+    m_plus = np.mean(k[:, len(x_minus) :], axis=1)
+    m_minus = np.mean(k[:, : len(x_minus)], axis=1)
+    m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
+
+    k_minus = k[:, : len(x_minus)]
+    k_plus = k[:, len(x_minus) :]
+
+    partial_results = {
+        "X_minus": x_minus,
+        "X_plus": x_plus,
+        "K": k,
+        "M_plus": m_plus,
+        "M_minus": m_minus,
+        "M": m,
+        "K_plus": k_plus,
+        "K_minus": k_minus,
+        "l_minus": len(x_minus),
+        "l_plus": len(x_plus),
+    }
+
+    return (partial_results, X, y)
+
+
+def generate_kernel_function(specification):
+    """
+    Generate the kernel function.
+
+    Args:
+        specification (str): the kernel specification
+
+    Returns:
+        callable: the kernel function
+    """
+    if specification == "inner":
+        kernel_function = np.inner
+    else:
+        kernel_function = None
+        specs = specification.split("_")
+        if specs[0] == "rbf":
+            bandwidth = float(specs[1])
+
+            def kernel_function(x_vector, y_vector):
+                norm = np.linalg.norm(x_vector - y_vector)
+                return np.exp(-(norm**2) / bandwidth)
+
+    return kernel_function
+
+
+class ADGSingularMatrixException(Exception):
+    """
+    Exception indicating a singular matrix problem.
+    """
+
+
+class ADG(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{adg,
+                    author = {Pourhabib, A. and Mallick, Bani K. and Ding, Yu},
+                    year = {2015},
+                    month = {16},
+                    pages = {2695--2724},
+                    title = {A Novel Minority Cloning Technique for
+                                Cost-Sensitive Learning},
+                    volume = {16},
+                    journal = {Journal of Machine Learning Research}
+                    }
+
+    Notes:
+        * This method has a lot of parameters, it becomes fairly hard to
+            cross-validate thoroughly.
+        * Fails if matrix is singular when computing alpha_star, fixed
+            by PCA.
+        * Singularity might be caused by repeating samples.
+        * Maintaining the kernel matrix becomes unfeasible above a couple
+            of thousand vectors.
+    """
+
+    categories = [OverSampling.cat_extensive, OverSampling.cat_uses_clustering]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        kernel="inner",
+        lam=1.0,
+        mu=1.0,
+        k=12,
+        gamma=1.0,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            kernel (str): 'inner'/'rbf_x', where x is a float, the bandwidth
+            lam (float): lambda parameter of the method
+            mu (float): mu parameter of the method
+            k (int): number of samples to generate in each iteration
+            gamma (float): gamma parameter of the method
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state, checks=None)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+
+        if kernel != "inner" and not kernel.startswith("rbf"):
+            raise ValueError(
+                f"{self.__class__.__name__}: Kernel function " f"{kernel} not supported"
+            )
+        if kernel.startswith("rbf"):
+            par = float(kernel.split("_")[-1])
+            if par <= 0.0:
+                raise ValueError(
+                    f"{self.__class__.__name__}: Kernel parameter "
+                    f"{par} is not supported"
+                )
+
+        self.check_greater(lam, "lam", 0)
+        self.check_greater(mu, "mu", 0)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(gamma, "gamma", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.kernel = kernel
+        self.lam = lam
+        self.mu = mu  # pylint: disable=invalid-name
+        self.k = k  # pylint: disable=invalid-name
+        self.gamma = gamma
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "kernel": ["inner", "rbf_0.5", "rbf_1.0", "rbf_2.0"],
+            "lam": [1.0, 2.0],
+            "mu": [1.0, 2.0],
+            "k": [12],
+            "gamma": [1.0, 2.0],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def initialize_matrices(self, *, partial_results):
+        """
+        Initializes the base partial_results.
+
+        Args:
+            np.arrays by names
+
+        Returns:
+            np.arrays: the initialized partial_results
+        """
+        l_plus = partial_results["l_plus"]
+        k_plus = partial_results["K_plus"]
+        k_minus = partial_results["K_minus"]
+        x_plus = partial_results["X_plus"]
+        x_minus = partial_results["X_minus"]
+
+        k_plus2 = np.dot(k_plus, k_plus.T)
+        k_plus_sum = np.sum(k_plus, axis=1)
+        k_plus_diad = np.outer(k_plus_sum, k_plus_sum) / l_plus
+
+        k_minus2 = np.dot(k_minus, k_minus.T)
+        k_minus_sum = np.sum(k_minus, axis=1)
+        k_minus_diad = np.outer(k_minus_sum, k_minus_sum) / partial_results["l_minus"]
+
+        n = (
+            k_plus2 - k_plus_diad + k_minus2 - k_minus_diad
+        )  # pylint: disable=invalid-name
+
+        x_plus_hat = x_plus.copy()
+
+        partial_results["K_plus2"] = k_plus2
+        partial_results["K_plus_sum"] = k_plus_sum
+        partial_results["K_minus2"] = k_minus2
+        partial_results["K_minus_sum"] = k_minus_sum
+        partial_results["N"] = n
+        partial_results["X_plus_hat"] = x_plus_hat
+        partial_results["l_minus"] = len(x_minus)
+
+        return partial_results
+
+    def sample_with_n_components(self, X, y, n_components):
+        """
+        Rerun the sampling in a lower dimensional space.
+
+        Args:
+            X (np.array): features
+            y (np.array): targets
+            n_components (int): dimensionality of the feature space
+
+        Returns:
+            np.array, np.array: the resampled X and y
+        """
+        _logger.warning(
+            "%s: reducing dimensionality to %d", self.__class__.__name__, n_components
+        )
+        # if n_components == 0:
+        #    return None, None
+
+        pca = PCA(n_components=n_components).fit(X)
+
+        x_trans = pca.transform(X)
+
+        adg = ADG(
+            proportion=self.proportion,
+            kernel=self.kernel,
+            lam=self.lam,
+            mu=self.mu,
+            k=self.k,
+            gamma=self.gamma,
+            random_state=self._random_state_init,
+        )
+
+        X_samp, y_samp = adg.sample(x_trans, y)
+
+        # the original vectors are kept, only the new ones are mapped back
+        samples = pca.inverse_transform(X_samp[len(X) :])
+
+        return np.vstack([X, samples]), y_samp
+
+    def extend(self, X, y, X_all):
+        """
+        Extend the original dataset by the generated samples.
+
+        Args:
+            X (np.array): the original features
+            y (np.array): the original target labels
+            X_all (np.array): the reordered features, the generated samples
+                                being the last ones
+
+        Returns:
+            np.array, np.array: the extended dataset
+        """
+        samples = X_all[len(X) :]
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def update_partial_results(self, *, partial_results):
+        """
+        Update partial_results.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        # M_plus is not updated as it is not used
+
+        k_plus = partial_results["K_plus"]
+        k_minus = partial_results["K_minus"]
+        k_minus2 = partial_results["K_minus2"]
+        k_plus2 = partial_results["K_plus2"]
+        l_new = partial_results["l_new"]
+
+        m_plus = np.mean(k_plus, axis=1)
+        m_minus = np.mean(k_minus, axis=1)
+
+        # step 13 is already involved in the core of the loop
+        m = np.dot(m_minus - m_plus, m_minus - m_plus)  # pylint: disable=invalid-name
+
+        corner = np.dot(k_minus[:-l_new:], k_minus[-l_new:].T)
+        k_minus2 = np.block(
+            [
+                [k_minus2, corner],
+                [corner.T, np.dot(k_minus[-l_new:], k_minus[-l_new:].T)],
+            ]
+        )
+        k_minus_sum = m_minus * len(k_minus)
+
+        k_plus2 = k_plus2 + np.dot(k_plus[:-l_new, l_new:], k_plus[:-l_new, l_new:].T)
+
+        corner = np.dot(k_plus[:-l_new], k_plus[-l_new:].T)
+
+        k_plus2 = np.block(
+            [[k_plus2, corner], [corner.T, np.dot(k_plus[-l_new:], k_plus[-l_new:].T)]]
+        )
+
+        k_plus_sum = m_plus * len(k_plus)
+
+        n = (
+            k_plus2
+            - np.outer(
+                k_plus_sum / partial_results["l_plus"],  # pylint: disable=invalid-name
+                k_plus_sum,
+            )
+            + k_minus2
+            - np.outer(k_minus_sum / partial_results["l_minus"], k_minus_sum)
+        )
+
+        partial_results["M_plus"] = m_plus
+        partial_results["M_minus"] = m_minus
+        partial_results["M"] = m
+        partial_results["K_minus2"] = k_minus2
+        partial_results["K_minus_sum"] = k_minus_sum
+        partial_results["K_plus2"] = k_plus2
+        partial_results["K_plus_sum"] = k_plus_sum
+        partial_results["N"] = n
+
+        return partial_results
+
+    def determine_a(self, *, partial_results, k_c, lam_c, mu_c):
+        """
+        Determine the matrix A
+
+        Args:
+            the quantities required for A
+
+        Returns:
+            np.array: the matrix A
+        """
+        m = partial_results["M"]  # pylint: disable=invalid-name
+        n = partial_results["N"]  # pylint: disable=invalid-name
+        k = partial_results["K"]  # pylint: disable=invalid-name
+
+        # step 3, 4
+        omega = -np.sum(
+            [k_c[i] * (lam_c[i]) ** 2 / (4 * mu_c[i] ** 2) for i in range(len(k_c))]
+        )
+        A = (m - self.gamma * n) - omega * k  # pylint: disable=invalid-name
+
+        return A
+
+    def determine_b(self, *, partial_results, k_c, lam_c, X, clusters):
+        """
+        Determine the vector b
+
+        Args:
+            the quantities required for vector b
+
+        Returns:
+            np.array: the vector b
+        """
+        x_minus = partial_results["X_minus"]
+        k = partial_results["K"]  # pylint: disable=invalid-name
+        m_minus = partial_results["M_minus"]
+
+        # step 3, 4
+        nu_c = -0.5 * k_c * lam_c
+        m_plus_c = [
+            np.mean(k[:, np.arange(len(x_minus), len(X))[clusters.labels_ == i]])
+            for i in range(len(k_c))
+        ]
+
+        b = np.sum(
+            [
+                (m_minus - m_plus_c[i]) * nu_c[i]  # pylint: disable=invalid-name
+                for i in range(len(k_c))
+            ],
+            axis=0,
+        )
+
+        return b
+
+    def step_1_2_3_4(self, *, partial_results, X):
+        """
+        Implements steps 1, 2, 3 and 4 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        x_plus_hat = partial_results["X_plus_hat"]
+
+        # step 1
+        clusters = xmeans(x_plus_hat, random_state=self._random_state_init)
+        l_c = np.array(
+            [np.sum(clusters.labels_ == i) for i in range(clusters.n_clusters)]
+        )
+
+        # step 2
+        k_c = ((1.0 / l_c) / (np.sum(1.0 / l_c)) * self.k).astype(int)
+        k_c[k_c == 0] = 1
+        lam_c, mu_c = self.lam / l_c, self.mu / l_c
+
+        return (
+            self.determine_a(
+                partial_results=partial_results, k_c=k_c, lam_c=lam_c, mu_c=mu_c
+            ),
+            self.determine_b(
+                partial_results=partial_results,
+                k_c=k_c,
+                lam_c=lam_c,
+                X=X,
+                clusters=clusters,
+            ),
+        )
+
+    def step_5_6_7(self, *, partial_results, q, X, kernel_function, alpha_star):
+        """
+        Implements steps 5, 6, 7 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        x_plus = partial_results["X_plus"]
+
+        # step 5
+        mixture = xgmeans(x_plus, random_state=self._random_state_init)
+
+        # step 6
+        z = mixture.sample(q)[0]  # pylint: disable=invalid-name
+
+        # step 7
+        # computing the kernel matrix of generated samples with all samples
+        k_10 = pairwise_distances(z, X, metric=kernel_function)
+        mask_inner_prod = np.where(np.inner(k_10, alpha_star) > 0)[0]
+        z_hat = z[mask_inner_prod]
+
+        partial_results["Z_hat"] = z_hat
+        partial_results["mask_inner_prod"] = mask_inner_prod
+        partial_results["K_10"] = k_10
+
+    def step_9_16(self, *, partial_results, kernel_function, y):
+        """
+        Implements steps 9-16 of the paper.
+
+        Args:
+            np.arrays: the constants and partial_results used in the paper
+
+        Returns:
+            np.array: the updated partial_results
+        """
+        # step 8
+        # this step is not used for anything, the identified clusters are
+        # only used in step 13 of the paper, however, the values set
+        # (M_plus^c) are overwritten in step 3 of the next iteration
+
+        if partial_results["Z_hat"].shape[0] == 0:
+            raise ValueError("Z_hat is empty")
+
+        x_minus = partial_results["X_minus"]
+        x_plus_hat = partial_results["X_plus_hat"]
+        k = partial_results["K"]  # pylint: disable=invalid-name
+        k_10 = partial_results["K_10"]
+        l_minus = partial_results["l_minus"]
+        z_hat = partial_results["Z_hat"]
+        mask_inner_prod = partial_results["mask_inner_prod"]
+
+        # step 9
+        x_plus_hat = np.vstack([x_plus_hat, z_hat])
+
+        # step 11 - 16
+        # these steps have been reorganized a bit for efficient
+        # calculations
+
+        pairwd = pairwise_distances(z_hat, z_hat, metric=kernel_function)
+        k = np.block(
+            [
+                [k, k_10[mask_inner_prod].T],  # pylint: disable=invalid-name
+                [k_10[mask_inner_prod], pairwd],
+            ]
+        )
+
+        k_minus = k[:, :l_minus]
+        k_plus = k[:, l_minus:]
+
+        # step 10
+        X = np.vstack([x_minus, x_plus_hat])
+        y = np.hstack([y, np.repeat(self.min_label, len(z_hat))])
+
+        partial_results["X_plus_hat"] = x_plus_hat
+        partial_results["K"] = k
+        partial_results["K_minus"] = k_minus
+        partial_results["K_plus"] = k_plus
+        partial_results["l_plus"] = len(x_plus_hat)
+        partial_results["l_new"] = len(partial_results["Z_hat"])
+
+        return X, y
+
+    def solve(
+        self, A, b  # pylint: disable=invalid-name  # pylint: disable=invalid-name
+    ):
+        """
+        Solve a linear equation and throw exception if doesnt work.
+
+        Args:
+            A (np.array): the coefficients
+            b (np.array): the right hand side
+
+        Returns:
+            np.array: the solution
+        """
+        try:
+            return np.linalg.solve(A, b)
+        except LinAlgError as exc:
+            raise ADGSingularMatrixException() from exc
+
+    def check_early_stopping(self, fraction):
+        """
+        Checking the early stopping condition.
+        """
+        if fraction < 0.01:
+            raise ValueError("Early stopping.")
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # Implementation of the technique, following the steps and notations
+        # of the paper
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        q = n_to_sample  # pylint: disable=invalid-name
+
+        if q == 0:
+            return self.return_copies(X, y, "no need for sampling")
+
+        # instantiating the proper kernel function, the parameter of the RBF
+        # is supposed to be the denominator in the Gaussian
+        kernel_function = generate_kernel_function(self.kernel)
+
+        # Initial evaluation of the partial_results
+        # M_plus is not updated as it is not used
+        # the partial_results dict acts like a dataclass to reduce the clutter
+        # of passing around dozens of arrays
+        X_orig, y_orig = X, y  # pylint: disable=invalid-name
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
+
+        # The computing of N matrix is factored into two steps, computing
+        # N_plus and N_minus this is used to improve efficiency
+        partial_results = self.initialize_matrices(partial_results=partial_results)
+
+        total_added = 0
+
+        alpha_star = None
+
+        q = q * 2  # pylint: disable=invalid-name
+
+        try:
+            # executing the sample generation
+            while q > 1:
+                q = int(q / 2)  # pylint: disable=invalid-name
+
+                _logger.info(
+                    "%s: Starting iteration with q=%d", self.__class__.__name__, q
+                )
+
+                A, b = self.step_1_2_3_4(  # pylint: disable=invalid-name
+                    partial_results=partial_results, X=X
+                )
+
+                alpha_star = self.solve(A, b)
+
+                self.step_5_6_7(
+                    partial_results=partial_results,
+                    q=q,
+                    X=X,
+                    kernel_function=kernel_function,
+                    alpha_star=alpha_star,
+                )
+
+                _logger.info(
+                    "%s: number of vectors added: %d/%d",
+                    self.__class__.__name__,
+                    len(partial_results["Z_hat"]),
+                    q,
+                )
+
+                X, y = self.step_9_16(
+                    partial_results=partial_results,
+                    kernel_function=kernel_function,
+                    y=y,
+                )
+
+                total_added = total_added + len(partial_results["Z_hat"])
+
+                self.check_early_stopping(len(partial_results["Z_hat"]) / total_added)
+
+                partial_results = self.update_partial_results(
+                    partial_results=partial_results
+                )
+
+        except ADGSingularMatrixException:
+            n_components = int(X.shape[1] / 2)
+            if n_components > 0:
+                return self.sample_with_n_components(X_orig, y_orig, n_components)
+
+            return self.return_copies(
+                X_orig, y_orig, "cannot reduce dimensionality any more"
+            )
+        except ValueError as exc:
+            _logger.info(
+                "%s: stopping the iteration because of %s",
+                self.__class__.__name__,
+                str(exc),
+            )
+
+        return self.extend(X_orig, y_orig, X)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "kernel": self.kernel,
+            "lam": self.lam,
+            "mu": self.mu,
+            "k": self.k,
+            "gamma": self.gamma,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index 6622358..4e77557 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -1,324 +1,324 @@
-"""
-This module implements the DEAGO method.
-"""
-
-import os
-import random
-import warnings
-
-warnings.simplefilter("ignore", DeprecationWarning)
-
-import numpy as np  # pylint: disable=wrong-import-position
-from sklearn.preprocessing import (  # pylint: disable=wrong-import-position
-    StandardScaler,
-)
-
-from ..base import (  # pylint: disable=wrong-import-position
-    OverSampling,
-    coalesce,
-    coalesce_dict,
-)
-from ._smote import SMOTE  # pylint: disable=wrong-import-position
-
-from .._logger import logger  # pylint: disable=wrong-import-position
-
-_logger = logger
-
-__all__ = ["DEAGO"]
-
-
-class DEAGO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{deago,
-                            author={Bellinger, C. and Japkowicz, N. and
-                                        Drummond, C.},
-                            booktitle={2015 IEEE 14th International
-                                        Conference on Machine Learning
-                                        and Applications (ICMLA)},
-                            title={Synthetic Oversampling for Advanced
-                                        Radioactive Threat Detection},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={948-953},
-                            keywords={radioactive waste;advanced radioactive
-                                        threat detection;gamma-ray spectral
-                                        classification;industrial nuclear
-                                        facilities;Health Canadas national
-                                        monitoring networks;Vancouver 2010;
-                                        Isotopes;Training;Monitoring;
-                                        Gamma-rays;Machine learning algorithms;
-                                        Security;Neural networks;machine
-                                        learning;classification;class
-                                        imbalance;synthetic oversampling;
-                                        artificial neural networks;
-                                        autoencoders;gamma-ray spectra},
-                            doi={10.1109/ICMLA.2015.58},
-                            ISSN={},
-                            month={Dec}}
-
-    Notes:
-        * There is no hint on the activation functions and amounts of noise.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_density_estimation,
-        OverSampling.cat_application,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        e=100,  # pylint: disable=invalid-name
-        h=0.3,  # pylint: disable=invalid-name
-        sigma=0.1,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            e (int): number of epochs
-            h (float): fraction of number of hidden units
-            sigma (float): training noise
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0.0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater(e, "e", 1)
-        self.check_greater(h, "h", 0)
-        self.check_greater(sigma, "sigma", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.encoder_params = {"e": e, "h": h, "sigma": sigma}
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "e": [40],
-            "h": [0.1, 0.2, 0.3, 0.4, 0.5],
-            "sigma": [0.05, 0.1, 0.2],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def get_model(self, n_dim, encoding_d):
-        """
-        Return the model
-
-        Args:
-            n_dim (int): the number of dimensions
-            encoding_d (int): the number of encoding dimensions
-
-        Returns:
-            tensorflow.keras.models.Model, list: the model and the callbacks
-        """
-        # this import is here to prevent the heavy importing of tensorflow when not needed
-        from tensorflow.keras.layers import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            Input,
-            Dense,
-            GaussianNoise,
-        )
-        from tensorflow.keras.models import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            Model,
-        )
-        from tensorflow.keras.callbacks import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
-            EarlyStopping,
-        )
-
-        # constructing the autoencoder
-        callbacks = [EarlyStopping(monitor="val_loss", patience=2)]
-
-        input_layer = Input(shape=(n_dim,))
-        noise = GaussianNoise(self.encoder_params["sigma"])(input_layer)
-        encoded = Dense(encoding_d, activation="relu")(noise)
-        decoded = Dense(n_dim, activation="linear")(encoded)
-
-        dae = Model(input_layer, decoded)
-
-        return dae, callbacks
-
-    def execute_autoencoder(
-        self,
-        X_min_normalized,  # pylint: disable=invalid-name
-        X_init_normalized,  # pylint: disable=invalid-name
-    ):
-        """
-        Execute the autoencoder.
-
-        Args:
-            X_min_normalized (np.array): the normalized minority samples
-            X_init_normalized (np.array): the normalized generated samples
-
-        Returns:
-            np.array: the denoised samples (all)
-        """
-
-        n_dim = X_min_normalized.shape[1]
-        encoding_d = np.max([2, int(np.rint(n_dim * self.encoder_params["h"]))])
-
-        _logger.info(
-            "%s: Input dimension: %d, encoding dimension: %d",
-            self.__class__.__name__,
-            n_dim,
-            encoding_d,
-        )
-
-        warnings.simplefilter("ignore", DeprecationWarning)
-
-        dae, callbacks = self.get_model(n_dim, encoding_d)
-
-        dae.compile(optimizer="adadelta", loss="mean_squared_error")
-        actual_epochs = np.max(
-            [self.encoder_params["e"], int(5000.0 / X_min_normalized.shape[0])]
-        )
-
-        if X_min_normalized.shape[0] > 10:
-            val_num = int(0.2 * X_min_normalized.shape[0])
-            X_min_train = X_min_normalized[:-val_num]  # pylint: disable=invalid-name
-            X_min_val = X_min_normalized[-val_num:]  # pylint: disable=invalid-name
-
-            dae.fit(
-                X_min_train,
-                X_min_train,
-                epochs=actual_epochs,
-                validation_data=(X_min_val, X_min_val),
-                callbacks=callbacks,
-                verbose=0,
-            )
-        else:
-            dae.fit(X_min_normalized, X_min_normalized, epochs=actual_epochs, verbose=0)
-
-        return dae.predict(X_init_normalized, verbose=0)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        warnings.simplefilter("ignore", DeprecationWarning)
-
-        # this import is here to prevent the heavy importing of tensorflow when not needed
-        import tensorflow as tf  # pylint: disable=wrong-import-position,import-outside-toplevel
-
-        os.environ["OMP_NUM_THREADS"] = f"{self.n_jobs}"
-        os.environ["TF_NUM_INTRAOP_THREADS"] = f"{self.n_jobs}"
-        os.environ["TF_NUM_INTEROP_THREADS"] = f"{self.n_jobs}"
-
-        tf.config.threading.set_inter_op_parallelism_threads(self.n_jobs)
-        tf.config.threading.set_intra_op_parallelism_threads(self.n_jobs)
-
-        tf.config.set_soft_device_placement(True)
-
-        os.environ["PYTHONHASHSEED"] = f"{self._random_state_init}"
-
-        # the global generators are restored after the sampling
-        global_states = random.getstate(), np.random.get_state()
-
-        random.seed(self._random_state_init)
-        np.random.seed(self._random_state_init)
-        tf.random.set_seed(self._random_state_init)
-
-        # sampling by smote
-        X_samp, _ = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        # samples to map to the manifold extracted by the autoencoder
-        X_init = X_samp[len(X) :]  # pylint: disable=invalid-name
-
-        # normalizing
-        X_min = X[y == self.min_label]
-        scaler = StandardScaler()
-        X_min_normalized = scaler.fit_transform(X_min)  # pylint: disable=invalid-name
-        X_init_normalized = scaler.transform(X_init)  # pylint: disable=invalid-name
-
-        # mapping the initial samples to the manifold
-        samples = scaler.inverse_transform(
-            self.execute_autoencoder(X_min_normalized, X_init_normalized)
-        )
-
-        random.setstate(global_states[0])
-        np.random.set_state(global_states[1])
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "e": self.encoder_params["e"],
-            "h": self.encoder_params["h"],
-            "sigma": self.encoder_params["sigma"],
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the DEAGO method.
+"""
+
+import os
+import random
+import warnings
+
+warnings.simplefilter("ignore", DeprecationWarning)
+
+import numpy as np  # pylint: disable=wrong-import-position
+from sklearn.preprocessing import (  # pylint: disable=wrong-import-position
+    StandardScaler,
+)
+
+from ..base import (  # pylint: disable=wrong-import-position
+    OverSampling,
+    coalesce,
+    coalesce_dict,
+)
+from ._smote import SMOTE  # pylint: disable=wrong-import-position
+
+from .._logger import logger  # pylint: disable=wrong-import-position
+
+_logger = logger
+
+__all__ = ["DEAGO"]
+
+
+class DEAGO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{deago,
+                            author={Bellinger, C. and Japkowicz, N. and
+                                        Drummond, C.},
+                            booktitle={2015 IEEE 14th International
+                                        Conference on Machine Learning
+                                        and Applications (ICMLA)},
+                            title={Synthetic Oversampling for Advanced
+                                        Radioactive Threat Detection},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={948-953},
+                            keywords={radioactive waste;advanced radioactive
+                                        threat detection;gamma-ray spectral
+                                        classification;industrial nuclear
+                                        facilities;Health Canadas national
+                                        monitoring networks;Vancouver 2010;
+                                        Isotopes;Training;Monitoring;
+                                        Gamma-rays;Machine learning algorithms;
+                                        Security;Neural networks;machine
+                                        learning;classification;class
+                                        imbalance;synthetic oversampling;
+                                        artificial neural networks;
+                                        autoencoders;gamma-ray spectra},
+                            doi={10.1109/ICMLA.2015.58},
+                            ISSN={},
+                            month={Dec}}
+
+    Notes:
+        * There is no hint on the activation functions and amounts of noise.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_density_estimation,
+        OverSampling.cat_application,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        e=100,  # pylint: disable=invalid-name
+        h=0.3,  # pylint: disable=invalid-name
+        sigma=0.1,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            e (int): number of epochs
+            h (float): fraction of number of hidden units
+            sigma (float): training noise
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0.0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater(e, "e", 1)
+        self.check_greater(h, "h", 0)
+        self.check_greater(sigma, "sigma", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.encoder_params = {"e": e, "h": h, "sigma": sigma}
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "e": [40],
+            "h": [0.1, 0.2, 0.3, 0.4, 0.5],
+            "sigma": [0.05, 0.1, 0.2],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def get_model(self, n_dim, encoding_d):
+        """
+        Return the model
+
+        Args:
+            n_dim (int): the number of dimensions
+            encoding_d (int): the number of encoding dimensions
+
+        Returns:
+            tensorflow.keras.models.Model, list: the model and the callbacks
+        """
+        # this import is here to prevent the heavy importing of tensorflow when not needed
+        from tensorflow.keras.layers import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            Input,
+            Dense,
+            GaussianNoise,
+        )
+        from tensorflow.keras.models import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            Model,
+        )
+        from tensorflow.keras.callbacks import (  # pylint: disable=wrong-import-position,no-name-in-module,import-outside-toplevel
+            EarlyStopping,
+        )
+
+        # constructing the autoencoder
+        callbacks = [EarlyStopping(monitor="val_loss", patience=2)]
+
+        input_layer = Input(shape=(n_dim,))
+        noise = GaussianNoise(self.encoder_params["sigma"])(input_layer)
+        encoded = Dense(encoding_d, activation="relu")(noise)
+        decoded = Dense(n_dim, activation="linear")(encoded)
+
+        dae = Model(input_layer, decoded)
+
+        return dae, callbacks
+
+    def execute_autoencoder(
+        self,
+        X_min_normalized,  # pylint: disable=invalid-name
+        X_init_normalized,  # pylint: disable=invalid-name
+    ):
+        """
+        Execute the autoencoder.
+
+        Args:
+            X_min_normalized (np.array): the normalized minority samples
+            X_init_normalized (np.array): the normalized generated samples
+
+        Returns:
+            np.array: the denoised samples (all)
+        """
+
+        n_dim = X_min_normalized.shape[1]
+        encoding_d = np.max([2, int(np.rint(n_dim * self.encoder_params["h"]))])
+
+        _logger.info(
+            "%s: Input dimension: %d, encoding dimension: %d",
+            self.__class__.__name__,
+            n_dim,
+            encoding_d,
+        )
+
+        warnings.simplefilter("ignore", DeprecationWarning)
+
+        dae, callbacks = self.get_model(n_dim, encoding_d)
+
+        dae.compile(optimizer="adadelta", loss="mean_squared_error")
+        actual_epochs = np.max(
+            [self.encoder_params["e"], int(5000.0 / X_min_normalized.shape[0])]
+        )
+
+        if X_min_normalized.shape[0] > 10:
+            val_num = int(0.2 * X_min_normalized.shape[0])
+            X_min_train = X_min_normalized[:-val_num]  # pylint: disable=invalid-name
+            X_min_val = X_min_normalized[-val_num:]  # pylint: disable=invalid-name
+
+            dae.fit(
+                X_min_train,
+                X_min_train,
+                epochs=actual_epochs,
+                validation_data=(X_min_val, X_min_val),
+                callbacks=callbacks,
+                verbose=0,
+            )
+        else:
+            dae.fit(X_min_normalized, X_min_normalized, epochs=actual_epochs, verbose=0)
+
+        return dae.predict(X_init_normalized, verbose=0)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        warnings.simplefilter("ignore", DeprecationWarning)
+
+        # this import is here to prevent the heavy importing of tensorflow when not needed
+        import tensorflow as tf  # pylint: disable=wrong-import-position,import-outside-toplevel
+
+        os.environ["OMP_NUM_THREADS"] = f"{self.n_jobs}"
+        os.environ["TF_NUM_INTRAOP_THREADS"] = f"{self.n_jobs}"
+        os.environ["TF_NUM_INTEROP_THREADS"] = f"{self.n_jobs}"
+
+        tf.config.threading.set_inter_op_parallelism_threads(self.n_jobs)
+        tf.config.threading.set_intra_op_parallelism_threads(self.n_jobs)
+
+        tf.config.set_soft_device_placement(True)
+
+        os.environ["PYTHONHASHSEED"] = f"{self._random_state_init}"
+
+        # the global generators are restored after the sampling
+        global_states = random.getstate(), np.random.get_state()
+
+        random.seed(self._random_state_init)
+        np.random.seed(self._random_state_init)
+        tf.random.set_seed(self._random_state_init)
+
+        # sampling by smote
+        X_samp, _ = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        # samples to map to the manifold extracted by the autoencoder
+        X_init = X_samp[len(X) :]  # pylint: disable=invalid-name
+
+        # normalizing
+        X_min = X[y == self.min_label]
+        scaler = StandardScaler()
+        X_min_normalized = scaler.fit_transform(X_min)  # pylint: disable=invalid-name
+        X_init_normalized = scaler.transform(X_init)  # pylint: disable=invalid-name
+
+        # mapping the initial samples to the manifold
+        samples = scaler.inverse_transform(
+            self.execute_autoencoder(X_min_normalized, X_init_normalized)
+        )
+
+        random.setstate(global_states[0])
+        np.random.set_state(global_states[1])
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "e": self.encoder_params["e"],
+            "h": self.encoder_params["h"],
+            "sigma": self.encoder_params["sigma"],
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 876e53a..8d84e44 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -1,304 +1,304 @@
-"""
-This module implements the E_SMOTE method.
-"""
-
-import numpy as np
-
-from sklearn.svm import SVC
-from sklearn.tree import DecisionTreeClassifier
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["E_SMOTE"]
-
-
-class E_SMOTE(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{e_smote,
-                            author={Deepa, T. and Punithavalli, M.},
-                            booktitle={2011 3rd International Conference on
-                                        Electronics Computer Technology},
-                            title={An E-SMOTE technique for feature selection
-                                    in High-Dimensional Imbalanced Dataset},
-                            year={2011},
-                            volume={2},
-                            number={},
-                            pages={322-324},
-                            keywords={bioinformatics;data mining;pattern
-                                        classification;support vector machines;
-                                        E-SMOTE technique;feature selection;
-                                        high-dimensional imbalanced dataset;
-                                        data mining;bio-informatics;dataset
-                                        balancing;SVM classification;micro
-                                        array dataset;Feature extraction;
-                                        Genetic algorithms;Support vector
-                                        machines;Data mining;Machine learning;
-                                        Bioinformatics;Cancer;Imbalanced
-                                        dataset;Featue Selection;E-SMOTE;
-                                        Support Vector Machine[SVM]},
-                            doi={10.1109/ICECTECH.2011.5941710},
-                            ISSN={},
-                            month={April}}
-
-    Notes:
-        * This technique is basically unreproducible. I try to implement
-            something following the idea of applying some simple genetic
-            algorithm for optimization.
-        * In my best understanding, the technique uses evolutionary algorithms
-            for feature selection and then applies vanilla SMOTE on the
-            selected features only.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_dim_reduction,
-        OverSampling.cat_memetic,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        min_features=2,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors in the nearest neighbors
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            min_features (int): minimum number of features
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(min_features, "min_features", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.min_features = min_features
-        self.n_jobs = n_jobs
-
-        self.mask = None
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "min_features": [1, 2, 3],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def crossover(self, mask_a, mask_b, min_features):
-        """
-        Crossover operation for two masks
-
-        Args:
-            mask_a (np.array): binary mask 1
-            mask_b (np.array): binary mask 2
-
-        Returns:
-            np.array: the result of crossover
-        """
-        mask = mask_a.copy()
-        for idx, flag in enumerate(mask_b):
-            if self.random_state.randint(0, 2) == 0:
-                mask[idx] = flag
-
-        while np.sum(mask) < min_features:
-            mask[self.random_state.randint(len(mask))] = True
-
-        return mask
-
-    def mutate(self, mask_old, min_features):
-        """
-        Mutation operation for a mask
-
-        Args:
-            mask_old (np.array): binary mask
-
-        Returns:
-            np.array: the result of mutation
-        """
-        mask = mask_old.copy()
-        for idx, flag in enumerate(mask):
-            if self.random_state.randint(0, 2) == 0:
-                mask[idx] = not flag
-
-        while np.sum(mask) < min_features:
-            mask[self.random_state.randint(len(mask))] = True
-
-        return mask
-
-    def sample(self, X, y):
-        """
-        Sampling interface function, the feature mask always belongs to the
-        most recent sampling.
-
-        Args:
-            X (np.array): features
-            y (np.array): labels
-
-        Returns:
-            np.array, np.array: the oversampled dataset
-        """
-        self.mask = None
-        return super().sample(X, y)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        min_features = min(self.min_features, len(X[0]))
-
-        if len(X) < 800:
-            classifier = SVC(gamma="auto", random_state=self._random_state_init)
-        else:
-            classifier = DecisionTreeClassifier(
-                max_depth=4, random_state=self._random_state_init
-            )
-
-        # parameters of the evolutionary algorithm
-        n_generations = 50
-        n_population = 5
-
-        # creating initial mask
-        mask = np.repeat([False], X.shape[1])
-        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
-
-        # generating initial population
-        population = [[0, mask.copy()] for _ in range(n_population)]
-        for _ in range(n_generations):
-            # in each generation
-            for _ in range(n_population):
-                # for each element of a population
-                if self.random_state.randint(0, 2) == 0:
-                    # crossover
-                    i_0 = self.random_state.randint(n_population)
-                    i_1 = self.random_state.randint(n_population)
-                    mask = self.crossover(
-                        population[i_0][1], population[i_1][1], min_features
-                    )
-                else:
-                    # mutation
-                    idx = self.random_state.randint(n_population)
-                    mask = self.mutate(population[idx][1], min_features)
-                # evaluation
-                _logger.info(
-                    "%s evaluting mask selection with features %d/%d",
-                    self.__class__.__name__,
-                    np.sum(mask),
-                    len(mask),
-                )
-                classifier.fit(X[:, mask], y)
-                score = np.sum(y == classifier.predict(X[:, mask])) / len(y)
-                # appending the result to the population
-                population.append([score, mask])
-            # sorting the population in a reversed order and keeping the
-            # elements with the highest scores
-            population = sorted(population, key=lambda x: -x[0])[:n_population]
-
-        self.mask = population[0][1]
-        # resampling the population in the given dimensions
-
-        smote = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        )
-
-        return smote.sample(X[:, self.mask], y)
-
-    def preprocessing_transform(self, X):
-        """
-        Transform new data by the learnt transformation
-
-        Args:
-            X (np.array): new data
-
-        Returns:
-            np.array: transformed data
-        """
-        if self.mask is None:
-            # no features were selected as there was nothing to sample
-            return X.copy()
-
-        return X[:, self.mask]
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "min_features": self.min_features,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the E_SMOTE method.
+"""
+
+import numpy as np
+
+from sklearn.svm import SVC
+from sklearn.tree import DecisionTreeClassifier
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["E_SMOTE"]
+
+
+class E_SMOTE(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{e_smote,
+                            author={Deepa, T. and Punithavalli, M.},
+                            booktitle={2011 3rd International Conference on
+                                        Electronics Computer Technology},
+                            title={An E-SMOTE technique for feature selection
+                                    in High-Dimensional Imbalanced Dataset},
+                            year={2011},
+                            volume={2},
+                            number={},
+                            pages={322-324},
+                            keywords={bioinformatics;data mining;pattern
+                                        classification;support vector machines;
+                                        E-SMOTE technique;feature selection;
+                                        high-dimensional imbalanced dataset;
+                                        data mining;bio-informatics;dataset
+                                        balancing;SVM classification;micro
+                                        array dataset;Feature extraction;
+                                        Genetic algorithms;Support vector
+                                        machines;Data mining;Machine learning;
+                                        Bioinformatics;Cancer;Imbalanced
+                                        dataset;Featue Selection;E-SMOTE;
+                                        Support Vector Machine[SVM]},
+                            doi={10.1109/ICECTECH.2011.5941710},
+                            ISSN={},
+                            month={April}}
+
+    Notes:
+        * This technique is basically unreproducible. I try to implement
+            something following the idea of applying some simple genetic
+            algorithm for optimization.
+        * In my best understanding, the technique uses evolutionary algorithms
+            for feature selection and then applies vanilla SMOTE on the
+            selected features only.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_dim_reduction,
+        OverSampling.cat_memetic,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        min_features=2,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors in the nearest neighbors
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            min_features (int): minimum number of features
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(min_features, "min_features", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.min_features = min_features
+        self.n_jobs = n_jobs
+
+        self.mask = None
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "min_features": [1, 2, 3],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def crossover(self, mask_a, mask_b, min_features):
+        """
+        Crossover operation for two masks
+
+        Args:
+            mask_a (np.array): binary mask 1
+            mask_b (np.array): binary mask 2
+
+        Returns:
+            np.array: the result of crossover
+        """
+        mask = mask_a.copy()
+        for idx, flag in enumerate(mask_b):
+            if self.random_state.randint(0, 2) == 0:
+                mask[idx] = flag
+
+        while np.sum(mask) < min_features:
+            mask[self.random_state.randint(len(mask))] = True
+
+        return mask
+
+    def mutate(self, mask_old, min_features):
+        """
+        Mutation operation for a mask
+
+        Args:
+            mask_old (np.array): binary mask
+
+        Returns:
+            np.array: the result of mutation
+        """
+        mask = mask_old.copy()
+        for idx, flag in enumerate(mask):
+            if self.random_state.randint(0, 2) == 0:
+                mask[idx] = not flag
+
+        while np.sum(mask) < min_features:
+            mask[self.random_state.randint(len(mask))] = True
+
+        return mask
+
+    def sample(self, X, y):
+        """
+        Sampling interface function, the feature mask always belongs to the
+        most recent sampling.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.mask = None
+        return super().sample(X, y)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        min_features = min(self.min_features, len(X[0]))
+
+        if len(X) < 800:
+            classifier = SVC(gamma="auto", random_state=self._random_state_init)
+        else:
+            classifier = DecisionTreeClassifier(
+                max_depth=4, random_state=self._random_state_init
+            )
+
+        # parameters of the evolutionary algorithm
+        n_generations = 50
+        n_population = 5
+
+        # creating initial mask
+        mask = np.repeat([False], X.shape[1])
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
+
+        # generating initial population
+        population = [[0, mask.copy()] for _ in range(n_population)]
+        for _ in range(n_generations):
+            # in each generation
+            for _ in range(n_population):
+                # for each element of a population
+                if self.random_state.randint(0, 2) == 0:
+                    # crossover
+                    i_0 = self.random_state.randint(n_population)
+                    i_1 = self.random_state.randint(n_population)
+                    mask = self.crossover(
+                        population[i_0][1], population[i_1][1], min_features
+                    )
+                else:
+                    # mutation
+                    idx = self.random_state.randint(n_population)
+                    mask = self.mutate(population[idx][1], min_features)
+                # evaluation
+                _logger.info(
+                    "%s evaluting mask selection with features %d/%d",
+                    self.__class__.__name__,
+                    np.sum(mask),
+                    len(mask),
+                )
+                classifier.fit(X[:, mask], y)
+                score = np.sum(y == classifier.predict(X[:, mask])) / len(y)
+                # appending the result to the population
+                population.append([score, mask])
+            # sorting the population in a reversed order and keeping the
+            # elements with the highest scores
+            population = sorted(population, key=lambda x: -x[0])[:n_population]
+
+        self.mask = population[0][1]
+        # resampling the population in the given dimensions
+
+        smote = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        )
+
+        return smote.sample(X[:, self.mask], y)
+
+    def preprocessing_transform(self, X):
+        """
+        Transform new data by the learnt transformation
+
+        Args:
+            X (np.array): new data
+
+        Returns:
+            np.array: transformed data
+        """
+        if self.mask is None:
+            # no features were selected as there was nothing to sample
+            return X.copy()
+
+        return X[:, self.mask]
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "min_features": self.min_features,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 46d0f33..d0bc1ea 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -1,228 +1,228 @@
-"""
-This module implements the ISOMAP_Hybrid method.
-"""
-import warnings
-
-import numpy as np
-
-from sklearn.manifold import Isomap
-
-from ..config import suppress_external_warnings
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-from ..noise_removal import NeighborhoodCleaningRule
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["ISOMAP_Hybrid"]
-
-
-class ISOMAP_Hybrid(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @inproceedings{isomap_hybrid,
-                             author = {Gu, Qiong and Cai, Zhihua and Zhu, Li},
-                             title = {Classification of Imbalanced Data Sets by
-                                        Using the Hybrid Re-sampling Algorithm
-                                        Based on Isomap},
-                             booktitle = {Proceedings of the 4th International
-                                            Symposium on Advances in
-                                            Computation and Intelligence},
-                             series = {ISICA '09},
-                             year = {2009},
-                             isbn = {978-3-642-04842-5},
-                             location = {Huangshi, China},
-                             pages = {287--296},
-                             numpages = {10},
-                             doi = {10.1007/978-3-642-04843-2_31},
-                             acmid = {1691478},
-                             publisher = {Springer-Verlag},
-                             address = {Berlin, Heidelberg},
-                             keywords = {Imbalanced data set, Isomap, NCR,
-                                            Smote, re-sampling},
-                            }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_noise_removal,
-        OverSampling.cat_dim_reduction,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_components=3,
-        smote_n_neighbors=5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_components (int): number of components
-            smote_n_neighbors (int): number of neighbors in SMOTE sampling
-            n_jobs (int): number of parallel jobs
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(n_components, "n_components", 1)
-        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.isomap_params = {}
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.smote_n_neighbors = smote_n_neighbors
-        self.n_jobs = n_jobs
-
-        self.isomap = Isomap(
-            n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
-        )
-        self.isomap_fitted = False
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "n_components": [2, 3, 4],
-            "smote_n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sample(self, X, y):
-        """
-        Sampling interface function, the isomap always belongs to the
-        most recent sampling.
-
-        Args:
-            X (np.array): features
-            y (np.array): labels
-
-        Returns:
-            np.array, np.array: the oversampled dataset
-        """
-        self.isomap_fitted = False
-        return super().sample(X, y)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        with warnings.catch_warnings():
-            if suppress_external_warnings():
-                warnings.simplefilter("ignore")
-            X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
-        self.isomap_fitted = True
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_trans, y
-        )
-
-        X_sm, y_sm = SMOTE(  # pylint: disable=invalid-name
-            proportion=self.proportion,
-            n_neighbors=self.smote_n_neighbors,
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X_trans, y)
-
-        ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
-        # the classes can be equally large at this point, the encoding ensures
-        # that the minority class is still treated as the minority one
-        X_final, y_final = ncr.remove_noise(
-            X_sm, (y_sm == self.min_label).astype(int)
-        )
-        y_final = np.where(y_final == 1, self.min_label, self.maj_label)
-
-        if (
-            np.sum(y_final == self.min_label) <= 2
-            or np.sum(y_final == self.maj_label) <= 2
-        ):
-            return self.return_copies(
-                X_sm, y_sm, "too many samples removed returning isomapped dataset"
-            )
-
-        return X_final, y_final
-
-    def preprocessing_transform(self, X):
-        """
-        Transforms new data by the trained isomap
-
-        Args:
-            X (np.array): new data
-
-        Returns:
-            np.array: the transformed data
-        """
-        if not self.isomap_fitted:
-            # the dataset was not transformed as there was nothing to sample
-            return X.copy()
-
-        return self.isomap.transform(X)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.isomap.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_components": self.isomap.n_components,
-            "smote_n_neighbors": self.smote_n_neighbors,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the ISOMAP_Hybrid method.
+"""
+import warnings
+
+import numpy as np
+
+from sklearn.manifold import Isomap
+
+from ..config import suppress_external_warnings
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+from ..noise_removal import NeighborhoodCleaningRule
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["ISOMAP_Hybrid"]
+
+
+class ISOMAP_Hybrid(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @inproceedings{isomap_hybrid,
+                             author = {Gu, Qiong and Cai, Zhihua and Zhu, Li},
+                             title = {Classification of Imbalanced Data Sets by
+                                        Using the Hybrid Re-sampling Algorithm
+                                        Based on Isomap},
+                             booktitle = {Proceedings of the 4th International
+                                            Symposium on Advances in
+                                            Computation and Intelligence},
+                             series = {ISICA '09},
+                             year = {2009},
+                             isbn = {978-3-642-04842-5},
+                             location = {Huangshi, China},
+                             pages = {287--296},
+                             numpages = {10},
+                             doi = {10.1007/978-3-642-04843-2_31},
+                             acmid = {1691478},
+                             publisher = {Springer-Verlag},
+                             address = {Berlin, Heidelberg},
+                             keywords = {Imbalanced data set, Isomap, NCR,
+                                            Smote, re-sampling},
+                            }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_noise_removal,
+        OverSampling.cat_dim_reduction,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_components=3,
+        smote_n_neighbors=5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_components (int): number of components
+            smote_n_neighbors (int): number of neighbors in SMOTE sampling
+            n_jobs (int): number of parallel jobs
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(n_components, "n_components", 1)
+        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.isomap_params = {}
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.smote_n_neighbors = smote_n_neighbors
+        self.n_jobs = n_jobs
+
+        self.isomap = Isomap(
+            n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
+        )
+        self.isomap_fitted = False
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "n_components": [2, 3, 4],
+            "smote_n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sample(self, X, y):
+        """
+        Sampling interface function, the isomap always belongs to the
+        most recent sampling.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        self.isomap_fitted = False
+        return super().sample(X, y)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        with warnings.catch_warnings():
+            if suppress_external_warnings():
+                warnings.simplefilter("ignore")
+            X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+        self.isomap_fitted = True
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_trans, y
+        )
+
+        X_sm, y_sm = SMOTE(  # pylint: disable=invalid-name
+            proportion=self.proportion,
+            n_neighbors=self.smote_n_neighbors,
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X_trans, y)
+
+        ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
+        # the classes can be equally large at this point, the encoding ensures
+        # that the minority class is still treated as the minority one
+        X_final, y_final = ncr.remove_noise(
+            X_sm, (y_sm == self.min_label).astype(int)
+        )
+        y_final = np.where(y_final == 1, self.min_label, self.maj_label)
+
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
+            return self.return_copies(
+                X_sm, y_sm, "too many samples removed returning isomapped dataset"
+            )
+
+        return X_final, y_final
+
+    def preprocessing_transform(self, X):
+        """
+        Transforms new data by the trained isomap
+
+        Args:
+            X (np.array): new data
+
+        Returns:
+            np.array: the transformed data
+        """
+        if not self.isomap_fitted:
+            # the dataset was not transformed as there was nothing to sample
+            return X.copy()
+
+        return self.isomap.transform(X)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.isomap.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_components": self.isomap.n_components,
+            "smote_n_neighbors": self.smote_n_neighbors,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 9e2b463..de7d6d7 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -1,303 +1,303 @@
-"""
-This module implements the KernelADASYN method.
-"""
-
-import numpy as np
-
-from sklearn.decomposition import PCA
-
-from ..base import fix_density, cov
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["KernelADASYN"]
-
-
-class KernelADASYN(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{kernel_adasyn,
-                            author={Tang, B. and He, H.},
-                            booktitle={2015 IEEE Congress on Evolutionary
-                                        Computation (CEC)},
-                            title={KernelADASYN: Kernel based adaptive
-                                    synthetic data generation for
-                                    imbalanced learning},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={664-671},
-                            keywords={learning (artificial intelligence);
-                                        pattern classification;
-                                        sampling methods;KernelADASYN;
-                                        kernel based adaptive synthetic
-                                        data generation;imbalanced
-                                        learning;standard classification
-                                        algorithms;data distribution;
-                                        minority class decision rule;
-                                        expensive minority class data
-                                        misclassification;kernel based
-                                        adaptive synthetic over-sampling
-                                        approach;imbalanced data
-                                        classification problems;kernel
-                                        density estimation methods;Kernel;
-                                        Estimation;Accuracy;Measurement;
-                                        Standards;Training data;Sampling
-                                        methods;Imbalanced learning;
-                                        adaptive over-sampling;kernel
-                                        density estimation;pattern
-                                        recognition;medical and
-                                        healthcare data learning},
-                            doi={10.1109/CEC.2015.7256954},
-                            ISSN={1089-778X},
-                            month={May}}
-
-    Notes:
-        * The method of sampling was not specified, Markov Chain Monte Carlo
-            has been implemented.
-        * Not prepared for improperly conditioned covariance matrix.
-    """
-
-    categories = [
-        OverSampling.cat_density_estimation,
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        k=5,
-        *,
-        nn_params=None,
-        h=1.0,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            k (int): number of neighbors in the nearest neighbors component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            h (float): kernel bandwidth
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(h, "h", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params or {}
-        self.h = h  # pylint: disable=invalid-name
-        self.n_jobs = n_jobs
-
-        self.mcmc_params = {"burn_in": 1000, "periods": 50}
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "k": [5, 7, 9],
-            "h": [0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, 10.0],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def p_x(self, x_vec, X_min, r_score):
-        """
-        Returns minority density value at x
-
-        Args:
-            x_vec (np.array): feature vector
-
-        Returns:
-            float: density value
-        """
-        result = 1.0 / (len(X_min) * self.h)
-        result = result * (1.0 / (np.sqrt(2 * np.pi) * self.h) ** len(X_min[0]))
-
-        exp_term = np.exp(-0.5 * np.linalg.norm(x_vec - X_min, axis=1) ** 2 / self.h)
-        return result * np.inner(r_score, exp_term)
-
-    def mcmc(self, X_min, r_score, covariance, n_to_sample):
-        """
-        Do the Markov Chain Monte Carlo sampling.
-
-        Args:
-            X_min (np.array): the minority samples
-            r_score (np.array): the majority scores
-            covariance (np.array): the covariance matrix
-            n_to_sample (int): the number of samples to generate
-        """
-        samples = []
-        iteration = 0
-
-        # parameters of the Monte Carlo sampling
-
-        # starting Markov-Chain Monte Carlo for sampling
-        x_old = X_min[self.random_state.choice(np.where(r_score > 0)[0])]
-        p_old = self.p_x(x_old, X_min, r_score)
-
-        # Cholesky decomposition
-        L_mat = np.linalg.cholesky(covariance)  # pylint: disable=invalid-name
-
-        while len(samples) < n_to_sample:
-            x_new = x_old + np.dot(self.random_state.normal(size=len(x_old)), L_mat)
-            p_new = self.p_x(x_new, X_min, r_score)
-
-            alpha = p_new / p_old
-            if self.random_state.random_sample() < alpha:
-                x_old = x_new
-                p_old = p_new
-
-            iteration = iteration + 1
-            if (
-                iteration % self.mcmc_params["periods"] == 0
-                and iteration > self.mcmc_params["burn_in"]
-            ):
-                samples.append(x_old)
-
-        return np.vstack(samples)
-
-    def iterated_sampling(self, *, covariance, X, y, X_min, r_score, n_to_sample):
-        """
-        Try to carry out the sampling and reduce the dimensions if it
-        does not succeed.
-
-        Args:
-            covariance (np.array): the covariance matrix
-            X (np.array): the feature vectors
-            y (np.array): the target labels
-            X_min (np.array): the minority samples
-            r_score (np.array): the majority score
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array, np.array: the oversampled dataset
-        """
-        if len(covariance) > 1 and np.linalg.cond(covariance) > 10000:
-            _logger.info(
-                "%s: reducing dimensions due to improperly "
-                "conditioned covariance matrix",
-                self.__class__.__name__,
-            )
-
-            if X.shape[1] <= 2:
-                return self.return_copies(X, y, "matrix is ill conditioned")
-
-            n_components = int(np.rint(len(covariance) / 2))
-
-            pca = PCA(n_components=n_components)
-            X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
-
-            kernela = KernelADASYN(
-                proportion=self.proportion,
-                k=self.k,
-                nn_params=self.nn_params,
-                h=self.h,
-                random_state=self._random_state_init,
-            )
-
-            X_samp, y_samp = kernela.sample(X_trans, y)
-
-            # the original vectors are kept, only the new ones are mapped back
-            samples = pca.inverse_transform(X_samp[len(X) :])
-
-            return np.vstack([X, samples]), y_samp
-
-        samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        X_min = X[y == self.min_label]
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # fitting the nearest neighbors model
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=min([len(X_min), self.k + 1]), n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X_min, return_distance=False)
-
-        # computing majority score
-        r_score = np.array(
-            [np.sum(y[indices[i][1:]] == self.maj_label) for i in range(len(X_min))]
-        )
-
-        if np.sum(r_score > 0) < 2:
-            return self.return_copies(X, y, "majority score is 0 for most vectors")
-
-        r_score = fix_density(r_score)
-
-        # covariance is used to generate a random sample in the neighborhood
-        covariance = cov(X_min[r_score > 0], rowvar=False)
-
-        return self.iterated_sampling(
-            covariance=covariance,
-            X=X,
-            y=y,
-            X_min=X_min,
-            r_score=r_score,
-            n_to_sample=n_to_sample,
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "h": self.h,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the KernelADASYN method.
+"""
+
+import numpy as np
+
+from sklearn.decomposition import PCA
+
+from ..base import fix_density, cov
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["KernelADASYN"]
+
+
+class KernelADASYN(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{kernel_adasyn,
+                            author={Tang, B. and He, H.},
+                            booktitle={2015 IEEE Congress on Evolutionary
+                                        Computation (CEC)},
+                            title={KernelADASYN: Kernel based adaptive
+                                    synthetic data generation for
+                                    imbalanced learning},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={664-671},
+                            keywords={learning (artificial intelligence);
+                                        pattern classification;
+                                        sampling methods;KernelADASYN;
+                                        kernel based adaptive synthetic
+                                        data generation;imbalanced
+                                        learning;standard classification
+                                        algorithms;data distribution;
+                                        minority class decision rule;
+                                        expensive minority class data
+                                        misclassification;kernel based
+                                        adaptive synthetic over-sampling
+                                        approach;imbalanced data
+                                        classification problems;kernel
+                                        density estimation methods;Kernel;
+                                        Estimation;Accuracy;Measurement;
+                                        Standards;Training data;Sampling
+                                        methods;Imbalanced learning;
+                                        adaptive over-sampling;kernel
+                                        density estimation;pattern
+                                        recognition;medical and
+                                        healthcare data learning},
+                            doi={10.1109/CEC.2015.7256954},
+                            ISSN={1089-778X},
+                            month={May}}
+
+    Notes:
+        * The method of sampling was not specified, Markov Chain Monte Carlo
+            has been implemented.
+        * Not prepared for improperly conditioned covariance matrix.
+    """
+
+    categories = [
+        OverSampling.cat_density_estimation,
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        k=5,
+        *,
+        nn_params=None,
+        h=1.0,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            k (int): number of neighbors in the nearest neighbors component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            h (float): kernel bandwidth
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(h, "h", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params or {}
+        self.h = h  # pylint: disable=invalid-name
+        self.n_jobs = n_jobs
+
+        self.mcmc_params = {"burn_in": 1000, "periods": 50}
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "k": [5, 7, 9],
+            "h": [0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, 10.0],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def p_x(self, x_vec, X_min, r_score):
+        """
+        Returns minority density value at x
+
+        Args:
+            x_vec (np.array): feature vector
+
+        Returns:
+            float: density value
+        """
+        result = 1.0 / (len(X_min) * self.h)
+        result = result * (1.0 / (np.sqrt(2 * np.pi) * self.h) ** len(X_min[0]))
+
+        exp_term = np.exp(-0.5 * np.linalg.norm(x_vec - X_min, axis=1) ** 2 / self.h)
+        return result * np.inner(r_score, exp_term)
+
+    def mcmc(self, X_min, r_score, covariance, n_to_sample):
+        """
+        Do the Markov Chain Monte Carlo sampling.
+
+        Args:
+            X_min (np.array): the minority samples
+            r_score (np.array): the majority scores
+            covariance (np.array): the covariance matrix
+            n_to_sample (int): the number of samples to generate
+        """
+        samples = []
+        iteration = 0
+
+        # parameters of the Monte Carlo sampling
+
+        # starting Markov-Chain Monte Carlo for sampling
+        x_old = X_min[self.random_state.choice(np.where(r_score > 0)[0])]
+        p_old = self.p_x(x_old, X_min, r_score)
+
+        # Cholesky decomposition
+        L_mat = np.linalg.cholesky(covariance)  # pylint: disable=invalid-name
+
+        while len(samples) < n_to_sample:
+            x_new = x_old + np.dot(self.random_state.normal(size=len(x_old)), L_mat)
+            p_new = self.p_x(x_new, X_min, r_score)
+
+            alpha = p_new / p_old
+            if self.random_state.random_sample() < alpha:
+                x_old = x_new
+                p_old = p_new
+
+            iteration = iteration + 1
+            if (
+                iteration % self.mcmc_params["periods"] == 0
+                and iteration > self.mcmc_params["burn_in"]
+            ):
+                samples.append(x_old)
+
+        return np.vstack(samples)
+
+    def iterated_sampling(self, *, covariance, X, y, X_min, r_score, n_to_sample):
+        """
+        Try to carry out the sampling and reduce the dimensions if it
+        does not succeed.
+
+        Args:
+            covariance (np.array): the covariance matrix
+            X (np.array): the feature vectors
+            y (np.array): the target labels
+            X_min (np.array): the minority samples
+            r_score (np.array): the majority score
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        if len(covariance) > 1 and np.linalg.cond(covariance) > 10000:
+            _logger.info(
+                "%s: reducing dimensions due to improperly "
+                "conditioned covariance matrix",
+                self.__class__.__name__,
+            )
+
+            if X.shape[1] <= 2:
+                return self.return_copies(X, y, "matrix is ill conditioned")
+
+            n_components = int(np.rint(len(covariance) / 2))
+
+            pca = PCA(n_components=n_components)
+            X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
+
+            kernela = KernelADASYN(
+                proportion=self.proportion,
+                k=self.k,
+                nn_params=self.nn_params,
+                h=self.h,
+                random_state=self._random_state_init,
+            )
+
+            X_samp, y_samp = kernela.sample(X_trans, y)
+
+            # the original vectors are kept, only the new ones are mapped back
+            samples = pca.inverse_transform(X_samp[len(X) :])
+
+            return np.vstack([X, samples]), y_samp
+
+        samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        X_min = X[y == self.min_label]
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # fitting the nearest neighbors model
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=min([len(X_min), self.k + 1]), n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X_min, return_distance=False)
+
+        # computing majority score
+        r_score = np.array(
+            [np.sum(y[indices[i][1:]] == self.maj_label) for i in range(len(X_min))]
+        )
+
+        if np.sum(r_score > 0) < 2:
+            return self.return_copies(X, y, "majority score is 0 for most vectors")
+
+        r_score = fix_density(r_score)
+
+        # covariance is used to generate a random sample in the neighborhood
+        covariance = cov(X_min[r_score > 0], rowvar=False)
+
+        return self.iterated_sampling(
+            covariance=covariance,
+            X=X,
+            y=y,
+            X_min=X_min,
+            r_score=r_score,
+            n_to_sample=n_to_sample,
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "h": self.h,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index 82ef74c..b2b21d2 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -1,517 +1,517 @@
-"""
-This module implements the MOT2LD method.
-"""
-
-import warnings
-
-import numpy as np
-
-from sklearn.manifold import TSNE
-import scipy.signal as ssignal
-from scipy.linalg import circulant
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSamplingSimplex
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["MOT2LD"]
-
-
-class MOT2LD(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{mot2ld,
-                            author="Xie, Zhipeng
-                            and Jiang, Liyang
-                            and Ye, Tengju
-                            and Li, Xiaoli",
-                            editor="Renz, Matthias
-                            and Shahabi, Cyrus
-                            and Zhou, Xiaofang
-                            and Cheema, Muhammad Aamir",
-                            title="A Synthetic Minority Oversampling Method
-                                    Based on Local Densities in Low-Dimensional
-                                    Space for Imbalanced Learning",
-                            booktitle="Database Systems for Advanced
-                                        Applications",
-                            year="2015",
-                            publisher="Springer International Publishing",
-                            address="Cham",
-                            pages="3--18",
-                            isbn="978-3-319-18123-3"
-                            }
-
-    Notes:
-        * Clusters might contain 1 elements, and all points can be filtered
-            as noise.
-        * Clusters might contain 0 elements as well, if all points are filtered
-            as noise.
-        * The entire clustering can become empty.
-        * TSNE is very slow when the number of instances is over a couple
-            of 1000
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_sample_ordinary,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_components=2,
-        k=5,
-        nn_params=None,
-        ss_params=None,
-        d_cut="auto",
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_components (int): number of components for stochastic
-                                neighborhood embedding
-            k (int): number of neighbors in the nearest neighbor component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            d_cut (float/str): distance cut value/'auto' for automated
-                                selection
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        nn_params = coalesce(nn_params, {})
-
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_components, "n_component", 1)
-        self.check_greater_or_equal(k, "k", 1)
-        if isinstance(d_cut, (int, float)):
-            if d_cut <= 0:
-                raise ValueError(
-                    f"{self.__class__.__name__}: Non-positive " "d_cut is not allowed"
-                )
-        elif d_cut != "auto":
-            raise ValueError(
-                f"{self.__class__.__name__}: d_cut value " f"{d_cut} not implemented"
-            )
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_components = n_components
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params
-        self.d_cut = d_cut
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_components": [2],
-            "k": [3, 5, 7],
-            "d_cut": ["auto"],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def density_peak_clustering(self, rho, indices_min, distances_min):
-        """
-        Do density peak clustering.
-
-        Args:
-            rho (np.array): the rho array
-            indices_min (np.array): the minority neighborhood structure
-            distances_min (np.array): the minority neighbor distances
-
-        Returns:
-            np.array, np.array, np.array: the r, d and idx arrays
-        """
-        # extracting the number of neighbors in a given radius
-        closest_highest = []
-        delta = []
-
-        # implementation of the density peak clustering algorithm
-        # based on http://science.sciencemag.org/content/344/6191/1492.full
-        for idx, rho_val in enumerate(rho):
-            closest_neighbors = indices_min[idx]
-            closest_densities = rho[closest_neighbors]
-            closest_highs = np.where(closest_densities > rho_val)[0]
-
-            if len(closest_highs) > 0:
-                closest_highest.append(closest_highs[0])
-                delta.append(distances_min[idx][closest_highs[0]])
-            else:
-                closest_highest.append(-1)
-                delta.append(np.max(distances_min))
-
-        to_sort = zip(rho, delta, np.arange(len(rho)))
-        r, d, idx = zip(
-            *sorted(to_sort, key=lambda x: x[0])
-        )  # pylint: disable=invalid-name
-        r, d, idx = (
-            np.array(r),
-            np.array(d),
-            np.array(idx),
-        )  # pylint: disable=invalid-name
-
-        return r, d, idx
-
-    def check_enough_clusters(self, d):  # pylint: disable=invalid-name
-        """
-        Check if there are enough clusters.
-
-        Args:
-            d (np.array): clusters
-        """
-        if len(d) < 3:
-            raise ValueError(f"Not enough clusters: {len(d)}")
-
-    def check_enough_peaks(self, peak_indices):
-        """
-        Check if there are enough peaks.
-
-        Args:
-            peak_indices (np.array): the peak indices
-        """
-        if len(peak_indices) == 0:
-            raise ValueError("No peaks found")
-
-    def determine_cluster_centers(self, X_min, rho, indices_min, distances_min):
-        """
-        Determine the cluster centers.
-
-        Args:
-            X_min (np.array): the minority samples
-            rho (np.array): the rho array
-            indices_min (np.array): the minority neighborhood structure
-            distances_min (np.array): the minority distances
-
-        Returns:
-            np.array: cluster centers
-        """
-        r, d, idx = self.density_peak_clustering(
-            rho, indices_min, distances_min  # pylint: disable=invalid-name
-        )
-
-        self.check_enough_clusters(d)
-
-        widths = np.arange(1, int(np.rint(len(r) / 2)))
-        peak_indices = np.array(ssignal.find_peaks_cwt(d, widths=widths))
-
-        self.check_enough_peaks(peak_indices)
-
-        cluster_centers = X_min[idx[peak_indices]]
-
-        return cluster_centers
-
-    def determine_neighborhoods(
-        self, X_tsne, X_min, nn_params  # pylint: disable=invalid-name
-    ):
-        """
-        Determine the neighborhood structures.
-
-        Args:
-            X_tsne (np.array): the transformed samples
-            X_min (np.array): the minority samples
-            nn_params (dict): the neighborhood parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array:
-                        the indices, minority distances,
-                        indices and the rho array
-        """
-        # fitting nearest neighbors model for all training data
-        n_neighbors = min([len(X_min), self.k + 1])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X_tsne)
-        distances, indices = nnmt.kneighbors(X_min)
-
-        # fitting nearest neighbors model to the minority data
-        nn_min = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(X_min), n_jobs=self.n_jobs, **(nn_params)
-        )
-        nn_min.fit(X_min)
-        distances_min, indices_min = nn_min.kneighbors(X_min)
-
-        if isinstance(self.d_cut, (int, float)):
-            d_cut = self.d_cut
-        elif self.d_cut == "auto":
-            d_cut = np.max(distances[:, 1])
-
-        rho = nnmt.radius_neighbors(X_min, d_cut, return_distance=False)
-        rho = np.array([rho_row.shape[0] for rho_row in rho])
-
-        return indices, distances_min, indices_min, rho
-
-    def determine_clusters(
-        self, X_tsne, y, X_min, nn_params  # pylint: disable=invalid-name
-    ):
-        """
-        Do the clustering.
-
-        Args:
-            X_tsne (np.array): all samples after TSNE transformation
-            y (np.array): target labels
-            X_min (np.array): the minority labels after transformation
-            nn_params (dict): the nearest neighbors parameters
-
-        Returns:
-            np.array, np.array, np.array: cluster centers, noise mask
-                                        and importance scores
-        """
-        indices, distances_min, indices_min, rho = self.determine_neighborhoods(
-            X_tsne, X_min, nn_params
-        )
-
-        cluster_centers = self.determine_cluster_centers(
-            X_min, rho, indices_min, distances_min
-        )
-
-        # computing local minority counts and determining noisy samples
-        local_minority_count = np.sum(y[indices[:, 1:]] == self.min_label, axis=1)
-
-        noise = np.where(np.logical_or(rho == 1, local_minority_count == 0))[0]
-
-        return cluster_centers, noise, local_minority_count / rho
-
-    def check_empty_clustering(self, cluster_indices):
-        """
-        Check if the clustering is empty
-
-        Args:
-            cluster_indices (np.array): cluster indices
-        """
-        # checking if clustering is empty
-        empty_clustering = np.all([len(cluster) == 0 for cluster in cluster_indices])
-
-        if empty_clustering:
-            raise ValueError("Empty clustering")
-
-    def check_probabilities(self, prob):
-        """
-        Check if the probabilities are empty.
-
-        Args:
-            prob (np.array): the probabilities
-        """
-
-        if np.sum(prob) == 0.0:
-            raise ValueError("Empty probabilities.")
-
-    def do_clustering(self, X_tsne, y, X_min):  # pylint: disable=invalid-name
-        """
-        Do the clustering.
-
-        Args:
-            X_tsne (np.array): all samples after TSNE transformation
-            y (np.array): all target labels
-            X_min (np.array): the minority labels after transformation
-
-        Returns:
-            np.array, np.array, np.array, np.array: the cluster indices,
-                            cluster labels, probabilities and noise mask
-        """
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_tsne, y
-        )
-
-        cluster_centers, noise, importance = self.determine_clusters(
-            X_tsne, y, X_min, nn_params
-        )
-
-        # finding closest cluster center to minority points and deriving
-        # cluster labels
-        nn_cluster = NearestNeighborsWithMetricTensor(
-            n_neighbors=1, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nn_cluster.fit(cluster_centers)
-        ind_cluster = nn_cluster.kneighbors(X_min, return_distance=False)
-        cluster_labels = ind_cluster[:, 0]
-
-        prob = importance
-        prob[noise] = 0.0
-
-        self.check_probabilities(prob)
-
-        prob = prob / np.sum(prob)
-
-        # extracting cluster indices
-        cluster_indices = [
-            np.where(cluster_labels == i)[0] for i in range(np.max(cluster_labels) + 1)
-        ]
-        # removing noise from clusters
-        cluster_indices = [list(set(c).difference(set(noise))) for c in cluster_indices]
-
-        self.check_empty_clustering(cluster_indices)
-
-        cluster_sizes = np.array([len(cluster) for cluster in cluster_indices])
-        empty = np.isin(cluster_labels, np.where(cluster_sizes == 0)[0])
-        prob[empty] = 0.0
-        prob = prob / np.sum(prob)
-
-        return cluster_indices, prob, noise
-
-    def determine_cluster_probabilities(self, cluster_indices, prob):
-        """
-        Determine the cluster probabilities.
-
-        Args:
-            cluster_indices (np.array): the cluster indices
-            prob (np.array): the sample probabilities
-
-        Returns:
-            np.array: the cluster probabilities
-        """
-        cluster_probs = np.zeros(len(cluster_indices))
-        for idx, indices in enumerate(cluster_indices):
-            if len(indices) > 0:
-                cluster_probs[idx] = np.sum(prob[indices])
-        cluster_probs = cluster_probs / np.sum(cluster_probs)
-
-        return cluster_probs
-
-    def generate_samples_in_clusters(
-        self, *, X_min, cluster_indices, prob, n_to_sample
-    ):
-        """
-        Generate samples in cluster.
-
-        Args:
-            X_min (np.array): the minority samples
-            cluster_indices (np.array): the cluster indices
-            prob (np.array): the probabilities
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        cluster_probs = self.determine_cluster_probabilities(cluster_indices, prob)
-
-        clusters_selected = self.random_state.choice(
-            len(cluster_probs), n_to_sample, p=cluster_probs
-        )
-        cluster_unique, cluster_count = np.unique(clusters_selected, return_counts=True)
-
-        samples = []
-        for idx, cluster in enumerate(cluster_unique):
-            cluster_vectors = X_min[cluster_indices[cluster]]
-            within_prob = prob[cluster_indices[cluster]]
-            within_prob = within_prob / np.sum(within_prob)
-            samples.append(
-                self.sample_simplex(
-                    X=cluster_vectors,
-                    indices=circulant(np.arange(cluster_vectors.shape[0])),
-                    n_to_sample=cluster_count[idx],
-                    base_weights=within_prob,
-                )
-            )
-
-        return np.vstack(samples)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        _logger.info(
-            "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
-        )
-
-        n_components = min(self.n_components, X.shape[1])
-
-        with warnings.catch_warnings():
-            warnings.filterwarnings("ignore")
-            # do the stochastic embedding
-            X_tsne = TSNE(  # pylint: disable=invalid-name
-                n_components,
-                random_state=self._random_state_init,
-                perplexity=np.min([10, X.shape[0] - 1]),
-                n_iter_without_progress=100,
-                n_iter=500,
-                verbose=0,
-                n_jobs=self.n_jobs,
-            ).fit_transform(X)
-
-        X_min = X_tsne[y == self.min_label]
-        _logger.info("%s: TSNE finished", self.__class__.__name__)
-
-        try:
-            cluster_indices, prob, noise = self.do_clustering(X_tsne, y, X_min)
-        except ValueError as valueerror:
-            return self.return_copies(X, y, valueerror.args[0])
-
-        # carrying out the sampling
-        X_min = X[y == self.min_label]
-
-        samples = self.generate_samples_in_clusters(
-            X_min=X_min,
-            cluster_indices=cluster_indices,
-            prob=prob,
-            n_to_sample=n_to_sample,
-        )
-
-        return (
-            np.vstack([np.delete(X, noise, axis=0), np.vstack(samples)]),
-            np.hstack([np.delete(y, noise), np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_components": self.n_components,
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "d_cut": self.d_cut,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the MOT2LD method.
+"""
+
+import warnings
+
+import numpy as np
+
+from sklearn.manifold import TSNE
+import scipy.signal as ssignal
+from scipy.linalg import circulant
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSamplingSimplex
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["MOT2LD"]
+
+
+class MOT2LD(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{mot2ld,
+                            author="Xie, Zhipeng
+                            and Jiang, Liyang
+                            and Ye, Tengju
+                            and Li, Xiaoli",
+                            editor="Renz, Matthias
+                            and Shahabi, Cyrus
+                            and Zhou, Xiaofang
+                            and Cheema, Muhammad Aamir",
+                            title="A Synthetic Minority Oversampling Method
+                                    Based on Local Densities in Low-Dimensional
+                                    Space for Imbalanced Learning",
+                            booktitle="Database Systems for Advanced
+                                        Applications",
+                            year="2015",
+                            publisher="Springer International Publishing",
+                            address="Cham",
+                            pages="3--18",
+                            isbn="978-3-319-18123-3"
+                            }
+
+    Notes:
+        * Clusters might contain 1 elements, and all points can be filtered
+            as noise.
+        * Clusters might contain 0 elements as well, if all points are filtered
+            as noise.
+        * The entire clustering can become empty.
+        * TSNE is very slow when the number of instances is over a couple
+            of 1000
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_sample_ordinary,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_components=2,
+        k=5,
+        nn_params=None,
+        ss_params=None,
+        d_cut="auto",
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_components (int): number of components for stochastic
+                                neighborhood embedding
+            k (int): number of neighbors in the nearest neighbor component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            d_cut (float/str): distance cut value/'auto' for automated
+                                selection
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        nn_params = coalesce(nn_params, {})
+
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_components, "n_component", 1)
+        self.check_greater_or_equal(k, "k", 1)
+        if isinstance(d_cut, (int, float)):
+            if d_cut <= 0:
+                raise ValueError(
+                    f"{self.__class__.__name__}: Non-positive " "d_cut is not allowed"
+                )
+        elif d_cut != "auto":
+            raise ValueError(
+                f"{self.__class__.__name__}: d_cut value " f"{d_cut} not implemented"
+            )
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_components = n_components
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params
+        self.d_cut = d_cut
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_components": [2],
+            "k": [3, 5, 7],
+            "d_cut": ["auto"],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def density_peak_clustering(self, rho, indices_min, distances_min):
+        """
+        Do density peak clustering.
+
+        Args:
+            rho (np.array): the rho array
+            indices_min (np.array): the minority neighborhood structure
+            distances_min (np.array): the minority neighbor distances
+
+        Returns:
+            np.array, np.array, np.array: the r, d and idx arrays
+        """
+        # extracting the number of neighbors in a given radius
+        closest_highest = []
+        delta = []
+
+        # implementation of the density peak clustering algorithm
+        # based on http://science.sciencemag.org/content/344/6191/1492.full
+        for idx, rho_val in enumerate(rho):
+            closest_neighbors = indices_min[idx]
+            closest_densities = rho[closest_neighbors]
+            closest_highs = np.where(closest_densities > rho_val)[0]
+
+            if len(closest_highs) > 0:
+                closest_highest.append(closest_highs[0])
+                delta.append(distances_min[idx][closest_highs[0]])
+            else:
+                closest_highest.append(-1)
+                delta.append(np.max(distances_min))
+
+        to_sort = zip(rho, delta, np.arange(len(rho)))
+        r, d, idx = zip(
+            *sorted(to_sort, key=lambda x: x[0])
+        )  # pylint: disable=invalid-name
+        r, d, idx = (
+            np.array(r),
+            np.array(d),
+            np.array(idx),
+        )  # pylint: disable=invalid-name
+
+        return r, d, idx
+
+    def check_enough_clusters(self, d):  # pylint: disable=invalid-name
+        """
+        Check if there are enough clusters.
+
+        Args:
+            d (np.array): clusters
+        """
+        if len(d) < 3:
+            raise ValueError(f"Not enough clusters: {len(d)}")
+
+    def check_enough_peaks(self, peak_indices):
+        """
+        Check if there are enough peaks.
+
+        Args:
+            peak_indices (np.array): the peak indices
+        """
+        if len(peak_indices) == 0:
+            raise ValueError("No peaks found")
+
+    def determine_cluster_centers(self, X_min, rho, indices_min, distances_min):
+        """
+        Determine the cluster centers.
+
+        Args:
+            X_min (np.array): the minority samples
+            rho (np.array): the rho array
+            indices_min (np.array): the minority neighborhood structure
+            distances_min (np.array): the minority distances
+
+        Returns:
+            np.array: cluster centers
+        """
+        r, d, idx = self.density_peak_clustering(
+            rho, indices_min, distances_min  # pylint: disable=invalid-name
+        )
+
+        self.check_enough_clusters(d)
+
+        widths = np.arange(1, int(np.rint(len(r) / 2)))
+        peak_indices = np.array(ssignal.find_peaks_cwt(d, widths=widths))
+
+        self.check_enough_peaks(peak_indices)
+
+        cluster_centers = X_min[idx[peak_indices]]
+
+        return cluster_centers
+
+    def determine_neighborhoods(
+        self, X_tsne, X_min, nn_params  # pylint: disable=invalid-name
+    ):
+        """
+        Determine the neighborhood structures.
+
+        Args:
+            X_tsne (np.array): the transformed samples
+            X_min (np.array): the minority samples
+            nn_params (dict): the neighborhood parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array:
+                        the indices, minority distances,
+                        indices and the rho array
+        """
+        # fitting nearest neighbors model for all training data
+        n_neighbors = min([len(X_min), self.k + 1])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X_tsne)
+        distances, indices = nnmt.kneighbors(X_min)
+
+        # fitting nearest neighbors model to the minority data
+        nn_min = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(X_min), n_jobs=self.n_jobs, **(nn_params)
+        )
+        nn_min.fit(X_min)
+        distances_min, indices_min = nn_min.kneighbors(X_min)
+
+        if isinstance(self.d_cut, (int, float)):
+            d_cut = self.d_cut
+        elif self.d_cut == "auto":
+            d_cut = np.max(distances[:, 1])
+
+        rho = nnmt.radius_neighbors(X_min, d_cut, return_distance=False)
+        rho = np.array([rho_row.shape[0] for rho_row in rho])
+
+        return indices, distances_min, indices_min, rho
+
+    def determine_clusters(
+        self, X_tsne, y, X_min, nn_params  # pylint: disable=invalid-name
+    ):
+        """
+        Do the clustering.
+
+        Args:
+            X_tsne (np.array): all samples after TSNE transformation
+            y (np.array): target labels
+            X_min (np.array): the minority labels after transformation
+            nn_params (dict): the nearest neighbors parameters
+
+        Returns:
+            np.array, np.array, np.array: cluster centers, noise mask
+                                        and importance scores
+        """
+        indices, distances_min, indices_min, rho = self.determine_neighborhoods(
+            X_tsne, X_min, nn_params
+        )
+
+        cluster_centers = self.determine_cluster_centers(
+            X_min, rho, indices_min, distances_min
+        )
+
+        # computing local minority counts and determining noisy samples
+        local_minority_count = np.sum(y[indices[:, 1:]] == self.min_label, axis=1)
+
+        noise = np.where(np.logical_or(rho == 1, local_minority_count == 0))[0]
+
+        return cluster_centers, noise, local_minority_count / rho
+
+    def check_empty_clustering(self, cluster_indices):
+        """
+        Check if the clustering is empty
+
+        Args:
+            cluster_indices (np.array): cluster indices
+        """
+        # checking if clustering is empty
+        empty_clustering = np.all([len(cluster) == 0 for cluster in cluster_indices])
+
+        if empty_clustering:
+            raise ValueError("Empty clustering")
+
+    def check_probabilities(self, prob):
+        """
+        Check if the probabilities are empty.
+
+        Args:
+            prob (np.array): the probabilities
+        """
+
+        if np.sum(prob) == 0.0:
+            raise ValueError("Empty probabilities.")
+
+    def do_clustering(self, X_tsne, y, X_min):  # pylint: disable=invalid-name
+        """
+        Do the clustering.
+
+        Args:
+            X_tsne (np.array): all samples after TSNE transformation
+            y (np.array): all target labels
+            X_min (np.array): the minority labels after transformation
+
+        Returns:
+            np.array, np.array, np.array, np.array: the cluster indices,
+                            cluster labels, probabilities and noise mask
+        """
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_tsne, y
+        )
+
+        cluster_centers, noise, importance = self.determine_clusters(
+            X_tsne, y, X_min, nn_params
+        )
+
+        # finding closest cluster center to minority points and deriving
+        # cluster labels
+        nn_cluster = NearestNeighborsWithMetricTensor(
+            n_neighbors=1, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nn_cluster.fit(cluster_centers)
+        ind_cluster = nn_cluster.kneighbors(X_min, return_distance=False)
+        cluster_labels = ind_cluster[:, 0]
+
+        prob = importance
+        prob[noise] = 0.0
+
+        self.check_probabilities(prob)
+
+        prob = prob / np.sum(prob)
+
+        # extracting cluster indices
+        cluster_indices = [
+            np.where(cluster_labels == i)[0] for i in range(np.max(cluster_labels) + 1)
+        ]
+        # removing noise from clusters
+        cluster_indices = [list(set(c).difference(set(noise))) for c in cluster_indices]
+
+        self.check_empty_clustering(cluster_indices)
+
+        cluster_sizes = np.array([len(cluster) for cluster in cluster_indices])
+        empty = np.isin(cluster_labels, np.where(cluster_sizes == 0)[0])
+        prob[empty] = 0.0
+        prob = prob / np.sum(prob)
+
+        return cluster_indices, prob, noise
+
+    def determine_cluster_probabilities(self, cluster_indices, prob):
+        """
+        Determine the cluster probabilities.
+
+        Args:
+            cluster_indices (np.array): the cluster indices
+            prob (np.array): the sample probabilities
+
+        Returns:
+            np.array: the cluster probabilities
+        """
+        cluster_probs = np.zeros(len(cluster_indices))
+        for idx, indices in enumerate(cluster_indices):
+            if len(indices) > 0:
+                cluster_probs[idx] = np.sum(prob[indices])
+        cluster_probs = cluster_probs / np.sum(cluster_probs)
+
+        return cluster_probs
+
+    def generate_samples_in_clusters(
+        self, *, X_min, cluster_indices, prob, n_to_sample
+    ):
+        """
+        Generate samples in cluster.
+
+        Args:
+            X_min (np.array): the minority samples
+            cluster_indices (np.array): the cluster indices
+            prob (np.array): the probabilities
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        cluster_probs = self.determine_cluster_probabilities(cluster_indices, prob)
+
+        clusters_selected = self.random_state.choice(
+            len(cluster_probs), n_to_sample, p=cluster_probs
+        )
+        cluster_unique, cluster_count = np.unique(clusters_selected, return_counts=True)
+
+        samples = []
+        for idx, cluster in enumerate(cluster_unique):
+            cluster_vectors = X_min[cluster_indices[cluster]]
+            within_prob = prob[cluster_indices[cluster]]
+            within_prob = within_prob / np.sum(within_prob)
+            samples.append(
+                self.sample_simplex(
+                    X=cluster_vectors,
+                    indices=circulant(np.arange(cluster_vectors.shape[0])),
+                    n_to_sample=cluster_count[idx],
+                    base_weights=within_prob,
+                )
+            )
+
+        return np.vstack(samples)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        _logger.info(
+            "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
+        )
+
+        n_components = min(self.n_components, X.shape[1])
+
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore")
+            # do the stochastic embedding
+            X_tsne = TSNE(  # pylint: disable=invalid-name
+                n_components,
+                random_state=self._random_state_init,
+                perplexity=np.min([10, X.shape[0] - 1]),
+                n_iter_without_progress=100,
+                n_iter=500,
+                verbose=0,
+                n_jobs=self.n_jobs,
+            ).fit_transform(X)
+
+        X_min = X_tsne[y == self.min_label]
+        _logger.info("%s: TSNE finished", self.__class__.__name__)
+
+        try:
+            cluster_indices, prob, noise = self.do_clustering(X_tsne, y, X_min)
+        except ValueError as valueerror:
+            return self.return_copies(X, y, valueerror.args[0])
+
+        # carrying out the sampling
+        X_min = X[y == self.min_label]
+
+        samples = self.generate_samples_in_clusters(
+            X_min=X_min,
+            cluster_indices=cluster_indices,
+            prob=prob,
+            n_to_sample=n_to_sample,
+        )
+
+        return (
+            np.vstack([np.delete(X, noise, axis=0), np.vstack(samples)]),
+            np.hstack([np.delete(y, noise), np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_components": self.n_components,
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "d_cut": self.d_cut,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 4a1b995..2c9d73a 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -1,419 +1,419 @@
-"""
-This module implements the NEATER method.
-"""
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base._simplexsampling import array_array_index
-from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
-from ..base import OverSampling
-from ._smote import SMOTE
-from ._adasyn import ADASYN
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["NEATER"]
-
-
-class NEATER(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{neater,
-                            author={Almogahed, B. A. and Kakadiaris, I. A.},
-                            booktitle={2014 22nd International Conference on
-                                         Pattern Recognition},
-                            title={NEATER: Filtering of Over-sampled Data
-                                    Using Non-cooperative Game Theory},
-                            year={2014},
-                            volume={},
-                            number={},
-                            pages={1371-1376},
-                            keywords={data handling;game theory;information
-                                        filtering;NEATER;imbalanced data
-                                        problem;synthetic data;filtering of
-                                        over-sampled data using non-cooperative
-                                        game theory;Games;Game theory;Vectors;
-                                        Sociology;Statistics;Silicon;
-                                        Mathematical model},
-                            doi={10.1109/ICPR.2014.245},
-                            ISSN={1051-4651},
-                            month={Aug}}
-
-    Notes:
-        * Evolving both majority and minority probabilities as nothing ensures
-            that the probabilities remain in the range [0,1], and they need to
-            be normalized.
-        * The inversely weighted function needs to be cut at some value (like
-            the alpha level), otherwise it will overemphasize the utility of
-            having differing neighbors next to each other.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        smote_n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        b=5,
-        alpha=0.1,
-        h=20,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            smote_n_neighbors (int): number of neighbors in SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): the simplex sampling parameters
-            b (int): number of neighbors
-            alpha (float): smoothing term
-            h (int): number of iterations in evolution
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
-        self.check_greater_or_equal(b, "b", 1)
-        self.check_greater_or_equal(alpha, "alpha", 0)
-        self.check_greater_or_equal(h, "h", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.smote_n_neighbors = smote_n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = ss_params
-        self.params = {"b": b, "alpha": alpha, "h": h}
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "smote_n_neighbors": [3, 5, 7],
-            "b": [3, 5, 7],
-            "alpha": [0.1],
-            "h": [20],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    # def wprob_mixed(self, prob, i, indices, distm, offset):
-    #    ind = indices[i][1:]
-    #    term_0 = 1*prob[offset + i][0]*prob[ind, 0]
-    #    term_1 = distm[i, ind]*(prob[offset + i][1]*prob[ind, 0] +
-    #                            prob[offset + i][0]*prob[ind, 1])
-    #    term_2 = 1*prob[offset + i][1]*prob[ind, 1]
-    #    print(term_1.shape, term_2.shape)
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_mixed_vectorized(self, prob, indices, distm, offset):
-        """
-        Compute the mixed terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-            offset (int): offsetting the indices
-
-        Returns:
-            np.array: the mixed terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 1 * prob[offset:, 0][:, None] * prob[ind][:, :, 0]
-        term_1_b = (
-            prob[offset:, 1] * prob[ind][:, :, 0].T
-            + prob[offset:, 0] * prob[ind][:, :, 1].T
-        )
-        term_1 = array_array_index(distm, ind) * term_1_b.T
-        term_2 = 1 * prob[offset:, 1][:, None] * prob[ind][:, :, 1]
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    # def wprob_min(self, prob, i, indices, distm):
-    #    term_0 = 0*prob[indices[i][1:], 0]
-    #    term_1 = distm[i, indices[i][1:]]*(1*prob[indices[i][1:], 0] +
-    #                                    0*prob[indices[i][1:], 1])
-    #    term_2 = 1*prob[indices[i][1:], 1]
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_min_vectorized(self, prob, indices, distm):
-        """
-        Compute the minority terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-
-        Returns:
-            np.array: the minority terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 0 * prob[ind, 0]
-        term_1 = array_array_index(distm, ind) * (
-            1 * prob[ind][:, :, 0] + 0 * prob[ind][:, :, 1]
-        )
-        term_2 = 1 * prob[ind][:, :, 1]
-
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    # def wprob_maj(self, prob, i, indices, distm):
-    #    term_0 = 1*prob[indices[i][1:], 0]
-    #    term_1 = distm[i, indices[i][1:]]*(0*prob[indices[i][1:], 0] +
-    #                                    1*prob[indices[i][1:], 1])
-    #    term_2 = 0*prob[indices[i][1:], 1]
-    #    return np.sum(term_0 + term_1 + term_2)
-
-    def wprob_maj_vectorized(self, prob, indices, distm):
-        """
-        Compute the majority terms
-
-        Args:
-            prob (np.array): probabilities
-            indices (np.array): neighborhood structure
-            distm (np.array): distance matrix
-
-        Returns:
-            np.array: the minority terms
-        """
-        ind = indices[:, 1:]
-        term_0 = 1 * prob[ind, 0]
-        term_1 = array_array_index(distm, ind) * (
-            0 * prob[ind][:, :, 0] + 1 * prob[ind][:, :, 1]
-        )
-        term_2 = 0 * prob[ind][:, :, 1]
-
-        return np.sum(term_0 + term_1 + term_2, axis=1)
-
-    def utilities(self, prob, X, indices, distm):
-        """
-        Computes the utilit function
-
-        Args:
-            prob (np.array): strategy probabilities
-            X (np.array): the training vectors
-            indices (np.array): the neighborhood structure
-            distm (np.array): the distance matrix
-
-        Returns:
-            np.array, np.array, np.array: utility values, minority
-                                            utilities, majority
-                                            utilities
-        """
-
-        # domain = range(len(X_syn))
-        offset = len(X)
-        # util_mixed = np.array([self.wprob_mixed(prob, i, indices, distm,
-        #                                       offset=offset) for i in domain])
-        util_mixed = self.wprob_mixed_vectorized(prob, indices, distm, offset)
-        util_mixed = np.hstack([np.repeat(0, X.shape[0]), util_mixed])
-
-        # util_min = np.array([self.wprob_min(prob, i, indices, distm) for i in domain])
-        util_min = self.wprob_min_vectorized(prob, indices, distm)
-        util_min = np.hstack([np.repeat(0, X.shape[0]), util_min])
-
-        # util_maj = np.array([self.wprob_maj(prob, i, indices, distm) for i in domain])
-        util_maj = self.wprob_maj_vectorized(prob, indices, distm)
-        util_maj = np.hstack([np.repeat(0, X.shape[0]), util_maj])
-
-        return util_mixed, util_min, util_maj
-
-    def evolution(
-        self,
-        *,
-        prob,
-        X,
-        X_syn,  # pylint: disable=invalid-name
-        indices,
-        distm,
-        alpha=None
-    ):
-        """
-        Executing one step of the probabilistic evolution
-
-        Args:
-            prob (np.array): strategy probabilities
-            X (np.array): original vectors
-            X_syn (np.array): new samples
-            indices (np.array): the neighborhood structure
-            distm (np.array): the distance matrix
-            alpha (float): smoothing function
-
-        Returns:
-            np.array: updated probabilities
-        """
-        # binary indicator indicating synthetic instances
-        synthetic = np.hstack(
-            [np.array([False] * len(X)), np.array([True] * len(X_syn))]
-        )
-
-        alpha = coalesce(alpha, self.params["alpha"])
-
-        util_mixed, util_min, util_maj = self.utilities(prob, X, indices, distm)
-
-        prob_new = prob.copy()
-        synthetic_values = prob[:, 1] * (alpha + util_min) / (alpha + util_mixed)
-        prob_new[:, 1] = np.where(synthetic, synthetic_values, prob[:, 1])
-
-        synthetic_values = prob[:, 0] * (alpha + util_maj) / (alpha + util_mixed)
-        prob_new[:, 0] = np.where(synthetic, synthetic_values, prob[:, 0])
-
-        norm_factor = np.sum(prob_new, axis=1)
-
-        prob_new[:, 0] = prob_new[:, 0] / norm_factor
-        prob_new[:, 1] = prob_new[:, 1] / norm_factor
-
-        return prob_new
-
-    def generate_new_samples(self, X, y, nn_params):
-        """
-        Generate new samples.
-
-        Args:
-            X (np.array): training vectors
-            y (np.array): the target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array: all vectors and targets
-        """
-        # Applying SMOTE and ADASYN
-        X_0, y_0 = SMOTE(  # pylint: disable=invalid-name
-            proportion=self.proportion,
-            n_neighbors=self.smote_n_neighbors,
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        X_1, y_1 = ADASYN(  # pylint: disable=invalid-name
-            n_neighbors=self.params["b"],
-            nn_params=nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        X_new = np.vstack([X_0, X_1[len(X) :]])
-        y_new = np.hstack([y_0, y_1[len(y) :]])
-
-        return X_new, y_new
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        X_all, y_all = self.generate_new_samples(X, y, nn_params)
-
-        X_syn = X_all[len(X) :]  # pylint: disable=invalid-name
-
-        # initializing strategy probabilities
-        prob = np.zeros(shape=(len(X_all), 2))
-        prob.fill(0.5)
-        for idx in range(len(X)):
-            if y[idx] == self.min_label:
-                prob[idx, 0], prob[idx, 1] = 0.0, 1.0
-            else:
-                prob[idx, 0], prob[idx, 1] = 1.0, 0.0
-
-        # Finding nearest neighbors, +1 as X_syn is part of X_all and nearest
-        # neighbors will be themselves
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.params["b"] + 1, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X_all)
-        indices = nnmt.kneighbors(X_syn, return_distance=False)
-
-        # computing distances
-        distm = pairwise_distances_mahalanobis(
-            X_syn, Y=X_all, tensor=nn_params.get("metric_tensor", None)
-        )
-
-        distm[distm == 0] = 1e-8
-        distm = 1.0 / distm
-        distm[distm > self.params["alpha"]] = self.params["alpha"]
-
-        # executing the evolution
-        for _ in range(self.params["h"]):
-            prob = self.evolution(
-                prob=prob, X=X, X_syn=X_syn, indices=indices, distm=distm
-            )
-
-        # determining final labels
-        y_all[len(X) :] = np.where(
-            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
-        )
-
-        return X_all, y_all
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "smote_n_neighbors": self.smote_n_neighbors,
-            "b": self.params["b"],
-            "alpha": self.params["alpha"],
-            "h": self.params["h"],
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the NEATER method.
+"""
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base._simplexsampling import array_array_index
+from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
+from ..base import OverSampling
+from ._smote import SMOTE
+from ._adasyn import ADASYN
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["NEATER"]
+
+
+class NEATER(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{neater,
+                            author={Almogahed, B. A. and Kakadiaris, I. A.},
+                            booktitle={2014 22nd International Conference on
+                                         Pattern Recognition},
+                            title={NEATER: Filtering of Over-sampled Data
+                                    Using Non-cooperative Game Theory},
+                            year={2014},
+                            volume={},
+                            number={},
+                            pages={1371-1376},
+                            keywords={data handling;game theory;information
+                                        filtering;NEATER;imbalanced data
+                                        problem;synthetic data;filtering of
+                                        over-sampled data using non-cooperative
+                                        game theory;Games;Game theory;Vectors;
+                                        Sociology;Statistics;Silicon;
+                                        Mathematical model},
+                            doi={10.1109/ICPR.2014.245},
+                            ISSN={1051-4651},
+                            month={Aug}}
+
+    Notes:
+        * Evolving both majority and minority probabilities as nothing ensures
+            that the probabilities remain in the range [0,1], and they need to
+            be normalized.
+        * The inversely weighted function needs to be cut at some value (like
+            the alpha level), otherwise it will overemphasize the utility of
+            having differing neighbors next to each other.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        smote_n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        b=5,
+        alpha=0.1,
+        h=20,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            smote_n_neighbors (int): number of neighbors in SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): the simplex sampling parameters
+            b (int): number of neighbors
+            alpha (float): smoothing term
+            h (int): number of iterations in evolution
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(smote_n_neighbors, "smote_n_neighbors", 1)
+        self.check_greater_or_equal(b, "b", 1)
+        self.check_greater_or_equal(alpha, "alpha", 0)
+        self.check_greater_or_equal(h, "h", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.smote_n_neighbors = smote_n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = ss_params
+        self.params = {"b": b, "alpha": alpha, "h": h}
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "smote_n_neighbors": [3, 5, 7],
+            "b": [3, 5, 7],
+            "alpha": [0.1],
+            "h": [20],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    # def wprob_mixed(self, prob, i, indices, distm, offset):
+    #    ind = indices[i][1:]
+    #    term_0 = 1*prob[offset + i][0]*prob[ind, 0]
+    #    term_1 = distm[i, ind]*(prob[offset + i][1]*prob[ind, 0] +
+    #                            prob[offset + i][0]*prob[ind, 1])
+    #    term_2 = 1*prob[offset + i][1]*prob[ind, 1]
+    #    print(term_1.shape, term_2.shape)
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_mixed_vectorized(self, prob, indices, distm, offset):
+        """
+        Compute the mixed terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+            offset (int): offsetting the indices
+
+        Returns:
+            np.array: the mixed terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 1 * prob[offset:, 0][:, None] * prob[ind][:, :, 0]
+        term_1_b = (
+            prob[offset:, 1] * prob[ind][:, :, 0].T
+            + prob[offset:, 0] * prob[ind][:, :, 1].T
+        )
+        term_1 = array_array_index(distm, ind) * term_1_b.T
+        term_2 = 1 * prob[offset:, 1][:, None] * prob[ind][:, :, 1]
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    # def wprob_min(self, prob, i, indices, distm):
+    #    term_0 = 0*prob[indices[i][1:], 0]
+    #    term_1 = distm[i, indices[i][1:]]*(1*prob[indices[i][1:], 0] +
+    #                                    0*prob[indices[i][1:], 1])
+    #    term_2 = 1*prob[indices[i][1:], 1]
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_min_vectorized(self, prob, indices, distm):
+        """
+        Compute the minority terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+
+        Returns:
+            np.array: the minority terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 0 * prob[ind, 0]
+        term_1 = array_array_index(distm, ind) * (
+            1 * prob[ind][:, :, 0] + 0 * prob[ind][:, :, 1]
+        )
+        term_2 = 1 * prob[ind][:, :, 1]
+
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    # def wprob_maj(self, prob, i, indices, distm):
+    #    term_0 = 1*prob[indices[i][1:], 0]
+    #    term_1 = distm[i, indices[i][1:]]*(0*prob[indices[i][1:], 0] +
+    #                                    1*prob[indices[i][1:], 1])
+    #    term_2 = 0*prob[indices[i][1:], 1]
+    #    return np.sum(term_0 + term_1 + term_2)
+
+    def wprob_maj_vectorized(self, prob, indices, distm):
+        """
+        Compute the majority terms
+
+        Args:
+            prob (np.array): probabilities
+            indices (np.array): neighborhood structure
+            distm (np.array): distance matrix
+
+        Returns:
+            np.array: the minority terms
+        """
+        ind = indices[:, 1:]
+        term_0 = 1 * prob[ind, 0]
+        term_1 = array_array_index(distm, ind) * (
+            0 * prob[ind][:, :, 0] + 1 * prob[ind][:, :, 1]
+        )
+        term_2 = 0 * prob[ind][:, :, 1]
+
+        return np.sum(term_0 + term_1 + term_2, axis=1)
+
+    def utilities(self, prob, X, indices, distm):
+        """
+        Computes the utilit function
+
+        Args:
+            prob (np.array): strategy probabilities
+            X (np.array): the training vectors
+            indices (np.array): the neighborhood structure
+            distm (np.array): the distance matrix
+
+        Returns:
+            np.array, np.array, np.array: utility values, minority
+                                            utilities, majority
+                                            utilities
+        """
+
+        # domain = range(len(X_syn))
+        offset = len(X)
+        # util_mixed = np.array([self.wprob_mixed(prob, i, indices, distm,
+        #                                       offset=offset) for i in domain])
+        util_mixed = self.wprob_mixed_vectorized(prob, indices, distm, offset)
+        util_mixed = np.hstack([np.repeat(0, X.shape[0]), util_mixed])
+
+        # util_min = np.array([self.wprob_min(prob, i, indices, distm) for i in domain])
+        util_min = self.wprob_min_vectorized(prob, indices, distm)
+        util_min = np.hstack([np.repeat(0, X.shape[0]), util_min])
+
+        # util_maj = np.array([self.wprob_maj(prob, i, indices, distm) for i in domain])
+        util_maj = self.wprob_maj_vectorized(prob, indices, distm)
+        util_maj = np.hstack([np.repeat(0, X.shape[0]), util_maj])
+
+        return util_mixed, util_min, util_maj
+
+    def evolution(
+        self,
+        *,
+        prob,
+        X,
+        X_syn,  # pylint: disable=invalid-name
+        indices,
+        distm,
+        alpha=None
+    ):
+        """
+        Executing one step of the probabilistic evolution
+
+        Args:
+            prob (np.array): strategy probabilities
+            X (np.array): original vectors
+            X_syn (np.array): new samples
+            indices (np.array): the neighborhood structure
+            distm (np.array): the distance matrix
+            alpha (float): smoothing function
+
+        Returns:
+            np.array: updated probabilities
+        """
+        # binary indicator indicating synthetic instances
+        synthetic = np.hstack(
+            [np.array([False] * len(X)), np.array([True] * len(X_syn))]
+        )
+
+        alpha = coalesce(alpha, self.params["alpha"])
+
+        util_mixed, util_min, util_maj = self.utilities(prob, X, indices, distm)
+
+        prob_new = prob.copy()
+        synthetic_values = prob[:, 1] * (alpha + util_min) / (alpha + util_mixed)
+        prob_new[:, 1] = np.where(synthetic, synthetic_values, prob[:, 1])
+
+        synthetic_values = prob[:, 0] * (alpha + util_maj) / (alpha + util_mixed)
+        prob_new[:, 0] = np.where(synthetic, synthetic_values, prob[:, 0])
+
+        norm_factor = np.sum(prob_new, axis=1)
+
+        prob_new[:, 0] = prob_new[:, 0] / norm_factor
+        prob_new[:, 1] = prob_new[:, 1] / norm_factor
+
+        return prob_new
+
+    def generate_new_samples(self, X, y, nn_params):
+        """
+        Generate new samples.
+
+        Args:
+            X (np.array): training vectors
+            y (np.array): the target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array: all vectors and targets
+        """
+        # Applying SMOTE and ADASYN
+        X_0, y_0 = SMOTE(  # pylint: disable=invalid-name
+            proportion=self.proportion,
+            n_neighbors=self.smote_n_neighbors,
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        X_1, y_1 = ADASYN(  # pylint: disable=invalid-name
+            n_neighbors=self.params["b"],
+            nn_params=nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        X_new = np.vstack([X_0, X_1[len(X) :]])
+        y_new = np.hstack([y_0, y_1[len(y) :]])
+
+        return X_new, y_new
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        X_all, y_all = self.generate_new_samples(X, y, nn_params)
+
+        X_syn = X_all[len(X) :]  # pylint: disable=invalid-name
+
+        # initializing strategy probabilities
+        prob = np.zeros(shape=(len(X_all), 2))
+        prob.fill(0.5)
+        for idx in range(len(X)):
+            if y[idx] == self.min_label:
+                prob[idx, 0], prob[idx, 1] = 0.0, 1.0
+            else:
+                prob[idx, 0], prob[idx, 1] = 1.0, 0.0
+
+        # Finding nearest neighbors, +1 as X_syn is part of X_all and nearest
+        # neighbors will be themselves
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=self.params["b"] + 1, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X_all)
+        indices = nnmt.kneighbors(X_syn, return_distance=False)
+
+        # computing distances
+        distm = pairwise_distances_mahalanobis(
+            X_syn, Y=X_all, tensor=nn_params.get("metric_tensor", None)
+        )
+
+        distm[distm == 0] = 1e-8
+        distm = 1.0 / distm
+        distm[distm > self.params["alpha"]] = self.params["alpha"]
+
+        # executing the evolution
+        for _ in range(self.params["h"]):
+            prob = self.evolution(
+                prob=prob, X=X, X_syn=X_syn, indices=indices, distm=distm
+            )
+
+        # determining final labels
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
+
+        return X_all, y_all
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "smote_n_neighbors": self.smote_n_neighbors,
+            "b": self.params["b"],
+            "alpha": self.params["alpha"],
+            "h": self.params["h"],
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 2074374..89adc6b 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -1,396 +1,396 @@
-"""
-This module implements the PDFOS method.
-"""
-
-import numpy as np
-from numpy.linalg import LinAlgError
-
-from scipy.special import expit
-
-from sklearn.preprocessing import StandardScaler
-
-from ..base import RandomStateMixin, coalesce
-from ..base import MetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["PDFOS", "FullRankTransformer", "PDFOSKDE"]
-
-
-class FullRankTransformer:
-    """
-    Transforms data into a lower dimensional full rank covariance
-    representation
-    """
-
-    def __init__(self, eps=0.002):
-        """
-        Constructor of the object.
-
-        Args:
-            eps (float): the tolerance
-        """
-        self.eps = eps
-        self.mean = None
-        self.transformation = None
-        self.n_dim = None
-
-    def fit(self, X):
-        """
-        Fits the transformer to the data
-
-        Args:
-            X (np.array): all vectors to fit on
-
-        Returns:
-            self: the fitted object
-        """
-        cov = np.cov(X, rowvar=False)
-        eigw, eigv = np.linalg.eig(cov)
-
-        eigw = np.real(eigw)
-        eigv = np.real(eigv)
-
-        eigv_f = eigv[:, eigw > self.eps]
-
-        self.mean = np.mean(X, axis=0)
-        self.transformation = eigv_f
-        self.n_dim = eigv_f.shape[1]
-
-        return self
-
-    def transform(self, X):
-        """
-        Transforms the data
-
-        Args:
-            X (np.array): the data to transform
-
-        Returns:
-            np.array: the transformed data
-        """
-        if X is None:
-            return None
-        return np.dot(X - self.mean, self.transformation)
-
-    def inverse_transform(self, X):
-        """
-        Inverse transformation
-
-        Args:
-            X (np.array): the data to inverse transform
-
-        Returns:
-            np.array: the inverse transformed data
-        """
-        return np.dot(X, self.transformation.T) + self.mean
-
-
-class PDFOSKDE(RandomStateMixin):
-    """
-    The KDE in PDFOS
-    """
-
-    def __init__(self, metric_learning=None, random_state=None):
-        """
-        Constructor of the PDFOS KDE estimation
-
-        Args:
-            metric_learning (str/None): metric learning method
-            random_state (int/None/np.random.RandomState): random state
-                                                            initializer
-        """
-        RandomStateMixin.__init__(self, random_state)
-        self.transformer = FullRankTransformer(eps=0.02)
-        self.metric_learning = coalesce(metric_learning, "cov_min")
-        self.S = None  # pylint: disable=invalid-name
-        self.X_base = None
-
-    def eq_5_0(self, sigma, m):  # pylint: disable=invalid-name
-        """
-        Eq (5) in the paper
-
-        Args:
-            sigma (float): the sigma value
-            m (int): the dimensionality
-
-        Returns:
-            float: the value of the equation
-        """
-        return sigma ** (-m) / ((2.0 * np.pi) ** (m / 2))
-
-    def eq_8_vectorized(self, X, sigma, S_inv):  # pylint: disable=invalid-name
-        """
-        Eq (8) in the paper
-
-        Args:
-            X (np.array): all training vectors
-            sigma (float): the sigma value
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            np.array: the result of the equation for all pairs of vectors
-        """
-        m = X.shape[1]  # pylint: disable=invalid-name
-
-        tmp = X[:, None] - X
-        tmp = np.einsum("ijk,kl,lji -> ij", tmp, S_inv, tmp.T)
-
-        numerator_9 = (np.sqrt(2) * sigma) ** (-m) * expit(
-            -(1 / (4 * sigma**2)) * tmp
-        )
-        numerator_5 = sigma ** (-m) * expit(-(1 / (2 * sigma**2)) * tmp)
-        denominator = (2 * np.pi) ** (m / 2)
-        eq_9 = numerator_9 / denominator
-        eq_5 = numerator_5 / denominator
-
-        return eq_9 - 2 * eq_5
-
-    def M(  # pylint: disable=invalid-name
-        self,
-        sigma,
-        X,
-        S_inv,  # pylint: disable=invalid-name
-    ):
-        """
-        Eq (7) in the paper
-
-        Args:
-            X (np.array): all training vectors
-            sigma (float): the sigma value
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            float: the value of the equation
-        """
-        m = X.shape[1]  # pylint: disable=invalid-name
-        total = np.sum(self.eq_8_vectorized(X, sigma, S_inv))
-
-        term_a = total / len(X) ** 2
-        term_b = 2.0 * self.eq_5_0(sigma, m) / len(X)
-        return term_a + term_b
-
-    def find_best_sigma(self, X, n_optimize, S_inv):  # pylint: disable=invalid-name
-        """
-        Find the best sigma parameter.
-
-        Args:
-            X (np.array): all training vectors
-            n_optimize (int): the number of vectors used for
-                                the estimation
-            S_inv (np.array): the inverse covariance matrix
-
-        Returns:
-            float: the best sigma value
-        """
-        # finding the best sigma parameter
-        best_sigma = 0
-        error = np.inf
-        # the dataset is reduced to make the optimization more efficient
-        domain = range(len(X))
-        n_to_choose = min([len(X), n_optimize])
-        X_reduced = X[  # pylint: disable=invalid-name
-            self.random_state.choice(
-                domain, n_to_choose, replace=False
-            )
-        ]
-
-        # we suppose that the data is normalized, thus, this search space
-        # should be meaningful
-        for sigma in np.logspace(-5, 2, num=20):
-            err = self.M(sigma, X_reduced, S_inv)
-            if err < error:
-                error = err
-                best_sigma = sigma
-        # _logger.info("%s: best sigma found %f",
-        #                self.__class__.__name__, best_sigma)
-
-        return best_sigma
-
-    def fit(self, X, X_ml, y_ml, n_optimize=100):  # pylint: disable=invalid-name
-        """
-        Fitting the kernel density estimator
-
-        Args:
-            X (np.array): the training vectors
-            X_ml (np.array): potential training vectors for
-                                    metric learning
-            y_ml (np.array): potential target labels for metric
-                                    learning
-            n_optimize (int): the number of random samples used
-                                for optimization
-
-        Returns:
-            obj: the fitted object
-        """
-        self.transformer.fit(X)
-
-        if self.transformer.n_dim == 0:
-            raise LinAlgError("the covariance matrix of the samples is zero")
-
-        X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
-
-        X_ml = self.transformer.transform(X_ml)
-
-        metrict = MetricTensor(metric_learning_method=self.metric_learning)
-        S_inv = metrict.tensor(X_ml, y_ml)  # pylint: disable=invalid-name
-        S = np.linalg.inv(S_inv)  # pylint: disable=invalid-name
-
-        best_sigma = self.find_best_sigma(X_trans, n_optimize, S_inv)
-
-        self.S = best_sigma * S
-        self.X_base = X_trans
-
-        return self
-
-    def sample(self, n_to_sample):
-        """
-        Draw a random sample from the fitted KDE
-
-        Args:
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples_raw = self.random_state.multivariate_normal(
-            np.repeat(0.0, self.X_base.shape[1]), self.S, size=n_to_sample
-        )
-
-        base_indices = self.random_state.choice(self.X_base.shape[0], n_to_sample)
-        unique_indices, unique_counts = np.unique(base_indices, return_counts=True)
-        samples = []
-        loc = 0
-        for idx, base_idx in enumerate(unique_indices):
-            samples.append(
-                self.X_base[base_idx] + samples_raw[loc : (loc + unique_counts[idx])]
-            )
-            loc = loc + unique_counts[idx]
-        samples = np.vstack(samples)
-        return self.transformer.inverse_transform(samples)
-
-
-class PDFOS(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{pdfos,
-                    title = "PDFOS: PDF estimation based over-sampling for
-                                imbalanced two-class problems",
-                    journal = "Neurocomputing",
-                    volume = "138",
-                    pages = "248 - 259",
-                    year = "2014",
-                    issn = "0925-2312",
-                    doi = "https://doi.org/10.1016/j.neucom.2014.02.006",
-                    author = "Ming Gao and Xia Hong and Sheng Chen and Chris
-                                J. Harris and Emad Khalaf",
-                    keywords = "Imbalanced classification, Probability density
-                                function based over-sampling, Radial basis
-                                function classifier, Orthogonal forward
-                                selection, Particle swarm optimisation"
-                    }
-
-    Notes:
-        * Not prepared for low-rank data.
-    """
-
-    categories = [OverSampling.cat_extensive, OverSampling.cat_density_estimation]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        metric_learning=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            metric_learning (str/None): optional metric learning method 'ITML',
-                                        'LSML'
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.metric_learning = metric_learning
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {"proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0]}
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, n_to_sample)
-
-        # scaling the data to aid numerical stability
-        scaler = StandardScaler()
-        X_scaled = scaler.fit_transform(X)  # pylint: disable=invalid-name
-
-        X_min = X_scaled[y == self.min_label]
-
-        # generating samples by kernel density estimation
-        try:
-            kde = PDFOSKDE(
-                metric_learning=self.metric_learning,
-                random_state=self._random_state_init,
-            ).fit(X_min, X_ml=X_scaled, y_ml=y)
-        except LinAlgError as exc:
-            return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
-        samples = kde.sample(n_to_sample)
-
-        return (
-            np.vstack([X, scaler.inverse_transform(samples)]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "metric_learning": self.metric_learning,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the PDFOS method.
+"""
+
+import numpy as np
+from numpy.linalg import LinAlgError
+
+from scipy.special import expit
+
+from sklearn.preprocessing import StandardScaler
+
+from ..base import RandomStateMixin, coalesce
+from ..base import MetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["PDFOS", "FullRankTransformer", "PDFOSKDE"]
+
+
+class FullRankTransformer:
+    """
+    Transforms data into a lower dimensional full rank covariance
+    representation
+    """
+
+    def __init__(self, eps=0.002):
+        """
+        Constructor of the object.
+
+        Args:
+            eps (float): the tolerance
+        """
+        self.eps = eps
+        self.mean = None
+        self.transformation = None
+        self.n_dim = None
+
+    def fit(self, X):
+        """
+        Fits the transformer to the data
+
+        Args:
+            X (np.array): all vectors to fit on
+
+        Returns:
+            self: the fitted object
+        """
+        cov = np.cov(X, rowvar=False)
+        eigw, eigv = np.linalg.eig(cov)
+
+        eigw = np.real(eigw)
+        eigv = np.real(eigv)
+
+        eigv_f = eigv[:, eigw > self.eps]
+
+        self.mean = np.mean(X, axis=0)
+        self.transformation = eigv_f
+        self.n_dim = eigv_f.shape[1]
+
+        return self
+
+    def transform(self, X):
+        """
+        Transforms the data
+
+        Args:
+            X (np.array): the data to transform
+
+        Returns:
+            np.array: the transformed data
+        """
+        if X is None:
+            return None
+        return np.dot(X - self.mean, self.transformation)
+
+    def inverse_transform(self, X):
+        """
+        Inverse transformation
+
+        Args:
+            X (np.array): the data to inverse transform
+
+        Returns:
+            np.array: the inverse transformed data
+        """
+        return np.dot(X, self.transformation.T) + self.mean
+
+
+class PDFOSKDE(RandomStateMixin):
+    """
+    The KDE in PDFOS
+    """
+
+    def __init__(self, metric_learning=None, random_state=None):
+        """
+        Constructor of the PDFOS KDE estimation
+
+        Args:
+            metric_learning (str/None): metric learning method
+            random_state (int/None/np.random.RandomState): random state
+                                                            initializer
+        """
+        RandomStateMixin.__init__(self, random_state)
+        self.transformer = FullRankTransformer(eps=0.02)
+        self.metric_learning = coalesce(metric_learning, "cov_min")
+        self.S = None  # pylint: disable=invalid-name
+        self.X_base = None
+
+    def eq_5_0(self, sigma, m):  # pylint: disable=invalid-name
+        """
+        Eq (5) in the paper
+
+        Args:
+            sigma (float): the sigma value
+            m (int): the dimensionality
+
+        Returns:
+            float: the value of the equation
+        """
+        return sigma ** (-m) / ((2.0 * np.pi) ** (m / 2))
+
+    def eq_8_vectorized(self, X, sigma, S_inv):  # pylint: disable=invalid-name
+        """
+        Eq (8) in the paper
+
+        Args:
+            X (np.array): all training vectors
+            sigma (float): the sigma value
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            np.array: the result of the equation for all pairs of vectors
+        """
+        m = X.shape[1]  # pylint: disable=invalid-name
+
+        tmp = X[:, None] - X
+        tmp = np.einsum("ijk,kl,lji -> ij", tmp, S_inv, tmp.T)
+
+        numerator_9 = (np.sqrt(2) * sigma) ** (-m) * expit(
+            -(1 / (4 * sigma**2)) * tmp
+        )
+        numerator_5 = sigma ** (-m) * expit(-(1 / (2 * sigma**2)) * tmp)
+        denominator = (2 * np.pi) ** (m / 2)
+        eq_9 = numerator_9 / denominator
+        eq_5 = numerator_5 / denominator
+
+        return eq_9 - 2 * eq_5
+
+    def M(  # pylint: disable=invalid-name
+        self,
+        sigma,
+        X,
+        S_inv,  # pylint: disable=invalid-name
+    ):
+        """
+        Eq (7) in the paper
+
+        Args:
+            X (np.array): all training vectors
+            sigma (float): the sigma value
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            float: the value of the equation
+        """
+        m = X.shape[1]  # pylint: disable=invalid-name
+        total = np.sum(self.eq_8_vectorized(X, sigma, S_inv))
+
+        term_a = total / len(X) ** 2
+        term_b = 2.0 * self.eq_5_0(sigma, m) / len(X)
+        return term_a + term_b
+
+    def find_best_sigma(self, X, n_optimize, S_inv):  # pylint: disable=invalid-name
+        """
+        Find the best sigma parameter.
+
+        Args:
+            X (np.array): all training vectors
+            n_optimize (int): the number of vectors used for
+                                the estimation
+            S_inv (np.array): the inverse covariance matrix
+
+        Returns:
+            float: the best sigma value
+        """
+        # finding the best sigma parameter
+        best_sigma = 0
+        error = np.inf
+        # the dataset is reduced to make the optimization more efficient
+        domain = range(len(X))
+        n_to_choose = min([len(X), n_optimize])
+        X_reduced = X[  # pylint: disable=invalid-name
+            self.random_state.choice(
+                domain, n_to_choose, replace=False
+            )
+        ]
+
+        # we suppose that the data is normalized, thus, this search space
+        # should be meaningful
+        for sigma in np.logspace(-5, 2, num=20):
+            err = self.M(sigma, X_reduced, S_inv)
+            if err < error:
+                error = err
+                best_sigma = sigma
+        # _logger.info("%s: best sigma found %f",
+        #                self.__class__.__name__, best_sigma)
+
+        return best_sigma
+
+    def fit(self, X, X_ml, y_ml, n_optimize=100):  # pylint: disable=invalid-name
+        """
+        Fitting the kernel density estimator
+
+        Args:
+            X (np.array): the training vectors
+            X_ml (np.array): potential training vectors for
+                                    metric learning
+            y_ml (np.array): potential target labels for metric
+                                    learning
+            n_optimize (int): the number of random samples used
+                                for optimization
+
+        Returns:
+            obj: the fitted object
+        """
+        self.transformer.fit(X)
+
+        if self.transformer.n_dim == 0:
+            raise LinAlgError("the covariance matrix of the samples is zero")
+
+        X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
+
+        X_ml = self.transformer.transform(X_ml)
+
+        metrict = MetricTensor(metric_learning_method=self.metric_learning)
+        S_inv = metrict.tensor(X_ml, y_ml)  # pylint: disable=invalid-name
+        S = np.linalg.inv(S_inv)  # pylint: disable=invalid-name
+
+        best_sigma = self.find_best_sigma(X_trans, n_optimize, S_inv)
+
+        self.S = best_sigma * S
+        self.X_base = X_trans
+
+        return self
+
+    def sample(self, n_to_sample):
+        """
+        Draw a random sample from the fitted KDE
+
+        Args:
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples_raw = self.random_state.multivariate_normal(
+            np.repeat(0.0, self.X_base.shape[1]), self.S, size=n_to_sample
+        )
+
+        base_indices = self.random_state.choice(self.X_base.shape[0], n_to_sample)
+        unique_indices, unique_counts = np.unique(base_indices, return_counts=True)
+        samples = []
+        loc = 0
+        for idx, base_idx in enumerate(unique_indices):
+            samples.append(
+                self.X_base[base_idx] + samples_raw[loc : (loc + unique_counts[idx])]
+            )
+            loc = loc + unique_counts[idx]
+        samples = np.vstack(samples)
+        return self.transformer.inverse_transform(samples)
+
+
+class PDFOS(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{pdfos,
+                    title = "PDFOS: PDF estimation based over-sampling for
+                                imbalanced two-class problems",
+                    journal = "Neurocomputing",
+                    volume = "138",
+                    pages = "248 - 259",
+                    year = "2014",
+                    issn = "0925-2312",
+                    doi = "https://doi.org/10.1016/j.neucom.2014.02.006",
+                    author = "Ming Gao and Xia Hong and Sheng Chen and Chris
+                                J. Harris and Emad Khalaf",
+                    keywords = "Imbalanced classification, Probability density
+                                function based over-sampling, Radial basis
+                                function classifier, Orthogonal forward
+                                selection, Particle swarm optimisation"
+                    }
+
+    Notes:
+        * Not prepared for low-rank data.
+    """
+
+    categories = [OverSampling.cat_extensive, OverSampling.cat_density_estimation]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        metric_learning=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            metric_learning (str/None): optional metric learning method 'ITML',
+                                        'LSML'
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.metric_learning = metric_learning
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {"proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0]}
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, n_to_sample)
+
+        # scaling the data to aid numerical stability
+        scaler = StandardScaler()
+        X_scaled = scaler.fit_transform(X)  # pylint: disable=invalid-name
+
+        X_min = X_scaled[y == self.min_label]
+
+        # generating samples by kernel density estimation
+        try:
+            kde = PDFOSKDE(
+                metric_learning=self.metric_learning,
+                random_state=self._random_state_init,
+            ).fit(X_min, X_ml=X_scaled, y_ml=y)
+        except LinAlgError as exc:
+            return self.return_copies(X, y, f"kde fitting did not succeed {exc}")
+        samples = kde.sample(n_to_sample)
+
+        return (
+            np.vstack([X, scaler.inverse_transform(samples)]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index b5d8fef..725f092 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -1,185 +1,185 @@
-"""
-This module implements the SL_graph_SMOTE method.
-"""
-import warnings
-
-import numpy as np
-
-from scipy.stats import skew
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from ..config import suppress_external_warnings
-from ._safe_level_smote import Safe_Level_SMOTE
-from ._borderline_smote import Borderline_SMOTE1
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SL_graph_SMOTE"]
-
-
-class SL_graph_SMOTE(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @inproceedings{sl_graph_smote,
-                    author = {Bunkhumpornpat,
-                        Chumpol and Subpaiboonkit, Sitthichoke},
-                    booktitle= {13th International Symposium on Communications
-                                and Information Technologies},
-                    year = {2013},
-                    month = {09},
-                    pages = {570-575},
-                    title = {Safe level graph for synthetic minority
-                                over-sampling techniques},
-                    isbn = {978-1-4673-5578-0}
-                    }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_borderline,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                    to sample e.g. 1.0 means that after
-                                    sampling the number of minority samples
-                                    will be equal to the number of majority
-                                    samples
-            n_neighbors (int): number of neighbors in nearest neighbors
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # Fitting nearest neighbors model
-        n_neighbors = min([len(X), self.n_neighbors])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
-
-        # Computing safe level values
-        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
-
-        # Computing skewness
-        with warnings.catch_warnings():
-            if suppress_external_warnings():
-                warnings.simplefilter("ignore")
-            skewness = skew(safe_level_values)
-
-        if skewness < 0:
-            # left skewed
-            sampler = Safe_Level_SMOTE(
-                proportion=self.proportion,
-                n_neighbors=self.n_neighbors,
-                nn_params=nn_params,
-                ss_params=self.ss_params,
-                n_jobs=self.n_jobs,
-                random_state=self._random_state_init,
-            )
-        else:
-            # right skewed
-            sampler = Borderline_SMOTE1(
-                proportion=self.proportion,
-                n_neighbors=self.n_neighbors,
-                nn_params=nn_params,
-                ss_params=self.ss_params,
-                n_jobs=self.n_jobs,
-                random_state=self._random_state_init,
-            )
-
-        return sampler.sample(X, y)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SL_graph_SMOTE method.
+"""
+import warnings
+
+import numpy as np
+
+from scipy.stats import skew
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from ..config import suppress_external_warnings
+from ._safe_level_smote import Safe_Level_SMOTE
+from ._borderline_smote import Borderline_SMOTE1
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SL_graph_SMOTE"]
+
+
+class SL_graph_SMOTE(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @inproceedings{sl_graph_smote,
+                    author = {Bunkhumpornpat,
+                        Chumpol and Subpaiboonkit, Sitthichoke},
+                    booktitle= {13th International Symposium on Communications
+                                and Information Technologies},
+                    year = {2013},
+                    month = {09},
+                    pages = {570-575},
+                    title = {Safe level graph for synthetic minority
+                                over-sampling techniques},
+                    isbn = {978-1-4673-5578-0}
+                    }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_borderline,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                    to sample e.g. 1.0 means that after
+                                    sampling the number of minority samples
+                                    will be equal to the number of majority
+                                    samples
+            n_neighbors (int): number of neighbors in nearest neighbors
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # Fitting nearest neighbors model
+        n_neighbors = min([len(X), self.n_neighbors])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
+
+        # Computing safe level values
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
+
+        # Computing skewness
+        with warnings.catch_warnings():
+            if suppress_external_warnings():
+                warnings.simplefilter("ignore")
+            skewness = skew(safe_level_values)
+
+        if skewness < 0:
+            # left skewed
+            sampler = Safe_Level_SMOTE(
+                proportion=self.proportion,
+                n_neighbors=self.n_neighbors,
+                nn_params=nn_params,
+                ss_params=self.ss_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
+        else:
+            # right skewed
+            sampler = Borderline_SMOTE1(
+                proportion=self.proportion,
+                n_neighbors=self.n_neighbors,
+                nn_params=nn_params,
+                ss_params=self.ss_params,
+                n_jobs=self.n_jobs,
+                random_state=self._random_state_init,
+            )
+
+        return sampler.sample(X, y)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index a09dcc4..c228097 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -1,240 +1,240 @@
-"""
-This module implements the SMMO method.
-"""
-import warnings
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSamplingSimplex
-from ..base import instantiate_obj
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMMO"]
-
-
-class SMMO(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{smmo,
-                            author = {de la Calleja, Jorge and Fuentes, Olac
-                                        and González, Jesús},
-                            booktitle= {Proceedings of the Twenty-First
-                                        International Florida Artificial
-                                        Intelligence Research Society
-                                        Conference},
-                            year = {2008},
-                            month = {01},
-                            pages = {276-281},
-                            title = {Selecting Minority Examples from
-                                    Misclassified Data for Over-Sampling.}
-                            }
-
-    Notes:
-        * In this paper the ensemble is not specified. I have selected
-            some very fast, basic classifiers.
-        * Also, it is not clear what the authors mean by "weighted distance".
-        * The original technique is not prepared for the case when no minority
-            samples are classified correctly be the ensemble.
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_borderline,
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_classifier,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        ensemble=(
-            ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
-            ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-            ("sklearn.naive_bayes", "GaussianNB", {}),
-        ),
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): control parameter of the nearest neighbor
-                                component
-            ensemble (iterable): list of classifiers, if None, default list of
-                                classifiers is used
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.ensemble = ensemble
-        self.ensemble_objs = [instantiate_obj(e) for e in ensemble]
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        ensembles = [
-            [
-                ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
-                ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-                ("sklearn.naive_bayes", "GaussianNB", {}),
-            ]
-        ]
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "ensemble": ensembles,
-        }
-
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def generate_samples(self, X_min, ind, n_to_sample):
-        """
-        Generate the samples.
-
-        Args:
-            X_min (np.array): minority samples
-            ind (np.array): neighborhood structure
-            n_to_sample (int): number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        X_means = np.mean(X_min[ind[:, 1:]], axis=1)  # pylint: disable=invalid-name
-        base_indices = self.random_state.choice(
-            np.arange(X_means.shape[0]), n_to_sample
-        )
-        base_ind, base_counts = np.unique(base_indices, return_counts=True)
-        samples = []
-        for idx, index in enumerate(base_ind):
-            cluster = np.array([X_means[index]])
-            indices = np.array([np.hstack([np.array([0]), np.arange(len(cluster))])])
-            X_vertices = X_min[ind[index][indices[0]][1:]]
-            samples.append(
-                self.sample_simplex(
-                    X=cluster,
-                    indices=indices,
-                    n_to_sample=base_counts[idx],
-                    X_vertices=X_vertices,
-                )
-            )
-
-        samples = np.vstack(samples)
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # determine the number of samples to generate
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # training and in-sample prediction (out-of-sample by k-fold cross
-        # validation might be better)
-        predictions = []
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            for ens in self.ensemble_objs:
-                predictions.append(ens.fit(X, y).predict(X))
-
-        # constructing ensemble prediction
-        pred = np.where(
-            np.mean(np.vstack(predictions) == self.min_label, axis=0) > 0.5,
-            self.min_label,
-            self.maj_label,
-        )
-
-        # create mask of minority samples to sample
-        mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
-        if len(mask_to_sample) < 2:
-            return self.return_copies(
-                X, y, "Not enough minority samples " f"selected {len(mask_to_sample)}"
-            )
-
-        X_min = X[y == self.min_label]
-        X_min_to_sample = X[mask_to_sample]  # pylint: disable=invalid-name
-
-        # fitting nearest neighbors model for sampling
-        n_neighbors = min([len(X_min), self.n_neighbors + 1])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X_min)
-        ind = nnmt.kneighbors(X_min_to_sample, return_distance=False)
-
-        samples = self.generate_samples(X_min, ind, n_to_sample)
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.repeat(self.min_label, len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "ensemble": self.ensemble,
-            "nn_params": self.nn_params,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self, deep),
-        }
+"""
+This module implements the SMMO method.
+"""
+import warnings
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSamplingSimplex
+from ..base import instantiate_obj
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMMO"]
+
+
+class SMMO(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{smmo,
+                            author = {de la Calleja, Jorge and Fuentes, Olac
+                                        and González, Jesús},
+                            booktitle= {Proceedings of the Twenty-First
+                                        International Florida Artificial
+                                        Intelligence Research Society
+                                        Conference},
+                            year = {2008},
+                            month = {01},
+                            pages = {276-281},
+                            title = {Selecting Minority Examples from
+                                    Misclassified Data for Over-Sampling.}
+                            }
+
+    Notes:
+        * In this paper the ensemble is not specified. I have selected
+            some very fast, basic classifiers.
+        * Also, it is not clear what the authors mean by "weighted distance".
+        * The original technique is not prepared for the case when no minority
+            samples are classified correctly be the ensemble.
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_borderline,
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_classifier,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        ensemble=(
+            ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
+            ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+            ("sklearn.naive_bayes", "GaussianNB", {}),
+        ),
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): control parameter of the nearest neighbor
+                                component
+            ensemble (iterable): list of classifiers, if None, default list of
+                                classifiers is used
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.ensemble = ensemble
+        self.ensemble_objs = [instantiate_obj(e) for e in ensemble]
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        ensembles = [
+            [
+                ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis", {}),
+                ("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+                ("sklearn.naive_bayes", "GaussianNB", {}),
+            ]
+        ]
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "ensemble": ensembles,
+        }
+
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def generate_samples(self, X_min, ind, n_to_sample):
+        """
+        Generate the samples.
+
+        Args:
+            X_min (np.array): minority samples
+            ind (np.array): neighborhood structure
+            n_to_sample (int): number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        X_means = np.mean(X_min[ind[:, 1:]], axis=1)  # pylint: disable=invalid-name
+        base_indices = self.random_state.choice(
+            np.arange(X_means.shape[0]), n_to_sample
+        )
+        base_ind, base_counts = np.unique(base_indices, return_counts=True)
+        samples = []
+        for idx, index in enumerate(base_ind):
+            cluster = np.array([X_means[index]])
+            indices = np.array([np.hstack([np.array([0]), np.arange(len(cluster))])])
+            X_vertices = X_min[ind[index][indices[0]][1:]]
+            samples.append(
+                self.sample_simplex(
+                    X=cluster,
+                    indices=indices,
+                    n_to_sample=base_counts[idx],
+                    X_vertices=X_vertices,
+                )
+            )
+
+        samples = np.vstack(samples)
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # determine the number of samples to generate
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # training and in-sample prediction (out-of-sample by k-fold cross
+        # validation might be better)
+        predictions = []
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            for ens in self.ensemble_objs:
+                predictions.append(ens.fit(X, y).predict(X))
+
+        # constructing ensemble prediction
+        pred = np.where(
+            np.mean(np.vstack(predictions) == self.min_label, axis=0) > 0.5,
+            self.min_label,
+            self.maj_label,
+        )
+
+        # create mask of minority samples to sample
+        mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
+        if len(mask_to_sample) < 2:
+            return self.return_copies(
+                X, y, "Not enough minority samples " f"selected {len(mask_to_sample)}"
+            )
+
+        X_min = X[y == self.min_label]
+        X_min_to_sample = X[mask_to_sample]  # pylint: disable=invalid-name
+
+        # fitting nearest neighbors model for sampling
+        n_neighbors = min([len(X_min), self.n_neighbors + 1])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X_min)
+        ind = nnmt.kneighbors(X_min_to_sample, return_distance=False)
+
+        samples = self.generate_samples(X_min, ind, n_to_sample)
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.repeat(self.min_label, len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "ensemble": self.ensemble,
+            "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self, deep),
+        }
diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index b14b32d..be1ae29 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -1,232 +1,232 @@
-"""
-This module implements the SMOTE_IPF method.
-"""
-
-import numpy as np
-
-from sklearn.model_selection import StratifiedKFold
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-from ..base import instantiate_obj
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMOTE_IPF"]
-
-
-class SMOTE_IPF(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{smote_ipf,
-                        title = "SMOTE–IPF: Addressing the noisy and borderline
-                                    examples problem in imbalanced
-                                    classification by a re-sampling method
-                                    with filtering",
-                        journal = "Information Sciences",
-                        volume = "291",
-                        pages = "184 - 203",
-                        year = "2015",
-                        issn = "0020-0255",
-                        doi = "https://doi.org/10.1016/j.ins.2014.08.051",
-                        author = "José A. Sáez and Julián Luengo and Jerzy
-                                    Stefanowski and Francisco Herrera",
-                        keywords = "Imbalanced classification,
-                                        Borderline examples,
-                                        Noisy data,
-                                        Noise filters,
-                                        SMOTE"
-                        }
-    """
-
-    categories = [
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_folds=9,
-        k=3,
-        p=0.01,
-        voting="majority",
-        classifier=("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal
-                                to the number of majority samples
-            n_neighbors (int): number of neighbors in SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_folds (int): the number of partitions
-            k (int): used in stopping condition
-            p (float): percentage value ([0,1]) used in stopping condition
-            voting (str): 'majority'/'consensus'
-            classifier (obj): classifier object
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(n_folds, "n_folds", 2)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater_or_equal(p, "p", 0)
-        self.check_isin(voting, "voting", ["majority", "consensus"])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.params = {
-            "n_folds": n_folds,
-            "k": k,
-            "p": p,
-            "voting": voting,
-            "classifier": classifier,
-        }
-        self.classifier_obj = instantiate_obj(classifier)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        classifiers = [("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2})]
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7, 11, 17],
-            "n_folds": [9],
-            "k": [3],
-            "p": [0.01],
-            "voting": ["majority", "consensus"],
-            "classifier": classifiers,
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        # do SMOTE sampling
-        X_samp, y_samp = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
-
-        condition = 0
-        while condition < self.params["k"]:
-            # validating the sampled dataset
-            validator = StratifiedKFold(n_folds)
-            predictions = []
-            for train_index, _ in validator.split(X_samp, y_samp):
-                self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp))
-
-            # the votes on belonging to the minority class
-            min_votes = np.array(predictions) == self.min_label
-
-            # do decision based on one of the voting schemes
-            if self.params["voting"] == "majority":
-                pred_votes = np.where(
-                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
-                )
-                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
-            elif self.params["voting"] == "consensus":
-                pred_votes = np.where(
-                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
-                )
-                sum_votes = np.sum(min_votes, axis=0)
-                to_remove = np.where(
-                    np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
-                        np.equal(sum_votes, self.params["n_folds"]),
-                    )
-                )[0]
-
-            # delete samples incorrectly classified
-            _logger.info(
-                "%s: Removing %d elements", self.__class__.__name__, len(to_remove)
-            )
-            X_samp = np.delete(X_samp, to_remove, axis=0)
-            y_samp = np.delete(y_samp, to_remove)
-
-            # if the number of samples removed becomes small or k iterations
-            # were done quit
-            check = int(len(to_remove) < len(X_samp) * self.params["p"])
-            condition = (condition + 1) * check
-
-        return X_samp, y_samp
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_folds": self.params["n_folds"],
-            "k": self.params["k"],
-            "p": self.params["p"],
-            "voting": self.params["voting"],
-            "n_jobs": self.n_jobs,
-            "classifier": self.params["classifier"],
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SMOTE_IPF method.
+"""
+
+import numpy as np
+
+from sklearn.model_selection import StratifiedKFold
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+from ..base import instantiate_obj
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMOTE_IPF"]
+
+
+class SMOTE_IPF(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{smote_ipf,
+                        title = "SMOTE–IPF: Addressing the noisy and borderline
+                                    examples problem in imbalanced
+                                    classification by a re-sampling method
+                                    with filtering",
+                        journal = "Information Sciences",
+                        volume = "291",
+                        pages = "184 - 203",
+                        year = "2015",
+                        issn = "0020-0255",
+                        doi = "https://doi.org/10.1016/j.ins.2014.08.051",
+                        author = "José A. Sáez and Julián Luengo and Jerzy
+                                    Stefanowski and Francisco Herrera",
+                        keywords = "Imbalanced classification,
+                                        Borderline examples,
+                                        Noisy data,
+                                        Noise filters,
+                                        SMOTE"
+                        }
+    """
+
+    categories = [
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_folds=9,
+        k=3,
+        p=0.01,
+        voting="majority",
+        classifier=("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2}),
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal
+                                to the number of majority samples
+            n_neighbors (int): number of neighbors in SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_folds (int): the number of partitions
+            k (int): used in stopping condition
+            p (float): percentage value ([0,1]) used in stopping condition
+            voting (str): 'majority'/'consensus'
+            classifier (obj): classifier object
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(n_folds, "n_folds", 2)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater_or_equal(p, "p", 0)
+        self.check_isin(voting, "voting", ["majority", "consensus"])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.params = {
+            "n_folds": n_folds,
+            "k": k,
+            "p": p,
+            "voting": voting,
+            "classifier": classifier,
+        }
+        self.classifier_obj = instantiate_obj(classifier)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        classifiers = [("sklearn.tree", "DecisionTreeClassifier", {"random_state": 2})]
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7, 11, 17],
+            "n_folds": [9],
+            "k": [3],
+            "p": [0.01],
+            "voting": ["majority", "consensus"],
+            "classifier": classifiers,
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        # do SMOTE sampling
+        X_samp, y_samp = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        n_folds = min([self.params["n_folds"], np.sum(y == self.min_label)])
+
+        condition = 0
+        while condition < self.params["k"]:
+            # validating the sampled dataset
+            validator = StratifiedKFold(n_folds)
+            predictions = []
+            for train_index, _ in validator.split(X_samp, y_samp):
+                self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
+                predictions.append(self.classifier_obj.predict(X_samp))
+
+            # the votes on belonging to the minority class
+            min_votes = np.array(predictions) == self.min_label
+
+            # do decision based on one of the voting schemes
+            if self.params["voting"] == "majority":
+                pred_votes = np.where(
+                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
+                )
+                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
+            elif self.params["voting"] == "consensus":
+                pred_votes = np.where(
+                    np.mean(min_votes, axis=0) > 0.5, self.min_label, self.maj_label
+                )
+                sum_votes = np.sum(min_votes, axis=0)
+                to_remove = np.where(
+                    np.logical_and(
+                        np.not_equal(pred_votes, y_samp),
+                        np.equal(sum_votes, self.params["n_folds"]),
+                    )
+                )[0]
+
+            # delete samples incorrectly classified
+            _logger.info(
+                "%s: Removing %d elements", self.__class__.__name__, len(to_remove)
+            )
+            X_samp = np.delete(X_samp, to_remove, axis=0)
+            y_samp = np.delete(y_samp, to_remove)
+
+            # if the number of samples removed becomes small or k iterations
+            # were done quit
+            check = int(len(to_remove) < len(X_samp) * self.params["p"])
+            condition = (condition + 1) * check
+
+        return X_samp, y_samp
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_folds": self.params["n_folds"],
+            "k": self.params["k"],
+            "p": self.params["p"],
+            "voting": self.params["voting"],
+            "n_jobs": self.n_jobs,
+            "classifier": self.params["classifier"],
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_smote_pso.py b/smote_variants/oversampling/_smote_pso.py
index 4a2985a..5ac4b45 100755
--- a/smote_variants/oversampling/_smote_pso.py
+++ b/smote_variants/oversampling/_smote_pso.py
@@ -1,642 +1,642 @@
-"""
-This module implements the SMOTE_PSO method.
-"""
-
-import numpy as np
-
-from sklearn.svm import SVC
-from sklearn.preprocessing import StandardScaler
-from sklearn.metrics import roc_auc_score
-
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SMOTE_PSO"]
-
-
-class SMOTE_PSO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{smote_pso,
-                        title = "PSO-based method for SVM classification on
-                                    skewed data sets",
-                        journal = "Neurocomputing",
-                        volume = "228",
-                        pages = "187 - 197",
-                        year = "2017",
-                        note = "Advanced Intelligent Computing: Theory and
-                                    Applications",
-                        issn = "0925-2312",
-                        doi = "https://doi.org/10.1016/j.neucom.2016.10.041",
-                        author = "Jair Cervantes and Farid Garcia-Lamont and
-                                    Lisbeth Rodriguez and Asdrúbal López and
-                                    José Ruiz Castilla and Adrian Trueba",
-                        keywords = "Skew data sets, SVM, Hybrid algorithms"
-                        }
-
-    Notes:
-        * I find the description of the technique a bit confusing, especially
-            on the bounds of the search space of velocities and positions.
-            Equations 15 and 16 specify the lower and upper bounds, the lower
-            bound is in fact a vector while the upper bound is a distance.
-            I tried to implement something meaningful.
-        * I also find the setting of accelerating constant 2.0 strange, most
-            of the time the velocity will be bounded due to this choice.
-        * Also, training and predicting probabilities with a non-linear
-            SVM as the evaluation function becomes fairly expensive when the
-            number of training vectors reaches a couple of thousands. To
-            reduce computational burden, minority and majority vectors far
-            from the other class are removed to reduce the size of both
-            classes to a maximum of 500 samples. Generally, this shouldn't
-            really affect the results as the technique focuses on the samples
-            near the class boundaries.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_memetic,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        k=3,
-        *,
-        nn_params=None,
-        eps=0.01,
-        n_pop=10,
-        w=1.0,
-        c1=2.0,
-        c2=2.0,
-        num_it=15,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            k (int): number of neighbors in nearest neighbors component, this
-                        is also the multiplication factor of minority support
-                        vectors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            eps (float): use to specify the initially generated support
-                            vectors along minority-majority lines
-            n_pop (int): size of population
-            w (float): intertia constant
-            c1 (float): acceleration constant of local optimum
-            c2 (float): acceleration constant of population optimum
-            num_it (int): number of iterations
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(k, "k", 1)
-        self.check_greater(eps, "eps", 0)
-        self.check_greater_or_equal(n_pop, "n_pop", 1)
-        self.check_greater_or_equal(w, "w", 0)
-        self.check_greater_or_equal(c1, "c1", 0)
-        self.check_greater_or_equal(c2, "c2", 0)
-        self.check_greater_or_equal(num_it, "num_it", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.k = k  # pylint: disable=invalid-name
-        self.nn_params = nn_params or {}
-        self.params = {
-            "eps": eps,
-            "n_pop": n_pop,
-            "w": w,
-            "c1": c1,
-            "c2": c2,
-            "num_it": num_it,
-        }
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        return cls.generate_parameter_combinations(
-            {
-                "k": [3, 5, 7],
-                "eps": [0.01],
-                "n_pop": [5],
-                "w": [0.5, 1.0],
-                "c1": [1.0, 2.0],
-                "c2": [1.0, 2.0],
-                "num_it": [20],
-            },
-            raw,
-        )
-
-    # def remove_majority(self,
-    #                     performance_th,
-    #                     nn_params,
-    #                     X_scaled, # pylint: disable=invalid-name
-    #                     y):
-    #     """
-    #     Remove majority samples
-
-    #     Args:
-    #         performance_th (int): performance threshold
-    #         nn_params (dict): nearest neighbor parameters
-    #         X_scaled (np.array): scaled training vectors
-    #         y (np.array): target labels
-
-    #     Returns:
-    #         np.array, np.array: the filtered training vectors and target labels
-    #     """
-    #     n_maj_to_remove = np.sum(y == self.maj_label) - performance_th
-
-    #     if n_maj_to_remove <= 0:
-    #         return X_scaled, y
-
-    #     # if majority samples are to be removed
-    #     nnmt= NearestNeighborsWithMetricTensor(n_neighbors=1,
-    #                                             n_jobs=self.n_jobs,
-    #                                             **nn_params)
-    #     nnmt.fit(X_scaled[y == self.min_label])
-    #     dist, _ = nnmt.kneighbors(X_scaled)
-
-    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
-    #     dist = dist[y == self.maj_label]
-    #     dist = dist[dist[:, 0].argsort()[::-1]]
-
-    #     to_remove = dist[:, 1][:n_maj_to_remove]
-
-    #     # removing the samples
-    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
-    #     y = np.delete(y, to_remove)
-
-    #     return X_scaled, y
-
-    # def remove_minority(self,
-    #                     performance_th,
-    #                     nn_params,
-    #                     X_scaled, # pylint: disable=invalid-name
-    #                     y):
-    #     """
-    #     Remove minority samples
-
-    #     Args:
-    #         performance_th (int): performance threshold
-    #         nn_params (dict): nearest neighbor parameters
-    #         X_scaled (np.array): scaled training vectors
-    #         y (np.array): target labels
-
-    #     Returns:
-    #         np.array, np.array: the filtered training vectors and target labels
-    #     """
-
-    #     n_min_to_remove = np.sum(y == self.min_label) - performance_th
-
-    #     if n_min_to_remove <= 0:
-    #         return X_scaled, y
-
-    #     # if majority samples are to be removed
-    #     nnmt = NearestNeighborsWithMetricTensor(n_neighbors=1,
-    #                                             n_jobs=self.n_jobs,
-    #                                             **nn_params)
-    #     nnmt.fit(X_scaled[y == self.maj_label])
-
-    #     dist, _ = nnmt.kneighbors(X_scaled)
-    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
-    #     dist = dist[y == self.min_label]
-    #     dist = dist[dist[:, 0].argsort()[::-1]]
-
-    #     to_remove = dist[:, 1][:n_min_to_remove]
-
-    #     # removing the samples
-    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
-    #     y = np.delete(y, to_remove)
-
-    #     return X_scaled, y
-
-    def determine_support(self, X_scaled, y):  # pylint: disable=invalid-name
-        """
-        Find the support.
-
-        Args:
-            X_scaled (np.array): all training vectors
-            y (np.array): all target labels
-
-        Returns:
-            np.array, np.array: the minority and majority support vectors
-        """
-        # fitting SVM to extract initial support vectors
-        svc = SVC(
-            kernel="rbf",
-            probability=True,
-            gamma="auto",
-            random_state=self._random_state_init,
-        )
-        svc.fit(X_scaled, y)
-
-        # extracting the support vectors
-        SV_min = np.array(
-            [i for i in svc.support_ if y[i] == self.min_label]
-        )  # pylint: disable=invalid-name
-        SV_maj = np.array(
-            [i for i in svc.support_ if y[i] == self.maj_label]
-        )  # pylint: disable=invalid-name
-
-        X_SV_min = X_scaled[SV_min]  # pylint: disable=invalid-name
-        X_SV_maj = X_scaled[SV_maj]  # pylint: disable=invalid-name
-
-        return X_SV_min, X_SV_maj
-
-    def determine_indices(self, n_neighbors, nn_params, X_SV_maj, X_SV_min):
-        """
-        Determine the neighborhood relations.
-
-        Args:
-            n_neighbors (int): the number of neighbors to use
-            nn_params (dict): nearest neighbors parameters
-            X_SV_maj (np.array): majority vectors
-            X_SV_min (np.array): minority vectors
-
-        Returns:
-            np.array: indices
-        """
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X_SV_maj)
-        _, ind = nnmt.kneighbors(X_SV_min)
-
-        return ind
-
-    def initialize(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
-        """
-        Initialize the search
-
-        Args:
-            X_scaled (np.array): the scaled training vectors
-            y (np.array): the target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array: the minority generators,
-                                                    the search space,
-                                                    the initial velocities,
-                                                    and the search bounds
-        """
-        X_SV_min, X_SV_maj = self.determine_support(
-            X_scaled, y
-        )  # pylint: disable=invalid-name
-
-        # finding nearest majority support vectors
-        n_neighbors = np.min([X_SV_maj.shape[0], self.k])
-        ind = self.determine_indices(n_neighbors, nn_params, X_SV_maj, X_SV_min)
-
-        min_vector = X_SV_min[np.repeat(np.arange(len(X_SV_min)), n_neighbors)]
-        maj_vector = X_SV_maj[ind.flatten()]
-        upper_bound = X_SV_maj[ind[np.repeat(np.arange(len(X_SV_min)), n_neighbors), 0]]
-        init_velocity = self.params["eps"] * (maj_vector - min_vector)
-        X_min_gen = min_vector + init_velocity  # pylint: disable=invalid-name
-
-        search_bound = np.linalg.norm(min_vector - upper_bound, axis=1)
-
-        search_space = np.hstack([min_vector, maj_vector]).reshape(
-            min_vector.shape[0], 2, min_vector.shape[1]
-        )
-
-        return X_min_gen, search_space, search_bound, init_velocity
-
-    def evaluate(self, X_train, y_train, X_test, y_test):
-        """
-        Trains support vector classifier and evaluates it
-
-        Args:
-            X_train (np.array): training vectors
-            y_train (np.array): target labels
-            X_test (np.array): test vectors
-            y_test (np.array): test labels
-        """
-        svc = SVC(
-            kernel="rbf",
-            probability=True,
-            gamma="auto",
-            random_state=self._random_state_init,
-        )
-
-        svc.fit(X_train, y_train)
-        class_idx = np.where(svc.classes_ == self.min_label)[0][0]
-        y_pred = svc.predict_proba(X_test)[:, class_idx]
-        return roc_auc_score(y_test == self.min_label, y_pred)
-
-    def evaluate_particle(self, X_scaled, y, part):  # pylint: disable=invalid-name
-        """
-        Evaluate a particle.
-
-        Args:
-            X_scaled (np.array): the training vectors
-            y (np.array): the target labels
-            part (np.array): a particle
-        """
-        X_extended = np.vstack([X_scaled, part])  # pylint: disable=invalid-name
-        y_extended = np.hstack([y, np.repeat(self.min_label, len(part))])
-        return self.evaluate(X_extended, y_extended, X_scaled, y)
-
-    def update_velocities(
-        self, *, particle_swarm, velocities, search_bound, local_best, global_best
-    ):
-        """
-        Update the velocities.
-
-        Args:
-            particle_swarm (np.array): the particles
-            velocities (np.array): the velocities
-            search_bound (np.array): the search bounds
-            local_best (np.array): the local best results
-            global_best (np.array): the global best result
-
-        Returns:
-            list: the updated velocities
-        """
-        # update velocities
-        # for idx, part in enumerate(particle_swarm):
-        #    term_0 = self.params['w'] * velocities[idx]
-        #    rand = self.random_state.random_sample(2)
-        #    term_1 = self.params['c1'] * rand[0] * (local_best[idx] - part)
-        #    term_2 = self.params['c2'] * rand[1] * (global_best - part)
-        #
-        #    velocities[idx] = term_0 + term_1 + term_2
-        #    #velocities[idx] = term_0
-
-        term_0 = self.params["w"] * velocities
-        rand = self.random_state.random_sample((2, velocities.shape[0]))
-        term_1 = (
-            self.params["c1"] * (local_best - particle_swarm) * rand[0][:, None, None]
-        )
-        term_2 = (
-            self.params["c2"] * (global_best - particle_swarm) * rand[1][:, None, None]
-        )
-
-        velocities = term_0 + term_1 + term_2
-
-        velocity_norms = np.linalg.norm(velocities, axis=2)
-
-        mask = velocity_norms > search_bound[None, :] / 2.0
-
-        search_bounds = np.tile(search_bound[:, None], (velocity_norms.shape[0],)).T
-
-        multiplier = search_bounds[mask] / velocity_norms[mask] / 2.0
-
-        velocities[mask] = velocities[mask] * multiplier[:, None]
-
-        # bound velocities according to search space constraints
-        # for vel in velocities:
-        #    for idx, vel_idx in enumerate(vel):
-        #        v_i_norm = np.linalg.norm(vel_idx)
-        #        if v_i_norm > search_bound[idx]/2.0:
-        #            vel[idx] = vel_idx / v_i_norm * search_bound[idx] / 2.0
-
-        return velocities
-
-    def update_positions(self, particle_swarm, velocities, search_space, search_bound):
-        """
-        Update the positions.
-
-        Args:
-            particle_swarm (np.array): the particles
-            velocities (np.array): the velocities
-            search_space (np.array): the search space
-            search_bound (np.array): the search bounds
-
-        Returns:
-            np.array: the updated particle swarm
-        """
-        # update positions
-        particle_swarm = particle_swarm + velocities
-
-        trans_vectors = particle_swarm - search_space[:, 0][None, :, :]
-        trans_norm = np.linalg.norm(trans_vectors, axis=2)
-
-        mask = trans_norm > search_bound[None, :]
-
-        search_space_0 = np.tile(
-            search_space[:, 0][None, :, :], (particle_swarm.shape[0], 1, 1)
-        )
-
-        search_bounds = np.tile(search_bound, (particle_swarm.shape[0], 1))
-
-        multiplier = search_bounds[mask] / trans_norm[mask]
-
-        normed_trans = trans_vectors[mask] * multiplier[:, None]
-
-        particle_swarm[mask] = search_space_0[mask] + normed_trans
-
-        # for idx, part in enumerate(particle_swarm):
-        #    particle_swarm[idx] = particle_swarm[idx] + velocities[idx]
-
-        # bound positions according to search space constraints
-        # for part in particle_swarm:
-        #    for idx, p_idx in enumerate(part):
-        #        search_idx = search_space[idx]
-        #
-        #        trans_vector = p_idx - search_idx[0]
-        #        trans_norm = np.linalg.norm(trans_vector)
-        #
-        #        if trans_norm > search_idx[2]:
-        #            normed_trans = trans_vector / trans_norm
-        #            part[idx] = search_idx[0] + normed_trans * search_idx[2]
-
-        return particle_swarm
-
-    def update_scores(
-        self,
-        *,
-        X_scaled,
-        y,
-        particle_swarm,
-        local_best_scores,
-        local_best,
-        global_best_score,
-        global_best
-    ):
-        """
-        Evaluate and update the scores.
-
-        Args:
-            X_scaled (np.array): the training vectors
-            y (np.array): the target labels
-            particle_swarm (np.array): the particle swarm
-            local_best_scores (np.array): the local best scores
-            local_best (np.array): the local best particles
-            global_best_score (float): the global best score
-            global_best (obj): the globally best particle
-
-        Returns:
-            np.array, np.array, float, obj: the updated local best scores,
-                        local best, global best score and global best
-                        particle
-        """
-
-        scores = np.array(
-            [self.evaluate_particle(X_scaled, y, p) for p in particle_swarm]
-        )
-
-        local_mask = scores > local_best_scores
-        local_best_scores[local_mask] = scores[local_mask]
-        local_best[local_mask] = particle_swarm[local_mask]
-
-        max_idx = np.argmax(scores)
-        if scores[max_idx] > global_best_score:
-            global_best_score = scores[max_idx]
-            global_best = particle_swarm[max_idx]
-
-        # update best scores
-        # for idx, score in enumerate(scores):
-        #    if score > local_best_scores[idx]:
-        #        local_best_scores[idx] = score
-        #        local_best[idx] = particle_swarm[idx]
-        #    if score > global_best_score:
-        #        global_best_score = score
-        #        global_best = particle_swarm[idx]
-
-        return local_best_scores, local_best, global_best_score, global_best
-
-    def search(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
-        """
-        The optimization search.
-
-        Args:
-            X_scaled (np.array): the scaled training vectors
-            y (np.array): the target label
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array: the generated samples
-        """
-        X_min_gen, search_space, search_bound, init_velocity = self.initialize(
-            X_scaled, y, nn_params
-        )  # pylint: disable=invalid-name
-
-        # initializing the particle swarm and the particle and population level
-        # memory
-        particle_swarm = np.array([X_min_gen.copy()] * self.params["n_pop"])
-        velocities = np.array([init_velocity.copy()] * self.params["n_pop"])
-        local_best = np.array([X_min_gen.copy()] * self.params["n_pop"])
-        local_best_scores = np.array([0.0] * self.params["n_pop"])
-        global_best = X_min_gen.copy()
-        global_best_score = 0.0
-
-        for iteration in range(self.params["num_it"]):
-            _logger.info("%s: Iteration %d", self.__class__.__name__, iteration)
-            # evaluate population
-            (
-                local_best_scores,
-                local_best,
-                global_best_score,
-                global_best,
-            ) = self.update_scores(
-                X_scaled=X_scaled,
-                y=y,
-                particle_swarm=particle_swarm,
-                local_best_scores=local_best_scores,
-                local_best=local_best,
-                global_best_score=global_best_score,
-                global_best=global_best,
-            )
-
-            velocities = self.update_velocities(
-                particle_swarm=particle_swarm,
-                velocities=velocities,
-                search_bound=search_bound,
-                local_best=local_best,
-                global_best=global_best,
-            )
-
-            particle_swarm = self.update_positions(
-                particle_swarm, velocities, search_space, search_bound
-            )
-        return global_best
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        if np.sum(y == self.min_label) >= np.sum(y == self.maj_label):
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        # saving original dataset
-        X_orig = X
-        y_orig = y
-
-        # scaling the records
-        # mms = MinMaxScaler()
-        mms = StandardScaler()
-        X_scaled = mms.fit_transform(X)  # pylint: disable=invalid-name
-
-        # removing majority and minority samples far from the training data if
-        # needed to increase performance
-        # performance_th = 500
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
-            nn_params, X_scaled, y
-        )
-
-        # X_scaled, y = self.remove_majority(performance_th, nn_params, X_scaled, y)
-
-        # X_scaled, y = self.remove_minority(performance_th, nn_params, X_scaled, y)
-
-        new_items = [np.zeros(shape=(0, X.shape[1]))]
-
-        while np.sum(y == self.min_label) < np.sum(y == self.maj_label):
-            global_best = self.search(X_scaled, y, nn_params)
-            new_items.append(global_best)
-            X_scaled = np.vstack(
-                [X_scaled, global_best]
-            )  # pylint: disable=invalid-name
-            y = np.hstack([y, np.repeat(self.min_label, len(global_best))])
-
-        X_new = np.vstack(new_items)
-        X_ret = np.vstack(
-            [X_orig, mms.inverse_transform(X_new)]
-        )  # pylint: disable=invalid-name
-        y_ret = np.hstack([y_orig, np.repeat(self.min_label, len(X_new))])
-
-        return (X_ret, y_ret)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "k": self.k,
-            "nn_params": self.nn_params,
-            "eps": self.params["eps"],
-            "n_pop": self.params["n_pop"],
-            "w": self.params["w"],
-            "c1": self.params["c1"],
-            "c2": self.params["c2"],
-            "num_it": self.params["num_it"],
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SMOTE_PSO method.
+"""
+
+import numpy as np
+
+from sklearn.svm import SVC
+from sklearn.preprocessing import StandardScaler
+from sklearn.metrics import roc_auc_score
+
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SMOTE_PSO"]
+
+
+class SMOTE_PSO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{smote_pso,
+                        title = "PSO-based method for SVM classification on
+                                    skewed data sets",
+                        journal = "Neurocomputing",
+                        volume = "228",
+                        pages = "187 - 197",
+                        year = "2017",
+                        note = "Advanced Intelligent Computing: Theory and
+                                    Applications",
+                        issn = "0925-2312",
+                        doi = "https://doi.org/10.1016/j.neucom.2016.10.041",
+                        author = "Jair Cervantes and Farid Garcia-Lamont and
+                                    Lisbeth Rodriguez and Asdrúbal López and
+                                    José Ruiz Castilla and Adrian Trueba",
+                        keywords = "Skew data sets, SVM, Hybrid algorithms"
+                        }
+
+    Notes:
+        * I find the description of the technique a bit confusing, especially
+            on the bounds of the search space of velocities and positions.
+            Equations 15 and 16 specify the lower and upper bounds, the lower
+            bound is in fact a vector while the upper bound is a distance.
+            I tried to implement something meaningful.
+        * I also find the setting of accelerating constant 2.0 strange, most
+            of the time the velocity will be bounded due to this choice.
+        * Also, training and predicting probabilities with a non-linear
+            SVM as the evaluation function becomes fairly expensive when the
+            number of training vectors reaches a couple of thousands. To
+            reduce computational burden, minority and majority vectors far
+            from the other class are removed to reduce the size of both
+            classes to a maximum of 500 samples. Generally, this shouldn't
+            really affect the results as the technique focuses on the samples
+            near the class boundaries.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_memetic,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        k=3,
+        *,
+        nn_params=None,
+        eps=0.01,
+        n_pop=10,
+        w=1.0,
+        c1=2.0,
+        c2=2.0,
+        num_it=15,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            k (int): number of neighbors in nearest neighbors component, this
+                        is also the multiplication factor of minority support
+                        vectors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            eps (float): use to specify the initially generated support
+                            vectors along minority-majority lines
+            n_pop (int): size of population
+            w (float): intertia constant
+            c1 (float): acceleration constant of local optimum
+            c2 (float): acceleration constant of population optimum
+            num_it (int): number of iterations
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(k, "k", 1)
+        self.check_greater(eps, "eps", 0)
+        self.check_greater_or_equal(n_pop, "n_pop", 1)
+        self.check_greater_or_equal(w, "w", 0)
+        self.check_greater_or_equal(c1, "c1", 0)
+        self.check_greater_or_equal(c2, "c2", 0)
+        self.check_greater_or_equal(num_it, "num_it", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.k = k  # pylint: disable=invalid-name
+        self.nn_params = nn_params or {}
+        self.params = {
+            "eps": eps,
+            "n_pop": n_pop,
+            "w": w,
+            "c1": c1,
+            "c2": c2,
+            "num_it": num_it,
+        }
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        return cls.generate_parameter_combinations(
+            {
+                "k": [3, 5, 7],
+                "eps": [0.01],
+                "n_pop": [5],
+                "w": [0.5, 1.0],
+                "c1": [1.0, 2.0],
+                "c2": [1.0, 2.0],
+                "num_it": [20],
+            },
+            raw,
+        )
+
+    # def remove_majority(self,
+    #                     performance_th,
+    #                     nn_params,
+    #                     X_scaled, # pylint: disable=invalid-name
+    #                     y):
+    #     """
+    #     Remove majority samples
+
+    #     Args:
+    #         performance_th (int): performance threshold
+    #         nn_params (dict): nearest neighbor parameters
+    #         X_scaled (np.array): scaled training vectors
+    #         y (np.array): target labels
+
+    #     Returns:
+    #         np.array, np.array: the filtered training vectors and target labels
+    #     """
+    #     n_maj_to_remove = np.sum(y == self.maj_label) - performance_th
+
+    #     if n_maj_to_remove <= 0:
+    #         return X_scaled, y
+
+    #     # if majority samples are to be removed
+    #     nnmt= NearestNeighborsWithMetricTensor(n_neighbors=1,
+    #                                             n_jobs=self.n_jobs,
+    #                                             **nn_params)
+    #     nnmt.fit(X_scaled[y == self.min_label])
+    #     dist, _ = nnmt.kneighbors(X_scaled)
+
+    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
+    #     dist = dist[y == self.maj_label]
+    #     dist = dist[dist[:, 0].argsort()[::-1]]
+
+    #     to_remove = dist[:, 1][:n_maj_to_remove]
+
+    #     # removing the samples
+    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
+    #     y = np.delete(y, to_remove)
+
+    #     return X_scaled, y
+
+    # def remove_minority(self,
+    #                     performance_th,
+    #                     nn_params,
+    #                     X_scaled, # pylint: disable=invalid-name
+    #                     y):
+    #     """
+    #     Remove minority samples
+
+    #     Args:
+    #         performance_th (int): performance threshold
+    #         nn_params (dict): nearest neighbor parameters
+    #         X_scaled (np.array): scaled training vectors
+    #         y (np.array): target labels
+
+    #     Returns:
+    #         np.array, np.array: the filtered training vectors and target labels
+    #     """
+
+    #     n_min_to_remove = np.sum(y == self.min_label) - performance_th
+
+    #     if n_min_to_remove <= 0:
+    #         return X_scaled, y
+
+    #     # if majority samples are to be removed
+    #     nnmt = NearestNeighborsWithMetricTensor(n_neighbors=1,
+    #                                             n_jobs=self.n_jobs,
+    #                                             **nn_params)
+    #     nnmt.fit(X_scaled[y == self.maj_label])
+
+    #     dist, _ = nnmt.kneighbors(X_scaled)
+    #     dist = np.vstack([dist[0], np.arange(X_scaled.shape[0])]).T
+    #     dist = dist[y == self.min_label]
+    #     dist = dist[dist[:, 0].argsort()[::-1]]
+
+    #     to_remove = dist[:, 1][:n_min_to_remove]
+
+    #     # removing the samples
+    #     X_scaled = np.delete(X_scaled, to_remove, axis=0)
+    #     y = np.delete(y, to_remove)
+
+    #     return X_scaled, y
+
+    def determine_support(self, X_scaled, y):  # pylint: disable=invalid-name
+        """
+        Find the support.
+
+        Args:
+            X_scaled (np.array): all training vectors
+            y (np.array): all target labels
+
+        Returns:
+            np.array, np.array: the minority and majority support vectors
+        """
+        # fitting SVM to extract initial support vectors
+        svc = SVC(
+            kernel="rbf",
+            probability=True,
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+        svc.fit(X_scaled, y)
+
+        # extracting the support vectors
+        SV_min = np.array(
+            [i for i in svc.support_ if y[i] == self.min_label]
+        )  # pylint: disable=invalid-name
+        SV_maj = np.array(
+            [i for i in svc.support_ if y[i] == self.maj_label]
+        )  # pylint: disable=invalid-name
+
+        X_SV_min = X_scaled[SV_min]  # pylint: disable=invalid-name
+        X_SV_maj = X_scaled[SV_maj]  # pylint: disable=invalid-name
+
+        return X_SV_min, X_SV_maj
+
+    def determine_indices(self, n_neighbors, nn_params, X_SV_maj, X_SV_min):
+        """
+        Determine the neighborhood relations.
+
+        Args:
+            n_neighbors (int): the number of neighbors to use
+            nn_params (dict): nearest neighbors parameters
+            X_SV_maj (np.array): majority vectors
+            X_SV_min (np.array): minority vectors
+
+        Returns:
+            np.array: indices
+        """
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X_SV_maj)
+        _, ind = nnmt.kneighbors(X_SV_min)
+
+        return ind
+
+    def initialize(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
+        """
+        Initialize the search
+
+        Args:
+            X_scaled (np.array): the scaled training vectors
+            y (np.array): the target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array: the minority generators,
+                                                    the search space,
+                                                    the initial velocities,
+                                                    and the search bounds
+        """
+        X_SV_min, X_SV_maj = self.determine_support(
+            X_scaled, y
+        )  # pylint: disable=invalid-name
+
+        # finding nearest majority support vectors
+        n_neighbors = np.min([X_SV_maj.shape[0], self.k])
+        ind = self.determine_indices(n_neighbors, nn_params, X_SV_maj, X_SV_min)
+
+        min_vector = X_SV_min[np.repeat(np.arange(len(X_SV_min)), n_neighbors)]
+        maj_vector = X_SV_maj[ind.flatten()]
+        upper_bound = X_SV_maj[ind[np.repeat(np.arange(len(X_SV_min)), n_neighbors), 0]]
+        init_velocity = self.params["eps"] * (maj_vector - min_vector)
+        X_min_gen = min_vector + init_velocity  # pylint: disable=invalid-name
+
+        search_bound = np.linalg.norm(min_vector - upper_bound, axis=1)
+
+        search_space = np.hstack([min_vector, maj_vector]).reshape(
+            min_vector.shape[0], 2, min_vector.shape[1]
+        )
+
+        return X_min_gen, search_space, search_bound, init_velocity
+
+    def evaluate(self, X_train, y_train, X_test, y_test):
+        """
+        Trains support vector classifier and evaluates it
+
+        Args:
+            X_train (np.array): training vectors
+            y_train (np.array): target labels
+            X_test (np.array): test vectors
+            y_test (np.array): test labels
+        """
+        svc = SVC(
+            kernel="rbf",
+            probability=True,
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+
+        svc.fit(X_train, y_train)
+        class_idx = np.where(svc.classes_ == self.min_label)[0][0]
+        y_pred = svc.predict_proba(X_test)[:, class_idx]
+        return roc_auc_score(y_test == self.min_label, y_pred)
+
+    def evaluate_particle(self, X_scaled, y, part):  # pylint: disable=invalid-name
+        """
+        Evaluate a particle.
+
+        Args:
+            X_scaled (np.array): the training vectors
+            y (np.array): the target labels
+            part (np.array): a particle
+        """
+        X_extended = np.vstack([X_scaled, part])  # pylint: disable=invalid-name
+        y_extended = np.hstack([y, np.repeat(self.min_label, len(part))])
+        return self.evaluate(X_extended, y_extended, X_scaled, y)
+
+    def update_velocities(
+        self, *, particle_swarm, velocities, search_bound, local_best, global_best
+    ):
+        """
+        Update the velocities.
+
+        Args:
+            particle_swarm (np.array): the particles
+            velocities (np.array): the velocities
+            search_bound (np.array): the search bounds
+            local_best (np.array): the local best results
+            global_best (np.array): the global best result
+
+        Returns:
+            list: the updated velocities
+        """
+        # update velocities
+        # for idx, part in enumerate(particle_swarm):
+        #    term_0 = self.params['w'] * velocities[idx]
+        #    rand = self.random_state.random_sample(2)
+        #    term_1 = self.params['c1'] * rand[0] * (local_best[idx] - part)
+        #    term_2 = self.params['c2'] * rand[1] * (global_best - part)
+        #
+        #    velocities[idx] = term_0 + term_1 + term_2
+        #    #velocities[idx] = term_0
+
+        term_0 = self.params["w"] * velocities
+        rand = self.random_state.random_sample((2, velocities.shape[0]))
+        term_1 = (
+            self.params["c1"] * (local_best - particle_swarm) * rand[0][:, None, None]
+        )
+        term_2 = (
+            self.params["c2"] * (global_best - particle_swarm) * rand[1][:, None, None]
+        )
+
+        velocities = term_0 + term_1 + term_2
+
+        velocity_norms = np.linalg.norm(velocities, axis=2)
+
+        mask = velocity_norms > search_bound[None, :] / 2.0
+
+        search_bounds = np.tile(search_bound[:, None], (velocity_norms.shape[0],)).T
+
+        multiplier = search_bounds[mask] / velocity_norms[mask] / 2.0
+
+        velocities[mask] = velocities[mask] * multiplier[:, None]
+
+        # bound velocities according to search space constraints
+        # for vel in velocities:
+        #    for idx, vel_idx in enumerate(vel):
+        #        v_i_norm = np.linalg.norm(vel_idx)
+        #        if v_i_norm > search_bound[idx]/2.0:
+        #            vel[idx] = vel_idx / v_i_norm * search_bound[idx] / 2.0
+
+        return velocities
+
+    def update_positions(self, particle_swarm, velocities, search_space, search_bound):
+        """
+        Update the positions.
+
+        Args:
+            particle_swarm (np.array): the particles
+            velocities (np.array): the velocities
+            search_space (np.array): the search space
+            search_bound (np.array): the search bounds
+
+        Returns:
+            np.array: the updated particle swarm
+        """
+        # update positions
+        particle_swarm = particle_swarm + velocities
+
+        trans_vectors = particle_swarm - search_space[:, 0][None, :, :]
+        trans_norm = np.linalg.norm(trans_vectors, axis=2)
+
+        mask = trans_norm > search_bound[None, :]
+
+        search_space_0 = np.tile(
+            search_space[:, 0][None, :, :], (particle_swarm.shape[0], 1, 1)
+        )
+
+        search_bounds = np.tile(search_bound, (particle_swarm.shape[0], 1))
+
+        multiplier = search_bounds[mask] / trans_norm[mask]
+
+        normed_trans = trans_vectors[mask] * multiplier[:, None]
+
+        particle_swarm[mask] = search_space_0[mask] + normed_trans
+
+        # for idx, part in enumerate(particle_swarm):
+        #    particle_swarm[idx] = particle_swarm[idx] + velocities[idx]
+
+        # bound positions according to search space constraints
+        # for part in particle_swarm:
+        #    for idx, p_idx in enumerate(part):
+        #        search_idx = search_space[idx]
+        #
+        #        trans_vector = p_idx - search_idx[0]
+        #        trans_norm = np.linalg.norm(trans_vector)
+        #
+        #        if trans_norm > search_idx[2]:
+        #            normed_trans = trans_vector / trans_norm
+        #            part[idx] = search_idx[0] + normed_trans * search_idx[2]
+
+        return particle_swarm
+
+    def update_scores(
+        self,
+        *,
+        X_scaled,
+        y,
+        particle_swarm,
+        local_best_scores,
+        local_best,
+        global_best_score,
+        global_best
+    ):
+        """
+        Evaluate and update the scores.
+
+        Args:
+            X_scaled (np.array): the training vectors
+            y (np.array): the target labels
+            particle_swarm (np.array): the particle swarm
+            local_best_scores (np.array): the local best scores
+            local_best (np.array): the local best particles
+            global_best_score (float): the global best score
+            global_best (obj): the globally best particle
+
+        Returns:
+            np.array, np.array, float, obj: the updated local best scores,
+                        local best, global best score and global best
+                        particle
+        """
+
+        scores = np.array(
+            [self.evaluate_particle(X_scaled, y, p) for p in particle_swarm]
+        )
+
+        local_mask = scores > local_best_scores
+        local_best_scores[local_mask] = scores[local_mask]
+        local_best[local_mask] = particle_swarm[local_mask]
+
+        max_idx = np.argmax(scores)
+        if scores[max_idx] > global_best_score:
+            global_best_score = scores[max_idx]
+            global_best = particle_swarm[max_idx]
+
+        # update best scores
+        # for idx, score in enumerate(scores):
+        #    if score > local_best_scores[idx]:
+        #        local_best_scores[idx] = score
+        #        local_best[idx] = particle_swarm[idx]
+        #    if score > global_best_score:
+        #        global_best_score = score
+        #        global_best = particle_swarm[idx]
+
+        return local_best_scores, local_best, global_best_score, global_best
+
+    def search(self, X_scaled, y, nn_params):  # pylint: disable=invalid-name
+        """
+        The optimization search.
+
+        Args:
+            X_scaled (np.array): the scaled training vectors
+            y (np.array): the target label
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array: the generated samples
+        """
+        X_min_gen, search_space, search_bound, init_velocity = self.initialize(
+            X_scaled, y, nn_params
+        )  # pylint: disable=invalid-name
+
+        # initializing the particle swarm and the particle and population level
+        # memory
+        particle_swarm = np.array([X_min_gen.copy()] * self.params["n_pop"])
+        velocities = np.array([init_velocity.copy()] * self.params["n_pop"])
+        local_best = np.array([X_min_gen.copy()] * self.params["n_pop"])
+        local_best_scores = np.array([0.0] * self.params["n_pop"])
+        global_best = X_min_gen.copy()
+        global_best_score = 0.0
+
+        for iteration in range(self.params["num_it"]):
+            _logger.info("%s: Iteration %d", self.__class__.__name__, iteration)
+            # evaluate population
+            (
+                local_best_scores,
+                local_best,
+                global_best_score,
+                global_best,
+            ) = self.update_scores(
+                X_scaled=X_scaled,
+                y=y,
+                particle_swarm=particle_swarm,
+                local_best_scores=local_best_scores,
+                local_best=local_best,
+                global_best_score=global_best_score,
+                global_best=global_best,
+            )
+
+            velocities = self.update_velocities(
+                particle_swarm=particle_swarm,
+                velocities=velocities,
+                search_bound=search_bound,
+                local_best=local_best,
+                global_best=global_best,
+            )
+
+            particle_swarm = self.update_positions(
+                particle_swarm, velocities, search_space, search_bound
+            )
+        return global_best
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        if np.sum(y == self.min_label) >= np.sum(y == self.maj_label):
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        # saving original dataset
+        X_orig = X
+        y_orig = y
+
+        # scaling the records
+        # mms = MinMaxScaler()
+        mms = StandardScaler()
+        X_scaled = mms.fit_transform(X)  # pylint: disable=invalid-name
+
+        # removing majority and minority samples far from the training data if
+        # needed to increase performance
+        # performance_th = 500
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_scaled, y
+        )
+
+        # X_scaled, y = self.remove_majority(performance_th, nn_params, X_scaled, y)
+
+        # X_scaled, y = self.remove_minority(performance_th, nn_params, X_scaled, y)
+
+        new_items = [np.zeros(shape=(0, X.shape[1]))]
+
+        while np.sum(y == self.min_label) < np.sum(y == self.maj_label):
+            global_best = self.search(X_scaled, y, nn_params)
+            new_items.append(global_best)
+            X_scaled = np.vstack(
+                [X_scaled, global_best]
+            )  # pylint: disable=invalid-name
+            y = np.hstack([y, np.repeat(self.min_label, len(global_best))])
+
+        X_new = np.vstack(new_items)
+        X_ret = np.vstack(
+            [X_orig, mms.inverse_transform(X_new)]
+        )  # pylint: disable=invalid-name
+        y_ret = np.hstack([y_orig, np.repeat(self.min_label, len(X_new))])
+
+        return (X_ret, y_ret)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "k": self.k,
+            "nn_params": self.nn_params,
+            "eps": self.params["eps"],
+            "n_pop": self.params["n_pop"],
+            "w": self.params["w"],
+            "c1": self.params["c1"],
+            "c2": self.params["c2"],
+            "num_it": self.params["num_it"],
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index 2a173b1..fdf735c 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -1,391 +1,391 @@
-"""
-This module implements the SMOTEWB method.
-"""
-import logging
-import math
-
-import numpy as np
-
-from sklearn.tree import DecisionTreeClassifier
-
-from ..base import OverSampling, NearestNeighborsWithMetricTensor, coalesce
-from ._smote import SMOTE
-
-_logger = logging.getLogger("smote_variants")
-
-__all__ = ["SMOTEWB"]
-
-
-class SMOTEWB(OverSampling):
-    """
-    References:
-        * BibTex::
-           @article{SAGLAM2022117023,
-                title = {A novel SMOTE-based resampling technique trough noise
-                detection and the boosting procedure},
-                journal = {Expert Systems with Applications},
-                volume = {200},
-                pages = {117023},
-                year = {2022},
-                issn = {0957-4174},
-                doi = {https://doi.org/10.1016/j.eswa.2022.117023}}
-    """
-
-    categories = [
-        OverSampling.cat_noise_removal,  # applies noise removal
-        OverSampling.cat_uses_classifier,  # uses some advanced classifier
-        OverSampling.cat_sample_ordinary,  # sampling is done in the SMOTE scheme
-        OverSampling.cat_extensive,  # adds minority samples only
-        OverSampling.cat_metric_learning,
-    ]  # metric learning is applicable (uses nearest neighbors)
-
-    sample_good = 1
-    sample_lonely = 0
-    sample_bad = -1
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_iters=100,
-        max_depth=30,
-        nn_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs,
-    ):
-        """
-        Constructor of the SMOTE template object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_iters (int): number of iterations (number of weak classifiers, dtrees) of the ensemble
-                                noise filtering process (in the paper: M)
-            max_depth (int): maximum depth of dtrees (>=3)
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            n_jobs (int): number of parallel jobs
-            random_state (None/int/np.random.RandomState): the random state
-            _kwargs: for technical reasons and to facilitate serialization, additional
-                     keyword arguments are accepted
-        """
-
-        OverSampling.__init__(self, random_state=random_state)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_iters, "n_iters", 1)
-        self.check_greater_or_equal(max_depth, "max_depth", 3)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_iters = n_iters
-        self.max_depth = max_depth
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_iters": [30, 50, 100],
-            "max_depth": [5, 10, 20, 30],
-        }
-
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def boosted_weights(self, X, y):
-        """
-        Implementation of Algorithm 2.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.array): weight of the samples
-        """
-        n_samples = X.shape[0]
-        w = np.repeat(1.0 / n_samples, n_samples)
-
-        # based on boosted_weights.R
-        clf = DecisionTreeClassifier(
-            random_state=self._random_state_init,
-            max_depth=self.max_depth,
-            min_samples_split=3,
-        )
-
-        for _ in range(0, self.n_iters):
-            clf.fit(X, y, sample_weight=w)
-            predicted_labels = clf.predict(X)
-
-            w_error = sum(w[predicted_labels != y])
-
-            # no zero check in the original code (samples are not_noise)
-            if w_error == 0:
-                return np.zeros(n_samples, float)
-
-            alpha = 0.5 * np.log((1 - w_error) / w_error)
-            w[predicted_labels != y] = w[predicted_labels != y] * np.exp(alpha)
-
-            w = w / sum(w)
-
-        return w
-
-    @staticmethod
-    def noise_threshold(w, th):
-        """
-        Creating the noise mask
-
-        Args:
-            w (np.array): the weights
-            th (float): the threshold
-
-        Returns:
-            np.array: the mask
-        """
-        noise = np.repeat(False, len(w))
-        noise[w > th] = True
-        return noise
-
-    def noise_detection(self, X, y):
-        """
-        Implementation of Algorithm 3.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.array, np.array): Mask of noise for the minority and the majority
-            samples, respectively.
-        """
-
-        w = self.boosted_weights(X, y)
-
-        w_min = w[y == self.min_label]
-        w_maj = w[y == self.maj_label]
-
-        n_samples = len(y)
-
-        # noise thresholds for majority and minority classes
-        th_min = (2 * len(w_maj)) / (n_samples**2)
-        th_maj = (2 * len(w_min)) / (n_samples**2)
-
-        noise_mask_min = SMOTEWB.noise_threshold(w_min, th_min)
-        noise_mask_maj = SMOTEWB.noise_threshold(w_maj, th_maj)
-
-        return noise_mask_min, noise_mask_maj
-
-    def first_majority_index(self, nearest_ys, no_majority_result=-1):
-        """
-        Finds the index of the first majority element in the nearest_ys per row.
-
-        Args:
-            nearest_ys (np.ndarray): label of the nearest neighbours
-            no_majority_result (int): result if there is no majority item in a row
-        Returns:
-            np.array: the i-th element of the array is the index of the first majority label
-                        in the i-th row of the nearest_ys, or no_majority_result if the row
-                        contains no majority labels.
-        """
-        mask = nearest_ys == self.maj_label
-        return np.where(mask.any(axis=1), mask.argmax(axis=1), no_majority_result)
-
-    def sampling_algorithm(
-        self, X, y
-    ):  # pylint: disable=too-many-locals,too-many-statements
-        """
-        Does the sample generation according to the class parameters.
-
-        TODO: break into smaller functions
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-
-        # determine the number of samples to generate
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed.")
-
-        # use logging in the below format
-        _logger.info("%s: sampling", self.__class__.__name__)
-
-        # Step 1: MinMaxScaler - Rescaling is ignored at the suggestion of the
-        # author of the algorithm.
-
-        # Step2: separating the classes
-        X_min = X[y == self.min_label]
-        X_maj = X[y == self.maj_label]
-
-        # Step 3-4: creating masks of noise samples
-        noise_mask_min, noise_mask_maj = self.noise_detection(X, y)
-
-        # Start: Algorithm 4
-        n_min = len(X_min)
-        n_maj = len(X_maj)
-
-        # paper: floor, R implementation: ceil
-        k_max = math.floor(n_maj / n_min)
-
-        # non-noise samples and labels
-        X_min_not_noise = X_min[~noise_mask_min]  # pylint: disable=invalid-name
-        X_maj_not_noise = X_maj[~noise_mask_maj]  # pylint: disable=invalid-name
-        X_not_noise = np.concatenate(  # pylint: disable=invalid-name
-            [X_min_not_noise, X_maj_not_noise]
-        )
-        y_not_noise = np.concatenate(
-            [
-                np.repeat(self.min_label, X_min_not_noise.shape[0]),
-                np.repeat(self.maj_label, X_maj_not_noise.shape[0]),
-            ]
-        )
-
-        # fitting the model
-        # paper: X^good_pos makes no sense, R code: x_notnoise
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # all data points are noise
-        if len(X_not_noise) == 0:
-            smote = SMOTE(
-                proportion=self.proportion,
-                nn_params=self.nn_params,
-                random_state=self._random_state_init,
-            )
-            return smote.sample(X, y)
-
-        n_neighbors = min([len(X_not_noise), k_max + 1])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-
-        nnmt.fit(X_not_noise)
-        indices = nnmt.kneighbors(X_min, n_neighbors=n_neighbors, return_distance=False)
-
-        # number of the positive neighbors until the first negative one (per row)
-        k_arr = self.first_majority_index(
-            y_not_noise[indices], no_majority_result=k_max + 1
-        )
-
-        # decrease one if the sample is not a noise
-        k_arr[~noise_mask_min] -= 1
-        # in case there is a majority sample at 0 distance
-        k_arr[k_arr == -1] = 0
-        # all neighbours are positive
-        k_max = min(indices.shape[1], k_max)
-        k_arr[k_arr > k_max] = k_max
-
-        # setting the labels of the samples of X_pos
-        fl_arr = np.empty(n_min, int)
-        fl_arr[k_arr > 0] = SMOTEWB.sample_good
-        fl_arr[(k_arr == 0) & noise_mask_min] = SMOTEWB.sample_bad
-        fl_arr[(k_arr == 0) & (~noise_mask_min)] = SMOTEWB.sample_lonely
-        # End: Alg 4
-
-        # Step 5: n_to_sample - done
-        # Step 6: computing n_to_sample per samples
-        n_min = len(X_min)
-
-        # number of good and lonely samples
-        n_good_min = np.sum(fl_arr == SMOTEWB.sample_good)
-        n_lonely_min = np.sum(fl_arr == SMOTEWB.sample_lonely)
-
-        # prevent errors (missing from the original) no good or lonely
-        # samples => give chance to the others
-        if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(
-                proportion=self.proportion,
-                nn_params=self.nn_params,
-                random_state=self._random_state_init,
-            )
-            return smote.sample(X, y)
-
-        n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-        C = np.zeros(n_min, int)  # pylint: disable=invalid-name
-        C[fl_arr == SMOTEWB.sample_good] = n_to_sample_per_sample
-        C[fl_arr == SMOTEWB.sample_lonely] = n_to_sample_per_sample
-
-        # Step 8: correcting the number of samples to be generated to achieve the desired balance
-        # paper: ceil => n_to_sample-p.sum(C) zero or negative
-        # we probably have too many samples because of the ceil
-        diff = np.sum(C) - n_to_sample
-        if diff > 0:
-            good_and_lonely_ind = np.where(
-                (fl_arr == SMOTEWB.sample_good) | (fl_arr == SMOTEWB.sample_lonely)
-            )[0]
-            selected_ind = self.random_state.choice(
-                good_and_lonely_ind, diff, replace=len(good_and_lonely_ind) < diff
-            )
-            C[selected_ind] -= 1
-
-        # Step 9: sample generation
-        synt_sample_list = []
-        for i in range(0, n_min):
-            if fl_arr[i] == SMOTEWB.sample_lonely:
-                for j in range(C[i]):
-                    synt_sample_list.append(X_min[i].copy())
-            elif fl_arr[i] == SMOTEWB.sample_good and C[i] > 0:
-                nn = (
-                    indices[i, 0 : k_arr[i]]
-                    if noise_mask_min[i]
-                    else indices[i, 1 : k_arr[i] + 1]
-                )
-
-                if len(nn) > 0:
-                    k_ids = self.random_state.choice(nn, C[i])
-                    for j in k_ids:
-                        synt_sample_list.append(
-                            self.sample_between_points(X_min[i], X_not_noise[j])
-                        )
-
-        # Step 11-12: merging the original samples and the synthetic ones
-        X_synt_samples = np.array(synt_sample_list)  # pylint: disable=invalid-name
-        X_samples = np.vstack([X, X_synt_samples])  # pylint: disable=invalid-name
-
-        return (
-            X_samples,
-            np.hstack([y, np.hstack([self.min_label] * len(synt_sample_list))]),
-        )
-
-    def preprocessing_transform(self, X):
-        """
-        Scale the attributes of X into [0, 1] range.
-
-        Args:
-            X (np.array): features
-        Returns:
-            np.array: transformed features
-        """
-        return X
-
-    def get_params(self, deep=False):
-        """
-        Returns the parameters of the object
-
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "max_depth": self.max_depth,
-            "nn_params": self.nn_params,
-            "n_iters": self.n_iters,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self, deep),
-        }
+"""
+This module implements the SMOTEWB method.
+"""
+import logging
+import math
+
+import numpy as np
+
+from sklearn.tree import DecisionTreeClassifier
+
+from ..base import OverSampling, NearestNeighborsWithMetricTensor, coalesce
+from ._smote import SMOTE
+
+_logger = logging.getLogger("smote_variants")
+
+__all__ = ["SMOTEWB"]
+
+
+class SMOTEWB(OverSampling):
+    """
+    References:
+        * BibTex::
+           @article{SAGLAM2022117023,
+                title = {A novel SMOTE-based resampling technique trough noise
+                detection and the boosting procedure},
+                journal = {Expert Systems with Applications},
+                volume = {200},
+                pages = {117023},
+                year = {2022},
+                issn = {0957-4174},
+                doi = {https://doi.org/10.1016/j.eswa.2022.117023}}
+    """
+
+    categories = [
+        OverSampling.cat_noise_removal,  # applies noise removal
+        OverSampling.cat_uses_classifier,  # uses some advanced classifier
+        OverSampling.cat_sample_ordinary,  # sampling is done in the SMOTE scheme
+        OverSampling.cat_extensive,  # adds minority samples only
+        OverSampling.cat_metric_learning,
+    ]  # metric learning is applicable (uses nearest neighbors)
+
+    sample_good = 1
+    sample_lonely = 0
+    sample_bad = -1
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_iters=100,
+        max_depth=30,
+        nn_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs,
+    ):
+        """
+        Constructor of the SMOTE template object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_iters (int): number of iterations (number of weak classifiers, dtrees) of the ensemble
+                                noise filtering process (in the paper: M)
+            max_depth (int): maximum depth of dtrees (>=3)
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            n_jobs (int): number of parallel jobs
+            random_state (None/int/np.random.RandomState): the random state
+            _kwargs: for technical reasons and to facilitate serialization, additional
+                     keyword arguments are accepted
+        """
+
+        OverSampling.__init__(self, random_state=random_state)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_iters, "n_iters", 1)
+        self.check_greater_or_equal(max_depth, "max_depth", 3)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_iters = n_iters
+        self.max_depth = max_depth
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_iters": [30, 50, 100],
+            "max_depth": [5, 10, 20, 30],
+        }
+
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def boosted_weights(self, X, y):
+        """
+        Implementation of Algorithm 2.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.array): weight of the samples
+        """
+        n_samples = X.shape[0]
+        w = np.repeat(1.0 / n_samples, n_samples)
+
+        # based on boosted_weights.R
+        clf = DecisionTreeClassifier(
+            random_state=self._random_state_init,
+            max_depth=self.max_depth,
+            min_samples_split=3,
+        )
+
+        for _ in range(0, self.n_iters):
+            clf.fit(X, y, sample_weight=w)
+            predicted_labels = clf.predict(X)
+
+            w_error = sum(w[predicted_labels != y])
+
+            # no zero check in the original code (samples are not_noise)
+            if w_error == 0:
+                return np.zeros(n_samples, float)
+
+            alpha = 0.5 * np.log((1 - w_error) / w_error)
+            w[predicted_labels != y] = w[predicted_labels != y] * np.exp(alpha)
+
+            w = w / sum(w)
+
+        return w
+
+    @staticmethod
+    def noise_threshold(w, th):
+        """
+        Creating the noise mask
+
+        Args:
+            w (np.array): the weights
+            th (float): the threshold
+
+        Returns:
+            np.array: the mask
+        """
+        noise = np.repeat(False, len(w))
+        noise[w > th] = True
+        return noise
+
+    def noise_detection(self, X, y):
+        """
+        Implementation of Algorithm 3.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.array, np.array): Mask of noise for the minority and the majority
+            samples, respectively.
+        """
+
+        w = self.boosted_weights(X, y)
+
+        w_min = w[y == self.min_label]
+        w_maj = w[y == self.maj_label]
+
+        n_samples = len(y)
+
+        # noise thresholds for majority and minority classes
+        th_min = (2 * len(w_maj)) / (n_samples**2)
+        th_maj = (2 * len(w_min)) / (n_samples**2)
+
+        noise_mask_min = SMOTEWB.noise_threshold(w_min, th_min)
+        noise_mask_maj = SMOTEWB.noise_threshold(w_maj, th_maj)
+
+        return noise_mask_min, noise_mask_maj
+
+    def first_majority_index(self, nearest_ys, no_majority_result=-1):
+        """
+        Finds the index of the first majority element in the nearest_ys per row.
+
+        Args:
+            nearest_ys (np.ndarray): label of the nearest neighbours
+            no_majority_result (int): result if there is no majority item in a row
+        Returns:
+            np.array: the i-th element of the array is the index of the first majority label
+                        in the i-th row of the nearest_ys, or no_majority_result if the row
+                        contains no majority labels.
+        """
+        mask = nearest_ys == self.maj_label
+        return np.where(mask.any(axis=1), mask.argmax(axis=1), no_majority_result)
+
+    def sampling_algorithm(
+        self, X, y
+    ):  # pylint: disable=too-many-locals,too-many-statements
+        """
+        Does the sample generation according to the class parameters.
+
+        TODO: break into smaller functions
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+
+        # determine the number of samples to generate
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed.")
+
+        # use logging in the below format
+        _logger.info("%s: sampling", self.__class__.__name__)
+
+        # Step 1: MinMaxScaler - Rescaling is ignored at the suggestion of the
+        # author of the algorithm.
+
+        # Step2: separating the classes
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
+
+        # Step 3-4: creating masks of noise samples
+        noise_mask_min, noise_mask_maj = self.noise_detection(X, y)
+
+        # Start: Algorithm 4
+        n_min = len(X_min)
+        n_maj = len(X_maj)
+
+        # paper: floor, R implementation: ceil
+        k_max = math.floor(n_maj / n_min)
+
+        # non-noise samples and labels
+        X_min_not_noise = X_min[~noise_mask_min]  # pylint: disable=invalid-name
+        X_maj_not_noise = X_maj[~noise_mask_maj]  # pylint: disable=invalid-name
+        X_not_noise = np.concatenate(  # pylint: disable=invalid-name
+            [X_min_not_noise, X_maj_not_noise]
+        )
+        y_not_noise = np.concatenate(
+            [
+                np.repeat(self.min_label, X_min_not_noise.shape[0]),
+                np.repeat(self.maj_label, X_maj_not_noise.shape[0]),
+            ]
+        )
+
+        # fitting the model
+        # paper: X^good_pos makes no sense, R code: x_notnoise
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # all data points are noise
+        if len(X_not_noise) == 0:
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
+            return smote.sample(X, y)
+
+        n_neighbors = min([len(X_not_noise), k_max + 1])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+
+        nnmt.fit(X_not_noise)
+        indices = nnmt.kneighbors(X_min, n_neighbors=n_neighbors, return_distance=False)
+
+        # number of the positive neighbors until the first negative one (per row)
+        k_arr = self.first_majority_index(
+            y_not_noise[indices], no_majority_result=k_max + 1
+        )
+
+        # decrease one if the sample is not a noise
+        k_arr[~noise_mask_min] -= 1
+        # in case there is a majority sample at 0 distance
+        k_arr[k_arr == -1] = 0
+        # all neighbours are positive
+        k_max = min(indices.shape[1], k_max)
+        k_arr[k_arr > k_max] = k_max
+
+        # setting the labels of the samples of X_pos
+        fl_arr = np.empty(n_min, int)
+        fl_arr[k_arr > 0] = SMOTEWB.sample_good
+        fl_arr[(k_arr == 0) & noise_mask_min] = SMOTEWB.sample_bad
+        fl_arr[(k_arr == 0) & (~noise_mask_min)] = SMOTEWB.sample_lonely
+        # End: Alg 4
+
+        # Step 5: n_to_sample - done
+        # Step 6: computing n_to_sample per samples
+        n_min = len(X_min)
+
+        # number of good and lonely samples
+        n_good_min = np.sum(fl_arr == SMOTEWB.sample_good)
+        n_lonely_min = np.sum(fl_arr == SMOTEWB.sample_lonely)
+
+        # prevent errors (missing from the original) no good or lonely
+        # samples => give chance to the others
+        if n_good_min + n_lonely_min == 0:
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
+            return smote.sample(X, y)
+
+        n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
+        C = np.zeros(n_min, int)  # pylint: disable=invalid-name
+        C[fl_arr == SMOTEWB.sample_good] = n_to_sample_per_sample
+        C[fl_arr == SMOTEWB.sample_lonely] = n_to_sample_per_sample
+
+        # Step 8: correcting the number of samples to be generated to achieve the desired balance
+        # paper: ceil => n_to_sample-p.sum(C) zero or negative
+        # we probably have too many samples because of the ceil
+        diff = np.sum(C) - n_to_sample
+        if diff > 0:
+            good_and_lonely_ind = np.where(
+                (fl_arr == SMOTEWB.sample_good) | (fl_arr == SMOTEWB.sample_lonely)
+            )[0]
+            selected_ind = self.random_state.choice(
+                good_and_lonely_ind, diff, replace=len(good_and_lonely_ind) < diff
+            )
+            C[selected_ind] -= 1
+
+        # Step 9: sample generation
+        synt_sample_list = []
+        for i in range(0, n_min):
+            if fl_arr[i] == SMOTEWB.sample_lonely:
+                for j in range(C[i]):
+                    synt_sample_list.append(X_min[i].copy())
+            elif fl_arr[i] == SMOTEWB.sample_good and C[i] > 0:
+                nn = (
+                    indices[i, 0 : k_arr[i]]
+                    if noise_mask_min[i]
+                    else indices[i, 1 : k_arr[i] + 1]
+                )
+
+                if len(nn) > 0:
+                    k_ids = self.random_state.choice(nn, C[i])
+                    for j in k_ids:
+                        synt_sample_list.append(
+                            self.sample_between_points(X_min[i], X_not_noise[j])
+                        )
+
+        # Step 11-12: merging the original samples and the synthetic ones
+        X_synt_samples = np.array(synt_sample_list)  # pylint: disable=invalid-name
+        X_samples = np.vstack([X, X_synt_samples])  # pylint: disable=invalid-name
+
+        return (
+            X_samples,
+            np.hstack([y, np.hstack([self.min_label] * len(synt_sample_list))]),
+        )
+
+    def preprocessing_transform(self, X):
+        """
+        Scale the attributes of X into [0, 1] range.
+
+        Args:
+            X (np.array): features
+        Returns:
+            np.array: transformed features
+        """
+        return X
+
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object
+
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "max_depth": self.max_depth,
+            "nn_params": self.nn_params,
+            "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self, deep),
+        }
diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 38ad060..ae3bdec 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -1,484 +1,484 @@
-"""
-This module implements the SOI_CJ method.
-"""
-import itertools
-
-import numpy as np
-
-from ..base import coalesce, coalesce_dict
-from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
-from ..base import OverSamplingSimplex
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SOI_CJ"]
-
-
-class SOI_CJ(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @article{soi_cj,
-                    author = {Sánchez, Atlántida I. and Morales, Eduardo and
-                                Gonzalez, Jesus},
-                    year = {2013},
-                    month = {01},
-                    pages = {},
-                    title = {Synthetic Oversampling of Instances Using
-                                Clustering},
-                    volume = {22},
-                    booktitle = {International Journal of Artificial
-                                    Intelligence Tools}
-                    }
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_sample_componentwise,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        method="jittering",
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of nearest neighbors in the SMOTE
-                                sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            method (str): 'interpolation'/'jittering'
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 1,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_isin(method, "method", ["interpolation", "jittering"])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.method = method
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-            "method": ["interpolation", "jittering"],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def rearrange_clusters(self, cluster_idx, cluster_jdx, intersection):
-        """
-        Move the difference into the bigger cluster.
-
-        Args:
-            cluster_idx (set): the first cluster
-            cluster_jdx (set): the second cluster
-            intersection (set): the intersection of the clusters
-
-        Returns:
-            set, set: the updated cluster_idx and cluster_jdx
-        """
-        # otherwise move the difference into the
-        # bigger cluster
-        if len(cluster_idx) > len(cluster_jdx):
-            # removes the items that exist in both sets
-            cluster_jdx.difference_update(intersection)
-        else:
-            cluster_idx.difference_update(intersection)
-
-        return cluster_idx, cluster_jdx
-
-    def update_clusters(
-        self, *, X, y, cluster_idx, cluster_jdx, intersection, nn_all, nn_params
-    ):
-        """
-        Update two clusters during the merging.
-
-        Args:
-            X (np.array): the training vectors
-            y (np.array): the target labels
-            cluster_idx (set): the cluster at the index idx
-            cluster_jdx (set): the cluster at the index jdx
-            intersection (set): the intersection of the clusters
-            nn_all (obj): fitted nearest neighbors object
-            nn_params (dict): nearest neighbor parameters
-
-        Returns:
-            set, set: the updated clusters cluster_idx and cluster_jdx
-        """
-        # computing distance matrix
-        distm = pairwise_distances_mahalanobis(
-            X[list(cluster_idx)],
-            Y=X[list(cluster_jdx)],
-            tensor=nn_params.get("metric_tensor", None),
-        )
-        # largest distance
-        max_dist_pair = np.where(distm == np.max(distm))
-        # elements with the largest distance
-        max_i = X[list(cluster_idx)[max_dist_pair[0][0]]]
-        max_j = X[list(cluster_jdx)[max_dist_pair[1][0]]]
-
-        # finding midpoint and radius
-        mid_point = (max_i + max_j) / 2.0
-        radius = np.linalg.norm(mid_point - max_i)
-
-        # extracting points within the hypersphare of
-        # radius "radius"
-        ind = nn_all.radius_neighbors(
-            mid_point.reshape(1, -1), radius, return_distance=False
-        )
-
-        if np.sum(y[ind[0].astype(int)] == self.min_label) > len(ind[0]) / 2:
-            # if most of the covered elements come from the
-            # minority class, merge clusters
-            cluster_idx.update(cluster_jdx)
-            cluster_jdx = set()
-        else:
-            cluster_idx, cluster_jdx = self.rearrange_clusters(
-                cluster_idx, cluster_jdx, intersection
-            )
-
-        return cluster_idx, cluster_jdx
-
-    def init_clusters(self, y, indices):
-        """
-        Initialize the clusters.
-
-        Args:
-            y (np.array): all target labels
-            indices (np.array): the neighborhood structure
-
-        Returns:
-            list(set): the initial clusters
-        """
-        clusters = []
-
-        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
-
-        for idx in range(indices.shape[0]):
-            # while the closest instance is from the minority class, adding it
-            # to the cluster
-            clusters.append(set(indices[idx, : first_maj_index[idx]].tolist()))
-
-        return clusters
-
-    def clustering(self, X, y, nn_params):
-        """
-        Implementation of the clustering technique described in the paper.
-
-        Args:
-            X (np.array): array of training instances
-            y (np.array): target labels
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            list(set): list of minority clusters
-        """
-        nn_all = NearestNeighborsWithMetricTensor(n_jobs=self.n_jobs, **nn_params)
-        nn_all.fit(X)
-
-        X_min = X[y == self.min_label]
-
-        # extract nearest neighbors of all samples from the set of
-        # minority samples
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(X_min), n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        indices = nnmt.kneighbors(X_min, return_distance=False)
-
-        # initialize clusters by minority samples
-        clusters = self.init_clusters(y, indices)
-
-        # cluster merging phase
-        is_intersection = True
-        while is_intersection:
-            is_intersection = False
-            for idx, cluster_idx in enumerate(clusters):
-                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
-                    # computing intersection
-                    intersection = cluster_idx.intersection(cluster_jdx)
-                    if len(intersection) > 0:
-                        is_intersection = True
-
-                        cluster_idx, cluster_jdx = self.update_clusters(
-                            X=X,
-                            y=y,
-                            cluster_idx=cluster_idx,
-                            cluster_jdx=cluster_jdx,
-                            intersection=intersection,
-                            nn_all=nn_all,
-                            nn_params=nn_params,
-                        )
-
-                        clusters[idx] = cluster_idx
-                        clusters[jdx] = cluster_jdx
-
-            clusters = [c for c in clusters if len(c) > 0]
-
-        # returning non-empty clusters
-        return clusters
-
-    def sample_within_cluster_interpolation(self, X, cluster, n_to_sample):
-        """
-        Sample within a cluster by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            cluster (set): the cluster indices
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        combinations = list(itertools.combinations(np.arange(len(cluster)), 2))
-        indices = self.random_state.choice(np.arange(len(combinations)), n_to_sample)
-
-        combinations = np.array(combinations)[indices]
-        coords = np.array(list(zip(*combinations)))
-
-        X_0 = X[np.array(cluster)[coords[0]]]  # pylint: disable=invalid-name
-        X_1 = X[np.array(cluster)[coords[1]]]  # pylint: disable=invalid-name
-        samples = X_0 + (X_1 - X_0) * self.random_state.random_sample(size=X_0.shape)
-
-        return samples
-
-    def sampling_by_interpolation(self, X, clusters, cluster_weights, n_to_sample):
-        """
-        Generate samples by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            clusters (list(set)): the cluster indices
-            cluster_weights (np.array): the weights of the clusters
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples = np.zeros(shape=(0, X.shape[1]))
-        cluster_indices = self.random_state.choice(
-            np.arange(len(clusters)), n_to_sample, p=cluster_weights
-        )
-        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
-        for idx, cluster_idx in enumerate(cluster_unique):
-            samples_tmp = self.sample_within_cluster_interpolation(
-                X, clusters[cluster_idx], cluster_count[idx]
-            )
-            samples = np.vstack([samples, samples_tmp])
-
-        return samples
-
-    def cluster_stds(self, X, y, clusters):
-        """
-        Determine the cluster dependent stds.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            clusters (list(set)): the cluster indices
-
-        Returns:
-            np.array: the stds for the clusters
-        """
-        std_min = np.std(X[y == self.min_label], axis=0)
-        cluster_stds = []
-
-        for cluster in clusters:
-            std = np.std(X[cluster], axis=0)
-            std = np.min(np.vstack([std_min, std]), axis=0)
-            cluster_stds.append(std)
-
-        return np.array(cluster_stds)
-
-    def sample_within_cluster_jittering(
-        self, *, X, cluster, n_to_sample, std, nn_params
-    ):
-        """
-        Sample within a cluster by interpolation.
-
-        Args:
-            X (np.array): all training vectors
-            cluster (set): the cluster indices
-            n_to_sample (int): the number of samples to generate
-            std (np.array): the cluster specific standard deviations
-
-        Returns:
-            np.array: the generated samples
-        """
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X[cluster])
-        indices = nnmt.kneighbors(X[cluster], return_distance=False)
-
-        gaussian_component = self.gaussian_component
-        self.gaussian_component = {"sigmas": std}
-
-        samples = self.sample_simplex(
-            X=X[cluster], indices=indices, n_to_sample=n_to_sample
-        )
-
-        self.gaussian_component = gaussian_component
-
-        # indices = self.random_state.choice(np.arange(len(cluster)),
-        #                                        n_to_sample)
-        # X_base = X[np.array(cluster)[indices]]
-        # samples = X_base + self.random_state.normal(size=X_base.shape) * std
-
-        return samples
-
-    def sampling_by_jittering(
-        self, *, X, y, clusters, cluster_weights, n_to_sample, nn_params
-    ):
-        """
-        Generate samples by jittering.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            clusters (list(set)): the cluster indices
-            cluster_weights (np.array): the weights of the clusters
-            n_to_sample (int): the number of samples to generate
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array: the generated samples
-        """
-        stds = self.cluster_stds(X, y, clusters)
-
-        samples = np.zeros(shape=(0, X.shape[1]))
-
-        cluster_indices = self.random_state.choice(
-            np.arange(len(clusters)), n_to_sample, p=cluster_weights
-        )
-        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            X_samp = self.sample_within_cluster_jittering(
-                X=X,
-                cluster=clusters[cluster_idx],
-                n_to_sample=cluster_count[idx],
-                std=stds[cluster_idx],
-                nn_params=nn_params,
-            )
-            samples = np.vstack([samples, X_samp])
-
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # do the clustering
-        _logger.info("%s: Executing clustering", self.__class__.__name__)
-        clusters = self.clustering(X, y, nn_params)
-
-        # filtering the clusters, at least two points in a cluster are needed
-        # for both interpolation and jittering (due to the standard deviation)
-        clusters_filtered = [list(c) for c in clusters if len(c) > 2]
-
-        if len(clusters_filtered) == 0:
-            return self.return_copies(X, y, "No clusters with at least 2 elements")
-
-        # if there are clusters having at least 2 elements, do the sampling
-        cluster_nums = [len(c) for c in clusters_filtered]
-        cluster_weights = cluster_nums / np.sum(cluster_nums)
-
-        _logger.info("%s: Executing sample generation", self.__class__.__name__)
-
-        if self.method == "interpolation":
-            samples = self.sampling_by_interpolation(
-                X, clusters_filtered, cluster_weights, n_to_sample
-            )
-        elif self.method == "jittering":
-            samples = self.sampling_by_jittering(
-                X=X,
-                y=y,
-                clusters=clusters_filtered,
-                cluster_weights=cluster_weights,
-                n_to_sample=n_to_sample,
-                nn_params=nn_params,
-            )
-
-        return (
-            np.vstack([X, samples]),
-            np.hstack([y, np.array([self.min_label] * len(samples))]),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "method": self.method,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the SOI_CJ method.
+"""
+import itertools
+
+import numpy as np
+
+from ..base import coalesce, coalesce_dict
+from ..base import NearestNeighborsWithMetricTensor, pairwise_distances_mahalanobis
+from ..base import OverSamplingSimplex
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SOI_CJ"]
+
+
+class SOI_CJ(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @article{soi_cj,
+                    author = {Sánchez, Atlántida I. and Morales, Eduardo and
+                                Gonzalez, Jesus},
+                    year = {2013},
+                    month = {01},
+                    pages = {},
+                    title = {Synthetic Oversampling of Instances Using
+                                Clustering},
+                    volume = {22},
+                    booktitle = {International Journal of Artificial
+                                    Intelligence Tools}
+                    }
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_sample_componentwise,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        method="jittering",
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of nearest neighbors in the SMOTE
+                                sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            method (str): 'interpolation'/'jittering'
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 1,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_isin(method, "method", ["interpolation", "jittering"])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.method = method
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+            "method": ["interpolation", "jittering"],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def rearrange_clusters(self, cluster_idx, cluster_jdx, intersection):
+        """
+        Move the difference into the bigger cluster.
+
+        Args:
+            cluster_idx (set): the first cluster
+            cluster_jdx (set): the second cluster
+            intersection (set): the intersection of the clusters
+
+        Returns:
+            set, set: the updated cluster_idx and cluster_jdx
+        """
+        # otherwise move the difference into the
+        # bigger cluster
+        if len(cluster_idx) > len(cluster_jdx):
+            # removes the items that exist in both sets
+            cluster_jdx.difference_update(intersection)
+        else:
+            cluster_idx.difference_update(intersection)
+
+        return cluster_idx, cluster_jdx
+
+    def update_clusters(
+        self, *, X, y, cluster_idx, cluster_jdx, intersection, nn_all, nn_params
+    ):
+        """
+        Update two clusters during the merging.
+
+        Args:
+            X (np.array): the training vectors
+            y (np.array): the target labels
+            cluster_idx (set): the cluster at the index idx
+            cluster_jdx (set): the cluster at the index jdx
+            intersection (set): the intersection of the clusters
+            nn_all (obj): fitted nearest neighbors object
+            nn_params (dict): nearest neighbor parameters
+
+        Returns:
+            set, set: the updated clusters cluster_idx and cluster_jdx
+        """
+        # computing distance matrix
+        distm = pairwise_distances_mahalanobis(
+            X[list(cluster_idx)],
+            Y=X[list(cluster_jdx)],
+            tensor=nn_params.get("metric_tensor", None),
+        )
+        # largest distance
+        max_dist_pair = np.where(distm == np.max(distm))
+        # elements with the largest distance
+        max_i = X[list(cluster_idx)[max_dist_pair[0][0]]]
+        max_j = X[list(cluster_jdx)[max_dist_pair[1][0]]]
+
+        # finding midpoint and radius
+        mid_point = (max_i + max_j) / 2.0
+        radius = np.linalg.norm(mid_point - max_i)
+
+        # extracting points within the hypersphare of
+        # radius "radius"
+        ind = nn_all.radius_neighbors(
+            mid_point.reshape(1, -1), radius, return_distance=False
+        )
+
+        if np.sum(y[ind[0].astype(int)] == self.min_label) > len(ind[0]) / 2:
+            # if most of the covered elements come from the
+            # minority class, merge clusters
+            cluster_idx.update(cluster_jdx)
+            cluster_jdx = set()
+        else:
+            cluster_idx, cluster_jdx = self.rearrange_clusters(
+                cluster_idx, cluster_jdx, intersection
+            )
+
+        return cluster_idx, cluster_jdx
+
+    def init_clusters(self, y, indices):
+        """
+        Initialize the clusters.
+
+        Args:
+            y (np.array): all target labels
+            indices (np.array): the neighborhood structure
+
+        Returns:
+            list(set): the initial clusters
+        """
+        clusters = []
+
+        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
+
+        for idx in range(indices.shape[0]):
+            # while the closest instance is from the minority class, adding it
+            # to the cluster
+            clusters.append(set(indices[idx, : first_maj_index[idx]].tolist()))
+
+        return clusters
+
+    def clustering(self, X, y, nn_params):
+        """
+        Implementation of the clustering technique described in the paper.
+
+        Args:
+            X (np.array): array of training instances
+            y (np.array): target labels
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            list(set): list of minority clusters
+        """
+        nn_all = NearestNeighborsWithMetricTensor(n_jobs=self.n_jobs, **nn_params)
+        nn_all.fit(X)
+
+        X_min = X[y == self.min_label]
+
+        # extract nearest neighbors of all samples from the set of
+        # minority samples
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(X_min), n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        indices = nnmt.kneighbors(X_min, return_distance=False)
+
+        # initialize clusters by minority samples
+        clusters = self.init_clusters(y, indices)
+
+        # cluster merging phase
+        is_intersection = True
+        while is_intersection:
+            is_intersection = False
+            for idx, cluster_idx in enumerate(clusters):
+                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
+                    # computing intersection
+                    intersection = cluster_idx.intersection(cluster_jdx)
+                    if len(intersection) > 0:
+                        is_intersection = True
+
+                        cluster_idx, cluster_jdx = self.update_clusters(
+                            X=X,
+                            y=y,
+                            cluster_idx=cluster_idx,
+                            cluster_jdx=cluster_jdx,
+                            intersection=intersection,
+                            nn_all=nn_all,
+                            nn_params=nn_params,
+                        )
+
+                        clusters[idx] = cluster_idx
+                        clusters[jdx] = cluster_jdx
+
+            clusters = [c for c in clusters if len(c) > 0]
+
+        # returning non-empty clusters
+        return clusters
+
+    def sample_within_cluster_interpolation(self, X, cluster, n_to_sample):
+        """
+        Sample within a cluster by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            cluster (set): the cluster indices
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        combinations = list(itertools.combinations(np.arange(len(cluster)), 2))
+        indices = self.random_state.choice(np.arange(len(combinations)), n_to_sample)
+
+        combinations = np.array(combinations)[indices]
+        coords = np.array(list(zip(*combinations)))
+
+        X_0 = X[np.array(cluster)[coords[0]]]  # pylint: disable=invalid-name
+        X_1 = X[np.array(cluster)[coords[1]]]  # pylint: disable=invalid-name
+        samples = X_0 + (X_1 - X_0) * self.random_state.random_sample(size=X_0.shape)
+
+        return samples
+
+    def sampling_by_interpolation(self, X, clusters, cluster_weights, n_to_sample):
+        """
+        Generate samples by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            clusters (list(set)): the cluster indices
+            cluster_weights (np.array): the weights of the clusters
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples = np.zeros(shape=(0, X.shape[1]))
+        cluster_indices = self.random_state.choice(
+            np.arange(len(clusters)), n_to_sample, p=cluster_weights
+        )
+        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
+        for idx, cluster_idx in enumerate(cluster_unique):
+            samples_tmp = self.sample_within_cluster_interpolation(
+                X, clusters[cluster_idx], cluster_count[idx]
+            )
+            samples = np.vstack([samples, samples_tmp])
+
+        return samples
+
+    def cluster_stds(self, X, y, clusters):
+        """
+        Determine the cluster dependent stds.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            clusters (list(set)): the cluster indices
+
+        Returns:
+            np.array: the stds for the clusters
+        """
+        std_min = np.std(X[y == self.min_label], axis=0)
+        cluster_stds = []
+
+        for cluster in clusters:
+            std = np.std(X[cluster], axis=0)
+            std = np.min(np.vstack([std_min, std]), axis=0)
+            cluster_stds.append(std)
+
+        return np.array(cluster_stds)
+
+    def sample_within_cluster_jittering(
+        self, *, X, cluster, n_to_sample, std, nn_params
+    ):
+        """
+        Sample within a cluster by interpolation.
+
+        Args:
+            X (np.array): all training vectors
+            cluster (set): the cluster indices
+            n_to_sample (int): the number of samples to generate
+            std (np.array): the cluster specific standard deviations
+
+        Returns:
+            np.array: the generated samples
+        """
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X[cluster])
+        indices = nnmt.kneighbors(X[cluster], return_distance=False)
+
+        gaussian_component = self.gaussian_component
+        self.gaussian_component = {"sigmas": std}
+
+        samples = self.sample_simplex(
+            X=X[cluster], indices=indices, n_to_sample=n_to_sample
+        )
+
+        self.gaussian_component = gaussian_component
+
+        # indices = self.random_state.choice(np.arange(len(cluster)),
+        #                                        n_to_sample)
+        # X_base = X[np.array(cluster)[indices]]
+        # samples = X_base + self.random_state.normal(size=X_base.shape) * std
+
+        return samples
+
+    def sampling_by_jittering(
+        self, *, X, y, clusters, cluster_weights, n_to_sample, nn_params
+    ):
+        """
+        Generate samples by jittering.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            clusters (list(set)): the cluster indices
+            cluster_weights (np.array): the weights of the clusters
+            n_to_sample (int): the number of samples to generate
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array: the generated samples
+        """
+        stds = self.cluster_stds(X, y, clusters)
+
+        samples = np.zeros(shape=(0, X.shape[1]))
+
+        cluster_indices = self.random_state.choice(
+            np.arange(len(clusters)), n_to_sample, p=cluster_weights
+        )
+        cluster_unique, cluster_count = np.unique(cluster_indices, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            X_samp = self.sample_within_cluster_jittering(
+                X=X,
+                cluster=clusters[cluster_idx],
+                n_to_sample=cluster_count[idx],
+                std=stds[cluster_idx],
+                nn_params=nn_params,
+            )
+            samples = np.vstack([samples, X_samp])
+
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # do the clustering
+        _logger.info("%s: Executing clustering", self.__class__.__name__)
+        clusters = self.clustering(X, y, nn_params)
+
+        # filtering the clusters, at least two points in a cluster are needed
+        # for both interpolation and jittering (due to the standard deviation)
+        clusters_filtered = [list(c) for c in clusters if len(c) > 2]
+
+        if len(clusters_filtered) == 0:
+            return self.return_copies(X, y, "No clusters with at least 2 elements")
+
+        # if there are clusters having at least 2 elements, do the sampling
+        cluster_nums = [len(c) for c in clusters_filtered]
+        cluster_weights = cluster_nums / np.sum(cluster_nums)
+
+        _logger.info("%s: Executing sample generation", self.__class__.__name__)
+
+        if self.method == "interpolation":
+            samples = self.sampling_by_interpolation(
+                X, clusters_filtered, cluster_weights, n_to_sample
+            )
+        elif self.method == "jittering":
+            samples = self.sampling_by_jittering(
+                X=X,
+                y=y,
+                clusters=clusters_filtered,
+                cluster_weights=cluster_weights,
+                n_to_sample=n_to_sample,
+                nn_params=nn_params,
+            )
+
+        return (
+            np.vstack([X, samples]),
+            np.hstack([y, np.array([self.min_label] * len(samples))]),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "method": self.method,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index d97de8c..4d027ff 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -1,439 +1,439 @@
-"""
-This module implements the SOMO method.
-"""
-
-import numpy as np
-
-from scipy.linalg import circulant
-
-import minisom
-
-from ..base import pairwise_distances_mahalanobis
-
-from ..base import coalesce, coalesce_dict, fix_density
-from ..base import OverSamplingSimplex
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SOMO"]
-
-
-class SOMO(OverSamplingSimplex):
-    """
-    References:
-        * BibTex::
-
-            @article{somo,
-                        title = "Self-Organizing Map Oversampling (SOMO) for
-                                    imbalanced data set learning",
-                        journal = "Expert Systems with Applications",
-                        volume = "82",
-                        pages = "40 - 52",
-                        year = "2017",
-                        issn = "0957-4174",
-                        doi = "https://doi.org/10.1016/j.eswa.2017.03.073",
-                        author = "Georgios Douzas and Fernando Bacao"
-                        }
-
-    Notes:
-        * It is not specified how to handle those cases when a cluster contains
-            1 minority samples, the mean of within-cluster distances is set to
-            100 in these cases.
-    """
-
-    categories = [
-        OverSamplingSimplex.cat_extensive,
-        OverSamplingSimplex.cat_uses_clustering,
-        OverSamplingSimplex.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        *,
-        n_grid=10,
-        sigma=0.2,
-        learning_rate=0.5,
-        n_iter=100,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_grid (int): size of grid
-            sigma (float): sigma of SOM
-            learning_rate (float) learning rate of SOM
-            n_iter (int): number of iterations
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-        ss_params = coalesce_dict(ss_params, ss_params_default)
-
-        super().__init__(**ss_params, random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_grid, "n_grid", 2)
-        self.check_greater(sigma, "sigma", 0)
-        self.check_greater(learning_rate, "learning_rate", 0)
-        self.check_greater_or_equal(n_iter, "n_iter", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.params = {
-            "n_grid": n_grid,
-            "sigma": sigma,
-            "learning_rate": learning_rate,
-            "n_iter": n_iter,
-        }
-        self.nn_params = coalesce(nn_params, {})
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_grid": [5, 9, 13],
-            "sigma": [0.4],
-            "learning_rate": [0.3, 0.5],
-            "n_iter": [100],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def construct_grid(self, X, y):
-        """
-        Construct the grid.
-
-        Args:
-            X (np.array): all feature vectors
-            y (np.array): all target labels
-
-        Returns:
-            dict, dict: the minority and majority grids
-        """
-        # training SOM
-        som = minisom.MiniSom(
-            self.params["n_grid"],
-            self.params["n_grid"],
-            len(X[0]),
-            sigma=self.params["sigma"],
-            learning_rate=self.params["learning_rate"],
-            random_seed=3,
-        )
-        som.train_random(X, self.params["n_iter"])
-
-        # constructing the grid
-        grid_min = {}
-        grid_maj = {}
-
-        for jdx, x_vec in enumerate(X):
-            idx = som.winner(x_vec)
-            idx = (idx[0], idx[1])
-            if idx not in grid_min:
-                grid_min[idx] = []
-            if idx not in grid_maj:
-                grid_maj[idx] = []
-            if y[jdx] == self.min_label:
-                grid_min[idx].append(jdx)
-            else:
-                grid_maj[idx].append(jdx)
-
-        # converting the grid to arrays
-        for idx in grid_min:
-            grid_min[idx] = np.array(grid_min[idx])
-        for idx in grid_maj:
-            grid_maj[idx] = np.array(grid_maj[idx])
-
-        return grid_min, grid_maj
-
-    def determine_densities(self, grid_min, grid_maj, X, y):
-        """
-        Determine densities
-
-        Args:
-            grid_min (dict): the minority grid
-            gird_maj (dict): the majority grid
-            X (np.array): all feature vectors
-            y (np.array): all target labels
-
-        Returns:
-            dict: the densities
-        """
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        tensor = nn_params.get("metric_tensor", None)
-
-        # filtering
-        filtered = {}
-        for idx, _ in grid_min.items():
-            filtered[idx] = (len(grid_maj[idx]) + 1) / (len(grid_min[idx]) + 1) < 1.0
-
-        # computing densities
-        densities = {}
-        for idx, filt in filtered.items():
-            if filt:
-                paird = pairwise_distances_mahalanobis(X[grid_min[idx]], tensor=tensor)
-                mean_value = np.mean(paird)
-                if len(grid_min[idx]) > 1 and mean_value > 0:
-                    densities[idx] = len(grid_min[idx]) / mean_value**2
-                else:
-                    densities[idx] = 10
-
-        return densities
-
-    def determine_pair_densities(self, densities):
-        """
-        Determine pair densities.
-
-        Args:
-            densities (dict): the densities
-
-        Returns:
-            dict: the pair densities
-        """
-        # computing neighbour densities, using 4 neighborhood
-        neighbors = [[0, 1], [0, -1], [1, 0], [-1, 0]]
-        pair_densities = {}
-        for idx, _ in densities.items():
-            for neigh in neighbors:
-                jdx = (idx[0] + neigh[0], idx[1] + neigh[1])
-                if jdx in densities:
-                    pair_densities[(idx, jdx)] = densities[idx] + densities[jdx]
-
-        return pair_densities
-
-    def create_density_from_dict(self, density):
-        """
-        Create probability density from a dictionary.
-
-        Args:
-            density (dict): densities unnormalized in a dictionary
-
-        Returns:
-            np.array: the density values
-        """
-        density_vals = np.array(list(density.values()))
-        density_vals = 1.0 / density_vals
-
-        density_vals = fix_density(density_vals)
-
-        return density_vals
-
-    def generate_intra(self, *, density_keys, density_vals, grid_min, X, n_to_sample):
-        """
-        Generate samples within the clusters.
-
-        Args:
-            density_keys (list): the density keys
-            density_vals (np.array): the density values
-            grid_min (dict): the minority grid
-            X (np.array): all feature vectors
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        samples = np.zeros((0, X.shape[1]))
-        clusters = self.random_state.choice(
-            np.arange(len(density_keys)), n_to_sample, p=density_vals
-        )
-
-        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            cluster = X[grid_min[density_keys[cluster_idx]]]
-            # n_dim_orig = self.n_dim
-            # self.n_dim = np.min([len(cluster), n_dim_orig])
-            samples_tmp = self.sample_simplex(
-                X=cluster,
-                indices=circulant(np.arange(cluster.shape[0])),
-                n_to_sample=cluster_count[idx],
-            )
-            samples = np.vstack([samples, samples_tmp])
-            # self.n_dim = n_dim_orig
-
-        # while len(samples) < n_to_sample:
-        #    cluster_idx = density_keys[self.random_state.choice(
-        #        np.arange(len(density_keys)), p=density_vals)]
-        #    cluster = grid_min[cluster_idx]
-        #    sample_a, sample_b = self.random_state.choice(cluster, 2)
-        #    samples.append(self.sample_between_points(
-        #        X[sample_a], X[sample_b]))
-
-        return samples
-
-    def generate_inter_samples(self, cluster_a, cluster_b, n_to_sample):
-        """
-        Generate samples between two clusters.
-
-        Args:
-            cluster_a (np.array): the first cluster
-            cluster_b (np.array): the second cluster
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        tile = np.tile(np.arange(len(cluster_b)), (len(cluster_a), 1))
-
-        indices = (np.vstack([np.zeros(len(cluster_a)), tile.T]).T).astype(int)
-
-        n_dim_orig = self.n_dim
-        self.n_dim = 2
-
-        samples_tmp = self.sample_simplex(
-            X=cluster_a, indices=indices, n_to_sample=n_to_sample, X_vertices=cluster_b
-        )
-
-        self.n_dim = n_dim_orig
-
-        return samples_tmp
-
-    def generate_inter(self, *, pair_keys, pair_dens_vals, grid_min, X, n_to_sample):
-        """
-        Generate samples between the clusters.
-
-        Args:
-            pair_keys (list): the density keys
-            pair_dens_vals (np.array): the density values
-            grid_min (dict): the minority grid
-            X (np.array): all feature vectors
-            n_to_sample (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-
-        samples = np.zeros((0, X.shape[1]))
-
-        if pair_dens_vals.shape[0] == 0:
-            return samples
-
-        clusters = self.random_state.choice(
-            np.arange(len(pair_keys)), n_to_sample, p=pair_dens_vals
-        )
-
-        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
-
-        for idx, cluster_idx in enumerate(cluster_unique):
-            samples_tmp = self.generate_inter_samples(
-                cluster_a=X[grid_min[pair_keys[cluster_idx][0]]],
-                cluster_b=X[grid_min[pair_keys[cluster_idx][1]]],
-                n_to_sample=cluster_count[idx],
-            )
-            samples = np.vstack([samples, samples_tmp])
-
-        # while len(samples) < n_to_sample:
-        #    idx = pair_keys[self.random_state.choice(
-        #        np.arange(len(pair_keys)), p=pair_dens_vals)]
-        #    cluster_a = grid_min[idx[0]]
-        #    cluster_b = grid_min[idx[1]]
-        #    X_a = X[self.random_state.choice(cluster_a)]
-        #    X_b = X[self.random_state.choice(cluster_b)]
-        #    samples.append(self.sample_between_points(X_a, X_b))
-
-        return samples
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        n_to_sample = self.det_n_to_sample(
-            self.proportion,
-            self.class_stats[self.maj_label],
-            self.class_stats[self.min_label],
-        )
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        grid_min, grid_maj = self.construct_grid(X, y)
-
-        densities = self.determine_densities(grid_min, grid_maj, X, y)
-
-        # all clusters can be filtered
-        if len(densities) == 0:
-            return self.return_copies(X, y, "all clusters filtered")
-
-        pair_densities = self.determine_pair_densities(densities)
-
-        density_vals = self.create_density_from_dict(densities)
-        pair_dens_vals = self.create_density_from_dict(pair_densities)
-
-        density_keys = list(densities.keys())
-        pair_keys = list(pair_densities.keys())
-
-        # determining num of samples to generate
-        if len(pair_dens_vals) > 0:
-            dens_num = int(n_to_sample / 2)
-        else:
-            dens_num = n_to_sample
-
-        # generating the samples according to the extracted distributions
-        samples_intra = self.generate_intra(
-            density_keys=density_keys,
-            density_vals=density_vals,
-            grid_min=grid_min,
-            X=X,
-            n_to_sample=dens_num,
-        )
-
-        samples_inter = self.generate_inter(
-            pair_keys=pair_keys,
-            pair_dens_vals=pair_dens_vals,
-            grid_min=grid_min,
-            X=X,
-            n_to_sample=n_to_sample - dens_num,
-        )
-
-        return (
-            np.vstack([X, np.vstack([samples_intra, samples_inter])]),
-            np.hstack(
-                [y, np.repeat(self.min_label, len(samples_intra) + len(samples_inter))]
-            ),
-        )
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_grid": self.params["n_grid"],
-            "sigma": self.params["sigma"],
-            "learning_rate": self.params["learning_rate"],
-            "n_iter": self.params["n_iter"],
-            "nn_params": self.nn_params,
-            "n_jobs": self.n_jobs,
-            **OverSamplingSimplex.get_params(self),
-        }
+"""
+This module implements the SOMO method.
+"""
+
+import numpy as np
+
+from scipy.linalg import circulant
+
+import minisom
+
+from ..base import pairwise_distances_mahalanobis
+
+from ..base import coalesce, coalesce_dict, fix_density
+from ..base import OverSamplingSimplex
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SOMO"]
+
+
+class SOMO(OverSamplingSimplex):
+    """
+    References:
+        * BibTex::
+
+            @article{somo,
+                        title = "Self-Organizing Map Oversampling (SOMO) for
+                                    imbalanced data set learning",
+                        journal = "Expert Systems with Applications",
+                        volume = "82",
+                        pages = "40 - 52",
+                        year = "2017",
+                        issn = "0957-4174",
+                        doi = "https://doi.org/10.1016/j.eswa.2017.03.073",
+                        author = "Georgios Douzas and Fernando Bacao"
+                        }
+
+    Notes:
+        * It is not specified how to handle those cases when a cluster contains
+            1 minority samples, the mean of within-cluster distances is set to
+            100 in these cases.
+    """
+
+    categories = [
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        *,
+        n_grid=10,
+        sigma=0.2,
+        learning_rate=0.5,
+        n_iter=100,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_grid (int): size of grid
+            sigma (float): sigma of SOM
+            learning_rate (float) learning rate of SOM
+            n_iter (int): number of iterations
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+        ss_params = coalesce_dict(ss_params, ss_params_default)
+
+        super().__init__(**ss_params, random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_grid, "n_grid", 2)
+        self.check_greater(sigma, "sigma", 0)
+        self.check_greater(learning_rate, "learning_rate", 0)
+        self.check_greater_or_equal(n_iter, "n_iter", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.params = {
+            "n_grid": n_grid,
+            "sigma": sigma,
+            "learning_rate": learning_rate,
+            "n_iter": n_iter,
+        }
+        self.nn_params = coalesce(nn_params, {})
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_grid": [5, 9, 13],
+            "sigma": [0.4],
+            "learning_rate": [0.3, 0.5],
+            "n_iter": [100],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def construct_grid(self, X, y):
+        """
+        Construct the grid.
+
+        Args:
+            X (np.array): all feature vectors
+            y (np.array): all target labels
+
+        Returns:
+            dict, dict: the minority and majority grids
+        """
+        # training SOM
+        som = minisom.MiniSom(
+            self.params["n_grid"],
+            self.params["n_grid"],
+            len(X[0]),
+            sigma=self.params["sigma"],
+            learning_rate=self.params["learning_rate"],
+            random_seed=3,
+        )
+        som.train_random(X, self.params["n_iter"])
+
+        # constructing the grid
+        grid_min = {}
+        grid_maj = {}
+
+        for jdx, x_vec in enumerate(X):
+            idx = som.winner(x_vec)
+            idx = (idx[0], idx[1])
+            if idx not in grid_min:
+                grid_min[idx] = []
+            if idx not in grid_maj:
+                grid_maj[idx] = []
+            if y[jdx] == self.min_label:
+                grid_min[idx].append(jdx)
+            else:
+                grid_maj[idx].append(jdx)
+
+        # converting the grid to arrays
+        for idx in grid_min:
+            grid_min[idx] = np.array(grid_min[idx])
+        for idx in grid_maj:
+            grid_maj[idx] = np.array(grid_maj[idx])
+
+        return grid_min, grid_maj
+
+    def determine_densities(self, grid_min, grid_maj, X, y):
+        """
+        Determine densities
+
+        Args:
+            grid_min (dict): the minority grid
+            gird_maj (dict): the majority grid
+            X (np.array): all feature vectors
+            y (np.array): all target labels
+
+        Returns:
+            dict: the densities
+        """
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        tensor = nn_params.get("metric_tensor", None)
+
+        # filtering
+        filtered = {}
+        for idx, _ in grid_min.items():
+            filtered[idx] = (len(grid_maj[idx]) + 1) / (len(grid_min[idx]) + 1) < 1.0
+
+        # computing densities
+        densities = {}
+        for idx, filt in filtered.items():
+            if filt:
+                paird = pairwise_distances_mahalanobis(X[grid_min[idx]], tensor=tensor)
+                mean_value = np.mean(paird)
+                if len(grid_min[idx]) > 1 and mean_value > 0:
+                    densities[idx] = len(grid_min[idx]) / mean_value**2
+                else:
+                    densities[idx] = 10
+
+        return densities
+
+    def determine_pair_densities(self, densities):
+        """
+        Determine pair densities.
+
+        Args:
+            densities (dict): the densities
+
+        Returns:
+            dict: the pair densities
+        """
+        # computing neighbour densities, using 4 neighborhood
+        neighbors = [[0, 1], [0, -1], [1, 0], [-1, 0]]
+        pair_densities = {}
+        for idx, _ in densities.items():
+            for neigh in neighbors:
+                jdx = (idx[0] + neigh[0], idx[1] + neigh[1])
+                if jdx in densities:
+                    pair_densities[(idx, jdx)] = densities[idx] + densities[jdx]
+
+        return pair_densities
+
+    def create_density_from_dict(self, density):
+        """
+        Create probability density from a dictionary.
+
+        Args:
+            density (dict): densities unnormalized in a dictionary
+
+        Returns:
+            np.array: the density values
+        """
+        density_vals = np.array(list(density.values()))
+        density_vals = 1.0 / density_vals
+
+        density_vals = fix_density(density_vals)
+
+        return density_vals
+
+    def generate_intra(self, *, density_keys, density_vals, grid_min, X, n_to_sample):
+        """
+        Generate samples within the clusters.
+
+        Args:
+            density_keys (list): the density keys
+            density_vals (np.array): the density values
+            grid_min (dict): the minority grid
+            X (np.array): all feature vectors
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        samples = np.zeros((0, X.shape[1]))
+        clusters = self.random_state.choice(
+            np.arange(len(density_keys)), n_to_sample, p=density_vals
+        )
+
+        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            cluster = X[grid_min[density_keys[cluster_idx]]]
+            # n_dim_orig = self.n_dim
+            # self.n_dim = np.min([len(cluster), n_dim_orig])
+            samples_tmp = self.sample_simplex(
+                X=cluster,
+                indices=circulant(np.arange(cluster.shape[0])),
+                n_to_sample=cluster_count[idx],
+            )
+            samples = np.vstack([samples, samples_tmp])
+            # self.n_dim = n_dim_orig
+
+        # while len(samples) < n_to_sample:
+        #    cluster_idx = density_keys[self.random_state.choice(
+        #        np.arange(len(density_keys)), p=density_vals)]
+        #    cluster = grid_min[cluster_idx]
+        #    sample_a, sample_b = self.random_state.choice(cluster, 2)
+        #    samples.append(self.sample_between_points(
+        #        X[sample_a], X[sample_b]))
+
+        return samples
+
+    def generate_inter_samples(self, cluster_a, cluster_b, n_to_sample):
+        """
+        Generate samples between two clusters.
+
+        Args:
+            cluster_a (np.array): the first cluster
+            cluster_b (np.array): the second cluster
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        tile = np.tile(np.arange(len(cluster_b)), (len(cluster_a), 1))
+
+        indices = (np.vstack([np.zeros(len(cluster_a)), tile.T]).T).astype(int)
+
+        n_dim_orig = self.n_dim
+        self.n_dim = 2
+
+        samples_tmp = self.sample_simplex(
+            X=cluster_a, indices=indices, n_to_sample=n_to_sample, X_vertices=cluster_b
+        )
+
+        self.n_dim = n_dim_orig
+
+        return samples_tmp
+
+    def generate_inter(self, *, pair_keys, pair_dens_vals, grid_min, X, n_to_sample):
+        """
+        Generate samples between the clusters.
+
+        Args:
+            pair_keys (list): the density keys
+            pair_dens_vals (np.array): the density values
+            grid_min (dict): the minority grid
+            X (np.array): all feature vectors
+            n_to_sample (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+
+        samples = np.zeros((0, X.shape[1]))
+
+        if pair_dens_vals.shape[0] == 0:
+            return samples
+
+        clusters = self.random_state.choice(
+            np.arange(len(pair_keys)), n_to_sample, p=pair_dens_vals
+        )
+
+        cluster_unique, cluster_count = np.unique(clusters, return_counts=True)
+
+        for idx, cluster_idx in enumerate(cluster_unique):
+            samples_tmp = self.generate_inter_samples(
+                cluster_a=X[grid_min[pair_keys[cluster_idx][0]]],
+                cluster_b=X[grid_min[pair_keys[cluster_idx][1]]],
+                n_to_sample=cluster_count[idx],
+            )
+            samples = np.vstack([samples, samples_tmp])
+
+        # while len(samples) < n_to_sample:
+        #    idx = pair_keys[self.random_state.choice(
+        #        np.arange(len(pair_keys)), p=pair_dens_vals)]
+        #    cluster_a = grid_min[idx[0]]
+        #    cluster_b = grid_min[idx[1]]
+        #    X_a = X[self.random_state.choice(cluster_a)]
+        #    X_b = X[self.random_state.choice(cluster_b)]
+        #    samples.append(self.sample_between_points(X_a, X_b))
+
+        return samples
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        n_to_sample = self.det_n_to_sample(
+            self.proportion,
+            self.class_stats[self.maj_label],
+            self.class_stats[self.min_label],
+        )
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        grid_min, grid_maj = self.construct_grid(X, y)
+
+        densities = self.determine_densities(grid_min, grid_maj, X, y)
+
+        # all clusters can be filtered
+        if len(densities) == 0:
+            return self.return_copies(X, y, "all clusters filtered")
+
+        pair_densities = self.determine_pair_densities(densities)
+
+        density_vals = self.create_density_from_dict(densities)
+        pair_dens_vals = self.create_density_from_dict(pair_densities)
+
+        density_keys = list(densities.keys())
+        pair_keys = list(pair_densities.keys())
+
+        # determining num of samples to generate
+        if len(pair_dens_vals) > 0:
+            dens_num = int(n_to_sample / 2)
+        else:
+            dens_num = n_to_sample
+
+        # generating the samples according to the extracted distributions
+        samples_intra = self.generate_intra(
+            density_keys=density_keys,
+            density_vals=density_vals,
+            grid_min=grid_min,
+            X=X,
+            n_to_sample=dens_num,
+        )
+
+        samples_inter = self.generate_inter(
+            pair_keys=pair_keys,
+            pair_dens_vals=pair_dens_vals,
+            grid_min=grid_min,
+            X=X,
+            n_to_sample=n_to_sample - dens_num,
+        )
+
+        return (
+            np.vstack([X, np.vstack([samples_intra, samples_inter])]),
+            np.hstack(
+                [y, np.repeat(self.min_label, len(samples_intra) + len(samples_inter))]
+            ),
+        )
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_grid": self.params["n_grid"],
+            "sigma": self.params["sigma"],
+            "learning_rate": self.params["learning_rate"],
+            "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
+            **OverSamplingSimplex.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index 937185d..3b8d6c0 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -1,172 +1,172 @@
-"""
-This module implements the SPY method.
-"""
-
-import numpy as np
-
-from ..base import NearestNeighborsWithMetricTensor
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SPY"]
-
-
-class SPY(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @INPROCEEDINGS{spy,
-                            author={Dang, X. T. and Tran, D. H. and Hirose, O.
-                                    and Satou, K.},
-                            booktitle={2015 Seventh International Conference
-                                        on Knowledge and Systems Engineering
-                                        (KSE)},
-                            title={SPY: A Novel Resampling Method for
-                                    Improving Classification Performance in
-                                    Imbalanced Data},
-                            year={2015},
-                            volume={},
-                            number={},
-                            pages={280-285},
-                            keywords={decision making;learning (artificial
-                                        intelligence);pattern classification;
-                                        sampling methods;SPY;resampling
-                                        method;decision-making process;
-                                        biomedical data classification;
-                                        class imbalance learning method;
-                                        SMOTE;oversampling method;UCI
-                                        machine learning repository;G-mean
-                                        value;borderline-SMOTE;
-                                        safe-level-SMOTE;Support vector
-                                        machines;Training;Bioinformatics;
-                                        Proteins;Protein engineering;Radio
-                                        frequency;Sensitivity;Imbalanced
-                                        dataset;Over-sampling;
-                                        Under-sampling;SMOTE;
-                                        borderline-SMOTE},
-                            doi={10.1109/KSE.2015.24},
-                            ISSN={},
-                            month={Oct}}
-    """
-
-    categories = [OverSampling.cat_changes_majority, OverSampling.cat_metric_learning]
-
-    def __init__(
-        self,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        threshold=0.5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            n_neighbors (int): number of neighbors in nearest neighbor
-                                component
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            threshold (float): threshold*n_neighbors gives the threshold z
-                                described in the paper
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_in_range(threshold, "threshold", [0, 1])
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.n_neighbors = n_neighbors
-        self.nn_params = nn_params or {}
-        self.threshold = threshold
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "n_neighbors": [3, 5, 7],
-            "threshold": [0.3, 0.5, 0.7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        X_min = X[y == self.min_label]
-
-        # fitting nearest neighbors model
-        n_neighbors = min([len(X), self.n_neighbors + 1])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-        )
-        nnmt.fit(X)
-        ind = nnmt.kneighbors(X_min, return_distance=False)
-
-        # if the number of majority samples in the neighborhood is
-        # smaller than a threshold
-        # their labels are changed to minority
-
-        y_new = y.copy()
-        z_vec = self.threshold * n_neighbors
-
-        majority_mask = y[ind[:, 1:]] == self.maj_label
-
-        x_vec = np.sum(majority_mask, axis=1)
-        mask = x_vec < z_vec
-
-        mask = list(set(ind[mask, 1:][majority_mask[mask]].tolist()))
-
-        y_new[mask] = self.min_label
-
-        # checking the neighbors of each minority sample
-        # for i in range(len(X_min)):
-        #    majority_mask = y[ind[i][1:]] == self.maj_label
-        #    x = np.sum(majority_mask)
-        #    # if the number of majority samples in the neighborhood is
-        #    # smaller than a threshold
-        #    # their labels are changed to minority
-        #    if x < z:
-        #        y_new[ind[i][1:][majority_mask]] = self.min_label
-
-        return X.copy(), y_new
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "threshold": self.threshold,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SPY method.
+"""
+
+import numpy as np
+
+from ..base import NearestNeighborsWithMetricTensor
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SPY"]
+
+
+class SPY(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @INPROCEEDINGS{spy,
+                            author={Dang, X. T. and Tran, D. H. and Hirose, O.
+                                    and Satou, K.},
+                            booktitle={2015 Seventh International Conference
+                                        on Knowledge and Systems Engineering
+                                        (KSE)},
+                            title={SPY: A Novel Resampling Method for
+                                    Improving Classification Performance in
+                                    Imbalanced Data},
+                            year={2015},
+                            volume={},
+                            number={},
+                            pages={280-285},
+                            keywords={decision making;learning (artificial
+                                        intelligence);pattern classification;
+                                        sampling methods;SPY;resampling
+                                        method;decision-making process;
+                                        biomedical data classification;
+                                        class imbalance learning method;
+                                        SMOTE;oversampling method;UCI
+                                        machine learning repository;G-mean
+                                        value;borderline-SMOTE;
+                                        safe-level-SMOTE;Support vector
+                                        machines;Training;Bioinformatics;
+                                        Proteins;Protein engineering;Radio
+                                        frequency;Sensitivity;Imbalanced
+                                        dataset;Over-sampling;
+                                        Under-sampling;SMOTE;
+                                        borderline-SMOTE},
+                            doi={10.1109/KSE.2015.24},
+                            ISSN={},
+                            month={Oct}}
+    """
+
+    categories = [OverSampling.cat_changes_majority, OverSampling.cat_metric_learning]
+
+    def __init__(
+        self,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        threshold=0.5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            n_neighbors (int): number of neighbors in nearest neighbor
+                                component
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            threshold (float): threshold*n_neighbors gives the threshold z
+                                described in the paper
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_in_range(threshold, "threshold", [0, 1])
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.n_neighbors = n_neighbors
+        self.nn_params = nn_params or {}
+        self.threshold = threshold
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "n_neighbors": [3, 5, 7],
+            "threshold": [0.3, 0.5, 0.7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        X_min = X[y == self.min_label]
+
+        # fitting nearest neighbors model
+        n_neighbors = min([len(X), self.n_neighbors + 1])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
+        )
+        nnmt.fit(X)
+        ind = nnmt.kneighbors(X_min, return_distance=False)
+
+        # if the number of majority samples in the neighborhood is
+        # smaller than a threshold
+        # their labels are changed to minority
+
+        y_new = y.copy()
+        z_vec = self.threshold * n_neighbors
+
+        majority_mask = y[ind[:, 1:]] == self.maj_label
+
+        x_vec = np.sum(majority_mask, axis=1)
+        mask = x_vec < z_vec
+
+        mask = list(set(ind[mask, 1:][majority_mask[mask]].tolist()))
+
+        y_new[mask] = self.min_label
+
+        # checking the neighbors of each minority sample
+        # for i in range(len(X_min)):
+        #    majority_mask = y[ind[i][1:]] == self.maj_label
+        #    x = np.sum(majority_mask)
+        #    # if the number of majority samples in the neighborhood is
+        #    # smaller than a threshold
+        #    # their labels are changed to minority
+        #    if x < z:
+        #        y_new[ind[i][1:][majority_mask]] = self.min_label
+
+        return X.copy(), y_new
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index 553379b..fd3d3af 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -1,444 +1,444 @@
-"""
-This module implements the SSO method.
-"""
-
-import numpy as np
-
-from sklearn.cluster import KMeans
-from sklearn.linear_model import LinearRegression
-
-import scipy.special as sspecial
-
-from ..base import (
-    NearestNeighborsWithMetricTensor,
-    pairwise_distances_mahalanobis,
-    fix_density,
-)
-from ..base import OverSampling
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SSO"]
-
-
-class SSO(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @InProceedings{sso,
-                            author="Rong, Tongwen
-                            and Gong, Huachang
-                            and Ng, Wing W. Y.",
-                            editor="Wang, Xizhao
-                            and Pedrycz, Witold
-                            and Chan, Patrick
-                            and He, Qiang",
-                            title="Stochastic Sensitivity Oversampling
-                                    Technique for Imbalanced Data",
-                            booktitle="Machine Learning and Cybernetics",
-                            year="2014",
-                            publisher="Springer Berlin Heidelberg",
-                            address="Berlin, Heidelberg",
-                            pages="161--171",
-                            isbn="978-3-662-45652-1"
-                            }
-
-    Notes:
-        * In the algorithm step 2d adds a constant to a vector. I have
-            changed it to a componentwise adjustment, and also used the
-            normalized STSM as I don't see any reason why it would be
-            some reasonable, bounded value.
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_uses_clustering,
-        OverSampling.cat_density_based,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        h=10,  # pylint: disable=invalid-name
-        n_iter=5,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            h (int): number of hidden units
-            n_iter (int): optimization steps
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        super().__init__(random_state=random_state)
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_greater_or_equal(h, "h", 1)
-        self.check_greater_or_equal(n_iter, "n_iter", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = nn_params or {}
-        self.h = h  # pylint: disable=invalid-name
-        self.n_iter = n_iter
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5],
-            "h": [2, 5, 10, 20],
-            "n_iter": [5],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    # def eq_6(self, Q, w, u, v, x, h):
-    #    """
-    #    Equation 6 in the paper
-    #    """
-    #    tmp_sum = np.zeros(h)
-    #    for i in range(h):
-    #        a = (x - u[i] + Q)/np.sqrt(2*v[i])
-    #        b = (x - u[i] - Q)/np.sqrt(2*v[i])
-    #        tmp_prod = (sspecial.erf(a) - sspecial.erf(b))
-    #        tmp_sum[i] = np.sqrt(np.pi/2)*v[i]*np.prod(tmp_prod)
-    #    return np.dot(tmp_sum, w)/(2*Q)**len(x)
-
-    def eq_6_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
-        """
-        Vectorized implementation of Equation 6 in the paper
-
-        Args:
-            Q (np.array): the Q value
-            w (np.array): the w vector
-            u (np.array): the u vectors
-            v (np.array): the v vector
-            X (np.array): all training vectors
-
-        Returns:
-            np.array: eq. 6 for each X vector
-        """
-        tmp_a = (X[:, None] - u + Q) / np.sqrt(2 * v)[None, :, None]
-        tmp_b = (X[:, None] - u - Q) / np.sqrt(2 * v)[None, :, None]
-        tmp_prod = sspecial.erf(tmp_a) - sspecial.erf(tmp_b)
-        tmp_sum = np.sqrt(np.pi / 2.0) * v * np.prod(tmp_prod, axis=2)
-        result = np.dot(tmp_sum, w) / (2 * Q) ** X.shape[1]
-        return result
-
-    # def eq_8(self, Q, w, u, v, x, h):
-    #    """
-    #    Equation 8 in the paper
-    #    """
-    #    res = 0.0
-    #    for i in range(h):
-    #        vi2 = v[i]**2
-    #        for r in range(h):
-    #            vr2 = v[r]**2
-    #            a1 = (np.sqrt(2*vi2*vr2*(vi2 + vr2)))
-    #
-    #            a00_v = (vi2 + vr2)*(x + Q)
-    #            a01_v = vi2*u[r] + vr2*u[i]
-    #            a0_v = a00_v - a01_v
-    #            a_v = a0_v/a1
-    #
-    #            b_v = ((vi2 + vr2)*(x - Q) - (vi2*u[r] + vr2*u[i]))/a1
-    #            tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
-    #
-    #            tmp_a = (np.sqrt(2*vi2*vr2*(vi2 + vr2)) /
-    #                        (vi2 + vr2))**len(x)
-    #            norm = np.linalg.norm(u[r] - u[i])
-    #            tmp_b = np.exp(-0.5 * norm**2/(vi2 + vr2))
-    #
-    #            res = res + tmp_a*tmp_b*np.prod(tmp_prod)*w[i]*w[r]
-    #
-    #    return (np.sqrt(np.pi)/(4*Q))**len(x)*res
-
-    def eq_8_av_bv(self, *, Q, u, X, v2, vi_vr, a1):
-        """
-        Calculate the a_v and b_v arrays.
-
-        Args:
-            Q (np.array): the Q value
-            u (np.array): the u vectors
-            X (np.array): all training vectors
-            v2 (np.array): the squared v values
-            vi_vr (np.array): the cross sum of squared v values
-            a1 (np.array): the precalculated a1 term
-
-        Returns:
-            np.array: eq. 8 for each X vector
-        """
-
-        a00_v = vi_vr[:, :, None, None] * (X + Q)
-
-        tmp1 = np.repeat(v2, u.shape[0]).reshape(v2.shape[0], u.shape[0])[:, :, None]
-        tmp2 = np.array([u] * u.shape[0])
-
-        a01_v = u[:, None] * v2[:, None] + tmp2 * tmp1
-        a0_v = a00_v - a01_v[:, :, None]
-        a_v = a0_v / a1[:, :, None, None]
-
-        b_v = vi_vr[:, :, None, None] * (X - Q)
-        b_v = b_v - a01_v[:, :, None]
-        b_v = b_v / a1[:, :, None, None]
-
-        return a_v, b_v
-
-    def eq_8_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
-        """
-        Vectorized implementation of Equation 8 in the paper
-
-        Args:
-            Q (np.array): the Q value
-            w (np.array): the w vector
-            u (np.array): the u vectors
-            v (np.array): the v vector
-            X (np.array): all training vectors
-
-        Returns:
-            np.array: eq. 8 for each X vector
-        """
-        v2 = v**2.0  # pylint: disable=invalid-name
-
-        vi_vr = v2[:, None] + v2
-
-        a1 = np.sqrt(2.0 * (v2[:, None] * v2) * vi_vr)  # pylint: disable=invalid-name
-
-        a_v, b_v = self.eq_8_av_bv(Q=Q, u=u, X=X, v2=v2, vi_vr=vi_vr, a1=a1)
-
-        tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
-
-        tmp_a = (a1 / vi_vr) ** X.shape[1]
-
-        tmp_b = np.exp(-0.5 * np.linalg.norm(u[:, None] - u, axis=2) ** 2 / vi_vr)
-
-        result = (tmp_a * tmp_b * (w[:, None] * w))[:, :, None] * np.prod(
-            tmp_prod, axis=3
-        )
-
-        result = np.sum(np.sum(result, axis=0), axis=0)
-
-        result = (np.sqrt(np.pi) / (4 * Q)) ** X.shape[1] * result
-
-        return result
-
-    def calculate_vectors(self, X, y, X_min, nn_params):
-        """
-        Calculate the vectors used in the rest of the algorithm.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            np.array, np.array, np.array, np.array: the u, v, f and w
-                                                    vectors
-        """
-        # applying kmeans clustering to find the hidden neurons
-        h = min([self.h, len(X_min)])  # pylint: disable=invalid-name
-        kmeans = KMeans(n_clusters=h, n_init='auto', random_state=self._random_state_init)
-        kmeans.fit(X)
-
-        # extracting the hidden center elements
-        u = kmeans.cluster_centers_  # pylint: disable=invalid-name
-
-        # extracting scale parameters as the distances of closest centers
-        nn_cent = NearestNeighborsWithMetricTensor(
-            n_neighbors=2, n_jobs=self.n_jobs, **nn_params
-        )
-        nn_cent.fit(u)
-        dist_cent, _ = nn_cent.kneighbors(u)
-        v = dist_cent[:, 1]  # pylint: disable=invalid-name
-
-        # computing the response of the hidden units
-        phi = pairwise_distances_mahalanobis(
-            X, Y=u, tensor=nn_params.get("metric_tensor", None)
-        )
-        phi = phi**2
-        phi = np.exp(-phi / v**2)
-
-        # applying linear regression to find the best weights
-        linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, (y == self.min_label).astype(int))
-        f = linreg.predict(
-            phi[np.where(y == self.min_label)[0]]
-        )  # pylint: disable=invalid-name
-        w = linreg.coef_  # pylint: disable=invalid-name
-
-        return u, v, f, w
-
-    def determine_Q(self, X, X_min, nn_params):  # pylint: disable=invalid-name
-        """
-        Calculate the Q value.
-
-        Args:
-            X (np.array): all training vectors
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            float: the Q value
-        """
-        # applying nearest neighbors to extract Q values
-        n_neighbors = min([self.n_neighbors + 1, len(X)])
-        nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
-        )
-        nnmt.fit(X)
-        dist, _ = nnmt.kneighbors(X_min)
-
-        Q = np.mean(dist[:, n_neighbors - 1]) / np.sqrt(  # pylint: disable=invalid-name
-            len(X[0])
-        )
-
-        return Q
-
-    def generate_samples(
-        self, X_min, weights, Q, samp_per_iter
-    ):  # pylint: disable=invalid-name
-        """
-        Generate samples.
-
-        Args:
-            X_min (np.array): the minority samples
-            weights (np.array): the density to be used
-            Q (float): the Q value
-            samp_per_iter (int): the number of samples to generate
-
-        Returns:
-            np.array: the generated samples
-        """
-        base_indices = self.random_state.choice(
-            np.arange(X_min.shape[0]), samp_per_iter, p=weights
-        )
-        base_vectors = X_min[base_indices]
-        lam = (
-            self.random_state.random_sample(base_vectors.shape).T
-            * (2 * (1 - weights[base_indices]))
-            - (1 - weights[base_indices])
-        ).T
-
-        samples = base_vectors + Q * lam
-
-        return samples
-
-    def determine_Q_and_weights(
-        self, X, y, X_min, nn_params
-    ):  # pylint: disable=invalid-name
-        """
-        Determine the Q value and the sampling weights.
-
-        Args:
-            X (np.array): all training vectors
-            y (np.array): all target labels
-            X_min (np.array): all minority samples
-            nn_params (dict): the nearest neighbor parameters
-
-        Returns:
-            float, np.array: the Q value and the sampling weights
-        """
-        u, v, f, w = self.calculate_vectors(
-            X, y, X_min, nn_params
-        )  # pylint: disable=invalid-name
-
-        Q = self.determine_Q(X, X_min, nn_params)  # pylint: disable=invalid-name
-
-        # calculating the sensitivity factors
-        I_1 = self.eq_6_vectorized(
-            Q=Q, w=w, u=u, v=v, X=X_min
-        )  # pylint: disable=invalid-name
-        I_2 = self.eq_8_vectorized(
-            Q=Q, w=w, u=u, v=v, X=X_min
-        )  # pylint: disable=invalid-name
-
-        stsm = f**2 - 2 * f * I_1 + I_2
-
-        # calculating the sampling weights
-        stsm = np.abs(stsm)
-        weights = fix_density(stsm)
-
-        return Q, weights
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        # number of samples to generate in each iteration
-        n_to_sample = self.det_n_to_sample(self.proportion)
-
-        if n_to_sample == 0:
-            return self.return_copies(X, y, "Sampling is not needed")
-
-        samp_per_iter = max([1, int(n_to_sample / self.n_iter)])
-
-        nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
-
-        # executing the algorithm
-        for _ in range(self.n_iter):
-            X_min = X[y == self.min_label]
-
-            Q, weights = self.determine_Q_and_weights(  # pylint: disable=invalid-name
-                X, y, X_min, nn_params
-            )
-
-            samples = self.generate_samples(X_min, weights, Q, samp_per_iter)
-
-            X = np.vstack([X, samples])
-            y = np.hstack([y, np.repeat(self.min_label, len(samples))])
-
-        return X.copy(), y.copy()
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "h": self.h,
-            "n_iter": self.n_iter,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SSO method.
+"""
+
+import numpy as np
+
+from sklearn.cluster import KMeans
+from sklearn.linear_model import LinearRegression
+
+import scipy.special as sspecial
+
+from ..base import (
+    NearestNeighborsWithMetricTensor,
+    pairwise_distances_mahalanobis,
+    fix_density,
+)
+from ..base import OverSampling
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SSO"]
+
+
+class SSO(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @InProceedings{sso,
+                            author="Rong, Tongwen
+                            and Gong, Huachang
+                            and Ng, Wing W. Y.",
+                            editor="Wang, Xizhao
+                            and Pedrycz, Witold
+                            and Chan, Patrick
+                            and He, Qiang",
+                            title="Stochastic Sensitivity Oversampling
+                                    Technique for Imbalanced Data",
+                            booktitle="Machine Learning and Cybernetics",
+                            year="2014",
+                            publisher="Springer Berlin Heidelberg",
+                            address="Berlin, Heidelberg",
+                            pages="161--171",
+                            isbn="978-3-662-45652-1"
+                            }
+
+    Notes:
+        * In the algorithm step 2d adds a constant to a vector. I have
+            changed it to a componentwise adjustment, and also used the
+            normalized STSM as I don't see any reason why it would be
+            some reasonable, bounded value.
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_uses_clustering,
+        OverSampling.cat_density_based,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        h=10,  # pylint: disable=invalid-name
+        n_iter=5,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            h (int): number of hidden units
+            n_iter (int): optimization steps
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        super().__init__(random_state=random_state)
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_greater_or_equal(h, "h", 1)
+        self.check_greater_or_equal(n_iter, "n_iter", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = nn_params or {}
+        self.h = h  # pylint: disable=invalid-name
+        self.n_iter = n_iter
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5],
+            "h": [2, 5, 10, 20],
+            "n_iter": [5],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    # def eq_6(self, Q, w, u, v, x, h):
+    #    """
+    #    Equation 6 in the paper
+    #    """
+    #    tmp_sum = np.zeros(h)
+    #    for i in range(h):
+    #        a = (x - u[i] + Q)/np.sqrt(2*v[i])
+    #        b = (x - u[i] - Q)/np.sqrt(2*v[i])
+    #        tmp_prod = (sspecial.erf(a) - sspecial.erf(b))
+    #        tmp_sum[i] = np.sqrt(np.pi/2)*v[i]*np.prod(tmp_prod)
+    #    return np.dot(tmp_sum, w)/(2*Q)**len(x)
+
+    def eq_6_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
+        """
+        Vectorized implementation of Equation 6 in the paper
+
+        Args:
+            Q (np.array): the Q value
+            w (np.array): the w vector
+            u (np.array): the u vectors
+            v (np.array): the v vector
+            X (np.array): all training vectors
+
+        Returns:
+            np.array: eq. 6 for each X vector
+        """
+        tmp_a = (X[:, None] - u + Q) / np.sqrt(2 * v)[None, :, None]
+        tmp_b = (X[:, None] - u - Q) / np.sqrt(2 * v)[None, :, None]
+        tmp_prod = sspecial.erf(tmp_a) - sspecial.erf(tmp_b)
+        tmp_sum = np.sqrt(np.pi / 2.0) * v * np.prod(tmp_prod, axis=2)
+        result = np.dot(tmp_sum, w) / (2 * Q) ** X.shape[1]
+        return result
+
+    # def eq_8(self, Q, w, u, v, x, h):
+    #    """
+    #    Equation 8 in the paper
+    #    """
+    #    res = 0.0
+    #    for i in range(h):
+    #        vi2 = v[i]**2
+    #        for r in range(h):
+    #            vr2 = v[r]**2
+    #            a1 = (np.sqrt(2*vi2*vr2*(vi2 + vr2)))
+    #
+    #            a00_v = (vi2 + vr2)*(x + Q)
+    #            a01_v = vi2*u[r] + vr2*u[i]
+    #            a0_v = a00_v - a01_v
+    #            a_v = a0_v/a1
+    #
+    #            b_v = ((vi2 + vr2)*(x - Q) - (vi2*u[r] + vr2*u[i]))/a1
+    #            tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
+    #
+    #            tmp_a = (np.sqrt(2*vi2*vr2*(vi2 + vr2)) /
+    #                        (vi2 + vr2))**len(x)
+    #            norm = np.linalg.norm(u[r] - u[i])
+    #            tmp_b = np.exp(-0.5 * norm**2/(vi2 + vr2))
+    #
+    #            res = res + tmp_a*tmp_b*np.prod(tmp_prod)*w[i]*w[r]
+    #
+    #    return (np.sqrt(np.pi)/(4*Q))**len(x)*res
+
+    def eq_8_av_bv(self, *, Q, u, X, v2, vi_vr, a1):
+        """
+        Calculate the a_v and b_v arrays.
+
+        Args:
+            Q (np.array): the Q value
+            u (np.array): the u vectors
+            X (np.array): all training vectors
+            v2 (np.array): the squared v values
+            vi_vr (np.array): the cross sum of squared v values
+            a1 (np.array): the precalculated a1 term
+
+        Returns:
+            np.array: eq. 8 for each X vector
+        """
+
+        a00_v = vi_vr[:, :, None, None] * (X + Q)
+
+        tmp1 = np.repeat(v2, u.shape[0]).reshape(v2.shape[0], u.shape[0])[:, :, None]
+        tmp2 = np.array([u] * u.shape[0])
+
+        a01_v = u[:, None] * v2[:, None] + tmp2 * tmp1
+        a0_v = a00_v - a01_v[:, :, None]
+        a_v = a0_v / a1[:, :, None, None]
+
+        b_v = vi_vr[:, :, None, None] * (X - Q)
+        b_v = b_v - a01_v[:, :, None]
+        b_v = b_v / a1[:, :, None, None]
+
+        return a_v, b_v
+
+    def eq_8_vectorized(self, *, Q, w, u, v, X):  # pylint: disable=invalid-name
+        """
+        Vectorized implementation of Equation 8 in the paper
+
+        Args:
+            Q (np.array): the Q value
+            w (np.array): the w vector
+            u (np.array): the u vectors
+            v (np.array): the v vector
+            X (np.array): all training vectors
+
+        Returns:
+            np.array: eq. 8 for each X vector
+        """
+        v2 = v**2.0  # pylint: disable=invalid-name
+
+        vi_vr = v2[:, None] + v2
+
+        a1 = np.sqrt(2.0 * (v2[:, None] * v2) * vi_vr)  # pylint: disable=invalid-name
+
+        a_v, b_v = self.eq_8_av_bv(Q=Q, u=u, X=X, v2=v2, vi_vr=vi_vr, a1=a1)
+
+        tmp_prod = sspecial.erf(a_v) - sspecial.erf(b_v)
+
+        tmp_a = (a1 / vi_vr) ** X.shape[1]
+
+        tmp_b = np.exp(-0.5 * np.linalg.norm(u[:, None] - u, axis=2) ** 2 / vi_vr)
+
+        result = (tmp_a * tmp_b * (w[:, None] * w))[:, :, None] * np.prod(
+            tmp_prod, axis=3
+        )
+
+        result = np.sum(np.sum(result, axis=0), axis=0)
+
+        result = (np.sqrt(np.pi) / (4 * Q)) ** X.shape[1] * result
+
+        return result
+
+    def calculate_vectors(self, X, y, X_min, nn_params):
+        """
+        Calculate the vectors used in the rest of the algorithm.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            np.array, np.array, np.array, np.array: the u, v, f and w
+                                                    vectors
+        """
+        # applying kmeans clustering to find the hidden neurons
+        h = min([self.h, len(X_min)])  # pylint: disable=invalid-name
+        kmeans = KMeans(n_clusters=h, n_init='auto', random_state=self._random_state_init)
+        kmeans.fit(X)
+
+        # extracting the hidden center elements
+        u = kmeans.cluster_centers_  # pylint: disable=invalid-name
+
+        # extracting scale parameters as the distances of closest centers
+        nn_cent = NearestNeighborsWithMetricTensor(
+            n_neighbors=2, n_jobs=self.n_jobs, **nn_params
+        )
+        nn_cent.fit(u)
+        dist_cent, _ = nn_cent.kneighbors(u)
+        v = dist_cent[:, 1]  # pylint: disable=invalid-name
+
+        # computing the response of the hidden units
+        phi = pairwise_distances_mahalanobis(
+            X, Y=u, tensor=nn_params.get("metric_tensor", None)
+        )
+        phi = phi**2
+        phi = np.exp(-phi / v**2)
+
+        # applying linear regression to find the best weights
+        linreg = LinearRegression(n_jobs=self.n_jobs)
+        linreg.fit(phi, (y == self.min_label).astype(int))
+        f = linreg.predict(
+            phi[np.where(y == self.min_label)[0]]
+        )  # pylint: disable=invalid-name
+        w = linreg.coef_  # pylint: disable=invalid-name
+
+        return u, v, f, w
+
+    def determine_Q(self, X, X_min, nn_params):  # pylint: disable=invalid-name
+        """
+        Calculate the Q value.
+
+        Args:
+            X (np.array): all training vectors
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            float: the Q value
+        """
+        # applying nearest neighbors to extract Q values
+        n_neighbors = min([self.n_neighbors + 1, len(X)])
+        nnmt = NearestNeighborsWithMetricTensor(
+            n_neighbors=n_neighbors, n_jobs=self.n_jobs, **nn_params
+        )
+        nnmt.fit(X)
+        dist, _ = nnmt.kneighbors(X_min)
+
+        Q = np.mean(dist[:, n_neighbors - 1]) / np.sqrt(  # pylint: disable=invalid-name
+            len(X[0])
+        )
+
+        return Q
+
+    def generate_samples(
+        self, X_min, weights, Q, samp_per_iter
+    ):  # pylint: disable=invalid-name
+        """
+        Generate samples.
+
+        Args:
+            X_min (np.array): the minority samples
+            weights (np.array): the density to be used
+            Q (float): the Q value
+            samp_per_iter (int): the number of samples to generate
+
+        Returns:
+            np.array: the generated samples
+        """
+        base_indices = self.random_state.choice(
+            np.arange(X_min.shape[0]), samp_per_iter, p=weights
+        )
+        base_vectors = X_min[base_indices]
+        lam = (
+            self.random_state.random_sample(base_vectors.shape).T
+            * (2 * (1 - weights[base_indices]))
+            - (1 - weights[base_indices])
+        ).T
+
+        samples = base_vectors + Q * lam
+
+        return samples
+
+    def determine_Q_and_weights(
+        self, X, y, X_min, nn_params
+    ):  # pylint: disable=invalid-name
+        """
+        Determine the Q value and the sampling weights.
+
+        Args:
+            X (np.array): all training vectors
+            y (np.array): all target labels
+            X_min (np.array): all minority samples
+            nn_params (dict): the nearest neighbor parameters
+
+        Returns:
+            float, np.array: the Q value and the sampling weights
+        """
+        u, v, f, w = self.calculate_vectors(
+            X, y, X_min, nn_params
+        )  # pylint: disable=invalid-name
+
+        Q = self.determine_Q(X, X_min, nn_params)  # pylint: disable=invalid-name
+
+        # calculating the sensitivity factors
+        I_1 = self.eq_6_vectorized(
+            Q=Q, w=w, u=u, v=v, X=X_min
+        )  # pylint: disable=invalid-name
+        I_2 = self.eq_8_vectorized(
+            Q=Q, w=w, u=u, v=v, X=X_min
+        )  # pylint: disable=invalid-name
+
+        stsm = f**2 - 2 * f * I_1 + I_2
+
+        # calculating the sampling weights
+        stsm = np.abs(stsm)
+        weights = fix_density(stsm)
+
+        return Q, weights
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # number of samples to generate in each iteration
+        n_to_sample = self.det_n_to_sample(self.proportion)
+
+        if n_to_sample == 0:
+            return self.return_copies(X, y, "Sampling is not needed")
+
+        samp_per_iter = max([1, int(n_to_sample / self.n_iter)])
+
+        nn_params = {**self.nn_params}
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+
+        # executing the algorithm
+        for _ in range(self.n_iter):
+            X_min = X[y == self.min_label]
+
+            Q, weights = self.determine_Q_and_weights(  # pylint: disable=invalid-name
+                X, y, X_min, nn_params
+            )
+
+            samples = self.generate_samples(X_min, weights, Q, samp_per_iter)
+
+            X = np.vstack([X, samples])
+            y = np.hstack([y, np.repeat(self.min_label, len(samples))])
+
+        return X.copy(), y.copy()
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "h": self.h,
+            "n_iter": self.n_iter,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
diff --git a/smote_variants/oversampling/_svm_balance.py b/smote_variants/oversampling/_svm_balance.py
index ab0c5c9..65c9838 100755
--- a/smote_variants/oversampling/_svm_balance.py
+++ b/smote_variants/oversampling/_svm_balance.py
@@ -1,186 +1,186 @@
-"""
-This module implements the SVM_balance method.
-"""
-
-import numpy as np
-
-from sklearn.preprocessing import StandardScaler
-from sklearn.svm import SVC
-from sklearn.model_selection import cross_val_score
-
-from ..base import coalesce, coalesce_dict
-from ..base import OverSampling
-from ._smote import SMOTE
-
-from .._logger import logger
-
-_logger = logger
-
-__all__ = ["SVM_balance"]
-
-
-class SVM_balance(OverSampling):
-    """
-    References:
-        * BibTex::
-
-            @article{svm_balance,
-                     author = {Farquad, M.A.H. and Bose, Indranil},
-                     title = {Preprocessing Unbalanced Data Using Support
-                                Vector Machine},
-                     journal = {Decis. Support Syst.},
-                     issue_date = {April, 2012},
-                     volume = {53},
-                     number = {1},
-                     month = apr,
-                     year = {2012},
-                     issn = {0167-9236},
-                     pages = {226--233},
-                     numpages = {8},
-                     url = {http://dx.doi.org/10.1016/j.dss.2012.01.016},
-                     doi = {10.1016/j.dss.2012.01.016},
-                     acmid = {2181554},
-                     publisher = {Elsevier Science Publishers B. V.},
-                     address = {Amsterdam, The Netherlands, The Netherlands},
-                     keywords = {COIL data, Hybrid method, Preprocessor, SVM,
-                                    Unbalanced data},
-                    }
-    """
-
-    categories = [
-        OverSampling.cat_extensive,
-        OverSampling.cat_uses_classifier,
-        OverSampling.cat_changes_majority,
-        OverSampling.cat_metric_learning,
-    ]
-
-    def __init__(
-        self,
-        proportion=1.0,
-        n_neighbors=5,
-        *,
-        nn_params=None,
-        ss_params=None,
-        n_jobs=1,
-        random_state=None,
-        **_kwargs
-    ):
-        """
-        Constructor of the sampling object
-
-        Args:
-            proportion (float): proportion of the difference of n_maj and n_min
-                                to sample e.g. 1.0 means that after sampling
-                                the number of minority samples will be equal to
-                                the number of majority samples
-            n_neighbors (int): number of neighbors in the SMOTE sampling
-            nn_params (dict): additional parameters for nearest neighbor calculations, any
-                                parameter NearestNeighbors accepts, and additionally use
-                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
-                                with <method> in 'ITML', 'LSML' to enable the learning of
-                                the metric to be used for neighborhood calculations
-            ss_params (dict): simplex sampling parameters
-            n_jobs (int): number of parallel jobs
-            random_state (int/RandomState/None): initializer of random_state,
-                                                    like in sklearn
-        """
-        ss_params_default = {
-            "n_dim": 2,
-            "simplex_sampling": "random",
-            "within_simplex_sampling": "random",
-            "gaussian_component": None,
-        }
-
-        super().__init__(random_state=random_state)
-
-        self.check_greater_or_equal(proportion, "proportion", 0)
-        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
-        self.check_n_jobs(n_jobs, "n_jobs")
-
-        self.proportion = proportion
-        self.n_neighbors = n_neighbors
-        self.nn_params = coalesce(nn_params, {})
-        self.ss_params = coalesce_dict(ss_params, ss_params_default)
-        self.n_jobs = n_jobs
-
-    @classmethod
-    def parameter_combinations(cls, raw=False):
-        """
-        Generates reasonable parameter combinations.
-
-        Returns:
-            list(dict): a list of meaningful parameter combinations
-        """
-        parameter_combinations = {
-            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
-            "n_neighbors": [3, 5, 7],
-        }
-        return cls.generate_parameter_combinations(parameter_combinations, raw)
-
-    def sampling_algorithm(self, X, y):
-        """
-        Does the sample generation according to the class parameters.
-
-        Args:
-            X (np.ndarray): training set
-            y (np.array): target labels
-
-        Returns:
-            (np.ndarray, np.array): the extended training set and target labels
-        """
-        X, y = SMOTE(
-            proportion=self.proportion,
-            n_neighbors=self.n_neighbors,
-            nn_params=self.nn_params,
-            ss_params=self.ss_params,
-            n_jobs=self.n_jobs,
-            random_state=self._random_state_init,
-        ).sample(X, y)
-
-        validator = np.min([5, sum(y == self.min_label)])
-
-        scaler = StandardScaler()
-        X_norm = scaler.fit_transform(X)  # pylint: disable=invalid-name
-
-        C_params = [0.01, 0.1, 1.0, 10.0]  # pylint: disable=invalid-name
-        best_score = 0
-        best_C = 0.01  # pylint: disable=invalid-name
-
-        for C in C_params:  # pylint: disable=invalid-name
-            _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
-
-            svc = SVC(
-                C=C,
-                kernel="rbf",
-                gamma="auto",
-                random_state=self._random_state_init,
-            )
-            score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
-            if score > best_score:
-                best_score = score
-                best_C = C  # pylint: disable=invalid-name
-
-        svc = SVC(
-            C=best_C,
-            kernel="rbf",
-            gamma="auto",
-            random_state=self._random_state_init,
-        )
-
-        svc.fit(X_norm, y)
-
-        return X, svc.predict(X_norm)
-
-    def get_params(self, deep=False):
-        """
-        Returns:
-            dict: the parameters of the current sampling object
-        """
-        return {
-            "proportion": self.proportion,
-            "n_neighbors": self.n_neighbors,
-            "nn_params": self.nn_params,
-            "ss_params": self.ss_params,
-            "n_jobs": self.n_jobs,
-            **OverSampling.get_params(self),
-        }
+"""
+This module implements the SVM_balance method.
+"""
+
+import numpy as np
+
+from sklearn.preprocessing import StandardScaler
+from sklearn.svm import SVC
+from sklearn.model_selection import cross_val_score
+
+from ..base import coalesce, coalesce_dict
+from ..base import OverSampling
+from ._smote import SMOTE
+
+from .._logger import logger
+
+_logger = logger
+
+__all__ = ["SVM_balance"]
+
+
+class SVM_balance(OverSampling):
+    """
+    References:
+        * BibTex::
+
+            @article{svm_balance,
+                     author = {Farquad, M.A.H. and Bose, Indranil},
+                     title = {Preprocessing Unbalanced Data Using Support
+                                Vector Machine},
+                     journal = {Decis. Support Syst.},
+                     issue_date = {April, 2012},
+                     volume = {53},
+                     number = {1},
+                     month = apr,
+                     year = {2012},
+                     issn = {0167-9236},
+                     pages = {226--233},
+                     numpages = {8},
+                     url = {http://dx.doi.org/10.1016/j.dss.2012.01.016},
+                     doi = {10.1016/j.dss.2012.01.016},
+                     acmid = {2181554},
+                     publisher = {Elsevier Science Publishers B. V.},
+                     address = {Amsterdam, The Netherlands, The Netherlands},
+                     keywords = {COIL data, Hybrid method, Preprocessor, SVM,
+                                    Unbalanced data},
+                    }
+    """
+
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_uses_classifier,
+        OverSampling.cat_changes_majority,
+        OverSampling.cat_metric_learning,
+    ]
+
+    def __init__(
+        self,
+        proportion=1.0,
+        n_neighbors=5,
+        *,
+        nn_params=None,
+        ss_params=None,
+        n_jobs=1,
+        random_state=None,
+        **_kwargs
+    ):
+        """
+        Constructor of the sampling object
+
+        Args:
+            proportion (float): proportion of the difference of n_maj and n_min
+                                to sample e.g. 1.0 means that after sampling
+                                the number of minority samples will be equal to
+                                the number of majority samples
+            n_neighbors (int): number of neighbors in the SMOTE sampling
+            nn_params (dict): additional parameters for nearest neighbor calculations, any
+                                parameter NearestNeighbors accepts, and additionally use
+                                {'metric': 'precomputed', 'metric_learning': '<method>', ...}
+                                with <method> in 'ITML', 'LSML' to enable the learning of
+                                the metric to be used for neighborhood calculations
+            ss_params (dict): simplex sampling parameters
+            n_jobs (int): number of parallel jobs
+            random_state (int/RandomState/None): initializer of random_state,
+                                                    like in sklearn
+        """
+        ss_params_default = {
+            "n_dim": 2,
+            "simplex_sampling": "random",
+            "within_simplex_sampling": "random",
+            "gaussian_component": None,
+        }
+
+        super().__init__(random_state=random_state)
+
+        self.check_greater_or_equal(proportion, "proportion", 0)
+        self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
+        self.check_n_jobs(n_jobs, "n_jobs")
+
+        self.proportion = proportion
+        self.n_neighbors = n_neighbors
+        self.nn_params = coalesce(nn_params, {})
+        self.ss_params = coalesce_dict(ss_params, ss_params_default)
+        self.n_jobs = n_jobs
+
+    @classmethod
+    def parameter_combinations(cls, raw=False):
+        """
+        Generates reasonable parameter combinations.
+
+        Returns:
+            list(dict): a list of meaningful parameter combinations
+        """
+        parameter_combinations = {
+            "proportion": [0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0],
+            "n_neighbors": [3, 5, 7],
+        }
+        return cls.generate_parameter_combinations(parameter_combinations, raw)
+
+    def sampling_algorithm(self, X, y):
+        """
+        Does the sample generation according to the class parameters.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        X, y = SMOTE(
+            proportion=self.proportion,
+            n_neighbors=self.n_neighbors,
+            nn_params=self.nn_params,
+            ss_params=self.ss_params,
+            n_jobs=self.n_jobs,
+            random_state=self._random_state_init,
+        ).sample(X, y)
+
+        validator = np.min([5, sum(y == self.min_label)])
+
+        scaler = StandardScaler()
+        X_norm = scaler.fit_transform(X)  # pylint: disable=invalid-name
+
+        C_params = [0.01, 0.1, 1.0, 10.0]  # pylint: disable=invalid-name
+        best_score = 0
+        best_C = 0.01  # pylint: disable=invalid-name
+
+        for C in C_params:  # pylint: disable=invalid-name
+            _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
+
+            svc = SVC(
+                C=C,
+                kernel="rbf",
+                gamma="auto",
+                random_state=self._random_state_init,
+            )
+            score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
+            if score > best_score:
+                best_score = score
+                best_C = C  # pylint: disable=invalid-name
+
+        svc = SVC(
+            C=best_C,
+            kernel="rbf",
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
+
+        svc.fit(X_norm, y)
+
+        return X, svc.predict(X_norm)
+
+    def get_params(self, deep=False):
+        """
+        Returns:
+            dict: the parameters of the current sampling object
+        """
+        return {
+            "proportion": self.proportion,
+            "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
+            "ss_params": self.ss_params,
+            "n_jobs": self.n_jobs,
+            **OverSampling.get_params(self),
+        }
-- 
2.43.0


From d15514ee013fc4d998ae3c48be9c17e247ecdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 067/101] fix: A_SUWO copes with clusters without scatter
 within the classes

---
 smote_variants/oversampling/_a_suwo.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_a_suwo.py b/smote_variants/oversampling/_a_suwo.py
index a8051f4..ff37924 100755
--- a/smote_variants/oversampling/_a_suwo.py
+++ b/smote_variants/oversampling/_a_suwo.py
@@ -287,9 +287,17 @@ class A_SUWO(OverSamplingSimplex):
                             np.repeat(self.min_label, len(X_c[train])),
                         ]
                     )
-                    lda = LinearDiscriminantAnalysis()
-                    lda.fit(X_train, y_train)
-                    preds.append(lda.predict(X_c[test]))
+                    if np.ptp(X_maj, axis=0).any() or np.ptp(X_c[train], axis=0).any():
+                        lda = LinearDiscriminantAnalysis()
+                        lda.fit(X_train, y_train)
+                        preds.append(lda.predict(X_c[test]))
+                    else:
+                        # no scatter within the classes, the closest one is chosen
+                        dist_maj = np.linalg.norm(X_c[test] - X_maj[0], axis=1)
+                        dist_min = np.linalg.norm(X_c[test] - X_c[train][0], axis=1)
+                        preds.append(
+                            np.where(dist_maj < dist_min, self.maj_label, self.min_label)
+                        )
                 preds = np.hstack(preds)
                 # extracting error rate
                 eps.append(np.sum(preds == self.maj_label) / len(preds))
-- 
2.43.0


From 5abc2b1f325da7125febb2e18d41069f2f3b3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 068/101] fix: DSMOTE copes with coinciding minority samples

---
 smote_variants/oversampling/_dsmote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_dsmote.py b/smote_variants/oversampling/_dsmote.py
index 69593cc..a904da0 100755
--- a/smote_variants/oversampling/_dsmote.py
+++ b/smote_variants/oversampling/_dsmote.py
@@ -283,8 +283,8 @@ class DSMOTE(OverSampling):
             # evaluate the objective function
             # score= objective(np.vstack([X_min, gm]))
             # check if the score is better than the best so far
-            if score > highest_score:
-                highest_score = score
+            if best_candidate is None or score > highest_score:
+                highest_score = max(highest_score, score)
                 best_candidate = gmv
                 new_partial_results = partial_tmp
 
-- 
2.43.0


From 36c0050ea0fc86083cbc4f7e07aa954d7753b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 069/101] fix: SSO copes with coinciding cluster centers

---
 smote_variants/oversampling/_sso.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index fd3d3af..e09bedf 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -281,6 +281,10 @@ class SSO(OverSampling):
         nn_cent.fit(u)
         dist_cent, _ = nn_cent.kneighbors(u)
         v = dist_cent[:, 1]  # pylint: disable=invalid-name
+        # coinciding centers have no scale of their own
+        v = np.where(  # pylint: disable=invalid-name
+            v > 0.0, v, np.min(v[v > 0.0]) if np.any(v > 0.0) else 1.0
+        )
 
         # computing the response of the hidden units
         phi = pairwise_distances_mahalanobis(
-- 
2.43.0


From f16877510bd420ec9e04df53d52976f514581589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 070/101] fix: V_SYNTH returns the dataset when there are not
 enough different samples

---
 smote_variants/oversampling/_v_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 3ad0169..f10f9c7 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -256,6 +256,11 @@ class V_SYNTH(OverSampling):
             X_pca, y_pca
         )
 
+        if len(X_pca) < n_components + 2:
+            return self.return_copies(
+                X, y, "Not enough different samples for a Voronoi tessellation"
+            )
+
         # doing the Voronoi tessellation
         voronoi = sspatial.Voronoi(X_pca)
 
-- 
2.43.0


From 4af4ebbfad370537f82e64351da52d8a1ad0bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 071/101] fix: KernelADASYN recognizes a singular covariance in
 one dimension

---
 smote_variants/oversampling/_kerneladasyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index de7d6d7..3ab69ac 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -201,7 +201,7 @@ class KernelADASYN(OverSampling):
         Returns:
             np.array, np.array: the oversampled dataset
         """
-        if len(covariance) > 1 and np.linalg.cond(covariance) > 10000:
+        if np.linalg.cond(covariance) > 10000:
             _logger.info(
                 "%s: reducing dimensions due to improperly "
                 "conditioned covariance matrix",
-- 
2.43.0


From cf99c50dcab6d413dfb5c1dd1c119bc5d5d6c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 072/101] fix: MOT2LD does not embed coinciding samples

---
 smote_variants/oversampling/_mot2ld.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index b2b21d2..fffb6f1 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -459,6 +459,9 @@ class MOT2LD(OverSamplingSimplex):
         if n_to_sample == 0:
             return self.return_copies(X, y, "Sampling is not needed")
 
+        if not np.ptp(X, axis=0).any():
+            return self.return_copies(X, y, "All samples coincide, no embedding")
+
         _logger.info(
             "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
         )
-- 
2.43.0


From 1fbb8b06bff30cec894e8397655b19aa0f33091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 073/101] fix: SMOTEWB repeats good samples without neighbors
 to interpolate with

---
 smote_variants/oversampling/_smotewb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index fdf735c..0b1c57b 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -353,6 +353,10 @@ class SMOTEWB(OverSampling):
                         synt_sample_list.append(
                             self.sample_between_points(X_min[i], X_not_noise[j])
                         )
+                else:
+                    # no neighbor to interpolate with, just like lonely samples
+                    for j in range(C[i]):
+                        synt_sample_list.append(X_min[i].copy())
 
         # Step 11-12: merging the original samples and the synthetic ones
         X_synt_samples = np.array(synt_sample_list)  # pylint: disable=invalid-name
-- 
2.43.0


From 203537e43ef1b43651b76d7e72a83e9958cbabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 074/101] fix: the Borderline_SMOTE methods interpolate with
 the nearest neighbor, too

---
 smote_variants/oversampling/_borderline_smote.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 772049c..329172d 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -210,8 +210,8 @@ class Borderline_SMOTE1(OverSamplingSimplex):
         nnmt.fit(X_min)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X_min
-        indices = indices[:, 1:]
+        # X_danger items are also present in X_min, the sampling skips the
+        # vectors themselves
 
         samples = self.sample_simplex(
             X=X_danger, indices=indices, n_to_sample=n_to_sample, X_vertices=X_min
@@ -411,8 +411,8 @@ class Borderline_SMOTE2(OverSamplingSimplex):
         nnmt.fit(X)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X
-        indices = indices[:, 1:]
+        # X_danger items are also present in X, the sampling skips the
+        # vectors themselves
 
         vertex_weights = np.repeat(1.0, len(X))
         vertex_weights[y == self.maj_label] = 0.5
-- 
2.43.0


From fdd98ebe3328b5655986957f6f4151220a6c8c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 075/101] fix: the Borderline_SMOTE methods take samples with
 half of the neighbors in the majority for border ones

---
 smote_variants/oversampling/_borderline_smote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 329172d..3c2abb8 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -6,7 +6,7 @@ import numpy as np
 
 from ..base import NearestNeighborsWithMetricTensor
 from ..base import OverSamplingSimplex
-from ..base import mode, coalesce_dict, coalesce
+from ..base import coalesce_dict, coalesce
 
 from .._logger import logger
 
@@ -45,9 +45,10 @@ def determine_danger_remove_noise(
     noise = []
     danger = []
     for idx, row in enumerate(indices):
-        if (n_neighbors - 1) == sum(y[row[1:]] == maj_label):
+        n_majority = sum(y[row[1:]] == maj_label)
+        if n_majority == n_neighbors - 1:
             noise.append(idx)
-        elif mode(y[row[1:]]) == maj_label:
+        elif 2 * n_majority >= n_neighbors - 1:
             danger.append(idx)
 
     X_danger = X_min[danger]  # pylint: disable=invalid-name
-- 
2.43.0


From 005a0d26394317fa4fffe134b4fed673e8c9d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 076/101] fix: ISMOTE interpolates with the nearest neighbor,
 too

---
 smote_variants/oversampling/_ismote.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_ismote.py b/smote_variants/oversampling/_ismote.py
index 0b63fbd..d6446fb 100755
--- a/smote_variants/oversampling/_ismote.py
+++ b/smote_variants/oversampling/_ismote.py
@@ -160,9 +160,7 @@ class ISMOTE(OverSamplingSimplex):
         vertex_weights = np.repeat(1.0 - self.minority_weight, X.shape[0])
         vertex_weights[y == self.min_label] = self.minority_weight
 
-        # removing the minority samples from their own neighborhoods
-        ind = ind[:, 1:]
-
+        # the sampling skips the minority samples in their own neighborhoods
         samples = self.sample_simplex(
             X=X_min,
             indices=ind,
-- 
2.43.0


From c3adebc370ab44c2f6afd31870fb78bde46529e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 077/101] fix: VIS_RST interpolates with the nearest neighbor,
 too

---
 smote_variants/oversampling/_vis_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_vis_rst.py b/smote_variants/oversampling/_vis_rst.py
index d91071e..73add98 100755
--- a/smote_variants/oversampling/_vis_rst.py
+++ b/smote_variants/oversampling/_vis_rst.py
@@ -242,7 +242,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_not_danger],
-                indices=ind_not_noise[base_not_danger, 1:],
+                indices=ind_not_noise[base_not_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
@@ -289,7 +289,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_danger],
-                indices=ind_not_noise[base_danger, 1:],
+                indices=ind_not_noise[base_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
-- 
2.43.0


From b8dd34fe711c214063cf2ff1c54e6be19a38e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 078/101] fix: Selected_SMOTE takes the share of significant
 attributes into account

---
 smote_variants/oversampling/_selected_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_selected_smote.py b/smote_variants/oversampling/_selected_smote.py
index beb2c3d..1127aa3 100755
--- a/smote_variants/oversampling/_selected_smote.py
+++ b/smote_variants/oversampling/_selected_smote.py
@@ -135,7 +135,7 @@ class Selected_SMOTE(OverSampling):
 
         # number of significant attributes to determine
         tmp = int(np.rint(self.perc_sign_attr * len(percentages)))
-        num_sign_attr = np.min([1, tmp])
+        num_sign_attr = np.max([1, tmp])
 
         sign_attr = percentages >= sorted(percentages)[-num_sign_attr]
         sign_attr = sign_attr.astype(int)
-- 
2.43.0


From 48e87526dc251d5ffcc487c014b937028768c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 079/101] fix: Stefanowski votes among the neighbors of each
 sample in the strong amplification

---
 smote_variants/oversampling/_stefanowski.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_stefanowski.py b/smote_variants/oversampling/_stefanowski.py
index 75c06cf..8e77dfc 100755
--- a/smote_variants/oversampling/_stefanowski.py
+++ b/smote_variants/oversampling/_stefanowski.py
@@ -209,7 +209,7 @@ class Stefanowski(OverSampling):
         mask = ~safe_flag[minority_indices]
         minority_masked = minority_indices[mask]
         correct_mask = (
-            scipy_mode(y[indices5[minority_masked, 1:]]).mode[:, 0]
+            scipy_mode(y[indices5[minority_masked, 1:]], axis=1).mode[:, 0]
             == y[minority_masked]
         )  # pylint: disable=unexpected-keyword-arg
 
-- 
2.43.0


From b0497d2b587d8ea8e326b3b23a7913340f5b4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 080/101] fix: SN_SMOTE uses all surrounding neighbors

---
 smote_variants/oversampling/_sn_smote.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/smote_variants/oversampling/_sn_smote.py b/smote_variants/oversampling/_sn_smote.py
index a195fbe..2bbf32d 100755
--- a/smote_variants/oversampling/_sn_smote.py
+++ b/smote_variants/oversampling/_sn_smote.py
@@ -132,9 +132,9 @@ class SN_SMOTE(OverSamplingSimplex):
         centroids = X_min[ncn[:, 0]]
         cent_dist = distances_mahalanobis(X=X_min, Y=centroids, tensor=metric_tensor)
 
-        mask = np.repeat(True, X_min.shape[0])
+        mask = n_cents < self.n_neighbors
         jdx = 2
-        while np.any(mask):
+        while np.any(mask) and jdx < n_neighbors:
             centroids_tmp = (
                 (centroids[mask] + X_min[ind[mask, jdx]]).T / (n_cents[mask] + 1)
             ).T
@@ -143,18 +143,16 @@ class SN_SMOTE(OverSamplingSimplex):
             )
 
             improved = new_cent_dist < cent_dist[mask]
-            centroids[mask][improved] = (
-                centroids[mask][improved] + X_min[ind[mask, jdx][improved]]
-            )
-            ncn[mask][improved, n_cents[mask][improved]] = ind[mask][improved, jdx]
-            n_cents[mask][improved] = n_cents[mask][improved] + 1
-            cent_dist[mask][improved] = new_cent_dist[improved]
+            # the minority indices of the vectors with a new centroid neighbor
+            rows = np.where(mask)[0][improved]
+            centroids[rows] = centroids[rows] + X_min[ind[rows, jdx]]
+            ncn[rows, n_cents[rows]] = ind[rows, jdx]
+            n_cents[rows] = n_cents[rows] + 1
+            cent_dist[rows] = new_cent_dist[improved]
 
             mask = n_cents < self.n_neighbors
 
             jdx = jdx + 1
-            if jdx == n_neighbors:
-                break
 
         return ncn, n_cents
 
-- 
2.43.0


From 930926cdee704e381ce123f3e05c34f744de663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 081/101] fix: SDSMOTE counts the neighbors for the density,
 not the queries

---
 smote_variants/oversampling/_sdsmote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sdsmote.py b/smote_variants/oversampling/_sdsmote.py
index 97c68d0..1beeae7 100755
--- a/smote_variants/oversampling/_sdsmote.py
+++ b/smote_variants/oversampling/_sdsmote.py
@@ -155,7 +155,7 @@ class SDSMOTE(OverSamplingSimplex):
                         X_min[i].reshape(1, -1),  # pylint: disable=invalid-name
                         S_ave,
                         return_distance=False,
-                    )
+                    )[0]
                 )
                 for i in range(len(X_min))
             ]
-- 
2.43.0


From 952c3793e3155b77cf9a180ed6ba89977b9d1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 082/101] fix: CE_SMOTE matches the labels of the clusterings
 one by one

---
 smote_variants/oversampling/_ce_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_ce_smote.py b/smote_variants/oversampling/_ce_smote.py
index c41b271..637203d 100755
--- a/smote_variants/oversampling/_ce_smote.py
+++ b/smote_variants/oversampling/_ce_smote.py
@@ -184,12 +184,12 @@ class CE_SMOTE(OverSamplingSimplex):
                         cost_matrix[jdx, kdx] = np.sum(mask_jk)
 
                 # solving the assignment problem
-                row_ind, _ = soptimize.linear_sum_assignment(-cost_matrix)
+                row_ind, col_ind = soptimize.linear_sum_assignment(-cost_matrix)
 
                 # doing the relabeling
                 relabeling = labeling.copy()
 
-                for jdx in range(len(row_ind)):
+                for jdx, kdx in zip(row_ind, col_ind):
                     relabeling[labeling == kdx] = jdx
 
                 labels[idx] = relabeling
-- 
2.43.0


From 1a2097365e013edd4ddb4f30612830a247970741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 083/101] fix: SOI_CJ empties the cluster merged and not
 another one

---
 smote_variants/oversampling/_soi_cj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index ae3bdec..bdb9597 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -238,7 +238,7 @@ class SOI_CJ(OverSamplingSimplex):
         while is_intersection:
             is_intersection = False
             for idx, cluster_idx in enumerate(clusters):
-                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
+                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :], idx + 1):
                     # computing intersection
                     intersection = cluster_idx.intersection(cluster_jdx)
                     if len(intersection) > 0:
-- 
2.43.0


From 859e25f652a20f3c942875045fde27bee17d58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 084/101] fix: SOI_CJ uses all neighbors when there are no
 majority ones among them

---
 smote_variants/oversampling/_soi_cj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index bdb9597..3f2251c 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -196,7 +196,10 @@ class SOI_CJ(OverSamplingSimplex):
         """
         clusters = []
 
-        first_maj_index = np.argmax(y[indices] != self.min_label, axis=1)
+        maj_mask = y[indices] != self.min_label
+        first_maj_index = np.where(
+            np.any(maj_mask, axis=1), np.argmax(maj_mask, axis=1), indices.shape[1]
+        )
 
         for idx in range(indices.shape[0]):
             # while the closest instance is from the minority class, adding it
-- 
2.43.0


From c6d16fe45f6a560c34afcac177007ef948c7e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 085/101] fix: SOI_CJ measures the radius in the metric of the
 neighborhoods

---
 smote_variants/oversampling/_soi_cj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 3f2251c..a2c7b52 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -163,7 +163,9 @@ class SOI_CJ(OverSamplingSimplex):
 
         # finding midpoint and radius
         mid_point = (max_i + max_j) / 2.0
-        radius = np.linalg.norm(mid_point - max_i)
+        # the two extreme samples are on the surface of the ball, rounding must not
+        # exclude them
+        radius = np.max(distm) / 2.0 * (1.0 + 1e-8)
 
         # extracting points within the hypersphare of
         # radius "radius"
-- 
2.43.0


From 765b7772eabb231eb68af70f15e382a5f54ed1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 086/101] fix: OUPS assigns the weights to the samples they
 were determined for

---
 smote_variants/oversampling/_oups.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_oups.py b/smote_variants/oversampling/_oups.py
index 7a94aa3..4591b68 100755
--- a/smote_variants/oversampling/_oups.py
+++ b/smote_variants/oversampling/_oups.py
@@ -135,22 +135,26 @@ class OUPS(OverSamplingSimplex):
         p = np.sum(y == self.maj_label) / np.sum(
             y == self.min_label
         )  # pylint: disable=invalid-name
-        simplex_weights = np.tile(np.arange(p, 0, -1.0), (X.shape[0], 1))
+        # the first column belongs to the vectors themselves, the sampling skips it
+        simplex_weights = np.hstack([[0.0], np.arange(p, 0, -1.0)])
+        simplex_weights = np.tile(simplex_weights, (X.shape[0], 1))
         simplex_weights = np.clip(simplex_weights, 0.0, 1.0)
 
         indices = np.vstack(
             [
                 np.arange(0, len(X)) + idx
-                for idx in range(1, simplex_weights.shape[1] + 1)
+                for idx in range(simplex_weights.shape[1])
             ]
         ).T
 
         simplex_weights[indices >= len(X)] = 0.0
         indices = indices[min_indices]
+        simplex_weights = simplex_weights[min_indices]
 
-        mask = ~np.all(indices >= X.shape[0], axis=1)
+        mask = ~np.all(indices[:, 1:] >= X.shape[0], axis=1)
 
         indices = indices[mask]
+        simplex_weights = simplex_weights[mask]
         X_sorted_min = X_sorted_min[mask]  # pylint: disable=invalid-name
         indices[indices >= X.shape[0]] = X.shape[0] - indices[indices >= X.shape[0]] - 1
 
-- 
2.43.0


From 6a558028b2d5d145c2d5160eace37840cbe99824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 087/101] fix: V_SYNTH bounds the data from all sides

---
 smote_variants/oversampling/_v_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index f10f9c7..e5a2ae7 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -113,7 +113,7 @@ class V_SYNTH(OverSampling):
         dim = len(X[0])
 
         def random_min_maxs():
-            return np.where(self.random_state.randint(0, 1, size=dim) == 0, mins, maxs)
+            return np.where(self.random_state.randint(0, 2, size=dim) == 0, mins, maxs)
 
         n_bounding_box = min([100, len(X[0])])
         bounding_box = [random_min_maxs() for _ in range(n_bounding_box)]
-- 
2.43.0


From 27d37523594d9753a01b9610a8a497308460a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 088/101] fix: V_SYNTH keeps vectors and labels together and
 uses bounded faces only

---
 smote_variants/oversampling/_v_synth.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index e5a2ae7..4023868 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -214,7 +214,8 @@ class V_SYNTH(OverSampling):
         while np.sum(component_mask) > 1:
             pca = PCA(n_components=n_components)
             X_pca = pca.fit_transform(X_bb)  # pylint: disable=invalid-name
-            y_pca = np.hstack([y, np.repeat(-1, len(bounding_box))])
+            # a label neither of the classes has
+            y_pca = np.hstack([y, np.repeat(int(np.min(y)) - 1, len(bounding_box))])
 
             component_mask = pca.explained_variance_ratio_ > 1e-2
 
@@ -268,7 +269,12 @@ class V_SYNTH(OverSampling):
         # generating an edge between two cells of different class labels
         candidate_face_generators = []
         for idx, ridge in enumerate(voronoi.ridge_points):
-            if ridge[0] < len(y) and ridge[1] < len(y) and y[ridge[0]] != y[ridge[1]]:
+            labels = set(y_pca[ridge].tolist())
+            # the unbounded faces cannot be sampled
+            if (
+                labels == {self.min_label, self.maj_label}
+                and -1 not in voronoi.ridge_vertices[idx]
+            ):
                 candidate_face_generators.append(idx)
 
         # seems like this never happens
-- 
2.43.0


From a605247c30cd61f5b19b7beaca9fff26e6417cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 089/101] fix: the plots of samplings do not overwrite the
 labeling passed

---
 smote_variants/visualization/_visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/visualization/_visualization.py b/smote_variants/visualization/_visualization.py
index 17db780..cf78b91 100644
--- a/smote_variants/visualization/_visualization.py
+++ b/smote_variants/visualization/_visualization.py
@@ -276,7 +276,7 @@ def plot_sampling(labeling, title=""):
 
         sizes = SIZE_SCALE
 
-        labeling["y"] = relabel_y(labeling["y"].values)
+        labeling = labeling.assign(y=relabel_y(labeling["y"].values))
 
         order = sorted(np.unique(labeling["y"].values))
 
@@ -360,8 +360,8 @@ def plot_comparison(labeling0, labeling1, title0, title1):
     """
     coords = [c for c in labeling0.columns if c.startswith("coordinate")]
 
-    labeling0["y"] = relabel_y(labeling0["y"].values)
-    labeling1["y"] = relabel_y(labeling1["y"].values)
+    labeling0 = labeling0.assign(y=relabel_y(labeling0["y"].values))
+    labeling1 = labeling1.assign(y=relabel_y(labeling1["y"].values))
 
     with warnings.catch_warnings():
         if suppress_external_warnings():
-- 
2.43.0


From 858fb9f9f2e8f898b46b7a914a9a4be56c0ce675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 090/101] fix: vector_labeling matches the vectors by all
 coordinates

---
 smote_variants/visualization/_visualization.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/smote_variants/visualization/_visualization.py b/smote_variants/visualization/_visualization.py
index cf78b91..43fe668 100644
--- a/smote_variants/visualization/_visualization.py
+++ b/smote_variants/visualization/_visualization.py
@@ -119,16 +119,20 @@ def vector_labeling(X, y, X_samp, y_samp, coordinates=(0, 1)):
         pd.DataFrame: the data prepared for plotting
     """
     coords = [f"coordinate {idx}" for idx in coordinates]
+    all_coordinates = tuple(range(X.shape[1]))
+    all_coords = [f"coordinate {idx}" for idx in all_coordinates]
 
-    orig_pdf = unique_data(X, y, coordinates)
-    new_pdf = unique_data(X_samp, y_samp, coordinates)
+    orig_pdf = unique_data(X, y, all_coordinates)
+    new_pdf = unique_data(X_samp, y_samp, all_coordinates)
 
     orig_pdf = orig_pdf.rename({"counts": "counts_old"}, axis="columns")
 
     orig_pdf["indicator_orig"] = "original"  # pylint: disable=unsupported-assignment-operation
     new_pdf["indicator_new"] = "new"
 
-    result = new_pdf.merge(orig_pdf, how="outer", on=coords + ["y"])
+    # vectors are matched by all their coordinates, not by the displayed ones
+    result = new_pdf.merge(orig_pdf, how="outer", on=all_coords + ["y"])
+    result = result[coords + [col for col in result.columns if col not in all_coords]]
 
     result.loc[
         (result["counts_old"] == result["counts"])
-- 
2.43.0


From d3bb10944d9655f6a2fafdda2ee8ec93a41c766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 091/101] fix: ANS selects the cut-off value instead of the
 number of outcasts

---
 smote_variants/oversampling/_ans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_ans.py b/smote_variants/oversampling/_ans.py
index 0f231d4..fe3d67d 100755
--- a/smote_variants/oversampling/_ans.py
+++ b/smote_variants/oversampling/_ans.py
@@ -117,7 +117,7 @@ class ANS(OverSamplingSimplex):
             n_oc = np.sum(out_border >= c)
             if abs(n_oc - n_oc_m1) < best_diff:
                 best_diff = abs(n_oc - n_oc_m1)
-                C = n_oc  # pylint: disable=invalid-name
+                C = c  # pylint: disable=invalid-name
             n_oc_m1 = n_oc
 
         return C
-- 
2.43.0


From ad17b71a9c23bd36421ee99069d8d4759612b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 092/101] fix: TRIM_SMOTE compares the labels on both sides of
 a split when splitting on the class border

---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 79303b5..1a259b5 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -186,7 +186,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
                     split_on_border is False
                     or (
                         split_on_border is True
-                        and not sorted_y[jdx - 1] == sorted_y[jdx]
+                        and not sorted_y[jdx] == sorted_y[jdx + 1]
                     )
                 ) and sorted_X_y[jdx][0] != sorted_X_y[jdx + 1][0]:
                     # compute trim value of the left
-- 
2.43.0


From 4c5a0c6620c3adcd358a16c571f155c0e597c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 093/101] fix: CCR grows the spheres as the reference
 implementation does

---
 smote_variants/oversampling/_ccr.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/smote_variants/oversampling/_ccr.py b/smote_variants/oversampling/_ccr.py
index 7234194..5ec5427 100755
--- a/smote_variants/oversampling/_ccr.py
+++ b/smote_variants/oversampling/_ccr.py
@@ -195,31 +195,21 @@ class CCR(OverSampling):
         last_distance = 0.0
         remaining_energy = self.energy * (majority.shape[1] ** self.scaling)
         radius = 0.0
-        current_majority = 0
         for current_majority in range(len(majority)):
-            if remaining_energy <= 0:
-                remaining_energy = 0
-                break
-
             radius_change = remaining_energy / (current_majority + 1.0)
 
             dist = distances[idx, sorted_distances[current_majority]]
             if dist >= radius + radius_change:
-                radius += radius_change
-                break
+                return radius + radius_change, current_majority
 
-            curr_maj_idx = sorted_distances[current_majority]
-            radius_change = np.max([distances[idx, curr_maj_idx] - last_distance, 0])
+            radius_change = dist - last_distance
             radius += radius_change
             remaining_energy -= radius_change * (current_majority + 1.0)
 
-            last_distance = distances[idx, sorted_distances[current_majority - 1]]
-
-        # if current_majority == len(majority) - 1 then adjust
-        multiplier_flag = int(current_majority == (len(majority) - 1))
-        radius += (remaining_energy / max(1, current_majority)) * multiplier_flag
+            last_distance = dist
 
-        return radius, current_majority
+        # all majority samples are within the sphere
+        return radius + remaining_energy / len(majority), len(majority)
 
     def determine_radii_translations(self, minority, majority):
         """
-- 
2.43.0


From cbddd01a8b30b2c978936ec7909c545a3c4e439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 094/101] fix: NRAS relates the threshold to the number of
 neighbors without the sample itself

---
 smote_variants/oversampling/_nras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_nras.py b/smote_variants/oversampling/_nras.py
index 2821f85..79d766d 100755
--- a/smote_variants/oversampling/_nras.py
+++ b/smote_variants/oversampling/_nras.py
@@ -225,7 +225,7 @@ class NRAS(OverSamplingSimplex):
 
         # noise removal
         t_hat = np.sum(y[ind[:, 1:]] == self.min_label, axis=1)
-        to_remove = np.where(t_hat < self.t * n_neighbors)[0]
+        to_remove = np.where(t_hat < self.t * (n_neighbors - 1))[0]
 
         if len(to_remove) >= len(X_min) - 1:
             return self.return_copies(
-- 
2.43.0


From d96cdf58d3595a4e929573f9839e51d25a6a7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 095/101] fix: NDO_sampling passes the number of neighbors to
 SMOTE

---
 smote_variants/oversampling/_ndo_sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/oversampling/_ndo_sampling.py b/smote_variants/oversampling/_ndo_sampling.py
index 245376b..c5252bf 100755
--- a/smote_variants/oversampling/_ndo_sampling.py
+++ b/smote_variants/oversampling/_ndo_sampling.py
@@ -202,6 +202,7 @@ class NDO_sampling(OverSampling):
         if alpha < self.T:
             smote = SMOTE(
                 self.proportion,
+                n_neighbors=self.n_neighbors,
                 nn_params=nn_params,
                 ss_params=self.ss_params,
                 random_state=self._random_state_init,
-- 
2.43.0


From 79f4677b6c6014e6adea635d5746bacad840247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 096/101] fix: SMOBD ignores infinite distances in the averages
 of the noise filtering

---
 smote_variants/oversampling/_smobd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_smobd.py b/smote_variants/oversampling/_smobd.py
index bb69bcc..64618a6 100755
--- a/smote_variants/oversampling/_smobd.py
+++ b/smote_variants/oversampling/_smobd.py
@@ -148,9 +148,12 @@ class SMOBD(OverSampling):
             warnings.simplefilter("ignore")
             optics.fit(X_min)
 
-        # noise filtering
-        cd_average = np.mean(optics.core_distances_)
-        rd_average = np.mean(optics.reachability_)
+        if np.all(np.isinf(optics.core_distances_)):
+            raise ValueError("factor_1 is not suitable")
+
+        # noise filtering, the undefined distances are infinite
+        cd_average = np.mean(optics.core_distances_[optics.core_distances_ < np.inf])
+        rd_average = np.mean(optics.reachability_[optics.reachability_ < np.inf])
         noise = np.logical_and(
             optics.core_distances_ > cd_average * self.t,
             optics.reachability_ > rd_average * self.t,
-- 
2.43.0


From 0d8ba8ed21f8771e8f8ee4616658cd7df99abe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 097/101] fix: ROSE derives the bandwidth from the number of
 minority samples

---
 smote_variants/oversampling/_rose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_rose.py b/smote_variants/oversampling/_rose.py
index 18844a4..d11a49e 100755
--- a/smote_variants/oversampling/_rose.py
+++ b/smote_variants/oversampling/_rose.py
@@ -96,7 +96,7 @@ class ROSE(OverSampling):
 
         # Estimating the H matrix
         std = np.std(X_min, axis=0)
-        n, d = X.shape  # pylint: disable=invalid-name
+        n, d = X_min.shape  # pylint: disable=invalid-name
         H = std * (4.0 / ((d + 1) * n)) ** (  # pylint: disable=invalid-name
             1.0 / (d + 4)
         )
-- 
2.43.0


From 8503cf38bf674150d341f6899fa77ecd8bfe749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 098/101] fix: G_SMOTE takes the eigenvector belonging to the
 largest eigenvalue

---
 smote_variants/oversampling/_g_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 4ecb2c7..d66ab30 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -169,7 +169,7 @@ class G_SMOTE(OverSamplingSimplex):
             # finding H_l by linear decomposition
             cov = np.cov(X_min, rowvar=False)
             eigw, eigv = np.linalg.eig(cov)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
         else:
             # building a non-linear kernel matrix and finding H_n by its
             # decomposition
@@ -182,7 +182,7 @@ class G_SMOTE(OverSamplingSimplex):
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
             kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
 
         return H
 
-- 
2.43.0


From da66b426ea0ff0b17435744d27dd529b8396cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 099/101] fix: SYMPROD keeps the majority class when all of its
 samples are outliers

---
 smote_variants/oversampling/_symprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index c4a83b4..558a7bf 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -141,7 +141,7 @@ class SYMPROD(OverSampling):
 
         # Apply the original dataset if the dataset is null
         X_min = X[y == self.min_label] if len(X_min) == 0 else X_min
-        X_maj = X[y == self.maj_label] if len(X_min) == 0 else X_maj
+        X_maj = X[y == self.maj_label] if len(X_maj) == 0 else X_maj
 
         # Create X, y after Noise Removal
         # seemingly the purpose of this is to standardize all data together
-- 
2.43.0


From 93fa9561753439605e4dd1f7d84b7f9f452caa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 100/101] fix: SYMPROD synthesizes from the neighborhoods of
 the reference samples, also when they are smaller than requested

---
 smote_variants/oversampling/_symprod.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 558a7bf..303f5fe 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -328,14 +328,14 @@ class SYMPROD(OverSampling):
                 "Not enough samples for " f"m_neighbors {self.params['m_neighbors']}"
             )
 
-    def select_neighborhoods(self, X_min, nn_params, n_to_sample):
+    def select_neighborhoods(self, X_min, nn_params, min_reference):
         """
         Select the neighborhoods used for sampling.
 
         Args:
             X_min (np.array): the minority samples
             nn_params (dict): the nearest neighbor parameters
-            n_to_sample (int): the number of samples to generate
+            min_reference (np.array): the indices of the reference samples
 
         Returns:
             np.array: the selected neighbors
@@ -356,9 +356,9 @@ class SYMPROD(OverSampling):
         )
 
         rand_ind = neighborhoods[
-            self.random_state.choice(len(neighborhoods), n_to_sample)
+            self.random_state.choice(len(neighborhoods), len(min_reference))
         ]
-        nn_selected = np.take(i_min_min, rand_ind)
+        nn_selected = i_min_min[min_reference[:, None], rand_ind]
 
         return nn_selected
 
@@ -382,7 +382,7 @@ class SYMPROD(OverSampling):
             len(prob_dist), n_to_sample, p=prob_dist, replace=True
         )
 
-        nn_selected = self.select_neighborhoods(X_min, nn_params, n_to_sample)
+        nn_selected = self.select_neighborhoods(X_min, nn_params, min_reference)
 
         synthetic_points = np.zeros(shape=(n_to_sample, X_min[0].shape[0]))
 
@@ -395,9 +395,8 @@ class SYMPROD(OverSampling):
                 cf_norm_min[min_reference][:, None],
             ]
         )
-        dirichlet_param = np.ones(self.params["m_neighbors"] + 1) * (
-            self.params["m_neighbors"] + 2
-        )
+        n_vertices = CF.shape[1]
+        dirichlet_param = np.ones(n_vertices) * (n_vertices + 1)
         random_beta = self.random_state.dirichlet(
             dirichlet_param, size=min_reference.shape[0]
         )
-- 
2.43.0


From c9bd57023e7b663234ff363a078a40ba8bdd4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 101/101] fix: SUNDO removes one sample of each of the closest
 pairs only

---
 smote_variants/oversampling/_sundo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sundo.py b/smote_variants/oversampling/_sundo.py
index b60e391..b6f40c3 100755
--- a/smote_variants/oversampling/_sundo.py
+++ b/smote_variants/oversampling/_sundo.py
@@ -167,7 +167,7 @@ class SUNDO(OverSampling):
         pairs_to_break = np.vstack(pairs_to_break)
 
         # sorting the pairs, otherwise both points would be removed
-        pairs_to_break.sort(axis=1)
+        pairs_to_break.sort(axis=0)
 
         # uniqueing the coordinates - the final number might be less than N
         to_remove = np.unique(pairs_to_break[0])
-- 
2.43.0

